package main

import (
	"encoding/json"

	"github.com/fwip/posix-utils/pkg/tsort"
)

type scenario struct {
	Adds [][]bs
	Runs int
	Asks []int // after how many adds Order is called, the last time after all of them
}

type run struct {
	N     int  `json:"n"` // after that many adds
	Err   bool `json:"err"`
	Order []bs `json:"order"`
}

type result struct {
	Runs []run `json:"runs"`
}

func main() {
	drive(func(line []byte) interface{} {
		var s scenario
		if err := json.Unmarshal(line, &s); err != nil {
			panic(err)
		}
		var res result
		for i := 0; i < s.Runs; i++ {
			var sorter tsort.Sorter
			ask := func(n int) {
				order, err := sorter.Order()
				r := run{N: n, Err: err != nil, Order: []bs{}}
				for _, o := range order {
					r.Order = append(r.Order, bs(o))
				}
				for j := range order {
					order[j] = "overwritten" // the caller's now
				}
				res.Runs = append(res.Runs, r)
			}
			for n, a := range s.Adds {
				if i > 0 { // the first time it is only asked at the end
					for _, k := range s.Asks {
						if k == n {
							ask(n)
						}
					}
				}
				items := make([]string, len(a))
				for j, w := range a {
					items[j] = string(w)
				}
				sorter.Add(items)
				for j := range items {
					items[j] = "overwritten"
				}
			}
			ask(len(s.Adds))
			if i == 1 {
				ask(len(s.Adds))
			}
		}
		return res
	})
}
