package main

import (
	"encoding/json"
	"strconv"
	"strings"

	"github.com/fwip/posix-utils/pkg/diff"
)

type scenario struct {
	Old, New []bs
	Nil      bool     // hand over nil for an empty list
	OldRuns  [][2]int // in place of the lists: runs (first, count) of lines that are the decimal numbers
	NewRuns  [][2]int
}

func runs(in [][2]int) []bs {
	var out []bs
	for _, r := range in {
		for i := 0; i < r[1]; i++ {
			out = append(out, bs(strconv.Itoa(r[0]+i)))
		}
	}
	return out
}

// short turns lists of many decimal numbers back into runs, each (mark, first, count)
func short(in []string) [][3]int {
	out := [][3]int{}
	for _, s := range in {
		mark := 0
		if len(s) > 2 && s[1] == ' ' {
			mark, s = int(s[0]), s[2:]
		}
		n, err := strconv.Atoi(s)
		if err != nil || strconv.Itoa(n) != s {
			n = -1
		}
		if k := len(out) - 1; k >= 0 && out[k][0] == mark && n >= 0 && out[k][1]+out[k][2] == n {
			out[k][2]++
			continue
		}
		out = append(out, [3]int{mark, n, 1})
	}
	return out
}

type bigResult struct {
	Runs     [][3]int `json:"runs"`
	Out      bs       `json:"out"`
	OldAfter [][3]int `json:"oldafter"`
	NewAfter [][3]int `json:"newafter"`
}

type result struct {
	Parts    []bs `json:"parts"`
	Out      bs   `json:"out"`
	OldAfter []bs `json:"oldafter"`
	NewAfter []bs `json:"newafter"`
}

func strs(in []bs, null bool) []string {
	if len(in) == 0 && null {
		return nil
	}
	// room after the end, so that an append to the caller's slice shows up
	out := make([]string, 0, len(in)+4)
	for _, b := range in {
		out = append(out, string(b))
	}
	full := out[:cap(out)]
	for i := len(in); i < cap(out); i++ {
		full[i] = "untouched"
	}
	return out
}

func back(in []string) []bs {
	out := make([]bs, 0)
	for _, s := range in {
		out = append(out, bs(s))
	}
	for _, s := range in[:cap(in)][len(in):] {
		if s != "untouched" {
			out = append(out, bs(s)) // written past the end of the caller's list
		}
	}
	return out
}

func main() {
	drive(func(line []byte) interface{} {
		var s scenario
		if err := json.Unmarshal(line, &s); err != nil {
			panic(err)
		}
		if s.OldRuns != nil {
			s.Old, s.New = runs(s.OldRuns), runs(s.NewRuns)
			old, new := strs(s.Old, false), strs(s.New, false)
			changes := diff.Diff(old, new)
			b := bigResult{Out: bs(diff.Format(changes))}
			var parts []string
			for _, c := range changes {
				if t := c.String(); t != "" {
					parts = append(parts, strings.Split(t, "\n")...)
				}
			}
			b.Runs, b.OldAfter, b.NewAfter = short(parts), short(old), short(new)
			return b
		}
		old, new := strs(s.Old, s.Nil), strs(s.New, s.Nil)
		changes := diff.Diff(old, new)
		out := diff.Format(changes)
		r := result{Parts: make([]bs, 0), Out: bs(out)}
		for _, c := range changes {
			r.Parts = append(r.Parts, bs(c.String()))
		}
		r.OldAfter, r.NewAfter = back(old), back(new)
		return r
	})
}
