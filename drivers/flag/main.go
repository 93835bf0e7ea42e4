package main

import (
	"encoding/json"
	"os"
	"strconv"

	"github.com/fwip/posix-utils/pkg/flag"
)

type option struct {
	L rune   `json:"l"`
	K string `json:"k"`
}

type scenario struct {
	Opts   []option
	Args   []bs
	OsArgs bool // hand the arguments over in os.Args
	Preset int  // which values the variables have before
}

type value struct {
	Set bool `json:"set"`
	Val bs   `json:"val"`
}

type result struct {
	Err  bool    `json:"err"`
	Ops  []bs    `json:"ops"`
	Vals []value `json:"vals"`
}

// once parses the command line with the variables preset in one of two ways
func once(s scenario, preset int) result {
	var p flag.Parser
	bools := make([]bool, len(s.Opts))
	ints := make([]int64, len(s.Opts))
	strs := make([]string, len(s.Opts))
	preInt := []int64{0, 987654321}[preset]
	preStr := []string{"", "preset\x00value"}[preset]
	for i, o := range s.Opts {
		ints[i], strs[i] = preInt, preStr
		switch o.K {
		case "bool":
			p.BoolVar(&bools[i], o.L)
		case "int":
			p.IntVar(&ints[i], o.L)
		case "string":
			p.StringVar(&strs[i], o.L)
		}
	}
	args := make([]string, 0)
	for _, a := range s.Args {
		args = append(args, string(a))
	}
	if s.OsArgs {
		os.Args = append([]string{"program"}, args...)
	} else {
		p.Input = args
	}
	ops, err := p.Parse()
	r := result{Err: err != nil, Ops: []bs{}}
	for _, o := range ops {
		r.Ops = append(r.Ops, bs(o))
	}
	for i, o := range s.Opts {
		v := value{Val: bs("")}
		switch o.K {
		case "bool":
			v.Set = bools[i]
		case "int":
			v.Set = ints[i] != preInt
			v.Val = bs(strconv.FormatInt(ints[i], 10))
		case "string":
			v.Set = strs[i] != preStr
			v.Val = bs(strs[i])
		}
		r.Vals = append(r.Vals, v)
	}
	return r
}

func main() {
	drive(func(line []byte) interface{} {
		var s scenario
		if err := json.Unmarshal(line, &s); err != nil {
			panic(err)
		}
		// An option that is set to what it was before shows with the other preset
		a := once(s, 1)
		b := once(s, 0)
		same := a.Err == b.Err && len(a.Ops) == len(b.Ops)
		for i := range a.Vals {
			if b.Vals[i].Set && !a.Vals[i].Set {
				a.Vals[i] = b.Vals[i]
			}
			// both say it was set: to the same value
			if a.Vals[i].Set && b.Vals[i].Set && string(a.Vals[i].Val) != string(b.Vals[i].Val) {
				same = false
			}
		}
		if !same {
			return fatal{"the same command line is parsed in two ways"}
		}
		if a.Vals == nil {
			a.Vals = []value{}
		}
		return a
	})
}
