// Drives pkg/regexes: parses an expression and matches strings against it.
package main

import (
	"encoding/json"

	"github.com/fwip/posix-utils/pkg/regexes"
)

type scenario struct {
	Re    []rune   `json:"re"`
	Strs  [][]rune `json:"strs"`
	Res   []int    `json:"res"`
	Again []int    `json:"again"`
}

func bit(b bool) int {
	if b {
		return 1
	}
	return 0
}

func run(line []byte) interface{} {
	var s scenario
	if err := json.Unmarshal(line, &s); err != nil {
		panic(err)
	}
	re, err := regexes.ParseBre(string(s.Re))
	if err != nil {
		return fatal{err.Error()}
	}
	s.Res = make([]int, len(s.Strs))
	s.Again = make([]int, len(s.Strs))
	for i, str := range s.Strs {
		s.Res[i] = bit(re.Matches(string(str)))
	}
	for i := len(s.Strs) - 1; i >= 0; i-- {
		s.Again[i] = bit(re.Matches(string(s.Strs[i])))
	}
	return s
}

func main() { drive(run) }
