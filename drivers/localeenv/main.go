package main

import (
	"encoding/json"
	"os"

	"github.com/fwip/posix-utils/pkg/locale"
)

type variable struct {
	N string
	V bs
}

type result struct {
	Out bs  `json:"out"`
	RC  int `json:"rc"`
}

func main() {
	drive(func(line []byte) interface{} {
		var s struct{ Env []variable }
		if err := json.Unmarshal(line, &s); err != nil {
			panic(err)
		}
		for _, n := range []string{"LANG", "LC_ALL", "LC_COLLATE", "LC_CTYPE", "LC_MESSAGES", "LC_MONETARY", "LC_NUMERIC", "LC_TIME"} {
			os.Unsetenv(n)
		}
		for _, v := range s.Env {
			if err := os.Setenv(v.N, string(v.V)); err != nil {
				panic(err)
			}
		}
		return result{Out: bs(locale.FromEnv().String())}
	})
}
