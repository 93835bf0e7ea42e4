package main

import (
	"encoding/json"
	"io/ioutil"
	"os"
	"reflect"
	"strconv"
	"strings"

	"github.com/fwip/posix-utils/pkg/locale"
)

type setting struct {
	N string `json:"n"`
	V string `json:"v"`
}

// One definition per process, as what is wrong with one may end the process; or,
// with an argument, a JSON list of them, read one after the other.
func main() {
	text, err := ioutil.ReadAll(os.Stdin)
	if err != nil {
		os.Exit(9)
	}
	texts := []string{string(text)}
	if len(os.Args) > 1 {
		if json.Unmarshal(text, &texts) != nil {
			os.Exit(9)
		}
	}
	for _, t := range texts {
		one(t)
	}
}

func one(text string) {
	n, def := locale.VerifParse(text)
	if n != 0 {
		os.Exit(1)
	}
	out := []setting{}
	mon := reflect.ValueOf(def).FieldByName("monetary")
	if mon.IsValid() && mon.Kind() == reflect.Struct {
		for i := 0; i < mon.NumField(); i++ {
			f := mon.Field(i)
			// the name as letters only: intCurrSymbol, int_curr_symbol -> intcurrsymbol
			s := setting{N: strings.ToLower(strings.ReplaceAll(mon.Type().Field(i).Name, "_", ""))}
			switch f.Kind() {
			case reflect.String:
				s.V = f.String()
			case reflect.Int:
				s.V = strconv.FormatInt(f.Int(), 10)
			case reflect.Slice:
				var p []string
				for j := 0; j < f.Len(); j++ {
					if f.Index(j).Kind() != reflect.Int {
						continue
					}
					p = append(p, strconv.FormatInt(f.Index(j).Int(), 10))
				}
				s.V = strings.Join(p, ";")
			default:
				continue
			}
			out = append(out, s)
		}
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
