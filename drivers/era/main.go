package main

import (
	"encoding/json"
	"reflect"
	"strconv"
	"strings"

	"github.com/fwip/posix-utils/pkg/locale"
)

func main() {
	drive(func(line []byte) interface{} {
		var s struct{ S bs }
		if err := json.Unmarshal(line, &s); err != nil {
			panic(err)
		}
		era, err := locale.NewEra(string(s.S))
		out := map[string]interface{}{"err": err != nil}
		v := reflect.ValueOf(era)
		for i := 0; i < v.NumField(); i++ {
			name := strings.ToLower(v.Type().Field(i).Name)
			switch f := v.Field(i); f.Kind() {
			case reflect.String:
				out[name] = bs(f.String())
			case reflect.Int, reflect.Int64, reflect.Int32:
				out[name] = bs(strconv.FormatInt(f.Int(), 10))
			case reflect.Bool:
				out[name] = f.Bool()
			}
		}
		return out
	})
}
