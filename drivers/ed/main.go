package main

import (
	"bytes"
	"encoding/json"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"syscall"
	"time"

	"github.com/fwip/posix-utils/pkg/ed"
)

type file struct {
	N bs  `json:"n"`
	D bs  `json:"d"`
	M int `json:"m"`
}

type one struct {
	Script bs    `json:"script"`
	Chunk  int   `json:"chunk"` // bytes per read; 0: all at once, -1: random, -2: all, with EOF
	Slow   int   `json:"slow"`  // 0: plain writer, 1: yields, 2: sleeps
	Via    int   `json:"via"`   // 0: zero value, 1: NewEditor
	Seed   int64 `json:"seed"`
}

type scenario struct {
	Files []file `json:"files"`
	Dirs  []bs   `json:"dirs"`
	Eds   []one  `json:"eds"`
}

type record struct {
	Outs   []bs   `json:"outs"`
	Finals []bs   `json:"finals"`
	Files  []file `json:"files"`
}

type reader struct {
	data  []byte
	chunk int
	rng   *rand.Rand
}

func (r *reader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	n := len(r.data)
	switch {
	case r.chunk > 0:
		n = r.chunk
	case r.chunk == -1:
		n = 1 + r.rng.Intn(9)
		if r.rng.Intn(4) == 0 {
			runtime.Gosched()
		}
		if r.rng.Intn(40) == 0 {
			time.Sleep(50 * time.Microsecond)
		}
	}
	if n > len(r.data) {
		n = len(r.data)
	}
	n = copy(p, r.data[:n])
	r.data = r.data[n:]
	if r.chunk == -2 && len(r.data) == 0 {
		return n, io.EOF
	}
	return n, nil
}

type writer struct {
	bytes.Buffer
	slow int
	rng  *rand.Rand
}

func (w *writer) Write(p []byte) (int, error) {
	switch w.slow {
	case 1:
		runtime.Gosched()
	case 2:
		time.Sleep(time.Duration(w.rng.Intn(200)) * time.Microsecond)
	}
	return w.Buffer.Write(p)
}

func main() {
	syscall.Umask(027)
	base, err := os.MkdirTemp(".", "ed")
	if err != nil {
		panic(err)
	}
	base, err = filepath.Abs(base)
	if err != nil {
		panic(err)
	}
	if os.Stderr, err = os.OpenFile("/dev/null", os.O_WRONLY, 0); err != nil {
		panic(err)
	}
	must := func(err error) {
		if err != nil {
			os.Exit(9)
		}
	}
	drive(func(line []byte) interface{} {
		var sc scenario
		must(json.Unmarshal(line, &sc))
		dir, err := os.MkdirTemp(base, "s")
		must(err)
		must(os.Chdir(dir))
		defer func() { must(os.Chdir(base)); must(os.RemoveAll(dir)) }()
		for _, d := range sc.Dirs {
			must(os.Mkdir(string(d), 0755))
		}
		for _, f := range sc.Files {
			m := uint32(0644)
			if f.M != 0 {
				m = uint32(f.M)
			}
			must(os.WriteFile(string(f.N), f.D, 0600))
			must(syscall.Chmod(string(f.N), m))
		}
		rec := record{Outs: make([]bs, len(sc.Eds)), Finals: make([]bs, len(sc.Eds)), Files: []file{}}
		run := func(i int) {
			o := sc.Eds[i]
			rng := rand.New(rand.NewSource(o.Seed))
			in := &reader{data: o.Script, chunk: o.Chunk, rng: rng}
			out := &writer{slow: o.Slow, rng: rand.New(rand.NewSource(o.Seed + 1))}
			e := &ed.Itor{}
			if o.Via == 1 {
				e = ed.NewEditor(in, out)
			}
			e.ProcessCommands(in, out)
			rec.Outs[i] = out.Bytes()
			rec.Finals[i] = bs(e.String())
		}
		if len(sc.Eds) == 1 {
			run(0)
		} else {
			var wg sync.WaitGroup
			var mu sync.Mutex
			var failed interface{}
			for i := range sc.Eds {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							mu.Lock()
							failed = r
							mu.Unlock()
						}
					}()
					run(i)
				}(i)
			}
			wg.Wait()
			if failed != nil {
				panic(failed)
			}
		}
		must(filepath.Walk(".", func(p string, info os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if info.Mode().IsRegular() {
				d, err := os.ReadFile(p)
				if err != nil {
					return err
				}
				rec.Files = append(rec.Files, file{bs(p), d, int(info.Sys().(*syscall.Stat_t).Mode & 07777)})
			}
			return nil
		}))
		return rec
	})
}
