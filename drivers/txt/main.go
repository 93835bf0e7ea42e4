// Drives pkg/txt: edits piece tables and records their text.
package main

import (
	"bytes"
	"encoding/json"
	"io"
	"sync"

	"github.com/fwip/posix-utils/pkg/txt"
)

type step struct {
	T    int    `json:"t"`  // table, 0-based
	Op   string `json:"op"` // new (made now, not at the start), ins, del, mut (change the slice of an earlier insert), read
	Text bs     `json:"text"`
	At   int    `json:"at"`
	N    int    `json:"n"`
	Real []int  `json:"real,omitempty"` // at and n in bytes, where they count blocks
	Past int    `json:"past,omitempty"` // n is the largest number less past-1
	Chk  int    `json:"chk"`
	Obs  []bs   `json:"obs"`
}

type scenario struct {
	Src    bs     `json:"src,omitempty"`
	Items  []int  `json:"items,omitempty"` // a long source: numbers below 1000 are bytes, others blocks
	Block  int    `json:"block,omitempty"` // the length of each
	Total  int    `json:"total,omitempty"`
	Lens   []int  `json:"lens"`   // one table per entry: how much of the source it covers; -1: zero value
	Reader string `json:"reader"` // how the source ends a read
	Steps  []step `json:"steps"`
	After  bs     `json:"after"`
	Conc   int    `json:"conc"` // each table is edited by a goroutine of its own, and read when all are done
}

// eofAt returns io.EOF with the last bytes, as io.ReaderAt allows
type eofAt struct{ data []byte }

func (e eofAt) ReadAt(p []byte, off int64) (int, error) {
	if off >= int64(len(e.data)) {
		return 0, io.EOF
	}
	n := copy(p, e.data[off:])
	if off+int64(n) >= int64(len(e.data)) {
		return n, io.EOF
	}
	return n, nil
}

// far is a source too long to be held
type far struct {
	items []int
	block int64
}

func (f far) ReadAt(p []byte, off int64) (int, error) {
	if len(p) > 1<<24 {
		panic("a read of text that was deleted")
	}
	var pos int64
	n := 0
	for _, x := range f.items {
		end := pos + 1
		if x >= 1000 {
			end = pos + f.block
		}
		for off < end && n < len(p) {
			p[n] = byte(x)
			n++
			off++
		}
		if n == len(p) {
			return n, nil
		}
		pos = end
	}
	return n, io.EOF
}

func run(line []byte) interface{} {
	var s scenario
	if err := json.Unmarshal(line, &s); err != nil {
		panic(err)
	}
	src := append([]byte{}, s.Src...)
	tables := make([]*txt.PieceTable, len(s.Lens))
	make1 := func(i int) {
		var pt txt.PieceTable
		if l := s.Lens[i]; l >= 0 {
			var r io.ReaderAt = bytes.NewReader(src)
			if s.Reader == "eof" {
				r = eofAt{src}
			}
			if s.Items != nil {
				r, l = far{s.Items, int64(s.Block)}, s.Total
			}
			pt = txt.NewPieceTable(r, l)
		}
		tables[i] = &pt
	}
	later := map[int]bool{}
	for _, st := range s.Steps {
		if st.Op == "new" {
			later[st.T] = true
		}
	}
	for i := range s.Lens {
		if !later[i] {
			make1(i)
		}
	}
	var passed [][]byte
	do := func(st *step) {
		pt := tables[st.T]
		at, n := st.At, st.N
		if st.Real != nil {
			at, n = st.Real[0], st.Real[1]
		}
		if st.Past > 0 {
			n = int(^uint(0)>>1) - (st.Past - 1)
		}
		switch st.Op {
		case "new":
			make1(st.T)
		case "ins":
			text := append([]byte{}, st.Text...)
			if s.Conc == 0 {
				passed = append(passed, text)
			}
			pt.Insert(text, at)
			if s.Conc != 0 {
				for j := range text {
					text[j] = 255
				}
			}
		case "del":
			pt.Delete(n, at)
		case "mut":
			for j := range passed[st.N] {
				passed[st.N][j] = 255
			}
			_ = append(passed[st.N][:0], st.Text...)
		case "read":
			_ = pt.String()
		}
	}
	look := func(st *step) {
		st.Obs = []bs{}
		if st.Chk == 1 {
			for _, t := range tables {
				if t == nil {
					st.Obs = append(st.Obs, bs{})
				} else {
					st.Obs = append(st.Obs, bs(t.String()))
				}
			}
		}
	}
	if s.Conc != 0 {
		var wg sync.WaitGroup
		failed := make(chan interface{}, len(tables))
		start := make(chan bool)
		for t := range tables {
			wg.Add(1)
			go func(t int) {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						failed <- p
					}
				}()
				<-start
				for i := range s.Steps {
					if s.Steps[i].T == t {
						do(&s.Steps[i])
					}
				}
			}(t)
		}
		close(start)
		wg.Wait()
		select {
		case p := <-failed:
			panic(p)
		default:
		}
		for i := range s.Steps {
			look(&s.Steps[i])
		}
	} else {
		for i := range s.Steps {
			do(&s.Steps[i])
			look(&s.Steps[i])
		}
	}
	s.After = bs(src)
	return s
}

func main() { drive(run) }
