package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"syscall"
	"time"
)

// bs is a byte string, a JSON array of numbers
type bs []byte

func (b bs) MarshalJSON() ([]byte, error) {
	out := make([]byte, 0, 4*len(b)+2)
	out = append(out, '[')
	for i, c := range b {
		if i > 0 {
			out = append(out, ',')
		}
		out = append(out, fmt.Sprintf("%d", c)...)
	}
	return append(out, ']'), nil
}

func (b *bs) UnmarshalJSON(data []byte) error {
	var ints []int
	if err := json.Unmarshal(data, &ints); err != nil {
		return err
	}
	*b = make([]byte, len(ints))
	for i, n := range ints {
		(*b)[i] = byte(n)
	}
	return nil
}

type fatal struct {
	Fatal string `json:"fatal"`
}

const scenarioTimeout = 30 * time.Second

// results moves the results away from fd 1: what the code under test prints
// there goes to a file that has no name, and only its size is looked at
func results() (res *os.File, printed func() bool) {
	die := func(err error) {
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(9)
		}
	}
	fd, err := syscall.Dup(1)
	die(err)
	syscall.CloseOnExec(fd)
	f, err := os.CreateTemp(".", "stray")
	die(err)
	die(os.Remove(f.Name()))
	die(syscall.Dup2(int(f.Fd()), 1))
	size := int64(0)
	return os.NewFile(uintptr(fd), "results"), func() bool {
		info, err := f.Stat()
		die(err)
		grown := info.Size() > size
		size = info.Size()
		return grown
	}
}

// drive answers each scenario (a line on stdin) with one line on stdout
func drive(run func(line []byte) interface{}) {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	res, printed := results()
	out := bufio.NewWriterSize(res, 1<<16)
	emit := func(v interface{}) {
		data, err := json.Marshal(v)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(9)
		}
		if n := len(data); printed() && n > 2 && data[n-1] == '}' {
			data = append(data[:n-1], `,"stray":true}`...)
		}
		out.Write(data)
		out.WriteByte('\n')
	}
	timer := time.NewTimer(scenarioTimeout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			break
		}
		done := make(chan interface{}, 1)
		// One line per scenario must be out before code that may end the process runs
		if out.Buffered() > 0 {
			out.Flush()
		}
		go func() {
			defer func() {
				if r := recover(); r != nil {
					done <- fatal{fmt.Sprint("panic: ", r)}
				}
			}()
			done <- run(line)
		}()
		timer.Reset(scenarioTimeout)
		select {
		case v := <-done:
			emit(v)
		case <-timer.C:
			out.Flush()
			fmt.Fprintln(os.Stderr, "hang")
			os.Exit(3)
		}
	}
	out.Flush()
}
