// Conformance harness: drives the real packages of /repo and records what they do.
// It is compiled into the module through a build overlay (nothing is written into /repo).
// All verdicts are taken by the TLA+ specifications; this program only observes.
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"log/slog"
	"os"
	"runtime/debug"
	"strconv"
	"sync"
	"time"

	"github.com/chainguard-dev/clog"
)

type caseFn func(c json.RawMessage) any

var caseCmds = map[string]caseFn{}
var subCmds = map[string]func(args []string) int{}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "harness:", err)
	os.Exit(4)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func quietCtx() context.Context {
	return clog.WithLogger(context.Background(), clog.New(slog.NewTextHandler(io.Discard, nil)))
}

func errStr(err error) string {
	if err == nil {
		return ""
	}
	s := err.Error()
	if s == "" {
		s = "error"
	}
	return s
}

// runCase runs one case; a panic of the code under test is an observation.
func runCase(fn caseFn, c json.RawMessage) (res any) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if len(st) > 1800 {
				st = st[:1800]
			}
			res = map[string]any{"panic": fmt.Sprint(r), "stack": st}
		}
	}()
	return fn(c)
}

func runCases(args []string) int {
	fn, ok := caseCmds[args[0]]
	if !ok {
		fatal(fmt.Errorf("no case command %q", args[0]))
	}
	in, err := os.Open(args[1])
	if err != nil {
		fatal(err)
	}
	out, err := os.Create(args[2])
	if err != nil {
		fatal(err)
	}
	jobs, _ := strconv.Atoi(args[3])
	timeout, _ := strconv.Atoi(args[4])
	w := bufio.NewWriter(out)
	var mu sync.Mutex
	emit := func(k int, r any) {
		b, err := json.Marshal(map[string]any{"k": k, "r": r})
		if err != nil {
			b, _ = json.Marshal(map[string]any{"k": k, "r": map[string]any{"harness_error": err.Error()}})
		}
		mu.Lock()
		defer mu.Unlock()
		w.Write(b)
		w.WriteByte('\n')
	}
	type item struct {
		K int             `json:"k"`
		C json.RawMessage `json:"c"`
	}
	ch := make(chan item, 64)
	var wg sync.WaitGroup
	for j := 0; j < jobs; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for it := range ch {
				done := make(chan any, 1)
				it := it
				go func() { done <- runCase(fn, it.C) }()
				t := time.NewTimer(time.Duration(timeout) * time.Second)
				select {
				case r := <-done:
					t.Stop()
					emit(it.K, r)
				case <-t.C:
					emit(it.K, map[string]any{"hang": true})
					mu.Lock()
					w.Flush()
					out.Close()
					fmt.Fprintln(os.Stderr, "case hung:", it.K)
					os.Exit(3)
				}
			}
		}()
	}
	r := bufio.NewReaderSize(in, 1<<20)
	dec := json.NewDecoder(r)
	for {
		var it item
		if err := dec.Decode(&it); err != nil {
			if err == io.EOF {
				break
			}
			fatal(err)
		}
		ch <- it
	}
	close(ch)
	wg.Wait()
	mu.Lock()
	defer mu.Unlock()
	w.Flush()
	if err := out.Close(); err != nil {
		fatal(err)
	}
	return 0
}

func main() {
	debug.SetMaxStack(256 << 20)
	debug.SetMemoryLimit(6 << 30)
	if len(os.Args) < 2 {
		fatal(fmt.Errorf("usage: vh cases CMD IN OUT JOBS TIMEOUT | vh SUB ARGS"))
	}
	if os.Args[1] == "cases" {
		os.Exit(runCases(os.Args[2:]))
	}
	f, ok := subCmds[os.Args[1]]
	if !ok {
		fatal(fmt.Errorf("no command %q", os.Args[1]))
	}
	os.Exit(f(os.Args[2:]))
}

func quietLog() *log.Logger { return log.New(io.Discard, "", 0) }
