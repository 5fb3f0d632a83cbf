//go:build go1.21

// Package pool spreads numbered work items over worker processes (the
// explorer is single-threaded per process).
package pool

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"runtime/pprof"
	"sync"
	"time"

	"github.com/sjansen/pgutil/internal/zzverif/watch"
)

// Worker reads item numbers from stdin and answers one JSON line each.
func Worker(work func(i int) any) {
	runtime.GOMAXPROCS(1)
	watch.Start(func() {
		fmt.Fprintln(os.Stderr, "worker: no progress")
		pprof.Lookup("goroutine").WriteTo(os.Stderr, 1)
		os.Exit(4)
	})
	in := bufio.NewScanner(os.Stdin)
	out := os.NewFile(3, "results")
	enc := json.NewEncoder(out)
	for in.Scan() {
		var i int
		fmt.Sscan(in.Text(), &i)
		watch.Tick()
		if err := enc.Encode(work(i)); err != nil {
			fmt.Fprintln(os.Stderr, "worker:", err)
			os.Exit(3)
		}
	}
}

// Binary is the program that workers execute.
var Binary = os.Args[0]

// Run distributes items 0..n-1 (highest first if rev) to worker processes
// started with args; handle is called for each answer and returns false to
// stop. It reports the items on which a worker died, and another one after it.
func Run(n int, order []int, args []string, handle func(i int, msg json.RawMessage) bool) (lost []int) {
	procs := runtime.NumCPU()
	if procs > 8 {
		procs = 8
	}
	var mu sync.Mutex
	next, stop := 0, false
	deaths := map[int]int{}
	var again []int
	died := func(i int) {
		mu.Lock()
		defer mu.Unlock()
		if deaths[i]++; deaths[i] == 1 {
			again = append(again, i)
		} else if lost = append(lost, i); len(lost) >= 20 {
			stop = true
		}
	}
	take := func() (int, bool) {
		mu.Lock()
		defer mu.Unlock()
		if stop {
			return 0, false
		}
		if len(again) > 0 {
			i := again[0]
			again = again[1:]
			return i, true
		}
		if next >= n {
			return 0, false
		}
		i := next
		next++
		if order != nil {
			i = order[i]
		}
		return i, true
	}
	var wg sync.WaitGroup
	for p := 0; p < procs; p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				if again := worker(args, take, &mu, died, func(i int, m json.RawMessage) {
					if !handle(i, m) {
						stop = true
					}
				}); !again {
					return
				}
			}
		}()
	}
	wg.Wait()
	return lost
}

func worker(args []string, take func() (int, bool), mu *sync.Mutex, died func(int), handle func(int, json.RawMessage)) bool {
	i, ok := take()
	if !ok {
		return false
	}
	cmd := exec.Command(Binary, args...)
	cmd.Stderr = os.Stderr
	null, _ := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	cmd.Stdout = null
	defer null.Close()
	stdin, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	cmd.ExtraFiles = []*os.File{w}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	w.Close()
	dec := json.NewDecoder(r)
	for ok {
		fmt.Fprintln(stdin, i)
		var m json.RawMessage
		if err := dec.Decode(&m); err != nil {
			// the end of its output is the end of the worker, or soon will be
			stdin.Close()
			kill := time.AfterFunc(10*time.Second, func() { cmd.Process.Kill() })
			cmd.Wait()
			kill.Stop()
			r.Close()
			if cmd.ProcessState.ExitCode() == 3 {
				fmt.Fprintln(os.Stderr, "worker: the harness can not decide item", i)
				os.Exit(3)
			}
			died(i)
			return true
		}
		mu.Lock()
		handle(i, m)
		mu.Unlock()
		i, ok = take()
	}
	stdin.Close()
	cmd.Wait()
	r.Close()
	return false
}
