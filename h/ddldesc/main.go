//go:build go1.22

// Command ddldesc decides C18 (round trips of a description) and C23
// (generated SQL) by enumerating bounded spaces of descriptions.
package main

import (
	"flag"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sjansen/pgutil/internal/zzverif/ev"
	"github.com/sjansen/pgutil/internal/zzverif/watch"
)

var (
	prop     = flag.String("prop", "C18", "")
	rep      *ev.Report
	mu       sync.Mutex
	tmp      = os.Getenv("VERIF_TMP")
	thorough = ev.Thorough()
	stop     func() bool
	complete = true
)

func add(sig, what string) {
	mu.Lock()
	defer mu.Unlock()
	rep.Add(sig, what, nil)
}

func each(n int, f func(i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	for p := 0; p < runtime.NumCPU(); p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				if stop() {
					mu.Lock()
					complete = false
					mu.Unlock()
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

func main() {
	flag.Parse()
	rep = ev.New(*prop, "model_checking")
	watch.Start(func() {
		mu.Lock()
		rep.Add("no end", "reading or writing a description does not end", nil)
		rep.Finish()
	}, &trips)
	stop = ev.Budget(120*time.Second, 700*time.Second)
	if *prop == "C18" {
		places := roundTrips()
		rep.Coverage["large_descriptions"] = large()
		bad := malformed()
		texts := rawTexts()
		rep.Coverage["states"] = trips.Load()
		rep.Coverage["transitions"] = trips.Load()*3 + int64(bad+texts)
		rep.Coverage["traces_validated_against_impl"] = trips.Load() + int64(bad+texts)
		rep.Coverage["places"] = places
		rep.Coverage["malformed_texts"] = bad
		rep.Coverage["texts_read_in_both_ways"] = texts
		b, _ := write(sample(1))
		rep.Coverage["samples"] = []any{string(b)[:min(400, len(b))]}
		rep.Coverage["bound"] = "every place of a description times every value of an alphabet; every pair of places of one block; zero to two blocks of each kind; every line of a written description damaged in every listed way; every truncation of a written description, and every byte of it replaced by each of a list, read as a file and as bytes"
	} else {
		sqlMain()
	}
	rep.Coverage["exhaustive"] = complete
	rep.Finish()
}
