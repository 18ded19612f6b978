// vharness drives the real library and records what it did, as JSON traces for TLC. It contains no verdicts.
package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

var (
	outDir   = flag.String("out", ".", "directory for the recorded traces")
	seed     = flag.Int64("seed", 1, "seed")
	thorough = flag.Bool("thorough", false, "deep exploration")
	inFile   = flag.String("in", "", "behaviours to replay")
	only     = flag.Int("only", -1, "run only this scenario")
)

// scale picks a budget by tier.
func scale(quick, deep int) int {
	if *thorough {
		return deep
	}
	return quick
}

var cmds = map[string]func(){}

func out(name string) string { return filepath.Join(*outDir, name) }

// ---- guarded calls: panics are recorded, hangs end the driver with a report ----
type opInfo struct {
	desc  string
	start time.Time
}

var (
	ops   sync.Map
	opSeq atomic.Int64
)

const hangLimit = 30 * time.Second

func watchdog() {
	for {
		time.Sleep(500 * time.Millisecond)
		ops.Range(func(k, v any) bool {
			o := v.(opInfo)
			if time.Since(o.start) > hangLimit {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				os.WriteFile(out("hang.txt"), []byte("call did not return within "+hangLimit.String()+"\n"+o.desc+"\n\n"+string(buf)), 0o644)
				fmt.Fprintln(os.Stderr, "HANG: "+o.desc)
				os.Exit(42)
			}
			return true
		})
	}
}

// guard runs f; it returns what f panicked with, or "".
func guard(desc string, f func()) (p string) {
	id := opSeq.Add(1)
	ops.Store(id, opInfo{desc, time.Now()})
	defer ops.Delete(id)
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprint(r)
			if p == "" {
				p = "panic"
			}
		}
	}()
	f()
	return ""
}

func main() {
	if len(os.Args) < 2 {
		os.Exit(64)
	}
	f, ok := cmds[os.Args[1]]
	if !ok {
		var n []string
		for k := range cmds {
			n = append(n, k)
		}
		sort.Strings(n)
		fmt.Fprintln(os.Stderr, "commands:", n)
		os.Exit(64)
	}
	flag.CommandLine.Parse(os.Args[2:])
	go watchdog()
	f()
}

// parallel runs f(0..n-1) on all cores.
func parallel(n int, f func(k int)) {
	var wg sync.WaitGroup
	var next atomic.Int64
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				k := int(next.Add(1)) - 1
				if k >= n {
					return
				}
				f(k)
			}
		}()
	}
	wg.Wait()
}
