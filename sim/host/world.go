// Package host simulates the parts of the repository that touch disks, networks, clocks and other threads. Each run is
// a function of one tape of choices: the faults, delays and interleavings as well as the inputs.
package host

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"hash"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"zksim/engine"
)

// World is one simulated execution.
type World struct {
	S     *engine.Src
	FS    *FS
	Class string

	mu     sync.Mutex
	sum    hash.Hash
	lines  []string
	faults map[string]int
	start  time.Time
	simmed time.Duration
	steps  int
}

// Scen is a family of executions deciding (part of) one property.
type Scen struct {
	Prop   string
	Name   string
	Runs   int  // quick tier
	Factor int  // thorough multiplier, default 20
	Bubble bool // runs under the fake clock
	Fn     func(w *World)
}

type failure struct{ kind, msg string }

// Fail ends the run with a violation.
func (w *World) Fail(kind, f string, a ...interface{}) { panic(failure{kind, fmt.Sprintf(f, a...)}) }

// Log adds one event to the trace of the run.
func (w *World) Log(f string, a ...interface{}) {
	w.mu.Lock()
	defer w.mu.Unlock()
	s := fmt.Sprintf(f, a...)
	w.sum.Write([]byte(s + "\n"))
	w.steps++
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	if len(w.lines) < 400 {
		w.lines = append(w.lines, s)
	}
}

// Fault counts an injected fault.
func (w *World) Fault(kind string) {
	w.mu.Lock()
	w.faults[kind]++
	w.mu.Unlock()
}

// Faulted reports whether anything was injected so far.
func (w *World) Faulted() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.faults) > 0
}

// Try runs f and turns a panic of the code under test into a violation.
func (w *World) Try(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if v, ok := r.(failure); ok {
				panic(v)
			}
			w.Fail("panic", "%s panicked: %v\n%s", what, r, stack())
		}
	}()
	f()
}

func stack() string {
	var r []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "zk-utils") && !strings.Contains(l, "zksim") {
			r = append(r, strings.TrimSpace(l))
		}
	}
	if len(r) > 6 {
		r = r[:6]
	}
	return strings.Join(r, "\n")
}

// Result is what one run leaves behind.
type Result struct {
	Scen   string         `json:"scen"`
	Run    int            `json:"run"`
	Digest string         `json:"digest"`
	Class  string         `json:"class"`
	Faults map[string]int `json:"faults,omitempty"`
	Simmed float64        `json:"sim_s"`
	Steps  int            `json:"steps"`
	Kind   string         `json:"kind,omitempty"`
	Msg    string         `json:"msg,omitempty"`
	Draws  []uint64       `json:"draws,omitempty"`
	Trace  []string       `json:"trace,omitempty"`
}

// Exec performs one run.
func Exec(t *testing.T, sc *Scen, run int, src *engine.Src) (r Result) {
	w := &World{S: src, sum: sha256.New(), faults: map[string]int{}, Class: "plain"}
	w.FS = newFS(w)
	body := func() {
		defer func() {
			if x := recover(); x != nil {
				if v, ok := x.(failure); ok {
					r.Kind, r.Msg = v.kind, v.msg
				} else {
					r.Kind, r.Msg = "panic", fmt.Sprintf("%v\n%s", x, debug.Stack())
				}
			}
		}()
		defer resetSeams()
		installSeams(w)
		sc.Fn(w)
	}
	if sc.Bubble {
		synctest.Test(t, func(*testing.T) {
			w.start = time.Now()
			body()
			w.simmed = time.Since(w.start)
		})
	} else {
		body()
	}
	r.Scen, r.Run, r.Class, r.Faults, r.Draws = sc.Name, run, w.Class, w.faults, src.Record()
	r.Simmed, r.Steps = w.simmed.Seconds(), w.steps
	fmt.Fprintf(w.sum, "%s %s %s %v", r.Kind, r.Msg, r.Class, sortedCounts(w.faults))
	r.Digest = hex.EncodeToString(w.sum.Sum(nil)[:8])
	if r.Kind != "" {
		r.Trace = w.lines
	}
	return
}

func sortedCounts(m map[string]int) (r []string) {
	for k, v := range m {
		r = append(r, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(r)
	return
}

// Shrink looks for a shorter tape with the same kind of failure.
func Shrink(t *testing.T, sc *Scen, r Result, budget time.Duration) Result {
	end := time.Now().Add(budget)
	best := r
	try := func(d []uint64) bool {
		if time.Now().After(end) {
			return false
		}
		src := engine.ReplaySrc(d)
		x := Exec(t, sc, r.Run, src)
		if x.Kind != r.Kind || x.Class != r.Class {
			return false
		}
		x.Draws = d
		best = x
		return true
	}
	for changed := true; changed && time.Now().Before(end); {
		changed = false
		for n := len(best.Draws) / 2; n >= 1; n /= 2 {
			for i := 0; i+n <= len(best.Draws); {
				d := append(append([]uint64{}, best.Draws[:i]...), best.Draws[i+n:]...)
				if try(d) {
					changed = true
				} else {
					i += n
				}
			}
		}
		for i := 0; i < len(best.Draws); i++ {
			for _, v := range []uint64{0, best.Draws[i] / 2, best.Draws[i] - 1} {
				if v < best.Draws[i] {
					d := append([]uint64{}, best.Draws...)
					d[i] = v
					if try(d) {
						changed = true
						break
					}
				}
			}
		}
	}
	return best
}
