package host

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"zksim/engine"
)

var registry []*Scen

var assumptions = map[string][]string{}

func Assumptions(p string) []string { return append([]string{}, assumptions[p]...) }

// Scenarios of a property.
func Scenarios(prop string) (r []*Scen) {
	for _, s := range registry {
		if s.Prop == prop {
			r = append(r, s)
		}
	}
	return
}

func runsOf(s *Scen, tier string, scale float64) int {
	n := s.Runs
	if tier == "thorough" {
		k := s.Factor
		if k == 0 {
			k = 20
		}
		n *= k
	}
	if scale > 0 {
		n = int(float64(n)*scale) + 1
	}
	return n
}

func srcFor(seed uint64, sc *Scen, run int) *engine.Src {
	return engine.NewSrc(engine.NewRNG(seed, engine.HashStr(sc.Prop), engine.HashStr(sc.Name), uint64(run)))
}

// Beat tells the driver that a long run goes on.
var Beat = func() {}

// inTest calls f with a usable test handle and ends the process.
func inTest(f func(t *testing.T)) {
	testing.Main(func(string, string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "sim", F: f}}, nil, nil)
}

// Worker performs the runs i with i mod n == k from a position on, and reports each on its output.
func Worker(prop, tier string, seed uint64, scale float64, k, n, from int) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(2500 << 20)
	out := bufio.NewWriter(os.Stdout)
	emit := func(tag string, v interface{}) {
		b, _ := json.Marshal(v)
		fmt.Fprintf(out, "@%s %s\n", tag, b)
		out.Flush()
	}
	Beat = func() { emit("beat", 0) }
	inTest(func(t *testing.T) {
		pos := 0
		seen := map[string]bool{}
		for _, sc := range Scenarios(prop) {
			for run := 0; run < runsOf(sc, tier, scale); run++ {
				pos++
				if pos%n != k || pos < from {
					continue
				}
				emit("start", []interface{}{pos, sc.Name, run})
				r := Exec(t, sc, run, srcFor(seed, sc, run))
				if r.Kind != "" {
					key := sc.Name + "/" + r.Class + "/" + r.Kind
					if !seen[key] {
						seen[key] = true
						r = Shrink(t, sc, r, 15*time.Second)
					} else {
						r.Draws, r.Trace = nil, nil
					}
				} else {
					r.Draws = nil
				}
				emit("done", r)
				if pos/n%64 == 0 {
					runtime.GC()
				}
			}
		}
		emit("end", pos)
	})
}

// Violation is one failing run, as written to the replay file.
type Violation struct {
	Property string   `json:"property"`
	Scenario string   `json:"scenario"`
	Kind     string   `json:"kind"`
	Class    string   `json:"class"`
	Msg      string   `json:"message"`
	Seed     uint64   `json:"seed"`
	Run      int      `json:"run"`
	Draws    []uint64 `json:"draws"`
	Trace    []string `json:"trace"`
}

// Report sums up a check.
type Report struct {
	Runs, Steps int
	Wall        float64
	Simmed      float64
	Digest      string
	Faults      map[string]int
	Scens       map[string]int
	Classes     map[string]int
	Distinct    int
	Nontrivial  int
	Samples     []string
	Viol        []*Violation
}

// Drive spreads the runs over worker processes.
func Drive(prop, tier string, seed uint64, scale float64, workers int, limit time.Duration) (*Report, error) {
	rep := &Report{Faults: map[string]int{}, Scens: map[string]int{}, Classes: map[string]int{}}
	begin := time.Now()
	end := begin.Add(limit)
	var mu sync.Mutex
	digests := map[string]bool{}
	busy := map[string]bool{}
	sums := map[string]string{}
	viol := map[string]*Violation{}
	add := func(r *Result) {
		mu.Lock()
		defer mu.Unlock()
		rep.Runs++
		rep.Steps += r.Steps
		rep.Simmed += r.Simmed
		rep.Scens[r.Scen]++
		rep.Classes[r.Scen+"/"+r.Class]++
		for k, v := range r.Faults {
			rep.Faults[k] += v
		}
		digests[r.Digest] = true
		if r.Steps > 0 {
			busy[r.Digest] = true
		}
		if rep.Runs%997 == 1 && len(rep.Samples) < 8 {
			rep.Samples = append(rep.Samples, fmt.Sprintf("%s run %d: class %s, %d events, faults %v, trace digest %s", r.Scen, r.Run, r.Class, r.Steps, sortedCounts(r.Faults), r.Digest))
		}
		sums[fmt.Sprintf("%s %d", r.Scen, r.Run)] = r.Digest
		if r.Kind != "" {
			key := r.Scen + "/" + r.Class + "/" + r.Kind
			v := &Violation{prop, r.Scen, r.Kind, r.Class, r.Msg, seed, r.Run, r.Draws, r.Trace}
			if o := viol[key]; o == nil || len(v.Draws) > 0 && (len(o.Draws) == 0 || len(v.Draws) < len(o.Draws)) {
				viol[key] = v
			}
		}
	}
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	var wg sync.WaitGroup
	errs := make(chan error, workers)
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			from := 0
			for {
				next, done, err := oneWorker(self, prop, tier, seed, scale, k, workers, from, end, add)
				if err != nil {
					errs <- err
					return
				}
				if done || time.Now().After(end) {
					return
				}
				from = next
			}
		}(k)
	}
	wg.Wait()
	select {
	case err := <-errs:
		return nil, err
	default:
	}
	rep.Wall = time.Since(begin).Seconds()
	rep.Distinct = len(digests)
	rep.Nontrivial = len(busy)
	var ks []string
	for k := range sums {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	h := uint64(0)
	for _, k := range ks {
		h = h*1099511628211 ^ engine.HashStr(k+sums[k])
	}
	rep.Digest = fmt.Sprintf("%016x", h)
	ks = ks[:0]
	for k := range viol {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		rep.Viol = append(rep.Viol, viol[k])
	}
	return rep, nil
}

func oneWorker(self, prop, tier string, seed uint64, scale float64, k, n, from int, end time.Time, add func(*Result)) (next int, done bool, err error) {
	cmd := exec.Command(self, "-worker", fmt.Sprintf("%d/%d/%d", k, n, from), "-prop", prop, "-tier", tier, "-seed", fmt.Sprint(seed), "-scale", fmt.Sprint(scale))
	var errTail tail
	cmd.Stderr = &errTail
	pipe, err := cmd.StdoutPipe()
	if err != nil {
		return 0, false, err
	}
	if err := cmd.Start(); err != nil {
		return 0, false, err
	}
	lines := make(chan string, 100)
	go func() {
		rd := bufio.NewReaderSize(pipe, 1<<20)
		for {
			l, err := rd.ReadString('\n')
			if l != "" {
				lines <- l
			}
			if err != nil {
				close(lines)
				return
			}
		}
	}()
	pos, scen, run := 0, "", 0
	running, hung := false, false
	const patience = 120 * time.Second
	timer := time.NewTimer(patience)
loop:
	for {
		select {
		case l, ok := <-lines:
			if !ok {
				break loop
			}
			timer.Reset(patience)
			switch {
			case strings.HasPrefix(l, "@start "):
				var v []interface{}
				if json.Unmarshal([]byte(l[7:]), &v) == nil {
					pos, scen, run, running = int(v[0].(float64)), v[1].(string), int(v[2].(float64)), true
				}
			case strings.HasPrefix(l, "@done "):
				var r Result
				if e := json.Unmarshal([]byte(l[6:]), &r); e != nil {
					return 0, false, e
				}
				add(&r)
				running = false
				if time.Now().After(end) {
					cmd.Process.Kill()
					cmd.Wait()
					return 0, true, nil
				}
			case strings.HasPrefix(l, "@end "):
				done = true
			}
		case <-timer.C:
			hung = true
			cmd.Process.Kill()
		}
	}
	cmd.Wait()
	if done {
		return 0, true, nil
	}
	if !running {
		return 0, false, fmt.Errorf("worker of %s ended without a run: %s", prop, errTail.String())
	}
	kind, msg := "crash", "the process died: "+errTail.String()
	if hung {
		kind, msg = "hang", "the run made no progress"
	}
	add(&Result{Scen: scen, Run: run, Kind: kind, Msg: msg, Class: "process", Digest: "crash"})
	return pos + 1, false, nil
}

type tail struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b.Write(p)
	if t.b.Len() > 1<<16 {
		b := append([]byte{}, t.b.Bytes()[t.b.Len()-(1<<15):]...)
		t.b.Reset()
		t.b.Write(b)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	s := t.b.String()
	if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
	} else if i := strings.Index(s, "fatal error:"); i >= 0 {
		s = s[i:]
	} else if len(s) > 600 {
		s = s[len(s)-600:]
	}
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

// ReplayHere performs the run a replay file describes, in this process, which ends with status 1 if it fails.
func ReplayHere(v *Violation, w io.Writer) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	for _, sc := range Scenarios(v.Property) {
		if sc.Name != v.Scenario {
			continue
		}
		src := engine.ReplaySrc(v.Draws)
		if len(v.Draws) == 0 {
			src = srcFor(v.Seed, sc, v.Run)
		}
		inTest(func(t *testing.T) {
			r := Exec(t, sc, v.Run, src)
			for _, l := range r.Trace {
				fmt.Fprintln(w, "  ", l)
			}
			if r.Kind != "" {
				fmt.Fprintf(w, "%s: %s\ndigest %s\n", r.Kind, r.Msg, r.Digest)
				os.Exit(1)
			}
			fmt.Fprintln(w, "not reproduced")
		})
	}
	fmt.Fprintf(w, "scenario %q not found\n", v.Scenario)
}
