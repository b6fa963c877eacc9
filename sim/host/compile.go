package host

import (
	"fmt"
	"io"
	_ "unsafe"

	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/logger"
	"github.com/rs/zerolog"
	"zksim/circ"
	"zksim/engine"
)

// Circuits are compiled by several tasks of one process, which take turns at the calls of the circuit builder: the
// seeded scheduler decides at each call who goes on, and may abort a compilation there. Map iteration order is drawn from
// the seed as well. Whatever happens, a circuit's constraint system must be the one a lone compilation gives, because a
// prover and a verifier that disagree on it share no keys.

//go:linkname simIter internal/runtime/maps.SimIter
var simIter uint64

type turns struct {
	rng    *engine.RNG
	den    int
	abort  int // calls left until the running task is aborted, 0: never
	tasks  []chan bool
	alive  []bool
	cur    int
	swaps  int
	calls  int
	trail  uint64
	aborts bool
}

type aborted struct{}

func (t *turns) step() {
	t.calls++
	if t.abort > 0 {
		t.abort--
		if t.abort == 0 {
			t.aborts = true
			panic(aborted{})
		}
	}
	if t.den == 0 || !t.rng.Chance(1, t.den) {
		return
	}
	n := t.pick()
	if n == t.cur {
		return
	}
	me := t.cur
	t.swaps++
	t.trail = t.trail*1099511628211 ^ uint64(t.calls*8+n)
	t.cur = n
	t.tasks[n] <- true
	<-t.tasks[me]
}

func (t *turns) pick() int {
	var l []int
	for i, a := range t.alive {
		if a {
			l = append(l, i)
		}
	}
	if len(l) == 0 {
		return -1
	}
	return l[t.rng.Intn(len(l))]
}

type circuitOf struct {
	prop string
	s    *circ.Scenario
}

var compilable []circuitOf
var loneDigest = map[string]string{}

const maxCompile = 60000

func circuits() []circuitOf {
	if compilable == nil {
		logger.Set(zerolog.New(io.Discard))
		for i := 1; i <= 20; i++ {
			p := fmt.Sprintf("C%02d", i)
			for _, s := range circ.Scenarios(p, "quick") {
				compilable = append(compilable, circuitOf{p, s})
			}
		}
	}
	return compilable
}

var tooLarge = map[string]bool{}

// lone compiles a circuit with nobody else around. Too large ones are given up on.
func lone(w *World, c circuitOf) (string, bool) {
	id := c.prop + "/" + c.s.Name
	if d, ok := loneDigest[id]; ok {
		return d, true
	}
	if tooLarge[id] {
		return "", false
	}
	calls := 0
	r1cs.SimYield = func() {
		calls++
		if calls > maxCompile {
			panic(aborted{})
		}
	}
	defer func() { r1cs.SimYield = nil }()
	simIter = 0x1234567
	d, _, err := safeDigest(c.s)
	if calls > maxCompile {
		tooLarge[id] = true
		return "", false
	}
	if err != nil {
		w.Fail("build", "%s does not compile: %v", id, err)
	}
	loneDigest[id] = d
	return d, true
}

func safeDigest(s *circ.Scenario) (d string, n int, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return engine.CompileDigest(s.NIn, s.Define)
}

func compilations(w *World) {
	s := w.S
	all := circuits()
	var cs []circuitOf
	var want []string
	n := s.Range(2, 3)
	for len(cs) < n {
		c := all[s.Int(len(all))]
		if len(cs) > 0 && s.Chance(1, 3) {
			c = cs[s.Int(len(cs))]
		}
		d, ok := lone(w, c)
		if !ok {
			c = all[0]
			for i := 0; !ok; i++ {
				c = all[(s.Int(len(all))+i)%len(all)]
				d, ok = lone(w, c)
			}
		}
		cs, want = append(cs, c), append(want, d)
	}
	w.Class = cs[0].prop
	t := &turns{rng: engine.NewRNG(s.U64()), den: []int{1, 7, 60, 900, 12000, 0}[s.Int(6)]}
	simIter = s.U64() | 1
	defer func() { simIter, r1cs.SimYield = 0, nil }()
	w.Fault("map-order")
	if s.Chance(1, 3) {
		w.Fault("abort")
		t.abort = 1 + s.Int(1<<uint(s.Range(1, 15)))
	}
	got := make([]string, n)
	errs := make([]error, n)
	end := make(chan bool)
	for i := 0; i < n; i++ {
		t.tasks = append(t.tasks, make(chan bool))
		t.alive = append(t.alive, true)
	}
	r1cs.SimYield = t.step
	for i := 0; i < n; i++ {
		go func(i int) {
			<-t.tasks[i]
			got[i], _, errs[i] = safeDigest(cs[i].s)
			if errs[i] != nil && t.aborts {
				t.aborts = false // the caller tries again
				got[i], _, errs[i] = safeDigest(cs[i].s)
			}
			t.alive[i] = false
			k := t.pick()
			if k < 0 {
				end <- true
				return
			}
			t.cur = k
			t.tasks[k] <- true
		}(i)
	}
	t.cur = t.pick()
	t.tasks[t.cur] <- true
	<-end
	for i := range cs {
		id := cs[i].prop + "/" + cs[i].s.Name
		w.Log("%s: %s %v", id, got[i], errs[i])
	}
	w.Log("%d builder calls, %d switches, trail %x", t.calls, t.swaps, t.trail)
	if t.swaps > 0 {
		w.Fault("interleaving")
	}
	for i := range cs {
		id := cs[i].prop + "/" + cs[i].s.Name
		if errs[i] != nil {
			w.Fail("build", "%s, which compiles alone, does not beside others: %v", id, errs[i])
		}
		if got[i] != want[i] {
			w.Fail("differs", "%s compiles to another constraint system than alone: %s, %s", id, got[i], want[i])
		}
	}
}

// againRuns is how often circuits of a property are compiled anew. The proofs of C01 to C04 and the heaviest circuits of
// other properties take a minute each and are made of parts that smaller circuits hold, so they are left out.
var againRuns = []int{5: 4, 6: 6, 7: 2, 8: 2, 9: 6, 10: 2, 11: 2, 12: 4, 13: 2, 14: 2, 15: 4, 16: 3, 17: 2, 18: 10, 19: 8, 20: 3}

var heaviest = map[string]bool{"C05/composed": true, "C05/storage": true, "C18/pair/1": true, "C18/pair/2": true, "C18/final-exponentiation": true, "C19/hash-to-g2-jacobian": true}

var againDigest = map[string]string{}

// again compiles a circuit of any size under two map orders, perhaps after an aborted attempt.
func again(prop string) func(*World) {
	return func(w *World) {
		s := w.S
		var all []circuitOf
		for _, c := range circuits() {
			if c.prop == prop && !heaviest[prop+"/"+c.s.Name] {
				all = append(all, c)
			}
		}
		c := all[s.Int(len(all))]
		id := c.prop + "/" + c.s.Name
		w.Class = prop
		w.Fault("map-order")
		defer func() { simIter, r1cs.SimYield = 0, nil }()
		left, calls := 0, 0
		r1cs.SimYield = func() {
			if calls++; calls%20000 == 0 {
				Beat()
			}
			if left--; left == 0 {
				panic(aborted{})
			}
		}
		if s.Chance(1, 4) {
			w.Fault("abort")
			left = 1 + s.Int(1<<uint(s.Range(1, 18)))
			simIter = s.U64() | 1
			safeDigest(c.s)
			left = 0
		}
		compile := func(order uint64) string {
			simIter = order | 1
			d, _, err := safeDigest(c.s)
			if err != nil {
				w.Fail("build", "%s does not compile: %v", id, err)
			}
			return d
		}
		want, ok := againDigest[id]
		if !ok {
			want = compile(0x1234567)
			againDigest[id] = want
		}
		got := compile(s.U64())
		w.Log("%s: %s", id, got)
		if got != want {
			w.Fail("differs", "%s compiles to two constraint systems: %s, %s", id, got, want)
		}
	}
}

func init() {
	registry = append(registry, &Scen{Prop: "C32", Name: "compilations", Runs: 1500, Factor: 12, Fn: compilations})
	for i, n := range againRuns {
		if n > 0 {
			p := fmt.Sprintf("C%02d", i)
			registry = append(registry, &Scen{Prop: "C32", Name: "again-" + p, Runs: n, Factor: 5, Fn: again(p)})
		}
	}
	assumptions["C32"] = []string{"gnark's builder is deterministic; tasks take turns at builder calls, so races inside Go statements between two calls are not seen",
		"circuits that need more than 60000 builder calls are not interleaved with others, only compiled again under other map orders; those of C01 to C04 and six other heavy ones only as far as smaller circuits hold their parts"}
}
