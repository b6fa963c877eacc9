package engine

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

// Case is one concrete situation: what the circuit is asked about and what any accepted proof may say.
type Case struct {
	Calm   bool // the prover of this case is honest
	More   int  // further attacks on this case
	In     []fr.Element
	Accept bool                         // an honest prover must be able to prove it
	Judge  func(out []fr.Element) error // relation every accepted execution must satisfy
	Class  string                       // coverage class of the case
	Desc   string
}

// Scenario is a circuit built from real gadgets plus a generator of cases for it.
type Scenario struct {
	Name            string
	NIn             int
	Define          DefineFn
	Gen             func(*Src) Case
	Cases           int // quick tier
	Attacks         int // adversarial executions per case, quick tier
	Repairs         int
	ThoroughCases   int // multipliers of the quick counts (default 8)
	ThoroughAttacks int // default 3
	Stubs           []string
}

// Violation is one failing execution.
type Violation struct {
	Property  string     `json:"property"`
	Scenario  string     `json:"scenario"`
	Kind      string     `json:"kind"` // build | incomplete | wrong-honest | unsound
	Class     string     `json:"class"`
	Msg       string     `json:"message"`
	Desc      string     `json:"case"`
	Draws     []uint64   `json:"draws"`
	Overrides []Override `json:"overrides,omitempty"`
	Circuit   string     `json:"circuit"`
	Seed      uint64     `json:"seed"`
	Run       int        `json:"run"`
	Attack    int        `json:"attack"`
	FailAt    int32      `json:"violated_check"`
	scenIdx   int
}

// Known is one entry of the known-findings file.
type Known struct {
	Status   string `json:"status"` // open | fixed
	Property string `json:"property"`
	Scenario string `json:"scenario"`
	Class    string `json:"class"`
	Kind     string `json:"kind"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func (k Known) Matches(v *Violation) bool {
	return k.Status == "open" && k.Property == v.Property && k.Scenario == v.Scenario && k.Class == v.Class && k.Kind == v.Kind
}

// LoadKnown reads the known-findings file.
func LoadKnown(path string) ([]Known, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var k struct{ Findings []Known }
	err = json.Unmarshal(b, &k)
	return k.Findings, err
}

type caseStats struct {
	fired    map[string]int
	classes  map[string]int
	distinct map[string]bool
	honest   int
	attacks  int
	lying    int
	accepted int
	repairs  int
	steps    int64
	rejBase  int
	hintErr  int
	trace    [32]byte
	sample   string
	viol     *Violation
}

// Options of one check run.
type Options struct {
	Property  string
	Tier      string
	Seed      uint64
	Workers   int
	Known     []Known
	ReplayDir string
	Cap       time.Duration
	Log       func(format string, a ...interface{})
	Scale     float64
}

// Report is what a run covered.
type Report struct {
	Viol      []*Violation
	KnownHits map[string]string
	Coverage  map[string]interface{}
	Digest    string
	Wall      float64
	Err       error
}

func safeGen(sc *Scenario, s *Src) (c Case, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("generator of %s panicked: %v", sc.Name, r)
		}
	}()
	return sc.Gen(s), nil
}

func runCase(o *Options, sc *Scenario, sys *Sys, si, ci, attacks int) (cs caseStats, err error) {
	cs.fired = map[string]int{}
	cs.classes = map[string]int{}
	cs.distinct = map[string]bool{}
	base := []uint64{o.Seed, HashStr(o.Property), HashStr(sc.Name), uint64(ci)}
	src := NewSrc(NewRNG(base...))
	c, err := safeGen(sc, src)
	if err != nil {
		return cs, err
	}
	if len(c.In) != sc.NIn {
		return cs, fmt.Errorf("%s: case has %d inputs, circuit %d", sc.Name, len(c.In), sc.NIn)
	}
	h := sha256.New()
	mk := func(kind, msg string, k int) *Violation {
		return &Violation{Property: o.Property, Scenario: sc.Name, Kind: kind, Class: c.Class, Msg: msg, Desc: c.Desc, Draws: src.Record(),
			Circuit: sys.Fingerprint(), Seed: o.Seed, Run: ci, Attack: k, FailAt: -1, scenIdx: si}
	}
	st := NewState(sys, c.In)
	cs.honest = 1
	cs.classes[c.Class]++
	fmt.Fprintf(h, "%v %d %d\n", st.Accepted(), st.FirstBad(), len(st.Free))
	if st.HintErr > 0 {
		cs.fired["prover-abort"] += st.HintErr
	}
	cs.distinct[fmt.Sprintf("%s|%s|honest|%d", sc.Name, c.Class, st.FirstBad())] = true
	cs.sample = fmt.Sprintf("scenario=%s run=%d class=%s case={%s} honest: accepted=%v", sc.Name, ci, c.Class, c.Desc, st.Accepted())
	if !st.Accepted() {
		cs.rejBase = 1
		if c.Accept {
			v := mk("incomplete", "an honest prover cannot prove a true statement (first violated check "+fmt.Sprint(st.FirstBad())+")", -1)
			v.FailAt = st.FirstBad()
			cs.viol = v
			cs.steps = int64(st.Steps)
			return cs, nil
		}
	} else {
		out := st.Outputs()
		for i := range out {
			b := out[i].Bytes()
			h.Write(b[:])
		}
		if e := c.Judge(out); e != nil {
			cs.viol = mk("wrong-honest", e.Error(), -1)
			cs.steps = int64(st.Steps)
			return cs, nil
		}
	}
	sn := st.Mark()
	n := attacks + c.More
	if c.Calm {
		n = 0
	}
	for k := 0; k < n; k++ {
		r := NewRNG(append(base, 0xA77AC4, uint64(k))...)
		at := RunAttack(st, r, ci*attacks+k, sc.Repairs)
		cs.attacks++
		nf := 0
		for kind, n := range at.Fired {
			cs.fired[kind] += n
			nf += n
		}
		if nf > 0 {
			cs.lying++
		}
		cs.repairs += at.Repairs
		if nf > 0 {
			cs.distinct[fmt.Sprintf("%s|%s|%s|%d|%d", sc.Name, c.Class, at.Site, at.FailAt, at.Repairs)] = true
		}
		fmt.Fprintf(h, "%d %v %d %d %s\n", k, at.Accepted, at.FailAt, at.Repairs, at.Site)
		if k == 0 && ci == 0 {
			cs.sample += fmt.Sprintf("; attack 0: site=%s faults=%v repairs=%d first violated check=%d accepted=%v", at.Site, at.Fired, at.Repairs, at.FailAt, at.Accepted)
		}
		if at.Accepted {
			cs.accepted++
			if e := c.Judge(st.Outputs()); e != nil {
				f := at.Force
				full := st.fullForce(sn)
				st.Reset(sn)
				v := mk("unsound", e.Error(), k)
				f = minimise(st, sn, &c, f, full)
				if f == nil {
					return cs, fmt.Errorf("%s run %d attack %d: accepted execution did not reproduce", sc.Name, ci, k)
				}
				v.Overrides = sys.Overrides(f)
				st.Apply(f)
				if e := c.Judge(st.Outputs()); e != nil {
					v.Msg = e.Error()
				}
				st.Reset(sn)
				cs.viol = v
				break
			}
			st.Reset(sn)
		}
	}
	cs.steps = int64(st.Steps)
	copy(cs.trace[:], h.Sum(nil))
	return cs, nil
}

// fullForce lists every prover-chosen wire that differs from the honest execution.
func (st *State) fullForce(sn Snap) map[uint32]fr.Element {
	f := map[uint32]fr.Element{}
	for w, x := range st.force {
		f[w] = x
	}
	for i := sn.u; i < len(st.undo); i++ {
		w := st.undo[i].w
		if d := st.s.def[w]; d >= 0 && st.s.ins[d].kind == kindHint {
			f[w] = st.v[w]
		}
	}
	return f
}

func minimise(st *State, sn Snap, c *Case, f, full map[uint32]fr.Element) map[uint32]fr.Element {
	works := func(g map[uint32]fr.Element) bool {
		ok := st.Apply(g) && c.Judge(st.Outputs()) != nil
		st.Reset(sn)
		return ok
	}
	if !works(f) {
		f = full
		if !works(f) {
			return nil
		}
	}
	ws := make([]uint32, 0, len(f))
	for w := range f {
		ws = append(ws, w)
	}
	sort.Slice(ws, func(i, j int) bool { return ws[i] < ws[j] })
	cp := func(drop map[uint32]bool) map[uint32]fr.Element {
		g := map[uint32]fr.Element{}
		for w, x := range f {
			if !drop[w] {
				g[w] = x
			}
		}
		return g
	}
	for size := (len(ws) + 1) / 2; size >= 1; size /= 2 {
		for i := 0; i < len(ws); {
			j := i + size
			if j > len(ws) {
				j = len(ws)
			}
			drop := map[uint32]bool{}
			for _, w := range ws[i:j] {
				drop[w] = true
			}
			if g := cp(drop); len(g) < len(f) && works(g) {
				f = g
				ws = append(append([]uint32(nil), ws[:i]...), ws[j:]...)
			} else {
				i = j
			}
		}
	}
	return f
}

// shrink minimises the input case of a violation that needs no dishonest answers.
func shrink(sc *Scenario, sys *Sys, v *Violation, budget time.Duration) {
	if v.Kind != "incomplete" && v.Kind != "wrong-honest" {
		return
	}
	end := time.Now().Add(budget)
	fails := func(d []uint64) (string, string, bool) {
		c, err := safeGen(sc, ReplaySrc(d))
		if err != nil || len(c.In) != sc.NIn || c.Class != v.Class {
			return "", "", false
		}
		st := NewState(sys, c.In)
		if v.Kind == "incomplete" {
			return v.Msg, c.Desc, c.Accept && !st.Accepted()
		}
		if !st.Accepted() {
			return "", "", false
		}
		e := c.Judge(st.Outputs())
		if e == nil {
			return "", "", false
		}
		return e.Error(), c.Desc, true
	}
	cur := append([]uint64(nil), v.Draws...)
	try := func(d []uint64) bool {
		if time.Now().After(end) {
			return false
		}
		if m, ds, ok := fails(d); ok {
			cur, v.Msg, v.Desc = d, m, ds
			return true
		}
		return false
	}
	for size := len(cur); size >= 1 && time.Now().Before(end); size /= 2 {
		for i := 0; i+size <= len(cur); i += size {
			z := append([]uint64(nil), cur...)
			nz := false
			for k := i; k < i+size; k++ {
				nz = nz || z[k] != 0
				z[k] = 0
			}
			if nz {
				try(z)
			}
		}
	}
	n := len(cur)
	for n > 0 && cur[n-1] == 0 {
		n--
	}
	cur = cur[:n]
	v.Draws = cur
}

// Run executes a check.
func Run(o *Options, scens []*Scenario) *Report {
	t0 := time.Now()
	rep := &Report{KnownHits: map[string]string{}, Coverage: map[string]interface{}{}}
	sem := make(chan struct{}, o.Workers)
	type scenRes struct {
		sys   *Sys
		cases []caseStats
		ran   []bool
		build *Violation
		err   error
		comp  float64
	}
	res := make([]scenRes, len(scens))
	var stop atomic.Bool
	deadline := t0.Add(o.Cap)
	var wg sync.WaitGroup
	for i := range scens {
		i := i
		sc := scens[i]
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			tc := time.Now()
			sys, err := Compile(sc.Name, sc.NIn, sc.Define)
			res[i].comp = time.Since(tc).Seconds()
			<-sem
			if err != nil {
				if b, ok := err.(BuildError); ok {
					res[i].build = &Violation{Property: o.Property, Scenario: sc.Name, Kind: "build", Msg: "the circuit cannot be built: " + b.Msg, Seed: o.Seed, Run: -1, scenIdx: i}
				} else {
					res[i].err = fmt.Errorf("%s: %w", sc.Name, err)
				}
				return
			}
			res[i].sys = sys
			n, at := sc.Cases, sc.Attacks
			if o.Tier == "thorough" {
				a, b := sc.ThoroughCases, sc.ThoroughAttacks
				if a == 0 {
					a = 8
				}
				if b == 0 {
					b = 3
				}
				n *= a
				at *= b
			}
			if o.Scale > 0 {
				n = int(float64(n)*o.Scale + 0.999)
			}
			res[i].cases = make([]caseStats, n)
			res[i].ran = make([]bool, n)
			var wc sync.WaitGroup
			for ci := 0; ci < n; ci++ {
				sem <- struct{}{}
				if stop.Load() || time.Now().After(deadline) {
					<-sem
					break
				}
				wc.Add(1)
				go func(ci int) {
					defer wc.Done()
					defer func() { <-sem }()
					cs, err := runCase(o, sc, sys, i, ci, at)
					if err != nil {
						res[i].err = err
						stop.Store(true)
					}
					res[i].cases[ci] = cs
					res[i].ran[ci] = true
				}(ci)
			}
			wc.Wait()
		}()
	}
	wg.Wait()
	// merge in index order, independent of scheduling
	fired := map[string]int{}
	classes := map[string]int{}
	distinct := map[string]bool{}
	var samples []string
	var honest, attacks, lying, accepted, repairs, rej, planned int
	var steps int64
	dig := sha256.New()
	comps := map[string]interface{}{}
	for i := range scens {
		r := &res[i]
		if r.err != nil {
			rep.Err = r.err
			rep.Wall = time.Since(t0).Seconds()
			return rep
		}
		if r.build != nil {
			rep.Viol = append(rep.Viol, r.build)
			continue
		}
		planned += len(r.cases)
		comps[scens[i].Name] = map[string]interface{}{"constraints": r.sys.NbR1C, "checks": r.sys.NbCheck, "prover_calls": r.sys.HintKinds(), "wires": r.sys.nbWires, "circuit": r.sys.Fingerprint(), "compile_s": r.comp, "stubs": scens[i].Stubs}
		for ci := range r.cases {
			if !r.ran[ci] {
				continue
			}
			c := &r.cases[ci]
			for k, v := range c.fired {
				fired[k] += v
			}
			for k, v := range c.classes {
				classes[scens[i].Name+"/"+k] += v
			}
			for k := range c.distinct {
				distinct[k] = true
			}
			honest += c.honest
			attacks += c.attacks
			lying += c.lying
			accepted += c.accepted
			repairs += c.repairs
			rej += c.rejBase
			steps += c.steps
			dig.Write(c.trace[:])
			if ci == 0 && len(samples) < 6 {
				samples = append(samples, c.sample)
			}
			if c.viol != nil {
				rep.Viol = append(rep.Viol, c.viol)
			}
		}
		r.cases = nil
	}
	rep.Digest = fmt.Sprintf("%x", dig.Sum(nil)[:16])
	rep.Wall = time.Since(t0).Seconds()
	ran := honest + attacks
	rep.Coverage = map[string]interface{}{
		"evaluations":                            ran,
		"distinct_nontrivial":                    len(distinct),
		"rule":                                   "one evaluation = one simulated proving session (a circuit compiled from the working tree, a seeded case, a schedule of honest and dishonest prover answers). Distinct and non-trivial = distinct (scenario, case class, dishonest call sites, first violated check, number of follow-up lies) tuples among sessions in which at least one lie changed a value, plus distinct honest outcomes per class.",
		"samples":                                samples,
		"honest_sessions":                        honest,
		"honest_rejections":                      rej,
		"dishonest_sessions":                     attacks,
		"sessions_with_fired_fault":              lying,
		"dishonest_sessions_accepted_and_judged": accepted,
		"repair_lies":                            repairs,
		"fault_kinds_fired":                      fired,
		"case_classes":                           classes,
		"instructions_executed":                  steps,
		"simulated_sessions_per_hour":            int(float64(ran) / rep.Wall * 3600),
		"seeds_per_hour":                         int(float64(honest) / rep.Wall * 3600),
		"simulated_time":                         "no clock is involved; simulated progress is counted in executed constraint-system instructions",
		"circuits":                               comps,
		"cases_planned":                          planned,
		"trace_digest":                           rep.Digest,
	}
	// shrink and classify
	var out []*Violation
	seen := map[string]bool{}
	for _, v := range rep.Viol {
		known := false
		for _, k := range o.Known {
			if k.Matches(v) {
				rep.KnownHits[fmt.Sprintf("%s/%s/%s", k.Scenario, k.Class, k.Kind)] = k.What
				known = true
			}
		}
		if known {
			continue
		}
		key := v.Scenario + v.Class + v.Kind
		if seen[key] {
			continue
		}
		seen[key] = true
		out = append(out, v)
	}
	for i, v := range out {
		if i < 3 && v.Kind != "build" {
			shrink(scens[v.scenIdx], res[v.scenIdx].sys, v, 20*time.Second)
		}
	}
	rep.Viol = out
	return rep
}

// Save writes a replay file and returns its path.
func (v *Violation) Save(dir string) (string, error) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	b, _ := json.MarshalIndent(v, "", " ")
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%x.json", v.Property, v.Kind, sha256.Sum256(b))[:len(v.Property)+len(v.Kind)+14]+".json")
	return p, os.WriteFile(p, b, 0o644)
}

// Replay re-executes a violation file and reports whether it reproduces.
func Replay(v *Violation, sc *Scenario) (bool, string) {
	sys, err := Compile(sc.Name, sc.NIn, sc.Define)
	if err != nil {
		return v.Kind == "build", err.Error()
	}
	if v.Kind == "build" {
		return false, "the circuit builds"
	}
	note := ""
	if fp := sys.Fingerprint(); fp != v.Circuit {
		note = " (note: the circuit differs from the one recorded)"
	}
	c, err := safeGen(sc, ReplaySrc(v.Draws))
	if err != nil {
		return false, err.Error()
	}
	st := NewState(sys, c.In)
	if v.Kind == "incomplete" {
		return c.Accept && !st.Accepted(), fmt.Sprintf("honest prover accepted=%v, first violated check=%d%s", st.Accepted(), st.FirstBad(), note)
	}
	f, err := ParseOverrides(v.Overrides)
	if err != nil {
		return false, err.Error()
	}
	for w := range f {
		if int(w) >= len(sys.def) || sys.def[w] < 0 {
			return false, "overrides do not fit the circuit" + note
		}
	}
	ok := st.Apply(f)
	if !ok {
		return false, fmt.Sprintf("rejected, first violated check=%d%s", st.FirstBad(), note)
	}
	e := c.Judge(st.Outputs())
	if e == nil {
		return false, "accepted, and the relation holds" + note
	}
	return true, "accepted: " + e.Error() + note
}
