package engine

import (
	"math"
	"sort"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

// Override is one dishonest answer of the simulated prover.
type Override struct {
	Wire  uint32 `json:"wire"`
	Hint  string `json:"hint"`
	Value string `json:"value"`
}

// Attack is the outcome of one adversarial execution.
type Attack struct {
	Accepted bool
	Fired    map[string]int // fault kinds that changed something
	Site     string
	FailAt   int32
	Repairs  int
	Force    map[uint32]fr.Element
}

type adv struct {
	st   *State
	r    *RNG
	fire map[string]int
	lim  int // step count after which the prover stops trying further repairs
}

var frOne, frTwo, frHalf, frMinusOne fr.Element
var pow2 [256]fr.Element

func init() {
	frOne.SetOne()
	frTwo.SetUint64(2)
	frHalf.Inverse(&frTwo)
	frMinusOne.Neg(&frOne)
	pow2[0].SetOne()
	for i := 1; i < 256; i++ {
		pow2[i].Double(&pow2[i-1])
	}
}

func (a *adv) mutate(v fr.Element) fr.Element {
	var x fr.Element
	switch a.r.Intn(12) {
	case 0:
		x.Add(&v, &frOne)
	case 1:
		x.Sub(&v, &frOne)
	case 2:
		x.Sub(&frOne, &v)
	case 3:
		x.Neg(&v)
	case 4:
		x.SetZero()
	case 5:
		x.SetOne()
	case 6:
		x = frMinusOne
	case 7:
		x.Add(&v, &pow2[a.r.Intn(254)])
	case 8:
		x.Sub(&v, &pow2[a.r.Intn(254)])
	case 9:
		x.Double(&v)
	case 10:
		x.SetUint64(uint64(a.r.Intn(300)))
	default:
		x = a.r.Elem()
	}
	return x
}

func (a *adv) force(w uint32, x fr.Element, kind string) {
	if a.st.v[w].Equal(&x) {
		if _, ok := a.st.force[w]; !ok {
			return
		}
	}
	a.fire[kind]++
	a.st.Force(w, x)
}

var shifts = []int{1, 2, 3, 4, 5, 8, 16, 32, 51, 64, 128}

// otherResidue answers a non-native field question with another representative, if one fits.
func (a *adv) otherResidue(h *HintSite) bool {
	k := int64(1)
	if a.r.Chance(1, 8) {
		k = 2
	}
	out, ok := emuAlias(h, a.st.hintInputs(h), k)
	if !ok {
		return false
	}
	for q := range out {
		a.force(h.Start+uint32(q), out[q], "lie-residue-alias")
	}
	return true
}

// fill answers a question that has no honest answer, such as a quotient of zero by zero: the checks may
// take anything, and small numbers and roots of unity are the ones that lead somewhere.
func (a *adv) fill(h *HintSite) {
	st := a.st
	n := int(h.End - h.Start)
	if p, w := emuModulus(h, st.hintInputs(h)); p != nil {
		x := newBig()
		switch a.r.Intn(9) {
		case 0:
		case 1:
			x.SetInt64(1)
		case 2:
			x.SetInt64(-1)
		case 3, 4, 6, 7:
			if s := newBig().ModSqrt(newBig().Sub(p, newBig().SetInt64(1)), p); s != nil {
				x = s
				if a.r.Chance(1, 2) {
					x.Neg(x)
				}
			} else {
				x.SetInt64(2)
			}
		case 5:
			x.SetInt64(int64(a.r.Intn(9)))
		default:
			for i := 0; i < p.BitLen(); i += 62 {
				x.Lsh(x, 62).Or(x, newBig().SetInt64(int64(a.r.Next()>>2)))
			}
		}
		x.Mod(x, p)
		for k := 0; k < n; k++ {
			var e fr.Element
			e.SetBigInt(newBig().And(newBig().Rsh(x, uint(k)*w), newBig().Sub(newBig().Lsh(newBig().SetInt64(1), w), newBig().SetInt64(1))))
			a.force(h.Start+uint32(k), e, "lie-meaningless-question")
		}
		return
	}
	for k := 0; k < n; k++ {
		a.force(h.Start+uint32(k), a.mutate(fr.Element{}), "lie-meaningless-question")
	}
}

// lie makes one prover call answer dishonestly.
func (a *adv) lie(h *HintSite) {
	st := a.st
	n := int(h.End - h.Start)
	pick := func() uint32 { return h.Start + uint32(a.r.Intn(n)) }
	k := a.r.Intn(100)
	if n == 1 && k >= 35 && k < 70 {
		k = 0
	}
	if h.Emu && a.r.Chance(1, 3) { // the same residue by another representative
		if a.otherResidue(h) {
			return
		}
	}
	switch {
	case k < 30: // one wrong answer
		w := pick()
		a.force(w, a.mutate(st.v[w]), "lie-value")
	case k < 35: // answers delivered in the wrong order
		w, u := pick(), pick()
		x, y := st.v[w], st.v[u]
		a.force(w, y, "lie-swap")
		a.force(u, x, "lie-swap")
	case k < 55: // two answers that compensate under a positional sum
		i, j := a.r.Intn(n), a.r.Intn(n)
		if i == j {
			j = (i + 1) % n
		}
		if i > j {
			i, j = j, i
		}
		sh := shifts[a.r.Intn(len(shifts))] * (j - i)
		if a.r.Chance(1, 4) {
			sh = 0
		}
		if sh > 250 {
			sh = 250
		}
		var d, e fr.Element
		d.SetUint64(uint64(1 + a.r.Intn(3)))
		if a.r.Chance(1, 2) {
			d.Neg(&d)
		}
		e.Mul(&d, &pow2[sh])
		x, y := st.v[h.Start+uint32(i)], st.v[h.Start+uint32(j)]
		if a.r.Chance(1, 2) { // little endian: unit of j is 2^sh units of i
			x.Add(&x, &e)
			y.Sub(&y, &d)
		} else {
			x.Add(&x, &d)
			y.Sub(&y, &e)
		}
		a.force(h.Start+uint32(i), x, "lie-compensate")
		a.force(h.Start+uint32(j), y, "lie-compensate")
	case k < 70: // several independent lies in one answer
		m := 1 + a.r.Intn(3)
		for q := 0; q < m; q++ {
			w := pick()
			a.force(w, a.mutate(st.v[w]), "lie-multi")
		}
	case k < 80: // the answer to another call of the same function
		var cand []*HintSite
		base := a.r.Intn(len(st.s.Hints))
		for q := 0; q < 64 && q < len(st.s.Hints); q++ {
			g := &st.s.Hints[(base+q)%len(st.s.Hints)]
			if g != h && g.Name == h.Name && g.End-g.Start == h.End-h.Start {
				cand = append(cand, g)
				break
			}
		}
		if len(cand) == 0 {
			w := pick()
			a.force(w, a.mutate(st.v[w]), "lie-value")
			return
		}
		vals := append([]fr.Element(nil), st.v[cand[0].Start:cand[0].End]...)
		for q := range vals {
			a.force(h.Start+uint32(q), vals[q], "lie-replayed-answer")
		}
	default: // an honest-looking answer computed for a different question
		in := st.hintInputs(h)
		if len(in) == 0 {
			w := pick()
			a.force(w, a.mutate(st.v[w]), "lie-value")
			return
		}
		vary := st.s.varInputs(h)
		if len(vary) == 0 {
			w := pick()
			a.force(w, a.mutate(st.v[w]), "lie-value")
			return
		}
		q := vary[a.r.Intn(len(vary))]
		if h.Fast == fastBits && a.r.Chance(1, 3) { // value + modulus, the classic alias
			a.alias(h, in[0])
			return
		}
		in[q] = a.mutate(in[q])
		out, ok := evalHint(h, in)
		if !ok {
			a.fire["prover-abort"]++
			w := pick()
			a.force(w, a.mutate(st.v[w]), "lie-value")
			return
		}
		for k := range out {
			a.force(h.Start+uint32(k), out[k], "lie-other-question")
		}
	}
}

func (a *adv) alias(h *HintSite, v fr.Element) {
	x := v.BigInt(newBig())
	x.Add(x, Field)
	for k := 0; k < int(h.End-h.Start); k++ {
		var b fr.Element
		b.SetUint64(uint64(x.Bit(k)))
		a.force(h.Start+uint32(k), b, "lie-modulus-alias")
	}
}

// candidates walks backwards from a violated check to something the prover controls.
func (a *adv) candidate(from int32) (uint32, bool) {
	st := a.st
	cur := from
	for depth := 0; depth < 10; depth++ {
		var ws []uint32
		own := int32(-1)
		if st.s.ins[cur].kind == kindR1C {
			own = st.s.solves[cur]
		}
		st.s.reads(cur, func(w uint32) {
			if st.s.def[w] >= 0 && int32(w) != own {
				ws = append(ws, w)
			}
		})
		if len(ws) == 0 {
			return 0, false
		}
		w := ws[a.r.Intn(len(ws))]
		d := st.s.def[w]
		switch st.s.ins[d].kind {
		case kindHint:
			if _, used := st.force[w]; used {
				return 0, false
			}
			return w, true
		case kindR1C:
			if a.isFree(d) {
				if _, used := st.force[w]; used {
					return 0, false
				}
				return w, true
			}
			cur = d
		default:
			return 0, false
		}
	}
	return 0, false
}

// isFree says whether a defining constraint currently leaves its wire undetermined.
func (a *adv) isFree(i int32) bool {
	st := a.st
	off := st.s.ins[i].off
	nl, nr := st.s.call[off+1], st.s.call[off+2]
	switch st.s.loc[i] {
	case 1:
		b := st.lin(off+4+2*nl, nr)
		return b.IsZero()
	case 2:
		b := st.lin(off+4, nl)
		return b.IsZero()
	}
	return false
}

// repair tries to make a violated check hold by one more dishonest answer.
func (a *adv) repair(fail int32) bool {
	st := a.st
	if st.s.ins[fail].kind != kindR1C {
		return false
	}
	for try := 0; try < 6; try++ {
		if st.Steps > a.lim {
			return false
		}
		u, ok := a.candidate(fail)
		if !ok {
			continue
		}
		f0 := st.residual(fail)
		if f0.IsZero() {
			return true
		}
		nb := len(st.bad)
		sn := st.snap()
		u0 := st.v[u]
		attempt := func(x fr.Element) (fr.Element, bool) {
			st.Force(u, x)
			st.settleUpTo(fail)
			f := st.residual(fail)
			good := len(st.bad) <= nb
			return f, good
		}
		undo := func() {
			st.rollback(sn)
			delete(st.force, u)
		}
		var x fr.Element
		x.Add(&u0, &frOne)
		f1, _ := attempt(x)
		undo()
		var d fr.Element
		d.Sub(&f1, &f0)
		vals := make([]fr.Element, 0, 3)
		if !d.IsZero() {
			d.Div(&f0, &d)
			x.Sub(&u0, &d)
			vals = append(vals, x)
		}
		x.Sub(&frOne, &u0)
		vals = append(vals, x)
		for _, x := range vals {
			if st.Steps > a.lim {
				return false
			}
			f, good := attempt(x)
			if f.IsZero() && good {
				a.fire["lie-to-repair-check"]++
				st.mark(fail)
				return true
			}
			undo()
		}
	}
	return false
}

// RunAttack performs adversarial run number k of a case whose honest execution is st. The state is
// rolled back before returning unless keep is set.
func RunAttack(st *State, r *RNG, k int, maxRepair int) Attack {
	s := st.s
	a := &adv{st: st, r: r, fire: map[string]int{}, lim: st.Steps + len(s.ins) + 200000}
	sn := st.snap()
	base := st.Accepted()
	var at Attack
	at.Fired = a.fire
	at.FailAt = -1
	names := s.hintNames()
	n := len(s.Hints)
	lies := 1
	switch r.Intn(10) {
	case 7, 8:
		lies = 2
	case 9:
		lies = 3
	}
	if !base && r.Chance(1, 2) {
		lies = 0 // go straight for the violated check
	}
	if len(s.emuSig) > 0 && r.Chance(1, 4) { // only hand out other representatives of the right residues
		lies = 0
		l := s.emuSig[r.Intn(len(s.emuSig))]
		want := 1
		if r.Chance(1, 4) {
			want = 2 + r.Intn(4)
		}
		for q := 0; q < 16 && want > 0; q++ {
			h := &s.Hints[l[r.Intn(len(l))]]
			if a.otherResidue(h) {
				at.Site += ShortName(h.Name) + ";"
				want--
			}
		}
	}
	if len(st.stuck) > 0 && r.Chance(2, 3) {
		l := st.stuck
		if r.Chance(2, 3) { // among the last words
			i := len(l) - 1 - r.Intn(min(6, len(l)))
			l = l[i : i+1]
		}
		for _, h := range l {
			a.fill(h)
			at.Site += ShortName(h.Name) + "?;"
			if r.Chance(1, 2) {
				break
			}
		}
		if r.Chance(3, 4) {
			lies = 0
		}
	}
	last := -1
	for q := 0; q < lies; q++ {
		if len(st.Free) > 0 && (n == 0 || r.Chance(1, 6)) {
			w := st.Free[r.Intn(len(st.Free))]
			a.force(w, a.mutate(st.v[w]), "lie-undetermined-wire")
			at.Site += "free;"
			continue
		}
		if n == 0 {
			break
		}
		var hi int
		switch {
		case q > 0 && last >= 0 && r.Chance(2, 3):
			hi = last + r.Intn(17) - 8
			if hi < 0 {
				hi = 0
			}
			if hi >= n {
				hi = n - 1
			}
		case r.Chance(1, 3):
			hi = (k*7919 + 13) % n
		case r.Chance(1, 3):
			l := names[r.Intn(len(names))]
			hi = int(l[r.Intn(len(l))])
		case r.Chance(1, 2):
			l := s.bySig[r.Intn(len(s.bySig))]
			hi = int(l[r.Intn(len(l))])
		default:
			hi = r.Intn(n)
		}
		last = hi
		h := &s.Hints[hi]
		at.Site += ShortName(h.Name) + ";"
		a.lie(h)
	}
	fail := st.Settle(true)
	for {
		if fail < 0 {
			fail = st.FirstBad()
			if fail < 0 {
				break
			}
		}
		if at.Repairs >= maxRepair || (at.Repairs > 0 && r.Chance(1, 12)) || !a.repair(fail) {
			break
		}
		at.Repairs++
		fail = st.Settle(true)
	}
	at.FailAt = fail
	at.Accepted = fail < 0 && len(st.bad) == 0
	at.Force = map[uint32]fr.Element{}
	for w, x := range st.force {
		at.Force[w] = x
	}
	if !at.Accepted {
		st.Reset(Snap(sn))
	}
	return at
}

// Reset brings a state back to the honest execution after an accepted attack.
func (st *State) Reset(sn Snap) {
	st.rollback(snap(sn))
	st.clearDirty()
	st.pend = st.pend[:0]
	st.ResetForce()
}

// Snap is a rollback point.
type Snap snap

// Mark returns a rollback point.
func (st *State) Mark() Snap { return Snap(st.snap()) }

// Apply executes the honest prover with exactly the given dishonest answers.
func (st *State) Apply(f map[uint32]fr.Element) bool {
	ws := make([]uint32, 0, len(f))
	for w := range f {
		ws = append(ws, w)
	}
	sort.Slice(ws, func(i, j int) bool { return ws[i] < ws[j] })
	for _, w := range ws {
		st.Force(w, f[w])
	}
	st.Settle(false)
	return st.Accepted()
}

func (s *Sys) hintNames() [][]int32 {
	if s.byName == nil {
		m := map[string][]int32{}
		for i := range s.Hints {
			m[s.Hints[i].Name] = append(m[s.Hints[i].Name], int32(i))
		}
		for _, k := range sortedKeys(m) {
			s.byName = append(s.byName, m[k])
		}
	}
	return s.byName
}

// Overrides renders adversarial answers for a replay file.
func (s *Sys) Overrides(f map[uint32]fr.Element) []Override {
	var o []Override
	for w, x := range f {
		name := "undetermined-wire"
		if d := s.def[w]; d >= 0 && s.ins[d].kind == kindHint {
			name = ShortName(s.Hints[s.hintOf[d]].Name)
		}
		xx := x
		o = append(o, Override{w, name, "0x" + xx.Text(16)})
	}
	sort.Slice(o, func(i, j int) bool { return o[i].Wire < o[j].Wire })
	return o
}

// ParseOverrides is the inverse of Overrides.
func ParseOverrides(o []Override) (map[uint32]fr.Element, error) {
	f := map[uint32]fr.Element{}
	for _, x := range o {
		var e fr.Element
		if _, err := e.SetString(x.Value); err != nil {
			return nil, err
		}
		f[x.Wire] = e
	}
	return f, nil
}

// varInputs lists the hint inputs that are not compile-time constants.
func (s *Sys) varInputs(h *HintSite) []int {
	var r []int
	p := s.ins[h.Ins].off + 3
	for k := 0; k < h.NIn; k++ {
		n := s.call[p]
		p++
		v := false
		for q := uint32(0); q < n; q++ {
			if w := s.call[p+1]; w != math.MaxUint32 && w != 0 {
				v = true
			}
			p += 2
		}
		if v {
			r = append(r, k)
		}
	}
	return r
}
