package engine

import (
	"crypto/sha256"
	"math"
	"math/big"
	"math/bits"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/constraint"
)

type undoRec struct {
	w uint32
	v fr.Element
}

// State is one execution of the constraint system: a value per wire, kept consistent incrementally.
type State struct {
	s       *Sys
	v       []fr.Element
	undo    []undoRec
	dirty   []uint64
	dmin    int // no dirty bit below this word
	dmax    int
	bad     map[int32]bool // checks violated by the current values
	badLog  []badRec
	force   map[uint32]fr.Element // adversarial answers
	honest  bool                  // baseline pass, no undo
	Free    []uint32              // wires the constraints left undetermined in the baseline
	pend    []int32               // commitments whose challenge is to be drawn again
	late    bool                  // challenges are being drawn for the final values
	HintErr int
	stuck   []*HintSite // questions the honest prover has no answer to
	Steps   int
}

type badRec struct {
	ins int32
	was bool
}

// NewState runs the honest prover on the inputs and returns the resulting execution.
func NewState(s *Sys, in []fr.Element) *State {
	st := &State{s: s, v: make([]fr.Element, s.nbWires), dirty: make([]uint64, (len(s.ins)+63)/64+1), bad: map[int32]bool{}, force: map[uint32]fr.Element{}}
	st.v[0].SetOne()
	copy(st.v[1:], in)
	st.honest = true
	for i := range s.ins {
		st.exec(int32(i))
	}
	st.honest = false
	st.dmin = len(st.dirty)
	st.dmax = -1
	return st
}

// Accepted says whether every constraint holds.
func (st *State) Accepted() bool { return len(st.bad) == 0 }

// FirstBad is the lowest violated check, or -1.
func (st *State) FirstBad() int32 {
	m := int32(-1)
	for i := range st.bad {
		if m < 0 || i < m {
			m = i
		}
	}
	return m
}

func (st *State) evalTerm(acc *fr.Element, cid, vid uint32) {
	x := &st.v[vid]
	switch cid {
	case constraint.CoeffIdZero:
		return
	case constraint.CoeffIdOne:
		acc.Add(acc, x)
	case constraint.CoeffIdTwo:
		acc.Add(acc, x)
		acc.Add(acc, x)
	case constraint.CoeffIdMinusOne:
		acc.Sub(acc, x)
	default:
		if x.IsZero() {
			return
		}
		if vid == 0 {
			acc.Add(acc, &st.s.coef[cid])
			return
		}
		var t fr.Element
		t.Mul(&st.s.coef[cid], x)
		acc.Add(acc, &t)
	}
}

func (st *State) lin(p, n uint32) (acc fr.Element) {
	c := st.s.call
	for k := uint32(0); k < n; k++ {
		st.evalTerm(&acc, c[p], c[p+1])
		p += 2
	}
	return
}

// linSkip evaluates a linear expression without wire w and returns w's coefficient id.
func (st *State) linSkip(p, n, w uint32) (acc fr.Element, cid uint32) {
	c := st.s.call
	for k := uint32(0); k < n; k++ {
		if c[p+1] == w {
			cid = c[p]
		} else {
			st.evalTerm(&acc, c[p], c[p+1])
		}
		p += 2
	}
	return
}

func (st *State) coefVal(cid uint32) fr.Element {
	return st.s.coef[cid]
}

func (st *State) set(w uint32, x *fr.Element) {
	if st.v[w].Equal(x) {
		return
	}
	if !st.honest {
		st.undo = append(st.undo, undoRec{w, st.v[w]})
	}
	st.v[w] = *x
	if !st.honest {
		st.markReaders(w)
	}
}

func (st *State) markReaders(w uint32) {
	s := st.s
	d := s.def[w]
	for _, i := range s.cons[s.consOff[w]:s.consOff[w+1]] {
		if int32(i) != d {
			st.mark(int32(i))
		}
	}
}

func (st *State) mark(i int32) {
	wd := int(i >> 6)
	st.dirty[wd] |= 1 << uint(i&63)
	if wd < st.dmin {
		st.dmin = wd
	}
	if wd > st.dmax {
		st.dmax = wd
	}
}

// next pops the lowest dirty instruction, or -1.
func (st *State) next() int32 {
	for wd := st.dmin; wd <= st.dmax; wd++ {
		if x := st.dirty[wd]; x != 0 {
			b := bits.TrailingZeros64(x)
			st.dirty[wd] = x &^ (1 << uint(b))
			st.dmin = wd
			return int32(wd<<6 + b)
		}
	}
	st.dmin = len(st.dirty)
	st.dmax = -1
	return -1
}

func (st *State) clearDirty() {
	for wd := st.dmin; wd <= st.dmax; wd++ {
		st.dirty[wd] = 0
	}
	st.dmin = len(st.dirty)
	st.dmax = -1
}

func (st *State) setBad(i int32, b bool) {
	if st.bad[i] == b {
		return
	}
	if !st.honest {
		st.badLog = append(st.badLog, badRec{i, !b})
	}
	if b {
		st.bad[i] = true
	} else {
		delete(st.bad, i)
	}
}

// exec executes one instruction. It returns false when a check is violated.
func (st *State) exec(i int32) bool {
	s := st.s
	st.Steps++
	off := s.ins[i].off
	switch s.ins[i].kind {
	case kindR1C:
		nl, nr, no := s.call[off+1], s.call[off+2], s.call[off+3]
		pl := off + 4
		pr := pl + 2*nl
		po := pr + 2*nr
		w := s.solves[i]
		var a, b, c, t fr.Element
		if w < 0 {
			a = st.lin(pl, nl)
			b = st.lin(pr, nr)
			c = st.lin(po, no)
			ok := t.Mul(&a, &b).Equal(&c)
			st.setBad(i, !ok)
			return ok
		}
		var cid uint32
		var val fr.Element
		free := false
		switch s.loc[i] {
		case 1:
			a, cid = st.linSkip(pl, nl, uint32(w))
			b = st.lin(pr, nr)
			c = st.lin(po, no)
			if b.IsZero() {
				free = true
				st.setBad(i, !c.IsZero())
			} else {
				val.Div(&c, &b)
				val.Sub(&val, &a)
				st.setBad(i, false)
			}
		case 2:
			a = st.lin(pl, nl)
			b, cid = st.linSkip(pr, nr, uint32(w))
			c = st.lin(po, no)
			if a.IsZero() {
				free = true
				st.setBad(i, !c.IsZero())
			} else {
				val.Div(&c, &a)
				val.Sub(&val, &b)
				st.setBad(i, false)
			}
		case 3:
			a = st.lin(pl, nl)
			b = st.lin(pr, nr)
			c, cid = st.linSkip(po, no, uint32(w))
			val.Mul(&a, &b)
			val.Sub(&val, &c)
		}
		if free {
			if st.honest {
				st.Free = append(st.Free, uint32(w))
			}
			if f, ok := st.force[uint32(w)]; ok {
				val = f
			} else {
				val.SetZero()
			}
		} else {
			switch cid {
			case constraint.CoeffIdOne:
			case constraint.CoeffIdMinusOne:
				val.Neg(&val)
			default:
				k := st.coefVal(cid)
				val.Div(&val, &k)
			}
		}
		st.set(uint32(w), &val)
		return !free || !st.bad[i]
	case kindHint:
		h := &s.Hints[s.hintOf[i]]
		st.runHint(h)
		return true
	case kindIdeal:
		h := &s.Ideal[s.hintOf[i]]
		out, ok := evalHint(h, st.hintInputs(h))
		for k := range out {
			if !ok {
				out[k].SetZero()
			}
			st.set(h.Start+uint32(k), &out[k])
		}
		st.setBad(i, !ok) // an input outside the specification's domain is rejected
		return ok
	case kindCommit:
		if !st.honest && !st.late {
			st.defer_(i)
			return true
		}
		hsh := sha256.New()
		p := off + 3
		nin := s.call[off+2]
		for k := uint32(0); k < nin; k++ {
			x, q := st.hintInput(p)
			p = q
			bb := x.Bytes()
			hsh.Write(bb[:])
		}
		var x fr.Element
		x.SetBytes(hsh.Sum(nil))
		st.set(s.call[p], &x)
		return true
	}
	return true
}

func (st *State) hintInput(p uint32) (fr.Element, uint32) {
	c := st.s.call
	n := c[p]
	p++
	var acc fr.Element
	for k := uint32(0); k < n; k++ {
		if c[p+1] == math.MaxUint32 {
			x := st.coefVal(c[p])
			acc.Add(&acc, &x)
		} else {
			st.evalTerm(&acc, c[p], c[p+1])
		}
		p += 2
	}
	return acc, p
}

func (st *State) hintInputs(h *HintSite) []fr.Element {
	p := st.s.ins[h.Ins].off + 3
	in := make([]fr.Element, h.NIn)
	for k := range in {
		in[k], p = st.hintInput(p)
	}
	return in
}

// evalHint asks the honest prover; ok is false when it fails to answer.
func evalHint(h *HintSite, in []fr.Element) (out []fr.Element, ok bool) {
	out = make([]fr.Element, h.End-h.Start)
	switch h.Fast {
	case fastBits:
		x := in[0].Bits()
		for k := range out {
			if k < 256 && x[k>>6]>>(uint(k)&63)&1 == 1 {
				out[k].SetOne()
			}
		}
		return out, true
	case fastInvZero:
		out[0].Inverse(&in[0])
		return out, true
	}
	bi := make([]*big.Int, len(in))
	for k := range in {
		bi[k] = new(big.Int)
		in[k].BigInt(bi[k])
	}
	bo := make([]*big.Int, len(out))
	for k := range bo {
		bo[k] = new(big.Int)
	}
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
	if err := h.Fn(Field, bi, bo); err != nil {
		return out, false
	}
	for k := range out {
		out[k].SetBigInt(bo[k])
	}
	return out, true
}

func (st *State) runHint(h *HintSite) {
	need := false
	if len(st.force) == 0 {
		need = true
	} else {
		for w := h.Start; w < h.End; w++ {
			if _, ok := st.force[w]; !ok {
				need = true
				break
			}
		}
	}
	var out []fr.Element
	ok := true
	if need {
		out, ok = evalHint(h, st.hintInputs(h))
		if !ok {
			st.HintErr++
			if st.honest {
				st.stuck = append(st.stuck, h)
			}
		}
	}
	for w := h.Start; w < h.End; w++ {
		if f, forced := st.force[w]; forced {
			st.set(w, &f)
		} else if need && ok {
			st.set(w, &out[w-h.Start])
		}
		// a prover whose own computation fails keeps whatever it had
	}
}

// mark positions for rollback
type snap struct{ u, b int }

func (st *State) snap() snap { return snap{len(st.undo), len(st.badLog)} }

// rollback restores values; instructions that are scheduled stay scheduled, which is harmless.
func (st *State) rollback(s snap) {
	for i := len(st.undo) - 1; i >= s.u; i-- {
		st.v[st.undo[i].w] = st.undo[i].v
	}
	st.undo = st.undo[:s.u]
	for i := len(st.badLog) - 1; i >= s.b; i-- {
		r := st.badLog[i]
		if r.was {
			st.bad[r.ins] = true
		} else {
			delete(st.bad, r.ins)
		}
	}
	st.badLog = st.badLog[:s.b]
}

// Force makes the prover answer x for wire w from now on and schedules the consequences.
func (st *State) Force(w uint32, x fr.Element) {
	st.force[w] = x
	st.mark(st.s.def[w])
}

// Settle propagates until nothing is dirty, or until a check fails (its index is returned).
//
// The challenge of a commitment is drawn last: the prover first brings all its answers in place
// against the challenge of the honest run (a search heuristic that saves time), and only an
// execution that survives that is put to the fresh challenge its committed values lead to.
func (st *State) Settle(stopOnFail bool) int32 {
	defer func() { st.late = false }()
	for {
		i := st.next()
		if i < 0 {
			if len(st.pend) > 0 && (!stopOnFail || len(st.bad) == 0) {
				st.late = true
				for _, c := range st.pend {
					st.mark(c)
				}
				st.pend = st.pend[:0]
				continue
			}
			return -1
		}
		if !st.exec(i) && stopOnFail {
			return i
		}
	}
}

func (st *State) defer_(i int32) {
	for _, x := range st.pend {
		if x == i {
			return
		}
	}
	st.pend = append(st.pend, i)
}

// settleUpTo propagates instructions strictly below lim.
func (st *State) settleUpTo(lim int32) {
	for {
		i := st.next()
		if i < 0 {
			return
		}
		if i >= lim {
			st.mark(i)
			return
		}
		st.exec(i)
	}
}

// residual of a constraint under the current values (a*b-c).
func (st *State) residual(i int32) fr.Element {
	s := st.s
	off := s.ins[i].off
	nl, nr, no := s.call[off+1], s.call[off+2], s.call[off+3]
	a := st.lin(off+4, nl)
	b := st.lin(off+4+2*nl, nr)
	c := st.lin(off+4+2*nl+2*nr, no)
	a.Mul(&a, &b)
	a.Sub(&a, &c)
	return a
}

// Outputs are the values the gadget handed back in this execution.
func (st *State) Outputs() []fr.Element {
	if st.s.capture < 0 {
		return nil
	}
	off := st.s.ins[st.s.capture].off
	n := st.s.call[off+2]
	p := off + 3
	out := make([]fr.Element, n)
	for k := range out {
		out[k], p = st.hintInput(p)
	}
	return out
}

// ResetForce forgets all adversarial answers.
func (st *State) ResetForce() {
	for k := range st.force {
		delete(st.force, k)
	}
}
