// Package engine is a deterministic simulator of the prover/verifier system that a gnark circuit is
// deployed in. The circuit's constraint system (the verifier's side) is the real code of the
// repository, compiled from the working tree. Everything the prover is free to choose - the answer
// of every hint call and every wire the constraints leave undetermined - is a simulated,
// fault-injectable party driven by a seeded scheduler.
package engine

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strings"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/constraint"
	cs_bn254 "github.com/consensys/gnark/constraint/bn254"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs"
	"github.com/consensys/gnark/frontend/cs/r1cs"
)

var Field = ecc.BN254.ScalarField()

func newBig() *big.Int { return new(big.Int) }

// CaptureHint records the values a gadget handed back to its caller; it is never a choice point.
func CaptureHint(_ *big.Int, in, out []*big.Int) error {
	out[0].SetUint64(0)
	return nil
}

var captureID = solver.GetHintID(CaptureHint)
var commitID = solver.GetHintID(cs.Bsb22CommitmentComputePlaceholder)

// DefineFn builds a circuit from the real gadgets and returns the values they handed back.
type DefineFn func(api frontend.API, in []frontend.Variable) []frontend.Variable

type wrapper struct {
	In []frontend.Variable
	f  DefineFn
}

func (c *wrapper) Define(api frontend.API) error {
	in := append([]frontend.Variable{}, c.In...)
	outs := c.f(api, c.In)
	for i := range in {
		if !reflect.DeepEqual(in[i], c.In[i]) {
			panic(fmt.Sprintf("the gadget overwrote variable %d of its caller", i))
		}
	}
	if len(outs) > 0 {
		if _, err := api.Compiler().NewHint(CaptureHint, 1, outs...); err != nil {
			return err
		}
	}
	return nil
}

const (
	kindR1C = iota
	kindHint
	kindCommit
	kindCapture
	kindIdeal
)

type instr struct {
	off  uint32
	kind uint8
}

// HintSite is one call of the untrusted prover.
type HintSite struct {
	Ins   int32
	Fn    solver.Hint
	Name  string
	Fast  uint8 // natively evaluated hint kinds
	Emu   bool  // answers are residues of an emulated field
	NIn   int
	Start uint32
	End   uint32
}

const (
	fastNone = iota
	fastBits
	fastInvZero
)

// Sys is one compiled constraint system in a form the simulator can re-execute incrementally.
type Sys struct {
	Name    string
	NbIn    int
	nbPub   int
	nbWires int
	call    []uint32
	coef    []fr.Element
	ins     []instr
	solves  []int32 // r1c: wire it defines or -1 when it is a check
	loc     []uint8
	hintOf  map[int32]int32 // ins -> index in Hints (or Ideal)
	Hints   []HintSite
	Ideal   []HintSite // idealised components: always computed as specified
	consOff []uint32
	cons    []uint32
	def     []int32
	capture int32
	NbR1C   int
	NbCheck int
	byName  [][]int32
	bySig   [][]int32
	emuSig  [][]int32 // those of non-native field arithmetic
}

var extraHints []solver.Hint
var idealHints = map[solver.HintID]bool{}

// RegisterIdeal registers functions whose answers are not the prover's to choose: the scenario
// replaces a component of the circuit by its specification.
func RegisterIdeal(h ...solver.Hint) {
	extraHints = append(extraHints, h...)
	for _, x := range h {
		idealHints[solver.GetHintID(x)] = true
	}
}

// RegisterHints makes repository hints that are not in gnark's registry known to the simulator.
func RegisterHints(h ...solver.Hint) { extraHints = append(extraHints, h...) }

func hintTable() map[solver.HintID]solver.Hint {
	m := map[solver.HintID]solver.Hint{}
	for _, h := range solver.GetRegisteredHints() {
		m[solver.GetHintID(h)] = h
	}
	for _, h := range extraHints {
		m[solver.GetHintID(h)] = h
	}
	m[captureID] = CaptureHint
	return m
}

// UnknownHint is returned when a circuit asks the prover something the simulator cannot answer.
type UnknownHint struct{ ID uint32 }

func (u UnknownHint) Error() string { return fmt.Sprintf("unknown hint id %d", u.ID) }

// BuildError means the circuit does not compile: the gadget panicked or refused the configuration.
type BuildError struct{ Msg string }

func (b BuildError) Error() string { return b.Msg }

// Compile builds the R1CS of a scenario over BN254 and indexes it.
func Compile(name string, nIn int, f DefineFn) (s *Sys, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = BuildError{fmt.Sprintf("panic while building the circuit: %v", r)}
		}
	}()
	ccs, e := frontend.Compile(Field, r1cs.NewBuilder, &wrapper{In: make([]frontend.Variable, nIn), f: f}, frontend.IgnoreUnconstrainedInputs(), frontend.WithCapacity(1<<16))
	if e != nil {
		msg := e.Error()
		if i := strings.IndexByte(msg, '\n'); i > 0 {
			msg = msg[:i]
		}
		return nil, BuildError{msg}
	}
	r := ccs.(*cs_bn254.R1CS)
	s = &Sys{Name: name, NbIn: nIn, hintOf: map[int32]int32{}, capture: -1}
	s.nbPub = len(r.Public)
	if s.nbPub != 1 || len(r.Secret) != nIn {
		return nil, fmt.Errorf("unexpected witness layout %d/%d", s.nbPub, len(r.Secret))
	}
	s.nbWires = s.nbPub + len(r.Secret) + r.NbInternalVariables
	s.call = r.CallData
	s.coef = r.Coefficients
	tbl := hintTable()
	s.ins = make([]instr, len(r.Instructions))
	s.solves = make([]int32, len(r.Instructions))
	s.loc = make([]uint8, len(r.Instructions))
	s.def = make([]int32, s.nbWires)
	for i := range s.def {
		s.def[i] = -2
	}
	for i := 0; i < s.nbPub+nIn; i++ {
		s.def[i] = -1
	}
	cnt := make([]uint32, s.nbWires+1)
	for i, pi := range r.Instructions {
		off := uint32(pi.StartCallData)
		s.ins[i].off = off
		s.solves[i] = -1
		switch bp := r.Blueprints[pi.BlueprintID].(type) {
		case *constraint.BlueprintGenericR1C:
			s.ins[i].kind = kindR1C
			s.NbR1C++
			nl, nr, no := s.call[off+1], s.call[off+2], s.call[off+3]
			p := off + 4
			for side, n := range [3]uint32{nl, nr, no} {
				for k := uint32(0); k < n; k++ {
					w := s.call[p+1]
					p += 2
					cnt[w]++
					if s.def[w] == -2 {
						if s.solves[i] >= 0 {
							return nil, fmt.Errorf("instruction %d has two unsolved wires", i)
						}
						s.solves[i] = int32(w)
						s.loc[i] = uint8(side + 1)
					}
				}
			}
			if s.solves[i] >= 0 {
				s.def[s.solves[i]] = int32(i)
			} else {
				s.NbCheck++
			}
		case *constraint.BlueprintGenericHint:
			id := solver.HintID(s.call[off+1])
			nin := int(s.call[off+2])
			p := off + 3
			for k := 0; k < nin; k++ {
				n := s.call[p]
				p++
				for q := uint32(0); q < n; q++ {
					w := s.call[p+1]
					p += 2
					if w != math.MaxUint32 {
						cnt[w]++
					}
				}
			}
			st, en := s.call[p], s.call[p+1]
			for w := st; w < en; w++ {
				s.def[w] = int32(i)
			}
			switch id {
			case captureID:
				s.ins[i].kind = kindCapture
				s.capture = int32(i)
			case commitID:
				s.ins[i].kind = kindCommit
			default:
				s.ins[i].kind = kindHint
				fn := tbl[id]
				if fn == nil {
					return nil, UnknownHint{uint32(id)}
				}
				h := HintSite{Ins: int32(i), Fn: fn, Name: solver.GetHintName(fn), NIn: nin, Start: st, End: en}
				if idealHints[id] {
					s.ins[i].kind = kindIdeal
					s.hintOf[int32(i)] = int32(len(s.Ideal))
					s.Ideal = append(s.Ideal, h)
					continue
				}
				h.Emu = strings.Contains(h.Name, "/emulated.")
				switch {
				case strings.HasSuffix(h.Name, "/bits.nBits"):
					h.Fast = fastBits
				case strings.HasSuffix(h.Name, "solver.InvZeroHint"):
					h.Fast = fastInvZero
				}
				s.hintOf[int32(i)] = int32(len(s.Hints))
				s.Hints = append(s.Hints, h)
			}
		default:
			return nil, fmt.Errorf("unsupported blueprint %T", bp)
		}
	}
	for w := range s.def {
		if s.def[w] == -2 {
			return nil, fmt.Errorf("wire %d is never defined", w)
		}
	}
	// wire -> instructions that read it
	s.consOff = make([]uint32, s.nbWires+1)
	for w := 0; w < s.nbWires; w++ {
		s.consOff[w+1] = s.consOff[w] + cnt[w]
	}
	s.cons = make([]uint32, s.consOff[s.nbWires])
	fill := make([]uint32, s.nbWires)
	for i := range s.ins {
		s.reads(int32(i), func(w uint32) {
			s.cons[s.consOff[w]+fill[w]] = uint32(i)
			fill[w]++
		})
	}
	s.hintNames()
	s.bySig = s.signatures()
	for _, l := range s.bySig {
		if n := s.Hints[l[0]].Name; hasSuffix(n, "emulated.mulHint", "emulated.RemHint", "emulated.DivHint", "emulated.InverseHint") {
			s.emuSig = append(s.emuSig, l)
		}
	}
	return s, nil
}

// reads calls f for every wire an instruction mentions.
func (s *Sys) reads(i int32, f func(w uint32)) {
	off := s.ins[i].off
	if s.ins[i].kind == kindR1C {
		n := s.call[off+1] + s.call[off+2] + s.call[off+3]
		p := off + 4
		for k := uint32(0); k < n; k++ {
			f(s.call[p+1])
			p += 2
		}
		return
	}
	nin := int(s.call[off+2])
	p := off + 3
	for k := 0; k < nin; k++ {
		n := s.call[p]
		p++
		for q := uint32(0); q < n; q++ {
			if w := s.call[p+1]; w != math.MaxUint32 {
				f(w)
			}
			p += 2
		}
	}
}

// NbInstr is the number of instructions of the system.
func (s *Sys) NbInstr() int { return len(s.ins) }

// Fingerprint identifies the compiled constraint system, independent of addresses and timing.
func (s *Sys) Fingerprint() string {
	h := sha256.New()
	var b [4]byte
	for _, c := range s.call {
		binary.LittleEndian.PutUint32(b[:], c)
		h.Write(b[:])
	}
	for i := range s.coef {
		x := s.coef[i].Bytes()
		h.Write(x[:])
	}
	return fmt.Sprintf("%x", h.Sum(nil)[:12])
}

// HintKinds lists how many calls each hint function gets.
func (s *Sys) HintKinds() map[string]int {
	m := map[string]int{}
	for _, h := range s.Hints {
		m[ShortName(h.Name)]++
	}
	return m
}

// ShortName drops the import path of a hint function.
func ShortName(n string) string {
	if i := strings.LastIndexByte(n, '/'); i >= 0 {
		return n[i+1:]
	}
	return n
}

func sortedKeys[V any](m map[string]V) []string {
	k := make([]string, 0, len(m))
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

func hasSuffix(s string, of ...string) bool {
	for _, x := range of {
		if strings.HasSuffix(s, x) {
			return true
		}
	}
	return false
}

// CompileDigest compiles a circuit and identifies the resulting constraint system.
func CompileDigest(nIn int, f DefineFn) (digest string, size int, err error) {
	ccs, err := frontend.Compile(Field, r1cs.NewBuilder, &wrapper{In: make([]frontend.Variable, nIn), f: f}, frontend.IgnoreUnconstrainedInputs(), frontend.WithCapacity(1<<12))
	if err != nil {
		return "", 0, err
	}
	r := ccs.(*cs_bn254.R1CS)
	h := sha256.New()
	fmt.Fprintln(h, len(r.Public), len(r.Secret), r.NbInternalVariables, r.GetNbConstraints(), r.CommitmentInfo)
	for _, pi := range r.Instructions {
		fmt.Fprintln(h, pi.BlueprintID, pi.ConstraintOffset, pi.WireOffset, pi.StartCallData)
	}
	var b [4]byte
	for _, c := range r.CallData {
		binary.LittleEndian.PutUint32(b[:], c)
		h.Write(b[:])
	}
	for i := range r.Coefficients {
		x := r.Coefficients[i].Bytes()
		h.Write(x[:])
	}
	return fmt.Sprintf("%x", h.Sum(nil)[:12]), len(r.Instructions), nil
}
