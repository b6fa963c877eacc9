// Package circ holds the scenarios: circuits built from the repository's gadgets, generators of
// cases, and independent reference models that say what an accepted proof may claim.
package circ

import (
	"fmt"
	"math/big"

	"github.com/brevis-network/zk-utils/circuits/gadgets/limbs"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/emulated"
	"zksim/engine"
)

type (
	V        = frontend.Variable
	API      = frontend.API
	Scenario = engine.Scenario
	Case     = engine.Case
	Src      = engine.Src
)

func init() { engine.RegisterHints(limbs.SplitHint, emulated.RemHint) }

var registry = map[string]func(tier string) []*Scenario{}
var assumptions = map[string][]string{}

var commonAssumptions = []string{
	"gnark's frontend (circuit compiler) and field arithmetic are correct; the simulator executes the compiled R1CS itself with its own solver",
	"the prover is modelled as free to answer every hint call and every undetermined wire; commitments (Bsb22) are modelled as a random oracle over the committed wires",
	"seeded search, not exhaustive: a weakness that needs more than a few cooperating lies, or lies this adversary does not try, can be missed",
}

// Scenarios lists the scenarios that decide a property.
func Scenarios(prop, tier string) []*Scenario {
	f := registry[prop]
	if f == nil {
		return nil
	}
	sc := f(tier)
	for _, x := range sc {
		if b := boost[prop]; b > 0 {
			x.Cases *= b
		}
	}
	return sc
}

// boost multiplies the number of cases of properties whose circuits are small.
var boost = map[string]int{"C08": 4, "C13": 20, "C14": 8, "C15": 4, "C20": 12}

// Assumptions of a property's check.
func Assumptions(prop string) []string {
	return append(append([]string{}, commonAssumptions...), assumptions[prop]...)
}

func bi(x int64) *big.Int { return big.NewInt(x) }

// eqOut compares captured outputs with what the reference model computed.
func eqOut(what string, out []fr.Element, want []*big.Int) error {
	if len(out) != len(want) {
		return fmt.Errorf("%s: %d values handed back, reference has %d", what, len(out), len(want))
	}
	for i := range out {
		w := engine.Fr(want[i])
		if !out[i].Equal(&w) {
			return fmt.Errorf("%s: value %d is 0x%s, reference says 0x%s", what, i, out[i].Text(16), want[i].Text(16))
		}
	}
	return nil
}

func bytesBig(b []byte) []*big.Int {
	r := make([]*big.Int, len(b))
	for i := range b {
		r[i] = big.NewInt(int64(b[i]))
	}
	return r
}

func intsBig(b []int) []*big.Int {
	r := make([]*big.Int, len(b))
	for i := range b {
		r[i] = big.NewInt(int64(b[i]))
	}
	return r
}

// bitsLE lists the bits of each byte, least significant first.
func bitsLE(b []byte) []byte {
	r := make([]byte, 0, len(b)*8)
	for _, x := range b {
		for k := 0; k < 8; k++ {
			r = append(r, x>>uint(k)&1)
		}
	}
	return r
}

func bitsBE(b []byte) []byte {
	r := make([]byte, 0, len(b)*8)
	for _, x := range b {
		for k := 7; k >= 0; k-- {
			r = append(r, x>>uint(k)&1)
		}
	}
	return r
}

func nibbles(b []byte) []byte {
	r := make([]byte, 0, len(b)*2)
	for _, x := range b {
		r = append(r, x>>4, x&15)
	}
	return r
}

func reject(msg string) func([]fr.Element) error {
	return func([]fr.Element) error { return fmt.Errorf("%s", msg) }
}

func okAlways([]fr.Element) error { return nil }

func hexs(b []byte) string {
	if len(b) > 48 {
		return fmt.Sprintf("%x..(%d bytes)", b[:48], len(b))
	}
	return fmt.Sprintf("%x", b)
}
