package circ

import (
	"math/big"
	"sync"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/std/permutation/keccakf"
	"zksim/engine"
)

// idealPermutation lists the circuits being built in which Keccak's permutation is replaced by its
// specification. The sponge, the padding and everything around it stay the repository's code.
var idealPermutation sync.Map

// permHint is Keccak-f[1600] on 64-bit lanes; inputs that are not lanes have no permutation.
func permHint(_ *big.Int, in, out []*big.Int) error {
	var a [25]uint64
	for i := range a {
		if !in[i].IsUint64() {
			return errNotLane
		}
		a[i] = in[i].Uint64()
	}
	keccakF(&a)
	for i := range a {
		out[i].SetUint64(a[i])
	}
	return nil
}

type laneErr struct{}

func (laneErr) Error() string { return "permutation input is not a 64-bit lane" }

var errNotLane = laneErr{}

func init() {
	engine.RegisterIdeal(permHint)
	keccakf.PermuteStub = func(api API, a [25]V) (r [25]V, ok bool) {
		if _, on := idealPermutation.Load(api.Compiler()); !on {
			return r, false
		}
		o, err := api.Compiler().NewHint(permHint, 25, a[:]...)
		if err != nil {
			panic(err)
		}
		for i := range o {
			// the specification only speaks about lanes; the real permutation enforces that as well
			r[i] = o[i]
		}
		return r, true
	}
}

// withIdealPermutation marks the circuit under construction.
func withIdealPermutation(f engine.DefineFn) engine.DefineFn {
	return func(api API, in []V) []V {
		idealPermutation.Store(api.Compiler(), true)
		defer idealPermutation.Delete(api.Compiler())
		return f(api, in)
	}
}

var _ fr.Element

const permStub = "gnark's Keccak-f[1600] permutation is replaced by its specification (property C09 runs it for real)"
