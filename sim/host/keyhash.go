package host

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/brevis-network/zk-utils/common/utils"
	"github.com/consensys/gnark-crypto/ecc"
	fr377 "github.com/consensys/gnark-crypto/ecc/bls12-377/fr"
	mimc377 "github.com/consensys/gnark-crypto/ecc/bls12-377/fr/mimc"
	fr254 "github.com/consensys/gnark-crypto/ecc/bn254/fr"
	mimc254 "github.com/consensys/gnark-crypto/ecc/bn254/fr/mimc"
	fr761 "github.com/consensys/gnark-crypto/ecc/bw6-761/fr"
	mimc761 "github.com/consensys/gnark-crypto/ecc/bw6-761/fr/mimc"
	"github.com/consensys/gnark/std/algebra/native/sw_bls12377"
	replonk "github.com/consensys/gnark/std/recursion/plonk"
)

type appKey = replonk.VerifyingKey[sw_bls12377.ScalarField, sw_bls12377.G1Affine, sw_bls12377.G2Affine]

// keyPart is one number of a key.
type keyPart struct {
	name string
	get  func() *big.Int
	set  func(*big.Int)
}

func fieldPart(name string, p *interface{}) keyPart {
	return keyPart{name, func() *big.Int {
		e := (*p).(fr761.Element)
		return e.BigInt(new(big.Int))
	}, func(x *big.Int) {
		var e fr761.Element
		e.SetBigInt(x)
		*p = e
	}}
}

func limbPart(name string, p *interface{}) keyPart {
	return keyPart{name, func() *big.Int { return new(big.Int).Set((*p).(*big.Int)) }, func(x *big.Int) {
		*p = new(big.Int).And(x, new(big.Int).SetUint64(^uint64(0)))
	}}
}

// hashedParts are what the hash is documented to cover, in order; otherParts is the rest of the key.
func keyParts(k *appKey) (hashed, rest []keyPart) {
	v := func(x *interface{}) *interface{} { return x }
	hashed = append(hashed, keyPart{"public-count", func() *big.Int { return new(big.Int).SetUint64(k.NbPublicVariables) }, func(x *big.Int) { k.NbPublicVariables = x.Uint64() }})
	for i := range k.CosetShift.Limbs {
		hashed = append(hashed, limbPart("coset-shift", (*interface{})(&k.CosetShift.Limbs[i])))
	}
	g1 := func(name string, p *sw_bls12377.G1Affine) []keyPart {
		return []keyPart{fieldPart(name, v((*interface{})(&p.X))), fieldPart(name, (*interface{})(&p.Y))}
	}
	hashed = append(hashed, g1("kzg-g1", &k.Kzg.G1)...)
	for i := range k.Kzg.G2 {
		p := &k.Kzg.G2[i].P
		for _, x := range []*interface{}{(*interface{})(&p.X.A0), (*interface{})(&p.X.A1), (*interface{})(&p.Y.A0), (*interface{})(&p.Y.A1)} {
			hashed = append(hashed, fieldPart("kzg-g2", x))
		}
	}
	for i := range k.S {
		hashed = append(hashed, g1("permutation", &k.S[i].G1El)...)
	}
	hashed = append(hashed, g1("ql", &k.Ql.G1El)...)
	hashed = append(hashed, g1("qr", &k.Qr.G1El)...)
	hashed = append(hashed, g1("qm", &k.Qm.G1El)...)
	hashed = append(hashed, g1("qo", &k.Qo.G1El)...)
	hashed = append(hashed, g1("qk", &k.Qk.G1El)...)
	rest = append(rest, keyPart{"size", func() *big.Int { return toBig(k.Size) }, func(x *big.Int) { k.Size = new(big.Int).Set(x) }})
	for i := range k.SizeInv.Limbs {
		rest = append(rest, limbPart("size-inverse", (*interface{})(&k.SizeInv.Limbs[i])))
	}
	for i := range k.Generator.Limbs {
		rest = append(rest, limbPart("generator", (*interface{})(&k.Generator.Limbs[i])))
	}
	for i := range k.Qcp {
		rest = append(rest, g1("commitment-selector", &k.Qcp[i].G1El)...)
	}
	for i := range k.CommitmentConstraintIndexes {
		i := i
		rest = append(rest, keyPart{"commitment-index", func() *big.Int { return toBig(k.CommitmentConstraintIndexes[i]) }, func(x *big.Int) { k.CommitmentConstraintIndexes[i] = new(big.Int).Set(x) }})
	}
	return
}

func toBig(x interface{}) *big.Int {
	switch y := x.(type) {
	case *big.Int:
		return new(big.Int).Set(y)
	case big.Int:
		return new(big.Int).Set(&y)
	}
	r, ok := new(big.Int).SetString(fmt.Sprint(x), 10)
	if !ok {
		panic(fmt.Sprintf("no number: %T", x))
	}
	return r
}

// appKeys are fresh copies of the keys a store holds.
func appKeys() (r []*appKey) {
	for _, b := range allBundles() {
		if b.id != ecc.BLS12_377 {
			continue
		}
		k, err := replonk.ValueOfVerifyingKey[sw_bls12377.ScalarField, sw_bls12377.G1Affine, sw_bls12377.G2Affine](b.pvk)
		must(err)
		r = append(r, &k)
	}
	return
}

// A verifying key travels from its owner through a store that may alter it; the node that reads it identifies it by its
// hash.
func keyTransport(w *World) {
	s := w.S
	keys := appKeys()
	k := s.Int(len(keys))
	own, read := keys[k], appKeys()[k]
	hashed, rest := keyParts(read)
	all := append(append([]keyPart{}, hashed...), rest...)
	ownHashed, ownRest := keyParts(own)
	ownAll := append(ownHashed, ownRest...)
	hash := func(k *appKey) (h []byte) {
		w.Try("CalculateAppVkHashFor761", func() { h = utils.CalculateAppVkHashFor761(*k) })
		return
	}
	// the owner may have a key that is all its own
	for i, n := 0, s.Int(4); i < n; i++ {
		j, x := s.Int(len(ownAll)), s.BitsInt(377)
		ownAll[j].set(x)
		all[j].set(x)
	}
	a := hash(own)
	w.Class = "same"
	n := s.Int(3)
	for i := 0; i < n; i++ {
		j := s.Int(len(all))
		if s.Bool() {
			x := all[j].get()
			switch s.Int(4) {
			case 0:
				x.Add(x, big.NewInt(1))
			case 1:
				x.SetInt64(0)
			case 2:
				x = s.BitsInt(377)
			case 3:
				x.Xor(x, new(big.Int).Lsh(big.NewInt(1), uint(s.Int(377))))
			}
			all[j].set(x)
			w.Fault("store-alters-" + all[j].name)
		} else {
			l := s.Int(len(all))
			x, y := all[j].get(), all[l].get()
			all[j].set(y)
			all[l].set(x)
			w.Fault("store-swaps")
		}
	}
	var differ []string
	for i := range all {
		if all[i].get().Cmp(ownAll[i].get()) != 0 {
			if len(differ) == 0 || differ[len(differ)-1] != all[i].name {
				differ = append(differ, all[i].name)
			}
		}
	}
	if len(differ) > 0 {
		w.Class = differ[0]
	}
	var before []string
	for _, p := range all {
		before = append(before, p.get().String())
	}
	b := hash(read)
	w.Log("key %d hashes %x and, altered in %v, %x", k, a, differ, b)
	for i, p := range all {
		if p.get().String() != before[i] {
			w.Fail("altered", "hashing changes the %s of the key", p.name)
		}
	}
	h := mimc761.NewMiMC()
	for _, p := range hashed {
		var e fr761.Element
		e.SetBigInt(p.get())
		x := e.Bytes()
		h.Write(x[:])
	}
	if want := h.Sum(nil); !bytes.Equal(b, want) {
		w.Fail("wrong", "the hash of a key is %x, its parts give %x", b, want)
	}
	if len(differ) == 0 && !bytes.Equal(a, b) {
		w.Fail("unstable", "two copies of one key hash to %x and %x", a, b)
	}
	if len(differ) > 0 && bytes.Equal(a, b) {
		w.Fail("unbound", "a key altered in %v keeps its hash %x", differ, a)
	}
	// the short form
	var c []byte
	w.Try("CalculateAppVkHashFrom761To254", func() { c = utils.CalculateAppVkHashFrom761To254(b) })
	m := mimc254.NewMiMC()
	for i := 0; i < 2; i++ {
		var e fr254.Element
		e.SetBytes(b[24*i : 24*i+24])
		x := e.Bytes()
		m.Write(x[:])
	}
	if want := m.Sum(nil); !bytes.Equal(c, want) {
		w.Fail("wrong", "the short hash of a key is %x, not %x", c, want)
	}
}

// dataHash compares the hash of bytes over BLS12-377 with a recomputation.
func dataHash(w *World) {
	s := w.S
	n := s.Int(200)
	data := s.Bytes(n)
	if n > 0 && s.Bool() {
		// close to the modulus of the field
		x := fr377.Modulus()
		x.Add(x, big.NewInt(int64(s.Int(7)-3)))
		x.Lsh(x, 3)
		copy(data, x.FillBytes(make([]byte, 32)))
	}
	w.Class = "data"
	keep := append([]byte{}, data...)
	var got []byte
	w.Try("GenerateBls12377Hash", func() { got = utils.GenerateBls12377Hash(data) })
	w.Log("hash of %x is %x", data, got)
	h := mimc377.NewMiMC()
	for i := 0; i < 8*n; i += 253 {
		x := new(big.Int)
		for j := i; j < 8*n && j < i+253; j++ {
			x.Lsh(x, 1)
			x.Or(x, big.NewInt(int64(data[j/8]>>(7-j%8)&1)))
		}
		var e fr377.Element
		e.SetBigInt(x)
		y := e.Bytes()
		h.Write(y[:])
	}
	if want := h.Sum(nil); !bytes.Equal(got, want) {
		w.Fail("wrong", "the hash of %x is %x, not %x", data, got, want)
	}
	if !bytes.Equal(data, keep) {
		w.Fail("altered", "hashing changes the data")
	}
}

func init() {
	registry = append(registry,
		&Scen{Prop: "C37", Name: "keys", Runs: 30000, Fn: keyTransport},
		&Scen{Prop: "C33", Name: "data", Runs: 10000, Fn: dataHash},
	)
	assumptions["C37"] = []string{"MiMC has no collisions the store can find"}
}
