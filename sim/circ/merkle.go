package circ

import (
	"fmt"
	"hash"
	"math/big"

	emu "github.com/brevis-network/zk-utils/circuits/gadgets/emulated"
	emimc "github.com/brevis-network/zk-utils/circuits/gadgets/emulated/mimc"
	"github.com/brevis-network/zk-utils/circuits/gadgets/merkle"
	"github.com/brevis-network/zk-utils/circuits/gadgets/smt"
	"github.com/consensys/gnark-crypto/ecc"
	mimc377 "github.com/consensys/gnark-crypto/ecc/bls12-377/fr/mimc"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	mimc254 "github.com/consensys/gnark-crypto/ecc/bn254/fr/mimc"
	mimc761 "github.com/consensys/gnark-crypto/ecc/bw6-761/fr/mimc"
	"github.com/consensys/gnark/std/hash/mimc"
	"github.com/consensys/gnark/std/math/emulated"
	"zksim/engine"
)

func init() {
	registry["C12"] = merkleScenarios
	registry["C13"] = smtScenarios
	registry["C16"] = emulatedScenarios
	assumptions["C12"] = []string{"gnark-crypto's host MiMC and x/crypto's Keccak are the reference hashes"}
	assumptions["C13"] = assumptions["C12"]
	assumptions["C16"] = []string{"gnark-crypto's host MiMC is the reference; field equality of emulated results is judged modulo the emulated prime, with limbs inside their width"}
}

// hostMimc hashes integers with the host MiMC over the given field.
func hostMimc(mk func() hash.Hash, size int, p *big.Int, v ...*big.Int) *big.Int {
	h := mk()
	for _, x := range v {
		m := new(big.Int).Mod(x, p)
		h.Write(m.FillBytes(make([]byte, size)))
	}
	return new(big.Int).SetBytes(h.Sum(nil))
}

func mimcNative(v ...*big.Int) *big.Int {
	return hostMimc(func() hash.Hash { return mimc254.NewMiMC() }, 32, engine.Field, v...)
}

// pathRoot folds a path: flag 0 puts the running value left.
func pathRoot(v *big.Int, flags []int, branches []*big.Int) *big.Int {
	for i, b := range branches {
		if flags[i] == 0 {
			v = mimcNative(v, b)
		} else {
			v = mimcNative(b, v)
		}
	}
	return v
}

func flagsOf(s *Src, n int) ([]int, []*big.Int, bool) {
	f := make([]int, n)
	v := make([]*big.Int, n)
	bad := -1
	if n > 0 && s.Chance(1, 6) {
		bad = s.Int(n)
	}
	for i := range f {
		f[i] = s.Int(2)
		v[i] = bi(int64(f[i]))
		if i == bad {
			v[i] = []*big.Int{bi(2), new(big.Int).Sub(engine.Field, bi(1)), bi(3), new(big.Int).Rsh(engine.Field, 1)}[s.Int(4)]
		}
	}
	return f, v, bad < 0
}

func merkleScenarios(tier string) []*Scenario {
	var sc []*Scenario
	// Keccak tree over 256-bit leaves
	ks := []int{1, 2, 4}
	if tier == "thorough" {
		ks = []int{1, 2, 4, 8}
	}
	for _, n := range ks {
		n := n
		sc = append(sc, &Scenario{
			Name: fmt.Sprintf("keccaktree/%d", n), NIn: n*256 + 1, Cases: 16, Attacks: 16, Repairs: 3,
			Define: func(api API, in []V) []V {
				var leaves [][256]V
				for i := 0; i < n; i++ {
					var l [256]V
					copy(l[:], in[i*256:])
					leaves = append(leaves, l)
				}
				r := merkle.KeccakMerkleRoot(api, leaves)
				return r[:]
			},
			Gen: func(s *Src) Case {
				var lv [][]byte
				var in []fr.Element
				for i := 0; i < n; i++ {
					b := s.Bytes(32)
					if i > 0 && s.Chance(1, 6) {
						b = lv[i-1]
					}
					lv = append(lv, b)
					in = append(in, engine.Frs(bitsLE(b))...)
				}
				in = append(in, fr.Element{})
				d := fmt.Sprintf("leaves %x", lv)
				for len(lv) > 1 {
					var up [][]byte
					for i := 0; i < len(lv); i += 2 {
						up = append(up, keccak256(lv[i], lv[i+1]))
					}
					lv = up
				}
				w := bytesBig(bitsLE(lv[0]))
				return Case{In: in, Accept: true, Class: "tree", Desc: d, Judge: func(out []fr.Element) error { return eqOut("root", out, w) }}
			},
		})
	}
	// native MiMC path
	for _, c := range []struct {
		k    string
		d, x int // depth, spare flags
	}{{"leafhash", 0, 0}, {"leafhash", 1, 0}, {"leafhash", 3, 0}, {"leafhash", 4, 2}, {"leaf", 0, 0}, {"leaf", 2, 0}, {"leaf", 5, 1}, {"step", 1, 0}, {"leaf", 18, 0}} {
		c := c
		sc = append(sc, &Scenario{
			Name: fmt.Sprintf("mimcpath-%s/%d+%d", c.k, c.d, c.x), NIn: 1 + 2*c.d + c.x, Cases: 30, Attacks: 40, Repairs: 4,
			Define: func(api API, in []V) []V {
				h, err := mimc.NewMiMC(api)
				if err != nil {
					panic(err)
				}
				br, fl := in[1:1+c.d], in[1+c.d:]
				useHasher(&h, c.d%3, in[0])
				switch c.k {
				case "leafhash":
					return []V{merkle.MerkleRootWithLeaveHash(api, h, in[0], fl, br)}
				case "leaf":
					return []V{merkle.MerkleRootBasedOnMiMCHash(api, h, in[0], fl, br)}
				}
				return []V{merkle.MiMCHashBasedOnIndex(api, h, in[0], in[1], in[2])}
			},
			Gen: func(s *Src) Case {
				v := s.Elem()
				br := elems(s, c.d)
				if c.d > 0 && s.Chance(1, 6) {
					br[0] = v
				}
				f, fv, ok := flagsOf(s, c.d)
				in := append(engine.Frs(append([]*big.Int{v}, br...)), engine.Frs(fv)...)
				for i := 0; i < c.x; i++ {
					in = append(in, engine.Fr(s.Int(3)))
				}
				d := fmt.Sprintf("leaf %x branches %x flags %v", v, br, fv)
				if !ok {
					return Case{In: in, Class: "bad-direction-flag", Desc: d, Judge: reject("a direction flag other than 0 and 1 was accepted")}
				}
				if c.k == "leaf" {
					v = mimcNative(v)
				}
				w := pathRoot(v, f, br)
				return Case{In: in, Accept: true, Class: "path", Desc: d, Judge: func(out []fr.Element) error { return eqOut("root", out, []*big.Int{w}) }}
			},
		})
	}
	sc = append(sc, emuMerkle[emulated.BLS12377Fr]("bls12377", ecc.BLS12_377, func() hash.Hash { return mimc377.NewMiMC() }, 32)...)
	sc = append(sc, emuMerkle[emulated.BN254Fr]("bn254", ecc.BN254, func() hash.Hash { return mimc254.NewMiMC() }, 32)...)
	sc = append(sc, emuMerkle[emulated.BW6761Fr]("bw6761", ecc.BW6_761, func() hash.Hash { return mimc761.NewMiMC() }, 48)...)
	return sc
}

// emuIn declares an emulated element from witness limbs, width-checked as a circuit input is.
func emuIn[T emulated.FieldParams](api API, limbs []V) *emulated.Element[T] {
	f, err := emulated.NewField[T](api)
	if err != nil {
		panic(err)
	}
	return f.NewElement(append([]V{}, limbs...))
}

// emuOut hands out the limbs of an element.
func emuOut[T emulated.FieldParams](e *emulated.Element[T]) []V { return append([]V{}, e.Limbs...) }

func limbsOf[T emulated.FieldParams](v *big.Int) []fr.Element {
	var t T
	w, n := t.BitsPerLimb(), t.NbLimbs()
	m := new(big.Int).Sub(new(big.Int).Lsh(bi(1), w), bi(1))
	var r []fr.Element
	x := new(big.Int).Set(v)
	for i := uint(0); i < n; i++ {
		r = append(r, engine.Fr(new(big.Int).And(x, m)))
		x.Rsh(x, w)
	}
	return r
}

// emuVal reads an element back and checks the limb widths.
func emuVal[T emulated.FieldParams](out []fr.Element) (*big.Int, error) {
	var t T
	w, n := t.BitsPerLimb(), int(t.NbLimbs())
	if len(out) != n {
		return nil, fmt.Errorf("%d limbs, field has %d", len(out), n)
	}
	v := new(big.Int)
	for i := n - 1; i >= 0; i-- {
		var l big.Int
		out[i].BigInt(&l)
		if l.BitLen() > int(w) {
			return nil, fmt.Errorf("limb %d is %d bits wide", i, l.BitLen())
		}
		v.Lsh(v, w).Or(v, &l)
	}
	return v, nil
}

func emuEq[T emulated.FieldParams](what string, out []fr.Element, want *big.Int) error {
	v, err := emuVal[T](out)
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	var t T
	if v.Mod(v, t.Modulus()).Cmp(new(big.Int).Mod(want, t.Modulus())) != 0 {
		return fmt.Errorf("%s is 0x%x, reference says 0x%x", what, v, want)
	}
	return nil
}

// emuElem draws an integer below the emulated prime with weight on the edges; sometimes an alias above it.
func emuElem[T emulated.FieldParams](s *Src) *big.Int {
	var t T
	p := t.Modulus()
	switch s.Int(6) {
	case 1:
		return bi(int64(s.Int(5)))
	case 2:
		return new(big.Int).Sub(p, bi(int64(1+s.Int(5))))
	case 3:
		return new(big.Int).Lsh(bi(1), uint(s.Int(p.BitLen()-1)))
	}
	return new(big.Int).Mod(new(big.Int).SetBytes(s.Plain(p.BitLen()/8+9)), p)
}

func emuMerkle[T emulated.FieldParams](name string, id ecc.ID, mk func() hash.Hash, size int) []*Scenario {
	var t T
	nl := int(t.NbLimbs())
	p := t.Modulus()
	h := func(v ...*big.Int) *big.Int { return hostMimc(mk, size, p, v...) }
	var sc []*Scenario
	leaves := []int{1, 2, 4}
	if name != "bls12377" {
		leaves = []int{2}
	}
	for _, n := range leaves {
		n := n
		sc = append(sc, &Scenario{
			Name: fmt.Sprintf("emutree-%s/%d", name, n), NIn: n * nl, Cases: 8, Attacks: 10, Repairs: 3,
			Define: func(api API, in []V) []V {
				a := merkle.NewMimcRootAPI[T](api, id)
				var ls []*emulated.Element[T]
				for i := 0; i < n; i++ {
					ls = append(ls, emuIn[T](api, in[i*nl:(i+1)*nl]))
				}
				return emuOut(a.MimcRoot(ls))
			},
			Gen: func(s *Src) Case {
				var in []fr.Element
				var lv []*big.Int
				for i := 0; i < n; i++ {
					lv = append(lv, emuElem[T](s))
					in = append(in, limbsOf[T](lv[i])...)
				}
				d := fmt.Sprintf("leaves %x", lv)
				for len(lv) > 1 {
					var up []*big.Int
					for i := 0; i < len(lv); i += 2 {
						up = append(up, h(lv[i], lv[i+1]))
					}
					lv = up
				}
				return Case{In: in, Accept: true, Class: "tree", Desc: d, Judge: func(out []fr.Element) error { return emuEq[T]("root", out, lv[0]) }}
			},
		})
	}
	depths := []int{1, 3}
	if name != "bls12377" {
		depths = []int{1}
	}
	for _, n := range depths {
		n := n
		sc = append(sc, &Scenario{
			Name: fmt.Sprintf("emupath-%s/%d", name, n), NIn: (n+1)*nl + n, Cases: 8, Attacks: 10, Repairs: 3,
			Define: func(api API, in []V) []V {
				a := merkle.NewMimcRootAPI[T](api, id)
				var pa []*emulated.Element[T]
				for i := 0; i < n; i++ {
					pa = append(pa, emuIn[T](api, in[(i+1)*nl:(i+2)*nl]))
				}
				return emuOut(a.RestoreMimcRoot(emuIn[T](api, in[:nl]), pa, in[(n+1)*nl:]))
			},
			Gen: func(s *Src) Case {
				v := emuElem[T](s)
				in := limbsOf[T](v)
				var pa []*big.Int
				for i := 0; i < n; i++ {
					pa = append(pa, emuElem[T](s))
					in = append(in, limbsOf[T](pa[i])...)
				}
				f, fv, ok := flagsOf(s, n)
				in = append(in, engine.Frs(fv)...)
				d := fmt.Sprintf("leaf %x path %x flags %v", v, pa, fv)
				if !ok {
					return Case{In: in, Class: "bad-direction-flag", Desc: d, Judge: reject("a direction flag other than 0 and 1 was accepted")}
				}
				for i := range pa {
					if f[i] == 1 { // flag 1: the sibling is on the left
						v = h(pa[i], v)
					} else {
						v = h(v, pa[i])
					}
				}
				w := v
				return Case{In: in, Accept: true, Class: "path", Desc: d, Judge: func(out []fr.Element) error { return emuEq[T]("root", out, w) }}
			},
		})
	}
	return sc
}

// useHasher leaves something in a hasher, as a circuit does that shares it between its parts.
func useHasher(h *mimc.MiMC, how int, v V) {
	if how != 0 {
		h.Write(v)
	}
	if how == 2 {
		h.Sum()
	}
}

func smtScenarios(tier string) []*Scenario {
	var sc []*Scenario
	for _, c := range []struct{ leaf, depth int }{{0, 1}, {1, 2}, {2, 3}, {7, 18}, {3, 0}} {
		c := c
		nin := 1 + c.leaf + c.leaf + c.depth + c.depth + 1
		sc = append(sc, &Scenario{
			Name: fmt.Sprintf("inclusion/%d/%d", c.leaf, c.depth), NIn: nin, Cases: 60, Attacks: 50, Repairs: 4,
			Define: func(api API, in []V) []V {
				h, err := mimc.NewMiMC(api)
				if err != nil {
					panic(err)
				}
				p := 0
				take := func(n int) []V { p += n; return in[p-n : p] }
				tree := take(1 + c.leaf)
				li := take(c.leaf)
				idx := take(c.depth)
				br := take(c.depth)
				root := take(1)[0]
				useHasher(&h, c.leaf%3, root)
				return []V{smt.CheckSMTInclusion(api, h, c.depth, tree, li, idx, br, root)}
			},
			Gen: func(s *Src) Case {
				tree := elems(s, 1+c.leaf)
				lf, lv, ok1 := flagsOf(s, c.leaf)
				f, fv, ok2 := flagsOf(s, c.depth)
				br := elems(s, c.depth)
				leaf := pathRoot(mimcNative(tree[0]), lf, tree[1:])
				root := pathRoot(mimcNative(leaf), f, br)
				want, class := bi(1), "member"
				if s.Chance(1, 2) {
					want, class = bi(0), "not-member"
					switch s.Int(5) {
					case 0:
						root = s.Elem()
					case 1:
						root = new(big.Int).Add(root, bi(1))
						root.Mod(root, engine.Field)
					case 2:
						root = leaf
					case 3:
						root = pathRoot(leaf, f, br) // leaf not hashed once more
					default:
						if c.depth > 0 {
							k := s.Int(c.depth)
							f[k] ^= 1
							root = pathRoot(mimcNative(leaf), f, br)
							f[k] ^= 1
						} else {
							root = tree[0]
						}
					}
					if root.Cmp(pathRoot(mimcNative(leaf), f, br)) == 0 {
						want, class = bi(1), "member"
					}
				}
				all := append(append([]*big.Int{}, tree...), lv...)
				all = append(append(append(all, fv...), br...), root)
				d := fmt.Sprintf("leaf tree %x/%v path %x/%v root %x", tree, lv, br, fv, root)
				cs := Case{In: engine.Frs(all), Accept: ok1 && ok2, Class: class, Desc: d}
				if !cs.Accept {
					cs.Class, cs.Judge = "bad-direction-flag", reject("a direction flag other than 0 and 1 was accepted")
					return cs
				}
				cs.Judge = func(out []fr.Element) error { return eqOut("verdict", out, []*big.Int{want}) }
				return cs
			},
		})
	}
	return sc
}

func emulatedScenarios(tier string) []*Scenario {
	var sc []*Scenario
	sc = append(sc, emuConv[emulated.BLS12377Fr]("bls12377fr")...)
	sc = append(sc, emuConv[emulated.BN254Fr]("bn254fr")...)
	sc = append(sc, emuConv[emulated.BW6761Fr]("bw6761fr")...)
	sc = append(sc, emuConv[emulated.Secp256k1Fp]("secp256k1fp")...)
	sc = append(sc, emuConv[emulated.BLS12381Fp]("bls12381fp")...)
	sc = append(sc, emuMimc[emulated.BLS12377Fr]("bls12377", ecc.BLS12_377, func() hash.Hash { return mimc377.NewMiMC() }, 32)...)
	sc = append(sc, emuMimc[emulated.BN254Fr]("bn254", ecc.BN254, func() hash.Hash { return mimc254.NewMiMC() }, 32)...)
	sc = append(sc, emuMimc[emulated.BW6761Fr]("bw6761", ecc.BW6_761, func() hash.Hash { return mimc761.NewMiMC() }, 48)...)
	return sc
}

// digitsBE cuts a width-bit integer into digits, most significant first.
func digitsBE(v *big.Int, size, n int) []*big.Int {
	r := make([]*big.Int, n)
	m := new(big.Int).Sub(new(big.Int).Lsh(bi(1), uint(size)), bi(1))
	x := new(big.Int).Set(v)
	for i := n - 1; i >= 0; i-- {
		r[i] = new(big.Int).And(x, m)
		x.Rsh(x, uint(size))
	}
	return r
}

func emuConv[T emulated.FieldParams](name string) []*Scenario {
	var t T
	nl, w := int(t.NbLimbs()), int(t.BitsPerLimb())
	width := nl * w
	var sc []*Scenario
	for _, size := range []int{1, 4, 8, 16, 32, 64, 128} {
		size := size
		if width%size != 0 {
			continue
		}
		n := width / size
		sc = append(sc, &Scenario{
			Name: fmt.Sprintf("from-%s/%d", name, size), NIn: nl, Cases: 24, Attacks: 80, Repairs: 4,
			Define: func(api API, in []V) []V {
				e := emulated.Element[T]{Limbs: append([]V{}, in...)}
				return emu.FromElement[T](api, &e, size)
			},
			Gen: func(s *Src) Case {
				v := s.BitsInt(width)
				if s.Bool() {
					v = emuElem[T](s)
				}
				want := digitsBE(v, size, n)
				return Case{In: limbsOf[T](v), Accept: true, Class: "limbs", Desc: fmt.Sprintf("%x", v), Judge: func(out []fr.Element) error { return eqOut("digits", out, want) }}
			},
		})
		sc = append(sc, &Scenario{
			Name: fmt.Sprintf("to-%s/%d", name, size), NIn: n, Cases: 24, Attacks: 60, Repairs: 4,
			Define: func(api API, in []V) []V { return emuOut(emu.ToElement[T](api, in, size)) },
			Gen: func(s *Src) Case {
				v := s.BitsInt(width)
				if s.Bool() {
					v = emuElem[T](s)
				}
				ls := limbsOf[T](v)
				return Case{In: engine.Frs(digitsBE(v, size, n)), Accept: v.Cmp(t.Modulus()) < 0, Class: "digits", Desc: fmt.Sprintf("%x", v), Judge: func(out []fr.Element) error { return eqFr("limbs", out, ls) }}
			},
		})
		if size > w {
			continue
		}
		for _, cnt := range []int{1, 2, 3} {
			cnt := cnt
			sc = append(sc, &Scenario{
				Name: fmt.Sprintf("tomany-%s/%d/%d", name, size, cnt), NIn: n * cnt, Cases: 10, Attacks: 30, Repairs: 4,
				Define: func(api API, in []V) []V {
					var r []V
					for _, e := range emu.ToElements[T](api, in, size) {
						r = append(r, emuOut(e)...)
					}
					return r
				},
				Gen: func(s *Src) Case {
					var in, want []fr.Element
					d := ""
					for i := 0; i < cnt; i++ {
						v := emuElem[T](s)
						in = append(in, engine.Frs(digitsBE(v, size, n))...)
						want = append(want, limbsOf[T](v)...)
						d += fmt.Sprintf("%x ", v)
					}
					return Case{In: in, Accept: true, Class: "digits", Desc: d, Judge: func(out []fr.Element) error { return eqFr("limbs", out, want) }}
				},
			})
		}
	}
	return sc
}

func eqFr(what string, out, want []fr.Element) error {
	if len(out) != len(want) {
		return fmt.Errorf("%s: %d values handed back, reference has %d", what, len(out), len(want))
	}
	for i := range out {
		if !out[i].Equal(&want[i]) {
			return fmt.Errorf("%s: value %d is 0x%s, reference says 0x%s", what, i, out[i].Text(16), want[i].Text(16))
		}
	}
	return nil
}

func emuMimc[T emulated.FieldParams](name string, id ecc.ID, mk func() hash.Hash, size int) []*Scenario {
	var t T
	nl := int(t.NbLimbs())
	p := t.Modulus()
	plans := [][]int{{1, -1}, {0, -1}, {3, -1}, {1, 1, -1}, {1, -1, 1, -1}, {2, -2, 1, -1}, {1, -1, -2, 2, -1}, {-3}}
	if name != "bls12377" {
		plans = [][]int{{1, -1}, {2, -1}, {1, -1, 1, -1}}
	}
	var sc []*Scenario
	for _, ops := range plans {
		ops := ops
		total := 0
		nm := ""
		for _, o := range ops {
			switch {
			case o == -1:
				nm += "+sum"
			case o == -2:
				nm += "+reset"
			case o == -3:
				nm += "+hash2"
				total += 2
			default:
				nm += fmt.Sprintf("+%d", o)
				total += o
			}
		}
		sc = append(sc, &Scenario{
			Name: fmt.Sprintf("mimc-%s/%s", name, nm[1:]), NIn: total*nl + 1, Cases: 8, Attacks: 10, Repairs: 3,
			Define: func(api API, in []V) []V {
				h := emimc.NewMiMC[T](api, id)
				pos := 0
				take := func(n int) (r []*emulated.Element[T]) {
					for i := 0; i < n; i++ {
						r = append(r, emuIn[T](api, in[pos*nl:(pos+1)*nl]))
						pos++
					}
					return
				}
				var out []V
				for _, o := range ops {
					switch {
					case o == -1:
						out = append(out, emuOut(h.Sum())...)
					case o == -2:
						h.Reset()
					case o == -3:
						out = append(out, emuOut(h.Hash(take(2)...))...)
					default:
						h.Write(take(o)...)
					}
				}
				return out
			},
			Gen: func(s *Src) Case {
				var in []fr.Element
				var vals, want []*big.Int
				h := mk()
				pos := 0
				put := func(n int) {
					for i := 0; i < n; i++ {
						v := emuElem[T](s)
						in = append(in, limbsOf[T](v)...)
						h.Write(new(big.Int).Mod(v, p).FillBytes(make([]byte, size)))
						vals = append(vals, v)
						pos++
					}
				}
				for _, o := range ops {
					switch {
					case o == -1:
						want = append(want, new(big.Int).SetBytes(h.Sum(nil)))
					case o == -2:
						h.Reset()
					case o == -3:
						h.Reset()
						put(2)
						want = append(want, new(big.Int).SetBytes(h.Sum(nil)))
					default:
						put(o)
					}
				}
				in = append(in, fr.Element{})
				return Case{In: in, Accept: true, Class: "elements", Desc: fmt.Sprintf("%s of %x", nm, vals), Judge: func(out []fr.Element) error {
					if len(out) != nl*len(want) {
						return fmt.Errorf("%d limbs handed back, want %d", len(out), nl*len(want))
					}
					for i := range want {
						if err := emuEq[T](fmt.Sprintf("digest %d", i), out[i*nl:(i+1)*nl], want[i]); err != nil {
							return err
						}
					}
					return nil
				}}
			},
		})
	}
	return sc
}
