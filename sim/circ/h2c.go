package circ

import (
	"crypto/sha256"
	"fmt"
	"math/big"

	pb "github.com/brevis-network/zk-utils/circuits/gadgets/pairing_bls12381"
	bls "github.com/consensys/gnark-crypto/ecc/bls12-381"
	"github.com/consensys/gnark-crypto/ecc/bls12-381/fp"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/std/math/emulated"
	"zksim/engine"
)

func init() {
	registry["C19"] = hashToCurveScenarios
	assumptions["C19"] = []string{
		"the reference is RFC 9380 written out: expand_message_xmd over Go's SHA-256, hash_to_field, the simplified SWU map with E2 square roots; isogeny, addition and cofactor clearing come from gnark-crypto",
		"the prover registers emulated.RemHint, which gnark leaves to its users",
		"the isogeny is not exercised on its kernel, nor the affine sum on two equal or opposite maps: hashing reaches them with negligible probability and the circuit then refuses",
	}
}

const h2cDST = "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_"

// expandXMD is expand_message_xmd of RFC 9380 5.3.1 with SHA-256.
func expandXMD(msg []byte, n int) []byte {
	dst := append([]byte(h2cDST), byte(len(h2cDST)))
	h := func(p ...[]byte) []byte {
		d := sha256.New()
		for _, x := range p {
			d.Write(x)
		}
		return d.Sum(nil)
	}
	b0 := h(make([]byte, 64), msg, []byte{byte(n >> 8), byte(n), 0}, dst)
	bi := h(b0, []byte{1}, dst)
	out := append([]byte(nil), bi...)
	for i := 2; len(out) < n; i++ {
		x := make([]byte, 32)
		for k := range x {
			x[k] = b0[k] ^ bi[k]
		}
		bi = h(x, []byte{byte(i)}, dst)
		out = append(out, bi...)
	}
	return out[:n]
}

func hashToFp(msg []byte, n int) (r bvals) {
	b := expandXMD(msg, 64*n)
	for i := 0; i < n; i++ {
		var e fp.Element
		e.SetBigInt(new(big.Int).SetBytes(b[64*i : 64*i+64]))
		r = append(r, e)
	}
	return
}

func e2i(a, b int64) (x bls.E2) { x.A0.SetInt64(a); x.A1.SetInt64(b); return }

func sgn0(x bls.E2) bool {
	var a, b big.Int
	x.A0.BigInt(&a)
	x.A1.BigInt(&b)
	return a.Bit(0) == 1 || a.Sign() == 0 && b.Bit(0) == 1
}

// swu is map_to_curve_simple_swu of RFC 9380 6.6.2 for the curve isogenous to G2's.
func swu(u bls.E2) (p bls.G2Affine) {
	a, b, z := e2i(0, 240), e2i(1012, 1012), e2i(-2, -1)
	var one, t, x1, x2, k bls.E2
	one.SetOne()
	gx := func(x bls.E2) (r bls.E2) {
		r.Square(&x)
		r.Add(&r, &a)
		r.Mul(&r, &x)
		r.Add(&r, &b)
		return
	}
	var zu2 bls.E2
	zu2.Square(&u)
	zu2.Mul(&zu2, &z)
	t.Square(&zu2)
	t.Add(&t, &zu2)
	if t.IsZero() {
		k.Mul(&z, &a)
		k.Inverse(&k)
		x1.Mul(&b, &k)
	} else {
		t.Inverse(&t)
		t.Add(&t, &one)
		k.Inverse(&a)
		k.Mul(&k, &b)
		k.Neg(&k)
		x1.Mul(&k, &t)
	}
	x2.Mul(&zu2, &x1)
	p.X = x1
	y2 := gx(x1)
	if y2.Legendre() == -1 {
		p.X = x2
		y2 = gx(x2)
	}
	p.Y.Sqrt(&y2)
	if sgn0(p.Y) != sgn0(u) {
		p.Y.Neg(&p.Y)
	}
	return
}

func mapToG2(u bls.E2) (p bls.G2Affine) { p = swu(u); hostG2Isogeny(&p); return }

func msgOf(s *Src) []byte {
	switch s.Int(6) {
	case 1:
		return make([]byte, 32)
	case 2:
		b := make([]byte, 32)
		for i := range b {
			b[i] = 255
		}
		return b
	}
	return s.Bytes(32)
}

// msgScenario hashes a 32-byte message; a message with something that is not a byte must be refused.
func msgScenario(name string, cases, attacks int, define func(api API, msg [32]V) []V, judge func(msg []byte) func([]fr.Element) error) *Scenario {
	return &Scenario{
		Name: name, NIn: 32, Cases: cases, Attacks: attacks, Repairs: 3,
		Define: func(api API, in []V) []V {
			var m [32]V
			copy(m[:], in)
			return define(api, m)
		},
		Gen: func(s *Src) Case {
			m := msgOf(s)
			c := Case{In: engine.Frs(bytesBig(m)), Accept: true, Class: "bytes", Desc: fmt.Sprintf("%s of %x", name, m), Judge: judge(m)}
			if s.Chance(1, 8) {
				k := s.Int(32)
				v := bi(256 + int64(s.Int(1000)))
				if s.Bool() {
					v = bi(-1 - int64(s.Int(3)))
				}
				c.In[k] = engine.Fr(v)
				c.Accept, c.Class, c.Judge = false, "not-a-byte", reject("accepted a message that is not made of bytes")
				c.Desc += fmt.Sprintf(" with entry %d = %s", k, v)
			}
			return c
		},
	}
}

func fpLabel(i int) string { return fmt.Sprintf("coordinate %d", i) }

func judgeBase(want bvals) func([]fr.Element) error {
	return func(out []fr.Element) error { return eqBase(out, want, fpLabel) }
}

func hashToCurveScenarios(tier string) []*Scenario {
	var sc []*Scenario
	add := func(x *Scenario) { sc = append(sc, x) }
	none := []int64(nil)
	field := func(api API) *blsField {
		f, err := emulated.NewField[pb.BLS12381Fp](api)
		if err != nil {
			panic(err)
		}
		return f
	}

	for _, n := range []int{2, 4} {
		n := n
		add(msgScenario(fmt.Sprintf("expand/%d", n), 10, 6,
			func(api API, m [32]V) []V { return pb.ExpandMsgXmd(api, m, n) },
			func(m []byte) func([]fr.Element) error {
				w := bytesBig(expandXMD(m, 64*n))
				return func(out []fr.Element) error { return eqOut("expand_message_xmd", out, w) }
			}))
		add(msgScenario(fmt.Sprintf("hash-to-field/%d", n), 8, 6,
			func(api API, m [32]V) []V {
				var o outs
				for _, e := range pb.HashToField(api, m, n) {
					e := e
					o.e2(&e)
				}
				return o.v
			},
			func(m []byte) func([]fr.Element) error { return judgeBase(hashToFp(m, n)) }))
	}

	add(&Scenario{
		Name: "eight-bytes", NIn: 8, Cases: 200, Attacks: 10, Repairs: 3,
		Define: func(api API, in []V) []V {
			var b [8]V
			copy(b[:], in)
			return append([]V{pb.GetUint64From8Bytes(api, b)}, pb.Get64BitsFrom8Bytes(api, b)...)
		},
		Gen: func(s *Src) Case {
			b := s.Bytes(8)
			v := new(big.Int).SetBytes(b)
			w := []*big.Int{v}
			for i := 0; i < 64; i++ {
				w = append(w, bi(int64(v.Bit(i))))
			}
			c := Case{In: engine.Frs(bytesBig(b)), Accept: true, Class: "bytes", Desc: fmt.Sprintf("eight bytes %x", b), Judge: func(out []fr.Element) error { return eqOut("uint64 and its bits", out, w) }}
			if s.Chance(1, 6) {
				k := s.Int(8)
				c.In[k] = engine.Fr(bi(256 + int64(s.Int(1000))))
				c.Accept, c.Class, c.Judge = false, "not-a-byte", reject("accepted something that is not a byte")
			}
			return c
		},
	})

	add(&Scenario{
		Name: "raw-limbs", NIn: 8, Cases: 120, Attacks: 10, Repairs: 3,
		Define: func(api API, in []V) []V {
			var b [8]V
			copy(b[:], in)
			var o outs
			return o.el(pb.GetRawLimbsBy8Uint64(api, b)).v
		},
		Gen: func(s *Src) Case {
			v := new(big.Int)
			var l []*big.Int
			for i := 0; i < 8; i++ {
				x := new(big.Int).SetUint64(s.U64())
				switch s.Int(4) {
				case 0:
					x.SetUint64(^uint64(0))
				case 1:
					x.SetInt64(0)
				}
				l = append(l, x)
				v.Add(v, new(big.Int).Lsh(x, uint(64*i)))
			}
			var e fp.Element
			e.SetBigInt(v)
			return Case{In: engine.Frs(l), Accept: true, Class: "limbs", Desc: "raw limbs of " + v.Text(16), Judge: judgeBase(bvals{e})}
		},
	})

	exps := []int64{0, 1, 4, 7, -5, 0x1234567}
	add(tower("exp", 2, 0, 30, 6,
		func(api API, pr *pb.Pairing, t *taker, o *outs) {
			x := t.e2()
			for _, k := range exps {
				e := bi(k)
				o.e2(pb.E2Exp(api, *x, e), pb.E2Exp(api, *x, e))
			}
		},
		func(s *Src) (bvals, []int64, bvals, bool, string) {
			x := genE2(s)
			if x.IsZero() {
				return bv2(x), none, nil, false, "zero"
			}
			var w []bls.E2
			for _, k := range exps {
				var z bls.E2
				z.Exp(x, bi(k))
				w = append(w, z, z)
			}
			return bv2(x), none, bv2(w...), true, "field"
		}, named(4, "x^0", "x^1", "x^4", "x^7", "x^-5", "x^0x1234567")))

	add(&Scenario{
		Name: "compare", NIn: 48, Cases: 120, Attacks: 14, Repairs: 3,
		Define: func(api API, in []V) []V {
			t := &taker{api, in}
			x, y, z := t.e2(), t.e2(), t.e2()
			_ = z
			f := field(api)
			// sums carry an overflow, so that the comparisons have to reduce them
			e := pb.NewExt2(f)
			d := e.Sub(x, y)
			g := t.e2()
			return []V{pb.E2NotZero(api, *x), pb.G1NotZero(api, x.A0), pb.G1NotEqual(api, x.A0, y.A0), pb.G1NotEqualOne(api, x.A1), pb.E2NotEqual(api, *x, *y),
				pb.E2NotOne(api, *x), pb.G2AffineNotInfinity(api, &pb.G2Affine{X: *x, Y: *z}), pb.E2NotZero(api, *d), pb.E2NotEqual(api, *e.Add(x, g), *e.Add(y, g)), pb.E2NotOne(api, *e.Mul(x, g))}
		},
		Gen: func(s *Src) Case {
			pick := func() bls.E2 {
				switch s.Int(5) {
				case 0:
					return bls.E2{}
				case 1:
					return e2i(1, 0)
				case 2:
					return e2i(0, 1)
				}
				return genE2(s)
			}
			x, y, z, g := pick(), pick(), pick(), pick()
			if s.Bool() {
				y = x
				if s.Chance(1, 3) {
					y.A1.SetOne()
				}
			}
			if s.Chance(1, 3) && !x.IsZero() {
				g.Inverse(&x)
			}
			b := func(v bool) *big.Int {
				if v {
					return bi(1)
				}
				return bi(0)
			}
			var m bls.E2
			m.Mul(&x, &g)
			one := e2i(1, 0)
			w := []*big.Int{b(!x.IsZero()), b(!x.A0.IsZero()), b(!x.A0.Equal(&y.A0)), b(!x.A1.IsOne()), b(!x.Equal(&y)),
				b(!x.Equal(&one)), b(!(x.IsZero() && z.IsZero())), b(!x.Equal(&y)), b(!x.Equal(&y)), b(!m.Equal(&one))}
			v := bv2(x, y, z, g)
			c := Case{In: v.in(), Accept: true, Class: fmt.Sprintf("zero=%v equal=%v", x.IsZero(), x.Equal(&y)), Desc: "comparisons of " + v.String(),
				Judge: func(out []fr.Element) error { return eqOut("comparison", out, w) }}
			aliasInput(s, v, &c)
			return c
		},
	})

	inf := func(s *Src) (bls.G2Affine, string) {
		if s.Chance(1, 6) {
			return bls.G2Affine{}, "infinite"
		}
		return genG2(s, false), "generic"
	}
	add(&Scenario{
		Name: "affine-to-jacobian", NIn: 24, Cases: 60, Attacks: 10, Repairs: 3,
		Define: func(api API, in []V) []V {
			var o outs
			return o.jac(*pb.GetG2JacFromG2Affine(api, (&taker{api, in}).g2())).v
		},
		Gen: func(s *Src) Case {
			p, class := inf(s)
			c := Case{In: bvG2(p).in(), Accept: true, Class: class, Desc: "to Jacobian: " + bvG2(p).String(), Judge: judgeJac(p)}
			aliasInput(s, bvG2(p), &c)
			return c
		},
	})
	add(&Scenario{
		Name: "jacobian-to-affine", NIn: 36, Cases: 60, Attacks: 10, Repairs: 3,
		Define: func(api API, in []V) []V {
			var o outs
			j := (&taker{api, in}).jac()
			return o.g2(pb.GetG2AffineFromG2Jac(api, &j)).v
		},
		Gen: func(s *Src) Case {
			p, class := inf(s)
			v := toJac(s, p)
			c := Case{In: v.in(), Accept: true, Class: class, Desc: "to affine: " + v.String(), Judge: judgeBase(bvG2(p))}
			aliasInput(s, v, &c)
			return c
		},
	})

	add(tower("map-to-curve", 2, 0, 24, 10,
		func(api API, pr *pb.Pairing, t *taker, o *outs) {
			x, y := pb.MapElementToCurve2(api, *t.e2())
			o.e2(x, y)
		},
		func(s *Src) (bvals, []int64, bvals, bool, string) {
			u := genE2(s)
			class := "field"
			switch s.Int(5) {
			case 1:
				u.A0.SetZero()
			case 2:
				u.A1.SetZero()
			case 3:
				u = bls.E2{}
			}
			switch {
			case u.IsZero():
				class = "zero"
			case u.A0.IsZero():
				class = "imaginary"
			case u.A1.IsZero():
				class = "real"
			}
			p := swu(u)
			return bv2(u), none, bvG2(p), true, class
		}, named(2, "x", "y")))
	add(tower("isogeny", 4, 0, 30, 6,
		func(api API, pr *pb.Pairing, t *taker, o *outs) { o.g2(pb.G2Isogeny(api, t.g2())) },
		func(s *Src) (bvals, []int64, bvals, bool, string) {
			p := swu(genE2(s))
			q := p
			hostG2Isogeny(&q)
			return bvG2(p), none, bvG2(q), true, "field"
		}, named(2, "x", "y")))

	encode := func(m []byte) bls.G2Affine {
		u := hashToFp(m, 2)
		return hostClear(mapToG2(bls.E2{A0: u[0], A1: u[1]}))
	}
	hash := func(m []byte) bls.G2Affine {
		u := hashToFp(m, 4)
		p := g2Add(mapToG2(bls.E2{A0: u[0], A1: u[1]}), mapToG2(bls.E2{A0: u[2], A1: u[3]}))
		return hostClear(p)
	}
	type top struct {
		name string
		f    func(api API, m [32]V) *pb.G2Affine
		ref  func([]byte) bls.G2Affine
	}
	tops := []top{
		{"encode-to-g2", pb.EncodeToG2, encode},
		{"hash-to-g2", pb.HashToG2, hash},
		{"encode-to-g2-jacobian", pb.EncodeToG2OnJac, encode},
		{"hash-to-g2-jacobian", pb.HashToG2OnJac, hash},
	}
	for _, x := range tops {
		x := x
		add(msgScenario(x.name, 4, 2,
			func(api API, m [32]V) []V {
				var o outs
				return o.g2(x.f(api, m)).v
			},
			func(m []byte) func([]fr.Element) error { return judgeBase(bvG2(x.ref(m))) }))
	}
	return sc
}
