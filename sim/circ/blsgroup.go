package circ

import (
	"fmt"
	"math/big"
	_ "unsafe"

	pb "github.com/brevis-network/zk-utils/circuits/gadgets/pairing_bls12381"
	bls "github.com/consensys/gnark-crypto/ecc/bls12-381"
	"github.com/consensys/gnark-crypto/ecc/bls12-381/fp"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

//go:linkname hostG2Isogeny github.com/consensys/gnark-crypto/ecc/bls12-381.g2Isogeny
func hostG2Isogeny(p *bls.G2Affine)

var seedX, _ = new(big.Int).SetString("15132376222941642752", 10)

func hostPsi(p bls.G2Affine) bls.G2Affine {
	// untwist, raise to the p-th power, twist: x -> conj(x)/(1+u)^((p-1)/3), y -> conj(y)/(1+u)^((p-1)/2)
	if p.IsInfinity() {
		return p
	}
	var b, u, v bls.E2
	b.A0.SetOne()
	b.A1.SetOne()
	e := new(big.Int).Sub(fp.Modulus(), bi(1))
	u.Exp(b, new(big.Int).Div(e, bi(3)))
	v.Exp(b, new(big.Int).Div(e, bi(2)))
	u.Inverse(&u)
	v.Inverse(&v)
	var q bls.G2Affine
	q.X.Conjugate(&p.X)
	q.X.Mul(&q.X, &u)
	q.Y.Conjugate(&p.Y)
	q.Y.Mul(&q.Y, &v)
	return q
}

func hostPhi(p bls.G2Affine) bls.G2Affine {
	if p.IsInfinity() {
		return p
	}
	var w fp.Element
	w.SetString("4002409555221667392624310435006688643935503118305586438271171395842971157480381377015405980053539358417135540939436")
	w.Square(&w)
	q := p
	q.X.MulByElement(&p.X, &w)
	return q
}

// g2Add is textbook affine addition.
func g2Add(p, q bls.G2Affine) (r bls.G2Affine) { r.Add(&p, &q); return }

func g2Mul(p bls.G2Affine, k *big.Int) bls.G2Affine {
	// double-and-add: valid off the prime-order subgroup, where endomorphism tricks are not
	var acc bls.G2Affine
	for i := k.BitLen() - 1; i >= 0; i-- {
		acc = g2Add(acc, acc)
		if k.Bit(i) == 1 {
			acc = g2Add(acc, p)
		}
	}
	return acc
}

func hostClear(p bls.G2Affine) (r bls.G2Affine) { r.ClearCofactor(&p); return }

// toJac picks one of the many Jacobian representatives of a point.
func toJac(s *Src, p bls.G2Affine) bvals {
	z := genE2(s)
	if p.IsInfinity() {
		y := z
		if s.Bool() {
			y.SetOne()
		}
		return bv2(y, y, bls.E2{})
	}
	if z.IsZero() || s.Bool() {
		z.SetOne()
	}
	var z2, z3, x, y bls.E2
	z2.Square(&z)
	z3.Mul(&z2, &z)
	x.Mul(&p.X, &z2)
	y.Mul(&p.Y, &z3)
	return bv2(x, y, z)
}

// fromJac is the point a Jacobian triple stands for.
func fromJac(v bvals) bls.G2Affine {
	z := bls.E2{A0: v[4], A1: v[5]}
	var r bls.G2Affine
	if z.IsZero() {
		return r
	}
	var i, i2 bls.E2
	i.Inverse(&z)
	i2.Square(&i)
	r.X.Mul(&bls.E2{A0: v[0], A1: v[1]}, &i2)
	i2.Mul(&i2, &i)
	r.Y.Mul(&bls.E2{A0: v[2], A1: v[3]}, &i2)
	return r
}

// pairOfPoints draws two points with weight on the exceptional relations between them.
func pairOfPoints(s *Src, inf bool) (p, q bls.G2Affine, class string) {
	p = genG2(s, false)
	q = genG2(s, false)
	n := 6
	if inf {
		n = 9
	}
	switch s.Int(n) {
	case 1:
		q = p
	case 2:
		q.Neg(&p)
	case 6:
		p = bls.G2Affine{}
	case 7:
		q = bls.G2Affine{}
	case 8:
		p, q = bls.G2Affine{}, bls.G2Affine{}
	}
	switch {
	case p.IsInfinity() && q.IsInfinity():
		class = "both-infinite"
	case p.IsInfinity():
		class = "left-infinite"
	case q.IsInfinity():
		class = "right-infinite"
	case p.Equal(&q):
		class = "equal"
	case p.X.Equal(&q.X):
		class = "opposite"
	default:
		class = "generic"
	}
	return
}

func judgeJac(want ...bls.G2Affine) func([]fr.Element) error {
	return func(out []fr.Element) error {
		v, err := readBase(out)
		if err != nil {
			return err
		}
		if len(v) != 6*len(want) {
			return fmt.Errorf("%d elements handed back", len(v))
		}
		for i := range want {
			g := fromJac(v[6*i : 6*i+6])
			if !g.Equal(&want[i]) {
				return fmt.Errorf("point %d is %s, reference says %s", i, g.String(), want[i].String())
			}
		}
		return nil
	}
}

func jacScenario(name string, n, cases, attacks int, define func(api API, p []pb.G2Jacobian) []pb.G2Jacobian, gen func(s *Src) (in, want []bls.G2Affine, class string)) *Scenario {
	return &Scenario{
		Name: name, NIn: n * 36, Cases: cases, Attacks: attacks, Repairs: 3,
		Define: func(api API, in []V) []V {
			t := &taker{api, in}
			var p []pb.G2Jacobian
			for i := 0; i < n; i++ {
				p = append(p, t.jac())
			}
			var o outs
			o.jac(define(api, p)...)
			return o.v
		},
		Gen: func(s *Src) Case {
			in, want, class := gen(s)
			var v bvals
			for _, p := range in {
				v = append(v, toJac(s, p)...)
			}
			c := Case{In: v.in(), Accept: true, Class: class, Desc: name + " of " + v.String(), Judge: judgeJac(want...)}
			aliasInput(s, v, &c)
			return c
		},
	}
}

func groupScenarios(tier string) []*Scenario {
	none := []int64(nil)
	var sc []*Scenario
	add := func(x *Scenario) { sc = append(sc, x) }
	add(tower("g2-affine-add", 8, 0, 40, 8,
		func(api API, pr *pb.Pairing, t *taker, o *outs) {
			p, q := t.g2(), t.g2()
			o.g2(pb.G2AddAssign(api, *p, *q), pb.G2SubAssign(api, *p, *q), pb.DoubleAndAdd(api, p, q))
		},
		func(s *Src) (bvals, []int64, bvals, bool, string) {
			p, q, class := pairOfPoints(s, false)
			r := g2Add(p, q)
			d := g2Add(p, g2Neg(q))
			e := g2Add(r, p)
			ok := class == "generic" && !r.X.Equal(&p.X) && !d.IsInfinity() && !e.IsInfinity()
			return bvG2(p, q), none, bvG2(r, d, e), ok, class
		}, named(4, "G2AddAssign", "G2SubAssign", "DoubleAndAdd")))
	add(tower("g2-affine", 4, 0, 50, 8,
		func(api API, pr *pb.Pairing, t *taker, o *outs) {
			p := t.g2()
			phi := pb.G2Phi(api, *p)
			o.g2(pb.G2Double(api, *p), pb.G2Neg(api, *p), pr.NegAffine(p), pb.G2Psi(api, *p), &phi)
		},
		func(s *Src) (bvals, []int64, bvals, bool, string) {
			p := genG2(s, false)
			n := g2Neg(p)
			return bvG2(p), none, bvG2(g2Add(p, p), n, n, hostPsi(p), hostPhi(p)), true, "generic"
		}, named(4, "G2Double", "G2Neg", "NegAffine", "G2Psi", "G2Phi")))
	add(tower("g2-affine-scalar", 4, 0, 8, 4,
		func(api API, pr *pb.Pairing, t *taker, o *outs) {
			p := t.g2()
			b := pb.G2ConstScalarMulV2(api, *p)
			o.g2(pb.G2ConstScalarMul(api, *p), &b)
		},
		func(s *Src) (bvals, []int64, bvals, bool, string) {
			p := genG2(s, false)
			w := g2Mul(p, seedX)
			return bvG2(p), none, bvG2(w, w), true, "generic"
		}, named(4, "G2ConstScalarMul", "G2ConstScalarMulV2")))
	add(tower("g2-affine-clear", 4, 0, 8, 4,
		func(api API, pr *pb.Pairing, t *taker, o *outs) { o.g2(pb.G2ClearCofactor(api, *t.g2())) },
		func(s *Src) (bvals, []int64, bvals, bool, string) {
			p := genG2(s, false)
			return bvG2(p), none, bvG2(hostClear(p)), true, "generic"
		}, named(4, "G2ClearCofactor")))

	add(jacScenario("g2-jac-add", 2, 40, 8,
		func(api API, p []pb.G2Jacobian) []pb.G2Jacobian {
			return []pb.G2Jacobian{pb.G2JacobianAddAssign(api, p[0], p[1]), pb.G2JacobianSubAssign(api, p[0], p[1])}
		},
		func(s *Src) ([]bls.G2Affine, []bls.G2Affine, string) {
			p, q, class := pairOfPoints(s, true)
			return []bls.G2Affine{p, q}, []bls.G2Affine{g2Add(p, q), g2Add(p, g2Neg(q))}, class
		}))
	one := func(s *Src) (bls.G2Affine, string) {
		if s.Chance(1, 8) {
			return bls.G2Affine{}, "infinite"
		}
		return genG2(s, false), "generic"
	}
	add(jacScenario("g2-jac", 1, 30, 8,
		func(api API, p []pb.G2Jacobian) []pb.G2Jacobian {
			return []pb.G2Jacobian{pb.G2JacobianDouble(api, p[0]), pb.G2JacobianNeg(api, p[0]), pb.G2JacobianPsi(api, p[0]), pb.G2JacobianPhi(api, p[0])}
		},
		func(s *Src) ([]bls.G2Affine, []bls.G2Affine, string) {
			p, class := one(s)
			return []bls.G2Affine{p}, []bls.G2Affine{g2Add(p, p), g2Neg(p), hostPsi(p), hostPhi(p)}, class
		}))
	add(jacScenario("g2-jac-scalar", 1, 8, 4,
		func(api API, p []pb.G2Jacobian) []pb.G2Jacobian {
			return []pb.G2Jacobian{pb.G2JacobianConstScalarMul(api, p[0])}
		},
		func(s *Src) ([]bls.G2Affine, []bls.G2Affine, string) {
			p, class := one(s)
			return []bls.G2Affine{p}, []bls.G2Affine{g2Mul(p, seedX)}, class
		}))
	add(jacScenario("g2-jac-clear", 1, 8, 4,
		func(api API, p []pb.G2Jacobian) []pb.G2Jacobian {
			return []pb.G2Jacobian{*pb.ClearCofactor(api, p[0])}
		},
		func(s *Src) ([]bls.G2Affine, []bls.G2Affine, string) {
			p, class := one(s)
			return []bls.G2Affine{p}, []bls.G2Affine{hostClear(p)}, class
		}))
	return sc
}

func pairScenarios(tier string) []*Scenario {
	var sc []*Scenario
	cases, attacks := 4, 2
	draw := func(s *Src, n int) (ps []bls.G1Affine, qs []bls.G2Affine, in bvals, class string) {
		class = "generic"
		for i := 0; i < n; i++ {
			ps = append(ps, genG1(s))
			qs = append(qs, genG2(s, true))
		}
		if n == 2 && s.Bool() { // a product that is one, as a signature check builds it
			a, b := genScalar(s), genScalar(s)
			_, _, g1, g2 := bls.Generators()
			ab := new(big.Int).Mul(a, b)
			ps[0].ScalarMultiplication(&g1, a)
			qs[0].ScalarMultiplication(&g2, b)
			ps[1].Neg(&g1)
			qs[1].ScalarMultiplication(&g2, ab)
			class = "product-is-one"
		}
		for i := range ps {
			in = append(in, ps[i].X, ps[i].Y)
		}
		for i := range qs {
			in = append(in, bvG2(qs[i])...)
		}
		return
	}
	inputs := func(t *taker, n int) (ps []*pb.G1Affine, qs []*pb.G2Affine) {
		for i := 0; i < n; i++ {
			ps = append(ps, t.g1())
		}
		for i := 0; i < n; i++ {
			qs = append(qs, t.g2())
		}
		return
	}
	for n := 1; n <= 2; n++ {
		n := n
		sc = append(sc, &Scenario{
			Name: fmt.Sprintf("miller/%d", n), NIn: n * 36, Cases: cases, Attacks: attacks, Repairs: 3,
			Define: func(api API, in []V) []V {
				ps, qs := inputs(&taker{api, in}, n)
				r, err := ext12(api).MillerLoop(ps, qs)
				if err != nil {
					panic(err)
				}
				var o outs
				return o.e12(r).v
			},
			Gen: func(s *Src) Case {
				ps, qs, in, class := draw(s, n)
				want, err := bls.Pair(ps, qs)
				if err != nil {
					panic(err)
				}
				return Case{In: in.in(), Accept: true, Class: class, Desc: "Miller loop of " + in.String(), Judge: func(out []fr.Element) error {
					v, err := readBase(out)
					if err != nil {
						return err
					}
					x := e12Of(v)
					if got := bls.FinalExponentiation(&x); !got.Equal(&want) {
						return fmt.Errorf("Miller loop leads to another pairing value")
					}
					return nil
				}}
			},
		})
	}
	sc = append(sc, tower("final-exponentiation", 12, 0, cases, attacks,
		func(api API, pr *pb.Pairing, t *taker, o *outs) { o.e12(pr.FinalExponentiation(t.e12())) },
		func(s *Src) (bvals, []int64, bvals, bool, string) {
			x := genE12(s)
			for k := 0; k < 4 && x.C0.IsZero() && x.C1.IsZero(); k++ {
				x.SetOne()
			}
			class := "generic"
			if s.Chance(1, 4) { // lies in the subfield the easy part kills
				x.C1 = bls.E6{}
				if x.C0.IsZero() {
					x.SetOne()
				}
				class = "subfield"
			}
			w := bls.FinalExponentiation(&x)
			return bv12(x), nil, bv12(w), true, class
		}, named(12, "FinalExponentiation")))
	full := []int{1}
	if tier == "thorough" {
		full = []int{1, 2, 3}
	}
	for _, n := range full {
		n := n
		sc = append(sc, &Scenario{
			Name: fmt.Sprintf("pair/%d", n), NIn: n * 36, Cases: cases, Attacks: attacks, Repairs: 3,
			Define: func(api API, in []V) []V {
				ps, qs := inputs(&taker{api, in}, n)
				r, err := ext12(api).Pair(ps, qs)
				if err != nil {
					panic(err)
				}
				var o outs
				return o.e12(r).v
			},
			Gen: func(s *Src) Case {
				ps, qs, in, class := draw(s, n)
				want, err := bls.Pair(ps, qs)
				if err != nil {
					panic(err)
				}
				return Case{In: in.in(), Accept: true, Class: class, Desc: "pairing of " + in.String(), Judge: func(out []fr.Element) error {
					return eqBase(out, bv12(want), named(12, "Pair"))
				}}
			},
		})
	}
	return sc
}

func e12Of(v bvals) bls.E12 {
	e2 := func(i int) bls.E2 { return bls.E2{A0: v[2*i], A1: v[2*i+1]} }
	return sparse(e2(0), e2(1), e2(2), e2(3), e2(4), e2(5))
}
