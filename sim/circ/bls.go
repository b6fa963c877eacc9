package circ

import (
	"fmt"
	"math/big"

	pb "github.com/brevis-network/zk-utils/circuits/gadgets/pairing_bls12381"
	bls "github.com/consensys/gnark-crypto/ecc/bls12-381"
	"github.com/consensys/gnark-crypto/ecc/bls12-381/fp"
	blsfr "github.com/consensys/gnark-crypto/ecc/bls12-381/fr"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/std/math/emulated"
)

func init() {
	registry["C18"] = pairingScenarios
	assumptions["C18"] = []string{
		"reference results come from gnark-crypto's BLS12-381 tower, group and pairing code",
		"the affine formulas and the Miller loop are only claimed for finite points in general position; where they cannot answer they must refuse",
	}
}

type blsField = emulated.Field[pb.BLS12381Fp]
type blsEl = emulated.Element[pb.BLS12381Fp]

// bvals is a list of base field elements on the reference side.
type bvals []fp.Element

func bv2(x ...bls.E2) (r bvals) {
	for _, v := range x {
		r = append(r, v.A0, v.A1)
	}
	return
}

func bv6(x ...bls.E6) (r bvals) {
	for _, v := range x {
		r = append(r, bv2(v.B0, v.B1, v.B2)...)
	}
	return
}

func bv12(x ...bls.E12) (r bvals) {
	for _, v := range x {
		r = append(r, bv6(v.C0, v.C1)...)
	}
	return
}

func (b bvals) in() (r []fr.Element) {
	for i := range b {
		r = append(r, limbsOf[pb.BLS12381Fp](b[i].BigInt(new(big.Int)))...)
	}
	return
}

// taker hands out circuit inputs as tower elements.
type taker struct {
	api API
	in  []V
}

func (t *taker) el() blsEl {
	e := emuIn[pb.BLS12381Fp](t.api, t.in[:6])
	t.in = t.in[6:]
	return *e
}
func (t *taker) e2() *pb.E2   { a := t.el(); b := t.el(); return &pb.E2{A0: a, A1: b} }
func (t *taker) e6() *pb.E6   { a, b, c := t.e2(), t.e2(), t.e2(); return &pb.E6{B0: *a, B1: *b, B2: *c} }
func (t *taker) e12() *pb.E12 { a, b := t.e6(), t.e6(); return &pb.E12{C0: *a, C1: *b} }
func (t *taker) g2() *pb.G2Affine {
	a, b := t.e2(), t.e2()
	return &pb.G2Affine{X: *a, Y: *b}
}
func (t *taker) jac() pb.G2Jacobian {
	a, b, c := t.e2(), t.e2(), t.e2()
	return pb.G2Jacobian{X: *a, Y: *b, Z: *c}
}
func (t *taker) g1() *pb.G1Affine { a, b := t.el(), t.el(); return &pb.G1Affine{X: a, Y: b} }
func (t *taker) bit() V           { b := t.in[0]; t.in = t.in[1:]; return b }

type outs struct{ v []V }

func (o *outs) el(x ...*blsEl) *outs {
	for _, e := range x {
		if len(e.Limbs) != 6 {
			panic(fmt.Sprintf("element of %d limbs", len(e.Limbs)))
		}
		o.v = append(o.v, e.Limbs...)
	}
	return o
}
func (o *outs) e2(x ...*pb.E2) *outs {
	for _, e := range x {
		o.el(&e.A0, &e.A1)
	}
	return o
}
func (o *outs) e6(x ...*pb.E6) *outs {
	for _, e := range x {
		o.e2(&e.B0, &e.B1, &e.B2)
	}
	return o
}
func (o *outs) e12(x ...*pb.E12) *outs {
	for _, e := range x {
		o.e6(&e.C0, &e.C1)
	}
	return o
}
func (o *outs) g2(x ...*pb.G2Affine) *outs {
	for _, e := range x {
		o.e2(&e.X, &e.Y)
	}
	return o
}
func (o *outs) jac(x ...pb.G2Jacobian) *outs {
	for i := range x {
		o.e2(&x[i].X, &x[i].Y, &x[i].Z)
	}
	return o
}

// readBase reads the base field elements a circuit handed out, whatever representative it chose.
func readBase(out []fr.Element) (bvals, error) {
	if len(out)%6 != 0 {
		return nil, fmt.Errorf("%d limbs handed back", len(out))
	}
	var r bvals
	p := fp.Modulus()
	for i := 0; i < len(out); i += 6 {
		v := new(big.Int)
		for k := 5; k >= 0; k-- {
			var l big.Int
			out[i+k].BigInt(&l)
			if l.BitLen() > 250 { // a padded difference never gets here
				return nil, fmt.Errorf("element %d limb %d is negative or too wide", i/6, k)
			}
			v.Lsh(v, 64).Add(v, &l)
		}
		var e fp.Element
		e.SetBigInt(v.Mod(v, p))
		r = append(r, e)
	}
	return r, nil
}

func eqBase(out []fr.Element, want bvals, label func(i int) string) error {
	got, err := readBase(out)
	if err != nil {
		return err
	}
	if len(got) != len(want) {
		return fmt.Errorf("%d elements handed back, reference has %d", len(got), len(want))
	}
	for i := range got {
		if !got[i].Equal(&want[i]) {
			return fmt.Errorf("%s is 0x%s, reference says 0x%s", label(i), got[i].Text(16), want[i].Text(16))
		}
	}
	return nil
}

// named maps the index of an output element to the operation that produced it.
func named(per int, names ...string) func(int) string {
	return func(i int) string {
		k := i / per
		if k < len(names) {
			return fmt.Sprintf("%s[%d]", names[k], i%per)
		}
		return fmt.Sprintf("element %d", i)
	}
}

func genFp(s *Src) (e fp.Element) {
	e.SetBigInt(emuElem[pb.BLS12381Fp](s))
	return
}
func genE2(s *Src) (x bls.E2) { x.A0, x.A1 = genFp(s), genFp(s); return }
func genE6(s *Src) (x bls.E6) { x.B0, x.B1, x.B2 = genE2(s), genE2(s), genE2(s); return }
func genE12(s *Src) (x bls.E12) {
	if s.Chance(1, 8) {
		x.SetOne()
		return
	}
	x.C0, x.C1 = genE6(s), genE6(s)
	return
}

func genScalar(s *Src) *big.Int {
	switch s.Int(5) {
	case 1:
		return bi(int64(1 + s.Int(6)))
	case 2:
		return new(big.Int).Sub(blsfr.Modulus(), bi(int64(1+s.Int(6))))
	}
	v := new(big.Int).SetBytes(s.Plain(40))
	v.Mod(v, new(big.Int).Sub(blsfr.Modulus(), bi(1)))
	return v.Add(v, bi(1))
}

func genG1(s *Src) (p bls.G1Affine) {
	_, _, g, _ := bls.Generators()
	p.ScalarMultiplication(&g, genScalar(s))
	return
}

// genG2 draws a finite point of the twist: in the pairing subgroup, or only on the curve.
func genG2(s *Src, sub bool) (p bls.G2Affine) {
	_, _, _, g := bls.Generators()
	if sub || s.Bool() {
		p.ScalarMultiplication(&g, genScalar(s))
		return
	}
	u := genE2(s)
	u.A0.SetBigInt(new(big.Int).SetBytes(append(s.Plain(40), 1)))
	p = bls.MapToCurve2(&u)
	hostG2Isogeny(&p)
	return
}

func g2Neg(p bls.G2Affine) (r bls.G2Affine) { r.Neg(&p); return }

func bvG2(p ...bls.G2Affine) (r bvals) {
	for _, x := range p {
		r = append(r, bv2(x.X, x.Y)...)
	}
	return
}

func (b bvals) String() string {
	t := ""
	for i := range b {
		t += b[i].Text(16) + " "
		if len(t) > 600 {
			return t + "..."
		}
	}
	return t
}

func ext12(api API) (pr *pb.Pairing) {
	pr, err := pb.NewPairing(api)
	if err != nil {
		panic(err)
	}
	return pr
}

// tower builds a scenario for one bundle of tower or group operations.
func tower(name string, nBase, extra, cases, attacks int, define func(api API, pr *pb.Pairing, t *taker, o *outs),
	gen func(s *Src) (in bvals, bits []int64, want bvals, accept bool, class string), label func(int) string) *Scenario {
	return &Scenario{
		Name: name, NIn: nBase*6 + extra, Cases: cases, Attacks: attacks, Repairs: 3,
		Define: func(api API, in []V) []V {
			var o outs
			define(api, ext12(api), &taker{api, in}, &o)
			return o.v
		},
		Gen: func(s *Src) Case {
			in, bits, want, ok, class := gen(s)
			if len(in) != nBase || len(bits) != extra {
				panic("bad generator")
			}
			c := Case{In: in.in(), Accept: ok, Class: class, Desc: name + " of " + in.String()}
			aliasInput(s, in, &c)
			for _, b := range bits {
				c.In = append(c.In, engineFr(b))
			}
			if want == nil {
				c.Judge = reject("accepted although the operation has no result")
			} else {
				c.Judge = func(out []fr.Element) error { return eqBase(out, want, label) }
			}
			return c
		},
	}
}

// aliasInput sometimes hands the circuit one coordinate as the residue's other representative, v+p, which has the
// width of an element too. The circuit may refuse it but must not compute anything else from it.
func aliasInput(s *Src, in bvals, c *Case) {
	if !s.Chance(1, 6) {
		return
	}
	n := len(in)
	for k, d := s.Int(n), 0; d < n; k, d = (k+1)%n, d+1 {
		v := in[k].BigInt(new(big.Int))
		v.Add(v, fp.Modulus())
		if v.BitLen() <= fp.Modulus().BitLen() {
			copy(c.In[6*k:], limbsOf[pb.BLS12381Fp](v))
			c.Accept = false
			c.Class += "-aliased"
			c.Desc += fmt.Sprintf(" with coordinate %d given as 0x%s", k, v.Text(16))
			return
		}
	}
}

func engineFr(b int64) (x fr.Element) { x.SetInt64(b); return }

func e2MulNR(x bls.E2) (z bls.E2) { z.MulByNonResidue(&x); return }

func sparse(c0, c1, c2, c3, c4, c5 bls.E2) bls.E12 {
	return bls.E12{C0: bls.E6{B0: c0, B1: c1, B2: c2}, C1: bls.E6{B0: c3, B1: c4, B2: c5}}
}

// frobPow raises to the p^k-th power by exponentiation, independent of any Frobenius constants.
func frobPow(x bls.E12, k int) (z bls.E12) {
	z = x
	for i := 0; i < k; i++ {
		z.Exp(z, fp.Modulus())
	}
	return
}

// cyclo draws an element of the cyclotomic subgroup.
func cyclo(s *Src) (z bls.E12, class string) {
	if s.Chance(1, 6) {
		z.SetOne()
		return z, "one"
	}
	x := genE12(s)
	for x.C0.IsZero() && x.C1.IsZero() {
		x.SetOne()
	}
	var a, b bls.E12
	a.Conjugate(&x)
	b.Inverse(&x)
	a.Mul(&a, &b)
	b.FrobeniusSquare(&a)
	z.Mul(&b, &a)
	if z.IsOne() {
		return z, "one"
	}
	return z, "generic"
}

func pairingScenarios(tier string) []*Scenario {
	var sc []*Scenario
	add := func(x *Scenario) { sc = append(sc, x) }
	none := []int64(nil)

	add(tower("e2", 4, 1, 160, 10,
		func(api API, pr *pb.Pairing, t *taker, o *outs) {
			f, err := emulated.NewField[pb.BLS12381Fp](api)
			if err != nil {
				panic(err)
			}
			e := pb.NewExt2(f)
			x, y := t.e2(), t.e2()
			b := t.bit()
			api.AssertIsBoolean(b)
			o.e2(e.Mul(x, y), e.Add(x, y), e.Sub(x, y), e.Neg(x), e.Conjugate(x), e.Square(x), e.Double(x), e.Halve(x),
				e.MulByNonResidue(x), e.MulByNonResidueInv(x), e.MulBybTwistCurveCoeff(x), e.MulByElement(x, &y.A0), e.Select(b, x, y),
				e.MulByNonResidue1Power1(x), e.MulByNonResidue1Power2(x), e.MulByNonResidue1Power3(x), e.MulByNonResidue1Power4(x), e.MulByNonResidue1Power5(x),
				e.MulByNonResidue2Power1(x), e.MulByNonResidue2Power2(x), e.MulByNonResidue2Power3(x), e.MulByNonResidue2Power4(x), e.MulByNonResidue2Power5(x),
				e.One(), e.Zero())
		},
		func(s *Src) (bvals, []int64, bvals, bool, string) {
			x, y := genE2(s), genE2(s)
			b := int64(s.Int(2))
			var w []bls.E2
			op := func(f func(z *bls.E2)) { var z bls.E2; f(&z); w = append(w, z) }
			op(func(z *bls.E2) { z.Mul(&x, &y) })
			op(func(z *bls.E2) { z.Add(&x, &y) })
			op(func(z *bls.E2) { z.Sub(&x, &y) })
			op(func(z *bls.E2) { z.Neg(&x) })
			op(func(z *bls.E2) { z.Conjugate(&x) })
			op(func(z *bls.E2) { z.Square(&x) })
			op(func(z *bls.E2) { z.Double(&x) })
			op(func(z *bls.E2) { z.Set(&x); z.Halve() })
			op(func(z *bls.E2) { z.MulByNonResidue(&x) })
			op(func(z *bls.E2) { z.MulByNonResidueInv(&x) })
			op(func(z *bls.E2) { z.MulBybTwistCurveCoeff(&x) })
			op(func(z *bls.E2) { z.MulByElement(&x, &y.A0) })
			op(func(z *bls.E2) {
				if b == 1 {
					*z = x
				} else {
					*z = y
				}
			})
			op(func(z *bls.E2) { z.MulByNonResidue1Power1(&x) })
			op(func(z *bls.E2) { z.MulByNonResidue1Power2(&x) })
			op(func(z *bls.E2) { z.MulByNonResidue1Power3(&x) })
			op(func(z *bls.E2) { z.MulByNonResidue1Power4(&x) })
			op(func(z *bls.E2) { z.MulByNonResidue1Power5(&x) })
			op(func(z *bls.E2) { z.MulByNonResidue2Power1(&x) })
			op(func(z *bls.E2) { z.MulByNonResidue2Power2(&x) })
			op(func(z *bls.E2) { z.MulByNonResidue2Power3(&x) })
			op(func(z *bls.E2) { z.MulByNonResidue2Power4(&x) })
			op(func(z *bls.E2) { z.MulByNonResidue2Power5(&x) })
			op(func(z *bls.E2) { z.SetOne() })
			op(func(z *bls.E2) {})
			return bv2(x, y), []int64{b}, bv2(w...), true, "field"
		},
		named(2, "Mul", "Add", "Sub", "Neg", "Conjugate", "Square", "Double", "Halve", "MulByNonResidue", "MulByNonResidueInv", "MulBybTwistCurveCoeff", "MulByElement", "Select",
			"1Power1", "1Power2", "1Power3", "1Power4", "1Power5", "2Power1", "2Power2", "2Power3", "2Power4", "2Power5", "One", "Zero")))

	add(tower("e2-division", 4, 0, 120, 10,
		func(api API, pr *pb.Pairing, t *taker, o *outs) {
			x, y := t.e2(), t.e2()
			f, _ := emulated.NewField[pb.BLS12381Fp](api)
			e := pb.NewExt2(f)
			o.e2(e.Div(x, y), e.Inverse(y))
		},
		func(s *Src) (bvals, []int64, bvals, bool, string) {
			x, y := genE2(s), genE2(s)
			if y.IsZero() {
				return bv2(x, y), none, nil, false, "zero"
			}
			var d, i bls.E2
			i.Inverse(&y)
			d.Mul(&x, &i)
			return bv2(x, y), none, bv2(d, i), true, "field"
		}, named(2, "Div", "Inverse")))

	add(tower("e6", 16, 0, 30, 8,
		func(api API, pr *pb.Pairing, t *taker, o *outs) {
			f, _ := emulated.NewField[pb.BLS12381Fp](api)
			e := pb.NewExt6(f)
			x, y, a, b := t.e6(), t.e6(), t.e2(), t.e2()
			o.e6(e.Add(x, y), e.Sub(x, y), e.Neg(x), e.Double(x), e.Mul(x, y), e.Square(x), e.MulByE2(x, a), e.MulBy01(x, a, b), e.MulBy1(x, b), e.MulByNonResidue(x))
		},
		func(s *Src) (bvals, []int64, bvals, bool, string) {
			x, y, a, b := genE6(s), genE6(s), genE2(s), genE2(s)
			var w []bls.E6
			op := func(f func(z *bls.E6)) { var z bls.E6; f(&z); w = append(w, z) }
			op(func(z *bls.E6) { z.Add(&x, &y) })
			op(func(z *bls.E6) { z.Sub(&x, &y) })
			op(func(z *bls.E6) { z.Neg(&x) })
			op(func(z *bls.E6) { z.Double(&x) })
			op(func(z *bls.E6) { z.Mul(&x, &y) })
			op(func(z *bls.E6) { z.Mul(&x, &x) })
			op(func(z *bls.E6) { z.Mul(&x, &bls.E6{B0: a}) })
			op(func(z *bls.E6) { z.Mul(&x, &bls.E6{B0: a, B1: b}) })
			op(func(z *bls.E6) { z.Mul(&x, &bls.E6{B1: b}) })
			op(func(z *bls.E6) { var v bls.E6; v.B1.SetOne(); z.Mul(&x, &v) })
			return append(bv6(x, y), bv2(a, b)...), none, bv6(w...), true, "field"
		}, named(6, "Add", "Sub", "Neg", "Double", "Mul", "Square", "MulByE2", "MulBy01", "MulBy1", "MulByNonResidue")))

	add(tower("e6-inverse", 6, 0, 60, 8,
		func(api API, pr *pb.Pairing, t *taker, o *outs) {
			f, _ := emulated.NewField[pb.BLS12381Fp](api)
			o.e6(pb.NewExt6(f).Inverse(t.e6()))
		},
		func(s *Src) (bvals, []int64, bvals, bool, string) {
			x := genE6(s)
			if s.Chance(1, 10) {
				x = bls.E6{}
			}
			if x.IsZero() {
				return bv6(x), none, nil, false, "zero"
			}
			var i bls.E6
			i.Inverse(&x)
			return bv6(x), none, bv6(i), true, "field"
		}, named(6, "Inverse")))

	add(tower("e12", 34, 0, 30, 6,
		func(api API, pr *pb.Pairing, t *taker, o *outs) {
			x, y := t.e12(), t.e12()
			a, b, c := t.e2(), t.e2(), t.e2()
			d, e := t.e2(), t.e2()
			o.e12(pr.Mul(x, y), pr.Square(x), pr.Conjugate(x), pr.Frobenius(x), pr.FrobeniusSquare(x), pr.FrobeniusCube(x), pr.One(),
				pr.MulBy034(x, a, b, c), pr.MulBy034by034(a, b, c, d, e, a), pr.MulBy014(x, a, b, c), pr.Mul014By014(a, b, c, d, e, a))
		},
		func(s *Src) (bvals, []int64, bvals, bool, string) {
			x, y := genE12(s), genE12(s)
			a, b, c, d, e := genE2(s), genE2(s), genE2(s), genE2(s), genE2(s)
			var z bls.E2
			var w []bls.E12
			mul := func(p, q bls.E12) { var r bls.E12; r.Mul(&p, &q); w = append(w, r) }
			mul(x, y)
			mul(x, x)
			var k bls.E12
			k.Conjugate(&x)
			w = append(w, k, frobPow(x, 1), frobPow(x, 2), frobPow(x, 3))
			k.SetOne()
			w = append(w, k)
			mul(x, sparse(a, z, z, b, c, z))
			mul(sparse(a, z, z, b, c, z), sparse(d, z, z, e, a, z))
			mul(x, sparse(a, b, z, z, c, z))
			mul(sparse(a, b, z, z, c, z), sparse(d, e, z, z, a, z))
			return append(bv12(x, y), bv2(a, b, c, d, e)...), none, bv12(w...), true, "field"
		}, named(12, "Mul", "Square", "Conjugate", "Frobenius", "FrobeniusSquare", "FrobeniusCube", "One", "MulBy034", "MulBy034by034", "MulBy014", "Mul014By014")))

	add(tower("e12-inverse", 12, 0, 40, 6,
		func(api API, pr *pb.Pairing, t *taker, o *outs) { o.e12(pr.Inverse(t.e12())) },
		func(s *Src) (bvals, []int64, bvals, bool, string) {
			x := genE12(s)
			if s.Chance(1, 10) {
				x = bls.E12{}
			}
			if x.C0.IsZero() && x.C1.IsZero() {
				return bv12(x), none, nil, false, "zero"
			}
			var i bls.E12
			i.Inverse(&x)
			return bv12(x), none, bv12(i), true, "field"
		}, named(12, "Inverse")))

	add(tower("e12-equal", 24, 0, 60, 6,
		func(api API, pr *pb.Pairing, t *taker, o *outs) { pr.AssertIsEqual(t.e12(), t.e12()) },
		func(s *Src) (bvals, []int64, bvals, bool, string) {
			x := genE12(s)
			v := bv12(x)
			u := append(bvals{}, v...)
			if s.Bool() {
				k := s.Int(12)
				d := genFp(s)
				u[k].Add(&u[k], &d)
			}
			for i := range u {
				if !u[i].Equal(&v[i]) {
					return append(v, u...), none, nil, false, "different"
				}
			}
			return append(v, u...), none, bvals{}, true, "equal"
		}, named(12, "AssertIsEqual")))

	add(tower("cyclotomic", 12, 0, 40, 6,
		func(api API, pr *pb.Pairing, t *taker, o *outs) {
			x := t.e12()
			o.e12(pr.CyclotomicSquare(x), pr.DecompressKarabina(*pr.CyclotomicSquareCompressed(x, x)))
		},
		func(s *Src) (bvals, []int64, bvals, bool, string) {
			x, class := cyclo(s)
			var q bls.E12
			q.Mul(&x, &x)
			return bv12(x), none, bv12(q, q), true, class
		}, named(12, "CyclotomicSquare", "Compressed+Decompress")))

	add(tower("expt", 12, 0, 10, 4,
		func(api API, pr *pb.Pairing, t *taker, o *outs) {
			x := t.e12()
			o.e12(pr.ExptHalf(x), pr.Expt(x))
		},
		func(s *Src) (bvals, []int64, bvals, bool, string) {
			x, class := cyclo(s)
			u, _ := new(big.Int).SetString("15132376222941642752", 10)
			var a, b bls.E12
			b.Exp(x, u)
			b.Inverse(&b)
			a.Exp(x, u.Rsh(u, 1))
			a.Inverse(&a)
			return bv12(x), none, bv12(a, b), true, class
		}, named(12, "ExptHalf", "Expt")))

	sc = append(sc, groupScenarios(tier)...)
	sc = append(sc, pairScenarios(tier)...)
	return sc
}
