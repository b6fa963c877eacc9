package circ

import (
	"crypto/sha512"
	"fmt"
	"math/big"

	ed "github.com/brevis-network/zk-utils/circuits/gadgets/ed25519"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/std/math/emulated"
)

func init() {
	registry["C17"] = edScenarios
	assumptions["C17"] = []string{"validity is RFC 8032's with the cofactored equation, written down with big integers; SHA-512 is Go's"}
}

var (
	edP, _  = new(big.Int).SetString("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", 16)
	edL, _  = new(big.Int).SetString("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", 16)
	edD     = new(big.Int).Mod(new(big.Int).Mul(bi(-121665), new(big.Int).ModInverse(bi(121666), edP)), edP)
	edI     = new(big.Int).ModSqrt(new(big.Int).Sub(edP, bi(1)), edP)
	edB     = edDecode(new(big.Int).Mod(new(big.Int).Mul(bi(4), new(big.Int).ModInverse(bi(5), edP)), edP), 0)
	edT8    = edTorsion()
	edNone  = edPoint{bi(0), bi(1)}
	edMask  = new(big.Int).Sub(new(big.Int).Lsh(bi(1), 51), bi(1))
	edMsgLn = 122
)

type edPoint struct{ x, y *big.Int }

func edM(v *big.Int) *big.Int { return v.Mod(v, edP) }

// edDecode finds the point with this y and parity of x.
func edDecode(y *big.Int, odd uint) *edPoint {
	yy := new(big.Int).Mul(y, y)
	u := edM(new(big.Int).Sub(yy, bi(1)))
	v := edM(new(big.Int).Add(new(big.Int).Mul(yy, edD), bi(1)))
	x := new(big.Int).ModSqrt(edM(u.Mul(u, new(big.Int).ModInverse(v, edP))), edP)
	if x == nil {
		return nil
	}
	if x.Bit(0) != odd {
		x.Sub(edP, x)
	}
	if x.Cmp(edP) == 0 {
		return nil
	}
	return &edPoint{x, new(big.Int).Set(y)}
}

func (p edPoint) onCurve() bool {
	xx, yy := new(big.Int).Mul(p.x, p.x), new(big.Int).Mul(p.y, p.y)
	l := edM(new(big.Int).Sub(yy, xx))
	r := new(big.Int).Mul(edM(xx.Mul(xx, yy)), edD)
	return l.Cmp(edM(r.Add(r, bi(1)))) == 0
}

func (p edPoint) add(q edPoint) edPoint {
	m := func(a, b *big.Int) *big.Int { return edM(new(big.Int).Mul(a, b)) }
	t := m(edD, m(m(p.x, q.x), m(p.y, q.y)))
	x := new(big.Int).Add(m(p.x, q.y), m(q.x, p.y))
	y := new(big.Int).Add(m(p.y, q.y), m(p.x, q.x))
	dx, dy := new(big.Int).ModInverse(edM(new(big.Int).Add(bi(1), t)), edP), new(big.Int).ModInverse(edM(new(big.Int).Sub(bi(1), t)), edP)
	return edPoint{m(x, dx), m(y, dy)}
}

func (p edPoint) mul(k *big.Int) edPoint {
	r := edPoint{bi(0), bi(1)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.add(r)
		if k.Bit(i) == 1 {
			r = r.add(p)
		}
	}
	return r
}

func (p edPoint) neg() edPoint { return edPoint{edM(new(big.Int).Neg(p.x)), p.y} }

func (p edPoint) eq(q edPoint) bool { return p.x.Cmp(q.x) == 0 && p.y.Cmp(q.y) == 0 }

func (p edPoint) bytes() []byte {
	b := new(big.Int).Set(p.y).FillBytes(make([]byte, 32))
	for i := 0; i < 16; i++ {
		b[i], b[31-i] = b[31-i], b[i]
	}
	b[31] |= byte(p.x.Bit(0)) << 7
	return b
}

// edTorsion is a point of order eight.
func edTorsion() edPoint {
	for y := int64(2); ; y++ {
		if p := edDecode(bi(y), 0); p != nil {
			t := p.mul(edL)
			if !t.mul(bi(4)).eq(edPoint{bi(0), bi(1)}) {
				return t
			}
		}
	}
}

// edScalar draws a scalar with weight on the extremes.
func edScalar(s *Src) *big.Int {
	switch s.Int(8) {
	case 5:
		return bi(int64(s.Int(9)))
	case 6:
		return new(big.Int).Sub(edL, bi(int64(1+s.Int(9))))
	case 7:
		return new(big.Int).Lsh(bi(1), uint(s.Int(252)))
	}
	return new(big.Int).Mod(s.BitsInt(256), edL)
}

func edHash(r, a, m []byte) *big.Int {
	h := sha512.Sum512(append(append(append([]byte{}, r...), a...), m...))
	for i := 0; i < 32; i++ {
		h[i], h[63-i] = h[63-i], h[i]
	}
	return new(big.Int).SetBytes(h[:])
}

// edClaim is what one proof says.
type edClaim struct {
	rx, ry, ax, ay []*big.Int // limbs
	s              *big.Int
	msg            [5]*big.Int
	pub            [2]*big.Int
}

func edLimbs(v *big.Int) (r []*big.Int) {
	x := new(big.Int).Set(v)
	for i := 0; i < 5; i++ {
		r = append(r, new(big.Int).And(x, edMask))
		x.Rsh(x, 51)
	}
	return
}

func edJoin(l []*big.Int) *big.Int {
	v := new(big.Int)
	for i := len(l) - 1; i >= 0; i-- {
		if l[i].BitLen() > 51 {
			return nil
		}
		v.Lsh(v, 51).Add(v, l[i])
	}
	return v
}

func (c *edClaim) in() []fr.Element {
	var r []*big.Int
	for _, l := range [][]*big.Int{c.rx, c.ry, c.ax, c.ay, {c.s}, c.msg[:], c.pub[:]} {
		r = append(r, l...)
	}
	return frsOf(r)
}

func frsOf(v []*big.Int) []fr.Element {
	r := make([]fr.Element, len(v))
	for i := range v {
		r[i].SetBigInt(v[i])
	}
	return r
}

func (c *edClaim) setPoint(r bool, p edPoint) {
	if r {
		c.rx, c.ry = edLimbs(p.x), edLimbs(p.y)
	} else {
		c.ax, c.ay = edLimbs(p.x), edLimbs(p.y)
	}
}

func (c *edClaim) setMsg(m []byte) {
	for i := range c.msg {
		e := 25 * (i + 1)
		if i == 4 {
			e = edMsgLn
		}
		c.msg[i] = new(big.Int).SetBytes(m[25*i : e])
	}
}

func (c *edClaim) setPub(b []byte) {
	c.pub[0], c.pub[1] = new(big.Int).SetBytes(b[:16]), new(big.Int).SetBytes(b[16:])
}

// valid says why the claim does not hold: nil if it does.
func (c *edClaim) valid() error {
	pt := func(what string, x, y []*big.Int) (p edPoint, err error) {
		p = edPoint{edJoin(x), edJoin(y)}
		if p.x == nil || p.y == nil || p.x.Cmp(edP) >= 0 || p.y.Cmp(edP) >= 0 {
			return p, fmt.Errorf("%s has a coordinate outside the field", what)
		}
		if !p.onCurve() {
			return p, fmt.Errorf("%s is not on the curve", what)
		}
		return
	}
	r, err := pt("R", c.rx, c.ry)
	if err != nil {
		return err
	}
	a, err := pt("the public key", c.ax, c.ay)
	if err != nil {
		return err
	}
	if c.s.Cmp(edL) >= 0 {
		return fmt.Errorf("S is not below the group order")
	}
	var msg, pub []byte
	for i, m := range c.msg {
		w := 25
		if i == 4 {
			w = 22
		}
		if m.BitLen() > 8*w {
			return fmt.Errorf("message part %d is too long", i)
		}
		msg = append(msg, m.FillBytes(make([]byte, w))...)
	}
	for _, p := range c.pub {
		if p.BitLen() > 128 {
			return fmt.Errorf("the public key has too long halves")
		}
		pub = append(pub, p.FillBytes(make([]byte, 16))...)
	}
	if string(pub) != string(a.bytes()) {
		return fmt.Errorf("the public key's bytes are %x, its point's %x", pub, a.bytes())
	}
	h := edHash(r.bytes(), pub, msg)
	x := edB.mul(c.s).add(a.mul(h).neg()).add(r.neg())
	if !x.mul(bi(8)).eq(edPoint{bi(0), bi(1)}) {
		return fmt.Errorf("the verification equation does not hold")
	}
	return nil
}

// edSigned draws a valid claim, torsion included.
func edSigned(s *Src) (c *edClaim, class string) {
	c = &edClaim{}
	class = "valid"
	a, k := edScalar(s), edScalar(s)
	A, R := edB.mul(a), edB.mul(k)
	if s.Chance(1, 3) {
		class = "valid-torsion"
		A = A.add(edT8.mul(bi(int64(s.Int(8)))))
		R = R.add(edT8.mul(bi(int64(s.Int(8)))))
	}
	m := s.Bytes(edMsgLn)
	h := edHash(R.bytes(), A.bytes(), m)
	c.s = new(big.Int).Mul(h, a)
	c.s.Add(c.s, k).Mod(c.s, edL)
	c.setPoint(true, R)
	c.setPoint(false, A)
	c.setMsg(m)
	c.setPub(A.bytes())
	return
}

// edSmallX lists points whose x has a second representative below 2^255.
func edSmallX() (r []edPoint) {
	for x := int64(0); x < 19; x++ {
		// y^2 = (1 + x^2)/(1 - d x^2)
		xx := bi(x * x)
		d := edM(new(big.Int).Sub(bi(1), new(big.Int).Mul(edD, xx)))
		q := edM(new(big.Int).Mul(new(big.Int).Add(bi(1), xx), new(big.Int).ModInverse(d, edP)))
		if y := new(big.Int).ModSqrt(q, edP); y != nil {
			r = append(r, edPoint{bi(x), y}, edPoint{bi(x), edM(new(big.Int).Neg(y))})
		}
	}
	return
}

func edCase(s *Src) Case {
	c, class := edSigned(s)
	switch [19]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 8, 8, 8, 11, 5}[s.Int(19)] {
	case 5: // another message
		i := s.Int(5)
		c.msg[i] = new(big.Int).Xor(c.msg[i], new(big.Int).Lsh(bi(1), uint([]int{0, 175, 176, 199, s.Int(200), s.Int(176)}[s.Int(6)])))
		class = "other-message"
	case 6: // S beyond the group order
		k := int64(1 + s.Int(3))
		c.s = new(big.Int).Add(c.s, new(big.Int).Mul(edL, bi(k)))
		class = "large-S"
	case 7:
		c.s = edScalar(s)
		class = "other-S"
	case 8: // no points at all
		class = "off-curve"
		switch s.Int(6) {
		case 0:
			p := []edPoint{{bi(0), bi(2)}, {bi(1), bi(0)}, {edM(s.BitsInt(255)), edM(s.BitsInt(255))}, {edI, bi(1)}, {bi(0), edI}}[s.Int(5)]
			c.setPoint(s.Bool(), p)
			if s.Bool() {
				c.setPub(edPoint{edJoin(c.ax), edJoin(c.ay)}.bytes())
			}
		case 1, 2: // absorbs whatever it is added to
			c.setPoint(true, edPoint{bi(0), bi(0)})
			class = "off-curve-R"
		default: // so that the last double can become anything
			A := edPoint{bi(0), bi(0)}
			c.setPoint(false, A)
			c.setPub(A.bytes())
			c.s = edScalar(s)
			R := edB.mul(bi(int64(c.s.Bit(0))))
			c.setPoint(true, R)
			m := s.Bytes(edMsgLn)
			for new(big.Int).And(new(big.Int).Mod(edHash(R.bytes(), A.bytes(), m), edL), bi(3)).Int64() != 2 {
				m[0]++
			}
			c.setMsg(m)
			class = "off-curve-A"
		}
	case 9: // the other point
		c.setPoint(true, edB.mul(edScalar(s)))
		class = "other-R"
	case 10:
		p := edB.mul(edScalar(s))
		c.setPoint(false, p)
		if s.Bool() {
			c.setPub(p.bytes())
		}
		class = "other-key"
	case 11: // the key's bytes are another point's
		b := edPoint{edJoin(c.ax), edJoin(c.ay)}.bytes()
		b[[]int{0, 7, 15, 16, 31, s.Int(32)}[s.Int(6)]] ^= 1 << uint([]int{0, 7, s.Int(8)}[s.Int(3)])
		if s.Bool() {
			b = edPoint{edJoin(c.ax), edJoin(c.ay)}.neg().bytes()
		}
		c.setPub(b)
		class = "other-bytes"
	case 12: // a second representative of a coordinate changes the bytes that are hashed
		class = "alias"
		m := s.Bytes(edMsgLn)
		c.setMsg(m)
		k := edScalar(s)
		K := edB.mul(k)
		// points of small order have them, and nobody needs their logarithm
		p1 := new(big.Int).Add(edP, bi(1))
		m1 := new(big.Int).Sub(edP, bi(1))
		q := []edPoint{{edP, bi(1)}, {edP, m1}, {bi(0), p1}, {edP, p1}, {edI, edP}, {edM(new(big.Int).Neg(edI)), edP}}[s.Int(6)]
		switch s.Int(5) {
		case 0, 1:
			c.setPoint(true, q)
			c.setPoint(false, K)
			c.setPub(K.bytes())
			c.s = new(big.Int).Mod(new(big.Int).Mul(edHash(q.bytes(), K.bytes(), m), k), edL)
		case 2, 3:
			c.setPoint(false, q)
			c.setPub(q.bytes())
			c.setPoint(true, K)
			c.s = k
		default:
			small := edSmallX()
			p := small[s.Int(len(small))]
			q := edPoint{new(big.Int).Add(p.x, edP), p.y}
			c.setPoint(s.Bool(), q)
			c.setPub(edPoint{edJoin(c.ax), edJoin(c.ay)}.bytes())
			c.s = k
		}
	case 13: // keys of small order sign anything
		k := edScalar(s)
		R, A := edB.mul(k), edT8.mul(bi(int64(s.Int(8))))
		c.setPoint(true, R)
		c.setPoint(false, A)
		c.setPub(A.bytes())
		c.s = k
		class = "small-order-key"
	}
	calm := class[:3] != "off" && s.Chance(2, 3)
	more := 0
	if class == "off-curve-A" {
		more = 14
	}
	err := c.valid()
	cs := Case{In: c.in(), Accept: err == nil, Class: class, Desc: fmt.Sprintf("%s: S %x, key %x%x", class, c.s, c.pub[0], c.pub[1]), Judge: okAlways, Calm: calm, More: more}
	if err != nil {
		cs.Class += "/invalid"
		cs.Judge = reject(err.Error())
	}
	return cs
}

func edVerify(n int) func(api API, in []V) []V {
	return func(api API, in []V) []V {
		e, err := ed.NewEd25519(api)
		if err != nil {
			panic(err)
		}
		for i := 0; i < n; i++ {
			in := in[28*i : 28*(i+1)]
			el := func(i int) emulated.Element[ed.Ed25519Fp] { return emulated.Element[ed.Ed25519Fp]{Limbs: in[i : i+5]} }
			var msg [5]V
			copy(msg[:], in[21:26])
			sig := ed.Signature{R: ed.Point{X: el(0), Y: el(5)}, S: in[20]}
			key := ed.PublicKey{A: ed.Point{X: el(10), Y: el(15)}}
			if err := e.Verify(in[26:28], sig, msg, key); err != nil {
				panic(err)
			}
		}
		return nil
	}
}

func edScenarios(tier string) []*Scenario {
	cases, attacks := 128, 6
	return []*Scenario{
		{Name: "verify", NIn: 28, Cases: cases, Attacks: attacks, Repairs: 2, Define: edVerify(1), Gen: edCase},
		// two signatures with one verifier
		{Name: "verify-two", NIn: 56, Cases: cases / 8, Attacks: attacks / 3, Repairs: 1, Define: edVerify(2), Gen: func(s *Src) Case {
			a, b := edCase(s), edCase(s)
			c := Case{In: append(append([]fr.Element{}, a.In...), b.In...), Accept: a.Accept && b.Accept, Class: "two-valid", Desc: a.Desc + "; " + b.Desc, Judge: okAlways, Calm: a.Calm && b.Calm}
			if !c.Accept {
				c.Class = "two/invalid"
				c.Judge = a.Judge
				if a.Accept {
					c.Judge = b.Judge
				}
			}
			return c
		}},
	}
}
