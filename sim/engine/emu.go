package engine

import (
	"math/big"
	"strings"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

// Answers of the non-native field arithmetic are only meaningful modulo the emulated prime, so a
// dishonest prover can return the same residue by another representative. emuAlias computes such an
// answer: residue + k*p with every dependent quotient and carry adjusted.
func emuAlias(h *HintSite, in []fr.Element, k int64) ([]fr.Element, bool) {
	b := func(i int) *big.Int { return in[i].BigInt(new(big.Int)) }
	n := int(h.End - h.Start)
	nums := func(lo, hi int) []*big.Int {
		r := make([]*big.Int, 0, hi-lo)
		for i := lo; i < hi; i++ {
			r = append(r, b(i))
		}
		return r
	}
	join := func(l []*big.Int, w uint) *big.Int {
		v := new(big.Int)
		for i := len(l) - 1; i >= 0; i-- {
			v.Lsh(v, w).Add(v, l[i])
		}
		return v
	}
	cut := func(v *big.Int, w uint, m int) []*big.Int {
		r := make([]*big.Int, m)
		mask := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), w), big.NewInt(1))
		x := new(big.Int).Set(v)
		for i := range r {
			r[i] = new(big.Int).And(x, mask)
			x.Rsh(x, w)
		}
		if x.Sign() != 0 {
			return nil
		}
		return r
	}
	add := func(v, p *big.Int) *big.Int { return new(big.Int).Add(v, new(big.Int).Mul(p, big.NewInt(k))) }
	var out []*big.Int
	switch {
	case strings.HasSuffix(h.Name, "emulated.mulHint"):
		if len(in) < 3 {
			return nil, false
		}
		w, nl := uint(b(0).Uint64()), int(b(1).Int64())
		if w == 0 || w > 128 || nl <= 0 || len(in) < 2+3*nl {
			return nil, false
		}
		pl, al, bl := nums(2, 2+nl), nums(2+nl, 2+2*nl), nums(2+2*nl, 2+3*nl)
		p, x, y := join(pl, w), join(al, w), join(bl, w)
		nq := (n - 2*nl + 2) / 2
		nc := nl + nq - 2
		if p.Sign() == 0 || nq <= 0 || nc < 0 || nq+nl+nc != n {
			return nil, false
		}
		q, r := new(big.Int).QuoRem(new(big.Int).Mul(x, y), p, new(big.Int))
		r = add(r, p)
		q.Sub(q, big.NewInt(k))
		if q.Sign() < 0 || r.Sign() < 0 || r.BitLen() > p.BitLen() {
			return nil, false
		}
		ql, rl := cut(q, w, nq), cut(r, w, nl)
		if ql == nil || rl == nil {
			return nil, false
		}
		c := new(big.Int)
		out = append(append(out, ql...), rl...)
		for i := 0; i < nc; i++ {
			for j := 0; j <= i; j++ {
				if j < nl && i-j < nl {
					c.Add(c, new(big.Int).Mul(al[j], bl[i-j]))
				}
				if j < nq && i-j < nl {
					c.Sub(c, new(big.Int).Mul(ql[j], pl[i-j]))
				}
			}
			if i < nl {
				c.Sub(c, rl[i])
			}
			c.Rsh(c, w)
			out = append(out, new(big.Int).Set(c))
		}
	case strings.HasSuffix(h.Name, "emulated.RemHint"):
		w, nx := uint(b(0).Uint64()), int(b(1).Int64())
		if w == 0 || w > 128 || nx < 0 || len(in) <= 2+nx {
			return nil, false
		}
		x, p := join(nums(2, 2+nx), w), join(nums(2+nx, len(in)), w)
		if p.Sign() == 0 {
			return nil, false
		}
		out = cut2(add(x.Mod(x, p), p), p, w, n, cut)
	case strings.HasSuffix(h.Name, "emulated.DivHint"), strings.HasSuffix(h.Name, "emulated.InverseHint"):
		o, ok := evalHint(h, in)
		if !ok {
			return nil, false
		}
		first := 4
		if strings.HasSuffix(h.Name, "InverseHint") {
			first = 2
		}
		w, nl := uint(b(0).Uint64()), int(b(1).Int64())
		if w == 0 || w > 128 || nl != n || len(in) < first+nl {
			return nil, false
		}
		p := join(nums(first, first+nl), w)
		var l []*big.Int
		for i := range o {
			l = append(l, o[i].BigInt(new(big.Int)))
		}
		out = cut2(add(join(l, w), p), p, w, n, cut)
	}
	if out == nil {
		return nil, false
	}
	r := make([]fr.Element, n)
	for i := range r {
		r[i].SetBigInt(out[i])
	}
	return r, true
}

func cut2(v, p *big.Int, w uint, n int, cut func(*big.Int, uint, int) []*big.Int) []*big.Int {
	if v.Sign() < 0 || v.BitLen() > p.BitLen() {
		return nil
	}
	return cut(v, w, n)
}

// signature tells hint calls apart by what their answers feed: the same function asked deep inside an
// arithmetic pipeline and asked right before a decision are different places to lie.
func (s *Sys) signatures() [][]int32 {
	m := map[string][]int32{}
	for i := range s.Hints {
		h := &s.Hints[i]
		seen := map[string]bool{}
		for w := h.Start; w < h.End; w++ {
			for _, c := range s.cons[s.consOff[w]:s.consOff[w+1]] {
				switch s.ins[c].kind {
				case kindHint:
					seen[s.Hints[s.hintOf[int32(c)]].Name] = true
				case kindCapture:
					seen["out"] = true
				case kindR1C:
					if s.solves[c] < 0 {
						seen["check"] = true
					} else {
						seen["r1c"] = true
					}
				}
			}
		}
		k := h.Name
		for _, x := range sortedKeys(seen) {
			k += "|" + x
		}
		m[k] = append(m[k], int32(i))
	}
	var r [][]int32
	for _, k := range sortedKeys(m) {
		r = append(r, m[k])
	}
	return r
}

// emuModulus is the prime and limb width of a quotient in an emulated field.
func emuModulus(h *HintSite, in []fr.Element) (*big.Int, uint) {
	first := 4
	switch {
	case strings.HasSuffix(h.Name, "emulated.InverseHint"):
		first = 2
	case !strings.HasSuffix(h.Name, "emulated.DivHint"):
		return nil, 0
	}
	if len(in) < first {
		return nil, 0
	}
	w, n := uint(in[0].Uint64()), int(in[1].Uint64())
	if w == 0 || w > 128 || n <= 0 || n > 64 || len(in) < first+n {
		return nil, 0
	}
	p := new(big.Int)
	for i := n - 1; i >= 0; i-- {
		p.Lsh(p, w).Add(p, in[first+i].BigInt(new(big.Int)))
	}
	if p.BitLen() < 2 {
		return nil, 0
	}
	return p, w
}
