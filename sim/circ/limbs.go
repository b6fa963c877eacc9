package circ

import (
	"fmt"
	"math/big"

	"github.com/brevis-network/zk-utils/circuits/gadgets/limbs"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"zksim/engine"
)

func init() {
	registry["C14"] = limbScenarios
}

// splitRef cuts the low size bits of v, most significant limb first.
func splitRef(v *big.Int, size, limb, nb int) (vals []*big.Int, sizes []int) {
	rem := size
	for i := 0; i < nb; i++ {
		rem -= limb
		x := new(big.Int).Rsh(v, uint(rem))
		m := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(limb)), big.NewInt(1))
		vals = append(vals, x.And(x, m))
		sizes = append(sizes, limb)
	}
	if rem > 0 {
		m := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(rem)), big.NewInt(1))
		vals = append(vals, m.And(m, v))
		sizes = append(sizes, rem)
	}
	return
}

func sizesOf(l limbs.Limbs) []V {
	var r []V
	for _, x := range l {
		r = append(r, x.Size)
	}
	return r
}

func limbScenarios(tier string) []*Scenario {
	var sc []*Scenario
	type cfg struct{ size, limb, nb int }
	for _, c := range []cfg{{8, 4, 0}, {8, 1, 0}, {8, 3, 0}, {10, 2, 2}, {64, 8, 0}, {64, 1, 1}, {64, 63, 1}, {128, 64, 0}, {200, 51, 0}, {253, 64, 3}, {192, 1, 0}, {33, 16, 2}, {7, 7, 0}, {254, 127, 0}, {254, 64, 0}, {254, 128, 1}, {256, 128, 0}} {
		c := c
		name := fmt.Sprintf("split/%d/%d/%d", c.size, c.limb, c.nb)
		nb := c.nb
		if nb == 0 {
			nb = c.size / c.limb
		}
		sc = append(sc, &Scenario{
			Name: name, NIn: 1, Cases: 24, Attacks: 120, Repairs: 4,
			Define: func(api API, in []V) []V {
				la := limbs.NewAPI(api)
				var ls limbs.Limbs
				if c.nb == 0 {
					ls = la.Split(limbs.Limb{Val: in[0], Size: c.size}, c.limb)
				} else {
					ls = la.Split(limbs.Limb{Val: in[0], Size: c.size}, c.limb, c.nb)
				}
				return append(ls.Values(), sizesOf(ls)...)
			},
			Gen: func(s *Src) Case {
				v := s.BitsInt(c.size)
				class := "in-range"
				over := s.Chance(1, 5) && c.size != c.limb && c.size < 254
				if c.size >= 254 {
					class = "full-width"
				}
				if over {
					v.Add(v, new(big.Int).Lsh(big.NewInt(int64(1+s.Int(7))), uint(c.size)))
					v.Mod(v, engine.Field)
					if v.BitLen() <= c.size {
						over = false
					} else {
						class = "word-wider-than-its-size"
					}
				}
				if v.Cmp(engine.Field) >= 0 {
					v.Mod(v, engine.Field)
				}
				cs := Case{In: engine.Frs([]*big.Int{v}), Accept: !over, Class: class, Desc: fmt.Sprintf("word=0x%x size=%d limb=%d nb=%d", v, c.size, c.limb, nb)}
				vals, sizes := splitRef(v, c.size, c.limb, nb)
				if over {
					cs.Judge = reject("a word that does not fit its size was split into limbs that fit theirs")
				} else {
					want := append(append([]*big.Int{}, vals...), intsBig(sizes)...)
					cs.Judge = func(out []fr.Element) error { return eqOut("split", out, want) }
				}
				return cs
			},
		})
	}
	// multi-limb operations: resplit, merge, rotate
	type mcfg struct {
		op        string
		n, sz     int
		arg, arg2 int
	}
	for _, c := range []mcfg{
		{"resplit", 3, 8, 12, 0}, {"resplit", 4, 64, 128, 0}, {"resplit", 2, 64, 16, 0}, {"resplit", 32, 8, 64, 0}, {"resplit", 4, 32, 8, 0}, {"resplit", 8, 64, 32, 0}, {"resplit", 31, 8, 62, 0}, {"resplit", 2, 127, 1, 0}, {"resplit", 127, 2, 127, 0}, {"resplit", 11, 23, 23, 0},
		{"merge", 3, 8, 0, 0}, {"merge", 8, 31, 0, 0}, {"merge", 1, 8, 0, 0},
		{"lrot", 3, 8, 1, 8}, {"lrot", 8, 8, 13, 8}, {"lrot", 8, 8, 16, 16}, {"lrot", 2, 32, 31, 64}, {"lrot", 4, 16, 63, 4}, {"lrotmerge", 3, 8, 9, 0}, {"lrotmerge", 4, 16, 48, 0}, {"lrotmerge", 8, 8, 0, 0},
	} {
		c := c
		total := c.n * c.sz
		sc = append(sc, &Scenario{
			Name: fmt.Sprintf("%s/%dx%d/%d/%d", c.op, c.n, c.sz, c.arg, c.arg2), NIn: c.n, Cases: 16, Attacks: 100, Repairs: 4,
			Define: func(api API, in []V) []V {
				la := limbs.NewAPI(api)
				ls := limbs.NewLimbs(in, c.sz)
				switch c.op {
				case "resplit":
					r := la.Resplit(ls, c.arg)
					return append(r.Values(), sizesOf(r)...)
				case "merge":
					m := la.Merge(ls)
					return []V{m.Val, m.Size}
				case "lrot":
					r := la.Lrot(ls, c.arg, c.arg2)
					return append(r.Values(), sizesOf(r)...)
				default:
					m := la.LrotMerge(ls, c.arg)
					return []V{m.Val, m.Size}
				}
			},
			Gen: func(s *Src) Case {
				word := new(big.Int)
				var in []*big.Int
				for i := 0; i < c.n; i++ {
					v := s.BitsInt(c.sz)
					in = append(in, v)
					word.Lsh(word, uint(c.sz)).Or(word, v)
				}
				var want []*big.Int
				rot := func(k int) *big.Int {
					k %= total
					m := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(total)), big.NewInt(1))
					x := new(big.Int).Lsh(word, uint(k))
					y := new(big.Int).Rsh(word, uint(total-k))
					return x.Or(x, y).And(x, m)
				}
				switch c.op {
				case "resplit":
					vals, sizes := splitRef(word, total, c.arg, total/c.arg)
					want = append(vals, intsBig(sizes)...)
				case "merge":
					want = []*big.Int{word, big.NewInt(int64(total))}
				case "lrot":
					vals, sizes := splitRef(rot(c.arg), total, c.arg2, total/c.arg2)
					want = append(vals, intsBig(sizes)...)
				default:
					want = []*big.Int{rot(c.arg), big.NewInt(int64(total))}
				}
				return Case{In: engine.Frs(in), Accept: true, Class: "in-range", Desc: fmt.Sprintf("limbs=%x", in),
					Judge: func(out []fr.Element) error { return eqOut(c.op, out, want) }}
			},
		})
	}
	// several operations on one and the same word, in a seeded order per configuration
	nseq := 8
	if tier == "thorough" {
		nseq = 40
	}
	for q := 0; q < nseq; q++ {
		g := engine.NewRNG(0x5EC, uint64(q))
		n := 2 + g.Intn(7)
		sz := []int{4, 8, 12, 16, 20}[g.Intn(5)]
		type op struct{ k, a, b, from, to int } // on limbs from..to of the word
		var ops []op
		nm := ""
		for i := 0; i < 4; i++ {
			o := op{k: g.Intn(4), to: n}
			if i > 0 && g.Intn(3) > 0 {
				o.from = g.Intn(n)
				o.to = o.from + 1 + g.Intn(n-o.from)
			}
			total := (o.to - o.from) * sz
			switch o.k {
			case 0:
				o.a = g.Intn(total)
			case 1:
				o.a, o.b = g.Intn(total), []int{1, 4, sz, total}[g.Intn(4)]
			case 2:
				o.a = 1 + g.Intn(total)
			}
			ops = append(ops, o)
			if i == 3 {
				ops = append(ops, op{k: 3, to: n}) // the word itself must have survived
			}
			nm += fmt.Sprintf("/%s-%d-%d@%d-%d", []string{"lrotmerge", "lrot", "resplit", "merge"}[o.k], o.a, o.b, o.from, o.to)
		}
		sc = append(sc, &Scenario{
			Name: fmt.Sprintf("seq/%dx%d%s", n, sz, nm), NIn: n, Cases: 10, Attacks: 20, Repairs: 4,
			Define: func(api API, in []V) []V {
				la := limbs.NewAPI(api)
				all := limbs.NewLimbs(in, sz)
				var r []V
				for _, o := range ops {
					var x limbs.Limbs
					ls := all[o.from:o.to]
					switch o.k {
					case 0:
						x = limbs.Limbs{la.LrotMerge(ls, o.a)}
					case 1:
						x = la.Lrot(ls, o.a, o.b)
					case 2:
						x = la.Resplit(ls, o.a)
					default:
						x = limbs.Limbs{la.Merge(ls)}
					}
					r = append(append(r, x.Values()...), sizesOf(x)...)
				}
				return r
			},
			Gen: func(s *Src) Case {
				word := new(big.Int)
				var in []*big.Int
				for i := 0; i < n; i++ {
					v := s.BitsInt(sz)
					in = append(in, v)
					word.Lsh(word, uint(sz)).Or(word, v)
				}
				var want []*big.Int
				for _, o := range ops {
					total := (o.to - o.from) * sz
					m := new(big.Int).Sub(new(big.Int).Lsh(bi(1), uint(total)), bi(1))
					word := new(big.Int).Rsh(word, uint((n-o.to)*sz))
					word.And(word, m)
					x, limb := word, total
					if o.k < 2 {
						x = new(big.Int).Lsh(word, uint(o.a))
						x.Or(x, new(big.Int).Rsh(word, uint(total-o.a))).And(x, m)
					}
					if o.k == 1 {
						limb = o.b
					} else if o.k == 2 {
						limb = o.a
					}
					vals, sizes := splitRef(x, total, limb, total/limb)
					want = append(append(want, vals...), intsBig(sizes)...)
				}
				return Case{In: engine.Frs(in), Accept: true, Class: "sequence", Desc: fmt.Sprintf("limbs=%x", in),
					Judge: func(out []fr.Element) error { return eqOut("operations on one word", out, want) }}
			},
		})
	}
	return sc
}
