package circ

import (
	"fmt"
	"math/big"

	"github.com/brevis-network/zk-utils/circuits/gadgets/conv"
	icore "github.com/brevis-network/zk-utils/circuits/gadgets/index-proof/core"
	"github.com/brevis-network/zk-utils/circuits/gadgets/mux"
	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
	gutils "github.com/brevis-network/zk-utils/circuits/gadgets/utils"
	cutils "github.com/brevis-network/zk-utils/common/utils"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	ethrlp "github.com/ethereum/go-ethereum/rlp"
	"zksim/engine"
)

func init() {
	registry["C08"] = indexScenarios
	registry["C15"] = selectScenarios
	registry["C20"] = packScenarios
}

func indexScenarios(tier string) []*Scenario {
	gen := func(s *Src) (int, bool, string) {
		switch s.Int(8) {
		case 0, 1:
			return s.Int(65536), true, "any"
		case 2:
			return s.Range(0, 300), true, "small"
		case 3:
			return []int{0, 1, 127, 128, 129, 255, 256, 257, 4095, 4096, 0x8000, 0x8080, 0x0fff, 0xff00, 0xfff0, 65535}[s.Int(16)], true, "boundary"
		case 4:
			return s.Range(0, 255) << 8, true, "low-byte-zero"
		case 5:
			return s.Range(1, 15)<<8 | s.Range(0, 255), true, "12-bit"
		case 6:
			return s.Range(128, 256), true, "one-byte-long"
		}
		return []int{65536, 65537, 1 << 17, 1 << 20, -1, -2, 65536 + 128}[s.Int(7)], false, "out-of-range"
	}
	ref := func(i int) []*big.Int {
		n := nibbles(ethrlp.AppendUint64(nil, uint64(i)))
		for len(n) < 7 {
			n = append(n, 0)
		}
		return bytesBig(n)
	}
	return []*Scenario{
		{Name: "derive", NIn: 1, Cases: 700, Attacks: 24, Repairs: 4,
			Define: func(api API, in []V) []V {
				r := icore.CalTxOrReceiptIndexRlp(api, in[0])
				return r[:]
			},
			Gen: func(s *Src) Case {
				i, ok, class := gen(s)
				c := Case{In: []fr.Element{engine.Fr(i)}, Accept: ok, Class: class, Desc: fmt.Sprintf("index %d", i)}
				if !ok {
					c.Judge = reject("an index outside 0..65535 was given a key")
					return c
				}
				w := ref(i)
				c.Judge = func(out []fr.Element) error { return eqOut("key nibbles", out, w) }
				return c
			}},
		{Name: "check", NIn: 8, Cases: 500, Attacks: 24, Repairs: 4,
			Define: func(api API, in []V) []V {
				c := icore.IndexCheckCircuit{Index: in[0]}
				copy(c.RlpString[:], in[1:])
				if err := c.Define(api); err != nil {
					panic(err)
				}
				return nil
			},
			Gen: func(s *Src) Case {
				i, ok, class := gen(s)
				j := i
				if !ok {
					j = ((i % 65536) + 65536) % 65536
				}
				key := ref(j)
				right := true
				if s.Chance(1, 2) {
					switch s.Int(3) {
					case 1:
						k, _, _ := gen(s)
						if k >= 0 && k < 65536 && k != j {
							key, right, class = ref(k), false, "key-of-another-index"
						}
					case 2:
						p := s.Int(7)
						key = append([]*big.Int{}, key...)
						key[p] = new(big.Int).Add(key[p], bi(int64(1+s.Int(16))))
						right, class = false, "wrong-nibble"
					}
				}
				c := Case{In: append([]fr.Element{engine.Fr(i)}, engine.Frs(key)...), Accept: ok && right, Class: class, Desc: fmt.Sprintf("index %d key %v", i, key), Judge: okAlways}
				if !c.Accept {
					c.Judge = reject("a key that is not the encoding of the index was accepted")
				}
				return c
			}},
	}
}

func elems(s *Src, n int) []*big.Int {
	r := make([]*big.Int, n)
	for i := range r {
		r[i] = s.Elem()
	}
	return r
}

func selectScenarios(tier string) []*Scenario {
	var sc []*Scenario
	// one-of-n selection
	for _, c := range []struct {
		k    string
		w, n int
	}{{"mux", 1, 1}, {"mux", 3, 2}, {"mux", 2, 7}, {"mux", 25, 10}, {"mux", 1, 64}, {"rlpmux", 1, 2}, {"rlpmux", 4, 9}, {"rlpmux", 1, 67}, {"decoder", 0, 6}, {"decoder", 0, 33}} {
		c := c
		sc = append(sc, &Scenario{
			Name: fmt.Sprintf("%s/%dx%d", c.k, c.w, c.n), NIn: c.w*c.n + 1, Cases: 60, Attacks: 60, Repairs: 4,
			Define: func(api API, in []V) []V {
				var t [][]V
				for i := 0; i < c.w; i++ {
					t = append(t, in[i*c.n:(i+1)*c.n])
				}
				switch c.k {
				case "mux":
					return mux.Multiplex(api, in[c.w*c.n], c.w, c.n, t)
				case "rlpmux":
					return rlp.Multiplexer(api, in[c.w*c.n], c.w, c.n, t)
				}
				o, ok := rlp.Decoder(api, c.n, in[0])
				return append(o, ok)
			},
			Gen: func(s *Src) Case {
				vals := elems(s, c.w*c.n)
				sel := s.Range(0, c.n-1)
				if s.Chance(1, 3) {
					sel = []int{0, c.n - 1, c.n / 2}[s.Int(3)]
				}
				class := "in-range"
				var selv *big.Int = bi(int64(sel))
				if s.Chance(1, 4) {
					class = "selector-out-of-range"
					selv = []*big.Int{bi(int64(c.n)), bi(int64(c.n + 1)), bi(-1), bi(256), s.Elem()}[s.Int(5)]
					selv.Mod(selv, engine.Field)
					if selv.Cmp(bi(int64(c.n))) < 0 {
						sel, class = int(selv.Int64()), "in-range"
					}
				}
				cs := Case{In: append(engine.Frs(vals), engine.Fr(selv)), Class: class, Desc: fmt.Sprintf("table %x selector %d", vals, selv)}
				var want []*big.Int
				if c.k == "decoder" {
					for i := 0; i < c.n; i++ {
						b := bi(0)
						if class == "in-range" && i == sel {
							b = bi(1)
						}
						want = append(want, b)
					}
					if class == "in-range" {
						want = append(want, bi(1))
					} else {
						want = append(want, bi(0))
					}
					cs.Accept = true
				} else if class == "in-range" {
					for i := 0; i < c.w; i++ {
						want = append(want, vals[i*c.n+sel])
					}
					cs.Accept = true
				} else {
					cs.Judge = reject("a selector that is no index of the table was accepted")
					return cs
				}
				cs.Judge = func(out []fr.Element) error { return eqOut("selection", out, want) }
				return cs
			},
		})
	}
	// rotation by a variable amount, shift with zero fill
	for _, c := range []struct{ n, min, max int }{{8, 0, 7}, {13, 0, 4}, {20, 3, 10}, {16, 5, 5}, {66, 0, 64}, {140, 0, 66}, {9, 2, 3}, {30, 0, 1}} {
		c := c
		sc = append(sc, &Scenario{
			Name: fmt.Sprintf("rotate/%d/%d-%d", c.n, c.min, c.max), NIn: c.n + 1, Cases: 40, Attacks: 40, Repairs: 4,
			Define: func(api API, in []V) []V { return rlp.ShiftLeft(api, c.n, c.min, c.max, in[:c.n], in[c.n]) },
			Gen: func(s *Src) Case {
				vals := elems(s, c.n)
				sh := s.Range(c.min, c.max)
				if s.Chance(1, 3) {
					sh = []int{c.min, c.max}[s.Int(2)]
				}
				if c.min != c.max && s.Chance(1, 6) {
					bad := []int{c.min + 1<<uint(rlp.LogCeil(c.max-c.min)), -1 - s.Int(3), c.min + 1000 + s.Int(9)}[s.Int(3)]
					if bad < c.min || bad-c.min >= 1<<uint(bitLen(c.max-c.min)) {
						return Case{In: append(engine.Frs(vals), engine.Fr(bad)), Class: "shift-out-of-range", Desc: fmt.Sprint("shift ", bad), Judge: reject(fmt.Sprintf("a shift of %d outside [%d,%d] was accepted", bad, c.min, c.max))}
					}
				}
				var want []*big.Int
				for i := 0; i < c.n; i++ {
					want = append(want, vals[(i+sh)%c.n])
				}
				return Case{In: append(engine.Frs(vals), engine.Fr(sh)), Accept: true, Class: "in-range", Desc: fmt.Sprintf("values %x shift %d", vals, sh),
					Judge: func(out []fr.Element) error { return eqOut("rotation", out, want) }}
			},
		})
	}
	for _, c := range []struct{ n, bits int }{{8, 3}, {8, 4}, {13, 3}, {5, 4}, {64, 6}, {1, 1}} {
		c := c
		sc = append(sc, &Scenario{
			Name: fmt.Sprintf("shiftright/%d/%d", c.n, c.bits), NIn: c.n + 1, Cases: 40, Attacks: 40, Repairs: 4,
			Define: func(api API, in []V) []V { return rlp.ShiftRight(api, c.n, c.bits, in[:c.n], in[c.n]) },
			Gen: func(s *Src) Case {
				vals := elems(s, c.n)
				sh := s.Range(0, 1<<uint(c.bits)-1)
				if s.Chance(1, 6) {
					bad := []int{1 << uint(c.bits), -1, 1<<uint(c.bits) + s.Int(99)}[s.Int(3)]
					return Case{In: append(engine.Frs(vals), engine.Fr(bad)), Class: "shift-out-of-range", Desc: fmt.Sprint("shift ", bad), Judge: reject("a shift that does not fit its declared bits was accepted")}
				}
				var want []*big.Int
				for i := 0; i < c.n; i++ {
					if i >= sh {
						want = append(want, vals[i-sh])
					} else {
						want = append(want, bi(0))
					}
				}
				return Case{In: append(engine.Frs(vals), engine.Fr(sh)), Accept: true, Class: "in-range", Desc: fmt.Sprintf("values %x shift %d", vals, sh),
					Judge: func(out []fr.Element) error { return eqOut("shift", out, want) }}
			},
		})
	}
	// sub-array
	for _, c := range []struct{ n, max int }{{64, 64}, {64, 10}, {6, 6}, {7, 3}, {40, 40}, {127, 5}} {
		c := c
		sc = append(sc, &Scenario{
			Name: fmt.Sprintf("subarray/%d/%d", c.n, c.max), NIn: c.n + 2, Cases: 40, Attacks: 40, Repairs: 4,
			Define: func(api API, in []V) []V {
				o, l := rlp.NewSubArray(c.n, c.max, bitLen(c.n)).SubArray(api, in[:c.n], in[c.n], in[c.n+1])
				return append(o, l)
			},
			Gen: func(s *Src) Case {
				vals := elems(s, c.n)
				l := s.Range(0, c.max)
				from := s.Range(0, c.n-l)
				end := from + l
				if s.Chance(1, 4) {
					from = []int{0, c.n - l}[s.Int(2)]
					end = from + l
				}
				class := "in-range"
				if s.Chance(1, 4) {
					switch s.Int(4) {
					case 0:
						end, class = c.n+1+s.Int(3), "end-beyond-array"
					case 1:
						if from > 0 {
							end, class = from-1, "end-before-start"
						}
					case 2:
						if c.max < c.n {
							from, end, class = 0, c.max+1, "longer-than-allowed"
						}
					default:
						from, class = -1-s.Int(2), "negative-start"
					}
				}
				in := append(engine.Frs(vals), engine.Fr(from), engine.Fr(end))
				d := fmt.Sprintf("[%d:%d] of %x", from, end, vals)
				if class != "in-range" {
					return Case{In: in, Class: class, Desc: d, Judge: reject("a range outside the array was accepted: " + class)}
				}
				want := vals[from:end]
				return Case{In: in, Accept: true, Class: class, Desc: d, Judge: func(out []fr.Element) error {
					if len(out) != c.max+1 {
						return fmt.Errorf("%d values", len(out))
					}
					n := engine.Fr(end - from)
					if !out[c.max].Equal(&n) {
						return fmt.Errorf("sub-array length is %s, range has %d", out[c.max].String(), end-from)
					}
					return eqOut("sub-array", out[:end-from], want)
				}}
			},
		})
	}
	// comparison of prefixes
	for _, n := range []int{1, 2, 7, 64} {
		n := n
		sc = append(sc, &Scenario{
			Name: fmt.Sprintf("arrayequal/%d", n), NIn: 2*n + 1, Cases: 60, Attacks: 60, Repairs: 4,
			Define: func(api API, in []V) []V {
				return []V{rlp.ArrayEqual(api, in[:n], in[n:2*n], n, in[2*n])}
			},
			Gen: func(s *Src) Case {
				a := elems(s, n)
				b := append([]*big.Int{}, a...)
				l := s.Range(0, n)
				for k := s.Int(3); k > 0; k-- {
					i := s.Int(n)
					b[i] = s.Elem()
				}
				if s.Chance(1, 6) && n > 1 { // a permutation has as many equal-valued entries
					i := s.Int(n - 1)
					b[i], b[i+1] = b[i+1], b[i]
				}
				if s.Chance(1, 5) {
					l = n
				}
				class, lv := "in-range", bi(int64(l))
				if s.Chance(1, 8) {
					class, lv = "length-out-of-range", []*big.Int{bi(int64(n + 1)), new(big.Int).Sub(engine.Field, bi(1)), bi(255)}[s.Int(3)]
				}
				eq := 1
				for i := 0; i < l; i++ {
					if a[i].Cmp(b[i]) != 0 {
						eq = 0
					}
				}
				in := append(append(engine.Frs(a), engine.Frs(b)...), engine.Fr(lv))
				d := fmt.Sprintf("a=%x b=%x length=%d", a, b, lv)
				if class != "in-range" {
					return Case{In: in, Class: class, Desc: d, Judge: reject("a comparison length beyond the arrays was accepted")}
				}
				if eq == 0 {
					class = "different"
				}
				return Case{In: in, Accept: true, Class: class, Desc: d, Judge: func(out []fr.Element) error { return eqOut("comparison", out, []*big.Int{bi(int64(eq))}) }}
			},
		})
	}
	// scalar comparison
	sc = append(sc, &Scenario{
		Name: "compare", NIn: 2, Cases: 200, Attacks: 80, Repairs: 4,
		Define: func(api API, in []V) []V {
			return []V{rlp.Equal(api, in[0], in[1]), rlp.LessThan(api, in[0], in[1])}
		},
		Gen: func(s *Src) Case {
			a, b := s.Elem(), s.Elem()
			switch s.Int(4) {
			case 0:
				b = a
			case 1:
				b = new(big.Int).Add(a, bi(1))
				b.Mod(b, engine.Field)
			case 2:
				a, b = bi(int64(s.Int(300))), bi(int64(s.Int(300)))
			}
			w := []*big.Int{bi(0), bi(0)}
			if a.Cmp(b) == 0 {
				w[0] = bi(1)
			}
			if a.Cmp(b) < 0 {
				w[1] = bi(1)
			}
			return Case{In: engine.Frs([]*big.Int{a, b}), Accept: true, Class: "pair", Desc: fmt.Sprintf("%x %x", a, b), Judge: func(out []fr.Element) error { return eqOut("comparison", out, w) }}
		},
	})
	for _, lim := range []int{1, 8, 12, 63, 128, 65536} {
		lim := lim
		sc = append(sc, &Scenario{
			Name: fmt.Sprintf("below/%d", lim), NIn: 1, Cases: 60, Attacks: 60, Repairs: 4,
			Define: func(api API, in []V) []V { return []V{rlp.LessThan(api, in[0], lim)} },
			Gen: func(s *Src) Case {
				a := []*big.Int{bi(int64(lim)), bi(int64(lim - 1)), bi(int64(lim + 1)), bi(0), bi(int64(s.Int(2*lim + 2))), s.Elem()}[s.Int(6)]
				w := bi(0)
				if a.Cmp(bi(int64(lim))) < 0 {
					w = bi(1)
				}
				return Case{In: engine.Frs([]*big.Int{a}), Accept: true, Class: "value", Desc: a.String(), Judge: func(out []fr.Element) error { return eqOut("comparison", out, []*big.Int{w}) }}
			},
		})
	}
	return sc
}

func bitLen(n int) int { return big.NewInt(int64(n)).BitLen() }

func packScenarios(tier string) []*Scenario {
	var sc []*Scenario
	// bits into digits
	type cv struct {
		name string
		n    int
		f    func(api API, b []V) []V
		ref  func(b []byte) []*big.Int
	}
	digits := func(b []byte, w int, rev bool) []*big.Int {
		var r []*big.Int
		for i := 0; i < len(b); i += w {
			v := 0
			for k := 0; k < w; k++ {
				p := k
				if rev {
					p = w - 1 - k
				}
				v |= int(b[i+k]) << uint(p)
			}
			r = append(r, bi(int64(v)))
		}
		return r
	}
	flip := func(r []*big.Int) []*big.Int {
		q := make([]*big.Int, len(r))
		for i := range r {
			q[len(r)-1-i] = r[i]
		}
		return q
	}
	le := func(b []byte) *big.Int {
		v := new(big.Int)
		for i := range b {
			if b[i] == 1 {
				v.SetBit(v, i, 1)
			}
		}
		return v
	}
	var cvs []cv
	for _, n := range []int{8, 64, 256, 16} {
		cvs = append(cvs,
			cv{"bytesBE", n, conv.Bits2Bytes2, func(b []byte) []*big.Int { return digits(b, 8, true) }},
			cv{"bytesLE", n, conv.Bits2Bytes, func(b []byte) []*big.Int { return digits(b, 8, false) }},
			cv{"bytesLEreversed", n, conv.Bits2BytesArray, func(b []byte) []*big.Int { return flip(digits(b, 8, false)) }},
			cv{"nibblesLE", n, conv.Bits2Nibbles, func(b []byte) []*big.Int { return digits(b, 4, false) }})
	}
	cvs = append(cvs, cv{"uint128s", 256, func(api API, b []V) []V {
		var a [256]V
		copy(a[:], b)
		r := conv.Bits2Uint128s(api, a)
		return r[:]
	}, func(b []byte) []*big.Int {
		by := digits(b, 8, false)
		r := []*big.Int{new(big.Int), new(big.Int)}
		for i := 0; i < 32; i++ {
			r[i/16].Lsh(r[i/16], 8).Or(r[i/16], by[i])
		}
		return r
	}})
	for _, n := range []int{1, 253, 254, 256, 506, 507, 600} {
		cvs = append(cvs, cv{"field", n, cutils.PackBitsToFr, func(b []byte) []*big.Int {
			var r []*big.Int
			for i := 0; i < len(b); i += 253 {
				e := i + 253
				if e > len(b) {
					e = len(b)
				}
				r = append(r, le(b[i:e]))
			}
			return r
		}})
	}
	for _, c := range cvs {
		c := c
		sc = append(sc, &Scenario{
			Name: fmt.Sprintf("pack-%s/%d", c.name, c.n), NIn: c.n, Cases: 60, Attacks: 30, Repairs: 4,
			Define: func(api API, in []V) []V { return c.f(api, in) },
			Gen: func(s *Src) Case {
				b := bitsLE(s.Bytes(c.n/8 + 1))[:c.n]
				if s.Chance(1, 8) { // single bit patterns tell positions apart
					for i := range b {
						b[i] = 0
					}
					b[s.Int(c.n)] = 1
				}
				in := engine.Frs(b)
				if s.Chance(1, 6) {
					in[s.Int(c.n)] = engine.Fr([]*big.Int{bi(2), bi(-1), bi(3), s.Elem()}[s.Int(4)])
					for i := range in {
						if !in[i].IsZero() && !in[i].IsOne() {
							return Case{In: in, Class: "not-a-bit", Desc: fmt.Sprint(b), Judge: reject("a value that is no bit was packed")}
						}
					}
				}
				w := c.ref(bitsOf(in))
				return Case{In: in, Accept: true, Class: "bits", Desc: fmt.Sprint(b), Judge: func(out []fr.Element) error { return eqOut("packing", out, w) }}
			},
		})
	}
	// values into bits
	for _, n := range []int{8, 16, 64, 128, 248, 256} {
		n := n
		if n > 248 {
			continue
		}
		sc = append(sc, &Scenario{
			Name: fmt.Sprintf("unpack-keccak/%d", n), NIn: 1, Cases: 60, Attacks: 80, Repairs: 4,
			Define: func(api API, in []V) []V { return gutils.FlipKeccakFvBits(api, in[0], n) },
			Gen: func(s *Src) Case {
				v := s.BitsInt(n)
				if s.Chance(1, 6) {
					v.Add(v, new(big.Int).Lsh(bi(int64(1+s.Int(3))), uint(n)))
					return Case{In: engine.Frs([]*big.Int{v}), Class: "too-wide", Desc: fmt.Sprintf("%x", v), Judge: reject("a value wider than the bits was unpacked")}
				}
				w := bytesBig(bitsLE(v.FillBytes(make([]byte, n/8))))
				return Case{In: engine.Frs([]*big.Int{v}), Accept: true, Class: "value", Desc: fmt.Sprintf("%x", v), Judge: func(out []fr.Element) error { return eqOut("bits", out, w) }}
			},
		})
	}
	for _, n := range []int{248, 128, 253, 254, 8} {
		n := n
		m := 256 - n
		sc = append(sc, &Scenario{
			Name: fmt.Sprintf("unpack-bytes32/%d", n), NIn: 2, Cases: 60, Attacks: 100, Repairs: 4,
			Define: func(api API, in []V) []V {
				return cutils.Byte32ToBits(api, cutils.Bytes32{Val: [2]V{in[0], in[1]}}, n)
			},
			Gen: func(s *Src) Case {
				a, b := s.BitsInt(n), s.BitsInt(m)
				a.Mod(a, engine.Field)
				b.Mod(b, engine.Field)
				if s.Chance(1, 6) {
					if s.Bool() && n < 253 {
						a.Add(a, new(big.Int).Lsh(bi(1), uint(n)))
					} else if m < 253 {
						b.Add(b, new(big.Int).Lsh(bi(1), uint(m)))
					}
				}
				d := fmt.Sprintf("%x %x", a, b)
				in := engine.Frs([]*big.Int{a, b})
				if a.BitLen() > n || b.BitLen() > m {
					return Case{In: in, Class: "too-wide", Desc: d, Judge: reject("a value wider than its bits was unpacked")}
				}
				var w []*big.Int
				for i := 0; i < n; i++ {
					w = append(w, bi(int64(a.Bit(i))))
				}
				for i := 0; i < m; i++ {
					w = append(w, bi(int64(b.Bit(i))))
				}
				return Case{In: in, Accept: true, Class: "value", Desc: d, Judge: func(out []fr.Element) error { return eqOut("bits", out, w) }}
			},
		})
	}
	return sc
}

func bitsOf(in []fr.Element) []byte {
	r := make([]byte, len(in))
	for i := range in {
		if in[i].IsOne() {
			r[i] = 1
		}
	}
	return r
}
