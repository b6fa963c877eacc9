package circ

import (
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"math/big"
	"math/bits"
	"strings"

	"github.com/brevis-network/zk-utils/circuits/gadgets/keccak"
	"github.com/brevis-network/zk-utils/circuits/gadgets/keccak/keccakf"
	gsha256 "github.com/brevis-network/zk-utils/circuits/gadgets/sha256"
	gsha512 "github.com/brevis-network/zk-utils/circuits/gadgets/sha512"
	ccirc "github.com/brevis-network/zk-utils/common/circuits"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"golang.org/x/crypto/sha3"
	"zksim/engine"
)

func init() {
	registry["C09"] = keccakScenarios
	registry["C10"] = sha256Scenarios
	registry["C11"] = sha512Scenarios
}

func keccak256(b ...[]byte) []byte {
	h := sha3.NewLegacyKeccak256()
	for _, x := range b {
		h.Write(x)
	}
	return h.Sum(nil)
}

// keccakF is an independent Keccak-f[1600].
func keccakF(a *[25]uint64) {
	var lfsr uint16 = 1
	for round := 0; round < 24; round++ {
		var c [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
		}
		for x := 0; x < 5; x++ {
			d := c[(x+4)%5] ^ bits.RotateLeft64(c[(x+1)%5], 1)
			for y := 0; y < 5; y++ {
				a[x+5*y] ^= d
			}
		}
		x, y := 1, 0
		cur := a[1]
		for t := 0; t < 24; t++ {
			nx, ny := y, (2*x+3*y)%5
			cur, a[nx+5*ny] = a[nx+5*ny], bits.RotateLeft64(cur, (t+1)*(t+2)/2%64)
			x, y = nx, ny
		}
		for y := 0; y < 5; y++ {
			var r [5]uint64
			copy(r[:], a[5*y:5*y+5])
			for x := 0; x < 5; x++ {
				a[x+5*y] = r[x] ^ (^r[(x+1)%5] & r[(x+2)%5])
			}
		}
		for j := 0; j <= 6; j++ {
			if lfsr&1 == 1 {
				a[0] ^= 1 << (1<<uint(j) - 1)
			}
			lfsr <<= 1
			if lfsr&0x100 != 0 {
				lfsr ^= 0x171
			}
		}
	}
}

// sponge absorbs n blocks of 17 lanes and squeezes 4 lanes.
func sponge(lanes []uint64, n int) []uint64 {
	var a [25]uint64
	for b := 0; b < n; b++ {
		for i := 0; i < 17; i++ {
			a[i] ^= lanes[b*17+i]
		}
		keccakF(&a)
	}
	return a[:4]
}

// padRef is the reference Keccak padding.
func padRef(m []byte) []byte {
	p := append([]byte{}, m...)
	n := (len(m)/136 + 1) * 136
	p = append(p, make([]byte, n-len(m))...)
	p[len(m)] ^= 1
	p[n-1] ^= 0x80
	return p
}

func lanesOf(b []byte) []uint64 {
	r := make([]uint64, len(b)/8)
	for i := range b {
		r[i/8] |= uint64(b[i]) << (8 * uint(i%8))
	}
	return r
}

func bytesOfLanes(l []uint64) []byte {
	r := make([]byte, len(l)*8)
	for i := range r {
		r[i] = byte(l[i/8] >> (8 * uint(i%8)))
	}
	return r
}

// msgLen draws a byte length in [lo,hi] with weight on block boundaries.
func msgLen(s *Src, lo, hi int) int {
	if s.Chance(1, 2) {
		b := s.Range(lo/136, hi/136+1) * 136
		l := b + s.Range(-3, 2)
		if l >= lo && l <= hi {
			return l
		}
	}
	if s.Chance(1, 4) {
		return []int{lo, hi}[s.Int(2)]
	}
	return s.Range(lo, hi)
}

func u64sBig(l []uint64) []*big.Int {
	r := make([]*big.Int, len(l))
	for i := range l {
		r[i] = new(big.Int).SetUint64(l[i])
	}
	return r
}

func keccakScenarios(tier string) []*Scenario {
	var sc []*Scenario
	// in-circuit padding
	type pcfg struct{ bits, min, max int }
	for _, c := range []pcfg{{8, 0, 4}, {8, 130, 140}, {8, 0, 135}, {8, 134, 136}, {8, 268, 275}, {4, 0, 20}, {4, 260, 290}, {4, 262, 270}, {4, 1200, 1200}, {4, 1070, 1100}, {1, 1072, 1096}, {1, 0, 64}, {2, 540, 548}} {
		c := c
		per := 8 / c.bits
		outLen := (c.max*c.bits/1088 + 1) * 1088
		sc = append(sc, &Scenario{
			Name: fmt.Sprintf("pad/%d/%d-%d", c.bits, c.min, c.max), NIn: c.max + 1, Cases: 40, Attacks: 60, Repairs: 4,
			Define: func(api API, in []V) []V {
				return keccak.Pad101Bits(api, c.bits, c.min, c.max, in[:c.max], in[c.max])
			},
			Gen: func(s *Src) Case {
				n := msgLen(s, (c.min+per-1)/per, c.max/per)
				msg := s.Plain(n)
				class := fmt.Sprintf("len-mod-136=%s", modClass(n))
				in := make([]fr.Element, c.max+1)
				fill := func(b []byte, at int) {
					for i, x := range b {
						for k := 0; k < per; k++ {
							in[at+i*per+k].SetUint64(uint64(x>>(8-uint(c.bits*(k+1)))) & (1<<uint(c.bits) - 1))
						}
					}
				}
				fill(msg, 0)
				fill(s.Bytes(c.max/per-n), n*per) // unused tail: anything the prover likes
				units := n * per
				in[c.max].SetUint64(uint64(units))
				cs := Case{In: in, Accept: true, Class: class, Desc: fmt.Sprintf("message of %d bytes %s", n, hexs(msg))}
				switch s.Int(8) {
				case 1:
					k := s.Int(c.max)
					in[k] = engine.Fr(1 << uint(c.bits+s.Int(8)))
					cs.Accept, cs.Class, cs.Judge = false, "digit-out-of-range", reject("a digit wider than its declared size was accepted")
					return cs
				case 2:
					bad := []int{c.max + per, c.max + 1 + s.Int(9), -1 - s.Int(3), c.min - per}[s.Int(4)]
					if bad >= c.min && bad <= c.max {
						break
					}
					in[c.max] = engine.Fr(bad)
					cs.Accept, cs.Class, cs.Judge = false, "length-out-of-range", reject(fmt.Sprintf("a length of %d digits outside [%d,%d] was accepted", bad, c.min, c.max))
					return cs
				}
				want := bitsLE(padRef(msg))
				for len(want) < outLen {
					want = append(want, 0)
				}
				w := bytesBig(want)
				cs.Judge = func(out []fr.Element) error {
					// extra all-zero blocks after the padded message carry no meaning
					if len(out) > len(w) && len(out)%1088 == 0 {
						for i := len(w); i < len(out); i++ {
							if !out[i].IsZero() {
								return fmt.Errorf("padding: a bit after the padded message is set")
							}
						}
						out = out[:len(w)]
					}
					return eqOut("padding", out, w)
				}
				return cs
			},
		})
	}
	// padding at circuit-building time
	for _, n := range []int{0, 1, 32, 64, 134, 135, 136, 200, 271, 272} {
		n := n
		mr := n/136 + 1 + n%2
		sc = append(sc, &Scenario{
			Name: fmt.Sprintf("padfixed/%d/%d", n, mr), NIn: n*8 + 1, Cases: 10, Attacks: 10, Repairs: 2,
			Define: func(api API, in []V) []V { return keccak.PadBits101(api, in[:n*8], mr) },
			Gen: func(s *Src) Case {
				msg := s.Plain(n)
				want := bitsLE(padRef(msg))
				for len(want) < mr*1088 {
					want = append(want, 0)
				}
				w := bytesBig(want)
				return Case{In: append(engine.Frs(bitsLE(msg)), fr.Element{}), Accept: true, Class: "len-mod-136=" + modClass(n), Desc: fmt.Sprintf("message of %d bytes %s", n, hexs(msg)),
					Judge: func(out []fr.Element) error { return eqOut("padding", out, w) }}
			},
		})
	}
	// bit-oriented hash
	for _, c := range []struct{ min, max int }{{0, 1}, {0, 2}, {2, 3}, {1, 4}} {
		c := c
		name := fmt.Sprintf("bits/%d", c.max)
		if c.min > 0 {
			name = fmt.Sprintf("bitsopt/%d-%d", c.min, c.max)
		}
		sc = append(sc, &Scenario{
			Name: name, NIn: c.max*1088 + 1, Cases: 14, Attacks: 16, Repairs: 3, ThoroughCases: 10,
			Define: func(api API, in []V) []V {
				var o [256]V
				if c.min > 0 {
					o = keccak.Keccak256BitsOptimized(api, c.min, c.max, in[c.max*1088], in[:c.max*1088])
				} else {
					o = keccak.Keccak256Bits(api, c.max, in[c.max*1088], in[:c.max*1088])
				}
				return o[:]
			},
			Gen: func(s *Src) Case { return keccakCase(s, c.min, c.max, true) },
		})
	}
	// lane-oriented hash
	for _, k := range []string{"lanes", "lanesNormalTx", "lanesMaxTx"} {
		k := k
		max := 10
		if k != "lanes" {
			max = 13
		}
		sc = append(sc, &Scenario{
			Name: k, NIn: max*17 + 1, Cases: 24, Attacks: 10, Repairs: 3, ThoroughCases: 6,
			Define: func(api API, in []V) []V {
				switch k {
				case "lanes":
					var b [10][17]V
					for i := 0; i < 170; i++ {
						b[i/17][i%17] = in[i]
					}
					o := keccak.Keccak256(api, b, in[170])
					return o[:]
				case "lanesNormalTx":
					var b [13][17]V
					for i := 0; i < 221; i++ {
						b[i/17][i%17] = in[i]
					}
					o := keccak.Keccak256ForNormalTransaction(api, b, in[221])
					return o[:]
				default:
					var b [13][17]V
					for i := 0; i < 221; i++ {
						b[i/17][i%17] = in[i]
					}
					o := keccak.Keccak256ForMaxTransaction(api, b, in[221])
					return o[:]
				}
			},
			Gen: func(s *Src) Case { return keccakCase(s, 0, max, false) },
		})
	}
	// nibble → lane packing
	for _, c := range []struct {
		k     string
		n, rd int
	}{{"hex", 272, 1}, {"hex", 272, 3}, {"hex", 544, 2}, {"hex", 16, 1}, {"hex", 288, 2}, {"std", 544, 10}, {"std", 2720, 10}, {"std", 32, 10}, {"norm", 1088, 13}, {"norm", 3536, 13}, {"max", 816, 13}, {"max", 3536, 13}} {
		c := c
		sc = append(sc, &Scenario{
			Name: fmt.Sprintf("nibbles-%s/%d/%d", c.k, c.n, c.rd), NIn: c.n, Cases: 12, Attacks: 40, Repairs: 3,
			Define: func(api API, in []V) []V {
				var r []V
				switch c.k {
				case "hex":
					for _, b := range keccak.RecomposeHexToKeccakU64s(api, in, c.rd) {
						r = append(r, b[:]...)
					}
				case "std":
					for _, b := range keccak.NibblesToU64Array(api, in) {
						r = append(r, b[:]...)
					}
				case "norm":
					for _, b := range keccak.NibblesToU64ArrayForNormalTransactionLeafValue(api, in) {
						r = append(r, b[:]...)
					}
				default:
					for _, b := range keccak.NibblesToU64ArrayForMaxTransactionLeafValue(api, in) {
						r = append(r, b[:]...)
					}
				}
				return r
			},
			Gen: func(s *Src) Case {
				b := s.Bytes(c.n / 2)
				l := lanesOf(b)
				for len(l) < c.rd*17 {
					l = append(l, 0)
				}
				w := u64sBig(l)
				in := engine.Frs(nibbles(b))
				if s.Chance(1, 6) {
					in[s.Int(len(in))] = engine.Fr(16 + s.Int(200))
					return Case{In: in, Class: "nibble-out-of-range", Judge: reject("a nibble above 15 was accepted"), Desc: hexs(b)}
				}
				return Case{In: in, Accept: true, Class: "nibbles", Desc: hexs(b), Judge: func(out []fr.Element) error { return eqOut("lanes", out, w) }}
			},
		})
	}
	// the bare permutation over free states
	sc = append(sc, &Scenario{
		Name: "permutation", NIn: 1600, Cases: 16, Attacks: 12, Repairs: 3,
		Define: func(api API, in []V) []V {
			var a [1600]V
			copy(a[:], in)
			r := keccakf.Permute(api, a)
			return r[:]
		},
		Gen: func(s *Src) Case {
			b := s.Bytes(200)
			var a [25]uint64
			copy(a[:], lanesOf(b))
			keccakF(&a)
			w := bytesBig(bitsLE(bytesOfLanes(a[:])))
			return Case{In: engine.Frs(bitsLE(b)), Accept: true, Class: "state", Desc: hexs(b), Judge: func(out []fr.Element) error { return eqOut("keccak-f", out, w) }}
		},
	})
	return sc
}

func modClass(n int) string {
	switch n % 136 {
	case 0, 1, 134, 135:
		return fmt.Sprint(n % 136)
	}
	return "other"
}

// keccakCase: either a message padded by the repository's host helpers and hashed with the block
// index they report, or raw blocks with any block index.
func keccakCase(s *Src, min, max int, asBits bool) Case {
	lo := min
	if lo == 0 {
		lo = 1
	}
	enc := func(b []byte) []fr.Element {
		if asBits {
			return engine.Frs(bitsLE(b))
		}
		l := lanesOf(b)
		r := make([]fr.Element, len(l))
		for i := range l {
			r[i].SetUint64(l[i])
		}
		return r
	}
	outOf := func(d []byte) []*big.Int {
		if asBits {
			return bytesBig(bitsLE(d))
		}
		return u64sBig(lanesOf(d))
	}
	kind := s.Int(8)
	if kind < 5 {
		n := msgLen(s, (lo-1)*136, max*136-1)
		msg := s.Bytes(n)
		var padded []byte
		own := s.Int(2)
		ub := append([]byte{}, msg...) // exact capacity: the helper may append in place
		if own == 0 {
			padded = keccak.Pad101Bytes(ub[:len(ub):len(ub)])
		} else {
			padded = ccirc.Pad101Bytes(ub[:len(ub):len(ub)])
		}
		idx := keccak.GetKeccakRoundForPaddedBytes(padded)
		if s.Bool() {
			idx = keccak.GetRoundIndex(n * 8)
		}
		var in []fr.Element
		if asBits {
			var bt []uint8
			if own == 0 {
				bt = keccak.Bytes2BlockBits(padded)
			} else {
				bt = ccirc.Bytes2BlockBits(padded)
			}
			in = engine.Frs(bt)
		} else if own == 0 {
			in = frU64(keccak.Pad101(msg))
		} else {
			in = frU64(ccirc.Pad101(msg))
		}
		size := max * 1088
		if !asBits {
			size = max * 17
		}
		for len(in) < size {
			in = append(in, fr.Element{})
		}
		if len(in) > size {
			in = in[:size]
		}
		in = append(in, engine.Fr(idx))
		w := outOf(keccak256(msg))
		return Case{In: in, Accept: true, Class: "message/len-mod-136=" + modClass(n), Desc: fmt.Sprintf("message of %d bytes %s", n, hexs(msg)),
			Judge: func(out []fr.Element) error { return eqOut("digest", out, w) }}
	}
	raw := s.Bytes(max * 136)
	if kind == 5 && max > 1 {
		bad := []int{max, max + 1, -1, lo - 2, 255}[s.Int(5)]
		if bad < lo-1 || bad >= max {
			return Case{In: append(enc(raw), engine.Fr(bad)), Class: "block-index-out-of-range", Judge: reject("a block index outside the declared range was accepted"), Desc: fmt.Sprintf("index %d, blocks %s", bad, hexs(raw))}
		}
	}
	if kind == 6 && !asBits {
		in := append(enc(raw), engine.Fr(lo-1))
		v := new(big.Int).Lsh(bi(1), 64)
		in[s.Int(max*17)] = engine.Fr(v.Add(v, new(big.Int).SetUint64(s.U64())))
		return Case{In: in, Class: "lane-out-of-range", Judge: reject("a lane wider than 64 bits was accepted"), Desc: hexs(raw)}
	}
	idx := s.Range(lo-1, max-1)
	if max == 1 {
		idx = 0
	}
	w := outOf(bytesOfLanes(sponge(lanesOf(raw), idx+1)))
	return Case{In: append(enc(raw), engine.Fr(idx)), Accept: true, Class: "raw-blocks", Desc: fmt.Sprintf("%d blocks, index %d, %s", max, idx, hexs(raw)),
		Judge: func(out []fr.Element) error { return eqOut("sponge", out, w) }}
}

func frU64(l []uint64) []fr.Element {
	r := make([]fr.Element, len(l))
	for i := range l {
		r[i].SetUint64(l[i])
	}
	return r
}

// shaPlan is a schedule of writes and sums on one running hash.
type shaPlan struct {
	name string
	ops  []int // n>=0: write n bytes; -1: take a digest; -2: reset; -3: write constants
}

func shaPlans(block int, tier string) []shaPlan {
	var r []shaPlan
	add := func(ops ...int) {
		var p []string
		for _, o := range ops {
			switch o {
			case -1:
				p = append(p, "sum")
			case -2:
				p = append(p, "reset")
			default:
				p = append(p, fmt.Sprint(o))
			}
		}
		r = append(r, shaPlan{strings.Join(p, "+"), ops})
	}
	b := block
	lb := b / 8 // bytes of the length field
	for _, n := range []int{0, 1, 3, b - lb - 2, b - lb - 1, b - lb, b - 1, b, b + 1, 2*b - lb - 1, 2*b - lb, 2 * b} {
		add(n, -1)
	}
	add(1, b-1, -1)
	add(b-1, 1, -1)
	add(b-1, 2, -1)
	add(b/2, b/2, 5, -1)
	add(10, b+10, -1)
	add(10, 2*b, -1)
	add(1, 0, 1, 0, -1)
	add(b, b-lb, -1)
	add(7, 9, 11, b-27, 3, -1)
	add(5, -1, 6, -1)
	add(b-lb-1, -1, 1, -1, lb, -1)
	add(-1, 3, -1)
	add(b/2+1, -1, -2, 4, -1)
	add(-2, b+3, -1)
	// seeded plans, the same on every run
	rng := engine.NewRNG(0x5A5A, uint64(block))
	n := 6
	if tier == "thorough" {
		n = 40
	}
	for i := 0; i < n; i++ {
		var ops []int
		total := 0
		for len(ops) < 2+rng.Intn(5) && total < 2*b {
			switch rng.Intn(6) {
			case 0:
				ops = append(ops, -1)
			case 1:
				d := b - total%b
				ops = append(ops, d)
				total += d
			default:
				d := rng.Intn(b)
				ops = append(ops, d)
				total += d
			}
		}
		add(append(ops, -1)...)
	}
	return r
}

func shaScenarios(tier string, block int, mk func(api API) (write func([]V), sum func() []V, reset func()), ref func([]byte) []byte) []*Scenario {
	var sc []*Scenario
	seen := map[string]bool{}
	for _, p := range shaPlans(block, tier) {
		p := p
		if seen[p.name] {
			continue
		}
		seen[p.name] = true
		total := 0
		for _, o := range p.ops {
			if o > 0 {
				total += o
			}
		}
		sc = append(sc, &Scenario{
			Name: p.name, NIn: total + 1, Cases: 10, Attacks: 30, Repairs: 3, ThoroughCases: 5,
			Define: func(api API, in []V) []V {
				write, sum, reset := mk(api)
				var out []V
				pos := 0
				for _, o := range p.ops {
					switch {
					case o == -1:
						out = append(out, sum()...)
					case o == -2:
						reset()
					default:
						write(in[pos : pos+o])
						pos += o
					}
				}
				return out
			},
			Gen: func(s *Src) Case {
				msg := s.Bytes(total)
				var want []byte
				pos, from := 0, 0
				for _, o := range p.ops {
					switch {
					case o == -1:
						want = append(want, ref(msg[from:pos])...)
					case o == -2:
						from = pos
					default:
						pos += o
					}
				}
				in := append(engine.Frs(msg), fr.Element{})
				if total > 0 && s.Chance(1, 8) {
					in[s.Int(total)] = engine.Fr([]int{256, 257, 65535, -1}[s.Int(4)])
					return Case{In: in, Class: "not-a-byte", Judge: reject("a value that is no byte was hashed"), Desc: hexs(msg)}
				}
				w := bytesBig(want)
				return Case{In: in, Accept: true, Class: "message", Desc: "writes " + p.name + " of " + hexs(msg), Judge: func(out []fr.Element) error { return eqOut("digest", out, w) }}
			},
		})
	}
	return sc
}

func sha256Scenarios(tier string) []*Scenario {
	return shaScenarios(tier, 64, func(api API) (func([]V), func() []V, func()) {
		d := gsha256.New(api)
		return func(p []V) { d.Write(p) }, func() []V { return d.Sum() }, func() { d.Reset() }
	}, func(m []byte) []byte { h := sha256.Sum256(m); return h[:] })
}

func sha512Scenarios(tier string) []*Scenario {
	return shaScenarios(tier, 128, func(api API) (func([]V), func() []V, func()) {
		d := gsha512.New(api)
		return func(p []V) { d.Write(p) }, func() []V { return d.Sum() }, func() { d.Reset() }
	}, func(m []byte) []byte { h := sha512.Sum512(m); return h[:] })
}
