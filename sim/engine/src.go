package engine

import (
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

// RNG is a splitmix64 stream: one seed is one exactly repeatable sequence.
type RNG struct{ s uint64 }

func NewRNG(parts ...uint64) *RNG {
	r := &RNG{s: 0x9E3779B97F4A7C15}
	for _, p := range parts {
		r.s ^= p
		r.Next()
		r.s = r.s*0xD1342543DE82EF95 + 0x2545F4914F6CDD1D
	}
	return r
}

func (r *RNG) Next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *RNG) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

func (r *RNG) Chance(num, den int) bool { return r.Intn(den) < num }

func (r *RNG) Elem() (x fr.Element) {
	var b [48]byte
	for i := 0; i < 48; i += 8 {
		v := r.Next()
		for k := 0; k < 8; k++ {
			b[i+k] = byte(v >> (8 * k))
		}
	}
	x.SetBytes(b[:])
	return
}

// HashStr folds a string into a seed part.
func HashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// Src is the recorded stream of choices a case is generated from. Replaying the recorded values
// reproduces the case; shrinking them shrinks the case.
type Src struct {
	rng *RNG
	rec []uint64
	pos int
	fix bool
}

func NewSrc(r *RNG) *Src          { return &Src{rng: r} }
func ReplaySrc(rec []uint64) *Src { return &Src{rec: rec, fix: true} }
func (s *Src) Record() []uint64   { return s.rec }
func (s *Src) draw(n uint64) uint64 {
	if s.fix {
		var v uint64
		if s.pos < len(s.rec) {
			v = s.rec[s.pos]
		}
		s.pos++
		if n != 0 {
			v %= n
		}
		return v
	}
	v := s.rng.Next()
	if n != 0 {
		v %= n
	}
	s.rec = append(s.rec, v)
	return v
}

// Int draws from [0,n).
func (s *Src) Int(n int) int {
	if n <= 1 {
		return 0
	}
	return int(s.draw(uint64(n)))
}

// Range draws from [lo,hi].
func (s *Src) Range(lo, hi int) int { return lo + s.Int(hi-lo+1) }
func (s *Src) U64() uint64          { return s.draw(0) }
func (s *Src) Bool() bool           { return s.Int(2) == 1 }
func (s *Src) Chance(a, b int) bool { return s.Int(b) >= b-a }

// Bytes draws n bytes, sometimes from a degenerate distribution.
func (s *Src) Bytes(n int) []byte {
	b := make([]byte, n)
	mode := s.Int(8)
	for i := 0; i < n; i += 8 {
		v := s.U64()
		for k := 0; k < 8 && i+k < n; k++ {
			b[i+k] = byte(v >> (8 * k))
		}
	}
	switch mode {
	case 5:
		for i := range b {
			b[i] = 0
		}
	case 6:
		for i := range b {
			b[i] = 0xff
		}
	case 7:
		for i := range b {
			if b[i]&1 == 0 {
				b[i] = 0
			} else if b[i]&2 == 0 {
				b[i] = 0x80
			}
		}
	}
	return b
}

// Plain draws n uniformly random bytes.
func (s *Src) Plain(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		v := s.U64()
		for k := 0; k < 8 && i+k < n; k++ {
			b[i+k] = byte(v >> (8 * k))
		}
	}
	return b
}

// Elem draws a field element, favouring edges.
func (s *Src) Elem() *big.Int {
	switch s.Int(8) {
	case 0:
		return big.NewInt(int64(s.Int(4)))
	case 1:
		return new(big.Int).Sub(Field, big.NewInt(int64(1+s.Int(4))))
	case 2:
		x := new(big.Int).Lsh(big.NewInt(1), uint(s.Int(254)))
		x.Sub(x, big.NewInt(int64(s.Int(2))))
		return x.Mod(x, Field)
	}
	return new(big.Int).Mod(new(big.Int).SetBytes(s.Plain(40)), Field)
}

// BitsInt draws an integer below 2^bits, favouring edges.
func (s *Src) BitsInt(bits int) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	switch s.Int(8) {
	case 0:
		return big.NewInt(0)
	case 1:
		return m.Sub(m, big.NewInt(1))
	case 2:
		return new(big.Int).Lsh(big.NewInt(1), uint(s.Int(bits)))
	}
	return new(big.Int).Mod(new(big.Int).SetBytes(s.Plain(bits/8+9)), m)
}

// Fr converts integers (of any Go kind used by the generators) to field elements.
func Fr(v interface{}) (x fr.Element) {
	switch t := v.(type) {
	case *big.Int:
		x.SetBigInt(t)
	case int:
		x.SetInt64(int64(t))
	case uint64:
		x.SetUint64(t)
	case byte:
		x.SetUint64(uint64(t))
	case fr.Element:
		x = t
	default:
		panic("Fr: unsupported kind")
	}
	return
}

// Frs converts a slice.
func Frs[T any](v []T) []fr.Element {
	r := make([]fr.Element, len(v))
	for i := range v {
		r[i] = Fr(any(v[i]))
	}
	return r
}
