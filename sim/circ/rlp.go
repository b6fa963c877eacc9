package circ

import (
	"fmt"
	"math/big"

	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"zksim/engine"
)

func init() {
	registry["C06"] = rlpScenarios
	assumptions["C06"] = []string{
		"inputs are nibbles that contain the whole list the prefix announces (inside the repository they are bound to a keccak preimage)",
		"non-canonical length prefixes may be accepted or rejected; an accepted list must decode exactly as RLP says",
	}
}

// rlpItem is one item of a list under construction: prefix and payload (for nested lists the payload is the concatenation of items).
type rlpItem struct {
	pre, val []byte
	list     bool
}

func rlpStr(v []byte) rlpItem {
	if len(v) == 1 && v[0] < 0x80 {
		return rlpItem{val: v}
	}
	return rlpItem{pre: rlpPrefix(0x80, len(v)), val: v}
}

func rlpPrefix(base byte, n int) []byte {
	if n < 56 {
		return []byte{base + byte(n)}
	}
	l := big.NewInt(int64(n)).Bytes()
	return append([]byte{base + 55 + byte(len(l))}, l...)
}

func rlpList(items []rlpItem) rlpItem {
	var b []byte
	for _, i := range items {
		b = append(append(b, i.pre...), i.val...)
	}
	return rlpItem{pre: rlpPrefix(0xc0, len(b)), val: b, list: true}
}

func (i rlpItem) bytes() []byte { return append(append([]byte{}, i.pre...), i.val...) }

// rlpField is what a decoder hands back for one field.
type rlpField struct {
	off, n int // position and length in nibbles
	list   bool
}

// rlpDecode reads the list at the start of a byte string, tolerating non-canonical prefixes, and
// reports an error unless it consists of exactly n items that fill it exactly. nested keeps the
// prefix of items that are lists.
func rlpDecode(b []byte, n int, nested bool) (total int, fs []rlpField, err error) {
	head := func(p int) (start, size int, list bool, err error) {
		if p >= len(b) {
			return 0, 0, false, fmt.Errorf("input ends at %d", p)
		}
		x := int(b[p])
		base := 0x80
		switch {
		case x < 0x80:
			return p, 1, false, nil
		case x >= 0xc0:
			base, list = 0xc0, true
		}
		if x-base < 56 {
			return p + 1, x - base, list, nil
		}
		k := x - base - 55
		if p+1+k > len(b) {
			return 0, 0, false, fmt.Errorf("input ends inside a prefix")
		}
		v := new(big.Int).SetBytes(b[p+1 : p+1+k])
		if v.BitLen() > 24 {
			return 0, 0, false, fmt.Errorf("length %s", v)
		}
		return p + 1 + k, int(v.Int64()), list, nil
	}
	s, size, list, err := head(0)
	if err != nil {
		return 0, nil, err
	}
	if !list {
		return 0, nil, fmt.Errorf("not a list")
	}
	end := s + size
	if end > len(b) {
		return end, nil, fmt.Errorf("list ends at %d, input at %d", end, len(b))
	}
	p := s
	for i := 0; i < n; i++ {
		s, size, list, err := head(p)
		if err != nil {
			return end, nil, err
		}
		if p >= end || s+size > end {
			return end, nil, fmt.Errorf("item %d does not fit in the list", i)
		}
		f := rlpField{off: 2 * s, n: 2 * size, list: list}
		if list && nested {
			f = rlpField{off: 2 * p, n: 2 * (s + size - p), list: true}
		}
		fs = append(fs, f)
		p = s + size
	}
	if p != end {
		return end, nil, fmt.Errorf("items end at %d, list ends at %d", p, end)
	}
	return end, fs, nil
}

// rlpShape is one parameterisation of the checker.
type rlpShape struct {
	name     string
	a        rlp.ArrayCheck
	kind     int  // 0 flat, 1 nested, 2 header
	nums     bool // the number of fields is an input
	minNums  int
	lists    []int // fields that may be lists (nested checker)
	cases    int
	attacks  int
	thorough bool
}

func rlpScenarios(tier string) []*Scenario {
	shapes := []rlpShape{
		{name: "leaf-small", a: rlp.ArrayCheck{MaxHexLen: 40, MaxFields: 2, ArrayPrefixMaxHexLen: 4, FieldMinHexLen: []int{0, 0}, FieldMaxHexLen: []int{12, 16}}, cases: 260},
		{name: "three-fixed-middle", a: rlp.ArrayCheck{MaxHexLen: 48, MaxFields: 3, ArrayPrefixMaxHexLen: 4, FieldMinHexLen: []int{0, 8, 2}, FieldMaxHexLen: []int{10, 8, 14}}, cases: 260},
		{name: "five-mixed", a: rlp.ArrayCheck{MaxHexLen: 60, MaxFields: 5, ArrayPrefixMaxHexLen: 4, FieldMinHexLen: []int{0, 4, 0, 6, 0}, FieldMaxHexLen: []int{2, 12, 6, 6, 20}}, cases: 200},
		{name: "fieldnum-input", a: rlp.ArrayCheck{MaxHexLen: 60, MaxFields: 5, ArrayPrefixMaxHexLen: 4, FieldMinHexLen: []int{0, 0, 0, 0, 0}, FieldMaxHexLen: []int{8, 12, 6, 6, 20}}, nums: true, minNums: 1, cases: 260},
		{name: "long-fields", a: rlp.ArrayCheck{MaxHexLen: 540, MaxFields: 3, ArrayPrefixMaxHexLen: 4, FieldMinHexLen: []int{0, 0, 0}, FieldMaxHexLen: []int{130, 260, 132}}, cases: 60},
		{name: "account", a: rlp.ArrayCheck{MaxHexLen: 228, MaxFields: 4, ArrayPrefixMaxHexLen: 4, FieldMinHexLen: []int{0, 0, 64, 64}, FieldMaxHexLen: []int{64, 24, 64, 64}}, cases: 60},
		{name: "nested-small", kind: 1, a: rlp.ArrayCheck{MaxHexLen: 48, MaxFields: 3, ArrayPrefixMaxHexLen: 4, FieldMinHexLen: []int{0, 0, 0}, FieldMaxHexLen: []int{6, 16, 14}}, lists: []int{1}, cases: 260},
		{name: "nested-five", kind: 1, a: rlp.ArrayCheck{MaxHexLen: 90, MaxFields: 5, ArrayPrefixMaxHexLen: 4, FieldMinHexLen: []int{0, 0, 4, 0, 0}, FieldMaxHexLen: []int{6, 16, 20, 24, 14}}, lists: []int{1, 3}, cases: 160},
		{name: "nested-long-data", kind: 1, a: rlp.ArrayCheck{MaxHexLen: 420, MaxFields: 4, ArrayPrefixMaxHexLen: 6, FieldMinHexLen: []int{0, 0, 0, 0}, FieldMaxHexLen: []int{16, 40, 260, 64}}, lists: []int{2}, cases: 60},
		{name: "header-small", kind: 2, nums: true, minNums: 4, a: rlp.ArrayCheck{MaxHexLen: 100, MaxFields: 6, ArrayPrefixMaxHexLen: 4, FieldMinHexLen: []int{8, 6, 0, 0, 0, 4}, FieldMaxHexLen: []int{8, 6, 8, 20, 12, 20}}, cases: 260},
		{name: "branch", a: rlp.ArrayCheck{MaxHexLen: 1064, MaxFields: 17, ArrayPrefixMaxHexLen: 8,
			FieldMinHexLen: make([]int, 17), FieldMaxHexLen: []int{64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 0}}, cases: 6},
		{name: "header", kind: 2, nums: true, minNums: 15, a: rlp.ArrayCheck{MaxHexLen: 1632, MaxFields: 17, ArrayPrefixMaxHexLen: 4,
			FieldMinHexLen: []int{64, 64, 40, 64, 64, 64, 512, 0, 0, 0, 0, 0, 0, 64, 16, 0, 64},
			FieldMaxHexLen: []int{64, 64, 40, 64, 64, 64, 512, 14, 16, 8, 8, 8, 64, 64, 18, 16, 64}}, cases: 6},
		{name: "signed-tx", kind: 1, a: rlp.ArrayCheck{MaxHexLen: 900, MaxFields: 12, ArrayPrefixMaxHexLen: 6,
			FieldMinHexLen: make([]int, 12), FieldMaxHexLen: []int{16, 16, 16, 16, 8, 40, 64, 400, 120, 2, 64, 64}}, lists: []int{8}, cases: 10},
	}
	var sc []*Scenario
	for _, sh := range shapes {
		sc = append(sc, rlpScenario(sh))
	}
	for k := 0; k < 3; k++ {
		sc = append(sc, rlpPrefixStrip([]int{4, 6, 8}[k]))
	}
	return sc
}

func rlpScenario(sh rlpShape) *Scenario {
	a := sh.a
	nin := a.MaxHexLen
	if sh.nums {
		nin++
	}
	att := 16
	if a.MaxHexLen > 300 {
		att = 4
	}
	sc := &Scenario{Name: sh.name, NIn: nin, Cases: sh.cases, Attacks: att, Repairs: 3,
		Define: func(api API, in []V) []V {
			var out, total V
			var lens []V
			var fields [][]V
			p := a
			switch {
			case sh.kind == 1:
				out, total, lens, fields = p.RlpNestArrayCheck(api, in[:a.MaxHexLen])
			case sh.kind == 2:
				out, total, lens, fields = p.BlkHeaderRlpCheck(api, in[:a.MaxHexLen], in[a.MaxHexLen])
			case sh.nums:
				out, total, lens, fields = p.RlpArrayCheck(api, in[:a.MaxHexLen], in[a.MaxHexLen])
			default:
				out, total, lens, fields = p.RlpArrayCheck(api, in)
			}
			r := append([]V{out, total}, lens...)
			for i := range fields {
				r = append(r, fields[i][:a.FieldMaxHexLen[i]]...)
			}
			return r
		}}
	sc.Gen = func(s *Src) Case { return rlpCase(s, sh) }
	return sc
}

func rlpRandField(s *Src, lo, hi int) rlpItem {
	// lengths in bytes lo..hi
	n := s.Range(lo, hi)
	switch s.Int(5) {
	case 0:
		n = hi
	case 1:
		n = lo
	case 2:
		if lo <= 1 && hi >= 1 {
			n = 1
		}
	}
	v := s.Bytes(n)
	if n == 1 {
		switch s.Int(4) {
		case 0:
			v[0] = byte(s.Int(128))
		case 1:
			v[0] = byte(s.Range(128, 255))
		case 2:
			v[0] = []byte{0, 1, 0x7f, 0x80, 0x0f, 0x10, 0xc0, 0xff}[s.Int(8)]
		}
	}
	return rlpStr(v)
}

func rlpCase(s *Src, sh rlpShape) Case {
	a := sh.a
	n := a.MaxFields
	if sh.nums {
		n = s.Range(sh.minNums, a.MaxFields)
	}
	isList := map[int]bool{}
	for _, l := range sh.lists {
		isList[l] = true
	}
	maxPay := (a.MaxHexLen - 2 - a.ArrayPrefixMaxHexLen) / 2
	var items []rlpItem
	used := 0
	for i := 0; i < n; i++ {
		lo, hi := a.FieldMinHexLen[i]/2, a.FieldMaxHexLen[i]/2
		if isList[i] && s.Chance(2, 3) {
			var sub []rlpItem
			room := hi - 3
			for room > 1 && s.Chance(1, 2) {
				m := room - 1
				if m > 20 {
					m = 20
				}
				x := rlpRandField(s, 0, m)
				room -= len(x.bytes())
				sub = append(sub, x)
			}
			items = append(items, rlpList(sub))
			continue
		}
		items = append(items, rlpRandField(s, lo, hi))
	}
	for _, i := range items {
		used += len(i.bytes())
	}
	for used > maxPay { // shorten the longest field that may be shorter
		k := -1
		for i, it := range items {
			if !it.list && len(it.val) > a.FieldMinHexLen[i]/2 && (k < 0 || len(it.val) > len(items[k].val)) {
				k = i
			}
		}
		if k < 0 {
			break
		}
		d := len(items[k].bytes())
		l := len(items[k].val) - (used - maxPay)
		if l < a.FieldMinHexLen[k]/2 {
			l = a.FieldMinHexLen[k] / 2
		}
		items[k] = rlpStr(items[k].val[:l])
		used += len(items[k].bytes()) - d
	}
	class := "valid"
	valid := true
	full := rlpList(items)
	raw := full.bytes()
	mut := s.Int(14)
	switch mut {
	case 0: // one field more
		items = append(items, rlpRandField(s, 0, 2))
		raw, class, valid = rlpList(items).bytes(), "one-item-more", false
	case 1: // one field less
		if len(items) > 1 {
			k := s.Int(len(items))
			items = append(append([]rlpItem{}, items[:k]...), items[k+1:]...)
			raw, class, valid = rlpList(items).bytes(), "one-item-less", false
		}
	case 2: // length of the list changed
		raw, class, valid = append([]byte{}, raw...), "list-length", false
		k := s.Int(len(full.pre))
		raw[k] += []byte{1, 255, 2, 254, 16}[s.Int(5)]
	case 3: // length of one field changed, everything else as it was
		class, valid = "field-length", false
		off := len(full.pre)
		k := s.Int(len(items))
		for i := 0; i < k; i++ {
			off += len(items[i].bytes())
		}
		raw = append([]byte{}, raw...)
		raw[off] += []byte{1, 255, 2, 254, 8, 248}[s.Int(6)]
	case 4: // one field of another length, list re-encoded
		k := s.Int(len(items))
		items[k] = rlpRandField(s, 0, a.FieldMaxHexLen[k]/2+3)
		raw, class, valid = rlpList(items).bytes(), "other-field-length", false
	case 5: // two neighbours trade bytes: same total
		if n >= 2 {
			k := s.Int(n - 1)
			x := append(append([]byte{}, items[k].val...), items[k+1].val...)
			c := s.Int(len(x) + 1)
			items[k], items[k+1] = rlpStr(x[:c]), rlpStr(x[c:])
			raw, class, valid = rlpList(items).bytes(), "traded-bytes", false
		}
	case 6: // an empty list where a string is expected
		k := s.Int(len(items))
		items[k] = rlpList(nil)
		raw, class, valid = rlpList(items).bytes(), "empty-list", false
	case 7: // nested list where a string is expected
		k := s.Int(len(items))
		x := items[k].val
		if len(x) > 3 {
			x = x[:len(x)-2]
		}
		items[k] = rlpList([]rlpItem{rlpStr(x)})
		raw, class, valid = rlpList(items).bytes(), "nested-list", false
	case 8: // a string, not a list
		raw, class, valid = append([]byte{}, raw...), "not-a-list", false
		raw[0] -= 0x40
	case 9: // any byte
		raw, class, valid = append([]byte{}, raw...), "flipped", false
		raw[s.Int(len(raw))] ^= byte(1 << uint(s.Int(8)))
	}
	if mut == 6 || mut == 7 {
		for i, it := range items {
			if it.list && !isList[i] {
				valid = false
			}
		}
	}
	L := a.MaxHexLen / 2
	if len(raw) > L {
		raw, valid, class = raw[:L], false, "cut"
	}
	buf := append([]byte{}, raw...)
	switch s.Int(3) {
	case 0:
		for len(buf) < L {
			buf = append(buf, 0)
		}
	case 1: // keccak padding
		if len(buf) < L {
			buf = append(buf, 1)
		}
		for len(buf) < L {
			buf = append(buf, 0)
		}
		if len(buf) > len(raw) {
			buf[len(buf)-1] |= 0x80
		}
	default:
		buf = append(buf, s.Plain(L-len(buf))...)
	}
	num := n
	if sh.nums && s.Chance(1, 8) {
		num = []int{n + 1, n - 1, 0, a.MaxFields + 1, a.MaxFields}[s.Int(5)]
		if num != n {
			class, valid = "wrong-field-count", false
		}
	}
	in := bytesBig(nibbles(buf))
	if sh.nums {
		in = append(in, bi(int64(num)))
	}
	total, fs, derr := rlpDecode(buf, num, sh.kind == 1)
	fits := len(raw) <= L && total <= L
	if derr == nil && fits && !valid {
		// a mutation may have left a list that is fine in every respect
		ok := num >= sh.minNums && num <= a.MaxFields
		for i, f := range fs {
			if i >= a.MaxFields || f.n < a.FieldMinHexLen[i] || f.n > a.FieldMaxHexLen[i] || (f.list && !isList[i]) {
				ok = false
			}
		}
		class += "-decodes"
		_ = ok
	}
	c := Case{In: engine.Frs(in), Class: class, Desc: fmt.Sprintf("fields=%d nibbles=%x", num, buf)}
	if valid {
		if derr != nil {
			c.Judge = reject("generator: " + derr.Error())
			return c
		}
		for i, f := range fs {
			if f.n < a.FieldMinHexLen[i] || f.n > a.FieldMaxHexLen[i] {
				c.Judge = okAlways
				return c
			}
		}
	}
	c.Accept = valid
	c.Judge = func(out []fr.Element) error {
		if out[0].IsZero() {
			if valid {
				return fmt.Errorf("a well-formed list of %d fields was reported invalid", num)
			}
			return nil
		}
		if !out[0].IsOne() {
			return fmt.Errorf("verdict is neither 0 nor 1: %s", out[0].String())
		}
		if derr != nil {
			if !fits || total > L {
				return nil // the announced list does not lie inside the input
			}
			return fmt.Errorf("reported valid, but %v", derr)
		}
		if err := eqOut("total length", out[1:2], []*big.Int{bi(int64(2 * total))}); err != nil {
			return err
		}
		nib := nibbles(buf)
		pos := 2 + a.MaxFields
		for i := 0; i < a.MaxFields; i++ {
			if i < len(fs) {
				if err := eqOut(fmt.Sprintf("length of field %d", i), out[2+i:3+i], []*big.Int{bi(int64(fs[i].n))}); err != nil {
					return err
				}
				m := fs[i].n
				if m > a.FieldMaxHexLen[i] {
					m = a.FieldMaxHexLen[i]
				}
				if err := eqOut(fmt.Sprintf("field %d", i), out[pos:pos+m], bytesBig(nib[fs[i].off:fs[i].off+m])); err != nil {
					return err
				}
			} else if !out[2+i].IsZero() {
				return fmt.Errorf("field %d is beyond the list and has length %s", i, out[2+i].String())
			}
			pos += a.FieldMaxHexLen[i]
		}
		return nil
	}
	return c
}

// rlpPrefixStrip drives LeftShiftRlpArrayPrefix: the list's payload and its length.
func rlpPrefixStrip(pm int) *Scenario {
	const L = 300
	return &Scenario{Name: fmt.Sprintf("strip-prefix-%d", pm), NIn: 2 * L, Cases: 60, Attacks: 16, Repairs: 3,
		Define: func(api API, in []V) []V {
			a := rlp.ArrayCheck{MaxHexLen: 2 * L, ArrayPrefixMaxHexLen: pm}
			out, n := a.LeftShiftRlpArrayPrefix(api, in)
			return append([]V{n}, out...)
		},
		Gen: func(s *Src) Case {
			n := []int{0, 1, 54, 55, 56, 57, 127, 128, 255, 256, 257, 290, s.Int(290)}[s.Int(13)]
			body := s.Bytes(n)
			raw := append(rlpPrefix(0xc0, n), body...)
			valid := true
			class := "list"
			if s.Chance(1, 6) {
				raw[0] = byte(s.Int(0xc0))
				valid, class = false, "not-a-list"
			}
			raw = append(raw, s.Plain(L-len(raw))...)
			c := Case{In: engine.Frs(bytesBig(nibbles(raw))), Accept: valid, Class: class, Desc: fmt.Sprintf("payload of %d bytes, %s", n, hexs(raw))}
			if !valid {
				c.Judge = reject("something that is not a list was accepted as one")
				return c
			}
			c.Judge = func(out []fr.Element) error {
				if err := eqOut("payload length", out[:1], []*big.Int{bi(int64(2 * n))}); err != nil {
					return err
				}
				return eqOut("payload", out[1:1+2*n], bytesBig(nibbles(body)))
			}
			return c
		}}
}
