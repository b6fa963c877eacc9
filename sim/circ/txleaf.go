package circ

import (
	"fmt"
	"math/big"

	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"zksim/engine"
)

func init() { registry["C07"] = txLeafScenarios }

func txLeafScenarios(tier string) []*Scenario {
	digit := func(s *Src, n int) []byte {
		switch s.Int(4) {
		case 0:
			return make([]byte, n)
		case 1:
			r := make([]byte, n)
			for i := range r {
				r[i] = 15
			}
			return r
		}
		r := s.Plain(n)
		for i := range r {
			r[i] &= 15
		}
		return r
	}
	val := func(d []byte) *big.Int {
		x := new(big.Int)
		for _, c := range d {
			x.Lsh(x, 4).Or(x, bi(int64(c)))
		}
		return x
	}
	r := []*Scenario{
		{Name: "hex-to-2fr", NIn: 65, Cases: 300, Attacks: 24, Repairs: 4,
			Define: func(api API, in []V) []V {
				r := rlp.Hex64To2Fr(api, in[:64], in[64])
				return r[:]
			},
			Gen: func(s *Src) Case {
				n := []int{0, 1, 2, 3, 4, 31, 60, 61, 62, 63, 64, s.Int(65)}[s.Int(12)]
				d := digit(s, 64)
				return Case{In: append(engine.Frs(bytesBig(d)), engine.Fr(n)), Accept: true, Class: "hex-to-2fr", Desc: fmt.Sprintf("%d digits of %x", n, d),
					Judge: func(out []fr.Element) error {
						lo, hi := val(d[:n]), bi(0)
						if n > 62 {
							// the first byte and the rest
							lo, hi = val(d[2:n]), val(d[:2])
						}
						return eqOut("split value", out, []*big.Int{lo, hi})
					}}
			}},
	}
	for _, m := range []int{2, 3, 16, 24, 64} {
		m := m
		r = append(r, &Scenario{Name: fmt.Sprintf("hex-to-decimal-%d", m), NIn: m + 1, Cases: 120, Attacks: 24, Repairs: 4,
			Define: func(api API, in []V) []V {
				return []V{rlp.HexToDecimal(api, in[:m], m, in[m])}
			},
			Gen: func(s *Src) Case {
				n := []int{0, 1, m - 1, m, s.Int(m + 1)}[s.Int(5)]
				d := digit(s, m)
				return Case{In: append(engine.Frs(bytesBig(d)), engine.Fr(n)), Accept: true, Class: "hex-to-decimal", Desc: fmt.Sprintf("%d digits of %x", n, d),
					Judge: func(out []fr.Element) error { return eqOut("value", out, []*big.Int{val(d[:n])}) }}
			}})
	}
	r = append(r, &Scenario{Name: "leaf", NIn: 4352, Cases: 22, Attacks: 3, Repairs: 2, ThoroughCases: 150, ThoroughAttacks: 6,
		Define: func(api API, in []V) []V {
			t, signed, lens := rlp.DecodeTxLeafRlp(api, in)
			o := append([]V{}, lens...)
			for _, f := range [][]V{t.ChainId, t.Nonce, t.MaxPriorityGasPrice, t.MaxFeePerGas, t.GasLimit, t.To, t.Value} {
				o = append(o, f...)
			}
			o = append(o, t.V)
			o = append(append(o, t.R[:]...), t.S[:]...)
			return append(o, signed[:4346]...)
		},
		Gen: txLeafCase})
	return r
}

func txLeafCase(s *Src) Case {
	num := func(bytes int) *big.Int {
		n := s.Int(bytes + 1)
		if s.Chance(1, 4) {
			n = bytes
		}
		return new(big.Int).SetBytes(s.Bytes(n))
	}
	big256 := func() *big.Int {
		switch s.Int(4) {
		case 0:
			return num(32)
		case 1:
			x := s.Plain(32)
			x[0] = 0
			return new(big.Int).SetBytes(x)
		}
		x := s.Plain(32)
		x[0] |= 1
		return new(big.Int).SetBytes(x)
	}
	var to *common.Address
	if s.Chance(5, 6) {
		a := common.BytesToAddress(s.Bytes(20))
		to = &a
	}
	dl := []int{0, 1, 2, 55, 56, 255, 256, 257, 1000, 1800, s.Int(300), s.Int(1900)}[s.Int(12)]
	data := s.Bytes(dl)
	if dl == 1 {
		data[0] = []byte{0, 1, 0x7f, 0x80, 0xff}[s.Int(5)]
	}
	u64 := func() uint64 { return num(8).Uint64() }
	tx := types.NewTx(&types.DynamicFeeTx{ChainID: num(8), Nonce: u64(), GasTipCap: num(8), GasFeeCap: num(8), Gas: num(4).Uint64(), To: to, Value: big256(), Data: data,
		V: bi(int64(s.Int(2))), R: big256(), S: big256()})
	body, err := tx.MarshalBinary()
	if err != nil {
		panic(err)
	}
	class, valid := "type-2", true
	switch s.Int(12) {
	case 0: // another type byte on the same body
		body = append([]byte{}, body...)
		body[0] = []byte{0, 1, 3, 4, 0x7e, 0x7f, 0x12, 0x22}[s.Int(8)]
		class, valid = "other-type-byte", false
	case 1:
		al := types.AccessList{{Address: common.BytesToAddress(s.Plain(20))}}
		tx = types.NewTx(&types.DynamicFeeTx{ChainID: num(8), Nonce: u64(), GasTipCap: num(8), GasFeeCap: num(8), Gas: num(4).Uint64(), To: to, Value: num(32), Data: data[:len(data)/2], AccessList: al, V: bi(1), R: num(32), S: num(32)})
		body, _ = tx.MarshalBinary()
		class, valid = "access-list", false
	case 2:
		tx = types.NewTx(&types.AccessListTx{ChainID: num(8), Nonce: u64(), GasPrice: num(8), Gas: num(4).Uint64(), To: to, Value: num(32), Data: data, V: bi(1), R: num(32), S: num(32)})
		body, _ = tx.MarshalBinary()
		class, valid = "type-1", false
	case 3:
		tx = types.NewTx(&types.LegacyTx{Nonce: u64(), GasPrice: num(8), Gas: num(4).Uint64(), To: to, Value: num(32), Data: data, V: bi(37), R: num(32), S: num(32)})
		body, _ = tx.MarshalBinary()
		class, valid = "legacy", false
	case 4:
		body = append([]byte{}, body...)
		body[s.Int(min(len(body), 80))] ^= byte(1 << uint(s.Int(8)))
		class, valid = "flipped", false
	case 5:
		body = append([]byte{}, body...)
		k := 1 + s.Int(3)
		body[k] += []byte{1, 255}[s.Int(2)]
		class, valid = "list-length", false
	}
	path := [][]byte{{0x20}, {byte(0x30 + s.Int(16))}}[s.Int(2)]
	leaf := rlpList([]rlpItem{rlpStr(path), rlpStr(body)}).bytes()
	const L = 2176
	if len(leaf) > L {
		return Case{In: make([]fr.Element, 2*L), Class: "too-long", Desc: "too long", Judge: reject("zeros accepted as a transaction")}
	}
	buf := append(append([]byte{}, leaf...), make([]byte, L-len(leaf))...)
	if len(leaf) < L {
		buf[len(leaf)] = 1
		buf[len(leaf)/136*136+135] |= 0x80
	}
	nib := nibbles(buf)
	_, outer, err := rlpDecode(buf, 2, true)
	if err != nil {
		panic(err)
	}
	vOff, vLen := outer[1].off/2, outer[1].n/2
	inner, derr := buf[vOff:], error(nil)
	var fs []rlpField
	if inner[0] != 2 {
		derr = fmt.Errorf("transaction type %d", inner[0])
	} else {
		_, fs, derr = rlpDecode(inner[1:], 12, true)
	}
	c := Case{In: engine.Frs(bytesBig(nib)), Accept: valid, Class: class, Desc: fmt.Sprintf("leaf of %d bytes: %x", len(leaf), leaf)}
	c.Judge = func(out []fr.Element) error {
		if derr != nil {
			return fmt.Errorf("accepted as a type-2 transaction, but %v", derr)
		}
		get := func(i int) []byte { return nib[2*vOff+2+fs[i].off : 2*vOff+2+fs[i].off+fs[i].n] }
		maxs := []int{16, 16, 16, 16, 8, 40, 64}
		pos := 8
		for i, m := range maxs {
			f := get(i)
			if err := eqOut(fmt.Sprintf("length of field %d", i), out[i:i+1], []*big.Int{bi(int64(len(f)))}); err != nil {
				return err
			}
			if len(f) > m {
				f = f[:m]
			}
			if err := eqOut(fmt.Sprintf("field %d", i), out[pos:pos+len(f)], bytesBig(f)); err != nil {
				return err
			}
			pos += m
		}
		if err := eqOut("last length", out[7:8], []*big.Int{bi(40)}); err != nil {
			return err
		}
		num := func(f []byte) *big.Int {
			x := new(big.Int)
			for _, d := range f {
				x.Lsh(x, 4).Or(x, bi(int64(d)))
			}
			return x
		}
		if len(get(9)) <= 2 {
			if err := eqOut("V", out[pos:pos+1], []*big.Int{num(get(9))}); err != nil {
				return err
			}
		}
		for k := 0; k < 2; k++ {
			f := get(10 + k)
			if len(f) > 64 {
				continue
			}
			lo, hi := num(f), bi(0)
			if len(f) > 62 {
				lo, hi = num(f[2:]), num(f[:2])
			}
			if err := eqOut([]string{"R", "S"}[k], out[pos+1+2*k:pos+3+2*k], []*big.Int{lo, hi}); err != nil {
				return err
			}
		}
		return eqOut("signed transaction", out[pos+5:pos+5+2*vLen], bytesBig(nib[2*vOff:2*vOff+2*vLen]))
	}
	return c
}
