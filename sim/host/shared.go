package host

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"

	"github.com/brevis-network/zk-utils/circuits/fabric/smt"
	"github.com/brevis-network/zk-utils/circuits/gadgets/keccak"
	gutils "github.com/brevis-network/zk-utils/circuits/gadgets/utils"
	ccirc "github.com/brevis-network/zk-utils/common/circuits"
	"github.com/brevis-network/zk-utils/common/utils"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/rlp"
	"github.com/iden3/go-iden3-crypto/poseidon"
	"zksim/engine"
)

// The callers of one process share a codec, a read buffer and scratch numbers. A seeded scheduler picks who does what
// next; whatever a caller holds must stay what it was, whoever acts.

const sharedABI = `[
{"type":"function","name":"poke","inputs":[],"outputs":[]},
{"type":"function","name":"total","inputs":[],"outputs":[{"name":"","type":"uint256"}]},
{"type":"function","name":"get","inputs":[{"name":"k","type":"uint256"}],"outputs":[{"name":"","type":"uint256"},{"name":"","type":"bool"}]},
{"type":"function","name":"put","inputs":[{"name":"a","type":"address"},{"name":"d","type":"bytes"}],"outputs":[{"name":"","type":"bytes32"}]},
{"type":"function","name":"list","inputs":[{"name":"l","type":"uint64[]"},{"name":"s","type":"string"}],"outputs":[{"name":"","type":"uint64[]"}]}]`

var sharedSigs = map[string]string{"poke": "poke()", "total": "total()", "get": "get(uint256)", "put": "put(address,bytes)", "list": "list(uint64[],string)"}
var sharedNames = []string{"poke", "total", "get", "put", "list"}

type held struct {
	who  int
	what string
	got  []byte
	want []byte
}

func (h *held) same() bool { return bytes.Equal(h.got, h.want) }

func drawArgs(s *engine.Src, name string) []interface{} {
	switch name {
	case "get":
		return []interface{}{new(big.Int).SetBytes(s.Bytes(s.Int(33)))}
	case "put":
		return []interface{}{common.BytesToAddress(s.Bytes(20)), s.Bytes(s.Int(70))}
	case "list":
		l := make([]uint64, s.Int(4))
		for i := range l {
			l[i] = s.U64()
		}
		return []interface{}{l, fmt.Sprintf("%x", s.Bytes(s.Int(20)))}
	}
	return nil
}

func drawRets(s *engine.Src, name string) []interface{} {
	switch name {
	case "total":
		return []interface{}{new(big.Int).SetBytes(s.Bytes(s.Int(33)))}
	case "get":
		return []interface{}{new(big.Int).SetBytes(s.Bytes(s.Int(33))), s.Bool()}
	case "put":
		var b [32]byte
		copy(b[:], s.Bytes(32))
		return []interface{}{b}
	case "list":
		return drawArgs(s, "list")[:1]
	}
	return nil
}

func ptrsFor(kind, name string) []interface{} {
	switch kind + name {
	case "inget":
		return []interface{}{new(big.Int)}
	case "input":
		return []interface{}{new(common.Address), new([]byte)}
	case "inlist":
		return []interface{}{new([]uint64), new(string)}
	case "outtotal":
		return []interface{}{new(big.Int)}
	case "outget":
		return []interface{}{new(big.Int), new(bool)}
	case "output":
		return []interface{}{new([32]byte)}
	case "outlist":
		return []interface{}{new([]uint64)}
	}
	return nil
}

func deref(p interface{}) interface{} {
	switch v := p.(type) {
	case *big.Int:
		return v.String()
	case *common.Address:
		return *v
	case *[]byte:
		return fmt.Sprintf("%x", *v)
	case *[]uint64:
		return fmt.Sprint(*v)
	case *string:
		return *v
	case *bool:
		return *v
	case *[32]byte:
		return *v
	}
	return p
}

func plain(v interface{}) interface{} {
	switch x := v.(type) {
	case *big.Int:
		return x.String()
	case []byte:
		return fmt.Sprintf("%x", x)
	case []uint64:
		return fmt.Sprint(x)
	}
	return v
}

func refPad(b []byte) []byte {
	r := make([]byte, (len(b)/136+1)*136)
	copy(r, b)
	r[len(b)] ^= 1
	r[len(r)-1] ^= 0x80
	return r
}

func sharedCallers(w *World) {
	s := w.S
	w.Class = "callers"
	var codec *utils.ContractCodec
	w.Try("NewContractCodec", func() { codec = utils.NewContractCodec(sharedABI) })
	ref, err := abi.JSON(strings.NewReader(sharedABI))
	must(err)
	selOf := func(n string) []byte { return crypto.Keccak256([]byte(sharedSigs[n]))[:4] }

	n := s.Range(2, 4)
	var all []*held
	hold := func(who int, what string, got, want []byte) *held {
		h := &held{who, what, got, append([]byte{}, want...)}
		if !h.same() {
			w.Fail("wrong", "%s gives %x, not %x", what, got, want)
		}
		all = append(all, h)
		return h
	}
	mine := func(who int) (r []*held) {
		for _, h := range all {
			if h.who == who && !strings.HasPrefix(h.what, "the ") {
				r = append(r, h)
			}
		}
		return
	}
	// a read buffer per caller: messages follow each other
	bufs := make([][]byte, n)
	hashers := make([]*utils.PoseidonBn254Hasher, n)
	sent := make([][]*big.Int, n)
	scratch := make([]*big.Int, n)
	for i := 0; i < n; i++ {
		b := s.Bytes(s.Range(1, 600))
		bufs[i] = append(make([]byte, 0, len(b)+s.Int(300)), b...)
		hold(i, fmt.Sprintf("the read buffer of caller %d", i), bufs[i], bufs[i])
		hashers[i] = utils.NewPoseidonBn254()
		scratch[i] = new(big.Int)
	}
	steps := s.Range(2, 30)
	for k := 0; k < steps; k++ {
		who := s.Int(n)
		name := sharedNames[s.Int(len(sharedNames))]
		act := s.Int(17)
		w.Log("caller %d: act %d %s", who, act, name)
		switch act {
		case 0, 1:
			args := drawArgs(s, name)
			want, e := ref.Methods[name].Inputs.Pack(args...)
			must(e)
			var got []byte
			w.Try("EncodeCalldata", func() { got, err = codec.EncodeCalldata(name, args...) })
			if err != nil {
				w.Fail("refused", "EncodeCalldata of %s: %v", name, err)
			}
			hold(who, fmt.Sprintf("calldata of %s made by caller %d", name, who), got, append(selOf(name), want...))
			// and back
			ptrs := ptrsFor("in", name)
			data := append([]byte{}, want...)
			short := s.Chance(1, 4) && len(data) > 0
			if short {
				w.Fault("short-data")
				data = data[:s.Int(len(data))]
			}
			w.Try("DecodeCalldata", func() { err = codec.DecodeCalldata(name, data, ptrs...) })
			checkDecoded(w, "DecodeCalldata", name, ref.Methods[name].Inputs, data, args, ptrs, err, short)
			wrongUse(w, codec, name, want, args, ptrs)
			if err == nil && name == "put" { // the buffer gets the next message
				for i := range data {
					data[i] ^= 0x33
				}
				hold(who, fmt.Sprintf("bytes decoded by caller %d", who), *ptrs[1].(*[]byte), args[1].([]byte))
			}
		case 2:
			rets := drawRets(s, name)
			want, e := ref.Methods[name].Outputs.Pack(rets...)
			must(e)
			var got []byte
			w.Try("EncodeReturnData", func() { got, err = codec.EncodeReturnData(name, rets...) })
			if err != nil {
				w.Fail("refused", "EncodeReturnData of %s: %v", name, err)
			}
			hold(who, fmt.Sprintf("return data of %s made by caller %d", name, who), got, want)
			ptrs := ptrsFor("out", name)
			data := append([]byte{}, want...)
			short := s.Chance(1, 4) && len(data) > 0
			if short {
				w.Fault("short-data")
				data = data[:s.Int(len(data))]
			}
			w.Try("DecodeReturnData", func() { err = codec.DecodeReturnData(name, data, ptrs...) })
			checkDecoded(w, "DecodeReturnData", name, ref.Methods[name].Outputs, data, rets, ptrs, err, short)
		case 3:
			var got []byte
			w.Try("Selector", func() { got = codec.Selector(name) })
			hold(who, fmt.Sprintf("selector of %s asked for by caller %d", name, who), got, selOf(name))
		case 4: // the caller goes on writing to what it got
			m := mine(who)
			if len(m) == 0 {
				break
			}
			h := m[s.Int(len(m))]
			tail := s.Bytes(s.Range(1, 40))
			h.got = append(h.got, tail...)
			h.want = append(h.want, tail...)
		case 5:
			m := mine(who)
			if len(m) == 0 {
				break
			}
			h := m[s.Int(len(m))]
			if len(h.got) == 0 {
				break
			}
			i := s.Int(len(h.got))
			h.got[i] ^= 0x55
			h.want[i] ^= 0x55
		case 6, 7:
			i := s.Int(len(bufs[who]))
			j := i + s.Int(len(bufs[who])-i+1)
			msg := bufs[who][i:j]
			want := refPad(append([]byte{}, msg...))
			var got []byte
			if act == 6 {
				w.Try("Pad101Bytes", func() { got = ccirc.Pad101Bytes(msg) })
			} else {
				w.Try("Pad101Bytes", func() { got = keccak.Pad101Bytes(msg) })
			}
			hold(who, fmt.Sprintf("the padded message of caller %d", who), got, want)
			var b1, b2 []uint8
			w.Try("Bytes2BlockBits", func() { b1, b2 = ccirc.Bytes2BlockBits(got), keccak.Bytes2BlockBits(got) })
			for q := 0; q < len(want)*8; q++ {
				x := want[q/8] >> uint(q%8) & 1
				if len(b1) != len(want)*8 || len(b2) != len(want)*8 || b1[q] != x || b2[q] != x {
					w.Fail("wrong", "bit %d of a padded message of %d bytes", q, j-i)
				}
			}
		case 8, 9:
			v := new(big.Int).SetBytes(s.Bytes(s.Int(33)))
			if s.Chance(1, 10) {
				w.Fault("oversized-input")
			} else {
				v.Rsh(v, 4)
			}
			scratch[who].Set(v)
			hashers[who].Write(scratch[who])
			sent[who] = append(sent[who], v)
			if s.Chance(1, 2) {
				scratch[who].SetUint64(s.U64())
			}
		case 10:
			want, e1 := poseidon.Hash(sent[who])
			var got *big.Int
			var e2 error
			w.Try("Sum", func() { got, e2 = hashers[who].Sum() })
			if (e1 == nil) != (e2 == nil) {
				w.Fail("wrong", "Poseidon of %d inputs: %v, the reference says %v", len(sent[who]), e2, e1)
			}
			if e1 == nil && got.Cmp(want) != 0 {
				w.Fail("wrong", "Poseidon of what caller %d wrote (%d inputs) is %x, not %x", who, len(sent[who]), got, want)
			}
			if s.Bool() {
				hashers[who].Reset()
				sent[who] = nil
			}
		case 11: // small helpers leave their arguments alone
			b := bufs[who][:min(len(bufs[who]), s.Int(33))]
			var f []byte
			w.Try("Flip", func() { f = utils.Flip(b) })
			g := gutils.Flip(b)
			for q := range b {
				if f[q] != b[len(b)-1-q] || g[q] != f[q] {
					w.Fail("wrong", "Flip of %x is %x", b, f)
				}
			}
			fr := []int{248, 128, 200}[s.Int(3)]
			v := new(big.Int).SetBytes(b)
			p := utils.ParseBytes32(b, fr)
			lo := new(big.Int).And(v, new(big.Int).Sub(new(big.Int).Lsh(bi(1), uint(fr)), bi(1)))
			if p[0].Cmp(lo) != 0 || p[1].Cmp(new(big.Int).Rsh(v, uint(fr))) != 0 {
				w.Fail("wrong", "ParseBytes32(%x, %d) is %x and %x", b, fr, p[0], p[1])
			}
			in := utils.Var2BigInt(p[0])
			bits := utils.Byte32ToFrBits(p, fr)
			for q, x := range bits {
				if x != v.Bit(q) {
					w.Fail("wrong", "bit %d of Byte32ToFrBits of %x", q, b)
				}
			}
			in.Add(in, bi(1))
			if p[0].Cmp(lo) != 0 {
				w.Fail("shared", "Var2BigInt gives the caller's own number away")
			}
			pk := utils.PackBitsToInt(bits)
			if len(pk) != 2 || pk[0].Cmp(new(big.Int).And(v, new(big.Int).Sub(new(big.Int).Lsh(bi(1), 253), bi(1)))) != 0 || pk[1].Cmp(new(big.Int).Rsh(v, 253)) != 0 {
				w.Fail("wrong", "PackBitsToInt of %x", b)
			}
		case 12: // headers stay as they are, unknown methods are errors
			h := types.Header{Number: big.NewInt(int64(s.Int(1 << 30))), Difficulty: bi(0), BaseFee: bi(int64(s.Int(1 << 40))), Extra: append(make([]byte, 0, 64), s.Bytes(s.Int(33))...)}
			want, _ := rlp.EncodeToBytes(&h)
			w.Try("EncodeHeaders", func() { _, _, err = smt.EncodeHeaders([]types.Header{h}) })
			got, _ := rlp.EncodeToBytes(&h)
			if err != nil || !bytes.Equal(got, want) {
				w.Fail("shared", "EncodeHeaders: %v; the header was %x, is %x", err, want, got)
			}
			var e1, e2, e3, e4 error
			w.Try("a call with an unknown method", func() {
				_, e1 = codec.EncodeCalldata("nope")
				e2 = codec.DecodeCalldata("nope", nil)
				_, e3 = codec.EncodeReturnData("nope")
				e4 = codec.DecodeReturnData("nope", nil)
			})
			if e1 == nil || e2 == nil || e3 == nil || e4 == nil {
				w.Fail("invented", "a method the contract lacks: %v %v %v %v", e1, e2, e3, e4)
			}
		}
		switch act {
		case 13, 14:
			part := bufs[who]
			i := s.Int(len(part))
			part = part[i : i+s.Int(len(part)-i+1)]
			helpers(w, s, part, func(what string, got, want []byte) {
				hold(who, fmt.Sprintf("%s made by caller %d", what, who), got, want)
			})
		case 15: // the next message arrives in the read buffer
			copy(bufs[who], s.Bytes(s.Range(1, len(bufs[who]))))
			for _, h := range all {
				if h.who == who && strings.HasPrefix(h.what, "the read buffer") {
					h.want = append([]byte{}, bufs[who]...)
				}
			}
		}
		for _, h := range all {
			if !h.same() {
				w.Fail("shared", "%s changed under caller %d's action %d (%s): %x, was %x", h.what, who, act, name, h.got, h.want)
			}
		}
	}
}

// helpers calls a helper on a part of a read buffer. Bytes it returns are held from then on.
func helpers(w *World, s *engine.Src, b []byte, hold func(string, []byte, []byte)) {
	before := append([]byte{}, b...)
	bad := func(f string, a ...interface{}) { w.Fail("wrong", f, a...) }
	same := func(what string, got, want interface{}) {
		if fmt.Sprint(got) != fmt.Sprint(want) {
			bad("%s of %x is %v, not %v", what, before, got, want)
		}
	}
	which := s.Int(14)
	w.Try(fmt.Sprintf("helper %d", which), func() {
		switch which {
		case 0:
			g := s.Range(1, 9)
			m := b[:len(b)/g*g]
			want := make([]byte, 0, len(m))
			for i := len(m) - g; i >= 0; i -= g {
				want = append(want, before[i:i+g]...)
			}
			hold("FlipByGroups", utils.FlipByGroups(m, g), want)
		case 1:
			g := s.Range(1, 9)
			m := b[:len(b)/g*g]
			var want []byte
			for i := 0; i < len(m); i += g {
				for j := g - 1; j >= 0; j-- {
					want = append(want, before[i+j])
				}
			}
			hold("FlipSubSlice", gutils.FlipSubSlice(m, g), want)
		case 2:
			want := make([]byte, len(b))
			for i := range b {
				want[len(b)-1-i] = before[i]
			}
			hold("Flip", utils.Flip(b), want)
			hold("Flip", gutils.Flip(b), want)
		case 3:
			m := b[:min(len(b), 64)]
			n := len(m) + s.Int(40)
			want := append(make([]byte, n-len(m)), m...)
			hold("MiMCBlockPad0", utils.MiMCBlockPad0(m, n), want)
			if len(m) > 0 {
				k := s.Int(len(m))
				hold("MiMCBlockPad0", utils.MiMCBlockPad0(m, k), before[len(m)-k:len(m)])
			}
		case 4:
			m := b[:min(len(b), 19)]
			hold("Pad20Bytes", utils.Pad20Bytes(m), append(make([]byte, 20-len(m)), m...))
			m = b[:min(len(b), 31)]
			hold("Pad32Bytes", utils.Pad32Bytes(m), append(make([]byte, 32-len(m)), m...))
			if len(b) >= 32 {
				same("Pad20Bytes", utils.Pad20Bytes(b[:20]), before[:20])
				same("Pad32Bytes", utils.Pad32Bytes(b[:32]), before[:32])
			}
		case 5:
			var bits, want []uint
			for _, x := range b {
				bits = append(bits, utils.DecodeByteToBinary(x)...)
			}
			for i := range b {
				for j := 7; j >= 0; j-- {
					want = append(want, uint(before[i]>>uint(j)&1))
				}
			}
			same("DecodeByteToBinary", bits, want)
			keep := fmt.Sprint(bits)
			mod := ecc.BLS12_377.ScalarField()
			if s.Bool() {
				mod = new(big.Int).Add(new(big.Int).SetBytes(s.Bytes(s.Range(1, 33))), bi(2))
			}
			v := new(big.Int).SetBytes(before)
			m := new(big.Int).Set(mod)
			same("BitsToFrBigInt", utils.BitsToFrBigInt(bits, mod), v.Mod(v, mod))
			same("the modulus after BitsToFrBigInt", mod, m)
			same("the bits after BitsToFrBigInt", bits, keep)
		case 6:
			v := new(big.Int).SetBytes(before)
			n := len(b)*8 + s.Int(20)
			bits := utils.DecomposeBits(v, n)
			var want []uint
			for i := 0; i < n; i++ {
				want = append(want, v.Bit(i))
			}
			same("DecomposeBits", bits, want)
			same("the number after DecomposeBits", v, new(big.Int).SetBytes(before))
			packed := utils.PackBitsToInt(bits)
			var parts []string
			mask := new(big.Int).Sub(new(big.Int).Lsh(bi(1), 253), bi(1))
			for i := 0; i < n; i += 253 {
				x := new(big.Int).Rsh(v, uint(i))
				parts = append(parts, x.And(x, mask).String())
			}
			same("PackBitsToInt", packed, parts)
			same("the bits after PackBitsToInt", bits, want)
		case 7:
			m := b[:len(b)/8*8]
			var want []uint64
			for i := 0; i < len(m); i += 8 {
				want = append(want, binary.LittleEndian.Uint64(before[i:]))
			}
			same("Bytes2Uint64s", ccirc.Bytes2Uint64s(m), want)
			same("Bytes2Uint64s", keccak.Bytes2Uint64s(m), want)
			var bits []uint8
			for i := 0; i < len(m)*8; i++ {
				bits = append(bits, before[i/8]>>uint(i%8)&1)
			}
			same("Bytes2Bits", ccirc.Bytes2Bits(m), bits)
			same("Bytes2Bits", keccak.Bytes2Bits(m), bits)
		case 8:
			p := refPad(before)
			var want []uint64
			for i := 0; i < len(p); i += 8 {
				want = append(want, binary.LittleEndian.Uint64(p[i:]))
			}
			same("Pad101", ccirc.Pad101(b), want)
			same("Pad101", keccak.Pad101(b), want)
			same("GetKeccakRoundForPaddedBytes", keccak.GetKeccakRoundForPaddedBytes(p), len(p)/136-1)
			same("GetRoundIndex", keccak.GetRoundIndex(len(b)*8), len(p)/136-1)
		case 9:
			h := hex.EncodeToString(before)
			same("Bytes2Hex", utils.Bytes2Hex(b), h)
			same("Bytes2Hex0x", utils.Bytes2Hex0x(b), "0x"+h)
			hold("Hex2Bytes", utils.Hex2Bytes([]string{h, "0x" + h, "0X" + strings.ToUpper(h)}[s.Int(3)]), before)
			same("Hex2BigInt", utils.Hex2BigInt("0x"+h), new(big.Int).SetBytes(before))
			if len(h) > 0 && h[0] == '0' {
				hold("Hex2Bytes", utils.Hex2Bytes(h[1:]), before)
			}
			same("Addr2Hex", utils.Addr2Hex0x(utils.Bytes2Addr(b)), utils.Bytes2AddrHex0x(b))
			same("Bytes2Addr", utils.Bytes2Addr(b), common.BytesToAddress(before))
			same("Hex2Addr", utils.Hex2Addr(h), common.BytesToAddress(before))
			same("Hex2Hash", utils.Hex2Hash(h), common.BytesToHash(before))
			same("IsValidTxHash", utils.IsValidTxHash("0x"+h), len(before) == 32)
			same("FormatAddrHex", utils.FormatAddrHex("0x"+h), hex.EncodeToString(common.BytesToAddress(before).Bytes()))
		case 10:
			var l []string
			var ll [][]byte
			for i := 0; i < len(b); {
				j := i + 1 + s.Int(min(len(b)-i, 40))
				l, ll = append(l, hex.EncodeToString(b[i:j])), append(ll, b[i:j])
				i = j
			}
			keep := fmt.Sprint(l)
			got := utils.Strings2bytes(l)
			same("Strings2bytes", got, ll)
			for i := range got {
				hold("Strings2bytes", got[i], ll[i])
			}
			var xs []string
			for _, x := range l {
				xs = append(xs, "0x"+x)
			}
			same("ArrayBytes2Hex0x", utils.ArrayBytes2Hex0x(ll), xs)
			same("Convert2DimensionalByteArrayToString", utils.Convert2DimensionalByteArrayToString(ll), strings.Join(xs, ","))
			var hs [][32]byte
			for _, x := range ll {
				hs = append(hs, common.BytesToHash(x))
			}
			same("ArrayHex2Hash", utils.ArrayHex2Hash(l), hs)
			same("the strings afterwards", l, keep)
			if len(l) > 0 {
				same("Contains", utils.Contains(l, l[s.Int(len(l))]), true)
			}
			same("Contains", utils.Contains(l, "none"), false)
		case 11:
			keys := []byte{0, 1, 2, 3, 1}[:s.Range(1, 5)]
			got := utils.Partition(b, keys, func(k, v byte) bool { return v%4 >= k })
			for k := byte(0); k < 4; k++ {
				var want []byte
				for _, v := range before {
					for _, q := range keys {
						if q == k && v%4 >= k {
							want = append(want, v)
						}
					}
				}
				hold("Partition", got[k], want)
			}
			r := append([]byte{}, b...)
			want := make([]byte, len(b))
			for i := range b {
				want[len(b)-1-i] = before[i]
			}
			hold("Reverse", utils.Reverse(r), want)
		case 12:
			u := s.U64()
			same("Var2BigInt", utils.Var2BigInt(b), new(big.Int).SetBytes(before))
			for _, x := range []interface{}{u, int64(u), uint(u), int(u), uint32(u), int32(u), uint16(u), int16(u), uint8(u), int8(u), fmt.Sprint(u), new(big.Int).SetUint64(u), *new(big.Int).SetUint64(u)} {
				want := fmt.Sprint(x)
				if v, ok := x.(big.Int); ok {
					want = v.String()
				}
				same(fmt.Sprintf("Var2BigInt of a %T", x), utils.Var2BigInt(x), want)
			}
			same("Var2BigInt of nil", utils.Var2BigInt(nil), 0)
			same("Str2BigInt", utils.Str2BigInt(new(big.Int).SetBytes(before).String()), new(big.Int).SetBytes(before))
			same("Str2Int", utils.Str2Int(fmt.Sprint(int64(u))), int64(u))
			same("Str2Uint64", utils.Str2Uint64(fmt.Sprint(u>>1)), u>>1)
			ms := u >> 24
			same("TsMilli", utils.TsMilli(utils.TsMilliToTime(ms)), ms)
			same("TsSecToTime", utils.TsSecToTime(ms).Unix(), ms)
		case 13:
			var idx []uint64
			found := false
			t := uint64(s.Int(6))
			for _, x := range b[:min(len(b), 6)] {
				idx = append(idx, uint64(x%8))
				found = found || uint64(x%8) == t
			}
			keep := fmt.Sprint(idx)
			same("ChunkIndexFound", ccirc.ChunkIndexFound(t, idx), found)
			same("the indexes afterwards", idx, keep)
			fv := gutils.Slice2FVs(b)
			same("Slice2FVs", fv, b)
		}
	})
	if !bytes.Equal(b, before) {
		w.Fail("shared", "helper %d altered its argument: %x, was %x", which, b, before)
	}
}

// wrongUse calls the codec with one value too many, one too few, of the wrong type or by value: all are errors.
func wrongUse(w *World, codec *utils.ContractCodec, name string, data []byte, args, ptrs []interface{}) {
	var e1, e2, e3, e4, e5, e6 error
	w.Fault("wrong-arguments")
	w.Try("a call with wrong arguments", func() {
		var b []byte
		if b, e1 = codec.EncodeCalldata(name, append(args[:len(args):len(args)], bi(1))...); e1 != nil && len(b) > 0 {
			w.Fail("invented", "EncodeCalldata fails and gives %x", b)
		}
		e2 = codec.DecodeCalldata(name, data, append(ptrs[:len(ptrs):len(ptrs)], new(big.Int))...)
		_, e3 = codec.EncodeReturnData(name, bi(1), "x", struct{}{})
		e4, e5, e6 = e1, e1, e1
		if len(args) > 0 {
			_, e4 = codec.EncodeCalldata(name, args[:len(args)-1]...)
			e5 = codec.DecodeCalldata(name, data, ptrs[:len(ptrs)-1]...)
			e6 = codec.DecodeCalldata(name, data, append(append([]interface{}{}, ptrs[:len(ptrs)-1]...), 7)...)
		}
	})
	if e1 == nil || e2 == nil || e3 == nil || e4 == nil || e5 == nil || e6 == nil {
		w.Fail("invented", "wrong arguments for %s: %v, %v, %v, %v, %v, %v", name, e1, e2, e3, e4, e5, e6)
	}
}

func checkDecoded(w *World, what, name string, args abi.Arguments, data []byte, vals, ptrs []interface{}, err error, short bool) {
	want, e := args.Unpack(data)
	if (e == nil) != (err == nil) {
		w.Fail("wrong", "%s of %s from %d bytes: %v, the reference says %v", what, name, len(data), err, e)
	}
	if err != nil {
		return
	}
	if !short {
		want = vals
	}
	for i, p := range ptrs {
		if deref(p) != plain(want[i]) {
			w.Fail("wrong", "%s of %s gives %v for %v", what, name, deref(p), plain(want[i]))
		}
	}
}

func init() {
	registry = append(registry, &Scen{Prop: "C31", Name: "callers", Runs: 60000, Fn: sharedCallers})
	assumptions["C31"] = []string{"callers interleave between calls, not inside one: results and buffers shared between them are what the property is about"}
}
