package host

import (
	"bytes"
	"crypto/ecdsa"
	"fmt"
	"math/big"
	"runtime"

	"github.com/brevis-network/zk-utils/circuits/fabric/smt"
	"github.com/brevis-network/zk-utils/common/proof"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethdb/memorydb"
	"github.com/ethereum/go-ethereum/rlp"
	"github.com/ethereum/go-ethereum/trie"
	"github.com/holiman/uint256"

	"zksim/engine"
)

func bigUpTo(s *engine.Src, bits int) *big.Int {
	b := s.Int(bits + 1)
	x := new(big.Int).SetBytes(s.Bytes((b + 7) / 8))
	return x.Mod(x, new(big.Int).Lsh(big.NewInt(1), uint(b)))
}

// drawTx makes a transaction body of any type.
func drawTx(s *engine.Src, chain *big.Int) types.TxData {
	var to *common.Address
	if s.Bool() {
		a := common.BytesToAddress(s.Bytes(20))
		to = &a
	}
	data := s.Bytes([]int{0, 1, 4, 36, 55, 56, 100, 300}[s.Int(8)])
	var al types.AccessList
	for i := s.Int(3); i > 0; i-- {
		t := types.AccessTuple{Address: common.BytesToAddress(s.Bytes(20))}
		for k := s.Int(3); k > 0; k-- {
			t.StorageKeys = append(t.StorageKeys, common.BytesToHash(s.Bytes(32)))
		}
		al = append(al, t)
	}
	nonce, gas := s.U64()>>uint(s.Int(64)), s.U64()>>uint(s.Int(64))
	val := bigUpTo(s, 100)
	switch s.Int(8) {
	case 0:
		return &types.AccessListTx{ChainID: chain, Nonce: nonce, GasPrice: bigUpTo(s, 60), Gas: gas, To: to, Value: val, Data: data, AccessList: al}
	case 1:
		x := &types.BlobTx{Nonce: nonce, Gas: gas, Data: data, AccessList: al, BlobHashes: []common.Hash{{1}}}
		x.ChainID, _ = uint256.FromBig(chain)
		x.GasTipCap, x.GasFeeCap, x.Value, x.BlobFeeCap = uint256.NewInt(s.U64()), uint256.NewInt(s.U64()), uint256.NewInt(s.U64()), uint256.NewInt(7)
		return x
	case 2, 3, 4:
		return &types.DynamicFeeTx{ChainID: chain, Nonce: nonce, GasTipCap: bigUpTo(s, 60), GasFeeCap: bigUpTo(s, 60), Gas: gas, To: to, Value: val, Data: data, AccessList: al}
	}
	return &types.LegacyTx{Nonce: nonce, GasPrice: bigUpTo(s, 60), Gas: gas, To: to, Value: val, Data: data}
}

func drawChain(s *engine.Src) *big.Int {
	switch s.Int(6) {
	case 0:
		return big.NewInt(int64(1 + s.Int(200)))
	case 1:
		return new(big.Int).SetUint64(1 + s.U64()>>uint(1+s.Int(40)))
	case 2:
		return new(big.Int).SetUint64(^uint64(0)/2 - 16 + s.U64()%8)
	case 3:
		return big.NewInt(110)
	}
	return big.NewInt(1)
}

func drawKey(s *engine.Src) *ecdsa.PrivateKey {
	k := new(big.Int).SetBytes(s.Bytes(32))
	n := new(big.Int).Sub(crypto.S256().Params().N, big.NewInt(1))
	k.Mod(k, n).Add(k, big.NewInt(1))
	x, err := crypto.ToECDSA(k.FillBytes(make([]byte, 32)))
	must(err)
	return x
}

func signedTx(s *engine.Src) *types.Transaction {
	chain := drawChain(s)
	d := drawTx(s, chain)
	var signer types.Signer = types.NewCancunSigner(chain)
	if _, ok := d.(*types.LegacyTx); ok && s.Chance(1, 4) {
		signer = types.HomesteadSigner{}
	}
	tx, err := types.SignTx(types.NewTx(d), signer, drawKey(s))
	must(err)
	return tx
}

// forge returns the transaction with another signature, as a malicious node would serve it.
func forge(w *World, tx *types.Transaction) *types.Transaction {
	s := w.S
	v, r, sg := tx.RawSignatureValues()
	v, r, sg = new(big.Int).Set(v), new(big.Int).Set(r), new(big.Int).Set(sg)
	n := crypto.S256().Params().N
	what := s.Int(10)
	switch what {
	case 0:
		return tx
	case 1:
		v = big.NewInt([]int64{0, 1, 2, 3, 4, 26, 27, 28, 29, 34, 35, 36, 37, 38, 255, 256}[s.Int(16)])
	case 2:
		v = new(big.Int).Lsh(big.NewInt(1), uint(60+s.Int(80)))
		v.Add(v, big.NewInt(int64(s.Int(40))))
	case 3:
		r = []*big.Int{big.NewInt(0), n, new(big.Int).Add(n, big.NewInt(1)), big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 256), new(big.Int).Lsh(big.NewInt(1), 300)}[s.Int(6)]
	case 4:
		sg = []*big.Int{big.NewInt(0), n, new(big.Int).Add(n, big.NewInt(1)), big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 256), new(big.Int).Lsh(big.NewInt(1), 300)}[s.Int(6)]
	case 5: // the twin signature
		sg = new(big.Int).Sub(n, sg)
		v.Xor(v, big.NewInt(1))
		if tx.Type() == 0 {
			vv, _, _ := tx.RawSignatureValues()
			if vv.Bit(0) == 1 {
				v = new(big.Int).Add(vv, big.NewInt(1))
			} else {
				v = new(big.Int).Sub(vv, big.NewInt(1))
			}
		}
	case 6:
		r = new(big.Int).SetBytes(s.Bytes(32))
	case 7:
		sg = new(big.Int).SetBytes(s.Bytes(32))
	case 8: // leading zeros
		r.Rsh(r, uint(s.Int(30)))
	case 9:
		sg.Rsh(sg, uint(s.Int(30)))
	}
	w.Fault("forged-signature")
	switch tx.Type() {
	case 0:
		return types.NewTx(&types.LegacyTx{Nonce: tx.Nonce(), GasPrice: tx.GasPrice(), Gas: tx.Gas(), To: tx.To(), Value: tx.Value(), Data: tx.Data(), V: v, R: r, S: sg})
	case 2:
		return types.NewTx(&types.DynamicFeeTx{ChainID: tx.ChainId(), Nonce: tx.Nonce(), GasTipCap: tx.GasTipCap(), GasFeeCap: tx.GasFeeCap(), Gas: tx.Gas(), To: tx.To(), Value: tx.Value(), Data: tx.Data(), AccessList: tx.AccessList(), V: v, R: r, S: sg})
	}
	return tx
}

// signerOf asks for the signers of a transaction and of what others make of it, in any order.
func signerOf(w *World) {
	first := signedTx(w.S)
	tx := first
	if w.S.Bool() {
		tx = forge(w, first)
	}
	recoverOne(w, tx)
	for n := []int{0, 0, 1, 2}[w.S.Int(4)]; n > 0; n-- {
		tx = first
		if w.S.Bool() {
			tx = forge(w, first)
		}
		recoverOne(w, tx)
	}
}

func recoverOne(w *World, tx *types.Transaction) {
	w.Class = fmt.Sprintf("type %d", tx.Type())
	var got []byte
	var err error
	w.Try("RecoverTransactionSignerAddress", func() { got, err = proof.RecoverTransactionSignerAddress(tx) })
	want, wantErr := common.Address{}, error(nil)
	want, wantErr = types.Sender(types.LatestSignerForChainID(tx.ChainId()), tx)
	v, r, s := tx.RawSignatureValues()
	w.Log("type %d, v %v: %x %v, go-ethereum %x %v", tx.Type(), v, got, err, want, wantErr)
	if err == nil {
		if wantErr != nil {
			w.Fail("invented", "a signer %x for a transaction without a valid signature (%v; v %v, r %v, s %v)", got, wantErr, v, r, s)
		}
		if !bytes.Equal(got, want[:]) {
			w.Fail("wrong", "signer %x, go-ethereum recovers %x (v %v)", got, want, v)
		}
		return
	}
	if wantErr == nil && (tx.Type() == 2 || tx.Type() == 0 && tx.Protected()) {
		w.Fail("refused", "%v for a valid transaction of type %d signed by %x", err, tx.Type(), want)
	}
	if len(got) != 0 {
		w.Fail("both", "an address and the error %v", err)
	}
}

func drawReceipt(s *engine.Src) *types.Receipt {
	r := &types.Receipt{Type: []uint8{0, 2, 2, 1, 3}[s.Int(5)], Status: uint64(s.Int(2)), CumulativeGasUsed: s.U64() >> uint(s.Int(64))}
	if s.Chance(1, 10) {
		r.PostState = s.Bytes(32)
	}
	for i := s.Int(4); i > 0; i-- {
		l := &types.Log{Address: common.BytesToAddress(s.Bytes(20)), Data: s.Bytes([]int{0, 31, 32, 64, 200}[s.Int(5)])}
		for k := s.Int(5); k > 0; k-- {
			l.Topics = append(l.Topics, common.BytesToHash(s.Bytes(32)))
		}
		r.Logs = append(r.Logs, l)
	}
	r.Bloom = types.CreateBloom(types.Receipts{r})
	return r
}

// rawReceipt encodes a receipt, and again when the node corrected it.
func rawReceipt(w *World) {
	r := drawReceipt(w.S)
	r.TxHash, r.BlockHash = common.BytesToHash(w.S.Bytes(32)), common.BytesToHash(w.S.Bytes(32))
	encodeReceipt(w, r)
	if w.S.Chance(1, 3) {
		if w.S.Bool() {
			c := *r
			r = &c
		}
		switch n := drawReceipt(w.S); w.S.Int(4) {
		case 0:
			r.CumulativeGasUsed++
		case 1:
			r.Logs, r.Bloom = n.Logs, n.Bloom
		case 2:
			r.Status, r.PostState = 1-r.Status&1, nil
		case 3:
			r.Type = n.Type
		}
		w.Fault("receipt-corrected")
		encodeReceipt(w, r)
	}
}

func encodeReceipt(w *World, r *types.Receipt) {
	w.Class = fmt.Sprintf("receipt type %d", r.Type)
	r.TransactionIndex = uint(w.S.Int(300))
	switch w.S.Int(12) {
	case 0:
		r.TransactionIndex = 1 << uint(20+w.S.Int(5))
		w.Fault("byzantine-index")
	case 1:
		r.Type = uint8([]int{0x7e, 0x64, 4, 0x7f}[w.S.Int(4)])
		w.Fault("unknown-type")
		w.Class = "unknown type"
	case 2:
		w.Try("GetReceiptRaw(nil)", func() {
			if b, err := proof.GetReceiptRaw(nil); err == nil {
				w.Fail("invented", "GetReceiptRaw(nil) gives %x", b)
			}
		})
	}
	var m0, m1 runtime.MemStats
	var b []byte
	var err error
	runtime.ReadMemStats(&m0)
	w.Try("GetReceiptRaw", func() { b, err = proof.GetReceiptRaw(r) })
	runtime.ReadMemStats(&m1)
	w.Log("GetReceiptRaw of type %d at %d: %d bytes, %v", r.Type, r.TransactionIndex, len(b), err)
	if d := m1.TotalAlloc - m0.TotalAlloc; d > 64<<20 {
		runtime.GC()
		w.Fail("memory", "GetReceiptRaw of one receipt at index %d allocates more than 64 MB", r.TransactionIndex)
	}
	if err != nil {
		if r.Type <= 3 {
			w.Fail("refused", "GetReceiptRaw: %v", err)
		}
		return
	}
	want, e := r.MarshalBinary()
	must(e)
	if !bytes.Equal(b, want) {
		w.Fail("wrong", "GetReceiptRaw of a type %d receipt gives %x, its encoding is %x", r.Type, b, want)
	}
}

// drawBlock makes a block and its receipts.
func drawBlock(s *engine.Src) (*types.Block, []*types.Transaction, types.Receipts) {
	n := []int{0, 1, 2, s.Range(3, 20), s.Range(120, 140), s.Range(250, 300)}[s.Int(6)]
	var txs []*types.Transaction
	var rs types.Receipts
	var proto []*types.Transaction
	for i := 0; i < min(n, 5); i++ {
		proto = append(proto, signedTx(s))
	}
	tiny := s.Chance(1, 12)
	for i := 0; i < n; i++ {
		if tiny && s.Chance(2, 3) { // unsigned, and small enough to live inside the node above its leaf
			txs = append(txs, types.NewTx(&types.LegacyTx{Nonce: uint64(s.Int(3)), V: new(big.Int), R: new(big.Int), S: new(big.Int), GasPrice: new(big.Int), Value: new(big.Int), Data: s.Bytes(s.Int(24))}))
		} else if i < len(proto) {
			txs = append(txs, proto[i])
		} else { // signatures cost time; the proof code does not look at them
			txs = append(txs, types.NewTx(&types.LegacyTx{Nonce: uint64(i), Gas: 21000, GasPrice: big.NewInt(1), Value: big.NewInt(int64(i)), Data: s.Bytes(s.Int(40)), V: big.NewInt(37), R: fakeSig(i), S: fakeSig(-i - 1)}))
		}
		r := &types.Receipt{Status: 1, CumulativeGasUsed: uint64(i) * 21000}
		if i < 8 {
			r = drawReceipt(s)
		}
		rs = append(rs, r)
	}
	h := &types.Header{Number: big.NewInt(int64(s.Int(20000000))), Difficulty: big.NewInt(0), GasLimit: 30000000}
	var body types.Body
	body.Transactions = txs
	return types.NewBlock(h, &body, rs, trie.NewStackTrie(nil)), txs, rs
}

// tamper changes what a node serves without touching the header.
func tamper[T any](w *World, l []T, other func() T) []T {
	out := append([]T{}, l...)
	if len(out) == 0 {
		w.Fault("byzantine-insert")
		return append(out, other())
	}
	i := w.S.Int(len(out))
	switch w.S.Int(5) {
	case 0:
		w.Fault("byzantine-drop")
		return append(out[:i], out[i+1:]...)
	case 1:
		w.Fault("byzantine-duplicate")
		return append(out[:i+1], l[i:]...)
	case 2:
		j := w.S.Int(len(out))
		w.Fault("byzantine-swap")
		out[i], out[j] = out[j], out[i]
		return out
	case 3:
		w.Fault("byzantine-alter")
		out[i] = other()
		return out
	}
	w.Fault("byzantine-insert")
	return append(out, other())
}

func memberProofs(w *World) {
	bk, txs, rs := drawBlock(w.S)
	receipts := w.S.Bool()
	var items [][]byte
	if receipts {
		w.Class = "receipt"
		for _, r := range rs {
			b, err := r.MarshalBinary()
			must(err)
			items = append(items, b)
		}
	} else {
		w.Class = "transaction"
		for _, t := range txs {
			b, err := t.MarshalBinary()
			must(err)
			items = append(items, b)
		}
	}
	root := bk.TxHash()
	if receipts {
		root = bk.ReceiptHash()
	}
	idx := 0
	switch w.S.Int(6) {
	case 0:
		idx = []int{-1, len(items), len(items) + 1, 127, 128, 255, 256, 1 << 20, -1 << 40}[w.S.Int(9)]
		w.Fault("index-out-of-range")
	default:
		idx = w.S.Int(len(items))
	}
	if w.S.Chance(1, 4) { // somebody asked before
		j := idx
		if w.S.Bool() {
			j = w.S.Int(len(items) + 1)
		}
		proveMember(w, receipts, bk, rs, items, root, j, false)
	}
	honestBk, honestRs := bk, rs
	tampered := w.S.Chance(2, 5)
	if tampered {
		if receipts {
			rs = tamper(w, rs, func() *types.Receipt { return drawReceipt(w.S) })
		} else {
			txs = tamper(w, txs, func() *types.Transaction { return signedTx(w.S) })
			bk = types.NewBlockWithHeader(bk.Header()).WithBody(types.Body{Transactions: txs})
		}
	}
	proveMember(w, receipts, bk, rs, items, root, idx, tampered)
	if tampered && w.S.Bool() { // another node serves the real ones
		proveMember(w, receipts, honestBk, honestRs, items, root, idx, false)
	}
}

func proveMember(w *World, receipts bool, bk *types.Block, rs types.Receipts, items [][]byte, root common.Hash, idx int, tampered bool) {
	var nodes [][]byte
	var key, prefix []byte
	var err error
	w.Try("the proof of item "+fmt.Sprint(idx), func() {
		if receipts {
			nodes, key, prefix, err = proof.GetReceiptProof(bk, rs, idx)
		} else {
			nodes, key, prefix, err = proof.GetTransactionProof(bk, idx)
		}
	})
	w.Log("%s %d of %d, tampered %v: %d nodes, %v", w.Class, idx, len(items), tampered, len(nodes), err)
	if err != nil {
		if !tampered && idx >= 0 && idx < len(items) && len(items[idx]) >= 32 {
			w.Fail("refused", "no proof of %s %d of %d: %v", w.Class, idx, len(items), err)
		}
		return
	}
	if idx < 0 || idx >= len(items) {
		w.Fail("invented", "a proof for %s %d of a block of %d", w.Class, idx, len(items))
	}
	if want := rlp.AppendUint64(nil, uint64(idx)); !bytes.Equal(key, want) {
		w.Fail("wrong-key", "key %x for index %d", key, idx)
	}
	db := memorydb.New()
	for _, n := range nodes {
		db.Put(crypto.Keccak256(n), n)
	}
	val, e := trie.VerifyProof(root, key, db)
	if e != nil {
		w.Fail("unsound", "the proof of %s %d of %d does not verify against the header: %v", w.Class, idx, len(items), e)
	}
	if !bytes.Equal(val, items[idx]) {
		w.Fail("unsound", "the proof of %s %d of %d proves another value", w.Class, idx, len(items))
	}
	if crypto.Keccak256Hash(nodes[0]) != root {
		w.Fail("order", "the first node of the proof is not the root")
	}
	if last := nodes[len(nodes)-1]; !bytes.Equal(append(append([]byte{}, prefix...), items[idx]...), last) {
		w.Fail("prefix", "the leaf is not the given prefix followed by the item")
	}
}

func headersFrom(w *World) {
	w.Class = "headers"
	n := w.S.Range(1, 4)
	var hs []types.Header
	ok := true
	for i := 0; i < n; i++ {
		h := types.Header{Difficulty: bigUpTo(w.S, 56), Number: bigUpTo(w.S, 64), GasLimit: w.S.U64() >> 32, GasUsed: w.S.U64() >> 32, Time: w.S.U64() >> 32, BaseFee: bigUpTo(w.S, 56),
			Extra: w.S.Bytes(w.S.Int(33)), ParentHash: common.BytesToHash(w.S.Bytes(32)), Coinbase: common.BytesToAddress(w.S.Bytes(20)), Root: common.BytesToHash(w.S.Bytes(32)), MixDigest: common.BytesToHash(w.S.Bytes(32))}
		if w.S.Bool() {
			x := common.BytesToHash(w.S.Bytes(32))
			h.WithdrawalsHash = &x
			if w.S.Bool() {
				a, b := w.S.U64(), w.S.U64()
				h.BlobGasUsed, h.ExcessBlobGas, h.ParentBeaconRoot = &a, &b, &x
			}
		}
		if w.S.Chance(1, 4) {
			w.Fault("byzantine-header")
			switch w.S.Int(9) {
			case 0:
				h.Extra = w.S.Bytes(w.S.Int(1000))
			case 1:
				h.Difficulty = bigUpTo(w.S, 200)
			case 2:
				h.GasLimit = w.S.U64()
			case 3:
				h.Time = w.S.U64()
			case 4:
				h.BaseFee = bigUpTo(w.S, 128)
			case 5:
				h.BaseFee, h.WithdrawalsHash, h.BlobGasUsed, h.ExcessBlobGas, h.ParentBeaconRoot = nil, nil, nil, nil, nil
			case 6:
				h.Number = bigUpTo(w.S, 100)
			case 7:
				h.Difficulty = nil
			case 8:
				h.Number = nil
			}
		}
		b, err := rlp.EncodeToBytes(&h)
		if err != nil || len(b) >= 5*136 {
			ok = false
		}
		hs = append(hs, h)
	}
	encodeHeaders(w, hs, ok)
	if ok && w.S.Chance(1, 4) { // a reorganised chain, in the same memory
		h := &hs[w.S.Int(n)]
		switch w.S.Int(4) {
		case 0:
			h.Time ^= 1
		case 1:
			h.Root = common.BytesToHash(w.S.Bytes(32))
		case 2:
			h.MixDigest = common.BytesToHash(w.S.Bytes(32))
		case 3:
			h.GasUsed ^= 1
		}
		encodeHeaders(w, hs, ok)
	}
}

func encodeHeaders(w *World, hs []types.Header, ok bool) {
	n := len(hs)
	var err error
	var enc [][]uint
	var idx []int
	w.Try("EncodeHeaders", func() {
		a, b, e := smt.EncodeHeaders(hs)
		err = e
		if e != nil {
			return
		}
		for _, x := range a {
			var bits []uint
			for _, v := range x {
				switch t := v.(type) {
				case uint8:
					bits = append(bits, uint(t))
				case int:
					bits = append(bits, uint(t))
				default:
					bits = append(bits, uint(new(big.Int).SetBytes([]byte(fmt.Sprint(t))).Uint64()))
				}
			}
			enc = append(enc, bits)
		}
		for _, v := range b {
			i, _ := v.(int)
			idx = append(idx, i)
		}
	})
	w.Log("EncodeHeaders of %d: %v", n, err != nil)
	if err != nil {
		if !w.Faulted() {
			w.Fail("refused", "EncodeHeaders: %v", err)
		}
		return
	}
	if !ok {
		w.Fail("invented", "EncodeHeaders accepts a header that does not fit five blocks")
	}
	if len(enc) != n || len(idx) != n {
		w.Fail("count", "EncodeHeaders of %d headers gives %d and %d", n, len(enc), len(idx))
	}
	for i := range hs {
		if len(enc[i]) != 5*1088 {
			w.Fail("length", "the encoding of header %d has %d bits", i, len(enc[i]))
		}
		b, _ := rlp.EncodeToBytes(&hs[i])
		rounds := len(b)/136 + 1
		if idx[i] != rounds-1 {
			w.Fail("round", "header %d of %d bytes is said to end in round %d", i, len(b), idx[i])
		}
		pad := make([]byte, rounds*136)
		copy(pad, b)
		pad[len(b)] ^= 1
		pad[len(pad)-1] ^= 0x80
		for k, v := range enc[i] {
			want := uint(0)
			if k/8 < len(pad) {
				want = uint(pad[k/8]>>uint(k%8)) & 1
			}
			if v != want {
				w.Fail("bits", "bit %d of the encoding of header %d is %d", k, i, v)
			}
		}
	}
}

func init() {
	registry = append(registry,
		&Scen{Prop: "C29", Name: "member-proofs", Runs: 6000, Fn: memberProofs},
		&Scen{Prop: "C30", Name: "signer", Runs: 60000, Fn: signerOf},
		&Scen{Prop: "C30", Name: "raw-receipt", Runs: 6000, Fn: rawReceipt},
		&Scen{Prop: "C33", Name: "headers", Runs: 20000, Fn: headersFrom},
	)
	assumptions["C29"] = []string{"the block header is authentic; transactions, receipts and indexes are what a Byzantine node says"}
}

// fakeSig is a number of the size of a real signature half.
func fakeSig(i int) *big.Int {
	h := crypto.Keccak256([]byte(fmt.Sprint(i)))
	h[0] = h[0]&0x3f | 0x20
	return new(big.Int).SetBytes(h)
}
