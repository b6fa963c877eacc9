package circ

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"

	"github.com/brevis-network/zk-utils/circuits/gadgets/mpt"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"zksim/engine"
)

func init() {
	registry["C05"] = ethScenarios
}

const headHex = mpt.EthBlockHeadMaxBlockHexSize

// header is one block header: its fields in order.
type header struct {
	fields [][]byte
	enc    []byte
	fits   bool // within the circuit's declared maxima
}

var headMin = []int{64, 64, 40, 64, 64, 64, 512, 0, 0, 0, 0, 0, 0, 64, 16, 0, 64}
var headMax = []int{64, 64, 40, 64, 64, 64, 512, 14, 16, 8, 8, 8, 2000, 64, 18, 16, 64}

func drawHeader(s *Src, stateRoot []byte) *header {
	num := func(n int) []byte { return new(big.Int).SetBytes(s.Plain(n)).Bytes() }
	pick := func(ns ...int) int { return ns[s.Int(len(ns))] }
	h := &header{}
	diff := num(pick(0, 0, 1, 6, 7))
	if s.Chance(1, 12) {
		diff = num(pick(8, 9))
	}
	gas := num(pick(3, 4, 4, 4))
	if s.Chance(1, 12) {
		gas = num(pick(5, 7))
	}
	time := s.Plain(4)
	time[0] |= 0x40
	number := num(pick(1, 2, 3, 3, 4))
	if s.Chance(1, 12) {
		number = nil
	}
	bloom := s.Plain(256)
	if s.Bool() {
		bloom = make([]byte, 256)
	}
	h.fields = [][]byte{s.Plain(32), s.Plain(32), s.Plain(20), stateRoot, s.Plain(32), s.Plain(32), bloom,
		diff, number, gas, num(pick(0, 1, 3, 4)), time, s.Plain(pick(0, 1, 2, 5, 24, 31, 32, 32, 97, 55, 56, 190, 300)), s.Plain(32), s.Plain(8), num(pick(0, 1, 4, 5, 8)), s.Plain(32)}
	h.fields = h.fields[:pick(15, 16, 17, 17)]
	h.encode()
	return h
}

func (h *header) encode() {
	items := make([]rlpItem, len(h.fields))
	h.fits = true
	for i, f := range h.fields {
		items[i] = rlpStr(f)
		if 2*len(f) < headMin[i] || 2*len(f) > headMax[i] {
			h.fits = false
		}
	}
	h.enc = rlpList(items).bytes()
	if len(h.enc)/136+1 > headHex/272 {
		h.fits = false
	}
}

func (h *header) hash() []byte { return keccak256(h.enc) }
func (h *header) number() *big.Int {
	return new(big.Int).SetBytes(h.fields[8])
}

// headIn is the header part of an input.
func headIn(h *header, enc []byte) []fr.Element {
	return append(engine.Frs(padHex(enc, headHex)), engine.Fr(len(h.fields)), engine.Fr(len(enc)/136))
}

func defineHeader(api API, in []V) []V {
	c := &cutter{in}
	var b [headHex]V
	copy(b[:], c.take(headHex))
	n := c.one()
	r := mpt.CheckEthBlockHash(api, b, n, c.one())
	out := []V{r.Output, r.BlockNumberLength}
	out = append(out, r.BlockHash[:]...)
	out = append(out, r.BlockNumber[:]...)
	out = append(out, r.BlockTime[:]...)
	out = append(out, r.StateRoot[:]...)
	out = append(out, r.TransactionsRoot[:]...)
	return append(out, r.ReceiptsRoot[:]...)
}

func eqDigits(out []fr.Element, want []byte) bool {
	for i, d := range want {
		w := engine.Fr(int(d))
		if !out[i].Equal(&w) {
			return false
		}
	}
	return true
}

func judgeHeader(hs []*header, accept *header) func([]fr.Element) error {
	return func(out []fr.Element) error {
		if accept != nil && (!out[0].IsOne() || !eqDigits(out[2:], nibbles(accept.hash()))) {
			return fmt.Errorf("a genuine header is not accepted with its hash")
		}
		if out[0].IsZero() {
			return nil
		}
		if !out[0].IsOne() {
			return fmt.Errorf("output is neither 0 nor 1")
		}
		for _, h := range hs {
			if !eqDigits(out[2:], nibbles(h.hash())) {
				continue
			}
			num := nibbles(h.fields[8])
			l := engine.Fr(len(num))
			switch {
			case !out[1].Equal(&l):
				return fmt.Errorf("block number length %s instead of %d", out[1].String(), len(num))
			case len(num) <= 8 && !eqDigits(out[66:], num):
				return fmt.Errorf("wrong block number")
			case !eqDigits(out[74:], nibbles(h.fields[11])):
				return fmt.Errorf("wrong block time")
			case !eqDigits(out[82:], nibbles(h.fields[3])):
				return fmt.Errorf("wrong state root")
			case !eqDigits(out[146:], nibbles(h.fields[4])):
				return fmt.Errorf("wrong transactions root")
			case !eqDigits(out[210:], nibbles(h.fields[5])):
				return fmt.Errorf("wrong receipts root")
			}
		}
		return nil
	}
}

func headerCase(s *Src) Case {
	h := drawHeader(s, s.Plain(32))
	in := headIn(h, h.enc)
	desc := fmt.Sprintf("%d fields, %d bytes", len(h.fields), len(h.enc))
	if s.Chance(1, 2) {
		acc := h
		if !h.fits {
			acc = nil
		}
		return Case{In: in, Accept: h.fits, Class: fmt.Sprintf("honest/fields=%d/fits=%v", len(h.fields), h.fits), Desc: desc, Judge: judgeHeader([]*header{h}, acc)}
	}
	tag := ""
	switch s.Int(4) {
	case 0:
		in[headHex].SetUint64(uint64(s.Range(14, 18)))
		tag = "fields-num"
	case 1:
		in[headHex+1].SetUint64(uint64(s.Int(9)))
		tag = "round"
	case 2:
		i := s.Int(2 * len(h.enc))
		in[i].SetUint64(uint64(s.Int(20)))
		tag = "digit"
	default: // what follows the header
		for k := 0; k < 8; k++ {
			in[2*len(h.enc)+s.Int(headHex-2*len(h.enc))].SetUint64(uint64(s.Int(16)))
		}
		tag = "padding"
	}
	return Case{In: in, Class: tag, Desc: desc + ", " + tag, Judge: judgeHeader([]*header{h}, nil)}
}

// --- account records and slot values ---

type account struct {
	nonce, balance, root, code []byte
}

func (a *account) rlp() []byte {
	return rlpList([]rlpItem{rlpStr(a.nonce), rlpStr(a.balance), rlpStr(a.root), rlpStr(a.code)}).bytes()
}

func drawAccount(s *Src, root []byte) *account {
	num := func(n int) []byte { return new(big.Int).SetBytes(s.Plain(n)).Bytes() }
	return &account{num([]int{0, 1, 2, 8}[s.Int(4)]), num([]int{0, 1, 7, 8, 12}[s.Int(5)]), root, s.Plain(32)}
}

func defineAccount(sh fixedShape) func(API, []V) []V {
	return func(api API, in []V) []V {
		c := &cutter{in}
		var key, root [64]V
		var val [228]V
		copy(key[:], c.take(64))
		copy(val[:], c.take(228))
		copy(root[:], c.take(64))
		starts := c.take(sh.depth)
		last := c.take(sh.last)
		lr, lp := c.one(), c.one()
		nodes := c.rows(sh.depth-1, mptNodeHex)
		rounds, pl, types := c.take(sh.depth-1), c.take(sh.depth-1), c.take(sh.depth-1)
		r := mpt.CheckEthAccountProof(api, sh.depth, root, key, starts, val, last, lr, lp, nodes, rounds, pl, types, c.one())
		out := []V{r.Output, r.NonceLength, r.BalanceLength}
		out = append(out, r.Nonce[:]...)
		out = append(out, r.Balance[:]...)
		out = append(out, r.StorageRoot[:]...)
		return append(out, r.CodeHash[:]...)
	}
}

func defineStorage(sh fixedShape) func(API, []V) []V {
	return func(api API, in []V) []V {
		c := &cutter{in}
		var key, root [64]V
		var val [66]V
		copy(key[:], c.take(64))
		copy(val[:], c.take(66))
		copy(root[:], c.take(64))
		starts := c.take(sh.depth)
		last := c.take(sh.last)
		lr, lp := c.one(), c.one()
		nodes := c.rows(sh.depth-1, mptNodeHex)
		rounds, pl, types := c.take(sh.depth-1), c.take(sh.depth-1), c.take(sh.depth-1)
		r := mpt.CheckEthStorageProof(api, sh.depth, root, key, val, starts, last, lr, lp, nodes, rounds, pl, types, c.one())
		return []V{r.Output, r.SlotValue[0], r.SlotValue[1]}
	}
}

// slotWord is the pair of field elements that stands for a stored word.
func slotWord(val []byte) [2]fr.Element {
	if val == nil {
		return [2]fr.Element{}
	}
	b := val
	if b[0] >= 0x80 {
		b = b[1:]
	}
	if len(b) == 32 {
		return [2]fr.Element{engine.Fr(new(big.Int).SetBytes(b[1:])), engine.Fr(int(b[0]))}
	}
	return [2]fr.Element{engine.Fr(new(big.Int).SetBytes(b)), engine.Fr(0)}
}

func wrapJudge(base func([]fr.Element) error, more func([]fr.Element) error) func([]fr.Element) error {
	return func(out []fr.Element) error {
		if err := base(out); err != nil || out[0].IsZero() {
			return err
		}
		return more(out)
	}
}

// partCase is a case of the account or storage proof with the exposed fields checked.
func partCase(s *Src, sh fixedShape) Case {
	mode := []string{"in", "honest", "honest"}[s.Int(3)]
	if sh.storage && s.Chance(1, 3) {
		mode = "out"
	}
	w, p, k := fixedCaseOf(s, sh, mode)
	accept := k.Accept
	k.Judge = func(out []fr.Element) error {
		if accept && !out[0].IsOne() && (sh.storage || w.val != nil) {
			return fmt.Errorf("a genuine proof gets output %s", out[0].String())
		}
		if out[0].IsZero() {
			return nil
		}
		n := w.t.byH[string(p.root)]
		if n == nil {
			return fmt.Errorf("output 1, but no node of the trie has the claimed root hash")
		}
		val, _, _ := n.get(p.key)
		if sh.storage {
			want := slotWord(val)
			if !out[1].Equal(&want[0]) || !out[2].Equal(&want[1]) {
				return fmt.Errorf("output 1 and slot value (%s, %s), the trie has %x", out[1].String(), out[2].String(), val)
			}
			return nil
		}
		if val == nil {
			return fmt.Errorf("output 1, but the trie has no such account")
		}
		_, fs, err := rlpDecode(val, 4, false)
		if err != nil {
			return err
		}
		f := make([][]byte, 4)
		for i := range f {
			f[i] = nibbles(val)[fs[i].off : fs[i].off+fs[i].n]
		}
		ln, lb := engine.Fr(len(f[0])), engine.Fr(len(f[1]))
		switch {
		case !out[1].Equal(&ln) || !eqDigits(out[3:], f[0]):
			return fmt.Errorf("wrong nonce")
		case !out[2].Equal(&lb) || !eqDigits(out[67:], f[1]):
			return fmt.Errorf("wrong balance")
		case !eqDigits(out[91:], f[2]):
			return fmt.Errorf("wrong storage root")
		case !eqDigits(out[155:], f[3]):
			return fmt.Errorf("wrong code hash")
		}
		return nil
	}
	return k
}

// --- the composition ---

type composedShape struct{ acc, sto fixedShape }

func (sh composedShape) nIn() int {
	return 64 + headHex + 2 + sh.acc.nIn() - 64 + sh.sto.nIn() - 64
}

func (sh composedShape) define(api API, in []V) []V {
	c := &cutter{in}
	var bh, ah, slot [64]V
	var hr [headHex]V
	var ar [228]V
	var vr [66]V
	copy(bh[:], c.take(64))
	copy(hr[:], c.take(headHex))
	hn, hi := c.one(), c.one()
	part := func(sh fixedShape, key *[64]V, val []V) (starts, last []V, lr, lp V, nodes [][]V, rounds, pl, types []V, depth V) {
		copy(key[:], c.take(64))
		copy(val, c.take(sh.value))
		starts = c.take(sh.depth)
		last = c.take(sh.last)
		lr, lp = c.one(), c.one()
		nodes = c.rows(sh.depth-1, mptNodeHex)
		rounds, pl, types = c.take(sh.depth-1), c.take(sh.depth-1), c.take(sh.depth-1)
		depth = c.one()
		return
	}
	as, al, alr, alp, an, ari, apl, aty, ad := part(sh.acc, &ah, ar[:])
	var rounds9 [mpt.AccountMPTMaxDepth - 1]V
	for i := range rounds9 {
		rounds9[i] = 0
	}
	copy(rounds9[:], ari)
	ss, sl, slr, slp, sn, sri, spl, sty, sd := part(sh.sto, &slot, vr[:])
	r := mpt.CheckEthAddressStorageProof(api, sh.acc.depth, sh.sto.depth, bh, hn, hi, ah, slot, hr, as, ar, al, alr, alp, an, rounds9, apl, aty, ad,
		ss, vr, sl, slr, slp, sn, sri, spl, sty, sd)
	return []V{r.Output, r.BlockNumber, r.SlotValue[0], r.SlotValue[1]}
}

func dropRoot(sh fixedShape, in []fr.Element) []fr.Element {
	r := append([]fr.Element{}, in[:64+sh.value]...)
	return append(r, in[64+sh.value+64:]...)
}

type chainBlock struct {
	head  *header
	state *fixedWorld
}

func composedCase(s *Src, sh composedShape) Case {
	// contracts: storage tries by root
	stores := map[string]*fixedWorld{}
	mkStore := func() *fixedWorld {
		w := goodTrie(s, sh.sto, nil)
		stores[string(w.t.root.hash())] = w
		return w
	}
	var blocks []*chainBlock
	nb := s.Range(1, 2)
	for i := 0; i < nb; i++ {
		own := mkStore()
		a := drawAccount(s, own.t.root.hash())
		st := goodTrie(s, sh.acc, a.rlp())
		if i > 0 && s.Bool() { // the same account, later
			kv := map[string][]byte{}
			for k, v := range blocks[0].state.t.kv {
				kv[k] = v
			}
			kv[string(blocks[0].state.key)] = a.rlp()
			st = &fixedWorld{t: buildTrie(kv), key: blocks[0].state.key}
		} else {
			// another contract in the same state
			if k := anyKey(s, st.t); k != string(st.key) {
				kv := map[string][]byte{}
				for k, v := range st.t.kv {
					kv[k] = v
				}
				kv[k] = drawAccount(s, mkStore().t.root.hash()).rlp()
				st = &fixedWorld{t: buildTrie(kv), key: st.key}
			}
		}
		st.val, st.nodes, st.at = st.t.root.get(st.key)
		blocks = append(blocks, &chainBlock{drawHeader(s, st.t.root.hash()), st})
	}
	rootOf := func(val []byte) []byte {
		_, fs, err := rlpDecode(val, 4, false)
		if err != nil {
			return nil
		}
		return val[fs[2].off/2 : (fs[2].off+fs[2].n)/2]
	}
	b := blocks[0]
	store := stores[string(rootOf(b.state.val))]
	if s.Chance(1, 3) {
		store.absent(s)
	}
	hash, head, enc := b.head.hash(), b.head, b.head.enc
	ap, sp := b.state.proof(sh.acc), store.proof(sh.sto)
	desc := fmt.Sprintf("%d blocks, state path %s, storage path %s, header of %d fields", nb, pathDesc(b.state.nodes), pathDesc(store.nodes), len(head.fields))
	tag := ""
	honest := s.Chance(2, 5)
	var all []*fixedWorld
	for _, k := range sortedKeys(stores) {
		all = append(all, stores[k])
	}
	for try := 0; !honest && tag == "" && try < 9; try++ {
		other := blocks[nb-1]
		if s.Chance(1, 4) {
			hash = other.head.hash()
			tag += "/hash"
		}
		if s.Chance(1, 4) {
			head, enc = other.head, other.head.enc
			tag += "/header"
		}
		if s.Chance(1, 8) { // a header with another state root
			h := *head
			h.fields = append([][]byte{}, h.fields...)
			h.fields[3] = other.state.t.root.hash()
			if s.Bool() {
				h.fields[3] = s.Plain(32)
			}
			h.encode()
			head, enc = &h, h.enc
			tag += "/forged-header"
		}
		if s.Chance(1, 3) { // another account's or another block's account proof
			w := &fixedWorld{t: other.state.t, key: []byte(anyKey(s, other.state.t))}
			w.val, w.nodes, w.at = w.t.root.get(w.key)
			q := w.proof(sh.acc)
			if s.Bool() {
				q.key = ap.key
			}
			ap = q
			tag += "/account"
		}
		if s.Chance(1, 5) { // another record
			ap.value = nibbles(drawAccount(s, all[s.Int(len(all))].t.root.hash()).rlp())
			tag += "/record"
		}
		if s.Chance(1, 3) { // another storage trie's proof
			w := all[s.Int(len(all))]
			q := w.proof(sh.sto)
			if s.Chance(1, 3) {
				q.key = sp.key
			}
			sp = q
			tag += "/storage"
		}
		if s.Chance(1, 5) {
			sp.value = nibbles(storageValue(s, false))
			tag += "/value"
		}
		if s.Chance(1, 8) {
			sp.value = absentValue
			tag += "/zero"
		}
	}
	in := append(engine.Frs(nibbles(hash)), headIn(head, enc)...)
	if !honest && s.Chance(1, 10) {
		in[64+headHex].SetUint64(uint64(s.Range(14, 18)))
		tag += "/fields-num"
	}
	in = append(in, dropRoot(sh.acc, ap.fixed(sh.acc))...)
	in = append(in, dropRoot(sh.sto, sp.fixed(sh.sto))...)
	accept := honest && b.head.fits
	// what the claim says, from the reference model
	var wantNum fr.Element
	var want [2]fr.Element
	truth := fmt.Errorf("no block has the claimed hash")
	for _, k := range blocks {
		if !bytes.Equal(k.head.hash(), hash) {
			continue
		}
		wantNum = engine.Fr(k.head.number())
		val, _, _ := k.state.t.root.get(ap.key)
		if val == nil {
			truth = fmt.Errorf("the state of that block has no such account")
			break
		}
		w := stores[string(rootOf(val))]
		if w == nil {
			truth = fmt.Errorf("the account of that block has no modelled storage")
			break
		}
		v, _, _ := w.t.root.get(sp.key)
		want, truth = slotWord(v), nil
	}
	class := "honest"
	if !honest {
		class = "mixed" + tag
	} else if !b.head.fits {
		class = "honest/oversized"
	}
	return Case{In: in, Accept: accept, Class: class, Desc: desc + " " + tag, Judge: func(out []fr.Element) error {
		if out[0].IsZero() {
			if accept {
				return fmt.Errorf("a genuine proof gets output 0")
			}
			return nil
		}
		switch {
		case !out[0].IsOne():
			return fmt.Errorf("output is neither 0 nor 1")
		case truth != nil:
			return fmt.Errorf("output 1 for a false claim: %v", truth)
		case !out[1].Equal(&wantNum):
			return fmt.Errorf("output 1 with block number %s instead of %s", out[1].String(), wantNum.String())
		case !out[2].Equal(&want[0]) || !out[3].Equal(&want[1]):
			return fmt.Errorf("output 1 with slot value (%s, %s) instead of (%s, %s)", out[2].String(), out[3].String(), want[0].String(), want[1].String())
		}
		return nil
	}}
}

func ethScenarios(tier string) []*Scenario {
	d := 2
	if tier == "thorough" {
		d = 3
	}
	acc := fixedShape{depth: d, value: 228, last: 544}
	sto := fixedShape{depth: d, value: 66, last: 1088, storage: true}
	all := composedShape{acc, sto}
	st := []string{permStub}
	return []*Scenario{
		{Name: "header", NIn: headHex + 2, Define: withIdealPermutation(defineHeader), Cases: 120, Attacks: 2, Repairs: 3, Stubs: st, Gen: headerCase},
		{Name: "account", NIn: acc.nIn(), Define: withIdealPermutation(defineAccount(acc)), Cases: 120, Attacks: 2, Repairs: 3, Stubs: st,
			Gen: func(s *Src) Case { return partCase(s, acc) }},
		{Name: "storage", NIn: sto.nIn(), Define: withIdealPermutation(defineStorage(sto)), Cases: 160, Attacks: 2, Repairs: 3, Stubs: st,
			Gen: func(s *Src) Case { return partCase(s, sto) }},
		{Name: "composed", NIn: all.nIn(), Define: withIdealPermutation(all.define), Cases: 120, Attacks: 2, Repairs: 3, Stubs: st,
			Gen: func(s *Src) Case { return composedCase(s, all) }},
	}
}

func sortedKeys[T any](m map[string]T) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
