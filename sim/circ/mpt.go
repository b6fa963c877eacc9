package circ

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"

	"github.com/brevis-network/zk-utils/circuits/gadgets/mpt"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	gethtrie "github.com/ethereum/go-ethereum/trie"
	"zksim/engine"
)

func init() {
	registry["C01"] = func(tier string) []*Scenario { return mptScenarios(tier, "C01") }
	registry["C02"] = func(tier string) []*Scenario { return mptScenarios(tier, "C02") }
	registry["C03"] = func(tier string) []*Scenario { return mptScenarios(tier, "C03") }
	registry["C04"] = func(tier string) []*Scenario { return mptScenarios(tier, "C04") }
	a := []string{
		permStub,
		"Keccak-256 is collision and preimage resistant: cases contain no hash collisions, and shorter-than-block or unpadded node encodings that would need one are not searched for",
		"tries without embedded nodes (every node but the root encodes to at least 32 bytes), as in state, storage, transaction and receipt tries of practical size",
		"digits beyond the length of the claimed value are not part of the claim",
	}
	for _, p := range []string{"C01", "C02", "C03", "C04", "C05"} {
		assumptions[p] = a
	}
}

const mptNodeHex = 1088

// fixedShape is one configuration of the fixed-key-length circuit.
type fixedShape struct {
	depth, value, last int
	storage            bool
}

// proof is what the prover hands to the circuit.
type proof struct {
	key, value []byte // digits
	root       []byte
	starts     []int
	last       []byte
	lastRound  int
	lastPL     int
	nodes      [][]byte
	rounds     []int
	pl         []int
	types      []int
	depth      fr.Element
	leaf       []byte // variable-key circuit: the leaf hash the proof is about
	klen       int
}

func padHex(msg []byte, n int) []byte {
	b := nibbles(padRef(msg))
	if len(b) > n {
		b = b[:n]
	}
	return append(b, make([]byte, n-len(b))...)
}

func parity(path []byte) int {
	if len(path)%2 == 1 {
		return 1
	}
	return 2
}

func (n *trieNode) pl() int {
	if n.kind == nodeBranch {
		return 0
	}
	return parity(n.path)
}

// setPath fills in the honest proof along nodes; end is the position of unused layers.
func (p *proof) setPath(nodes []*trieNode, at []int, maxDepth, end int, leafLast bool) {
	n := len(nodes)
	p.starts = make([]int, maxDepth)
	for i := range p.starts {
		p.starts[i] = end
		if i < n {
			p.starts[i] = at[i]
		}
	}
	p.nodes = make([][]byte, maxDepth-1)
	p.rounds = make([]int, maxDepth-1)
	p.pl = make([]int, maxDepth-1)
	p.types = make([]int, maxDepth-1)
	for i := 0; i < n-1 && i < maxDepth-1; i++ {
		p.setNode(i, nodes[i])
	}
	p.depth.SetUint64(uint64(n))
	if leafLast {
		l := nodes[n-1]
		p.last, p.lastRound, p.lastPL = l.enc, len(l.enc)/136, l.pl()
	}
}

func (p *proof) setNode(i int, n *trieNode) {
	p.nodes[i], p.rounds[i], p.pl[i], p.types[i] = n.enc, len(n.enc)/136, n.pl(), 0
	if n.kind == nodeExt {
		p.types[i] = 1
	}
}

func (p *proof) tail(in []fr.Element) []fr.Element {
	for _, n := range p.nodes {
		b := make([]byte, mptNodeHex)
		if n != nil {
			b = padHex(n, mptNodeHex)
		}
		in = append(in, engine.Frs(b)...)
	}
	in = append(in, engine.Frs(p.rounds)...)
	in = append(in, engine.Frs(p.pl)...)
	in = append(in, engine.Frs(p.types)...)
	return append(in, p.depth)
}

func (p *proof) fixed(sh fixedShape) []fr.Element {
	var in []fr.Element
	in = append(in, engine.Frs(p.key)...)
	in = append(in, engine.Frs(append(append([]byte{}, p.value...), make([]byte, sh.value-len(p.value))...))...)
	in = append(in, engine.Frs(nibbles(p.root))...)
	in = append(in, engine.Frs(p.starts)...)
	in = append(in, engine.Frs(padHex(p.last, sh.last))...)
	in = append(in, engine.Fr(p.lastRound), engine.Fr(p.lastPL))
	return p.tail(in)
}

type cutter struct{ in []V }

func (c *cutter) take(n int) []V { r := c.in[:n]; c.in = c.in[n:]; return r }
func (c *cutter) one() V         { return c.take(1)[0] }
func (c *cutter) rows(n, w int) [][]V {
	r := make([][]V, n)
	for i := range r {
		r[i] = c.take(w)
	}
	return r
}

func (sh fixedShape) nIn() int {
	return 64 + sh.value + 64 + sh.depth + sh.last + 2 + (sh.depth-1)*(mptNodeHex+3) + 1
}

func (sh fixedShape) define(api API, in []V) []V {
	c := &cutter{in}
	key := c.take(64)
	value := c.take(sh.value)
	var root [64]V
	copy(root[:], c.take(64))
	starts := c.take(sh.depth)
	last := c.take(sh.last)
	lr, lp := c.one(), c.one()
	nodes := c.rows(sh.depth-1, mptNodeHex)
	rounds, pl, types := c.take(sh.depth-1), c.take(sh.depth-1), c.take(sh.depth-1)
	r := mpt.CheckMPTInclusionFixedKeyLength(api, sh.depth, 64, sh.value, key, value, root, starts, last, lr, lp, nodes, rounds, pl, types, c.one(), sh.storage)
	return []V{r.Output, r.ValueLength}
}

// --- generation of tries ---

func digits(s *Src, n int) []byte {
	r := s.Plain(n)
	for i := range r {
		r[i] &= 15
	}
	return r
}

// storageValue is the RLP of a non-zero word without leading zeros.
func storageValue(s *Src, wide bool) []byte {
	n := []int{1, 1, 2, 8, 20, 31, 32, 32}[s.Int(8)]
	if wide {
		n = 32
	}
	v := s.Plain(n)
	if v[0] == 0 {
		v[0] = byte(1 + s.Int(255))
	}
	if n == 1 {
		v[0] = []byte{1, 0x7f, 0x80, 0xff, v[0]}[s.Int(5)]
	}
	return rlpStr(v).bytes()
}

// accountValue is the RLP of an account record.
func accountValue(s *Src) []byte {
	nonce := rlpStr(new(big.Int).SetBytes(s.Plain([]int{0, 1, 2, 8}[s.Int(4)])).Bytes())
	bal := rlpStr(new(big.Int).SetBytes(s.Plain([]int{0, 1, 7, 8, 12}[s.Int(5)])).Bytes())
	return rlpList([]rlpItem{nonce, bal, rlpStr(s.Plain(32)), rlpStr(s.Plain(32))}).bytes()
}

// fixedTrie draws a trie around a key; the key's own path has at most max nodes when present.
type fixedWorld struct {
	t     *trie
	key   []byte
	nodes []*trieNode
	at    []int
	val   []byte
}

func fixedTrie(s *Src, sh fixedShape, max int) *fixedWorld { return fixedTrieOf(s, sh, max, nil) }

func fixedTrieOf(s *Src, sh fixedShape, max int, own []byte) *fixedWorld {
	key := digits(s, 64)
	if s.Chance(1, 4) { // long runs of one digit make most positions look alike
		d := byte(s.Int(16))
		for i := 0; i < 64; i++ {
			if s.Chance(7, 8) {
				key[i] = d
			}
		}
	}
	kv := map[string][]byte{}
	wide := false
	n := s.Range(1, max)
	var pos []int
	at := 0
	for n > 1 {
		ext := 0
		if n > 2 && s.Chance(2, 5) {
			ext = []int{1, 1, 2, 3, 4, 9, s.Range(1, 40)}[s.Int(7)]
			if at+ext > 60 {
				ext = 1
			}
			n--
		}
		at += ext
		pos = append(pos, at)
		at++
		n--
	}
	if at > 50 {
		wide = true
	}
	mk := func() []byte {
		if sh.storage {
			return storageValue(s, wide)
		}
		return accountValue(s)
	}
	if own == nil {
		own = mk()
	}
	kv[string(key)] = own
	for _, p := range pos {
		for _, d := range others(s, key[p], s.Range(1, []int{2, 4, 15}[s.Int(3)])) {
			k := append(append([]byte{}, key[:p]...), d)
			k = append(k, digits(s, 63-p)...)
			if s.Chance(1, 3) { // same continuation as the key itself
				copy(k[p+1:], key[p+1:])
			}
			kv[string(k)] = mk()
		}
	}
	w := &fixedWorld{t: buildTrie(kv), key: key}
	w.val, w.nodes, w.at = w.t.root.get(key)
	return w
}

// others draws n digits different from d.
func others(s *Src, d byte, n int) []byte {
	var c []byte
	for x := byte(0); x < 16; x++ {
		if x != d {
			c = append(c, x)
		}
	}
	for i := range c {
		j := i + s.Int(len(c)-i)
		c[i], c[j] = c[j], c[i]
	}
	if n > len(c) {
		n = len(c)
	}
	return c[:n]
}

// checkTrie cross-checks the reference trie with go-ethereum's.
func checkTrie(t *trie) {
	if t.small {
		return
	}
	g := gethtrie.NewStackTrie(nil)
	var ks []string
	for k := range t.kv {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		b := make([]byte, len(k)/2)
		for i := range b {
			b[i] = k[2*i]<<4 | k[2*i+1]
		}
		if err := g.Update(b, t.kv[k]); err != nil {
			panic(err)
		}
	}
	if h := g.Hash(); !bytes.Equal(h[:], t.root.hash()) {
		panic("the reference trie disagrees with go-ethereum's")
	}
}

// absent changes the key so that its path ends at a node of the current path without a value.
func (w *fixedWorld) absent(s *Src) {
	i := s.Int(len(w.nodes))
	k := append([]byte{}, w.key...)
	n, at := w.nodes[i], w.at[i]
	switch n.kind {
	case nodeBranch:
		var free []byte
		for d := byte(0); d < 16; d++ {
			if n.kids[d] == nil {
				free = append(free, d)
			}
		}
		if len(free) == 0 {
			w.absentLeaf(s)
			return
		}
		k[at] = free[s.Int(len(free))]
	default:
		q := at + []int{0, len(n.path) - 1, s.Int(len(n.path))}[s.Int(3)]
		k[q] = (k[q] + byte(1+s.Int(15))) & 15
	}
	if s.Bool() {
		// what follows the divergence does not matter
		tail := digits(s, 64)
		if s.Bool() {
			copy(k[at+1+s.Int(64-at-1):], tail)
		}
	}
	w.key = k
	w.val, w.nodes, w.at = w.t.root.get(k)
	if w.val != nil { // the tail hit the old key again: cannot happen after a divergence
		panic("absent key is present")
	}
}

func (w *fixedWorld) absentLeaf(s *Src) {
	k := append([]byte{}, w.key...)
	q := 63 - s.Int(4)
	k[q] = (k[q] + byte(1+s.Int(15))) & 15
	w.key = k
	w.val, w.nodes, w.at = w.t.root.get(k)
}

var absentValue = []byte{8, 0}

func (w *fixedWorld) proof(sh fixedShape) *proof {
	p := &proof{key: append([]byte{}, w.key...), root: w.t.root.hash(), value: absentValue}
	if w.val != nil {
		p.value = nibbles(w.val)
	}
	p.setPath(w.nodes, w.at, sh.depth, 64, true)
	return p
}

func kindName(k int) string { return [...]string{"leaf", "extension", "branch"}[k] }

func pathDesc(nodes []*trieNode) string {
	r := ""
	for _, n := range nodes {
		r += string("LEB"[n.kind])
		if n.kind == nodeExt {
			r += fmt.Sprint(len(n.path))
		}
	}
	return r
}

// truthFixed says whether a claim about the trie under root is true.
func truthFixed(t *trie, root, key, value []byte) (ok bool, why string) {
	n := t.byH[string(root)]
	if n == nil {
		return false, "no node of the trie has the claimed root hash"
	}
	// sub-trie keys are shorter than full ones; a full-length key cannot be present there
	val, _, _ := n.get(key)
	if len(value) >= 2 && value[0] == 8 && value[1] == 0 && allZero(value[2:]) {
		if val != nil {
			return false, fmt.Sprintf("the key is present with value %x", val)
		}
		return true, ""
	}
	if val == nil {
		return false, "the key is not in the trie"
	}
	v := nibbles(val)
	if len(value) < len(v) || !bytes.Equal(value[:len(v)], v) {
		return false, fmt.Sprintf("the trie maps the key to %x", val)
	}
	return true, ""
}

// almostEmpty is a claimed value that differs from the empty one in one digit.
func almostEmpty(s *Src) []byte {
	v := append([]byte{8, 0}, make([]byte, 64)...)
	i := []int{s.Int(66), s.Int(4), 62 + s.Int(4)}[s.Int(3)]
	v[i] ^= byte(1 + s.Int(15))
	return v
}

func allZero(b []byte) bool {
	for _, x := range b {
		if x != 0 {
			return false
		}
	}
	return true
}

func judgeFixed(t *trie, p *proof, accept bool) func([]fr.Element) error {
	ok, why := truthFixed(t, p.root, p.key, p.value)
	vlen := 0
	if n := t.byH[string(p.root)]; n != nil {
		v, _, _ := n.get(p.key)
		vlen = 2 * len(v)
	}
	return func(out []fr.Element) error {
		if out[0].IsZero() {
			if accept {
				return fmt.Errorf("a genuine proof gets output 0")
			}
			return nil
		}
		if !out[0].IsOne() {
			return fmt.Errorf("output is neither 0 nor 1")
		}
		if !ok {
			return fmt.Errorf("output 1 for a false claim (key %x, value %x): %s", p.key, p.value, why)
		}
		if vlen > 0 {
			w := engine.Fr(vlen)
			if !out[1].Equal(&w) {
				return fmt.Errorf("value length %s, the stored value has %d digits", out[1].String(), vlen)
			}
		}
		return nil
	}
}

func frDiv(a, b int64) fr.Element {
	x, y := engine.Fr(bi(a)), engine.Fr(new(big.Int).Mod(bi(b), engine.Field))
	x.Div(&x, &y)
	return x
}

// goodTrie draws a trie without embedded nodes.
func goodTrie(s *Src, sh fixedShape, own []byte) *fixedWorld {
	w := fixedTrieOf(s, sh, sh.depth, own)
	for tries := 0; w.t.small && tries < 8; tries++ {
		w = fixedTrieOf(s, sh, sh.depth, own)
	}
	if w.t.small {
		w = fixedTrieOf(s, sh, 1, own)
	}
	checkTrie(w.t)
	return w
}

// fixedCase draws an honest or a malicious proof. mode: "in" (inclusion claims), "out" (absence claims), "honest".
func fixedCase(s *Src, sh fixedShape, mode string) Case {
	_, _, k := fixedCaseOf(s, sh, mode)
	return k
}

func fixedCaseOf(s *Src, sh fixedShape, mode string) (*fixedWorld, *proof, Case) {
	w := goodTrie(s, sh, nil)
	absentTruth := false
	switch mode {
	case "in":
		absentTruth = s.Chance(1, 4)
	case "out":
		absentTruth = s.Chance(1, 2)
	default:
		absentTruth = sh.storage && s.Chance(2, 5)
	}
	if absentTruth {
		w.absent(s)
		if !sh.storage && w.nodes[len(w.nodes)-1].kind != nodeLeaf && mode == "honest" {
			w.absentLeaf(s)
		}
	}
	p := w.proof(sh)
	desc := fmt.Sprintf("trie of %d keys, path %s", len(w.t.kv), pathDesc(w.nodes))
	class := "path=" + fmt.Sprint(len(w.nodes)) + "/end=" + kindName(w.nodes[len(w.nodes)-1].kind)
	if w.val == nil {
		class += "/absent"
	}
	if mode == "honest" || s.Chance(1, 8) {
		if (mode == "in" && w.val == nil) || (mode == "out" && w.val != nil) {
			// outside this property's claims
		} else {
			acc := w.val != nil || sh.storage || w.nodes[len(w.nodes)-1].kind == nodeLeaf
			return w, p, Case{In: p.fixed(sh), Accept: acc, Class: "honest/" + class, Desc: desc, Judge: judgeFixed(w.t, p, acc)}
		}
	}
	// claims
	tag := ""
	if mode == "in" {
		if w.val == nil {
			switch s.Int(3) {
			case 0: // some value of the trie
				for i := range w.nodes {
					if w.nodes[i].kind == nodeLeaf {
						p.value = nibbles(w.nodes[i].val)
					}
				}
				if len(p.value) == 2 {
					p.value = nibbles(storageValue(s, false))
				}
			case 1:
				p.value = nibbles(storageValue(s, false))
			default: // almost the empty value
				p.value = almostEmpty(s)
			}
			tag = "present-claim"
		} else {
			switch s.Int(6) {
			case 0:
				p.value = append([]byte{}, p.value...)
				q := s.Int(len(p.value))
				p.value[q] = (p.value[q] + byte(1+s.Int(15))) & 15
				tag = "other-value"
			case 1:
				p.value = nibbles(storageValue(s, false))
				tag = "other-value"
			case 2:
				q := s.Int(64)
				p.key[q] = (p.key[q] + byte(1+s.Int(15))) & 15
				tag = "other-key"
			case 3:
				p.root = append([]byte{}, p.root...)
				p.root[s.Int(32)] ^= 1 << uint(s.Int(8))
				tag = "other-root"
			case 4: // a leaf of the prover's own making, for another value
				p.value = nibbles(storageValue(s, true))
				tag = "own-leaf"
			default: // the key of another entry
				p.key = []byte(anyKey(s, w.t))
				tag = "key-of-another"
			}
		}
	} else {
		p.value = absentValue
		tag = "absent-claim"
		if sh.storage && s.Chance(1, 4) {
			p.value = almostEmpty(s)
			tag = "smuggled-value"
			if w.val == nil && s.Chance(3, 4) {
				return w, p, Case{In: p.fixed(sh), Class: tag + "/" + class, Desc: desc + ", claim " + tag, Judge: judgeFixed(w.t, p, false)}
			}
		}
	}
	// structures
	st := s.Int(14)
	if tag == "own-leaf" && s.Chance(3, 4) {
		st = 3
	}
	all := allNodes(w.t)
	switch st {
	case 0, 1: // end the path early, at some node of it
		i := s.Int(len(w.nodes))
		p.setPath(w.nodes[:i+1], w.at[:i+1], sh.depth, 64, true)
		p.lastPL = s.Int(3)
		tag += "/cut"
	case 2: // end at any node of the trie
		p.putLast(all[s.Int(len(all))])
		tag += "/any-end"
	case 3: // a leaf of the prover's own making
		d := s.Range(1, sh.depth)
		at := p.starts[d-1]
		if s.Chance(1, 2) || at > 63 {
			d, at = 1, 0
			p.starts[0] = 0
			for i := 1; i < sh.depth; i++ {
				p.starts[i] = 64
			}
		}
		p.depth.SetUint64(uint64(d))
		k := p.key
		if mode == "out" {
			k = append([]byte{}, p.key...)
			k[63] ^= 1
		}
		v := []byte{5}
		if len(p.value)%2 == 0 && len(p.value) > 2 {
			v = make([]byte, len(p.value)/2)
			for i := range v {
				v[i] = p.value[2*i]<<4 | p.value[2*i+1]
			}
		}
		l := &trieNode{kind: nodeLeaf, path: k[at:], val: v}
		l.enc = rlpList([]rlpItem{rlpStr(compact(l.path, true)), rlpStr(v)}).bytes()
		p.putLast(l)
		for i := 0; i < sh.depth-1; i++ {
			if p.nodes[i] == nil || d == 1 {
				p.setNode(i, w.t.root)
				break
			}
		}
		tag += "/own-leaf"
	case 4: // begin in the middle of the key
		d := s.Range(1, 4)
		for i := range p.starts {
			if p.starts[i] < 64 {
				p.starts[i] += d
			}
		}
		if s.Bool() {
			k := append(digits(s, d), p.key...)
			p.key = k[:64]
		}
		tag += "/shifted"
	case 5: // a sub-trie's root does not make it the trie
		if len(w.nodes) > 1 {
			i := s.Range(1, len(w.nodes)-1)
			p.setPath(w.nodes[i:], w.at[i:], sh.depth, 64, true)
			if s.Bool() {
				p.root = w.nodes[i].hash()
			}
			if s.Bool() {
				for j := range p.starts {
					if p.starts[j] < 64 {
						p.starts[j] -= w.at[i]
					}
				}
				p.key = append(append([]byte{}, p.key[w.at[i]:]...), digits(s, w.at[i])...)
			}
		}
		tag += "/sub-trie"
	case 6: // leave out a level
		if len(w.nodes) > 2 {
			i := s.Range(1, len(w.nodes)-2)
			nn := append(append([]*trieNode{}, w.nodes[:i]...), w.nodes[i+1:]...)
			aa := append(append([]int{}, w.at[:i]...), w.at[i+1:]...)
			p.setPath(nn, aa, sh.depth, 64, true)
		}
		tag += "/left-out"
	case 7: // node types
		p.types[s.Int(sh.depth-1)] ^= 1
		tag += "/type"
	case 8: // key fragments
		p.starts[s.Int(sh.depth)] = s.Int(65)
		tag += "/start"
	case 9: // depth
		if s.Chance(1, 3) {
			p.depth = []fr.Element{engine.Fr(0), engine.Fr(sh.depth + 1), frDiv(-1, 2), frDiv(-1, 4), frDiv(1, 2), frDiv(1, 4)}[s.Int(6)]
		} else {
			p.depth.SetUint64(uint64(s.Range(1, sh.depth)))
		}
		tag += "/depth"
	case 10: // prefix lengths
		if s.Bool() {
			p.lastPL = s.Int(3)
		} else {
			p.pl[s.Int(sh.depth-1)] = s.Int(3)
		}
		tag += "/prefix"
	case 11: // number of hashed blocks
		if s.Bool() {
			p.lastRound = s.Int(4)
		} else {
			p.rounds[s.Int(sh.depth-1)] = s.Int(5)
		}
		tag += "/blocks"
	case 12: // node contents
		i := s.Int(sh.depth - 1)
		if p.nodes[i] != nil {
			b := append([]byte{}, p.nodes[i]...)
			b[s.Int(len(b))] ^= 1 << uint(s.Int(8))
			p.nodes[i] = b
		} else {
			p.setNode(i, all[s.Int(len(all))])
		}
		tag += "/node"
	default:
		tag += "/plain"
	}
	return w, p, Case{In: p.fixed(sh), Class: tag, Desc: desc + ", claim " + tag, Judge: judgeFixed(w.t, p, false)}
}

func (p *proof) putLast(n *trieNode) { p.last, p.lastRound, p.lastPL = n.enc, len(n.enc)/136, n.pl() }

func anyKey(s *Src, t *trie) string {
	ks := make([]string, 0, len(t.kv))
	for k := range t.kv {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks[s.Int(len(ks))]
}

func allNodes(t *trie) []*trieNode {
	hs := make([]string, 0, len(t.byH))
	for h := range t.byH {
		hs = append(hs, h)
	}
	sort.Strings(hs)
	r := make([]*trieNode, len(hs))
	for i, h := range hs {
		r[i] = t.byH[h]
	}
	return r
}

func mptScenarios(tier, prop string) []*Scenario {
	var r []*Scenario
	fix := func(name string, sh fixedShape, mode string, cases, attacks int) {
		r = append(r, &Scenario{Name: name, NIn: sh.nIn(), Define: withIdealPermutation(sh.define), Cases: cases, Attacks: attacks, Repairs: 3,
			Stubs: []string{permStub}, Gen: func(s *Src) Case { return fixedCase(s, sh, mode) }})
	}
	storage := fixedShape{depth: 3, value: 66, last: 1088, storage: true}
	account := fixedShape{depth: 3, value: 228, last: 544}
	variable := varShape{depth: 4}
	if tier == "thorough" {
		storage.depth, account.depth, variable.depth = 5, 5, 6
	}
	vari := func(name string, sh varShape, mode string, cases, attacks int) {
		r = append(r, &Scenario{Name: name, NIn: sh.nIn(), Define: withIdealPermutation(sh.define), Cases: cases, Attacks: attacks, Repairs: 3,
			Stubs: []string{permStub}, Gen: func(s *Src) Case { return varCase(s, sh, mode) }})
	}
	switch prop {
	case "C01":
		fix("storage", storage, "in", 160, 3)
		fix("account", account, "in", 160, 3)
		if tier == "thorough" { // the whole circuit with the real permutation
			sh := fixedShape{depth: 2, value: 66, last: 1088, storage: true}
			r = append(r, &Scenario{Name: "storage-real-keccak", NIn: sh.nIn(), Define: sh.define, Cases: 10, Attacks: 3, Repairs: 3,
				Gen: func(s *Src) Case { return fixedCase(s, sh, "in") }})
		}
	case "C02":
		fix("storage", storage, "out", 200, 3)
		fix("account", account, "out", 100, 3)
	case "C03":
		vari("index", variable, "claims", 200, 3)
	case "C04":
		variable.depth++
		vari("index", variable, "honest", 120, 0)
		storage.depth, account.depth = storage.depth+1, account.depth+1
		fix("storage", storage, "honest", 120, 0)
		fix("account", account, "honest", 120, 0)
	}
	return r
}
