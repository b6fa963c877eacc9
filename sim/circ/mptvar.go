package circ

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/brevis-network/zk-utils/circuits/gadgets/mpt"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"zksim/engine"
)

// Transaction and receipt tries: keys are the RLP encodings of indexes, no key is a prefix of another.

const varKeyHex = 6

type varShape struct{ depth int }

func (sh varShape) nIn() int { return 7 + 1 + 64 + sh.depth + 2 + (sh.depth-1)*(mptNodeHex+3) + 1 }

func (sh varShape) define(api API, in []V) []V {
	c := &cutter{in}
	key := c.take(7)
	klen := c.one()
	var root [64]V
	copy(root[:], c.take(64))
	starts := c.take(sh.depth)
	var leaf [2]V
	copy(leaf[:], c.take(2))
	nodes := c.rows(sh.depth-1, mptNodeHex)
	rounds, pl, types := c.take(sh.depth-1), c.take(sh.depth-1), c.take(sh.depth-1)
	r := mpt.CheckMPTInclusionNoBranchTermination(api, sh.depth, varKeyHex, key, klen, root, starts, leaf, nodes, rounds, pl, types, c.one())
	return []V{r.Output}
}

func (p *proof) variable() []fr.Element {
	var in []fr.Element
	in = append(in, engine.Frs(append(append([]byte{}, p.key...), make([]byte, 7-len(p.key))...))...)
	in = append(in, engine.Fr(p.klen))
	in = append(in, engine.Frs(nibbles(p.root))...)
	in = append(in, engine.Frs(p.starts)...)
	in = append(in, engine.Fr(new(big.Int).SetBytes(p.leaf[:16])), engine.Fr(new(big.Int).SetBytes(p.leaf[16:])))
	return p.tail(in)
}

func indexKey(i int) []byte {
	return nibbles(rlpStr(new(big.Int).SetInt64(int64(i)).Bytes()).bytes())
}

type varWorld struct {
	t     *trie
	index int
	key   []byte
	nodes []*trieNode
	at    []int
}

// varTrie draws a block's trie and one of its entries whose path has at most max nodes.
func varTrie(s *Src, max int) *varWorld {
	var idx []int
	if s.Chance(2, 3) {
		n := []int{1, 2, 3, 8, 16, 17, 40, 127, 128, 129, 130, 145, 200, 256, 257, 258, 280, 400}[s.Int(18)]
		for i := 0; i < n; i++ {
			idx = append(idx, i)
		}
	} else { // a sparse one: extension nodes of every length
		base := s.Int(40000)
		seen := map[int]bool{}
		for k, n := 0, s.Range(1, 12); k < n; k++ {
			i := []int{s.Int(128), base, base + s.Int(16), base ^ 1<<uint(s.Int(15)), s.Int(65536), s.Int(256)}[s.Int(6)]
			if !seen[i] {
				seen[i] = true
				idx = append(idx, i)
			}
		}
	}
	kv := map[string][]byte{}
	n := s.Range(33, 120)
	salt := s.Plain(8)
	for _, i := range idx {
		v := keccak256(append(append([]byte{}, salt...), byte(i), byte(i>>8)))
		for len(v) < n {
			v = append(v, keccak256(v)...)
		}
		kv[string(indexKey(i))] = v[:n]
	}
	w := &varWorld{t: buildTrie(kv)}
	for tries := 0; ; tries++ {
		w.index = idx[s.Int(len(idx))]
		if s.Chance(1, 4) {
			w.index = idx[len(idx)-1]
		}
		w.key = indexKey(w.index)
		_, w.nodes, w.at = w.t.root.get(w.key)
		if len(w.nodes) <= max {
			return w
		}
		if tries == 40 {
			return varTrie(s, max)
		}
	}
}

func (w *varWorld) proof(sh varShape) *proof {
	p := &proof{key: append([]byte{}, w.key...), klen: len(w.key), root: w.t.root.hash(), leaf: w.nodes[len(w.nodes)-1].hash()}
	p.setPath(w.nodes, w.at, sh.depth, varKeyHex, false)
	return p
}

func judgeVar(t *trie, p *proof, accept bool) func([]fr.Element) error {
	ok := false
	why := "no node of the trie has the claimed root hash"
	if n := t.byH[string(p.root)]; n != nil {
		why = "following the key from the root does not lead to a node of that hash"
		k := append(append([]byte{}, p.key...), make([]byte, 7)...)[:p.klen]
		_, nodes, _ := n.get(k)
		for _, m := range nodes {
			if bytes.Equal(m.hash(), p.leaf) {
				ok = true
			}
		}
	}
	return func(out []fr.Element) error {
		switch {
		case out[0].IsZero():
			if accept {
				return fmt.Errorf("a genuine proof gets output 0")
			}
		case !out[0].IsOne():
			return fmt.Errorf("output is neither 0 nor 1")
		case !ok:
			return fmt.Errorf("output 1 for a false claim (key %x of %d digits, hash %x): %s", p.key, p.klen, p.leaf, why)
		}
		return nil
	}
}

func varCase(s *Src, sh varShape, mode string) Case {
	w := varTrie(s, sh.depth)
	checkTrie(w.t)
	p := w.proof(sh)
	desc := fmt.Sprintf("trie of %d entries, index %d, path %s", len(w.t.kv), w.index, pathDesc(w.nodes))
	if mode == "honest" || s.Chance(1, 8) {
		return Case{In: p.variable(), Accept: true, Class: fmt.Sprintf("honest/path=%d/digits=%d", len(w.nodes), len(w.key)), Desc: desc, Judge: judgeVar(w.t, p, true)}
	}
	all := allNodes(w.t)
	tag := ""
	switch s.Int(7) {
	case 0:
		p.leaf = all[s.Int(len(all))].hash()
		tag = "other-node"
	case 1:
		p.leaf = append([]byte{}, p.leaf...)
		p.leaf[s.Int(32)] ^= 1 << uint(s.Int(8))
		tag = "other-hash"
	case 2:
		p.key = append([]byte{}, p.key...)
		p.key[s.Int(len(p.key))] ^= byte(1 + s.Int(15))
		tag = "other-key"
	case 3:
		p.root = append([]byte{}, p.root...)
		p.root[s.Int(32)] ^= 1 << uint(s.Int(8))
		tag = "other-root"
	case 4: // the key of another index
		p.key = []byte(anyKey(s, w.t))
		p.klen = len(p.key)
		tag = "key-of-another"
	case 5:
		p.klen = s.Int(varKeyHex + 1)
		tag = "key-length"
	default: // a leaf of the prover's own making
		l := &trieNode{kind: nodeLeaf, path: p.key[w.at[len(w.at)-1]:], val: s.Plain(60)}
		l.enc = rlpList([]rlpItem{rlpStr(compact(l.path, true)), rlpStr(l.val)}).bytes()
		p.leaf = l.hash()
		if s.Bool() { // as the whole trie
			p.setPath([]*trieNode{l}, []int{0}, sh.depth, varKeyHex, false)
			if s.Bool() {
				p.setNode(0, w.t.root)
			}
		}
		tag = "own-leaf"
	}
	cut := func(nodes []*trieNode, at []int) {
		leaf := p.leaf
		p.setPath(nodes, at, sh.depth, varKeyHex, false)
		p.leaf = leaf
		if s.Bool() {
			p.leaf = nodes[len(nodes)-1].hash()
		}
	}
	switch s.Int(12) {
	case 0:
		i := s.Int(len(w.nodes))
		cut(w.nodes[:i+1], w.at[:i+1])
		tag += "/cut"
	case 1:
		p.leaf = all[s.Int(len(all))].hash()
		tag += "/any-end"
	case 2:
		d := s.Range(1, 3)
		for i := range p.starts {
			if p.starts[i]+d <= varKeyHex {
				p.starts[i] += d
			}
		}
		if s.Bool() {
			p.key = append(digits(s, d), p.key...)
			if len(p.key) > 6 {
				p.key = p.key[:6]
			}
			p.klen = len(p.key)
		}
		tag += "/shifted"
	case 3:
		if len(w.nodes) > 1 {
			i := s.Range(1, len(w.nodes)-1)
			cut(w.nodes[i:], w.at[i:])
			if s.Bool() {
				p.root = w.nodes[i].hash()
			}
			if s.Bool() {
				for j := range p.starts {
					if j < len(w.nodes)-i {
						p.starts[j] -= w.at[i]
					}
				}
				if w.at[i] <= len(p.key) {
					p.key = p.key[w.at[i]:]
				}
				if s.Bool() {
					p.klen = len(p.key)
				}
			}
		}
		tag += "/sub-trie"
	case 4:
		if len(w.nodes) > 2 {
			i := s.Range(1, len(w.nodes)-2)
			nn := append(append([]*trieNode{}, w.nodes[:i]...), w.nodes[i+1:]...)
			aa := append(append([]int{}, w.at[:i]...), w.at[i+1:]...)
			cut(nn, aa)
		}
		tag += "/left-out"
	case 5:
		p.types[s.Int(sh.depth-1)] ^= 1
		tag += "/type"
	case 6:
		p.starts[s.Int(sh.depth)] = s.Int(varKeyHex + 1)
		tag += "/start"
	case 7:
		if s.Chance(1, 3) {
			p.depth = []fr.Element{engine.Fr(0), engine.Fr(sh.depth + 1), frDiv(-1, 2), frDiv(-1, 4), frDiv(1, 2), frDiv(1, 4), frDiv(-3, 4), frDiv(3, 4)}[s.Int(8)]
		} else {
			p.depth.SetUint64(uint64(s.Range(1, sh.depth)))
		}
		tag += "/depth"
	case 8:
		p.pl[s.Int(sh.depth-1)] = s.Int(3)
		tag += "/prefix"
	case 9:
		p.rounds[s.Int(sh.depth-1)] = s.Int(5)
		tag += "/blocks"
	case 10:
		i := s.Int(sh.depth - 1)
		if p.nodes[i] != nil && s.Bool() {
			b := append([]byte{}, p.nodes[i]...)
			b[s.Int(len(b))] ^= 1 << uint(s.Int(8))
			p.nodes[i] = b
		} else {
			n := all[s.Int(len(all))]
			p.setNode(i, n)
			if n.kind == nodeLeaf {
				p.types[i] = s.Int(2)
			}
		}
		tag += "/node"
	default:
		tag += "/plain"
	}
	return Case{In: p.variable(), Class: tag, Desc: desc + ", claim " + tag, Judge: judgeVar(w.t, p, false)}
}
