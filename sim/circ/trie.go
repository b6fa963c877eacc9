package circ

import (
	"bytes"
	"sort"
)

// An independent Merkle-Patricia trie: a map of nibble keys to values, its nodes and its lookups.

const (
	nodeLeaf = iota
	nodeExt
	nodeBranch
)

type trieNode struct {
	kind  int
	path  []byte // leaf and extension
	val   []byte
	kids  [16]*trieNode
	child *trieNode
	enc   []byte
}

type trie struct {
	root  *trieNode
	kv    map[string][]byte
	small bool // some node is shorter than 32 bytes and would be embedded in its parent
	byH   map[string]*trieNode
}

func compact(path []byte, leaf bool) []byte {
	f := byte(0)
	if leaf {
		f = 2
	}
	var n []byte
	if len(path)%2 == 1 {
		n = append([]byte{f + 1}, path...)
	} else {
		n = append([]byte{f, 0}, path...)
	}
	r := make([]byte, len(n)/2)
	for i := range r {
		r[i] = n[2*i]<<4 | n[2*i+1]
	}
	return r
}

func buildTrie(kv map[string][]byte) *trie {
	t := &trie{kv: kv, byH: map[string]*trieNode{}}
	ks := make([]string, 0, len(kv))
	for k := range kv {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	t.root = t.build(ks, 0, true)
	return t
}

func (t *trie) build(ks []string, at int, root bool) *trieNode {
	if len(ks) == 0 {
		return nil
	}
	n := &trieNode{}
	if len(ks) == 1 {
		n.kind, n.path, n.val = nodeLeaf, []byte(ks[0][at:]), t.kv[ks[0]]
		n.enc = rlpList([]rlpItem{rlpStr(compact(n.path, true)), rlpStr(n.val)}).bytes()
	} else {
		a, b := ks[0][at:], ks[len(ks)-1][at:]
		c := 0
		for c < len(a) && c < len(b) && a[c] == b[c] {
			c++
		}
		if c > 0 {
			n.kind, n.path = nodeExt, []byte(a[:c])
			n.child = t.build(ks, at+c, false)
			n.enc = rlpList([]rlpItem{rlpStr(compact(n.path, false)), rlpStr(n.child.hash())}).bytes()
		} else {
			n.kind = nodeBranch
			items := make([]rlpItem, 17)
			for d := byte(0); d < 16; d++ {
				var sub []string
				for _, k := range ks {
					if k[at] == d {
						sub = append(sub, k)
					}
				}
				n.kids[d] = t.build(sub, at+1, false)
				if n.kids[d] == nil {
					items[d] = rlpStr(nil)
				} else {
					items[d] = rlpStr(n.kids[d].hash())
				}
			}
			items[16] = rlpStr(nil)
			n.enc = rlpList(items).bytes()
		}
	}
	if len(n.enc) < 32 && !root {
		t.small = true
	}
	t.byH[string(n.hash())] = n
	return n
}

func (n *trieNode) hash() []byte { return keccak256(n.enc) }

// get follows a key from a node: what is stored under it, the nodes met, and how many digits of
// the key were consumed before each.
func (n *trieNode) get(key []byte) (val []byte, nodes []*trieNode, at []int) {
	i := 0
	for n != nil {
		nodes, at = append(nodes, n), append(at, i)
		rest := key[i:]
		switch n.kind {
		case nodeLeaf:
			if bytes.Equal(rest, n.path) {
				val = n.val
			}
			return
		case nodeExt:
			if !bytes.HasPrefix(rest, n.path) {
				return
			}
			i += len(n.path)
			n = n.child
		default:
			if len(rest) == 0 {
				return
			}
			i++
			n = n.kids[rest[0]]
		}
	}
	return
}
