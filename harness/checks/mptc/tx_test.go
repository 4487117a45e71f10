package mptc

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/brevis-network/zk-utils/circuits/gadgets/index-proof/core"
	"github.com/brevis-network/zk-utils/circuits/gadgets/mpt"
	"github.com/consensys/gnark/frontend"
	gethrlp "github.com/ethereum/go-ethereum/rlp"
	"pgregory.net/rapid"

	"vharness/fe"
	"vharness/vh"
)

// txWitness is the input of CheckMPTInclusionNoBranchTermination.
type txWitness struct {
	maxDepth int
	key      []byte // 7 nibbles
	keyLen   int
	root     []byte
	leafHash []byte
	starts   []int
	nodes    [][]byte
	rounds   []int
	prefixes []int
	types    []int
	depth    int
}

func (w *txWitness) String() string {
	return fmt.Sprintf("maxDepth=%d depth=%d key=%x/%d starts=%v types=%v prefixes=%v root=%x leaf=%x", w.maxDepth, w.depth, w.key, w.keyLen, w.starts, w.types, w.prefixes, w.root, w.leafHash)
}

func mkTx(nodes [][]byte, root, key []byte, maxDepth int) *txWitness {
	w := &txWitness{maxDepth: maxDepth, key: fill(vh.Nibbles(key), 7), keyLen: 2 * len(key), root: root, depth: len(nodes), leafHash: keccak(nodes[len(nodes)-1])}
	pos := 0
	for i, n := range nodes {
		w.starts = append(w.starts, pos)
		if i == len(nodes)-1 {
			break
		}
		items := split(n)
		prefix, typ := 0, 0
		if len(items) == 17 {
			pos++
		} else {
			frag, _ := compact(items[0])
			prefix, typ = 2-len(frag)%2, 1
			pos += len(frag)
		}
		w.nodes = append(w.nodes, padNibbles(n, 4*blockHex))
		w.rounds = append(w.rounds, rounds(n))
		w.prefixes = append(w.prefixes, prefix)
		w.types = append(w.types, typ)
	}
	for len(w.starts) < maxDepth {
		w.starts = append(w.starts, 7)
	}
	for len(w.nodes) < maxDepth-1 {
		w.nodes = append(w.nodes, make([]byte, 4*blockHex))
		w.rounds = append(w.rounds, 0)
		w.prefixes = append(w.prefixes, 0)
		w.types = append(w.types, 0)
	}
	return w
}

func (w *txWitness) run() (ok bool, err error) {
	err = fe.Run(fe.BN254, func(api fe.Engine) {
		h := [2]*big.Int{new(big.Int).SetBytes(w.leafHash[:16]), new(big.Int).SetBytes(w.leafHash[16:])}
		r := mpt.CheckMPTInclusionNoBranchTermination(api, w.maxDepth, 7, vh.Vars(api, w.key), api.Var(w.keyLen),
			arr64(api, vh.Nibbles(w.root)), vh.Vars(api, w.starts), [2]frontend.Variable(vh.Vars(api, h[:])),
			nodeVars(api, w.nodes), vh.Vars(api, w.rounds), vh.Vars(api, w.prefixes), vh.Vars(api, w.types), api.Var(w.depth))
		ok = bit(api, r.Output)
	})
	return
}

func indexKey(i int) []byte { return gethrlp.AppendUint64(nil, uint64(i)) }

// txTrie draws a transaction or receipt trie and an index in it.
func txTrie(rt *rapid.T, most int) (m *memTrie, n, index int) {
	n = vh.Edge(rt, "count", 1, most, 1, 2, 3, 15, 16, 17, 127, 128, 129, 130, 144, 255, 256, 257, 258, 272, 273)
	var keys, vals [][]byte
	blob := vh.RandBytes(rt, "txs", 64*n)
	for i := 0; i < n; i++ {
		keys = append(keys, indexKey(i))
		vals = append(vals, blob[64*i:64*i+40+i%20])
	}
	m = build(keys, vals)
	index = vh.Edge(rt, "index", 0, n-1, 0, 1, 15, 16, 127, 128, 129, 143, 144, 255, 256, 257, 271, 272)
	return
}

// onPath tells whether a node with that hash lies on the key's path.
func onPath(m *memTrie, key, hash []byte) bool {
	for _, n := range m.path(key) {
		if bytes.Equal(keccak(n), hash) {
			return true
		}
	}
	return false
}

func txDepth(rt *rapid.T, d int) int {
	return max(2, min(10, d+vh.OneOf([]int{0, 0, 0, 0, 1}).Draw(rt, "slack")))
}

func TestC14_inclusion(t *testing.T) {
	vh.Check(t, 120, 2000, func(rt *rapid.T, c *vh.Case) {
		m, n, i := txTrie(rt, 600)
		nodes := m.path(indexKey(i))
		w := mkTx(nodes, m.root[:], indexKey(i), txDepth(rt, len(nodes)))
		if rapid.Bool().Draw(rt, "padTypes") {
			for j := w.depth - 1; j < w.maxDepth-1; j++ {
				w.types[j] = 1
			}
		}
		c.Nontrivial(m.root, i)
		c.Label("depth %d types %v", w.depth, w.types[:w.depth-1])
		c.Label("key nibbles left for the leaf: %d", w.keyLen-w.starts[w.depth-1])
		c.Sample("%d transactions, index %d: %s", n, i, w)
		ok, err := w.run()
		vh.Accept(rt, err, "inclusion of %d of %d: %s", i, n, w)
		if !ok {
			rt.Fatalf("valid inclusion of %d of %d refused: %s", i, n, w)
		}
	})
}

func TestC14_falseInclusion(t *testing.T) {
	kinds := []string{"leaf", "leaf", "otherIndex", "otherIndex", "root", "key", "forge", "forge", "depth1", "swap", "types", "starts", "short", "gap", "gap", "gap"}
	vh.Check(t, 240, 2600, func(rt *rapid.T, c *vh.Case) {
		m, n, i := txTrie(rt, 400)
		key := indexKey(i)
		nodes := m.path(key)
		w := mkTx(nodes, m.root[:], key, txDepth(rt, len(nodes)))
		kind := vh.OneOf(kinds).Draw(rt, "attack")
		other := vh.Even(0, n-1).Draw(rt, "other")
		switch kind {
		case "leaf":
			w.leafHash = vh.RandBytes(rt, "leaf", 32)
			if rapid.Bool().Draw(rt, "oneNibble") {
				w.leafHash = keccak(nodes[len(nodes)-1])
				w.leafHash[vh.Even(0, 31).Draw(rt, "at")] ^= 1 << vh.Even(0, 7).Draw(rt, "bit")
			}
		case "otherIndex":
			ow := m.path(indexKey(other))
			if rapid.Bool().Draw(rt, "hashOnly") {
				w.leafHash = keccak(ow[len(ow)-1])
			} else {
				w2 := mkTx(ow, m.root[:], indexKey(other), max(w.maxDepth, len(ow)))
				w2.key = w.key
				if rapid.Bool().Draw(rt, "length") {
					w2.keyLen = w.keyLen
				}
				w = w2
			}
		case "root":
			w.root = bytes.Clone(w.root)
			w.root[vh.Even(0, 31).Draw(rt, "at")] ^= 1 << vh.Even(0, 7).Draw(rt, "bit")
		case "key":
			p := rapid.IntRange(0, max(0, w.starts[w.depth-1]-1)).Draw(rt, "nibble")
			w.key[p] = (w.key[p] + byte(vh.Even(1, 15).Draw(rt, "by"))) & 15
		case "forge":
			f := forge(nodes, key, vh.RandBytes(rt, "fv", 50), vh.Even(0, len(nodes)-1).Draw(rt, "from"))
			w = mkTx(f, m.root[:], key, w.maxDepth)
		case "depth1":
			w.leafHash = vh.RandBytes(rt, "leaf", 32)
			w.depth = 1
			if rapid.Bool().Draw(rt, "type") {
				w.types[0] = 1
			}
			if rapid.Bool().Draw(rt, "pad") {
				for j := 1; j < w.maxDepth; j++ {
					w.starts[j] = 7
				}
			}
		case "swap":
			m2, _, _ := txTrie(rt, 400)
			w.root = m2.root[:]
		case "types":
			if w.depth == 1 {
				w.leafHash = vh.RandBytes(rt, "leaf", 32)
			} else {
				p := vh.OneOf(w.starts[:w.depth-1]).Draw(rt, "nibble")
				w.key[p] = (w.key[p] + 1) & 15
			}
			for j := range w.types {
				w.types[j] = rapid.IntRange(0, 1).Draw(rt, "type")
			}
		case "starts":
			if w.depth == 1 {
				w.leafHash = vh.RandBytes(rt, "leaf", 32)
			} else {
				p := vh.OneOf(w.starts[:w.depth-1]).Draw(rt, "nibble")
				w.key[p] = (w.key[p] + 1) & 15
			}
			w.starts[vh.Even(0, w.maxDepth-1).Draw(rt, "i")] = vh.Even(0, 7).Draw(rt, "start")
		case "gap":
			// the path passes over nibbles of the key, or reads some twice
			if w.depth == 1 {
				return
			}
			at := w.starts[vh.Even(1, w.depth-1).Draw(rt, "behind")]
			g := vh.OneOf([]int{1, 1, 2, 2, 3, 4, -1}).Draw(rt, "by")
			if g < 0 && at < 2 || w.starts[w.depth-1]+g > 7 {
				return
			}
			k := append([]byte{}, w.key[:min(at, at+g)]...)
			for j := 0; j < g; j++ {
				k = append(k, byte(vh.Even(0, 15).Draw(rt, "passed over")))
			}
			w.key = fill(append(k, w.key[at:]...)[:min(7, 7+g)], 7)
			w.keyLen = min(w.keyLen+g, 7)
			for j := range w.starts[:w.depth] {
				if w.starts[j] >= at {
					w.starts[j] = min(w.starts[j]+g, 7)
				}
			}
		case "short":
			// the key without its first nibbles
			s := rapid.IntRange(1, 3).Draw(rt, "drop")
			k := append(make([]byte, 0, 7), vh.RandBytes(rt, "lead", s)...)
			for j := range k {
				k[j] &= 15
			}
			w.key = fill(append(k, w.key[:7-s]...), 7)
			w.keyLen = min(w.keyLen+s, 7)
			for j := 0; j < w.depth; j++ {
				w.starts[j] = min(w.starts[j]+s, 7)
			}
		}
		// what the gadget claims: the node with this hash is on the path of the key's nibbles
		true1 := bytes.Equal(w.root, m.root[:]) && nibblePathHas(m, n, w.key, w.keyLen, w.leafHash)
		c.Label("attack %s, claim true: %v", kind, true1)
		if true1 {
			return
		}
		c.Nontrivial(kind, m.root, w.key, w.leafHash, w.depth)
		c.Sample("%s, %d transactions: %s", kind, n, w)
		ok, err := w.run()
		if err == nil && ok {
			rt.Fatalf("false inclusion proved (%s): %s", kind, w)
		}
		if err != nil {
			vh.Reject(rt, err, "%s: %s", kind, w)
		}
	})
}

// nibblePathHas tells whether a node with that hash is reached from the root along a prefix of the nibbles.
func nibblePathHas(m *memTrie, n int, nib []byte, keyLen int, hash []byte) bool {
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		key := indexKey(i)
		kn := vh.Nibbles(key)
		pos := 0
		for _, node := range m.path(key) {
			if pos > keyLen || pos > len(nib) || !bytes.Equal(kn[:pos], nib[:pos]) {
				break
			}
			seen[string(keccak(node))] = true
			items := split(node)
			if len(items) == 17 {
				pos++
			} else {
				frag, _ := compact(items[0])
				pos += len(frag)
			}
			pos = min(pos, len(kn))
		}
	}
	return seen[string(hash)]
}

func TestC17_indexKey(t *testing.T) {
	vh.Sweep(t, 1<<16, func(t *testing.T, c *vh.Case, i int) {
		for _, k := range []fe.Kind{fe.BN254, fe.BLS12377} {
			if k == fe.BLS12377 && i%16 != 3 {
				continue
			}
			var got []byte
			err := fe.Run(k, func(api fe.Engine) {
				r := core.CalTxOrReceiptIndexRlp(api, api.Var(i))
				got = small(api, r[:])
			})
			if err != nil {
				t.Fatalf("index %d: %v", i, err)
			}
			if want := fill(vh.Nibbles(indexKey(i)), 7); !bytes.Equal(got, want) {
				t.Fatalf("index %d: key nibbles %x, want %x", i, got, want)
			}
			// the circuit around it accepts these nibbles and no others
			bad := -1
			if i%2 == 1 {
				bad = i / 2 % 7
			}
			err = fe.Run(k, func(api fe.Engine) {
				c := core.IndexCheckCircuit{Index: api.Var(i)}
				for j, n := range got {
					if j == bad {
						n = (n + 1 + byte(i>>4)%15) & 15
					}
					c.RlpString[j] = api.Var(n)
				}
				if err := c.Define(api); err != nil {
					panic(err)
				}
			})
			if bad < 0 && err != nil {
				t.Fatalf("index %d: valid key nibbles %x refused: %v", i, got, err)
			}
			if bad >= 0 {
				vh.Reject(t, err, "index %d with nibble %d of %x changed", i, bad, got)
			}
		}
		c.Nontrivial(i)
		c.Sample("index %d", i)
	})
}

func TestC17_outOfRange(t *testing.T) {
	vh.Check(t, 2000, 40000, func(rt *rapid.T, c *vh.Case) {
		k := vh.OneOf([]fe.Kind{fe.BN254, fe.BLS12377, fe.BW6761}).Draw(rt, "field")
		x := vh.BigBelow(rt, "index", k.Modulus())
		if x.Cmp(big.NewInt(1<<16)) < 0 {
			x.Add(x, big.NewInt(1<<16))
		}
		c.Nontrivial(k, x)
		c.Sample("index %v", x)
		vh.Reject(rt, fe.Run(k, func(api fe.Engine) { core.CalTxOrReceiptIndexRlp(api, api.Var(x)) }), "index %v", x)
	})
}
