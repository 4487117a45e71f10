package mptc

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/rawdb"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethdb/memorydb"
	gethrlp "github.com/ethereum/go-ethereum/rlp"
	"github.com/ethereum/go-ethereum/trie"
	"github.com/ethereum/go-ethereum/triedb"
	"pgregory.net/rapid"

	"vharness/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

// memTrie is a Merkle Patricia trie built by go-ethereum, kept with its contents.
type memTrie struct {
	t    *trie.Trie
	kv   map[string][]byte
	keys [][]byte
	root common.Hash
}

func build(keys, vals [][]byte) *memTrie {
	m := &memTrie{t: trie.NewEmpty(triedb.NewDatabase(rawdb.NewMemoryDatabase(), nil)), kv: map[string][]byte{}}
	for i := range keys {
		m.t.MustUpdate(keys[i], vals[i])
		if _, dup := m.kv[string(keys[i])]; !dup {
			m.keys = append(m.keys, keys[i])
		}
		m.kv[string(keys[i])] = vals[i]
	}
	m.root = m.t.Hash()
	return m
}

// path lists the nodes from the root towards key, as far as they go.
func (m *memTrie) path(key []byte) [][]byte {
	db := memorydb.New()
	if err := m.t.Prove(key, db); err != nil {
		panic(err)
	}
	var out [][]byte
	want := m.root.Bytes()
	nib := vh.Nibbles(key)
	for pos := 0; ; {
		n, err := db.Get(want)
		if err != nil {
			break
		}
		out = append(out, n)
		items := split(n)
		if len(items) == 17 {
			if pos >= len(nib) || len(items[nib[pos]]) != 32 {
				break
			}
			want = items[nib[pos]]
			pos++
			continue
		}
		frag, leaf := compact(items[0])
		if leaf || len(items[1]) != 32 || !bytes.HasPrefix(nib[pos:], frag) {
			break
		}
		pos += len(frag)
		want = items[1]
	}
	return out
}

// split lists the raw contents of a node's items (inline nodes come out as their encoding).
func split(node []byte) [][]byte {
	var raws []gethrlp.RawValue
	if err := gethrlp.DecodeBytes(node, &raws); err != nil {
		panic(err)
	}
	out := make([][]byte, len(raws))
	for i, r := range raws {
		k, c, _, err := gethrlp.Split(r)
		if err != nil {
			panic(err)
		}
		if k == gethrlp.List {
			out[i] = r
		} else {
			out[i] = c
		}
	}
	return out
}

// compact decodes the hex-prefix encoding of a path.
func compact(b []byte) (nibbles []byte, leaf bool) {
	n := vh.Nibbles(b)
	leaf = n[0] >= 2
	if n[0]&1 == 1 {
		return n[1:], leaf
	}
	return n[2:], leaf
}

func compactEnc(nib []byte, leaf bool) []byte {
	f := byte(0)
	if leaf {
		f = 2
	}
	var n []byte
	if len(nib)%2 == 1 {
		n = append([]byte{f | 1}, nib...)
	} else {
		n = append([]byte{f, 0}, nib...)
	}
	out := make([]byte, len(n)/2)
	for i := range out {
		out[i] = n[2*i]<<4 | n[2*i+1]
	}
	return out
}

func enc(v any) []byte {
	b, err := gethrlp.EncodeToBytes(v)
	if err != nil {
		panic(err)
	}
	return b
}

func leafNode(nib, value []byte) []byte { return enc([][]byte{compactEnc(nib, true), value}) }

// trieSpec draws keys whose paths to a target key branch off at chosen depths.
type trieSpec struct {
	keys [][]byte
	at   []int // nibble positions at which siblings branch off the target
}

// drawKeys draws a target (keys[0]) and, for each of `splits` positions, one or
// more keys sharing exactly that many nibbles with it.
func drawKeys(rt *rapid.T, splits []int, wide bool) trieSpec {
	target := vh.RandBytes(rt, "target", 32)
	s := trieSpec{keys: [][]byte{target}, at: splits}
	tn := vh.Nibbles(target)
	for i, p := range splits {
		n := 1
		if wide {
			n = vh.Even(1, 15).Draw(rt, fmt.Sprintf("width%d", i))
		}
		for d := 1; d <= n; d++ {
			k := vh.Nibbles(vh.RandBytes(rt, "sib", 32))
			copy(k, tn[:p])
			k[p] = (tn[p] + byte(d)) & 15
			s.keys = append(s.keys, unnib(k))
		}
	}
	return s
}

func unnib(n []byte) []byte {
	out := make([]byte, len(n)/2)
	for i := range out {
		out[i] = n[2*i]<<4 | n[2*i+1]
	}
	return out
}

// drawSplits draws up to n strictly increasing branch positions; adjacent ones
// give branch under branch, gaps give extensions. It returns the number of
// layers above the target's leaf.
func drawSplits(rt *rapid.T, maxLayers int) (splits []int) {
	layers, pos := 0, 0
	for {
		gap := vh.OneOf([]int{0, 0, 0, 1, 2, 3, 5, 8}).Draw(rt, "gap")
		need := 1
		if gap > 0 {
			need = 2
		}
		if layers+need > maxLayers || len(splits) > 0 && rapid.IntRange(0, 3).Draw(rt, "stop") == 0 {
			if len(splits) > 0 || layers+1 > maxLayers {
				return
			}
			gap, need = 0, 1
		}
		layers += need
		pos += gap
		splits = append(splits, pos)
		pos++
	}
}

// slotValue draws a storage value as the trie stores it: rlp of the trimmed big-endian number.
func slotValue(rt *rapid.T, minLen int) (raw []byte, val []byte) {
	n := vh.Edge(rt, "vlen", minLen, 32, 1, 2, 30, 31, 32)
	raw = vh.RandBytes(rt, "val", n)
	if raw[0] == 0 {
		raw[0] = 1
	}
	if n == 1 {
		raw[0] = vh.OneOf([]byte{1, 2, 0x0f, 0x10, 0x7f, 0x80, 0x81, 0xff}).Draw(rt, "v1")
	}
	return raw, enc(raw)
}

// ---- witnesses ----

const blockHex = 272

// witness is the input of CheckMPTInclusionFixedKeyLength.
type witness struct {
	maxDepth, maxVal int
	key              []byte // 64 nibbles
	value            []byte // maxVal nibbles
	root             []byte // 64 nibbles
	starts           []int
	last             []byte // padded nibbles
	lastRound        int
	lastPrefix       int
	nodes            [][]byte
	rounds           []int
	prefixes         []int
	types            []int
	depth            int
	storage          bool
}

func padNibbles(b []byte, size int) []byte {
	p := append([]byte{}, b...)
	n := 136 - len(b)%136
	pad := make([]byte, n)
	pad[0] |= 1
	pad[n-1] |= 0x80
	out := vh.Nibbles(append(p, pad...))
	if len(out) > size {
		panic(fmt.Sprintf("node of %d bytes does not fit %d nibbles", len(b), size))
	}
	return append(out, make([]byte, size-len(out))...)
}

func rounds(b []byte) int { return len(b) / 136 }

func fill(nib []byte, n int) []byte {
	out := make([]byte, n)
	copy(out, nib)
	return out
}

// absent is the claimed value of a slot that is not in the trie.
var absent = []byte{0x80}

// mkWitness writes the honest witness for nodes (root first, the last one being
// the leaf or, for absence, where the path ends).
func mkWitness(nodes [][]byte, root, key, value []byte, maxDepth int, storage bool) *witness {
	w := &witness{maxDepth: maxDepth, key: vh.Nibbles(key), root: vh.Nibbles(root), depth: len(nodes), storage: storage}
	w.maxVal = 228
	lastSize := 544
	if storage {
		w.maxVal, lastSize = 66, 4*blockHex
	}
	w.value = fill(vh.Nibbles(value), w.maxVal)
	pos := 0
	for i, n := range nodes {
		items := split(n)
		w.starts = append(w.starts, pos)
		prefix, typ := 0, 0
		if len(items) == 17 {
			pos++
		} else {
			frag, _ := compact(items[0])
			prefix, typ = 2-len(frag)%2, 1
			pos += len(frag)
		}
		if i == len(nodes)-1 {
			w.last, w.lastRound, w.lastPrefix = padNibbles(n, lastSize), rounds(n), prefix
			break
		}
		w.nodes = append(w.nodes, padNibbles(n, 4*blockHex))
		w.rounds = append(w.rounds, rounds(n))
		w.prefixes = append(w.prefixes, prefix)
		w.types = append(w.types, typ)
	}
	for len(w.starts) < maxDepth {
		w.starts = append(w.starts, 64)
	}
	for len(w.nodes) < maxDepth-1 {
		w.nodes = append(w.nodes, make([]byte, 4*blockHex))
		w.rounds = append(w.rounds, 0)
		w.prefixes = append(w.prefixes, 0)
		w.types = append(w.types, 0)
	}
	return w
}

func bigNib(n []byte) *big.Int {
	x := new(big.Int)
	for _, v := range n {
		x.Lsh(x, 4).Or(x, big.NewInt(int64(v)))
	}
	return x
}

func keccak(b []byte) []byte { return crypto.Keccak256(b) }
