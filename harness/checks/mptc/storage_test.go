package mptc

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/brevis-network/zk-utils/circuits/gadgets/mpt"
	"github.com/consensys/gnark/frontend"
	"pgregory.net/rapid"

	"vharness/fe"
	"vharness/vh"
)

type storageOut struct {
	ok     bool
	lo, hi *big.Int
	vlen   *big.Int
}

func arr64(api fe.Engine, n []byte) (out [64]frontend.Variable) {
	copy(out[:], vh.Vars(api, n))
	return
}

func nodeVars(api fe.Engine, nodes [][]byte) (out [][]frontend.Variable) {
	for _, n := range nodes {
		out = append(out, vh.Vars(api, n))
	}
	return
}

// bit reads a gadget's verdict, which must be 0 or 1.
func bit(api fe.Engine, v frontend.Variable) bool {
	b := api.Big(v)
	if b.Sign() == 0 {
		return false
	}
	if b.Cmp(big.NewInt(1)) != 0 {
		panic(fmt.Sprintf("verdict %v is not a bit", b))
	}
	return true
}

func (w *witness) runStorage() (o storageOut, err error) {
	err = fe.Run(fe.BN254, func(api fe.Engine) {
		var val [66]frontend.Variable
		copy(val[:], vh.Vars(api, w.value))
		r := mpt.CheckEthStorageProof(api, w.maxDepth, arr64(api, w.root), arr64(api, w.key), val,
			vh.Vars(api, w.starts), vh.Vars(api, w.last), api.Var(w.lastRound), api.Var(w.lastPrefix),
			nodeVars(api, w.nodes), vh.Vars(api, w.rounds), vh.Vars(api, w.prefixes), vh.Vars(api, w.types), api.Var(w.depth))
		o = storageOut{bit(api, r.Output), api.Big(r.SlotValue[0]), api.Big(r.SlotValue[1]), api.Big(r.ValueLength)}
	})
	return
}

func (w *witness) String() string {
	return fmt.Sprintf("maxDepth=%d depth=%d starts=%v types=%v prefixes=%v lastPrefix=%d root=%x key=%x value=%x",
		w.maxDepth, w.depth, w.starts, w.types, w.prefixes, w.lastPrefix, unnib(w.root), unnib(w.key), unnib(w.value))
}

func (w *witness) clone() *witness {
	c := *w
	c.key = bytes.Clone(w.key)
	c.value = bytes.Clone(w.value)
	c.root = bytes.Clone(w.root)
	c.last = bytes.Clone(w.last)
	c.starts = append([]int{}, w.starts...)
	c.rounds = append([]int{}, w.rounds...)
	c.prefixes = append([]int{}, w.prefixes...)
	c.types = append([]int{}, w.types...)
	c.nodes = nil
	for _, n := range w.nodes {
		c.nodes = append(c.nodes, bytes.Clone(n))
	}
	return &c
}

// storageTrie draws a storage trie and a key in it with its value; layers is
// the greatest number of nodes above the leaf.
func storageTrie(rt *rapid.T, layers int) (m *memTrie, key, raw, val []byte, siblings [][]byte) {
	splits := []int{}
	if layers > 0 && rapid.IntRange(0, 9).Draw(rt, "deep") > 0 {
		splits = drawSplits(rt, layers)
	}
	s := drawKeys(rt, splits, rapid.Bool().Draw(rt, "wide"))
	minLen := 1
	if len(splits) > 0 && splits[len(splits)-1] > 4 {
		minLen = 10
	}
	raw, val = slotValue(rt, minLen)
	if pos := 0; true {
		if len(splits) > 0 {
			pos = splits[len(splits)-1] + 1
		}
		if len(leafNode(vh.Nibbles(s.keys[0])[pos:], val)) < 32 {
			raw = append(raw, make([]byte, 32-len(raw))...)
			val = enc(raw)
		}
	}
	vals := [][]byte{val}
	for range s.keys[1:] {
		vals = append(vals, enc(append([]byte{1}, vh.RandBytes(rt, "sv", 31)...)))
	}
	return build(s.keys, vals), s.keys[0], raw, val, s.keys[1:]
}

func wantSlot(raw []byte) (lo, hi *big.Int) {
	if len(raw) < 32 {
		return new(big.Int).SetBytes(raw), new(big.Int)
	}
	return new(big.Int).SetBytes(raw[1:]), new(big.Int).SetBytes(raw[:1])
}

func checkSlot(rt *rapid.T, w *witness, o storageOut, raw []byte) {
	lo, hi := wantSlot(raw)
	if o.lo.Cmp(lo) != 0 || o.hi.Cmp(hi) != 0 {
		rt.Fatalf("slot value (%v,%v), want (%v,%v) for %x", o.lo, o.hi, lo, hi, raw)
	}
}

// padTypes fills the unused layers' types in half of the cases.
func (w *witness) padTypes(rt *rapid.T) {
	if !rapid.Bool().Draw(rt, "padTypes") {
		return
	}
	for i := w.depth - 1; i < w.maxDepth-1; i++ {
		w.types[i], w.prefixes[i] = 1, rapid.IntRange(0, 2).Draw(rt, "pp")
	}
}

// keep puts real nodes into the unused layers.
func (w *witness) keep(nodes [][]byte) {
	for i := w.depth - 1; i < len(nodes) && i < w.maxDepth-1; i++ {
		w.nodes[i], w.rounds[i] = padNibbles(nodes[i], 4*blockHex), rounds(nodes[i])
	}
}

func layersFor(rt *rapid.T) int {
	return vh.Pick(2, vh.OneOf([]int{2, 2, 3, 3, 4, 5, 8}).Draw(rt, "layers"))
}

func slack(rt *rapid.T, depth int) int {
	d := depth + vh.OneOf([]int{0, 0, 0, 1, 1, 2}).Draw(rt, "slack")
	return max(2, min(d, 10))
}

func TestC10_membership(t *testing.T) {
	vh.Check(t, 120, 1800, func(rt *rapid.T, c *vh.Case) {
		m, key, raw, val, _ := storageTrie(rt, layersFor(rt)+rapid.IntRange(0, 1).Draw(rt, "more"))
		nodes := m.path(key)
		w := mkWitness(nodes, m.root[:], key, val, slack(rt, len(nodes)), true)
		w.padTypes(rt)
		c.Nontrivial(m.root, key)
		c.Label("depth %d/%d types %v", w.depth, w.maxDepth, w.types[:w.depth-1])
		c.Label("value bytes %d", len(raw))
		c.Sample("%s", w)
		o, err := w.runStorage()
		vh.Accept(rt, err, "storage proof %s", w)
		if !o.ok {
			rt.Fatalf("valid storage proof refused: %s", w)
		}
		checkSlot(rt, w, o, raw)
		if want := int64(2*len(val) - 2); o.vlen.Int64() != want {
			rt.Fatalf("value length %v nibbles, want %d for %x", o.vlen, want, val)
		}
	})
}

// mustNotProve demands that a false claim is refused.
func mustNotProve(rt *rapid.T, what string, w *witness) {
	rt.Helper()
	o, err := w.runStorage()
	if err == nil && !o.ok {
		return
	}
	if err == nil {
		rt.Fatalf("false claim proved (%s): %s", what, w)
	}
	vh.Reject(rt, err, "%s: %s", what, w)
}

func otherValue(rt *rapid.T, val []byte) []byte {
	for {
		_, v := slotValue(rt, 1)
		if !bytes.Equal(v, val) {
			return v
		}
	}
}

// forge rebuilds nodes[j:] so that they lead to another value, each linked to the next, and leaves nodes[:j] alone.
func forge(nodes [][]byte, key, value []byte, j int) [][]byte {
	out := make([][]byte, len(nodes))
	nib := vh.Nibbles(key)
	pos := make([]int, len(nodes))
	for i := 0; i+1 < len(nodes); i++ {
		items := split(nodes[i])
		pos[i+1] = pos[i] + 1
		if len(items) == 2 {
			frag, _ := compact(items[0])
			pos[i+1] = pos[i] + len(frag)
		}
	}
	for i := len(nodes) - 1; i >= 0; i-- {
		switch {
		case i < j:
			out[i] = nodes[i]
		case i == len(nodes)-1:
			out[i] = leafNode(nib[pos[i]:], value)
		default:
			items := split(nodes[i])
			h := keccak(out[i+1])
			if len(items) == 2 {
				items[1] = h
			} else {
				items[nib[pos[i]]] = h
			}
			out[i] = enc(items)
		}
	}
	return out
}

// juggle misdeclares prefix lengths and gives the key that a lax reading of the same nodes would spell.
func juggle(rt *rapid.T, nodes [][]byte, w *witness, key []byte) *witness {
	w = w.clone()
	nib := vh.Nibbles(key)
	var spelled []byte
	pos := 0
	for i, n := range nodes {
		items := split(n)
		if i > 0 {
			w.starts[i] = len(spelled)
		}
		if len(items) == 17 {
			spelled = append(spelled, nib[pos])
			pos++
			continue
		}
		frag, _ := compact(items[0])
		pos += len(frag)
		raw := vh.Nibbles(items[0])
		p := rapid.IntRange(0, min(2, len(raw))).Draw(rt, "prefix")
		if i == len(nodes)-1 {
			// the leaf has to make up for the rest
			p = min(max(len(spelled)+len(raw)-64, 0), 2)
			w.lastPrefix = p
		} else {
			w.prefixes[i] = p
		}
		spelled = append(spelled, raw[p:]...)
	}
	for len(spelled) < 64 {
		spelled = append(spelled, 0)
	}
	w.key = spelled[:64]
	return w
}

// scene is a trie with a key in it, and how to claim and forge its values.
type scene struct {
	m        *memTrie
	key, val []byte
	sibs     [][]byte
	storage  bool
	other    func() []byte // another value
	fresh    func() scene  // an unrelated scene
	run      func(w *witness) (ok bool, err error)
}

var attacks = []string{"value", "value", "longer", "root", "key", "key", "forge", "forge", "depth1", "sibling", "sibling", "swap", "truncate", "juggle", "juggle", "juggle", "types", "starts", "gap", "gap"}

// gap rebuilds the nodes so that the path passes over g nibbles of the key behind node i (g < 0: reads some twice).
func gap(nodes [][]byte, w *witness, key, value []byte, i, g int) ([][]byte, []int) {
	nib, last := vh.Nibbles(key), len(nodes)-1
	starts := append([]int{}, w.starts[:len(nodes)]...)
	for j := i + 1; j <= last; j++ {
		starts[j] += g
	}
	if starts[last] < 0 || starts[last] > 63 {
		return nil, nil
	}
	out := make([][]byte, len(nodes))
	out[last] = leafNode(nib[starts[last]:], value)
	for j := last - 1; j >= 0; j-- {
		items := split(nodes[j])
		if len(items) == 2 {
			frag, _ := compact(items[0])
			if starts[j] < 0 || starts[j]+len(frag) > 64 {
				return nil, nil
			}
			items = [][]byte{compactEnc(nib[starts[j]:starts[j]+len(frag)], false), keccak(out[j+1])}
		} else {
			if starts[j] < 0 {
				return nil, nil
			}
			items[nib[starts[j]]] = keccak(out[j+1])
		}
		out[j] = enc(items)
	}
	return out, starts
}

// attack claims something false about the scene; nil if the drawn attack does not apply.
func (s scene) attack(rt *rapid.T, kind string, maxDepth int) *witness {
	m, key, val := s.m, s.key, s.val
	nodes := m.path(key)
	again := func(nodes [][]byte, key, val []byte) *witness {
		return mkWitness(nodes, m.root[:], key, val, maxDepth, s.storage)
	}
	w := again(nodes, key, val)
	switch kind {
	case "value":
		p := vh.Even(0, 2*len(val)-1).Draw(rt, "nibble")
		w.value[p] = (w.value[p] + byte(vh.Even(1, 15).Draw(rt, "by"))) & 15
	case "longer":
		w.value = fill(vh.Nibbles(s.other()), w.maxVal)
	case "root":
		p := vh.Even(0, 63).Draw(rt, "nibble")
		w.root[p] = (w.root[p] + byte(vh.Even(1, 15).Draw(rt, "by"))) & 15
	case "key":
		p := vh.Edge(rt, "nibble", 0, 63, append([]int{}, w.starts[:w.depth]...)...)
		w.key[p] = (w.key[p] + byte(vh.Even(1, 15).Draw(rt, "by"))) & 15
	case "forge":
		v := s.other()
		w = again(forge(nodes, key, v, vh.Even(0, len(nodes)-1).Draw(rt, "from")), key, v)
	case "depth1":
		v := s.other()
		w = again([][]byte{leafNode(vh.Nibbles(key), v)}, key, v)
		if rapid.IntRange(0, 3).Draw(rt, "keepNodes") > 0 {
			w.keep(nodes)
		}
	case "sibling":
		if len(s.sibs) == 0 {
			return nil
		}
		// another key's proof, under this key
		sk := vh.OneOf(s.sibs).Draw(rt, "which")
		sn := m.path(sk)
		if len(sn) > 10 {
			return nil
		}
		sw := mkWitness(sn, m.root[:], sk, m.kv[string(sk)], max(maxDepth, len(sn)), s.storage)
		if rapid.Bool().Draw(rt, "valueOnly") {
			w.value = sw.value
		} else {
			sw.key = w.key
			w = sw
		}
	case "swap":
		m2 := s.fresh()
		w = mkWitness(nodes, m2.m.root[:], key, val, maxDepth, s.storage)
		o := m2.m.path(m2.key)
		if rapid.Bool().Draw(rt, "firstNode") && w.depth > 1 {
			w.nodes[0], w.rounds[0] = padNibbles(o[0], 4*blockHex), rounds(o[0])
			w.types[0] = 0
			if it := split(o[0]); len(it) == 2 {
				f, _ := compact(it[0])
				w.types[0], w.prefixes[0] = 1, 2-len(f)%2
			}
		}
	case "truncate":
		n := rapid.IntRange(1, max(1, len(nodes)-1)).Draw(rt, "n")
		if len(nodes) == 1 || !s.storage && len(nodes[n-1])*2 > 544-2 {
			return nil
		}
		w = again(nodes[:n], key, s.other())
		w.lastPrefix = rapid.IntRange(0, 2).Draw(rt, "prefix")
	case "juggle":
		w = juggle(rt, nodes, w, key)
		if bytes.Equal(w.key, vh.Nibbles(key)) {
			return nil
		}
	case "types":
		// wrong key, with the node kinds misdeclared on the way
		p := vh.OneOf(w.starts[:w.depth]).Draw(rt, "nibble")
		w.key[p] = (w.key[p] + 1) & 15
		for i := range w.types {
			w.types[i] = rapid.IntRange(0, 1).Draw(rt, "type")
		}
	case "gap":
		// no trie: its path spells only some of the key, or some of it twice
		if len(nodes) == 1 {
			return nil
		}
		g := vh.OneOf([]int{1, 1, 2, 2, 3, 4, 8, -1, -2}).Draw(rt, "by")
		v := s.other()
		forged, starts := gap(nodes, w, key, v, vh.Even(0, len(nodes)-2).Draw(rt, "behind"), g)
		if forged == nil {
			return nil
		}
		w = mkWitness(forged, keccak(forged[0]), key, v, maxDepth, s.storage)
		copy(w.starts, starts)
	case "starts":
		p := vh.OneOf(w.starts[:w.depth]).Draw(rt, "nibble")
		w.key[p] = (w.key[p] + 1) & 15
		i := vh.Even(0, w.maxDepth-1).Draw(rt, "i")
		w.starts[i] = rapid.IntRange(0, 64).Draw(rt, "start")
	}
	w.padTypes(rt)
	return w
}

// falseClaims attacks drawn scenes.
func falseClaims(rt *rapid.T, c *vh.Case, s scene) {
	nodes := s.m.path(s.key)
	maxDepth := slack(rt, len(nodes))
	kind := vh.OneOf(attacks).Draw(rt, "attack")
	if rapid.IntRange(0, 19).Draw(rt, "base") == 0 {
		w := mkWitness(nodes, s.m.root[:], s.key, s.val, maxDepth, s.storage)
		ok, err := s.run(w)
		vh.Accept(rt, err, "honest proof %s", w)
		if !ok {
			rt.Fatalf("the honest proof is refused: %s", w)
		}
	}
	w := s.attack(rt, kind, maxDepth)
	if w == nil {
		kind = "value"
		w = s.attack(rt, kind, maxDepth)
	}
	c.Label("attack %s", kind)
	c.Label("depth %d types %v", w.depth, w.types[:w.depth-1])
	c.Nontrivial(kind, s.m.root, w.key, w.value, w.depth)
	c.Sample("%s: %s", kind, w)
	ok, err := s.run(w)
	if err == nil && ok {
		rt.Fatalf("false claim proved (%s): %s", kind, w)
	}
	if err != nil {
		vh.Reject(rt, err, "%s: %s", kind, w)
	}
}

func storageScene(rt *rapid.T, layers int) scene {
	m, key, _, val, sibs := storageTrie(rt, layers)
	return scene{m: m, key: key, val: val, sibs: sibs, storage: true,
		other: func() []byte { return otherValue(rt, val) },
		fresh: func() scene { return storageScene(rt, 2) },
		run: func(w *witness) (bool, error) {
			o, err := w.runStorage()
			return o.ok, err
		}}
}

func TestC11_falseClaims(t *testing.T) {
	vh.Check(t, 160, 2000, func(rt *rapid.T, c *vh.Case) {
		falseClaims(rt, c, storageScene(rt, layersFor(rt)+rapid.IntRange(0, 1).Draw(rt, "more")))
	})
}

// absentKey draws a key that is not in the trie, leaving the target's path at nibble p.
func absentKey(rt *rapid.T, m *memTrie, key []byte, p int) []byte {
	nib := vh.Nibbles(key)
	for d := byte(0); ; d++ {
		k := vh.Nibbles(vh.RandBytes(rt, "absent", 32))
		copy(k, nib[:p])
		k[p] = (nib[p] + byte(vh.Even(1, 15).Draw(rt, "leave"))) & 15
		b := unnib(k)
		if _, in := m.kv[string(b)]; !in {
			return b
		}
	}
}

func lastKind(nodes [][]byte) string {
	items := split(nodes[len(nodes)-1])
	if len(items) == 17 {
		return "branch"
	}
	if _, leaf := compact(items[0]); leaf {
		return "leaf"
	}
	return "extension"
}

func TestC13_absence(t *testing.T) {
	vh.Check(t, 100, 1500, func(rt *rapid.T, c *vh.Case) {
		m, key, _, _, _ := storageTrie(rt, layersFor(rt)+rapid.IntRange(0, 1).Draw(rt, "more"))
		full := m.path(key)
		hw := mkWitness(full, m.root[:], key, absent, 10, true)
		p := vh.Edge(rt, "leaveAt", 0, 63, hw.starts[:hw.depth]...)
		for _, s := range hw.starts[:hw.depth] {
			if rapid.IntRange(0, 3).Draw(rt, "second") == 0 && s < 63 {
				p = s + 1
			}
		}
		k := absentKey(rt, m, key, p)
		nodes := m.path(k)
		w := mkWitness(nodes, m.root[:], k, absent, slack(rt, len(nodes)), true)
		c.Nontrivial(m.root, k)
		c.Label("ends at %s, depth %d", lastKind(nodes), w.depth)
		c.Sample("%s", w)
		o, err := w.runStorage()
		vh.Accept(rt, err, "absence %s", w)
		if !o.ok {
			rt.Fatalf("absence at a %s refused: %s", lastKind(nodes), w)
		}
		if o.lo.Sign() != 0 || o.hi.Sign() != 0 {
			rt.Fatalf("absent slot has value (%v,%v)", o.lo, o.hi)
		}
	})
}

func TestC13_falseAbsence(t *testing.T) {
	kinds := []string{"present", "truncate", "truncate", "truncate", "prefix", "startAt", "startAt", "startAt", "forgeLast", "forgeDepth1", "sibling", "nonzero", "nonzero", "nonzero"}
	vh.Check(t, 120, 1800, func(rt *rapid.T, c *vh.Case) {
		m, key, _, val, sibs := storageTrie(rt, layersFor(rt)+rapid.IntRange(0, 1).Draw(rt, "more"))
		nodes := m.path(key)
		maxDepth := slack(rt, len(nodes))
		mk := func(nodes [][]byte) *witness { return mkWitness(nodes, m.root[:], key, absent, maxDepth, true) }
		w := mk(nodes)
		kind := vh.OneOf(kinds).Draw(rt, "attack")
		switch kind {
		case "present":
		case "truncate":
			if len(nodes) == 1 {
				rt.Skip()
			}
			w = mk(nodes[:vh.Even(1, len(nodes)-1).Draw(rt, "n")])
			if rapid.Bool().Draw(rt, "setPrefix") {
				w.lastPrefix = rapid.IntRange(0, 2).Draw(rt, "prefix")
			}
		case "prefix":
			w = mk(nodes[:rapid.IntRange(1, len(nodes)).Draw(rt, "n")])
			w.lastPrefix = 2 - w.lastPrefix%2
			if rapid.Bool().Draw(rt, "zero") {
				w.lastPrefix = 0
			}
		case "startAt":
			// begin the path inside the key, so that the root's path leads elsewhere
			off := rapid.IntRange(1, 40).Draw(rt, "offset")
			shifted := append(append([]byte{}, w.key[off:]...), make([]byte, off)...)
			sn := m.path(unnib(shifted))
			if len(sn) > maxDepth {
				rt.Skip()
			}
			s := mkWitness(sn, m.root[:], unnib(shifted), absent, maxDepth, true)
			s.key = w.key
			for i := 0; i < s.depth; i++ {
				s.starts[i] = min(s.starts[i]+off, 64)
			}
			if s.starts[s.depth-1] > 63 {
				rt.Skip()
			}
			w = s
		case "forgeLast", "forgeDepth1":
			d := len(nodes)
			pre := nodes[:d-1]
			if kind == "forgeDepth1" {
				pre = nil
			}
			pos := 0
			if len(pre) > 0 {
				pos = w.starts[d-1]
			}
			nib := bytes.Clone(w.key[pos:])
			nib[vh.Even(0, len(nib)-1).Draw(rt, "off")] ^= 5
			var last []byte
			switch rapid.IntRange(0, 2).Draw(rt, "shape") {
			case 0:
				last = leafNode(nib, enc(vh.RandBytes(rt, "fv", 32)))
			case 1:
				items := make([][]byte, 17)
				items[nib[0]^1] = keccak([]byte("a"))
				items[nib[0]^2] = keccak([]byte("b"))
				items[w.key[pos]] = nil
				last = enc(items)
			case 2:
				last = enc([][]byte{compactEnc(nib[:len(nib)/2+1], false), keccak([]byte("c"))})
				if bytes.HasPrefix(w.key[pos:], nib[:len(nib)/2+1]) {
					nib[0] = w.key[pos] ^ 1
					last = enc([][]byte{compactEnc(nib[:len(nib)/2+1], false), keccak([]byte("c"))})
				}
			}
			w = mk(append(append([][]byte{}, pre...), last))
		case "sibling":
			// the honest absence proof of another key
			k := absentKey(rt, m, key, vh.OneOf(w.starts[:w.depth]).Draw(rt, "at"))
			if len(sibs) > 0 && rapid.Bool().Draw(rt, "present") {
				k = vh.OneOf(sibs).Draw(rt, "sib")
			}
			sn := m.path(k)
			s := mkWitness(sn, m.root[:], k, absent, max(maxDepth, len(sn)), true)
			s.key = w.key
			w = s
		case "nonzero":
			// a true absence, claimed with a value
			k := absentKey(rt, m, key, vh.OneOf(w.starts[:w.depth]).Draw(rt, "at"))
			sn := m.path(k)
			w = mkWitness(sn, m.root[:], k, absent, max(maxDepth, len(sn)), true)
			_, v := slotValue(rt, 1)
			if rapid.IntRange(0, 2).Draw(rt, "same") == 0 {
				v = val
			}
			w.value = fill(vh.Nibbles(v), 66)
		}
		if rapid.Bool().Draw(rt, "keepNodes") {
			w.keep(nodes)
		}
		w.padTypes(rt)
		c.Label("attack %s", kind)
		c.Nontrivial(kind, m.root, w.key, w.value, w.depth, w.starts)
		c.Sample("%s: %s", kind, w)
		mustNotProve(rt, "absence, "+kind, w)
	})
}
