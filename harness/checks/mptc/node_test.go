package mptc

import (
	"bytes"
	"testing"

	"github.com/brevis-network/zk-utils/circuits/gadgets/mpt"
	"pgregory.net/rapid"

	"vharness/fe"
	"vharness/vh"
)

func randNibbles(rt *rapid.T, label string, n int) []byte {
	return vh.Nibbles(vh.RandBytes(rt, label, (n+1)/2))[:n]
}

// nodeTail puts a node into a buffer: zero filled, keccak padded or followed by junk.
func nodeTail(rt *rapid.T, node []byte, size int) []byte {
	n := vh.Nibbles(node)
	switch rapid.IntRange(0, 2).Draw(rt, "tail") {
	case 0:
		return fill(n, size)
	case 1:
		return fill(padNibbles(node, 8*blockHex), size)
	}
	return append(n, randNibbles(rt, "junk", size-len(n))...)
}

func change(rt *rapid.T, b []byte, n int) {
	if n > 0 {
		p := vh.Even(0, n-1).Draw(rt, "pos")
		b[p] = (b[p] + byte(vh.Even(1, 15).Draw(rt, "by"))) & 15
	}
}

func pathLen(rt *rapid.T) int { return vh.Edge(rt, "path", 1, 64, 1, 2, 3, 61, 62, 63, 64) }

func TestC15_leaf(t *testing.T) {
	vh.Check(t, 16000, 400000, func(rt *rapid.T, c *vh.Case) {
		k := vh.OneOf([]fe.Kind{fe.BN254, fe.BN254, fe.BLS12377}).Draw(rt, "field")
		pl := pathLen(rt)
		path := randNibbles(rt, "path", pl)
		maxVal := vh.OneOf([]int{66, 66, 228}).Draw(rt, "maxValue")
		var val []byte
		if maxVal == 66 {
			_, val = slotValue(rt, 1)
		} else {
			val = enc(drawAccount(rt))
		}
		key := append(append([]byte{}, path...), randNibbles(rt, "rest", 64-pl)...)
		claim := fill(vh.Nibbles(val), maxVal)
		keyLen, prefix := pl, 2-pl%2
		node := leafNode(path, val)
		size := 4 + 64 + 2 + 4 + maxVal
		ok := true
		zero := false
		kind := vh.OneOf([]string{"good", "good", "good", "value", "key", "keyLen", "prefix", "extension", "threeItems", "zero", "zero", "zeroKey", "zeroPresent"}).Draw(rt, "case")
		switch kind {
		case "value":
			change(rt, claim, 2*len(val))
			ok = false
		case "key":
			change(rt, key, pl)
			ok = false
		case "keyLen":
			keyLen = rapid.IntRange(0, 64).Draw(rt, "len")
			ok = keyLen == pl
		case "prefix":
			prefix = rapid.IntRange(0, 2).Draw(rt, "prefix")
			ok = prefix == 2-pl%2
		case "extension":
			node = enc([][]byte{compactEnc(path, false), val})
			ok = false
		case "threeItems":
			node = enc([][]byte{compactEnc(path, true), val, {1}})
			if len(node)*2 > size {
				node = enc([][]byte{compactEnc(path, true), {}, {1}})
			}
			ok = false
		case "zero", "zeroKey":
			// absence: the leaf belongs to another key
			claim, zero = fill(vh.Nibbles(absent), maxVal), true
			change(rt, key, pl)
			if kind == "zeroKey" {
				keyLen = rapid.IntRange(0, 64).Draw(rt, "len")
			}
		case "zeroPresent":
			claim, zero = fill(vh.Nibbles(absent), maxVal), true
			ok = false
		}
		if zero && bytes.Equal(val, absent) {
			return
		}
		if len(node)*2 > size {
			return
		}
		buf := nodeTail(rt, node, size)
		var got uint64
		err := fe.Run(k, func(api fe.Engine) {
			lc := mpt.NewMPTLeafCheck(64, maxVal)
			r := lc.CheckLeaf(api, api.Var(keyLen), vh.Vars(api, key), vh.Vars(api, claim), vh.Vars(api, buf), api.Var(prefix))
			res := r.GetResult()
			got = api.U64(res.GetOutput())
		})
		c.Nontrivial(kind, node, key, claim, keyLen, prefix)
		c.Label("leaf %s", kind)
		c.Sample("%s path %d nibbles, value %x, node %x", kind, pl, val, node)
		verdict(rt, ok, got, err, "leaf %s: node %x key %x/%d value %x prefix %d", kind, node, key, keyLen, claim, prefix)
	})
}

// verdict compares a node check's total (4 means pass) with the truth.
func verdict(rt *rapid.T, ok bool, got uint64, err error, format string, a ...any) {
	rt.Helper()
	if ok {
		vh.Accept(rt, err, format, a...)
		if got != 4 {
			rt.Fatalf("valid node refused (%d): "+format, append([]any{got}, a...)...)
		}
		return
	}
	if err != nil {
		vh.Reject(rt, err, format, a...)
	} else if got == 4 {
		rt.Fatalf("invalid node accepted: "+format, a...)
	} else if got > 4 {
		rt.Fatalf("check total is %d: "+format, append([]any{got}, a...)...)
	}
}

func TestC15_extension(t *testing.T) {
	vh.Check(t, 16000, 400000, func(rt *rapid.T, c *vh.Case) {
		k := vh.OneOf([]fe.Kind{fe.BN254, fe.BN254, fe.BLS12377}).Draw(rt, "field")
		maxKey := vh.OneOf([]int{64, 64, 64, 7, 6}).Draw(rt, "maxKey")
		pl := vh.Edge(rt, "path", 1, maxKey, 1, 2, 3, 6, 7, 62, 63)
		path := randNibbles(rt, "path", pl)
		ref := vh.RandBytes(rt, "ref", 32)
		key := append(append([]byte{}, path...), randNibbles(rt, "rest", maxKey-pl)...)
		refN := vh.Nibbles(ref)
		keyLen, prefix, refLen := pl, 2-pl%2, 64
		node := enc([][]byte{compactEnc(path, false), ref})
		size := 4 + maxKey + 2 + 2 + 64
		ok := true
		kind := vh.OneOf([]string{"good", "good", "good", "ref", "key", "keyLen", "prefix", "leaf", "threeItems", "refLen", "prefixKey"}).Draw(rt, "case")
		switch kind {
		case "ref":
			change(rt, refN, 64)
			ok = false
		case "key":
			change(rt, key, pl)
			ok = false
		case "keyLen":
			keyLen = rapid.IntRange(0, maxKey).Draw(rt, "len")
			ok = keyLen == pl
		case "prefix":
			prefix = rapid.IntRange(0, 2).Draw(rt, "prefix")
			ok = prefix == 2-pl%2
		case "prefixKey":
			// the encoded path read with another prefix length
			raw := vh.Nibbles(compactEnc(path, false))
			prefix = 3 - prefix
			spelled := raw[prefix:]
			if len(spelled) > maxKey {
				spelled = spelled[:maxKey]
			}
			keyLen = len(raw) - prefix
			key = fill(spelled, maxKey)
			ok = false
		case "leaf":
			node = enc([][]byte{compactEnc(path, true), ref})
			ok = false
		case "threeItems":
			node = enc([][]byte{compactEnc(path, false), ref[:20], {1}})
			ok = false
		case "refLen":
			refLen = rapid.IntRange(0, 64).Draw(rt, "refLen")
			ok = refLen == 64
		}
		if len(node)*2 > size {
			return
		}
		buf := nodeTail(rt, node, size)
		var got uint64
		err := fe.Run(k, func(api fe.Engine) {
			ec := mpt.NewMPTExtensionCheck(maxKey, 64)
			r := ec.CheckExtension(api, api.Var(keyLen), vh.Vars(api, key), api.Var(refLen), vh.Vars(api, refN), vh.Vars(api, buf), api.Var(prefix))
			got = api.U64(r.GetOutput())
		})
		c.Nontrivial(kind, node, key, refN, keyLen, prefix, refLen)
		c.Label("extension %s", kind)
		c.Sample("%s path %d nibbles, node %x", kind, pl, node)
		verdict(rt, ok, got, err, "extension %s: node %x key %x/%d ref %x/%d prefix %d", kind, node, key, keyLen, refN, refLen, prefix)
	})
}

func TestC15_branch(t *testing.T) {
	vh.Check(t, 700, 16000, func(rt *rapid.T, c *vh.Case) {
		k := vh.OneOf([]fe.Kind{fe.BN254, fe.BN254, fe.BLS12377}).Draw(rt, "field")
		items := make([][]byte, 17)
		full := vh.Even(0, 16).Draw(rt, "density")
		for i := 0; i < 16; i++ {
			if full == 16 || vh.Even(0, 15).Draw(rt, "child") < full {
				items[i] = vh.RandBytes(rt, "hash", 32)
			}
		}
		nibble := vh.Even(0, 15).Draw(rt, "nibble")
		present := rapid.IntRange(0, 3).Draw(rt, "present") > 0
		if present && items[nibble] == nil {
			items[nibble] = vh.RandBytes(rt, "hash", 32)
		} else if !present {
			items[nibble] = nil
		}
		ref, refLen := fill(vh.Nibbles(items[nibble]), 64), 2*len(items[nibble])
		ok, okEmpty := true, !present
		kind := vh.OneOf([]string{"good", "good", "ref", "otherChild", "refLen", "outOfRange", "twoItems"}).Draw(rt, "case")
		query := nibble
		switch kind {
		case "ref":
			change(rt, ref, refLen)
			ok = refLen == 0
		case "otherChild":
			query = vh.Even(0, 15).Draw(rt, "query")
			ok = bytes.Equal(items[query], items[nibble])
			okEmpty = items[query] == nil
		case "refLen":
			refLen = vh.OneOf([]int{0, 1, 32, 62, 63, 64}).Draw(rt, "len")
			ok = refLen == 2*len(items[nibble])
		case "outOfRange":
			query = rapid.IntRange(16, 40).Draw(rt, "query")
			ok = false
			okEmpty = query == 16 // the empty value slot, which no nibble can address
		case "twoItems":
			items = [][]byte{compactEnc([]byte{1}, false), vh.RandBytes(rt, "r", 32)}
			ok, okEmpty = false, false
		}
		node := enc(items)
		buf := nodeTail(rt, node, 1064)
		c.Nontrivial(kind, node, query, ref, refLen)
		c.Label("branch %s, child present %v", kind, present)
		c.Sample("%s nibble %d of %x", kind, query, node)
		var got uint64
		err := fe.Run(k, func(api fe.Engine) {
			bc := mpt.NewMPTBranchCheck(64)
			r := bc.CheckBranch(api, api.Var(query), api.Var(refLen), vh.Vars(api, ref), vh.Vars(api, buf))
			got = api.U64(r.GetOutput())
		})
		verdict(rt, ok, got, err, "branch %s: nibble %d ref %x/%d node %x", kind, query, ref, refLen, node)
		if query == 16 {
			return
		}
		var empty bool
		err = fe.Run(k, func(api fe.Engine) {
			bc := mpt.NewMPTBranchCheck(64)
			empty = bit(api, bc.CheckBranchForNonExistence(api, api.Var(query), vh.Vars(api, buf)))
		})
		if okEmpty {
			vh.Accept(rt, err, "empty slot %d of %x", query, node)
		} else if err != nil {
			vh.Reject(rt, err, "slot %d of %x", query, node)
			return
		}
		if empty != okEmpty {
			rt.Fatalf("slot %d reported empty=%v, node %x", query, empty, node)
		}
	})
}
