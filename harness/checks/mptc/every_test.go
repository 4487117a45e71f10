package mptc

import (
	"bytes"
	"math/big"
	"testing"

	"github.com/brevis-network/zk-utils/circuits/gadgets/mpt"
	"github.com/consensys/gnark/frontend"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"

	"vharness/fe"
	"vharness/vh"
)

// The claims here differ from a true one in a single nibble, which is in turn every nibble there is.

// fixed is the source of the i-th scene of a sweep.
type fixed struct{ b []byte }

func scenery(i int) *fixed { return &fixed{vh.Expand(vh.Seed()<<32+uint64(i), 4096)} }

func (f *fixed) bytes(n int) []byte {
	o := f.b[:n:n]
	f.b = f.b[n:]
	return o
}

func (f *fixed) below(n int) int { return int(f.bytes(1)[0]) % n }

// bump changes nibble p of l.
func (f *fixed) bump(l []byte, p int) { l[p] = (l[p] + 1 + byte(f.below(15))) & 15 }

// keys are a target and others branching off it at the root and, below an extension or not, once more.
func (f *fixed) keys() [][]byte {
	ks := [][]byte{f.bytes(32)}
	at := []int{0}
	if d := f.below(4); d > 0 {
		at = append(at, d)
	}
	for _, p := range at {
		k := vh.Nibbles(f.bytes(32))
		copy(k, vh.Nibbles(ks[0])[:p+1])
		f.bump(k, p)
		ks = append(ks, unnib(k))
	}
	return ks
}

func (f *fixed) account(balance int) account {
	b := append([]byte{1}, f.bytes(balance-1)...)
	return account{Nonce: 1 + uint64(f.below(100)), Balance: new(big.Int).SetBytes(b), Root: f.bytes(32), Code: f.bytes(32)}
}

// everyNibble runs the honest witness once, and one with nibble i of the root, key or value changed.
func everyNibble(t *testing.T, c *vh.Case, i int, w *witness, valueLen int, run func(*witness) (bool, error)) {
	parts := []struct {
		name string
		l    []byte
		n    int
	}{{"root", w.root, 64}, {"key", w.key, 64}, {"value", w.value, valueLen}}
	n := 0
	for _, p := range parts {
		n += p.n
	}
	j := i % (n + 1)
	what := "nothing"
	for _, p := range parts {
		if j < p.n {
			what = p.name
			scenery(i).bump(p.l, j)
			break
		}
		j -= p.n
	}
	c.Nontrivial(i, w.root, w.key, w.value)
	c.Label("changed: %s", what)
	c.Sample("nibble %d of %s changed: %s", j, what, w)
	ok, err := run(w)
	if what == "nothing" {
		vh.Accept(t, err, "honest proof %s", w)
		if !ok {
			t.Fatalf("valid proof refused: %s", w)
		}
		return
	}
	if err == nil && ok {
		t.Fatalf("false claim proved, nibble %d of the %s is not the trie's (an invalid proof): %s", j, what, w)
	}
	if err != nil {
		vh.Reject(t, err, "nibble %d of %s: %s", j, what, w)
	}
}

func TestC11_everyNibble(t *testing.T) {
	const n = 64 + 64 + 66 + 1
	vh.Sweep(t, n*vh.Pick(1, 12), func(t *testing.T, c *vh.Case, i int) {
		f := scenery(i / n * 1000)
		ks := f.keys()
		var vals [][]byte
		for range ks {
			vals = append(vals, enc(append([]byte{byte(1 + f.below(255))}, f.bytes(31)...)))
		}
		m := build(ks, vals)
		nodes := m.path(ks[0])
		w := mkWitness(nodes, m.root[:], ks[0], vals[0], max(2, len(nodes)), true)
		everyNibble(t, c, i, w, 66, func(w *witness) (bool, error) {
			o, err := w.runStorage()
			return o.ok, err
		})
	})
}

func TestC12_everyNibble(t *testing.T) {
	const n = 64 + 64 + 2*(2+1+12+1+33+33) + 1
	vh.Sweep(t, n*vh.Pick(1, 12), func(t *testing.T, c *vh.Case, i int) {
		f := scenery(i / n * 1000)
		ks := f.keys()
		var vals [][]byte
		for range ks {
			vals = append(vals, enc(f.account(12)))
		}
		m := build(ks, vals)
		nodes := m.path(ks[0])
		w := mkWitness(nodes, m.root[:], ks[0], vals[0], max(2, len(nodes)), false)
		everyNibble(t, c, i, w, n-64-64-1, func(w *witness) (bool, error) {
			o, err := w.runAccount()
			return o.ok, err
		})
	})
}

func TestC14_everyNibble(t *testing.T) {
	const n = 64 + 64 + 4 + 1
	vh.Sweep(t, n*vh.Pick(1, 12), func(t *testing.T, c *vh.Case, i int) {
		f := scenery(i / n * 1000)
		// an index whose key has two bytes, and one more transaction than that
		count := 129 + f.below(120)
		index := 128 + f.below(count-128)
		var keys, vals [][]byte
		for k := 0; k < count; k++ {
			keys = append(keys, indexKey(k))
			vals = append(vals, vh.Expand(vh.Seed()<<32+uint64(k), 50))
		}
		m := build(keys, vals)
		nodes := m.path(indexKey(index))
		w := mkTx(nodes, m.root[:], indexKey(index), max(2, len(nodes)))
		j, what := i%n, "nothing"
		change := func(b []byte) []byte {
			nib := vh.Nibbles(b)
			scenery(i).bump(nib, j)
			return unnib(nib)
		}
		switch {
		case j < 64:
			w.root, what = change(w.root), "root"
		case j < 128:
			j -= 64
			w.leafHash, what = change(w.leafHash), "leaf hash"
		case j < 132:
			j -= 128
			scenery(i).bump(w.key, j)
			what = "key"
		}
		holds := bytes.Equal(w.root, m.root[:]) && nibblePathHas(m, count, w.key, w.keyLen, w.leafHash)
		c.Nontrivial(i, w.root, w.key, w.leafHash)
		c.Label("changed: %s, claim holds: %v", what, holds)
		c.Sample("nibble %d of %s changed: %s", j, what, w)
		ok, err := w.run()
		switch {
		case what == "nothing":
			vh.Accept(t, err, "honest proof %s", w)
			if !ok {
				t.Fatalf("valid inclusion refused: %s", w)
			}
		case holds: // only nibbles of the key below the node differ
		case err == nil && ok:
			t.Fatalf("false inclusion proved, nibble %d of the %s is not the trie's (an invalid proof): %s", j, what, w)
		case err != nil:
			vh.Reject(t, err, "nibble %d of %s: %s", j, what, w)
		}
	})
}

// header is a block header with that state root.
func (f *fixed) header(root common.Hash) *types.Header {
	h := func() common.Hash { return common.BytesToHash(f.bytes(32)) }
	num := func(n int) *big.Int { return new(big.Int).SetBytes(f.bytes(n)) }
	return &types.Header{
		ParentHash: h(), UncleHash: h(), Coinbase: common.BytesToAddress(f.bytes(20)), Root: root, TxHash: h(), ReceiptHash: h(),
		Bloom: types.BytesToBloom(f.bytes(256)), Difficulty: num(7), Number: new(big.Int).Add(num(3), big.NewInt(1)),
		GasLimit: num(4).Uint64(), GasUsed: num(4).Uint64(), Time: num(4).Uint64(), Extra: f.bytes(f.below(33)), MixDigest: h(), BaseFee: num(5),
	}
}

func TestC18_everyNibble(t *testing.T) {
	const n = 3*64 + 66 + 1
	vh.Sweep(t, n*vh.Pick(1, 12), func(t *testing.T, c *vh.Case, i int) {
		f := scenery(i / n * 1000)
		sks, aks := f.keys(), f.keys()
		var svals, avals [][]byte
		for range sks {
			svals = append(svals, enc(append([]byte{byte(1 + f.below(255))}, f.bytes(31)...)))
		}
		sm := build(sks, svals)
		hash, state, storage, value := []byte(nil), []byte(nil), vh.Nibbles(sm.root[:]), fill(vh.Nibbles(svals[0]), 66)
		j, what := i%n, "nothing"
		change := func(name string, l []byte) []byte {
			if what == "nothing" && j < len(l) {
				what = name
				scenery(i).bump(l, j)
			} else if what == "nothing" {
				j -= len(l)
			}
			return l
		}
		storage = change("storage root", storage)
		for k := range aks {
			a := f.account(12)
			if k == 0 {
				a.Root = unnib(storage)
			}
			avals = append(avals, enc(a))
		}
		am := build(aks, avals)
		state = change("state root", vh.Nibbles(am.root[:]))
		hd := f.header(common.BytesToHash(unnib(state)))
		rlp := enc(hd)
		hash = change("block hash", vh.Nibbles(hd.Hash().Bytes()))
		value = change("slot value", value)
		an, sn := am.path(aks[0]), sm.path(sks[0])
		aw := mkWitness(an, am.root[:], aks[0], avals[0], max(2, len(an)), false)
		sw := mkWitness(sn, sm.root[:], sks[0], svals[0], max(2, len(sn)), true)
		sw.value = value
		var got bool
		err := fe.Run(fe.BN254, func(api fe.Engine) {
			var av [228]frontend.Variable
			copy(av[:], vh.Vars(api, aw.value))
			var sv [66]frontend.Variable
			copy(sv[:], vh.Vars(api, sw.value))
			var ar [mpt.AccountMPTMaxDepth - 1]frontend.Variable
			for i := range ar {
				ar[i] = api.Var(0)
			}
			copy(ar[:], vh.Vars(api, aw.rounds))
			r := mpt.CheckEthAddressStorageProof(api, aw.maxDepth, sw.maxDepth, arr64(api, hash), api.Var(16), api.Var(rounds(rlp)),
				arr64(api, aw.key), arr64(api, sw.key), headerVars(api, rlp),
				vh.Vars(api, aw.starts), av, vh.Vars(api, aw.last), api.Var(aw.lastRound), api.Var(aw.lastPrefix), nodeVars(api, aw.nodes), ar, vh.Vars(api, aw.prefixes), vh.Vars(api, aw.types), api.Var(aw.depth),
				vh.Vars(api, sw.starts), sv, vh.Vars(api, sw.last), api.Var(sw.lastRound), api.Var(sw.lastPrefix), nodeVars(api, sw.nodes), vh.Vars(api, sw.rounds), vh.Vars(api, sw.prefixes), vh.Vars(api, sw.types), api.Var(sw.depth))
			got = bit(api, r.Output)
		})
		c.Nontrivial(i, hash, state, storage, value)
		c.Label("changed: %s", what)
		c.Sample("nibble %d of %s changed: account depth %d, slot depth %d", j, what, aw.depth, sw.depth)
		switch {
		case what == "nothing":
			vh.Accept(t, err, "honest proof: account %s slot %s", aw, sw)
			if !got {
				t.Fatalf("valid proof refused: account %s slot %s", aw, sw)
			}
		case err == nil && got:
			t.Fatalf("false claim proved, nibble %d of the %s is not the chain's (an invalid proof): header %x account %s slot %s", j, what, rlp, aw, sw)
		case err != nil:
			vh.Reject(t, err, "nibble %d of %s: account %s slot %s", j, what, aw, sw)
		}
	})
}
