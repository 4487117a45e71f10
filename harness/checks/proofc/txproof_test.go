package proofc

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/brevis-network/zk-utils/common/proof"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/rlp"
	"github.com/ethereum/go-ethereum/trie"
	"pgregory.net/rapid"

	"vharness/vh"
)

// walk checks a trie proof from its definition: it returns the value under key, and the last node.
func walk(root []byte, key []byte, nodes [][]byte) (val, last []byte, err error) {
	path := vh.Nibbles(key)
	ref := root
	for i, n := range nodes {
		if !bytes.Equal(keccak(n), ref) {
			return nil, nil, fmt.Errorf("node %d does not hash to %x", i, ref)
		}
		var items [][]byte
		if err := rlp.DecodeBytes(n, &items); err != nil {
			return nil, nil, fmt.Errorf("node %d: %v", i, err)
		}
		final := i == len(nodes)-1
		switch len(items) {
		case 17:
			if len(path) == 0 {
				if final {
					return items[16], n, nil
				}
				return nil, nil, fmt.Errorf("node %d: the key ends in a branch", i)
			}
			ref, path = items[path[0]], path[1:]
			if final {
				return nil, nil, fmt.Errorf("the proof stops at a branch")
			}
		case 2:
			c := vh.Nibbles(items[0])
			leaf := c[0] >= 2
			if c[0]&1 == 1 {
				c = c[1:]
			} else {
				c = c[2:]
			}
			if leaf != final || len(path) < len(c) || !bytes.Equal(path[:len(c)], c) || (leaf && len(path) != len(c)) {
				return nil, nil, fmt.Errorf("node %d: path %x does not match %x", i, c, path)
			}
			ref, path = items[1], path[len(c):]
			if leaf {
				return items[1], n, nil
			}
		default:
			return nil, nil, fmt.Errorf("node %d has %d items", i, len(items))
		}
	}
	return nil, nil, fmt.Errorf("empty proof")
}

func drawReceipt(rt *rapid.T, typ uint8, index int) *types.Receipt {
	r := &types.Receipt{Type: typ, CumulativeGasUsed: vh.BigBelow(rt, "gas", vh.Pow2(64)).Uint64(), TransactionIndex: uint(index), Logs: []*types.Log{}}
	if rapid.Bool().Draw(rt, "ok") {
		r.Status = 1
	}
	for i := rapid.IntRange(0, 3).Draw(rt, "logs"); i > 0; i-- {
		l := &types.Log{Address: common.BytesToAddress(vh.RandBytes(rt, "log", 20)), Data: vh.Bytes(rt, "data", rapid.IntRange(0, 100).Draw(rt, "dataLen")), Topics: []common.Hash{}}
		for j := rapid.IntRange(0, 4).Draw(rt, "topics"); j > 0; j-- {
			l.Topics = append(l.Topics, common.BytesToHash(vh.RandBytes(rt, "topic", 32)))
		}
		r.Logs = append(r.Logs, l)
	}
	r.Bloom = types.CreateBloom(types.Receipts{r})
	return r
}

func TestC36_inclusion(t *testing.T) {
	vh.Check(t, 1200, 100000, func(rt *rapid.T, c *vh.Case) {
		n := vh.Edge(rt, "n", 0, 300, 0, 1, 2, 16, 17, 127, 128, 129, 256, 257)
		kinds := []string{"legacy", "dynamic fee", "access list", "unprotected", "blob"}
		key := drawKey(rt)
		pool := make([]*types.Transaction, rapid.IntRange(1, 6).Draw(rt, "pool")) // a few signed, the rest made from them
		for i := range pool {
			pool[i] = drawTx(rt, vh.OneOf(kinds).Draw(rt, "kind"), big.NewInt(1), key)
		}
		rpool := make([]*types.Receipt, len(pool))
		for i := range rpool {
			rpool[i] = drawReceipt(rt, pool[i].Type(), 0)
		}
		var txs types.Transactions
		var rcs types.Receipts
		seed := rapid.Uint64().Draw(rt, "seed")
		pick := vh.Expand(seed, n)
		for i := 0; i < n; i++ {
			p := int(pick[i]) % len(pool)
			tx := pool[p]
			if i >= len(pool) && pick[i]%3 == 0 { // a fresh one, signed with made-up values
				v := vh.Expand(seed+uint64(i), 64+int(pick[i]))
				tx = types.NewTx(&types.LegacyTx{Nonce: uint64(i), GasPrice: big.NewInt(int64(i)), Gas: 21000, Value: new(big.Int), Data: v[64:],
					V: big.NewInt(37), R: new(big.Int).SetBytes(v[:32]), S: new(big.Int).SetBytes(v[32:64])})
			}
			txs = append(txs, tx)
			r := *rpool[p]
			r.Type, r.TransactionIndex = tx.Type(), uint(i)
			r.CumulativeGasUsed += uint64(i)
			rcs = append(rcs, &r)
		}
		blk := types.NewBlock(&types.Header{Number: big.NewInt(7), Difficulty: new(big.Int)}, &types.Body{Transactions: txs}, rcs, trie.NewStackTrie(nil))
		index := vh.Edge(rt, "index", -1, n+2, 0, 15, 16, 127, 128, 255, 256, n-1, n)
		if rapid.IntRange(0, 9).Draw(rt, "far") == 0 {
			index = vh.OneOf([]int{-1 << 40, 1 << 16, 1 << 40, -n}).Draw(rt, "far index")
		}
		receipt := rapid.Bool().Draw(rt, "receipt")
		wrong := n > 0 && rapid.IntRange(0, 5).Draw(rt, "wrong root") == 0
		if wrong { // the block's contents do not belong to its header
			h := blk.Header()
			if receipt {
				h.ReceiptHash[vh.Even(0, 31).Draw(rt, "byte")] ^= 1
			} else {
				h.TxHash[vh.Even(0, 31).Draw(rt, "byte")] ^= 1
			}
			blk = types.NewBlockWithHeader(h).WithBody(types.Body{Transactions: txs})
		}
		few := receipt && n > 0 && rapid.IntRange(0, 5).Draw(rt, "fewer receipts") == 0
		if few { // the receipts of a shorter block
			n = vh.Even(0, n-1).Draw(rt, "receipts")
			rcs = rcs[:n:n]
			if index >= 0 && rapid.Bool().Draw(rt, "past them") {
				index = n + rapid.IntRange(0, len(txs)-n-1).Draw(rt, "past")
			}
		}
		in := index >= 0 && index < n
		c.Nontrivial(blk.TxHash(), blk.ReceiptHash(), index, receipt)
		c.Label("receipt %v, in the block %v, wrong root %v, fewer receipts %v", receipt, in, wrong, few)
		c.Sample("index %d of %d, receipt %v, wrong root %v", index, n, receipt, wrong)
		var nodes [][]byte
		var k, prefix []byte
		var err error
		if panics(func() {
			if receipt {
				nodes, k, prefix, err = proof.GetReceiptProof(blk, rcs, index)
			} else {
				nodes, k, prefix, err = proof.GetTransactionProof(blk, index)
			}
		}) {
			rt.Fatalf("panic for index %d of %d: no valid answer", index, n)
		}
		if wrong || few || !in {
			if err == nil {
				rt.Fatalf("index %d of %d, wrong root %v, fewer receipts %v: the invalid request gets a proof of %d nodes", index, n, wrong, few, len(nodes))
			}
			return
		}
		if err != nil {
			rt.Fatalf("valid index %d of %d: %v", index, n, err)
		}
		wantKey, _ := rlp.EncodeToBytes(uint(index))
		eq(rt, "key", k, wantKey)
		root := blk.TxHash()
		want, _ := txs[index].MarshalBinary()
		if receipt {
			root = blk.ReceiptHash()
			want, _ = rcs[index].MarshalBinary()
		}
		val, last, err := walk(root[:], k, nodes)
		if err != nil {
			rt.Fatalf("the proof for index %d of %d is invalid: %v", index, n, err)
		}
		eq(rt, "proved value", val, want)
		eq(rt, "leaf from its prefix and value", append(bytes.Clone(prefix), want...), last)
		if receipt {
			raw, err := proof.GetReceiptRaw(rcs[index])
			if err != nil {
				rt.Fatalf("valid receipt: %v", err)
			}
			eq(rt, "raw receipt", raw, want)
		}
		if _, err := proof.GetReceiptRaw(nil); err == nil {
			rt.Fatalf("no receipt, but valid bytes")
		}
	})
}
