package mptc

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/brevis-network/zk-utils/circuits/gadgets/mpt"
	"github.com/consensys/gnark/frontend"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"pgregory.net/rapid"

	"vharness/fe"
	"vharness/vh"
)

func upTo(rt *rapid.T, label string, bytes int) *big.Int {
	return vh.BigBelow(rt, label, vh.Pow2(8*bytes))
}

// drawHeader draws a block header with 15, 16 or 17 fields.
func drawHeader(rt *rapid.T, root common.Hash, positiveNumber bool) (*types.Header, int) {
	h := func(l string) common.Hash { return common.BytesToHash(vh.RandBytes(rt, l, 32)) }
	hd := &types.Header{
		ParentHash: h("parent"), UncleHash: h("uncle"), Coinbase: common.BytesToAddress(vh.RandBytes(rt, "cb", 20)),
		Root: root, TxHash: h("txs"), ReceiptHash: h("receipts"), Bloom: types.BytesToBloom(vh.Bytes(rt, "bloom", 256)),
		Difficulty: upTo(rt, "difficulty", 7), Number: upTo(rt, "number", 4),
		GasLimit: upTo(rt, "gasLimit", 4).Uint64(), GasUsed: upTo(rt, "gasUsed", 4).Uint64(), Time: upTo(rt, "time", 4).Uint64(),
		MixDigest: h("mix"),
	}
	if positiveNumber && hd.Number.Sign() == 0 {
		hd.Number.SetInt64(1)
	}
	copy(hd.Nonce[:], vh.RandBytes(rt, "nonce", 8))
	n := vh.OneOf([]int{15, 16, 16, 17, 17}).Draw(rt, "fields")
	if n >= 16 {
		hd.BaseFee = upTo(rt, "baseFee", 8)
	}
	if n >= 17 {
		w := h("withdrawals")
		hd.WithdrawalsHash = &w
	}
	hd.Extra = vh.Bytes(rt, "extra", vh.Edge(rt, "extraLen", 0, 460, 0, 1, 31, 32, 55, 56, 97, 255, 256, 400))
	return hd, n
}

func headerVars(api fe.Engine, rlp []byte) (out [mpt.EthBlockHeadMaxBlockHexSize]frontend.Variable) {
	copy(out[:], vh.Vars(api, padNibbles(rlp, mpt.EthBlockHeadMaxBlockHexSize)))
	return
}

func TestC16_header(t *testing.T) {
	vh.Check(t, 300, 6000, func(rt *rapid.T, c *vh.Case) {
		hd, n := drawHeader(rt, common.BytesToHash(vh.RandBytes(rt, "root", 32)), false)
		rlp := enc(hd)
		if !bytes.Equal(keccak(rlp), hd.Hash().Bytes()) {
			panic("header encoding")
		}
		declared, round := n, rounds(rlp)
		kind := vh.OneOf([]string{"good", "good", "good", "good", "fields", "round", "content"}).Draw(rt, "case")
		switch kind {
		case "fields":
			// the gadget reads at most 17 fields, so that more than 17 means 17: not claimed either way
			declared = rapid.IntRange(13, 18).Filter(func(d int) bool { return d < 18 || n < 17 }).Draw(rt, "declared")
		case "round":
			round = vh.Even(0, 7).Draw(rt, "round")
		}
		c.Nontrivial(hd.Hash(), kind)
		c.Label("%s, %d fields, %d blocks", kind, n, rounds(rlp)+1)
		c.Sample("%s: number %v, %d fields, %d bytes", kind, hd.Number, n, len(rlp))
		var got struct {
			ok                                  bool
			hash, state, txs, recs, number, tim []byte
			numLen                              int
		}
		err := fe.Run(fe.BN254, func(api fe.Engine) {
			r := mpt.CheckEthBlockHash(api, headerVars(api, rlp), api.Var(declared), api.Var(round))
			if got.ok = bit(api, r.Output); !got.ok {
				return
			}
			got.hash, got.state, got.txs, got.recs = small(api, r.BlockHash[:]), small(api, r.StateRoot[:]), small(api, r.TransactionsRoot[:]), small(api, r.ReceiptsRoot[:])
			got.number, got.tim, got.numLen = small(api, r.BlockNumber[:]), small(api, r.BlockTime[:]), int(api.U64(r.BlockNumberLength))
		})
		what := fmt.Sprintf("%s header %x declared %d fields, round %d", kind, rlp, declared, round)
		if declared != n {
			if err == nil && got.ok {
				rt.Fatalf("wrong number of fields accepted: %s", what)
			}
			if err != nil {
				vh.Reject(rt, err, "%s", what)
			}
			return
		}
		vh.Accept(rt, err, "%s", what)
		if !got.ok {
			rt.Fatalf("valid header refused: %s", what)
		}
		if same := bytes.Equal(got.hash, vh.Nibbles(hd.Hash().Bytes())); same != (round == rounds(rlp)) {
			rt.Fatalf("hash %x (right: %v) for %s", unnib(got.hash), same, what)
		}
		if !bytes.Equal(got.state, vh.Nibbles(hd.Root[:])) || !bytes.Equal(got.txs, vh.Nibbles(hd.TxHash[:])) || !bytes.Equal(got.recs, vh.Nibbles(hd.ReceiptHash[:])) {
			rt.Fatalf("roots %x %x %x differ from the header's: %s", got.state, got.txs, got.recs, what)
		}
		num := numHex(hd.Number)
		if got.numLen != len(num) || !bytes.Equal(got.number[:len(num)], num) {
			rt.Fatalf("number %v decoded as %x/%d: %s", hd.Number, got.number, got.numLen, what)
		}
		if tm := numHex(new(big.Int).SetUint64(hd.Time)); !bytes.Equal(got.tim[:len(tm)], tm) {
			rt.Fatalf("time %d decoded as %x: %s", hd.Time, got.tim, what)
		}
	})
}

// TestC18_chain proves a slot of an account of a block in one go.
func TestC18_chain(t *testing.T) {
	vh.Check(t, 96, 960, func(rt *rapid.T, c *vh.Case) {
		sm, skey, raw, sval, _ := storageTrie(rt, rapid.IntRange(0, 2).Draw(rt, "slayers"))
		a := drawAccount(rt)
		a.Root = sm.root.Bytes()
		aval := enc(a)
		am, akey, asibs := accountTrie(rt, rapid.IntRange(0, 2).Draw(rt, "alayers"), aval)
		hd, n := drawHeader(rt, am.root, true)
		rlp := enc(hd)

		kind := vh.OneOf([]string{"good", "good", "absent", "blockHash", "otherState", "otherStorage", "otherBlock", "value", "wrongAccount"}).Draw(rt, "case")
		an, sn := am.path(akey), sm.path(skey)
		switch kind {
		case "absent":
			skey = absentKey(rt, sm, skey, 0)
			sn, sval, raw = sm.path(skey), absent, nil
		}
		aw := mkWitness(an, am.root[:], akey, aval, max(2, len(an)), false)
		sw := mkWitness(sn, sm.root[:], skey, sval, max(2, len(sn)), true)
		hash := vh.Nibbles(hd.Hash().Bytes())
		ok := kind == "good" || kind == "absent"
		switch kind {
		case "blockHash":
			change(rt, hash, 64)
		case "otherState": // the account is in another state
			m2, _, _ := accountTrie(rt, 1, aval)
			an2 := m2.path(m2.keys[0])
			aw = mkWitness(an2, m2.root[:], m2.keys[0], aval, max(2, len(an2)), false)
		case "otherStorage": // the slot is in another storage trie
			m2, k2, _, v2, _ := storageTrie(rt, 1)
			sn2 := m2.path(k2)
			sw = mkWitness(sn2, m2.root[:], k2, v2, max(2, len(sn2)), true)
		case "otherBlock": // the header is not the block's
			h2 := *hd
			h2.Extra = append([]byte{1}, h2.Extra...)
			rlp = enc(&h2)
		case "value":
			change(rt, sw.value, 2*len(sval))
		case "wrongAccount":
			if len(asibs) == 0 {
				aw.key = randNibbles(rt, "ak", 64)
			} else {
				aw.key = vh.Nibbles(asibs[0])
			}
		}
		var got bool
		var lo, hi, num *big.Int
		err := fe.Run(fe.BN254, func(api fe.Engine) {
			var av [228]frontend.Variable
			copy(av[:], vh.Vars(api, aw.value))
			var sv [66]frontend.Variable
			copy(sv[:], vh.Vars(api, sw.value))
			var ar [mpt.AccountMPTMaxDepth - 1]frontend.Variable
			for i := range ar {
				ar[i] = api.Var(0)
			}
			copy(ar[:], vh.Vars(api, aw.rounds))
			r := mpt.CheckEthAddressStorageProof(api, aw.maxDepth, sw.maxDepth, arr64(api, hash), api.Var(n), api.Var(rounds(rlp)),
				arr64(api, aw.key), arr64(api, sw.key), headerVars(api, rlp),
				vh.Vars(api, aw.starts), av, vh.Vars(api, aw.last), api.Var(aw.lastRound), api.Var(aw.lastPrefix), nodeVars(api, aw.nodes), ar, vh.Vars(api, aw.prefixes), vh.Vars(api, aw.types), api.Var(aw.depth),
				vh.Vars(api, sw.starts), sv, vh.Vars(api, sw.last), api.Var(sw.lastRound), api.Var(sw.lastPrefix), nodeVars(api, sw.nodes), vh.Vars(api, sw.rounds), vh.Vars(api, sw.prefixes), vh.Vars(api, sw.types), api.Var(sw.depth))
			got = bit(api, r.Output)
			lo, hi, num = api.Big(r.SlotValue[0]), api.Big(r.SlotValue[1]), api.Big(r.BlockNumber)
		})
		c.Nontrivial(kind, hd.Hash(), aw.key, sw.key)
		c.Label("%s", kind)
		c.Sample("%s: block %v, account depth %d, slot depth %d, value %x", kind, hd.Number, aw.depth, sw.depth, raw)
		what := fmt.Sprintf("%s: header %x account %s slot %s", kind, rlp, aw, sw)
		if !ok {
			if err == nil && got {
				rt.Fatalf("false claim proved: %s", what)
			}
			if err != nil {
				vh.Reject(rt, err, "%s", what)
			}
			return
		}
		vh.Accept(rt, err, "%s", what)
		if !got {
			rt.Fatalf("valid proof refused: %s", what)
		}
		wl, wh := wantSlot(raw)
		if lo.Cmp(wl) != 0 || hi.Cmp(wh) != 0 || num.Cmp(hd.Number) != 0 {
			rt.Fatalf("slot (%v,%v) of block %v, want (%v,%v): %s", lo, hi, num, wl, wh, what)
		}
	})
}
