package utilc

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	fabric "github.com/brevis-network/zk-utils/circuits/fabric/smt"
	"github.com/brevis-network/zk-utils/circuits/gadgets/keccak"
	"github.com/brevis-network/zk-utils/circuits/gadgets/smt"
	m377 "github.com/consensys/gnark-crypto/ecc/bls12-377/fr/mimc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/hash/mimc"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/rlp"
	"pgregory.net/rapid"

	"vharness/fe"
	"vharness/vh"
)

func drawUint(rt *rapid.T, label string, bytes int) uint64 {
	return vh.BigBelow(rt, label, vh.Pow2(8*bytes)).Uint64()
}

// drawHeader draws a header of any fork whose fields keep to their limits.
func drawHeader(rt *rapid.T) (types.Header, string) {
	h := func(l string) common.Hash { return common.BytesToHash(vh.RandBytes(rt, l, 32)) }
	hd := types.Header{
		ParentHash: h("parent"), UncleHash: h("uncle"), Coinbase: common.BytesToAddress(vh.RandBytes(rt, "cb", 20)),
		Root: h("root"), TxHash: h("txs"), ReceiptHash: h("receipts"), Bloom: types.BytesToBloom(vh.Bytes(rt, "bloom", 256)),
		Difficulty: vh.BigBelow(rt, "difficulty", vh.Pow2(56)), Number: vh.BigBelow(rt, "number", vh.Pow2(64)),
		GasLimit: drawUint(rt, "gasLimit", 4), GasUsed: drawUint(rt, "gasUsed", 4), Time: drawUint(rt, "time", 4),
		MixDigest: h("mix"), Extra: vh.Bytes(rt, "extra", rapid.IntRange(0, 32).Draw(rt, "extraLen")),
	}
	copy(hd.Nonce[:], vh.RandBytes(rt, "nonce", 8))
	fork := vh.OneOf([]string{"first", "london", "london", "shanghai", "cancun"}).Draw(rt, "fork")
	if fork != "first" {
		hd.BaseFee = vh.BigBelow(rt, "baseFee", vh.Pow2(56))
	}
	if fork == "shanghai" || fork == "cancun" {
		w := h("withdrawals")
		hd.WithdrawalsHash = &w
	}
	if fork == "cancun" {
		b, e, r := rapid.Uint64().Draw(rt, "blobs"), rapid.Uint64().Draw(rt, "excess"), h("beacon")
		hd.BlobGasUsed, hd.ExcessBlobGas, hd.ParentBeaconRoot = &b, &e, &r
	}
	return hd, fork
}

// pad101 pads for Keccak, from the definition.
func pad101(b []byte) []byte {
	out := append(bytes.Clone(b), 1)
	for len(out)%136 != 0 {
		out = append(out, 0)
	}
	out[len(out)-1] |= 0x80
	return out
}

func TestC40_encodeHeaders(t *testing.T) {
	vh.Check(t, 600, 15000, func(rt *rapid.T, c *vh.Case) {
		n := rapid.IntRange(0, 4).Draw(rt, "headers")
		var hds []types.Header
		var forks []string
		for i := 0; i < n; i++ {
			h, f := drawHeader(rt)
			hds, forks = append(hds, h), append(forks, f)
		}
		bad := ""
		if n > 0 && rapid.IntRange(0, 3).Draw(rt, "exceed") == 0 {
			h := &hds[vh.Even(0, n-1).Draw(rt, "which")]
			bad = vh.OneOf([]string{"difficulty", "number", "gasLimit", "gasUsed", "time", "baseFee"}).Draw(rt, "field")
			over := new(big.Int).Add(vh.Pow2(32), vh.BigBelow(rt, "over", vh.Pow2(31))).Uint64()
			switch bad {
			case "difficulty":
				h.Difficulty = new(big.Int).Add(vh.Pow2(56), h.Difficulty)
			case "number":
				h.Number = new(big.Int).Add(vh.Pow2(64), h.Number)
			case "gasLimit":
				h.GasLimit = over
			case "gasUsed":
				h.GasUsed = over
			case "time":
				h.Time = over
			case "baseFee":
				h.BaseFee = new(big.Int).Add(vh.Pow2(56), big.NewInt(int64(over)))
			}
		}
		var rlps [][]byte
		for i := range hds {
			b, err := rlp.EncodeToBytes(&hds[i])
			if err != nil {
				panic(err)
			}
			rlps = append(rlps, b)
		}
		c.Nontrivial(rlps, bad)
		c.Label("%d headers, exceeding: %q", n, bad)
		c.Sample("%v, exceeding %q", forks, bad)
		var enc [][]frontend.Variable
		var idx []frontend.Variable
		var err error
		if p := panics(func() { vh.Quietly(func() { enc, idx, err = fabric.EncodeHeaders(hds) }) }); p {
			rt.Fatalf("headers of %v, %q: panic on valid headers", forks, bad)
		}
		if bad != "" {
			if err == nil {
				rt.Fatalf("a header with an invalid %s was encoded", bad)
			}
			return
		}
		if err != nil || len(enc) != n || len(idx) != n {
			rt.Fatalf("%d valid headers of %v: %d streams, %d indexes, %v", n, forks, len(enc), len(idx), err)
		}
		hash := rapid.IntRange(0, 9).Draw(rt, "hash") == 0
		for i := range hds {
			want := vh.BitsLE(pad101(rlps[i]))
			blocks := len(want) / 1088
			want = append(want, make([]byte, 5*1088-len(want))...)
			if len(enc[i]) != len(want) || fmt.Sprint(idx[i]) != fmt.Sprint(blocks-1) {
				rt.Fatalf("header %d of %v: %d bits and index %v, invalid for %d blocks", i, forks, len(enc[i]), idx[i], blocks)
			}
			for j, v := range enc[i] {
				if fmt.Sprint(v) != fmt.Sprint(want[j]) {
					rt.Fatalf("header %d of %v: bit %d is an invalid %v", i, forks, j, v)
				}
			}
			if hash { // end to end: the circuit hash of the stream is the header's
				var got []byte
				err := fe.Run(fe.BN254, func(api fe.Engine) {
					o := keccak.Keccak256Bits(api, 5, api.Var(idx[i]), vh.Vars(api, want))
					got = vh.BytesLE(vh.U8s(rt, api, o[:]))
				})
				vh.Accept(rt, err, "stream of a valid header")
				if !bytes.Equal(got, hds[i].Hash().Bytes()) {
					rt.Fatalf("the circuit hash %x of header %d is invalid, want %v", got, i, hds[i].Hash())
				}
				hash = false
			}
		}
	})
}

func TestC40_genHeaders(t *testing.T) {
	vh.Check(t, 100, 3000, func(rt *rapid.T, c *vh.Case) {
		n := vh.Edge(rt, "n", 1, 40, 1, 2)
		start := int(drawUint(rt, "start", 4))
		prev := common.BytesToHash(vh.RandBytes(rt, "prev", 32))
		c.Nontrivial(n, start, prev)
		c.Label("%d headers", n)
		c.Sample("%d headers from %d after %v", n, start, prev)
		hs := fabric.GenHeaders(n, start, prev)
		if len(hs) != n {
			rt.Fatalf("%d headers, invalid: want %d", len(hs), n)
		}
		for i := range hs {
			if hs[i].ParentHash != prev || hs[i].Number.Uint64() != uint64(start+i) {
				rt.Fatalf("header %d of a chain from %d is invalid: number %v, parent %v, want %v", i, start, hs[i].Number, hs[i].ParentHash, prev)
			}
			prev = hs[i].Hash()
		}
		var err error
		vh.Quietly(func() { _, _, err = fabric.EncodeHeaders(hs) })
		if err != nil {
			rt.Fatalf("valid generated headers cannot be encoded: %v", err)
		}
	})
}

func hash377(in ...*big.Int) *big.Int {
	h := m377.NewMiMC()
	for _, v := range in {
		h.Write(v.FillBytes(make([]byte, 32)))
	}
	return new(big.Int).SetBytes(h.Sum(nil))
}

func TestC40_mimc(t *testing.T) {
	vh.Check(t, 300, 8000, func(rt *rapid.T, c *vh.Case) {
		depth := rapid.IntRange(0, 6).Draw(rt, "depth")
		n := 1 << depth
		q := fe.BLS12377.Modulus()
		level := make([]*big.Int, n)
		leaves := make([][]byte, n)
		same := rapid.IntRange(0, 5).Draw(rt, "same") == 0
		at := vh.Even(0, n-1).Draw(rt, "at")
		pre := vh.BigBelow(rt, "pre", q)
		for i := range level {
			if same && i > 0 {
				level[i] = level[0]
			} else if i < 3 {
				level[i] = vh.BigBelow(rt, "leaf", q)
			} else {
				level[i] = new(big.Int).Mod(new(big.Int).SetBytes(vh.RandBytes(rt, "leaf", 40)), q)
			}
			if i == at {
				level[i] = hash377(hash377(pre)) // the gadget hashes the value, and the leaf
			}
			leaves[i] = level[i].FillBytes(make([]byte, 32))
		}
		keep := fmt.Sprint(leaves)
		c.Nontrivial(keep, at)
		c.Label("depth %d", depth)
		c.Sample("%d leaves, the first %x", n, leaves[0])
		root := fabric.MimcRoot(leaves)
		if fmt.Sprint(leaves) != keep {
			rt.Fatalf("the leaves became invalid")
		}
		var idx, sib []*big.Int
		for p := at; len(level) > 1; p /= 2 {
			idx, sib = append(idx, big.NewInt(int64(p%2))), append(sib, level[p^1])
			var up []*big.Int
			for i := 0; i < len(level); i += 2 {
				up = append(up, hash377(level[i], level[i+1]))
			}
			level = up
		}
		if new(big.Int).SetBytes(root).Cmp(level[0]) != 0 {
			rt.Fatalf("invalid root %x of %d leaves, want %x", root, n, level[0])
		}
		// the sparse tree gadget finds every leaf under that root, and no other value
		claim := pre
		forged := rapid.Bool().Draw(rt, "forged")
		if forged {
			claim = new(big.Int).Mod(new(big.Int).Add(pre, big.NewInt(1)), q)
		}
		var ok *big.Int
		err := fe.Run(fe.BLS12377, func(api fe.Engine) {
			h, err := mimc.NewMiMC(api)
			if err != nil {
				panic(err)
			}
			v := func(in []*big.Int) (out []frontend.Variable) {
				for _, x := range in {
					out = append(out, api.Var(x))
				}
				return
			}
			ok = api.Big(smt.CheckSMTInclusion(api, h, depth, v([]*big.Int{claim}), nil, v(idx), v(sib), api.Var(new(big.Int).SetBytes(root))))
		})
		vh.Accept(rt, err, "valid path of leaf %d of %d", at, n)
		if (ok.Sign() != 0) == forged {
			rt.Fatalf("leaf %d of %d, forged %v: found %v is invalid", at, n, forged, ok)
		}
		bad := rapid.IntRange(0, 70).Filter(func(n int) bool { return n&(n-1) != 0 || n == 0 }).Draw(rt, "bad")
		if !panics(func() { fabric.MimcRoot(make([][]byte, bad)) }) {
			rt.Fatalf("%d leaves, an invalid number, have a root", bad)
		}
	})
}

func TestC40_words(t *testing.T) {
	vh.Check(t, 600, 15000, func(rt *rapid.T, c *vh.Case) {
		b := vh.Bytes(rt, "b", 32)
		c.Nontrivial(b)
		c.Label("word")
		c.Sample("%x", b)
		hi, lo := new(big.Int).SetBytes(b[:16]), new(big.Int).SetBytes(b[16:])
		two := fabric.NewHash(b)
		if fmt.Sprint(two[0]) != hi.String() || fmt.Sprint(two[1]) != lo.String() {
			rt.Fatalf("%x has invalid halves %v", b, two)
		}
		if got := new(big.Int).SetBytes(fabric.MimcHashBytes32(b)); got.Cmp(hash377(hi, lo)) != 0 {
			rt.Fatalf("the hash of %x is an invalid %x", b, got)
		}
		e := fabric.EmptyHash()
		if fmt.Sprint(e[0], e[1]) != "0 0" {
			rt.Fatalf("invalid empty hash %v", e)
		}
		n := rapid.IntRange(0, 64).Filter(func(n int) bool { return n != 32 }).Draw(rt, "n")
		if !panics(func() { fabric.NewHash(make([]byte, n)) }) {
			rt.Fatalf("%d bytes, an invalid length, were taken for a hash", n)
		}
	})
}
