package proofc

import (
	"math/big"
	"testing"

	"github.com/brevis-network/zk-utils/common/proof"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/rlp"
	"pgregory.net/rapid"

	"vharness/vh"
)

func TestC37_signer(t *testing.T) {
	vh.Check(t, 4000, 300000, func(rt *rapid.T, c *vh.Case) {
		kind := vh.OneOf([]string{"legacy", "legacy", "unprotected", "dynamic fee", "dynamic fee", "access list", "blob"}).Draw(rt, "kind")
		chain := vh.BigBelow(rt, "chain", vh.Pow2(vh.Edge(rt, "chain bits", 1, 66, 8, 16, 32, 53, 63, 64)))
		if chain.Sign() == 0 {
			chain = big.NewInt(1)
		}
		key := drawKey(rt)
		tx := drawTx(rt, kind, chain, key)
		if rapid.Bool().Draw(rt, "decoded") { // as it comes off the wire
			b, _ := tx.MarshalBinary()
			tx = new(types.Transaction)
			if err := tx.UnmarshalBinary(b); err != nil {
				panic(err)
			}
		}
		// a parity that is none: for an r of this size no key has such a signature
		forged := kind == "dynamic fee" && rapid.IntRange(0, 4).Draw(rt, "forged") == 0
		if forged {
			v := vh.OneOf([]uint64{2, 3, 4, 26, 27, 28, 35, 36, 255, 256, 1 << 32, 1<<63 - 2}).Draw(rt, "parity")
			_, r, s := tx.RawSignatureValues()
			tx = types.NewTx(&types.DynamicFeeTx{ChainID: chain, Nonce: tx.Nonce(), GasTipCap: tx.GasTipCap(), GasFeeCap: tx.GasFeeCap(), Gas: tx.Gas(), To: tx.To(), Value: tx.Value(),
				Data: tx.Data(), AccessList: tx.AccessList(), V: new(big.Int).SetUint64(v), R: r, S: s})
		}
		c.Nontrivial(tx.Hash())
		c.Label("%s, forged %v", kind, forged)
		c.Sample("%s on chain %v: %v", kind, chain, tx.Hash())
		raw, err := proof.PrepareUnsignedTransactionRlp(tx)
		from, err2 := proof.RecoverTransactionSignerAddress(tx)
		if kind == "access list" || kind == "blob" {
			if err == nil || err2 == nil {
				rt.Fatalf("a %s transaction, which is not supported, has unsigned bytes %x and signer %x: invalid", kind, raw, from)
			}
			return
		}
		if forged {
			if err2 == nil {
				v, _, _ := tx.RawSignatureValues()
				rt.Fatalf("an invalid signature with parity %v is said to be by %x", v, from)
			}
			return
		}
		if err != nil || err2 != nil {
			rt.Fatalf("a valid %s transaction on chain %v was refused: %v, %v", kind, chain, err, err2)
		}
		eq(rt, "signer of a "+kind+" transaction on chain "+chain.String(), from, crypto.PubkeyToAddress(key.PublicKey).Bytes())
		pre := raw
		if kind == "dynamic fee" {
			pre = append([]byte{2}, raw...)
		}
		var s types.Signer = types.LatestSignerForChainID(chain)
		if kind == "unprotected" {
			s = types.HomesteadSigner{}
		}
		eq(rt, "signing hash of a "+kind+" transaction", keccak(pre), s.Hash(tx).Bytes())
		var fields []rlp.RawValue
		want := map[string]int{"legacy": 9, "unprotected": 6, "dynamic fee": 9}[kind]
		if err := rlp.DecodeBytes(raw, &fields); err != nil || len(fields) != want {
			rt.Fatalf("%d unsigned fields, %v: invalid, want %d", len(fields), err, want)
		}
	})
}
