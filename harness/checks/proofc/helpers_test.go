package proofc

import (
	"bytes"
	"crypto/ecdsa"
	"encoding/hex"
	"math/big"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/holiman/uint256"
	"golang.org/x/crypto/sha3"
	"pgregory.net/rapid"

	"vharness/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

func keccak(b ...[]byte) []byte {
	h := sha3.NewLegacyKeccak256()
	for _, x := range b {
		h.Write(x)
	}
	return h.Sum(nil)
}

func hexText(rt *rapid.T, b []byte) string {
	s := hex.EncodeToString(b)
	if rapid.Bool().Draw(rt, "upper") {
		s = strings.ToUpper(s)
	}
	return "0x" + s
}

func bigBytes(rt *rapid.T, label string, bytes int) *big.Int {
	return vh.BigBelow(rt, label, vh.Pow2(8*bytes))
}

func drawKey(rt *rapid.T) *ecdsa.PrivateKey {
	for s := rapid.Uint64().Draw(rt, "key"); ; s++ {
		if k, err := crypto.ToECDSA(vh.Expand(s, 32)); err == nil {
			return k
		}
	}
}

// drawTx draws and signs a transaction of the given kind.
func drawTx(rt *rapid.T, kind string, chain *big.Int, key *ecdsa.PrivateKey) *types.Transaction {
	var to *common.Address
	if rapid.IntRange(0, 4).Draw(rt, "create") > 0 || kind == "blob" {
		a := common.BytesToAddress(vh.Bytes(rt, "to", 20))
		to = &a
	}
	nonce, gas := vh.BigBelow(rt, "nonce", vh.Pow2(64)).Uint64(), vh.BigBelow(rt, "gas", vh.Pow2(64)).Uint64()
	value, tip, fee := bigBytes(rt, "value", 32), bigBytes(rt, "tip", 32), bigBytes(rt, "fee", 32)
	data := vh.Bytes(rt, "data", vh.Edge(rt, "dataLen", 0, 400, 1, 4, 55, 56, 256))
	var al types.AccessList
	if kind != "legacy" && kind != "unprotected" {
		for i := rapid.IntRange(0, 2).Draw(rt, "access"); i > 0; i-- {
			e := types.AccessTuple{Address: common.BytesToAddress(vh.RandBytes(rt, "acc", 20))}
			for j := rapid.IntRange(0, 3).Draw(rt, "slots"); j > 0; j-- {
				e.StorageKeys = append(e.StorageKeys, common.BytesToHash(vh.RandBytes(rt, "slot", 32)))
			}
			al = append(al, e)
		}
	}
	var td types.TxData
	signer := types.LatestSignerForChainID(chain)
	switch kind {
	case "legacy", "unprotected":
		td = &types.LegacyTx{Nonce: nonce, GasPrice: fee, Gas: gas, To: to, Value: value, Data: data}
		if kind == "unprotected" {
			signer = types.HomesteadSigner{}
		}
	case "access list":
		td = &types.AccessListTx{ChainID: chain, Nonce: nonce, GasPrice: fee, Gas: gas, To: to, Value: value, Data: data, AccessList: al}
	case "dynamic fee":
		td = &types.DynamicFeeTx{ChainID: chain, Nonce: nonce, GasTipCap: tip, GasFeeCap: fee, Gas: gas, To: to, Value: value, Data: data, AccessList: al}
	case "blob":
		u := func(v *big.Int) *uint256.Int { x, _ := uint256.FromBig(v); return x }
		td = &types.BlobTx{ChainID: u(chain), Nonce: nonce, GasTipCap: u(tip), GasFeeCap: u(fee), Gas: gas, To: *to, Value: u(value), Data: data, AccessList: al, BlobFeeCap: u(tip), BlobHashes: []common.Hash{{1}}}
	}
	tx, err := types.SignNewTx(key, signer, td)
	if err != nil {
		panic(err)
	}
	return tx
}

func eq(rt vh.TB, what string, got, want []byte) {
	if !bytes.Equal(got, want) {
		rt.Fatalf("%s is an invalid %x, want %x", what, got, want)
	}
}

func isBig(rt vh.TB, what string, got, want *big.Int) {
	if got == nil || got.Cmp(want) != 0 {
		rt.Fatalf("%s is an invalid %v, want %v", what, got, want)
	}
}
