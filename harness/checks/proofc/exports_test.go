package proofc

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"strings"
	"testing"

	"github.com/brevis-network/zk-utils/common/eth"
	"github.com/brevis-network/zk-utils/common/proof"
	"github.com/brevis-network/zk-utils/common/utils"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	groth16_bn254 "github.com/consensys/gnark/backend/groth16/bn254"
	"pgregory.net/rapid"

	"vharness/vh"
)

// word draws a 32-byte word and a spelling of it, with or without its leading zeros and prefix.
func word(rt *rapid.T, label string) (string, []byte) {
	b := vh.Bytes(rt, label, 32)
	if rapid.IntRange(0, 4).Draw(rt, "small") == 0 {
		copy(b, make([]byte, rapid.IntRange(1, 32).Draw(rt, "zeros")))
	}
	s := hexText(rt, b)
	switch rapid.IntRange(0, 3).Draw(rt, "spelling") {
	case 0:
		s = s[2:]
	case 1:
		s = hexText(rt, bytes.TrimLeft(b, "\x00"))
	}
	return s, b
}

func drawProof(rt *rapid.T) (p proof.Groth16Proof, words [12][]byte) {
	for i, f := range []*string{&p.A[0], &p.A[1], &p.B[0][0], &p.B[0][1], &p.B[1][0], &p.B[1][1], &p.C[0], &p.C[1],
		&p.Commitment[0], &p.Commitment[1], &p.CommitmentPok[0], &p.CommitmentPok[1]} {
		*f, words[i] = word(rt, "word")
	}
	return
}

func flat(a [2]*big.Int, b [2][2]*big.Int, c, d [2]*big.Int) []*big.Int {
	return []*big.Int{a[0], a[1], b[0][0], b[0][1], b[1][0], b[1][1], c[0], c[1], d[0], d[1]}
}

func TestC35_chunkABI(t *testing.T) {
	vh.Check(t, 1500, 40000, func(rt *rapid.T, c *vh.Case) {
		p := &proof.ChunkProof{}
		var words [12][]byte
		p.Proof, words = drawProof(rt)
		var roots [3][]byte
		for i, f := range []*string{&p.ChunkRoot, &p.PrevHash, &p.EndHash} {
			*f, roots[i] = word(rt, "root")
		}
		start, end := vh.BigBelow(rt, "start", vh.Pow2(64)), vh.BigBelow(rt, "end", vh.Pow2(64))
		p.StartBlockNum, p.EndBlockNum = start.Uint64(), end.Uint64()
		var want []byte
		put := func(b []byte) { want = append(want, append(make([]byte, 32-len(b)), b...)...) }
		for i := 0; i < 8; i++ {
			put(words[i])
		}
		put(nil) // a chunk proof has no commitment
		put(nil)
		for _, r := range roots {
			put(r[:16])
			put(r[16:])
		}
		put(start.Bytes())
		put(end.Bytes())
		c.Nontrivial(want)
		c.Label("blocks above 2^63: %v", start.Bit(63)|end.Bit(63) == 1)
		c.Sample("blocks %v to %v, root %s", start, end, p.ChunkRoot)
		before := *p
		eq(rt, "encoding of the chunk proof", p.EncodeABI(), want)
		if *p != before {
			rt.Fatalf("encoding made the proof invalid: %v", *p)
		}
		// the same numbers as integers and for the contracts
		a, b, cc, com, pok := p.Proof.AsBigInts()
		for i, x := range append(flat(a, b, cc, com), pok[:]...) {
			if x.Cmp(new(big.Int).SetBytes(words[i])) != 0 {
				rt.Fatalf("number %d of the proof is an invalid %x, want %x", i, x, words[i])
			}
		}
		for name, q := range map[string]eth.IBeaconVerifierProof{"on-chain": p.Proof.OnChainProof(), "beacon": p.Proof.BeaconProof(),
			"committee": (&proof.CommitteeSszMappingProof{Proof: p.Proof}).GetProof(), "no committee": (*proof.CommitteeSszMappingProof)(nil).GetProof()} {
			for i, x := range flat(q.A, q.B, q.C, q.Commitment) {
				v := new(big.Int).SetBytes(words[i])
				if name == "no committee" {
					v = new(big.Int)
				}
				if x == nil || x.Cmp(v) != 0 {
					rt.Fatalf("number %d of the %s proof is an invalid %x, want %x", i, name, x, v)
				}
			}
		}
	})
}

func TestC35_getters(t *testing.T) {
	vh.Check(t, 500, 10000, func(rt *rapid.T, c *vh.Case) {
		var b [7][]byte
		sig, s := &proof.SigProof{}, &proof.SMTUpdateProof{}
		for i, f := range []*string{&sig.PoseidonRoot, &sig.CommitmentPub, &s.OldSmtRoot, &s.NewSmtRoot, &s.EndBlockHash, &s.NextChunkMerkleRoot, &s.CommitmentPub} {
			*f, b[i] = word(rt, "word")
		}
		c.Nontrivial(b)
		c.Label("getters")
		c.Sample("%v", *s)
		if v := sig.GetCommitment(); v.Cmp(new(big.Int).SetBytes(b[1])) != 0 {
			rt.Fatalf("the commitment %x is invalid, want %x", v, b[1])
		}
		root := sig.GetPoseidonRoot()
		eq(rt, "committee root", root[:], b[0])
		for i, f := range []func() [32]byte{s.GetOldSmtRoot, s.GetNewSmtRoot, s.GetEndBlockHash, s.GetNextChunkMerkleRoot, s.GetCommitmentPub} {
			got := f()
			eq(rt, fmt.Sprintf("getter %d of the tree update", i), got[:], b[i+2])
		}
		// sub-proofs: receipts by transaction, slots by storage hash, transactions by hash, in the order of the request
		r := rand.New(rand.NewSource(int64(rapid.Uint64().Draw(rt, "request"))))
		q := &proof.SDKQueryProvingInfo{}
		fill(r, reflect.ValueOf(q).Elem(), true)
		var want []string
		for _, x := range q.ReceiptInfos {
			want = append(want, x.TransactionHash)
		}
		for _, x := range q.StorageSlotInfos {
			want = append(want, x.StorageHash)
		}
		for _, x := range q.TransactionInfos {
			want = append(want, x.TransactionHash)
		}
		if got := q.GetSubProofS3Path(); !reflect.DeepEqual(got, want) && len(got)+len(want) > 0 {
			rt.Fatalf("invalid sub-proofs %v, want %v", got, want)
		}
	})
}

func TestC35_json(t *testing.T) {
	types := []any{proof.ChunkUpdate{}, proof.StorageProvingInfo{}, proof.TransactionProvingInfo{}, proof.ReceiptProvingInfo{}, proof.UniswapSumProvingInfo{},
		proof.AggregateProvingInfo{}, proof.UpdateProof{}, proof.CommitteeSszMappingProof{}, proof.SigProof{}, proof.ChunkProof{}, proof.Groth16Proof{},
		proof.StorageProof{}, proof.TransactionProof{}, proof.ReceiptProof{}, proof.SMTUpdateProof{}, proof.SMTUpdateAssignmentData{}, proof.SDKQueryProvingInfo{},
		proof.SDKQueryProvingInfoForReceipt{}, proof.SDKQueryLogExtractInfo{}, proof.SDKQueryProvingInfoForStorageSlot{}, proof.SDKQueryProvingInfoForTransaction{},
		proof.TransactionExtraInfo{}, proof.SDKQueryProvingInfoForAppCircuit{}, proof.SubProveRequest{},
		proof.ExportUniswapVolPublicInputs{}, proof.ReceiptDecoderAggPubInputs{}, proof.ZKSDKAggPubInputs{}}
	vh.Check(t, 2000, 50000, func(rt *rapid.T, c *vh.Case) {
		typ := reflect.TypeOf(types[vh.Even(0, len(types)-1).Draw(rt, "type")])
		empties := rapid.Bool().Draw(rt, "empties")
		in, out := reflect.New(typ), reflect.New(typ)
		fill(rand.New(rand.NewSource(int64(rapid.Uint64().Draw(rt, "seed")))), in.Elem(), empties)
		b, err := json.Marshal(in.Interface())
		if err != nil {
			rt.Fatalf("a valid %v was not written: %v", typ, err)
		}
		c.Nontrivial(typ, b)
		c.Label("%s", typ.Name())
		c.Sample("%.200s", b)
		if err := json.Unmarshal(b, out.Interface()); err != nil {
			rt.Fatalf("the valid %v %s was not read: %v", typ, b, err)
		}
		b2, _ := json.Marshal(out.Interface())
		if !bytes.Equal(b, b2) || !same(in.Elem(), out.Elem()) {
			rt.Fatalf("%s became an invalid %s of %v: %+v", b, b2, typ, out.Elem().Interface())
		}
	})
}

// same compares by exported fields, with headers by hash and big integers by value.
func same(a, b reflect.Value) bool {
	if x, ok := a.Interface().(interface{ Hash() [32]byte }); ok {
		return x.Hash() == b.Interface().(interface{ Hash() [32]byte }).Hash()
	}
	if x, ok := a.Interface().(*big.Int); ok {
		y := b.Interface().(*big.Int)
		return x == nil && y == nil || x != nil && y != nil && x.Cmp(y) == 0
	}
	switch a.Kind() {
	case reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem())
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).IsExported() && !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	}
	return a.Interface() == b.Interface()
}

func TestC35_batch(t *testing.T) {
	_, _, g1, g2 := bn254.Generators()
	vh.Check(t, 400, 8000, func(rt *rapid.T, c *vh.Case) {
		p1 := func() (p bn254.G1Affine) {
			return *p.ScalarMultiplication(&g1, vh.BigBelow(rt, "g1", bn254.ID.ScalarField()))
		}
		pr := &groth16_bn254.Proof{Ar: p1(), Krs: p1(), CommitmentPok: p1()}
		pr.Bs.ScalarMultiplication(&g2, vh.BigBelow(rt, "g2", bn254.ID.ScalarField()))
		for i := rapid.IntRange(1, 2).Draw(rt, "commitments"); i > 0; i-- {
			pr.Commitments = append(pr.Commitments, p1())
		}
		c.Nontrivial(pr)
		c.Label("infinity among the points: %v", pr.Ar.IsInfinity() || pr.Krs.IsInfinity() || pr.Bs.IsInfinity() || pr.CommitmentPok.IsInfinity())
		c.Sample("%v", pr.Ar)
		// the points can be rebuilt from the exported numbers, with the second coordinates' imaginary part first
		a, b, cc, com, pok := utils.ExportProof(pr)
		point := func(x [2]*big.Int) (p bn254.G1Affine) {
			p.X.SetBigInt(x[0])
			p.Y.SetBigInt(x[1])
			return
		}
		var bs bn254.G2Affine
		bs.X.A1.SetBigInt(b[0][0])
		bs.X.A0.SetBigInt(b[0][1])
		bs.Y.A1.SetBigInt(b[1][0])
		bs.Y.A0.SetBigInt(b[1][1])
		if point(a) != pr.Ar || point(cc) != pr.Krs || point(com) != pr.Commitments[0] || point(pok) != pr.CommitmentPok || bs != pr.Bs {
			rt.Fatalf("the exported numbers %v %v %v %v %v are invalid", a, b, cc, com, pok)
		}
		nums := append(flat(a, b, cc, com), pok[:]...)
		for i, x := range nums {
			if x.Sign() < 0 || x.Cmp(bn254.ID.BaseField()) >= 0 {
				rt.Fatalf("exported number %d, %x, is not reduced: invalid", i, x)
			}
		}
		pub := proof.ZKSDKAggPubInputs{}
		for _, f := range []*string{&pub.QueryId, &pub.SMTRoot[0], &pub.SMTRoot[1], &pub.AggVkHash, &pub.OutputCommit[0], &pub.OutputCommit[1], &pub.AppVkHash} {
			*f, _ = word(rt, "input")
		}
		parts := strings.Split(pub.GenerateBatchProofAndPublicInputs(pr), ",")
		if len(parts) != 20 || parts[19] != "" {
			rt.Fatalf("%d parts, invalid: %v", len(parts), parts)
		}
		for i, x := range nums {
			v, ok := new(big.Int).SetString("0"+strings.TrimPrefix(parts[i], "0x"), 16)
			if !strings.HasPrefix(parts[i], "0x") || len(parts[i])%2 != 0 || !ok || v.Cmp(x) != 0 {
				rt.Fatalf("part %d is an invalid %q, want 0x%x", i, parts[i], x)
			}
		}
		for i, want := range []string{pub.QueryId, pub.SMTRoot[0], pub.SMTRoot[1], pub.AggVkHash, pub.OutputCommit[0], pub.OutputCommit[1], pub.AppVkHash} {
			if parts[12+i] != want {
				rt.Fatalf("public input %d is an invalid %q, want %q", i, parts[12+i], want)
			}
		}
	})
}
