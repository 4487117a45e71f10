package conc

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"os"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bls12-377"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/algebra/native/sw_bls12377"
	nmimc "github.com/consensys/gnark/std/hash/mimc"
	"github.com/consensys/gnark/std/math/emulated"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	erlp "github.com/ethereum/go-ethereum/rlp"
	"github.com/ethereum/go-ethereum/trie"

	plonk377 "github.com/consensys/gnark/backend/plonk/bls12-377"
	replonk "github.com/consensys/gnark/std/recursion/plonk"

	fsmt "github.com/brevis-network/zk-utils/circuits/fabric/smt"
	"github.com/brevis-network/zk-utils/circuits/gadgets/conv"
	ed "github.com/brevis-network/zk-utils/circuits/gadgets/ed25519"
	e25 "github.com/brevis-network/zk-utils/circuits/gadgets/ed25519/test"
	emu "github.com/brevis-network/zk-utils/circuits/gadgets/emulated"
	emimc "github.com/brevis-network/zk-utils/circuits/gadgets/emulated/mimc"
	"github.com/brevis-network/zk-utils/circuits/gadgets/index-proof/core"
	"github.com/brevis-network/zk-utils/circuits/gadgets/keccak"
	"github.com/brevis-network/zk-utils/circuits/gadgets/limbs"
	"github.com/brevis-network/zk-utils/circuits/gadgets/merkle"
	"github.com/brevis-network/zk-utils/circuits/gadgets/mpt"
	"github.com/brevis-network/zk-utils/circuits/gadgets/mux"
	bls "github.com/brevis-network/zk-utils/circuits/gadgets/pairing_bls12381"
	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
	sha256 "github.com/brevis-network/zk-utils/circuits/gadgets/sha256"
	sha512 "github.com/brevis-network/zk-utils/circuits/gadgets/sha512"
	"github.com/brevis-network/zk-utils/circuits/gadgets/smt"
	gutils "github.com/brevis-network/zk-utils/circuits/gadgets/utils"
	ccircuits "github.com/brevis-network/zk-utils/common/circuits"
	"github.com/brevis-network/zk-utils/common/eth"
	"github.com/brevis-network/zk-utils/common/proof"
	"github.com/brevis-network/zk-utils/common/utils"

	"vharness/fe"
	"vharness/vh"
)

type kind struct {
	name string
	make func(s *src) func() func() string
}

// slow kinds run once or twice in a case, in two goroutines
var slow = map[string]bool{"Keccak-256 gadget": true, "SHA-256 gadget": true, "SHA-512 gadget": true, "hash to field gadget": true,
	"branch gadget": true, "curve map gadget": true, "Keccak root gadget": true, "emulated MiMC gadget": true, "tower gadgets": true}

// val writes down a value that has no pointers to follow.
func val(v ...any) func() string { return func() string { return fmt.Sprintf("%v", v) } }

func js(v any, err error) func() string {
	return func() string {
		b, e := json.Marshal(v)
		return fmt.Sprint(string(b), e, err)
	}
}

// gadget runs a gadget on the evaluator.
func gadget(f func(api fe.Engine, s *src) []frontend.Variable) func(s *src) func() func() string {
	return func(s *src) func() func() string {
		seed := s.seed
		return func() func() string {
			k := []fe.Kind{fe.BN254, fe.BN254, fe.BLS12377}[seed%3]
			var got []*big.Int
			err := fe.Run(k, func(api fe.Engine) { got = vh.Bigs(api, f(api, &src{seed: seed})) })
			return val(got, err)
		}
	}
}

const codecABI = `[{"type":"function","name":"f","inputs":[{"name":"a","type":"uint256"},{"name":"b","type":"bytes"},{"name":"c","type":"address[]"}],"outputs":[{"name":"r","type":"bytes32"},{"name":"s","type":"string"}]},
{"type":"function","name":"g","inputs":[{"name":"a","type":"bytes32"}],"outputs":[{"name":"r","type":"uint256"}]}]`

// one codec for all calls
var codec = utils.NewContractCodec(codecABI)

func addresses(s *src, n int) (l []common.Address) {
	for i := 0; i < n; i++ {
		l = append(l, common.BytesToAddress(s.bytes(20)))
	}
	return
}

func tx(s *src) *types.Transaction {
	key, err := crypto.ToECDSA(append([]byte{1}, s.bytes(31)...))
	if err != nil {
		panic(err)
	}
	to := common.BytesToAddress(s.bytes(20))
	chain := big.NewInt(int64(1 + s.below(1000)))
	var td types.TxData = &types.LegacyTx{Nonce: s.u64(), GasPrice: new(big.Int).SetBytes(s.bytes(9)), Gas: s.u64(), To: &to, Value: new(big.Int).SetBytes(s.bytes(12)), Data: s.bytes(s.below(80))}
	if s.below(2) == 0 {
		td = &types.DynamicFeeTx{ChainID: chain, Nonce: s.u64(), GasTipCap: big.NewInt(3), GasFeeCap: new(big.Int).SetBytes(s.bytes(9)), Gas: s.u64(), To: &to, Value: new(big.Int).SetBytes(s.bytes(12)), Data: s.bytes(s.below(80))}
	}
	t, err := types.SignNewTx(key, types.LatestSignerForChainID(chain), td)
	if err != nil {
		panic(err)
	}
	return t
}

func block(s *src) (*types.Block, types.Receipts) {
	var txs []*types.Transaction
	var rs types.Receipts
	for i := 1 + s.below(20); i > 0; i-- {
		txs = append(txs, tx(s))
		rs = append(rs, &types.Receipt{Type: txs[len(txs)-1].Type(), Status: uint64(i % 2), CumulativeGasUsed: s.u64(),
			Logs: []*types.Log{{Address: common.BytesToAddress(s.bytes(20)), Topics: []common.Hash{common.BytesToHash(s.bytes(32))}, Data: s.bytes(40)}}})
	}
	return types.NewBlock(&types.Header{Number: big.NewInt(7), Difficulty: new(big.Int)}, &types.Body{Transactions: txs}, rs, trie.NewStackTrie(nil)), rs
}

func hexes(s *src, n int) (l []string) {
	for i := 0; i < n; i++ {
		l = append(l, fmt.Sprintf("0x%x", s.bytes(32)))
	}
	return
}

func groth(s *src) proof.Groth16Proof {
	h := hexes(s, 12)
	return proof.Groth16Proof{A: [2]string{h[0], h[1]}, B: [2][2]string{{h[2], h[3]}, {h[4], h[5]}}, C: [2]string{h[6], h[7]},
		Commitment: [2]string{h[8], h[9]}, CommitmentPok: [2]string{h[10], h[11]}}
}

func point(s *src) *e25.Point {
	k, err := e25.NewScalar().SetUniformBytes(s.bytes(64))
	if err != nil {
		panic(err)
	}
	return new(e25.Point).ScalarMult(k, e25.NewGeneratorPoint()) // leaves the tables for the calls to build
}

var kinds = []kind{
	{"Bytes2Hex and back", func(s *src) func() func() string {
		b := s.bytes(s.below(70))
		return func() func() string {
			h := utils.Bytes2Hex0x(b)
			r := utils.Hex2Bytes(h)
			return func() string { return h + fmt.Sprintf("%x", r) }
		}
	}},
	{"addresses and hashes", func(s *src) func() func() string {
		b := s.bytes(20)
		return func() func() string {
			p, q := utils.Pad20Bytes(b[:7]), utils.Pad32Bytes(b)
			return func() string {
				return fmt.Sprintf("%x %x %s %s %x %v", p, q, utils.FormatAddrHex(utils.Bytes2AddrHex(b)), utils.Addr2Hex0x(utils.Bytes2Addr(b)), utils.Hex2Hash(utils.Bytes2Hex(b)), utils.Hex2BigInt(utils.Bytes2Hex(b)))
			}
		}
	}},
	{"lists of hashes", func(s *src) func() func() string {
		h := hexes(s, 1+s.below(4))
		return func() func() string {
			a := utils.ArrayHex2Hash(h)
			b := utils.Strings2bytes(h)
			var l [][]byte
			for i := range a {
				l = append(l, a[i][:])
			}
			c := utils.ArrayBytes2Hex0x(l)
			return val(a, b, c)
		}
	}},
	{"bits", func(s *src) func() func() string {
		v := new(big.Int).SetBytes(s.bytes(32))
		return func() func() string {
			b := utils.DecomposeBits(v, 256)
			p := utils.PackBitsToInt(b)
			fr := utils.BitsToFrBigInt(b[:250], fe.BN254.Modulus())
			g := utils.FlipByGroups(b, 8)
			return val(b, p, fr, g, utils.Flip(b), utils.Byte32ToFrBits([2]*big.Int{p[0], p[1]}, 253))
		}
	}},
	{"ParseBytes32", func(s *src) func() func() string {
		b := s.bytes(32)
		return func() func() string { return val(utils.ParseBytes32(b, 248), utils.DecodeByteToBinary(b[0])) }
	}},
	{"Var2BigInt", func(s *src) func() func() string {
		v := new(big.Int).SetBytes(s.bytes(1 + s.below(40)))
		return func() func() string {
			return val(utils.Var2BigInt(v), utils.Var2BigInt(v.String()), utils.Var2BigInt(v.Bytes()), utils.Str2BigInt(v.String()))
		}
	}},
	{"Partition", func(s *src) func() func() string {
		l := s.bytes(30)
		return func() func() string {
			return val(utils.Partition(l, []int{0, 1, 2}, func(k int, v byte) bool { return int(v)%3 == k }))
		}
	}},
	{"start block", func(s *src) func() func() string {
		id := []uint64{1, 56, 5, 97, 137, s.u64()}[s.below(6)]
		return func() func() string { return val(utils.GetStartBlockInfo(id)) }
	}},
	{"GenerateBls12377Hash", func(s *src) func() func() string {
		b := s.bytes(s.below(100))
		return func() func() string { return val(utils.GenerateBls12377Hash(b), utils.MiMCBlockPad0(b[:len(b)/4], 48)) }
	}},
	{"Poseidon", func(s *src) func() func() string {
		var in []*big.Int
		for i := s.below(8) + 1; i > 0; i-- {
			in = append(in, new(big.Int).SetBytes(s.bytes(31)))
		}
		return func() func() string {
			h := utils.NewPoseidonBn254()
			for _, x := range in {
				h.Write(x)
			}
			r, err := h.Sum()
			h.Reset()
			h.Write(r)
			q, err2 := h.Sum()
			return val(r, err, q, err2)
		}
	}},
	{"codec calldata", func(s *src) func() func() string {
		a, b, l := new(big.Int).SetBytes(s.bytes(30)), s.bytes(s.below(90)), addresses(s, s.below(4))
		return func() func() string {
			d, err := codec.EncodeCalldata("f", a, b, l)
			if err != nil {
				return val(err)
			}
			a2, b2, l2 := new(big.Int), []byte{}, []common.Address{}
			err = codec.DecodeCalldata("f", d[4:], a2, &b2, &l2)
			return func() string { return fmt.Sprintf("%x %v %x %v %v %x", d, a2, b2, l2, err, codec.Selector("f")) }
		}
	}},
	{"codec return data", func(s *src) func() func() string {
		var h [32]byte
		copy(h[:], s.bytes(32))
		text := fmt.Sprintf("%x", s.bytes(s.below(50)))
		return func() func() string {
			d, err := codec.EncodeReturnData("f", h, text)
			if err != nil {
				return val(err)
			}
			var h2 [32]byte
			var t2 string
			err = codec.DecodeReturnData("f", d, &h2, &t2)
			sel := codec.Selector("g")
			return func() string { return fmt.Sprintf("%x %x %s %v %x", d, h2, t2, err, sel) }
		}
	}},
	{"Keccak padding", func(s *src) func() func() string {
		b := s.bytes(s.below(300))
		return func() func() string {
			w := ccircuits.Pad101(bytes.Clone(b))
			p := ccircuits.Pad101Bytes(bytes.Clone(b))
			bb := ccircuits.Bytes2BlockBits(p)
			return val(w, p, bb, ccircuits.Bytes2Bits(p[:8]))
		}
	}},
	{"ChunkIndexFound", func(s *src) func() func() string {
		l := []uint64{s.u64() % 9, s.u64() % 9, s.u64() % 9}
		x := s.u64() % 9
		return func() func() string { return val(ccircuits.ChunkIndexFound(x, l)) }
	}},
	{"fabric headers", func(s *src) func() func() string {
		n := 1 + s.below(3)
		var h [32]byte
		copy(h[:], s.bytes(32))
		start := s.below(1 << 30)
		return func() func() string {
			hs := fsmt.GenHeaders(n, start, h)
			enc, idx, err := fsmt.EncodeHeaders(hs)
			return val(enc, idx, err)
		}
	}},
	{"fabric hash tree", func(s *src) func() func() string {
		var l [][]byte
		for i := 1 << s.below(4); i > 0; i-- {
			l = append(l, append([]byte{0}, s.bytes(31)...))
		}
		b := s.bytes(32)
		return func() func() string { return val(fsmt.MimcRoot(l), fsmt.MimcHashBytes32(b), fsmt.NewHash(b)) }
	}},
	{"receipt commitment", func(s *src) func() func() string {
		in := &proof.SDKQueryProvingInfoForReceipt{BlockNumber: s.u64() >> 32, BlockBaseFee: fmt.Sprint(s.u64()), MPTKey: fmt.Sprint(s.below(1 << 20))}
		for i := s.below(4); i > 0; i-- {
			in.LogExtractInfos = append(in.LogExtractInfos, &proof.SDKQueryLogExtractInfo{ContractAddress: fmt.Sprintf("0x%x", s.bytes(20)), LogTopic0: fmt.Sprintf("0x%x", s.bytes(32)),
				LogIndex: uint64(s.below(9)), ValueIndex: uint64(s.below(4)), Value: fmt.Sprintf("0x%x", s.bytes(32))})
		}
		return func() func() string { return val(proof.MiMCHashReceiptCustomInputs(in)) }
	}},
	{"storage commitment", func(s *src) func() func() string {
		in := &proof.SDKQueryProvingInfoForStorageSlot{BlockNumber: s.u64() >> 32, BlockBaseFee: fmt.Sprint(s.u64()), AccountAddress: fmt.Sprintf("0x%x", s.bytes(20)),
			Slot: fmt.Sprintf("0x%x", s.bytes(32)), SlotValue: new(big.Int).SetBytes(s.bytes(1 + s.below(32))).String(), BlockTime: s.u64()}
		return func() func() string {
			a, err := proof.MiMCHashStorageCustomInputs(in)
			return val(a, err, proof.GetPaddedSlotBytes(in.Slot))
		}
	}},
	{"transaction commitment", func(s *src) func() func() string {
		in := &proof.SDKQueryProvingInfoForTransaction{BlockNumber: s.u64() >> 32, BlockBaseFee: fmt.Sprint(s.u64()), MPTKey: fmt.Sprint(s.below(1 << 20)), LeafHash: fmt.Sprintf("0x%x", s.bytes(32))}
		return func() func() string { return val(proof.MiMCHashTxCustomInputs(in)) }
	}},
	{"transaction proof", func(s *src) func() func() string {
		b, _ := block(s)
		i := s.below(len(b.Transactions()))
		return func() func() string { return val(proof.GetTransactionProof(b, i)) }
	}},
	{"receipt proof", func(s *src) func() func() string {
		b, rs := block(s)
		i := s.below(len(rs))
		return func() func() string {
			n, k, p, err := proof.GetReceiptProof(b, rs, i)
			raw, err2 := proof.GetReceiptRaw(rs[i])
			return val(n, k, p, err, raw, err2)
		}
	}},
	{"signer", func(s *src) func() func() string {
		t := tx(s)
		return func() func() string {
			a, err := proof.RecoverTransactionSignerAddress(t)
			u, err2 := proof.PrepareUnsignedTransactionRlp(t)
			return val(a, err, u, err2)
		}
	}},
	{"chunk proof", func(s *src) func() func() string {
		h := hexes(s, 3)
		p := &proof.ChunkProof{ChunkRoot: h[0], PrevHash: h[1], EndHash: h[2], StartBlockNum: s.u64() >> 32, EndBlockNum: s.u64() >> 32, Proof: groth(s)}
		return func() func() string { return val(p.EncodeABI()) }
	}},
	{"proof as integers", func(s *src) func() func() string {
		p := groth(s)
		return func() func() string {
			a, b, c, d, e := p.AsBigInts()
			return js([]any{a, b, c, d, e, p.OnChainProof(), p.BeaconProof()}, nil)
		}
	}},
	{"key hash", func(s *src) func() func() string {
		_, _, g1, g2 := bls12377.Generators()
		vk := &plonk377.VerifyingKey{}
		for i, p := range []*bls12377.G1Affine{&vk.Kzg.G1, &vk.S[0], &vk.S[1], &vk.S[2], &vk.Ql, &vk.Qr, &vk.Qm, &vk.Qo, &vk.Qk} {
			p.ScalarMultiplication(&g1, big.NewInt(int64(i+1+s.below(50))))
		}
		vk.Kzg.G2 = [2]bls12377.G2Affine{g2, g2}
		vk.NbPublicVariables = s.u64() >> 40
		vk.CosetShift.SetUint64(s.u64())
		v, err := replonk.ValueOfVerifyingKey[sw_bls12377.ScalarField, sw_bls12377.G1Affine, sw_bls12377.G2Affine](vk)
		if err != nil {
			panic(err)
		}
		return func() func() string {
			h := utils.CalculateAppVkHashFor761(v)
			return val(h, utils.CalculateAppVkHashFrom761To254(h))
		}
	}},
	{"contract ABI", func(s *src) func() func() string {
		return func() func() string {
			a, err := eth.BrevisRequestMetaData.GetAbi()
			if err != nil {
				return val(err)
			}
			return val(len(a.Methods), len(a.Events), a.Methods["fulfillRequest"].Sig)
		}
	}},
	{"edwards25519 multiples", func(s *src) func() func() string {
		p := point(s)
		x, _ := e25.NewScalar().SetUniformBytes(s.bytes(64))
		y, _ := e25.NewScalar().SetUniformBytes(s.bytes(64))
		return func() func() string {
			a := new(e25.Point).ScalarBaseMult(x)
			b := new(e25.Point).ScalarMult(y, p)
			d := new(e25.Point).VarTimeDoubleScalarBaseMult(x, p, y)
			z := e25.NewScalar().MultiplyAdd(x, y, x)
			return func() string {
				m := ed.NewEmulatedPoint(d)
				return fmt.Sprintf("%x %x %x %x %v", a.Bytes(), b.Bytes(), d.Bytes(), z.Bytes(), m.X.Limbs)
			}
		}
	}},
	{"edwards25519 generator", func(s *src) func() func() string {
		p := point(s)
		return func() func() string {
			g := e25.NewGeneratorPoint()
			g.Add(g, p) // the caller's own
			i := e25.NewIdentityPoint()
			i.Subtract(i, p)
			return func() string { return fmt.Sprintf("%x %x", g.Bytes(), i.Bytes()) }
		}
	}},
	{"Keccak-256 gadget", gadget(func(api fe.Engine, s *src) []frontend.Variable {
		var w []uint64
		for w = ccircuits.Pad101(s.bytes(s.below(200))); len(w) < 34; {
			w = append(w, 0)
		}
		n := len(w) / 17
		var bits []frontend.Variable
		for _, x := range w[:17*n] {
			bits = append(bits, vh.Vars(api, vh.BitsLE(le(x)))...)
		}
		r := keccak.Keccak256Bits(api, n, api.Var(s.below(n)), bits)
		return r[:]
	})},
	{"SHA-256 gadget", gadget(func(api fe.Engine, s *src) []frontend.Variable {
		d := sha256.New(api)
		d.Write(vh.Vars(api, s.bytes(s.below(130))))
		return d.Sum()
	})},
	{"SHA-512 gadget", gadget(func(api fe.Engine, s *src) []frontend.Variable {
		d := sha512.New(api)
		d.Write(vh.Vars(api, s.bytes(s.below(130))))
		return d.Sum()
	})},
	{"index key gadget", gadget(func(api fe.Engine, s *src) []frontend.Variable {
		r := core.CalTxOrReceiptIndexRlp(api, api.Var(s.below(1<<16)))
		return r[:]
	})},
	{"selection gadgets", gadget(func(api fe.Engine, s *src) []frontend.Variable {
		n := 2 + s.below(8)
		in := [][]frontend.Variable{vh.Vars(api, s.bytes(n)), vh.Vars(api, s.bytes(n))}
		r := mux.Multiplex(api, api.Var(s.below(n)), 2, n, in)
		arr := vh.Vars(api, s.bytes(30))
		r = append(r, rlp.ShiftLeft(api, 30, 0, 30, arr, api.Var(s.below(31)))...)
		o, l := rlp.NewSubArray(30, 20, rlp.LogCeil(30)).SubArray(api, arr, api.Var(3), api.Var(3+s.below(17)))
		return append(append(r, o...), l)
	})},
	{"limb gadgets", gadget(func(api fe.Engine, s *src) []frontend.Variable {
		a := limbs.NewAPI(api)
		l := limbs.NewLimbs(vh.Vars(api, s.bytes(8)), 8)
		return append(a.Resplit(l, 1+s.below(20)).Values(), a.LrotMerge(l, s.below(64)).Val)
	})},
	{"MiMC root gadget", gadget(func(api fe.Engine, s *src) []frontend.Variable {
		h, err := nmimc.NewMiMC(api)
		if err != nil {
			panic(err)
		}
		d := 1 + s.below(4)
		var idx []frontend.Variable
		for i := 0; i < d; i++ {
			idx = append(idx, api.Var(s.below(2)))
		}
		return []frontend.Variable{merkle.MerkleRootBasedOnMiMCHash(api, h, api.Var(s.u64()), idx, vh.Vars(api, s.bytes(d)))}
	})},
	{"tower gadgets", gadget(func(api fe.Engine, s *src) []frontend.Variable {
		f, err := emulated.NewField[bls.BLS12381Fp](api)
		if err != nil {
			panic(err)
		}
		e := bls.NewExt12(f)
		el := func() (r bls.E2) {
			r.A0 = *f.NewElement(vh.Vars(api, []uint64{s.u64(), s.u64(), 1, 0, 0, 7}))
			r.A1 = *f.NewElement(vh.Vars(api, []uint64{s.u64(), 0, 0, s.u64(), 0, 9}))
			return
		}
		x := &bls.E12{C0: bls.E6{B0: el(), B1: el(), B2: el()}, C1: bls.E6{B0: el(), B1: el(), B2: el()}}
		r := e.Frobenius(e.Mul(x, e.Square(x)))
		z := f.Reduce(&r.C1.B2.A1)
		return append(append([]frontend.Variable{}, f.Reduce(&r.C0.B0.A0).Limbs...), z.Limbs...)
	})},
	{"prefix gadgets", gadget(func(api fe.Engine, s *src) []frontend.Variable {
		in := [2]frontend.Variable{api.Var(s.below(16)), api.Var(s.below(16))}
		x, y, z := rlp.RlpArrayPrefix(api, in)
		p, q, r, t, u, v, w := rlp.RlpFieldPrefix(api, in)
		return []frontend.Variable{x, y, z, p, q, r, t, u, v, w}
	})},
	{"hash to field gadget", gadget(func(api fe.Engine, s *src) []frontend.Variable {
		var m [32]frontend.Variable
		copy(m[:], vh.Vars(api, s.bytes(32)))
		return bls.ExpandMsgXmd(api, m, 2)
	})},
	{"shared RLP check", gadget(func(api fe.Engine, s *src) []frontend.Variable {
		in := make([]frontend.Variable, sharedArray.MaxHexLen)
		for i := range in {
			in[i] = api.Var(0)
		}
		copy(in, vh.Vars(api, vh.Nibbles(s.list())))
		o, l, ls, fs := sharedArray.RlpArrayCheck(api, in)
		o2, l2, ls2, _ := sharedArray.RlpNestArrayCheck(api, in)
		r := append([]frontend.Variable{o, l, o2, l2}, append(ls, ls2...)...)
		for _, f := range fs {
			r = append(r, f...)
		}
		return r
	})},
	{"trie node gadgets", gadget(func(api fe.Engine, s *src) []frontend.Variable {
		fill := func(b []byte, n int) []frontend.Variable {
			r := make([]frontend.Variable, n)
			for i := range r {
				r[i] = api.Var(0)
			}
			copy(r, vh.Vars(api, vh.Nibbles(b)))
			return r
		}
		path, v, ref := s.bytes(1+s.below(20)), s.bytes(1+s.below(32)), s.bytes(32)
		claim, err := erlp.EncodeToBytes(v)
		if err != nil {
			panic(err)
		}
		key := bytes.Clone(path)
		key[0] ^= byte(s.below(2)) // half of them of another key
		a := sharedLeaf.CheckLeaf(api, api.Var(2*len(path)), fill(key, 64), fill(claim, 66), fill(rlpList(append([]byte{0x20}, path...), claim), 140), api.Var(2))
		res := a.GetResult()
		b := sharedExt.CheckExtension(api, api.Var(2*len(path)), fill(key, 64), api.Var(64), fill(ref, 64), fill(rlpList(append([]byte{0}, path...), ref), 136), api.Var(2))
		return []frontend.Variable{res.GetOutput(), b.GetOutput()}
	})},
	{"branch gadget", gadget(func(api fe.Engine, s *src) []frontend.Variable {
		var items [][]byte
		for i := 0; i < 16; i++ {
			items = append(items, s.bytes(32*s.below(2)))
		}
		k := s.below(16)
		node := make([]frontend.Variable, 1064)
		for i := range node {
			node[i] = api.Var(0)
		}
		copy(node, vh.Vars(api, vh.Nibbles(rlpList(append(items, nil)...))))
		ref := make([]frontend.Variable, 64)
		for i := range ref {
			ref[i] = api.Var(0)
		}
		copy(ref, vh.Vars(api, vh.Nibbles(items[k])))
		r := sharedBranch.CheckBranch(api, api.Var(k), api.Var(2*len(items[k])), ref, node)
		return []frontend.Variable{r.GetOutput(), sharedBranch.CheckBranchForNonExistence(api, api.Var(k), node)}
	})},
	{"sparse tree gadget", gadget(func(api fe.Engine, s *src) []frontend.Variable {
		h, err := nmimc.NewMiMC(api)
		if err != nil {
			panic(err)
		}
		bit := func(n int) (r []frontend.Variable) {
			for ; n > 0; n-- {
				r = append(r, api.Var(s.below(2)))
			}
			return
		}
		return []frontend.Variable{smt.CheckSMTInclusion(api, h, 2, vh.Vars(api, s.bytes(3)), bit(2), bit(2), vh.Vars(api, s.bytes(2)), api.Var(s.u64())),
			smt.CalculateLeafValueHash(api, h, vh.Vars(api, s.bytes(2)), bit(1))}
	})},
	{"emulated MiMC gadget", gadget(func(api fe.Engine, s *src) []frontend.Variable {
		f, err := emulated.NewField[emulated.BLS12377Fr](api)
		if err != nil {
			panic(err)
		}
		h := emimc.NewMiMC[emulated.BLS12377Fr](api, ecc.BLS12_377)
		x := f.NewElement(vh.Vars(api, []uint64{s.u64(), s.u64(), s.u64(), 5}))
		y := f.Reduce(h.Hash(x, x))
		bits := emu.FromElement(api, y, 8)
		return append(append([]frontend.Variable{}, f.Reduce(emu.ToElement[emulated.BLS12377Fr](api, bits, 8)).Limbs...), bits...)
	})},
	{"curve map gadget", gadget(func(api fe.Engine, s *src) []frontend.Variable {
		f, err := emulated.NewField[bls.BLS12381Fp](api)
		if err != nil {
			panic(err)
		}
		el := func() *emulated.Element[bls.BLS12381Fp] {
			return f.NewElement(vh.Vars(api, []uint64{s.u64(), s.u64(), s.u64(), s.u64(), s.u64(), s.u64() >> 8}))
		}
		x, y := bls.MapElementToCurve2(api, bls.E2{A0: *el(), A1: *el()})
		p := bls.G2Isogeny(api, &bls.G2Affine{X: *x, Y: *y})
		return append(append([]frontend.Variable{}, f.Reduce(&p.X.A0).Limbs...), f.Reduce(&p.Y.A1).Limbs...)
	})},
	{"nibble gadgets", gadget(func(api fe.Engine, s *src) []frontend.Variable {
		h := utils.Recompose32ByteToNibbles(api, vh.Vars(api, s.bytes(32)))
		b := utils.Bytes32{Val: [2]frontend.Variable{api.Big(new(big.Int).SetBytes(s.bytes(31))), api.Var(s.below(256))}}
		n := utils.RecomposeSDKByte32ToNibble(api, utils.Bytes32{Val: [2]frontend.Variable{api.Big(new(big.Int).SetBytes(s.bytes(31))), api.Var(s.below(256))}})
		m := utils.Recompose6BytesToNibbles(api, api.Var(s.u64()>>16))
		r := append(append(append([]frontend.Variable{}, h[:]...), n[:]...), m[:]...)
		r = append(r, utils.Byte32ToBits(api, b, 248)...)
		return append(r, utils.PackBitsToFr(api, vh.Vars(api, vh.BitsLE(s.bytes(40))))...)
	})},
	{"bit gadgets", gadget(func(api fe.Engine, s *src) []frontend.Variable {
		b := vh.Vars(api, vh.BitsLE(s.bytes(32)))
		var f [256]frontend.Variable
		copy(f[:], b)
		u := conv.Bits2Uint128s(api, f)
		r := append(conv.Bits2Bytes(api, b), conv.Bits2BytesArray(api, b)...)
		r = append(append(r, conv.Bits2Nibbles(api, b)...), conv.Bits2Bytes2(api, b)...)
		r = append(r, u[:]...)
		r = append(r, gutils.Flip(b)...)
		r = append(r, gutils.FlipSubSlice(b, 8)...)
		return append(r, gutils.FlipKeccakFvBits(api, api.Var(s.u64()), 64)...)
	})},
	{"Keccak input gadgets", gadget(func(api fe.Engine, s *src) []frontend.Variable {
		p := keccak.PadBits101(api, vh.Vars(api, vh.BitsLE(s.bytes(8*s.below(20)))), 2)
		var r []frontend.Variable
		r = append(r, p...)
		for _, x := range keccak.RecomposeHexToKeccakU64s(api, vh.Vars(api, vh.Nibbles(s.bytes(136))), 16) {
			r = append(r, x[:]...)
		}
		return r
	})},
	{"Keccak root gadget", gadget(func(api fe.Engine, s *src) []frontend.Variable {
		l := make([][256]frontend.Variable, 1<<s.below(2))
		for i := range l {
			copy(l[i][:], vh.Vars(api, vh.BitsLE(s.bytes(32))))
		}
		r := merkle.KeccakMerkleRoot(api, l)
		return r[:]
	})},
	{"public inputs file", func(s *src) func() func() string {
		b := s.bytes(s.below(200))
		return func() func() string {
			f, err := os.CreateTemp("", "pub")
			if err != nil {
				panic(err)
			}
			f.Close()
			defer os.Remove(f.Name())
			w := utils.WritePublicInputs(f.Name(), b)
			r, err := utils.ReadPublicInputs(f.Name())
			return func() string { return fmt.Sprintf("%v %x %v", w, r, err) }
		}
	}},
	{"verifying key file", func(s *src) func() func() string {
		_, _, g1, g2 := bls12377.Generators()
		vk := &plonk377.VerifyingKey{}
		for i, p := range []*bls12377.G1Affine{&vk.Kzg.G1, &vk.S[0], &vk.S[1], &vk.S[2], &vk.Ql, &vk.Qr, &vk.Qm, &vk.Qo, &vk.Qk} {
			p.ScalarMultiplication(&g1, big.NewInt(int64(i+1+s.below(50))))
		}
		vk.Kzg.G2 = [2]bls12377.G2Affine{g2, g2}
		return func() func() string {
			d, err := os.MkdirTemp("", "vk")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(d)
			w := utils.WritePlonkVerifyingKey(d+"/vk", vk)
			got := &plonk377.VerifyingKey{}
			err = utils.ReadPlonkVerifyingKey(d+"/vk", got)
			return func() string { return fmt.Sprint(w, err, got.S, got.Ql, got.Qk, got.Kzg.G1) }
		}
	}},
}

// objects used by many calls at once
var (
	sharedArray = &rlp.ArrayCheck{MaxHexLen: 44, MaxFields: 4, ArrayPrefixMaxHexLen: 4,
		FieldMinHexLen: []int{0, 0, 0, 0}, FieldMaxHexLen: []int{8, 8, 8, 8}}
	sharedLeaf   = mpt.NewMPTLeafCheck(64, 66)
	sharedExt    = mpt.NewMPTExtensionCheck(64, 64)
	sharedBranch = mpt.NewMPTBranchCheck(64)
)

// list is the RLP of four short strings.
func (s *src) list() []byte {
	var items [][]byte
	for i := 0; i < 4; i++ {
		items = append(items, s.bytes(s.below(5)))
	}
	return rlpList(items...)
}

func rlpList(items ...[]byte) []byte {
	b, err := erlp.EncodeToBytes(items)
	if err != nil {
		panic(err)
	}
	return b
}

func le(x uint64) []byte {
	b := make([]byte, 8)
	for i := range b {
		b[i] = byte(x >> (8 * i))
	}
	return b
}
