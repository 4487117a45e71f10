package merklec

import (
	"fmt"
	"hash"
	"math/big"
	"testing"

	"github.com/brevis-network/zk-utils/circuits/gadgets/merkle"
	"github.com/brevis-network/zk-utils/circuits/gadgets/smt"
	m377 "github.com/consensys/gnark-crypto/ecc/bls12-377/fr/mimc"
	m381 "github.com/consensys/gnark-crypto/ecc/bls12-381/fr/mimc"
	m254 "github.com/consensys/gnark-crypto/ecc/bn254/fr/mimc"
	m761 "github.com/consensys/gnark-crypto/ecc/bw6-761/fr/mimc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/hash/mimc"
	"golang.org/x/crypto/sha3"
	"pgregory.net/rapid"

	"vharness/fe"
	"vharness/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

func goMimc(k fe.Kind) hash.Hash {
	switch k {
	case fe.BN254:
		return m254.NewMiMC()
	case fe.BLS12377:
		return m377.NewMiMC()
	case fe.BLS12381:
		return m381.NewMiMC()
	}
	return m761.NewMiMC()
}

// mimcOf hashes field elements with gnark-crypto.
func mimcOf(k fe.Kind, in ...*big.Int) *big.Int {
	h := goMimc(k)
	for _, v := range in {
		b := make([]byte, h.BlockSize())
		if _, err := h.Write(v.FillBytes(b)); err != nil {
			panic(err)
		}
	}
	return new(big.Int).SetBytes(h.Sum(nil))
}

// path folds a leaf hash up a tree.
func path(k fe.Kind, v *big.Int, idx []int, br []*big.Int) *big.Int {
	for i, b := range br {
		if idx[i] == 0 {
			v = mimcOf(k, v, b)
		} else {
			v = mimcOf(k, b, v)
		}
	}
	return v
}

func newMimc(api frontend.API) mimc.MiMC {
	m, err := mimc.NewMiMC(api)
	if err != nil {
		panic(err)
	}
	return m
}

func drawKind(rt *rapid.T) fe.Kind {
	return vh.OneOf([]fe.Kind{fe.BN254, fe.BLS12377, fe.BLS12377, fe.BLS12381, fe.BW6761}).Draw(rt, "field")
}

type mpath struct {
	idx []int
	br  []*big.Int
}

func drawPath(rt *rapid.T, label string, q *big.Int, n int) (p mpath) {
	for i := 0; i < n; i++ {
		p.idx = append(p.idx, rapid.IntRange(0, 1).Draw(rt, label+"Idx"))
		p.br = append(p.br, vh.BigBelow(rt, label+"Br", q))
	}
	return
}

func notBool(rt *rapid.T, q *big.Int) *big.Int {
	v := vh.BigBelow(rt, "notBool", q)
	if v.BitLen() <= 1 {
		v = new(big.Int).Add(v, big.NewInt(2))
	}
	return v
}

// The MiMC Merkle root gadgets fold the path in the order given by the indexes.
func TestC19_root(t *testing.T) {
	vh.Check(t, 4000, 100000, func(rt *rapid.T, c *vh.Case) {
		k := drawKind(rt)
		q := k.Modulus()
		p := drawPath(rt, "p", q, vh.Edge(rt, "depth", 0, 33, 1, 2, 7, 18, 32))
		leaf := vh.BigBelow(rt, "leaf", q)
		hashed := rapid.Bool().Draw(rt, "hashLeaf")
		extra := rapid.IntRange(0, 2).Draw(rt, "extraIndexes")
		mode := vh.OneOf([]string{"good", "good", "good", "index", "count"}).Draw(rt, "mode")
		if mode != "good" && len(p.br) == 0 {
			mode = "good"
		}
		bad := 0
		var badV *big.Int
		if mode == "index" {
			bad = vh.Even(0, len(p.br)-1).Draw(rt, "bad")
			badV = notBool(rt, q)
		}
		c.Nontrivial(k, leaf, p.idx, p.br, hashed, mode)
		c.Label("%s, depth %d", mode, len(p.br)/5*5)
		c.Sample("%s over field %d: leaf %v, depth %d, indexes %v, hashed leaf %v", mode, k, leaf, len(p.br), p.idx, hashed)
		v := leaf
		if hashed {
			v = mimcOf(k, leaf)
		}
		want := path(k, v, p.idx, p.br)
		var got *big.Int
		err := fe.Run(k, func(api fe.Engine) {
			var idx []frontend.Variable
			for _, b := range p.idx {
				idx = append(idx, api.Var(b))
			}
			switch mode {
			case "index":
				idx[bad] = api.Var(badV)
			case "count":
				idx = idx[:len(idx)-1]
			default:
				for i := 0; i < extra; i++ {
					idx = append(idx, api.Var(1))
				}
			}
			idx = vh.Held(api, idx)
			f := merkle.MerkleRootWithLeaveHash
			if hashed {
				f = merkle.MerkleRootBasedOnMiMCHash
			}
			m := newMimc(api)
			m.Write(api.Var(7)) // whatever the hasher was used for before
			got = api.Big(f(api, m, api.Var(leaf), idx, vh.Vars(api, p.br)))
		})
		if mode != "good" {
			vh.Reject(rt, err, "%s", mode)
			return
		}
		vh.Accept(rt, err, "depth %d", len(p.br))
		if got.Cmp(want) != 0 {
			rt.Fatalf("valid path gives root %v, want %v", got, want)
		}
	})
}

// One folding step.
func TestC19_step(t *testing.T) {
	vh.Check(t, 1500, 40000, func(rt *rapid.T, c *vh.Case) {
		k := drawKind(rt)
		q := k.Modulus()
		a, b := vh.BigBelow(rt, "a", q), vh.BigBelow(rt, "b", q)
		idx := big.NewInt(int64(rapid.IntRange(0, 1).Draw(rt, "idx")))
		if rapid.IntRange(0, 3).Draw(rt, "invalid") == 0 {
			idx = notBool(rt, q)
		}
		c.Nontrivial(k, a, b, idx)
		c.Label("boolean index %v", idx.BitLen() <= 1)
		c.Sample("field %d: %v, %v, index %v", k, a, b, idx)
		var got *big.Int
		err := fe.Run(k, func(api fe.Engine) {
			got = api.Big(merkle.MiMCHashBasedOnIndex(api, newMimc(api), api.Var(a), api.Var(b), api.Var(idx)))
		})
		if idx.BitLen() > 1 {
			vh.Reject(rt, err, "index %v", idx)
			return
		}
		vh.Accept(rt, err, "index %v", idx)
		if want := path(k, a, []int{int(idx.Int64())}, []*big.Int{b}); got.Cmp(want) != 0 {
			rt.Fatalf("valid step gives %v, want %v", got, want)
		}
	})
}

// CheckSMTInclusion is 1 for a leaf under the root and 0 for any other.
func TestC19_inclusion(t *testing.T) {
	vh.Check(t, 4000, 100000, func(rt *rapid.T, c *vh.Case) {
		k := drawKind(rt)
		q := k.Modulus()
		vp := drawPath(rt, "v", q, vh.Edge(rt, "valueDepth", 0, 8, 1, 7))
		sp := drawPath(rt, "s", q, vh.Edge(rt, "depth", 0, 20, 1, 2, 18))
		leaf := vh.BigBelow(rt, "leaf", q)
		value := path(k, mimcOf(k, leaf), vp.idx, vp.br)
		root := path(k, mimcOf(k, value), sp.idx, sp.br)
		mode := vh.OneOf([]string{"good", "good", "leaf", "vbranch", "vindex", "branch", "index", "root", "nonbool", "count"}).Draw(rt, "mode")
		if len(sp.br) == 0 && (mode == "branch" || mode == "index" || mode == "nonbool") {
			mode = "root"
		}
		if len(vp.br) == 0 && (mode == "vbranch" || mode == "vindex" || mode == "count") {
			mode = "leaf"
		}
		other := func(v *big.Int) *big.Int {
			for {
				d := vh.BigBelow(rt, "other", q)
				if d.Cmp(v) != 0 {
					return d
				}
				if d.Add(d, big.NewInt(1)).Mod(d, q); d.Cmp(v) != 0 {
					return d
				}
			}
		}
		clone := func(p mpath) mpath {
			return mpath{append([]int{}, p.idx...), append([]*big.Int{}, p.br...)}
		}
		vq, sq, lq, rq := clone(vp), clone(sp), leaf, root
		var nb *big.Int
		pos := 0
		switch mode {
		case "leaf":
			lq = other(leaf)
		case "root":
			rq = other(root)
		case "vbranch":
			pos = vh.Even(0, len(vp.br)-1).Draw(rt, "pos")
			vq.br[pos] = other(vp.br[pos])
		case "branch":
			pos = vh.Even(0, len(sp.br)-1).Draw(rt, "pos")
			sq.br[pos] = other(sp.br[pos])
		case "vindex":
			vq.idx[vh.Even(0, len(vp.br)-1).Draw(rt, "pos")] ^= 1
		case "index":
			sq.idx[vh.Even(0, len(sp.br)-1).Draw(rt, "pos")] ^= 1
		case "nonbool":
			pos = vh.Even(0, len(sp.br)+len(vp.br)-1).Draw(rt, "pos")
			nb = notBool(rt, q)
		}
		want := path(k, mimcOf(k, path(k, mimcOf(k, lq), vq.idx, vq.br)), sq.idx, sq.br).Cmp(rq) == 0
		c.Nontrivial(k, leaf, vp, sp, mode, pos)
		c.Label("%s", mode)
		c.Sample("%s over field %d: value depth %d, depth %d, leaf %v", mode, k, len(vp.br), len(sp.br), leaf)
		var got *big.Int
		err := fe.Run(k, func(api fe.Engine) {
			tree := append([]frontend.Variable{api.Var(lq)}, vh.Vars(api, vq.br)...)
			vi, si := vh.Vars(api, vq.idx), vh.Vars(api, sq.idx)
			if mode == "nonbool" {
				if pos < len(vi) {
					vi[pos] = api.Var(nb)
				} else {
					si[pos-len(vi)] = api.Var(nb)
				}
			}
			if mode == "count" {
				vi = vi[:len(vi)-1]
			}
			got = api.Big(smt.CheckSMTInclusion(api, newMimc(api), len(si), tree, vi, si, vh.Vars(api, sq.br), api.Var(rq)))
		})
		if mode == "nonbool" || mode == "count" {
			vh.Reject(rt, err, "%s", mode)
			return
		}
		vh.Accept(rt, err, "%s", mode)
		if w := map[bool]int64{false: 0, true: 1}[want]; !got.IsInt64() || got.Int64() != w {
			rt.Fatalf("valid call with %s answers %v, want %d", mode, got, w)
		}
	})
}

func keccak256(b ...[]byte) []byte {
	h := sha3.NewLegacyKeccak256()
	for _, x := range b {
		h.Write(x)
	}
	return h.Sum(nil)
}

func keccakRoot(l [][]byte) []byte {
	for len(l) > 1 {
		var n [][]byte
		for i := 0; i < len(l); i += 2 {
			n = append(n, keccak256(l[i], l[i+1]))
		}
		l = n
	}
	return l[0]
}

// KeccakMerkleRoot on 2^n leaves; other leaf counts are refused when the circuit is built.
func TestC20_root(t *testing.T) {
	vh.Check(t, 1200, 24000, func(rt *rapid.T, c *vh.Case) {
		n := vh.OneOf([]int{1, 2, 2, 4, 4, 8, 8, 16, 0, 3, 5, 6, 7, 9, 12}).Draw(rt, "leaves")
		pow := n > 0 && n&(n-1) == 0
		kind := vh.OneOf([]fe.Kind{fe.BN254, fe.BN254, fe.BLS12377, fe.BW6761}).Draw(rt, "field")
		var leaves [][]byte
		for i := 0; i < n; i++ {
			leaves = append(leaves, vh.Bytes(rt, "leaf", 32))
		}
		bad := -1
		badV := notBool(rt, kind.Modulus())
		if n > 1 && pow && rapid.IntRange(0, 4).Draw(rt, "bad") == 0 {
			bad = vh.Even(0, n*256-1).Draw(rt, "badBit")
		}
		c.Nontrivial(kind, n, leaves, bad)
		c.Label("%d leaves, non-boolean bit %v", n, bad >= 0)
		c.Sample("%d leaves %x, non-boolean bit %d", n, leaves, bad)
		var got []byte
		err := fe.Run(kind, func(api fe.Engine) {
			in := make([][256]frontend.Variable, n)
			for i, l := range leaves {
				copy(in[i][:], vh.Vars(api, vh.BitsLE(l)))
			}
			if bad >= 0 {
				in[bad/256][bad%256] = api.Var(badV)
			}
			r := merkle.KeccakMerkleRoot(api, vh.Held(api, in))
			got = vh.BytesLE(vh.U8s(rt, api, r[:]))
		})
		switch {
		case !pow:
			if err == nil {
				rt.Fatalf("%d leaves accepted", n)
			}
			return
		case bad >= 0:
			vh.Reject(rt, err, "non-boolean bit %d", bad)
			return
		}
		vh.Accept(rt, err, "%d leaves", n)
		if want := keccakRoot(leaves); fmt.Sprintf("%x", got) != fmt.Sprintf("%x", want) {
			rt.Fatalf("valid leaves give root %x, want %x", got, want)
		}
	})
}
