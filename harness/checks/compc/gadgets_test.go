package compc

import (
	"math/big"

	"github.com/brevis-network/zk-utils/circuits/gadgets/conv"
	emu "github.com/brevis-network/zk-utils/circuits/gadgets/emulated"
	emimc "github.com/brevis-network/zk-utils/circuits/gadgets/emulated/mimc"
	"github.com/brevis-network/zk-utils/circuits/gadgets/index-proof/core"
	"github.com/brevis-network/zk-utils/circuits/gadgets/keccak"
	"github.com/brevis-network/zk-utils/circuits/gadgets/keccak/keccakf"
	"github.com/brevis-network/zk-utils/circuits/gadgets/limbs"
	"github.com/brevis-network/zk-utils/circuits/gadgets/merkle"
	"github.com/brevis-network/zk-utils/circuits/gadgets/mpt"
	"github.com/brevis-network/zk-utils/circuits/gadgets/mux"
	bls "github.com/brevis-network/zk-utils/circuits/gadgets/pairing_bls12381"
	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
	sha256 "github.com/brevis-network/zk-utils/circuits/gadgets/sha256"
	sha512 "github.com/brevis-network/zk-utils/circuits/gadgets/sha512"
	"github.com/brevis-network/zk-utils/circuits/gadgets/smt"
	"github.com/consensys/gnark-crypto/ecc"
	cr "github.com/consensys/gnark-crypto/ecc/bls12-381"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/hash/mimc"
	"github.com/consensys/gnark/std/math/emulated"
	"pgregory.net/rapid"

	"vharness/fe"
	"vharness/vh"
)

type V = frontend.Variable

// gad is a gadget as a function from values to values, in a few shapes.
type gad struct {
	name   string
	shapes int
	cost   int // 0: compiled anew at will, 1: a second or so, 2: thorough tier only
	gen    func(rt *rapid.T, shape int, q *big.Int) []*big.Int
	f      func(api frontend.API, shape int, in []V) []V
	kinds  []fe.Kind
	// inputs never given as constants: gnark's R1CS builder does not enforce constant <= variable
	variable []int
}

func u(n int) *big.Int { return big.NewInt(int64(n)) }

// value is a field element with a taste for edges.
func value(rt *rapid.T, q *big.Int) *big.Int { return vh.BigBelow(rt, "value", q) }

func values(rt *rapid.T, n int, q *big.Int) (out []*big.Int) {
	for i := 0; i < n; i++ {
		out = append(out, value(rt, q))
	}
	return
}

// small draws n values below m, sometimes one that is not.
func small(rt *rapid.T, n, m int, q *big.Int) (out []*big.Int) {
	b := vh.RandBytes(rt, "small", 4*n)
	for i := 0; i < n; i++ {
		out = append(out, u((int(b[4*i])<<16|int(b[4*i+1])<<8|int(b[4*i+2]))%m))
	}
	if n > 0 && vh.Even(0, 7).Draw(rt, "bad") == 0 {
		out[vh.Even(0, n-1).Draw(rt, "badAt")] = vh.OneOf([]*big.Int{u(m), u(m + 1), new(big.Int).Sub(q, u(1)), new(big.Int).Rsh(q, 1)}).Draw(rt, "badValue")
	}
	return
}

// index draws an index around [0, n).
func index(rt *rapid.T, n int, q *big.Int) *big.Int {
	i := rapid.IntRange(-1, n+1).Draw(rt, "index")
	return new(big.Int).Mod(u(i), q)
}

func newMimc(api frontend.API) mimc.MiMC {
	m, err := mimc.NewMiMC(api)
	if err != nil {
		panic(err)
	}
	return m
}

func rows(in []V, w, n int) (out [][]V) {
	for i := 0; i < w; i++ {
		out = append(out, in[i*n:(i+1)*n])
	}
	return
}

func flat(x [][]V) (out []V) {
	for _, r := range x {
		out = append(out, r...)
	}
	return
}

// limbsOf splits a value.
func limbsOf(v *big.Int, size, n int) []*big.Int {
	out := make([]*big.Int, n)
	mask := new(big.Int).Sub(vh.Pow2(size), u(1))
	for i := range out {
		out[i] = new(big.Int).And(new(big.Int).Rsh(v, uint(size*i)), mask)
	}
	return out
}

func element[T emulated.FieldParams](api frontend.API, in []V) *emulated.Element[T] {
	f, err := emulated.NewField[T](api)
	if err != nil {
		panic(err)
	}
	return f.NewElement(in)
}

func reduced[T emulated.FieldParams](api frontend.API, e *emulated.Element[T]) []V {
	f, err := emulated.NewField[T](api)
	if err != nil {
		panic(err)
	}
	return f.Reduce(e).Limbs
}

type fp = bls.BLS12381Fp

var P = ecc.BLS12_381.BaseField()

func e2(api frontend.API, in []V) *bls.E2 {
	return &bls.E2{A0: *element[fp](api, in[:6]), A1: *element[fp](api, in[6:12])}
}
func o2(api frontend.API, es ...*bls.E2) (out []V) {
	for _, e := range es {
		out = append(out, reduced(api, &e.A0)...)
		out = append(out, reduced(api, &e.A1)...)
	}
	return
}
func e6(api frontend.API, in []V) *bls.E6 {
	return &bls.E6{B0: *e2(api, in[:12]), B1: *e2(api, in[12:24]), B2: *e2(api, in[24:36])}
}
func e12(api frontend.API, in []V) *bls.E12 {
	return &bls.E12{C0: *e6(api, in[:36]), C1: *e6(api, in[36:72])}
}
func o12(api frontend.API, e *bls.E12) []V {
	return o2(api, &e.C0.B0, &e.C0.B1, &e.C0.B2, &e.C1.B0, &e.C1.B1, &e.C1.B2)
}

// fps draws elements of the BLS12-381 base field as limbs.
func fps(rt *rapid.T, n int) (out []*big.Int) {
	for i := 0; i < n; i++ {
		out = append(out, limbsOf(vh.BigBelow(rt, "fp", P), 64, 6)...)
	}
	return
}

// g2 draws points of G2 as limbs.
func g2(rt *rapid.T, n int) (out []*big.Int) {
	_, _, _, g := cr.Generators()
	for i := 0; i < n; i++ {
		var p cr.G2Affine
		p.ScalarMultiplication(&g, new(big.Int).SetBytes(vh.RandBytes(rt, "scalar", 31)))
		b := new(big.Int)
		for _, x := range []*big.Int{p.X.A0.BigInt(b), p.X.A1.BigInt(new(big.Int)), p.Y.A0.BigInt(new(big.Int)), p.Y.A1.BigInt(new(big.Int))} {
			out = append(out, limbsOf(x, 64, 6)...)
		}
	}
	return
}

func g2in(api frontend.API, in []V) bls.G2Affine {
	return bls.G2Affine{X: *e2(api, in[:12]), Y: *e2(api, in[12:24])}
}

// rlpString is the encoding of a string.
func rlpString(b []byte) []byte {
	if len(b) == 1 && b[0] < 128 {
		return b
	}
	if len(b) < 56 {
		return append([]byte{byte(0x80 + len(b))}, b...)
	}
	return append([]byte{0xb8, byte(len(b))}, b...)
}

func rlpList(items ...[]byte) []byte {
	var c []byte
	for _, i := range items {
		c = append(c, rlpString(i)...)
	}
	if len(c) < 56 {
		return append([]byte{byte(0xc0 + len(c))}, c...)
	}
	if len(c) < 256 {
		return append([]byte{0xf8, byte(len(c))}, c...)
	}
	return append([]byte{0xf9, byte(len(c) >> 8), byte(len(c))}, c...)
}

// nibbles of b, filled up or cut to n.
func nibbles(b []byte, n int) (out []*big.Int) {
	for _, x := range vh.Nibbles(b) {
		out = append(out, u(int(x)))
	}
	for len(out) < n {
		out = append(out, u(0))
	}
	return out[:n]
}

// damage changes one value now and then.
func damage(rt *rapid.T, in []*big.Int, q *big.Int) []*big.Int {
	if rapid.IntRange(0, 3).Draw(rt, "damage") == 0 {
		i := vh.Even(0, len(in)-1).Draw(rt, "damageAt")
		in[i] = vh.OneOf([]*big.Int{u(0), u(1), u(5), u(15), u(16), new(big.Int).Sub(q, u(1))}).Draw(rt, "damageTo")
	}
	return in
}

var limbShapes = []struct{ n, size, to, rot int }{{4, 8, 16, 3}, {4, 16, 8, 16}, {3, 21, 9, 40}, {5, 1, 5, 2}, {1, 64, 8, 63}, {8, 13, 26, 0}, {2, 100, 50, 101}}

func limbsIn(in []V, size int) limbs.Limbs { return limbs.NewLimbs(in, size) }

var gads = []gad{
	{name: "mux", shapes: 4, gen: func(rt *rapid.T, s int, q *big.Int) []*big.Int {
		return append([]*big.Int{index(rt, s+1, q)}, values(rt, 2*(s+1), q)...)
	}, f: func(api frontend.API, s int, in []V) []V {
		return mux.Multiplex(api, in[0], 2, s+1, rows(in[1:], 2, s+1))
	}},
	{name: "rlp mux and decoder", shapes: 4, gen: func(rt *rapid.T, s int, q *big.Int) []*big.Int {
		return append([]*big.Int{index(rt, s+1, q)}, values(rt, 2*(s+1), q)...)
	}, f: func(api frontend.API, s int, in []V) []V {
		d, ok := rlp.Decoder(api, s+1, in[0])
		return append(append(rlp.Multiplexer(api, in[0], 2, s+1, rows(in[1:], 2, s+1)), d...), ok)
	}},
	{name: "shift left", shapes: 4, gen: func(rt *rapid.T, s int, q *big.Int) []*big.Int {
		n := 3 + 3*s
		return append([]*big.Int{index(rt, s+2, q)}, values(rt, n, q)...)
	}, f: func(api frontend.API, s int, in []V) []V {
		return rlp.ShiftLeft(api, len(in)-1, 0, s+1, in[1:], in[0])
	}},
	{name: "shift right", shapes: 3, gen: func(rt *rapid.T, s int, q *big.Int) []*big.Int {
		return append([]*big.Int{index(rt, 3+3*s, q)}, values(rt, 3+3*s, q)...)
	}, f: func(api frontend.API, s int, in []V) []V {
		return rlp.ShiftRight(api, len(in)-1, rlp.LogCeil(len(in)-1), in[1:], in[0])
	}},
	{name: "sub array", shapes: 3, variable: []int{0}, gen: func(rt *rapid.T, s int, q *big.Int) []*big.Int {
		n := 4 + 4*s
		return append([]*big.Int{index(rt, n, q), index(rt, n, q)}, values(rt, n, q)...)
	}, f: func(api frontend.API, s int, in []V) []V {
		n := len(in) - 2
		o, l := rlp.NewSubArray(n, n/2, rlp.LogCeil(n)).SubArray(api, in[2:], in[0], in[1])
		return append(o, l)
	}},
	{name: "array equal", shapes: 3, gen: func(rt *rapid.T, s int, q *big.Int) []*big.Int {
		n := 1 + 3*s
		a := values(rt, n, q)
		b := append([]*big.Int{}, a...)
		if i := rapid.IntRange(0, 2*n).Draw(rt, "differ"); i < n {
			b[i] = value(rt, q)
		}
		return append(append([]*big.Int{index(rt, n, q)}, a...), b...)
	}, f: func(api frontend.API, s int, in []V) []V {
		n := (len(in) - 1) / 2
		return []V{rlp.ArrayEqual(api, in[1:1+n], in[1+n:], n, in[0])}
	}},
	{name: "compare", shapes: 1, gen: func(rt *rapid.T, s int, q *big.Int) []*big.Int {
		a := values(rt, 2, q)
		if rapid.Bool().Draw(rt, "near") {
			a[1] = new(big.Int).Mod(new(big.Int).Add(a[0], u(rapid.IntRange(-1, 1).Draw(rt, "by"))), q)
		}
		return a
	}, f: func(api frontend.API, s int, in []V) []V {
		return []V{rlp.Equal(api, in[0], in[1]), rlp.LessThan(api, in[0], in[1])}
	}},
	{name: "hex numbers", shapes: 2, gen: func(rt *rapid.T, s int, q *big.Int) []*big.Int {
		return append([]*big.Int{u(rapid.IntRange(0, 64).Draw(rt, "len"))}, small(rt, 64, 16, q)...)
	}, f: func(api frontend.API, s int, in []V) []V {
		if s == 0 {
			return []V{rlp.HexToDecimal(api, in[1:], 64, in[0])}
		}
		o := rlp.Hex64To2Fr(api, in[1:], in[0])
		return o[:]
	}},
	{name: "rlp prefixes", shapes: 1, gen: func(rt *rapid.T, s int, q *big.Int) []*big.Int { return small(rt, 2, 16, q) },
		f: func(api frontend.API, s int, in []V) []V {
			p := [2]V{in[0], in[1]}
			a, b, c := rlp.RlpArrayPrefix(api, p)
			d, e, f, g, h, i, j := rlp.RlpFieldPrefix(api, p)
			return []V{a, b, c, d, e, f, g, h, i, j}
		}},
	{name: "rlp list", shapes: 2, cost: 1, gen: func(rt *rapid.T, s int, q *big.Int) []*big.Int {
		k := 2 + s
		var items [][]byte
		for i := 0; i < k; i++ {
			items = append(items, vh.RandBytes(rt, "item", rapid.IntRange(0, 4).Draw(rt, "n")))
		}
		return damage(rt, nibbles(rlpList(items...), 4+10*k), q)
	}, f: func(api frontend.API, s int, in []V) []V {
		k := 2 + s
		a := rlp.ArrayCheck{MaxHexLen: len(in), MaxFields: k, ArrayPrefixMaxHexLen: 4}
		for i := 0; i < k; i++ {
			a.FieldMinHexLen, a.FieldMaxHexLen = append(a.FieldMinHexLen, 0), append(a.FieldMaxHexLen, 8)
		}
		o, l, ls, fs := a.RlpArrayCheck(api, in)
		o2, l2, ls2, fs2 := a.RlpNestArrayCheck(api, in)
		return append(append(append([]V{o, l, o2, l2}, append(ls, ls2...)...), flat(fs)...), flat(fs2)...)
	}},
	{name: "limb split, merge and resplit", shapes: len(limbShapes), gen: func(rt *rapid.T, s int, q *big.Int) (out []*big.Int) {
		for i := 0; i < limbShapes[s].n; i++ {
			out = append(out, vh.BigBelow(rt, "limb", vh.Pow2(limbShapes[s].size)))
		}
		if rapid.IntRange(0, 5).Draw(rt, "wide") == 0 {
			out[vh.Even(0, len(out)-1).Draw(rt, "at")] = vh.Pow2(limbShapes[s].size)
		}
		return
	}, f: func(api frontend.API, s int, in []V) []V {
		a, sh := limbs.NewAPI(api), limbShapes[s]
		l := limbsIn(in, sh.size)
		out := append([]V{}, a.Merge(l).Val)
		out = append(out, a.Resplit(l, sh.to).Values()...)
		out = append(out, a.Split(l[0], 1).Values()...)
		out = append(out, a.LrotMerge(l, sh.rot).Val)
		out = append(out, a.Lrot(l, sh.rot, sh.to).Values()...)
		out = append(out, a.Merge(l).Val) // the same again, after all else
		return out
	}},
	{name: "conv", shapes: 1, gen: func(rt *rapid.T, s int, q *big.Int) []*big.Int { return small(rt, 256, 2, q) },
		f: func(api frontend.API, s int, in []V) []V {
			x := conv.Bits2Uint128s(api, [256]V(in))
			out := append(x[:], conv.Bits2Bytes(api, in)...)
			out = append(out, conv.Bits2Bytes2(api, in)...)
			out = append(out, conv.Bits2BytesArray(api, in)...)
			return append(out, conv.Bits2Nibbles(api, in)...)
		}},
	{name: "index", shapes: 1, gen: func(rt *rapid.T, s int, q *big.Int) []*big.Int {
		if rapid.IntRange(0, 3).Draw(rt, "any") == 0 {
			return values(rt, 1, q)
		}
		return []*big.Int{u(vh.Edge(rt, "i", 0, 70000, 0, 1, 127, 128, 255, 256, 65535, 65536))}
	}, f: func(api frontend.API, s int, in []V) []V {
		o := core.CalTxOrReceiptIndexRlp(api, in[0])
		return o[:]
	}},
	{name: "merkle path", shapes: 4, gen: func(rt *rapid.T, s int, q *big.Int) []*big.Int {
		return append(small(rt, s+1, 2, q), values(rt, s+2, q)...)
	}, f: func(api frontend.API, s int, in []V) []V {
		idx, path := in[:s+1], in[s+2:]
		return []V{
			merkle.MerkleRootWithLeaveHash(api, newMimc(api), in[s+1], idx, path),
			merkle.MerkleRootBasedOnMiMCHash(api, newMimc(api), in[s+1], idx, path),
			merkle.MiMCHashBasedOnIndex(api, newMimc(api), in[s+1], path[0], idx[0]),
		}
	}, kinds: []fe.Kind{fe.BN254, fe.BLS12377}},
	{name: "sparse tree", shapes: 3, gen: func(rt *rapid.T, s int, q *big.Int) []*big.Int {
		return append(small(rt, 2*(s+1), 2, q), values(rt, 2*(s+1)+2, q)...)
	}, f: func(api frontend.API, s int, in []V) []V {
		n := s + 1
		vi, si, tree, br := in[:n], in[n:2*n], in[2*n:3*n+1], in[3*n+1:4*n+1]
		v := smt.CalculateLeafValueHash(api, newMimc(api), tree, vi)
		root := merkle.MerkleRootBasedOnMiMCHash(api, newMimc(api), v, si, br)
		return []V{v, root, smt.CheckSMTInclusion(api, newMimc(api), n, tree, vi, si, br, root), smt.CheckSMTInclusion(api, newMimc(api), n, tree, vi, si, br, in[4*n+1])}
	}},
	{name: "emulated packing", shapes: 4, gen: func(rt *rapid.T, s int, q *big.Int) []*big.Int {
		size := []int{8, 64, 128, 32}[s]
		v := vh.BigBelow(rt, "v", ecc.BLS12_377.ScalarField())
		in := limbsOf(v, size, 256/size)
		if rapid.IntRange(0, 5).Draw(rt, "wide") == 0 {
			in[vh.Even(0, len(in)-1).Draw(rt, "at")] = vh.Pow2(size)
		}
		return append(in, limbsOf(vh.BigBelow(rt, "w", ecc.BLS12_377.ScalarField()), 64, 4)...)
	}, f: func(api frontend.API, s int, in []V) []V {
		size := []int{8, 64, 128, 32}[s]
		n := len(in) - 4
		out := append([]V{}, emu.ToElement[emulated.BLS12377Fr](api, in[:n], size).Limbs...)
		if size <= 64 {
			for _, e := range emu.ToElements[emulated.BLS12377Fr](api, in[:n], size) {
				out = append(out, e.Limbs...)
			}
		}
		return append(out, emu.FromElement(api, element[emulated.BLS12377Fr](api, in[n:]), size)...)
	}},
	{name: "emulated mimc", shapes: 1, cost: 1, gen: func(rt *rapid.T, s int, q *big.Int) (out []*big.Int) {
		for i := 0; i < 2; i++ {
			out = append(out, limbsOf(vh.BigBelow(rt, "v", ecc.BLS12_377.ScalarField()), 64, 4)...)
		}
		return
	}, f: func(api frontend.API, s int, in []V) []V {
		h := emimc.NewMiMC[emulated.BLS12377Fr](api, ecc.BLS12_377)
		a, b := element[emulated.BLS12377Fr](api, in[:4]), element[emulated.BLS12377Fr](api, in[4:])
		return reduced(api, h.Hash(a, b))
	}},
	{name: "emulated path", shapes: 1, cost: 1, gen: func(rt *rapid.T, s int, q *big.Int) (out []*big.Int) {
		out = small(rt, 1, 2, q)
		for i := 0; i < 2; i++ {
			out = append(out, limbsOf(vh.BigBelow(rt, "v", ecc.BN254.ScalarField()), 64, 4)...)
		}
		return
	}, f: func(api frontend.API, s int, in []V) []V {
		a := merkle.NewMimcRootAPI[emulated.BN254Fr](api, ecc.BN254)
		x, y := element[emulated.BN254Fr](api, in[1:5]), element[emulated.BN254Fr](api, in[5:])
		out := reduced(api, a.RestoreMimcRoot(x, []*emulated.Element[emulated.BN254Fr]{y}, in[:1]))
		return append(out, reduced(api, a.MimcRoot([]*emulated.Element[emulated.BN254Fr]{x, y}))...)
	}},
	{name: "pad", shapes: 2, gen: func(rt *rapid.T, s int, q *big.Int) []*big.Int {
		n := 4 + 20*s
		return append([]*big.Int{u(vh.OneOf([]int{1, 2, 3, 4, n, n - 1, n + 1, n + 2}).Draw(rt, "len"))}, small(rt, n, 16, q)...)
	}, f: func(api frontend.API, s int, in []V) (out []V) {
		vh.Quietly(func() { out = keccak.Pad101Bits(api, 4, 2, len(in)-1, in[1:], in[0]) })
		return
	}},
	{name: "pad bits", shapes: 2, gen: func(rt *rapid.T, s int, q *big.Int) []*big.Int { return small(rt, 8*[]int{5, 135}[s], 2, q) },
		f: func(api frontend.API, s int, in []V) []V { return keccak.PadBits101(api, in, 1) }},
	{name: "keccak permutation", shapes: 1, cost: 1, gen: func(rt *rapid.T, s int, q *big.Int) []*big.Int { return small(rt, 1600, 2, q) },
		f: func(api frontend.API, s int, in []V) []V {
			o := keccakf.Permute(api, [1600]V(in))
			return o[:]
		}},
	{name: "keccak bits", shapes: 2, cost: 1, gen: func(rt *rapid.T, s int, q *big.Int) []*big.Int {
		return append([]*big.Int{index(rt, s+1, q)}, small(rt, 1088*(s+1), 2, q)...)
	}, f: func(api frontend.API, s int, in []V) []V {
		o := keccak.Keccak256Bits(api, s+1, in[0], in[1:])
		return o[:]
	}},
	{name: "keccak root", shapes: 1, cost: 1, gen: func(rt *rapid.T, s int, q *big.Int) []*big.Int { return small(rt, 512, 2, q) },
		f: func(api frontend.API, s int, in []V) []V {
			o := merkle.KeccakMerkleRoot(api, [][256]V{[256]V(in[:256]), [256]V(in[256:])})
			return o[:]
		}},
	{name: "sha256", shapes: 3, cost: 1, gen: func(rt *rapid.T, s int, q *big.Int) []*big.Int { return small(rt, []int{0, 3, 56}[s], 256, q) },
		f: func(api frontend.API, s int, in []V) []V {
			d := sha256.New(api)
			d.Write(in)
			return d.Sum()
		}},
	{name: "sha512", shapes: 2, cost: 1, gen: func(rt *rapid.T, s int, q *big.Int) []*big.Int { return small(rt, []int{3, 100}[s], 256, q) },
		f: func(api frontend.API, s int, in []V) []V {
			d := sha512.New(api)
			d.Write(in)
			return d.Sum()
		}},
	{name: "leaf node", shapes: 1, cost: 1, gen: func(rt *rapid.T, s int, q *big.Int) []*big.Int {
		val := vh.RandBytes(rt, "value", rapid.IntRange(1, 33).Draw(rt, "n"))
		path := vh.RandBytes(rt, "path", rapid.IntRange(1, 32).Draw(rt, "m"))
		l := 2 * len(path)
		claim := rlpString(val)
		node := rlpList(append([]byte{0x20}, path...), claim)
		in := append([]*big.Int{u(l), u(2)}, nibbles(path, 64)...)
		in = append(in, nibbles(claim, 66)...)
		return damage(rt, append(in, nibbles(node, 140)...), q)
	}, f: func(api frontend.API, s int, in []V) (out []V) {
		vh.Quietly(func() {
			lc := mpt.NewMPTLeafCheck(64, 66)
			r := lc.CheckLeaf(api, in[0], in[2:66], in[66:132], in[132:272], in[1])
			res := r.GetResult()
			out = []V{res.GetOutput()}
		})
		return
	}},
	{name: "extension node", shapes: 1, cost: 1, gen: func(rt *rapid.T, s int, q *big.Int) []*big.Int {
		path := vh.RandBytes(rt, "path", rapid.IntRange(1, 30).Draw(rt, "m"))
		ref := vh.RandBytes(rt, "ref", 32)
		in := append([]*big.Int{u(2 * len(path)), u(64), u(2)}, nibbles(path, 64)...)
		in = append(in, nibbles(ref, 64)...)
		return damage(rt, append(in, nibbles(rlpList(append([]byte{0}, path...), ref), 136)...), q)
	}, f: func(api frontend.API, s int, in []V) (out []V) {
		vh.Quietly(func() {
			ec := mpt.NewMPTExtensionCheck(64, 64)
			r := ec.CheckExtension(api, in[0], in[3:67], in[1], in[67:131], in[131:267], in[2])
			out = []V{r.GetOutput()}
		})
		return
	}},
	{name: "branch node", shapes: 1, cost: 2, gen: func(rt *rapid.T, s int, q *big.Int) []*big.Int {
		var items [][]byte
		m := rapid.IntRange(0, 65535).Draw(rt, "children")
		for i := 0; i < 16; i++ {
			if m>>i&1 == 1 {
				items = append(items, vh.RandBytes(rt, "ref", 32))
			} else {
				items = append(items, nil)
			}
		}
		items = append(items, nil)
		k := vh.Even(0, 15).Draw(rt, "key")
		in := append([]*big.Int{u(k), u(2 * len(items[k]))}, nibbles(items[k], 64)...)
		return damage(rt, append(in, nibbles(rlpList(items...), 1064)...), q)
	}, f: func(api frontend.API, s int, in []V) (out []V) {
		vh.Quietly(func() {
			bc := mpt.NewMPTBranchCheck(64)
			r := bc.CheckBranch(api, in[0], in[1], in[2:66], in[66:])
			out = []V{r.GetOutput(), bc.CheckBranchForNonExistence(api, in[0], in[66:])}
		})
		return
	}},
	{name: "E2", shapes: 2, cost: 1, gen: func(rt *rapid.T, s int, q *big.Int) []*big.Int {
		return append([]*big.Int{u(rapid.IntRange(0, 1).Draw(rt, "selector"))}, fps(rt, 4)...)
	},
		f: func(api frontend.API, s int, in []V) []V {
			f, err := emulated.NewField[fp](api)
			if err != nil {
				panic(err)
			}
			e := bls.NewExt2(f)
			x, y := e2(api, in[1:13]), e2(api, in[13:25])
			if s == 1 {
				return append(o2(api, e.Div(x, y), e.Inverse(x)), bls.E2NotZero(api, *x), bls.E2NotEqual(api, *x, *y), bls.E2NotOne(api, *x))
			}
			return o2(api, e.Mul(x, y), e.Square(x), e.Add(x, y), e.Sub(x, y), e.Neg(x), e.Conjugate(x), e.Double(x), e.Halve(x),
				e.MulByNonResidue(x), e.MulByNonResidueInv(x), e.MulByNonResidue1Power1(x), e.MulByNonResidue2Power3(x), e.MulByElement(x, &y.A0),
				e.MulBybTwistCurveCoeff(x), e.Select(in[0], x, y), e.Sub(e.Add(e.Add(x, y), y), e.Double(y)))
		}},
	{name: "E12", shapes: 3, cost: 1, gen: func(rt *rapid.T, s int, q *big.Int) []*big.Int {
		return fps(rt, []int{24, 12, 18}[s])
	}, f: func(api frontend.API, s int, in []V) []V {
		f, err := emulated.NewField[fp](api)
		if err != nil {
			panic(err)
		}
		e := bls.NewExt12(f)
		x := e12(api, in[:72])
		switch s {
		case 0:
			return o12(api, e.Mul(x, e12(api, in[72:])))
		case 1:
			return append(append(o12(api, e.Square(x)), o12(api, e.CyclotomicSquare(x))...), o12(api, e.Frobenius(x))...)
		}
		return o12(api, e.MulBy034(x, e2(api, in[72:84]), e2(api, in[84:96]), e2(api, in[96:108])))
	}},
	{name: "E12 inverse", shapes: 1, cost: 1, gen: func(rt *rapid.T, s int, q *big.Int) []*big.Int { return fps(rt, 12) },
		f: func(api frontend.API, s int, in []V) []V {
			f, err := emulated.NewField[fp](api)
			if err != nil {
				panic(err)
			}
			return o12(api, bls.NewExt12(f).Inverse(e12(api, in)))
		}},
	{name: "G2", shapes: 3, cost: 1, gen: func(rt *rapid.T, s int, q *big.Int) []*big.Int { return g2(rt, 2) },
		f: func(api frontend.API, s int, in []V) []V {
			p, r := g2in(api, in[:24]), g2in(api, in[24:])
			switch s {
			case 0:
				a, b, n := bls.G2AddAssign(api, p, r), bls.G2Double(api, p), bls.G2Neg(api, p)
				return append(o2(api, &a.X, &a.Y, &b.X, &b.Y, &n.X, &n.Y), bls.G2AffineNotInfinity(api, &p))
			case 1:
				jp, jr := bls.GetG2JacFromG2Affine(api, &p), bls.GetG2JacFromG2Affine(api, &r)
				j := bls.G2JacobianAddAssign(api, *jp, *jr)
				j = bls.G2JacobianDouble(api, j)
				a := bls.GetG2AffineFromG2Jac(api, &j)
				return o2(api, &a.X, &a.Y)
			}
			a, b, d := bls.G2Psi(api, p), bls.G2Phi(api, p), bls.DoubleAndAdd(api, &p, &r)
			return o2(api, &a.X, &a.Y, &b.X, &b.Y, &d.X, &d.Y)
		}},
	{name: "expand message", shapes: 1, cost: 2, gen: func(rt *rapid.T, s int, q *big.Int) []*big.Int { return small(rt, 32, 256, q) },
		f: func(api frontend.API, s int, in []V) []V { return bls.ExpandMsgXmd(api, [32]V(in), 128) }},
	{name: "map to curve", shapes: 1, cost: 2, gen: func(rt *rapid.T, s int, q *big.Int) []*big.Int { return fps(rt, 2) },
		f: func(api frontend.API, s int, in []V) []V {
			x, y := bls.MapElementToCurve2(api, *e2(api, in))
			return o2(api, x, y)
		}},
}
