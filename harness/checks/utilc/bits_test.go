package utilc

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/brevis-network/zk-utils/common/utils"
	m377 "github.com/consensys/gnark-crypto/ecc/bls12-377/fr/mimc"
	"github.com/consensys/gnark/frontend"
	"pgregory.net/rapid"

	"vharness/fe"
	"vharness/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

var kinds = []fe.Kind{fe.BN254, fe.BLS12377, fe.BLS12381, fe.BW6761}

// panics tells whether f panics.
func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

// bigLE is the integer with the given little-endian bits.
func bigLE(bits []byte) *big.Int {
	v := new(big.Int)
	for i, b := range bits {
		if b == 1 {
			v.SetBit(v, i, 1)
		}
	}
	return v
}

func uints(bits []byte) []uint {
	out := make([]uint, len(bits))
	for i, b := range bits {
		out[i] = uint(b)
	}
	return out
}

// le is v as n little-endian bits.
func le(v *big.Int, n int) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = byte(v.Bit(i))
	}
	return out
}

// chunks cuts little-endian bits into integers of size bits.
func chunks(bits []byte, size int) (out []*big.Int) {
	for len(bits) > size {
		out = append(out, bigLE(bits[:size]))
		bits = bits[size:]
	}
	if len(bits) > 0 {
		out = append(out, bigLE(bits))
	}
	return
}

func same(a, b []*big.Int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

func drawBits(rt *rapid.T, label string, n int) []byte {
	return vh.BitsLE(vh.Bytes(rt, label, (n+7)/8))[:n]
}

func TestC32_pack(t *testing.T) {
	vh.Check(t, 1200, 40000, func(rt *rapid.T, c *vh.Case) {
		k := vh.OneOf(kinds).Draw(rt, "field")
		size := k.Modulus().BitLen() - 1
		n := vh.Edge(rt, "n", 0, 1300, 1, size-1, size, size+1, 2*size-1, 2*size, 2*size+1, 3*size)
		bits := drawBits(rt, "bits", n)
		bad := -1
		if n > 0 && rapid.IntRange(0, 4).Draw(rt, "break") == 0 {
			bad = vh.Even(0, n-1).Draw(rt, "bad")
		}
		c.Nontrivial(k, bits, bad)
		c.Label("pack over %v, boolean %v, %d chunks", k, bad < 0, (n+size-1)/size)
		c.Sample("%d bits over %v, non-boolean at %d", n, k, bad)
		var got []*big.Int
		err := fe.Run(k, func(api fe.Engine) {
			v := vh.Vars(api, bits)
			if bad >= 0 {
				v[bad] = api.Var(2)
			}
			got = vh.Bigs(api, utils.PackBitsToFr(api, v))
		})
		if bad >= 0 {
			vh.Reject(rt, err, "a bit equal to 2 at %d of %d is accepted", bad, n)
			return
		}
		vh.Accept(rt, err, "%d valid bits over %v", n, k)
		if want := chunks(bits, size); !same(got, want) {
			rt.Fatalf("invalid packing of %d bits over %v: %v, want %v", n, k, got, want)
		}
		if want := chunks(bits, 253); !same(utils.PackBitsToInt(uints(bits)), want) {
			rt.Fatalf("invalid off-circuit packing of %d bits", n)
		}
	})
}

func TestC32_bytes32(t *testing.T) {
	vh.Check(t, 1200, 40000, func(rt *rapid.T, c *vh.Case) {
		n := vh.Edge(rt, "n", 0, 40, 0, 1, 31, 32, 33)
		data := vh.Bytes(rt, "data", n)
		cut := vh.Edge(rt, "cut", 8, 248, 128)
		k := vh.OneOf(kinds).Draw(rt, "field")
		how := vh.OneOf([]string{"good", "good", "lo", "hi"}).Draw(rt, "case")
		c.Nontrivial(data, cut, k, how)
		c.Label("bytes32 %s, over 32 bytes: %v", how, n > 32)
		if n > 32 {
			if !panics(func() { utils.ParseBytes32(data, cut) }) {
				rt.Fatalf("invalid input of %d bytes was accepted", n)
			}
			return
		}
		bits := le(new(big.Int).SetBytes(data), 256)
		two := utils.ParseBytes32(data, cut)
		if !same(two[:], []*big.Int{bigLE(bits[:cut]), bigLE(bits[cut:])}) {
			rt.Fatalf("%x cut at %d gives invalid parts %x", data, cut, two)
		}
		if got := utils.Byte32ToFrBits(two, cut); fmt.Sprint(got) != fmt.Sprint(uints(bits)) {
			rt.Fatalf("parts of %x, cut at %d, give invalid bits", data, cut)
		}
		switch how {
		case "lo":
			two[0] = new(big.Int).Add(vh.Pow2(cut), vh.BigBelow(rt, "over", vh.Pow2(cut-1)))
		case "hi":
			two[1] = new(big.Int).Add(vh.Pow2(256-cut), vh.BigBelow(rt, "over", vh.Pow2(255-cut)))
		}
		if how != "good" && !panics(func() { utils.Byte32ToFrBits(two, cut) }) {
			rt.Fatalf("invalid parts (%s) were turned into bits", how)
		}
		c.Sample("%x cut at %d, %s", data, cut, how)
		var got []byte
		err := fe.Run(k, func(api fe.Engine) {
			got = vh.U8s(rt, api, utils.Byte32ToBits(api, utils.Bytes32{Val: [2]frontend.Variable{api.Var(two[0]), api.Var(two[1])}}, cut))
		})
		if how != "good" {
			vh.Reject(rt, err, "a part (%s) wider than its size, cut at %d over %v, is accepted", how, cut, k)
			return
		}
		vh.Accept(rt, err, "valid parts of %x cut at %d over %v", data, cut, k)
		if !bytes.Equal(got, bits) {
			rt.Fatalf("invalid bits of %x cut at %d", data, cut)
		}
	})
}

func TestC32_nibbles(t *testing.T) {
	vh.Check(t, 1200, 40000, func(rt *rapid.T, c *vh.Case) {
		k := vh.OneOf(kinds).Draw(rt, "field")
		data := vh.Bytes(rt, "data", 32)
		v := new(big.Int).SetBytes(data)
		op := vh.OneOf([]string{"trunks", "trunks", "sdk nibbles", "sdk halves", "six bytes", "not dividing"}).Draw(rt, "op")
		break_ := rapid.IntRange(0, 3).Draw(rt, "break") == 0
		c.Label("%s, too wide: %v", op, break_)
		var want []byte
		var in []*big.Int
		part := func(from, n int) *big.Int {
			return new(big.Int).And(new(big.Int).Rsh(v, uint(from)), new(big.Int).Sub(vh.Pow2(n), big.NewInt(1)))
		}
		var sizes []int
		want = vh.Nibbles(data)
		switch op {
		case "not dividing":
			n := rapid.IntRange(1, 255).Filter(func(n int) bool { return 256%n != 0 }).Draw(rt, "trunks")
			c.Nontrivial(op, n)
			err := fe.Run(k, func(api fe.Engine) {
				utils.Recompose32ByteToNibbles(api, vh.Vars(api, make([]byte, n)))
			})
			if err == nil {
				rt.Fatalf("%d trunks, an invalid number, were accepted", n)
			}
			return
		case "trunks":
			n := 1 << rapid.IntRange(1, 8).Draw(rt, "trunks")
			for i := n - 1; i >= 0; i-- {
				in = append(in, part(i*256/n, 256/n))
				sizes = append(sizes, 256/n)
			}
		case "sdk nibbles", "sdk halves":
			in, sizes = []*big.Int{part(0, 248), part(248, 8)}, []int{248, 8}
		case "six bytes":
			in, sizes = []*big.Int{part(0, 48)}, []int{48}
			want = vh.Nibbles(data[26:])
		}
		if break_ {
			i := vh.Even(0, len(in)-1).Draw(rt, "part")
			in[i] = new(big.Int).Add(in[i], vh.Pow2(sizes[i]+rapid.IntRange(0, 2).Draw(rt, "bit")))
		}
		c.Nontrivial(op, k, in)
		c.Sample("%s over %v: %x", op, k, in)
		var got []*big.Int
		var err error
		vh.Quietly(func() {
			err = fe.Run(k, func(api fe.Engine) {
				vs := make([]frontend.Variable, len(in))
				for i := range in {
					vs[i] = api.Var(in[i])
				}
				switch op {
				case "trunks":
					r := utils.Recompose32ByteToNibbles(api, vs)
					got = vh.Bigs(api, r[:])
				case "sdk nibbles":
					r := utils.RecomposeSDKByte32ToNibble(api, utils.Bytes32{Val: [2]frontend.Variable{vs[0], vs[1]}})
					got = vh.Bigs(api, r[:])
				case "sdk halves":
					r := utils.RecomposeSDKByte32To2Fr(api, utils.Bytes32{Val: [2]frontend.Variable{vs[0], vs[1]}})
					got = vh.Bigs(api, r[:])
				case "six bytes":
					r := utils.Recompose6BytesToNibbles(api, vs[0])
					got = vh.Bigs(api, r[:])
				}
			})
		})
		if break_ {
			vh.Reject(rt, err, "%s: a part that is too wide in %x is accepted", op, in)
			return
		}
		vh.Accept(rt, err, "%s of valid parts %x over %v", op, in, k)
		var ref []*big.Int
		if op == "sdk halves" {
			ref = []*big.Int{part(128, 128), part(0, 128)}
		} else {
			for _, w := range want {
				ref = append(ref, big.NewInt(int64(w)))
			}
		}
		if !same(got, ref) {
			rt.Fatalf("%s of %x gives invalid %x, want %x", op, in, got, ref)
		}
	})
}

func TestC32_offCircuit(t *testing.T) {
	vh.Check(t, 3000, 100000, func(rt *rapid.T, c *vh.Case) {
		op := vh.OneOf([]string{"decompose", "bits to fr", "bits to fr", "byte", "flip", "groups", "reverse", "variable", "pad block", "mimc"}).Draw(rt, "op")
		c.Label("%s", op)
		switch op {
		case "decompose":
			n := rapid.IntRange(0, 300).Draw(rt, "n")
			v := vh.BigBelow(rt, "v", vh.Pow2(280))
			keep := new(big.Int).Set(v)
			c.Nontrivial(op, n, v)
			var got []uint
			p := panics(func() { got = utils.DecomposeBits(v, n) })
			if p != (v.BitLen() > n) {
				rt.Fatalf("decomposition of %x in %d bits: panic %v is invalid", v, n, p)
			}
			if !p && fmt.Sprint(got) != fmt.Sprint(uints(le(v, n))) {
				rt.Fatalf("invalid decomposition of %x in %d bits", v, n)
			}
			if v.Cmp(keep) != 0 {
				rt.Fatalf("decomposition made its input invalid: %x became %x", keep, v)
			}
		case "bits to fr":
			m := vh.OneOf(kinds).Draw(rt, "field").Modulus()
			if rapid.Bool().Draw(rt, "other modulus") {
				m = new(big.Int).Add(vh.BigBelow(rt, "modulus", vh.Pow2(200)), big.NewInt(1))
			}
			var v *big.Int
			if rapid.Bool().Draw(rt, "multiple") { // multiples of the modulus and their neighbours
				v = new(big.Int).Mul(m, big.NewInt(int64(rapid.IntRange(1, 9).Draw(rt, "k"))))
				v.Add(v, big.NewInt(int64(rapid.IntRange(-1, 1).Draw(rt, "d"))))
			} else {
				v = vh.BigBelow(rt, "v", vh.Pow2(600))
			}
			n := v.BitLen() + rapid.IntRange(0, 9).Draw(rt, "zeros")
			bits := utils.Reverse(uints(le(v, n)))
			c.Nontrivial(op, m, v, n)
			c.Sample("%d bits of %x modulo %x", n, v, m)
			if got, want := utils.BitsToFrBigInt(bits, m), new(big.Int).Mod(v, m); got.Cmp(want) != 0 {
				rt.Fatalf("the %d bits of %v give %v, invalid modulo %v, want %v", n, v, got, m, want)
			}
		case "byte":
			b := rapid.Byte().Draw(rt, "b")
			c.Nontrivial(op, b)
			if got := utils.DecodeByteToBinary(b); fmt.Sprint(got) != fmt.Sprint(uints(vh.BitsBE([]byte{b}))) {
				rt.Fatalf("invalid bits %v of %x", got, b)
			}
		case "flip", "groups", "reverse":
			g, n := 1, 0
			if op == "groups" {
				g = rapid.IntRange(1, 9).Draw(rt, "group")
			}
			n = vh.Even(0, 12).Draw(rt, "groups")
			in := vh.RandBytes(rt, "in", n*g)
			keep := bytes.Clone(in)
			want := make([]byte, 0, n*g)
			for i := n - 1; i >= 0; i-- {
				want = append(want, in[i*g:(i+1)*g]...)
			}
			c.Nontrivial(op, in, g)
			var got []byte
			switch op {
			case "flip":
				got = utils.Flip(in)
			case "groups":
				got = utils.FlipByGroups(in, g)
			case "reverse":
				got = utils.Reverse(in)
				keep = want // in place
			}
			if !bytes.Equal(got, want) || !bytes.Equal(in, keep) {
				rt.Fatalf("%s of %x in groups of %d: invalid %x, want %x (input now %x)", op, keep, g, got, want, in)
			}
		case "variable":
			v := vh.BigBelow(rt, "v", vh.Pow2(256))
			u := v.Uint64()
			c.Nontrivial(op, v)
			for _, x := range []struct {
				in   any
				want *big.Int
			}{
				{nil, new(big.Int)}, {v, v}, {*v, v}, {v.Bytes(), v}, {v.String(), v}, {"0x" + v.Text(16), v},
				{uint8(u), new(big.Int).SetUint64(u & 0xff)}, {uint16(u), new(big.Int).SetUint64(u & 0xffff)},
				{uint32(u), new(big.Int).SetUint64(u & 0xffffffff)}, {u, new(big.Int).SetUint64(u)}, {uint(u), new(big.Int).SetUint64(u)},
				{int8(u), big.NewInt(int64(int8(u)))}, {int16(u), big.NewInt(int64(int16(u)))}, {int32(u), big.NewInt(int64(int32(u)))},
				{int64(u), big.NewInt(int64(u))}, {int(u), big.NewInt(int64(u))},
			} {
				if got := utils.Var2BigInt(x.in); got.Cmp(x.want) != 0 {
					rt.Fatalf("%T %v gives the invalid integer %v, want %v", x.in, x.in, got, x.want)
				}
			}
			d := v.String()
			at := vh.Even(0, len(d)).Draw(rt, "at")
			bad := d[:at] + vh.OneOf([]string{"x", " ", "-", "z", ".", "_0_", "é"}).Draw(rt, "junk") + d[at:]
			if _, ok := new(big.Int).SetString(bad, 0); !ok {
				if !panics(func() { utils.Var2BigInt(bad) }) {
					rt.Fatalf("the invalid integer %q is read", bad)
				}
			}
			utils.Var2BigInt(v).Add(v, v)
			if got := utils.Var2BigInt(v); got == v {
				rt.Fatalf("the integer is the caller's own: invalid as a copy")
			}
		case "pad block":
			n := rapid.IntRange(1, 64).Draw(rt, "block")
			data := vh.Bytes(rt, "data", rapid.IntRange(0, n).Draw(rt, "len"))
			c.Nontrivial(op, n, data)
			if got, want := utils.MiMCBlockPad0(data, n), append(make([]byte, n-len(data)), data...); !bytes.Equal(got, want) {
				rt.Fatalf("invalid block %x of %x", got, data)
			}
		case "mimc":
			data := vh.Bytes(rt, "data", vh.Edge(rt, "len", 0, 200, 1, 31, 32, 33, 63, 64, 95, 96))
			c.Nontrivial(op, data)
			bits := vh.BitsBE(data)
			r := fe.BLS12377.Modulus()
			h := m377.NewMiMC()
			over := false
			for len(bits) > 0 {
				n := min(253, len(bits))
				v := bigLE(vh.BitsLE(nil)) // zero
				for _, b := range bits[:n] {
					v.Lsh(v, 1)
					v.SetBit(v, 0, uint(b))
				}
				over = over || v.Cmp(r) >= 0
				h.Write(v.Mod(v, r).FillBytes(make([]byte, 32)))
				bits = bits[n:]
			}
			c.Label("mimc, a chunk above the modulus: %v", over)
			c.Sample("hash of %x", data)
			if got, want := utils.GenerateBls12377Hash(data), h.Sum(nil); !bytes.Equal(got, want) {
				rt.Fatalf("the hash of %x is %x, invalid: the chunks hash to %x", data, got, want)
			}
			if len(data) > 0 { // no bit is without effect
				flip := bytes.Clone(data)
				i := vh.Even(0, 8*len(data)-1).Draw(rt, "bit")
				flip[i/8] ^= 0x80 >> (i % 8)
				if bytes.Equal(utils.GenerateBls12377Hash(data), utils.GenerateBls12377Hash(flip)) {
					rt.Fatalf("invalid hash: %x and %x have the same", data, flip)
				}
			}
		}
	})
}

func TestC32_partition(t *testing.T) {
	vh.Check(t, 400, 10000, func(rt *rapid.T, c *vh.Case) {
		vs := rapid.SliceOfN(rapid.IntRange(0, 30), 0, 20).Draw(rt, "values")
		keys := rapid.SliceOfNDistinct(rapid.IntRange(1, 7), 0, 5, rapid.ID[int]).Draw(rt, "keys")
		c.Nontrivial(vs, keys)
		f := func(k, v int) bool { return v%k == 0 }
		want := map[int][]int{}
		n := 0
		for _, k := range keys {
			for _, v := range vs {
				if f(k, v) {
					want[k] = append(want[k], v)
					n++
				}
			}
		}
		c.Label("partition, shared values: %v", n > len(vs))
		c.Sample("%v by %v", vs, keys)
		if got := utils.Partition(vs, keys, f); fmt.Sprint(got) != fmt.Sprint(want) {
			rt.Fatalf("invalid partition of %v by %v: %v", vs, keys, got)
		}
		words := rapid.SliceOfN(rapid.StringN(0, 3, 6), 0, 6).Draw(rt, "words")
		w := rapid.StringN(0, 3, 6).Draw(rt, "word")
		if len(words) > 0 && rapid.Bool().Draw(rt, "in") {
			w = vh.OneOf(words).Draw(rt, "member")
		}
		in := false
		for _, x := range words {
			in = in || x == w
		}
		if utils.Contains(words, w) != in {
			rt.Fatalf("invalid answer: %q in %q", w, words)
		}
	})
}
