package keccakc

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"testing"

	"github.com/brevis-network/zk-utils/circuits/gadgets/conv"
	"github.com/brevis-network/zk-utils/circuits/gadgets/keccak"
	"github.com/brevis-network/zk-utils/circuits/gadgets/keccak/keccakf"
	commonk "github.com/brevis-network/zk-utils/common/circuits"
	"github.com/consensys/gnark/frontend"
	"golang.org/x/crypto/sha3"
	"pgregory.net/rapid"

	"vharness/fe"
	"vharness/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

func ref(b []byte) []byte {
	h := sha3.NewLegacyKeccak256()
	h.Write(b)
	return h.Sum(nil)
}

// pad is the specification of pad10*1 with Keccak's 0x01 domain at rate 136.
func pad(b []byte) []byte {
	n := len(b)/136*136 + 136
	out := make([]byte, n)
	copy(out, b)
	out[len(b)] |= 0x01
	out[n-1] |= 0x80
	return out
}

func words(b []byte) []uint64 {
	out := make([]uint64, len(b)/8)
	for i := range out {
		out[i] = binary.LittleEndian.Uint64(b[8*i:])
	}
	return out
}

var kinds = []fe.Kind{fe.BN254, fe.BN254, fe.BN254, fe.BLS12377, fe.BLS12381, fe.BW6761}

func pickKind(rt *rapid.T) fe.Kind { return vh.OneOf(kinds).Draw(rt, "field") }

// ---- C01 word gadgets ----

type wordVariant struct {
	name   string
	rounds int
	run    func(api frontend.API, w [][17]frontend.Variable, ri frontend.Variable) [4]frontend.Variable
	nib    func(api frontend.API, n []frontend.Variable) [][17]frontend.Variable
}

func arr10(w [][17]frontend.Variable) (a [keccak.MAX_ROUNDS][17]frontend.Variable) {
	copy(a[:], w)
	return
}

var variants = []wordVariant{
	{"Keccak256", keccak.MAX_ROUNDS, func(api frontend.API, w [][17]frontend.Variable, ri frontend.Variable) [4]frontend.Variable {
		return keccak.Keccak256(api, arr10(w), ri)
	}, func(api frontend.API, n []frontend.Variable) [][17]frontend.Variable {
		r := keccak.NibblesToU64Array(api, n)
		return r[:]
	}},
	{"Normal", keccak.NORMAL_TRANSACTION_LEAF_ROUNDS, func(api frontend.API, w [][17]frontend.Variable, ri frontend.Variable) [4]frontend.Variable {
		var a [keccak.NORMAL_TRANSACTION_LEAF_ROUNDS][17]frontend.Variable
		copy(a[:], w)
		return keccak.Keccak256ForNormalTransaction(api, a, ri)
	}, func(api frontend.API, n []frontend.Variable) [][17]frontend.Variable {
		r := keccak.NibblesToU64ArrayForNormalTransactionLeafValue(api, n)
		return r[:]
	}},
	{"Max", keccak.MAX_TRANSACTION_LEAF_ROUNDS, func(api frontend.API, w [][17]frontend.Variable, ri frontend.Variable) [4]frontend.Variable {
		var a [keccak.MAX_TRANSACTION_LEAF_ROUNDS][17]frontend.Variable
		copy(a[:], w)
		return keccak.Keccak256ForMaxTransaction(api, a, ri)
	}, func(api frontend.API, n []frontend.Variable) [][17]frontend.Variable {
		r := keccak.NibblesToU64ArrayForMaxTransactionLeafValue(api, n)
		return r[:]
	}},
}

func lenEdges(max int) []int {
	var p []int
	for k := 0; k <= max; k++ {
		p = append(p, 136*k-1, 136*k, 136*k+1, 136*k-2)
	}
	return p
}

func TestC01_words(t *testing.T) {
	vh.Check(t, 240, 8000, func(rt *rapid.T, c *vh.Case) {
		v := vh.OneOf(variants).Draw(rt, "variant")
		k := pickKind(rt)
		n := vh.Edge(rt, "len", 0, v.rounds*136-1, lenEdges(v.rounds)...)
		msg := vh.Bytes(rt, "msg", n)
		w := words(pad(msg))
		ri := len(w)/17 - 1
		garbage := words(vh.Bytes(rt, "garbage", (v.rounds*17-len(w))*8))
		w = append(w, garbage...)
		mode := vh.OneOf([]string{"ok", "ok", "ok", "index", "word"}).Draw(rt, "mode")
		badIdx := big.NewInt(0)
		badPos, badVal := 0, new(big.Int)
		switch mode {
		case "index":
			switch rapid.IntRange(0, 3).Draw(rt, "badKind") {
			case 0:
				badIdx.SetInt64(int64(v.rounds))
			case 1:
				badIdx.SetInt64(-1)
			case 2:
				badIdx.SetInt64(int64(rapid.IntRange(v.rounds, 40).Draw(rt, "badIdx")))
			default:
				badIdx.SetBytes(vh.RandBytes(rt, "badIdx", 30))
				badIdx.Add(badIdx, big.NewInt(100))
			}
		case "word":
			badPos = vh.Even(0, 17*(ri+1)-1).Draw(rt, "badPos")
			badVal.Add(vh.Pow2(rapid.IntRange(64, 250).Draw(rt, "badBit")), new(big.Int).SetUint64(w[badPos]))
		}
		var got []byte
		err := fe.Run(k, func(api fe.Engine) {
			in := make([][17]frontend.Variable, v.rounds)
			for i := range w {
				in[i/17][i%17] = api.Var(w[i])
			}
			idx := api.Var(ri)
			switch mode {
			case "index":
				idx = api.Var(badIdx)
			case "word":
				in[badPos/17][badPos%17] = api.Var(badVal)
			}
			o := v.run(api, in, idx)
			for _, x := range o {
				b := api.Big(x)
				if !b.IsUint64() {
					rt.Fatalf("digest word %v does not fit 64 bits", b)
				}
				got = binary.LittleEndian.AppendUint64(got, b.Uint64())
			}
		})
		c.Label("%s %s round %d", v.name, mode, ri)
		c.Nontrivial(v.name, mode, msg, badIdx, badPos)
		c.Sample("%s len=%d mode=%s field=%v garbage words=%d", v.name, n, mode, k, len(garbage))
		if mode != "ok" {
			vh.Reject(rt, err, "%s len=%d %s index=%v word=%d", v.name, n, mode, badIdx, badPos)
			return
		}
		vh.Accept(rt, err, "%s len=%d", v.name, n)
		if !bytes.Equal(got, ref(msg)) {
			rt.Fatalf("%s of %d bytes (round %d): got %x want %x", v.name, n, ri, got, ref(msg))
		}
	})
}

// nibble stream -> blocks -> digest; the nibble converters alone are cheap and run much more.
func TestC01_nibbles(t *testing.T) {
	vh.Check(t, 3000, 60000, func(rt *rapid.T, c *vh.Case) {
		v := vh.OneOf(variants).Draw(rt, "variant")
		k := pickKind(rt)
		which := vh.OneOf([]string{"fixed", "hex"}).Draw(rt, "which")
		nw := rapid.IntRange(1, v.rounds*17).Draw(rt, "words")
		data := vh.Bytes(rt, "data", nw*8)
		nib := vh.Nibbles(data)
		width := v.rounds
		if which == "hex" {
			width = (nw+16)/17 + rapid.IntRange(0, 3).Draw(rt, "extra")
		}
		bad := -1
		if rapid.IntRange(0, 4).Draw(rt, "neg") == 0 {
			bad = vh.Even(0, len(nib)-1).Draw(rt, "bad")
		}
		badVal := big.NewInt(int64(rapid.IntRange(16, 300).Draw(rt, "badVal")))
		if bad >= 0 && rapid.Bool().Draw(rt, "badNeg") {
			badVal.SetInt64(-int64(rapid.IntRange(1, 20).Draw(rt, "badVal2")))
		}
		var out [][17]*big.Int
		err := fe.Run(k, func(api fe.Engine) {
			in := vh.Vars(api, nib)
			if bad >= 0 {
				in[bad] = api.Var(badVal)
			}
			var o [][17]frontend.Variable
			if which == "fixed" {
				o = v.nib(api, in)
			} else {
				o = keccak.RecomposeHexToKeccakU64s(api, in, width)
			}
			for _, blk := range o {
				var b [17]*big.Int
				for i := range blk {
					b[i] = api.Big(blk[i])
				}
				out = append(out, b)
			}
		})
		c.Label("%s/%s neg=%v", v.name, which, bad >= 0)
		c.Nontrivial(v.name, which, data, bad)
		c.Sample("%s %s words=%d width=%d bad=%d", v.name, which, nw, width, bad)
		if bad >= 0 {
			vh.Reject(rt, err, "nibble %d = %v", bad, badVal)
			return
		}
		vh.Accept(rt, err, "%s words=%d", which, nw)
		if len(out) != width {
			rt.Fatalf("%d blocks, want %d", len(out), width)
		}
		ws := words(data)
		for i := 0; i < width*17; i++ {
			want := new(big.Int)
			if i < nw {
				want.SetUint64(ws[i])
			}
			if out[i/17][i%17].Cmp(want) != 0 {
				rt.Fatalf("%s %s word %d = %v, want %v", v.name, which, i, out[i/17][i%17], want)
			}
		}
	})
}

// ---- C02 bit gadgets ----

func bitDigest(t vh.TB, api fe.Engine, o [256]frontend.Variable) []byte {
	bits := make([]byte, 256)
	for i := range o {
		b := api.Big(o[i])
		if !b.IsUint64() || b.Uint64() > 1 {
			t.Fatalf("digest bit %d is %v", i, b)
		}
		bits[i] = byte(b.Uint64())
	}
	return vh.BytesLE(bits)
}

func TestC02_bits(t *testing.T) {
	vh.Check(t, 320, 10000, func(rt *rapid.T, c *vh.Case) {
		k := pickKind(rt)
		max := rapid.IntRange(1, 4).Draw(rt, "maxRounds")
		min := rapid.IntRange(0, max).Draw(rt, "minRounds") // 0: the plain variant
		lo := 0
		if min > 1 {
			lo = (min - 1) * 136
		}
		n := vh.Edge(rt, "len", lo, max*136-1, lenEdges(max)...)
		msg := vh.Bytes(rt, "msg", n)
		p := pad(msg)
		ri := len(p)/136 - 1
		p = append(p, vh.Bytes(rt, "garbage", max*136-len(p))...)
		bits := vh.BitsLE(p)
		mode := "ok"
		if rapid.IntRange(0, 3).Draw(rt, "neg") == 0 {
			mode = "bit"
			if max > 1 {
				mode = vh.OneOf([]string{"bit", "index", "low", "high"}).Draw(rt, "mode")
			}
		}
		pos := vh.Even(0, (ri+1)*1088-1).Draw(rt, "pos")
		idx := big.NewInt(int64(ri))
		switch mode {
		case "index":
			idx.SetInt64(int64(max))
		case "high":
			idx.SetInt64(int64(rapid.IntRange(max, 60).Draw(rt, "high")))
		case "low":
			idx.SetInt64(-1)
			if min > 1 {
				idx.SetInt64(int64(min - 2))
			}
		}
		var got []byte
		err := fe.Run(k, func(api fe.Engine) {
			in := vh.Vars(api, bits)
			if mode == "bit" {
				in[pos] = api.Var(2)
			}
			var o [256]frontend.Variable
			if min == 0 {
				o = keccak.Keccak256Bits(api, max, api.Var(idx), in)
			} else {
				o = keccak.Keccak256BitsOptimized(api, min, max, api.Var(idx), in)
			}
			got = bitDigest(rt, api, o)
		})
		c.Label("min %d max %d %s", min, max, mode)
		c.Nontrivial(min, max, mode, msg, pos)
		c.Sample("len=%d minRounds=%d maxRounds=%d mode=%s index=%v", n, min, max, mode, idx)
		if mode != "ok" {
			vh.Reject(rt, err, "min=%d max=%d %s index=%v", min, max, mode, idx)
			return
		}
		vh.Accept(rt, err, "min=%d max=%d index=%v", min, max, idx)
		if !bytes.Equal(got, ref(msg)) {
			rt.Fatalf("bits digest of %d bytes, min %d max %d: got %x want %x", n, min, max, got, ref(msg))
		}
	})
}

// padded messages through the circuit paddings must be standard and, with the
// library's own round index, hash to the standard digest.
func TestC02_paddings(t *testing.T) {
	vh.Check(t, 1600, 40000, func(rt *rapid.T, c *vh.Case) {
		k := pickKind(rt)
		which := vh.OneOf([]string{"pad", "pad", "pad", "const"}).Draw(rt, "which")
		e2e := vh.Even(0, 7).Draw(rt, "endToEnd") == 0
		if which == "const" {
			max := rapid.IntRange(1, 3).Draw(rt, "max")
			n := vh.Edge(rt, "len", 0, max*136-1, lenEdges(max)...)
			msg := vh.Bytes(rt, "msg", n)
			var got []byte
			var out []*big.Int
			err := fe.Run(k, func(api fe.Engine) {
				o := keccak.PadBits101(api, vh.Vars(api, vh.BitsLE(msg)), max)
				out = vh.Bigs(api, o)
				if e2e {
					got = bitDigest(rt, api, keccak.Keccak256Bits(api, max, api.Var(keccak.GetRoundIndex(8*n)), o))
				}
			})
			c.Label("const rounds=%d len%%136=135:%v", max, n%136 == 135)
			c.Nontrivial(which, max, msg)
			vh.Accept(rt, err, "PadBits101 len=%d max=%d", n, max)
			want := append(pad(msg), make([]byte, 136*max)...)[:136*max]
			checkBits(rt, out, want, fmt.Sprintf("PadBits101 of %d bytes into %d rounds", n, max))
			if e2e && !bytes.Equal(got, ref(msg)) {
				rt.Fatalf("PadBits101+Keccak256Bits of %d bytes: %x want %x", n, got, ref(msg))
			}
			return
		}
		inBits := vh.OneOf([]int{1, 2, 4, 8}).Draw(rt, "inBits")
		maxB := vh.Edge(rt, "maxLen", 0, 420, lenEdges(3)...)
		minB := maxB - rapid.IntRange(0, 24).Draw(rt, "span")
		if vh.Even(0, 7).Draw(rt, "wide") == 0 {
			minB = maxB - rapid.IntRange(0, 140).Draw(rt, "wideSpan")
		}
		if minB < 0 {
			minB = 0
		}
		n := vh.Edge(rt, "len", minB, maxB, lenEdges(3)...)
		msg := vh.Bytes(rt, "msg", n)
		raw := append(append([]byte{}, msg...), vh.Bytes(rt, "tail", maxB-n)...)
		per := 8 / inBits
		var el []byte // elements, most significant part of each byte first
		for _, b := range raw {
			for i := per - 1; i >= 0; i-- {
				el = append(el, b>>(i*inBits)&byte(1<<inBits-1))
			}
		}
		mode := vh.OneOf([]string{"ok", "ok", "ok", "ok", "len", "elem"}).Draw(rt, "mode")
		ln := big.NewInt(int64(n * per))
		pos := 0
		switch mode {
		case "len":
			choices := []int64{int64(maxB*per + per), int64(minB*per - per), -1, int64(maxB*per + rapid.IntRange(1, 3000).Draw(rt, "over"))}
			if per > 1 {
				choices = append(choices, int64(minB*per+1), int64(n*per+per-1))
			}
			ln.SetInt64(vh.OneOf(choices).Draw(rt, "badLen"))
			if l := ln.Int64(); l >= int64(minB*per) && l <= int64(maxB*per) && l%int64(per) == 0 {
				mode = "ok"
				n = int(l) / per
				msg = raw[:n]
			}
		case "elem":
			if n == 0 {
				mode = "ok"
			} else {
				pos = vh.Even(0, n*per-1).Draw(rt, "pos")
			}
		}
		var got []byte
		var out []*big.Int
		err := fe.Run(k, func(api fe.Engine) {
			in := vh.Vars(api, el)
			if mode == "elem" {
				in[pos] = api.Var(int(el[pos]) + 1<<inBits)
			}
			var o []frontend.Variable
			vh.Quietly(func() {
				o = keccak.Pad101Bits(api, inBits, minB*per, maxB*per, in, api.Var(ln))
			})
			out = vh.Bigs(api, o)
			if e2e && mode == "ok" && len(o)%1088 == 0 && len(o) > 0 {
				got = bitDigest(rt, api, keccak.Keccak256Bits(api, len(o)/1088, api.Var(keccak.GetRoundIndex(8*n)), o))
			}
		})
		c.Label("pad inBits=%d %s len%%136=135:%v", inBits, mode, n%136 == 135)
		c.Nontrivial(inBits, minB, maxB, msg, mode, pos)
		c.Sample("inBits=%d bytes=%d in [%d,%d] %s e2e=%v", inBits, n, minB, maxB, mode, e2e)
		if mode != "ok" {
			vh.Reject(rt, err, "Pad101Bits inBits=%d len=%v of [%d,%d] elem %d (%s)", inBits, ln, minB*per, maxB*per, pos, mode)
			return
		}
		vh.Accept(rt, err, "Pad101Bits inBits=%d len=%v of [%d,%d]", inBits, ln, minB*per, maxB*per)
		if len(out)%1088 != 0 {
			rt.Fatalf("Pad101Bits returned %d bits", len(out))
		}
		want := pad(msg)
		if len(out) < 8*len(want) {
			rt.Fatalf("Pad101Bits returned %d bits, message needs %d", len(out), 8*len(want))
		}
		checkBits(rt, out[:8*len(want)], want, fmt.Sprintf("Pad101Bits of %d bytes (%d..%d, inBits %d)", n, minB, maxB, inBits))
		if e2e && !bytes.Equal(got, ref(msg)) {
			rt.Fatalf("Pad101Bits+Keccak256Bits of %d bytes: %x want %x", n, got, ref(msg))
		}
	})
}

func checkBits(t vh.TB, out []*big.Int, want []byte, what string) {
	t.Helper()
	w := vh.BitsLE(want)
	if len(out) != len(w) {
		t.Fatalf("%s: %d bits, want %d", what, len(out), len(w))
	}
	for i := range w {
		if out[i].Cmp(big.NewInt(int64(w[i]))) != 0 {
			t.Fatalf("%s: bit %d (byte %d) is %v, want %d", what, i, i/8, out[i], w[i])
		}
	}
}

// the exported permutation itself, on arbitrary states
func TestC02_permutation(t *testing.T) {
	vh.Check(t, 160, 4000, func(rt *rapid.T, c *vh.Case) {
		st := vh.Bytes(rt, "state", 200)
		var got []byte
		err := fe.Run(pickKind(rt), func(api fe.Engine) {
			var a [1600]frontend.Variable
			copy(a[:], vh.Vars(api, vh.BitsLE(st)))
			o := keccakf.Permute(api, a)
			bits := make([]byte, 1600)
			for i := range o {
				bits[i] = byte(api.U64(o[i]))
			}
			got = vh.BytesLE(bits)
		})
		c.Nontrivial(st)
		vh.Accept(rt, err, "permutation")
		if want := permute(st); !bytes.Equal(got, want) {
			rt.Fatalf("keccak-f[1600] of %x: got %x want %x", st, got, want)
		}
	})
}

// permute is an independent keccak-f[1600] (from the specification).
func permute(in []byte) []byte {
	var a [5][5]uint64 // a[x][y]
	for i := 0; i < 25; i++ {
		a[i%5][i/5] = binary.LittleEndian.Uint64(in[8*i:])
	}
	rot := func(v uint64, n int) uint64 { n %= 64; return v<<n | v>>(64-n) }
	// round constants by LFSR
	lfsr := byte(1)
	for r := 0; r < 24; r++ {
		var cc, d [5]uint64
		for x := 0; x < 5; x++ {
			cc[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4]
		}
		for x := 0; x < 5; x++ {
			d[x] = cc[(x+4)%5] ^ rot(cc[(x+1)%5], 1)
			for y := 0; y < 5; y++ {
				a[x][y] ^= d[x]
			}
		}
		x, y := 1, 0
		cur := a[x][y]
		for t := 0; t < 24; t++ {
			x, y = y, (2*x+3*y)%5
			cur, a[x][y] = a[x][y], rot(cur, (t+1)*(t+2)/2)
		}
		for y := 0; y < 5; y++ {
			var row [5]uint64
			for x := 0; x < 5; x++ {
				row[x] = a[x][y]
			}
			for x := 0; x < 5; x++ {
				a[x][y] = row[x] ^ (^row[(x+1)%5] & row[(x+2)%5])
			}
		}
		for j := 0; j < 7; j++ {
			if lfsr&1 == 1 {
				a[0][0] ^= 1 << (1<<j - 1)
			}
			hi := lfsr & 0x80
			lfsr <<= 1
			if hi != 0 {
				lfsr ^= 0x71
			}
		}
	}
	out := make([]byte, 200)
	for i := 0; i < 25; i++ {
		binary.LittleEndian.PutUint64(out[8*i:], a[i%5][i/5])
	}
	return out
}

// ---- C03 off-circuit helpers ----

type helpers struct {
	name  string
	pad   func([]byte) []byte
	pad64 func([]byte) []uint64
	blk   func([]byte) []uint8
	bits  func([]byte) []uint8
	u64   func([]byte) uint64
	u64s  func([]byte) []uint64
}

var packs = []helpers{
	{"gadgets/keccak", keccak.Pad101Bytes, keccak.Pad101, keccak.Bytes2BlockBits, keccak.Bytes2Bits, keccak.Bytes2Uint64, keccak.Bytes2Uint64s},
	{"common/circuits", commonk.Pad101Bytes, commonk.Pad101, commonk.Bytes2BlockBits, commonk.Bytes2Bits, commonk.Bytes2Uint64, commonk.Bytes2Uint64s},
}

func eqU64(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return false
}

func checkHelpers(t vh.TB, msg []byte) {
	n := len(msg)
	keep := append([]byte{}, msg...)
	want := pad(msg)
	for _, h := range packs {
		// exact-capacity copy: nothing to append into
		in := append(make([]byte, 0, n), msg...)
		got := h.pad(in[:n:n])
		if !bytes.Equal(got, want) {
			t.Fatalf("%s Pad101Bytes of %d bytes: %x want %x", h.name, n, got, want)
		}
		if !bytes.Equal(in, keep) {
			t.Fatalf("%s Pad101Bytes changed its input", h.name)
		}
		// the message may be a part of a larger buffer
		room := append(append(make([]byte, 0, n+300), msg...), bytes.Repeat([]byte{0x5a}, 300)...)
		if got := h.pad(room[:n]); !bytes.Equal(got, want) {
			t.Fatalf("%s Pad101Bytes of %d bytes of a larger buffer: %x want %x", h.name, n, got, want)
		}
		if !bytes.Equal(room[:n], keep) || !bytes.Equal(room[n:], bytes.Repeat([]byte{0x5a}, 300)) {
			t.Fatalf("%s Pad101Bytes of %d bytes wrote to the buffer they are a part of: %x", h.name, n, room)
		}
		if g := h.pad64(in[:n:n]); !eqU64(g, words(want)) {
			t.Fatalf("%s Pad101 of %d bytes: %x want %x", h.name, n, g, words(want))
		}
		if g := h.blk(want); !bytes.Equal(g, vh.BitsLE(want)) {
			t.Fatalf("%s Bytes2BlockBits of %d bytes", h.name, len(want))
		}
		if g := h.u64s(want); !eqU64(g, words(want)) {
			t.Fatalf("%s Bytes2Uint64s", h.name)
		}
		if n%8 == 0 {
			if g := h.bits(in); !bytes.Equal(g, vh.BitsLE(msg)) {
				t.Fatalf("%s Bytes2Bits of %d bytes", h.name, n)
			}
			if g := h.u64s(in); !eqU64(g, words(msg)) {
				t.Fatalf("%s Bytes2Uint64s of %d bytes", h.name, n)
			}
		} else {
			if !panics(func() { h.bits(in) }) || !panics(func() { h.u64s(in) }) {
				t.Fatalf("%s accepts %d bytes where whole words are needed", h.name, n)
			}
		}
		if n%136 != 0 && !panics(func() { h.blk(in) }) {
			t.Fatalf("%s Bytes2BlockBits accepts %d bytes", h.name, n)
		}
		if n >= 8 {
			if g := h.u64(in[n-8:]); g != binary.LittleEndian.Uint64(msg[n-8:]) {
				t.Fatalf("%s Bytes2Uint64 %x = %x", h.name, msg[n-8:], g)
			}
		}
		if !bytes.Equal(in, keep) {
			t.Fatalf("%s a conversion changed its input", h.name)
		}
	}
	if g := keccak.GetKeccakRoundForPaddedBytes(want); g != n/136 {
		t.Fatalf("GetKeccakRoundForPaddedBytes of a padded %d byte message: %d want %d", n, g, n/136)
	}
	if g := keccak.GetRoundIndex(8 * n); g != n/136 {
		t.Fatalf("GetRoundIndex(%d bits) = %d, the standard padding has %d blocks", 8*n, g, n/136+1)
	}
	if n < keccak.MAX_ROUNDS*136 {
		w := words(want)
		b := keccak.Uint64s2Blocks(w)
		for i := 0; i < keccak.MAX_ROUNDS*17; i++ {
			x := uint64(0)
			if i < len(w) {
				x = w[i]
			}
			if fe.FromInterface(b[i/17][i%17]).Cmp(new(big.Int).SetUint64(x)) != 0 {
				t.Fatalf("Uint64s2Blocks word %d = %v want %d", i, b[i/17][i%17], x)
			}
		}
	}
}

func TestC03_allLengths(t *testing.T) {
	vh.Sweep(t, 2200, func(t *testing.T, c *vh.Case, i int) {
		msg := vh.Expand(uint64(i)*77+5, i)
		checkHelpers(t, msg)
		c.Nontrivial(i)
		if i%136 == 135 {
			c.Label("single pad byte")
		}
	})
}

func TestC03_random(t *testing.T) {
	vh.Check(t, 4000, 100000, func(rt *rapid.T, c *vh.Case) {
		n := vh.Edge(rt, "len", 0, 2000, lenEdges(14)...)
		msg := vh.Bytes(rt, "msg", n)
		checkHelpers(rt, msg)
		c.Nontrivial(msg)
		c.Sample("len=%d", n)
	})
}

// ---- bit/byte regrouping in circuit (C22 covers the rest) ----

func TestC03_circuitBits(t *testing.T) {
	vh.Check(t, 3000, 60000, func(rt *rapid.T, c *vh.Case) {
		k := pickKind(rt)
		d := vh.Bytes(rt, "data", rapid.IntRange(0, 64).Draw(rt, "n"))
		h := vh.Bytes(rt, "hash", 32)
		bad := rapid.IntRange(0, 4).Draw(rt, "neg") == 0 && len(d) > 0
		pos := 0
		if bad {
			pos = vh.Even(0, 8*len(d)-1).Draw(rt, "pos")
		}
		which := vh.OneOf([]string{"le", "be", "array", "u128", "nib"}).Draw(rt, "which")
		var got []*big.Int
		err := fe.Run(k, func(api fe.Engine) {
			le, be := vh.Vars(api, vh.BitsLE(d)), vh.Vars(api, vh.BitsBE(d))
			if bad && which != "u128" {
				le[pos], be[pos] = api.Var(2), api.Var(-1)
			}
			var o []frontend.Variable
			switch which {
			case "le":
				o = conv.Bits2Bytes(api, le)
			case "be":
				o = conv.Bits2Bytes2(api, be)
			case "array":
				o = conv.Bits2BytesArray(api, le)
			case "nib":
				o = conv.Bits2Nibbles(api, le)
			case "u128":
				var a [256]frontend.Variable
				copy(a[:], vh.Vars(api, vh.BitsLE(h)))
				r := conv.Bits2Uint128s(api, a)
				o = r[:]
			}
			got = vh.Bigs(api, o)
		})
		c.Label("%s bad=%v", which, bad)
		c.Nontrivial(which, d, h, bad, pos)
		c.Sample("%s bytes=%x bad=%v", which, d, bad)
		if bad && which != "u128" {
			vh.Reject(rt, err, "%s with a non-boolean bit %d", which, pos)
			return
		}
		vh.Accept(rt, err, "%s of %x", which, d)
		var want []*big.Int
		switch which {
		case "le", "be":
			for _, x := range d {
				want = append(want, big.NewInt(int64(x)))
			}
		case "array":
			for i := range d {
				want = append(want, big.NewInt(int64(d[len(d)-1-i])))
			}
		case "nib": // same bit order inside a nibble as Bits2Bytes inside a byte
			for _, x := range d {
				want = append(want, big.NewInt(int64(x&15)), big.NewInt(int64(x>>4)))
			}
		case "u128":
			want = []*big.Int{new(big.Int).SetBytes(h[:16]), new(big.Int).SetBytes(h[16:])}
		}
		if len(got) != len(want) {
			rt.Fatalf("%s of %d bytes: %d elements, want %d", which, len(d), len(got), len(want))
		}
		for i := range want {
			if got[i].Cmp(want[i]) != 0 {
				rt.Fatalf("%s of %x: element %d = %v want %v", which, d, i, got[i], want[i])
			}
		}
	})
}
