package rlpc

import (
	"math/big"
	"math/bits"
	"testing"

	"github.com/brevis-network/zk-utils/circuits/gadgets/keccak"
	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
	"github.com/consensys/gnark/frontend"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"pgregory.net/rapid"

	"vharness/fe"
	"vharness/vh"
)

var kinds = []fe.Kind{fe.BN254, fe.BN254, fe.BLS12377, fe.BW6761}

func elems(rt *rapid.T, k fe.Kind, n int, small bool) []*big.Int {
	out := make([]*big.Int, n)
	q := k.Modulus()
	for i := range out {
		if small {
			out[i] = big.NewInt(int64(vh.Even(0, 15).Draw(rt, "x")))
		} else {
			out[i] = vh.BigBelow(rt, "x", q)
		}
	}
	return out
}

func sameAll(t vh.TB, what string, got []*big.Int, want func(i int) *big.Int) {
	t.Helper()
	for i := range got {
		if w := want(i); got[i].Cmp(w) != 0 {
			t.Fatalf("%s: element %d is %v, want %v", what, i, got[i], w)
		}
	}
}

func TestC08_shift(t *testing.T) {
	vh.Check(t, 6000, 200000, func(rt *rapid.T, c *vh.Case) {
		k := vh.OneOf(kinds).Draw(rt, "field")
		n := vh.Edge(rt, "n", 1, 140, 1, 2, 3, 8, 64, 66)
		in := elems(rt, k, n, n > 20)
		right := rapid.Bool().Draw(rt, "right")
		var got []*big.Int
		if right {
			nb := rapid.IntRange(1, 8).Draw(rt, "bits")
			sh := vh.Edge(rt, "shift", 0, 300, 0, 1, n-1, n, n+1, 1<<nb-1, 1<<nb)
			err := fe.Run(k, func(api fe.Engine) {
				got = vh.Bigs(api, rlp.ShiftRight(api, n, nb, vh.Vars(api, in), api.Var(sh)))
			})
			c.Nontrivial("r", n, nb, sh, in)
			c.Label("right in range=%v", sh < 1<<nb)
			c.Sample("ShiftRight n=%d bits=%d by %d", n, nb, sh)
			if sh >= 1<<nb {
				vh.Reject(rt, err, "ShiftRight by %d in %d bits", sh, nb)
				return
			}
			vh.Accept(rt, err, "ShiftRight n=%d bits=%d shift=%d", n, nb, sh)
			if len(got) != n {
				rt.Fatalf("ShiftRight returned %d elements for %d", len(got), n)
			}
			sameAll(rt, "ShiftRight", got, func(i int) *big.Int {
				if i < sh {
					return new(big.Int)
				}
				return in[i-sh]
			})
			return
		}
		mn := rapid.IntRange(0, 70).Draw(rt, "min")
		mx := mn + vh.Edge(rt, "range", 0, 70, 0, 1, 2, 7, 8, 63, 64)
		sh := vh.Edge(rt, "shift", 0, 300, mn-1, mn, mn+1, mx, 2*mn)
		err := fe.Run(k, func(api fe.Engine) {
			got = vh.Bigs(api, rlp.ShiftLeft(api, n, mn, mx, vh.Vars(api, in), api.Var(sh)))
		})
		c.Nontrivial("l", n, mn, mx, sh, in)
		c.Sample("ShiftLeft n=%d in [%d,%d] by %d", n, mn, mx, sh)
		if sh < mn || sh-mn >= 1<<bits.Len(uint(mx-mn)) {
			c.Label("left out of range")
			vh.Reject(rt, err, "ShiftLeft by %d in [%d,%d]", sh, mn, mx)
			return
		}
		if sh > mx { // above the declared range: may be refused
			c.Label("left above the range")
			if err != nil && !fe.IsUnsat(err) {
				rt.Fatalf("crash: %v", err)
			}
			if err != nil {
				return
			}
		} else {
			c.Label("left in range")
			vh.Accept(rt, err, "ShiftLeft n=%d [%d,%d] by %d", n, mn, mx, sh)
		}
		if len(got) != n {
			rt.Fatalf("ShiftLeft returned %d elements for %d", len(got), n)
		}
		sameAll(rt, "ShiftLeft", got, func(i int) *big.Int { return in[(i+sh)%n] })
	})
}

func TestC08_select(t *testing.T) {
	vh.Check(t, 8000, 200000, func(rt *rapid.T, c *vh.Case) {
		k := vh.OneOf(kinds).Draw(rt, "field")
		op := vh.OneOf([]string{"multiplexer", "subarray", "arrayequal", "compare", "decoder"}).Draw(rt, "op")
		c.Label("%s", op)
		q := k.Modulus()
		switch op {
		case "multiplexer", "decoder":
			n := vh.Edge(rt, "n", 1, 80)
			w := rapid.IntRange(1, 3).Draw(rt, "w")
			in := make([][]*big.Int, w)
			for i := range in {
				in[i] = elems(rt, k, n, n > 12)
			}
			sel := vh.BigBelow(rt, "selAny", q)
			if rapid.IntRange(0, 3).Draw(rt, "selIn") > 0 {
				sel = big.NewInt(int64(vh.Edge(rt, "sel", 0, n, n-1, n)))
			}
			valid := sel.Cmp(big.NewInt(int64(n))) < 0
			var got, dec []*big.Int
			var ok *big.Int
			err := fe.Run(k, func(api fe.Engine) {
				if op == "decoder" {
					d, s := rlp.Decoder(api, n, api.Var(sel))
					dec, ok = vh.Bigs(api, d), api.Big(s)
					return
				}
				var vi [][]frontend.Variable
				for i := range in {
					vi = append(vi, vh.Vars(api, in[i]))
				}
				got = vh.Bigs(api, rlp.Multiplexer(api, api.Var(sel), w, n, vi))
			})
			c.Nontrivial(op, n, w, sel, in)
			c.Sample("%s n=%d sel=%v", op, n, sel)
			if op == "decoder" {
				vh.Accept(rt, err, "Decoder(%d, %v)", n, sel)
				if (ok.Sign() != 0) != valid || ok.Cmp(big.NewInt(1)) > 0 || len(dec) != n {
					rt.Fatalf("Decoder(%d,%v): success=%v", n, sel, ok)
				}
				sameAll(rt, "Decoder", dec, func(i int) *big.Int {
					if sel.Cmp(big.NewInt(int64(i))) == 0 {
						return big.NewInt(1)
					}
					return new(big.Int)
				})
				return
			}
			if !valid {
				vh.Reject(rt, err, "Multiplexer(%d inputs) selects %v", n, sel)
				return
			}
			vh.Accept(rt, err, "Multiplexer(%d inputs) selects %v", n, sel)
			if len(got) != w {
				rt.Fatalf("Multiplexer returned %d of %d", len(got), w)
			}
			sameAll(rt, "Multiplexer", got, func(i int) *big.Int { return in[i][sel.Int64()] })
		case "subarray":
			n := vh.Edge(rt, "n", 1, 127, 64, 66)
			mx := vh.Edge(rt, "max", 1, n)
			from := vh.Edge(rt, "from", 0, n+1, 0, n)
			to := vh.Edge(rt, "to", 0, n+2, from-1, from, from+1, from+mx, from+mx+1, n, n+1)
			in := elems(rt, k, n, true)
			var got []*big.Int
			var l *big.Int
			err := fe.Run(k, func(api fe.Engine) {
				o, ol := rlp.NewSubArray(n, mx, rlp.LogCeil(n)).SubArray(api, vh.Vars(api, in), api.Var(from), api.Var(to))
				got, l = vh.Bigs(api, o), api.Big(ol)
			})
			c.Nontrivial(op, n, mx, from, to, in)
			c.Sample("SubArray(%d, at most %d)[%d:%d]", n, mx, from, to)
			if from > to || to > n || to-from > mx {
				c.Label("subarray out of range")
				vh.Reject(rt, err, "SubArray(%d, at most %d)[%d:%d]", n, mx, from, to)
				return
			}
			vh.Accept(rt, err, "SubArray(%d, at most %d)[%d:%d]", n, mx, from, to)
			if len(got) != mx || l.Int64() != int64(to-from) {
				rt.Fatalf("SubArray(%d, at most %d)[%d:%d] returned %d elements, length %v", n, mx, from, to, len(got), l)
			}
			sameAll(rt, "SubArray", got[:to-from], func(i int) *big.Int { return in[from+i] })
		case "arrayequal":
			na := vh.Edge(rt, "na", 1, 70)
			nb := na + rapid.IntRange(0, 3).Draw(rt, "extra")
			mx := vh.Edge(rt, "max", 1, na, na)
			a := elems(rt, k, na, true)
			b := append(append([]*big.Int{}, a...), elems(rt, k, nb-na, true)...)
			first := mx
			for d := rapid.IntRange(0, 3).Draw(rt, "diffs"); d > 0; d-- {
				p := vh.Even(0, na-1).Draw(rt, "p")
				b[p] = new(big.Int).Mod(new(big.Int).Add(b[p], vh.BigBelow(rt, "d", q)), q)
				_ = p
			}
			for i := 0; i < mx; i++ {
				if a[i].Cmp(b[i]) != 0 {
					first = i
					break
				}
			}
			l := vh.Edge(rt, "len", 0, mx+1, first, first+1, mx, mx+1)
			if rapid.Bool().Draw(rt, "swap") {
				a, b = b, a
			}
			var got *big.Int
			err := fe.Run(k, func(api fe.Engine) {
				got = api.Big(rlp.ArrayEqual(api, vh.Vars(api, a), vh.Vars(api, b), mx, api.Var(l)))
			})
			c.Nontrivial(op, mx, l, first, a, b)
			c.Sample("ArrayEqual over %d of %d, first difference at %d", l, mx, first)
			if l > mx {
				vh.Reject(rt, err, "ArrayEqual of %d out of %d elements", l, mx)
				return
			}
			vh.Accept(rt, err, "ArrayEqual of %d out of %d elements", l, mx)
			if want := b2i(l <= first); got.Cmp(want) != 0 {
				rt.Fatalf("ArrayEqual over %d of %d elements with the first difference at %d: %v", l, mx, first, got)
			}
		case "compare":
			a, b := vh.BigBelow(rt, "a", q), vh.BigBelow(rt, "b", q)
			switch rapid.IntRange(0, 3).Draw(rt, "rel") {
			case 0:
				b = a
			case 1:
				b = new(big.Int).Mod(new(big.Int).Add(a, big.NewInt(1)), q)
			}
			var eq, lt *big.Int
			err := fe.Run(k, func(api fe.Engine) {
				eq, lt = api.Big(rlp.Equal(api, api.Var(a), api.Var(b))), api.Big(rlp.LessThan(api, api.Var(a), api.Var(b)))
			})
			c.Nontrivial(op, a, b)
			c.Sample("compare %v %v", a, b)
			vh.Accept(rt, err, "compare")
			if eq.Cmp(b2i(a.Cmp(b) == 0)) != 0 || lt.Cmp(b2i(a.Cmp(b) < 0)) != 0 {
				rt.Fatalf("compare(%v, %v): equal=%v less=%v", a, b, eq, lt)
			}
		}
	})
}

func b2i(b bool) *big.Int {
	if b {
		return big.NewInt(1)
	}
	return new(big.Int)
}

// every prefix byte
func TestC08_prefixes(t *testing.T) {
	vh.Sweep(t, 256, func(t *testing.T, c *vh.Case, i int) {
		b := byte(i)
		var ap, fp []*big.Int
		err := fe.Run(fe.BN254, func(api fe.Engine) {
			in := [2]frontend.Variable{api.Var(b >> 4), api.Var(b & 15)}
			x, y, z := rlp.RlpArrayPrefix(api, in)
			ap = vh.Bigs(api, []frontend.Variable{x, y, z})
			p, q, r, s, u, v, w := rlp.RlpFieldPrefix(api, in)
			fp = vh.Bigs(api, []frontend.Variable{p, q, r, s, u, v, w})
		})
		vh.Accept(t, err, "prefix %x", b)
		var big_, list, lit bool
		n := 0
		switch {
		case b < 0x80:
			lit = true
		case b < 0xb8:
			n = int(b) - 0x80
		case b < 0xc0:
			n, big_ = int(b)-0xb7, true
		case b < 0xf8:
			n, list = int(b)-0xc0, true
		default:
			n, big_, list = int(b)-0xf7, true, true
		}
		wantF := []*big.Int{b2i(big_), b2i(lit), big.NewInt(int64(2 * n)), b2i(true), b2i(list), b2i(b == 0xc0), b2i(b == 0)}
		sameAll(t, "RlpFieldPrefix", fp, func(j int) *big.Int { return wantF[j] })
		wantA := []*big.Int{b2i(big_ && list), new(big.Int), b2i(list)}
		if list {
			wantA[1] = big.NewInt(int64(2 * n))
		}
		if list || !big_ {
			sameAll(t, "RlpArrayPrefix", ap, func(j int) *big.Int { return wantA[j] })
		} else if ap[2].Sign() != 0 {
			t.Fatalf("RlpArrayPrefix takes %x for a list", b)
		}
		c.Nontrivial(i)
		c.Label("list=%v long=%v", list, big_)
	})
}

// LogCeil, and the header of a list shifted away
func TestC08_listprefix(t *testing.T) {
	vh.Check(t, 2000, 40000, func(rt *rapid.T, c *vh.Case) {
		n := vh.Edge(rt, "n", 0, 1<<30, 0, 1, 2, 3, 4, 7, 8, 255, 256, 1<<16-1, 1<<16)
		if rlp.LogCeil(n) != bits.Len(uint(n)) {
			rt.Fatalf("LogCeil(%d) = %d", n, rlp.LogCeil(n))
		}
		pay := vh.Edge(rt, "payload", 0, 600, 0, 1, 54, 55, 56, 57, 255, 256)
		body := vh.RandBytes(rt, "body", pay)
		buf := append(header(0xc0, pay), body...)
		ac := rlp.ArrayCheck{MaxHexLen: 1300, ArrayPrefixMaxHexLen: vh.OneOf([]int{4, 6, 8}).Draw(rt, "prefix")}
		var out []*big.Int
		var l *big.Int
		bad := rapid.IntRange(0, 9).Draw(rt, "bad") == 0
		if bad {
			buf[0] = rapid.ByteRange(0, 0xbf).Draw(rt, "first")
		}
		err := fe.Run(fe.BN254, func(api fe.Engine) {
			o, ol := ac.LeftShiftRlpArrayPrefix(api, vh.Vars(api, nibs(buf, 1300)))
			out, l = vh.Bigs(api, o), api.Big(ol)
		})
		c.Nontrivial(buf)
		c.Sample("list of %d bytes, list=%v", pay, !bad)
		if bad {
			vh.Reject(rt, err, "first byte %x is no list", buf[0])
			return
		}
		vh.Accept(rt, err, "list of %d bytes", pay)
		if l.Int64() != int64(2*pay) {
			rt.Fatalf("list of %d bytes: length %v", pay, l)
		}
		nb := vh.Nibbles(body)
		sameAll(rt, "LeftShiftRlpArrayPrefix", out[:len(nb)], func(i int) *big.Int { return big.NewInt(int64(nb[i])) })
	})
}

// Keccak as nibbles: byte order, and the length that tells an inlined node apart
func TestC08_keccak(t *testing.T) {
	vh.Check(t, 24, 600, func(rt *rapid.T, c *vh.Case) {
		variant := vh.OneOf([]string{"normal", "normal", "tx", "maxtx"}).Draw(rt, "variant")
		max := keccakRounds[variant]
		n := vh.Edge(rt, "n", 0, max*136-1, 0, 1, 30, 31, 32, 33, 135, 136, max*136-1)
		hexLen := vh.Edge(rt, "hexLen", 0, 5000, 0, 1, 61, 62, 63, 64, 65, 2*n)
		keccakNibbles(rt, c, variant, vh.RandBytes(rt, "msg", n), hexLen)
	})
}

// every variant, at each length around the one where a node stops being inlined
func TestC08_keccakLengths(t *testing.T) {
	lens := []int{0, 1, 61, 62, 63, 64, 65}
	variants := []string{"normal", "tx", "maxtx"}
	vh.Sweep(t, len(lens)*len(variants), func(t *testing.T, c *vh.Case, i int) {
		hexLen := lens[i%len(lens)]
		keccakNibbles(t, c, variants[i/len(lens)], vh.Expand(vh.Seed()<<32+uint64(i), (hexLen+1)/2), hexLen)
	})
}

var keccakRounds = map[string]int{"normal": keccak.MAX_ROUNDS, "tx": keccak.NORMAL_TRANSACTION_LEAF_ROUNDS, "maxtx": keccak.MAX_TRANSACTION_LEAF_ROUNDS}

func keccakNibbles(rt vh.TB, c *vh.Case, variant string, msg []byte, hexLen int) {
	n, max := len(msg), keccakRounds[variant]
	padded := append(append([]byte{}, msg...), 1)
	for len(padded)%136 != 0 {
		padded = append(padded, 0)
	}
	padded[len(padded)-1] |= 0x80
	blocks := len(padded) / 136
	words := make([]*big.Int, max*17)
	for i := range words {
		words[i] = new(big.Int)
		if i < len(padded)/8 {
			for j := 7; j >= 0; j-- {
				words[i].Lsh(words[i], 8).Or(words[i], big.NewInt(int64(padded[8*i+j])))
			}
		}
	}
	var out []*big.Int
	var ol *big.Int
	err := fe.Run(fe.BN254, func(api fe.Engine) {
		var r *rlp.KeccakOrLiteralHex
		set := func(b int, w int) frontend.Variable { return api.Var(words[b*17+w]) }
		l, ri := api.Var(hexLen), api.Var(blocks-1)
		switch variant {
		case "normal":
			var in [keccak.MAX_ROUNDS][17]frontend.Variable
			for i := range in {
				for j := range in[i] {
					in[i][j] = set(i, j)
				}
			}
			r = rlp.Keccak256AsNibbles(api, l, in, ri)
		case "tx":
			var in [keccak.NORMAL_TRANSACTION_LEAF_ROUNDS][17]frontend.Variable
			for i := range in {
				for j := range in[i] {
					in[i][j] = set(i, j)
				}
			}
			r = rlp.Keccak256ForNormalTransactionAsNibbles(api, l, in, ri)
		case "maxtx":
			var in [keccak.MAX_TRANSACTION_LEAF_ROUNDS][17]frontend.Variable
			for i := range in {
				for j := range in[i] {
					in[i][j] = set(i, j)
				}
			}
			r = rlp.Keccak256ForMaxTransactionAsNibbles(api, l, in, ri)
		}
		out, ol = vh.Bigs(api, r.Output[:]), api.Big(r.OutputLength)
	})
	c.Nontrivial(variant, msg, hexLen)
	c.Label("%s", variant)
	c.Sample("%s: %d bytes, declared %d nibbles", variant, n, hexLen)
	vh.Accept(rt, err, "%s keccak of %d bytes", variant, n)
	want := vh.Nibbles(crypto.Keccak256(msg))
	sameAll(rt, "Keccak nibbles", out, func(i int) *big.Int { return big.NewInt(int64(want[i])) })
	wl := 64
	if hexLen <= 62 {
		wl = hexLen
	}
	if ol.Int64() != int64(wl) {
		rt.Fatalf("declared length %d gives output length %v, want %d", hexLen, ol, wl)
	}
}

func hexVal(nib []byte) *big.Int {
	v := new(big.Int)
	for _, x := range nib {
		v.Lsh(v, 4).Or(v, big.NewInt(int64(x)))
	}
	return v
}

func TestC09_decimal(t *testing.T) {
	vh.Check(t, 6000, 200000, func(rt *rapid.T, c *vh.Case) {
		k := vh.OneOf(kinds).Draw(rt, "field")
		nib := vh.Nibbles(vh.Bytes(rt, "b", 32))
		mx := vh.Edge(rt, "max", 2, 64, 2, 16, 62, 64)
		l := vh.Edge(rt, "len", 0, mx, 0, 1, 2, mx-1, mx)
		l64 := vh.Edge(rt, "len64", 0, 64, 0, 1, 2, 3, 61, 62, 63, 64)
		var d, lo, hi *big.Int
		err := fe.Run(k, func(api fe.Engine) {
			in := vh.Vars(api, nib)
			d = api.Big(rlp.HexToDecimal(api, in, mx, api.Var(l)))
			r := rlp.Hex64To2Fr(api, in, api.Var(l64))
			lo, hi = api.Big(r[0]), api.Big(r[1])
		})
		c.Nontrivial(nib, mx, l, l64)
		c.Label("split=%v", l64 > 62)
		c.Sample("first %d of %d nibbles, first %d of 64: %x", l, mx, l64, nib)
		vh.Accept(rt, err, "HexToDecimal(%d of %d), Hex64To2Fr(%d) of %x", l, mx, l64, nib)
		q := k.Modulus()
		if w := new(big.Int).Mod(hexVal(nib[:l]), q); d.Cmp(w) != 0 {
			rt.Fatalf("HexToDecimal(%d of %d) of %x = %v, want %v", l, mx, nib, d, w)
		}
		wl, wh := hexVal(nib[:l64]), new(big.Int)
		if l64 > 62 {
			wl, wh = hexVal(nib[2:l64]), hexVal(nib[:2])
		}
		if lo.Cmp(wl) != 0 || hi.Cmp(wh) != 0 {
			rt.Fatalf("Hex64To2Fr(%d) of %x = [%v %v], want [%v %v]", l64, nib, lo, hi, wl, wh)
		}
	})
}

func TestC09_txleaf(t *testing.T) {
	vh.Check(t, 260, 6000, func(rt *rapid.T, c *vh.Case) {
		u := func(l string) uint64 { return vh.BigBelow(rt, l, vh.Pow2(64)).Uint64() }
		d := u("gas") & 0xffffffff
		in := &types.DynamicFeeTx{
			ChainID: new(big.Int).SetUint64(u("chain")), Nonce: u("nonce"),
			GasTipCap: new(big.Int).SetUint64(u("tip")), GasFeeCap: new(big.Int).SetUint64(u("fee")), Gas: d,
			Value: vh.BigBelow(rt, "value", vh.Pow2(256)),
			Data:  vh.Bytes(rt, "data", vh.Edge(rt, "nData", 0, 1990, 0, 1, 55, 56, 255, 256)),
			V:     big.NewInt(int64(rapid.IntRange(0, 1).Draw(rt, "v"))),
			R:     vh.BigBelow(rt, "r", vh.Pow2(256)), S: vh.BigBelow(rt, "s", vh.Pow2(256)),
		}
		if len(in.Data) == 1 && in.Data[0] == 0 {
			in.Data[0] = 7 // a lone zero byte stands for an absent item
		}
		to := common.BytesToAddress(vh.RandBytes(rt, "to", 20))
		in.To = &to
		bin, err := types.NewTx(in).MarshalBinary()
		if err != nil {
			rt.Fatalf("harness: %v", err)
		}
		path := []byte{vh.OneOf([]byte{0x20, 0x30, 0x35, 0x3f, 0x31}).Draw(rt, "path")}
		leaf := encList(encStr(path), encStr(bin))
		nib := nibs(leaf, 4352)
		bad := ""
		if rapid.IntRange(0, 3).Draw(rt, "bad") == 0 {
			bad = vh.OneOf([]string{"outer", "value", "tx"}).Draw(rt, "what")
			e := append([]byte{}, leaf...)
			l, _ := parse(e, 0)
			at := map[string]int{"outer": l.hdr - 1}
			p := l.hdr + 1
			it, _ := parse(e, p)
			at["value"] = p + it.hdr - 1
			tx, _ := parse(e, p+it.hdr+1)
			at["tx"] = p + it.hdr + 1 + tx.hdr - 1
			e[at[bad]] += vh.OneOf([]byte{1, 0xff, 2}).Draw(rt, "d")
			nib = nibs(e, 4352)
		}
		var tx rlp.Transaction
		var got map[string][]*big.Int
		var lens, raw []*big.Int
		err = fe.Run(fe.BN254, func(api fe.Engine) {
			var r, l []frontend.Variable
			vh.Quietly(func() { tx, r, l = rlp.DecodeTxLeafRlp(api, vh.Vars(api, nib)) })
			got = map[string][]*big.Int{"chain": vh.Bigs(api, tx.ChainId), "nonce": vh.Bigs(api, tx.Nonce), "tip": vh.Bigs(api, tx.MaxPriorityGasPrice),
				"fee": vh.Bigs(api, tx.MaxFeePerGas), "gas": vh.Bigs(api, tx.GasLimit), "to": vh.Bigs(api, tx.To), "value": vh.Bigs(api, tx.Value),
				"r": vh.Bigs(api, tx.R[:]), "s": vh.Bigs(api, tx.S[:]), "v": {api.Big(tx.V)}}
			lens, raw = vh.Bigs(api, l), vh.Bigs(api, r)
		})
		c.Nontrivial(leaf, bad)
		c.Label("wrong length=%q", bad)
		c.Sample("leaf of %d bytes wrong=%q: %x", len(leaf), bad, leaf[:min(len(leaf), 200)])
		if bad != "" {
			vh.Reject(rt, err, "leaf with a wrong %s length: %x", bad, nib)
			return
		}
		vh.Accept(rt, err, "leaf %x", leaf)
		for i, x := range vh.Nibbles(bin) {
			if raw[i].Int64() != int64(x) {
				rt.Fatalf("signed tx nibble %d is %v, want %d (%x)", i, raw[i], x, leaf)
			}
		}
		names := []string{"chain", "nonce", "tip", "fee", "gas", "to", "value"}
		vals := [][]byte{in.ChainID.Bytes(), new(big.Int).SetUint64(in.Nonce).Bytes(), in.GasTipCap.Bytes(), in.GasFeeCap.Bytes(),
			new(big.Int).SetUint64(in.Gas).Bytes(), to[:], in.Value.Bytes()}
		for i, v := range vals {
			nb := vh.Nibbles(v)
			if lens[i].Int64() != int64(len(nb)) {
				rt.Fatalf("%s has length %v, want %d (%x)", names[i], lens[i], len(nb), leaf)
			}
			for j, x := range nb {
				if got[names[i]][j].Int64() != int64(x) {
					rt.Fatalf("%s nibble %d is %v, want %d (%x)", names[i], j, got[names[i]][j], x, leaf)
				}
			}
		}
		if got["v"][0].Cmp(in.V) != 0 {
			rt.Fatalf("V=%v, want %v", got["v"][0], in.V)
		}
		for n, v := range map[string]*big.Int{"r": in.R, "s": in.S} {
			lo, hi := new(big.Int).Set(v), new(big.Int)
			if b := v.Bytes(); len(b) == 32 {
				hi.SetInt64(int64(b[0]))
				lo.SetBytes(b[1:])
			}
			if got[n][0].Cmp(lo) != 0 || got[n][1].Cmp(hi) != 0 {
				rt.Fatalf("%s=%v, want [%v %v]", n, got[n], lo, hi)
			}
		}
	})
}
