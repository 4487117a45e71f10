package merklec

import (
	"fmt"
	"math/big"
	"reflect"
	"runtime"
	"strings"
	"testing"

	"github.com/brevis-network/zk-utils/circuits/gadgets/limbs"
	"github.com/brevis-network/zk-utils/circuits/gadgets/mux"
	"github.com/brevis-network/zk-utils/circuits/gadgets/utils"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"pgregory.net/rapid"

	"vharness/fe"
	"vharness/vh"
)

// splitLie moves one unit from one output of a hint of the code under test to
// the next one, keeping the recomposed value if the hint is a digit split:
// hints of gnark itself are left alone.
func splitLie(which int, changed *bool) fe.HintHook {
	return func(f solver.Hint, in, out []*big.Int) {
		name := runtime.FuncForPC(reflect.ValueOf(f).Pointer()).Name()
		if !strings.Contains(name, "brevis-network") || len(out) < 2 || *changed {
			return
		}
		i := which % (len(out) - 1)
		size := 64
		if len(in) == 4 { // value, its size, size of a part, number of parts
			size = int(in[2].Int64())
			if i == len(out)-2 {
				if rem := int(in[1].Int64() - in[2].Int64()*in[3].Int64()); rem > 0 {
					size = rem
				}
			}
		}
		if which&1 == 0 && out[i].Sign() > 0 {
			out[i].Sub(out[i], big.NewInt(1))
			out[i+1].Add(out[i+1], vh.Pow2(size))
		} else {
			out[i].Add(out[i], big.NewInt(1))
			out[i+1].Sub(out[i+1], vh.Pow2(size))
		}
		*changed = true
	}
}

func values(api fe.Engine, l limbs.Limbs) (v []*big.Int, s []int) {
	for _, x := range l {
		v = append(v, api.Big(x.Val))
		s = append(s, x.Size)
	}
	return
}

// The exported hint answers with the digits, and what is left of the bits behind them.
func TestC22_splitHint(t *testing.T) {
	vh.Check(t, 2000, 100000, func(rt *rapid.T, c *vh.Case) {
		size, parts := vh.Edge(rt, "size", 1, 128, 1, 8, 64), rapid.IntRange(1, 12).Draw(rt, "parts")
		rest := vh.OneOf([]int{0, 0, 1, size, 2*size + 1}).Draw(rt, "rest")
		total := size*parts + rest
		v := vh.BigBelow(rt, "value", vh.Pow2(total))
		c.Nontrivial(v, size, parts, rest)
		c.Sample("%v of %d bits into %d of %d", v, total, parts, size)
		in := []*big.Int{new(big.Int).Set(v), big.NewInt(int64(total)), big.NewInt(int64(size)), big.NewInt(int64(parts))}
		var want, out []*big.Int
		for i := 0; i < parts; i++ {
			d := new(big.Int).Rsh(v, uint(total-size*(i+1)))
			want = append(want, d.Mod(d, vh.Pow2(size)))
		}
		if rest > 0 {
			want = append(want, new(big.Int).Mod(v, vh.Pow2(rest)))
		}
		for range want {
			out = append(out, new(big.Int))
		}
		if err := limbs.SplitHint(fe.BN254.Modulus(), in, out); err != nil {
			rt.Fatalf("valid split refused: %v", err)
		}
		if fmt.Sprint(out) != fmt.Sprint(want) || in[0].Cmp(v) != 0 {
			rt.Fatalf("valid split of %v into %d of %d bits gives %v, want %v", v, parts, size, out, want)
		}
		if err := limbs.SplitHint(fe.BN254.Modulus(), in[:rapid.IntRange(0, 3).Draw(rt, "inputs")], out); err == nil {
			rt.Fatalf("invalid number of inputs accepted")
		}
	})
}

// Limb splitting, merging, regrouping and rotation keep the bit string.
func TestC22_limbs(t *testing.T) {
	vh.Check(t, 6000, 200000, func(rt *rapid.T, c *vh.Case) {
		k := vh.OneOf([]fe.Kind{fe.BN254, fe.BN254, fe.BLS12377, fe.BLS12381, fe.BW6761}).Draw(rt, "field")
		fb := k.Modulus().BitLen()
		op := vh.OneOf([]string{"split", "splitN", "merge", "resplit", "resplit", "resplit", "lrotMerge", "lrot"}).Draw(rt, "op")
		var sizes []int
		total, limit := 0, fb-1
		if op == "resplit" {
			limit = 600
		}
		n := rapid.IntRange(1, 8).Draw(rt, "limbs")
		if op == "split" || op == "splitN" {
			n = 1
		}
		same := vh.Edge(rt, "size", 1, 128, 1, 2, 4, 8, 16, 32, 64, 127)
		uniform := rapid.Bool().Draw(rt, "uniform")
		for i := 0; i < n; i++ {
			s := same
			if !uniform {
				s = vh.Edge(rt, "anySize", 1, 128, 1, 8, 64)
			}
			if total+s > limit {
				break
			}
			sizes = append(sizes, s)
			total += s
		}
		if op == "resplit" && vh.Even(0, 7).Draw(rt, "wholeField") == 0 {
			// exactly as many bits as the field has
			h := vh.Even(1, fb-1).Draw(rt, "cut")
			if h < fb-h {
				h = fb - h
			}
			sizes, total = []int{h, fb - h}, fb
		}
		v := vh.BigBelow(rt, "v", vh.Pow2(total))
		var in []*big.Int
		for i, off := 0, total; i < len(sizes); i++ {
			off -= sizes[i]
			d := new(big.Int).Rsh(v, uint(off))
			in = append(in, d.And(d, new(big.Int).Sub(vh.Pow2(sizes[i]), big.NewInt(1))))
			if sizes[i] >= fb && in[i].Cmp(k.Modulus()) >= 0 {
				rt.Skip("limb above the modulus")
			}
		}
		newSize := vh.Edge(rt, "newSize", 1, min(total, fb-1), 1, 2, 4, 8, 64, total/2, total-1)
		if newSize < 1 {
			newSize = 1
		}
		if op == "resplit" && rapid.Bool().Draw(rt, "divides") {
			for total%newSize != 0 {
				newSize--
			}
		}
		parts := rapid.IntRange(1, max(1, total/newSize)).Draw(rt, "parts")
		amount := vh.Edge(rt, "amount", 0, total-1, 0, 1, 8)
		dishonest := rapid.IntRange(0, 3).Draw(rt, "dishonest") == 0
		over := !dishonest && (op == "split" || op == "splitN") && newSize < total && rapid.IntRange(0, 4).Draw(rt, "over") == 0
		if over {
			v = new(big.Int).Add(vh.Pow2(total), vh.BigBelow(rt, "excess", new(big.Int).Sub(k.Modulus(), vh.Pow2(total))))
			in[0] = v
		}
		which := vh.Even(0, 1<<20).Draw(rt, "which")
		c.Nontrivial(k, op, sizes, v, newSize, parts, amount, dishonest)
		c.Label("%s", op)
		c.Label("%s: total vs field %d", op, sign(total-fb))
		c.Sample("field %d: %s of %v with sizes %v, new size %d, parts %d, amount %d", k, op, in, sizes, newSize, parts, amount)
		rot := new(big.Int).Lsh(v, uint(amount))
		rot.Or(rot, new(big.Int).Rsh(v, uint(total-amount))).And(rot, new(big.Int).Sub(vh.Pow2(total), big.NewInt(1)))
		var want []*big.Int
		switch op {
		case "split", "resplit":
			want = chunks(v, total, newSize)
		case "splitN":
			want = chunks(new(big.Int).Rsh(v, uint(total-parts*newSize)), parts*newSize, newSize)
			if rem := total - parts*newSize; rem > 0 {
				want = append(want, new(big.Int).And(v, new(big.Int).Sub(vh.Pow2(rem), big.NewInt(1))))
			}
		case "merge":
			want = []*big.Int{v}
		case "lrotMerge":
			want = []*big.Int{rot}
		case "lrot":
			want = chunks(rot, total, newSize)
		}
		var hook fe.HintHook
		changed := false
		if dishonest {
			hook = splitLie(which, &changed)
		}
		var got []*big.Int
		var gs []int
		err := fe.RunHook(k, hook, func(api fe.Engine) {
			a := limbs.NewAPI(api)
			var l limbs.Limbs
			for i, s := range sizes {
				l = append(l, limbs.Limb{Val: api.Var(in[i]), Size: s})
			}
			l = vh.Held(api, l)
			var r limbs.Limbs
			switch op {
			case "split":
				r = a.Split(l[0], newSize)
			case "splitN":
				r = a.Split(l[0], newSize, parts)
			case "resplit":
				r = a.Resplit(l, newSize)
			case "merge":
				r = limbs.Limbs{a.Merge(l)}
			case "lrotMerge":
				r = limbs.Limbs{a.LrotMerge(l, amount)}
			case "lrot":
				r = a.Lrot(l, amount, newSize)
			}
			got, gs = values(api, r)
			if sum := r.TotalSize(); sum != total {
				panic(fmt.Sprintf("sizes %v of the result do not add up to %d", gs, total))
			}
			if fmt.Sprint(vh.Bigs(api, r.Values())) != fmt.Sprint(got) {
				panic("Values differs from the limbs")
			}
		})
		if over {
			vh.Reject(rt, err, "%s of a limb of %d bits with the value %v", op, total, v)
			return
		}
		if changed {
			if err == nil && fmt.Sprint(got) != fmt.Sprint(want) {
				rt.Fatalf("invalid split proved by a dishonest prover: %s of %v sizes %v gives %v", op, in, sizes, got)
			}
			return
		}
		vh.Accept(rt, err, "%s sizes %v new size %d parts %d amount %d", op, sizes, newSize, parts, amount)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			rt.Fatalf("valid %s of %v sizes %v (new size %d, parts %d, amount %d) gives %v, want %v", op, in, sizes, newSize, parts, amount, got, want)
		}
		for i := range got {
			if got[i].BitLen() > gs[i] {
				rt.Fatalf("valid %s gives part %d = %v wider than its size %d", op, i, got[i], gs[i])
			}
		}
	})
}

func sign(x int) int {
	switch {
	case x < 0:
		return -1
	case x > 0:
		return 1
	}
	return 0
}

// The multiplexer.
func TestC22_mux(t *testing.T) {
	vh.Check(t, 3000, 60000, func(rt *rapid.T, c *vh.Case) {
		k := drawKind(rt)
		q := k.Modulus()
		nIn := vh.Edge(rt, "nIn", 1, 40, 1, 2, 16)
		wIn := rapid.IntRange(0, 5).Draw(rt, "wIn")
		extra := rapid.IntRange(0, 2).Draw(rt, "extraRows")
		var m [][]*big.Int
		for i := 0; i < wIn+extra; i++ {
			var row []*big.Int
			for j := 0; j < nIn; j++ {
				row = append(row, vh.BigBelow(rt, "x", q))
			}
			m = append(m, row)
		}
		sel := big.NewInt(int64(vh.Even(0, nIn-1).Draw(rt, "sel")))
		if rapid.IntRange(0, 3).Draw(rt, "invalid") == 0 {
			sel = vh.BigBelow(rt, "badSel", q)
			if rapid.Bool().Draw(rt, "near") {
				sel = big.NewInt(int64(nIn + rapid.IntRange(0, 3).Draw(rt, "off")))
			}
		}
		valid := sel.Cmp(big.NewInt(int64(nIn))) < 0
		c.Nontrivial(k, nIn, wIn, sel, m)
		c.Label("valid selector %v", valid)
		c.Sample("field %d: %d inputs of width %d, selector %v", k, nIn, wIn, sel)
		var got []*big.Int
		err := fe.Run(k, func(api fe.Engine) {
			var in [][]frontend.Variable
			for _, r := range m {
				in = append(in, vh.Vars(api, r))
			}
			got = vh.Bigs(api, mux.Multiplex(api, api.Var(sel), wIn, nIn, in))
		})
		if !valid {
			vh.Reject(rt, err, "selector %v of %d", sel, nIn)
			return
		}
		vh.Accept(rt, err, "selector %v of %d", sel, nIn)
		if len(got) != wIn {
			rt.Fatalf("valid selection gives %d outputs, want %d", len(got), wIn)
		}
		for i := range got {
			if got[i].Cmp(m[i][sel.Int64()]) != 0 {
				rt.Fatalf("valid selector %v gives row %d = %v, want %v", sel, i, got[i], m[i][sel.Int64()])
			}
		}
	})
}

// Slice reversal helpers.
func TestC22_slices(t *testing.T) {
	vh.Check(t, 3000, 60000, func(rt *rapid.T, c *vh.Case) {
		chunk := rapid.IntRange(1, 9).Draw(rt, "chunk")
		n := rapid.IntRange(0, 8).Draw(rt, "chunks")*chunk + vh.OneOf([]int{0, 0, 0, 1, 2}).Draw(rt, "rest")
		in := rapid.SliceOfN(rapid.Uint8(), n, n).Draw(rt, "in")
		c.Nontrivial(chunk, in)
		c.Sample("%v in chunks of %d", in, chunk)
		orig := append([]uint8{}, in...)
		f := utils.Flip(in)
		if len(f) != n {
			rt.Fatalf("valid Flip of %d gives %d elements", n, len(f))
		}
		for i := range f {
			if f[i] != orig[n-1-i] {
				rt.Fatalf("valid Flip of %v gives %v", orig, f)
			}
		}
		fv := utils.Slice2FVs(in)
		for i := range in {
			if len(fv) != n || fv[i] != frontend.Variable(in[i]) {
				rt.Fatalf("valid Slice2FVs of %v gives %v", in, fv)
			}
		}
		var s []uint8
		crashed := func() (r any) {
			defer func() { r = recover() }()
			s = utils.FlipSubSlice(in, chunk)
			return
		}()
		if fmt.Sprint(in) != fmt.Sprint(orig) {
			rt.Fatalf("valid flip changed its input")
		}
		if n%chunk != 0 {
			if crashed == nil {
				rt.Fatalf("invalid length %d accepted for chunks of %d", n, chunk)
			}
			return
		}
		if crashed != nil || len(s) != n {
			rt.Fatalf("valid FlipSubSlice of %v by %d gives %v %v", in, chunk, s, crashed)
		}
		for i := range s {
			if s[i] != orig[i/chunk*chunk+chunk-1-i%chunk] {
				rt.Fatalf("valid FlipSubSlice of %v by %d gives %v", in, chunk, s)
			}
		}
	})
}

// FlipKeccakFvBits: big-endian value to little-endian bits of every byte, most significant byte first.
func TestC22_keccakBits(t *testing.T) {
	vh.Check(t, 1000, 20000, func(rt *rapid.T, c *vh.Case) {
		k := drawKind(rt)
		n := vh.Even(1, 31).Draw(rt, "bytes")
		b := vh.Bytes(rt, "data", n)
		v := new(big.Int).SetBytes(b)
		over := rapid.IntRange(0, 4).Draw(rt, "over") == 0
		if over {
			v.Add(v, vh.Pow2(8*n))
		}
		c.Nontrivial(k, n, v)
		c.Sample("field %d: %v on %d bytes", k, v, n)
		var got []byte
		err := fe.Run(k, func(api fe.Engine) {
			got = vh.U8s(rt, api, utils.FlipKeccakFvBits(api, api.Var(v), 8*n))
		})
		if over {
			vh.Reject(rt, err, "%v on %d bytes", v, n)
			return
		}
		vh.Accept(rt, err, "%v on %d bytes", v, n)
		if fmt.Sprint(got) != fmt.Sprint(vh.BitsLE(b)) {
			rt.Fatalf("valid value %x gives bits %v", b, got)
		}
	})
}
