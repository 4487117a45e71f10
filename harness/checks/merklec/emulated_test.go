package merklec

import (
	"fmt"
	"math/big"
	"testing"

	emu "github.com/brevis-network/zk-utils/circuits/gadgets/emulated"
	emimc "github.com/brevis-network/zk-utils/circuits/gadgets/emulated/mimc"
	"github.com/brevis-network/zk-utils/circuits/gadgets/merkle"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/emulated"
	"pgregory.net/rapid"

	"vharness/fe"
	"vharness/vh"
)

// chunks splits v, written on total bits, into big-endian digits of size bits (the last one may be shorter).
func chunks(v *big.Int, total, size int) []*big.Int {
	var out []*big.Int
	for hi := total; hi > 0; hi -= size {
		n := size
		if hi < n {
			n = hi
		}
		d := new(big.Int).Rsh(v, uint(hi-n))
		out = append(out, d.And(d, new(big.Int).Sub(vh.Pow2(n), big.NewInt(1))))
	}
	return out
}

func limbsOf[T emulated.FieldParams](v *big.Int) []*big.Int {
	var p T
	l := chunks(v, int(p.BitsPerLimb()*p.NbLimbs()), int(p.BitsPerLimb()))
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	return l
}

func elem[T emulated.FieldParams](api fe.Engine, v *big.Int) *emulated.Element[T] {
	f, err := emulated.NewField[T](api)
	if err != nil {
		panic(err)
	}
	return f.NewElement(vh.Vars(api, limbsOf[T](v)))
}

// intOf is the integer an element's limbs stand for.
func intOf[T emulated.FieldParams](api fe.Engine, e *emulated.Element[T]) *big.Int {
	var p T
	s := new(big.Int)
	for i := len(e.Limbs) - 1; i >= 0; i-- {
		s.Lsh(s, p.BitsPerLimb())
		s.Add(s, api.Big(e.Limbs[i]))
	}
	return s
}

// modOf is its residue.
func modOf[T emulated.FieldParams](api fe.Engine, e *emulated.Element[T]) *big.Int {
	var p T
	s := intOf(api, e)
	return s.Mod(s, p.Modulus())
}

func convCase[T emulated.FieldParams](rt *rapid.T, c *vh.Case, name string) {
	var p T
	bpl, nl := int(p.BitsPerLimb()), int(p.NbLimbs())
	k := vh.OneOf([]fe.Kind{fe.BN254, fe.BN254, fe.BLS12377, fe.BLS12381, fe.BW6761}).Draw(rt, "native")
	op := vh.OneOf([]string{"to", "tos", "from", "roundtrip"}).Draw(rt, "op")
	n := 1
	if op == "tos" {
		n = rapid.IntRange(1, 4).Draw(rt, "elements")
	}
	size := vh.OneOf([]int{1, 2, 4, 8, 8, 8, 16, 32, 64}).Draw(rt, "size")
	if op != "tos" && rapid.IntRange(0, 3).Draw(rt, "wide") == 0 {
		size = vh.OneOf([]int{128, 3, 12, 24, 48, 96, 192}).Draw(rt, "wideSize")
		for (bpl*nl)%size != 0 {
			size /= 2
		}
	}
	size2 := vh.OneOf([]int{1, 2, 4, 8, 16, 32, 64, 128}).Draw(rt, "outSize")
	var vals, in []*big.Int
	for i := 0; i < n; i++ {
		v := vh.BigBelow(rt, "v", p.Modulus())
		vals = append(vals, v)
		in = append(in, chunks(v, bpl*nl, size)...)
	}
	// a dishonest prover shifts one unit between neighbouring outputs of any hint
	dishonest := rapid.IntRange(0, 3).Draw(rt, "dishonest") == 0
	which := vh.Even(0, 1<<20).Draw(rt, "which")
	c.Nontrivial(name, k, op, size, size2, vals, dishonest)
	c.Label("%s %s", name, op)
	c.Label("native %d, digits of %d bits", k, size)
	c.Sample("%s over native field %d: %s, %d-bit digits, values %v, dishonest %v", name, k, op, size, vals, dishonest)
	var hook fe.HintHook
	changed := false
	if dishonest {
		hook = splitLie(which, &changed)
	}
	var got, want []*big.Int
	err := fe.RunHook(k, hook, func(api fe.Engine) {
		switch op {
		case "to":
			got, want = []*big.Int{intOf(api, emu.ToElement[T](api, vh.Vars(api, in), size))}, vals
		case "tos":
			want = vals
			for _, e := range emu.ToElements[T](api, vh.Vars(api, in), size) {
				got = append(got, intOf(api, e))
			}
		case "from":
			got, want = vh.Bigs(api, emu.FromElement[T](api, elem[T](api, vals[0]), size)), in
		case "roundtrip":
			e := emu.ToElement[T](api, vh.Vars(api, in), size)
			got, want = vh.Bigs(api, emu.FromElement[T](api, e, size2)), chunks(vals[0], bpl*nl, size2)
		}
	})
	if changed {
		if err == nil && fmt.Sprint(got) != fmt.Sprint(want) {
			rt.Fatalf("invalid split proved by a dishonest prover: %s %s of %v gives %v", name, op, vals, got)
		}
		return
	}
	vh.Accept(rt, err, "%s %s, %d-bit digits", name, op, size)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		rt.Fatalf("valid %s %s over native field %d with %d-bit digits gives %v, want %v", name, op, k, size, got, want)
	}
}

// Conversions between emulated elements and digit strings.
func TestC21_convert(t *testing.T) {
	vh.Check(t, 2500, 60000, func(rt *rapid.T, c *vh.Case) {
		switch rapid.IntRange(0, 4).Draw(rt, "params") {
		case 0:
			convCase[emulated.BLS12377Fr](rt, c, "BLS12377Fr")
		case 1:
			convCase[emulated.BN254Fr](rt, c, "BN254Fr")
		case 2:
			convCase[emulated.BW6761Fr](rt, c, "BW6761Fr")
		case 3:
			convCase[emulated.Secp256k1Fp](rt, c, "Secp256k1Fp")
		case 4:
			convCase[emulated.BLS12381Fp](rt, c, "BLS12381Fp")
		}
	})
}

func hashCase[T emulated.FieldParams](rt *rapid.T, c *vh.Case, name string, of fe.Kind, id ecc.ID) {
	native := vh.OneOf([]fe.Kind{fe.BN254, fe.BN254, fe.BLS12377, fe.BLS12381, fe.BW6761}).Draw(rt, "native")
	q := of.Modulus()
	type step struct {
		op  string
		arg []*big.Int
	}
	var steps []step
	n := rapid.IntRange(1, 5).Draw(rt, "steps")
	for i := 0; i < n; i++ {
		s := step{op: vh.OneOf([]string{"write", "write", "sum", "reset", "hash"}).Draw(rt, "op")}
		if s.op == "write" || s.op == "hash" {
			for j := rapid.IntRange(0, 2).Draw(rt, "args"); j > 0; j-- {
				s.arg = append(s.arg, vh.BigBelow(rt, "m", q))
			}
		}
		steps = append(steps, s)
	}
	steps = append(steps, step{op: "sum"})
	desc := ""
	for _, s := range steps {
		desc += fmt.Sprintf(" %s%v", s.op, s.arg)
	}
	c.Nontrivial(name, native, desc)
	c.Label("%s, %d steps", name, n+1)
	c.Sample("%s over native field %d: %v", name, native, desc)
	ref := goMimc(of)
	var want []*big.Int
	write := func(v *big.Int) {
		if _, err := ref.Write(v.FillBytes(make([]byte, ref.BlockSize()))); err != nil {
			panic(err)
		}
	}
	sum := func() { want = append(want, new(big.Int).SetBytes(ref.Sum(nil))) }
	for _, s := range steps {
		switch s.op {
		case "reset":
			ref.Reset()
		case "hash":
			ref.Reset()
		}
		for _, v := range s.arg {
			write(v)
		}
		if s.op == "sum" || s.op == "hash" {
			sum()
		}
	}
	var got []*big.Int
	err := fe.Run(native, func(api fe.Engine) {
		m := emimc.NewMiMC[T](api, id)
		for _, s := range steps {
			var args []*emulated.Element[T]
			for _, v := range s.arg {
				args = append(args, elem[T](api, v))
			}
			switch s.op {
			case "reset":
				m.Reset()
			case "write":
				m.Write(args...)
			case "hash":
				got = append(got, modOf(api, m.Hash(args...)))
			case "sum":
				got = append(got, modOf(api, m.Sum()))
			}
		}
	})
	vh.Accept(rt, err, "%s %v", name, desc)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		rt.Fatalf("valid history %s %v gives %v, want %v", name, desc, got, want)
	}
}

// The emulated MiMC hasher against gnark-crypto over histories of writes, sums and resets.
func TestC21_mimc(t *testing.T) {
	vh.Check(t, 400, 8000, func(rt *rapid.T, c *vh.Case) {
		switch rapid.IntRange(0, 2).Draw(rt, "params") {
		case 0:
			hashCase[emulated.BLS12377Fr](rt, c, "BLS12377Fr", fe.BLS12377, ecc.BLS12_377)
		case 1:
			hashCase[emulated.BN254Fr](rt, c, "BN254Fr", fe.BN254, ecc.BN254)
		case 2:
			hashCase[emulated.BW6761Fr](rt, c, "BW6761Fr", fe.BW6761, ecc.BW6_761)
		}
	})
}

func rootCase[T emulated.FieldParams](rt *rapid.T, c *vh.Case, name string, of fe.Kind, id ecc.ID) {
	native := vh.OneOf([]fe.Kind{fe.BN254, fe.BN254, fe.BLS12381, fe.BW6761}).Draw(rt, "native")
	q := of.Modulus()
	restore := rapid.Bool().Draw(rt, "restore")
	var got, want *big.Int
	var leaves []*big.Int
	var p mpath
	if restore {
		p = drawPath(rt, "p", q, rapid.IntRange(0, 3).Draw(rt, "depth"))
		leaves = []*big.Int{vh.BigBelow(rt, "leaf", q)}
		want = leaves[0]
		for i, b := range p.br {
			if p.idx[i] == 1 {
				want = mimcOf(of, b, want)
			} else {
				want = mimcOf(of, want, b)
			}
		}
	} else {
		n := vh.OneOf([]int{1, 2, 4, 4, 8}).Draw(rt, "leaves")
		for i := 0; i < n; i++ {
			leaves = append(leaves, vh.BigBelow(rt, "leaf", q))
		}
		l := leaves
		for len(l) > 1 {
			var up []*big.Int
			for i := 0; i < len(l); i += 2 {
				up = append(up, mimcOf(of, l[i], l[i+1]))
			}
			l = up
		}
		want = l[0]
	}
	bad := restore && len(p.br) > 0 && rapid.IntRange(0, 4).Draw(rt, "bad") == 0
	sides := p.idx
	uneven := restore && !bad && rapid.IntRange(0, 7).Draw(rt, "uneven") == 0
	if uneven { // one side too many or too few
		if sides = append([]int{}, p.idx...); len(sides) > 0 && rapid.Bool().Draw(rt, "fewer") {
			sides = sides[1:]
		} else {
			sides = append(sides, rapid.IntRange(0, 1).Draw(rt, "extra"))
		}
	}
	nb := notBool(rt, native.Modulus())
	c.Nontrivial(name, native, leaves, p, restore, bad, sides)
	c.Label("%s, restore %v, depth or leaves %d, uneven %v", name, restore, len(leaves)+len(p.br), uneven)
	c.Sample("%s over native field %d: restore %v, leaves %v, path %v", name, native, restore, leaves, p)
	err := fe.Run(native, func(api fe.Engine) {
		a := merkle.NewMimcRootAPI[T](api, id)
		var in, br []*emulated.Element[T]
		for _, v := range leaves {
			in = append(in, elem[T](api, v))
		}
		for _, v := range p.br {
			br = append(br, elem[T](api, v))
		}
		var r *emulated.Element[T]
		if restore {
			var idx []frontend.Variable = vh.Vars(api, sides)
			if bad {
				idx[len(idx)-1] = api.Var(nb)
			}
			r = a.RestoreMimcRoot(in[0], br, idx)
		} else {
			r = a.MimcRoot(in)
		}
		got = modOf(api, r)
	})
	if bad {
		vh.Reject(rt, err, "side %v", nb)
		return
	}
	if uneven {
		if err == nil { // whichever way it is refused
			rt.Fatalf("invalid path accepted: %d sides for %d nodes", len(sides), len(p.br))
		}
		return
	}
	vh.Accept(rt, err, "%s", name)
	if got.Cmp(want) != 0 {
		rt.Fatalf("valid tree gives root %v, want %v", got, want)
	}
}

// Emulated MiMC Merkle roots and authentication paths.
func TestC21_root(t *testing.T) {
	vh.Check(t, 300, 4000, func(rt *rapid.T, c *vh.Case) {
		switch rapid.IntRange(0, 2).Draw(rt, "params") {
		case 0:
			rootCase[emulated.BLS12377Fr](rt, c, "BLS12377Fr", fe.BLS12377, ecc.BLS12_377)
		case 1:
			rootCase[emulated.BN254Fr](rt, c, "BN254Fr", fe.BN254, ecc.BN254)
		case 2:
			rootCase[emulated.BW6761Fr](rt, c, "BW6761Fr", fe.BW6761, ecc.BW6_761)
		}
	})
}
