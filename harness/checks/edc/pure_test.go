package edc

import (
	"fmt"
	"math/big"
	"testing"

	ed "github.com/brevis-network/zk-utils/circuits/gadgets/ed25519"
	e25 "github.com/brevis-network/zk-utils/circuits/gadgets/ed25519/test"
	"github.com/brevis-network/zk-utils/circuits/gadgets/ed25519/test/field"
	"pgregory.net/rapid"

	"vharness/edref"
	"vharness/vh"
)

// draw256 draws 32 little-endian bytes near the edges of the field, the group order, or anywhere.
func draw256(rt *rapid.T, label string) []byte {
	off := big.NewInt(int64(rapid.IntRange(-20, 20).Draw(rt, label+"Off")))
	var v *big.Int
	switch vh.Even(0, 7).Draw(rt, label+"Kind") {
	case 0:
		v = off.Abs(off)
	case 1:
		v = off.Add(off, edref.P)
	case 2:
		v = off.Add(off, edref.L)
	case 3:
		v = off.Add(off, new(big.Int).Mul(edref.L, big.NewInt(int64(vh.Even(1, 15).Draw(rt, label+"Mul")))))
	case 4:
		v = new(big.Int).Sub(vh.Pow2(256), big.NewInt(1))
		for i := 0; i < 3; i++ { // runs of ones with gaps
			v.SetBit(v, vh.Even(0, 255).Draw(rt, label+"Gap"), 0)
		}
	case 5:
		v = new(big.Int)
		for i := 0; i < 4; i++ {
			v.SetBit(v, vh.Even(0, 255).Draw(rt, label+"Bit"), 1)
		}
	default:
		return vh.RandBytes(rt, label, 32)
	}
	return edref.LE(v, 32)
}

// The field: a machine of four registers with aliased operands against integers modulo p.
func TestC28_field(t *testing.T) {
	vh.Check(t, 1200, 60000, func(rt *rapid.T, c *vh.Case) {
		var regs [4]field.Element
		var model [4]*big.Int
		var loose [4]bool
		var log []string
		for i := range regs {
			b := draw256(rt, fmt.Sprintf("r%d", i))
			if _, err := regs[i].SetBytes(b); err != nil {
				rt.Fatalf("valid element bytes %x refused: %v", b, err)
			}
			m := edref.FromLE(b)
			model[i] = edref.Mod(m.SetBit(m, 255, 0))
			log = append(log, fmt.Sprintf("r%d=%x", i, b))
		}
		check := func() {
			for i := range regs {
				if got := edref.FromLE(regs[i].Bytes()); got.Cmp(model[i]) != 0 {
					rt.Fatalf("valid history %v: r%d is %v, want %v", log, i, got, model[i])
				}
				if got, want := regs[i].IsNegative(), int(model[i].Bit(0)); got != want {
					rt.Fatalf("valid history %v: IsNegative of r%d is %d, want %d", log, i, got, want)
				}
			}
		}
		check()
		n := vh.Even(1, 12).Draw(rt, "steps")
		for s := 0; s < n; s++ {
			z, x, y := rapid.IntRange(0, 3).Draw(rt, "z"), rapid.IntRange(0, 3).Draw(rt, "x"), rapid.IntRange(0, 3).Draw(rt, "y")
			op := vh.OneOf([]string{"add", "sub", "neg", "mul", "mul", "square", "invert", "mult32", "pow", "sqrtRatio", "select", "swap", "abs", "set", "equal", "zero", "one"}).Draw(rt, "op")
			if op == "mult32" && loose[x] {
				op = "mul"
			}
			log = append(log, fmt.Sprintf("r%d=%s(r%d,r%d)", z, op, x, y))
			mx, my := model[x], model[y]
			isLoose := false
			switch op {
			case "add":
				regs[z].Add(&regs[x], &regs[y])
				model[z] = edref.Add(mx, my)
			case "sub":
				regs[z].Subtract(&regs[x], &regs[y])
				model[z] = edref.Sub(mx, my)
			case "neg":
				regs[z].Negate(&regs[x])
				model[z] = edref.Neg(mx)
			case "mul":
				regs[z].Multiply(&regs[x], &regs[y])
				model[z] = edref.Mul(mx, my)
			case "square":
				regs[z].Square(&regs[x])
				model[z] = edref.Mul(mx, mx)
			case "invert":
				regs[z].Invert(&regs[x])
				model[z] = edref.Inv(mx)
			case "mult32":
				k := vh.OneOf([]uint32{0, 1, 2, 19, 121666, 1 << 31, ^uint32(0)}).Draw(rt, "k")
				regs[z].Mult32(&regs[x], k)
				model[z] = edref.Mul(mx, big.NewInt(int64(k)))
				isLoose = true
			case "pow":
				regs[z].Pow22523(&regs[x])
				e := new(big.Int).Sub(edref.P, big.NewInt(5))
				model[z] = new(big.Int).Exp(mx, e.Rsh(e, 3), edref.P)
			case "sqrtRatio":
				_, ok := regs[z].SqrtRatio(&regs[x], &regs[y])
				w, square := edref.Sqrt(edref.Mul(mx, edref.Inv(my)))
				if my.Sign() == 0 {
					square = mx.Sign() == 0
					w = new(big.Int)
				}
				if !square && my.Sign() != 0 { // the root of i u/v
					w, _ = edref.Sqrt(edref.Mul(edref.I, edref.Mul(mx, edref.Inv(my))))
				}
				if w.Bit(0) == 1 {
					w = edref.Neg(w)
				}
				if (ok == 1) != square {
					rt.Fatalf("valid history %v: SqrtRatio says %d, want %v", log, ok, square)
				}
				model[z] = w
			case "select":
				b := rapid.IntRange(0, 1).Draw(rt, "cond")
				isLoose = loose[y]
				if b == 1 {
					isLoose = loose[x]
				}
				regs[z].Select(&regs[x], &regs[y], b)
				model[z] = my
				if b == 1 {
					model[z] = mx
				}
			case "swap":
				b := rapid.IntRange(0, 1).Draw(rt, "cond")
				regs[z].Swap(&regs[x], b)
				isLoose = loose[z]
				if b == 1 {
					model[z], model[x] = model[x], model[z]
					isLoose, loose[x] = loose[x], loose[z]
				}
			case "abs":
				regs[z].Absolute(&regs[x])
				isLoose = loose[x]
				model[z] = mx
				if mx.Bit(0) == 1 {
					model[z] = edref.Neg(mx)
				}
			case "set":
				regs[z].Set(&regs[x])
				model[z], isLoose = mx, loose[x]
			case "equal":
				if got, want := regs[x].Equal(&regs[y]) == 1, mx.Cmp(my) == 0; got != want {
					rt.Fatalf("valid history %v: Equal is %v", log, got)
				}
				isLoose = loose[z]
			case "zero":
				regs[z].Zero()
				model[z] = new(big.Int)
			case "one":
				regs[z].One()
				model[z] = big.NewInt(1)
			}
			loose[z] = isLoose
			check()
		}
		c.Nontrivial(fmt.Sprint(log))
		c.Label("%d steps", n)
		c.Sample("%v", log)
	})
}

// The scalars modulo the group order.
func TestC28_scalar(t *testing.T) {
	vh.Check(t, 2400, 120000, func(rt *rapid.T, c *vh.Case) {
		scalar := func(label string) (*e25.Scalar, *big.Int) {
			b := draw256(rt, label)
			v := edref.FromLE(b)
			s := e25.NewScalar()
			switch rapid.IntRange(0, 3).Draw(rt, label+"How") {
			case 0:
				before := s.Bytes()
				_, err := s.SetCanonicalBytes(b)
				if (err == nil) != (v.Cmp(edref.L) < 0) {
					rt.Fatalf("SetCanonicalBytes of %x: %v, invalid or valid wrongly", b, err)
				}
				if err != nil {
					if string(s.Bytes()) != string(before) {
						rt.Fatalf("invalid encoding %x changed the scalar", b)
					}
					v = new(big.Int)
				}
			case 1:
				w := append(append([]byte(nil), b...), draw256(rt, label+"High")...)
				if _, err := s.SetUniformBytes(w); err != nil {
					rt.Fatalf("valid uniform bytes refused: %v", err)
				}
				v = edref.FromLE(w)
			case 2:
				if _, err := s.SetBytesWithClamping(b); err != nil {
					rt.Fatalf("valid clamping refused: %v", err)
				}
				v.SetBit(v, 0, 0).SetBit(v, 1, 0).SetBit(v, 2, 0).SetBit(v, 255, 0).SetBit(v, 254, 1)
			default:
				v.Mod(v, edref.L)
				if _, err := s.SetCanonicalBytes(edref.LE(v, 32)); err != nil {
					rt.Fatalf("valid canonical bytes refused: %v", err)
				}
			}
			v = new(big.Int).Mod(v, edref.L)
			if got := edref.FromLE(s.Bytes()); got.Cmp(v) != 0 {
				rt.Fatalf("valid scalar from %x is %v, want %v", b, got, v)
			}
			return s, v
		}
		x, vx := scalar("x")
		y, vy := scalar("y")
		z, vz := scalar("z")
		dst := []*e25.Scalar{e25.NewScalar(), x, y, z}[rapid.IntRange(0, 3).Draw(rt, "dst")]
		op := vh.OneOf([]string{"mulAdd", "add", "sub", "neg", "mul", "set", "equal"}).Draw(rt, "op")
		c.Nontrivial(op, vx, vy, vz)
		c.Label("%s", op)
		c.Sample("%s %v %v %v", op, vx, vy, vz)
		want := new(big.Int)
		switch op {
		case "mulAdd":
			dst.MultiplyAdd(x, y, z)
			want.Mul(vx, vy).Add(want, vz)
		case "add":
			dst.Add(x, y)
			want.Add(vx, vy)
		case "sub":
			dst.Subtract(x, y)
			want.Sub(vx, vy)
		case "neg":
			dst.Negate(x)
			want.Neg(vx)
		case "mul":
			dst.Multiply(x, y)
			want.Mul(vx, vy)
		case "set":
			dst.Set(x)
			want = vx
		case "equal":
			if got := x.Equal(y) == 1; got != (vx.Cmp(vy) == 0) {
				rt.Fatalf("valid scalars %v %v: Equal %v", vx, vy, got)
			}
			return
		}
		if got := edref.FromLE(dst.Bytes()); got.Cmp(want.Mod(want, edref.L)) != 0 {
			rt.Fatalf("valid scalars: %s of %v %v %v is %v, want %v", op, vx, vy, vz, got, want)
		}
	})
}

// Lengths other than the documented ones are refused.
func TestC28_lengths(t *testing.T) {
	vh.Sweep(t, 80, func(t *testing.T, c *vh.Case, n int) {
		b := vh.Expand(uint64(n), n)
		if n > 31 {
			b[31] &= 15
		}
		for name, f := range map[string]func() (bool, int){
			"field":     func() (bool, int) { _, err := new(field.Element).SetBytes(b); return err == nil, 32 },
			"canonical": func() (bool, int) { _, err := e25.NewScalar().SetCanonicalBytes(b); return err == nil, 32 },
			"clamped":   func() (bool, int) { _, err := e25.NewScalar().SetBytesWithClamping(b); return err == nil, 32 },
			"uniform":   func() (bool, int) { _, err := e25.NewScalar().SetUniformBytes(b); return err == nil, 64 },
			"point": func() (bool, int) {
				if n == 32 {
					return true, 32
				}
				_, err := new(e25.Point).SetBytes(b)
				return err == nil, 32
			},
		} {
			if got, want := f(); got != (n == want) {
				t.Fatalf("%d bytes for a %s: accepted %v", n, name, got)
			}
		}
		c.Nontrivial(n)
		c.Label("lengths")
		c.Sample("%d bytes", n)
	})
}

func goPoint(t vh.TB, p edref.Pt) *e25.Point {
	r, err := new(e25.Point).SetBytes(p.Encode())
	if err != nil {
		t.Fatalf("valid point %x refused: %v", p.Encode(), err)
	}
	return r
}

func drawPoint(rt *rapid.T, label string) edref.Pt {
	n := edref.FromLE(draw256(rt, label))
	p := edref.B.Mul(n.Mod(n, edref.L))
	switch rapid.IntRange(0, 4).Draw(rt, label+"Kind") {
	case 0:
		return edref.T8.Mul(big.NewInt(int64(vh.Even(0, 7).Draw(rt, label+"T"))))
	case 1:
		return p.Add(edref.T8.Mul(big.NewInt(int64(vh.Even(0, 7).Draw(rt, label+"T")))))
	case 2:
		return edref.B
	}
	return p
}

// Decoding and encoding.
func TestC29_encoding(t *testing.T) {
	vh.Check(t, 1600, 60000, func(rt *rapid.T, c *vh.Case) {
		b := draw256(rt, "encoding")
		y := edref.FromLE(b)
		want, valid := edref.FromY(y.SetBit(y, 255, 0), uint(b[31]>>7))
		before := goPoint(rt, edref.B)
		p, err := before.SetBytes(b)
		c.Nontrivial(b)
		c.Label("valid %v", valid)
		c.Sample("%x valid %v", b, valid)
		if (err == nil) != valid {
			rt.Fatalf("encoding %x: %v, valid is %v", b, err, valid)
		}
		if err != nil {
			if string(before.Bytes()) != string(edref.B.Encode()) {
				rt.Fatalf("invalid encoding %x changed the receiver", b)
			}
			return
		}
		if string(p.Bytes()) != string(want.Encode()) {
			rt.Fatalf("valid encoding %x decodes to %x, want %x", b, p.Bytes(), want.Encode())
		}
		a := new(e25.PointAffine).FromExtended(p)
		if edref.FromLE(a.X.Bytes()).Cmp(want.X) != 0 || edref.FromLE(a.Y.Bytes()).Cmp(want.Y) != 0 {
			rt.Fatalf("valid encoding %x has affine coordinates %x %x", b, a.X.Bytes(), a.Y.Bytes())
		}
	})
}

// Group operations on histories of points, with aliasing; points come in many projective forms.
func TestC29_group(t *testing.T) {
	vh.Check(t, 640, 30000, func(rt *rapid.T, c *vh.Case) {
		var regs [3]*e25.Point
		var model [3]edref.Pt
		var log []string
		for i := range regs {
			model[i] = drawPoint(rt, fmt.Sprintf("p%d", i))
			regs[i] = goPoint(rt, model[i])
			log = append(log, fmt.Sprintf("p%d=%x", i, model[i].Encode()))
		}
		n := rapid.IntRange(1, 5).Draw(rt, "steps")
		for s := 0; s < n; s++ {
			z, x, y := rapid.IntRange(0, 2).Draw(rt, "z"), rapid.IntRange(0, 2).Draw(rt, "x"), rapid.IntRange(0, 2).Draw(rt, "y")
			op := vh.OneOf([]string{"add", "add", "sub", "neg", "baseMult", "mult", "doubleMult", "equal", "set", "identity", "generator"}).Draw(rt, "op")
			log = append(log, fmt.Sprintf("p%d=%s(p%d,p%d)", z, op, x, y))
			k := func(label string) (*e25.Scalar, *big.Int) {
				v := edref.FromLE(draw256(rt, label))
				v.Mod(v, edref.L)
				s, err := e25.NewScalar().SetCanonicalBytes(edref.LE(v, 32))
				if err != nil {
					rt.Fatalf("valid scalar %v refused: %v", v, err)
				}
				log = append(log, fmt.Sprintf("%s=%v", label, v))
				return s, v
			}
			px, py := model[x], model[y]
			switch op {
			case "add":
				regs[z].Add(regs[x], regs[y])
				model[z] = px.Add(py)
			case "sub":
				regs[z].Subtract(regs[x], regs[y])
				model[z] = px.Add(py.Neg())
			case "neg":
				regs[z].Negate(regs[x])
				model[z] = px.Neg()
			case "baseMult":
				s, v := k("k")
				regs[z].ScalarBaseMult(s)
				model[z] = edref.B.Mul(v)
			case "mult":
				s, v := k("k")
				regs[z].ScalarMult(s, regs[x])
				model[z] = px.Mul(v)
			case "doubleMult":
				s, v := k("k")
				s2, v2 := k("k2")
				regs[z].VarTimeDoubleScalarBaseMult(s, regs[x], s2)
				model[z] = px.Mul(v).Add(edref.B.Mul(v2))
			case "equal":
				if got := regs[x].Equal(regs[y]) == 1; got != px.Equal(py) {
					rt.Fatalf("valid history %v: Equal is %v", log, got)
				}
			case "set":
				regs[z].Set(regs[x])
				model[z] = px
			case "identity":
				regs[z] = e25.NewIdentityPoint()
				model[z] = edref.O
			case "generator":
				regs[z] = e25.NewGeneratorPoint()
				model[z] = edref.B
			}
			for i := range regs {
				if string(regs[i].Bytes()) != string(model[i].Encode()) {
					rt.Fatalf("valid history %v: p%d is %x, want %x", log, i, regs[i].Bytes(), model[i].Encode())
				}
			}
			e := ed.NewEmulatedPoint(regs[z])
			for i, w := range []*big.Int{model[z].X, model[z].Y} {
				l := e.X.Limbs
				if i == 1 {
					l = e.Y.Limbs
				}
				got := new(big.Int)
				for j := len(l) - 1; j >= 0; j-- {
					got.Lsh(got, 51).Add(got, l[j].(*big.Int))
				}
				if got.Cmp(w) != 0 {
					rt.Fatalf("valid history %v: circuit coordinate %d of p%d is %v, want %v", log, i, z, got, w)
				}
			}
		}
		c.Nontrivial(fmt.Sprint(log))
		c.Label("%d steps", n)
		c.Sample("%v", log)
	})
}
