package blsc

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"testing"

	bls "github.com/brevis-network/zk-utils/circuits/gadgets/pairing_bls12381"
	cr "github.com/consensys/gnark-crypto/ecc/bls12-381"
	"github.com/consensys/gnark-crypto/ecc/bls12-381/fp"
	"github.com/consensys/gnark-crypto/field/hash"
	"github.com/consensys/gnark/frontend"
	"pgregory.net/rapid"

	"vharness/fe"
	"vharness/linked"
	"vharness/vh"
)

// the Ethereum consensus signature suite
var dst = []byte("BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_")

func drawMsg(rt *rapid.T) (m [32]byte, what string) {
	what = vh.OneOf([]string{"random", "random", "random", "zero", "ones", "sparse", "low"}).Draw(rt, "msgKind")
	switch what {
	case "random":
		copy(m[:], vh.RandBytes(rt, "msg", 32))
	case "ones":
		for i := range m {
			m[i] = 255
		}
	case "sparse":
		m[vh.Even(0, 31).Draw(rt, "at")] = 1 << vh.Even(0, 7).Draw(rt, "bit")
	case "low":
		binary.BigEndian.PutUint64(m[24:], rapid.Uint64().Draw(rt, "n"))
	}
	return
}

func inMsg(api fe.Engine, m [32]byte) (out [32]frontend.Variable) {
	copy(out[:], vh.Vars(api, m[:]))
	return
}

// Message expansion and reduction to field elements.
func TestC26_field(t *testing.T) {
	vh.Check(t, 96, 5000, func(rt *rapid.T, c *vh.Case) {
		k := drawKind(rt)
		m, what := drawMsg(rt)
		count := vh.OneOf([]int{2, 2, 4, 4, 1, 3}).Draw(rt, "count")
		fn := vh.OneOf([]string{"expand", "field"}).Draw(rt, "fn")
		c.Nontrivial(k, m, count, fn)
		c.Label("%s %d", fn, count)
		c.Sample("%s count %d of %x over native field %d", fn, count, m, k)
		if fn == "expand" {
			want, err := hash.ExpandMsgXmd(m[:], dst, 64*count)
			if err != nil {
				rt.Fatalf("harness: %v", err)
			}
			var got []byte
			err = fe.Run(k, func(api fe.Engine) {
				got = vh.U8s(rt, api, bls.ExpandMsgXmd(api, inMsg(api, m), count))
			})
			vh.Accept(rt, err, "expand %x to %d", m, count)
			if string(got) != string(want) {
				rt.Fatalf("valid expansion of %x to %d gives %x, want %x", m, count, got, want)
			}
			return
		}
		_ = what
		u, err := fp.Hash(m[:], dst, count)
		if err != nil {
			rt.Fatalf("harness: %v", err)
		}
		var got []cr.E2
		err = fe.Run(k, func(api fe.Engine) {
			for _, e := range bls.HashToField(api, inMsg(api, m), count) {
				got = append(got, out2(api, &e))
			}
		})
		vh.Accept(rt, err, "hash to field %x, %d", m, count)
		if len(got) != count/2 {
			rt.Fatalf("valid hash to field of %x gives %d elements, want %d", m, len(got), count/2)
		}
		for i, g := range got {
			if !g.A0.Equal(&u[2*i]) || !g.A1.Equal(&u[2*i+1]) {
				rt.Fatalf("valid hash to field of %x gives %s in place %d, want %s %s", m, g.String(), i, u[2*i].String(), u[2*i+1].String())
			}
		}
	})
}

// What is not a byte is not hashed.
func TestC26_bytes(t *testing.T) {
	vh.Check(t, 48, 2000, func(rt *rapid.T, c *vh.Case) {
		k := drawKind(rt)
		m, _ := drawMsg(rt)
		at := vh.Even(0, 31).Draw(rt, "at")
		v := vh.OneOf([]*big.Int{big.NewInt(256), big.NewInt(257), big.NewInt(512), vh.Pow2(32), vh.Pow2(200),
			new(big.Int).Sub(k.Modulus(), big.NewInt(1))}).Draw(rt, "value")
		fn := vh.OneOf([]string{"field", "uint64", "bits"}).Draw(rt, "fn")
		c.Nontrivial(k, m, at, v, fn)
		c.Label("%s", fn)
		c.Sample("%s with %v at %d of %x", fn, v, at, m)
		err := fe.Run(k, func(api fe.Engine) {
			in := inMsg(api, m)
			in[at] = api.Var(v)
			var w [8]frontend.Variable
			copy(w[:], in[at/8*8:])
			switch fn {
			case "field":
				bls.HashToField(api, in, 2)
			case "uint64":
				bls.GetUint64From8Bytes(api, w)
			case "bits":
				bls.Get64BitsFrom8Bytes(api, w)
			}
		})
		vh.Reject(rt, err, "%s of %v at %d", fn, v, at)
	})
}

// Byte strings to integers, and 512-bit integers to the field.
func TestC26_limbs(t *testing.T) {
	vh.Check(t, 320, 12000, func(rt *rapid.T, c *vh.Case) {
		k := drawKind(rt)
		b := vh.RandBytes(rt, "bytes", 64)
		switch vh.Even(0, 7).Draw(rt, "special") {
		case 0:
			b = make([]byte, 64)
		case 1:
			for i := range b {
				b[i] = 255
			}
		case 2: // near a multiple of p
			v := new(big.Int).Mul(P, new(big.Int).SetBytes(vh.RandBytes(rt, "mult", 16)))
			v.Add(v, big.NewInt(int64(rapid.IntRange(-2, 2).Draw(rt, "off"))))
			if v.Sign() >= 0 && v.BitLen() <= 512 {
				v.FillBytes(b)
			}
		}
		fn := vh.OneOf([]string{"limbs", "limbs", "uint64", "bits"}).Draw(rt, "fn")
		c.Nontrivial(k, b, fn)
		c.Label("%s", fn)
		c.Sample("%s of %x over native field %d", fn, b, k)
		var el fp.Element
		var n *big.Int
		err := fe.Run(k, func(api fe.Engine) {
			var w [8]frontend.Variable
			switch fn {
			case "limbs":
				for i := range w {
					w[i] = api.Var(new(big.Int).SetBytes(b[56-8*i : 64-8*i]))
				}
				el = outEl(api, bls.GetRawLimbsBy8Uint64(api, w))
			case "uint64":
				copy(w[:], vh.Vars(api, b[:8]))
				n = api.Big(bls.GetUint64From8Bytes(api, w))
			case "bits":
				copy(w[:], vh.Vars(api, b[:8]))
				n = new(big.Int)
				for i, x := range vh.U8s(rt, api, bls.Get64BitsFrom8Bytes(api, w)) {
					n.Add(n, new(big.Int).Lsh(big.NewInt(int64(x)), uint(i)))
				}
			}
		})
		vh.Accept(rt, err, "%s of %x", fn, b)
		if fn == "limbs" {
			var want fp.Element
			want.SetBytes(b)
			if !el.Equal(&want) {
				rt.Fatalf("valid reduction of %x gives %s, want %s", b, el.String(), want.String())
			}
		} else if want := new(big.Int).SetBytes(b[:8]); n.Cmp(want) != 0 {
			rt.Fatalf("valid %s of %x gives %v, want %v", fn, b[:8], n, want)
		}
	})
}

// exceptional inputs of the map: u = 0 and the u with Z u^2 = -1, Z = -(2+u)
func exceptional() []cr.E2 {
	var z, s cr.E2
	z.A0.SetUint64(2)
	z.A1.SetUint64(1)
	s.Inverse(&z) // u^2 = -1/Z = 1/(2+i)
	out := []cr.E2{{}}
	if s.Legendre() == 1 {
		var a, b cr.E2
		a.Sqrt(&s)
		b.Neg(&a)
		out = append(out, a, b)
	}
	return out
}

func drawU(rt *rapid.T) (cr.E2, string) {
	switch rapid.IntRange(0, 6).Draw(rt, "uKind") {
	case 0:
		x := exceptional()
		i := vh.Even(0, len(x)-1).Draw(rt, "which")
		return x[i], fmt.Sprintf("exceptional %d", i)
	case 1:
		return cr.E2{A1: drawFp(rt, "u1")}, "imaginary"
	case 2:
		return cr.E2{A0: drawFp(rt, "u0")}, "real"
	}
	return draw2(rt, "u"), "any"
}

// The simplified SWU map and the isogeny.
func TestC26_map(t *testing.T) {
	vh.Check(t, 80, 2500, func(rt *rapid.T, c *vh.Case) {
		k := drawKind(rt)
		u, what := drawU(rt)
		how := drawHow(rt, "how")
		fn := vh.OneOf([]string{"map", "map", "isogeny", "both"}).Draw(rt, "fn")
		c.Nontrivial(k, u.String(), how, fn)
		c.Label("%s %s", fn, what)
		c.Sample("%s of %s %s over native field %d", fn, what, u.String(), k)
		p := cr.MapToCurve2(&u)
		want := p
		if fn == "isogeny" && rapid.Bool().Draw(rt, "minus") {
			p.Y.Neg(&p.Y)
			want = p
		}
		if fn != "map" {
			linked.G2Isogeny(&want)
		}
		if fn != "map" && (want.X.IsZero() && want.Y.IsZero()) {
			return // kernel of the isogeny
		}
		var got cr.G2Affine
		err := fe.Run(k, func(api fe.Engine) {
			var r bls.G2Affine
			if fn == "isogeny" {
				r = inG2(api, &p, how)
			} else {
				x, y := bls.MapElementToCurve2(api, *in2(api, &u, how))
				r = bls.G2Affine{X: *x, Y: *y}
			}
			if fn != "map" {
				r = *bls.G2Isogeny(api, &r)
			}
			got = outG2(api, &r)
		})
		if how == asLong && fe.IsUnsat(err) {
			return
		}
		vh.Accept(rt, err, "%s of %s", fn, u.String())
		if !got.Equal(&want) {
			rt.Fatalf("valid %s of %s gives %s, want %s", fn, u.String(), got.String(), want.String())
		}
	})
}

// A prover choosing unreduced remainders cannot make the map give another point.
func TestC26_lies(t *testing.T) {
	vh.Check(t, 80, 2500, func(rt *rapid.T, c *vh.Case) {
		k := drawKind(rt)
		u, what := drawU(rt)
		which := vh.Even(0, 23).Draw(rt, "which")
		changed := false
		c.Nontrivial(k, u.String(), which)
		c.Label("%s", what)
		c.Sample("%s %s, lie %d", what, u.String(), which)
		want := cr.MapToCurve2(&u)
		var got cr.G2Affine
		err := fe.RunHook(k, remLie(which, &changed), func(api fe.Engine) {
			x, y := bls.MapElementToCurve2(api, *in2(api, &u, asWitness))
			got = cr.G2Affine{X: out2(api, x), Y: out2(api, y)}
		})
		c.Label("remainders changed %v, accepted %v", changed, err == nil)
		if err == nil && !got.Equal(&want) {
			rt.Fatalf("invalid result proved: the map of %s gives %s, want %s", u.String(), got.String(), want.String())
		}
		if err != nil && !fe.IsUnsat(err) {
			rt.Fatalf("crash instead of an unsatisfied constraint: %v", err)
		}
	})
}

// Messages to points of the subgroup.
func TestC26_curve(t *testing.T) {
	vh.Check(t, 24, 900, func(rt *rapid.T, c *vh.Case) {
		k := drawKind(rt)
		m, what := drawMsg(rt)
		fn := vh.OneOf([]string{"EncodeToG2", "EncodeToG2OnJac", "HashToG2", "HashToG2OnJac"}).Draw(rt, "fn")
		c.Nontrivial(k, m, fn)
		c.Label("%s", fn)
		c.Sample("%s of %s %x over native field %d", fn, what, m, k)
		var want, got cr.G2Affine
		var err error
		if fn[0] == 'E' {
			want, err = cr.EncodeToG2(m[:], dst)
		} else {
			want, err = cr.HashToG2(m[:], dst)
		}
		if err != nil {
			rt.Fatalf("harness: %v", err)
		}
		err = fe.Run(k, func(api fe.Engine) {
			in := inMsg(api, m)
			var r *bls.G2Affine
			switch fn {
			case "EncodeToG2":
				r = bls.EncodeToG2(api, in)
			case "EncodeToG2OnJac":
				r = bls.EncodeToG2OnJac(api, in)
			case "HashToG2":
				r = bls.HashToG2(api, in)
			case "HashToG2OnJac":
				r = bls.HashToG2OnJac(api, in)
			}
			got = outG2(api, r)
		})
		vh.Accept(rt, err, "%s of %x", fn, m)
		if !got.Equal(&want) {
			rt.Fatalf("valid %s of %x gives %s, want %s", fn, m, got.String(), want.String())
		}
	})
}
