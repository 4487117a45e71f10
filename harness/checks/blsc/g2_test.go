package blsc

import (
	"math/big"
	"testing"

	bls "github.com/brevis-network/zk-utils/circuits/gadgets/pairing_bls12381"
	cr "github.com/consensys/gnark-crypto/ecc/bls12-381"
	"github.com/consensys/gnark-crypto/ecc/bls12-381/fp"
	"pgregory.net/rapid"

	"vharness/fe"
	"vharness/vh"
)

var (
	_, _, _, g2aff = cr.Generators()
	// twistOrder is the number of points of the twist over Fp2.
	twistOrder = func() *big.Int {
		x := new(big.Int).Neg(X0)
		h := new(big.Int)
		for _, c := range []int64{1, -4, 5, 0, -4, 6, -4, -4, 13} {
			h.Mul(h, x).Add(h, big.NewInt(c))
		}
		h.Div(h, big.NewInt(9))
		return h.Mul(h, R)
	}()
	lambda = func() *big.Int { l := new(big.Int).Mul(X0, X0); return l.Sub(l, big.NewInt(1)) }()
)

// mulJac is double-and-add, valid on the whole curve.
func mulJac(p cr.G2Jac, k *big.Int) cr.G2Jac {
	var acc cr.G2Jac
	acc.FromAffine(&cr.G2Affine{})
	if k.Sign() < 0 {
		p.Neg(&p)
		k = new(big.Int).Neg(k)
	}
	for i := k.BitLen() - 1; i >= 0; i-- {
		acc.DoubleAssign()
		if k.Bit(i) == 1 {
			acc.AddAssign(&p)
		}
	}
	return acc
}

func aff(p cr.G2Jac) cr.G2Affine {
	var r cr.G2Affine
	r.FromJacobian(&p)
	return r
}

func jac(p cr.G2Affine) cr.G2Jac {
	var r cr.G2Jac
	r.FromAffine(&p)
	return r
}

func mulAff(p cr.G2Affine, k *big.Int) cr.G2Affine { return aff(mulJac(jac(p), k)) }

func addAff(p, q cr.G2Affine) cr.G2Affine {
	a, b := jac(p), jac(q)
	a.AddAssign(&b)
	return aff(a)
}

func negAff(p cr.G2Affine) cr.G2Affine {
	var r cr.G2Affine
	r.Neg(&p)
	return r
}

// curvePoint finds a point of the twist from a seed (not in the subgroup, but for a negligible chance).
func curvePoint(seed uint64) cr.G2Affine {
	for i := uint64(0); ; i++ {
		b := vh.Expand(seed+i*7919, 101)
		var p cr.G2Affine
		p.X.A0.SetBytes(b[:50])
		p.X.A1.SetBytes(b[50:100])
		var y, c cr.E2
		c.A0.SetUint64(4)
		c.A1.SetUint64(4)
		y.Square(&p.X).Mul(&y, &p.X).Add(&y, &c)
		if y.Legendre() != 1 {
			continue
		}
		p.Y.Sqrt(&y)
		if b[100]&1 == 1 {
			p.Y.Neg(&p.Y)
		}
		return p
	}
}

// smallOrder finds a point whose order is a small divisor of the cofactor.
func smallOrder(seed uint64, q int64) cr.G2Affine {
	for i := uint64(0); ; i++ {
		p := curvePoint(seed + i<<32)
		k := new(big.Int).Set(twistOrder)
		for new(big.Int).Mod(k, big.NewInt(q)).Sign() == 0 {
			k.Div(k, big.NewInt(q))
		}
		r := mulAff(p, k)
		for !r.IsInfinity() {
			n := mulAff(r, big.NewInt(q))
			if n.IsInfinity() {
				return r
			}
			r = n
		}
	}
}

func drawG2(rt *rapid.T, label string) (cr.G2Affine, string) {
	kind := vh.OneOf([]string{"torsion", "torsion", "torsion", "curve", "curve", "13", "23", "tiny multiple", "infinity"}).Draw(rt, label)
	s := rapid.Uint64().Draw(rt, label+"Seed")
	switch kind {
	case "torsion":
		return mulAff(g2aff, new(big.Int).SetBytes(vh.Expand(s, 32))), kind
	case "curve":
		return curvePoint(s), kind
	case "13":
		return smallOrder(s, 13), "order 13"
	case "23":
		return smallOrder(s, 23), "order 23"
	case "tiny multiple":
		return mulAff(g2aff, big.NewInt(int64(1+s%5))), kind
	}
	return cr.G2Affine{}, kind
}

func inG2(api fe.Engine, p *cr.G2Affine, how int) bls.G2Affine {
	if how == asConstant {
		return bls.NewG2Affine(*p)
	}
	return bls.G2Affine{X: *in2(api, &p.X, how), Y: *in2(api, &p.Y, how)}
}

func outG2(api fe.Engine, p *bls.G2Affine) cr.G2Affine {
	return cr.G2Affine{X: out2(api, &p.X), Y: out2(api, &p.Y)}
}

func inJac(api fe.Engine, p *cr.G2Jac, how int) bls.G2Jacobian {
	return bls.G2Jacobian{X: *in2(api, &p.X, how), Y: *in2(api, &p.Y, how), Z: *in2(api, &p.Z, how)}
}

func outJac(api fe.Engine, p *bls.G2Jacobian) cr.G2Jac {
	return cr.G2Jac{X: out2(api, &p.X), Y: out2(api, &p.Y), Z: out2(api, &p.Z)}
}

// scaled is another Jacobian representation of the same point.
func scaled(p cr.G2Affine, z cr.E2) cr.G2Jac {
	if z.IsZero() {
		z.SetOne()
	}
	j := jac(p)
	var z2, z3 cr.E2
	z2.Square(&z)
	z3.Mul(&z2, &z)
	j.X.Mul(&j.X, &z2)
	j.Y.Mul(&j.Y, &z3)
	j.Z.Mul(&j.Z, &z)
	return j
}

// psiRef is the untwist-Frobenius-twist endomorphism, from its definition.
func psiRef(p cr.G2Affine) cr.G2Affine {
	if p.IsInfinity() {
		return p
	}
	u, v := xiPow(1, 2), xiPow(1, 3)
	u.Inverse(&u)
	v.Inverse(&v)
	var r cr.G2Affine
	r.X.Conjugate(&p.X).Mul(&r.X, &u)
	r.Y.Conjugate(&p.Y).Mul(&r.Y, &v)
	return r
}

// phiRef multiplies x by the cube root of unity for which phi is [lambda] on the subgroup.
var cubeRoot = func() fp.Element {
	w := xiPow(2, 2).A0 // a primitive cube root of unity
	for i := 0; i < 2; i++ {
		p := g2aff
		p.X.MulByElement(&p.X, &w)
		if q := mulAff(g2aff, lambda); q.Equal(&p) {
			return w
		}
		w.Square(&w)
	}
	panic("no eigenvalue")
}()

func phiRef(p cr.G2Affine) cr.G2Affine {
	if p.IsInfinity() {
		return p
	}
	p.X.MulByElement(&p.X, &cubeRoot)
	return p
}

func clearRef(p cr.G2Affine) cr.G2Affine {
	a := jac(p)
	var r cr.G2Jac
	r.ClearCofactor(&a)
	return aff(r)
}

// heff is the effective cofactor of RFC 9380, section 8.8.2.
var heff, _ = new(big.Int).SetString("bc69f08f2ee75b3584c6a0ea91b352888e2a8e9145ad7689986ff031508ffe1329c2f178731db956d82bf015d1212b02ec0ec69d7477c1ae954cbc06689f6a359894c0adebbf6b4e8020005aaa95551", 16)

func TestC24_reference(t *testing.T) {
	if !vh.Shard0() {
		t.Skip()
	}
	p := curvePoint(1)
	if q := mulAff(p, twistOrder); !q.IsInfinity() || !p.IsOnCurve() {
		t.Fatal("harness: twist order")
	}
	if a, b := mulAff(p, heff), clearRef(p); !a.Equal(&b) {
		t.Fatal("harness: effective cofactor")
	}
	if a, b := psiRef(g2aff), mulAff(g2aff, new(big.Int).Neg(X0)); !a.Equal(&b) {
		t.Fatal("harness: psi")
	}
}

// related draws a second point, often in a special relation with the first.
func related(rt *rapid.T, p cr.G2Affine) (cr.G2Affine, string) {
	switch vh.Even(0, 7).Draw(rt, "relation") {
	case 0:
		return p, "equal"
	case 1:
		return negAff(p), "opposite"
	case 2:
		return addAff(p, p), "double"
	case 3:
		return phiRef(p), "phi"
	case 4:
		return mulAff(p, big.NewInt(-2)), "minus double"
	}
	return drawG2(rt, "q")
}

// Jacobian arithmetic is complete: points at infinity, equal and opposite points, any representation.
func TestC24_jacobian(t *testing.T) {
	vh.Check(t, 560, 30000, func(rt *rapid.T, c *vh.Case) {
		k := drawKind(rt)
		p, pk := drawG2(rt, "p")
		q, qk := related(rt, p)
		jp, jq := scaled(p, draw2(rt, "zp")), scaled(q, draw2(rt, "zq"))
		if rapid.IntRange(0, 2).Draw(rt, "z1") == 0 {
			jp, jq = jac(p), jac(q)
		}
		how, how2 := drawHow(rt, "how"), drawHow(rt, "how2")
		fn := vh.OneOf([]string{"add", "add", "add", "sub", "sub", "double", "neg", "psi", "phi", "affine", "toJac"}).Draw(rt, "op")
		c.Nontrivial(k, fn, pk, qk, jp, jq, how, how2)
		c.Label("%s", fn)
		if fn == "add" || fn == "sub" {
			c.Label("%s of %s and %s", fn, pk, qk)
		}
		c.Sample("%s over native field %d: p %s %s, q %s", fn, k, pk, p.String(), qk)
		var want, got cr.G2Affine
		err := fe.Run(k, func(api fe.Engine) {
			a, b := inJac(api, &jp, how), inJac(api, &jq, how2)
			var r bls.G2Jacobian
			switch fn {
			case "add":
				r = bls.G2JacobianAddAssign(api, a, b)
			case "sub":
				r = bls.G2JacobianSubAssign(api, a, b)
			case "double":
				r = bls.G2JacobianDouble(api, a)
			case "neg":
				r = bls.G2JacobianNeg(api, a)
			case "psi":
				r = bls.G2JacobianPsi(api, a)
			case "phi":
				r = bls.G2JacobianPhi(api, a)
			case "affine":
				got = outG2(api, bls.GetG2AffineFromG2Jac(api, &a))
				return
			case "toJac":
				x := inG2(api, &p, how)
				r = *bls.GetG2JacFromG2Affine(api, &x)
			}
			o := outJac(api, &r)
			got = aff(o)
		})
		switch fn {
		case "add":
			want = addAff(p, q)
		case "sub":
			want = addAff(p, negAff(q))
		case "double":
			want = addAff(p, p)
		case "neg":
			want = negAff(p)
		case "psi":
			want = psiRef(p)
		case "phi":
			want = phiRef(p)
		default:
			want = p
		}
		if (how == asLong || how2 == asLong) && fe.IsUnsat(err) {
			return
		}
		vh.Accept(rt, err, "Jacobian %s of %s %s, %s %s", fn, pk, p.String(), qk, q.String())
		if !got.Equal(&want) {
			rt.Fatalf("valid Jacobian %s of %s %s, %s %s gives %s, want %s", fn, pk, p.String(), qk, q.String(), got.String(), want.String())
		}
	})
}

// Affine arithmetic: correct wherever the formulas are defined, refused elsewhere, never wrong.
func TestC24_affine(t *testing.T) {
	vh.Check(t, 400, 20000, func(rt *rapid.T, c *vh.Case) {
		k := drawKind(rt)
		p, pk := drawG2(rt, "p")
		if p.IsInfinity() {
			p, pk = g2aff, "generator"
		}
		q, qk := related(rt, p)
		if q.IsInfinity() {
			q, qk = negAff(p), "opposite"
		}
		how, how2 := drawHow(rt, "how"), drawHow(rt, "how2")
		fn := vh.OneOf([]string{"add", "add", "sub", "double", "neg", "psi", "phi", "doubleAndAdd", "doubleAndAdd", "doubleStep", "addStep"}).Draw(rt, "op")
		same := p.X.Equal(&q.X)
		degenerate := false
		var want, got cr.G2Affine
		switch fn {
		case "add":
			want, degenerate = addAff(p, q), same
		case "sub":
			want, degenerate = addAff(p, negAff(q)), same
		case "double", "doubleStep":
			want = addAff(p, p)
		case "neg":
			want = negAff(p)
		case "psi":
			want = psiRef(p)
		case "phi":
			want = phiRef(p)
		case "doubleAndAdd":
			s := addAff(p, q)
			want, degenerate = addAff(s, p), same || s.X.Equal(&p.X)
		case "addStep":
			want = addAff(p, q)
			if same {
				return // homogeneous addition is not defined there
			}
		}
		c.Nontrivial(k, fn, pk, qk, p, q, how, how2)
		c.Label("%s, degenerate %v", fn, degenerate)
		c.Sample("%s over native field %d: p %s %s, q %s", fn, k, pk, p.String(), qk)
		err := fe.Run(k, func(api fe.Engine) {
			a, b := inG2(api, &p, how), inG2(api, &q, how2)
			pr := newEnv(api).pr
			var r *bls.G2Affine
			proj := func(x *bls.G2Projective) {
				o := cr.G2Jac{X: out2(api, &x.X), Y: out2(api, &x.Y), Z: out2(api, &x.Z)}
				var i cr.E2
				i.Inverse(&o.Z)
				got.X.Mul(&o.X, &i)
				got.Y.Mul(&o.Y, &i)
			}
			switch fn {
			case "add":
				r = bls.G2AddAssign(api, a, b)
			case "sub":
				r = bls.G2SubAssign(api, a, b)
			case "double":
				r = bls.G2Double(api, a)
			case "neg":
				if how == asWitness {
					r = pr.NegAffine(&a)
				} else {
					r = bls.G2Neg(api, a)
				}
			case "psi":
				r = bls.G2Psi(api, a)
			case "phi":
				x := bls.G2Phi(api, a)
				r = &x
			case "doubleAndAdd":
				r = bls.DoubleAndAdd(api, &a, &b)
			case "doubleStep":
				x, _ := pr.DoubleStep(pr.AffineToProjective(&a))
				proj(x)
				return
			case "addStep":
				x, _ := pr.AddStep(pr.AffineToProjective(&a), &b)
				proj(x)
				return
			}
			got = outG2(api, r)
		})
		if degenerate {
			if err == nil && !got.Equal(&want) {
				rt.Fatalf("invalid result proved: affine %s of %s %s and %s gives %s, want %s or a refusal", fn, pk, p.String(), qk, got.String(), want.String())
			}
			if err != nil && !fe.IsUnsat(err) {
				rt.Fatalf("crash instead of an unsatisfied constraint: affine %s: %v", fn, err)
			}
			return
		}
		vh.Accept(rt, err, "affine %s of %s %s, %s %s", fn, pk, p.String(), qk, q.String())
		if !got.Equal(&want) {
			rt.Fatalf("valid affine %s of %s %s, %s %s gives %s, want %s", fn, pk, p.String(), qk, q.String(), got.String(), want.String())
		}
	})
}

// Multiplication by the curve parameter and cofactor clearing.
func TestC24_multiples(t *testing.T) {
	vh.Check(t, 72, 3000, func(rt *rapid.T, c *vh.Case) {
		k := drawKind(rt)
		fn := vh.OneOf([]string{"jacMul", "jacMul", "jacMul", "affMul", "affMulV2", "jacClear", "jacClear", "affClear"}).Draw(rt, "op")
		p, pk := drawG2(rt, "p")
		generic := pk == "torsion" || pk == "curve"
		if !generic && fn[:3] == "aff" {
			p, pk, generic = curvePoint(rapid.Uint64().Draw(rt, "seed")), "curve", true
		}
		j := scaled(p, draw2(rt, "z"))
		how := drawHow(rt, "how")
		var want, got cr.G2Affine
		switch fn {
		case "jacClear", "affClear":
			want = clearRef(p)
		default:
			want = mulAff(p, X0)
		}
		c.Nontrivial(k, fn, pk, p, j, how)
		c.Label("%s of %s", fn, pk)
		c.Sample("%s over native field %d of %s %s", fn, k, pk, p.String())
		err := fe.Run(k, func(api fe.Engine) {
			switch fn {
			case "jacMul":
				r := bls.G2JacobianConstScalarMul(api, inJac(api, &j, how))
				o := outJac(api, &r)
				got = aff(o)
			case "affMul":
				got = outG2(api, bls.G2ConstScalarMul(api, inG2(api, &p, how)))
			case "affMulV2":
				r := bls.G2ConstScalarMulV2(api, inG2(api, &p, how))
				got = outG2(api, &r)
			case "jacClear":
				r := bls.ClearCofactor(api, inJac(api, &j, how))
				o := outJac(api, r)
				got = aff(o)
			case "affClear":
				got = outG2(api, bls.G2ClearCofactor(api, inG2(api, &p, how)))
			}
		})
		if how == asLong && fe.IsUnsat(err) {
			return
		}
		vh.Accept(rt, err, "%s of %s %s", fn, pk, p.String())
		if !got.Equal(&want) {
			rt.Fatalf("valid %s of %s %s gives %s, want %s", fn, pk, p.String(), got.String(), want.String())
		}
	})
}
