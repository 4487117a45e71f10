package blsc

import (
	"fmt"
	"math/big"
	"testing"

	bls "github.com/brevis-network/zk-utils/circuits/gadgets/pairing_bls12381"
	cr "github.com/consensys/gnark-crypto/ecc/bls12-381"
	"github.com/consensys/gnark-crypto/ecc/bls12-381/fp"
	"github.com/consensys/gnark/frontend"
	"pgregory.net/rapid"

	"vharness/fe"
	"vharness/vh"
)

// arg carries the extra operands an operation may take.
type arg struct {
	e2  [6]cr.E2
	fp  fp.Element
	bit int
	how int
}

// op is one operation on values of type V (oracle) and W (circuit).
type op[V, W any] struct {
	name  string
	arity int
	bad   func(a []V) bool // inputs out of the operation's domain
	want  func(a []V, g *arg) V
	circ  func(api fe.Engine, e env, a []*W, g *arg) *W
}

// env has the circuit's field objects.
type env struct {
	pr *bls.Pairing
}

func newEnv(api fe.Engine) env {
	pr, err := bls.NewPairing(api)
	if err != nil {
		panic(err)
	}
	return env{pr}
}

// xi is 1+u, the tower's non residue.
func xi() cr.E2 {
	var r cr.E2
	r.A0.SetOne()
	r.A1.SetOne()
	return r
}

// xiPow is xi^(k (p^n-1)/6).
func xiPow(n, k int) cr.E2 {
	e := new(big.Int).Exp(P, big.NewInt(int64(n)), nil)
	e.Sub(e, big.NewInt(1)).Div(e, big.NewInt(6)).Mul(e, big.NewInt(int64(k)))
	var r cr.E2
	r.Exp(xi(), e)
	return r
}

func v2(f func(z *cr.E2, a []cr.E2, g *arg)) func(a []cr.E2, g *arg) cr.E2 {
	return func(a []cr.E2, g *arg) cr.E2 {
		var z cr.E2
		f(&z, a, g)
		return z
	}
}

func ops2() []op[cr.E2, bls.E2] {
	type O = op[cr.E2, bls.E2]
	ops := []O{
		{"Mul", 2, nil, v2(func(z *cr.E2, a []cr.E2, _ *arg) { z.Mul(&a[0], &a[1]) }),
			func(api fe.Engine, e env, a []*bls.E2, _ *arg) *bls.E2 {
				return bls.NewExt2(field(api)).Mul(a[0], a[1])
			}},
		{"Add", 2, nil, v2(func(z *cr.E2, a []cr.E2, _ *arg) { z.Add(&a[0], &a[1]) }),
			func(api fe.Engine, e env, a []*bls.E2, _ *arg) *bls.E2 {
				return bls.NewExt2(field(api)).Add(a[0], a[1])
			}},
		{"Sub", 2, nil, v2(func(z *cr.E2, a []cr.E2, _ *arg) { z.Sub(&a[0], &a[1]) }),
			func(api fe.Engine, e env, a []*bls.E2, _ *arg) *bls.E2 {
				return bls.NewExt2(field(api)).Sub(a[0], a[1])
			}},
		{"Neg", 1, nil, v2(func(z *cr.E2, a []cr.E2, _ *arg) { z.Neg(&a[0]) }),
			func(api fe.Engine, e env, a []*bls.E2, _ *arg) *bls.E2 { return bls.NewExt2(field(api)).Neg(a[0]) }},
		{"Conjugate", 1, nil, v2(func(z *cr.E2, a []cr.E2, _ *arg) { z.Conjugate(&a[0]) }),
			func(api fe.Engine, e env, a []*bls.E2, _ *arg) *bls.E2 {
				return bls.NewExt2(field(api)).Conjugate(a[0])
			}},
		{"Square", 1, nil, v2(func(z *cr.E2, a []cr.E2, _ *arg) { z.Mul(&a[0], &a[0]) }),
			func(api fe.Engine, e env, a []*bls.E2, _ *arg) *bls.E2 { return bls.NewExt2(field(api)).Square(a[0]) }},
		{"Double", 1, nil, v2(func(z *cr.E2, a []cr.E2, _ *arg) { z.Add(&a[0], &a[0]) }),
			func(api fe.Engine, e env, a []*bls.E2, _ *arg) *bls.E2 { return bls.NewExt2(field(api)).Double(a[0]) }},
		{"Halve", 1, nil, v2(func(z *cr.E2, a []cr.E2, _ *arg) { *z = a[0]; z.Halve() }),
			func(api fe.Engine, e env, a []*bls.E2, _ *arg) *bls.E2 { return bls.NewExt2(field(api)).Halve(a[0]) }},
		{"Inverse", 1, func(a []cr.E2) bool { return a[0].IsZero() }, v2(func(z *cr.E2, a []cr.E2, _ *arg) { z.Inverse(&a[0]) }),
			func(api fe.Engine, e env, a []*bls.E2, _ *arg) *bls.E2 { return bls.NewExt2(field(api)).Inverse(a[0]) }},
		{"Div", 2, func(a []cr.E2) bool { return a[1].IsZero() }, v2(func(z *cr.E2, a []cr.E2, _ *arg) { z.Inverse(&a[1]); z.Mul(z, &a[0]) }),
			func(api fe.Engine, e env, a []*bls.E2, _ *arg) *bls.E2 {
				return bls.NewExt2(field(api)).Div(a[0], a[1])
			}},
		{"MulByElement", 1, nil, v2(func(z *cr.E2, a []cr.E2, g *arg) { z.MulByElement(&a[0], &g.fp) }),
			func(api fe.Engine, e env, a []*bls.E2, g *arg) *bls.E2 {
				y := inEl(api, &g.fp, g.how)
				return bls.NewExt2(field(api)).MulByElement(a[0], &y)
			}},
		{"MulByNonResidue", 1, nil, v2(func(z *cr.E2, a []cr.E2, _ *arg) { x := xi(); z.Mul(&a[0], &x) }),
			func(api fe.Engine, e env, a []*bls.E2, _ *arg) *bls.E2 {
				return bls.NewExt2(field(api)).MulByNonResidue(a[0])
			}},
		{"MulByNonResidueInv", 1, nil, v2(func(z *cr.E2, a []cr.E2, _ *arg) { x := xi(); x.Inverse(&x); z.Mul(&a[0], &x) }),
			func(api fe.Engine, e env, a []*bls.E2, _ *arg) *bls.E2 {
				return bls.NewExt2(field(api)).MulByNonResidueInv(a[0])
			}},
		{"MulBybTwistCurveCoeff", 1, nil, v2(func(z *cr.E2, a []cr.E2, _ *arg) {
			x := xi()
			z.Mul(&a[0], &x)
			z.Double(z).Double(z)
		}),
			func(api fe.Engine, e env, a []*bls.E2, _ *arg) *bls.E2 {
				return bls.NewExt2(field(api)).MulBybTwistCurveCoeff(a[0])
			}},
		{"Select", 2, nil, v2(func(z *cr.E2, a []cr.E2, g *arg) { *z = a[1-g.bit] }),
			func(api fe.Engine, e env, a []*bls.E2, g *arg) *bls.E2 {
				return bls.NewExt2(field(api)).Select(api.Var(g.bit), a[0], a[1])
			}},
		{"E2Exp", 1, nil, v2(func(z *cr.E2, a []cr.E2, g *arg) { z.Exp(a[0], g.exp()) }),
			func(api fe.Engine, e env, a []*bls.E2, g *arg) *bls.E2 { return bls.E2Exp(api, *a[0], g.exp()) }},
		{"E2Exp negative", 1, func(a []cr.E2) bool { return a[0].IsZero() }, v2(func(z *cr.E2, a []cr.E2, g *arg) { z.Exp(a[0], g.exp()); z.Inverse(z) }),
			func(api fe.Engine, e env, a []*bls.E2, g *arg) *bls.E2 {
				k := new(big.Int).Neg(g.exp())
				keep := new(big.Int).Set(k)
				r := bls.E2Exp(api, *a[0], k)
				if k.Cmp(keep) != 0 {
					panic("E2Exp changed the caller's exponent: valid exponent overwritten")
				}
				return r
			}},
		{"One", 0, nil, v2(func(z *cr.E2, a []cr.E2, _ *arg) { z.SetOne() }),
			func(api fe.Engine, e env, a []*bls.E2, _ *arg) *bls.E2 { return bls.NewExt2(field(api)).One() }},
		{"Zero", 0, nil, v2(func(z *cr.E2, a []cr.E2, _ *arg) { z.SetZero() }),
			func(api fe.Engine, e env, a []*bls.E2, _ *arg) *bls.E2 { return bls.NewExt2(field(api)).Zero() }},
	}
	add := func(n, k int, f func(e env, x *bls.E2) *bls.E2) {
		c := xiPow(n, k)
		ops = append(ops, O{fmt.Sprintf("MulByNonResidue%dPower%d", n, k), 1, nil,
			v2(func(z *cr.E2, a []cr.E2, _ *arg) { z.Mul(&a[0], &c) }),
			func(api fe.Engine, e env, a []*bls.E2, _ *arg) *bls.E2 { return f(e, a[0]) }})
	}
	add(1, 1, func(e env, x *bls.E2) *bls.E2 { return e.pr.MulByNonResidue1Power1(x) })
	add(1, 2, func(e env, x *bls.E2) *bls.E2 { return e.pr.MulByNonResidue1Power2(x) })
	add(1, 3, func(e env, x *bls.E2) *bls.E2 { return e.pr.MulByNonResidue1Power3(x) })
	add(1, 4, func(e env, x *bls.E2) *bls.E2 { return e.pr.MulByNonResidue1Power4(x) })
	add(1, 5, func(e env, x *bls.E2) *bls.E2 { return e.pr.MulByNonResidue1Power5(x) })
	add(2, 1, func(e env, x *bls.E2) *bls.E2 { return e.pr.MulByNonResidue2Power1(x) })
	add(2, 2, func(e env, x *bls.E2) *bls.E2 { return e.pr.MulByNonResidue2Power2(x) })
	add(2, 3, func(e env, x *bls.E2) *bls.E2 { return e.pr.MulByNonResidue2Power3(x) })
	add(2, 4, func(e env, x *bls.E2) *bls.E2 { return e.pr.MulByNonResidue2Power4(x) })
	add(2, 5, func(e env, x *bls.E2) *bls.E2 { return e.pr.MulByNonResidue2Power5(x) })
	return ops
}

// exp is a short exponent taken from the drawn field element.
func (g *arg) exp() *big.Int {
	b := g.fp.Bytes()
	n := 1 + int(b[0])%3
	return new(big.Int).SetBytes(b[48-n:])
}

func v6(f func(z *cr.E6, a []cr.E6, g *arg)) func(a []cr.E6, g *arg) cr.E6 {
	return func(a []cr.E6, g *arg) cr.E6 {
		var z cr.E6
		f(&z, a, g)
		return z
	}
}

func ext6of(api fe.Engine) interface {
	Add(x, y *bls.E6) *bls.E6
	Sub(x, y *bls.E6) *bls.E6
	Neg(x *bls.E6) *bls.E6
	Mul(x, y *bls.E6) *bls.E6
	Double(x *bls.E6) *bls.E6
	Square(x *bls.E6) *bls.E6
	Inverse(x *bls.E6) *bls.E6
	MulByE2(x *bls.E6, y *bls.E2) *bls.E6
	MulBy1(x *bls.E6, c1 *bls.E2) *bls.E6
	MulBy01(x *bls.E6, c0, c1 *bls.E2) *bls.E6
	MulByNonResidue(x *bls.E6) *bls.E6
	AssertIsEqual(x, y *bls.E6)
} {
	return bls.NewExt6(field(api))
}

func ops6() []op[cr.E6, bls.E6] {
	type O = op[cr.E6, bls.E6]
	zero6 := func(i int) func(a []cr.E6) bool { return func(a []cr.E6) bool { return a[i].IsZero() } }
	return []O{
		{"Add", 2, nil, v6(func(z *cr.E6, a []cr.E6, _ *arg) { z.Add(&a[0], &a[1]) }),
			func(api fe.Engine, e env, a []*bls.E6, _ *arg) *bls.E6 { return ext6of(api).Add(a[0], a[1]) }},
		{"Sub", 2, nil, v6(func(z *cr.E6, a []cr.E6, _ *arg) { z.Sub(&a[0], &a[1]) }),
			func(api fe.Engine, e env, a []*bls.E6, _ *arg) *bls.E6 { return ext6of(api).Sub(a[0], a[1]) }},
		{"Neg", 1, nil, v6(func(z *cr.E6, a []cr.E6, _ *arg) { z.Neg(&a[0]) }),
			func(api fe.Engine, e env, a []*bls.E6, _ *arg) *bls.E6 { return ext6of(api).Neg(a[0]) }},
		{"Mul", 2, nil, v6(func(z *cr.E6, a []cr.E6, _ *arg) { z.Mul(&a[0], &a[1]) }),
			func(api fe.Engine, e env, a []*bls.E6, _ *arg) *bls.E6 { return ext6of(api).Mul(a[0], a[1]) }},
		{"Double", 1, nil, v6(func(z *cr.E6, a []cr.E6, _ *arg) { z.Add(&a[0], &a[0]) }),
			func(api fe.Engine, e env, a []*bls.E6, _ *arg) *bls.E6 { return ext6of(api).Double(a[0]) }},
		{"Square", 1, nil, v6(func(z *cr.E6, a []cr.E6, _ *arg) { z.Mul(&a[0], &a[0]) }),
			func(api fe.Engine, e env, a []*bls.E6, _ *arg) *bls.E6 { return ext6of(api).Square(a[0]) }},
		{"Inverse", 1, zero6(0), v6(func(z *cr.E6, a []cr.E6, _ *arg) { z.Inverse(&a[0]) }),
			func(api fe.Engine, e env, a []*bls.E6, _ *arg) *bls.E6 { return ext6of(api).Inverse(a[0]) }},
		{"MulByE2", 1, nil, v6(func(z *cr.E6, a []cr.E6, g *arg) { z.Mul(&a[0], &cr.E6{B0: g.e2[0]}) }),
			func(api fe.Engine, e env, a []*bls.E6, g *arg) *bls.E6 {
				return ext6of(api).MulByE2(a[0], in2(api, &g.e2[0], g.how))
			}},
		{"MulBy1", 1, nil, v6(func(z *cr.E6, a []cr.E6, g *arg) { z.Mul(&a[0], &cr.E6{B1: g.e2[0]}) }),
			func(api fe.Engine, e env, a []*bls.E6, g *arg) *bls.E6 {
				return ext6of(api).MulBy1(a[0], in2(api, &g.e2[0], g.how))
			}},
		{"MulBy01", 1, nil, v6(func(z *cr.E6, a []cr.E6, g *arg) { z.Mul(&a[0], &cr.E6{B0: g.e2[0], B1: g.e2[1]}) }),
			func(api fe.Engine, e env, a []*bls.E6, g *arg) *bls.E6 {
				return ext6of(api).MulBy01(a[0], in2(api, &g.e2[0], g.how), in2(api, &g.e2[1], g.how))
			}},
		{"MulByNonResidue", 1, nil, v6(func(z *cr.E6, a []cr.E6, g *arg) {
			var v cr.E6
			v.B1.SetOne()
			z.Mul(&a[0], &v)
		}),
			func(api fe.Engine, e env, a []*bls.E6, g *arg) *bls.E6 { return ext6of(api).MulByNonResidue(a[0]) }},
	}
}

func v12(f func(z *cr.E12, a []cr.E12, g *arg)) func(a []cr.E12, g *arg) cr.E12 {
	return func(a []cr.E12, g *arg) cr.E12 {
		var z cr.E12
		f(&z, a, g)
		return z
	}
}

func sparse034(c0, c3, c4 cr.E2) cr.E12 {
	return cr.E12{C0: cr.E6{B0: c0}, C1: cr.E6{B0: c3, B1: c4}}
}

func sparse014(c0, c1, c4 cr.E2) cr.E12 {
	return cr.E12{C0: cr.E6{B0: c0, B1: c1}, C1: cr.E6{B1: c4}}
}

func ext12of(api fe.Engine) interface {
	Mul(x, y *bls.E12) *bls.E12
	Square(x *bls.E12) *bls.E12
	Conjugate(x *bls.E12) *bls.E12
	Inverse(x *bls.E12) *bls.E12
	Frobenius(x *bls.E12) *bls.E12
	FrobeniusSquare(x *bls.E12) *bls.E12
	FrobeniusCube(x *bls.E12) *bls.E12
	CyclotomicSquare(x *bls.E12) *bls.E12
	CyclotomicSquareCompressed(z, x *bls.E12) *bls.E12
	DecompressKarabina(x bls.E12) *bls.E12
	Expt(x *bls.E12) *bls.E12
	ExptHalf(x *bls.E12) *bls.E12
	One() *bls.E12
	MulBy034(z *bls.E12, c0, c3, c4 *bls.E2) *bls.E12
	MulBy034by034(d0, d3, d4, c0, c3, c4 *bls.E2) *bls.E12
	Mul014By014(d0, d1, d4, c0, c1, c4 *bls.E2) *bls.E12
	AssertIsEqual(x, y *bls.E12)
	AssertC0IsEqual(x, y *bls.E12)
} {
	return bls.NewExt12(field(api))
}

func e2s(api fe.Engine, g *arg) (r [6]*bls.E2) {
	for i := range r {
		r[i] = in2(api, &g.e2[i], g.how)
	}
	return r
}

// frob is x^(p^k).
func frob(x cr.E12, k int) cr.E12 {
	var r cr.E12
	r.Exp(x, new(big.Int).Exp(P, big.NewInt(int64(k)), nil))
	return r
}

func ops12() []op[cr.E12, bls.E12] {
	type O = op[cr.E12, bls.E12]
	return []O{
		{"Mul", 2, nil, v12(func(z *cr.E12, a []cr.E12, _ *arg) { z.Mul(&a[0], &a[1]) }),
			func(api fe.Engine, e env, a []*bls.E12, _ *arg) *bls.E12 { return ext12of(api).Mul(a[0], a[1]) }},
		{"Square", 1, nil, v12(func(z *cr.E12, a []cr.E12, _ *arg) { z.Mul(&a[0], &a[0]) }),
			func(api fe.Engine, e env, a []*bls.E12, _ *arg) *bls.E12 { return ext12of(api).Square(a[0]) }},
		{"Conjugate", 1, nil, v12(func(z *cr.E12, a []cr.E12, _ *arg) { z.C0 = a[0].C0; z.C1.Neg(&a[0].C1) }),
			func(api fe.Engine, e env, a []*bls.E12, _ *arg) *bls.E12 { return ext12of(api).Conjugate(a[0]) }},
		{"Inverse", 1, func(a []cr.E12) bool { return a[0].IsZero() }, v12(func(z *cr.E12, a []cr.E12, _ *arg) { z.Inverse(&a[0]) }),
			func(api fe.Engine, e env, a []*bls.E12, _ *arg) *bls.E12 { return ext12of(api).Inverse(a[0]) }},
		{"Frobenius", 1, nil, v12(func(z *cr.E12, a []cr.E12, _ *arg) { *z = frob(a[0], 1) }),
			func(api fe.Engine, e env, a []*bls.E12, _ *arg) *bls.E12 { return ext12of(api).Frobenius(a[0]) }},
		{"FrobeniusSquare", 1, nil, v12(func(z *cr.E12, a []cr.E12, _ *arg) { *z = frob(a[0], 2) }),
			func(api fe.Engine, e env, a []*bls.E12, _ *arg) *bls.E12 { return ext12of(api).FrobeniusSquare(a[0]) }},
		{"FrobeniusCube", 1, nil, v12(func(z *cr.E12, a []cr.E12, _ *arg) { *z = frob(a[0], 3) }),
			func(api fe.Engine, e env, a []*bls.E12, _ *arg) *bls.E12 { return ext12of(api).FrobeniusCube(a[0]) }},
		{"MulBy034", 1, nil, v12(func(z *cr.E12, a []cr.E12, g *arg) { s := sparse034(g.e2[0], g.e2[1], g.e2[2]); z.Mul(&a[0], &s) }),
			func(api fe.Engine, e env, a []*bls.E12, g *arg) *bls.E12 {
				s := e2s(api, g)
				return ext12of(api).MulBy034(a[0], s[0], s[1], s[2])
			}},
		{"MulBy014", 1, nil, v12(func(z *cr.E12, a []cr.E12, g *arg) { s := sparse014(g.e2[0], g.e2[1], g.e2[2]); z.Mul(&a[0], &s) }),
			func(api fe.Engine, e env, a []*bls.E12, g *arg) *bls.E12 {
				s := e2s(api, g)
				return e.pr.MulBy014(a[0], s[0], s[1], s[2])
			}},
		{"MulBy034by034", 0, nil, v12(func(z *cr.E12, a []cr.E12, g *arg) {
			s, t := sparse034(g.e2[0], g.e2[1], g.e2[2]), sparse034(g.e2[3], g.e2[4], g.e2[5])
			z.Mul(&s, &t)
		}),
			func(api fe.Engine, e env, a []*bls.E12, g *arg) *bls.E12 {
				s := e2s(api, g)
				return ext12of(api).MulBy034by034(s[0], s[1], s[2], s[3], s[4], s[5])
			}},
		{"Mul014By014", 0, nil, v12(func(z *cr.E12, a []cr.E12, g *arg) {
			s, t := sparse014(g.e2[0], g.e2[1], g.e2[2]), sparse014(g.e2[3], g.e2[4], g.e2[5])
			z.Mul(&s, &t)
		}),
			func(api fe.Engine, e env, a []*bls.E12, g *arg) *bls.E12 {
				s := e2s(api, g)
				return ext12of(api).Mul014By014(s[0], s[1], s[2], s[3], s[4], s[5])
			}},
		{"One", 0, nil, v12(func(z *cr.E12, a []cr.E12, _ *arg) { z.SetOne() }),
			func(api fe.Engine, e env, a []*bls.E12, _ *arg) *bls.E12 { return ext12of(api).One() }},
	}
}

// program draws a straight-line program over a pool of values, runs it in the reference and in the circuit, and
// compares every value it made.
func program[V, W any](rt *rapid.T, c *vh.Case, name string, ops []op[V, W], maxLen int, draw func(rt *rapid.T, l string) V,
	in func(api fe.Engine, v *V, how int) *W, out func(api fe.Engine, w *W) V, show func(v *V) string) {
	k := drawKind(rt)
	type step struct {
		op  *op[V, W]
		src []int
		g   *arg
	}
	n := rapid.IntRange(1, 3).Draw(rt, "inputs")
	var pool []V
	var hows []int
	for i := 0; i < n; i++ {
		pool = append(pool, draw(rt, "in"))
		hows = append(hows, drawHow(rt, "how"))
	}
	inputs := append([]V{}, pool...)
	var steps []step
	desc := ""
	m := rapid.IntRange(1, maxLen).Draw(rt, "steps")
	for i := 0; i < m; i++ {
		s := step{op: &ops[vh.Even(0, len(ops)-1).Draw(rt, "op")], g: &arg{}}
		var a []V
		for j := 0; j < s.op.arity; j++ {
			x := len(pool) - 1 - rapid.IntRange(0, min(len(pool)-1, 4)).Draw(rt, "operand")
			s.src = append(s.src, x)
			a = append(a, pool[x])
		}
		if s.op.bad != nil && s.op.bad(a) {
			continue
		}
		s.g.how = drawHow(rt, "argHow")
		s.g.bit = rapid.IntRange(0, 1).Draw(rt, "bit")
		s.g.fp = drawFp(rt, "argFp")
		sd := rapid.Uint64().Draw(rt, "argSeed")
		for j := range s.g.e2 {
			b := vh.Expand(sd+uint64(j), 100)
			s.g.e2[j].A0.SetBytes(b[:50])
			s.g.e2[j].A1.SetBytes(b[50:])
			if b[0] < 40 {
				s.g.e2[j].SetZero()
			}
		}
		pool = append(pool, s.op.want(a, s.g))
		steps = append(steps, s)
		desc += fmt.Sprintf(" %d=%s%v", len(pool)-1, s.op.name, s.src)
		c.Label("%s %s", name, s.op.name)
	}
	if len(steps) > 0 {
		c.Nontrivial(name, k, hows, desc, inputs)
	}
	if len(steps) > 2 {
		c.Sample("%s over native field %d: inputs %v (as %v) then%s", name, k, show(&inputs[0]), hows, desc)
	}
	got := make([]V, len(pool))
	err := fe.Run(k, func(api fe.Engine) {
		e := newEnv(api)
		var ws []*W
		for i := range inputs {
			ws = append(ws, in(api, &inputs[i], hows[i]))
		}
		for _, s := range steps {
			var a []*W
			for _, x := range s.src {
				a = append(a, ws[x])
			}
			ws = append(ws, s.op.circ(api, e, a, s.g))
		}
		for i := range ws {
			got[i] = out(api, ws[i])
		}
	})
	vh.Accept(rt, err, "%s program%s", name, desc)
	for i := range pool {
		if fmt.Sprint(show(&got[i])) != fmt.Sprint(show(&pool[i])) {
			rt.Fatalf("valid %s program%s: value %d is %s, want %s", name, desc, i, show(&got[i]), show(&pool[i]))
		}
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func TestC23_e2(t *testing.T) {
	ops := ops2()
	vh.Check(t, 1200, 60000, func(rt *rapid.T, c *vh.Case) {
		program(rt, c, "E2", ops, 10, draw2, in2, func(api fe.Engine, w *bls.E2) cr.E2 { return out2(api, w) }, func(v *cr.E2) string { return v.String() })
	})
}

func TestC23_e6(t *testing.T) {
	ops := ops6()
	vh.Check(t, 500, 25000, func(rt *rapid.T, c *vh.Case) {
		program(rt, c, "E6", ops, 8, draw6, in6, out6p, func(v *cr.E6) string { return v.String() })
	})
}

func out6p(api fe.Engine, w *bls.E6) cr.E6    { return out6(api, w) }
func out12p(api fe.Engine, w *bls.E12) cr.E12 { return out12(api, w) }

func TestC23_e12(t *testing.T) {
	ops := ops12()
	vh.Check(t, 300, 15000, func(rt *rapid.T, c *vh.Case) {
		program(rt, c, "E12", ops, 6, draw12, in12, out12p, func(v *cr.E12) string { return v.String() })
	})
}

// Operations that are only defined on the cyclotomic subgroup.
func TestC23_cyclotomic(t *testing.T) {
	vh.Check(t, 90, 4000, func(rt *rapid.T, c *vh.Case) {
		k := drawKind(rt)
		x := cyclotomic(draw12(rt, "x"))
		if rapid.IntRange(0, 9).Draw(rt, "one") == 0 {
			x.SetOne()
		}
		n := rapid.IntRange(1, 4).Draw(rt, "squarings")
		fn := vh.OneOf([]string{"square", "square", "compressed", "compressed", "half", "expt"}).Draw(rt, "op")
		if fn == "half" || fn == "expt" {
			n = 0
		}
		how := drawHow(rt, "how")
		c.Nontrivial(k, fn, n, how, x)
		c.Label("%s", fn)
		if x.IsOne() {
			c.Label("one")
		}
		c.Sample("%s x%d over native field %d of %s", fn, n, k, x.String())
		var want, got cr.E12
		switch fn {
		case "half":
			want.Exp(x, new(big.Int).Rsh(X0, 1))
			want.Inverse(&want)
		case "expt":
			want.Exp(x, X0)
			want.Inverse(&want)
		default:
			want.Exp(x, new(big.Int).Lsh(big.NewInt(1), uint(n)))
		}
		err := fe.Run(k, func(api fe.Engine) {
			e := ext12of(api)
			w := in12(api, &x, how)
			switch fn {
			case "half":
				w = e.ExptHalf(w)
			case "expt":
				w = e.Expt(w)
			case "square":
				for i := 0; i < n; i++ {
					w = e.CyclotomicSquare(w)
				}
			case "compressed":
				for i := 0; i < n; i++ {
					w = e.CyclotomicSquareCompressed(w, w)
				}
				w = e.DecompressKarabina(*w)
			}
			got = out12(api, w)
		})
		vh.Accept(rt, err, "cyclotomic %s x%d of %s", fn, n, x.String())
		if !got.Equal(&want) {
			rt.Fatalf("valid cyclotomic %s x%d of %s gives %s, want %s", fn, n, x.String(), got.String(), want.String())
		}
	})
}

// Equality assertions accept exactly equal values, whatever their representation.
func TestC23_equal(t *testing.T) {
	vh.Check(t, 600, 20000, func(rt *rapid.T, c *vh.Case) {
		k := drawKind(rt)
		lvl := vh.OneOf([]string{"E2", "E6", "E12", "C0"}).Draw(rt, "level")
		x, d := draw12(rt, "x"), cr.E12{}
		coords := func(v *cr.E12) []*fp.Element {
			var r []*fp.Element
			for _, b := range []*cr.E6{&v.C0, &v.C1} {
				for _, a := range []*cr.E2{&b.B0, &b.B1, &b.B2} {
					r = append(r, &a.A0, &a.A1)
				}
			}
			return r
		}
		size := map[string]int{"E2": 2, "E6": 6, "E12": 12, "C0": 6}[lvl]
		// the values are x and x+d-d' with lazily reduced arithmetic in between
		differ := rapid.Bool().Draw(rt, "differ")
		pos := rapid.IntRange(0, 11).Draw(rt, "pos")
		if differ {
			coords(&d)[pos].SetUint64(uint64(rapid.IntRange(1, 3).Draw(rt, "by")))
		}
		z := draw12(rt, "z")
		how, how2 := drawHow(rt, "how"), drawHow(rt, "how2")
		if how == asConstant && how2 == asConstant {
			how = asWitness
		}
		var y cr.E12
		y.Add(&x, &d)
		equal := !differ || pos >= size
		c.Nontrivial(k, lvl, x, y, z, how, how2)
		c.Label("%s equal=%v", lvl, equal)
		c.Sample("%s over native field %d, coordinate %d differs: %v; x=%s", lvl, k, pos, differ, x.String())
		err := fe.Run(k, func(api fe.Engine) {
			e := ext12of(api)
			e6 := ext6of(api)
			e2 := bls.NewExt2(field(api))
			a, b, w := in12(api, &x, how), in12(api, &y, how2), in12(api, &z, asWitness)
			if how == asWitness {
				a = &bls.E12{C0: *e6.Sub(e6.Add(&a.C0, &w.C0), &w.C0), C1: *e6.Add(e6.Sub(&a.C1, &w.C1), &w.C1)}
			}
			switch lvl {
			case "E2":
				e2.AssertIsEqual(&a.C0.B0, &b.C0.B0)
			case "E6":
				e6.AssertIsEqual(&a.C0, &b.C0)
			case "E12":
				e.AssertIsEqual(a, b)
			case "C0":
				e.AssertC0IsEqual(a, b)
			}
		})
		if equal {
			vh.Accept(rt, err, "%s equality of %s and %s", lvl, x.String(), y.String())
		} else {
			vh.Reject(rt, err, "%s equality of %s and %s", lvl, x.String(), y.String())
		}
	})
}

// Zero and one tests of base field and E2 elements.
func TestC23_predicates(t *testing.T) {
	vh.Check(t, 900, 30000, func(rt *rapid.T, c *vh.Case) {
		k := drawKind(rt)
		x := draw2(rt, "x")
		y := x
		switch rapid.IntRange(0, 5).Draw(rt, "y") {
		case 0:
			y = draw2(rt, "y")
		case 1:
			y.A0.Add(&y.A0, new(fp.Element).SetUint64(1<<uint(vh.Even(0, 63).Draw(rt, "bit"))))
		case 2:
			y.A1.Neg(&y.A1)
		}
		switch vh.Even(0, 7).Draw(rt, "special") {
		case 0:
			x.SetZero()
		case 1:
			x.SetOne()
		case 2:
			x.A0.SetOne()
		case 3:
			x.A0.SetZero()
		case 4:
			x.A1.SetZero()
		}
		how, how2 := drawHow(rt, "how"), drawHow(rt, "how2")
		lazy := rapid.IntRange(0, 2).Draw(rt, "lazy")
		z := draw2(rt, "z")
		lie := rapid.IntRange(0, 2).Draw(rt, "dishonest") == 0
		which := vh.Even(0, 1<<16).Draw(rt, "which")
		c.Nontrivial(k, x, y, z, how, how2, lazy, lie)
		c.Label("x zero=%v one=%v equal=%v", x.IsZero(), x.IsOne(), x.Equal(&y))
		if lie {
			c.Label("dishonest remainders")
		}
		c.Sample("native field %d, x=%s y=%s, as %d %d, lazily reduced %d, dishonest %v", k, x.String(), y.String(), how, how2, lazy, lie)
		names := []string{"E2NotZero", "E2NotEqual", "E2NotOne", "G1NotZero", "G1NotEqual", "G1NotEqualOne", "G2AffineNotInfinity"}
		var zero, one fp.Element
		one.SetOne()
		b := func(v bool) int64 {
			if v {
				return 1
			}
			return 0
		}
		want := []int64{b(!x.IsZero()), b(!x.Equal(&y)), b(!x.IsOne()), b(!x.A0.Equal(&zero)), b(!x.A0.Equal(&y.A0)), b(!x.A0.Equal(&one)), b(!x.IsZero() || !y.IsZero())}
		sel := vh.Even(0, len(names)-1).Draw(rt, "predicate")
		var got *big.Int
		changed := false
		var hook fe.HintHook
		if lie {
			hook = remLie(which, &changed)
		}
		err := fe.RunHook(k, hook, func(api fe.Engine) {
			e2 := bls.NewExt2(field(api))
			vx, vy := in2(api, &x, how), in2(api, &y, how2)
			vz := in2(api, &z, asWitness)
			switch lazy {
			case 1:
				vx = e2.Sub(e2.Add(vx, vz), vz)
			case 2:
				vx, vy = e2.Add(vx, vz), e2.Add(vy, vz)
				vx, vy = e2.Sub(vx, vz), e2.Sub(vy, vz)
			}
			var v frontend.Variable
			switch sel {
			case 0:
				v = bls.E2NotZero(api, *vx)
			case 1:
				v = bls.E2NotEqual(api, *vx, *vy)
			case 2:
				v = bls.E2NotOne(api, *vx)
			case 3:
				v = bls.G1NotZero(api, vx.A0)
			case 4:
				v = bls.G1NotEqual(api, vx.A0, vy.A0)
			case 5:
				v = bls.G1NotEqualOne(api, vx.A0)
			case 6:
				v = bls.G2AffineNotInfinity(api, &bls.G2Affine{X: *vx, Y: *vy})
			}
			got = api.Big(v)
		})
		loose := changed || how == asLong || how2 == asLong
		if loose && err != nil && fe.IsUnsat(err) {
			return // a value written with the modulus added may be refused, never misjudged
		}
		vh.Accept(rt, err, "%s of %s, %s", names[sel], x.String(), y.String())
		if got.Cmp(big.NewInt(want[sel])) != 0 {
			rt.Fatalf("invalid answer proved: %s of %s, %s (inputs as %d, %d; dishonest prover %v) gives %v, want %d", names[sel], x.String(), y.String(), how, how2, changed, got, want[sel])
		}
	})
}
