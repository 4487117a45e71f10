package blsc

import (
	"fmt"
	"math/big"
	"testing"

	bls "github.com/brevis-network/zk-utils/circuits/gadgets/pairing_bls12381"
	cr "github.com/consensys/gnark-crypto/ecc/bls12-381"
	"pgregory.net/rapid"

	"vharness/fe"
	"vharness/vh"
)

var _, _, g1aff, _ = cr.Generators()

func mulG1(p cr.G1Affine, k *big.Int) cr.G1Affine {
	var r cr.G1Affine
	r.ScalarMultiplication(&p, new(big.Int).Mod(k, R))
	return r
}

func inG1(api fe.Engine, p *cr.G1Affine, how int) *bls.G1Affine {
	if how == asConstant {
		r := bls.NewG1Affine(*p)
		return &r
	}
	return &bls.G1Affine{X: inEl(api, &p.X, how), Y: inEl(api, &p.Y, how)}
}

func drawScalar(rt *rapid.T, label string) *big.Int {
	switch rapid.IntRange(0, 4).Draw(rt, label+"Kind") {
	case 0:
		return big.NewInt(int64(rapid.IntRange(1, 5).Draw(rt, label)))
	case 1:
		s := new(big.Int).Sub(R, big.NewInt(int64(rapid.IntRange(1, 5).Draw(rt, label))))
		return s
	}
	s := new(big.Int).SetBytes(vh.RandBytes(rt, label, 40))
	s.Mod(s, new(big.Int).Sub(R, big.NewInt(1)))
	return s.Add(s, big.NewInt(1))
}

type pairs struct {
	p    []cr.G1Affine
	q    []cr.G2Affine
	what string
}

// drawPairs draws inputs of a pairing product, often with a known algebraic relation.
func drawPairs(rt *rapid.T) pairs {
	var r pairs
	add := func(a, b *big.Int) {
		r.p = append(r.p, mulG1(g1aff, a))
		r.q = append(r.q, mulAff(g2aff, b))
	}
	a, b := drawScalar(rt, "a"), drawScalar(rt, "b")
	neg := func(x *big.Int) *big.Int { return new(big.Int).Sub(R, x) }
	r.what = vh.OneOf([]string{"one", "one", "one", "two", "three", "cancelP", "cancelQ", "bilinear", "infinityP", "infinityP2"}).Draw(rt, "shape")
	switch r.what {
	case "one":
		add(a, b)
	case "two":
		add(a, b)
		add(drawScalar(rt, "c"), drawScalar(rt, "d"))
	case "three":
		add(a, b)
		add(drawScalar(rt, "c"), drawScalar(rt, "d"))
		add(drawScalar(rt, "e"), drawScalar(rt, "f"))
	case "cancelP":
		add(a, b)
		add(neg(a), b)
	case "cancelQ":
		add(a, b)
		add(a, neg(b))
	case "bilinear": // e(aG, bH) e(-abG, H) = 1
		add(a, b)
		add(neg(new(big.Int).Mod(new(big.Int).Mul(a, b), R)), big.NewInt(1))
	case "infinityP":
		add(a, b)
		r.p[0] = cr.G1Affine{}
	case "infinityP2":
		add(a, b)
		add(b, a)
		r.p[rapid.IntRange(0, 1).Draw(rt, "where")] = cr.G1Affine{}
	}
	return r
}

func (r pairs) in(api fe.Engine, how int) (p []*bls.G1Affine, q []*bls.G2Affine) {
	for i := range r.p {
		p = append(p, inG1(api, &r.p[i], how))
		x := inG2(api, &r.q[i], how)
		q = append(q, &x)
	}
	return
}

// The pairing product, against gnark-crypto.
func TestC25_pair(t *testing.T) {
	vh.Check(t, 24, 1000, func(rt *rapid.T, c *vh.Case) {
		k := drawKind(rt)
		in := drawPairs(rt)
		how := vh.OneOf([]int{asWitness, asWitness, asWitness, asConstant}).Draw(rt, "how")
		fn := vh.OneOf([]string{"pair", "pair", "pair", "miller"}).Draw(rt, "fn")
		c.Nontrivial(k, fmt.Sprint(in.p, in.q), how, fn)
		c.Label("%s %s", fn, in.what)
		c.Sample("%s of %s over native field %d: P %v Q %v", fn, in.what, k, in.p[0].String(), in.q[0].String())
		want, err := cr.Pair(in.p, in.q)
		if err != nil {
			rt.Fatalf("harness: %v", err)
		}
		if one := in.what == "cancelP" || in.what == "cancelQ" || in.what == "bilinear" || in.what == "infinityP"; one != want.IsOne() {
			rt.Fatalf("harness: %s", in.what)
		}
		var got cr.E12
		err = fe.Run(k, func(api fe.Engine) {
			p, q := in.in(api, how)
			pr := newEnv(api).pr
			var r *bls.GTEl
			var err error
			if fn == "pair" {
				r, err = pr.Pair(p, q)
			} else {
				r, err = pr.MillerLoop(p, q)
			}
			if err != nil {
				panic(err)
			}
			got = out12(api, r)
		})
		vh.Accept(rt, err, "%s of %s", fn, in.what)
		if fn == "miller" {
			got = cr.FinalExponentiation(&got)
		}
		if !got.Equal(&want) {
			rt.Fatalf("valid %s of %s %v %v gives %s, want %s", fn, in.what, in.p, in.q, got.String(), want.String())
		}
	})
}

// A prover choosing unreduced remainders cannot change the value of a pairing nor prove another one.
func TestC25_claims(t *testing.T) {
	vh.Check(t, 12, 400, func(rt *rapid.T, c *vh.Case) {
		k := drawKind(rt)
		in := drawPairs(rt)
		want, err := cr.Pair(in.p, in.q)
		if err != nil {
			rt.Fatalf("harness: %v", err)
		}
		claim := want
		what := vh.OneOf([]string{"right", "right", "tampered", "inverse", "swapped", "zero", "power"}).Draw(rt, "claim")
		switch what {
		case "tampered":
			parts := []*cr.E2{&claim.C0.B0, &claim.C0.B1, &claim.C0.B2, &claim.C1.B0, &claim.C1.B1, &claim.C1.B2}
			x := parts[rapid.IntRange(0, 5).Draw(rt, "part")]
			d := drawFp(rt, "delta")
			if rapid.Bool().Draw(rt, "half") {
				x.A0.Add(&x.A0, &d)
			} else {
				x.A1.Add(&x.A1, &d)
			}
		case "inverse":
			claim.Conjugate(&claim)
		case "swapped":
			claim.C0, claim.C1 = claim.C1, claim.C0
		case "zero":
			claim = cr.E12{}
		case "power":
			claim.Square(&claim)
		}
		good := claim.Equal(&want)
		lie := rapid.IntRange(0, 2).Draw(rt, "lie") == 0
		which := vh.Even(0, 23).Draw(rt, "which")
		changed := false
		var hook fe.HintHook
		if lie {
			hook = remLie(which, &changed)
		}
		c.Nontrivial(k, fmt.Sprint(in.p, in.q), claim.String(), lie, which)
		c.Label("%s claim, good %v, lying prover %v", what, good, lie)
		c.Sample("%s claim on %s, lying prover %v: P %v", what, in.what, lie, in.p[0].String())
		err = fe.RunHook(k, hook, func(api fe.Engine) {
			p, q := in.in(api, asWitness)
			pr := newEnv(api).pr
			r, err := pr.Pair(p, q)
			if err != nil {
				panic(err)
			}
			pr.AssertIsEqual(r, in12(api, &claim, asWitness))
		})
		if good && !changed {
			vh.Accept(rt, err, "right claim on %s", in.what)
		} else if !good {
			vh.Reject(rt, err, "%s claim on the pairing %s, lying prover %v", what, in.what, lie)
		} else if err != nil && !fe.IsUnsat(err) {
			rt.Fatalf("crash instead of an unsatisfied constraint: %v", err)
		}
	})
}

// The final exponentiation alone, on any invertible value.
func TestC25_finalExp(t *testing.T) {
	vh.Check(t, 24, 1000, func(rt *rapid.T, c *vh.Case) {
		k := drawKind(rt)
		x := draw12(rt, "x")
		what := "any"
		switch rapid.IntRange(0, 5).Draw(rt, "special") {
		case 0:
			x, what = cyclotomic(x), "cyclotomic"
		case 1:
			x.C1 = cr.E6{}
			what = "in Fp6"
		case 2:
			x.SetOne()
			what = "one"
		}
		if x.IsZero() {
			return
		}
		how := drawHow(rt, "how")
		c.Nontrivial(k, x.String(), how)
		c.Label("%s", what)
		c.Sample("%s %s", what, x.String())
		want := cr.FinalExponentiation(&x)
		var got cr.E12
		err := fe.Run(k, func(api fe.Engine) {
			got = out12(api, newEnv(api).pr.FinalExponentiation(in12(api, &x, how)))
		})
		if how == asLong && fe.IsUnsat(err) {
			return
		}
		vh.Accept(rt, err, "final exponentiation of %s", x.String())
		if !got.Equal(&want) {
			rt.Fatalf("valid final exponentiation of %s gives %s, want %s", x.String(), got.String(), want.String())
		}
	})
}

// Sizes that do not match are an error, for any combination.
func TestC25_sizes(t *testing.T) {
	vh.Sweep(t, 25, func(t *testing.T, c *vh.Case, i int) {
		n, m := i/5, i%5
		if n == m && n != 0 {
			return
		}
		c.Nontrivial(n, m)
		c.Label("mismatch")
		c.Sample("%d against %d points", n, m)
		fe.Run(fe.BN254, func(api fe.Engine) {
			p, q := make([]*bls.G1Affine, n), make([]*bls.G2Affine, m)
			for i := range p {
				p[i] = inG1(api, &g1aff, asWitness)
			}
			for i := range q {
				x := inG2(api, &g2aff, asWitness)
				q[i] = &x
			}
			pr := newEnv(api).pr
			if _, err := pr.Pair(p, q); err == nil {
				t.Fatalf("invalid sizes %d and %d accepted by Pair", n, m)
			}
			if _, err := pr.MillerLoop(p, q); err == nil {
				t.Fatalf("invalid sizes %d and %d accepted by MillerLoop", n, m)
			}
		})
	})
}
