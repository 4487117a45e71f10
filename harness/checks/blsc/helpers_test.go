package blsc

import (
	"math/big"
	"reflect"
	"runtime"
	"strings"
	"testing"

	bls "github.com/brevis-network/zk-utils/circuits/gadgets/pairing_bls12381"
	cr "github.com/consensys/gnark-crypto/ecc/bls12-381"
	"github.com/consensys/gnark-crypto/ecc/bls12-381/fp"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/std/math/emulated"
	"pgregory.net/rapid"

	"vharness/fe"
	"vharness/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

var (
	P = fp.Modulus()
	R = cr.ID.ScalarField()
	// the curve parameter is -X0
	X0 = new(big.Int).SetUint64(0xd201000000010000)
)

type el = emulated.Element[bls.BLS12381Fp]

func drawKind(rt *rapid.T) fe.Kind {
	return vh.OneOf([]fe.Kind{fe.BN254, fe.BN254, fe.BN254, fe.BN254, fe.BLS12377, fe.BLS12381, fe.BW6761}).Draw(rt, "native")
}

func field(api fe.Engine) *emulated.Field[bls.BLS12381Fp] {
	f, err := emulated.NewField[bls.BLS12381Fp](api)
	if err != nil {
		panic(err)
	}
	return f
}

// How a value enters the circuit.
const (
	asWitness = iota
	asConstant
	asLong // a witness with the modulus added, where that still fits
)

func limbs(v *big.Int) []*big.Int {
	out := make([]*big.Int, 6)
	mask := new(big.Int).SetUint64(^uint64(0))
	for i := range out {
		out[i] = new(big.Int).And(new(big.Int).Rsh(v, uint(64*i)), mask)
	}
	return out
}

func inEl(api fe.Engine, x *fp.Element, how int) el {
	v := x.BigInt(new(big.Int))
	switch how {
	case asConstant:
		return emulated.ValueOf[bls.BLS12381Fp](v)
	case asLong:
		if w := new(big.Int).Add(v, P); w.BitLen() <= 381 {
			v = w
		}
	}
	return *field(api).NewElement(vh.Vars(api, limbs(v)))
}

func outEl(api fe.Engine, e *el) fp.Element {
	s := new(big.Int)
	for i := len(e.Limbs) - 1; i >= 0; i-- {
		s.Lsh(s, 64)
		s.Add(s, api.Big(e.Limbs[i]))
	}
	var r fp.Element
	r.SetBigInt(s.Mod(s, P))
	return r
}

func in2(api fe.Engine, x *cr.E2, how int) *bls.E2 {
	return &bls.E2{A0: inEl(api, &x.A0, how), A1: inEl(api, &x.A1, how)}
}
func in6(api fe.Engine, x *cr.E6, how int) *bls.E6 {
	return &bls.E6{B0: *in2(api, &x.B0, how), B1: *in2(api, &x.B1, how), B2: *in2(api, &x.B2, how)}
}
func in12(api fe.Engine, x *cr.E12, how int) *bls.E12 {
	if how == asConstant {
		r := bls.NewGTEl(*x)
		return &r
	}
	return &bls.E12{C0: *in6(api, &x.C0, how), C1: *in6(api, &x.C1, how)}
}
func out2(api fe.Engine, x *bls.E2) cr.E2 {
	return cr.E2{A0: outEl(api, &x.A0), A1: outEl(api, &x.A1)}
}
func out6(api fe.Engine, x *bls.E6) cr.E6 {
	return cr.E6{B0: out2(api, &x.B0), B1: out2(api, &x.B1), B2: out2(api, &x.B2)}
}
func out12(api fe.Engine, x *bls.E12) cr.E12 {
	return cr.E12{C0: out6(api, &x.C0), C1: out6(api, &x.C1)}
}

func drawFp(rt *rapid.T, label string) fp.Element {
	var r fp.Element
	switch rapid.IntRange(0, 5).Draw(rt, label+"Kind") {
	case 0:
		r.SetUint64(vh.OneOf([]uint64{0, 0, 1, 2, 3, 1 << 63, ^uint64(0)}).Draw(rt, label+"Small"))
		if rapid.IntRange(0, 2).Draw(rt, label+"Neg") == 0 {
			r.Neg(&r)
		}
	case 1:
		r.SetBigInt(vh.BigBelow(rt, label, P))
	default:
		r.SetBigInt(new(big.Int).SetBytes(vh.RandBytes(rt, label, 56)))
	}
	return r
}

func draw2(rt *rapid.T, label string) cr.E2 {
	return cr.E2{A0: drawFp(rt, label+"0"), A1: drawFp(rt, label+"1")}
}

func draw6(rt *rapid.T, label string) cr.E6 {
	r := cr.E6{B0: draw2(rt, label+"0"), B1: draw2(rt, label+"1"), B2: draw2(rt, label+"2")}
	// sparse values
	m := vh.OneOf([]int{7, 7, 7, 7, 1, 2, 4, 3, 6, 5, 0}).Draw(rt, label+"Sparse")
	for i, p := range []*cr.E2{&r.B0, &r.B1, &r.B2} {
		if m>>i&1 == 0 {
			p.SetZero()
		}
	}
	return r
}

func draw12(rt *rapid.T, label string) cr.E12 {
	return cr.E12{C0: draw6(rt, label+"0"), C1: draw6(rt, label+"1")}
}

func drawHow(rt *rapid.T, label string) int {
	return vh.OneOf([]int{asWitness, asWitness, asWitness, asWitness, asConstant, asLong}).Draw(rt, label)
}

// cyclotomic maps a non-zero value to the cyclotomic subgroup: x^((p^6-1)(p^2+1)).
func cyclotomic(x cr.E12) cr.E12 {
	if x.IsZero() {
		x.SetOne()
	}
	var a, b, r cr.E12
	a.Conjugate(&x)
	b.Inverse(&x)
	a.Mul(&a, &b)
	b.Exp(a, new(big.Int).Mul(P, P))
	r.Mul(&a, &b)
	return r
}

// remLie makes a dishonest prover return remainders with the modulus added wherever that fits their limbs; the
// quotient and the carries are made to match, so that every multiplication still checks.
func remLie(which int, changed *bool) fe.HintHook {
	n := 0
	return func(f solver.Hint, in, out []*big.Int) {
		name := runtime.FuncForPC(reflect.ValueOf(f).Pointer()).Name()
		if !strings.HasSuffix(name, "emulated.mulHint") || in[1].Int64() != 6 || in[0].Int64() != 64 {
			return
		}
		n++
		if which&1 == 1 && n != 1+which/2%12 {
			return
		}
		nq := (len(out) - 10) / 2
		val := func(l []*big.Int) *big.Int {
			s := new(big.Int)
			for i := len(l) - 1; i >= 0; i-- {
				s.Lsh(s, 64)
				s.Add(s, l[i])
			}
			return s
		}
		quo, rem := val(out[:nq]), val(out[nq:nq+6])
		rem.Add(rem, P)
		if quo.Sign() == 0 || rem.BitLen() > 381 {
			return
		}
		quo.Sub(quo, big.NewInt(1))
		mask := new(big.Int).SetUint64(^uint64(0))
		put := func(v *big.Int, l []*big.Int) {
			for i := range l {
				l[i] = new(big.Int).And(new(big.Int).Rsh(v, uint(64*i)), mask)
			}
		}
		put(quo, out[:nq])
		put(rem, out[nq:nq+6])
		p, a, b := in[2:8], in[8:14], in[14:20]
		d := make([]*big.Int, nq+5)
		for i := range d {
			d[i] = new(big.Int)
		}
		var t big.Int
		for i := 0; i < 6; i++ {
			for j := 0; j < 6; j++ {
				d[i+j].Add(d[i+j], t.Mul(a[i], b[j]))
			}
			d[i].Sub(d[i], out[nq+i])
			for j := 0; j < nq; j++ {
				d[i+j].Sub(d[i+j], t.Mul(out[j], p[i]))
			}
		}
		carry := new(big.Int)
		for i := range out[nq+6:] {
			carry.Add(carry, d[i])
			carry.Rsh(carry, 64)
			out[nq+6+i] = new(big.Int).Set(carry)
		}
		*changed = true
	}
}
