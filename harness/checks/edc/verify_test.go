package edc

import (
	"crypto/ed25519"
	"crypto/sha512"
	"math/big"
	"reflect"
	"runtime"
	"strings"
	"testing"

	ed "github.com/brevis-network/zk-utils/circuits/gadgets/ed25519"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/emulated"
	"pgregory.net/rapid"

	"vharness/edref"
	"vharness/fe"
	"vharness/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

const msgLen = 122

// a signature to verify in a circuit
type sigCase struct {
	r, a edref.Pt
	s    *big.Int
	msg  []byte
	pub  []byte  // the public key as declared
	over [4]bool // write R.X, R.Y, A.X, A.Y with the field modulus added
}

func (g sigCase) define(api fe.Engine) { g.run(api, -1, -1) }

// defineWide adds a bit above the packing of a message or key element.
func (g sigCase) defineWide(api fe.Engine, key bool, i int) {
	if key {
		g.run(api, -1, i%2)
	} else {
		g.run(api, i, -1)
	}
}

func (g sigCase) run(api fe.Engine, wideMsg, wideKey int) {
	el := func(v *big.Int) emulated.Element[ed.Ed25519Fp] {
		f, err := emulated.NewField[ed.Ed25519Fp](api)
		if err != nil {
			panic(err)
		}
		l := make([]*big.Int, 5)
		mask := new(big.Int).SetUint64(1<<51 - 1)
		for i := range l {
			l[i] = new(big.Int).And(new(big.Int).Rsh(v, uint(51*i)), mask)
		}
		return *f.NewElement(vh.Vars(api, l))
	}
	pt := func(p edref.Pt, overX, overY bool) ed.Point {
		return ed.Point{X: el(lifted(p.X, overX)), Y: el(lifted(p.Y, overY))}
	}
	var msg [5]frontend.Variable
	for i := range msg {
		end := 25 * (i + 1)
		if i == 4 {
			end = msgLen
		}
		v := new(big.Int).SetBytes(g.msg[25*i : end])
		if i == wideMsg {
			v.SetBit(v, 8*(end-25*i), 1)
		}
		msg[i] = api.Var(v)
	}
	var pub []frontend.Variable
	for i := 0; i < 2; i++ {
		v := new(big.Int).SetBytes(g.pub[16*i : 16*i+16])
		if i == wideKey {
			v.SetBit(v, 128, 1)
		}
		pub = append(pub, api.Var(v))
	}
	e, err := ed.NewEd25519(api)
	if err != nil {
		panic(err)
	}
	if err := e.Verify(pub, ed.Signature{R: pt(g.r, g.over[0], g.over[1]), S: api.Var(g.s)}, msg, ed.PublicKey{A: pt(g.a, g.over[2], g.over[3])}); err != nil {
		panic(err)
	}
}

func lifted(v *big.Int, over bool) *big.Int {
	if over {
		return new(big.Int).Add(v, edref.P)
	}
	return v
}

// encodeAs is the encoding of p computed from coordinates that are not reduced.
func encodeAs(p edref.Pt, overX, overY bool) []byte {
	b := edref.LE(lifted(p.Y, overY), 32)
	b[31] |= byte(lifted(p.X, overX).Bit(0)) << 7
	return b
}

// freeDiv answers divisions of zero by zero with v.
func freeDiv(v *big.Int, used *int) fe.Rescue {
	return func(f solver.Hint, in, out []*big.Int) bool {
		if !strings.HasSuffix(runtime.FuncForPC(reflect.ValueOf(f).Pointer()).Name(), "emulated.DivHint") {
			return false
		}
		*used++
		mask := new(big.Int).SetUint64(1<<51 - 1)
		for i := range out {
			out[i].And(new(big.Int).Rsh(v, uint(51*i)), mask)
		}
		return true
	}
}

// lieRem makes a dishonest prover return remainders with the modulus added wherever that fits.
func lieRem(which int, changed *int) fe.HintHook {
	n := 0
	return func(f solver.Hint, in, out []*big.Int) {
		if !strings.HasSuffix(runtime.FuncForPC(reflect.ValueOf(f).Pointer()).Name(), "emulated.mulHint") || in[1].Int64() != 5 {
			return
		}
		if n++; which&1 == 1 && n != 1+which/2%600 {
			return
		}
		nq := (len(out) - 8) / 2
		val := func(l []*big.Int) *big.Int {
			s := new(big.Int)
			for i := len(l) - 1; i >= 0; i-- {
				s.Lsh(s, 51)
				s.Add(s, l[i])
			}
			return s
		}
		p := in[2:7]
		m := val(p)
		quo, rem := val(out[:nq]), val(out[nq:nq+5])
		rem.Add(rem, m)
		if quo.Sign() == 0 || rem.BitLen() > m.BitLen() || len(in) != 17 {
			return
		}
		quo.Sub(quo, big.NewInt(1))
		mask := new(big.Int).SetUint64(1<<51 - 1)
		put := func(v *big.Int, l []*big.Int) {
			for i := range l {
				l[i] = new(big.Int).And(new(big.Int).Rsh(v, uint(51*i)), mask)
			}
		}
		put(quo, out[:nq])
		put(rem, out[nq:nq+5])
		a, b := in[7:12], in[12:17]
		d := make([]*big.Int, nq+4)
		for i := range d {
			d[i] = new(big.Int)
		}
		var t big.Int
		for i := 0; i < 5; i++ {
			for j := 0; j < 5; j++ {
				d[i+j].Add(d[i+j], t.Mul(a[i], b[j]))
			}
			d[i].Sub(d[i], out[nq+i])
			for j := 0; j < nq; j++ {
				d[i+j].Sub(d[i+j], t.Mul(out[j], p[i]))
			}
		}
		carry := new(big.Int)
		for i := range out[nq+5:] {
			carry.Add(carry, d[i])
			carry.Rsh(carry, 51)
			out[nq+5+i] = new(big.Int).Set(carry)
		}
		*changed++
	}
}

func decode(t vh.TB, b []byte) edref.Pt {
	y := edref.FromLE(b)
	p, ok := edref.FromY(y.SetBit(y, 255, 0), uint(b[31]>>7))
	if !ok {
		t.Fatalf("harness: decode %x", b)
	}
	return p
}

func drawMsg(rt *rapid.T) []byte {
	m := make([]byte, msgLen)
	switch rapid.IntRange(0, 5).Draw(rt, "msgKind") {
	case 0:
		for i := range m {
			m[i] = 255
		}
	case 1:
		m[vh.Even(0, msgLen-1).Draw(rt, "at")] = byte(vh.Even(1, 255).Draw(rt, "byte"))
	default:
		copy(m, vh.RandBytes(rt, "msg", msgLen))
	}
	return m
}

// honest draws a key and a signature, made by Go's crypto/ed25519 or directly from the equation (with points outside
// the prime-order subgroup).
func honest(rt *rapid.T) (sigCase, string) {
	msg := drawMsg(rt)
	if rapid.IntRange(0, 2).Draw(rt, "signer") != 0 {
		key := ed25519.NewKeyFromSeed(vh.RandBytes(rt, "key", 32))
		sig, pub := ed25519.Sign(key, msg), key.Public().(ed25519.PublicKey)
		return sigCase{r: decode(rt, sig[:32]), a: decode(rt, pub), s: edref.FromLE(sig[32:]), msg: msg, pub: pub}, "standard"
	}
	secret := func(label string) *big.Int {
		if rapid.IntRange(0, 3).Draw(rt, label+"Small") == 0 {
			return big.NewInt(int64(rapid.IntRange(1, 9).Draw(rt, label)))
		}
		k := edref.FromLE(vh.RandBytes(rt, label, 40))
		return k.Mod(k, edref.L)
	}
	a, k := secret("a"), secret("r")
	A, R := edref.B.Mul(a), edref.B.Mul(k)
	what := "direct"
	if rapid.Bool().Draw(rt, "torsionA") {
		A, what = A.Add(edref.T8.Mul(big.NewInt(int64(vh.Even(1, 7).Draw(rt, "tA"))))), "torsion"
	}
	if rapid.Bool().Draw(rt, "torsionR") {
		R, what = R.Add(edref.T8.Mul(big.NewInt(int64(vh.Even(1, 7).Draw(rt, "tR"))))), "torsion"
	}
	s := edref.Hram(R, A, msg)
	s.Mul(s, a).Add(s, k).Mod(s, edref.L)
	return sigCase{r: R, a: A, s: s, msg: msg, pub: A.Encode()}, what
}

func drawNative(rt *rapid.T) fe.Kind {
	return vh.OneOf([]fe.Kind{fe.BN254, fe.BN254, fe.BN254, fe.BLS12377, fe.BLS12381}).Draw(rt, "native")
}

// Valid signatures verify.
func TestC31_valid(t *testing.T) {
	vh.Check(t, 96, 4000, func(rt *rapid.T, c *vh.Case) {
		k := drawNative(rt)
		g, what := honest(rt)
		if !edref.Valid(g.r, g.a, g.s, g.msg) {
			rt.Fatalf("harness: invalid signature")
		}
		lie := rapid.IntRange(0, 3).Draw(rt, "lie") == 0
		which, changed := vh.Even(0, 2000).Draw(rt, "which"), 0
		var hook fe.HintHook
		if lie {
			hook = lieRem(which, &changed)
		}
		c.Nontrivial(k, g.r, g.a, g.s, g.msg, lie, which)
		c.Label("%s, lying prover %v", what, lie)
		c.Sample("%s over native field %d: key %x message %x", what, k, g.pub, g.msg)
		err := fe.RunHook(k, hook, g.define)
		if changed > 0 && fe.IsUnsat(err) {
			return
		}
		vh.Accept(rt, err, "%s signature of %x by %x: R %x S %v", what, g.msg, g.pub, g.r.Encode(), g.s)
	})
}

// Nothing else does, whatever hints a prover supplies.
func TestC31_forged(t *testing.T) {
	vh.Check(t, 320, 8000, func(rt *rapid.T, c *vh.Case) {
		k := drawNative(rt)
		g, from := honest(rt)
		what := vh.OneOf([]string{"message", "message", "declared key", "declared key", "declared key", "s", "s", "R", "minus R", "torsion R", "minus key", "other key",
			"R off", "R off", "R off", "A off", "both off", "identity key", "wide message", "wide key", "encoding", "encoding"}).Draw(rt, "forgery")
		point := func(label string) edref.Pt {
			n := edref.FromLE(vh.RandBytes(rt, label, 32))
			return edref.B.Mul(n.Mod(n, edref.L))
		}
		wide := -1
		switch what {
		case "message":
			i := vh.Even(0, 8*msgLen-1).Draw(rt, "bit")
			g.msg[i/8] ^= 1 << (i % 8)
		case "declared key":
			// a bit off, or another key's or any bytes, perhaps with the sign of the signer's, and perhaps signed for
			// what is declared
			pub := append([]byte(nil), g.pub...)
			switch rapid.IntRange(0, 3).Draw(rt, "how") {
			case 0:
				i := vh.Even(0, 255).Draw(rt, "bit")
				pub[i/8] ^= 1 << (i % 8)
			case 1:
				pub[31] ^= 0x80
			case 2:
				pub = point("P").Encode()
			default:
				pub = vh.RandBytes(rt, "pub", 32)
			}
			if rapid.Bool().Draw(rt, "sameSign") {
				pub[31] = pub[31]&0x7f | g.pub[31]&0x80
			}
			g.pub = pub
			if rapid.IntRange(0, 3).Draw(rt, "signedFor") != 0 {
				n := edref.FromLE(vh.RandBytes(rt, "secret", 32))
				n.Mod(n, edref.L)
				r := edref.FromLE(vh.RandBytes(rt, "nonce", 32))
				r.Mod(r, edref.L)
				g.a, g.r = edref.B.Mul(n), edref.B.Mul(r)
				if rapid.Bool().Draw(rt, "sameSign2") {
					g.pub[31] = g.pub[31]&0x7f | g.a.Encode()[31]&0x80
				}
				h := sha512.Sum512(append(append(append([]byte(nil), g.r.Encode()...), g.pub...), g.msg...))
				g.s = edref.FromLE(h[:])
				g.s.Mul(g.s, n).Add(g.s, r).Mod(g.s, edref.L)
			}
		case "s":
			switch rapid.IntRange(0, 3).Draw(rt, "how") {
			case 0:
				g.s = new(big.Int).Xor(g.s, vh.Pow2(vh.Even(0, 252).Draw(rt, "bit")))
			case 1:
				g.s = new(big.Int)
			default:
				g.s = edref.FromLE(vh.RandBytes(rt, "s", 31))
			}
		case "R":
			g.r = point("R")
		case "minus R":
			g.r = g.r.Neg()
		case "torsion R":
			g.r = g.r.Add(edref.T8.Mul(big.NewInt(int64(vh.Even(1, 7).Draw(rt, "t")))))
		case "minus key":
			g.a = g.a.Neg()
			g.pub = g.a.Encode()
		case "other key":
			g.a = point("A")
			g.pub = g.a.Encode()
		case "identity key":
			g.a = edref.O
		case "R off", "A off", "both off":
			if what != "A off" {
				y := edref.Mod(edref.FromLE(vh.RandBytes(rt, "off", 32)))
				switch rapid.IntRange(0, 5).Draw(rt, "where") {
				case 0, 1:
					g.r = edref.Pt{X: new(big.Int), Y: new(big.Int)}
				case 2:
					g.r = edref.Pt{X: y, Y: edref.Mul(edref.I, y)}
				case 3:
					g.r = edref.Pt{X: new(big.Int), Y: y}
				case 4:
					g.r = edref.Pt{X: y, Y: new(big.Int)}
				default:
					g.r = edref.Pt{X: g.r.X, Y: y}
				}
			}
			if what != "R off" {
				x := edref.Mod(edref.FromLE(vh.RandBytes(rt, "offA", 32)))
				x.SetBit(x, 0, g.a.X.Bit(0))
				if rapid.IntRange(0, 3).Draw(rt, "zero") == 0 {
					x = big.NewInt(int64(g.a.X.Bit(0)))
				}
				g.a = edref.Pt{X: x, Y: g.a.Y}
			}
		case "encoding":
			// a low-order R or A whose coordinates have another representative: signed and declared under the
			// encoding that one would have
			fits := func(v *big.Int) bool { return v.Cmp(big.NewInt(19)) < 0 }
			torsion := func(label string) edref.Pt {
				return edref.T8.Mul(big.NewInt(int64(2 * rapid.IntRange(0, 3).Draw(rt, label))))
			}
			n := edref.FromLE(vh.RandBytes(rt, "secret", 32))
			n.Mod(n, edref.L)
			a, r := n, new(big.Int)
			if rapid.IntRange(0, 2).Draw(rt, "lowKey") == 0 {
				a, r = r, a
				g.a, g.r = torsion("A"), edref.B.Mul(n)
				if rapid.Bool().Draw(rt, "lowBoth") {
					r = new(big.Int)
					g.r = torsion("R")
				}
			} else {
				g.a, g.r = edref.B.Mul(n), torsion("R")
			}
			for i, v := range []*big.Int{g.r.X, g.r.Y, g.a.X, g.a.Y} {
				g.over[i] = fits(v) && rapid.IntRange(0, 3).Draw(rt, "over") != 0
			}
			encR := encodeAs(g.r, g.over[0], g.over[1])
			g.pub = encodeAs(g.a, g.over[2], g.over[3])
			h := sha512.Sum512(append(append(append([]byte(nil), encR...), g.pub...), g.msg...))
			g.s = edref.FromLE(h[:])
			g.s.Mul(g.s, a).Add(g.s, r).Mod(g.s, edref.L)
		case "wide message", "wide key":
			wide = rapid.IntRange(0, 4).Draw(rt, "element")
		}
		ok := wide < 0 && g.r.OnCurve() && g.a.OnCurve() && string(g.pub) == string(g.a.Encode()) && edref.Valid(g.r, g.a, g.s, g.msg)
		if ok {
			return // the change made no difference
		}
		lie := rapid.IntRange(0, 2).Draw(rt, "lie")
		which, changed, divs := vh.Even(0, 2000).Draw(rt, "which"), 0, 0
		var hook fe.HintHook
		if lie == 1 {
			hook = lieRem(which, &changed)
		}
		quot := vh.OneOf([]*big.Int{edref.I, edref.I, edref.Neg(edref.I), big.NewInt(0), big.NewInt(1)}).Draw(rt, "quotient")
		c.Nontrivial(k, g.r, g.a, g.s, g.msg, lie, which, wide, quot)
		c.Label("%s", what)
		c.Sample("%s on a %s signature over native field %d: key %x message %x", what, from, k, g.pub, g.msg)
		err := fe.RunHook(k, hook, func(api fe.Engine) {
			if lie != 0 {
				api.SetRescue(freeDiv(quot, &divs))
			}
			if wide < 0 {
				g.define(api)
				return
			}
			g.defineWide(api, what == "wide key", wide)
		})
		vh.Reject(rt, err, "%s on a %s signature: key %x, message %x, R (%v, %v), A (%v, %v), S %v, undetermined quotients %d of %v", what, from, g.pub, g.msg, g.r.X, g.r.Y, g.a.X, g.a.Y, g.s, divs, quot)
	})
}

// One byte of the message, of the declared key or of the response is another, in turn each.
func TestC31_everyByte(t *testing.T) {
	bits := vh.Pick(1, 8)
	vh.Sweep(t, (msgLen+32+31)*bits, func(t *testing.T, c *vh.Case, i int) {
		key := ed25519.NewKeyFromSeed(vh.Expand(vh.Seed()<<32+uint64(i), 32))
		msg := vh.Expand(vh.Seed()<<32+1<<31+uint64(i), msgLen)
		bit := uint(int(vh.Expand(vh.Seed()<<32+1<<30+uint64(i/bits), 1)[0])+i%bits) % 8
		sig, pub := ed25519.Sign(key, msg), key.Public().(ed25519.PublicKey)
		g := sigCase{r: decode(t, sig[:32]), a: decode(t, pub), msg: append([]byte(nil), msg...), pub: append([]byte(nil), pub...)}
		what, j := "message", i/bits
		if j -= msgLen; j >= 0 {
			what = "declared key"
			if j -= 32; j >= 0 {
				what = "response"
			} else {
				j += 32
			}
		} else {
			j += msgLen
		}
		switch what {
		case "message":
			g.msg[j] ^= 1 << bit
		case "declared key":
			g.pub[j] ^= 1 << bit
		case "response":
			sig[32+j] ^= 1 << bit
		}
		g.s = edref.FromLE(sig[32:])
		c.Nontrivial(what, j, bit, g.pub, g.msg)
		c.Label("%s", what)
		c.Sample("bit %d of byte %d of the %s: key %x message %x", bit, j, what, g.pub, g.msg)
		err := fe.Run(fe.BN254, g.define)
		vh.Reject(t, err, "bit %d of byte %d of the %s changed: key %x, message %x, S %v", bit, j, what, g.pub, g.msg, g.s)
	})
}
