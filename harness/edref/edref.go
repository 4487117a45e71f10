// Package edref is edwards25519 from its definition, over big.Int.
package edref

import (
	"crypto/sha512"
	"math/big"
)

func num(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 0)
	if !ok {
		panic(s)
	}
	return n
}

var (
	P = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	L = new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 252), num("27742317777372353535851937790883648493"))
	// D is -121665/121666
	D = Mul(big.NewInt(-121665), Inv(big.NewInt(121666)))
	// I is a square root of -1
	I = new(big.Int).Exp(big.NewInt(2), new(big.Int).Rsh(P, 2), P)
	O = Pt{big.NewInt(0), big.NewInt(1)}
	B = func() Pt {
		p, ok := FromY(Mul(big.NewInt(4), Inv(big.NewInt(5))), 0)
		if !ok {
			panic("base point")
		}
		return p
	}()
	// T8 generates the points of order dividing 8.
	T8 = func() Pt {
		for y := int64(2); ; y++ {
			p, ok := FromY(big.NewInt(y), 0)
			if !ok {
				continue
			}
			p = p.Mul(L)
			if !p.Mul(big.NewInt(4)).Equal(O) {
				return p
			}
		}
	}()
)

func Mod(a *big.Int) *big.Int    { return new(big.Int).Mod(a, P) }
func Mul(a, b *big.Int) *big.Int { return Mod(new(big.Int).Mul(a, b)) }
func Add(a, b *big.Int) *big.Int { return Mod(new(big.Int).Add(a, b)) }
func Sub(a, b *big.Int) *big.Int { return Mod(new(big.Int).Sub(a, b)) }
func Neg(a *big.Int) *big.Int    { return Mod(new(big.Int).Neg(a)) }
func Inv(a *big.Int) *big.Int    { return new(big.Int).Exp(Mod(a), new(big.Int).Sub(P, big.NewInt(2)), P) }

// Sqrt is a square root of a, if there is one.
func Sqrt(a *big.Int) (*big.Int, bool) {
	a = Mod(a)
	e := new(big.Int).Add(P, big.NewInt(3))
	r := new(big.Int).Exp(a, e.Rsh(e, 3), P)
	if Mul(r, r).Cmp(a) != 0 {
		r = Mul(r, I)
	}
	return r, Mul(r, r).Cmp(a) == 0
}

// Pt is an affine point.
type Pt struct{ X, Y *big.Int }

// FromY recovers a point from its ordinate and the parity of its abscissa.
func FromY(y *big.Int, sign uint) (Pt, bool) {
	y = Mod(y)
	yy := Mul(y, y)
	one := big.NewInt(1)
	x, ok := Sqrt(Mul(Sub(yy, one), Inv(Add(Mul(D, yy), one))))
	if !ok {
		return Pt{}, false
	}
	if x.Bit(0) != sign {
		x = Neg(x)
	}
	return Pt{x, y}, true
}

func (p Pt) Equal(q Pt) bool { return p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0 }
func (p Pt) Neg() Pt         { return Pt{Neg(p.X), p.Y} }

func (p Pt) OnCurve() bool {
	xx, yy := Mul(p.X, p.X), Mul(p.Y, p.Y)
	return Sub(yy, xx).Cmp(Add(big.NewInt(1), Mul(D, Mul(xx, yy)))) == 0
}

func (p Pt) Add(q Pt) Pt {
	one := big.NewInt(1)
	t := Mul(D, Mul(Mul(p.X, q.X), Mul(p.Y, q.Y)))
	return Pt{
		Mul(Add(Mul(p.X, q.Y), Mul(q.X, p.Y)), Inv(Add(one, t))),
		Mul(Add(Mul(p.Y, q.Y), Mul(p.X, q.X)), Inv(Sub(one, t))),
	}
}

// ext is a point in extended coordinates, to multiply without inversions.
type ext struct{ x, y, z, t *big.Int }

func (p ext) add(q ext) ext {
	a := Mul(Sub(p.y, p.x), Sub(q.y, q.x))
	b := Mul(Add(p.y, p.x), Add(q.y, q.x))
	c := Mul(Mul(p.t, q.t), Add(D, D))
	d := Mul(p.z, Add(q.z, q.z))
	e, f, g, h := Sub(b, a), Sub(d, c), Add(d, c), Add(b, a)
	return ext{Mul(e, f), Mul(g, h), Mul(f, g), Mul(e, h)}
}

// Mul is k times p, for any k >= 0.
func (p Pt) Mul(k *big.Int) Pt {
	one := big.NewInt(1)
	acc, q := ext{big.NewInt(0), one, one, big.NewInt(0)}, ext{p.X, p.Y, one, Mul(p.X, p.Y)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		acc = acc.add(acc)
		if k.Bit(i) == 1 {
			acc = acc.add(q)
		}
	}
	z := Inv(acc.z)
	return Pt{Mul(acc.x, z), Mul(acc.y, z)}
}

// Encode is the 32-byte encoding of RFC 8032.
func (p Pt) Encode() []byte {
	out := LE(p.Y, 32)
	out[31] |= byte(p.X.Bit(0)) << 7
	return out
}

// LE is v in n little-endian bytes.
func LE(v *big.Int, n int) []byte {
	out := v.FillBytes(make([]byte, n))
	for i := 0; i < n/2; i++ {
		out[i], out[n-1-i] = out[n-1-i], out[i]
	}
	return out
}

// FromLE is the integer of little-endian bytes.
func FromLE(b []byte) *big.Int {
	c := make([]byte, len(b))
	for i := range b {
		c[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(c)
}

// Hram is the challenge of a signature.
func Hram(r, a Pt, msg []byte) *big.Int {
	h := sha512.New()
	h.Write(r.Encode())
	h.Write(a.Encode())
	h.Write(msg)
	return new(big.Int).Mod(FromLE(h.Sum(nil)), L)
}

// Valid is the cofactored verification equation 8(SB - hA - R) = 0.
func Valid(r, a Pt, s *big.Int, msg []byte) bool {
	q := B.Mul(s).Add(a.Neg().Mul(Hram(r, a, msg))).Add(r.Neg())
	return q.Mul(big.NewInt(8)).Equal(O)
}
