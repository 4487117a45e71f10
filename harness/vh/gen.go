package vh

import (
	"encoding/binary"
	"math/big"
	"os"
	"strings"

	"golang.org/x/crypto/sha3"
	"pgregory.net/rapid"
)

// Expand stretches a drawn seed into n pseudo-random bytes (a pure function).
func Expand(seed uint64, n int) []byte {
	h := sha3.NewShake128()
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], seed)
	h.Write(b[:])
	out := make([]byte, n)
	h.Read(out)
	return out
}

// Bytes draws n bytes: random, constant, sparse or patterned.
func Bytes(t *rapid.T, label string, n int) []byte {
	kind := OneOf([]string{"random", "random", "random", "zero", "ff", "ramp", "sparse", "80", "01"}).Draw(t, label+"Kind")
	out := make([]byte, n)
	switch kind {
	case "random":
		return Expand(rapid.Uint64().Draw(t, label+"Seed"), n)
	case "ff", "80", "01":
		v := map[string]byte{"ff": 0xff, "80": 0x80, "01": 1}[kind]
		for i := range out {
			out[i] = v
		}
	case "ramp":
		s := rapid.Byte().Draw(t, label+"Start")
		for i := range out {
			out[i] = s + byte(i)
		}
	case "sparse":
		if n > 0 {
			k := rapid.IntRange(1, 4).Draw(t, label+"K")
			for i := 0; i < k; i++ {
				p := Even(0, n-1).Draw(t, label+"Pos")
				out[p] = rapid.Byte().Draw(t, label+"Val")
			}
		}
	}
	return out
}

// RandBytes draws n uniformly random bytes (one draw).
func RandBytes(t *rapid.T, label string, n int) []byte {
	return Expand(rapid.Uint64().Draw(t, label), n)
}

// BigBelow draws an integer in [0,q), hitting the edges often.
func BigBelow(t *rapid.T, label string, q *big.Int) *big.Int {
	one := big.NewInt(1)
	switch OneOf([]string{"rnd", "rnd", "rnd", "small", "top", "pow2", "pow2m1", "bits", "half"}).Draw(t, label+"Kind") {
	case "small":
		v := big.NewInt(int64(rapid.IntRange(0, 300).Draw(t, label+"V")))
		return v.Mod(v, q)
	case "top":
		v := big.NewInt(int64(rapid.IntRange(1, 300).Draw(t, label+"V")))
		v.Mod(v, q)
		v.Sub(q, v)
		return v.Mod(v, q)
	case "pow2":
		v := new(big.Int).Lsh(one, uint(rapid.IntRange(0, q.BitLen()).Draw(t, label+"E")))
		return v.Mod(v, q)
	case "pow2m1":
		v := new(big.Int).Lsh(one, uint(rapid.IntRange(0, q.BitLen()).Draw(t, label+"E")))
		v.Sub(v, one)
		return v.Mod(v, q)
	case "bits":
		n := rapid.IntRange(1, q.BitLen()).Draw(t, label+"N")
		v := new(big.Int).SetBytes(Expand(rapid.Uint64().Draw(t, label+"S"), (n+7)/8))
		v.Rsh(v, uint((8-n%8)%8))
		return v.Mod(v, q)
	case "half":
		v := new(big.Int).Rsh(q, 1)
		v.Add(v, big.NewInt(int64(rapid.IntRange(-2, 2).Draw(t, label+"V"))))
		return v.Mod(v, q)
	}
	v := new(big.Int).SetBytes(Expand(rapid.Uint64().Draw(t, label+"S"), q.BitLen()/8+16))
	return v.Mod(v, q)
}

// Edge draws an int in [lo,hi], with weight on the given interesting values.
func Edge(t *rapid.T, label string, lo, hi int, pts ...int) int {
	var in []int
	for _, p := range pts {
		if p >= lo && p <= hi {
			in = append(in, p)
		}
	}
	in = append(in, lo, hi)
	if rapid.IntRange(0, 2).Draw(t, label+"Edge") == 0 {
		return OneOf(in).Draw(t, label)
	}
	return rapid.IntRange(lo, hi).Draw(t, label)
}

// IsKnown tells whether the committed known-findings file lists id.
func IsKnown(id string) bool {
	for _, k := range strings.Split(os.Getenv("VH_KNOWN"), ",") {
		if k == id {
			return true
		}
	}
	return false
}

// Quietly runs f with the process's stdout discarded (gadgets that print while building).
func Quietly(f func()) {
	old := os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err == nil {
		os.Stdout = null
		defer func() { os.Stdout = old; null.Close() }()
	}
	f()
}

// Even draws an integer of [a, b], all about as likely (rapid.IntRange prefers small ones).
func Even(a, b int) *rapid.Generator[int] {
	n := uint64(b-a) + 1
	return rapid.Custom(func(t *rapid.T) int {
		v, flip := uint64(0), rapid.Bool()
		for w := n << 3; w > 1; w >>= 1 {
			v <<= 1
			if flip.Draw(t, "") {
				v |= 1
			}
		}
		return a + int(v%n)
	})
}

// OneOf draws an element of a list, all about as likely.
func OneOf[T any](list []T) *rapid.Generator[T] {
	i := Even(0, len(list)-1)
	return rapid.Custom(func(t *rapid.T) T { return list[i.Draw(t, "")] })
}
