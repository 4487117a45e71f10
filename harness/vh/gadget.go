package vh

import (
	"fmt"
	"math/big"

	"vharness/fe"

	"github.com/consensys/gnark/frontend"
)

// TB is what *testing.T and *rapid.T share.
type TB interface {
	Helper()
	Fatalf(format string, args ...any)
}

// Accept demands that a circuit evaluation succeeded.
func Accept(t TB, err error, format string, a ...any) {
	t.Helper()
	if err != nil {
		t.Fatalf("valid witness refused: %v; "+format, append([]any{err}, a...)...)
	}
}

// Reject demands an unsatisfied constraint (not a crash, not acceptance).
func Reject(t TB, err error, format string, a ...any) {
	t.Helper()
	if err == nil {
		t.Fatalf("invalid witness accepted: "+format, a...)
	}
	if !fe.IsUnsat(err) {
		t.Fatalf("crash instead of an unsatisfied constraint: %v; "+format, append([]any{err}, a...)...)
	}
}

// Vars turns integers into circuit values, held by the caller of a gadget.
func Vars[T any](api fe.Engine, in []T) []frontend.Variable {
	out := make([]frontend.Variable, len(in))
	for i, v := range in {
		out[i] = api.Var(v)
	}
	return Held(api, out)
}

// Held is a copy of l that its caller goes on using: followed by other
// elements of the same backing array, and unchanged when the run ends.
func Held[T any](api fe.Engine, l []T) []T {
	const spare = 3
	n := len(l)
	all := make([]T, n+spare)
	copy(all, l)
	if n > 0 {
		for i := 0; i < spare; i++ {
			all[n+i] = l[i%n]
		}
	}
	was := append([]T{}, all...)
	api.Finally(func() error {
		for i := range all {
			if any(all[i]) != any(was[i]) {
				return fmt.Errorf("element %d of %d held by the caller, or behind them, was changed", i, n)
			}
		}
		return nil
	})
	return all[:n]
}

// Bigs reads circuit values.
func Bigs(api fe.Engine, in []frontend.Variable) []*big.Int {
	out := make([]*big.Int, len(in))
	for i, v := range in {
		out[i] = api.Big(v)
	}
	return out
}

// U8s reads circuit values that must be bytes.
func U8s(t TB, api fe.Engine, in []frontend.Variable) []byte {
	t.Helper()
	out := make([]byte, len(in))
	for i, v := range in {
		b := api.Big(v)
		if !b.IsUint64() || b.Uint64() > 255 {
			t.Fatalf("element %d is %v, not a byte", i, b)
		}
		out[i] = byte(b.Uint64())
	}
	return out
}

// Nibbles splits bytes, high nibble first.
func Nibbles(b []byte) []byte {
	out := make([]byte, 0, 2*len(b))
	for _, x := range b {
		out = append(out, x>>4, x&15)
	}
	return out
}

// BitsLE splits every byte into 8 bits, least significant first.
func BitsLE(b []byte) []byte {
	out := make([]byte, 0, 8*len(b))
	for _, x := range b {
		for i := 0; i < 8; i++ {
			out = append(out, x>>i&1)
		}
	}
	return out
}

// BitsBE splits every byte into 8 bits, most significant first.
func BitsBE(b []byte) []byte {
	out := make([]byte, 0, 8*len(b))
	for _, x := range b {
		for i := 7; i >= 0; i-- {
			out = append(out, x>>i&1)
		}
	}
	return out
}

// BytesLE is the inverse of BitsLE.
func BytesLE(bits []byte) []byte {
	out := make([]byte, len(bits)/8)
	for i, b := range bits {
		out[i/8] |= b << (i % 8)
	}
	return out
}

// Pow2 is 2^n.
func Pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }
