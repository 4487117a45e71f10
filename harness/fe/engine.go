// Package fe is a fast, concrete evaluator of gnark circuits: it implements
// frontend.API / frontend.Compiler over native field elements, so that the
// gadgets of the code under test can be called like ordinary functions on
// concrete values, thousands of times per second. An unsatisfied constraint
// surfaces as Unsat (never as a generic panic), hints can be overridden to play
// a dishonest prover, and every run is independent of all others.
//
// It deliberately mirrors the semantics of gnark's own test engine; the
// harness additionally replays samples through the compiled R1CS/SCS systems
// and gnark's test engine.
package fe

import (
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"runtime/debug"

	fr377 "github.com/consensys/gnark-crypto/ecc/bls12-377/fr"
	fr381 "github.com/consensys/gnark-crypto/ecc/bls12-381/fr"
	fr254 "github.com/consensys/gnark-crypto/ecc/bn254/fr"
	fr761 "github.com/consensys/gnark-crypto/ecc/bw6-761/fr"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"golang.org/x/crypto/sha3"
)

// Unsat is the error of a constraint that the assignment does not satisfy.
type Unsat struct{ Msg string }

func (u Unsat) Error() string { return "unsatisfied: " + u.Msg }

// Crash is any other panic raised while the circuit was evaluated.
type Crash struct {
	Val   any
	Stack string
}

func (c Crash) Error() string { return fmt.Sprintf("panic: %v\n%s", c.Val, c.Stack) }

type elemPtr[T any] interface {
	*T
	Add(a, b *T) *T
	Sub(a, b *T) *T
	Mul(a, b *T) *T
	Neg(a *T) *T
	Inverse(a *T) *T
	SetBigInt(*big.Int) *T
	SetInt64(int64) *T
	SetUint64(uint64) *T
	SetOne() *T
	IsZero() bool
	IsOne() bool
	Equal(*T) bool
	Cmp(*T) int
	BigInt(*big.Int) *big.Int
}

// HintHook may rewrite the outputs of a hint after the honest computation.
type HintHook func(f solver.Hint, in, out []*big.Int)

// Rescue may answer a hint the honest computation fails on; it tells whether it did.
type Rescue func(f solver.Hint, in, out []*big.Int) bool

// Engine is the interface common to the per-field evaluators.
type Engine interface {
	frontend.API
	// Var makes a circuit variable (never treated as a constant).
	Var(v any) frontend.Variable
	// Big reads the value of a variable.
	Big(v frontend.Variable) *big.Int
	// U64 reads a variable that must fit 64 bits (else Unsat panic).
	U64(v frontend.Variable) uint64
	SetHintHook(HintHook)
	// SetRescue sets what a dishonest prover answers where the honest hint has no answer.
	SetRescue(Rescue)
	// Finally adds a check of the harness, made once the gadget accepts.
	Finally(func() error)
	finish() error
	Hints() int
}

type Kind int

const (
	BN254 Kind = iota
	BLS12377
	BLS12381
	BW6761
)

// New makes a fresh evaluator.
func New(k Kind) Engine {
	switch k {
	case BN254:
		return newEng[fr254.Element](fr254.Modulus())
	case BLS12377:
		return newEng[fr377.Element](fr377.Modulus())
	case BLS12381:
		return newEng[fr381.Element](fr381.Modulus())
	case BW6761:
		return newEng[fr761.Element](fr761.Modulus())
	}
	panic("kind")
}

// Run evaluates f on a fresh engine, then its deferred constraints. It returns
// nil if all constraints hold, Unsat if one does not, Crash for other panics.
func Run(k Kind, f func(api Engine)) error { return RunHook(k, nil, f) }

// RunHook is Run with a hint hook.
func RunHook(k Kind, h HintHook, f func(api Engine)) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Unsat); ok {
				err = u
				return
			}
			err = Crash{r, string(debug.Stack())}
		}
	}()
	e := New(k)
	e.SetHintHook(h)
	f(e)
	return e.finish()
}

// IsUnsat tells a rejected assignment from success and from a crash.
func IsUnsat(err error) bool {
	var u Unsat
	return errors.As(err, &u)
}

// IsCrash tells whether the evaluation panicked other than by a constraint.
func IsCrash(err error) bool {
	var u Crash
	return errors.As(err, &u)
}

type eng[T any, PT elemPtr[T]] struct {
	q     *big.Int
	bits  int
	slab  []T
	kv    map[any]any
	defs  []func(frontend.API) error
	last  []func() error
	hook  HintHook
	resc  Rescue
	nHint int
	small [32]PT
	minus PT
}

func newEng[T any, PT elemPtr[T]](q *big.Int) Engine {
	e := &eng[T, PT]{q: q, bits: q.BitLen(), kv: map[any]any{}}
	for i := range e.small {
		e.small[i] = PT(new(T)).SetUint64(uint64(i))
	}
	e.minus = PT(new(T)).SetInt64(-1)
	return e
}

func (e *eng[T, PT]) alloc() PT {
	if len(e.slab) == 0 {
		e.slab = make([]T, 2048)
	}
	p := &e.slab[0]
	e.slab = e.slab[1:]
	return PT(p)
}

func unsat(format string, a ...any) { panic(Unsat{fmt.Sprintf(format, a...)}) }

// FromInterface converts what gnark accepts as a constant.
func FromInterface(v any) *big.Int {
	switch x := v.(type) {
	case nil:
		panic("nil frontend.Variable")
	case *big.Int:
		return x
	case big.Int:
		return &x
	case int:
		return big.NewInt(int64(x))
	case int8:
		return big.NewInt(int64(x))
	case int16:
		return big.NewInt(int64(x))
	case int32:
		return big.NewInt(int64(x))
	case int64:
		return big.NewInt(x)
	case uint:
		return new(big.Int).SetUint64(uint64(x))
	case uint8:
		return new(big.Int).SetUint64(uint64(x))
	case uint16:
		return new(big.Int).SetUint64(uint64(x))
	case uint32:
		return new(big.Int).SetUint64(uint64(x))
	case uint64:
		return new(big.Int).SetUint64(x)
	case string:
		b, ok := new(big.Int).SetString(x, 0)
		if !ok {
			panic("unable to set big.Int from string " + x)
		}
		return b
	case []byte:
		return new(big.Int).SetBytes(x)
	case interface{ BigInt(*big.Int) *big.Int }:
		return x.BigInt(new(big.Int))
	}
	panic("unsupported constant type " + reflect.TypeOf(v).String())
}

func (e *eng[T, PT]) el(v frontend.Variable) PT {
	switch x := v.(type) {
	case PT:
		return x
	case int:
		if x >= 0 && x < len(e.small) {
			return e.small[x]
		}
		if x == -1 {
			return e.minus
		}
		return e.alloc().SetInt64(int64(x))
	}
	return e.alloc().SetBigInt(FromInterface(v))
}

func (e *eng[T, PT]) Var(v any) frontend.Variable {
	if p, ok := v.(PT); ok {
		return p
	}
	return e.alloc().SetBigInt(FromInterface(v))
}

func (e *eng[T, PT]) Big(v frontend.Variable) *big.Int { return e.el(v).BigInt(new(big.Int)) }

func (e *eng[T, PT]) U64(v frontend.Variable) uint64 {
	b := e.Big(v)
	if !b.IsUint64() {
		unsat("value %s exceeds 64 bits", b)
	}
	return b.Uint64()
}

func (e *eng[T, PT]) SetHintHook(h HintHook) { e.hook = h }
func (e *eng[T, PT]) SetRescue(r Rescue)     { e.resc = r }
func (e *eng[T, PT]) Hints() int             { return e.nHint }

func (e *eng[T, PT]) finish() error {
	for i := 0; i < len(e.defs); i++ {
		if err := e.defs[i](e); err != nil {
			return fmt.Errorf("deferred: %w", err)
		}
	}
	for _, f := range e.last {
		if err := f(); err != nil {
			return Crash{err, ""}
		}
	}
	return nil
}

func (e *eng[T, PT]) Finally(f func() error) { e.last = append(e.last, f) }

func (e *eng[T, PT]) Add(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	r := e.alloc()
	r.Add(e.el(i1), e.el(i2))
	for _, x := range in {
		r.Add(r, e.el(x))
	}
	return r
}

func (e *eng[T, PT]) MulAcc(a, b, c frontend.Variable) frontend.Variable {
	r := e.alloc()
	r.Mul(e.el(b), e.el(c))
	r.Add(e.el(a), r)
	return r
}

func (e *eng[T, PT]) Neg(a frontend.Variable) frontend.Variable {
	r := e.alloc()
	r.Neg(e.el(a))
	return r
}

func (e *eng[T, PT]) Sub(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	r := e.alloc()
	r.Sub(e.el(i1), e.el(i2))
	for _, x := range in {
		r.Sub(r, e.el(x))
	}
	return r
}

func (e *eng[T, PT]) Mul(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	r := e.alloc()
	r.Mul(e.el(i1), e.el(i2))
	for _, x := range in {
		r.Mul(r, e.el(x))
	}
	return r
}

func (e *eng[T, PT]) Div(i1, i2 frontend.Variable) frontend.Variable {
	d := e.el(i2)
	if d.IsZero() {
		unsat("division by zero")
	}
	r := e.alloc()
	r.Inverse(d)
	r.Mul(r, e.el(i1))
	return r
}

func (e *eng[T, PT]) DivUnchecked(i1, i2 frontend.Variable) frontend.Variable {
	if e.el(i1).IsZero() && e.el(i2).IsZero() {
		return e.alloc()
	}
	return e.Div(i1, i2)
}

func (e *eng[T, PT]) Inverse(a frontend.Variable) frontend.Variable {
	if e.el(a).IsZero() {
		unsat("inverse of zero")
	}
	r := e.alloc()
	r.Inverse(e.el(a))
	return r
}

func (e *eng[T, PT]) BatchInvert(in []frontend.Variable) []frontend.Variable {
	out := make([]frontend.Variable, len(in))
	for i := range in {
		r := e.alloc()
		r.Inverse(e.el(in[i]))
		out[i] = r
	}
	return out
}

func (e *eng[T, PT]) ToBinary(a frontend.Variable, n ...int) []frontend.Variable {
	nb := e.bits
	if len(n) == 1 {
		nb = n[0]
		if nb < 0 {
			panic("invalid n")
		}
	}
	b := e.Big(a)
	if b.BitLen() > nb {
		unsat("ToBinary: %s does not fit %d bits", b, nb)
	}
	r := make([]frontend.Variable, nb)
	w := b.Bits()
	for i := range r {
		bit := 0
		if i>>6 < len(w) {
			bit = int(w[i>>6]>>(uint(i)&63)) & 1
		}
		r[i] = e.small[bit]
	}
	return r
}

func (e *eng[T, PT]) FromBinary(v ...frontend.Variable) frontend.Variable {
	words := make([]big.Word, (len(v)+63)/64)
	for i := range v {
		if e.boolean(v[i]) {
			words[i>>6] |= 1 << (uint(i) & 63)
		}
	}
	if len(words) == 1 {
		return e.alloc().SetUint64(uint64(words[0]))
	}
	return e.alloc().SetBigInt(new(big.Int).SetBits(words))
}

func (e *eng[T, PT]) boolean(v frontend.Variable) bool {
	p := e.el(v)
	if p == e.small[0] {
		return false
	}
	if p == e.small[1] {
		return true
	}
	if p.IsZero() {
		return false
	}
	if p.IsOne() {
		return true
	}
	unsat("not boolean: %s", p.BigInt(new(big.Int)))
	return false
}

func (e *eng[T, PT]) b(x bool) frontend.Variable {
	if x {
		return e.small[1]
	}
	return e.small[0]
}

func (e *eng[T, PT]) Xor(a, b frontend.Variable) frontend.Variable {
	x, y := e.boolean(a), e.boolean(b)
	return e.b(x != y)
}

func (e *eng[T, PT]) Or(a, b frontend.Variable) frontend.Variable {
	x, y := e.boolean(a), e.boolean(b)
	return e.b(x || y)
}

func (e *eng[T, PT]) And(a, b frontend.Variable) frontend.Variable {
	x, y := e.boolean(a), e.boolean(b)
	return e.b(x && y)
}

func (e *eng[T, PT]) Select(b frontend.Variable, i1, i2 frontend.Variable) frontend.Variable {
	p := e.el(b)
	if p.IsZero() {
		return e.el(i2)
	}
	if p.IsOne() {
		return e.el(i1)
	}
	// gnark's PLONK builder does not constrain the selector
	return e.Add(e.Mul(p, e.Sub(i1, i2)), i2)
}

func (e *eng[T, PT]) Lookup2(b0, b1 frontend.Variable, i0, i1, i2, i3 frontend.Variable) frontend.Variable {
	x, y := e.boolean(b0), e.boolean(b1)
	switch {
	case !x && !y:
		return e.el(i0)
	case x && !y:
		return e.el(i1)
	case !x && y:
		return e.el(i2)
	}
	return e.el(i3)
}

func (e *eng[T, PT]) IsZero(a frontend.Variable) frontend.Variable { return e.b(e.el(a).IsZero()) }

func (e *eng[T, PT]) Cmp(a, b frontend.Variable) frontend.Variable {
	switch e.el(a).Cmp(e.el(b)) {
	case 0:
		return e.small[0]
	case 1:
		return e.small[1]
	}
	return e.minus
}

func (e *eng[T, PT]) AssertIsEqual(a, b frontend.Variable) {
	if x, y := e.el(a), e.el(b); !x.Equal(y) {
		unsat("%s == %s", x.BigInt(new(big.Int)), y.BigInt(new(big.Int)))
	}
}

func (e *eng[T, PT]) AssertIsDifferent(a, b frontend.Variable) {
	if x, y := e.el(a), e.el(b); x.Equal(y) {
		unsat("%s != itself", x.BigInt(new(big.Int)))
	}
}

func (e *eng[T, PT]) AssertIsBoolean(a frontend.Variable) { e.boolean(a) }

func (e *eng[T, PT]) AssertIsCrumb(a frontend.Variable) {
	b := e.Big(a)
	if !b.IsUint64() || b.Uint64() > 3 {
		unsat("not a crumb: %s", b)
	}
}

func (e *eng[T, PT]) AssertIsLessOrEqual(v, bound frontend.Variable) {
	if e.el(v).Cmp(e.el(bound)) > 0 {
		unsat("%s <= %s", e.Big(v), e.Big(bound))
	}
}

// Check makes the engine a native range checker.
func (e *eng[T, PT]) Check(v frontend.Variable, bits int) {
	if b := e.Big(v); b.BitLen() > bits {
		unsat("range check: %s exceeds %d bits", b, bits)
	}
}

func (e *eng[T, PT]) Println(a ...frontend.Variable) {}

func (e *eng[T, PT]) Compiler() frontend.Compiler { return e }

func (e *eng[T, PT]) NewHint(f solver.Hint, n int, inputs ...frontend.Variable) ([]frontend.Variable, error) {
	if n <= 0 {
		return nil, fmt.Errorf("hint function must return at least one output")
	}
	in := make([]*big.Int, len(inputs))
	for i := range in {
		in[i] = e.Big(inputs[i])
	}
	out := make([]*big.Int, n)
	for i := range out {
		out[i] = new(big.Int)
	}
	if err := f(new(big.Int).Set(e.q), in, out); err != nil {
		ok := false
		if e.resc != nil {
			for i := range in {
				in[i] = e.Big(inputs[i])
			}
			ok = e.resc(f, in, out)
		}
		if !ok {
			unsat("hint: %v", err)
		}
	}
	e.nHint++
	if e.hook != nil {
		for i := range in {
			in[i] = e.Big(inputs[i])
		}
		e.hook(f, in, out)
	}
	r := make([]frontend.Variable, n)
	for i := range out {
		r[i] = e.alloc().SetBigInt(out[i])
	}
	return r, nil
}

func (e *eng[T, PT]) NewHintForId(id solver.HintID, n int, inputs ...frontend.Variable) ([]frontend.Variable, error) {
	if f := solver.GetRegisteredHint(id); f != nil {
		return e.NewHint(f, n, inputs...)
	}
	return nil, fmt.Errorf("no hint registered with id %d", id)
}

func (e *eng[T, PT]) ConstantValue(v frontend.Variable) (*big.Int, bool) {
	if _, ok := v.(PT); ok {
		return nil, false
	}
	return new(big.Int).Mod(FromInterface(v), e.q), true
}

func (e *eng[T, PT]) IsBoolean(v frontend.Variable) bool {
	p := e.el(v)
	return p.IsZero() || p.IsOne()
}

func (e *eng[T, PT]) MarkBoolean(v frontend.Variable) {
	if !e.IsBoolean(v) {
		unsat("marked boolean: %s", e.Big(v))
	}
}

func (e *eng[T, PT]) Field() *big.Int                   { return new(big.Int).Set(e.q) }
func (e *eng[T, PT]) FieldBitLen() int                  { return e.bits }
func (e *eng[T, PT]) Defer(cb func(frontend.API) error) { e.defs = append(e.defs, cb) }

func (e *eng[T, PT]) Commit(v ...frontend.Variable) (frontend.Variable, error) {
	h := sha3.NewLegacyKeccak256()
	buf := make([]byte, (e.bits+7)/8)
	for i := range v {
		h.Write(e.Big(v[i]).FillBytes(buf))
	}
	r := PT(e.alloc().SetBigInt(new(big.Int).SetBytes(h.Sum(nil))))
	if r.IsZero() {
		r.SetOne()
	}
	return r, nil
}

func (e *eng[T, PT]) SetKeyValue(k, v any)  { e.kv[k] = v }
func (e *eng[T, PT]) GetKeyValue(k any) any { return e.kv[k] }
func (e *eng[T, PT]) AddBlueprint(constraint.Blueprint) constraint.BlueprintID {
	panic("fe: blueprints are not supported")
}
func (e *eng[T, PT]) AddInstruction(constraint.BlueprintID, []uint32) []uint32 {
	panic("fe: blueprints are not supported")
}
func (e *eng[T, PT]) InternalVariable(uint32) frontend.Variable { panic("fe: unsupported") }
func (e *eng[T, PT]) ToCanonicalVariable(frontend.Variable) frontend.CanonicalVariable {
	panic("fe: unsupported")
}
func (e *eng[T, PT]) SetGkrInfo(constraint.GkrInfo) error { return errors.New("fe: unsupported") }

// Modulus is the order of the scalar field.
func (k Kind) Modulus() *big.Int { return New(k).Compiler().Field() }
