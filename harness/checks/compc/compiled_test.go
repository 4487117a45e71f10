package compc

import (
	"fmt"
	"hash/fnv"
	"math/big"
	"strings"
	"testing"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	gtest "github.com/consensys/gnark/test"
	"pgregory.net/rapid"

	"vharness/fe"
	"vharness/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

var fields = map[fe.Kind]*big.Int{fe.BN254: ecc.BN254.ScalarField(), fe.BLS12377: ecc.BLS12_377.ScalarField()}

// circ demands that the gadget's outputs are the public ones; with Free set they may be anything.
type circ struct {
	In   []V
	Free V
	Out  []V `gnark:",public"`

	consts map[int]*big.Int
	nOut   int
	f      *func(api frontend.API, in []V) []V // a pointer, so that gnark's test engine can compare copies
}

func (c *circ) Define(api frontend.API) error {
	in := append([]V{}, c.In...)
	for i, v := range c.consts {
		in[i] = v
	}
	api.AssertIsBoolean(c.Free)
	out := (*c.f)(api, in)
	if len(out) != len(c.Out) {
		return fmt.Errorf("%d outputs, want %d", len(out), len(c.Out))
	}
	for i, o := range out {
		api.AssertIsEqual(api.Mul(api.Sub(1, c.Free), api.Sub(o, c.Out[i])), 0)
	}
	return nil
}

type sys struct {
	ccs constraint.ConstraintSystem
	err error
}

func compile(q *big.Int, plonk bool, c *circ) (s sys) {
	defer func() {
		if r := recover(); r != nil {
			s.err = fmt.Errorf("panic: %v", r)
		}
	}()
	b := r1cs.NewBuilder
	if plonk {
		b = scs.NewBuilder
	}
	vh.Quietly(func() { s.ccs, s.err = frontend.Compile(q, b, c, frontend.IgnoreUnconstrainedInputs()) })
	return
}

// digest identifies the constraints of a system.
func digest(c constraint.ConstraintSystem) string {
	h := fnv.New64a()
	switch x := c.(type) {
	case constraint.R1CS:
		for _, r := range x.GetR1Cs() {
			fmt.Fprint(h, r.L, r.R, r.O)
		}
	case constraint.SparseR1CS:
		for _, r := range x.GetSparseR1Cs() {
			fmt.Fprint(h, r)
		}
	}
	return fmt.Sprintf("%d constraints, %d/%d/%d variables, %x", c.GetNbConstraints(), c.GetNbPublicVariables(), c.GetNbSecretVariables(), c.GetNbInternalVariables(), h.Sum64())
}

// commitments in the solver are replaced by a hash of what is committed to.
func commitHint(q *big.Int, in, out []*big.Int) error {
	h := fnv.New128a()
	for _, x := range in {
		h.Write(x.FillBytes(make([]byte, 64)))
	}
	out[0].SetBytes(h.Sum(nil))
	return nil
}

func solve(s sys, q *big.Int, w *circ) error {
	full, err := frontend.NewWitness(w, q)
	if err != nil {
		panic(err)
	}
	_, err = s.ccs.Solve(full, solver.OverrideHint(solver.GetHintID(cs.Bsb22CommitmentComputePlaceholder), commitHint))
	return err
}

var systems = map[string]sys{}

// place is the gadget's number among those that compile fast.
func place(g *gad) (n int) {
	for i := range gads {
		if &gads[i] == g {
			return
		}
		if gads[i].cost == 0 {
			n++
		}
	}
	panic("no such gadget")
}

// vars makes circuit variables of assigned values.
func assigned(in []*big.Int) []V {
	out := make([]V, len(in))
	for i, x := range in {
		out[i] = x
	}
	return out
}

type drawn struct {
	g     *gad
	shape int
	kind  fe.Kind
	q     *big.Int
	in    []*big.Int
	out   []*big.Int
	err   error // of the harness's evaluator
}

func draw(rt *rapid.T, only func(g *gad) bool) (d drawn) {
	var l []*gad
	for i := range gads {
		if only(&gads[i]) {
			l = append(l, &gads[i])
		}
	}
	d.g = vh.OneOf(l).Draw(rt, "gadget")
	d.shape = vh.Even(0, d.g.shapes-1).Draw(rt, "shape")
	d.kind = fe.BN254
	if d.g.kinds != nil {
		d.kind = vh.OneOf(d.g.kinds).Draw(rt, "native")
	}
	d.q = fields[d.kind]
	d.in = d.g.gen(rt, d.shape, d.q)
	d.err = fe.Run(d.kind, func(api fe.Engine) { d.out = vh.Bigs(api, d.g.f(api, d.shape, vh.Vars(api, d.in))) })
	return
}

func (d drawn) String() string {
	s := make([]string, len(d.in))
	for i, x := range d.in {
		s[i] = x.Text(16)
	}
	t := strings.Join(s, " ")
	if len(t) > 600 {
		t = t[:600] + "..."
	}
	return fmt.Sprintf("%s (shape %d) of %s", d.g.name, d.shape, t)
}

func (d drawn) fn() *func(api frontend.API, in []V) []V {
	f := func(api frontend.API, in []V) []V { return d.g.f(api, d.shape, in) }
	return &f
}

// nOut is how many outputs a gadget has in a shape, learnt from compiling.
func (d drawn) circuit(nOut int, consts map[int]*big.Int) *circ {
	return &circ{In: make([]V, len(d.in)), Out: make([]V, nOut), consts: consts, f: d.fn()}
}

var outputs = map[string]int{}

// count finds the number of outputs by compiling with a recording circuit.
func (d drawn) count(rt *rapid.T) int {
	key := fmt.Sprint(d.g.name, d.shape)
	if n, ok := outputs[key]; ok {
		return n
	}
	if d.out != nil {
		outputs[key] = len(d.out)
		return len(d.out)
	}
	n := -1
	c := &counting{circ{In: make([]V, len(d.in)), f: d.fn()}, &n}
	var err error
	vh.Quietly(func() { _, err = frontend.Compile(d.q, r1cs.NewBuilder, c, frontend.IgnoreUnconstrainedInputs()) })
	if n < 0 {
		rt.Fatalf("%v does not compile, invalid: %v", d, err)
	}
	outputs[key] = n
	return n
}

type counting struct {
	C circ
	n *int
}

func (c *counting) Define(api frontend.API) error {
	*c.n = len((*c.C.f)(api, c.C.In))
	return nil
}

// judge solves with the drawn values and compares with the harness's evaluator.
func (d drawn) judge(rt *rapid.T, s sys, what string) {
	nOut := d.count(rt)
	zero := make([]V, nOut)
	for i := range zero {
		zero[i] = 0
	}
	w := &circ{In: assigned(d.in), Out: zero, Free: 1}
	if d.err != nil {
		if err := solve(s, d.q, w); err == nil {
			rt.Fatalf("invalid inputs pass in the %s: %v; evaluated: %v", what, d, d.err)
		}
		return
	}
	w.Out, w.Free = assigned(d.out), 0
	if err := solve(s, d.q, w); err != nil {
		rt.Fatalf("valid outputs are refused by the %s of %v: %v", what, d, err)
	}
	if nOut == 0 {
		return
	}
	i := vh.Even(0, nOut-1).Draw(rt, "perturbed")
	by := vh.OneOf([]*big.Int{u(1), new(big.Int).Sub(d.q, u(1)), vh.Pow2(128)}).Draw(rt, "by")
	w.Out[i] = new(big.Int).Mod(new(big.Int).Add(d.out[i], by), d.q)
	if err := solve(s, d.q, w); err == nil {
		rt.Fatalf("an invalid output %d (%v, not %v) passes in the %s of %v", i, w.Out[i], d.out[i], what, d)
	}
}

func builder(plonk bool) string {
	if plonk {
		return "compiled SCS"
	}
	return "compiled R1CS"
}

// each gadget, compiled once with all inputs secret, solves for just the right outputs
func TestC50_compiled(t *testing.T) {
	vh.Check(t, 700, 12000, func(rt *rapid.T, c *vh.Case) {
		d := draw(rt, func(g *gad) bool { return g.cost == 0 && vh.MyShard(place(g)) }) // so that each is compiled in one process
		d.compiled(rt, c, rapid.Bool().Draw(rt, "plonk"))
	})
}

func (d drawn) compiled(rt *rapid.T, c *vh.Case, plonk bool) {
	c.Nontrivial(d.g.name, d.shape, d.kind, d.in)
	c.Label("%s valid %v", d.g.name, d.err == nil)
	c.Sample("%v", d)
	if fe.IsCrash(d.err) {
		rt.Fatalf("%v crashes: invalid: %v", d, d.err)
	}
	key := fmt.Sprint(d.g.name, d.shape, d.kind, plonk)
	s, ok := systems[key]
	if !ok {
		s = compile(d.q, plonk, d.circuit(d.count(rt), nil))
		if s.err == nil && d.g.cost < vh.Pick(1, 2) {
			if again := compile(d.q, plonk, d.circuit(d.count(rt), nil)); again.err != nil || digest(s.ccs) != digest(again.ccs) {
				rt.Fatalf("compiled again, %s (shape %d) is another circuit, so its keys are invalid: %v, was %v (%v)", d.g.name, d.shape, digest(again.ccs), digest(s.ccs), again.err)
			}
		}
		systems[key] = s
	}
	if s.err != nil {
		rt.Fatalf("%s (shape %d) does not compile, invalid: %v", d.g.name, d.shape, s.err)
	}
	d.judge(rt, s, builder(plonk))
}

// the gadgets that take a while to compile; every process has its own share
func TestC50_compiledLarge(t *testing.T) {
	tier := 1
	if vh.Thorough() {
		tier = 2
	}
	type job struct {
		name string
		f    func(rt *rapid.T, c *vh.Case)
	}
	var jobs []job
	for i := range gads {
		g := &gads[i]
		if g.cost == 0 || g.cost > tier {
			continue
		}
		for s := 0; s < g.shapes; s++ {
			for _, plonk := range []bool{false, true} {
				jobs = append(jobs, job{fmt.Sprintf("%s_%d_plonk_%v", strings.ReplaceAll(g.name, " ", "_"), s, plonk), func(rt *rapid.T, c *vh.Case) {
					d := draw(rt, func(x *gad) bool { return x == g })
					d.shape = s
					d.in = g.gen(rt, s, d.q)
					d.out = nil
					d.err = fe.Run(d.kind, func(api fe.Engine) { d.out = vh.Bigs(api, g.f(api, s, vh.Vars(api, d.in))) })
					d.compiled(rt, c, plonk)
				}})
			}
		}
	}
	for i, j := range jobs {
		if !vh.MyShard(i) {
			continue
		}
		t.Run(j.name, func(t *testing.T) { vh.Check(t, 3*8, 20*8, j.f) }) // as many in each of the 8 processes
		clear(systems)
	}
}

// inputs that are known when the circuit is compiled change nothing
func TestC50_constants(t *testing.T) {
	vh.Check(t, 500, 8000, func(rt *rapid.T, c *vh.Case) {
		d := draw(rt, func(g *gad) bool { return g.cost == 0 })
		plonk := rapid.Bool().Draw(rt, "plonk")
		consts := map[int]*big.Int{}
		p := vh.OneOf([]int{1, 3, 7, 8}).Draw(rt, "eighths")
		pick := vh.RandBytes(rt, "pick", len(d.in))
		for i := range d.in {
			if int(pick[i]%8) < p {
				consts[i] = d.in[i]
			}
		}
		if p == 1 && len(d.in) > 0 {
			consts[0] = d.in[0]
		}
		for _, i := range d.g.variable {
			delete(consts, i)
		}
		c.Nontrivial(d.g.name, d.shape, d.kind, d.in, p, pick)
		c.Label("%s, %d/8 constant, valid %v", d.g.name, p, d.err == nil)
		c.Sample("%d constants: %v", len(consts), d)
		s := compile(d.q, plonk, d.circuit(d.count(rt), consts))
		if s.err != nil {
			if d.err == nil {
				rt.Fatalf("with constants %v, the valid %v does not compile: %v", consts, d, s.err)
			}
			return // seen to be unsatisfied when compiling
		}
		d.judge(rt, s, fmt.Sprintf("%s with constants %v", builder(plonk), consts))
	})
}

// gnark's own test engine agrees
func TestC50_testEngine(t *testing.T) {
	vh.Check(t, 150, 3000, func(rt *rapid.T, c *vh.Case) {
		d := draw(rt, func(g *gad) bool {
			return g.cost == 0 || g.name == "E2" || g.name == "G2" || g.name == "leaf node" || g.name == "sha256"
		})
		c.Nontrivial(d.g.name, d.shape, d.kind, d.in)
		c.Label("%s valid %v", d.g.name, d.err == nil)
		c.Sample("%v", d)
		n := d.count(rt)
		out := assigned(d.out)
		free := 0
		if d.err != nil {
			free, out = 1, make([]V, n)
			for i := range out {
				out[i] = 0
			}
		}
		var err error
		vh.Quietly(func() {
			err = gtest.IsSolved(d.circuit(n, nil), &circ{In: assigned(d.in), Out: out, Free: free}, d.q)
		})
		if (err == nil) != (d.err == nil) {
			rt.Fatalf("gnark's test engine: %v; evaluated: %v; one is invalid: %v", err, d.err, d)
		}
	})
}
