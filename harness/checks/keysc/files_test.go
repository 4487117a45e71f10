package keysc

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"
	"testing"

	"github.com/brevis-network/zk-utils/common/utils"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/backend/groth16"
	"github.com/consensys/gnark/backend/plonk"
	"github.com/consensys/gnark/backend/witness"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	"github.com/consensys/gnark/test/unsafekzg"
	"pgregory.net/rapid"

	"vharness/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

// circuit proves y = x^(n+1) for every pair of inputs, with a committed value if wanted.
type circuit struct {
	X      []frontend.Variable
	Y      []frontend.Variable `gnark:",public"`
	n      int
	commit bool
}

func (c *circuit) Define(api frontend.API) error {
	for i := range c.X {
		v := c.X[i]
		for j := 0; j < c.n; j++ {
			v = api.Mul(v, c.X[i])
		}
		api.AssertIsEqual(v, c.Y[i])
	}
	if c.commit {
		x, err := api.(frontend.Committer).Commit(c.X...)
		if err != nil {
			return err
		}
		api.AssertIsDifferent(x, 0)
	}
	return nil
}

func shape(pairs, n int, commit bool) *circuit {
	return &circuit{X: make([]frontend.Variable, pairs), Y: make([]frontend.Variable, pairs), n: n, commit: commit}
}

// things are the objects of one compiled circuit.
type things struct {
	name    string
	curve   ecc.ID
	plonk   bool
	shape   *circuit
	ccs     constraint.ConstraintSystem
	gpk     groth16.ProvingKey
	gvk     groth16.VerifyingKey
	ppk     plonk.ProvingKey
	pvk     plonk.VerifyingKey
	witness witness.Witness
	gproof  groth16.Proof
	pproof  plonk.Proof
}

func check(err error) {
	if err != nil {
		panic(err)
	}
}

func (s *things) assign(seed uint64) witness.Witness {
	w := shape(len(s.shape.X), s.shape.n, s.shape.commit)
	q := s.curve.ScalarField()
	for i := range w.X {
		x := new(big.Int).Mod(new(big.Int).SetBytes(vh.Expand(seed+uint64(i), 60)), q)
		w.X[i], w.Y[i] = x, new(big.Int).Exp(x, big.NewInt(int64(s.shape.n+1)), q)
	}
	full, err := frontend.NewWitness(w, q)
	check(err)
	return full
}

var cache = map[string]*things{}

func make1(curve ecc.ID, usePlonk bool, pairs, n int, commit bool) *things {
	name := fmt.Sprintf("%v plonk=%v %dx%d commit=%v", curve, usePlonk, pairs, n, commit)
	if s := cache[name]; s != nil {
		return s
	}
	s := &things{name: name, curve: curve, plonk: usePlonk, shape: shape(pairs, n, commit)}
	build := r1cs.NewBuilder
	if usePlonk {
		build = scs.NewBuilder
	}
	var err error
	s.ccs, err = frontend.Compile(curve.ScalarField(), build, shape(pairs, n, commit))
	check(err)
	s.witness = s.assign(uint64(pairs*100 + n))
	if usePlonk {
		srs, lag, err := unsafekzg.NewSRS(s.ccs)
		check(err)
		s.ppk, s.pvk, err = plonk.Setup(s.ccs, srs, lag)
		check(err)
		s.pproof, err = plonk.Prove(s.ccs, s.ppk, s.witness)
		check(err)
	} else {
		s.gpk, s.gvk, err = groth16.Setup(s.ccs)
		check(err)
		s.gproof, err = groth16.Prove(s.ccs, s.gpk, s.witness)
		check(err)
	}
	cache[name] = s
	return s
}

func raw(x any) []byte {
	var b bytes.Buffer
	var err error
	if w, ok := x.(io.WriterTo); ok {
		_, err = w.WriteTo(&b)
	} else {
		panic(fmt.Sprintf("%T cannot be written", x))
	}
	check(err)
	return b.Bytes()
}

// open returns how many of the process's descriptors name the file.
func open(path string) (n int) {
	ds, _ := os.ReadDir("/proc/self/fd")
	for _, d := range ds {
		if l, _ := os.Readlink("/proc/self/fd/" + d.Name()); strings.HasPrefix(l, path) {
			n++
		}
	}
	return
}

// limited runs f where no file can grow beyond n bytes.
func limited(n uint64, f func() error) error {
	signal.Ignore(syscall.SIGXFSZ)
	var was syscall.Rlimit
	check(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &was))
	check(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: was.Max}))
	defer func() { check(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &was)) }()
	return f()
}

// object is an object of that kind, with its writer to and reader from a path.
func (s *things) object(curve ecc.ID, usePlonk bool, what, path string, wit witness.Witness, data []byte) (orig any, write func() error, read func() (any, error)) {
	g2 := func(o any, w func() error, r func() (any, error)) { orig, write, read = o, w, r }
	switch what {
	case "proving key":
		if usePlonk {
			x := plonk.NewProvingKey(curve)
			g2(s.ppk, func() error { utils.WritePlonkProvingKey(path, s.ppk); return nil }, func() (any, error) { return x, utils.ReadPlonkProvingKey(path, x) })
		} else {
			x := groth16.NewProvingKey(curve)
			g2(s.gpk, func() error { return utils.WriteProvingKey(path, s.gpk) }, func() (any, error) { return x, utils.ReadProvingKey(path, x) })
		}
	case "verifying key":
		if usePlonk {
			x := plonk.NewVerifyingKey(curve)
			g2(s.pvk, func() error { return utils.WritePlonkVerifyingKey(path, s.pvk) }, func() (any, error) { return x, utils.ReadPlonkVerifyingKey(path, x) })
		} else {
			x := groth16.NewVerifyingKey(curve)
			g2(s.gvk, func() error { return utils.WriteVerifyingKey(path, s.gvk) }, func() (any, error) { return x, utils.ReadVerifyingKey(path, x) })
		}
	case "witness":
		x, err := witness.New(curve.ScalarField())
		check(err)
		g2(wit, func() error { return utils.WriteWitness(path, wit) }, func() (any, error) { return x, utils.ReadWitness(path, x) })
	case "constraints":
		if usePlonk {
			x := plonk.NewCS(curve)
			g2(s.ccs, func() error { return utils.WritePlonkCcs(path, s.ccs) }, func() (any, error) { return x, utils.ReadPlonkCcs(path, x) })
		} else {
			x := groth16.NewCS(curve)
			g2(s.ccs, func() error { return utils.WriteCcs(path, s.ccs) }, func() (any, error) { return x, utils.ReadCcs(path, x) })
		}
	case "proof":
		if usePlonk {
			x := plonk.NewProof(curve)
			g2(s.pproof, func() error { return utils.WritePlonkProofIntoLocalFile(s.pproof, path) }, func() (any, error) { return x, utils.ReadPlonkProofFromLocalFile(path, x) })
		} else {
			x := groth16.NewProof(curve)
			g2(s.gproof, func() error { return utils.WriteProofIntoLocalFile(path, s.gproof) }, func() (any, error) { return x, utils.ReadProofFromLocalFile(path, x) })
		}
	case "bytes":
		g2(bytes.NewBuffer(data), func() error { return utils.WritePublicInputs(path, data) }, func() (any, error) {
			b, err := utils.ReadPublicInputs(path)
			b2, err2 := utils.ReadFileAndReturnByteArray(path)
			if (err == nil) != (err2 == nil) || !bytes.Equal(b, b2) {
				return bytes.NewBufferString(fmt.Sprintf("the two readers disagree: %v, %v", err, err2)), nil
			}
			return bytes.NewBuffer(b), err
		})
	case "solidity":
		var b bytes.Buffer
		write = func() error { return utils.WriteVKSolidity(path, s.gvk) }
		if usePlonk {
			check(s.pvk.ExportSolidity(&b))
			write = func() error { return utils.WritePlonkVKSolidity(path, s.pvk) }
		} else {
			check(s.gvk.ExportSolidity(&b))
		}
		g2(&b, write, func() (any, error) {
			got, err := os.ReadFile(path)
			return bytes.NewBuffer(got), err
		})
	}
	return
}

// A full disk is an error, wherever in the file it fills up, and the next write is whole.
func TestC38_diskFull(t *testing.T) {
	dir, err := os.MkdirTemp("", "vh-keys-")
	check(err)
	defer os.RemoveAll(dir)
	kinds := []string{"proving key", "verifying key", "witness", "constraints", "proof", "bytes", "solidity"}
	vh.Sweep(t, 2*len(kinds)*vh.Pick(8, 100), func(t *testing.T, c *vh.Case, i int) {
		what, usePlonk := kinds[i/2%len(kinds)], i%2 == 1
		s := make1(ecc.BN254, usePlonk, 1, 5, i/14%4 == 3)
		path := filepath.Join(dir, "file")
		defer os.Remove(path)
		data := vh.Expand(uint64(i), 300)
		_, write, read := s.object(ecc.BN254, usePlonk, what, path, s.assign(uint64(i)), data)
		var err error
		vh.Quietly(func() { err = write() })
		if err != nil {
			t.Fatalf("a valid %s of %s was not written: %v", what, s.name, err)
		}
		whole, err := os.ReadFile(path)
		check(err)
		size := len(whole)
		if what == "constraints" { // their maps are written in any order
			size -= size / 10
		}
		at := 0
		switch k := i / 14; {
		case k == 1:
			at = size - 1
		case k > 1:
			at = int(new(big.Int).SetBytes(vh.Expand(uint64(i)+1<<32, 4)).Int64() % int64(size))
		}
		c.Nontrivial(s.name, what, at)
		c.Sample("%s of %s, full after %d of %d bytes", what, s.name, at, size)
		vh.Quietly(func() { err = limited(uint64(at), write) })
		fmt.Println()                                           // a line of the log may have been cut as well
		if err == nil && !(what == "proving key" && usePlonk) { // that writer only logs
			t.Fatalf("a %s of %s was reported as valid where the disk was full after %d of %d bytes", what, s.name, at, size)
		}
		if n := open(path); n > 0 {
			t.Fatalf("failing to write a %s leaves %d descriptors open: invalid", what, n)
		}
		vh.Quietly(func() { err = write() })
		if err == nil && !panics(func() { _, err = read() }) && err == nil {
			return
		}
		t.Fatalf("a valid %s of %s was not written and read after the disk had been full: %v", what, s.name, err)
	})
}

func TestC38_files(t *testing.T) {
	dir, err := os.MkdirTemp("", "vh-keys-")
	check(err)
	defer os.RemoveAll(dir)
	vh.Check(t, 300, 4000, func(rt *rapid.T, c *vh.Case) {
		curve := vh.OneOf([]ecc.ID{ecc.BN254, ecc.BN254, ecc.BLS12_377, ecc.BW6_761}).Draw(rt, "curve")
		usePlonk := rapid.Bool().Draw(rt, "plonk")
		commit := curve == ecc.BN254 && rapid.Bool().Draw(rt, "commit")
		s := make1(curve, usePlonk, rapid.IntRange(1, 2).Draw(rt, "pairs"), vh.OneOf([]int{1, 5}).Draw(rt, "n"), commit)
		what := vh.OneOf([]string{"proving key", "verifying key", "witness", "constraints", "proof", "bytes", "solidity"}).Draw(rt, "what")
		path := filepath.Join(dir, "file")
		defer os.Remove(path)
		mode := vh.OneOf([]string{"fresh", "over a longer file", "truncated", "truncated", "missing", "no directory"}).Draw(rt, "mode")
		if what == "solidity" && curve != ecc.BN254 {
			what = "proof"
		}
		if what == "solidity" && mode != "no directory" {
			mode = "fresh"
		}
		if mode == "over a longer file" {
			check(os.WriteFile(path, bytes.Repeat([]byte{0xee}, 3<<20), 0o600))
		}
		if mode == "no directory" {
			path = filepath.Join(dir, "none", "file")
		}
		data := vh.Bytes(rt, "data", rapid.IntRange(0, 300).Draw(rt, "len"))
		c.Nontrivial(s.name, what, mode, data)
		c.Label("%s %s, plonk %v", mode, what, usePlonk)
		c.Sample("%s: %s of %s", mode, what, s.name)

		wit := s.assign(rapid.Uint64().Draw(rt, "witness"))
		orig, write, read := s.object(curve, usePlonk, what, path, wit, data)
		if mode == "missing" || mode == "no directory" {
			var err, werr error
			if mode == "no directory" {
				vh.Quietly(func() { werr = write() })
				if werr == nil && !(what == "proving key" && usePlonk) { // that writer only logs
					rt.Fatalf("a %s was written to an invalid path without error", what)
				}
			}
			if panics(func() { _, err = read() }) || err == nil {
				rt.Fatalf("a %s was read from no valid file", what)
			}
			return
		}
		want := []byte(nil)
		if b, ok := orig.(*bytes.Buffer); ok {
			want = bytes.Clone(b.Bytes())
		} else {
			want = raw(orig)
		}
		vh.Quietly(func() { err = write() })
		if err != nil {
			rt.Fatalf("a valid %s of %s was not written: %v", what, s.name, err)
		}
		if n := open(path); n > 0 {
			rt.Fatalf("writing a %s leaves %d descriptors open: invalid", what, n)
		}
		if mode == "truncated" {
			b, err := os.ReadFile(path)
			check(err)
			if len(b) == 0 {
				return
			}
			cut := vh.Edge(rt, "cut", 0, len(b)-1, 0, len(b)-1, len(b)/2)
			check(os.WriteFile(path, b[:cut], 0o600))
			var got any
			if what == "bytes" {
				got, err = read()
				if err != nil || !bytes.Equal(got.(*bytes.Buffer).Bytes(), data[:cut]) {
					rt.Fatalf("%d valid bytes were read as %v, %v", cut, got, err)
				}
				return
			}
			// what is cut off must show: an error, never a shorter object
			if p := panics(func() { _, err = read() }); !p && err == nil {
				rt.Fatalf("%d of %d bytes of a %s of %s were read as if valid", cut, len(b), what, s.name)
			}
			return
		}
		var got any
		if panics(func() { got, err = read() }) || err != nil {
			rt.Fatalf("a valid %s of %s was not read: %v", what, s.name, err)
		}
		if n := open(path); n > 0 {
			rt.Fatalf("reading a %s leaves %d descriptors open: invalid", what, n)
		}
		var back []byte
		if b, ok := got.(*bytes.Buffer); ok {
			back = b.Bytes()
		} else {
			back = raw(got)
		}
		if what != "constraints" && !bytes.Equal(back, want) { // gnark's encoding of constraints has maps in any order
			rt.Fatalf("the %s of %s read back is invalid: %d bytes, want %d", what, s.name, len(back), len(want))
		}
		// and it works: proofs by what was read verify
		pub, err := wit.Public()
		check(err)
		if usePlonk {
			ccs, pk, vk, w := s.ccs, s.ppk, s.pvk, wit
			switch x := got.(type) {
			case plonk.ProvingKey:
				if what == "proving key" {
					pk = x
				}
			case plonk.VerifyingKey:
				vk = x
			case constraint.ConstraintSystem:
				ccs = x
			case witness.Witness:
				w = x
			}
			switch what {
			case "verifying key", "proof":
				p := s.pproof
				if x, ok := got.(plonk.Proof); ok && what == "proof" {
					p = x
				}
				sp, _ := s.witness.Public()
				if err := plonk.Verify(p, vk, sp); err != nil {
					rt.Fatalf("a valid proof fails with the %s of %s read back: %v", what, s.name, err)
				}
			case "proving key", "constraints", "witness":
				p, err := plonk.Prove(ccs, pk, w)
				if err == nil {
					err = plonk.Verify(p, vk, pub)
				}
				if err != nil {
					rt.Fatalf("no valid proof with the %s of %s read back: %v", what, s.name, err)
				}
			}
			return
		}
		ccs, pk, vk, w := s.ccs, s.gpk, s.gvk, wit
		switch what {
		case "proving key":
			pk = got.(groth16.ProvingKey)
		case "verifying key":
			vk = got.(groth16.VerifyingKey)
		case "constraints":
			ccs = got.(constraint.ConstraintSystem)
		case "witness":
			w = got.(witness.Witness)
		}
		switch what {
		case "verifying key", "proof":
			p := s.gproof
			if what == "proof" {
				p = got.(groth16.Proof)
			}
			sp, _ := s.witness.Public()
			if err := groth16.Verify(p, vk, sp); err != nil {
				rt.Fatalf("a valid proof fails with the %s of %s read back: %v", what, s.name, err)
			}
		case "proving key", "constraints", "witness":
			p, err := groth16.Prove(ccs, pk, w)
			if err == nil {
				err = groth16.Verify(p, vk, pub)
			}
			if err != nil {
				rt.Fatalf("no valid proof with the %s of %s read back: %v", what, s.name, err)
			}
		}
	})
}
