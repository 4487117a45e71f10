package keccakc

import (
	"bytes"
	gosha256 "crypto/sha256"
	gosha512 "crypto/sha512"
	"math/big"
	"testing"

	sha256 "github.com/brevis-network/zk-utils/circuits/gadgets/sha256"
	sha512 "github.com/brevis-network/zk-utils/circuits/gadgets/sha512"
	"github.com/consensys/gnark/frontend"
	"pgregory.net/rapid"

	"vharness/fe"
	"vharness/vh"
)

type shaDigest interface {
	Write([]frontend.Variable) (int, error)
	Sum() []frontend.Variable
	Reset()
}

func shaCase(rt *rapid.T, c *vh.Case, name string, block, maxBlocks int, mk func(api frontend.API) shaDigest, ref func([]byte) []byte) {
	k := pickKind(rt)
	var pts []int
	for i := 0; i <= maxBlocks; i++ {
		pts = append(pts, i*block-1, i*block, i*block+1, i*block-block/8, i*block-block/8-1, i*block-block/8+1)
	}
	n := vh.Edge(rt, "len", 0, maxBlocks*block, pts...)
	msg := vh.Bytes(rt, "msg", n)
	// split into writes, with sums in between and possibly a reset after junk
	type step struct{ from, to int }
	var steps []step
	for at := 0; at < n; {
		l := vh.Edge(rt, "write", 0, n-at, 1, block-1, block, block+1, block-at%block, 2*block)
		steps = append(steps, step{at, at + l})
		at += l
		if len(steps) > 6 {
			steps = append(steps, step{at, n})
			break
		}
	}
	junk := -1
	if rapid.IntRange(0, 5).Draw(rt, "reset") == 0 {
		junk = rapid.IntRange(0, 2*block).Draw(rt, "junk")
	}
	sumAt := map[int]bool{}
	if len(steps) > 1 && rapid.Bool().Draw(rt, "midSum") {
		sumAt[vh.Even(0, len(steps)-1).Draw(rt, "sumAt")] = true
	}
	bad := -1
	badVal := big.NewInt(0)
	if n > 0 && rapid.IntRange(0, 5).Draw(rt, "neg") == 0 {
		bad = vh.Even(0, n-1).Draw(rt, "bad")
		badVal = vh.OneOf([]*big.Int{big.NewInt(256), big.NewInt(-1), big.NewInt(511), vh.Pow2(32), vh.Pow2(200)}).Draw(rt, "badVal")
	}
	err := fe.Run(k, func(api fe.Engine) {
		d := mk(api)
		if junk >= 0 {
			d.Write(vh.Vars(api, vh.Expand(uint64(junk), junk)))
			d.Reset()
		}
		in := vh.Vars(api, msg)
		if bad >= 0 {
			in[bad] = api.Var(badVal)
		}
		done := 0
		for i, s := range steps {
			nn, err := d.Write(in[s.from:s.to])
			if nn != s.to-s.from || err != nil {
				rt.Fatalf("Write of %d bytes returned %d, %v", s.to-s.from, nn, err)
			}
			done = s.to
			if sumAt[i] && bad < 0 {
				if g := vh.U8s(rt, api, d.Sum()); !bytes.Equal(g, ref(msg[:done])) {
					rt.Fatalf("%s after %d bytes of %v: %x want %x", name, done, steps, g, ref(msg[:done]))
				}
			}
		}
		if bad >= 0 {
			d.Sum()
			return
		}
		for i := 0; i < 2; i++ { // Sum does not change the state
			if g := vh.U8s(rt, api, d.Sum()); !bytes.Equal(g, ref(msg)) {
				rt.Fatalf("%s of %d bytes written as %v (sum #%d, reset %d): %x want %x", name, n, steps, i, junk, g, ref(msg))
			}
			if n > 200 {
				break
			}
		}
	})
	c.Label("%s blocks=%d bad=%v reset=%v midsum=%v", name, n/block, bad >= 0, junk >= 0, len(sumAt) > 0)
	c.Nontrivial(name, msg, steps, bad, junk)
	c.Sample("%s len=%d writes=%v reset=%d bad=%d", name, n, steps, junk, bad)
	if bad >= 0 {
		vh.Reject(rt, err, "byte %d of %d = %v", bad, n, badVal)
		return
	}
	vh.Accept(rt, err, "%s of %d bytes", name, n)
}

func TestC04_sha256(t *testing.T) {
	vh.Check(t, 800, 20000, func(rt *rapid.T, c *vh.Case) {
		shaCase(rt, c, "sha256", 64, 5, func(api frontend.API) shaDigest { d := sha256.New(api); return &d },
			func(b []byte) []byte { h := gosha256.Sum256(b); return h[:] })
	})
}

func TestC05_sha512(t *testing.T) {
	vh.Check(t, 400, 10000, func(rt *rapid.T, c *vh.Case) {
		shaCase(rt, c, "sha512", 128, 4, func(api frontend.API) shaDigest { d := sha512.New(api); return &d },
			func(b []byte) []byte { h := gosha512.Sum512(b); return h[:] })
	})
}

// every length up to several blocks, one write
func TestC04_everyLength(t *testing.T) {
	vh.Sweep(t, vh.Pick(200, 700), func(t *testing.T, c *vh.Case, n int) {
		msg := vh.Expand(uint64(n)+900, n)
		err := fe.Run(fe.BN254, func(api fe.Engine) {
			d := sha256.New(api)
			d.Write(vh.Vars(api, msg))
			want := gosha256.Sum256(msg)
			if g := vh.U8s(t, api, d.Sum()); !bytes.Equal(g, want[:]) {
				t.Fatalf("sha256 of %d bytes: %x want %x", n, g, want)
			}
		})
		c.Nontrivial(n)
		vh.Accept(t, err, "%d bytes", n)
	})
}

func TestC05_everyLength(t *testing.T) {
	vh.Sweep(t, vh.Pick(280, 900), func(t *testing.T, c *vh.Case, n int) {
		msg := vh.Expand(uint64(n)+901, n)
		err := fe.Run(fe.BN254, func(api fe.Engine) {
			d := sha512.New(api)
			d.Write(vh.Vars(api, msg))
			want := gosha512.Sum512(msg)
			if g := vh.U8s(t, api, d.Sum()); !bytes.Equal(g, want[:]) {
				t.Fatalf("sha512 of %d bytes: %x want %x", n, g, want)
			}
		})
		c.Nontrivial(n)
		vh.Accept(t, err, "%d bytes", n)
	})
}

// Messages whose length in bits takes a third byte, and more in depth.
func long(t *testing.T, mk func(api frontend.API) shaDigest, ref func([]byte) []byte) {
	lens := []int{8191, 8192, 8193, 8190 + 64, 9999, 12345, 16384, 20000}
	if vh.Thorough() {
		lens = append(lens, 24000, 32767, 32768, 40000, 50001, 65535, 65536, 70001)
	}
	vh.Sweep(t, len(lens), func(t *testing.T, c *vh.Case, i int) {
		n := lens[i]
		msg := vh.Expand(uint64(n)+902, n)
		cut := int(vh.Expand(uint64(n), 1)[0]) * n / 256
		err := fe.Run(fe.BN254, func(api fe.Engine) {
			d := mk(api)
			in := vh.Vars(api, msg)
			d.Write(in[:cut])
			d.Write(in[cut:])
			if g, want := vh.U8s(t, api, d.Sum()), ref(msg); !bytes.Equal(g, want) {
				t.Fatalf("valid message of %d bytes: %x want %x", n, g, want)
			}
		})
		c.Nontrivial(n)
		c.Label("long")
		vh.Accept(t, err, "%d bytes", n)
	})
}

func TestC04_long(t *testing.T) {
	long(t, func(api frontend.API) shaDigest { d := sha256.New(api); return &d },
		func(b []byte) []byte { h := gosha256.Sum256(b); return h[:] })
}

func TestC05_long(t *testing.T) {
	long(t, func(api frontend.API) shaDigest { d := sha512.New(api); return &d },
		func(b []byte) []byte { h := gosha512.Sum512(b); return h[:] })
}
