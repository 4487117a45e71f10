package keysc

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/brevis-network/zk-utils/common/utils"
	bls12377 "github.com/consensys/gnark-crypto/ecc/bls12-377"
	bn254mimc "github.com/consensys/gnark-crypto/ecc/bn254/fr/mimc"
	bw6mimc "github.com/consensys/gnark-crypto/ecc/bw6-761/fr/mimc"
	plonk377 "github.com/consensys/gnark/backend/plonk/bls12-377"
	"github.com/consensys/gnark/std/algebra/native/sw_bls12377"
	replonk "github.com/consensys/gnark/std/recursion/plonk"
	"pgregory.net/rapid"

	"vharness/vh"
)

// words377 lists what identifies a verifying key: public inputs, coset shift, setup and circuit commitments.
func words377(vk *plonk377.VerifyingKey) (out [][]byte) {
	put := func(x *big.Int) { out = append(out, x.FillBytes(make([]byte, 48))) }
	put(new(big.Int).SetUint64(vk.NbPublicVariables))
	shift := vk.CosetShift.BigInt(new(big.Int))
	mask := new(big.Int).SetUint64(1<<64 - 1)
	for i := 0; i < 4; i++ {
		x := new(big.Int).Rsh(shift, uint(64*i))
		put(x.And(x, mask))
	}
	g1 := func(p bls12377.G1Affine) {
		put(p.X.BigInt(new(big.Int)))
		put(p.Y.BigInt(new(big.Int)))
	}
	g1(vk.Kzg.G1)
	for i := range vk.Kzg.G2 {
		p := &vk.Kzg.G2[i]
		put(p.X.A0.BigInt(new(big.Int)))
		put(p.X.A1.BigInt(new(big.Int)))
		put(p.Y.A0.BigInt(new(big.Int)))
		put(p.Y.A1.BigInt(new(big.Int)))
	}
	for _, p := range vk.S {
		g1(p)
	}
	for _, p := range []bls12377.G1Affine{vk.Ql, vk.Qr, vk.Qm, vk.Qo, vk.Qk} {
		g1(p)
	}
	return
}

func hash761(words [][]byte) []byte {
	h := bw6mimc.NewMiMC()
	for _, w := range words {
		if _, err := h.Write(w); err != nil {
			panic(err)
		}
	}
	return h.Sum(nil)
}

func hash254(b []byte) []byte {
	h := bn254mimc.NewMiMC()
	for _, half := range [][]byte{b[:24], b[24:]} {
		if _, err := h.Write(append(make([]byte, 8), half...)); err != nil {
			panic(err)
		}
	}
	return h.Sum(nil)
}

func TestC41_vkHash(t *testing.T) {
	_, _, g1, g2 := bls12377.Generators()
	vh.Check(t, 150, 3000, func(rt *rapid.T, c *vh.Case) {
		q := bls12377.ID.ScalarField()
		vk := &plonk377.VerifyingKey{}
		pool := make([]bls12377.G1Affine, 3) // a few points, so that equal commitments happen
		for i := range pool {
			pool[i].ScalarMultiplication(&g1, vh.BigBelow(rt, "scalar", q))
		}
		for _, p := range []*bls12377.G1Affine{&vk.Kzg.G1, &vk.S[0], &vk.S[1], &vk.S[2], &vk.Ql, &vk.Qr, &vk.Qm, &vk.Qo, &vk.Qk} {
			*p = vh.OneOf(pool).Draw(rt, "point")
			if rapid.Bool().Draw(rt, "fresh") {
				p.ScalarMultiplication(&g1, new(big.Int).SetUint64(rapid.Uint64().Draw(rt, "small")))
			}
		}
		for i := range vk.Kzg.G2 {
			vk.Kzg.G2[i].ScalarMultiplication(&g2, new(big.Int).Add(vh.BigBelow(rt, "g2", new(big.Int).Sub(q, big.NewInt(1))), big.NewInt(1)))
		}
		vk.NbPublicVariables = vh.BigBelow(rt, "publics", vh.Pow2(64)).Uint64()
		vk.CosetShift.SetBigInt(vh.BigBelow(rt, "shift", q))
		vk.Size, vk.Generator = rapid.Uint64().Draw(rt, "size"), vk.CosetShift
		hash := func(vk *plonk377.VerifyingKey) []byte {
			v, err := replonk.ValueOfVerifyingKey[sw_bls12377.ScalarField, sw_bls12377.G1Affine, sw_bls12377.G2Affine](vk)
			if err != nil {
				panic(err)
			}
			return utils.CalculateAppVkHashFor761(v)
		}
		words := words377(vk)
		c.Nontrivial(words)
		c.Label("%d public inputs in bits", new(big.Int).SetUint64(vk.NbPublicVariables).BitLen()/16*16)
		c.Sample("%d public inputs, shift %v", vk.NbPublicVariables, vk.CosetShift.String())
		got := hash(vk)
		if want := hash761(words); !bytes.Equal(got, want) {
			rt.Fatalf("invalid key hash %x, want %x", got, want)
		}
		if again := hash(vk); !bytes.Equal(got, again) {
			rt.Fatalf("asked again, the key hash is an invalid %x, was %x", again, got)
		}
		// another key has another hash
		other := *vk
		one := bls12377.G1Affine{}
		one.Add(&pool[0], &g1)
		which := vh.Even(0, 12).Draw(rt, "changed")
		switch which {
		case 0:
			other.NbPublicVariables ^= 1
		case 1:
			other.CosetShift.SetUint64(12345678901)
		case 2, 3:
			other.Kzg.G2[which-2].Neg(&other.Kzg.G2[which-2])
		default:
			p := []*bls12377.G1Affine{&other.Kzg.G1, &other.S[0], &other.S[1], &other.S[2], &other.Ql, &other.Qr, &other.Qm, &other.Qo, &other.Qk}[which-4]
			p.Add(p, &g1)
		}
		if !sameWords(words, words377(&other)) && bytes.Equal(hash(&other), got) {
			rt.Fatalf("a key with part %d changed has the same hash %x: invalid", which, got)
		}
		if short, want := utils.CalculateAppVkHashFrom761To254(got), hash254(got); !bytes.Equal(short, want) {
			rt.Fatalf("the hash of %x for BN254 is an invalid %x, want %x", got, short, want)
		}
	})
}

func sameWords(a, b [][]byte) bool { return fmt.Sprint(a) == fmt.Sprint(b) }

func TestC41_words(t *testing.T) {
	vh.Check(t, 500, 10000, func(rt *rapid.T, c *vh.Case) {
		b := vh.Bytes(rt, "b", 48)
		keep := bytes.Clone(b)
		c.Nontrivial(b)
		c.Label("48 bytes")
		c.Sample("%x", b)
		got := utils.CalculateAppVkHashFrom761To254(b)
		if want := hash254(keep); !bytes.Equal(got, want) || !bytes.Equal(b, keep) {
			rt.Fatalf("the hash of %x is an invalid %x, want %x", keep, got, want)
		}
		n := rapid.IntRange(0, 40).Draw(rt, "n")
		size := rapid.IntRange(0, 50).Draw(rt, "size")
		d := vh.Bytes(rt, "d", n)
		if n <= size {
			got := utils.MiMCBlockPad0(d, size)
			if want := append(make([]byte, size-n), d...); !bytes.Equal(got, want) {
				rt.Fatalf("%x padded to %d is an invalid %x", d, size, got)
			}
		}
	})
}
