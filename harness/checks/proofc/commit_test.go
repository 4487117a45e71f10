package proofc

import (
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"testing"

	"github.com/brevis-network/zk-utils/common/proof"
	"github.com/brevis-network/zk-utils/common/utils"
	"github.com/iden3/go-iden3-crypto/poseidon"
	"pgregory.net/rapid"

	"vharness/vh"
)

// stream is a little-endian bit string of fixed-width fields, kept as one integer.
type stream struct {
	v    *big.Int
	bits uint
}

func (s *stream) put(x *big.Int, bits uint) {
	if x.BitLen() > int(bits) {
		panic("the field does not fit")
	}
	s.v.Or(s.v, new(big.Int).Lsh(x, s.bits))
	s.bits += bits
}

func (s *stream) u64(x uint64, bits uint) { s.put(new(big.Int).SetUint64(x), bits) }

// commitment is the Poseidon hash of the stream in chunks of 253 bits; ok is false where Poseidon has no such arity.
func (s *stream) commitment() (h *big.Int, ok bool) {
	var in []*big.Int
	mask := new(big.Int).Sub(vh.Pow2(253), big.NewInt(1))
	for at := uint(0); at < s.bits; at += 253 {
		x := new(big.Int).Rsh(s.v, at)
		in = append(in, x.And(x, mask))
	}
	h, err := poseidon.Hash(in)
	return h, err == nil
}

// number spells v as the requests do: decimal or 0x hex.
func number(rt *rapid.T, v *big.Int) string {
	if rapid.Bool().Draw(rt, "decimal") {
		return v.String()
	}
	return fmt.Sprintf("0x%x", v)
}

func TestC34_commitments(t *testing.T) {
	vh.Check(t, 1500, 40000, func(rt *rapid.T, c *vh.Case) {
		kind := vh.OneOf([]string{"receipt", "receipt", "storage", "tx"}).Draw(rt, "kind")
		r := rand.New(rand.NewSource(int64(rapid.Uint64().Draw(rt, "rest"))))
		bad := ""
		if rapid.IntRange(0, 4).Draw(rt, "bad") == 0 {
			fields := []string{"block number", "base fee"}
			switch kind {
			case "receipt":
				fields = append(fields, "key", "log index", "value index", "value", "address", "hex")
			case "storage":
				fields = append(fields, "address", "slot", "value")
			case "tx":
				fields = append(fields, "key", "leaf hash")
			}
			bad = vh.OneOf(fields).Draw(rt, "field")
		}
		// over makes a value of the given width, or one that does not fit when the field is the bad one
		over := func(field string, bits int) *big.Int {
			v := vh.BigBelow(rt, field, vh.Pow2(bits))
			if field == bad {
				v.Add(v, vh.Pow2(bits))
			}
			return v
		}
		hexBytes := func(field string, n int) (string, *big.Int) { // exactly n bytes, or one more
			b := vh.Bytes(rt, field, n)
			if field == bad {
				b = append([]byte{byte(1 + r.Intn(255))}, b...)
			}
			return hexText(rt, b), new(big.Int).SetBytes(b)
		}
		s := &stream{v: new(big.Int)}
		put := func(v *big.Int, bits uint) {
			if bad == "" {
				s.put(v, bits)
			}
		}
		bn, fee, tm := over("block number", 32), over("base fee", 128), vh.BigBelow(rt, "time", vh.Pow2(64))
		put(bn, 32)
		put(fee, 128)
		var run func() ([]byte, error)
		logs := 0
		switch kind {
		case "receipt":
			in := &proof.SDKQueryProvingInfoForReceipt{}
			fill(r, reflect.ValueOf(in).Elem(), false)
			key := over("key", 32)
			in.BlockNumber, in.BlockBaseFee, in.MPTKey, in.BlockTime = bn.Uint64(), number(rt, fee), number(rt, key), tm.Uint64()
			put(key, 32)
			in.LogExtractInfos = nil
			logs = rapid.IntRange(0, 8).Draw(rt, "logs")
			if bad == "log index" || bad == "value index" || bad == "value" || bad == "address" || bad == "hex" {
				logs = vh.Even(1, 7).Draw(rt, "few logs")
			}
			which := bad
			at := 0
			if logs > 0 {
				at = vh.Even(0, logs-1).Draw(rt, "bad log")
			}
			for i := 0; i < logs; i++ {
				l := &proof.SDKQueryLogExtractInfo{}
				fill(r, reflect.ValueOf(l).Elem(), false)
				if i != at && bad != "" {
					bad = "in log"
				} else {
					bad = which
				}
				var a, v *big.Int
				l.ContractAddress, a = hexBytes("address", 20)
				l.Value, v = hexBytes("value", 32)
				if rapid.IntRange(0, 3).Draw(rt, "short value") == 0 && bad == "" { // values need not be padded
					b := v.Bytes()
					l.Value = hexText(rt, b)
				}
				topic := vh.Bytes(rt, "topic", 32)
				l.LogTopic0 = hexText(rt, topic)
				li, vi := over("log index", 16), over("value index", 7)
				l.LogIndex, l.ValueIndex = li.Uint64(), vi.Uint64()
				if bad == "hex" {
					f := vh.OneOf([]*string{&l.ContractAddress, &l.LogTopic0, &l.Value}).Draw(rt, "text")
					*f = vh.OneOf([]string{"0xzz", "12", "", "0x1", (*f)[2:], *f + "g"}).Draw(rt, "hex text")
				}
				put(a, 160)
				put(li, 16)
				put(new(big.Int).SetBytes(topic[:6]), 48)
				flag := uint64(0)
				if l.ValueFromTopic {
					flag = 1
				}
				put(new(big.Int).SetUint64(flag), 1)
				put(vi, 7)
				put(v, 256)
				in.LogExtractInfos = append(in.LogExtractInfos, l)
			}
			bad = which
			run = func() ([]byte, error) { return proof.MiMCHashReceiptCustomInputs(in) }
		case "storage":
			in := &proof.SDKQueryProvingInfoForStorageSlot{}
			fill(r, reflect.ValueOf(in).Elem(), false)
			a := over("address", 160)
			var slot *big.Int
			in.Slot, slot = hexBytes("slot", 32)
			if bad == "" && rapid.Bool().Draw(rt, "short slot") {
				in.Slot = hexText(rt, slot.Bytes())
			}
			v := over("value", 256)
			in.BlockNumber, in.BlockBaseFee, in.BlockTime = bn.Uint64(), number(rt, fee), tm.Uint64()
			in.AccountAddress, in.SlotValue = fmt.Sprintf("0x%040x", a), v.String()
			put(a, 160)
			put(slot, 256)
			put(v, 256)
			run = func() ([]byte, error) { return proof.MiMCHashStorageCustomInputs(in) }
		case "tx":
			in := &proof.SDKQueryProvingInfoForTransaction{}
			fill(r, reflect.ValueOf(in).Elem(), false)
			key := over("key", 32)
			var leaf *big.Int
			in.LeafHash, leaf = hexBytes("leaf hash", 32)
			in.BlockNumber, in.BlockBaseFee, in.MPTKey, in.BlockTime = bn.Uint64(), number(rt, fee), number(rt, key), tm.Uint64()
			put(key, 32)
			put(leaf, 256)
			run = func() ([]byte, error) { return proof.MiMCHashTxCustomInputs(in) }
		}
		put(tm, 64)
		c.Nontrivial(kind, s.v, bad)
		c.Label("%s, %d logs, invalid: %q", kind, logs, bad)
		c.Sample("%s at block %v, base fee %v, %d logs, invalid %q", kind, bn, fee, logs, bad)
		var got []byte
		var err error
		p := panics(func() { got, err = run() })
		if bad != "" {
			if !p && err == nil {
				rt.Fatalf("%s with an invalid %s has the commitment %x", kind, bad, got)
			}
			return
		}
		want, ok := s.commitment()
		if p || ok != (err == nil) {
			rt.Fatalf("valid %s with %d logs: panic %v, error %v", kind, logs, p, err)
		}
		if ok && new(big.Int).SetBytes(got).Cmp(want) != 0 {
			rt.Fatalf("the commitment %x of a %s with %d logs is invalid, want %x", got, kind, logs, want)
		}
	})
}

func TestC34_slot(t *testing.T) {
	vh.Check(t, 500, 10000, func(rt *rapid.T, c *vh.Case) {
		b := vh.Bytes(rt, "slot", vh.Edge(rt, "len", 0, 34, 1, 31, 32, 33))
		s := hexText(rt, b)
		if rapid.Bool().Draw(rt, "bare") {
			s = s[2:]
		}
		c.Nontrivial(s)
		c.Label("%d bytes", len(b))
		c.Sample("%s", s)
		var got []byte
		p := panics(func() { got = proof.GetPaddedSlotBytes(s) })
		if len(b) > 32 {
			if !p {
				rt.Fatalf("a slot of %d bytes, which is invalid, is padded to %x", len(b), got)
			}
			return
		}
		if p {
			rt.Fatalf("panic for the valid slot %s", s)
		}
		eq(rt, "slot "+s, got, append(make([]byte, 32-len(b)), b...))
	})
}

func TestC34_poseidon(t *testing.T) {
	vh.Check(t, 600, 12000, func(rt *rapid.T, c *vh.Case) {
		h := utils.NewPoseidonBn254()
		q, _ := new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)
		var in []*big.Int
		var ops []string
		for i := rapid.IntRange(1, 25).Draw(rt, "ops"); i > 0; i-- {
			op := vh.OneOf([]string{"write", "write", "write", "write", "sum", "reset"}).Draw(rt, "op")
			ops = append(ops, op)
			switch op {
			case "write":
				x := vh.BigBelow(rt, "x", q)
				if rapid.IntRange(0, 30).Draw(rt, "large") == 0 {
					x.Add(x, q)
				}
				h.Write(x)
				in = append(in, new(big.Int).Set(x))
			case "reset":
				h.Reset()
				in = nil
			case "sum":
				want, werr := poseidon.Hash(in)
				got, err := h.Sum()
				if (err == nil) != (werr == nil) || err == nil && got.Cmp(want) != 0 {
					rt.Fatalf("after %v: %v, %v is invalid, want %v, %v", ops, got, err, want, werr)
				}
			}
		}
		c.Nontrivial(ops, in)
		c.Label("%d inputs at the end", len(in)/4*4)
		c.Sample("%v", ops)
		want, werr := poseidon.Hash(in)
		got, err := h.Sum()
		if (err == nil) != (werr == nil) || err == nil && got.Cmp(want) != 0 {
			rt.Fatalf("after %v: %v, %v is invalid, want %v, %v", ops, got, err, want, werr)
		}
		again, err2 := h.Sum()
		if (err2 == nil) != (err == nil) || err == nil && again.Cmp(got) != 0 {
			rt.Fatalf("after %v: asked again, the hash is the invalid %v", ops, again)
		}
	})
}
