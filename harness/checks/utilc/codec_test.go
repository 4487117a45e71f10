package utilc

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"testing"

	"github.com/brevis-network/zk-utils/common/utils"
	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"golang.org/x/crypto/sha3"
	"pgregory.net/rapid"

	"vharness/vh"
)

// A small ABI model of its own: types, values and the encoding of the contract ABI specification.
type typ struct {
	name string // elementary type, "" for a list
	elem *typ
	n    int // -1 for a dynamic list
}

func (t *typ) String() string {
	if t.elem == nil {
		return t.name
	}
	if t.n < 0 {
		return t.elem.String() + "[]"
	}
	return fmt.Sprintf("%v[%d]", t.elem, t.n)
}

func (t *typ) dynamic() bool {
	if t.elem == nil {
		return t.name == "bytes" || t.name == "string"
	}
	return t.n < 0 || t.elem.dynamic()
}

func drawType(rt *rapid.T, depth int) *typ {
	if depth > 0 && rapid.IntRange(0, 3).Draw(rt, "list") == 0 {
		return &typ{elem: drawType(rt, depth-1), n: rapid.IntRange(-1, 3).Filter(func(n int) bool { return n != 0 }).Draw(rt, "size")}
	}
	return &typ{name: vh.OneOf([]string{"uint256", "uint256", "uint8", "uint16", "uint32", "uint64", "uint128", "int256", "int64", "int8", "int40", "bool", "address", "bytes32", "bytes4", "bytes", "string"}).Draw(rt, "type")}
}

func word(v *big.Int) []byte { // two's complement
	return new(big.Int).And(v, new(big.Int).Sub(vh.Pow2(256), big.NewInt(1))).FillBytes(make([]byte, 32))
}

func right(b []byte) []byte { // padded on the right to whole words
	return append(bytes.Clone(b), make([]byte, (32-len(b)%32)%32)...)
}

// drawValue draws a Go value of type t and its encoding.
func drawValue(rt *rapid.T, t *typ) (reflect.Value, []byte) {
	if t.elem != nil {
		n := t.n
		if n < 0 {
			n = rapid.IntRange(0, 3).Draw(rt, "len")
		}
		var vals []reflect.Value
		var encs [][]byte
		for i := 0; i < n; i++ {
			v, e := drawValue(rt, t.elem)
			vals, encs = append(vals, v), append(encs, e)
		}
		et := goType(t.elem)
		out := reflect.MakeSlice(reflect.SliceOf(et), n, n)
		if t.n >= 0 {
			out = reflect.New(reflect.ArrayOf(n, et)).Elem()
		}
		for i := range vals {
			out.Index(i).Set(vals[i])
		}
		ts := make([]*typ, n)
		for i := range ts {
			ts[i] = t.elem
		}
		e := tuple(ts, encs)
		if t.n < 0 {
			e = append(word(big.NewInt(int64(n))), e...)
		}
		return out, e
	}
	switch t.name {
	case "bool":
		b := rapid.Bool().Draw(rt, "b")
		v := int64(0)
		if b {
			v = 1
		}
		return reflect.ValueOf(b), word(big.NewInt(v))
	case "address":
		a := common.BytesToAddress(vh.Bytes(rt, "a", 20))
		return reflect.ValueOf(a), word(new(big.Int).SetBytes(a[:]))
	case "bytes32":
		var x [32]byte
		copy(x[:], vh.Bytes(rt, "b32", 32))
		return reflect.ValueOf(x), right(x[:])
	case "bytes4":
		var x [4]byte
		copy(x[:], vh.Bytes(rt, "b4", 4))
		return reflect.ValueOf(x), right(x[:])
	case "bytes", "string":
		b := vh.Bytes(rt, "bytes", vh.Edge(rt, "blen", 0, 70, 31, 32, 33, 64))
		e := append(word(big.NewInt(int64(len(b)))), right(b)...)
		if t.name == "string" {
			return reflect.ValueOf(string(b)), e
		}
		return reflect.ValueOf(b), e
	}
	var bits int
	fmt.Sscanf(strings.TrimLeft(t.name, "uint"), "%d", &bits)
	v := vh.BigBelow(rt, "v", vh.Pow2(bits))
	if t.name[0] == 'i' && v.Bit(bits-1) == 1 {
		v.Sub(v, vh.Pow2(bits))
	}
	g := goType(t)
	if g.Kind() == reflect.Ptr {
		return reflect.ValueOf(v), word(v)
	}
	r := reflect.New(g).Elem()
	if r.CanInt() {
		r.SetInt(v.Int64())
	} else {
		r.SetUint(v.Uint64())
	}
	return r, word(v)
}

func goType(t *typ) reflect.Type {
	a, err := abi.NewType(t.String(), "", nil)
	if err != nil {
		panic(err)
	}
	return a.GetType()
}

// tuple lays values out: static ones in place, offsets to the dynamic ones.
func tuple(ts []*typ, encs [][]byte) []byte {
	head := 0
	for i, t := range ts {
		if t.dynamic() {
			head += 32
		} else {
			head += len(encs[i])
		}
	}
	var hd, tail []byte
	for i, t := range ts {
		if t.dynamic() {
			hd = append(hd, word(big.NewInt(int64(head+len(tail))))...)
			tail = append(tail, encs[i]...)
		} else {
			hd = append(hd, encs[i]...)
		}
	}
	return append(hd, tail...)
}

type method struct {
	name    string
	in, out []*typ
}

func (m method) sig() []byte {
	var s []string
	for _, t := range m.in {
		s = append(s, t.String())
	}
	h := sha3.NewLegacyKeccak256()
	h.Write([]byte(m.name + "(" + strings.Join(s, ",") + ")"))
	return h.Sum(nil)[:4]
}

func abiJSON(ms []method) string {
	type arg struct {
		Name string `json:"name"`
		Type string `json:"type"`
	}
	args := func(ts []*typ) []arg {
		out := []arg{}
		for i, t := range ts {
			out = append(out, arg{fmt.Sprintf("a%d", i), t.String()})
		}
		return out
	}
	var l []map[string]any
	for _, m := range ms {
		l = append(l, map[string]any{"type": "function", "name": m.name, "stateMutability": "view", "inputs": args(m.in), "outputs": args(m.out)})
	}
	b, _ := json.Marshal(l)
	return string(b)
}

func equalValue(a, b reflect.Value) bool {
	return fmt.Sprintf("%#v", norm(a)) == fmt.Sprintf("%#v", norm(b))
}

// norm makes values comparable: big integers as text, lists of length zero alike.
func norm(v reflect.Value) any {
	if x, ok := v.Interface().(*big.Int); ok {
		return x.String()
	}
	switch v.Kind() {
	case reflect.Slice, reflect.Array:
		out := []any{}
		for i := 0; i < v.Len(); i++ {
			out = append(out, norm(v.Index(i)))
		}
		return out
	}
	return fmt.Sprint(v.Interface())
}

// holder is where a value of type t is decoded to: integers are decoded into the caller's own big.Int.
func holder(t *typ) (ptr any, read func() reflect.Value) {
	g := goType(t)
	if g == reflect.TypeOf((*big.Int)(nil)) {
		b := big.NewInt(-77)
		return b, func() reflect.Value { return reflect.ValueOf(b) }
	}
	p := reflect.New(g)
	return p.Interface(), func() reflect.Value { return p.Elem() }
}

func TestC39_codec(t *testing.T) {
	vh.Check(t, 2500, 80000, func(rt *rapid.T, c *vh.Case) {
		var ms []method
		for i := rapid.IntRange(1, 3).Draw(rt, "methods"); i > 0; i-- {
			m := method{name: fmt.Sprintf("m%d", i)}
			for j := rapid.IntRange(0, 4).Draw(rt, "inputs"); j > 0; j-- {
				m.in = append(m.in, drawType(rt, 2))
			}
			for j := rapid.IntRange(0, 4).Draw(rt, "outputs"); j > 0; j-- {
				m.out = append(m.out, drawType(rt, 2))
			}
			ms = append(ms, m)
		}
		cd := utils.NewContractCodec(abiJSON(ms))
		if n := len(cd.ABI().Methods); n != len(ms) {
			rt.Fatalf("invalid: %d methods of %d", n, len(ms))
		}
		type kept struct{ got, want []byte }
		var hist []kept
		keep := func(got, want []byte) { hist = append(hist, kept{got, bytes.Clone(want)}) }
		steps := rapid.IntRange(1, 5).Draw(rt, "steps")
		for s := 0; s < steps; s++ {
			m := vh.OneOf(ms).Draw(rt, "method")
			sel := cd.Selector(m.name)
			if !bytes.Equal(sel, m.sig()) {
				rt.Fatalf("step %d: invalid selector of %s: %x", s, m.name, sel)
			}
			if rapid.Bool().Draw(rt, "keep selector") {
				tail := vh.RandBytes(rt, "tail", rapid.IntRange(0, 30).Draw(rt, "tail bytes"))
				keep(append(sel, tail...), append(m.sig(), tail...))
			}
			op := vh.OneOf([]string{"call", "return", "unknown", "count", "truncate", "not a pointer", "scribble"}).Draw(rt, "op")
			c.Label("%s", op)
			ts := m.in
			ret := rapid.Bool().Draw(rt, "return")
			if op == "call" {
				ret = false
			} else if op == "return" {
				ret = true
			}
			if ret {
				ts = m.out
			}
			var vals []any
			var refs []reflect.Value
			var encs [][]byte
			for _, t := range ts {
				v, e := drawValue(rt, t)
				refs, vals, encs = append(refs, v), append(vals, v.Interface()), append(encs, e)
			}
			want := tuple(ts, encs)
			c.Nontrivial(op, ts, want)
			c.Sample("%s %s%v return=%v: %x", op, m.name, ts, ret, want)
			encode, decode := cd.EncodeCalldata, cd.DecodeCalldata
			full := append(m.sig(), want...)
			if ret {
				encode, decode = cd.EncodeReturnData, cd.DecodeReturnData
				full = want
			}
			var ptrs []any
			var reads []func() reflect.Value
			for _, t := range ts {
				p, r := holder(t)
				ptrs, reads = append(ptrs, p), append(reads, r)
			}
			switch op {
			case "unknown":
				if _, err := encode("nope", vals...); err == nil {
					rt.Fatalf("an invalid method was encoded")
				}
				if decode("nope", want, ptrs...) == nil {
					rt.Fatalf("data of an invalid method was decoded")
				}
			case "count":
				if _, err := encode(m.name, append(vals, "extra")...); err == nil {
					rt.Fatalf("%v with an invalid extra argument was encoded", ts)
				}
				extra := ""
				if decode(m.name, want, append(ptrs, &extra)...) == nil {
					rt.Fatalf("%v was decoded into %d places: invalid", ts, len(ts)+1)
				}
				if len(ts) > 0 {
					if _, err := encode(m.name, vals[1:]...); err == nil {
						rt.Fatalf("%v with an argument missing was encoded: invalid", ts)
					}
					if decode(m.name, want, ptrs[1:]...) == nil {
						rt.Fatalf("%v was decoded into %d places: invalid", ts, len(ts)-1)
					}
				}
			case "truncate":
				cut := rapid.IntRange(0, len(want)).Draw(rt, "cut")
				if cut/32 < (len(want)+31)/32 && len(want) > 0 && staticOnly(ts) {
					if decode(m.name, want[:cut], ptrs...) == nil {
						rt.Fatalf("%d of %d bytes of %v were decoded: invalid", cut, len(want), ts)
					}
				}
			case "not a pointer":
				if len(ts) > 0 {
					i := vh.Even(0, len(ts)-1).Draw(rt, "i")
					ptrs[i] = 5
					if decode(m.name, want, ptrs...) == nil {
						rt.Fatalf("%v was decoded into a number: invalid", ts)
					}
				}
			case "scribble": // what the codec returned is the caller's
				for _, k := range hist {
					for i := range k.got {
						k.got[i] ^= 0xa5
					}
					_ = append(k.got, 0xaa, 0xbb)
				}
				hist = nil
			default:
				got, err := encode(m.name, vals...)
				if err != nil {
					rt.Fatalf("valid %v of %v was refused: %v", vals, ts, err)
				}
				if !bytes.Equal(got, full) {
					rt.Fatalf("%s%v of %v is encoded as invalid\n%x, want\n%x", m.name, ts, vals, got, full)
				}
				keep(got, full)
				_ = append(got, 1, 2, 3, 4, 5, 6, 7, 8)
				data := bytes.Clone(want)
				if err := decode(m.name, data, ptrs...); err != nil {
					rt.Fatalf("valid data of %v was refused: %v", ts, err)
				}
				for i := range ts {
					if !equalValue(reads[i](), refs[i]) {
						rt.Fatalf("%v of %v decodes to the invalid %v, want %v", ts[i], ts, norm(reads[i]()), norm(refs[i]))
					}
				}
			}
			for _, k := range hist {
				if !bytes.Equal(k.got, k.want) {
					rt.Fatalf("data encoded earlier became invalid: %x, was %x", k.got, k.want)
				}
			}
		}
	})
}

func staticOnly(ts []*typ) bool {
	for _, t := range ts {
		if t.dynamic() {
			return false
		}
	}
	return true
}
