package bindc

import (
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"golang.org/x/crypto/sha3"
	"pgregory.net/rapid"

	"vharness/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

// The contract interfaces, and an encoder of the contract ABI written from its
// specification: values are *big.Int, bool, []byte, string and []any.

//go:embed ifaces.json
var ifacesJSON []byte

type param struct {
	Name       string
	Type       string
	Components []param
	Indexed    bool
}

type member struct {
	Type            string
	Name            string
	Inputs          []param
	Outputs         []param
	StateMutability string
	Anonymous       bool

	goName string // the binding's name for it
	key    string // go-ethereum's name for it, numbered when overloaded
}

type contract struct {
	name                                   string
	new, newCaller, newTransactor, newFltr any
	deploy                                 any
	bin, abi                               string
	session, callerSession, transSession   any
	raw, callerRaw, transRaw               any
}

var ifaces = func() map[string][]*member {
	var in map[string][]struct {
		Go string
		E  member
	}
	if err := json.Unmarshal(ifacesJSON, &in); err != nil {
		panic(err)
	}
	out := map[string][]*member{}
	for n, l := range in {
		nth := map[string]int{}
		for _, e := range l {
			m := e.E
			m.goName, m.key = e.Go, m.Name
			k := m.Type + m.Name
			if c := nth[k]; c > 0 {
				m.key = fmt.Sprintf("%s%d", m.Name, c-1)
			}
			nth[k]++
			for i := range m.Inputs {
				if m.Inputs[i].Name == "" {
					m.Inputs[i].Name = fmt.Sprintf("arg%d", i)
				}
			}
			out[n] = append(out[n], &m)
		}
	}
	return out
}()

func (m *member) constant() bool { return m.StateMutability == "view" || m.StateMutability == "pure" }

func (m *member) signature() string {
	var a []string
	for _, p := range m.Inputs {
		a = append(a, p.canonical())
	}
	return m.Name + "(" + strings.Join(a, ",") + ")"
}

func (p param) canonical() string {
	if !strings.HasPrefix(p.Type, "tuple") {
		return p.Type
	}
	var a []string
	for _, c := range p.Components {
		a = append(a, c.canonical())
	}
	return "(" + strings.Join(a, ",") + ")" + p.Type[len("tuple"):]
}

func keccak(b []byte) []byte {
	h := sha3.NewLegacyKeccak256()
	h.Write(b)
	return h.Sum(nil)
}

func (m *member) id() []byte { return keccak([]byte(m.signature())) }

// elem splits an array type: its element and its length, -1 when dynamic.
func (p param) elem() (param, int, bool) {
	if !strings.HasSuffix(p.Type, "]") {
		return param{}, 0, false
	}
	i := strings.LastIndex(p.Type, "[")
	n := -1
	if s := p.Type[i+1 : len(p.Type)-1]; s != "" {
		n, _ = strconv.Atoi(s)
	}
	e := p
	e.Type = p.Type[:i]
	return e, n, true
}

func (p param) dynamic() bool {
	if e, n, ok := p.elem(); ok {
		return n < 0 || e.dynamic()
	}
	if p.Type == "tuple" {
		for _, c := range p.Components {
			if c.dynamic() {
				return true
			}
		}
	}
	return p.Type == "bytes" || p.Type == "string"
}

func bits(ty, prefix string) int {
	n, err := strconv.Atoi(strings.TrimPrefix(ty, prefix))
	if err != nil {
		panic("type " + ty)
	}
	return n
}

// draw is a value of the type.
func draw(rt *rapid.T, p param) any {
	if e, n, ok := p.elem(); ok {
		if n < 0 {
			n = vh.Even(0, 3).Draw(rt, "len")
		}
		l := make([]any, n)
		for i := range l {
			l[i] = draw(rt, e)
		}
		return l
	}
	switch {
	case p.Type == "tuple":
		return drawAll(rt, p.Components)
	case p.Type == "bool":
		return rapid.Bool().Draw(rt, "bool")
	case p.Type == "address":
		return vh.Bytes(rt, "address", 20)
	case p.Type == "bytes":
		return vh.Bytes(rt, "bytes", vh.Even(0, 70).Draw(rt, "len"))
	case p.Type == "string":
		return rapid.StringN(0, 40, 80).Draw(rt, "string")
	case strings.HasPrefix(p.Type, "bytes"):
		return vh.Bytes(rt, "bytesN", bits(p.Type, "bytes"))
	case strings.HasPrefix(p.Type, "uint"):
		return vh.BigBelow(rt, "uint", vh.Pow2(bits(p.Type, "uint")))
	case strings.HasPrefix(p.Type, "int"):
		n := bits(p.Type, "int")
		v := vh.BigBelow(rt, "int", vh.Pow2(n))
		if v.Bit(n-1) == 1 {
			v = new(big.Int).Sub(v, vh.Pow2(n))
		}
		return v
	}
	panic("type " + p.Type)
}

func drawAll(rt *rapid.T, ps []param) []any {
	l := make([]any, len(ps))
	for i, p := range ps {
		l[i] = draw(rt, p)
	}
	return l
}

func word(v *big.Int) []byte {
	if v.Sign() < 0 {
		v = new(big.Int).Add(v, vh.Pow2(256))
	}
	return v.FillBytes(make([]byte, 32))
}

func encode(p param, v any) []byte {
	if e, n, ok := p.elem(); ok {
		l := v.([]any)
		ps := make([]param, len(l))
		for i := range ps {
			ps[i] = e
		}
		b := encodeAll(ps, l)
		if n < 0 {
			b = append(word(big.NewInt(int64(len(l)))), b...)
		}
		return b
	}
	switch x := v.(type) {
	case []any:
		return encodeAll(p.Components, x)
	case bool:
		if x {
			return word(big.NewInt(1))
		}
		return word(new(big.Int))
	case *big.Int:
		return word(x)
	case string:
		return encode(param{Type: "bytes"}, []byte(x))
	case []byte:
		switch p.Type {
		case "address":
			return append(make([]byte, 12), x...)
		case "bytes":
			b := append(word(big.NewInt(int64(len(x)))), x...)
			return append(b, make([]byte, (32-len(x)%32)%32)...)
		}
		return append(append([]byte{}, x...), make([]byte, 32-len(x))...)
	}
	panic(fmt.Sprintf("value %T", v))
}

func encodeAll(ps []param, vs []any) []byte {
	head, tail := 0, []byte{}
	enc := make([][]byte, len(ps))
	for i, p := range ps {
		enc[i] = encode(p, vs[i])
		if p.dynamic() {
			head += 32
		} else {
			head += len(enc[i])
		}
	}
	out := []byte{}
	for i, p := range ps {
		if !p.dynamic() {
			out = append(out, enc[i]...)
			continue
		}
		out = append(out, word(big.NewInt(int64(head+len(tail))))...)
		tail = append(tail, enc[i]...)
	}
	return append(out, tail...)
}

func camel(s string) string {
	parts := strings.Split(s, "_")
	for i, p := range parts {
		if p != "" {
			parts[i] = strings.ToUpper(p[:1]) + p[1:]
		}
	}
	return strings.Join(parts, "")
}

var bigT = reflect.TypeOf(new(big.Int))

// toGo puts the value into a Go value of type ty.
func toGo(t vh.TB, p param, v any, ty reflect.Type) reflect.Value {
	out := reflect.New(ty).Elem()
	bad := func() { t.Fatalf("a valid %s is not carried by a Go %v", p.canonical(), ty) }
	if e, _, ok := p.elem(); ok {
		l := v.([]any)
		switch ty.Kind() {
		case reflect.Slice:
			out.Set(reflect.MakeSlice(ty, len(l), len(l)))
		case reflect.Array:
			if ty.Len() != len(l) {
				bad()
			}
		default:
			bad()
		}
		for i := range l {
			out.Index(i).Set(toGo(t, e, l[i], ty.Elem()))
		}
		return out
	}
	switch x := v.(type) {
	case []any:
		if ty.Kind() != reflect.Struct {
			bad()
		}
		for i, c := range p.Components {
			f := out.FieldByName(camel(c.Name))
			if !f.IsValid() {
				bad()
			}
			f.Set(toGo(t, c, x[i], f.Type()))
		}
	case bool:
		if ty.Kind() != reflect.Bool {
			bad()
		}
		out.SetBool(x)
	case string:
		if ty.Kind() != reflect.String {
			bad()
		}
		out.SetString(x)
	case *big.Int:
		switch {
		case ty == bigT:
			out.Set(reflect.ValueOf(new(big.Int).Set(x)))
		case out.CanUint() && x.IsUint64() && !out.OverflowUint(x.Uint64()):
			out.SetUint(x.Uint64())
		case out.CanInt() && x.IsInt64() && !out.OverflowInt(x.Int64()):
			out.SetInt(x.Int64())
		default:
			bad()
		}
	case []byte:
		switch {
		case ty.Kind() == reflect.Slice && ty.Elem().Kind() == reflect.Uint8:
			out.SetBytes(append([]byte{}, x...))
		case ty.Kind() == reflect.Array && ty.Elem().Kind() == reflect.Uint8 && ty.Len() == len(x):
			reflect.Copy(out, reflect.ValueOf(x))
		default:
			bad()
		}
	}
	return out
}

// same tells whether the Go value is the value.
func same(p param, v any, g reflect.Value) bool {
	for g.IsValid() && g.Kind() == reflect.Interface {
		g = g.Elem()
	}
	if !g.IsValid() {
		return false
	}
	if e, _, ok := p.elem(); ok {
		l := v.([]any)
		if k := g.Kind(); k != reflect.Slice && k != reflect.Array || g.Len() != len(l) {
			return false
		}
		for i := range l {
			if !same(e, l[i], g.Index(i)) {
				return false
			}
		}
		return true
	}
	switch x := v.(type) {
	case []any:
		if g.Kind() == reflect.Pointer {
			g = g.Elem()
		}
		return g.Kind() == reflect.Struct && sameFields(p.Components, x, g)
	case bool:
		return g.Kind() == reflect.Bool && g.Bool() == x
	case string:
		return g.Kind() == reflect.String && g.String() == x
	case *big.Int:
		switch {
		case g.Type() == bigT:
			return !g.IsNil() && g.Interface().(*big.Int).Cmp(x) == 0
		case g.CanUint():
			return x.IsUint64() && x.Uint64() == g.Uint()
		case g.CanInt():
			return x.IsInt64() && x.Int64() == g.Int()
		}
		return false
	case []byte:
		if k := g.Kind(); k != reflect.Slice && k != reflect.Array || g.Type().Elem().Kind() != reflect.Uint8 || g.Len() != len(x) {
			return false
		}
		b := make([]byte, g.Len())
		reflect.Copy(reflect.ValueOf(b), g)
		return bytes.Equal(b, x)
	}
	return false
}

func sameFields(ps []param, vs []any, g reflect.Value) bool {
	for i, p := range ps {
		f := g.FieldByName(camel(p.Name))
		if !f.IsValid() || !same(p, vs[i], f) {
			return false
		}
	}
	return true
}

func show(vs []any) string {
	s := fmt.Sprintf("%x", vs)
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}

func addr(b []byte) common.Address { return common.BytesToAddress(b) }
