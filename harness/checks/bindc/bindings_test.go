package bindc

import (
	"bytes"
	"context"
	"encoding/hex"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	ethereum "github.com/ethereum/go-ethereum"
	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"pgregory.net/rapid"

	"vharness/vh"
)

type item struct {
	c *contract
	m *member
}

// items lists every member of the kind.
func items(kind string, keep func(*member) bool) []item {
	var out []item
	for i := range registry {
		c := &registry[i]
		for _, m := range ifaces[c.name] {
			if m.Type == kind && (keep == nil || keep(m)) {
				out = append(out, item{c, m})
			}
		}
	}
	return out
}

// bindTo calls a New function of the binding.
func bindTo(t vh.TB, f any, a common.Address, b *chain) reflect.Value {
	out := reflect.ValueOf(f).Call([]reflect.Value{reflect.ValueOf(a), reflect.ValueOf(b)})
	if !out[1].IsNil() {
		t.Fatalf("a valid address is not bound: %v", out[1].Interface())
	}
	return out[0]
}

// session makes a session struct around contract x.
func session(s any, x reflect.Value, co *bind.CallOpts, to *bind.TransactOpts) reflect.Value {
	p := reflect.New(reflect.TypeOf(s))
	p.Elem().FieldByName("Contract").Set(x)
	if f := p.Elem().FieldByName("CallOpts"); f.IsValid() {
		f.Set(reflect.ValueOf(*co))
	}
	if f := p.Elem().FieldByName("TransactOpts"); f.IsValid() {
		f.Set(reflect.ValueOf(*to))
	}
	return p
}

func method(t vh.TB, x reflect.Value, name string) reflect.Value {
	f := x.MethodByName(name)
	if !f.IsValid() {
		t.Fatalf("%v has no method %s for a valid member of the contract", x.Type(), name)
	}
	return f
}

// args are the Go arguments of f for the values, after the given ones.
func args(t vh.TB, f reflect.Value, ps []param, vs []any, first ...any) []reflect.Value {
	ft := f.Type()
	if ft.NumIn() != len(first)+len(ps) {
		t.Fatalf("a method takes %d arguments, a valid call has %d", ft.NumIn(), len(first)+len(ps))
	}
	var in []reflect.Value
	for _, a := range first {
		in = append(in, reflect.ValueOf(a))
	}
	for i, p := range ps {
		in = append(in, toGo(t, p, vs[i], ft.In(len(first)+i)))
	}
	return in
}

// results checks what a call returned, besides its error.
func results(ps []param, vs []any, out []reflect.Value) bool {
	if len(out) == 1 && len(ps) > 1 {
		return out[0].Kind() == reflect.Struct && sameFields(ps, vs, out[0])
	}
	if len(out) != len(ps) {
		return false
	}
	for i, p := range ps {
		if !same(p, vs[i], out[i]) {
			return false
		}
	}
	return true
}

func errOf(out []reflect.Value) error {
	e, _ := out[len(out)-1].Interface().(error)
	return e
}

func TestC44_Calls(t *testing.T) {
	list := items("function", (*member).constant)
	vh.Check(t, 12000, 1200000, func(rt *rapid.T, c *vh.Case) {
		it := list[vh.Even(0, len(list)-1).Draw(rt, "method")]
		m := it.m
		in, res := drawAll(rt, m.Inputs), drawAll(rt, m.Outputs)
		b := &chain{ret: encodeAll(m.Outputs, res)}
		at := addr(vh.Bytes(rt, "at", 20))
		fault := vh.Even(0, 9).Draw(rt, "fault")
		if len(m.Outputs) == 0 && fault == 2 {
			fault = 3
		}
		switch fault {
		case 0:
			b.err = errNode
		case 1:
			b.ret, b.noCode = nil, true
		case 2:
			b.ret = b.ret[:vh.Even(1, 31).Draw(rt, "cut")]
		}
		opts := &bind.CallOpts{From: addr(vh.Bytes(rt, "from", 20)), Pending: fault > 2 && rapid.Bool().Draw(rt, "pending"), Context: context.Background()}
		if rapid.Bool().Draw(rt, "block") && !opts.Pending {
			opts.BlockNumber = big.NewInt(int64(vh.Even(0, 1<<30).Draw(rt, "blockNumber")))
		}
		want := append(m.id()[:4:4], encodeAll(m.Inputs, in)...)
		if len(m.Inputs)+len(m.Outputs) > 1 {
			c.Nontrivial(it.c.name, m.key, show(in), show(res), fault)
		}
		c.Label("fault %d", min(fault, 3))
		c.Sample("%s.%s%s", it.c.name, m.signature(), show(in))

		full, caller := bindTo(rt, it.c.new, at, b), bindTo(rt, it.c.newCaller, at, b)
		try := func(how string, out []reflect.Value) {
			rt.Helper()
			if err := errOf(out); fault <= 2 {
				if err == nil {
					rt.Fatalf("%s of %s.%s: a node's failure or invalid answer %x gives a result", how, it.c.name, m.key, b.ret)
				}
				if fault == 0 && err != errNode {
					rt.Fatalf("%s of %s.%s: the node's error is lost: %v", how, it.c.name, m.key, err)
				}
			} else if err != nil {
				rt.Fatalf("%s of %s.%s: valid answer refused: %v", how, it.c.name, m.key, err)
			} else if !results(m.Outputs, res, out[:len(out)-1]) {
				rt.Fatalf("%s of %s.%s: valid answer %s is returned as something else", how, it.c.name, m.key, show(res))
			}
			if len(b.calls) != 1 {
				rt.Fatalf("%s of %s.%s: %d calls", how, it.c.name, m.key, len(b.calls))
			}
			q := b.calls[0]
			if q.To == nil || *q.To != at || !bytes.Equal(q.Data, want) {
				rt.Fatalf("%s of %s.%s(%s): calls %v with %x, the valid call is %v with %x", how, it.c.name, m.key, show(in), q.To, q.Data, at, want)
			}
			if q.From != opts.From || opts.Pending != (b.pending == 1) {
				rt.Fatalf("%s of %s.%s: the valid options are not used", how, it.c.name, m.key)
			}
			if !opts.Pending && (b.blocks[0] == nil) != (opts.BlockNumber == nil) || opts.BlockNumber != nil && b.blocks[0].Cmp(opts.BlockNumber) != 0 {
				rt.Fatalf("%s of %s.%s: asked at block %v, valid is %v", how, it.c.name, m.key, b.blocks[0], opts.BlockNumber)
			}
			b.calls, b.blocks, b.pending = nil, nil, 0
		}
		for _, x := range []reflect.Value{full, caller} {
			f := method(rt, x, m.goName)
			try("call", f.Call(args(rt, f, m.Inputs, in, opts)))
		}
		for _, s := range []reflect.Value{session(it.c.session, full, opts, &bind.TransactOpts{}), session(it.c.callerSession, caller, opts, nil)} {
			f := method(rt, s, m.goName)
			try("session call", f.Call(args(rt, f, m.Inputs, in)))
		}
		f := method(rt, full, m.goName)
		typed := args(rt, f, m.Inputs, in, opts)
		for _, s := range []reflect.Value{session(it.c.raw, full, nil, nil), session(it.c.callerRaw, caller, nil, nil)} {
			var got []any
			ps := []reflect.Value{reflect.ValueOf(opts), reflect.ValueOf(&got), reflect.ValueOf(m.key)}
			out := method(rt, s, "Call").Call(append(ps, typed[1:]...))
			var vals []reflect.Value
			for _, g := range got {
				vals = append(vals, reflect.ValueOf(g))
			}
			try("raw call", append(vals, out[0]))
		}
	})
}

// auth draws the options of a transaction; the signer records what it signs.
func auth(rt *rapid.T, b *chain) *bind.TransactOpts {
	from := addr(vh.Bytes(rt, "from", 20))
	o := &bind.TransactOpts{From: from, Context: context.Background(), Signer: func(a common.Address, tx *types.Transaction) (*types.Transaction, error) {
		if a != from {
			return nil, bind.ErrNotAuthorized
		}
		return tx, nil
	}}
	b.nonce = uint64(vh.Even(0, 1000).Draw(rt, "pendingNonce"))
	b.gas = uint64(vh.Even(21000, 1<<24).Draw(rt, "estimate"))
	if rapid.Bool().Draw(rt, "nonce") {
		o.Nonce = big.NewInt(int64(vh.Even(0, 1<<30).Draw(rt, "nonceValue")))
	}
	if rapid.Bool().Draw(rt, "gas") {
		o.GasLimit = uint64(vh.Even(21000, 1<<24).Draw(rt, "gasLimit"))
	}
	if rapid.Bool().Draw(rt, "value") {
		o.Value = vh.BigBelow(rt, "valueWei", vh.Pow2(96))
	}
	if rapid.Bool().Draw(rt, "price") {
		o.GasPrice = vh.BigBelow(rt, "priceWei", vh.Pow2(64))
	}
	o.NoSend = vh.Even(0, 3).Draw(rt, "noSend") == 0
	return o
}

// checkTx compares a transaction with its options and the wanted target and data.
func checkTx(rt *rapid.T, how string, b *chain, o *bind.TransactOpts, tx *types.Transaction, to *common.Address, data []byte) {
	rt.Helper()
	if tx == nil {
		rt.Fatalf("%s: no transaction for a valid call", how)
	}
	if (tx.To() == nil) != (to == nil) || to != nil && *tx.To() != *to {
		rt.Fatalf("%s: sent to %v, valid is %v", how, tx.To(), to)
	}
	if !bytes.Equal(tx.Data(), data) {
		rt.Fatalf("%s: data %x, valid is %x", how, tx.Data(), data)
	}
	value, price, nonce, gas := new(big.Int), big.NewInt(7), b.nonce, b.gas
	if o.Value != nil {
		value = o.Value
	}
	if o.GasPrice != nil {
		price = o.GasPrice
	}
	if o.Nonce != nil {
		nonce = o.Nonce.Uint64()
	}
	if o.GasLimit != 0 {
		gas = o.GasLimit
	}
	if tx.Value().Cmp(value) != 0 || tx.GasPrice().Cmp(price) != 0 || tx.Nonce() != nonce || tx.Gas() != gas {
		rt.Fatalf("%s: the valid options are not used: value %v price %v nonce %d gas %d", how, tx.Value(), tx.GasPrice(), tx.Nonce(), tx.Gas())
	}
	switch {
	case o.NoSend && len(b.sent) != 0:
		rt.Fatalf("%s: sent although valid only unsent", how)
	case !o.NoSend && (len(b.sent) != 1 || b.sent[0].Hash() != tx.Hash()):
		rt.Fatalf("%s: the valid transaction is not what was sent (%d sent)", how, len(b.sent))
	}
	b.sent, b.calls = nil, nil
}

func TestC44_Transactions(t *testing.T) {
	list := items("function", func(m *member) bool { return !m.constant() })
	list = append(list, items("receive", nil)...)
	list = append(list, items("fallback", nil)...)
	for i := range registry { // plain transfers
		list = append(list, item{&registry[i], nil})
	}
	vh.Check(t, 12000, 1200000, func(rt *rapid.T, c *vh.Case) {
		it := list[vh.Even(0, len(list)-1).Draw(rt, "method")]
		b := &chain{}
		at := addr(vh.Bytes(rt, "at", 20))
		o := auth(rt, b)
		refused := vh.Even(0, 9).Draw(rt, "refused") == 0 && !o.NoSend
		if refused {
			b.err = errNode
		}
		full, trans := bindTo(rt, it.c.new, at, b), bindTo(rt, it.c.newTransactor, at, b)
		sess, tsess := session(it.c.session, full, &bind.CallOpts{}, o), session(it.c.transSession, trans, nil, o)
		raw, traw := session(it.c.raw, full, nil, nil), session(it.c.transRaw, trans, nil, nil)
		opt := reflect.ValueOf(o)
		var data []byte
		type way struct {
			how string
			do  func() []reflect.Value
		}
		var ways []way
		switch {
		case it.m == nil:
			c.Nontrivial(it.c.name, "transfer", at, o.From, b.nonce)
			for _, x := range []reflect.Value{raw, traw} {
				ways = append(ways, way{"transfer", func() []reflect.Value { return method(rt, x, "Transfer").Call([]reflect.Value{opt}) }})
			}
		case it.m.Type == "function":
			m := it.m
			in := drawAll(rt, m.Inputs)
			c.Nontrivial(it.c.name, m.key, show(in), at, refused)
			c.Sample("%s.%s%s", it.c.name, m.signature(), show(in))
			data = append(m.id()[:4:4], encodeAll(m.Inputs, in)...)
			for _, x := range []reflect.Value{full, trans} {
				ways = append(ways, way{m.key, func() []reflect.Value {
					f := method(rt, x, m.goName)
					return f.Call(args(rt, f, m.Inputs, in, o))
				}})
			}
			for _, x := range []reflect.Value{sess, tsess} {
				ways = append(ways, way{"session " + m.key, func() []reflect.Value {
					f := method(rt, x, m.goName)
					return f.Call(args(rt, f, m.Inputs, in))
				}})
			}
			for _, x := range []reflect.Value{raw, traw} {
				ways = append(ways, way{"raw " + m.key, func() []reflect.Value {
					typed := args(rt, method(rt, full, m.goName), m.Inputs, in, o)
					return method(rt, x, "Transact").Call(append([]reflect.Value{opt, reflect.ValueOf(m.key)}, typed[1:]...))
				}})
			}
		default:
			c.Nontrivial(it.c.name, it.m.Type, at, o.From)
			name := camel(it.m.Type)
			var extra []reflect.Value
			if name == "Fallback" {
				data = vh.Bytes(rt, "calldata", vh.Even(0, 80).Draw(rt, "len"))
				extra = []reflect.Value{reflect.ValueOf(data)}
			}
			for _, x := range []reflect.Value{full, trans} {
				ways = append(ways, way{name, func() []reflect.Value { return method(rt, x, name).Call(append([]reflect.Value{opt}, extra...)) }})
			}
			for _, x := range []reflect.Value{sess, tsess} {
				ways = append(ways, way{name, func() []reflect.Value { return method(rt, x, name).Call(extra) }})
			}
		}
		for _, w := range ways {
			out := w.do()
			how := it.c.name + " " + w.how
			if err := errOf(out); refused {
				if err != errNode {
					rt.Fatalf("%s: refused by the node, but the error is %v", how, err)
				}
				b.calls = nil
				continue
			} else if err != nil {
				rt.Fatalf("%s: valid call fails: %v", how, err)
			}
			checkTx(rt, how, b, o, out[0].Interface().(*types.Transaction), &at, data)
		}
	})
}

func TestC44_Deployments(t *testing.T) {
	var list []item
	for i := range registry {
		c := &registry[i]
		if c.deploy == nil {
			continue
		}
		it := item{c, &member{Type: "constructor"}}
		for _, m := range ifaces[c.name] {
			if m.Type == "constructor" {
				it.m = m
			}
		}
		list = append(list, it)
	}
	vh.Check(t, 2400, 200000, func(rt *rapid.T, c *vh.Case) {
		it := list[vh.Even(0, len(list)-1).Draw(rt, "contract")]
		b := &chain{}
		o := auth(rt, b)
		in := drawAll(rt, it.m.Inputs)
		code, err := hex.DecodeString(strings.TrimPrefix(it.c.bin, "0x"))
		if err != nil || len(code) == 0 {
			rt.Fatalf("%s: the bytecode is not valid hex: %v", it.c.name, err)
		}
		c.Nontrivial(it.c.name, show(in), o.From, b.nonce)
		c.Sample("%s(%s)", it.c.name, show(in))
		f := reflect.ValueOf(it.c.deploy)
		out := f.Call(args(rt, f, it.m.Inputs, in, o, b))
		if err := errOf(out); err != nil {
			rt.Fatalf("valid deployment of %s fails: %v", it.c.name, err)
		}
		tx := out[1].Interface().(*types.Transaction)
		checkTx(rt, it.c.name, b, o, tx, nil, append(code[:len(code):len(code)], encodeAll(it.m.Inputs, in)...))
		at := crypto.CreateAddress(o.From, tx.Nonce())
		if got := out[0].Interface().(common.Address); got != at {
			rt.Fatalf("%s is deployed at %v, valid is %v", it.c.name, got, at)
		}
		// the returned binding is to the new contract, for all its parts
		o2 := *o
		o2.GasLimit, o2.NoSend = 50000, true
		x := out[2]
		tout := method(rt, session(it.c.raw, x, nil, nil), "Transfer").Call([]reflect.Value{reflect.ValueOf(&o2)})
		if err := errOf(tout); err != nil || *tout[0].Interface().(*types.Transaction).To() != at {
			rt.Fatalf("%s: the deployed binding does not reach its valid address: %v", it.c.name, err)
		}
		for _, m := range ifaces[it.c.name] {
			switch {
			case m.Type == "function" && m.constant():
				b.calls, b.ret = nil, make([]byte, 32*64)
				f := method(rt, x, m.goName)
				f.Call(args(rt, f, m.Inputs, drawAll(rt, m.Inputs), &bind.CallOpts{}))
				if len(b.calls) != 1 || *b.calls[0].To != at {
					rt.Fatalf("%s.%s: the deployed binding does not call its valid address", it.c.name, m.key)
				}
				return
			case m.Type == "event":
				f := method(rt, x, "Filter"+m.goName)
				ps := []reflect.Value{reflect.ValueOf(&bind.FilterOpts{})}
				for i := 1; i < f.Type().NumIn(); i++ {
					ps = append(ps, reflect.Zero(f.Type().In(i)))
				}
				b.query = nil
				if err := errOf(f.Call(ps)); err != nil || len(b.query) != 1 || len(b.query[0].Addresses) != 1 || b.query[0].Addresses[0] != at {
					rt.Fatalf("%s: the deployed binding does not filter its valid address: %v", it.c.name, err)
				}
			}
		}
	})
}

// logOf is the log of an event with these values.
func logOf(m *member, at common.Address, vs []any, n uint64) types.Log {
	l := types.Log{Address: at, Topics: []common.Hash{common.BytesToHash(m.id())}, BlockNumber: n, Index: uint(n % 7), TxHash: common.BytesToHash(word(new(big.Int).SetUint64(n)))}
	var ps []param
	var dv []any
	for i, p := range m.Inputs {
		if p.Indexed {
			l.Topics = append(l.Topics, common.BytesToHash(encode(p, vs[i])))
		} else {
			ps, dv = append(ps, p), append(dv, vs[i])
		}
	}
	l.Data = encodeAll(ps, dv)
	return l
}

func sameEvent(m *member, vs []any, l types.Log, g reflect.Value) bool {
	if g.Kind() == reflect.Pointer {
		if g.IsNil() {
			return false
		}
		g = g.Elem()
	}
	return sameFields(m.Inputs, vs, g) && reflect.DeepEqual(g.FieldByName("Raw").Interface(), l)
}

func sameQuery(q ethereum.FilterQuery, at common.Address, topics [][]common.Hash) bool {
	if len(q.Addresses) != 1 || q.Addresses[0] != at || q.BlockHash != nil {
		return false
	}
	for i := 0; i < len(q.Topics) || i < len(topics); i++ {
		var a, b []common.Hash
		if i < len(q.Topics) {
			a = q.Topics[i]
		}
		if i < len(topics) {
			b = topics[i]
		}
		if len(a) != len(b) {
			return false
		}
		for j := range a {
			if a[j] != b[j] {
				return false
			}
		}
	}
	return true
}

func TestC44_Events(t *testing.T) {
	list := items("event", nil)
	vh.Check(t, 9000, 800000, func(rt *rapid.T, c *vh.Case) {
		it := list[vh.Even(0, len(list)-1).Draw(rt, "event")]
		m := it.m
		b := &chain{}
		at := addr(vh.Bytes(rt, "at", 20))
		n := vh.Even(0, 3).Draw(rt, "logs")
		var vals [][]any
		for i := 0; i < n; i++ {
			v := drawAll(rt, m.Inputs)
			vals = append(vals, v)
			b.logs = append(b.logs, logOf(m, at, v, uint64(i+1)*5))
		}
		full, filt := bindTo(rt, it.c.new, at, b), bindTo(rt, it.c.newFltr, at, b)
		if n > 0 && len(m.Inputs) > 0 {
			c.Nontrivial(it.c.name, m.key, show(vals[0]), n)
		}
		c.Sample("%s.%s x%d", it.c.name, m.signature(), n)
		c.Label("logs %d", n)

		// parse
		for i, l := range b.logs {
			for _, x := range []reflect.Value{full, filt} {
				out := method(rt, x, "Parse"+m.goName).Call([]reflect.Value{reflect.ValueOf(l)})
				if err := errOf(out); err != nil || !sameEvent(m, vals[i], l, out[0]) {
					rt.Fatalf("%s: valid log of %s%s is parsed as %+v: %v", it.c.name, m.key, show(vals[i]), out[0], err)
				}
			}
		}
		if n > 0 {
			bad := b.logs[0]
			bad.Topics = append([]common.Hash{}, bad.Topics...)
			ways := []string{"another event", "no topic"}
			for _, p := range m.Inputs {
				if p.Indexed {
					ways = append(ways, "a topic less")
					break
				}
			}
			if len(bad.Data) > 0 {
				ways = append(ways, "cut data")
			}
			how := ways[vh.Even(0, len(ways)-1).Draw(rt, "damage")]
			switch how {
			case "another event":
				i := vh.Even(0, 31).Draw(rt, "byte")
				bad.Topics[0][i] ^= 1 << vh.Even(0, 7).Draw(rt, "bit")
			case "no topic":
				bad.Topics = nil
			case "a topic less":
				bad.Topics = bad.Topics[:len(bad.Topics)-1]
			case "cut data":
				bad.Data = bad.Data[:vh.Even(1, 31).Draw(rt, "cut")]
			}
			c.Label("%s", how)
			if out := method(rt, full, "Parse"+m.goName).Call([]reflect.Value{reflect.ValueOf(bad)}); errOf(out) == nil {
				rt.Fatalf("%s: invalid log of %s (%s) is parsed as %+v", it.c.name, m.key, how, out[0])
			}
		}

		// filter and watch with rules
		topics := [][]common.Hash{{common.BytesToHash(m.id())}}
		var ip []param
		var rules [][]any
		for _, p := range m.Inputs {
			if !p.Indexed {
				continue
			}
			ip = append(ip, p)
			k := vh.Even(0, 2).Draw(rt, "rules")
			var r []any
			var h []common.Hash
			for j := 0; j < k; j++ {
				v := draw(rt, p)
				r, h = append(r, v), append(h, common.BytesToHash(encode(p, v)))
			}
			rules, topics = append(rules, r), append(topics, h)
		}
		ruleArgs := func(f reflect.Value, first int) []reflect.Value {
			if f.Type().NumIn() != first+len(ip) {
				rt.Fatalf("%s: %s takes %d rules, valid are %d", it.c.name, m.key, f.Type().NumIn()-first, len(ip))
			}
			var out []reflect.Value
			for i, p := range ip {
				p.Type += "[]"
				out = append(out, toGo(rt, p, append([]any{}, rules[i]...), f.Type().In(first+i)))
			}
			return out
		}
		start, end := uint64(vh.Even(0, 1<<30).Draw(rt, "start")), uint64(vh.Even(0, 1<<30).Draw(rt, "end"))
		fo := &bind.FilterOpts{Start: start, Context: context.Background()}
		if rapid.Bool().Draw(rt, "ended") {
			fo.End = &end
		}
		badAt := -1
		if n > 0 && vh.Even(0, 4).Draw(rt, "damaged") == 0 {
			badAt = vh.Even(0, n-1).Draw(rt, "damagedLog")
			b.logs[badAt].Topics = nil
		}
		if vh.Even(0, 9).Draw(rt, "refused") == 0 {
			b.err = errNode
		}
		var kept []reflect.Value // events stay what they were when the next ones come
		keep := func(how string) {
			for i, ev := range kept {
				if !sameEvent(m, vals[i], b.logs[i], ev) {
					rt.Fatalf("%s: %s of %s changes the valid event %d after giving it", it.c.name, how, m.key, i)
				}
			}
		}
		for _, x := range []reflect.Value{full, filt} {
			f := method(rt, x, "Filter"+m.goName)
			b.query = nil
			out := f.Call(append([]reflect.Value{reflect.ValueOf(fo)}, ruleArgs(f, 1)...))
			if len(b.query) != 1 || !sameQuery(b.query[0], at, topics) {
				rt.Fatalf("%s: filter of %s asks %+v, valid topics are %v", it.c.name, m.key, b.query, topics)
			}
			q := b.query[0]
			if q.FromBlock == nil || q.FromBlock.Uint64() != start || (q.ToBlock == nil) != (fo.End == nil) || fo.End != nil && q.ToBlock.Uint64() != end {
				rt.Fatalf("%s: filter of %s asks blocks %v to %v, valid are %d to %v", it.c.name, m.key, q.FromBlock, q.ToBlock, start, fo.End)
			}
			if b.err != nil {
				if errOf(out) != errNode {
					rt.Fatalf("%s: filter of %s: the node's error is lost: %v", it.c.name, m.key, errOf(out))
				}
				continue
			}
			if err := errOf(out); err != nil {
				rt.Fatalf("%s: valid filter of %s fails: %v", it.c.name, m.key, err)
			}
			iter := out[0]
			i := 0
			kept = nil
			for method(rt, iter, "Next").Call(nil)[0].Bool() {
				ev := iter.Elem().FieldByName("Event")
				if i >= n || i == badAt || !sameEvent(m, vals[i], b.logs[i], ev) {
					rt.Fatalf("%s: the iterator of %s gives %+v at %d of %d valid logs", it.c.name, m.key, ev, i, n)
				}
				kept = append(kept, reflect.ValueOf(ev.Interface()))
				i++
			}
			keep("the iterator")
			ierr, _ := method(rt, iter, "Error").Call(nil)[0].Interface().(error)
			if badAt >= 0 && (i != badAt || ierr == nil) || badAt < 0 && (i != n || ierr != nil) {
				rt.Fatalf("%s: the iterator of %s gives %d of %d valid logs, one damaged at %d: %v", it.c.name, m.key, i, n, badAt, ierr)
			}
			if err, _ := method(rt, iter, "Close").Call(nil)[0].Interface().(error); err != nil {
				rt.Fatalf("%s: valid iterator of %s does not close: %v", it.c.name, m.key, err)
			}
			if method(rt, iter, "Next").Call(nil)[0].Bool() {
				rt.Fatalf("%s: an ended iterator of %s gives more than the valid logs", it.c.name, m.key)
			}
		}
		wo := &bind.WatchOpts{Context: context.Background()}
		if rapid.Bool().Draw(rt, "watchStart") {
			wo.Start = &start
		}
		f := method(rt, full, "Watch"+m.goName)
		sink := reflect.MakeChan(reflect.ChanOf(reflect.BothDir, f.Type().In(1).Elem()), vh.Even(0, 4).Draw(rt, "buffer"))
		b.query = nil
		out := f.Call(append([]reflect.Value{reflect.ValueOf(wo), sink}, ruleArgs(f, 2)...))
		if len(b.query) != 1 || !sameQuery(b.query[0], at, topics) {
			rt.Fatalf("%s: watch of %s asks %+v, valid topics are %v", it.c.name, m.key, b.query, topics)
		}
		if q := b.query[0]; (q.FromBlock == nil) != (wo.Start == nil) || wo.Start != nil && q.FromBlock.Uint64() != start {
			rt.Fatalf("%s: watch of %s starts at %v, valid is %v", it.c.name, m.key, q.FromBlock, wo.Start)
		}
		if b.err != nil {
			if errOf(out) != errNode {
				rt.Fatalf("%s: watch of %s: the node's error is lost: %v", it.c.name, m.key, errOf(out))
			}
			return
		}
		if err := errOf(out); err != nil {
			rt.Fatalf("%s: valid watch of %s fails: %v", it.c.name, m.key, err)
		}
		sub := out[0].Interface().(ethereum.Subscription)
		last := n
		if badAt >= 0 {
			last = badAt
		}
		kept = nil
		timeout := reflect.ValueOf(time.After(patience))
		cases := []reflect.SelectCase{{Dir: reflect.SelectRecv, Chan: sink}, {Dir: reflect.SelectRecv, Chan: timeout}}
		if badAt < 0 { // only a log that cannot be read ends the watch
			cases = append(cases, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(sub.Err())})
		}
		for i := 0; i < last; i++ {
			k, v, _ := reflect.Select(cases)
			if k == 2 {
				rt.Fatalf("%s: watch of %s ends after %d of %d valid logs: %v", it.c.name, m.key, i, n, v)
			}
			if k == 1 {
				patience = 2 * time.Second // it hangs; do not wait as long for each smaller case
				rt.Fatalf("%s: watch of %s gives %d of %d valid logs", it.c.name, m.key, i, n)
			}
			kept = append(kept, v)
		}
		keep("the watch")
		if badAt < 0 {
			sub.Unsubscribe()
		}
		select {
		case err, open := <-sub.Err():
			if badAt >= 0 && (!open || err == nil) {
				rt.Fatalf("%s: watch of %s passes over an invalid log", it.c.name, m.key)
			}
		case <-time.After(patience):
			patience = 2 * time.Second
			rt.Fatalf("%s: watch of %s does not end, one valid log damaged at %d", it.c.name, m.key, badAt)
		}
	})
}

// patience is how long a delivery that is due may take.
var patience = 60 * time.Second

// The published ABI has exactly these members; what is deployed dispatches them.
func TestC44_Interfaces(t *testing.T) {
	vh.Sweep(t, len(registry), func(t *testing.T, c *vh.Case, i int) {
		k := &registry[i]
		parsed, err := abi.JSON(strings.NewReader(k.abi))
		if err != nil {
			t.Fatalf("%s: the ABI is not valid: %v", k.name, err)
		}
		c.Nontrivial(k.name)
		c.Sample("%s: %d members", k.name, len(ifaces[k.name]))
		code, _ := hex.DecodeString(strings.TrimPrefix(k.bin, "0x"))
		var missing []string
		for _, m := range ifaces[k.name] {
			switch m.Type {
			case "function":
				g, ok := parsed.Methods[m.key]
				if !ok || g.Sig != m.signature() || g.IsConstant() != m.constant() || (g.StateMutability == "payable") != (m.StateMutability == "payable") {
					t.Errorf("%s: the ABI lists %v, valid is %s %s", k.name, g, m.signature(), m.StateMutability)
				}
				if id := m.id()[:4]; len(code) > 0 && !bytes.Contains(code, append([]byte{0x63}, id...)) && !bytes.Contains(code, bytes.TrimLeft(id, "\x00")) {
					missing = append(missing, m.signature())
				}
			case "event":
				g, ok := parsed.Events[m.key]
				if !ok || g.Sig != m.signature() || g.Anonymous != m.Anonymous {
					t.Errorf("%s: the ABI lists event %v, valid is %s", k.name, g, m.signature())
				}
				for j, p := range m.Inputs {
					if ok && g.Inputs[j].Indexed != p.Indexed {
						t.Errorf("%s: event %s has argument %d indexed %v, valid is %v", k.name, m.key, j, g.Inputs[j].Indexed, p.Indexed)
					}
				}
			case "error":
				g, ok := parsed.Errors[m.Name]
				if !ok || g.Sig != m.signature() {
					t.Errorf("%s: the ABI lists error %v, valid is %s", k.name, g, m.signature())
				}
			}
		}
		sort.Strings(missing)
		if len(missing) > 0 {
			t.Errorf("%s: the bytecode does not know the valid members %v", k.name, missing)
		}
	})
}
