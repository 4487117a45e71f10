package rlpc

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
	"github.com/consensys/gnark/frontend"
	"pgregory.net/rapid"

	"vharness/fe"
	"vharness/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

// ---- reference RLP ----

func header(base byte, n int) []byte {
	if n < 56 {
		return []byte{base + byte(n)}
	}
	var l []byte
	for x := n; x > 0; x >>= 8 {
		l = append([]byte{byte(x)}, l...)
	}
	return append([]byte{base + 55 + byte(len(l))}, l...)
}

func encStr(b []byte) []byte {
	if len(b) == 1 && b[0] < 0x80 {
		return []byte{b[0]}
	}
	return append(header(0x80, len(b)), b...)
}

func encList(items ...[]byte) []byte {
	p := bytes.Join(items, nil)
	return append(header(0xc0, len(p)), p...)
}

// item is one element as its header declares it (any length form is taken, as the gadgets do).
type item struct {
	list       bool
	literal    bool
	hdr, size  int // bytes
	start, end int // whole item
}

// parse reads the header at p; false if it runs out of buf.
func parse(buf []byte, p int) (it item, ok bool) {
	if p >= len(buf) {
		return
	}
	b := buf[p]
	it.start = p
	long := func(base byte) bool {
		n := int(b - base)
		if p+1+n > len(buf) || n > 4 {
			return false
		}
		for _, x := range buf[p+1 : p+1+n] {
			it.size = it.size<<8 | int(x)
		}
		it.hdr = 1 + n
		return true
	}
	switch {
	case b < 0x80:
		it.literal, it.size = true, 1
	case b < 0xb8:
		it.hdr, it.size = 1, int(b-0x80)
	case b < 0xc0:
		if !long(0xb7) {
			return
		}
	case b < 0xf8:
		it.list, it.hdr, it.size = true, 1, int(b-0xc0)
	default:
		it.list = true
		if !long(0xf7) {
			return
		}
	}
	it.end = p + it.hdr + it.size
	return it, it.end <= len(buf)
}

// walk decodes a list of exactly n items. why is empty if well formed.
func walk(buf []byte, n int, nested bool) (total int, its []item, why string) {
	l, ok := parse(buf, 0)
	if !ok {
		return 0, nil, "outer header runs out of the buffer"
	}
	if !l.list {
		return 0, nil, "not a list"
	}
	p := l.hdr
	for i := 0; i < n; i++ {
		if nested && p == l.end { // fewer items: the rest is absent
			break
		}
		it, ok := parse(buf, p)
		if !ok {
			return 0, nil, "item runs out of the buffer"
		}
		its = append(its, it)
		p = it.end
	}
	if p != l.end {
		return 0, nil, fmt.Sprintf("items end at %d, list at %d", p, l.end)
	}
	return l.end, its, ""
}

// ---- configurations ----

type conf struct {
	name     string
	ac       rlp.ArrayCheck
	kind     string // "array", "header", "nest"
	min, max []int  // bytes of decoded content per item
}

func bounds(a rlp.ArrayCheck) (mn, mx []int) {
	for i := range a.FieldMinHexLen {
		mn = append(mn, (a.FieldMinHexLen[i]+1)/2)
		mx = append(mx, a.FieldMaxHexLen[i]/2)
	}
	return
}

func rep(v, n int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = v
	}
	return o
}

func mk(name, kind string, hex, prefix int, mn, mx []int) conf {
	c := conf{name: name, kind: kind, ac: rlp.ArrayCheck{MaxHexLen: hex, MaxFields: len(mn), ArrayPrefixMaxHexLen: prefix, FieldMinHexLen: mn, FieldMaxHexLen: mx}}
	c.min, c.max = bounds(c.ac)
	return c
}

// the shapes the library itself uses, and a few more
var confs = []conf{
	mk("leaf storage", "array", 140, 4, []int{0, 0}, []int{66, 66}),
	mk("leaf account", "array", 302, 4, []int{0, 0}, []int{66, 228}),
	mk("extension", "array", 136, 4, []int{0, 0}, []int{66, 64}),
	mk("account", "array", 228, 4, []int{0, 0, 64, 64}, []int{64, 24, 64, 64}),
	mk("branch", "array", 1064, 8, rep(0, 17), append(rep(64, 16), 0)),
	mk("header", "header", 2176, 4, []int{64, 64, 40, 64, 64, 64, 512, 0, 0, 0, 0, 0, 0, 64, 16, 0, 64}, []int{64, 64, 40, 64, 64, 64, 512, 14, 16, 8, 8, 8, 2000, 64, 18, 16, 64}),
	mk("tx", "nest", 700, 6, rep(0, 12), []int{16, 16, 16, 16, 8, 40, 64, 300, 2, 2, 64, 64}),
	mk("tx leaf", "nest", 900, 4, []int{0, 0}, []int{2, 890}),
	mk("short", "array", 64, 4, []int{0, 0, 0}, []int{20, 20, 20}),
	mk("short nest", "nest", 80, 4, []int{0, 0, 0}, []int{20, 20, 20}),
}

func genStr(rt *rapid.T, lo, hi int) []byte {
	n := vh.Edge(rt, "n", lo, hi, 0, 1, 2, 55, 56, 57, 255, 256)
	b := vh.RandBytes(rt, "b", n)
	if n == 1 {
		b[0] = vh.OneOf([]byte{0, 1, 0x0f, 0x10, 0x7f, 0x80, 0x81, 0xb7, 0xb8, 0xbf, 0xc0, 0xf7, 0xf8, 0xff, 0x55}).Draw(rt, "one")
	}
	return b
}

type gen struct {
	items [][]byte // encoded items
	cont  [][]byte // what the decoder must report
	enc   []byte
	num   int
}

// list draws a list that fits the configuration.
func (c conf) list(rt *rapid.T) gen {
	for try := 0; ; try++ {
		g := gen{num: c.ac.MaxFields}
		switch c.kind {
		case "array":
			if allZero(c.ac.FieldMinHexLen) && rapid.IntRange(0, 3).Draw(rt, "fewer") == 0 {
				g.num = rapid.IntRange(1, c.ac.MaxFields).Draw(rt, "num")
			}
		case "header":
			g.num = rapid.IntRange(15, 17).Draw(rt, "num")
		case "nest":
			if rapid.IntRange(0, 3).Draw(rt, "fewer") == 0 {
				g.num = rapid.IntRange(1, c.ac.MaxFields).Draw(rt, "num")
			}
		}
		left := c.ac.MaxHexLen/2 - 5
		for i := 0; i < g.num; i++ {
			hi := c.max[i]
			if need := left - sum(c.min[i+1:]) - 3*(c.ac.MaxFields-i); hi > need {
				hi = need
			}
			if hi < c.min[i] {
				hi = c.min[i]
			}
			lo := c.min[i]
			b := genStr(rt, lo, hi)
			if c.kind == "nest" && len(b) == 1 && b[0] == 0 {
				b[0] = 1 // a lone zero byte stands for an absent item
			}
			if c.kind == "nest" && rapid.IntRange(0, 4).Draw(rt, "sub") == 0 {
				// a nested list, reported with its header
				var sub [][]byte
				room := hi - 3
				for k := rapid.IntRange(0, 4).Draw(rt, "subN"); k > 0 && room > 2; k-- {
					s := encStr(genStr(rt, 0, room-2))
					if len(s) > room {
						continue
					}
					sub = append(sub, s)
					room -= len(s)
				}
				if e := encList(sub...); len(e) <= hi {
					g.items = append(g.items, e)
					g.cont = append(g.cont, e)
					left -= len(e)
					continue
				}
			}
			e := encStr(b)
			g.items = append(g.items, e)
			g.cont = append(g.cont, b)
			left -= len(e)
		}
		g.enc = encList(g.items...)
		if len(g.enc)*2+2 <= c.ac.MaxHexLen || (c.kind == "array" && len(g.enc)*2 <= c.ac.MaxHexLen) {
			return g
		}
		if try > 50 {
			rt.Fatalf("harness: cannot fit %s", c.name)
		}
	}
}

func allZero(a []int) bool {
	for _, x := range a {
		if x != 0 {
			return false
		}
	}
	return true
}

func sum(a []int) (s int) {
	for _, x := range a {
		s += x
	}
	return
}

type result struct {
	out, total *big.Int
	lens       []*big.Int
	fields     [][]*big.Int
}

func (c conf) run(k fe.Kind, nib []byte, num int) (r result, err error) {
	err = fe.Run(k, func(api fe.Engine) {
		in := vh.Vars(api, nib)
		var out, total frontend.Variable
		var lens []frontend.Variable
		var fields [][]frontend.Variable
		ac := c.ac
		vh.Quietly(func() {
			switch c.kind {
			case "array":
				if num == c.ac.MaxFields {
					out, total, lens, fields = ac.RlpArrayCheck(api, in)
				} else {
					out, total, lens, fields = ac.RlpArrayCheck(api, in, api.Var(num))
				}
			case "header":
				out, total, lens, fields = ac.BlkHeaderRlpCheck(api, in, api.Var(num))
			case "nest":
				out, total, lens, fields = ac.RlpNestArrayCheck(api, in)
			}
		})
		r.out, r.total, r.lens = api.Big(out), api.Big(total), vh.Bigs(api, lens)
		for _, f := range fields {
			r.fields = append(r.fields, vh.Bigs(api, f))
		}
	})
	return
}

func nibs(buf []byte, hexLen int) []byte {
	n := vh.Nibbles(buf)
	if len(n) > hexLen {
		n = n[:hexLen]
	}
	return append(n, make([]byte, hexLen-len(n))...)
}

func (c conf) compare(t vh.TB, what string, r result, total int, cont [][]byte) {
	t.Helper()
	if r.total.Cmp(big.NewInt(int64(2*total))) != 0 {
		t.Fatalf("%s: total length %v, want %d", what, r.total, 2*total)
	}
	if len(r.lens) != c.ac.MaxFields || len(r.fields) != c.ac.MaxFields {
		t.Fatalf("%s: %d lengths, %d fields", what, len(r.lens), len(r.fields))
	}
	for i := range r.lens {
		want := 0
		if i < len(cont) {
			want = 2 * len(cont[i])
		}
		if r.lens[i].Cmp(big.NewInt(int64(want))) != 0 {
			t.Fatalf("%s: item %d has length %v, want %d", what, i, r.lens[i], want)
		}
		if i >= len(cont) {
			continue
		}
		for j, x := range vh.Nibbles(cont[i]) {
			if r.fields[i][j].Cmp(big.NewInt(int64(x))) != 0 {
				t.Fatalf("%s: item %d nibble %d is %v, want %d", what, i, j, r.fields[i][j], x)
			}
		}
	}
}

func pickConf(rt *rapid.T) conf {
	i := vh.OneOf([]int{0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 8, 8, 9, 9, 9}).Draw(rt, "conf")
	return confs[i]
}

func one(k fe.Kind) fe.Kind { return k }

func TestC06_lists(t *testing.T) {
	vh.Check(t, 12000, 300000, func(rt *rapid.T, c *vh.Case) {
		cf := pickConf(rt)
		g := cf.list(rt)
		buf := append([]byte{}, g.enc...)
		if cf.kind == "array" { // nothing is assumed about what follows
			if rest := cf.ac.MaxHexLen/2 - len(buf); rest > 0 && g.num == cf.ac.MaxFields {
				buf = append(buf, vh.Bytes(rt, "rest", rest)...)
			}
		}
		k := vh.OneOf([]fe.Kind{fe.BN254, fe.BN254, fe.BLS12377, fe.BW6761}).Draw(rt, "field")
		r, err := cf.run(k, nibs(buf, cf.ac.MaxHexLen), g.num)
		c.Label("%s items=%d", cf.name, g.num)
		c.Nontrivial(cf.name, g.enc)
		c.Sample("%s: %x", cf.name, g.enc)
		what := fmt.Sprintf("%s %d items %x", cf.name, g.num, g.enc)
		vh.Accept(rt, err, "%s", what)
		if r.out.Cmp(big.NewInt(1)) != 0 {
			rt.Fatalf("%s: a well-formed list is not recognised (out=%v)", what, r.out)
		}
		cf.compare(rt, what, r, len(g.enc), g.cont)
	})
}

// C07: whatever is accepted is what the headers declare.
func TestC07_mutated(t *testing.T) {
	vh.Check(t, 20000, 1000000, func(rt *rapid.T, c *vh.Case) {
		cf := pickConf(rt)
		g := cf.list(rt)
		hb := cf.ac.MaxHexLen / 2
		buf := append(append([]byte{}, g.enc...), make([]byte, hb)...)[:hb]
		// item headers, where mutations matter most
		var hdrs []int
		if l, ok := parse(buf, 0); ok {
			hdrs = append(hdrs, 0)
			p := l.hdr
			for range g.items {
				it, ok := parse(buf, p)
				if !ok {
					break
				}
				hdrs = append(hdrs, p)
				p = it.end
			}
		}
		num := g.num
		var ops []string
		for k := rapid.IntRange(1, 3).Draw(rt, "ops"); k > 0; k-- {
			op := vh.OneOf([]string{"hdr", "hdr", "outer", "byte", "drop", "dup", "num", "tail", "empty", "biglen"}).Draw(rt, "op")
			ops = append(ops, op)
			switch op {
			case "outer": // the list's own length off by a little
				l, _ := parse(buf, 0)
				d := vh.OneOf([]int{-2, -1, 1, 2, 3}).Draw(rt, "d")
				if l.hdr == 1 {
					buf[0] = byte(int(buf[0]) + d)
				} else if l.hdr > 1 {
					buf[l.hdr-1] = byte(int(buf[l.hdr-1]) + d)
				}
			case "hdr":
				p := vh.OneOf(hdrs).Draw(rt, "p")
				buf[p] = byte(int(buf[p]) + vh.OneOf([]int{-2, -1, 1, 2, 0x40, -0x40, 0x38, 0x80}).Draw(rt, "d"))
			case "byte":
				buf[vh.Even(0, hb-1).Draw(rt, "p")] = rapid.Byte().Draw(rt, "v")
			case "drop": // an item disappears, the header stays
				p := vh.OneOf(hdrs).Draw(rt, "p")
				it, ok := parse(buf, p)
				if ok && p > 0 {
					copy(buf[p:], buf[it.end:])
				}
			case "dup":
				p := vh.OneOf(hdrs).Draw(rt, "p")
				it, ok := parse(buf, p)
				if ok && p > 0 {
					e := append([]byte{}, buf[p:it.end]...)
					copy(buf[p:], append(e, append([]byte{}, buf[p:]...)...))
				}
			case "num":
				if cf.kind == "array" && allZero(cf.ac.FieldMinHexLen) {
					num = rapid.IntRange(1, cf.ac.MaxFields).Draw(rt, "num")
				}
			case "tail":
				if len(g.enc) < hb {
					buf[rapid.IntRange(len(g.enc), hb-1).Draw(rt, "p")] = rapid.Byte().Draw(rt, "v")
				}
			case "empty": // an item becomes the empty list
				p := vh.OneOf(hdrs).Draw(rt, "p")
				it, ok := parse(buf, p)
				if ok && p > 0 {
					rest := append([]byte{0xc0}, buf[it.end:]...)
					copy(buf[p:], rest)
				}
			case "biglen":
				p := vh.OneOf(hdrs).Draw(rt, "p")
				buf[p] = vh.OneOf([]byte{0xb8, 0xb9, 0xf8, 0xf9, 0xbf, 0xff, 0xc0, 0xc1, 0x80, 0x00}).Draw(rt, "v")
			}
		}
		r, err := cf.run(fe.BN254, nibs(buf, cf.ac.MaxHexLen), num)
		if err != nil && !fe.IsUnsat(err) {
			rt.Fatalf("crash on %s %v %x: %v", cf.name, ops, buf, err)
		}
		acc := err == nil && r.out.Cmp(big.NewInt(1)) == 0
		if cf.kind == "nest" { // this decoder is not told how many items to expect
			num = cf.ac.MaxFields
		}
		total, its, why := walk(buf, num, cf.kind == "nest")
		c.Label("%s accepted=%v well-formed=%v", cf.kind, acc, why == "")
		c.Nontrivial(cf.name, buf, num)
		c.Sample("%s %v accepted=%v reference says %q: %x", cf.name, ops, acc, why, buf[:min(len(buf), 90)])
		if !acc {
			return
		}
		if cf.kind == "header" {
			// items past the declared number are reported empty, and must be absent in the list
			t2, its2, why2 := walk(buf, num, true)
			if why2 != "" {
				why = why2
			} else {
				total, its, why = t2, its2, ""
			}
		}
		what := fmt.Sprintf("%s num=%d %v %x", cf.name, num, ops, buf)
		if cf.kind == "nest" {
			for _, it := range its {
				if it.literal && buf[it.start] == 0 {
					return // a lone zero byte stands for absence: out of the domain
				}
			}
		}
		if why != "" {
			if why == "item runs out of the buffer" || why == "outer header runs out of the buffer" {
				c.Label("accepted but runs out of the buffer (out of the domain)")
				return
			}
			rt.Fatalf("%s: accepted although %s", what, why)
		}
		var cont [][]byte
		for _, it := range its {
			b := buf[it.start+it.hdr : it.end]
			if it.list && cf.kind == "nest" {
				b = buf[it.start:it.end]
			}
			cont = append(cont, b)
		}
		cf.compare(rt, what, r, total, cont)
	})
}
