package mptc

import (
	"bytes"
	"math/big"
	"testing"

	"github.com/brevis-network/zk-utils/circuits/gadgets/mpt"
	"github.com/consensys/gnark/frontend"
	"pgregory.net/rapid"

	"vharness/fe"
	"vharness/vh"
)

type account struct {
	Nonce   uint64
	Balance *big.Int
	Root    []byte
	Code    []byte
}

func drawAccount(rt *rapid.T) account {
	n := rapid.Uint64().Draw(rt, "nonce") >> uint(vh.Even(0, 63).Draw(rt, "nonceBits"))
	if rapid.IntRange(0, 4).Draw(rt, "smallNonce") == 0 {
		n = uint64(vh.OneOf([]int{0, 1, 127, 128, 255, 256}).Draw(rt, "n"))
	}
	return account{n, vh.BigBelow(rt, "balance", vh.Pow2(96)), vh.RandBytes(rt, "root", 32), vh.RandBytes(rt, "code", 32)}
}

type accountOut struct {
	ok             bool
	nonceLen       int
	balLen         int
	nonce, balance []byte
	root, code     []byte
}

func small(api fe.Engine, in []frontend.Variable) []byte {
	out := make([]byte, len(in))
	for i, v := range in {
		b := api.Big(v)
		if !b.IsUint64() || b.Uint64() > 15 {
			panic("decoded value is no nibble: " + b.String())
		}
		out[i] = byte(b.Uint64())
	}
	return out
}

func (w *witness) runAccount() (o accountOut, err error) {
	err = fe.Run(fe.BN254, func(api fe.Engine) {
		var val [228]frontend.Variable
		copy(val[:], vh.Vars(api, w.value))
		r := mpt.CheckEthAccountProof(api, w.maxDepth, arr64(api, w.root), arr64(api, w.key), vh.Vars(api, w.starts), val,
			vh.Vars(api, w.last), api.Var(w.lastRound), api.Var(w.lastPrefix),
			nodeVars(api, w.nodes), vh.Vars(api, w.rounds), vh.Vars(api, w.prefixes), vh.Vars(api, w.types), api.Var(w.depth))
		o.ok = bit(api, r.Output)
		if !o.ok {
			return
		}
		o.nonceLen, o.balLen = int(api.U64(r.NonceLength)), int(api.U64(r.BalanceLength))
		o.nonce, o.balance = small(api, r.Nonce[:]), small(api, r.Balance[:])
		o.root, o.code = small(api, r.StorageRoot[:]), small(api, r.CodeHash[:])
	})
	return
}

func accountTrie(rt *rapid.T, layers int, val []byte) (m *memTrie, key []byte, sibs [][]byte) {
	splits := []int{}
	if layers > 0 && rapid.IntRange(0, 9).Draw(rt, "deep") > 0 {
		splits = drawSplits(rt, layers)
	}
	s := drawKeys(rt, splits, rapid.Bool().Draw(rt, "wide"))
	vals := [][]byte{val}
	for range s.keys[1:] {
		vals = append(vals, enc(account{3, big.NewInt(1 << 40), vh.RandBytes(rt, "sr", 32), vh.RandBytes(rt, "sc", 32)}))
	}
	return build(s.keys, vals), s.keys[0], s.keys[1:]
}

func numHex(x *big.Int) []byte {
	if b := x.Bytes(); len(b) > 0 {
		return vh.Nibbles(b)
	}
	return nil
}

func TestC12_account(t *testing.T) {
	vh.Check(t, 70, 1000, func(rt *rapid.T, c *vh.Case) {
		a := drawAccount(rt)
		val := enc(a)
		m, key, _ := accountTrie(rt, layersFor(rt)+rapid.IntRange(0, 1).Draw(rt, "more"), val)
		nodes := m.path(key)
		w := mkWitness(nodes, m.root[:], key, val, slack(rt, len(nodes)), false)
		w.padTypes(rt)
		c.Nontrivial(m.root, key)
		c.Label("depth %d types %v", w.depth, w.types[:w.depth-1])
		c.Sample("nonce=%d balance=%v %s", a.Nonce, a.Balance, w)
		o, err := w.runAccount()
		vh.Accept(rt, err, "account proof %s", w)
		if !o.ok {
			rt.Fatalf("valid account proof refused: %s", w)
		}
		nonce, bal := numHex(new(big.Int).SetUint64(a.Nonce)), numHex(a.Balance)
		if o.nonceLen != len(nonce) || !bytes.Equal(o.nonce[:len(nonce)], nonce) {
			rt.Fatalf("nonce %d decoded as %x (%d nibbles)", a.Nonce, o.nonce, o.nonceLen)
		}
		if o.balLen != len(bal) || !bytes.Equal(o.balance[:len(bal)], bal) {
			rt.Fatalf("balance %x decoded as %x (%d nibbles)", a.Balance, o.balance, o.balLen)
		}
		if !bytes.Equal(o.root, vh.Nibbles(a.Root)) || !bytes.Equal(o.code, vh.Nibbles(a.Code)) {
			rt.Fatalf("storage root or code hash of %x decoded as %x, %x", val, o.root, o.code)
		}
	})
}

func accountScene(rt *rapid.T, layers int) scene {
	val := enc(drawAccount(rt))
	m, key, sibs := accountTrie(rt, layers, val)
	return scene{m: m, key: key, val: val, sibs: sibs,
		other: func() []byte {
			for {
				if v := enc(drawAccount(rt)); !bytes.Equal(v, val) {
					return v
				}
			}
		},
		fresh: func() scene { return accountScene(rt, 2) },
		run: func(w *witness) (bool, error) {
			o, err := w.runAccount()
			return o.ok, err
		}}
}

func TestC12_falseClaims(t *testing.T) {
	vh.Check(t, 110, 1500, func(rt *rapid.T, c *vh.Case) {
		falseClaims(rt, c, accountScene(rt, layersFor(rt)+rapid.IntRange(0, 1).Draw(rt, "more")))
	})
}
