package netc

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"strings"
	"sync"
	"testing"

	"github.com/brevis-network/zk-utils/common/eth"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/ethereum/go-ethereum/ethclient/gethclient"
	"github.com/ethereum/go-ethereum/rpc"
	"pgregory.net/rapid"

	"vharness/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

type roundTrip func(*http.Request) (*http.Response, error)

func (f roundTrip) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func answer(code int, body io.Reader) *http.Response {
	return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(body), ContentLength: -1}
}

// value draws any JSON value.
func value(rt *rapid.T, depth int) any {
	n := 5
	if depth > 0 {
		n = 7
	}
	switch rapid.IntRange(0, n).Draw(rt, "kind") {
	case 0:
		return nil
	case 1:
		return rapid.Bool().Draw(rt, "bool")
	case 2, 3:
		return rapid.Uint64Range(0, 1<<53).Draw(rt, "number")
	case 4:
		return rapid.StringMatching(`[0-9a-z]{0,4}`).Draw(rt, "string")
	case 5:
		return map[string]any{}
	case 6:
		out := []any{}
		for i := rapid.IntRange(0, 2).Draw(rt, "items"); i > 0; i-- {
			out = append(out, value(rt, depth-1))
		}
		return out
	}
	out := map[string]any{}
	for i := rapid.IntRange(1, 3).Draw(rt, "keys"); i > 0; i-- {
		k := vh.OneOf([]string{"data", "posConsensus", "slot", "finalized", "exec_block_number", "other"}).Draw(rt, "key")
		out[k] = value(rt, depth-1)
	}
	return out
}

func TestC42_beacon(t *testing.T) {
	vh.Check(t, 5000, 1000000, func(rt *rapid.T, c *vh.Case) {
		chain := vh.OneOf([]uint64{1, 1, 1, 1, 1, 5, 5, 56, 97, 10, 137, 0, 42161}).Draw(rt, "chain")
		toSlot := rapid.Bool().Draw(rt, "to slot")
		n := vh.BigBelow(rt, "n", vh.Pow2(53)).Uint64()
		want := vh.BigBelow(rt, "want", vh.Pow2(53)).Uint64()
		final := rapid.Bool().Draw(rt, "final")
		// the answer: a good one, with one part replaced by something else or left out, or anything at all
		mode := vh.OneOf([]string{"good", "good", "replaced", "replaced", "missing", "anything", "truncated", "status", "no network", "cut"}).Draw(rt, "mode")
		pos := map[string]any{"slot": want, "finalized": final, "blockRoot": "0x00"}
		entry := map[string]any{"posConsensus": pos, "blockNumber": n}
		list := []any{entry}
		for i := rapid.IntRange(-3, 2).Draw(rt, "later entries"); i > 0; i-- { // the first one counts
			list = append(list, map[string]any{"posConsensus": map[string]any{"slot": n + uint64(i), "finalized": !final}})
		}
		top := map[string]any{"status": "OK", "data": list}
		if !toSlot {
			entry = map[string]any{"exec_block_number": want, "slot": n}
			top["data"] = entry
		}
		what := ""
		if mode == "replaced" || mode == "missing" {
			type place struct {
				m map[string]any
				k string
			}
			places := []place{{top, "data"}}
			if toSlot {
				places = append(places, place{entry, "posConsensus"}, place{pos, "slot"}, place{pos, "finalized"})
			} else {
				places = append(places, place{entry, "exec_block_number"})
			}
			p := vh.OneOf(places).Draw(rt, "place")
			what = p.k
			if mode == "missing" {
				delete(p.m, p.k)
			} else {
				p.m[p.k] = value(rt, 2)
			}
		}
		var doc any = top
		if mode == "anything" {
			doc = value(rt, 4)
		}
		body, err := json.Marshal(doc)
		if err != nil {
			panic(err)
		}
		code := 200
		switch mode {
		case "truncated":
			body = body[:vh.Even(0, len(body)-1).Draw(rt, "cut")]
		case "status":
			code = vh.OneOf([]int{404, 429, 500, 503, 204}).Draw(rt, "code")
		}
		// what the answer says, by the documented layout
		slot, fin, okAnswer := uint64(0), false, false
		if mode != "truncated" && mode != "status" && mode != "no network" && mode != "cut" {
			var parsed any
			d := json.NewDecoder(bytes.NewReader(body))
			d.UseNumber()
			if d.Decode(&parsed) == nil {
				at := func(v any, k string) any {
					m, _ := v.(map[string]any)
					return m[k]
				}
				v := at(parsed, "data")
				if toSlot {
					l, _ := v.([]any)
					if len(l) > 0 {
						v = at(l[0], "posConsensus")
						num, ok1 := at(v, "slot").(json.Number)
						b, ok2 := at(v, "finalized").(bool)
						if ok1 && ok2 {
							i, _ := num.Int64()
							slot, fin, okAnswer = uint64(i), b, true
						}
					}
				} else if num, ok := at(v, "exec_block_number").(json.Number); ok {
					i, _ := num.Int64()
					slot, okAnswer = uint64(i), true
				}
			}
		}
		c.Nontrivial(chain, toSlot, n, mode, what, body)
		c.Label("to slot %v, %s %s, answered %v", toSlot, mode, what, okAnswer)
		c.Sample("chain %d, to slot %v of %d, %s: %.150s", chain, toSlot, n, mode, body)
		var asked []string
		open := 0
		old := http.DefaultTransport
		http.DefaultTransport = roundTrip(func(r *http.Request) (*http.Response, error) {
			asked = append(asked, r.Method+" "+r.URL.String())
			var a *http.Response
			switch mode {
			case "no network":
				return nil, errors.New("no network")
			case "cut":
				a = answer(200, io.MultiReader(bytes.NewReader(body[:len(body)/2]), cutReader{}))
			default:
				a = answer(code, bytes.NewReader(body))
			}
			open++
			a.Body = &closing{a.Body, func() { open-- }}
			return a, nil
		})
		defer func() { http.DefaultTransport = old }()
		ec := &eth.Client{ChainId: chain}
		var got uint64
		var gotFin bool
		p := false
		vh.Quietly(func() {
			p = panics(func() {
				if toSlot {
					got, gotFin = ec.GetSlot(n)
				} else {
					got = ec.GetBlock(n)
				}
			})
		})
		if p {
			rt.Fatalf("panic for the answer %s: no valid result", body)
		}
		if open != 0 {
			rt.Fatalf("%s: %d answers are left open, so that their connections are not valid for other lookups", mode, open)
		}
		switch {
		case !toSlot && (chain == 56 || chain == 97):
			slot, fin = n, false
		case chain != 1 && chain != 5:
			slot, fin = 0, false
		}
		if got != slot || gotFin != fin {
			rt.Fatalf("chain %d, to slot %v: %d (final %v) is invalid for the answer %s, want %d (%v)", chain, toSlot, got, gotFin, body, slot, fin)
		}
		host, path := "beaconcha.in", "slot"
		if toSlot {
			path = "execution/block"
		}
		if chain == 5 {
			host = "goerli.beaconcha.in"
		}
		url := fmt.Sprintf("GET https://%s/api/v1/%s/%d", host, path, n)
		if chain == 1 || chain == 5 {
			if len(asked) == 0 || asked[0] != url {
				rt.Fatalf("invalid requests %v, want %s", asked, url)
			}
		} else if len(asked) > 0 {
			rt.Fatalf("invalid requests %v for chain %d", asked, chain)
		}
	})
}

// closing counts the answers that were not closed.
type closing struct {
	io.ReadCloser
	done func()
}

func (c *closing) Close() error {
	if c.done != nil {
		c.done()
		c.done = nil
	}
	return c.ReadCloser.Close()
}

// Lookups made at the same time through one client get their own answers.
func TestC42_together(t *testing.T) {
	vh.Check(t, 60, 1500, func(rt *rapid.T, c *vh.Case) {
		chain := vh.OneOf([]uint64{1, 5}).Draw(rt, "chain")
		n := rapid.IntRange(2, 16).Draw(rt, "lookups")
		at := make([]uint64, n)
		toSlot := make([]bool, n)
		for i := range at {
			at[i], toSlot[i] = vh.BigBelow(rt, "n", vh.Pow2(48)).Uint64(), rapid.Bool().Draw(rt, "to slot")
		}
		c.Nontrivial(chain, at, toSlot)
		c.Label("%d lookups", n)
		c.Sample("chain %d: %v to slot %v", chain, at, toSlot)
		old := http.DefaultTransport
		http.DefaultTransport = roundTrip(func(r *http.Request) (*http.Response, error) {
			var m uint64
			path := strings.Split(r.URL.Path, "/")
			fmt.Sscan(path[len(path)-1], &m)
			if strings.Contains(r.URL.Path, "/slot/") {
				return answer(200, strings.NewReader(fmt.Sprintf(`{"data":{"exec_block_number":%d}}`, m+3))), nil
			}
			return answer(200, strings.NewReader(fmt.Sprintf(`{"data":[{"posConsensus":{"slot":%d,"finalized":%v}}]}`, m+7, m%2 == 0))), nil
		})
		defer func() { http.DefaultTransport = old }()
		ec := &eth.Client{ChainId: chain}
		got, fin := make([]uint64, n), make([]bool, n)
		var wg sync.WaitGroup
		vh.Quietly(func() {
			for i := range at {
				wg.Add(1)
				go func() {
					defer wg.Done()
					if toSlot[i] {
						got[i], fin[i] = ec.GetSlot(at[i])
					} else {
						got[i] = ec.GetBlock(at[i])
					}
				}()
			}
			wg.Wait()
		})
		for i, a := range at {
			want, final := a+3, false
			if toSlot[i] {
				want, final = a+7, a%2 == 0
			}
			if got[i] != want || fin[i] != final {
				rt.Fatalf("%d (final %v) is invalid for %d to slot %v among %d lookups, want %d (%v)", got[i], fin[i], a, toSlot[i], n, want, final)
			}
		}
	})
}

type cutReader struct{}

func (cutReader) Read([]byte) (int, error) { return 0, io.ErrUnexpectedEOF }

type proofAPI struct {
	account common.Address
	keys    []string
	block   string
	answer  func() (map[string]any, error)
}

func (p *proofAPI) GetProof(account common.Address, keys []string, block string) (map[string]any, error) {
	p.account, p.keys, p.block = account, keys, block
	return p.answer()
}

func TestC42_proof(t *testing.T) {
	vh.Check(t, 200, 4000, func(rt *rapid.T, c *vh.Case) {
		api := &proofAPI{}
		srv := rpc.NewServer()
		defer srv.Stop()
		if err := srv.RegisterName("eth", api); err != nil {
			panic(err)
		}
		conn := rpc.DialInProc(srv)
		defer conn.Close()
		ec := &eth.Client{Client: ethclient.NewClient(conn), GethClient: gethclient.New(conn), ChainId: 1}
		account := common.BytesToAddress(vh.Bytes(rt, "account", 20))
		var keys []string
		for i := rapid.IntRange(0, 3).Draw(rt, "keys"); i > 0; i-- {
			keys = append(keys, hexutil.Encode(vh.RandBytes(rt, "key", 32)))
		}
		num := vh.BigBelow(rt, "block", vh.Pow2(63))
		nodes := func() (out []string) {
			for i := rapid.IntRange(0, 3).Draw(rt, "nodes"); i > 0; i-- {
				out = append(out, hexutil.Encode(vh.RandBytes(rt, "node", rapid.IntRange(1, 40).Draw(rt, "len"))))
			}
			return
		}
		balance, nonce := vh.BigBelow(rt, "balance", vh.Pow2(256)), rapid.Uint64().Draw(rt, "nonce")
		code, storage := common.BytesToHash(vh.RandBytes(rt, "code", 32)), common.BytesToHash(vh.RandBytes(rt, "storage", 32))
		acc := nodes()
		var slots []map[string]any
		var values []*big.Int
		var paths [][]string
		for _, k := range keys {
			values, paths = append(values, vh.BigBelow(rt, "value", vh.Pow2(256))), append(paths, nodes())
			slots = append(slots, map[string]any{"key": k, "value": (*hexutil.Big)(values[len(values)-1]), "proof": paths[len(paths)-1]})
		}
		fail := rapid.IntRange(0, 4).Draw(rt, "fail") == 0
		api.answer = func() (map[string]any, error) {
			if fail {
				return nil, errors.New("no state")
			}
			return map[string]any{"address": account, "accountProof": acc, "balance": (*hexutil.Big)(balance), "codeHash": code, "nonce": hexutil.Uint64(nonce),
				"storageHash": storage, "storageProof": slots}, nil
		}
		c.Nontrivial(account, keys, num, fail, balance)
		c.Label("%d keys, fails %v", len(keys), fail)
		c.Sample("%v %v at %v", account, keys, num)
		res, err := ec.GetProof(context.Background(), account, keys, num)
		if fail {
			if err == nil {
				rt.Fatalf("the node failed, but the proof %v is called valid", res)
			}
			return
		}
		if err != nil {
			rt.Fatalf("valid request: %v", err)
		}
		if api.account != account || strings.Join(api.keys, ",") != strings.Join(keys, ",") || api.block != hexutil.EncodeBig(num) {
			rt.Fatalf("the node was asked for the invalid %v %v at %v", api.account, api.keys, api.block)
		}
		ok := res.Address == account && strings.Join(res.AccountProof, ",") == strings.Join(acc, ",") && res.Balance.Cmp(balance) == 0 && res.CodeHash == code &&
			res.Nonce == nonce && res.StorageHash == storage && len(res.StorageProof) == len(keys)
		for i := 0; ok && i < len(keys); i++ {
			s := res.StorageProof[i]
			ok = s.Key == keys[i] && s.Value.Cmp(values[i]) == 0 && strings.Join(s.Proof, ",") == strings.Join(paths[i], ",")
		}
		if !ok {
			rt.Fatalf("invalid proof %+v", res)
		}
	})
}
