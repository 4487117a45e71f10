package utilc

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/brevis-network/zk-utils/common/circuits"
	"github.com/brevis-network/zk-utils/common/s3api"
	"github.com/brevis-network/zk-utils/common/utils"
	"github.com/ethereum/go-ethereum/common"
	"pgregory.net/rapid"

	"vharness/vh"
)

// hexText writes b in hex with a drawn prefix and letter case.
func hexText(rt *rapid.T, b []byte) string {
	s := hex.EncodeToString(b)
	if rapid.Bool().Draw(rt, "upper") {
		s = strings.ToUpper(s)
	}
	return vh.OneOf([]string{"", "0x", "0X"}).Draw(rt, "prefix") + s
}

// fit is b as n bytes: zeros on the left, or the last n bytes.
func fit(b []byte, n int) []byte {
	if len(b) > n {
		return b[len(b)-n:]
	}
	return append(make([]byte, n-len(b)), b...)
}

func TestC33_hex(t *testing.T) {
	vh.Check(t, 3000, 100000, func(rt *rapid.T, c *vh.Case) {
		b := vh.Bytes(rt, "b", vh.Edge(rt, "len", 0, 70, 19, 20, 21, 31, 32, 33, 64))
		s := hexText(rt, b)
		c.Nontrivial(s)
		c.Label("%d bytes", len(b)/8*8)
		c.Sample("%s", s)
		eq := func(what string, got, want []byte) {
			if !bytes.Equal(got, want) {
				rt.Fatalf("%s of %q is invalid: %x, want %x", what, s, got, want)
			}
		}
		str := func(what, got, want string) {
			if got != want {
				rt.Fatalf("%s of %x is invalid: %q, want %q", what, b, got, want)
			}
		}
		low := hex.EncodeToString(b)
		eq("bytes", utils.Hex2Bytes(s), b)
		str("hex", utils.Bytes2Hex(b), low)
		str("0x hex", utils.Bytes2Hex0x(b), "0x"+low)
		eq("address", utils.Hex2Addr(s).Bytes(), fit(b, 20))
		eq("hash", utils.Hex2Hash(s).Bytes(), fit(b, 32))
		eq("address from bytes", utils.Bytes2Addr(b).Bytes(), fit(b, 20))
		eq("hash from bytes", utils.Bytes2Hash(b).Bytes(), fit(b, 32))
		ah := hex.EncodeToString(fit(b, 20))
		a := common.BytesToAddress(b)
		str("address text", utils.Addr2Hex(a), ah)
		str("address 0x text", utils.Addr2Hex0x(a), "0x"+ah)
		str("address text from bytes", utils.Bytes2AddrHex(b), ah)
		str("address 0x text from bytes", utils.Bytes2AddrHex0x(b), "0x"+ah)
		str("standard address", utils.FormatAddrHex(s), ah)
		if v := utils.Hex2BigInt(s); v.Cmp(new(big.Int).SetBytes(b)) != 0 {
			rt.Fatalf("the integer of %q is invalid: %x", s, v)
		}
		// an odd number of digits has a zero in front
		if len(low) > 0 {
			odd := strings.TrimSuffix(s, s[len(s)-1:])
			digits := low[:len(low)-1]
			want, _ := hex.DecodeString("0" + digits)
			eq("odd digits", utils.Hex2Bytes(odd), want)
			if v := utils.Hex2BigInt(odd); v.Cmp(new(big.Int).SetBytes(want)) != 0 {
				rt.Fatalf("the integer of %q is invalid: %x", odd, v)
			}
		}
		for n, pad := range map[int]func([]byte) []byte{20: utils.Pad20Bytes, 32: utils.Pad32Bytes} {
			in := bytes.Clone(b)
			var got []byte
			if p := panics(func() { got = pad(in) }); p != (len(b) > n) {
				rt.Fatalf("padding %d bytes to %d: panic %v is invalid", len(b), n, p)
			} else if !p {
				eq("padding", got, fit(b, n))
				eq("padded input", in, b)
			}
		}
		m := rapid.IntRange(0, 4).Draw(rt, "texts")
		var texts []string
		var raws [][]byte
		for i := 0; i < m; i++ {
			x := vh.RandBytes(rt, "x", rapid.IntRange(0, 40).Draw(rt, "xlen"))
			raws = append(raws, x)
			texts = append(texts, hexText(rt, x))
		}
		hs, bs, back := utils.ArrayHex2Hash(texts), utils.Strings2bytes(texts), utils.ArrayBytes2Hex0x(raws)
		if len(hs) != m || len(bs) != m || len(back) != m {
			rt.Fatalf("lists of %d entries give invalid lengths %d, %d, %d", m, len(hs), len(bs), len(back))
		}
		var join []string
		for i := range raws {
			eq("listed hash", hs[i][:], fit(raws[i], 32))
			eq("listed bytes", bs[i], raws[i])
			str("listed text", back[i], "0x"+hex.EncodeToString(raws[i]))
			join = append(join, "0x"+hex.EncodeToString(raws[i]))
		}
		str("joined text", utils.Convert2DimensionalByteArrayToString(raws), strings.Join(join, ","))
	})
}

var hashText = regexp.MustCompile(`\A(0[xX])?[0-9a-fA-F]{64}\z`)

func TestC33_txHash(t *testing.T) {
	vh.Check(t, 2000, 50000, func(rt *rapid.T, c *vh.Case) {
		s := hexText(rt, vh.Bytes(rt, "b", vh.Edge(rt, "len", 0, 40, 31, 32, 33)))
		r := []rune(s)
		how := vh.OneOf([]string{"as is", "as is", "change", "insert", "delete", "any"}).Draw(rt, "edit")
		at := 0
		if len(r) > 0 {
			at = vh.Even(0, len(r)-1).Draw(rt, "at")
		}
		x := vh.OneOf([]rune("0aAfFgGxX/:@` \n\x00é٣")).Draw(rt, "rune")
		switch {
		case how == "any":
			s = rapid.String().Draw(rt, "s")
		case how == "insert":
			s = string(r[:at]) + string(x) + string(r[at:])
		case len(r) == 0:
		case how == "change":
			s = string(r[:at]) + string(x) + string(r[at+1:])
		case how == "delete":
			s = string(r[:at]) + string(r[at+1:])
		}
		want := hashText.MatchString(s)
		c.Nontrivial(s)
		c.Label("%s, a hash: %v", how, want)
		c.Sample("%q", s)
		if utils.IsValidTxHash(s) != want {
			rt.Fatalf("%q called valid=%v", s, !want)
		}
	})
}

func TestC33_numbers(t *testing.T) {
	vh.Check(t, 3000, 100000, func(rt *rapid.T, c *vh.Case) {
		v := vh.BigBelow(rt, "v", vh.Pow2(64))
		u := v.Uint64()
		c.Nontrivial(u)
		c.Label("above 2^63: %v", u >= 1<<63)
		c.Sample("%d", u)
		s := strings.Repeat("0", rapid.IntRange(0, 3).Draw(rt, "zeros")) + v.String()
		if got := utils.Str2Uint64(s); got != u {
			rt.Fatalf("%q gives the invalid %d", s, got)
		}
		i := int(u)
		if got := utils.Str2Int(strconv.Itoa(i)); got != i {
			rt.Fatalf("%d gives the invalid %d", i, got)
		}
		w := new(big.Int).Mul(v, v)
		if rapid.Bool().Draw(rt, "negative") {
			w.Neg(w)
		}
		if got := utils.Str2BigInt(w.String()); got.Cmp(w) != 0 {
			rt.Fatalf("%d gives the invalid %d", w, got)
		}
		// times: every millisecond and second that a nanosecond clock can name
		ms := u % (1 << 63 / 1000000)
		tm := utils.TsMilliToTime(ms)
		if utils.TsMilli(tm) != ms || tm.UnixMilli() != int64(ms) {
			rt.Fatalf("%d ms give the invalid time %v, %d ms", ms, tm, utils.TsMilli(tm))
		}
		at := time.Unix(0, int64(u>>1))
		if got := utils.TsMilli(at); got != uint64(at.UnixMilli()) {
			rt.Fatalf("%v is an invalid %d ms", at, got)
		}
		if sec := int64(u >> 20); utils.TsSecToTime(uint64(sec)).Unix() != sec {
			rt.Fatalf("%d s give an invalid time", sec)
		}
		if got, want := s3api.ObjectKey("a/b", u), fmt.Sprintf("a/b/%s.json", v); got != want {
			rt.Fatalf("invalid object key %q, want %q", got, want)
		}
		idx := rapid.SliceOfN(rapid.Uint64Range(0, 9), 0, 6).Draw(rt, "indexes")
		in := false
		for _, x := range idx {
			in = in || x == u%10
		}
		if circuits.ChunkIndexFound(u%10, idx) != in {
			rt.Fatalf("invalid answer: chunk %d in %v", u%10, idx)
		}
		chain := vh.OneOf([]uint64{1, 10, 56, 97, 42161, u}).Draw(rt, "chain")
		info := utils.GetStartBlockInfo(chain)
		// the blocks the deployed trees start at; every other chain's starts at its first block
		first := map[uint64]uint64{42161: 185536768, 10: 119300224, 97: 41759160, 56: 40077400}
		if info.ChainId != chain || info.BlockNumber != first[chain] {
			rt.Fatalf("invalid start of chain %d: %+v", chain, info)
		}
		if size := circuits.HeaderSizePerChunk; info.InitialIndex*size > info.BlockNumber || (info.InitialIndex+1)*size <= info.BlockNumber {
			rt.Fatalf("chain %d: block %d is not in the valid chunk %d", info.ChainId, info.BlockNumber, info.InitialIndex)
		}
	})
}

func TestC33_openFile(t *testing.T) {
	vh.Check(t, 100, 2000, func(rt *rapid.T, c *vh.Case) {
		dir, err := os.MkdirTemp("", "vh-open-")
		if err != nil {
			rt.Fatalf("scratch directory: %v", err)
		}
		defer os.RemoveAll(dir)
		p := filepath.Join(dir, "f")
		data := vh.Bytes(rt, "data", rapid.IntRange(0, 50).Draw(rt, "len"))
		there := rapid.Bool().Draw(rt, "exists")
		if there {
			os.WriteFile(p, data, 0o644)
		} else {
			data = nil
		}
		c.Nontrivial(there, data)
		c.Label("exists: %v", there)
		f, err := utils.CreateOrOpenFile(p)
		if err != nil || f == nil {
			rt.Fatalf("a valid path was refused: %v", err)
		}
		f.Close()
		if got, err := os.ReadFile(p); err != nil || !bytes.Equal(got, data) {
			rt.Fatalf("opening made the content invalid: %x, was %x (%v)", got, data, err)
		}
		if f, err := utils.CreateOrOpenFile(filepath.Join(dir, "no", "such")); err == nil {
			f.Close()
			rt.Fatalf("a path in no directory was opened: valid file?")
		}
	})
}
