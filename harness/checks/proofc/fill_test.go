package proofc

import (
	"fmt"
	"math/big"
	"math/rand"
	"reflect"

	"github.com/ethereum/go-ethereum/core/types"
)

// fill gives every exported field below v a value drawn by r; zero ones too when empties is set.
func fill(r *rand.Rand, v reflect.Value, empties bool) {
	if v.Type() == reflect.TypeOf(types.Header{}) { // a header has its own encoding and required fields
		h := types.Header{Difficulty: big.NewInt(r.Int63()), Number: big.NewInt(r.Int63()), GasLimit: r.Uint64(), GasUsed: r.Uint64(), Time: r.Uint64(), Extra: []byte(fmt.Sprint(r.Int63()))}
		r.Read(h.ParentHash[:])
		r.Read(h.Root[:])
		if r.Intn(2) == 0 {
			h.BaseFee = big.NewInt(r.Int63())
		}
		v.Set(reflect.ValueOf(h))
		return
	}
	if empties && r.Intn(4) == 0 {
		return
	}
	switch v.Kind() {
	case reflect.String:
		b := make([]byte, 1+r.Intn(12))
		r.Read(b)
		v.SetString([]string{fmt.Sprintf("0x%x", b), fmt.Sprint(r.Int63()), "é\"\\\n<&>" + fmt.Sprint(r.Intn(9))}[r.Intn(3)])
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Uint64:
		v.SetUint(r.Uint64() >> r.Intn(64))
	case reflect.Uint8:
		v.SetUint(uint64(1 + r.Intn(255)))
	case reflect.Int, reflect.Int64:
		v.SetInt(r.Int63() - r.Int63())
	case reflect.Pointer:
		if v.Type() == reflect.TypeOf((*big.Int)(nil)) {
			v.Set(reflect.ValueOf(big.NewInt(r.Int63())))
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		fill(r, v.Elem(), empties)
	case reflect.Slice:
		n := 1 + r.Intn(3)
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			fill(r, v.Index(i), v.Type().Elem().Kind() == reflect.Struct && empties)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(r, v.Index(i), empties)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				fill(r, v.Field(i), empties)
			}
		}
	default:
		panic("no generator for " + v.Type().String())
	}
}
