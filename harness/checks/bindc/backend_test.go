package bindc

import (
	"context"
	"errors"
	"math/big"
	"sync"

	ethereum "github.com/ethereum/go-ethereum"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/event"
)

// chain is a node that records what it is asked.
type chain struct {
	mu      sync.Mutex
	ret     []byte
	err     error
	noCode  bool
	calls   []ethereum.CallMsg
	blocks  []*big.Int
	pending int
	sent    []*types.Transaction
	query   []ethereum.FilterQuery
	logs    []types.Log
	nonce   uint64
	gas     uint64
}

var errNode = errors.New("node refuses")

func (c *chain) CodeAt(context.Context, common.Address, *big.Int) ([]byte, error) {
	if c.noCode {
		return nil, nil
	}
	return []byte{1}, nil
}

func (c *chain) PendingCodeAt(context.Context, common.Address) ([]byte, error) {
	return c.CodeAt(nil, common.Address{}, nil)
}

func (c *chain) CallContract(_ context.Context, m ethereum.CallMsg, b *big.Int) ([]byte, error) {
	c.calls = append(c.calls, m)
	c.blocks = append(c.blocks, b)
	return c.ret, c.err
}

func (c *chain) PendingCallContract(_ context.Context, m ethereum.CallMsg) ([]byte, error) {
	c.pending++
	c.calls = append(c.calls, m)
	return c.ret, c.err
}

func (c *chain) HeaderByNumber(context.Context, *big.Int) (*types.Header, error) {
	return &types.Header{}, nil
}

func (c *chain) PendingNonceAt(context.Context, common.Address) (uint64, error) { return c.nonce, nil }

func (c *chain) SuggestGasPrice(context.Context) (*big.Int, error) { return big.NewInt(7), nil }

func (c *chain) SuggestGasTipCap(context.Context) (*big.Int, error) { return big.NewInt(5), nil }

func (c *chain) EstimateGas(_ context.Context, m ethereum.CallMsg) (uint64, error) {
	c.calls = append(c.calls, m)
	return c.gas, nil
}

func (c *chain) SendTransaction(_ context.Context, tx *types.Transaction) error {
	if c.err != nil {
		return c.err
	}
	c.sent = append(c.sent, tx)
	return nil
}

func (c *chain) FilterLogs(_ context.Context, q ethereum.FilterQuery) ([]types.Log, error) {
	c.query = append(c.query, q)
	return c.logs, c.err
}

func (c *chain) SubscribeFilterLogs(_ context.Context, q ethereum.FilterQuery, ch chan<- types.Log) (ethereum.Subscription, error) {
	c.query = append(c.query, q)
	if c.err != nil {
		return nil, c.err
	}
	logs := c.logs
	return event.NewSubscription(func(quit <-chan struct{}) error {
		for _, l := range logs {
			select {
			case ch <- l:
			case <-quit:
				return nil
			}
		}
		<-quit
		return nil
	}), nil
}
