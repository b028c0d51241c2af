package main

import (
	"math/big"

	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"

	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

// evmQ reads a state through the module's query interface.
type evmQ struct {
	n   *Node
	ctx sdk.Context
}

func (q *evmQ) srv() evmtypes.QueryServer { return evmkeeper.NewQueryServer(q.n.app.EVMKeeper) }

func (q *evmQ) code(a common.Address) []byte {
	r, err := q.srv().Code(q.ctx, &evmtypes.QueryCodeRequest{ContractAddr: a.Hex()})
	if err != nil {
		q.n.w.abort("code query: %v", err)
	}
	bz, _ := hexutil.Decode(r.Code)
	return bz
}

func (q *evmQ) slot(a common.Address, k common.Hash) common.Hash {
	r, err := q.srv().State(q.ctx, &evmtypes.QueryStateRequest{ContractAddr: a.Hex(), Key: k.Hex()})
	if err != nil {
		q.n.w.abort("state query: %v", err)
	}
	return common.HexToHash(r.Value)
}

func (q *evmQ) balance(a common.Address, denom string) *big.Int {
	return q.n.app.BankKeeper.GetBalance(q.ctx, sdk.AccAddress(a.Bytes()), denom).Amount.BigInt()
}

func (q *evmQ) seq(a common.Address) uint64 {
	acc := q.n.app.AccountKeeper.GetAccount(q.ctx, sdk.AccAddress(a.Bytes()))
	if acc == nil {
		return 0
	}
	return acc.GetSequence()
}

// view runs a call as a query.
func (q *evmQ) view(from, to common.Address, input []byte) ([]byte, string) {
	r, err := q.srv().Call(q.ctx, &evmtypes.QueryCallRequest{Sender: sdk.AccAddress(from.Bytes()).String(), ContractAddr: to.Hex(), Input: hexutil.Encode(input), Value: mathZero})
	if err != nil {
		return nil, err.Error()
	}
	if r.Error != "" {
		return nil, r.Error
	}
	bz, _ := hexutil.Decode(r.Response)
	return bz, ""
}
