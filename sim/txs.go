package main

import (
	"context"
	"crypto/ecdsa"
	"math/big"

	"cosmossdk.io/math"
	"github.com/cosmos/cosmos-sdk/client"
	clienttx "github.com/cosmos/cosmos-sdk/client/tx"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	authsign "github.com/cosmos/cosmos-sdk/x/auth/signing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"

	"github.com/initia-labs/initia/crypto/ethsecp256k1"

	minitiaapp "github.com/initia-labs/minievm/app"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

const chainID = "minisim-1"
const feeDenom = "stake"

var ethChainID = evmtypes.ConvertCosmosChainIDToEthereumChainID(chainID)

// Acct is a user with a key.
type Acct struct {
	idx  int
	priv *ethsecp256k1.PrivKey
	ecd  *ecdsa.PrivateKey
	eth  common.Address
	acc  sdk.AccAddress
	bech string
	num  uint64
	// client-side view
	next uint64
}

func newAcct(i int) *Acct {
	k := detBytes("key", i)
	ecd, err := crypto.ToECDSA(k)
	if err != nil {
		panic(err)
	}
	a := &Acct{idx: i, priv: &ethsecp256k1.PrivKey{Key: k}, ecd: ecd}
	a.eth = crypto.PubkeyToAddress(ecd.PublicKey)
	a.acc = sdk.AccAddress(a.eth.Bytes())
	a.bech = a.acc.String()
	return a
}

type TxOpts struct {
	Gas      uint64
	Fee      sdk.Coins
	Memo     string
	Timeout  uint64
	Granter  sdk.AccAddress
	Payer    sdk.AccAddress
	ChainID  string
	Sequence *uint64
	AccNum   *uint64
}

func coins(denom string, n int64) sdk.Coins {
	return sdk.NewCoins(sdk.NewCoin(denom, math.NewInt(n)))
}

type TxMaker struct {
	cfg client.TxConfig
	app *minitiaapp.MinitiaApp
}

// cosmosTx builds and signs a transaction in SIGN_MODE_DIRECT.
func (m *TxMaker) cosmosTx(signers []*Acct, seqs []uint64, msgs []sdk.Msg, o TxOpts) []byte {
	b := m.cfg.NewTxBuilder()
	if err := b.SetMsgs(msgs...); err != nil {
		panic(err)
	}
	b.SetGasLimit(o.Gas)
	b.SetFeeAmount(o.Fee)
	b.SetMemo(o.Memo)
	b.SetTimeoutHeight(o.Timeout)
	if o.Granter != nil {
		b.SetFeeGranter(o.Granter)
	}
	if o.Payer != nil {
		b.SetFeePayer(o.Payer)
	}
	cid := o.ChainID
	if cid == "" {
		cid = chainID
	}
	mode := signing.SignMode_SIGN_MODE_DIRECT
	var sigs []signing.SignatureV2
	for i, s := range signers {
		sigs = append(sigs, signing.SignatureV2{PubKey: s.priv.PubKey(), Data: &signing.SingleSignatureData{SignMode: mode}, Sequence: seqs[i]})
	}
	if err := b.SetSignatures(sigs...); err != nil {
		panic(err)
	}
	sigs = nil
	for i, s := range signers {
		num := s.num
		if o.AccNum != nil {
			num = *o.AccNum
		}
		sd := authsign.SignerData{Address: s.bech, ChainID: cid, AccountNumber: num, Sequence: seqs[i], PubKey: s.priv.PubKey()}
		sig, err := clienttx.SignWithPrivKey(context.Background(), mode, sd, b, cryptotypes.PrivKey(s.priv), m.cfg, seqs[i])
		if err != nil {
			panic(err)
		}
		sigs = append(sigs, sig)
	}
	if err := b.SetSignatures(sigs...); err != nil {
		panic(err)
	}
	bz, err := m.cfg.TxEncoder()(b.GetTx())
	if err != nil {
		panic(err)
	}
	return bz
}

type EthArgs struct {
	Type    int // 0 legacy, 1 access list, 2 dynamic fee
	Nonce   uint64
	To      *common.Address
	Value   *big.Int
	Gas     uint64
	FeeCap  *big.Int
	TipCap  *big.Int
	Data    []byte
	AL      coretypes.AccessList
	ChainID *big.Int
}

func (a *Acct) ethTx(x EthArgs) *coretypes.Transaction {
	if x.Value == nil {
		x.Value = new(big.Int)
	}
	if x.TipCap == nil {
		x.TipCap = new(big.Int)
	}
	cid := x.ChainID
	if cid == nil {
		cid = ethChainID
	}
	var d coretypes.TxData
	switch x.Type {
	case 0:
		d = &coretypes.LegacyTx{Nonce: x.Nonce, GasPrice: x.FeeCap, Gas: x.Gas, To: x.To, Value: x.Value, Data: x.Data}
	case 1:
		d = &coretypes.AccessListTx{ChainID: cid, Nonce: x.Nonce, GasPrice: x.FeeCap, Gas: x.Gas, To: x.To, Value: x.Value, Data: x.Data, AccessList: x.AL}
	default:
		d = &coretypes.DynamicFeeTx{ChainID: cid, Nonce: x.Nonce, GasFeeCap: x.FeeCap, GasTipCap: x.TipCap, Gas: x.Gas, To: x.To, Value: x.Value, Data: x.Data, AccessList: x.AL}
	}
	tx, err := coretypes.SignNewTx(a.ecd, coretypes.LatestSignerForChainID(cid), d)
	if err != nil {
		panic(err)
	}
	return tx
}

// ethToCosmos converts a signed Ethereum transaction with the code under test.
func (m *TxMaker) ethToCosmos(ctx context.Context, tx *coretypes.Transaction) ([]byte, error) {
	ct, err := evmkeeper.NewTxUtils(m.app.EVMKeeper).ConvertEthereumTxToCosmosTx(ctx, tx)
	if err != nil {
		return nil, err
	}
	return m.cfg.TxEncoder()(ct)
}

func msgCall(from *Acct, to common.Address, input []byte, value *big.Int) *evmtypes.MsgCall {
	if value == nil {
		value = new(big.Int)
	}
	return &evmtypes.MsgCall{Sender: from.bech, ContractAddr: to.Hex(), Input: hexutil.Encode(input), Value: math.NewIntFromBigInt(value)}
}

func msgCreate(from *Acct, code []byte, value *big.Int) *evmtypes.MsgCreate {
	if value == nil {
		value = new(big.Int)
	}
	return &evmtypes.MsgCreate{Sender: from.bech, Code: hexutil.Encode(code), Value: math.NewIntFromBigInt(value)}
}

func msgCreate2(from *Acct, code []byte, value *big.Int, salt uint64) *evmtypes.MsgCreate2 {
	if value == nil {
		value = new(big.Int)
	}
	return &evmtypes.MsgCreate2{Sender: from.bech, Code: hexutil.Encode(code), Value: math.NewIntFromBigInt(value), Salt: salt}
}

func coreAL(a common.Address) coretypes.AccessTuple { return coretypes.AccessTuple{Address: a} }
