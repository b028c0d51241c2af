package main

import (
	"encoding/json"
	"fmt"
	"math/big"

	"cosmossdk.io/math"
	"cosmossdk.io/x/feegrant"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"

	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"

	"github.com/initia-labs/minievm/x/evm/contracts/counter"
	"github.com/initia-labs/minievm/x/evm/contracts/erc20"
	"github.com/initia-labs/minievm/x/evm/contracts/erc20_factory"
	"github.com/initia-labs/minievm/x/evm/contracts/erc20_wrapper"
	"github.com/initia-labs/minievm/x/evm/contracts/i_cosmos"
	"github.com/initia-labs/minievm/x/evm/contracts/i_erc20_registry"
	"github.com/initia-labs/minievm/x/evm/contracts/ics721_erc721"
	"github.com/initia-labs/minievm/x/evm/contracts/initia_erc20"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

func mustABI(m *bind.MetaData) *abi.ABI {
	a, err := m.GetAbi()
	if err != nil {
		panic(err)
	}
	return a
}

var (
	abiERC20    = mustABI(erc20.Erc20MetaData)
	abiInitERC  = mustABI(initia_erc20.InitiaErc20MetaData)
	abiFactory  = mustABI(erc20_factory.Erc20FactoryMetaData)
	abiWrapper  = mustABI(erc20_wrapper.Erc20WrapperMetaData)
	abiCosmos   = mustABI(i_cosmos.ICosmosMetaData)
	abiRegistry = mustABI(i_erc20_registry.IErc20RegistryMetaData)
	abiNFT      = mustABI(ics721_erc721.Ics721Erc721MetaData)
	abiCounter  = mustABI(counter.CounterMetaData)
)

var (
	cosmosAddr   = common.HexToAddress("0xf1")
	registryAddr = common.HexToAddress("0xf2")
	stdAddr      = evmtypes.StdAddress
)

func pack(a *abi.ABI, m string, args ...any) []byte {
	bz, err := a.Pack(m, args...)
	if err != nil {
		panic(fmt.Sprintf("pack %s: %v", m, err))
	}
	return bz
}

func bi(n int64) *big.Int { return big.NewInt(n) }

func creation(m *bind.MetaData, args ...any) []byte {
	code, err := hexutil.Decode(m.Bin)
	if err != nil {
		panic(err)
	}
	a := mustABI(m)
	bz, err := a.Pack("", args...)
	if err != nil {
		panic(err)
	}
	return append(code, bz...)
}

func opAuthority() string { return authtypes.NewModuleAddress(opchildtypes.ModuleName).String() }

// adminMsgs wraps messages the opchild authority must sign.
func adminMsgs(admin *Acct, msgs ...sdk.Msg) sdk.Msg {
	m, err := opchildtypes.NewMsgExecuteMessages(admin.bech, msgs)
	if err != nil {
		panic(err)
	}
	return m
}

// Token is an ERC20 contract known to the chain.
type Token struct {
	addr  common.Address
	denom string
	owner *Acct
}

// Op is one pre-drawn operation of the workload.
type Op struct {
	i    int
	kind string
	r    *Rng
	who  *Acct
}

func (o Op) pick2(n int) int { return o.r.N(n) }

// WL generates transactions from operations.
type WL struct {
	rg      *Rig
	tokens  []*Token
	nfts    []common.Address
	l1seq   uint64
	fresh   int
	old     []*Tx // earlier transactions, for replays
	kinds   []string
	total   int
	weight  map[string]int
	sdest   bool // allow selfdestruct
	granted map[[2]int]bool
}

func newWL(rg *Rig, weight map[string]int) *WL {
	w := &WL{rg: rg, l1seq: 1, weight: weight, sdest: true, granted: map[[2]int]bool{}}
	for k := range weight {
		w.kinds = append(w.kinds, k)
	}
	sorted(w.kinds)
	for _, k := range w.kinds {
		w.total += weight[k]
	}
	return w
}

// op draws operation i; independent of the other operations.
func (wl *WL) op(i int) Op {
	r := NewRng(wl.rg.w.seed+uint64(i)*7919, "op")
	n := r.N(wl.total)
	kind := ""
	for _, k := range wl.kinds {
		if n < wl.weight[k] {
			kind = k
			break
		}
		n -= wl.weight[k]
	}
	return Op{i: i, kind: kind, r: r, who: wl.rg.users[r.N(len(wl.rg.users))]}
}

var mixAll = map[string]int{
	"bank": 8, "erc20": 10, "script": 24, "create": 5, "create2": 2, "value": 6, "deposit": 3, "withdraw": 2,
	"params": 1, "multi": 5, "dispatch": 6, "feegrant": 2, "authz": 2, "token": 2, "nft": 2, "fail": 3, "counter": 2, "hook": 1,
}

// setup deploys the contracts the workload uses.
func (wl *WL) setup(scripts int) {
	rg := wl.rg
	rg.deployScripts(scripts)
	// give contracts some native tokens
	var txs []*Tx
	for i, c := range rg.con {
		u := rg.users[i%len(rg.users)]
		txs = append(txs, rg.cosmos("fund", u, 2_000_000, banktypes.NewMsgSend(u.acc, sdk.AccAddress(c.Bytes()), coins(feeDenom, 1_000_000_000))))
	}
	for i := 0; i < 2; i++ {
		u := rg.users[i%len(rg.users)]
		txs = append(txs, rg.cosmos("token", u, 12_000_000, msgCreate(u, creation(initia_erc20.InitiaErc20MetaData, fmt.Sprintf("Tok%d", i), fmt.Sprintf("T%d", i), uint8(6+i*12)), nil)))
	}
	u := rg.users[2%len(rg.users)]
	txs = append(txs, rg.cosmos("nftclass", u, 14_000_000, msgCreate(u, creation(ics721_erc721.Ics721Erc721MetaData, "Nft", "N"), nil)))
	res := rg.run(txs...)
	for i, r := range res.TxResults {
		if r.Code != 0 {
			rg.w.abort("setup tx %d %s failed: %s", i, txs[i], r.Log)
		}
		if txs[i].kind == "token" || txs[i].kind == "nftclass" {
			var resp evmtypes.MsgCreateResponse
			msgResp(r.Data, 0, &resp)
			a := common.HexToAddress(resp.ContractAddr)
			if txs[i].kind == "token" {
				wl.tokens = append(wl.tokens, &Token{addr: a, denom: "evm/" + resp.ContractAddr[2:], owner: txs[i].from})
			} else {
				wl.nfts = append(wl.nfts, a)
			}
		}
	}
	txs = nil
	rg.sync()
	for _, t := range wl.tokens {
		for _, v := range rg.users {
			txs = append(txs, rg.cosmos("mint", t.owner, 1_000_000, msgCall(t.owner, t.addr, pack(abiERC20, "mint", v.eth, bi(1_000_000)), nil)))
		}
	}
	for i, r := range rg.run(txs...).TxResults {
		if r.Code != 0 {
			rg.w.abort("setup tx %d %s failed: %s", i, txs[i], r.Log)
		}
	}
	rg.sync()
}

func (wl *WL) freshAddr() common.Address {
	wl.fresh++
	return common.BytesToAddress(detBytes("fresh", wl.fresh)[:20])
}

func (wl *WL) user(r *Rng) *Acct { return pick(r, wl.rg.users) }

// anyAddr picks a user, contract, or (sometimes) untouched address.
func (wl *WL) anyAddr(r *Rng) common.Address {
	switch r.N(6) {
	case 0:
		return common.BytesToAddress(detBytes("fresh", 1000+r.N(40))[:20])
	case 1, 2:
		if len(wl.rg.con) > 0 {
			return pick(r, wl.rg.con)
		}
	}
	return wl.user(r).eth
}

// call makes a contract call, Ethereum- or Cosmos-signed.
func (wl *WL) call(kind string, o Op, from *Acct, to common.Address, gas uint64, value *big.Int, data []byte) *Tx {
	if o.r.P(1, 2) {
		return wl.rg.eth(kind, from, &to, gas, value, data)
	}
	return wl.rg.cosmos(kind, from, gas, msgCall(from, to, data, value))
}

// gen makes the transactions of an operation (usually one).
func (wl *WL) gen(o Op) []*Tx {
	rg := wl.rg
	rg.opIdx = o.i
	t := wl.gen1(o)
	if t == nil {
		return nil
	}
	t.op = o.i
	wl.old = append(wl.old, t)
	return []*Tx{t}
}

func (wl *WL) tokenCoin(r *Rng) sdk.Coins {
	if r.P(1, 2) || len(wl.tokens) == 0 {
		return coins(feeDenom, int64(r.In(1, 1_000_000)))
	}
	return coins(pick(r, wl.tokens).denom, int64(r.In(1, 3000)))
}

func (wl *WL) bankMsg(r *Rng, from *Acct) sdk.Msg {
	return banktypes.NewMsgSend(from.acc, sdk.AccAddress(wl.anyAddr(r).Bytes()), wl.tokenCoin(r))
}

func (wl *WL) erc20Data(r *Rng, tok *Token, from *Acct) (string, []byte) {
	amt := bi(int64(r.In(0, 5000)))
	if r.P(1, 10) {
		amt = bi(1 << 60)
	}
	switch r.N(8) {
	case 0:
		return "approve", pack(abiERC20, "approve", wl.anyAddr(r), amt)
	case 1:
		return "transferFrom", pack(abiERC20, "transferFrom", wl.user(r).eth, wl.anyAddr(r), amt)
	case 2:
		return "mint", pack(abiERC20, "mint", wl.anyAddr(r), amt)
	case 3:
		return "burn", pack(abiERC20, "burn", amt)
	case 4:
		return "burnFrom", pack(abiERC20, "burnFrom", wl.user(r).eth, amt)
	case 5:
		return "sudoTransfer", pack(abiERC20, "sudoTransfer", wl.user(r).eth, from.eth, amt)
	default:
		return "transfer", pack(abiERC20, "transfer", wl.anyAddr(r), amt)
	}
}

// dispatchMsg is a message a contract asks the chain to run, with the contract as signer.
func (wl *WL) dispatchJSON(r *Rng, con common.Address) string {
	c := wl.tokenCoin(r)
	m := map[string]any{"@type": "/cosmos.bank.v1beta1.MsgSend", "from_address": sdk.AccAddress(con.Bytes()).String(),
		"to_address": sdk.AccAddress(wl.anyAddr(r).Bytes()).String(), "amount": []map[string]string{{"denom": c[0].Denom, "amount": c[0].Amount.String()}}}
	if r.P(1, 3) {
		to := pick(r, wl.rg.con)
		m = map[string]any{"@type": "/minievm.evm.v1.MsgCall", "sender": sdk.AccAddress(con.Bytes()).String(), "contract_addr": to.Hex(),
			"input": hexutil.Encode(script{}.sadd(byte(r.N(8)), 1).log(r.N(100))), "value": "0", "access_list": []any{}}
	}
	bz, _ := json.Marshal(m)
	return string(bz)
}

func (wl *WL) script(r *Rng, depth int) script {
	rg := wl.rg
	var s script
	n := r.In(1, 5)
	for i := 0; i < n; i++ {
		switch r.N(26) {
		case 24, 25:
			if depth > 0 && wl.sdest {
				s = wl.lifecycle(r, s, depth)
			}
		case 0, 1, 2:
			s = s.sstore(byte(r.N(12)), r.N(3)*r.N(500))
		case 3, 4:
			s = s.sadd(byte(r.N(12)), r.In(1, 9))
		case 5:
			s = s.u8(sSCOPY, byte(r.N(12)), byte(r.N(12)))
		case 6:
			s = s.u8(sTSTORE, byte(r.N(4))).u16(r.N(50))
		case 7:
			s = s.u8(sTTOS, byte(r.N(12)), byte(r.N(4)))
		case 8:
			s = s.log(r.N(1000), topics(r)...)
		case 9:
			s = s.env(pick(r, []int{0, 1, 2, 3, 4, 5, 6, 7, 14, 15}), byte(r.N(12)))
		case 10:
			s = append(s.u8(sBAL, byte(r.N(12))), wl.anyAddr(r).Bytes()...)
		case 11:
			to := pick(r, rg.con)
			if r.P(1, 2) {
				to = wl.anyAddr(r)
			}
			s = append(s.u8(byte(sXHASH+r.N(2)), byte(r.N(12))), to.Bytes()...)
		case 12:
			if depth > 0 && r.P(1, 2) {
				init := smallInit(r)
				if r.P(1, 3) {
					init = initFor(interpRuntime, nil)
				}
				k := byte(20 + r.N(4))
				s = s.create(byte(sCREATE+r.N(2)), uint64(r.N(3)*r.N(10)), byte(r.N(4)), byte(r.N(8))&^fHash|fOK, k, init)
				if r.P(1, 2) {
					s = s.call(sCALLK, common.BytesToAddress([]byte{k}), uint64(r.N(2)*r.N(20)), 0, byte(r.N(8)), byte(r.N(10)), wl.script(r, depth-1))
				}
			}
		case 22:
			if depth > 0 && r.P(1, 2) {
				// return data must outlive reads of balances and code
				s = s.call(sCALL, pick(r, rg.con), 0, 0, 0, 0, script{}.sadd(1, 1).u8(sRETK, 1))
				switch r.N(3) {
				case 0:
					s = s.env(6, byte(r.N(12)))
				case 1:
					s = append(s.u8(sBAL, byte(r.N(12))), wl.anyAddr(r).Bytes()...)
				default:
					s = append(s.u8(sXHASH, byte(r.N(12))), wl.anyAddr(r).Bytes()...)
				}
			}
			s = s.u8(sRDH, byte(r.N(12)))
		case 23:
			if depth > 0 {
				s = s.call(pick(r, []byte{sCALL, sCALL, sDELEG, sSTATIC}), common.BytesToAddress([]byte{byte(r.In(2, 10))}), 0, uint32(r.N(2)*50000), byte(r.N(8))&^fReq, byte(r.N(10)), r.Bytes(r.N(100)))
			}
		case 13:
			if wl.sdest && r.P(1, 4) && i == n-1 {
				return append(s.u8(sDESTR), wl.anyAddr(r).Bytes()...)
			}
		case 14:
			if i == n-1 && depth < 3 {
				return s.u8(sREVERT).u16(r.N(100))
			}
		case 15:
			if i == n-1 && depth < 3 && r.P(1, 3) {
				return s.u8(sINVALID)
			}
		default:
			if depth > 0 {
				to := pick(r, rg.con)
				kind := byte(sCALL)
				switch r.N(8) {
				case 0:
					kind = sDELEG
				case 1:
					kind = sSTATIC
				case 2:
					kind = sCCODE
				}
				gas := uint32(0)
				if r.P(1, 8) {
					gas = uint32(r.In(1000, 100000))
				}
				v := uint64(0)
				if kind == sCALL && r.P(1, 5) {
					v = uint64(r.N(2000))
					if r.P(1, 2) {
						to = wl.anyAddr(r)
					}
				}
				s = s.call(kind, to, v, gas, byte(r.N(8)), byte(r.N(10)), wl.script(r, depth-1))
			}
		}
	}
	if r.P(1, 6) && depth < 3 {
		s = s.u8(sREVERT).u16(r.N(100))
	}
	return s
}

// lifecycle creates a contract and does things to it, among them destroying it
// in the transaction that created it, and using it afterwards.
func (wl *WL) lifecycle(r *Rng, s script, depth int) script {
	k := byte(20 + r.N(4))
	self := common.BytesToAddress([]byte{k})
	rich := r.P(1, 3)
	init := initFor(destructible(), nil)
	if rich {
		init = initFor(interpRuntime, nil)
	}
	s = s.create(byte(sCREATE+r.N(2)), uint64(r.N(2)*r.N(50)), byte(r.N(4)), fOK, k, init)
	for i := r.In(1, 5); i > 0; i-- {
		v := uint64(r.N(2) * r.N(300))
		switch r.N(6) {
		case 0, 1:
			in := append(script{}, wl.anyAddr(r).Bytes()...)
			if rich {
				in = append(script{}.u8(sDESTR), in...)
				if r.P(1, 2) {
					in = append(script{}.sstore(byte(r.N(4)), r.In(1, 50)), in...)
				}
			}
			s = s.call(sCALLK, self, v, 0, byte(r.N(8))&^fReq, byte(r.N(10)), in)
		case 2:
			s = s.call(sCALLK, self, uint64(r.In(1, 300)), 0, byte(r.N(8))&^fReq, byte(r.N(10)), nil)
		case 3:
			s = s.u8(byte(sBALK+r.N(3)), byte(r.N(12)), k)
		case 4:
			if rich {
				s = s.call(sCALLK, self, v, 0, byte(r.N(8))&^fReq, byte(r.N(10)), wl.script(r, depth-1))
			}
		case 5:
			// again, perhaps at the same address
			s = s.create(byte(sCREATE+r.N(2)), uint64(r.N(2)*r.N(50)), byte(r.N(4)), fOK, k, init)
		}
	}
	return s
}

func topics(r *Rng) []int {
	var t []int
	for n := r.N(5); n > 0; n-- {
		t = append(t, r.N(6))
	}
	return t
}

// smallInit is init code for a tiny contract; some constructors write storage, log or revert.
func smallInit(r *Rng) []byte {
	k := r.N(5)
	return initFor([]byte{0x60, 0x01, 0x60, byte(r.N(6)), 0x55, 0x00}, func(a *asm) {
		switch k {
		case 0:
			a.pi(7).pi(3).op(0x55)
		case 1:
			a.pi(0).pi(0).op(0xa0)
		case 2:
			a.pi(0).pi(0).op(0xfd)
		}
	})
}

func (wl *WL) gen1(o Op) *Tx {
	rg, r, u := wl.rg, o.r, o.who
	switch o.kind {
	case "bank":
		return rg.cosmos("bank", u, 1_500_000, wl.bankMsg(r, u))
	case "erc20":
		tok := pick(r, wl.tokens)
		if r.P(1, 3) {
			u = tok.owner
		}
		name, d := wl.erc20Data(r, tok, u)
		return wl.call("erc20."+name, o, u, tok.addr, 1_500_000, nil, d)
	case "script":
		var v *big.Int
		if r.P(1, 6) {
			v = bi(int64(r.N(5000)))
		}
		gas := uint64(6_000_000)
		if r.P(1, 10) {
			gas = uint64(r.In(60_000, 600_000))
		}
		return wl.call("script", o, u, pick(r, rg.con), gas, v, wl.script(r, 3))
	case "create":
		code := smallInit(r)
		if r.P(1, 3) {
			code = initFor(interpRuntime, nil)
		}
		if r.P(1, 2) {
			return rg.eth("create", u, nil, 8_000_000, nil, code)
		}
		return rg.cosmos("create", u, 8_000_000, msgCreate(u, code, nil))
	case "create2":
		return rg.cosmos("create2", u, 8_000_000, msgCreate2(u, smallInit(r), nil, uint64(r.N(6))))
	case "value":
		to := wl.anyAddr(r)
		return wl.call("value", o, u, to, 1_000_000, bi(int64(r.In(1, 1_000_000))), nil)
	case "deposit":
		denom := fmt.Sprintf("l2/%064x", r.N(3)+1)
		to := sdk.AccAddress(wl.anyAddr(r).Bytes()).String()
		if r.P(1, 8) {
			to = authtypes.NewModuleAddress(authtypes.FeeCollectorName).String()
		}
		m := opchildtypes.NewMsgFinalizeTokenDeposit(rg.exec.bech, "init1sender", to, sdk.NewCoin(denom, math.NewInt(int64(r.In(0, 100000)))), wl.l1seq, 1, "uinit", nil)
		wl.l1seq++
		return rg.cosmos("deposit", rg.exec, 8_000_000, m)
	case "hook":
		return wl.hookTx(o)
	case "withdraw":
		denom := fmt.Sprintf("l2/%064x", r.N(3)+1)
		return rg.cosmos("withdraw", u, 2_000_000, opchildtypes.NewMsgInitiateTokenWithdrawal(u.bech, "init1receiver", sdk.NewCoin(denom, math.NewInt(int64(r.In(1, 20000))))))
	case "params":
		ctx := rg.nodeUp().committedCtx()
		p, err := rg.nodeUp().app.EVMKeeper.Params.Get(ctx)
		if err != nil {
			rg.w.abort("params: %v", err)
		}
		p.GasRefundRatio = math.LegacyNewDecWithPrec(int64(r.N(101)), 2)
		if r.P(1, 2) {
			p.NumRetainBlockHashes = []uint64{0, 256}[r.N(2)]
		}
		return rg.cosmos("params", rg.admin, 2_000_000, adminMsgs(rg.admin, &evmtypes.MsgUpdateParams{Authority: opAuthority(), Params: p}))
	case "multi":
		var ms []sdk.Msg
		for n := r.In(2, 4); n > 0; n-- {
			switch r.N(3) {
			case 0:
				ms = append(ms, wl.bankMsg(r, u))
			case 1:
				ms = append(ms, msgCall(u, pick(r, rg.con), wl.script(r, 2), nil))
			default:
				ms = append(ms, msgCreate(u, smallInit(r), nil))
			}
		}
		return rg.cosmos("multi", u, 8_000_000, ms...)
	case "dispatch":
		c := pick(r, rg.con)
		var s script
		for n := r.In(1, 3); n > 0; n-- {
			s = s.sadd(byte(r.N(8)), 1)
			inner := script{}.call(sCALL, cosmosAddr, 0, 0, byte(r.N(4)), 30, pack(abiCosmos, "execute_cosmos", wl.dispatchJSON(r, c)))
			if r.P(1, 3) {
				s = s.call(sCALL, c, 0, 0, byte(r.N(4)), 31, append(inner, script{}.u8(pick(r, []byte{sSTOP, sREVERT}), 0, 0)...))
			} else {
				s = append(s, inner...)
			}
		}
		return wl.call("dispatch", o, u, c, 6_000_000, nil, s)
	case "feegrant":
		v := wl.user(r)
		if v == u {
			return nil
		}
		key := [2]int{u.idx, v.idx}
		if !wl.granted[key] {
			wl.granted[key] = true
			m, _ := feegrant.NewMsgGrantAllowance(&feegrant.BasicAllowance{}, u.acc, v.acc)
			return rg.cosmos("feegrant", u, 1_000_000, m)
		}
		return rg.cosmosN("granted", []*Acct{v}, 1_500_000, TxOpts{Granter: u.acc}, wl.bankMsg(r, v))
	case "authz":
		v := wl.user(r)
		if v == u {
			return nil
		}
		if r.P(1, 2) {
			m, _ := authz.NewMsgGrant(u.acc, v.acc, authz.NewGenericAuthorization(sdk.MsgTypeURL(&evmtypes.MsgCall{})), nil)
			return rg.cosmos("grant", u, 1_000_000, m)
		}
		m := authz.NewMsgExec(v.acc, []sdk.Msg{msgCall(u, pick(r, rg.con), wl.script(r, 1), nil)})
		return rg.cosmos("exec", v, 6_000_000, &m)
	case "token":
		if r.P(1, 2) {
			f, err := rg.nodeUp().app.EVMKeeper.GetERC20FactoryAddr(rg.nodeUp().committedCtx())
			if err == nil {
				return wl.call("factory", o, u, f, 8_000_000, nil, pack(abiFactory, "createERC20", "F", fmt.Sprintf("F%d", o.i), uint8(r.N(19))))
			}
		}
		return rg.cosmos("token", u, 12_000_000, msgCreate(u, creation(initia_erc20.InitiaErc20MetaData, "New", fmt.Sprintf("N%d", o.i), uint8(r.N(19))), nil))
	case "nft":
		if len(wl.nfts) == 0 {
			return nil
		}
		c := wl.nfts[0]
		id := bi(int64(r.N(10)))
		var d []byte
		switch r.N(4) {
		case 0, 1:
			u = rg.users[2%len(rg.users)]
			d = pack(abiNFT, "mint0", wl.user(r).eth, id, "uri")
		case 2:
			d = pack(abiNFT, "transferFrom", u.eth, wl.anyAddr(r), id)
		default:
			d = pack(abiNFT, "approve", wl.anyAddr(r), id)
		}
		return wl.call("nft", o, u, c, 2_000_000, nil, d)
	case "fail":
		switch r.N(4) {
		case 0: // burn all gas
			return wl.call("fail.oog", o, u, pick(r, rg.con), 400_000, nil, script{}.sstore(1, 9).u8(sBURN).u16(60000))
		case 1:
			return wl.call("fail.revert", o, u, pick(r, rg.con), 2_000_000, nil, append(wl.script(r, 2), script{}.u8(sREVERT).u16(3)...))
		case 2:
			return rg.cosmos("fail.second", u, 4_000_000, wl.bankMsg(r, u), msgCall(u, pick(r, rg.con), script{}.sadd(2, 2).u8(sINVALID), nil))
		default:
			return rg.cosmos("fail.bank", u, 1_500_000, banktypes.NewMsgSend(u.acc, wl.user(r).acc, sdk.NewCoins(sdk.NewCoin(feeDenom, math.NewIntWithDecimal(1, 40)))))
		}
	case "counter":
		return rg.cosmos("counter", u, 8_000_000, msgCreate(u, creation(counter.CounterMetaData), nil))
	case "replay":
		if len(wl.old) == 0 {
			return nil
		}
		t := *pick(r, wl.old)
		t.kind = "replay"
		return &t
	}
	panic("kind " + o.kind)
}

// hookTx is a bridge deposit that carries a signed transaction to run.
func (wl *WL) hookTx(o Op) *Tx {
	rg, r, u := wl.rg, o.r, o.who
	denom := fmt.Sprintf("l2/%064x", r.N(3)+1)
	inner := rg.cosmosN("hook-inner", []*Acct{u}, 1_000_000, TxOpts{Fee: sdk.Coins{}}, msgCall(u, pick(r, rg.con), wl.script(r, 1), nil))
	m := opchildtypes.NewMsgFinalizeTokenDeposit(rg.exec.bech, "init1sender", u.bech, sdk.NewCoin(denom, math.NewInt(int64(r.In(1, 100000)))), wl.l1seq, 1, "uinit", inner.bz)
	wl.l1seq++
	return rg.cosmos("hook", rg.exec, 12_000_000, m)
}
