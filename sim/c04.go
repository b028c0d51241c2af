package main

import (
	"fmt"
	"math/big"
	"strings"

	"cosmossdk.io/math"
	"cosmossdk.io/x/feegrant"
	abci "github.com/cometbft/cometbft/abci/types"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/ethereum/go-ethereum/common"

	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"

	"github.com/initia-labs/minievm/x/evm/contracts/counter"
	"github.com/initia-labs/minievm/x/evm/contracts/initia_erc20"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

func init() { scenarios["C04"] = scC04 }

// scC04 runs a chain of blocks with many failing transactions next to a twin
// chain on which every failed transaction is replaced by a trivially failing
// one with the same signers, sequences and fee, and every transaction refused
// before its fee was taken is absent. Both must stay in identical states.
func scC04(w *World) {
	r := NewRng(w.seed, "c04")
	d := &c04{w: w, use: map[string]int64{}}
	o := ClusterOpts{Blocks: 14, PerBlock: 7, Scripts: 4, Opts: RigOpts{}}
	if r.P(1, 3) {
		o.Replicas, o.Noise, o.Crash, o.WriteCrash, o.Power = 1, 2, 15, true, true
	}
	o.Pre = d.pre
	o.Gen = d.gen
	o.OnRef = d.check
	runCluster(w, o)
}

type c04 struct {
	w    *World
	c    *Cluster
	twin *Node
	tc   *Chain
	use  map[string]int64 // gas used by successful transactions, by kind
}

func (d *c04) pre(c *Cluster) {
	d.c = c
	rg := c.rg
	d.tc = newChain(d.w, rg.gen)
	d.twin = newNode(d.w, 50, rg.gen, NodeCfg{})
	if !d.twin.start(d.tc) {
		d.w.abort("twin did not start")
	}
	for h := rg.c.initialHeight; h <= rg.c.height(); h++ {
		d.onTwin(rg.c.block(h))
	}
}

func (d *c04) onTwin(b *Block) {
	d.tc.blocks = append(d.tc.blocks, b)
	if !d.twin.apply(d.tc, b, false) {
		d.w.abort("twin died: %s", d.twin.inc.why)
	}
}

func newValMsg(r *Rng, i int) sdk.Msg {
	pk := ed25519.GenPrivKeyFromSecret([]byte(fmt.Sprintf("val%d", i))).PubKey()
	any, _ := codectypes.NewAnyWithValue(pk)
	return &opchildtypes.MsgAddValidator{Authority: opAuthority(), ValidatorAddress: sdk.ValAddress(pk.Address()).String(), Moniker: "x", Pubkey: any}
}

// effect is a message that would change state if its transaction succeeded.
func (wl *WL) effect(r *Rng, u *Acct, depth int) sdk.Msg {
	rg := wl.rg
	switch r.N(12) {
	case 0:
		return wl.bankMsg(r, u)
	case 1, 2, 3:
		return msgCall(u, pick(r, rg.con), wl.script(r, depth), bi(int64(r.N(2)*r.N(50))))
	case 4:
		return msgCreate(u, smallInit(r), bi(int64(r.N(2)*r.N(50))))
	case 5:
		return msgCreate2(u, smallInit(r), nil, uint64(r.N(20)))
	case 6:
		m, _ := authz.NewMsgGrant(u.acc, wl.user(r).acc, authz.NewGenericAuthorization("/minievm.evm.v1.MsgCreate"), nil)
		return m
	case 7:
		m, _ := feegrant.NewMsgGrantAllowance(&feegrant.BasicAllowance{}, u.acc, sdk.AccAddress(detBytes("grantee", r.N(50))[:20]))
		return m
	case 8:
		tok := pick(r, wl.tokens)
		_, dt := wl.erc20Data(r, tok, u)
		return msgCall(u, tok.addr, dt, nil)
	case 9:
		return msgCreate(u, creation(initia_erc20.InitiaErc20MetaData, "Fail", fmt.Sprintf("X%d", r.N(100)), uint8(r.N(19))), nil)
	case 10:
		denom := fmt.Sprintf("l2/%064x", r.N(3)+1)
		return opchildtypes.NewMsgInitiateTokenWithdrawal(u.bech, "init1receiver", sdk.NewCoin(denom, math.NewInt(int64(r.In(1, 2000)))))
	default:
		s := script{}.call(sCALL, cosmosAddr, 0, 0, fReq, 30, pack(abiCosmos, "execute_cosmos", wl.dispatchJSON(r, rg.con[0])))
		return msgCall(u, rg.con[0], s, nil)
	}
}

// failMsg is a message that fails.
func (wl *WL) failMsg(r *Rng, u *Acct) sdk.Msg {
	rg := wl.rg
	con := pick(r, rg.con)
	deep := func(s script) script { // below a few calls, bubbling up
		for n := r.N(3); n > 0; n-- {
			s = script{}.sadd(byte(r.N(12)), 3).call(sCALL, pick(r, rg.con), uint64(r.N(50)), 0, fReq, 0, s)
		}
		return s
	}
	switch r.N(10) {
	case 0:
		return banktypes.NewMsgSend(u.acc, wl.user(r).acc, sdk.NewCoins(sdk.NewCoin(feeDenom, math.NewIntWithDecimal(1, 40))))
	case 1:
		return msgCall(u, con, deep(append(wl.script(r, 1), script{}.u8(sREVERT).u16(7)...)), nil)
	case 2:
		return msgCall(u, con, deep(append(wl.script(r, 1), sINVALID)), nil)
	case 3: // dispatched message fails
		m := fmt.Sprintf(`{"@type":"/cosmos.bank.v1beta1.MsgSend","from_address":"%s","to_address":"%s","amount":[{"denom":"stake","amount":"1%s"}]}`, sdk.AccAddress(con.Bytes()), u.bech, strings.Repeat("0", 40))
		if r.P(1, 2) { // dispatched call that reverts after effects
			m = fmt.Sprintf(`{"@type":"/minievm.evm.v1.MsgCall","sender":"%s","contract_addr":"%s","input":"0x%x","value":"0","access_list":[]}`, sdk.AccAddress(con.Bytes()), con.Hex(), []byte(script{}.sadd(3, 4).log(5).u8(sREVERT).u16(9)))
		}
		s := script{}.sadd(4, 4)
		if r.P(1, 2) {
			s = s.call(sCALL, cosmosAddr, 0, 0, fReq, 30, pack(abiCosmos, "execute_cosmos", wl.dispatchJSON(r, con)))
		}
		return msgCall(u, con, s.call(sCALL, cosmosAddr, 0, 0, fReq, 30, pack(abiCosmos, "execute_cosmos", m)), nil)
	case 4: // value to a blocked module account
		return msgCall(u, con, deep(script{}.sadd(5, 5).call(sCALL, common.BytesToAddress(authtypes.NewModuleAddress(opchildtypes.ModuleName)), 5, 0, fReq, 0, nil).u8(sREVERT).u16(1)), nil)
	case 5:
		return msgCreate(u, initFor([]byte{0}, func(a *asm) { a.pi(7).pi(3).op(0x55).pi(0).pi(0).op(0xfd) }), bi(3))
	case 6:
		return msgCall(u, con, nil, new(big.Int).Exp(bi(10), bi(50), nil)) // value beyond balance
	case 7:
		return &evmtypes.MsgUpdateParams{Authority: u.bech, Params: evmtypes.DefaultParams()}
	case 8: // factory token, then fail
		f, err := rg.nodeUp().app.EVMKeeper.GetERC20FactoryAddr(rg.nodeUp().committedCtx())
		if err != nil {
			rg.w.abort("factory: %v", err)
		}
		return msgCall(u, con, script{}.call(sCALL, f, 0, 0, fReq, 0, pack(abiFactory, "createERC20", "G", "G", uint8(6))).u8(sREVERT).u16(2), nil)
	default:
		m := authz.NewMsgExec(u.acc, []sdk.Msg{msgCall(wl.user(r), con, script{}.sadd(1, 1).u8(sINVALID), nil)})
		return &m
	}
}

func (wl *WL) failing(o Op, use map[string]int64) *Tx {
	rg, r, u := wl.rg, o.r, o.who
	switch r.N(8) {
	case 0: // authority's messages, the last one fails
		var ms []sdk.Msg
		p, err := rg.nodeUp().app.EVMKeeper.Params.Get(rg.nodeUp().committedCtx())
		if err != nil {
			rg.w.abort("params: %v", err)
		}
		for n := r.In(1, 3); n > 0; n-- {
			switch r.N(4) {
			case 0:
				p.GasRefundRatio = math.LegacyNewDecWithPrec(int64(r.N(101)), 2)
				p.AllowedPublishers = []string{wl.user(r).bech}
				ms = append(ms, &evmtypes.MsgUpdateParams{Authority: opAuthority(), Params: p})
			case 1:
				ms = append(ms, newValMsg(r, r.N(5)))
			case 2:
				ms = append(ms, opchildtypes.NewMsgSpendFeePool(authtypes.NewModuleAddress(opchildtypes.ModuleName), u.acc, coins(feeDenom, int64(r.In(1, 1000)))))
			default:
				ms = append(ms, banktypes.NewMsgSetSendEnabled(opAuthority(), []*banktypes.SendEnabled{{Denom: feeDenom, Enabled: false}}, nil))
			}
		}
		ms = append(ms, opchildtypes.NewMsgSpendFeePool(authtypes.NewModuleAddress(opchildtypes.ModuleName), u.acc, sdk.NewCoins(sdk.NewCoin(feeDenom, math.NewIntWithDecimal(1, 40)))))
		m, _ := opchildtypes.NewMsgExecuteMessages(rg.admin.bech, ms)
		return rg.cosmos("f.authority", rg.admin, 8_000_000, m)
	case 1: // bridge deposit, then failure
		denom := fmt.Sprintf("l2/%064x", r.N(4)+1)
		m := opchildtypes.NewMsgFinalizeTokenDeposit(rg.exec.bech, "init1sender", u.bech, sdk.NewCoin(denom, math.NewInt(int64(r.In(1, 100000)))), wl.l1seq, 1, "uinit", nil)
		return rg.cosmos("f.deposit", rg.exec, 10_000_000, m, wl.failMsg(r, rg.exec))
	case 2, 3: // out of gas anywhere
		n := r.In(1, 3)
		var ms []sdk.Msg
		for ; n > 0; n-- {
			ms = append(ms, wl.effect(r, u, 2))
		}
		return rg.cosmos("f.gas", u, uint64(r.In(40_000, 1_200_000)), ms...)
	case 4: // Ethereum-signed failures
		if m, ok := wl.failMsg(r, u).(*evmtypes.MsgCall); ok && m.Value.LT(math.NewInt(1000)) {
			to := common.HexToAddress(m.ContractAddr)
			return rg.eth("f.eth", u, &to, uint64(pick(r, []int{6_000_000, 6_000_000, r.In(60_000, 900_000)})), m.Value.BigInt(), common.FromHex(m.Input))
		}
		return rg.eth("f.ethcreate", u, nil, uint64(pick(r, []int{8_000_000, r.In(60_000, 500_000)})), nil, initFor([]byte{0}, func(a *asm) { a.pi(7).pi(3).op(0x55).pi(0).pi(0).op(0xfd) }))
	case 5: // fee granted
		v := wl.user(r)
		if v != u && wl.granted[[2]int{u.idx, v.idx}] {
			return rg.cosmosN("f.granted", []*Acct{v}, 4_000_000, TxOpts{Granter: u.acc}, wl.effect(r, v, 2), wl.failMsg(r, v))
		}
	case 6: // two signers
		v := wl.user(r)
		if v != u {
			return rg.cosmosN("f.two", []*Acct{u, v}, 8_000_000, TxOpts{}, wl.effect(r, u, 2), wl.effect(r, v, 2), wl.failMsg(r, v))
		}
	case 7: // deploy the counter (hook contract), then fail
		return rg.cosmos("f.counter", u, 8_000_000, msgCreate(u, creation(counter.CounterMetaData), nil), wl.failMsg(r, u))
	}
	var ms []sdk.Msg
	for n := r.N(4); n > 0; n-- {
		ms = append(ms, wl.effect(r, u, 2))
	}
	ms = append(ms, wl.failMsg(r, u))
	if r.P(1, 4) {
		ms = append(ms, wl.effect(r, u, 2))
	}
	return rg.cosmos("f.msgs", u, 12_000_000, ms...)
}

func (d *c04) gen(b, per int) []*Tx {
	wl := d.c.wl
	var out []*Tx
	for i := 0; i < per; i++ {
		o := wl.op(b*per + i)
		if !d.w.on(o.i) {
			continue
		}
		wl.rg.opIdx = o.i
		if o.r.P(3, 5) {
			if t := wl.failing(o, d.use); t != nil {
				t.op = o.i
				out = append(out, t)
			}
			continue
		}
		out = append(out, wl.gen(o)...)
	}
	return out
}

func hasEvent(t *abci.ExecTxResult, typ, key string) bool {
	for _, e := range t.Events {
		if e.Type == typ {
			for _, a := range e.Attributes {
				if key == "" || a.Key == key {
					return true
				}
			}
		}
	}
	return false
}

// feeTaken tells whether a transaction got past admission.
func feeTaken(t *abci.ExecTxResult) bool { return hasEvent(t, "tx", "fee") }

func (d *c04) check(b int, txs []*Tx, res *abci.ResponseFinalizeBlock) {
	w, rg := d.w, d.c.rg
	blk := rg.c.block(rg.c.height())
	tb := &Block{H: blk.H, T: blk.T, Hash: blk.Hash}
	var at []int
	for i, t := range txs {
		r := res.TxResults[i]
		if r.Code == 0 {
			d.use[t.kind] = r.GasUsed
			tb.Txs = append(tb.Txs, t.bz)
			at = append(at, i)
			continue
		}
		if !feeTaken(r) {
			w.count("refused")
			continue
		}
		// the stand-in: every signer asks for something not allowed to him
		var ms []sdk.Msg
		for _, s := range t.signers {
			ms = append(ms, &evmtypes.MsgUpdateParams{Authority: s.bech, Params: evmtypes.DefaultParams()})
		}
		o := TxOpts{Gas: t.gas, Fee: sdk.NewCoins(sdk.NewCoin(feeDenom, t.fee)), Granter: t.granter}
		seqs := []uint64{t.seq}
		for k := 1; k < len(t.signers); k++ {
			seqs = append(seqs, t.seqs[k])
		}
		tb.Txs = append(tb.Txs, rg.mk.cosmosTx(t.signers, seqs, ms, o))
		at = append(at, i)
		w.count("failed_with_twin")
		l := r.Log
		if len(l) > 60 {
			l = l[:60]
		}
		w.reach("failed." + t.kind + "." + r.Codespace + fmt.Sprint(r.Code))
	}
	d.onTwin(tb)
	tr := d.tc.res(tb.H).Res
	for k, i := range at {
		a, x := res.TxResults[i], tr.TxResults[k]
		if a.Code == 0 {
			da, dx := digest(&abci.ResponseFinalizeBlock{TxResults: []*abci.ExecTxResult{a}}), digest(&abci.ResponseFinalizeBlock{TxResults: []*abci.ExecTxResult{x}})
			if da != dx {
				w.violate("later-outcome", "block %d: %s has another result than on the chain where the failed transactions did nothing: %s", blk.H, txs[i], firstDiff(da, dx))
			}
			continue
		}
		if x.Code == 0 || !feeTaken(x) {
			w.violate("failed-bookkeeping", "block %d: %s failed after its fee was taken (%s), a trivially failing transaction with the same signers, sequences and fee gets %s", blk.H, txs[i], a.Log, x.Log)
		}
	}
	if eqBytes(res.AppHash, tr.AppHash) {
		w.count("twin_states_equal")
		return
	}
	// which stores differ
	df := diffDump(d.twin.dump(), rg.n0().dump())
	if len(df) == 0 {
		w.abort("twin app hashes differ but the states are equal")
	}
	var failed []string
	for _, i := range at {
		if res.TxResults[i].Code != 0 {
			failed = append(failed, fmt.Sprintf("%s (%.80s)", txs[i], res.TxResults[i].Log))
		}
	}
	w.violate("failed-tx-trace", "block %d: the failed transactions %s left more than fee and sequence: %s", blk.H, strings.Join(failed, "; "), first(df, 6))
}
