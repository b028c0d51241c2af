package main

import (
	"context"
	"crypto/sha256"
	"math/big"

	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	"github.com/cosmos/cosmos-sdk/client"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	authsign "github.com/cosmos/cosmos-sdk/x/auth/signing"
	"github.com/cosmos/cosmos-sdk/x/authz"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"

	minitiaapp "github.com/initia-labs/minievm/app"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

func init() {
	scenarios["C06"] = scC06
	scenarios["C07"] = scC07
}

// scC06 mixes valid transactions with replays, forgeries and re-wrapped ones.
func scC06(w *World) {
	r := NewRng(w.seed, "c06")
	d := &LRun{w: w, noFee: true}
	o := ClusterOpts{Blocks: 12, PerBlock: 9, Scripts: 3}
	if r.P(1, 3) {
		o.Replicas, o.Crash, o.WriteCrash, o.Power = 1, 25, true, true
	}
	o.Pre = d.init
	o.Gen = d.genHostile
	o.OnRef = d.onRef
	runCluster(w, o)
}

// scC07 runs transactions with all kinds of fees and checks every balance of
// the fee denomination, and the admission of underpaid transactions.
func scC07(w *World) {
	r := NewRng(w.seed, "c07")
	d := &LRun{w: w, onlyFee: true}
	o := ClusterOpts{Blocks: 12, PerBlock: 8, Scripts: 3}
	if r.P(1, 2) {
		o.Opts.MinGas = int64(r.In(1, 2000))
	}
	if r.P(1, 4) {
		o.Replicas, o.Crash, o.WriteCrash, o.Power = 1, 20, true, true
	}
	if r.P(1, 4) {
		// small balances: fees beyond them
		o.Opts.Balance = math.NewInt(int64(r.In(60, 400))).MulRaw(1_000_000_000)
	}
	o.Pre = d.init
	o.Gen = d.genFees
	o.OnRef = func(b int, txs []*Tx, res *abci.ResponseFinalizeBlock) {
		d.onRef(b, txs, res)
		d.admission(b)
	}
	runCluster(w, o)
	d.full(false)
}

func (d *LRun) genFees(b, per int) []*Tx {
	out := d.gen(b, per)
	return out
}

// admission checks the mempool's treatment of underpaid transactions.
func (d *LRun) admission(b int) {
	rg, w := d.c.rg, d.w
	r := NewRng(w.seed+uint64(b), "admission")
	if !r.P(1, 2) {
		return
	}
	n := rg.n0()
	rg.sync()
	minp := rg.gen.MinGas.AmountOf(feeDenom).TruncateInt()
	for k := 0; k < 4; k++ {
		u := d.c.wl.user(r)
		gas := uint64(r.In(1_000_000, 9_000_000))
		need := minp.MulRaw(int64(gas))
		bal := math.NewIntFromBigInt(d.l.toks[feeDenom].of(u.eth))
		fee := need
		what := "exact"
		switch r.N(5) {
		case 0:
			fee, what = need.SubRaw(1), "below"
		case 1:
			fee, what = need.QuoRaw(2), "half"
		case 2:
			fee, what = math.ZeroInt(), "none"
		case 3:
			fee, what = bal.AddRaw(1), "beyond-balance"
		}
		if fee.IsNegative() {
			fee = math.ZeroInt()
		}
		var bz []byte
		save := u.next
		if r.P(1, 2) && minp.IsPositive() && what != "beyond-balance" {
			price := minp.BigInt()
			if what != "exact" {
				price = new(big.Int).Sub(price, bi(int64(1+r.N(int(minp.Int64())))))
			}
			to := pick(r, d.addrs())
			t, err := rg.ethereum("adm", u, EthArgs{Type: r.N(3), Nonce: u.next, To: &to, Gas: gas, FeeCap: price})
			if err != nil {
				w.abort("adm: %v", err)
			}
			bz, fee = t.bz, t.fee
		} else {
			fs := sdk.NewCoins(sdk.NewCoin(feeDenom, fee))
			bz = rg.cosmosN("adm", []*Acct{u}, gas, TxOpts{Fee: fs, Memo: string(rune('a' + k))}, banktypes.NewMsgSend(u.acc, d.c.wl.user(r).acc, coins(feeDenom, 1))).bz
		}
		u.next = save
		var res *abci.ResponseCheckTx
		n.abciCall("CheckTx", func(app *minitiaapp.MinitiaApp) {
			x, err := app.CheckTx(&abci.RequestCheckTx{Tx: bz, Type: abci.CheckTxType_New})
			if err != nil {
				x = &abci.ResponseCheckTx{Code: 1, Log: err.Error()}
			}
			res = x
		})
		if res == nil {
			w.abort("node died")
		}
		good := fee.GTE(need) && fee.LTE(bal)
		w.reach("admission." + what)
		if res.Code == 0 && !good {
			w.violate("underpaid-admitted", "a transaction with gas %d and fee %s is admitted; minimum price %s, payer's balance %s", gas, fee, minp, bal)
		}
		if res.Code == 0 {
			w.count("admitted")
			return // the mempool's view of balances moved on
		}
		w.count("underpaid_refused")
	}
}

// ---- hostile transactions

func (d *LRun) bad(t *Tx, bz []byte, note string) *Tx {
	x := *t
	x.bz, x.hash, x.bad, x.note = bz, sha256.Sum256(bz), true, note
	x.meta = &LPlan{refuse: note}
	x.kind = "bad"
	return &x
}

func (d *LRun) genHostile(b, per int) []*Tx {
	rg := d.c.rg
	var out []*Tx
	emit := func(t *Tx, op int) { t.op = op; out = append(out, t) }
	for i := 0; i < per; i++ {
		o := d.c.wl.op(b*per + i)
		if !d.w.on(o.i) {
			continue
		}
		rg.opIdx = o.i
		r, u := o.r, o.who
		switch r.N(12) {
		case 0: // signed bytes that were in an earlier block
			if len(d.past) > 0 {
				t := *pick(r, d.past)
				t.note = "replay"
				emit(&t, o.i)
			}
		case 1: // the same bytes twice in this block
			if len(out) > 0 {
				t := *pick(r, out)
				t.note += "again"
				emit(&t, o.i)
			}
		case 2, 3: // wrong sequence
			save := u.next
			m := d.anyMsg(r, u)
			delta := pick(r, []int{-3, -2, -1, 1, 2, 5})
			if delta > 0 || u.next >= uint64(-delta) {
				u.next = uint64(int(u.next) + delta)
			}
			t := d.make(r, u, []*LMsg{m}, "")
			t.note = "shifted"
			for _, s := range t.signers {
				if s != u {
					s.next--
				}
			}
			u.next = save
			emit(t, o.i)
		case 4, 5, 6:
			if t := d.forge(r, u); t != nil {
				emit(t, o.i)
			}
		case 7: // gap: the later one first
			m1, m2 := d.send(r, u.eth), d.native(r, u)
			t1, t2 := d.make(r, u, []*LMsg{m1}, ""), d.make(r, u, []*LMsg{m2}, "")
			emit(t2, o.i)
			emit(t1, o.i)
			if r.P(1, 2) {
				emit(t2, o.i)
			} else if len(t2.signers) == 1 {
				u.next = t2.seq
			}
		default:
			if t := d.genTx(o); t != nil {
				emit(t, o.i)
			}
		}
	}
	return out
}

// forge makes a transaction that no signer agreed to in this form. The
// client-side sequences stay as they were.
func (d *LRun) forge(r *Rng, u *Acct) *Tx {
	rg := d.c.rg
	save := map[*Acct]uint64{}
	for _, a := range rg.accByA {
		save[a] = a.next
	}
	defer func() {
		for a, s := range save {
			a.next = s
		}
	}()
	if r.P(1, 2) {
		return d.forgeEth(r, u)
	}
	v := d.c.wl.user(r)
	for v == u {
		v = d.c.wl.user(r)
	}
	gas := uint64(2_500_000)
	send := banktypes.NewMsgSend(u.acc, v.acc, sdk.NewCoins(sdk.NewCoin(d.c.wl.tokens[0].denom, math.NewInt(7))))
	call := msgCall(u, d.c.wl.tokens[0].addr, pack(abiERC20, "transfer", v.eth, bi(5)), nil)
	var m sdk.Msg = send
	if r.P(1, 2) {
		m = call
	}
	base := func(o TxOpts) *Tx { return rg.cosmosN("bad", []*Acct{u}, gas, o, m) }
	switch r.N(9) {
	case 0:
		t := base(TxOpts{ChainID: pick(r, []string{"minisim-2", "minisim", "MINISIM-1"})})
		return d.bad(t, t.bz, "other chain id")
	case 1:
		n := u.num + uint64(r.In(1, 5))
		t := base(TxOpts{AccNum: &n})
		return d.bad(t, t.bz, "other account number")
	case 2: // signature by another key, public key attached
		t := rg.cosmosN("bad", []*Acct{u}, gas, TxOpts{}, m)
		x := rg.mk.resign(t.bz, func(b client.TxBuilder, sigs []signing.SignatureV2) []signing.SignatureV2 {
			s := sigs[0]
			s.PubKey = v.priv.PubKey()
			return []signing.SignatureV2{s}
		})
		return d.bad(t, x, "other public key")
	case 3: // v signs for u with v's key
		seq := u.next
		t := rg.cosmosN("bad", []*Acct{u}, gas, TxOpts{}, m)
		bz := rg.mk.cosmosTx([]*Acct{{idx: v.idx, priv: v.priv, ecd: v.ecd, bech: u.bech, num: u.num}}, []uint64{seq}, []sdk.Msg{m}, TxOpts{Gas: gas, Fee: rg.fee(gas)})
		return d.bad(t, bz, "signed by another key")
	case 4: // a byte of the signature flipped
		t := base(TxOpts{})
		bz := rg.mk.resign(t.bz, func(b client.TxBuilder, sigs []signing.SignatureV2) []signing.SignatureV2 {
			sd := sigs[0].Data.(*signing.SingleSignatureData)
			sd.Signature = append([]byte(nil), sd.Signature...)
			sd.Signature[r.N(64)] ^= byte(1 << r.N(8))
			return sigs
		})
		return d.bad(t, bz, "signature damaged")
	case 5: // content changed after signing
		t := base(TxOpts{})
		what := ""
		bz := rg.mk.resign(t.bz, func(b client.TxBuilder, sigs []signing.SignatureV2) []signing.SignatureV2 {
			switch r.N(6) {
			case 0:
				what = "fee"
				b.SetFeeAmount(b.GetTx().GetFee().Add(sdk.NewCoin(feeDenom, math.NewInt(1))))
			case 1:
				what = "gas"
				b.SetGasLimit(gas + 1)
			case 2:
				what = "memo"
				b.SetMemo("x")
			case 3:
				what = "timeout"
				b.SetTimeoutHeight(1 << 40)
			case 4:
				what = "message"
				s2 := *send
				s2.Amount = sdk.NewCoins(sdk.NewCoin(d.c.wl.tokens[0].denom, math.NewInt(8)))
				b.SetMsgs(&s2)
			default:
				what = "granter"
				b.SetFeeGranter(v.acc)
			}
			return sigs
		})
		return d.bad(t, bz, "content changed: "+what)
	case 6: // second signer's signature missing or wrong
		m2 := banktypes.NewMsgSend(v.acc, u.acc, sdk.NewCoins(sdk.NewCoin(d.c.wl.tokens[0].denom, math.NewInt(9))))
		su, sv := u.next, v.next
		t := rg.cosmosN("bad", []*Acct{u, v}, gas*2, TxOpts{}, m, m2)
		bz := rg.mk.resign(t.bz, func(b client.TxBuilder, sigs []signing.SignatureV2) []signing.SignatureV2 {
			switch r.N(3) {
			case 0:
				return sigs[:1]
			case 1:
				sigs[1].Data = sigs[0].Data
				return sigs
			default:
				return []signing.SignatureV2{sigs[0], sigs[0]}
			}
		})
		_, _ = su, sv
		return d.bad(t, bz, "second signature missing")
	case 7: // sequence in the signature info changed after signing
		t := base(TxOpts{})
		seq := u.next + uint64(r.N(3))
		bz := rg.mk.resign(t.bz, func(b client.TxBuilder, sigs []signing.SignatureV2) []signing.SignatureV2 {
			sigs[0].Sequence = seq
			return sigs
		})
		if seq == t.seq {
			return nil
		}
		return d.bad(t, bz, "sequence changed")
	default: // no signature at all
		t := base(TxOpts{})
		bz := rg.mk.resign(t.bz, func(b client.TxBuilder, sigs []signing.SignatureV2) []signing.SignatureV2 { return nil })
		return d.bad(t, bz, "unsigned")
	}
}

// resign re-encodes a transaction with changed content or signatures.
func (m *TxMaker) resign(bz []byte, f func(b client.TxBuilder, sigs []signing.SignatureV2) []signing.SignatureV2) []byte {
	dec, err := m.cfg.TxDecoder()(bz)
	if err != nil {
		panic(err)
	}
	b, err := m.cfg.WrapTxBuilder(dec)
	if err != nil {
		panic(err)
	}
	sigs, err := dec.(authsign.SigVerifiableTx).GetSignaturesV2()
	if err != nil {
		panic(err)
	}
	sigs = f(b, sigs)
	if err := b.SetSignatures(sigs...); err != nil {
		panic(err)
	}
	out, err := m.cfg.TxEncoder()(b.GetTx())
	if err != nil {
		panic(err)
	}
	return out
}

// forgeEth re-wraps a transaction the user signed with an Ethereum wallet.
func (d *LRun) forgeEth(r *Rng, u *Acct) *Tx {
	rg := d.c.rg
	v := d.c.wl.user(r)
	for v == u {
		v = d.c.wl.user(r)
	}
	tok := d.c.wl.tokens[0]
	x := EthArgs{Type: r.N(3), Nonce: u.next, To: &tok.addr, Gas: 2_500_000, FeeCap: bi(1000), TipCap: bi(3), Data: pack(abiERC20, "transfer", v.eth, bi(5))}
	if r.P(1, 3) {
		c := pick(r, rg.con)
		x.To, x.Data, x.Value = &c, nil, bi(11)
	}
	if x.Type > 0 && r.P(1, 2) {
		x.AL = append(x.AL, coreAL(tok.addr))
	}
	if r.P(1, 6) { // an empty creation, carrying a message of another kind
		x.To, x.Data, x.Value, x.AL = nil, nil, nil, nil
		t, err := rg.ethereum("bad", u, x)
		if err != nil {
			d.w.abort("eth: %v", err)
		}
		bz := rg.mk.resign(t.bz, func(b client.TxBuilder, sigs []signing.SignatureV2) []signing.SignatureV2 {
			c := sdk.NewCoins(sdk.NewCoin(tok.denom, math.NewInt(7)))
			b.SetMsgs(pick(r, []sdk.Msg{
				banktypes.NewMsgSend(u.acc, v.acc, c),
				&authz.MsgRevoke{Granter: u.bech, Grantee: v.bech, MsgTypeUrl: "/cosmos.bank.v1beta1.MsgSend"},
				&evmtypes.MsgCreate2{Sender: u.bech, Code: "0x", Value: math.ZeroInt()},
			}))
			return sigs
		})
		return d.bad(t, bz, "signed Ethereum transaction carrying another message")
	}
	if r.P(1, 6) { // another chain's transaction
		et := u.ethTx(EthArgs{Type: x.Type, Nonce: x.Nonce, To: x.To, Gas: x.Gas, FeeCap: x.FeeCap, TipCap: x.TipCap, Data: x.Data, Value: x.Value, ChainID: new(big.Int).Add(ethChainID, bi(int64(r.In(1, 3))))})
		bz, err := rg.mk.ethToCosmos(context.Context(rg.nodeUp().committedCtx()), et)
		if err != nil {
			d.w.count("other_chain_eth_refused_at_conversion")
			return nil
		}
		t := &Tx{from: u, signers: []*Acct{u}, seq: x.Nonce, gas: x.Gas, fee: math.ZeroInt()}
		return d.bad(t, bz, "Ethereum transaction of another chain")
	}
	t, err := rg.ethereum("bad", u, x)
	if err != nil {
		d.w.abort("eth: %v", err)
	}
	what := ""
	bz := rg.mk.resign(t.bz, func(b client.TxBuilder, sigs []signing.SignatureV2) []signing.SignatureV2 {
		tx := b.GetTx()
		m, _ := tx.GetMsgs()[0].(*evmtypes.MsgCall)
		c := *m
		switch r.N(13) {
		case 0, 1:
			what = "fee raised"
			f := tx.GetFee().AmountOf(feeDenom)
			b.SetFeeAmount(sdk.NewCoins(sdk.NewCoin(feeDenom, pick(r, []math.Int{f.AddRaw(1), f.MulRaw(2), f.MulRaw(100)}))))
		case 2:
			what = "fee lowered"
			f := tx.GetFee().AmountOf(feeDenom)
			b.SetFeeAmount(sdk.NewCoins(sdk.NewCoin(feeDenom, pick(r, []math.Int{f.SubRaw(1), f.QuoRaw(2), math.OneInt()}))))
		case 3:
			what = "fee removed"
			b.SetFeeAmount(sdk.Coins{})
		case 4:
			what = "fee in another token"
			b.SetFeeAmount(tx.GetFee().Add(sdk.NewCoin(tok.denom, math.NewInt(int64(r.In(1, 100))))))
		case 5:
			what = "gas limit"
			b.SetGasLimit(tx.GetGas() + uint64(r.In(1, 1000)))
		case 6:
			what = "recipient"
			c.ContractAddr = pick(r, rg.con).Hex()
			if c.ContractAddr == m.ContractAddr {
				c.ContractAddr = v.eth.Hex()
			}
			b.SetMsgs(&c)
		case 7:
			what = "input"
			c.Input = hexutil.Encode(pack(abiERC20, "transfer", v.eth, bi(6)))
			b.SetMsgs(&c)
		case 8:
			what = "value"
			c.Value = m.Value.AddRaw(1)
			b.SetMsgs(&c)
		case 9:
			what = "access list"
			if x.Type == 0 {
				// carries none: adding one changes nothing that is signed, but must not go in as this
				c.Value = m.Value.AddRaw(2)
			} else {
				c.AccessList = append(c.AccessList, evmtypes.AccessTuple{Address: v.eth.Hex()})
			}
			b.SetMsgs(&c)
		case 10:
			what = "sequence"
			sigs[0].Sequence++
		case 11:
			what = "sender"
			c.Sender = v.bech
			b.SetMsgs(&c)
		default:
			what = "timeout"
			b.SetTimeoutHeight(uint64(rg.c.height()) + 1000)
		}
		return sigs
	})
	return d.bad(t, bz, "signed Ethereum transaction re-wrapped: "+what)
}

var _ = common.Address{}
