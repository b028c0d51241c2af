package main

import (
	"encoding/json"
	"fmt"
	"math/big"

	"cosmossdk.io/math"
	"cosmossdk.io/x/feegrant"
	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/query"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/crypto"

	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"

	"github.com/initia-labs/minievm/x/evm/contracts/initia_erc20"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

// Ledger is the reference model of balances, supplies, allowances and sequences.
type Ledger struct {
	toks  map[string]*LTok
	seq   map[common.Address]uint64
	ratio math.LegacyDec
	fgr   map[[2]common.Address]bool // fee grants: granter, grantee
	azgr  map[[3]string]bool         // authz: granter, grantee, message type
	l1seq uint64
	pairs map[string]bool // denoms the bridge knows
}

// LTok is one denomination.
type LTok struct {
	denom  string
	addr   common.Address
	kind   string // chain, factory, custom
	owner  common.Address
	supply *big.Int
	bal    map[common.Address]*big.Int
	allow  map[[2]common.Address]*big.Int
}

func (t *LTok) clone() *LTok {
	n := *t
	n.supply = new(big.Int).Set(t.supply)
	n.bal = map[common.Address]*big.Int{}
	for k, v := range t.bal {
		n.bal[k] = v // values are never mutated in place
	}
	n.allow = map[[2]common.Address]*big.Int{}
	for k, v := range t.allow {
		n.allow[k] = v
	}
	return &n
}

func cloneMap[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (l *Ledger) clone() *Ledger {
	n := &Ledger{toks: map[string]*LTok{}, seq: cloneMap(l.seq), ratio: l.ratio, fgr: cloneMap(l.fgr), azgr: cloneMap(l.azgr), l1seq: l.l1seq, pairs: cloneMap(l.pairs)}
	for k, t := range l.toks {
		n.toks[k] = t.clone()
	}
	return n
}

func (t *LTok) of(a common.Address) *big.Int {
	if b := t.bal[a]; b != nil {
		return b
	}
	return new(big.Int)
}

// move transfers without any permission check.
func (t *LTok) move(from, to common.Address, amt *big.Int) bool {
	if t == nil || t.of(from).Cmp(amt) < 0 {
		return false
	}
	t.bal[from] = new(big.Int).Sub(t.of(from), amt)
	t.bal[to] = new(big.Int).Add(t.of(to), amt)
	return true
}

func (t *LTok) mint(to common.Address, amt *big.Int) {
	t.bal[to] = new(big.Int).Add(t.of(to), amt)
	t.supply = new(big.Int).Add(t.supply, amt)
}

func (t *LTok) burn(from common.Address, amt *big.Int) bool {
	if t == nil || t.of(from).Cmp(amt) < 0 {
		return false
	}
	t.bal[from] = new(big.Int).Sub(t.of(from), amt)
	t.supply = new(big.Int).Sub(t.supply, amt)
	return true
}

func (t *LTok) spend(owner, spender common.Address, amt *big.Int) bool {
	k := [2]common.Address{owner, spender}
	a := t.allow[k]
	if a == nil {
		a = new(big.Int)
	}
	if a.Cmp(amt) < 0 {
		return false
	}
	t.allow[k] = new(big.Int).Sub(a, amt)
	return true
}

// moduleNames are the module accounts users must not pay.
var moduleNames = []string{"fee_collector", "interchainaccounts", "feeibc", "transfer", "auction", "opchild", "oracle", "minter"}

func modAddr(n string) common.Address { return common.BytesToAddress(authtypes.NewModuleAddress(n)) }

var blockedAddrs = func() map[common.Address]bool {
	m := map[common.Address]bool{}
	for _, n := range moduleNames {
		m[modAddr(n)] = true
	}
	return m
}()

var feeCollector = modAddr(authtypes.FeeCollectorName)
var opModule = modAddr(opchildtypes.ModuleName)

// LMsg is a message and what it must do.
type LMsg struct {
	m    sdk.Msg
	run  func(l *Ledger) bool
	evm  *Acct // sender whose nonce the message uses when at top level
	also common.Address
	newT *LTok // token the message creates; its address is learned from the response
	kind string
	note string
}

// LPlan is what a transaction must do.
type LPlan struct {
	msgs    []*LMsg
	fee     sdk.Coins
	payer   common.Address // who pays
	needGr  [2]common.Address
	granted bool
	refuse  string // why it must not get in, if known beforehand
	dupOf   *Tx
}

// LRun generates transactions with their predicted outcome and checks them.
type LRun struct {
	rng            *Rng
	w              *World
	c              *Cluster
	l              *Ledger
	who            map[common.Address]*Acct
	watch          map[common.Address]bool
	long           map[common.Address]sdk.AccAddress
	feeDenoms      []string
	seen           map[[32]byte]int64 // included with effect: height
	past           []*Tx
	onlyFee, noFee bool
	zeroFee        bool
	nTok           int
	made           map[common.Address]bool
}

func (d *LRun) addrs() []common.Address {
	var out []common.Address
	for _, u := range d.c.rg.users {
		out = append(out, u.eth)
	}
	out = append(out, d.c.rg.con...)
	for i := 0; i < 6; i++ {
		out = append(out, common.BytesToAddress(detBytes("fresh", 1000+i)[:20]))
	}
	return out
}

func (d *LRun) dest(r *Rng) common.Address {
	if r.P(1, 12) {
		return modAddr(pick(r, moduleNames))
	}
	return pick(r, d.addrs())
}

// init takes the model's starting point from the chain.
func (d *LRun) init(c *Cluster) {
	d.c = c
	d.rng = NewRng(d.w.seed, "lrun")
	rg := c.rg
	n := rg.n0()
	ctx := n.committedCtx()
	l := &Ledger{toks: map[string]*LTok{}, seq: map[common.Address]uint64{}, fgr: map[[2]common.Address]bool{}, azgr: map[[3]string]bool{}, pairs: map[string]bool{}}
	d.l = l
	d.who = map[common.Address]*Acct{}
	d.watch = map[common.Address]bool{}
	d.seen = map[[32]byte]int64{}
	d.made = map[common.Address]bool{}
	d.long = map[common.Address]sdk.AccAddress{}
	p, _ := n.app.EVMKeeper.Params.Get(ctx)
	l.ratio = p.GasRefundRatio
	l.l1seq, _ = n.app.OPChildKeeper.GetNextL1Sequence(ctx)
	for _, a := range rg.accByA {
		l.seq[a.eth] = seqOf(n, ctx, a)
		d.who[a.eth] = a
		d.watch[a.eth] = true
	}
	for _, a := range d.addrs() {
		d.watch[a] = true
	}
	for _, m := range moduleNames {
		d.watch[modAddr(m)] = true
	}
	d.watch[stdAddr] = true
	fa, err := n.app.EVMKeeper.GetContractAddrByDenom(ctx, feeDenom)
	if err != nil {
		d.w.abort("fee denom contract: %v", err)
	}
	l.toks[feeDenom] = &LTok{denom: feeDenom, addr: fa, kind: "chain", owner: stdAddr}
	for _, t := range c.wl.tokens {
		l.toks[t.denom] = &LTok{denom: t.denom, addr: t.addr, kind: "custom", owner: t.owner.eth}
	}
	q := &evmQ{n, ctx}
	for _, t := range l.toks {
		t.bal, t.allow = map[common.Address]*big.Int{}, map[[2]common.Address]*big.Int{}
		t.supply = new(big.Int)
		for a := range d.watch {
			if b := q.balance(a, t.denom); b.Sign() > 0 {
				t.bal[a] = b
				t.supply.Add(t.supply, b)
			}
		}
	}
	d.full(true)
}

func (d *LRun) tokList(l *Ledger, f func(t *LTok) bool) []*LTok {
	var ks []string
	for k, t := range l.toks {
		if t.addr != (common.Address{}) && (f == nil || f(t)) {
			ks = append(ks, k)
		}
	}
	var out []*LTok
	for _, k := range sorted(ks) {
		out = append(out, l.toks[k])
	}
	return out
}

// held prefers a token the account has some of.
func (d *LRun) held(r *Rng, a common.Address) *LTok {
	if r.P(5, 6) {
		if own := d.tokList(d.l, func(t *LTok) bool { return t.of(a).Sign() > 0 }); len(own) > 0 {
			return pick(r, own)
		}
	}
	return pick(r, d.tokList(d.l, nil))
}

func (d *LRun) amount(r *Rng, t *LTok, from common.Address) *big.Int {
	b := t.of(from)
	switch r.N(16) {
	case 0:
		return new(big.Int).Set(b)
	case 1:
		return new(big.Int).Add(b, bi(1))
	case 2:
		return new(big.Int).Add(b, bi(int64(r.In(2, 1000))))
	}
	m := new(big.Int).Set(b)
	if m.Cmp(bi(1_000_000)) > 0 {
		m = bi(1_000_000)
	}
	if m.Sign() == 0 {
		return bi(int64(r.N(50)))
	}
	return new(big.Int).Add(bi(0), new(big.Int).Mod(bi(int64(r.N(1<<30))), m))
}

func coinOf(denom string, a *big.Int) sdk.Coin { return sdk.NewCoin(denom, math.NewIntFromBigInt(a)) }

// ---- messages

func (d *LRun) send(r *Rng, u common.Address) *LMsg {
	cs := sdk.Coins{}
	for n := r.In(1, 3); n > 0; n-- {
		t := d.held(r, u)
		if a := d.amount(r, t, u); a.Sign() > 0 {
			if cs.AmountOf(t.denom).IsZero() {
				cs = cs.Add(coinOf(t.denom, a))
			}
		}
	}
	if cs.Empty() {
		cs = sdk.NewCoins(coinOf(feeDenom, bi(1)))
	}
	to := d.dest(r)
	lm := d.sendTo(u, to, cs)
	if r.P(1, 8) { // to an account with a long address, known to contracts by its last 20 bytes
		long := sdk.AccAddress(detBytes("long", r.N(3)))
		to := common.BytesToAddress(long[12:])
		d.long[to] = long
		lm = d.sendTo(u, to, cs)
		lm.m = banktypes.NewMsgSend(sdk.AccAddress(u.Bytes()), long, cs)
	}
	return lm
}

func (d *LRun) sendTo(u, to common.Address, cs sdk.Coins) *LMsg {
	return &LMsg{kind: "send", m: banktypes.NewMsgSend(sdk.AccAddress(u.Bytes()), sdk.AccAddress(to.Bytes()), cs), run: func(l *Ledger) bool {
		if blockedAddrs[to] {
			return false
		}
		for _, c := range cs {
			if !l.toks[c.Denom].move(u, to, c.Amount.BigInt()) {
				return false
			}
		}
		return true
	}}
}

// tokCall is an ERC20 method call by from; returns calldata and effect.
func (d *LRun) tokCall(r *Rng, from common.Address, t *LTok) (string, []byte, func(l *Ledger) bool) {
	den := t.denom
	to := d.dest(r)
	other := pick(r, d.addrs())
	amt := d.amount(r, t, from)
	k := r.N(16)
	if k >= 2 && k <= 6 { // spend someone's approval, if there is one
		var ks [][2]common.Address
		for key, v := range t.allow {
			if key[1] == from && v.Sign() > 0 {
				ks = append(ks, key)
			}
		}
		if len(ks) > 0 {
			best := ks[0]
			for _, x := range ks {
				if string(x[0].Bytes()) < string(best[0].Bytes()) {
					best = x
				}
			}
			other = best[0]
			al := t.allow[best]
			amt = new(big.Int).Set(al)
			if r.P(1, 4) {
				amt.Add(amt, bi(1))
			} else if amt.Cmp(t.of(other)) > 0 && r.P(3, 4) {
				amt.Set(t.of(other))
			} else if r.P(1, 2) {
				amt.Rsh(amt, 1)
			}
		} else {
			k = 0
		}
	}
	switch k {
	case 0, 1:
		sp := d.who[from]
		_ = sp
		spender := pick(r, d.c.rg.users).eth
		if r.P(1, 4) {
			spender = pick(r, d.c.rg.con)
		}
		return "approve", pack(abiERC20, "approve", spender, amt), func(l *Ledger) bool {
			l.toks[den].allow[[2]common.Address{from, spender}] = amt
			return true
		}
	case 2, 3, 4:
		return "transferFrom", pack(abiERC20, "transferFrom", other, to, amt), func(l *Ledger) bool {
			return !blockedAddrs[to] && l.toks[den].spend(other, from, amt) && l.toks[den].move(other, to, amt)
		}
	case 5, 6:
		return "burnFrom", pack(abiERC20, "burnFrom", other, amt), func(l *Ledger) bool {
			return !blockedAddrs[other] && l.toks[den].spend(other, from, amt) && l.toks[den].burn(other, amt)
		}
	case 7, 8:
		return "burn", pack(abiERC20, "burn", amt), func(l *Ledger) bool { return l.toks[den].burn(from, amt) }
	case 9, 10:
		return "mint", pack(abiERC20, "mint", to, amt), func(l *Ledger) bool {
			if blockedAddrs[to] || l.toks[den].owner != from {
				return false
			}
			l.toks[den].mint(to, amt)
			return true
		}
	case 11:
		no := func(l *Ledger) bool { return false }
		switch {
		case r.P(1, 3) || t.kind == "custom":
			return "sudoTransfer", pack(abiERC20, "sudoTransfer", other, from, bi(1)), no
		case r.P(1, 2):
			return "sudoMint", pack(abiERC20, "sudoMint", from, bi(1)), no
		default:
			return "sudoBurn", pack(abiERC20, "sudoBurn", other, bi(1)), no
		}
	}
	return "transfer", pack(abiERC20, "transfer", to, amt), func(l *Ledger) bool {
		return !blockedAddrs[to] && l.toks[den].move(from, to, amt)
	}
}

func (d *LRun) erc20(r *Rng, u *Acct) *LMsg {
	t := d.held(r, u.eth)
	if r.P(1, 3) {
		if own := d.tokList(d.l, func(t *LTok) bool { return t.owner == u.eth }); len(own) > 0 {
			t = pick(r, own)
		}
	}
	name, data, run := d.tokCall(r, u.eth, t)
	return &LMsg{kind: "erc20." + name + "." + t.kind, m: msgCall(u, t.addr, data, nil), run: run, evm: u}
}

func (d *LRun) native(r *Rng, u *Acct) *LMsg {
	t := d.l.toks[feeDenom]
	amt := d.amount(r, t, u.eth)
	to := d.dest(r)
	if r.P(1, 3) && len(d.c.rg.con) > 0 {
		to = pick(r, d.c.rg.con)
	}
	return &LMsg{kind: "native", m: msgCall(u, to, nil, amt), evm: u, run: func(l *Ledger) bool {
		if amt.Sign() > 0 && blockedAddrs[to] {
			return false
		}
		return l.toks[feeDenom].move(u.eth, to, amt)
	}}
}

// tree is a script that moves tokens held by script contracts through nested
// calls, some of which revert.
func (d *LRun) tree(r *Rng, self common.Address, depth int) (script, func(l *Ledger) bool) {
	var s script
	type step struct {
		run func(l *Ledger) bool
		req bool
	}
	var steps []step
	for n := r.In(1, 3); n > 0; n-- {
		req := r.P(1, 3)
		fl := byte(0)
		if req {
			fl = fReq
		}
		switch k := r.N(6); {
		case k < 3: // token call by this contract
			t := d.held(r, self)
			_, data, run := d.tokCall(r, self, t)
			s = s.call(sCALL, t.addr, 0, 0, fl, 0, data)
			steps = append(steps, step{run, req})
		case k == 3: // native value
			amt := new(big.Int).Mod(d.amount(r, d.l.toks[feeDenom], self), bi(1<<40))
			to := pick(r, d.addrs())
			s = s.call(sCALL, to, amt.Uint64(), 0, fl, 0, nil)
			steps = append(steps, step{func(l *Ledger) bool { return l.toks[feeDenom].move(self, to, amt) }, req})
		default:
			if depth > 0 {
				to := pick(r, d.c.rg.con)
				in, run := d.tree(r, to, depth-1)
				amt := new(big.Int).Mod(d.amount(r, d.l.toks[feeDenom], self), bi(1<<40))
				if r.P(2, 3) {
					amt = new(big.Int)
				}
				s = s.call(sCALL, to, amt.Uint64(), 0, fl, 0, in)
				steps = append(steps, step{func(l *Ledger) bool { return l.toks[feeDenom].move(self, to, amt) && run(l) }, req})
			}
		}
	}
	rev := depth < 3 && r.P(1, 4)
	if rev {
		s = s.u8(sREVERT).u16(1)
	}
	return s, func(l *Ledger) bool {
		for _, st := range steps {
			sub := l.clone()
			if st.run(sub) {
				*l = *sub
			} else if st.req {
				return false
			}
		}
		return !rev
	}
}

func (d *LRun) script(r *Rng, u *Acct) *LMsg {
	c := pick(r, d.c.rg.con)
	s, run := d.tree(r, c, 3)
	amt := new(big.Int)
	if r.P(1, 4) {
		amt = bi(int64(r.N(100000)))
	}
	return &LMsg{kind: "tree", m: msgCall(u, c, s, amt), evm: u, run: func(l *Ledger) bool {
		return l.toks[feeDenom].move(u.eth, c, amt) && run(l)
	}}
}

// dispatched: a contract asks the chain to send its coins.
func (d *LRun) dispatched(r *Rng, u *Acct) *LMsg {
	c := pick(r, d.c.rg.con)
	var s script
	var runs []func(l *Ledger) bool
	for n := r.In(1, 3); n > 0; n-- {
		t := d.held(r, c)
		amt := d.amount(r, t, c)
		if amt.Sign() == 0 {
			amt = bi(1)
		}
		lm := d.sendTo(c, d.dest(r), sdk.NewCoins(coinOf(t.denom, amt)))
		ms := lm.m.(*banktypes.MsgSend)
		j, _ := json.Marshal(map[string]any{"@type": "/cosmos.bank.v1beta1.MsgSend", "from_address": ms.FromAddress, "to_address": ms.ToAddress,
			"amount": []map[string]string{{"denom": ms.Amount[0].Denom, "amount": ms.Amount[0].Amount.String()}}})
		s = s.call(sCALL, cosmosAddr, 0, 0, fReq, 30, pack(abiCosmos, "execute_cosmos", string(j)))
		runs = append(runs, lm.run)
	}
	return &LMsg{kind: "dispatch", m: msgCall(u, c, s, nil), evm: u, run: func(l *Ledger) bool {
		for _, f := range runs {
			if !f(l) {
				return false
			}
		}
		return true
	}}
}

func (d *LRun) deposit(r *Rng) *LMsg {
	denom := fmt.Sprintf("l2/%064x", r.N(3)+1)
	to := d.dest(r)
	amt := bi(int64(r.N(2) * r.In(0, 100000)))
	if r.P(1, 2) {
		amt = bi(int64(r.In(1, 100000)))
	}
	if amt.Sign() == 0 && blockedAddrs[to] {
		// OPinit makes a plain account for the receiver of a zero deposit, even
		// where a module account belongs; the trusted executor never sends one
		amt = bi(1)
	}
	seq := d.l.l1seq
	if r.P(1, 6) && seq > 1 {
		seq -= 1
	} else if r.P(1, 8) {
		seq += 1
	}
	m := opchildtypes.NewMsgFinalizeTokenDeposit(d.c.rg.exec.bech, "init1sender", sdk.AccAddress(to.Bytes()).String(), coinOf(denom, amt), seq, 1, "uinit", nil)
	lm := &LMsg{kind: "deposit", m: m, run: func(l *Ledger) bool {
		if seq < l.l1seq {
			return true
		}
		if seq > l.l1seq {
			return false
		}
		l.l1seq++
		l.pairs[denom] = true
		if amt.Sign() == 0 || blockedAddrs[to] {
			return true
		}
		if l.toks[denom] == nil {
			l.toks[denom] = &LTok{denom: denom, kind: "chain", owner: stdAddr, supply: new(big.Int), bal: map[common.Address]*big.Int{}, allow: map[[2]common.Address]*big.Int{}}
		}
		l.toks[denom].mint(to, amt)
		return true
	}}
	return lm
}

func (d *LRun) withdraw(r *Rng, u *Acct) *LMsg {
	den := pick(r, []string{fmt.Sprintf("l2/%064x", 1), fmt.Sprintf("l2/%064x", 2), fmt.Sprintf("l2/%064x", 3)})
	if own := d.tokList(d.l, func(t *LTok) bool { return t.of(u.eth).Sign() > 0 && d.l.pairs[t.denom] }); len(own) > 0 {
		den = pick(r, own).denom
	} else if r.P(3, 4) {
		return d.send(r, u.eth)
	}
	if r.P(1, 8) {
		den = pick(r, d.tokList(d.l, nil)).denom
	}
	amt := bi(int64(r.In(1, 100)))
	if t := d.l.toks[den]; t != nil {
		if a := d.amount(r, t, u.eth); a.Sign() > 0 {
			amt = a
		}
	}
	return &LMsg{kind: "withdraw", m: opchildtypes.NewMsgInitiateTokenWithdrawal(u.bech, "init1receiver", coinOf(den, amt)), run: func(l *Ledger) bool {
		return l.pairs[den] && l.toks[den] != nil && l.toks[den].burn(u.eth, amt)
	}}
}

func (d *LRun) spendPool(r *Rng) *LMsg {
	t := d.l.toks[feeDenom]
	if r.P(1, 3) {
		t = d.held(r, feeCollector)
	}
	amt := d.amount(r, t, feeCollector)
	if amt.Sign() == 0 {
		amt = bi(1)
	}
	if r.P(1, 3) {
		amt = new(big.Int).Add(t.of(feeCollector), bi(int64(r.N(2))))
		if amt.Sign() == 0 {
			amt = bi(1)
		}
	}
	to := d.dest(r)
	den := t.denom
	m := opchildtypes.NewMsgSpendFeePool(authtypes.NewModuleAddress(opchildtypes.ModuleName), sdk.AccAddress(to.Bytes()), sdk.NewCoins(coinOf(den, amt)))
	return &LMsg{kind: "spendpool", m: adminMsgs(d.c.rg.admin, m), run: func(l *Ledger) bool {
		return !blockedAddrs[to] && l.toks[den].move(feeCollector, to, amt)
	}}
}

func (d *LRun) setRatio(r *Rng) *LMsg {
	ctx := d.c.rg.nodeUp().committedCtx()
	p, err := d.c.rg.nodeUp().app.EVMKeeper.Params.Get(ctx)
	if err != nil {
		d.w.abort("params: %v", err)
	}
	v := math.LegacyNewDecWithPrec(int64(r.N(10001)), 4)
	if r.P(1, 4) {
		v = pick(r, []math.LegacyDec{math.LegacyZeroDec(), math.LegacyOneDec()})
	}
	p.GasRefundRatio = v
	return &LMsg{kind: "ratio", m: adminMsgs(d.c.rg.admin, &evmtypes.MsgUpdateParams{Authority: opAuthority(), Params: p}), run: func(l *Ledger) bool { l.ratio = v; return true }}
}

func (d *LRun) newToken(r *Rng, u *Acct) *LMsg {
	d.nTok++
	t := &LTok{owner: u.eth, supply: new(big.Int), bal: map[common.Address]*big.Int{}, allow: map[[2]common.Address]*big.Int{}}
	name := fmt.Sprintf("L%d", d.nTok)
	lm := &LMsg{evm: u, newT: t, run: func(l *Ledger) bool { return true }}
	if r.P(1, 2) {
		f, err := d.c.rg.nodeUp().app.EVMKeeper.GetERC20FactoryAddr(d.c.rg.nodeUp().committedCtx())
		if err != nil {
			d.w.abort("factory: %v", err)
		}
		t.kind = "factory"
		lm.kind = "newtoken.factory"
		lm.m = msgCall(u, f, pack(abiFactory, "createERC20", "F", name, uint8(r.N(19))), nil)
	} else {
		t.kind = "custom"
		lm.kind = "newtoken.custom"
		lm.m = msgCreate(u, creation(initia_erc20.InitiaErc20MetaData, "New", name, uint8(r.N(19))), nil)
	}
	return lm
}

func (d *LRun) feeGrant(r *Rng, u *Acct) *LMsg {
	v := d.c.wl.user(r)
	if v == u {
		return d.send(r, u.eth)
	}
	m, _ := feegrant.NewMsgGrantAllowance(&feegrant.BasicAllowance{}, u.acc, v.acc)
	k := [2]common.Address{u.eth, v.eth}
	if d.l.fgr[k] && r.P(1, 2) {
		m := feegrant.NewMsgRevokeAllowance(u.acc, v.acc)
		return &LMsg{kind: "feerevoke", m: &m, run: func(l *Ledger) bool { ok := l.fgr[k]; delete(l.fgr, k); return ok }}
	}
	return &LMsg{kind: "feegrant", m: m, run: func(l *Ledger) bool { ok := !l.fgr[k]; l.fgr[k] = true; return ok }}
}

func (d *LRun) authzGrant(r *Rng, u *Acct) *LMsg {
	v := d.c.wl.user(r)
	url := sdk.MsgTypeURL(&evmtypes.MsgCall{})
	if r.P(1, 2) {
		url = sdk.MsgTypeURL(&banktypes.MsgSend{})
	}
	if v == u {
		return d.send(r, u.eth)
	}
	m, _ := authz.NewMsgGrant(u.acc, v.acc, authz.NewGenericAuthorization(url), nil)
	return &LMsg{kind: "grant", m: m, run: func(l *Ledger) bool { l.azgr[[3]string{u.bech, v.bech, url}] = true; return true }}
}

// authzExec: v uses a grant of another account, if there is one.
func (d *LRun) authzExec(r *Rng, v *Acct) *LMsg {
	var cand [][3]string
	for k := range d.l.azgr {
		if k[1] == v.bech {
			cand = append(cand, k)
		}
	}
	if len(cand) == 0 && r.P(4, 5) {
		return d.send(r, v.eth)
	}
	best := [3]string{pick(r, d.c.rg.users).bech, v.bech, sdk.MsgTypeURL(&evmtypes.MsgCall{})}
	if len(cand) > 0 && r.P(5, 6) {
		best = cand[0]
		for _, x := range cand {
			if x[0]+x[2] < best[0]+best[2] {
				best = x
			}
		}
	}
	u := d.c.rg.accByA[best[0]]
	var in *LMsg
	if best[2] == sdk.MsgTypeURL(&banktypes.MsgSend{}) {
		in = d.send(r, u.eth)
	} else if r.P(1, 2) {
		in = d.native(r, u)
	} else {
		in = d.erc20(r, u)
	}
	m := authz.NewMsgExec(v.acc, []sdk.Msg{in.m})
	return &LMsg{kind: "exec", m: &m, run: func(l *Ledger) bool {
		if u != v && !l.azgr[best] {
			return false
		}
		if !in.run(l) {
			return false
		}
		if in.evm != nil {
			l.seq[u.eth]++
		}
		return true
	}}
}

func (d *LRun) anyMsg(r *Rng, u *Acct) *LMsg {
	switch r.N(20) {
	case 0, 1, 2:
		return d.send(r, u.eth)
	case 3, 4, 5, 6, 7, 8:
		return d.erc20(r, u)
	case 9, 10:
		return d.native(r, u)
	case 11, 12, 13:
		return d.script(r, u)
	case 14:
		return d.dispatched(r, u)
	case 15:
		return d.withdraw(r, u)
	case 16:
		return d.newToken(r, u)
	case 17:
		return d.feeGrant(r, u)
	case 18:
		return d.authzGrant(r, u)
	default:
		return d.authzExec(r, u)
	}
}

// ---- transactions

func msgGas(m *LMsg) uint64 {
	switch m.kind {
	case "newtoken.custom", "newtoken.factory":
		return 9_000_000
	case "deposit":
		return 9_000_000
	case "tree", "dispatch":
		return 12_000_000
	}
	return 2_500_000
}

// make signs a transaction that runs the given messages for u.
func (d *LRun) make(r *Rng, u *Acct, ms []*LMsg, kind string) *Tx {
	rg := d.c.rg
	p := &LPlan{msgs: ms, payer: u.eth}
	gas := uint64(0)
	for _, m := range ms {
		gas += msgGas(m)
	}
	if r.P(1, 3) {
		gas += uint64(r.N(1_000_000))
	}
	if kind == "" {
		kind = ms[0].kind
	}
	price := int64(rg.gasPrice)
	if r.P(1, 4) {
		price = int64(r.In(1, 5000))
	}
	if d.zeroFee {
		price = 0
	}
	// Ethereum-signed if it can be
	if len(ms) == 1 && ms[0].evm == u && r.P(1, 2) {
		x := EthArgs{Type: r.N(3), Nonce: u.next, Gas: gas, FeeCap: bi(price), TipCap: bi(int64(r.N(int(price) + 1)))}
		switch m := ms[0].m.(type) {
		case *evmtypes.MsgCall:
			to := common.HexToAddress(m.ContractAddr)
			x.To, x.Value, x.Data = &to, m.Value.BigInt(), common.FromHex(m.Input)
		case *evmtypes.MsgCreate:
			x.Value, x.Data = m.Value.BigInt(), common.FromHex(m.Code)
		}
		t, err := rg.ethereum(kind, u, x)
		if err != nil {
			d.w.abort("eth: %v", err)
		}
		u.next++
		p.fee = sdk.NewCoins(sdk.NewCoin(feeDenom, t.fee))
		// the fee an Ethereum transaction states: price times gas, rounded up into units
		if want := new(big.Int).Mul(bi(price), new(big.Int).SetUint64(gas)); price > 0 && (t.fee.BigInt().Cmp(want) < 0 || t.fee.BigInt().Cmp(want.Add(want, bi(1))) > 0) {
			d.w.violate("eth-fee", "an Ethereum transaction with gas %d at price %d carries fee %s", gas, price, t.fee)
		}
		t.meta = p
		return t
	}
	signers := []*Acct{u}
	o := TxOpts{Fee: sdk.Coins{}}
	if price > 0 {
		f := math.NewInt(price).MulRaw(int64(gas))
		if r.P(1, 3) {
			f = f.AddRaw(int64(r.N(1000)))
		}
		o.Fee = sdk.NewCoins(sdk.NewCoin(feeDenom, f))
		if r.P(1, 10) { // pay with several denominations
			t := pick(r, d.tokList(d.l, nil))
			o.Fee = o.Fee.Add(sdk.NewCoin(t.denom, math.NewInt(int64(r.In(1, 300)))))
		}
		if r.P(1, 10) {
			for k := range d.l.fgr {
				if k[1] == u.eth && (p.needGr == [2]common.Address{} || string(k[0].Bytes()) < string(p.needGr[0].Bytes())) {
					p.needGr = k
				}
			}
			if p.needGr == ([2]common.Address{}) && r.P(1, 4) {
				p.needGr = [2]common.Address{pick(r, rg.users).eth, u.eth}
			}
			if p.needGr != ([2]common.Address{}) && p.needGr[0] != u.eth {
				p.granted = true
				p.payer = p.needGr[0]
				o.Granter = sdk.AccAddress(p.payer.Bytes())
			}
		}
		if !p.granted && r.P(1, 12) { // another fee payer signs as well
			v := d.c.wl.user(r)
			if v != u {
				o.Payer = v.acc
				p.payer = v.eth
				signers = append(signers, v)
			}
		}
	}
	p.fee = o.Fee
	// several messages, perhaps of a second account
	if r.P(1, 8) && len(signers) == 1 && len(ms) == 1 {
		v := d.c.wl.user(r)
		m2 := d.anyMsg(r, v)
		ms = append(ms, m2)
		p.msgs = ms
		gas += msgGas(m2)
		if v != u {
			signers = append(signers, v)
		}
	}
	var sm []sdk.Msg
	for _, m := range ms {
		sm = append(sm, m.m)
	}
	t := rg.cosmosN(kind, signers, gas, o, sm...)
	t.fee = o.Fee.AmountOf(feeDenom)
	t.meta = p
	return t
}

// genTx makes the transaction of an operation.
func (d *LRun) genTx(o Op) *Tx {
	rg, r, u := d.c.rg, o.r, o.who
	rg.opIdx = o.i
	switch r.N(16) {
	case 0, 1:
		m := d.deposit(r)
		return d.make(r, rg.exec, []*LMsg{m}, "")
	case 2:
		return d.make(r, rg.admin, []*LMsg{d.spendPool(r)}, "")
	case 3:
		if !d.zeroFee {
			return d.make(r, rg.admin, []*LMsg{d.setRatio(r)}, "")
		}
	case 4, 5:
		var ms []*LMsg
		for n := r.In(2, 4); n > 0; n-- {
			ms = append(ms, d.anyMsg(r, u))
		}
		return d.make(r, u, ms, "multi")
	}
	return d.make(r, u, []*LMsg{d.anyMsg(r, u)}, "")
}

// ---- outcome

// predict advances the model over one transaction. It returns whether the fee
// must be taken and whether the transaction must succeed.
func (d *LRun) predict(t *Tx, res *abci.ExecTxResult) (fee, ok bool, why string) {
	p := t.meta.(*LPlan)
	l := d.l
	if t.bad {
		return false, false, p.refuse
	}
	if _, dup := d.seen[t.hash]; dup {
		return false, false, "included before"
	}
	for i, s := range t.signers {
		q := t.seq
		if t.seqs != nil {
			q = t.seqs[i]
		}
		if l.seq[s.eth] != q {
			return false, false, fmt.Sprintf("sequence of %d is %d, signed %d", s.idx, l.seq[s.eth], q)
		}
	}
	if p.granted && !l.fgr[p.needGr] {
		return false, false, "no fee grant"
	}
	after := l.clone()
	for _, c := range p.fee {
		if !after.toks[c.Denom].move(p.payer, feeCollector, c.Amount.BigInt()) {
			return false, false, "fee beyond balance"
		}
	}
	*l = *after
	body := l.clone()
	ok = true
	evms := map[common.Address]uint64{}
	for _, m := range p.msgs {
		if m.evm != nil {
			evms[m.evm.eth]++
			if evms[m.evm.eth] > 1 {
				body.seq[m.evm.eth]++
			}
		}
	}
	for _, m := range p.msgs {
		if !m.run(body) {
			ok = false
			break
		}
	}
	if ok {
		*l = *body
	}
	for _, s := range t.signers {
		l.seq[s.eth]++
	}
	return true, ok, ""
}

func (d *LRun) refund(t *Tx, res *abci.ExecTxResult) {
	p := t.meta.(*LPlan)
	if t.eth == nil || t.fee.IsZero() {
		return
	}
	left := uint64(res.GasWanted) - uint64(res.GasUsed)
	units := d.l.ratio.MulInt64(int64(left)).TruncateInt()
	price := math.LegacyNewDecFromInt(t.fee).QuoTruncate(math.LegacyNewDec(int64(t.gas)))
	back := price.MulTruncate(math.LegacyNewDecFromInt(units)).TruncateInt()
	if back.IsPositive() {
		d.l.toks[feeDenom].move(feeCollector, p.payer, back.BigInt())
		d.w.count("refunds")
	}
}

// onRef compares a block's results with the model and the chain's state with it.
func (d *LRun) onRef(b int, txs []*Tx, res *abci.ResponseFinalizeBlock) {
	w := d.w
	before := d.l.clone()
	for i, t := range txs {
		x := res.TxResults[i]
		fee, ok, why := d.predict(t, x)
		got, gotOK := feeTaken(x), x.Code == 0
		if got != fee || gotOK != ok {
			d.outcome(t, x, fee, ok, why)
			return
		}
		if fee {
			if h, dup := d.seen[t.hash]; dup {
				w.violate("included-twice", "%s took effect at height %d and again", t, h)
			}
			d.seen[t.hash] = d.c.rg.c.height()
		}
		if ok {
			if uint64(x.GasUsed) > t.gas {
				w.violate("gas-used-beyond-limit", "%s succeeded with gas used %d of %d", t, x.GasUsed, t.gas)
			}
			d.created(t, x, before)
			d.refund(t, x)
			w.reach("lok." + t.kind)
			if w.verbose {
				for _, m := range t.meta.(*LPlan).msgs {
					w.logf("OK %s %v", t, m.m)
				}
			}
			w.count("predicted_ok")
		} else if fee {
			w.reach("lfail." + t.kind)
			w.count("predicted_failed")
		} else {
			w.reach("lrefused." + t.kind + "." + t.note)
			w.count("predicted_refused")
		}
		if !t.bad {
			d.past = append(d.past, t)
		}
	}
	d.compare(before)
	if b%5 == 4 {
		d.full(false)
	}
}

func (d *LRun) outcome(t *Tx, x *abci.ExecTxResult, fee, ok bool, why string) {
	w := d.w
	got, gotOK := feeTaken(x), x.Code == 0
	switch {
	case got && !fee && w.prop == "C07" && why != "fee beyond balance" && why != "no fee grant":
	case got && !fee:
		w.violate("must-not-enter", "%s (%s) must be kept out (%s), but was executed with code %d: %s", t, t.note, why, x.Code, x.Log)
	case !got && fee && x.Codespace == "sdk" && x.Code == 11: // out of gas before the fee was taken
	case !got && fee:
		w.violate("kept-out", "%s is validly signed and paid but was refused: %s", t, x.Log)
	case gotOK && !ok:
		w.violate("must-fail", "%s must fail but succeeded", t)
	default:
		if x.Codespace == "sdk" && x.Code == 11 {
			break
		}
		w.violate("must-succeed", "%s must succeed but failed: %s/%d %s", t, x.Codespace, x.Code, x.Log)
	}
	w.abort("%s: model out of step: fee %v/%v ok %v/%v %s (%s)", t, got, fee, gotOK, ok, x.Log, why)
}

// created learns the addresses of new tokens and checks created addresses.
func (d *LRun) created(t *Tx, x *abci.ExecTxResult, before *Ledger) {
	p := t.meta.(*LPlan)
	n := map[common.Address]uint64{}
	for i, m := range p.msgs {
		var nonce uint64
		if m.evm != nil {
			for k, s := range t.signers {
				if s == m.evm {
					nonce = t.seq
					if t.seqs != nil {
						nonce = t.seqs[k]
					}
				}
			}
			nonce += n[m.evm.eth]
			n[m.evm.eth]++
		}
		if _, isC := m.m.(*evmtypes.MsgCreate); isC && m.evm != nil {
			var resp evmtypes.MsgCreateResponse
			msgResp(x.Data, i, &resp)
			a := common.HexToAddress(resp.ContractAddr)
			if d.w.prop == "C06" {
				if want := crypto.CreateAddress(m.evm.eth, nonce); a != want {
					d.w.violate("create-address", "%s: contract created at %s, the account's nonce %d gives %s", t, a, nonce, want)
				}
				if d.made[a] {
					d.w.violate("create-collision", "%s: contract address %s was created before", t, a)
				}
				d.made[a] = true
				d.w.count("created_addresses")
			}
			if m.newT != nil {
				m.newT.addr = a
			}
		} else if m.newT != nil {
			var resp evmtypes.MsgCallResponse
			msgResp(x.Data, i, &resp)
			m.newT.addr = common.HexToAddress(resp.Result)
			if bz := common.FromHex(resp.Result); len(bz) == 32 {
				m.newT.addr = common.BytesToAddress(bz)
			}
		}
		if m.newT != nil {
			m.newT.denom = "evm/" + m.newT.addr.Hex()[2:]
			d.l.toks[m.newT.denom] = m.newT
		}
	}
}

func (d *LRun) want(denom string) bool {
	if d.onlyFee {
		return denom == feeDenom
	}
	if d.noFee {
		return denom != feeDenom
	}
	return true
}

// compare checks what the block touched.
func (d *LRun) compare(before *Ledger) {
	w, rg := d.w, d.c.rg
	n := rg.n0()
	ctx := n.committedCtx()
	q := &evmQ{n, ctx}
	h := rg.c.height()
	for a, s := range d.l.seq {
		if got := q.seq(a); got != s {
			if w.prop == "C06" {
				w.violate("sequence", "height %d: the sequence of %s is %d, the transactions included for it give %d", h, a, got, s)
			}
			w.abort("sequence of %s %d want %d", a, got, s)
		}
	}
	d.learnTokens(q)
	touched := map[common.Address]bool{}
	for den, t := range d.l.toks {
		o := before.toks[den]
		if !d.want(den) {
			continue
		}
		for a, b := range t.bal {
			if o != nil && o.of(a).Cmp(b) == 0 && !d.rng.P(1, 40) {
				continue
			}
			touched[a] = true
			d.checkBal(q, t, a)
		}
		d.checkSupply(q, t)
	}
	if w.prop == "C08" {
		for a := range touched {
			d.checkListing(a)
		}
		d.checkTotal()
	}
	w.count("ledger_blocks")
}

func (d *LRun) learnTokens(q *evmQ) {
	for den, t := range d.l.toks {
		if t.addr == (common.Address{}) {
			a, err := q.n.app.EVMKeeper.GetContractAddrByDenom(q.ctx, den)
			if err != nil {
				for _, r := range d.c.rg.c.res(d.c.rg.c.height()).Res.TxResults {
					for _, e := range r.Events {
						if e.Type == opchildtypes.EventTypeFinalizeTokenDeposit {
							d.w.logf("deposit event: %v", e)
						}
					}
				}
				d.w.violate("denom-unmapped", "height %d: %s has supply %s but no contract: %v", d.c.rg.c.height(), den, t.supply, err)
			}
			t.addr = a
		}
	}
}

func (d *LRun) viewUint(q *evmQ, t *LTok, m string, args ...any) *big.Int {
	ret, e := q.view(common.Address{}, t.addr, pack(abiERC20, m, args...))
	if e != "" {
		d.w.abort("%s view: %s", m, e)
	}
	return new(big.Int).SetBytes(ret)
}

func (d *LRun) checkBal(q *evmQ, t *LTok, a common.Address) {
	bank := q.balance(a, t.denom)
	want := t.of(a)
	h := d.c.rg.c.height()
	if l := d.long[a]; l != nil {
		if b := q.n.app.BankKeeper.GetBalance(q.ctx, l, t.denom).Amount.BigInt(); b.Cmp(want) != 0 {
			d.w.violate("balance", "height %d: the long address %s holds %s of %s, the executed transactions give %s", h, l, b, d.tname(t), want)
		}
		d.w.count("long_balances_checked")
	}
	if bank.Cmp(want) != 0 {
		d.w.violate("balance", "height %d: %s holds %s of %s by the bank view, the executed transactions give %s (difference %s)", h, d.name(a), bank, d.tname(t), want, new(big.Int).Sub(bank, want))
	}
	if erc := d.viewUint(q, t, "balanceOf", a); erc.Cmp(want) != 0 {
		d.w.violate("balance", "height %d: %s holds %s of %s by the ERC20 view, %s by the bank's", h, d.name(a), erc, d.tname(t), bank)
	}
	d.w.count("balances_checked")
}

func (d *LRun) tname(t *LTok) string { return fmt.Sprintf("%s (%s token)", t.denom, t.kind) }

func (d *LRun) name(a common.Address) string {
	if u := d.who[a]; u != nil {
		return fmt.Sprintf("user %d", u.idx)
	}
	for _, m := range moduleNames {
		if modAddr(m) == a {
			return "module " + m
		}
	}
	return a.Hex()
}

func (d *LRun) checkSupply(q *evmQ, t *LTok) {
	h := d.c.rg.c.height()
	bank := q.n.app.BankKeeper.GetSupply(q.ctx, t.denom).Amount.BigInt()
	if bank.Cmp(t.supply) != 0 {
		d.w.violate("supply", "height %d: supply of %s is %s, the executed transactions give %s", h, d.tname(t), bank, t.supply)
	}
	if erc := d.viewUint(q, t, "totalSupply"); erc.Cmp(t.supply) != 0 {
		d.w.violate("supply", "height %d: total supply of %s is %s by the ERC20 view, %s by the bank's", h, d.tname(t), erc, bank)
	}
}

// checkListing compares the bank's listing of an account's balances with the model.
func (d *LRun) checkListing(a common.Address) {
	n, rg := d.c.rg.n0(), d.c.rg
	lim := uint64(d.rng.In(1, 5))
	addr := sdk.AccAddress(a.Bytes()).String()
	if l := d.long[a]; l != nil && d.rng.P(1, 2) {
		addr = l.String()
	}
	got := map[string]string{}
	var key []byte
	for page := 0; ; page++ {
		bz, _ := (&banktypes.QueryAllBalancesRequest{Address: addr, Pagination: &query.PageRequest{Key: key, Limit: lim}}).Marshal()
		res, ok := d.c.abciQuery(n, "/cosmos.bank.v1beta1.Query/AllBalances", 0, bz)
		if !ok || res.Code != 0 {
			d.w.violate("listing", "height %d: listing the balances of %s fails: %s", rg.c.height(), d.name(a), res.GetLog())
		}
		var r banktypes.QueryAllBalancesResponse
		if err := r.Unmarshal(res.Value); err != nil {
			d.w.abort("listing: %v", err)
		}
		for _, c := range r.Balances {
			if old, dup := got[c.Denom]; dup && old != "0" {
				d.w.violate("listing", "height %d: %s lists %s twice", rg.c.height(), d.name(a), c.Denom)
			}
			got[c.Denom] = c.Amount.String()
		}
		if r.Pagination == nil || len(r.Pagination.NextKey) == 0 {
			break
		}
		key = r.Pagination.NextKey
		if page > 100 {
			d.w.violate("listing", "listing of %s does not end", d.name(a))
		}
	}
	for den, t := range d.l.toks {
		w := t.of(a).String()
		g, ok := got[den]
		if !ok {
			g = "0"
		}
		if g != w {
			d.w.violate("listing", "height %d: the balance listing of %s gives %s for %s, it holds %s", rg.c.height(), d.name(a), g, d.tname(t), w)
		}
		delete(got, den)
	}
	for den, x := range got {
		if x != "0" {
			d.w.violate("listing", "height %d: %s lists %s of unknown denom %s", rg.c.height(), d.name(a), x, den)
		}
	}
	// the other ways to list them
	ctx := n.committedCtx()
	acc, _ := sdk.AccAddressFromBech32(addr)
	cs := n.app.BankKeeper.GetAllBalances(ctx, acc)
	if sp := n.app.BankKeeper.SpendableCoins(ctx, acc); !sp.Equal(cs) {
		d.w.violate("listing", "height %d: %s holds %s, %s of it spendable", rg.c.height(), d.name(a), cs, sp)
	}
	d.compareCoins("the keeper's listing of the balances of "+d.name(a), cs, func(t *LTok) *big.Int { return t.of(a) })
	d.w.count("listings_checked")
}

// compareCoins compares coins with what the model has of each token.
func (d *LRun) compareCoins(what string, cs sdk.Coins, want func(t *LTok) *big.Int) {
	h := d.c.rg.c.height()
	n := 0
	for den, t := range d.l.toks {
		x := want(t)
		if x.Sign() != 0 {
			n++
		}
		if g := cs.AmountOf(den).BigInt(); g.Cmp(x) != 0 {
			d.w.violate("listing", "height %d: %s gives %s for %s, not %s", h, what, g, d.tname(t), x)
		}
	}
	if n != len(cs) {
		d.w.violate("listing", "height %d: %s has %d denominations, %d exist: %s", h, what, len(cs), n, cs)
	}
}

// checkAllAccounts compares the balances of all accounts, as an export lists
// them, with the model.
func (d *LRun) checkAllAccounts() {
	n := d.c.rg.n0()
	ctx := n.committedCtx()
	seen := map[common.Address]bool{}
	sum := sdk.NewCoins()
	for _, b := range n.app.BankKeeper.GetAccountsBalances(ctx) {
		acc, err := sdk.AccAddressFromBech32(b.Address)
		if err != nil {
			d.w.abort("address: %v", err)
		}
		sum = sum.Add(b.Coins...)
		if len(acc) != 20 {
			continue
		}
		a := common.BytesToAddress(acc)
		seen[a] = true
		d.compareCoins("the listing of all accounts for "+d.name(a), b.Coins, func(t *LTok) *big.Int { return t.of(a) })
	}
	for _, t := range d.l.toks {
		for a := range t.bal {
			if t.of(a).Sign() != 0 && !seen[a] && d.long[a] == nil {
				d.w.violate("listing", "height %d: %s holds %s of %s and is not in the listing of all accounts", d.c.rg.c.height(), d.name(a), t.of(a), d.tname(t))
			}
		}
	}
	d.compareCoins("the sum of the listing of all accounts", sum, func(t *LTok) *big.Int { return t.supply })
	var sup sdk.Coins
	n.app.BankKeeper.IterateTotalSupply(ctx, func(c sdk.Coin) bool {
		if !c.IsZero() {
			sup = append(sup, c)
		}
		return false
	})
	d.compareCoins("the listing of supplies", sup.Sort(), func(t *LTok) *big.Int { return t.supply })
	d.w.count("account_listings_checked")
}

// checkTotal compares the bank's supply listing with the model.
func (d *LRun) checkTotal() {
	n, h := d.c.rg.n0(), d.c.rg.c.height()
	got := map[string]string{}
	var key []byte
	lim := uint64(d.rng.In(1, 8))
	for page := 0; page < 200; page++ {
		bz, _ := (&banktypes.QueryTotalSupplyRequest{Pagination: &query.PageRequest{Key: key, Limit: lim}}).Marshal()
		res, ok := d.c.abciQuery(n, "/cosmos.bank.v1beta1.Query/TotalSupply", 0, bz)
		if !ok || res.Code != 0 {
			d.w.violate("supply-listing", "height %d: listing the supply fails: %s", h, res.GetLog())
		}
		var r banktypes.QueryTotalSupplyResponse
		if err := r.Unmarshal(res.Value); err != nil {
			d.w.abort("supply: %v", err)
		}
		for _, c := range r.Supply {
			if _, dup := got[c.Denom]; dup {
				d.w.violate("supply-listing", "height %d: %s is listed twice", h, c.Denom)
			}
			got[c.Denom] = c.Amount.String()
		}
		if r.Pagination == nil || len(r.Pagination.NextKey) == 0 {
			break
		}
		key = r.Pagination.NextKey
	}
	ctx := n.committedCtx()
	back := map[common.Address]string{}
	for den, t := range d.l.toks {
		g := got[den]
		if g == "" {
			g = "0"
		}
		if g != t.supply.String() {
			d.w.violate("supply-listing", "height %d: the supply listing gives %s for %s, its supply is %s", h, g, d.tname(t), t.supply)
		}
		a, err := evmtypes.DenomToContractAddr(ctx, n.app.EVMKeeper, den)
		if err != nil || a != t.addr {
			d.w.violate("mapping", "height %d: denom %s maps to contract %s, was %s (%v)", h, den, a, t.addr, err)
		}
		dn, err := evmtypes.ContractAddrToDenom(ctx, n.app.EVMKeeper, a)
		if err != nil || dn != den {
			d.w.violate("mapping", "height %d: contract %s maps to denom %s, not %s (%v)", h, a, dn, den, err)
		}
		if o, dup := back[a]; dup {
			d.w.violate("mapping", "height %d: contract %s serves both %s and %s", h, a, o, den)
		}
		back[a] = den
		delete(got, den)
	}
	for den, x := range got {
		if x != "0" {
			d.w.violate("supply-listing", "height %d: unknown denom %s with supply %s", h, den, x)
		}
	}
}

// full checks every balance.
func (d *LRun) full(start bool) {
	n := d.c.rg.n0()
	q := &evmQ{n, n.committedCtx()}
	for den, t := range d.l.toks {
		if !d.want(den) {
			continue
		}
		if start {
			if got := q.n.app.BankKeeper.GetSupply(q.ctx, den).Amount.BigInt(); got.Cmp(t.supply) != 0 {
				d.w.violate("supply", "at the start the supply of %s is %s, its holders have %s", d.tname(t), got, t.supply)
			}
			continue
		}
		sum := new(big.Int)
		for a := range t.bal {
			d.checkBal(q, t, a)
			sum.Add(sum, t.of(a))
		}
		if sum.Cmp(t.supply) != 0 {
			d.w.abort("model: sum %s supply %s of %s", sum, t.supply, den)
		}
	}
	if d.w.prop == "C08" && !start {
		for a := range d.watch {
			d.checkListing(a)
		}
		d.checkAllAccounts()
	}
	d.w.count("full_checks")
}

func (d *LRun) gen(b, per int) []*Tx {
	var out []*Tx
	for i := 0; i < per; i++ {
		o := d.c.wl.op(b*per + i)
		if !d.w.on(o.i) {
			continue
		}
		if t := d.genTx(o); t != nil {
			t.op = o.i
			out = append(out, t)
		}
	}
	return out
}

var _ = hexutil.Encode
