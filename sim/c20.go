package main

// C20: whoever is not entitled gets nothing done. Attackers (users and
// contracts) try every privileged action along every route, while the
// privileges themselves move; the entitled succeed.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"cosmossdk.io/math"
	"cosmossdk.io/x/feegrant"
	upgradetypes "cosmossdk.io/x/upgrade/types"
	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	consensustypes "github.com/cosmos/cosmos-sdk/x/consensus/types"
	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"
	"github.com/ethereum/go-ethereum/common"

	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"
	custombank "github.com/initia-labs/initia/x/bank/types"
	hookstypes "github.com/initia-labs/initia/x/ibc-hooks/types"

	"github.com/initia-labs/minievm/x/evm/contracts/erc20_factory"
	"github.com/initia-labs/minievm/x/evm/contracts/initia_erc20"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

func init() { scenarios["C20"] = scC20 }

// pAct is a tried action: allowed is judged on the model when its turn comes.
type pAct struct {
	what    string
	allowed func() bool
	apply   func()
	open    bool // the outcome of an allowed one is not predicted
	soft    bool // the transaction succeeds either way
}

type c20 struct {
	w       *World
	salt    byte
	c       *Cluster
	rg      *Rig
	params  evmtypes.Params
	opp     opchildtypes.Params
	bankP   banktypes.Params
	transP  transfertypes.Params
	erc20s  map[common.Address]bool
	acl     map[string]bool
	off     map[string]bool // denominations that must not be sent
	victims []*Acct
	toks    []common.Address // fungible contracts, the native one first
	denoms  []string
	owner   map[common.Address]common.Address
	bal     map[common.Address]map[common.Address]*big.Int // contract, victim or module
	allow   map[[3]common.Address]*big.Int                 // contract, owner, spender
	stores  map[common.Address]map[common.Address]bool
	nft     common.Address
	nfts    map[int64]common.Address
	mods    []common.Address
	vseq    map[common.Address]uint64
	fresh   int // tokens made at addresses not foretold
	factory common.Address
	copy    common.Address // of the factory, which anybody may make
	ban     string         // denomination of the bridged token
}

var deny = func() bool { return false }
var grant = func() bool { return true }

func scC20(w *World) {
	r := NewRng(w.seed, "c20")
	s := &c20{w: w, acl: map[string]bool{}, off: map[string]bool{}, allow: map[[3]common.Address]*big.Int{}, owner: map[common.Address]common.Address{}, nfts: map[int64]common.Address{}, ban: fmt.Sprintf("l2/%064x", 77)}
	o := ClusterOpts{Blocks: pick(r, []int{10, 20, 32}), PerBlock: 8, Scripts: 4}
	o.Opts.MaxGas = 4_000_000_000
	o.Opts.Users = 6
	if r.P(1, 3) {
		o.Replicas, o.Crash, o.WriteCrash, o.Power = 1, 3, true, true
	}
	o.Pre, o.Gen, o.OnRef = s.setup, s.gen, s.check
	runCluster(w, o)
}

func (s *c20) q() *evmQ { return &evmQ{s.rg.n0(), s.rg.n0().committedCtx()} }

func (s *c20) setup(c *Cluster) {
	s.c, s.rg = c, c.rg
	rg := c.rg
	app := rg.n0().app
	s.victims = []*Acct{rg.users[3], rg.users[4]}
	for _, n := range moduleNames {
		s.mods = append(s.mods, modAddr(n))
	}
	q := s.q()
	stake, err := app.EVMKeeper.GetContractAddrByDenom(q.ctx, feeDenom)
	if err != nil {
		s.w.abort("no native token: %v", err)
	}
	s.factory, _ = app.EVMKeeper.GetERC20FactoryAddr(q.ctx)
	s.toks, s.denoms = []common.Address{stake}, []string{feeDenom}
	s.owner[stake] = stdAddr
	for _, t := range c.wl.tokens {
		s.toks, s.denoms = append(s.toks, t.addr), append(s.denoms, t.denom)
		s.owner[t.addr] = t.owner.eth
	}
	s.nft = c.wl.nfts[0]
	minter := rg.users[2]
	var txs []*Tx
	for i, v := range s.victims {
		for k := int64(0); k < 2; k++ {
			id := int64(i+1)*10 + k
			s.nfts[id] = v.eth
			txs = append(txs, rg.cosmos("mint", minter, 3_000_000, msgCall(minter, s.nft, pack(abiNFT, "mint0", v.eth, bi(id), "u"), nil)))
		}
	}
	// entitlements of a narrow kind
	s.allow[[3]common.Address{stake, s.victims[0].eth, rg.users[0].eth}] = bi(1000)
	s.allow[[3]common.Address{s.toks[1], s.victims[1].eth, rg.con[1]}] = bi(500)
	txs = append(txs, rg.cosmos("approve", s.victims[0], 3_000_000, msgCall(s.victims[0], stake, pack(abiERC20, "approve", rg.users[0].eth, bi(1000)), nil)),
		rg.cosmos("approve", s.victims[1], 3_000_000, msgCall(s.victims[1], s.toks[1], pack(abiERC20, "approve", rg.con[1], bi(500)), nil)))
	ga, _ := authz.NewMsgGrant(s.victims[1].acc, rg.users[1].acc, authz.NewGenericAuthorization(sdk.MsgTypeURL(&evmtypes.MsgCreate2{})), nil)
	txs = append(txs, rg.cosmos("grant", s.victims[1], 3_000_000, ga))
	txs = append(txs, rg.cosmos("deposit", rg.exec, 12_000_000, opchildtypes.NewMsgFinalizeTokenDeposit(rg.exec.bech, "init1sender", rg.users[0].bech, sdk.NewInt64Coin(s.ban, 1000), 1, 1, "uinit", nil)))
	for _, x := range rg.con {
		txs = append(txs, rg.cosmos("fund", rg.users[0], 3_000_000, banktypes.NewMsgSend(rg.users[0].acc, x.Bytes(), coins(feeDenom, 1_000_000))))
	}
	for i, t := range rg.run(txs...).TxResults {
		if t.Code != 0 {
			s.w.abort("setup %s: %s", txs[i], t.Log)
		}
	}
	rg.sync()
	res := rg.run(rg.cosmos("copy", rg.users[1], 14_000_000, msgCreate(rg.users[1], creation(erc20_factory.Erc20FactoryMetaData), nil))).TxResults[0]
	if res.Code != 0 {
		s.w.abort("setup copy: %s", res.Log)
	}
	var cr evmtypes.MsgCreateResponse
	msgResp(res.Data, 0, &cr)
	s.copy = common.HexToAddress(cr.ContractAddr)
	rg.sync()
	// the model's start
	q = s.q()
	s.params, _ = app.EVMKeeper.Params.Get(q.ctx)
	s.opp, _ = app.OPChildKeeper.GetParams(q.ctx)
	s.bankP = app.BankKeeper.GetParams(q.ctx)
	s.transP = app.TransferKeeper.GetParams(q.ctx)
	s.erc20s = s.readERC20s(q)
	s.bal = map[common.Address]map[common.Address]*big.Int{}
	for i, t := range s.toks {
		s.bal[t] = map[common.Address]*big.Int{}
		for _, a := range s.watched() {
			s.bal[t][a] = q.balance(a, s.denoms[i])
		}
	}
	s.stores = s.readStores(q)
	s.vseq = map[common.Address]uint64{}
	for _, v := range s.victims {
		s.vseq[v.eth] = q.seq(v.eth)
	}
}

// watched are those who never act and never receive.
func (s *c20) watched() []common.Address {
	var out []common.Address
	for _, v := range s.victims {
		out = append(out, v.eth)
	}
	for _, m := range s.mods {
		if m != feeCollector {
			out = append(out, m)
		}
	}
	return out
}

func (s *c20) readERC20s(q *evmQ) map[common.Address]bool {
	m := map[common.Address]bool{}
	if err := q.n.app.EVMKeeper.ERC20s.Walk(q.ctx, nil, func(k []byte) (bool, error) {
		m[common.BytesToAddress(k)] = true
		return false, nil
	}); err != nil {
		s.w.abort("%v", err)
	}
	return m
}

func (s *c20) readStores(q *evmQ) map[common.Address]map[common.Address]bool {
	m := map[common.Address]map[common.Address]bool{}
	for _, v := range s.victims {
		m[v.eth] = map[common.Address]bool{}
		for t := range s.readERC20s(q) {
			if ok, _ := q.n.app.EVMKeeper.ERC20StoresKeeper().IsStoreRegistered(q.ctx, v.acc, t); ok {
				m[v.eth][t] = true
			}
		}
		for _, t := range s.rg.con {
			if ok, _ := q.n.app.EVMKeeper.ERC20StoresKeeper().IsStoreRegistered(q.ctx, v.acc, t); ok {
				m[v.eth][t] = true
			}
		}
	}
	return m
}

func (s *c20) name(a common.Address) string {
	for _, u := range s.rg.users {
		if u.eth == a {
			return fmt.Sprintf("user%d", u.idx)
		}
	}
	for i, c := range s.rg.con {
		if c == a {
			return fmt.Sprintf("con%d", i)
		}
	}
	for _, n := range moduleNames {
		if modAddr(n) == a {
			return "module " + n
		}
	}
	for i, t := range s.toks {
		if t == a {
			return "token " + s.denoms[i]
		}
	}
	if a == s.rg.admin.eth {
		return "admin"
	}
	if a == s.rg.exec.eth {
		return "executor"
	}
	if a == modAddr(opchildtypes.ModuleName) {
		return "authority"
	}
	return a.Hex()
}

// ---- generation

func (s *c20) gen(b, per int) []*Tx {
	var out []*Tx
	for i := 0; i < per; i++ {
		op := b*per + i
		if !s.w.on(op) {
			continue
		}
		r := NewRng(s.w.seed+uint64(op)*7919, "c20op")
		s.rg.opIdx = op
		if t := s.one(r, op); t != nil {
			t.op = op
			out = append(out, t)
		}
	}
	return out
}

func (s *c20) attacker(r *Rng) *Acct { return s.rg.users[r.N(3)] }

func (s *c20) one(r *Rng, op int) *Tx {
	switch n := r.N(100); {
	case n < 34:
		return s.authority(r, op)
	case n < 46:
		return s.create(r, op)
	case n < 66:
		return s.token(r, op)
	case n < 76:
		return s.registry(r, op)
	case n < 88:
		return s.foreign(r, op)
	default:
		return s.blocked(r, op)
	}
}

func (s *c20) tx(kind string, u *Acct, gas uint64, a *pAct, msgs ...sdk.Msg) *Tx {
	t := s.rg.cosmos(kind, u, gas, msgs...)
	t.meta, t.note = a, a.what
	return t
}

// forged is a transaction the signer's key is not enough for.
func (s *c20) forged(kind string, u *Acct, what string, m sdk.Msg) *Tx {
	t := s.tx(kind, u, 3_000_000, &pAct{what: what, allowed: deny}, m)
	u.next--
	return t
}

func (s *c20) isAdmin(a string) func() bool { return func() bool { return s.opp.Admin == a } }

func (s *c20) json(m sdk.Msg) string {
	bz, err := s.rg.n0().app.AppCodec().MarshalInterfaceJSON(m)
	if err != nil {
		s.w.abort("%v", err)
	}
	return string(bz)
}

// viaContract has a contract ask for m by the cosmos contract, plainly, by
// CALLCODE or DELEGATECALL, or through a second contract.
func (s *c20) viaContract(r *Rng, u *Acct, kind, what string, mk func(self common.Address) sdk.Msg, allowed func(self common.Address) func() bool, apply func(self common.Address)) *Tx {
	con := pick(r, s.rg.con)
	m := mk(con)
	in := pack(abiCosmos, "execute_cosmos", s.json(m))
	k := pick(r, []byte{sCALL, sCALL, sCCODE, sDELEG})
	sc := script{}.call(k, cosmosAddr, 0, 0, fReq, 0, in)
	ok := allowed(con)
	how := map[byte]string{sCALL: "call", sCCODE: "callcode", sDELEG: "delegatecall"}[k]
	if k == sDELEG {
		ok = deny
	}
	if r.P(1, 4) {
		// through another, which is not the one it acts for
		other := pick(r, s.rg.con)
		if other != con {
			sc = script{}.call(sCALL, other, 0, 0, fReq, 1, sc)
			ok, how = deny, how+" through "+s.name(other)
		}
	}
	a := &pAct{what: fmt.Sprintf("%s: %s by %s, %s", what, sdk.MsgTypeURL(m), s.name(con), how), allowed: ok, apply: func() {
		if apply != nil {
			apply(con)
		}
	}}
	return s.tx(kind, u, 14_000_000, a, msgCall(u, con, sc, nil))
}

// authority: messages only the chain's authority may sign.
func (s *c20) authority(r *Rng, op int) *Tx {
	rg := s.rg
	u := s.attacker(r)
	mk, apply, own := s.privileged(r)
	x := r.N(20)
	if own && x >= 8 {
		x = r.N(8)
	}
	// who might be the administrator
	who := pick(r, []*Acct{u, rg.admin, rg.users[5]})
	as := func(m sdk.Msg) sdk.Msg {
		e, err := opchildtypes.NewMsgExecuteMessages(who.bech, []sdk.Msg{m})
		if err != nil {
			s.w.abort("%v", err)
		}
		return e
	}
	good := mk(opAuthority())
	switch {
	case x == 0:
		return s.tx("direct", u, 3_000_000, &pAct{what: "as itself: " + fmt.Sprint(mk(u.bech)), allowed: deny}, mk(u.bech))
	case x == 1:
		return s.forged("forged", u, "signed by a user: "+fmt.Sprint(good), good)
	case x == 2:
		// in the administrator's name
		who = rg.admin
		return s.forged("forged-admin", u, "signed by a user: "+fmt.Sprint(as(good)), as(good))
	case x == 3:
		in := pick(r, []sdk.Msg{good, mk(u.bech)})
		e := authz.NewMsgExec(u.acc, []sdk.Msg{in})
		a := &pAct{what: "authz: " + fmt.Sprint(in), allowed: deny}
		if r.P(1, 2) {
			who = rg.admin
			e = authz.NewMsgExec(u.acc, []sdk.Msg{as(good)})
		}
		return s.tx("authz-priv", u, 4_000_000, a, &e)
	case x <= 5:
		who = rg.admin
		if r.P(1, 2) {
			return s.viaContract(r, u, "contract-priv", "authority", func(self common.Address) sdk.Msg { return mk(bech(self)) }, func(common.Address) func() bool { return deny }, nil)
		}
		in := pick(r, []sdk.Msg{good, as(good)})
		return s.viaContract(r, u, "contract-priv", "authority", func(common.Address) sdk.Msg { return in }, func(common.Address) func() bool { return deny }, nil)
	case x == 6:
		// the administrator cannot sign for others
		in := pick(r, []sdk.Msg{mk(u.bech), mk(who.bech), banktypes.NewMsgSend(s.victims[0].acc, u.acc, coins(feeDenom, 5)), msgCall(s.victims[1], s.toks[0], pack(abiERC20, "transfer", u.eth, bi(7)), nil)})
		return s.tx("admin-foreign", who, 6_000_000, &pAct{what: "administrator for others: " + fmt.Sprint(in), allowed: deny}, as(in))
	case x == 7:
		// half an entitlement: the second message is no one's to ask for
		e, _ := opchildtypes.NewMsgExecuteMessages(who.bech, []sdk.Msg{good, mk(u.bech)})
		return s.tx("admin-half", who, 6_000_000, &pAct{what: "half: " + fmt.Sprint(good), allowed: deny}, e)
	default:
		return s.tx("admin", who, 12_000_000, &pAct{what: s.name(who.eth) + ": " + fmt.Sprint(good), allowed: s.isAdmin(who.bech), apply: apply}, as(good))
	}
}

// privileged draws a message by its authority; own says it is only ever tried without being entitled.
func (s *c20) privileged(r *Rng) (mk func(auth string) sdk.Msg, apply func(), own bool) {
	rg := s.rg
	switch r.N(16) {
	case 0, 1, 2, 3:
		p := s.params
		p.AllowedPublishers, p.AllowedCustomERC20s = nil, nil
		if r.P(2, 3) {
			for _, u := range rg.users[:3] {
				if r.P(1, 2) {
					p.AllowedPublishers = append(p.AllowedPublishers, u.bech)
				}
			}
			for _, c := range rg.con {
				if r.P(1, 4) {
					p.AllowedPublishers = append(p.AllowedPublishers, bech(c))
				}
			}
		}
		p.AllowCustomERC20 = r.P(2, 3)
		if r.P(1, 2) {
			for _, c := range rg.con {
				if r.P(1, 3) {
					p.AllowedCustomERC20s = append(p.AllowedCustomERC20s, pick(r, []string{c.Hex(), strings.ToLower(c.Hex()), bech(c)}))
				}
			}
		}
		p.GasRefundRatio = math.LegacyNewDecWithPrec(int64(r.N(11)), 1)
		return func(a string) sdk.Msg { return &evmtypes.MsgUpdateParams{Authority: a, Params: p} }, func() { s.params = p }, false
	case 4, 5:
		p := s.opp
		p.Admin = pick(r, []*Acct{rg.admin, rg.admin, rg.users[5], rg.users[5], rg.users[1]}).bech
		p.BridgeExecutors = nil
		for _, x := range []*Acct{rg.exec, rg.users[5], rg.users[0]} {
			if r.P(1, 2) {
				p.BridgeExecutors = append(p.BridgeExecutors, x.bech)
			}
		}
		if len(p.BridgeExecutors) == 0 {
			p.BridgeExecutors = []string{rg.exec.bech}
		}
		return func(a string) sdk.Msg { q := p; return &opchildtypes.MsgUpdateParams{Authority: a, Params: &q} }, func() { s.opp = p }, false
	case 6:
		to := s.attacker(r)
		amt := coins(feeDenom, int64(r.In(1, 1000)))
		return func(a string) sdk.Msg {
			return &opchildtypes.MsgSpendFeePool{Authority: a, Recipient: to.bech, Amount: amt}
		}, nil, false
	case 7, 8:
		x, on := bech(pick(r, rg.con)), r.P(1, 2)
		return func(a string) sdk.Msg { return &hookstypes.MsgUpdateACL{Authority: a, Address: x, Allowed: on} }, func() { s.acl[x] = on }, false
	case 9, 10:
		d, on := pick(r, append([]string{s.ban}, s.denoms[1:]...)), r.P(1, 2)
		return func(a string) sdk.Msg {
			return &banktypes.MsgSetSendEnabled{Authority: a, SendEnabled: []*banktypes.SendEnabled{{Denom: d, Enabled: on}}}
		}, func() { s.off[d] = !on }, false
	case 11:
		p := s.transP
		p.ReceiveEnabled = r.P(1, 2)
		return func(a string) sdk.Msg { return &transfertypes.MsgUpdateParams{Signer: a, Params: p} }, func() { s.transP = p }, false
	case 12:
		p := banktypes.NewParams(true)
		return func(a string) sdk.Msg { return &banktypes.MsgUpdateParams{Authority: a, Params: p} }, func() { s.bankP = p }, false
	case 13:
		p := authtypes.DefaultParams()
		p.MaxMemoCharacters = 1 << 20
		return func(a string) sdk.Msg { return &authtypes.MsgUpdateParams{Authority: a, Params: p} }, nil, true
	case 14:
		if r.P(1, 2) {
			return func(a string) sdk.Msg {
				return &custombank.MsgSetDenomMetadata{Authority: a, Metadata: banktypes.Metadata{Base: "uabc", Display: "uabc", Name: "n", Symbol: "s", DenomUnits: []*banktypes.DenomUnit{{Denom: "uabc"}}}}
			}, nil, false
		}
		cp := rg.n0().app.GetConsensusParams(rg.n0().committedCtx())
		return func(a string) sdk.Msg {
			return &consensustypes.MsgUpdateParams{Authority: a, Block: cp.Block, Evidence: cp.Evidence, Validator: cp.Validator}
		}, nil, true
	default:
		h := rg.c.height() + 3
		return func(a string) sdk.Msg {
			return &upgradetypes.MsgSoftwareUpgrade{Authority: a, Plan: upgradetypes.Plan{Name: "vx", Height: h}}
		}, nil, true
	}
}

// ---- deploying

func (s *c20) publisher(a common.Address) func() bool {
	return func() bool {
		if len(s.params.AllowedPublishers) == 0 {
			return true
		}
		for _, p := range s.params.AllowedPublishers {
			if p == bech(a) {
				return true
			}
		}
		return false
	}
}

func (s *c20) create(r *Rng, op int) *Tx {
	rg := s.rg
	u := s.attacker(r)
	code := initFor(destructible(), nil)
	salt := r.Next() | 1
	switch n := r.N(15); {
	case n < 3:
		return s.tx("create", u, 6_000_000, &pAct{what: "MsgCreate by " + s.name(u.eth), allowed: s.publisher(u.eth)}, msgCreate(u, code, nil))
	case n < 6:
		return s.tx("create2", u, 6_000_000, &pAct{what: "MsgCreate2 by " + s.name(u.eth), allowed: s.publisher(u.eth)}, msgCreate2(u, code, nil, salt))
	case n < 8:
		t := rg.eth("eth-create", u, nil, 6_000_000, nil, code)
		t.meta = &pAct{what: "Ethereum creation by " + s.name(u.eth), allowed: s.publisher(u.eth)}
		return t
	case n < 10:
		two := r.P(1, 2)
		return s.viaContract(r, u, "contract-create", "create", func(self common.Address) sdk.Msg {
			x := &Acct{bech: bech(self)}
			if two {
				return msgCreate2(x, code, nil, salt)
			}
			return msgCreate(x, code, nil)
		}, func(self common.Address) func() bool { return s.publisher(self) }, nil)
	case n < 11:
		// a grant for the one kind of message only
		e := authz.NewMsgExec(rg.users[1].acc, []sdk.Msg{msgCreate(s.victims[1], code, nil)})
		return s.tx("authz-create", rg.users[1], 6_000_000, &pAct{what: "MsgCreate for a user who granted MsgCreate2", allowed: deny}, &e)
	case n < 12:
		// a new token registers itself
		return s.tx("create-token", u, 14_000_000, &pAct{what: "token by " + s.name(u.eth), allowed: func() bool {
			return s.publisher(u.eth)() && s.params.AllowCustomERC20 && len(s.params.AllowedCustomERC20s) == 0
		}, apply: func() { s.fresh++ }}, msgCreate(u, creation(initia_erc20.InitiaErc20MetaData, "x", "x", uint8(6)), nil))
	case n < 13:
		// contracts may create by themselves
		con := pick(r, rg.con)
		s.salt++ // a CREATE2 repeated would collide
		sc := script{}.create(byte(sCREATE+r.N(2)), 0, s.salt, fReq, 30, code)
		return s.tx("inner-create", u, 6_000_000, &pAct{what: "CREATE", allowed: grant}, msgCall(u, con, sc, nil))
	case n < 14:
		// the factory's code does not make the factory
		return s.tx("factory-copy", u, 12_000_000, &pAct{what: "createERC20 of a copy of the factory", allowed: deny}, msgCall(u, s.copy, pack(abiFactory, "createERC20", "f", "f", uint8(6)), nil))
	default:
		return s.tx("factory", u, 12_000_000, &pAct{what: "createERC20", allowed: grant, apply: func() { s.fresh++ }}, msgCall(u, s.factory, pack(abiFactory, "createERC20", "f", "f", uint8(6)), nil))
	}
}

// ---- tokens

func (s *c20) spend(t, owner, spender common.Address, amt *big.Int) (func() bool, func()) {
	k := [3]common.Address{t, owner, spender}
	return func() bool { return s.allow[k] != nil && s.allow[k].Cmp(amt) >= 0 }, func() {
		s.allow[k] = new(big.Int).Sub(s.allow[k], amt)
		s.bal[t][owner] = new(big.Int).Sub(s.bal[t][owner], amt)
	}
}

// tokenCall is a call of a token or collection by caller.
func (s *c20) tokenCall(r *Rng, caller common.Address) (to common.Address, in []byte, a *pAct) {
	t := pick(r, s.toks)
	v := pick(r, s.victims).eth
	me := pick(r, []common.Address{caller, s.rg.users[r.N(3)].eth, pick(r, s.rg.con)})
	amt := bi(int64(pick(r, []int{0, 1, 7, 300, 2000})))
	a = &pAct{allowed: deny}
	ret := func(what string, in []byte) (common.Address, []byte, *pAct) {
		a.what = fmt.Sprintf("%s: %s by %s", s.name(t), what, s.name(caller))
		return t, in, a
	}
	switch r.N(16) {
	case 0, 1:
		return ret("sudoTransfer", pack(abiERC20, "sudoTransfer", v, me, amt))
	case 2, 3:
		return ret("sudoMint", pack(abiERC20, "sudoMint", me, amt))
	case 4, 5:
		return ret("sudoBurn", pack(abiERC20, "sudoBurn", v, amt))
	case 6:
		a.allowed = func() bool { return s.owner[t] == caller }
		return ret("mint", pack(abiERC20, "mint", me, amt))
	case 7, 8:
		if amt.Sign() == 0 {
			amt = bi(1)
		}
		a.allowed, a.apply = s.spend(t, v, caller, amt)
		return ret(fmt.Sprintf("transferFrom(%s, %s, %d)", s.name(v), s.name(me), amt), pack(abiERC20, "transferFrom", v, me, amt))
	case 9, 10:
		if amt.Sign() == 0 {
			amt = bi(1)
		}
		a.allowed, a.apply = s.spend(t, v, caller, amt)
		return ret(fmt.Sprintf("burnFrom(%s, %d)", s.name(v), amt), pack(abiERC20, "burnFrom", v, amt))
	case 11:
		if s.owner[t] == caller {
			t = s.toks[0]
		}
		return ret("transferOwnership", pack(abiERC20, "transferOwnership", caller))
	case 12:
		t = s.nft
		id := pick(r, []int64{10, 11, 20, 21})
		return ret(fmt.Sprintf("transferFrom of %d", id), pack(abiNFT, "transferFrom", s.nfts[id], me, bi(id)))
	case 13:
		t = s.nft
		id := pick(r, []int64{10, 11, 20, 21})
		return ret(fmt.Sprintf("burn of %d", id), pack(abiNFT, "burn", bi(id)))
	case 14:
		t = s.nft
		id := pick(r, []int64{10, 11, 20, 21})
		return ret(fmt.Sprintf("approve of %d", id), pack(abiNFT, "approve", me, bi(id)))
	default:
		t = s.nft
		a.allowed = func() bool { return caller == s.rg.users[2].eth }
		if a.allowed() {
			a.allowed = deny
			return ret("mint of a taken id", pack(abiNFT, "mint0", me, bi(10), "z"))
		}
		return ret("mint", pack(abiNFT, "mint0", s.rg.users[0].eth, bi(int64(1000+r.N(1<<20))), "z"))
	}
}

func (s *c20) token(r *Rng, op int) *Tx {
	rg := s.rg
	u := s.attacker(r)
	switch n := r.N(10); {
	case n < 4:
		to, in, a := s.tokenCall(r, u.eth)
		return s.tx("token", u, 5_000_000, a, msgCall(u, to, in, nil))
	case n < 6:
		to, in, a := s.tokenCall(r, u.eth)
		t := rg.eth("eth-token", u, &to, 5_000_000, nil, in)
		t.meta, t.note = a, a.what
		return t
	case n < 9:
		con := pick(r, rg.con)
		to, in, a := s.tokenCall(r, con)
		a.soft = r.P(1, 3)
		fl := byte(fReq)
		if a.soft {
			fl = 0
		}
		k := byte(sCALL)
		if r.P(1, 6) {
			// the token's code on the contract's own storage: harmless to all
			k, a.soft, a.open, fl = pick(r, []byte{sDELEG, sCCODE}), true, true, 0
			a.apply = nil
			a.allowed = grant
			// reached with a revert afterwards: its storage is its own interpreter's
			sc := script{}.call(k, to, 0, 0, fl, 2, in).u8(sREVERT).u16(3)
			a.allowed, a.soft = deny, false
			return s.tx("token-deleg", u, 6_000_000, a, msgCall(u, con, sc, nil))
		}
		return s.tx("token-by-contract", u, 6_000_000, a, msgCall(u, con, script{}.call(k, to, 0, 0, fl, 2, in), nil))
	default:
		// a denomination whose sending is switched off
		i := 1 + r.N(len(s.denoms)-1)
		d := s.denoms[i]
		if r.P(1, 3) {
			d = s.ban
			u = rg.users[0]
		}
		to := s.attacker(r)
		a := &pAct{what: "send of " + d, allowed: func() bool { return !s.off[d] }}
		return s.tx("send", u, 3_000_000, a, banktypes.NewMsgSend(u.acc, to.acc, coins(d, 1)))
	}
}

// ---- the registry

func (s *c20) mayRegister(a common.Address) func() bool {
	return func() bool {
		if !s.params.AllowCustomERC20 {
			return false
		}
		if s.erc20s[a] || len(s.params.AllowedCustomERC20s) == 0 {
			return true
		}
		for _, x := range s.params.AllowedCustomERC20s {
			if strings.EqualFold(x, a.Hex()) || x == bech(a) {
				return true
			}
		}
		return false
	}
}

func (s *c20) registry(r *Rng, op int) *Tx {
	rg := s.rg
	u := s.attacker(r)
	con := pick(r, rg.con)
	a := &pAct{allowed: deny}
	var in []byte
	switch r.N(5) {
	case 0, 1:
		in = pack(abiRegistry, "register_erc20")
		a.what, a.allowed, a.apply = "register_erc20 by "+s.name(con), s.mayRegister(con), func() { s.erc20s[con] = true }
	case 2:
		x := pick(r, []common.Address{con, u.eth, pick(r, s.victims).eth, pick(r, rg.con)})
		in = pack(abiRegistry, "register_erc20_from_factory", x)
		a.what = "register_erc20_from_factory by " + s.name(con)
		if r.P(1, 2) {
			a.what = "register_erc20_from_factory by " + s.name(u.eth)
			return s.tx("factory-register", u, 4_000_000, a, msgCall(u, registryAddr, in, nil))
		}
	default:
		v := pick(r, []common.Address{s.victims[0].eth, s.victims[1].eth, pick(r, s.mods)})
		in = pack(abiRegistry, "register_erc20_store", v)
		a.what, a.allowed = "register_erc20_store of "+s.name(v)+" by "+s.name(con), grant
		a.apply = func() {
			if s.erc20s[con] && s.stores[v] != nil {
				s.stores[v][con] = true
			}
		}
		if r.P(1, 4) {
			a.what, a.apply = "register_erc20_store by "+s.name(u.eth), nil
			return s.tx("store-register", u, 4_000_000, a, msgCall(u, registryAddr, in, nil))
		}
	}
	k := byte(sCALL)
	if r.P(1, 5) {
		k, a.allowed, a.what = sSTATIC, deny, a.what+", read-only"
	}
	return s.tx("register", u, 6_000_000, a, msgCall(u, con, script{}.call(k, registryAddr, 0, 0, fReq, 3, in), nil))
}

// ---- for someone else

// foreign acts in the name of another user.
func (s *c20) foreign(r *Rng, op int) *Tx {
	rg := s.rg
	u := s.attacker(r)
	v := pick(r, s.victims)
	var m sdk.Msg
	what := ""
	var ok func() bool = deny
	switch r.N(8) {
	case 0, 1:
		m, what = banktypes.NewMsgSend(v.acc, u.acc, coins(pick(r, s.denoms), int64(r.In(1, 50)))), "send"
	case 2:
		m, what = msgCall(v, pick(r, s.toks), pack(abiERC20, pick(r, []string{"transfer", "approve"}), u.eth, bi(9)), nil), "call"
	case 3:
		m, what = msgCreate(v, initFor(destructible(), nil), nil), "create"
	case 4:
		m, what = opchildtypes.NewMsgInitiateTokenWithdrawal(v.bech, "init1receiver", sdk.NewInt64Coin(s.ban, 1)), "withdraw"
	case 5:
		g, _ := authz.NewMsgGrant(v.acc, u.acc, authz.NewGenericAuthorization(sdk.MsgTypeURL(&evmtypes.MsgCall{})), nil)
		m, what = g, "grant"
	case 6:
		g, _ := feegrant.NewMsgGrantAllowance(&feegrant.BasicAllowance{}, v.acc, u.acc)
		m, what = g, "fee grant"
	default:
		// the bridge
		x := pick(r, []*Acct{u, rg.exec, rg.users[5], rg.users[0]})
		next, _ := rg.n0().app.OPChildKeeper.GetNextL1Sequence(rg.n0().committedCtx())
		to := pick(r, []common.Address{u.eth, pick(r, s.mods)})
		d := opchildtypes.NewMsgFinalizeTokenDeposit(x.bech, "init1sender", bech(to), sdk.NewInt64Coin(s.ban, int64(r.In(1, 100))), next, 1, "uinit", nil)
		if r.P(1, 3) {
			// a hook in another's name
			inner := rg.cosmosN("inner", []*Acct{u}, 1_000_000, TxOpts{Fee: sdk.Coins{}}, banktypes.NewMsgSend(v.acc, u.acc, coins(feeDenom, 11)))
			u.next--
			d.Data = inner.bz
			d.To = v.bech
		}
		if len(d.Data) > 0 {
			d.To = u.bech
		}
		return s.tx("deposit", x, 14_000_000, &pAct{what: "deposit by " + s.name(x.eth), allowed: func() bool {
			for _, e := range s.opp.BridgeExecutors {
				if e == x.bech {
					return true
				}
			}
			return false
		}}, d)
	}
	switch r.N(5) {
	case 0:
		return s.forged("forged-foreign", u, what+" for "+s.name(v.eth), m)
	case 1:
		e := authz.NewMsgExec(u.acc, []sdk.Msg{m})
		return s.tx("authz-foreign", u, 6_000_000, &pAct{what: "authz: " + what + " for " + s.name(v.eth), allowed: ok}, &e)
	default:
		if r.P(1, 4) {
			// the contract's caller is not at its disposal either
			m = banktypes.NewMsgSend(u.acc, pick(r, rg.con).Bytes(), coins(feeDenom, 3))
			what = "send of its caller's"
		}
		return s.viaContract(r, u, "contract-foreign", what+" for "+s.name(v.eth), func(common.Address) sdk.Msg { return m }, func(common.Address) func() bool { return deny }, nil)
	}
}

// ---- accounts that must not be paid

func (s *c20) blocked(r *Rng, op int) *Tx {
	rg := s.rg
	u := s.attacker(r)
	m := pick(r, s.mods)
	con := pick(r, rg.con)
	v := int64(r.In(1, 500))
	a := &pAct{allowed: deny}
	set := func(f string) *pAct { a.what = f + " to " + s.name(m); return a }
	switch r.N(10) {
	case 0:
		return s.tx("pay-module", u, 3_000_000, set("send"), banktypes.NewMsgSend(u.acc, m.Bytes(), coins(pick(r, s.denoms), v)))
	case 1:
		return s.tx("value-module", u, 3_000_000, set("value"), msgCall(u, m, nil, bi(v)))
	case 2:
		t := rg.eth("eth-module", u, &m, 3_000_000, bi(v), nil)
		t.meta = set("Ethereum value")
		return t
	case 3:
		return s.tx("script-module", u, 4_000_000, set("a contract's value"), msgCall(u, con, script{}.call(sCALL, m, uint64(v), 0, fReq, 4, nil), nil))
	case 4:
		return s.tx("erc20-module", u, 4_000_000, set("token transfer"), msgCall(u, pick(r, s.toks), pack(abiERC20, "transfer", m, bi(v)), nil))
	case 5:
		return s.tx("erc20-module", rg.users[0], 4_000_000, set("transferFrom"), msgCall(rg.users[0], s.toks[0], pack(abiERC20, "transferFrom", s.victims[0].eth, m, bi(1)), nil))
	case 6:
		i := 1 + r.N(len(s.toks)-1)
		o := rg.users[i-1]
		return s.tx("mint-module", o, 4_000_000, set("mint"), msgCall(o, s.toks[i], pack(abiERC20, "mint", m, bi(v)), nil))
	case 7:
		return s.viaContract(r, u, "contract-pay-module", "to "+s.name(m), func(self common.Address) sdk.Msg {
			return banktypes.NewMsgSend(self.Bytes(), m.Bytes(), coins(feeDenom, v))
		}, func(common.Address) func() bool { return deny }, nil)
	case 8:
		s.salt++
		sc := script{}.create(byte(sCREATE+r.N(2)), uint64(v), s.salt, fReq|fOK, 29, initFor(destructible(), nil))
		sc = sc.call(sCALLK, common.BytesToAddress([]byte{29}), 0, 0, fReq, 4, m.Bytes())
		return s.tx("destroy-module", u, 6_000_000, set("what is left of a contract"), msgCall(u, con, sc, nil))
	default:
		// an address whose short form belongs to somebody
		x := pick(r, []common.Address{pick(r, s.victims).eth, con, pick(r, s.toks), m})
		long := append([]byte(fmt.Sprintf("long%08d", r.N(1<<20))), x.Bytes()...)
		a.what = "long form of " + s.name(x)
		return s.tx("long", u, 3_000_000, a, banktypes.NewMsgSend(u.acc, long, coins(feeDenom, v)))
	}
}

// ---- judging

func (s *c20) check(b int, txs []*Tx, res *abci.ResponseFinalizeBlock) {
	w := s.w
	h := s.rg.c.height()
	for i, t := range txs {
		r := res.TxResults[i]
		a := t.meta.(*pAct)
		ok := a.allowed()
		where := fmt.Sprintf("block %d tx %d (op %d, %s by %s): %s", h, i, t.op, t.kind, s.name(t.from.eth), a.what)
		if w.verbose {
			fmt.Printf("  %s allowed=%v code=%d gas=%d/%d %.160q\n", where, ok, r.Code, r.GasUsed, t.gas, r.Log)
		}
		if r.Code == 0 {
			if !ok && !a.soft {
				w.violate("not-entitled", "%s was done", where)
				return
			}
			if ok && a.apply != nil {
				a.apply()
			}
			w.count("done." + t.kind)
		} else {
			if (ok || a.soft) && !a.open {
				w.violate("entitled-refused", "%s was refused: %s", where, r.Log)
				return
			}
			w.count("refused." + t.kind)
		}
	}
	s.compare(fmt.Sprintf("block %d", h))
}

func (s *c20) same(where, what string, got, want any) bool {
	g, x := fmt.Sprint(got), fmt.Sprint(want)
	s.w.count("compared")
	if g != x {
		s.w.violate("state", "%s: %s is %s, entitled parties made it %s", where, what, trunc(g), trunc(x))
		return false
	}
	return true
}

func (s *c20) compare(where string) {
	q := s.q()
	app := s.rg.n0().app
	p, _ := app.EVMKeeper.Params.Get(q.ctx)
	op, _ := app.OPChildKeeper.GetParams(q.ctx)
	if !s.same(where, "the EVM's parameters", mustJSON(p), mustJSON(s.params)) || !s.same(where, "the bridge's parameters", mustJSON(op), mustJSON(s.opp)) ||
		!s.same(where, "the bank's parameters", app.BankKeeper.GetParams(q.ctx), s.bankP) || !s.same(where, "the transfer parameters", app.TransferKeeper.GetParams(q.ctx), s.transP) {
		return
	}
	for _, c := range s.rg.con {
		on, _ := app.IBCHooksKeeper.GetAllowed(q.ctx, c.Bytes())
		if !s.same(where, "the hook permission of "+s.name(c), on, s.acl[bech(c)]) {
			return
		}
	}
	for _, d := range append([]string{s.ban}, s.denoms...) {
		if !s.same(where, "whether "+d+" may be sent", app.BankKeeper.IsSendEnabledDenom(q.ctx, d), !s.off[d]) {
			return
		}
	}
	for i, t := range s.toks {
		for _, a := range s.watched() {
			if !s.same(where, fmt.Sprintf("the balance of %s in %s", s.name(a), s.denoms[i]), q.balance(a, s.denoms[i]), s.bal[t][a]) {
				return
			}
		}
	}
	var keys [][3]common.Address
	for k := range s.allow {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return string(keys[i][1].Bytes()) < string(keys[j][1].Bytes()) })
	for _, k := range keys {
		out, e := q.view(stdAddr, k[0], pack(abiERC20, "allowance", k[1], k[2]))
		if e != "" || !s.same(where, fmt.Sprintf("what %s lets %s spend", s.name(k[1]), s.name(k[2])), new(big.Int).SetBytes(out), s.allow[k]) {
			return
		}
	}
	for _, id := range []int64{10, 11, 20, 21} {
		out, e := q.view(stdAddr, s.nft, pack(abiNFT, "ownerOf", bi(id)))
		if !s.same(where, fmt.Sprintf("the owner of token %d %s", id, e), common.BytesToAddress(out), s.nfts[id]) {
			return
		}
		out, e = q.view(stdAddr, s.nft, pack(abiNFT, "getApproved", bi(id)))
		if !s.same(where, fmt.Sprintf("who may move token %d %s", id, e), common.BytesToAddress(out), common.Address{}) {
			return
		}
	}
	for _, v := range s.victims {
		if !s.same(where, "the sequence of "+s.name(v.eth), q.seq(v.eth), s.vseq[v.eth]) || !s.same(where, "the code of "+s.name(v.eth), len(q.code(v.eth)), 0) {
			return
		}
	}
	// a plain account in a module's place would stop the module
	for _, m := range s.mods {
		acc := app.AccountKeeper.GetAccount(q.ctx, m.Bytes())
		if _, ok := acc.(sdk.ModuleAccountI); acc != nil && !s.same(where, fmt.Sprintf("whether the account of %s is the module's own", s.name(m)), ok, true) {
			return
		}
	}
	// tokens the chain knows
	got := s.readERC20s(q)
	for x := range s.erc20s {
		if !got[x] {
			s.w.violate("state", "%s: the token %s is gone", where, s.name(x))
			return
		}
	}
	n := 0
	for x := range got {
		if !s.erc20s[x] {
			n++
			for _, c := range append(append([]common.Address(nil), s.rg.con...), s.watched()...) {
				if x == c {
					s.w.violate("state", "%s: %s became a token of the chain without being entitled to", where, s.name(x))
					return
				}
			}
		}
	}
	if !s.same(where, "the number of new tokens", n, s.fresh) {
		return
	}
	s.erc20s, s.fresh = got, 0
	for _, t := range s.toks {
		out, e := q.view(stdAddr, t, pack(abiERC20, "owner"))
		if !s.same(where, "the owner of "+s.name(t)+e, common.BytesToAddress(out), s.ownerOf(t)) {
			return
		}
	}
	st := s.readStores(q)
	for _, v := range s.victims {
		for _, x := range append(append([]common.Address(nil), s.rg.con...), s.toks...) {
			if !s.same(where, fmt.Sprintf("whether %s lists %s", s.name(v.eth), s.name(x)), st[v.eth][x], s.stores[v.eth][x]) {
				return
			}
		}
	}
}

func (s *c20) ownerOf(t common.Address) common.Address {
	return s.owner[t]
}
