package main

// C14, C15: a chain whose two channel ends are both its own (the loopback
// client), a relayer that loses, repeats, delays, reorders and forges, hooks
// and callbacks into contracts, and a model of every balance, owner, packet
// and callback.

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"

	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/address"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"
	clienttypes "github.com/cosmos/ibc-go/v8/modules/core/02-client/types"
	channeltypes "github.com/cosmos/ibc-go/v8/modules/core/04-channel/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/crypto"

	hookstypes "github.com/initia-labs/initia/x/ibc-hooks/types"
	nfttypes "github.com/initia-labs/initia/x/ibc/nft-transfer/types"

	"github.com/initia-labs/minievm/x/evm/contracts/i_ibc_async_callback"
	"github.com/initia-labs/minievm/x/evm/contracts/ics721_erc721"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

func init() {
	scenarios["C14"] = func(w *World) { scIBC(w, NewRng(w.seed, "kind").P(1, 4)) }
	scenarios["C15"] = func(w *World) { scIBC(w, true) }
}

var abiCallback = mustABI(i_ibc_async_callback.IIbcAsyncCallbackMetaData)

var loopProof = []byte{1}

// iChan is one end of a channel.
type iChan struct {
	port, id string
	peer     *iChan
	next     uint64 // sequence of the next packet sent from here
	esc      common.Address
}

func (c *iChan) prefix() string { return c.port + "/" + c.id }

// asset is a fungible denomination or a class, with the hops it took.
type asset struct {
	hops string // "transfer/channel-1/transfer/channel-0", "" at home
	base string
}

func (a asset) full() string {
	if a.hops == "" {
		return a.base
	}
	return a.hops + "/" + a.base
}

func (a asset) local() string {
	if a.hops == "" {
		return a.base
	}
	h := sha256.Sum256([]byte(a.full()))
	return "ibc/" + strings.ToUpper(hex.EncodeToString(h[:]))
}

func (a asset) from(c *iChan) bool {
	return a.hops == c.prefix() || strings.HasPrefix(a.hops, c.prefix()+"/")
}
func (a asset) back(c *iChan) asset {
	return asset{strings.TrimPrefix(strings.TrimPrefix(a.hops, c.prefix()), "/"), a.base}
}
func (a asset) onto(c *iChan) asset {
	if a.hops == "" {
		return asset{c.prefix(), a.base}
	}
	return asset{c.prefix() + "/" + a.hops, a.base}
}

// iHook is what a memo asks for at the receiving end.
type iHook struct {
	to    common.Address // target contract
	text  string         // as written in the memo
	bad   bool           // text is no address
	slot  byte           // the counter the script raises
	pull  *big.Int       // amount the script takes from the caller
	token common.Address
	nfts  []string
	nftID []*big.Int
	fail  bool
	value int64
	loose bool // malformed memo: the outcome is read from the acknowledgement
}

// iCall is an asynchronous callback a memo asks for.
type iCall struct {
	to   common.Address
	text string
	bad  bool
	id   uint64
}

type iPkt struct {
	op       int
	p        channeltypes.Packet
	src      *iChan
	a        asset
	nft      bool
	amt      *big.Int
	ids      []string
	sender   common.Address
	receiver string
	hook     *iHook
	cb       *iCall
	recvd    bool
	ackOK    bool
	ack      []byte
	done     bool // acknowledged or timed out
	sentAt   int64
}

func (p *iPkt) String() string {
	return fmt.Sprintf("packet %d of %s/%s (op %d)", p.p.Sequence, p.src.port, p.src.id, p.op)
}

type ibcSim struct {
	w      *World
	c      *Cluster
	rg     *Rig
	nft    bool
	chans  []*iChan
	pkts   []*iPkt
	bal    map[asset]map[common.Address]*big.Int
	own    map[asset]map[string]common.Address
	uri    map[string]string // token URI by class base and id
	acl    map[common.Address]bool
	cb     map[common.Hash]int // expected uses of a callback
	cbN    map[common.Address]int
	slots  map[common.Address]map[byte]int
	rec    []common.Address // callback contracts
	nfts   []common.Address // collections at home
	minter []*Acct
	appr   map[asset]map[string]common.Address
	lastID map[asset]int64
	ids    int
	drain  bool
	memo   map[string]bool
	// whose sequence a callback has raised in this block
	bumped map[common.Address]bool
}

// cbRecorder counts calls by input and caller; calls with certain ids fail or are expensive.
func cbRecorder() []byte {
	a := newAsm()
	a.pi(0).op(vm.CALLDATALOAD).pi(224).op(vm.SHR)
	a.op(vm.DUP1).push([]byte{0x15, 0x0b, 0x7a, 0x02}).op(vm.EQ).ref("nft").op(vm.JUMPI, vm.POP)
	// slot 0 counts all
	a.pi(0).op(vm.SLOAD).pi(1).op(vm.ADD).pi(0).op(vm.SSTORE)
	a.op(vm.CALLDATASIZE).pi(0).pi(0).op(vm.CALLDATACOPY)
	a.op(vm.CALLER, vm.CALLDATASIZE, vm.MSTORE)
	a.op(vm.CALLDATASIZE).pi(32).op(vm.ADD).pi(0).op(vm.KECCAK256)
	a.op(vm.DUP1, vm.SLOAD).pi(1).op(vm.ADD, vm.SWAP1, vm.SSTORE)
	a.pi(4).op(vm.CALLDATALOAD).pi(7).op(vm.AND)
	a.op(vm.DUP1).pi(7).op(vm.EQ).ref("fail").op(vm.JUMPI)
	a.pi(6).op(vm.EQ).ref("dear").op(vm.JUMPI, vm.STOP)
	a.lbl("fail").pi(0).pi(0).op(vm.REVERT)
	a.lbl("dear").pi(40)
	a.lbl("more").op(vm.DUP1).ref("go").op(vm.JUMPI, vm.STOP)
	a.lbl("go").op(vm.DUP1, vm.GAS, vm.POP).op(vm.DUP1).pi(1<<20).op(vm.ADD, vm.SSTORE)
	a.pi(1).op(vm.SWAP1, vm.SUB).ref("more").op(vm.JUMP)
	a.lbl("nft").pi(224).op(vm.SHL).pi(0).op(vm.MSTORE).pi(32).pi(0).op(vm.RETURN)
	return a.bytes()
}

func scIBC(w *World, nft bool) {
	r := NewRng(w.seed, "ibc")
	s := &ibcSim{w: w, nft: nft, bal: map[asset]map[common.Address]*big.Int{}, own: map[asset]map[string]common.Address{}, uri: map[string]string{},
		acl: map[common.Address]bool{}, cb: map[common.Hash]int{}, cbN: map[common.Address]int{}, slots: map[common.Address]map[byte]int{}, memo: map[string]bool{}, appr: map[asset]map[string]common.Address{}, lastID: map[asset]int64{}}
	o := ClusterOpts{Blocks: pick(r, []int{14, 24, 40}), PerBlock: 6, Scripts: 4}
	o.Opts.MaxGas = 4_000_000_000
	o.Opts.Users = 5
	o.Opts.Initial = pick(r, []int64{1, 1, 1, 700, 1 << 32})
	if r.P(1, 3) {
		o.Replicas, o.Crash, o.WriteCrash, o.Power = 1, 3, true, true
	}
	drain := 5
	total := o.Blocks
	o.Blocks += drain
	o.Pre = s.setup
	o.Gen = func(b, per int) []*Tx { s.drain = b >= total; return s.gen(b, per) }
	o.OnRef = func(b int, txs []*Tx, res *abci.ResponseFinalizeBlock) {
		s.check(txs, res)
		if b == total+drain-1 {
			for _, p := range s.pkts {
				if !p.done {
					w.violate("unresolved", "%s is neither acknowledged nor timed out after %d rounds of an honest relayer (received: %v)", p, drain, p.recvd)
					return
				}
			}
			w.countN("packets", len(s.pkts))
		}
	}
	runCluster(w, o)
}

func (s *ibcSim) must(txs ...*Tx) *abci.ResponseFinalizeBlock {
	res := s.rg.run(txs...)
	for i, t := range res.TxResults {
		if t.Code != 0 {
			s.w.abort("setup %s: %s", txs[i], t.Log)
		}
	}
	s.rg.sync()
	return res
}

func (s *ibcSim) ph() clienttypes.Height {
	return clienttypes.NewHeight(1, uint64(s.rg.c.height()+1))
}

func (s *ibcSim) setup(c *Cluster) {
	s.c, s.rg = c, c.rg
	rg, u := c.rg, c.rg.users[0]
	r := NewRng(s.w.seed, "ibcsetup")
	pairs := 2
	for k := 0; k < pairs; k++ {
		for _, port := range []string{"transfer", "nft-transfer"} {
			if !s.nft && port == "nft-transfer" {
				continue
			}
			ver := map[string]string{"transfer": "ics20-1", "nft-transfer": "ics721-1"}[port]
			if r.P(1, 2) {
				ver = fmt.Sprintf(`{"fee_version":"ics29-1","app_version":"%s"}`, ver)
			}
			n := len(s.chans)
			a, b := &iChan{port: port, id: fmt.Sprintf("channel-%d", n), next: 1}, &iChan{port: port, id: fmt.Sprintf("channel-%d", n+1), next: 1}
			a.peer, b.peer = b, a
			hops := []string{"connection-localhost"}
			s.must(rg.cosmos("init", u, 3_000_000, channeltypes.NewMsgChannelOpenInit(port, ver, channeltypes.UNORDERED, hops, port, u.bech)))
			s.must(rg.cosmos("try", u, 3_000_000, channeltypes.NewMsgChannelOpenTry(port, ver, channeltypes.UNORDERED, hops, port, a.id, ver, loopProof, s.ph(), u.bech)))
			s.must(rg.cosmos("ack", u, 3_000_000, channeltypes.NewMsgChannelOpenAck(port, a.id, b.id, ver, loopProof, s.ph(), u.bech)))
			s.must(rg.cosmos("confirm", u, 3_000_000, channeltypes.NewMsgChannelOpenConfirm(port, b.id, loopProof, s.ph(), u.bech)))
			s.chans = append(s.chans, a, b)
		}
	}
	for _, x := range s.chans {
		x.esc = common.BytesToAddress(transfertypes.GetEscrowAddress(x.port, x.id))
		if x.port == "nft-transfer" {
			x.esc = common.BytesToAddress(nfttypes.GetEscrowAddress(x.port, x.id))
		}
	}
	var txs []*Tx
	for i := 0; i < 2; i++ {
		txs = append(txs, rg.cosmos("recorder", u, 3_000_000, msgCreate(u, initFor(cbRecorder(), nil), nil)))
	}
	for _, t := range s.must(txs...).TxResults {
		var resp evmtypes.MsgCreateResponse
		msgResp(t.Data, 0, &resp)
		s.rec = append(s.rec, common.HexToAddress(resp.ContractAddr))
	}
	// who may be called
	var acl []sdk.Msg
	for _, x := range append(append([]common.Address(nil), rg.con...), s.rec...) {
		if r.P(3, 4) {
			s.acl[x] = true
			acl = append(acl, &hookstypes.MsgUpdateACL{Authority: opAuthority(), Address: bech(x), Allowed: true})
		}
	}
	if len(acl) > 0 {
		s.must(rg.cosmos("acl", rg.admin, 3_000_000, adminMsgs(rg.admin, acl...)))
	}
	s.nfts, s.minter = []common.Address{c.wl.nfts[0]}, []*Acct{rg.users[2%len(rg.users)]}
	if s.nft {
		var resp evmtypes.MsgCreateResponse
		msgResp(s.must(rg.cosmos("collection", u, 10_000_000, msgCreate(u, creation(ics721_erc721.Ics721Erc721MetaData, "second", "2"), nil))).TxResults[0].Data, 0, &resp)
		s.nfts, s.minter = append(s.nfts, common.HexToAddress(resp.ContractAddr)), append(s.minter, u)
		for k, x := range s.nfts {
			cls := asset{"", "evm/" + x.Hex()[2:]}
			var msgs []sdk.Msg
			for n := int64(1); n <= 8; n++ {
				to, id := pick(r, rg.users).eth, fmt.Sprint(1_000_000+n)
				msgs = append(msgs, msgCall(s.minter[k], x, pack(abiNFT, "mint0", to, big.NewInt(1_000_000+n), s.uriOf(cls, id)), nil))
				s.move(cls, nil, []string{id}, nil, &to)
			}
			s.must(rg.cosmos("mint", s.minter[k], 20_000_000, msgs...))
		}
	}
	// the model's start
	ctx := rg.n0().committedCtx()
	for _, a := range s.bases() {
		s.bal[a] = map[common.Address]*big.Int{}
		for _, x := range s.people() {
			s.bal[a][x] = rg.n0().app.BankKeeper.GetBalance(ctx, x.Bytes(), a.base).Amount.BigInt()
		}
	}
}

func (s *ibcSim) bases() []asset {
	out := []asset{{"", feeDenom}}
	for _, t := range s.c.wl.tokens {
		out = append(out, asset{"", t.denom})
	}
	return out
}

func (s *ibcSim) people() []common.Address {
	var out []common.Address
	for _, u := range s.rg.users {
		out = append(out, u.eth)
	}
	out = append(out, s.rg.admin.eth)
	out = append(out, s.rg.con...)
	out = append(out, s.rec...)
	for _, c := range s.chans {
		out = append(out, c.esc)
	}
	return out
}

func (s *ibcSim) get(a asset, x common.Address) *big.Int {
	if v := s.bal[a][x]; v != nil {
		return v
	}
	return new(big.Int)
}

func (s *ibcSim) add(a asset, x common.Address, d *big.Int) {
	if s.bal[a] == nil {
		s.bal[a] = map[common.Address]*big.Int{}
	}
	s.bal[a][x] = new(big.Int).Add(s.get(a, x), d)
}

func sha256Of(s string) []byte {
	h := sha256.Sum256([]byte(s))
	return h[:]
}

func neg(x *big.Int) *big.Int { return new(big.Int).Neg(x) }

// assets in a fixed order, those someone holds
func (s *ibcSim) list() []asset {
	var out []asset
	if s.nft {
		for a := range s.own {
			out = append(out, a)
		}
	} else {
		for a := range s.bal {
			out = append(out, a)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].full() < out[j].full() })
	return out
}

// ---- memos

func (s *ibcSim) addrText(r *Rng, x common.Address) string {
	return pick(r, []string{x.Hex(), strings.ToLower(x.Hex()), bech(x)})
}

func (s *ibcSim) tokenOf(a asset) (common.Address, bool) {
	if strings.HasPrefix(a.local(), "evm/") {
		return common.HexToAddress(a.local()[4:]), true
	}
	k := s.rg.n0().app.EVMKeeper
	var x common.Address
	var err error
	if s.nft {
		x, err = k.GetContractAddrByClassId(s.rg.n0().committedCtx(), a.local())
	} else {
		x, err = k.GetContractAddrByDenom(s.rg.n0().committedCtx(), a.local())
	}
	return x, err == nil
}

func (s *ibcSim) nftNum(a asset, id string) *big.Int {
	if a.hops != "" {
		h := sha256.Sum256([]byte(id))
		return new(big.Int).SetBytes(h[:])
	}
	n, _ := new(big.Int).SetString(id, 10)
	return n
}

// memoFor draws the memo of a packet that arrives as asset b.
func (s *ibcSim) memoFor(r *Rng, p *iPkt, src *iChan) string {
	b := p.a.onto(src.peer)
	if p.a.from(src) {
		b = p.a.back(src)
	}
	evm := map[string]any{}
	if r.P(1, 2) {
		h := &iHook{to: pick(r, s.rg.con), slot: byte(1 + r.N(8))}
		if r.P(1, 12) {
			h.to = pick(r, s.rec)
		}
		h.text = s.addrText(r, h.to)
		sc := script{}.sadd(h.slot, 1)
		if tok, ok := s.tokenOf(b); ok && r.P(2, 3) {
			h.token = tok
			inter := s.inter(src.peer, p.sender)
			if s.nft {
				for _, id := range p.ids {
					if r.P(2, 3) {
						h.nfts = append(h.nfts, id)
						sc = sc.call(sCALL, tok, 0, 0, fReq, 0, pack(abiNFT, "transferFrom", inter, h.to, s.nftNum(b, id)))
					}
				}
			} else {
				h.pull = new(big.Int).Set(p.amt)
				switch r.N(4) {
				case 0:
					h.pull.Add(h.pull, bi(1))
				case 1:
					h.pull.Div(h.pull, bi(2))
				}
				sc = sc.call(sCALL, tok, 0, 0, fReq, 0, pack(abiERC20, "transferFrom", inter, h.to, h.pull))
			}
		}
		if r.P(1, 6) {
			h.fail = true
			sc = sc.u8(sREVERT).u16(3)
		}
		if r.P(1, 5) {
			h.value = int64(r.In(1, 2000))
		}
		input := hexutil.Encode(sc)
		if h.to == s.rec[0] || h.to == s.rec[1] {
			// no script: count by input
			h.fail, h.nfts, h.pull, h.slot = false, nil, nil, 0
			input = hexutil.Encode(append([]byte{9, 9, 9, 9}, make([]byte, 32)...))
		}
		p.receiver = h.text
		if r.P(1, 10) {
			p.receiver = s.addrText(r, pick(r, s.rg.con))
		}
		if r.P(1, 20) {
			h.text, h.bad = pick(r, []string{"0x12", "nobody", "0x" + strings.Repeat("zz", 20)}), true
			p.receiver = h.text
		}
		m := map[string]any{"contract_addr": h.text, "input": input, "value": fmt.Sprint(h.value)}
		if r.P(1, 8) {
			m["sender"] = pick(r, s.rg.users).bech // must not count
		}
		evm["message"] = m
		p.hook = h
	}
	if r.P(1, 2) {
		cb := &iCall{to: pick(r, s.rec)}
		cb.text = s.addrText(r, cb.to)
		cb.id = pick(r, []uint64{uint64(r.N(64)), uint64(r.N(64)), 1<<53 + 1, ^uint64(0) - 2, r.Next() &^ 7, r.Next()})
		if r.P(1, 20) {
			cb.text, cb.bad = pick(r, []string{"", "0x12", "init1xyz"}), true
		}
		evm["async_callback"] = map[string]any{"id": cb.id, "contract_address": cb.text}
		p.cb = cb
	}
	if len(evm) == 0 {
		return pick(r, []string{"", "", "hello", "{}", `{"x":1}`, `{"evm":{}}`, `[1]`, `{"evm":null}`})
	}
	m := map[string]any{"evm": evm}
	if r.P(1, 6) {
		m["note"] = "x"
	}
	if r.P(1, 25) {
		// half-broken: what cannot be read is not done
		if p.hook != nil {
			p.hook.loose = true
		}
		p.cb = nil
		evm["async_callback"] = pick(r, []any{"x", 7, []any{1}})
	}
	bz, _ := json.Marshal(m)
	return string(bz)
}

func (s *ibcSim) inter(dst *iChan, sender common.Address) common.Address {
	return common.BytesToAddress(address.Hash("ibc-evm-hook-intermediary", []byte(dst.id+"/"+bech(sender))))
}

// ---- operations

// iAct is what one message of a transaction does to the model.
type iAct struct {
	kind  string // send, recv, ack, timeout, forge, acl, pay, mint, give
	p     *iPkt
	a     asset
	from  common.Address
	to    common.Address
	amt   *big.Int
	id    string
	owner common.Address
	on    bool
	ack   []byte
	as    string // what a forgery is of, and whose
	orig  *iPkt
	after bool // a send a contract asks for and then undoes
}

type iTx struct {
	acts []*iAct
	low  bool // little gas
}

func (s *ibcSim) gen(b, per int) []*Tx {
	rg := s.rg
	var out []*Tx
	if s.drain {
		rg.opIdx = 1 << 30
		k := 0
		for _, p := range s.pkts {
			if p.done {
				continue
			}
			u := rg.users[k%len(rg.users)]
			k++
			kind := "recv"
			if p.recvd {
				kind = "ack"
			} else if s.elapsedNext(p) {
				kind = "timeout"
			}
			m, a := s.relay(kind, p, u)
			t := rg.cosmos("drain", u, 40_000_000, m)
			t.meta = &iTx{acts: []*iAct{a}}
			t.op = p.op
			out = append(out, t)
		}
		return out
	}
	for i := 0; i < per; i++ {
		op := b*per + i
		if !s.w.on(op) {
			continue
		}
		r := NewRng(s.w.seed+uint64(op)*7919, "ibcop")
		rg.opIdx = op
		t := s.one(r, op)
		if t != nil {
			t.op = op
			out = append(out, t)
		}
	}
	return out
}

// elapsedNext says whether the packet will certainly have timed out in the next block.
func (s *ibcSim) elapsedNext(p *iPkt) bool {
	return s.elapsed(p, s.rg.c.height()+1, s.rg.c.clock)
}

func (s *ibcSim) elapsed(p *iPkt, h int64, t time.Time) bool {
	if x := p.p.TimeoutHeight.RevisionHeight; x != 0 && uint64(h) >= x {
		return true
	}
	return p.p.TimeoutTimestamp != 0 && uint64(t.UnixNano()) >= p.p.TimeoutTimestamp
}

func (s *ibcSim) one(r *Rng, op int) *Tx {
	rg := s.rg
	u := pick(r, rg.users)
	switch n := r.N(100); {
	case n < 38:
		return s.send(r, op, u)
	case n < 82:
		var msgs []sdk.Msg
		x := &iTx{}
		for k := pick(r, []int{1, 1, 1, 2, 3}); k > 0; k-- {
			if m, a := s.work(r, u); m != nil {
				msgs = append(msgs, m)
				x.acts = append(x.acts, a)
			}
		}
		if len(msgs) == 0 {
			return s.send(r, op, u)
		}
		gas := uint64(40_000_000 * len(msgs))
		kind := x.acts[0].kind
		if len(msgs) > 1 {
			kind = "batch"
		} else if r.P(1, 5) {
			gas = uint64(pick(r, []int{r.In(90_000, 400_000), r.In(200_000, 1_500_000), r.In(300_000, 6_000_000)}))
			x.low = true
			kind += "-low"
		}
		t := rg.cosmos(kind, u, gas, msgs...)
		t.meta = x
		return t
	case n < 88:
		x := pick(r, append(append([]common.Address(nil), rg.con...), s.rec...))
		on := r.P(1, 2)
		t := rg.cosmos("acl", rg.admin, 3_000_000, adminMsgs(rg.admin, &hookstypes.MsgUpdateACL{Authority: opAuthority(), Address: bech(x), Allowed: on}))
		t.meta = &iTx{acts: []*iAct{{kind: "acl", to: x, on: on}}}
		return t
	default:
		if s.nft {
			return s.nftOp(r, op, u)
		}
		a := pick(r, s.list())
		to := pick(r, s.people()[:len(rg.users)+1+len(rg.con)])
		if to == u.eth || s.get(a, u.eth).Sign() == 0 || a.base == feeDenom && a.hops == "" {
			return nil
		}
		amt := new(big.Int).Add(bi(1), new(big.Int).Div(s.get(a, u.eth), bi(int64(r.In(2, 9)))))
		if amt.Cmp(s.get(a, u.eth)) > 0 {
			amt = bi(1)
		}
		t := rg.cosmos("pay", u, 3_000_000, banktypes.NewMsgSend(u.acc, to.Bytes(), sdk.NewCoins(sdk.NewCoin(a.local(), math.NewIntFromBigInt(amt)))))
		t.meta = &iTx{acts: []*iAct{{kind: "pay", a: a, from: u.eth, to: to, amt: amt}}}
		return t
	}
}

func (s *ibcSim) nftOp(r *Rng, op int, u *Acct) *Tx {
	rg := s.rg
	k := r.N(len(s.nfts))
	cls := asset{"", "evm/" + s.nfts[k].Hex()[2:]}
	n := int64(op*10 + 1)
	switch x := r.N(20); {
	case x < 6:
		owner := s.minter[k]
		if r.P(1, 12) {
			owner = u
		}
		if r.P(1, 6) && s.lastID[cls] != 0 {
			n = s.lastID[cls] // perhaps a second time
		}
		id := fmt.Sprint(n)
		to := pick(r, append(s.people()[:len(rg.users)], s.rec...))
		t := rg.cosmos("mint", owner, 3_000_000, msgCall(owner, s.nfts[k], pack(abiNFT, "mint0", to, big.NewInt(n), s.uriOf(cls, id)), nil))
		t.meta = &iTx{acts: []*iAct{{kind: "mint", a: cls, from: owner.eth, to: to, id: id}}}
		return t
	case x < 14:
		// by the owner
	default:
		// by whoever: an approved party or a stranger
		var all []*Acct
		for _, v := range rg.users {
			if _, _, ok := s.anyNFT(r.Fork("owner"), v.eth); ok {
				all = append(all, v)
			}
		}
		if len(all) == 0 {
			return nil
		}
		v := pick(r, all)
		a, id, _ := s.anyNFT(r, v.eth)
		if r.P(1, 2) {
			// somebody who may
			for _, y := range rg.users {
				if y.eth == s.appr[a][id] {
					u = y
				}
			}
		}
		return s.moveNFT(r, u, a, id, v.eth)
	}
	a, id, ok := s.anyNFT(r, u.eth)
	if !ok {
		return nil
	}
	return s.moveNFT(r, u, a, id, u.eth)
}

// moveNFT transfers, approves or burns a token of owner as u.
func (s *ibcSim) moveNFT(r *Rng, u *Acct, a asset, id string, owner common.Address) *Tx {
	tok, ok := s.tokenOf(a)
	if !ok {
		return nil
	}
	act := &iAct{kind: "give", a: a, from: u.eth, owner: owner, to: pick(r, s.rg.users).eth, id: id}
	num := s.nftNum(a, id)
	var in []byte
	switch r.N(8) {
	case 0:
		act.kind, act.to = "burn", common.Address{}
		in = pack(abiNFT, "burn", num)
	case 1, 2:
		act.kind = "approve"
		in = pack(abiNFT, "approve", act.to, num)
	default:
		in = pack(abiNFT, "transferFrom", owner, act.to, num)
	}
	t := s.rg.cosmos(act.kind, u, 3_000_000, msgCall(u, tok, in, nil))
	t.meta = &iTx{acts: []*iAct{act}}
	return t
}

// uriOf is the URI a token is made with.
func (s *ibcSim) uriOf(a asset, id string) string { return "uri-" + a.base[4:8] + "-" + id }

// anyNFT picks a token the account holds.
func (s *ibcSim) anyNFT(r *Rng, x common.Address) (asset, string, bool) {
	type tk struct {
		a  asset
		id string
	}
	var all []tk
	for _, a := range s.list() {
		var ids []string
		for id, o := range s.own[a] {
			if o == x {
				ids = append(ids, id)
			}
		}
		sort.Strings(ids)
		for _, id := range ids {
			all = append(all, tk{a, id})
		}
	}
	if len(all) == 0 {
		return asset{}, "", false
	}
	k := pick(r, all)
	return k.a, k.id, true
}

func (s *ibcSim) send(r *Rng, op int, u *Acct) *Tx {
	rg := s.rg
	var src *iChan
	for src == nil || (src.port == "nft-transfer") != s.nft {
		src = pick(r, s.chans)
	}
	p := &iPkt{op: op, src: src, nft: s.nft, sender: u.eth}
	// a contract as the sender
	var con common.Address
	by := u.eth
	if r.P(1, 5) && !s.nft {
		con = pick(r, rg.con)
		by = con
	}
	p.sender = by
	if s.nft {
		a, id, ok := s.anyNFT(r, by)
		for k := 0; ok && a.hops == "" && k < 2; k++ {
			a, id, ok = s.anyNFT(r, by) // favour what has travelled
		}
		if !ok {
			return nil
		}
		p.a, p.ids = a, []string{id}
		var more []string
		for x, o := range s.own[a] {
			if o == by && x != id {
				more = append(more, x)
			}
		}
		sort.Strings(more)
		if len(more) > 0 && r.P(1, 2) {
			p.ids = append(p.ids, pick(r, more))
		}
		if p.a.hops != "" && r.P(1, 2) {
			for _, c := range s.chans {
				if p.a.from(c) {
					src, p.src = c, c
				}
			}
		}
		if r.P(1, 15) {
			p.ids = append(p.ids, p.ids[0])
		}
		if r.P(1, 15) {
			p.ids = append(p.ids, "424242")
		}
	} else {
		var have []asset
		for _, a := range s.list() {
			if s.get(a, by).Sign() > 0 {
				have = append(have, a)
				if a.hops != "" {
					have = append(have, a)
				}
			}
		}
		p.a = pick(r, have)
		// favour the way back
		if p.a.hops != "" && r.P(1, 2) {
			for _, c := range s.chans {
				if p.a.from(c) {
					src, p.src = c, c
				}
			}
		}
		if b := s.get(p.a, by); p.a.full() == feeDenom {
			p.amt = bi(int64(r.In(1, 1_000_000)))
		} else {
			p.amt = new(big.Int).Add(bi(1), new(big.Int).Div(b, bi(int64(r.In(2, 12)))))
			switch r.N(12) {
			case 0:
				p.amt = new(big.Int).Set(b)
			case 1:
				p.amt = new(big.Int).Add(b, bi(1))
			}
		}
	}
	if strings.Count(p.a.hops, "/") > 4 && !p.a.from(src) {
		return nil // keep paths short
	}
	to := pick(r, s.people()[:len(rg.users)+1+len(rg.con)])
	switch r.N(12) {
	case 0:
		p.receiver = to.Hex()
	case 1:
		p.receiver = pick(r, []string{"nobody", "init1qqqqqq", strings.Repeat("z", 60)})
	case 2:
		p.receiver = authtypes.NewModuleAddress(pick(r, []string{"fee_collector", "transfer", "opchild"})).String()
	case 3:
		p.receiver = bech(pick(r, s.rec))
	case 4:
		p.receiver = bech(common.BytesToAddress(r.Bytes(20)))
	default:
		p.receiver = bech(to)
	}
	memo := s.memoFor(r, p, src)
	h := rg.c.height() + 1
	th, ts := clienttypes.ZeroHeight(), uint64(0)
	switch r.N(6) {
	case 0:
		th = clienttypes.NewHeight(1, uint64(h)+uint64(r.N(5)))
	case 1:
		th = clienttypes.NewHeight(1, uint64(h)+uint64(r.In(4, 12)))
	case 2:
		ts = uint64(rg.c.clock.Add(time.Duration(r.N(12000)) * time.Millisecond).UnixNano())
	case 3:
		ts = uint64(rg.c.clock.Add(time.Duration(r.In(5, 60)) * time.Second).UnixNano())
	case 4:
		th = clienttypes.NewHeight(1, uint64(h)+uint64(r.In(2, 30)))
		ts = uint64(rg.c.clock.Add(time.Duration(r.In(5, 60)) * time.Second).UnixNano())
	default:
		ts = uint64(rg.c.clock.Add(time.Hour).UnixNano())
	}
	p.p = channeltypes.Packet{SourcePort: src.port, SourceChannel: src.id, DestinationPort: src.peer.port, DestinationChannel: src.peer.id, TimeoutHeight: th, TimeoutTimestamp: ts}
	var m sdk.Msg
	sender := u.bech
	if con != (common.Address{}) {
		sender = bech(con)
	}
	if s.nft {
		m = nfttypes.NewMsgTransfer(src.port, src.id, p.a.local(), p.ids, sender, p.receiver, th, ts, memo)
	} else {
		m = transfertypes.NewMsgTransfer(src.port, src.id, sdk.NewCoin(p.a.local(), math.NewIntFromBigInt(p.amt)), sender, p.receiver, th, ts, memo)
		p.p.Data = transfertypes.NewFungibleTokenPacketData(p.a.full(), p.amt.String(), sender, p.receiver, memo).GetBytes()
	}
	act := &iAct{kind: "send", p: p}
	if con != (common.Address{}) {
		j, err := rg.n0().app.AppCodec().MarshalInterfaceJSON(m)
		if err != nil {
			s.w.abort("json: %v", err)
		}
		sc := script{}.call(sCALL, cosmosAddr, 0, 0, fReq, 30, pack(abiCosmos, "execute_cosmos", string(j)))
		if r.P(1, 6) {
			act.after = true
			sc = script{}.call(sCALL, con, 0, 0, 0, 0, append(sc, script{}.u8(sREVERT).u16(1)...))
		}
		t := rg.cosmos("send-con", u, 8_000_000, msgCall(u, con, sc, nil))
		t.meta = &iTx{acts: []*iAct{act}}
		return t
	}
	t := rg.cosmos("send", u, 5_000_000, m)
	t.meta = &iTx{acts: []*iAct{act}}
	return t
}

// relay makes the honest message of a kind.
func (s *ibcSim) relay(kind string, p *iPkt, u *Acct) (sdk.Msg, *iAct) {
	a := &iAct{kind: kind, p: p, ack: p.ack}
	switch kind {
	case "recv":
		return channeltypes.NewMsgRecvPacket(p.p, loopProof, s.ph(), u.bech), a
	case "ack":
		return channeltypes.NewMsgAcknowledgement(p.p, p.ack, loopProof, s.ph(), u.bech), a
	}
	return channeltypes.NewMsgTimeout(p.p, 1, loopProof, s.ph(), u.bech), a
}

// work picks something for the relayer: mostly what is due, sometimes what is not, or what is false.
func (s *ibcSim) work(r *Rng, u *Acct) (sdk.Msg, *iAct) {
	if len(s.pkts) == 0 {
		return nil, nil
	}
	var open []*iPkt
	for _, p := range s.pkts {
		if !p.done {
			open = append(open, p)
		}
	}
	p := pick(r, s.pkts)
	if len(open) > 0 && r.P(5, 6) {
		p = pick(r, open)
	}
	kind := "recv"
	if p.recvd {
		kind = "ack"
	} else if s.elapsedNext(p) {
		kind = "timeout"
	}
	if r.P(1, 8) {
		kind = pick(r, []string{"recv", "ack", "timeout"})
	}
	if kind == "ack" && p.ack == nil {
		kind = "recv"
	}
	if !r.P(1, 7) {
		return s.relay(kind, p, u)
	}
	// a forgery
	f := *p
	orig := p
	s.w.fault("forged_relay")
	f.p.Data = append([]byte(nil), p.p.Data...)
	ack := p.ack
	switch r.N(7) {
	case 0:
		f.p.Data = bytes.Replace(f.p.Data, []byte(bech(p.sender)), []byte(u.bech), 1)
		if bytes.Equal(f.p.Data, p.p.Data) {
			return nil, nil
		}
	case 1:
		f.p.Sequence += uint64(1 + r.N(3))
	case 2:
		f.p.TimeoutTimestamp += 1
	case 3:
		d := map[string]any{}
		json.Unmarshal(f.p.Data, &d)
		d["receiver"] = u.bech
		d["memo"] = ""
		bz, _ := json.Marshal(d)
		if bz = sdk.MustSortJSON(bz); bytes.Equal(bz, f.p.Data) {
			return nil, nil
		}
		f.p.Data = bz
	case 4:
		f.p.SourceChannel, f.p.DestinationChannel = f.p.DestinationChannel, f.p.SourceChannel
	case 5:
		for _, c := range s.chans {
			if c.port == p.src.port && c.id != p.p.DestinationChannel && c.id != p.p.SourceChannel {
				f.p.DestinationChannel = c.id
			}
		}
	default:
		kind = "ack"
		ack = pick(r, [][]byte{[]byte(`{"result":"AQ=="}`), []byte(`{"error":"x"}`)})
		if bytes.Equal(ack, p.ack) {
			return nil, nil
		}
	}
	f.ack = ack
	m, a := s.relay(kind, &f, u)
	if kind == "ack" && ack == nil {
		return nil, nil
	}
	a.kind, a.as, a.p, a.orig = "forge", kind, &f, orig
	return m, a
}

// ---- the model's side of a block

type ackEv struct {
	ack []byte
}

func (s *ibcSim) events(res *abci.ExecTxResult, kind string) []map[string]string {
	var out []map[string]string
	for _, e := range res.Events {
		if e.Type != kind {
			continue
		}
		m := map[string]string{}
		for _, a := range e.Attributes {
			m[a.Key] = a.Value
		}
		out = append(out, m)
	}
	return out
}

func (s *ibcSim) check(txs []*Tx, res *abci.ResponseFinalizeBlock) {
	w := s.w
	h := s.rg.c.height()
	blk := s.rg.c.block(h)
	stake := asset{"", feeDenom}
	broken := map[common.Address]bool{}
	s.bumped = broken
	for i, t := range txs {
		r := res.TxResults[i]
		x := t.meta.(*iTx)
		if w.verbose {
			fmt.Printf("  %s low=%v code=%d gas=%d/%d %.120q\n", t, x.low, r.Code, r.GasUsed, t.gas, r.Log)
			for _, a := range x.acts {
				fmt.Printf("     %s\n", s.describe(a))
				if a.kind == "send" {
					fmt.Printf("       hook %+v cb %+v receiver %s\n", a.p.hook, a.p.cb, a.p.receiver)
				}
			}
		}
		if len(s.events(r, "tx")) == 0 {
			// stopped before it ran: no fee, and the sender's later ones are out of sequence
			if !x.low && !broken[t.from.eth] {
				w.violate("op-failed", "block %d tx %d (op %d, %s) was not admitted: %s", h, i, t.op, t.kind, r.Log)
				return
			}
			broken[t.from.eth] = true
			w.count("not_admitted")
			continue
		}
		s.add(stake, t.from.eth, neg(t.fee.BigInt()))
		where := fmt.Sprintf("block %d tx %d (op %d, %s)", h, i, t.op, t.kind)
		must := !x.low
		for k, a := range x.acts {
			if k == 0 && len(x.acts) == 1 && a.kind == "send" && a.after {
				if r.Code != 0 {
					w.violate("op-failed", "%s: %s", where, r.Log)
					return
				}
				if len(s.events(r, "send_packet")) > 0 {
					w.violate("undone-send", "%s: a send the contract undid left a packet event", where)
					return
				}
				must = false
				continue
			}
			if a.as == "ack" && bytes.Equal(a.ack, a.orig.ack) && bytes.Equal(channeltypes.CommitPacket(s.rg.n0().app.AppCodec(), a.p.p), channeltypes.CommitPacket(s.rg.n0().app.AppCodec(), a.orig.p)) && a.p.p.Sequence == a.orig.p.Sequence && a.p.p.DestinationChannel == a.orig.p.DestinationChannel && a.p.p.SourceChannel == a.orig.p.SourceChannel {
				// what was made up has come true
				a.kind, a.p = "ack", a.orig
			}
			legal := s.legal(a, h, blk.T)
			if !legal {
				must = false
			}
			if r.Code != 0 {
				// later messages are judged on the state without the earlier
				continue
			}
			if !legal {
				if a.kind == "recv" || a.kind == "ack" || a.kind == "timeout" || a.kind == "forge" {
					w.count("without_effect." + a.kind)
					continue
				}
				w.violate("illegal-op", "%s: %s succeeded, it should not have (balance %s)", where, s.describe(a), s.get(s.actAsset(a), a.from))
				return
			}
			if !s.effect(where, r, a, h, x.low) {
				return
			}
		}
		if r.Code != 0 && must && len(x.acts) == 1 {
			w.violate("op-failed", "%s: %s should have succeeded: %s", where, s.describe(x.acts[0]), r.Log)
			return
		}
		if r.Code != 0 && must && len(x.acts) > 1 && s.independent(x) {
			w.violate("op-failed", "%s: a batch of relays that are all due failed: %s", where, r.Log)
			return
		}
	}
	s.compare(h)
}

func (s *ibcSim) independent(x *iTx) bool {
	seen := map[*iPkt]bool{}
	for _, a := range x.acts {
		if seen[a.p] {
			return false
		}
		seen[a.p] = true
		if s.nft && a.kind == "recv" && (a.p.hook == nil || a.p.hook.loose) {
			// a script that is handed an NFT may burn all the gas there is
			for _, c := range s.rg.con {
				if bz, err := s.rg.n0().app.AccountKeeper.AddressCodec().StringToBytes(a.p.receiver); err == nil && bytes.Equal(bz, c.Bytes()) {
					return false
				}
			}
		}
	}
	return true
}

func (s *ibcSim) actAsset(a *iAct) asset {
	if a.p != nil {
		return a.p.a
	}
	return a.a
}

func (s *ibcSim) describe(a *iAct) string {
	if a.kind == "send" {
		return fmt.Sprintf("send of %s/%v of %s by %s over %s", a.p.amt, a.p.ids, a.p.a.full(), a.p.sender, a.p.src.prefix())
	}
	if a.p != nil {
		return a.kind + " of " + a.p.String()
	}
	return fmt.Sprintf("%s %s %s %s -> %s", a.kind, a.a.full(), a.amt, a.from, a.to)
}

// legal says whether the message must have its effect now.
func (s *ibcSim) legal(a *iAct, h int64, t time.Time) bool {
	p := a.p
	switch a.kind {
	case "acl":
		return true
	case "mint":
		for k, x := range s.nfts {
			if a.a.base == "evm/"+x.Hex()[2:] && s.minter[k].eth != a.from {
				return false
			}
		}
		return s.own[a.a][a.id] == common.Address{}
	case "burn", "give":
		o := s.own[a.a][a.id]
		if a.kind == "give" && o != a.owner || o == (common.Address{}) {
			return false
		}
		return a.from == o || s.appr[a.a][a.id] == a.from
	case "approve":
		return s.own[a.a][a.id] == a.from
	case "pay":
		return s.get(a.a, a.from).Cmp(a.amt) >= 0
	case "send":
		if s.elapsed(p, h, t) {
			return false
		}
		if s.nft {
			seen := map[string]bool{}
			for _, id := range p.ids {
				if s.own[p.a][id] != p.sender || seen[id] {
					return false
				}
				seen[id] = true
			}
			return true
		}
		return s.get(p.a, p.sender).Cmp(p.amt) >= 0
	case "recv":
		return !p.recvd && !p.done && !s.elapsed(p, h, t)
	case "ack":
		return p.recvd && !p.done
	case "timeout":
		return !p.recvd && !p.done && s.elapsed(p, h, t)
	}
	return false
}

func (s *ibcSim) move(a asset, amt *big.Int, ids []string, from, to *common.Address) {
	if s.nft {
		for _, id := range ids {
			if s.own[a] == nil {
				s.own[a] = map[string]common.Address{}
			}
			s.own[a][id] = common.Address{}
			delete(s.appr[a], id)
			if to != nil {
				s.own[a][id] = *to
			}
		}
		return
	}
	if from != nil {
		s.add(a, *from, neg(amt))
	}
	if to != nil {
		s.add(a, *to, amt)
	}
}

func (s *ibcSim) effect(where string, r *abci.ExecTxResult, a *iAct, h int64, low bool) bool {
	w, p := s.w, a.p
	switch a.kind {
	case "acl":
		s.acl[a.to] = a.on
	case "pay":
		s.move(a.a, a.amt, nil, &a.from, &a.to)
	case "give":
		s.move(a.a, nil, []string{a.id}, nil, &a.to)
	case "mint":
		s.move(a.a, nil, []string{a.id}, nil, &a.to)
		if n, err := strconv.ParseInt(a.id, 10, 64); err == nil {
			s.lastID[a.a] = n
		}
	case "burn":
		s.move(a.a, nil, []string{a.id}, nil, nil)
	case "approve":
		if s.appr[a.a] == nil {
			s.appr[a.a] = map[string]common.Address{}
		}
		s.appr[a.a][a.id] = a.to
	case "send":
		p.p.Sequence = p.src.next
		p.src.next++
		p.sentAt = h
		var ev map[string]string
		for _, e := range s.events(r, "send_packet") {
			if e["packet_src_channel"] == p.src.id && e["packet_sequence"] == fmt.Sprint(p.p.Sequence) {
				ev = e
			}
		}
		if ev == nil {
			w.violate("no-packet", "%s: a send succeeded without announcing its packet %d", where, p.p.Sequence)
			return false
		}
		data, _ := hex.DecodeString(ev["packet_data_hex"])
		if s.nft {
			var d nfttypes.NonFungibleTokenPacketData
			if err := json.Unmarshal(data, &d); err != nil || d.ClassId != p.a.full() || strings.Join(d.TokenIds, ",") != strings.Join(p.ids, ",") || d.Sender != bech(p.sender) || d.Receiver != p.receiver {
				w.violate("packet-data", "%s: the packet says %s", where, data)
				return false
			}
			for i, id := range p.ids {
				if d.TokenUris[i] != s.uriOf(p.a, id) {
					w.violate("packet-data", "%s: the packet gives %q as the URI of token %s", where, d.TokenUris[i], id)
					return false
				}
			}
			p.p.Data = data
		} else if !bytes.Equal(data, p.p.Data) {
			w.violate("packet-data", "%s: the packet says %s, it should say %s", where, data, p.p.Data)
			return false
		}
		if p.a.from(p.src) {
			s.move(p.a, p.amt, p.ids, &p.sender, nil)
		} else {
			s.move(p.a, p.amt, p.ids, &p.sender, &p.src.esc)
		}
		s.pkts = append(s.pkts, p)
		w.reach("sent." + p.a.kindOf(p.src))
	case "recv":
		var ev map[string]string
		for _, e := range s.events(r, "write_acknowledgement") {
			if e["packet_dst_channel"] == p.src.peer.id && e["packet_sequence"] == fmt.Sprint(p.p.Sequence) {
				ev = e
			}
		}
		if ev == nil {
			w.violate("not-received", "%s: %s is due and was not received: %s", where, p, r.Log)
			return false
		}
		p.ack, _ = hex.DecodeString(ev["packet_ack_hex"])
		p.recvd = true
		var ok bool
		if p.ackOK, ok = readAck(p.ack); !ok {
			w.violate("acknowledgement", "%s: %s is acknowledged with %s", where, p, p.ack)
			return false
		}
		if low && !p.ackOK {
			// little gas may end the delivery in a refusal; that has no effect
			w.count("received.refused_low")
			break
		}
		want, why := s.receive(p, p.ackOK)
		if want != p.ackOK {
			w.violate("outcome", "%s: %s is acknowledged with %s, it should be %s (%s); memo of it: %+v", where, p, p.ack, map[bool]string{true: "accepted", false: "refused"}[want], why, p.hook)
			return false
		}
		w.reach(fmt.Sprintf("recv.%v.%s", want, why))
		w.count("received." + why)
	case "ack":
		p.done = true
		if !p.ackOK {
			s.refund(p)
		}
		s.callback(p, "ack", r)
		w.count(fmt.Sprintf("acknowledged.%v", p.ackOK))
	case "timeout":
		p.done = true
		s.refund(p)
		s.callback(p, "timeout", r)
		w.count("timed_out")
	}
	return true
}

func (a asset) kindOf(c *iChan) string {
	n := "home"
	if a.hops != "" {
		n = fmt.Sprintf("hop%d", (strings.Count(a.hops, "/")+1)/2)
	}
	if a.from(c) {
		n += "-back"
	}
	return n
}

// readAck says what an acknowledgement means.
func readAck(bz []byte) (success, ok bool) {
	var x struct {
		Result *string `json:"result"`
		Error  *string `json:"error"`
		App    []byte  `json:"app_acknowledgement"`
		Under  *bool   `json:"underlying_app_success"`
	}
	if json.Unmarshal(bz, &x) != nil {
		return false, false
	}
	if x.Under != nil || x.App != nil {
		in, k := readAck(x.App)
		return in, k && in == (x.Under != nil && *x.Under)
	}
	return x.Result != nil, (x.Result != nil) != (x.Error != nil)
}

func (s *ibcSim) refund(p *iPkt) {
	if p.a.from(p.src) {
		s.move(p.a, p.amt, p.ids, nil, &p.sender)
	} else {
		s.move(p.a, p.amt, p.ids, &p.src.esc, &p.sender)
	}
}

func (s *ibcSim) callback(p *iPkt, kind string, r *abci.ExecTxResult) {
	c := p.cb
	if c == nil {
		return
	}
	switch {
	case c.bad, !s.acl[c.to]:
		s.w.count("callback.not_allowed")
		return
	case c.id&7 == 7:
		s.w.count("callback.failing")
		return
	case r.GasUsed >= r.GasWanted:
		// it took the last of the relayer's gas; the packet is settled without it
		s.w.count("callback.starved")
		return
	}
	in := pack(abiCallback, "ibc_timeout", c.id)
	if kind == "ack" {
		in = pack(abiCallback, "ibc_ack", c.id, p.ackOK)
	}
	s.used(c.to, in, p.sender)
	s.bumped[p.sender] = true
	s.w.count("callback." + kind)
}

func (s *ibcSim) used(to common.Address, in []byte, by common.Address) {
	s.cb[crypto.Keccak256Hash(to.Bytes(), crypto.Keccak256(in, common.LeftPadBytes(by.Bytes(), 32)))]++
	s.cbN[to]++
	s.memo[string(to.Bytes())+string(crypto.Keccak256(in, common.LeftPadBytes(by.Bytes(), 32)))] = true
}

// receive works out what happens to a packet at its destination, and does it to the model.
func (s *ibcSim) receive(p *iPkt, got bool) (bool, string) {
	dst := p.src.peer
	b := p.a.onto(dst)
	var from *common.Address
	if p.a.from(p.src) {
		b = p.a.back(p.src)
		from = &dst.esc
	}
	app := s.rg.n0().app
	h := p.hook
	if h == nil || h.loose {
		var to common.Address
		if s.nft {
			bz, err := app.AccountKeeper.AddressCodec().StringToBytes(p.receiver)
			if err != nil {
				return false, "bad-receiver"
			}
			to = common.BytesToAddress(bz)
			for _, c := range s.rg.con {
				if c == to {
					return false, "no-receiver-code"
				}
			}
		} else {
			bz, err := sdk.AccAddressFromBech32(p.receiver)
			if err != nil {
				return false, "bad-receiver"
			}
			if app.BankKeeper.BlockedAddr(bz) {
				return false, "blocked-receiver"
			}
			to = common.BytesToAddress(bz)
		}
		if h != nil && !got {
			return false, "malformed"
		}
		s.move(b, p.amt, p.ids, from, &to)
		return true, "plain"
	}
	switch {
	case h.bad:
		return false, "hook-bad-address"
	case !s.acl[h.to]:
		return false, "hook-not-allowed"
	case p.receiver != h.text:
		return false, "hook-other-receiver"
	case h.fail:
		return false, "hook-reverted"
	case h.pull != nil && h.pull.Cmp(p.amt) > 0:
		return false, "hook-over-allowance"
	}
	inter := s.inter(dst, p.sender)
	stake := asset{"", feeDenom}
	have := s.get(stake, inter)
	if !s.nft && b == stake {
		have = new(big.Int).Add(have, p.amt)
	}
	if have.Cmp(bi(h.value)) < 0 {
		return false, "hook-value"
	}
	if h.pull != nil && b == stake && new(big.Int).Sub(have, bi(h.value)).Cmp(h.pull) < 0 {
		return false, "hook-value"
	}
	s.move(b, p.amt, p.ids, from, &inter)
	s.add(stake, inter, bi(-h.value))
	s.add(stake, h.to, bi(h.value))
	if h.pull != nil {
		s.move(b, h.pull, nil, &inter, &h.to)
	}
	s.move(b, bi(0), h.nfts, nil, &h.to)
	if h.slot == 0 {
		s.used(h.to, append([]byte{9, 9, 9, 9}, make([]byte, 32)...), inter)
		return true, "hook-recorder"
	}
	if s.slots[h.to] == nil {
		s.slots[h.to] = map[byte]int{}
	}
	s.slots[h.to][h.slot]++
	switch {
	case h.pull != nil, len(h.nfts) > 0:
		return true, "hook-pull"
	case h.value > 0:
		return true, "hook-value"
	}
	return true, "hook"
}

// compare holds the model against the committed state.
func (s *ibcSim) compare(h int64) {
	w, n := s.w, s.rg.n0()
	ctx := n.committedCtx()
	q := &evmQ{n, ctx}
	app := n.app
	var as []asset
	for a := range s.bal {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].full() < as[j].full() })
	for _, a := range as {
		var who []common.Address
		for x := range s.bal[a] {
			who = append(who, x)
		}
		sort.Slice(who, func(i, j int) bool { return bytes.Compare(who[i][:], who[j][:]) < 0 })
		sum, esc := new(big.Int), new(big.Int)
		for _, x := range who {
			want := s.bal[a][x]
			sum.Add(sum, want)
			for _, c := range s.chans {
				if c.esc == x {
					esc.Add(esc, want)
				}
			}
			if got := q.balance(x, a.local()); got.Cmp(want) != 0 {
				w.violate("balance", "block %d: %s holds %s of %s, it should hold %s", h, x, got, a.full(), want)
				return
			}
		}
		w.countN("balances_checked", len(who))
		if a.hops != "" {
			if got := app.BankKeeper.GetSupply(ctx, a.local()).Amount.BigInt(); got.Cmp(sum) != 0 {
				w.violate("supply", "block %d: %s of %s exist, %s should", h, got, a.full(), sum)
				return
			}
		}
		if !s.nft {
			if got := app.TransferKeeper.GetTotalEscrowForDenom(ctx, a.local()).Amount.BigInt(); got.Cmp(esc) != 0 {
				w.violate("escrow", "block %d: the escrow of %s is recorded as %s, it is %s", h, a.full(), got, esc)
				return
			}
		}
	}
	var cs []asset
	for a := range s.own {
		cs = append(cs, a)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].full() < cs[j].full() })
	toks := map[common.Address]asset{}
	for _, a := range cs {
		tok, ok := s.tokenOf(a)
		if !ok {
			w.violate("no-class", "block %d: class %s does not exist", h, a.full())
			return
		}
		if a.hops != "" {
			if id, err := app.EVMKeeper.GetClassIdByContractAddr(ctx, tok); err != nil || id != a.local() {
				w.violate("class-link", "block %d: the contract of class %s is the contract of %q (%v)", h, a.full(), id, err)
				return
			}
			if tr, err := app.NftTransferKeeper.ClassTraces.Get(ctx, sha256Of(a.full())); err != nil || tr.GetFullClassIdPath() != a.full() {
				w.violate("class-link", "block %d: class %s is traced to %s (%v)", h, a.local(), tr.GetFullClassIdPath(), err)
				return
			}
			if name, uri, _, err := app.EVMKeeper.ERC721Keeper().GetClassInfo(ctx, a.local()); err != nil || name != a.local() || uri != "" {
				w.violate("class-link", "block %d: class %s is called %q with URI %q (%v)", h, a.full(), name, uri, err)
				return
			}
		}
		if x, dup := toks[tok]; dup {
			w.violate("class-link", "block %d: classes %s and %s have one contract", h, a.full(), x.full())
			return
		}
		toks[tok] = a
		held := map[common.Address]int64{}
		var ids []string
		for id := range s.own[a] {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			want := s.own[a][id]
			bz, e := q.view(s.rg.users[0].eth, tok, pack(abiNFT, "ownerOf", s.nftNum(a, id)))
			got := common.Address{}
			if e == "" {
				got = common.BytesToAddress(bz)
			}
			if got != want {
				w.violate("owner", "block %d: token %s of %s belongs to %s, it should belong to %s", h, id, a.full(), got, want)
				return
			}
			w.count("owners_checked")
			if want == (common.Address{}) {
				continue
			}
			held[want]++
			for _, f := range []string{"tokenURI", "tokenOriginId"} {
				should := s.uriOf(a, id)
				if f == "tokenOriginId" {
					if should = id; a.hops == "" {
						continue
					}
				}
				bz, _ := q.view(s.rg.users[0].eth, tok, pack(abiNFT, f, s.nftNum(a, id)))
				out, err := abiNFT.Unpack(f, bz)
				if err != nil || out[0] != should {
					w.violate("token-info", "block %d: %s of token %s of %s is %v (%v), it should be %q", h, f, id, a.full(), out, err, should)
					return
				}
			}
		}
		var hs []common.Address
		for x := range held {
			hs = append(hs, x)
		}
		sort.Slice(hs, func(i, j int) bool { return bytes.Compare(hs[i][:], hs[j][:]) < 0 })
		for _, x := range hs {
			bz, e := q.view(s.rg.users[0].eth, tok, pack(abiNFT, "balanceOf", x))
			if got := new(big.Int).SetBytes(bz); e != "" || got.Cmp(bi(held[x])) != 0 {
				w.violate("owner-count", "block %d: %s holds %v tokens of %s (%v), it should hold %d", h, x, got, a.full(), e, held[x])
				return
			}
		}
	}
	ck := app.IBCKeeper.ChannelKeeper
	for _, p := range s.pkts {
		c := ck.GetPacketCommitment(ctx, p.src.port, p.src.id, p.p.Sequence)
		if p.done != (len(c) == 0) {
			w.violate("commitment", "block %d: %s: settled %v, commitment %x", h, p, p.done, c)
			return
		}
		if !p.done && !bytes.Equal(c, channeltypes.CommitPacket(app.AppCodec(), p.p)) {
			w.violate("commitment", "block %d: the commitment of %s is of something else", h, p)
			return
		}
		if _, ok := ck.GetPacketReceipt(ctx, p.src.peer.port, p.src.peer.id, p.p.Sequence); ok != p.recvd {
			w.violate("receipt", "block %d: %s: received %v, receipt %v", h, p, p.recvd, ok)
			return
		}
	}
	for _, c := range s.chans {
		if n, _ := ck.GetNextSequenceSend(ctx, c.port, c.id); n != c.next {
			w.violate("sequence", "block %d: the next packet of %s/%s is %d, it should be %d", h, c.port, c.id, n, c.next)
			return
		}
	}
	for _, x := range s.rec {
		if got := q.slot(x, common.Hash{}).Big().Int64(); got != int64(s.cbN[x]) {
			w.violate("callbacks", "block %d: contract %s was called %d times, it should have been %d times", h, x, got, s.cbN[x])
			return
		}
	}
	var keys []string
	for k := range s.memo {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		to, key := common.BytesToAddress([]byte(k[:20])), common.BytesToHash([]byte(k[20:]))
		want := s.cb[crypto.Keccak256Hash(to.Bytes(), key.Bytes())]
		if got := q.slot(to, key).Big().Int64(); got != int64(want) {
			w.violate("callbacks", "block %d: a callback of %s came %d times, it should have come %d times", h, to, got, want)
			return
		}
	}
	for _, x := range s.rg.con {
		for k := byte(1); k <= 8; k++ {
			if got := q.slot(x, common.BytesToHash([]byte{k})).Big().Int64(); got != int64(s.slots[x][k]) {
				w.violate("hook-calls", "block %d: counter %d of contract %s is at %d, it should be at %d", h, k, x, got, s.slots[x][k])
				return
			}
		}
	}
}
