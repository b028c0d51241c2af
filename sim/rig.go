package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"math/big"
	"os"

	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/ethereum/go-ethereum/common"
	coretypes "github.com/ethereum/go-ethereum/core/types"

	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"

	minitiaapp "github.com/initia-labs/minievm/app"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

type phaseWriter struct{}

func (phaseWriter) Write(p []byte) (int, error) {
	if W != nil && W.verbose {
		os.Stderr.Write(p)
	}
	lastPhase = string(p)
	return len(p), nil
}

var lastPhase string
var phaseOut = phaseWriter{}

// Tx is a transaction of the workload.
type Tx struct {
	kind    string
	bz      []byte
	hash    [32]byte
	from    *Acct // first signer
	signers []*Acct
	seq     uint64
	eth     *coretypes.Transaction
	gas     uint64
	fee     math.Int // in feeDenom
	msgs    []sdk.Msg
	op      int
	note    string
	bad     bool // not validly signed
	meta    any
	granter sdk.AccAddress
	seqs    []uint64
	timeout uint64 // the last height it is valid at
}

func (t *Tx) String() string {
	return fmt.Sprintf("%s#%d from=%d seq=%d %s", t.kind, t.op, t.from.idx, t.seq, t.note)
}

// Rig is a chain with users and nodes.
type Rig struct {
	w        *World
	r        *Rng
	gen      *GenSpec
	c        *Chain
	users    []*Acct
	admin    *Acct
	exec     *Acct
	nodes    []*Node
	mk       *TxMaker
	con      []common.Address // script contracts
	accByA   map[string]*Acct
	gasPrice int64 // in fee units per gas
	opIdx    int
	plain    bool             // no memos: their reading costs gas
	reg      map[[32]byte]*Tx // the Ethereum transactions made, by their carrier's hash
}

type RigOpts struct {
	Users    int
	MinGas   int64
	MaxGas   int64
	MaxBytes int64
	Balance  math.Int
	Initial  int64 // first height, 1 if zero
	Mutate   func(app *minitiaapp.MinitiaApp, gs minitiaapp.GenesisState)
	EVM      func(p *evmtypes.Params)
	OP       func(p *opchildtypes.Params)
}

func newRig(w *World, o RigOpts) *Rig {
	rg := &Rig{w: w, r: NewRng(w.seed, "rig"), accByA: map[string]*Acct{}, reg: map[[32]byte]*Tx{}}
	if o.Users == 0 {
		o.Users = 6
	}
	if o.MaxGas == 0 {
		o.MaxGas = 200_000_000
	}
	if o.MaxBytes == 0 {
		o.MaxBytes = 4_000_000
	}
	if o.Balance.IsNil() {
		o.Balance = math.NewIntFromBigInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(24), nil))
	}
	for i := 0; i < o.Users; i++ {
		rg.users = append(rg.users, newAcct(i))
	}
	rg.admin, rg.exec = newAcct(100), newAcct(101)
	all := append(append([]*Acct(nil), rg.users...), rg.admin, rg.exec)
	for _, a := range all {
		rg.accByA[a.bech] = a
	}
	rg.gasPrice = 1000
	g := &GenSpec{Accts: all, Balance: o.Balance, MaxGas: o.MaxGas, MaxBytes: o.MaxBytes, Admin: rg.admin, Executor: rg.exec, Mutate: o.Mutate, EVMParams: o.EVM, OPParams: o.OP}
	if o.MinGas > 0 {
		g.MinGas = sdk.NewDecCoins(sdk.NewDecCoin(feeDenom, math.NewInt(o.MinGas)))
		rg.gasPrice = o.MinGas
	} else {
		g.MinGas = sdk.NewDecCoins()
	}
	rg.gen = g
	rg.c = newChain(w, g)
	if o.Initial > 0 {
		rg.c.initialHeight = o.Initial
	}
	return rg
}

// addNode makes and starts a node.
func (rg *Rig) addNode(cfg NodeCfg) *Node {
	n := newNode(rg.w, len(rg.nodes), rg.gen, cfg)
	rg.nodes = append(rg.nodes, n)
	if rg.c.ref == nil {
		rg.c.ref = n
	}
	if !n.start(rg.c) {
		rg.w.abort("node did not start: %s", n.inc.why)
	}
	if rg.mk == nil {
		rg.mk = &TxMaker{cfg: n.app.TxConfig(), app: n.app}
	}
	return n
}

func (rg *Rig) n0() *Node { return rg.nodes[0] }

// run executes a block with the given transactions on every node that is up.
func (rg *Rig) run(txs ...*Tx) *abci.ResponseFinalizeBlock {
	var bzs [][]byte
	for _, t := range txs {
		bzs = append(bzs, t.bz)
	}
	return rg.runRaw(bzs)
}

func (rg *Rig) runRaw(bzs [][]byte) *abci.ResponseFinalizeBlock {
	b := rg.c.next(bzs, rg.r)
	rg.c.decide(b)
	for _, n := range rg.nodes {
		if !n.inc.dead && n.up {
			n.apply(rg.c, b, false)
		}
	}
	return rg.c.res(b.H).Res
}

// boot runs the empty first block and learns account numbers.
func (rg *Rig) boot() {
	rg.run()
	rg.learn()
}

func (rg *Rig) learn() {
	ctx := rg.n0().committedCtx()
	for _, a := range rg.accByA {
		acc := rg.n0().app.AccountKeeper.GetAccount(ctx, a.acc)
		if acc != nil {
			a.num = acc.GetAccountNumber()
			a.next = acc.GetSequence()
		}
	}
}

// sync sets the client view of sequences from committed state.
func (rg *Rig) sync() {
	ctx := rg.n0().committedCtx()
	for _, a := range rg.accByA {
		a.next = seqOf(rg.n0(), ctx, a)
	}
}

func seqOf(n *Node, ctx sdk.Context, a *Acct) uint64 {
	acc := n.app.AccountKeeper.GetAccount(ctx, a.acc)
	if acc == nil {
		return 0
	}
	return acc.GetSequence()
}

func (rg *Rig) fee(gas uint64) sdk.Coins {
	return sdk.NewCoins(sdk.NewCoin(feeDenom, math.NewInt(rg.gasPrice).MulRaw(int64(gas))))
}

// cosmos makes a cosmos transaction using and advancing the client-side sequence.
func (rg *Rig) cosmos(kind string, from *Acct, gas uint64, msgs ...sdk.Msg) *Tx {
	return rg.cosmosN(kind, []*Acct{from}, gas, TxOpts{}, msgs...)
}

func (rg *Rig) cosmosN(kind string, signers []*Acct, gas uint64, o TxOpts, msgs ...sdk.Msg) *Tx {
	o.Gas = gas
	if o.Fee == nil {
		o.Fee = rg.fee(gas)
	}
	var seqs []uint64
	for _, s := range signers {
		seqs = append(seqs, s.next)
	}
	if o.Sequence != nil {
		seqs[0] = *o.Sequence
	}
	if kind != "bad" && o.Memo == "" && !rg.plain {
		// a memo of any kind must not matter
		r := NewRng(rg.w.seed, fmt.Sprintf("habit%d.%d.%d", rg.opIdx, signers[0].idx, seqs[0]))
		if r.P(1, 10) {
			o.Memo = pick(r, []string{"{}", "null", `{"type":0}`, `{"type":2,"gas_fee_cap":"1","gas_tip_cap":"1"}`, "hello", `{"evm":{}}`})
		}
	}
	bz := rg.mk.cosmosTx(signers, seqs, msgs, o)
	t := &Tx{kind: kind, bz: bz, hash: sha256.Sum256(bz), from: signers[0], signers: signers, seq: seqs[0], gas: gas, fee: o.Fee.AmountOf(feeDenom), msgs: msgs, op: rg.opIdx, granter: o.Granter, seqs: seqs, timeout: o.Timeout}
	for _, s := range signers {
		s.next++
	}
	return t
}

// ethereum makes an Ethereum-signed transaction and converts it as a node would.
func (rg *Rig) ethereum(kind string, from *Acct, x EthArgs) (*Tx, error) {
	if x.FeeCap == nil {
		x.FeeCap = big.NewInt(rg.gasPrice)
	}
	et := from.ethTx(x)
	n := rg.nodeUp()
	ctx := context.Context(n.committedCtx())
	rg.mk.app = n.app
	bz, err := rg.mk.ethToCosmos(ctx, et)
	if err != nil {
		return nil, err
	}
	dec, err := rg.mk.cfg.TxDecoder()(bz)
	if err != nil {
		return nil, err
	}
	fee := dec.(sdk.FeeTx).GetFee().AmountOf(feeDenom)
	t := &Tx{kind: kind, bz: bz, hash: sha256.Sum256(bz), from: from, signers: []*Acct{from}, seq: x.Nonce, eth: et, gas: x.Gas, fee: fee, op: rg.opIdx}
	rg.reg[t.hash] = t
	return t, nil
}

func (rg *Rig) nodeUp() *Node {
	for _, n := range rg.nodes {
		if n.up && !n.inc.dead && n.stateH > 0 {
			return n
		}
	}
	return nil
}

// eth makes an Ethereum call transaction with the next nonce.
func (rg *Rig) eth(kind string, from *Acct, to *common.Address, gas uint64, value *big.Int, data []byte) *Tx {
	x := EthArgs{Type: rg.r.N(3), Nonce: from.next, To: to, Gas: gas, Value: value, Data: data}
	if x.Type != 0 && !rg.plain && rg.r.P(1, 5) {
		for k := rg.r.In(1, 3); k > 0; k-- {
			at := coretypes.AccessTuple{Address: common.BytesToAddress(rg.r.Bytes(20)), StorageKeys: []common.Hash{}}
			for j := rg.r.N(3); j > 0; j-- {
				at.StorageKeys = append(at.StorageKeys, common.BytesToHash(rg.r.Bytes(32)))
			}
			x.AL = append(x.AL, at)
		}
	}
	t, err := rg.ethereum(kind, from, x)
	if err != nil {
		rg.w.abort("eth tx: %v", err)
	}
	from.next++
	return t
}

// deployScripts deploys n script contracts by user 0 and returns them.
func (rg *Rig) deployScripts(n int) {
	var txs []*Tx
	for i := 0; i < n; i++ {
		u := rg.users[i%len(rg.users)]
		txs = append(txs, rg.cosmos("deploy", u, 8_000_000, msgCreate(u, initFor(interpRuntime, nil), nil)))
	}
	res := rg.run(txs...)
	for i, t := range res.TxResults {
		if t.Code != 0 {
			rg.w.abort("deploy failed: %s", t.Log)
		}
		var r evmtypes.MsgCreateResponse
		msgResp(t.Data, 0, &r)
		rg.con = append(rg.con, common.HexToAddress(r.ContractAddr))
		_ = i
	}
	rg.sync()
}

type protoMsg interface {
	Unmarshal([]byte) error
}

// msgResp decodes the i-th message response of a transaction result.
func msgResp(data []byte, i int, out protoMsg) bool {
	var d sdk.TxMsgData
	if err := d.Unmarshal(data); err != nil || i >= len(d.MsgResponses) {
		return false
	}
	return out.Unmarshal(d.MsgResponses[i].Value) == nil
}

// dump copies the full multistore of the last committed state as strings.
func (n *Node) dump() map[string]string {
	return n.dumpCtx(n.committedCtx())
}

func (n *Node) dumpCtx(ctx sdk.Context) map[string]string {
	out := map[string]string{}
	for _, k := range n.app.GetKVStoreKey() {
		st := ctx.KVStore(k)
		it := st.Iterator(nil, nil)
		for ; it.Valid(); it.Next() {
			out[k.Name()+"/"+string(it.Key())] = string(it.Value())
		}
		it.Close()
	}
	return out
}

func diffDump(a, b map[string]string) []string {
	var out []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			out = append(out, fmt.Sprintf("-%q", k))
		} else if w != v {
			out = append(out, fmt.Sprintf("~%q: %x vs %x", k, trunc(v), trunc(w)))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			out = append(out, fmt.Sprintf("+%q", k))
		}
	}
	return sorted(out)
}

func trunc(s string) string {
	if len(s) > 80 {
		return s[:80]
	}
	return s
}

func eqBytes(a, b []byte) bool { return bytes.Equal(a, b) }
