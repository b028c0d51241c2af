package main

import (
	"encoding/hex"
	"fmt"
	"time"

	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/ethereum/go-ethereum/common/hexutil"
	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"

	minitiaapp "github.com/initia-labs/minievm/app"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

// Cluster runs one quiet reference node (node 0) and replicas that receive the
// same decided blocks at their own pace, with their own configuration, local
// load, crashes and restarts.
type Cluster struct {
	w       *World
	rg      *Rig
	wl      *WL
	ghosts  [][]byte // transactions that never get into a block
	stop    bool
	target  int64 // last height replicas should reach
	done    []chan struct{}
	o       ClusterOpts
	answers map[int64]map[string]string // height -> query -> expected answer
}

type ClusterOpts struct {
	Blocks, PerBlock int
	Replicas         int
	Noise            int // noise goroutines per replica
	Proposals        bool
	Crash            int // per-block crash chance in 1/100 of a replica
	WriteCrash       bool
	DiskErr          bool
	Power            bool
	Scripts          int
	Weights          map[string]int
	Opts             RigOpts
	Hist             bool // check historical queries
	Cfg              func(i int, r *Rng) NodeCfg
	OnRef            func(b int, txs []*Tx, res *abci.ResponseFinalizeBlock)
	Pre              func(c *Cluster)
	Gen              func(b, per int) []*Tx // replaces the workload's transactions
	Early            func(rg *Rig)          // before the first block
	OnNode           func(c *Cluster, n *Node)
}

func defaultCfg(i int, r *Rng) NodeCfg {
	c := NodeCfg{Index: r.P(2, 3), IavlCache: pick(r, []int{0, 1, 50, 10000}), InterBlk: r.P(1, 4)}
	if r.P(1, 4) {
		c.QueryGas = uint64(pick(r, []int{50_000, 500_000, 100_000_000}))
	}
	if r.P(1, 3) {
		c.SimGas = uint64(pick(r, []int{20_000, 300_000, 50_000_000}))
	}
	return c
}

func runCluster(w *World, o ClusterOpts) *Cluster {
	c := &Cluster{w: w, o: o, answers: map[int64]map[string]string{}}
	rg := newRig(w, o.Opts)
	c.rg = rg
	if o.Early != nil {
		o.Early(rg)
	}
	rg.addNode(NodeCfg{Index: true})
	rg.boot()
	if o.Weights == nil {
		o.Weights = mixAll
		c.o.Weights = mixAll
	}
	c.wl = newWL(rg, o.Weights)
	if o.Scripts == 0 {
		o.Scripts = 4
	}
	c.wl.setup(o.Scripts)
	if o.Pre != nil {
		o.Pre(c)
	}
	rg.sync()
	c.target = rg.c.height()
	cr := NewRng(w.seed, "cfg")
	for i := 1; i <= o.Replicas; i++ {
		cfg := defaultCfg(i, cr)
		if o.Cfg != nil {
			cfg = o.Cfg(i, cr)
		}
		n := newNode(w, i, rg.gen, cfg)
		rg.nodes = append(rg.nodes, n)
		if o.OnNode != nil {
			o.OnNode(c, n)
		}
		ch := make(chan struct{})
		c.done = append(c.done, ch)
		go c.replica(n, ch)
		for k := 0; k < o.Noise; k++ {
			go c.noise(n, NewRng(w.seed, fmt.Sprintf("noise%d/%d", i, k)))
		}
	}
	br := NewRng(w.seed, "coord")
	for b := 0; b < o.Blocks; b++ {
		// ghosts: generated on the current state, never decided
		if o.Noise > 0 || o.Proposals {
			c.ghosts = nil
			for i := 0; i < 4; i++ {
				op := c.wl.op(1_000_000 + b*4 + i)
				for _, t := range c.wl.gen(op) {
					c.ghosts = append(c.ghosts, t.bz)
				}
			}
			c.wl.old = nil
			rg.sync()
		}
		var txs []*Tx
		if o.Gen != nil {
			txs = o.Gen(b, o.PerBlock)
		} else if ctx, err := rg.n0().app.CreateQueryContext(0, false); err == nil {
			c.wl.l1seq, _ = rg.n0().app.OPChildKeeper.GetNextL1Sequence(ctx)
		}
		for i := 0; i < o.PerBlock && o.Gen == nil; i++ {
			op := c.wl.op(b*o.PerBlock + i)
			if w.on(op.i) {
				txs = append(txs, c.wl.gen(op)...)
			}
		}
		var bzs [][]byte
		for _, t := range txs {
			bzs = append(bzs, t.bz)
		}
		blk := rg.c.next(bzs, rg.r)
		rg.c.decide(blk)
		if !rg.nodes[0].apply(rg.c, blk, false) {
			w.abort("reference node died")
		}
		res := rg.c.res(blk.H).Res
		for i, r := range res.TxResults {
			if r.Code == 0 {
				w.count("ok." + txs[i].kind)
				w.reach("ok." + txs[i].kind)
			} else {
				w.count("fail." + txs[i].kind)
				w.reach("fail." + txs[i].kind + "." + r.Codespace + fmt.Sprint(r.Code))
				w.logf("%s: %s", txs[i], r.Log)
			}
		}
		if o.OnRef != nil {
			o.OnRef(b, txs, res)
		}
		if o.Hist {
			c.recordAnswers(blk.H)
		}
		rg.sync()
		c.target = blk.H
		time.Sleep(time.Duration(br.N(400)) * time.Millisecond)
	}
	c.stop = true
	// bounded progress: with faults stopped, every replica catches up
	deadline := time.Now().Add(10 * time.Minute)
	for i, ch := range c.done {
		select {
		case <-ch:
		case <-time.After(time.Until(deadline)):
			n := rg.nodes[i+1]
			w.violate("no-catch-up", "n%d is at height %d of %d ten minutes after the faults stopped (life ended: %v %s)", n.id, n.stateH, c.target, n.inc.dead, n.inc.why)
			w.emit("", "")
		}
	}
	ref := rg.nodes[0].dump()
	for _, n := range rg.nodes[1:] {
		d := diffDump(ref, n.dump())
		w.count("final_state_comparisons")
		if len(d) > 0 {
			w.violate("state-divergence", "n%d holds other state than the quiet node at height %d: %s", n.id, c.target, first(d, 5))
		}
		if o.Hist {
			hr := NewRng(w.seed, "finalhist")
			for k := 0; k < 20; k++ {
				c.histQuery(n, hr)
			}
		}
	}
	return c
}

func first(d []string, k int) string {
	s := ""
	for i, x := range d {
		if i >= k {
			return s + fmt.Sprintf(" … (%d in all)", len(d))
		}
		s += x + "; "
	}
	return s
}

// replica is the consensus loop of one node.
func (c *Cluster) replica(n *Node, done chan struct{}) {
	r := NewRng(c.w.seed, fmt.Sprintf("replica%d", n.id))
	o := c.o
	arm := func() {
		if c.stop {
			return
		}
		if o.WriteCrash && r.P(1, 2) {
			k := int64(r.N(60))
			if r.P(1, 3) {
				k = int64(r.N(600))
			}
			n.armNext = func(inc *Inc) { inc.crashAtWrite = k }
		} else if o.DiskErr && r.P(1, 3) {
			k := int64(r.N(80))
			once := r.P(1, 2)
			n.armNext = func(inc *Inc) { inc.failAtWrite = k; inc.failOnce = once; n.faulty = true }
		}
		if r.P(1, 4) {
			p := n.armNext
			n.armNext = func(inc *Inc) {
				if p != nil {
					p(inc)
				}
				inc.readStall = 400
				c.w.fault("slow_disk")
			}
		}
	}
	restart := func() {
		for {
			n.crash(o.Power && r.P(1, 2), n.inc.why)
			n.restarts++
			c.w.count("restarts")
			time.Sleep(time.Duration(r.N(1500)) * time.Millisecond)
			arm()
			if n.start(c.rg.c) {
				return
			}
		}
	}
	if r.P(1, 4) {
		arm()
	}
	if !n.start(c.rg.c) {
		restart()
	}
	for {
		if n.inc.dead {
			restart()
		}
		if n.stateH >= c.target {
			if c.stop {
				close(done)
				return
			}
			time.Sleep(time.Duration(20+r.N(200)) * time.Millisecond)
		}
		if n.inc.dead {
			continue
		}
		if o.Proposals && r.P(1, 3) && !c.stop {
			c.propose(n, r)
			if n.inc.dead {
				continue
			}
		}
		if n.stateH < c.target {
			if r.P(1, 3) {
				time.Sleep(time.Duration(r.N(300)) * time.Millisecond)
			}
			if o.Crash > 0 && !c.stop && r.P(o.Crash, 100) {
				switch {
				case r.P(1, 3):
					n.inc.kill("killed between blocks")
					restart()
				case r.P(1, 2) || !o.WriteCrash:
					inc := n.inc
					go func() { time.Sleep(time.Duration(r.N(50)) * time.Microsecond); inc.kill("killed") }()
				default:
					n.inc.crashAtWrite = n.inc.writes + int64(r.N(40))
				}
			}
			if !n.inc.dead {
				n.apply(c.rg.c, c.rg.c.block(max(n.stateH+1, c.rg.c.initialHeight)), false)
			}
		}
	}
}

// propose builds and judges proposals that consensus then drops.
func (c *Cluster) propose(n *Node, r *Rng) {
	h := n.stateH + 1
	if h <= c.rg.c.initialHeight {
		return
	}
	var txs [][]byte
	n.abciCall("PrepareProposal", func(app *minitiaapp.MinitiaApp) {
		res, err := app.PrepareProposal(&abci.RequestPrepareProposal{MaxTxBytes: c.rg.gen.MaxBytes, Txs: n.mp.reap(), Height: h, Time: c.rg.c.clock, ProposerAddress: valPriv.PubKey().Address()})
		if err == nil {
			txs = res.Txs
		}
	})
	c.w.count("proposals_built")
	for k := r.N(3); k > 0; k-- {
		cand := append([][]byte(nil), txs...)
		for j := r.N(4); j > 0 && len(c.ghosts) > 0; j-- {
			cand = append(cand, pick(r, c.ghosts))
		}
		if r.P(1, 4) {
			cand = append(cand, r.Bytes(r.N(80)))
		}
		n.abciCall("ProcessProposal", func(app *minitiaapp.MinitiaApp) {
			res, err := app.ProcessProposal(&abci.RequestProcessProposal{Txs: cand, Height: h, Time: c.rg.c.clock.Add(time.Duration(r.N(1000)) * time.Millisecond), Hash: r.Bytes(32),
				ProposerAddress: valPriv.PubKey().Address(), NextValidatorsHash: detBytes("nextvals", 0),
				ProposedLastCommit: abci.CommitInfo{Votes: []abci.VoteInfo{}}})
			if err == nil && res.Status == abci.ResponseProcessProposal_ACCEPT {
				c.w.count("proposals_accepted")
			} else {
				c.w.count("proposals_rejected")
			}
		})
	}
}

// noise is local load of a node that must not matter to consensus.
func (c *Cluster) noise(n *Node, r *Rng) {
	for !c.stop {
		time.Sleep(time.Duration(r.N(150)) * time.Millisecond)
		if !n.up || n.inc.dead || n.stateH <= c.rg.c.initialHeight {
			continue
		}
		if c.o.Hist && r.P(1, 3) {
			c.histQuery(n, r)
			continue
		}
		c.noiseOnce(n, r)
	}
}

func (c *Cluster) someTx(r *Rng) []byte {
	if len(c.ghosts) > 0 && r.P(2, 3) {
		return pick(r, c.ghosts)
	}
	if b := c.rg.c.block(c.rg.c.height() - int64(r.N(2))); b != nil && len(b.Txs) > 0 {
		return pick(r, b.Txs)
	}
	return nil
}

func (c *Cluster) queryCall(r *Rng, n *Node) *evmtypes.QueryCallRequest {
	rg := c.rg
	u := c.wl.user(r)
	q := &evmtypes.QueryCallRequest{Sender: u.bech, Value: math.NewInt(int64(r.N(3) * r.N(1000)))}
	switch r.N(5) {
	case 0, 1, 2:
		q.ContractAddr = pick(r, rg.con).Hex()
		q.Input = hexutil.Encode(c.wl.script(r, 3))
	case 3:
		tok := pick(r, c.wl.tokens)
		_, d := c.wl.erc20Data(r, tok, u)
		q.ContractAddr, q.Input = tok.addr.Hex(), hexutil.Encode(d)
	default:
		q.ContractAddr = ""
		q.Input = hexutil.Encode(initFor(interpRuntime, nil))
	}
	if r.P(1, 4) {
		q.TraceOptions = &evmtypes.TraceOptions{WithMemory: r.P(1, 2), WithStack: r.P(1, 2), WithStorage: r.P(1, 2), WithReturnData: r.P(1, 2)}
	}
	return q
}

func (c *Cluster) abciQuery(n *Node, path string, h int64, data []byte) (*abci.ResponseQuery, bool) {
	var res *abci.ResponseQuery
	app := n.app
	ok := n.do("query "+path, func() {
		// CometBFT's query connection is not serialised with the consensus one
		r, err := app.Query(nil, &abci.RequestQuery{Path: path, Height: h, Data: data})
		if err == nil {
			res = r
		}
	})
	return res, ok && res != nil
}

func (c *Cluster) noiseOnce(n *Node, r *Rng) {
	w := c.w
	h := int64(0)
	if r.P(1, 3) {
		h = max(1, n.stateH-int64(r.N(4)))
	}
	app := n.app
	switch r.N(10) {
	case 9:
		c.ghostToken(n, r)
	case 0, 1:
		q := c.queryCall(r, n)
		bz, _ := q.Marshal()
		c.abciQuery(n, "/minievm.evm.v1.Query/Call", h, bz)
		w.count("noise.call_abci")
	case 2, 3:
		q := c.queryCall(r, n)
		n.do("grpc call", func() {
			ctx, err := app.CreateQueryContext(h, false)
			if err == nil {
				evmkeeper.NewQueryServer(app.EVMKeeper).Call(ctx, q)
			}
		})
		w.count("noise.call_grpc")
	case 4:
		tx := c.someTx(r)
		if tx != nil {
			n.do("simulate", func() { app.Simulate(tx) })
			w.count("noise.simulate")
		}
	case 5, 6:
		tx := c.someTx(r)
		if tx != nil {
			n.mp.check(tx)
			w.count("noise.checktx")
		}
	case 7:
		u := c.wl.user(r)
		bz, _ := (&banktypes.QueryAllBalancesRequest{Address: u.bech}).Marshal()
		c.abciQuery(n, "/cosmos.bank.v1beta1.Query/AllBalances", h, bz)
		bz, _ = (&banktypes.QueryTotalSupplyRequest{}).Marshal()
		c.abciQuery(n, "/cosmos.bank.v1beta1.Query/TotalSupply", h, bz)
		w.count("noise.bank")
	default:
		if len(c.wl.tokens) > 0 {
			d := pick(r, c.wl.tokens).denom
			bz, _ := (&evmtypes.QueryContractAddrByDenomRequest{Denom: d}).Marshal()
			c.abciQuery(n, "/minievm.evm.v1.Query/ContractAddrByDenom", h, bz)
			bz, _ = (&evmtypes.QueryParamsRequest{}).Marshal()
			c.abciQuery(n, "/minievm.evm.v1.Query/Params", h, bz)
		}
		w.count("noise.evm")
	}
}

// ghostToken simulates the arrival of a denomination the chain does not know
// and looks at what it became, in the simulation only: another token, or none,
// will be made at that address, and the denomination may arrive later.
func (c *Cluster) ghostToken(n *Node, r *Rng) {
	rg, app := c.rg, n.app
	var tx []byte
	n.do("prepare simulation", func() {
		ctx, err := app.CreateQueryContext(0, false)
		if err != nil {
			return
		}
		seq, err := app.OPChildKeeper.GetNextL1Sequence(ctx)
		if err != nil {
			return
		}
		f, err := app.EVMKeeper.GetERC20FactoryAddr(ctx)
		if err != nil {
			return
		}
		next, err := app.EVMKeeper.NextContractAddress(ctx, f)
		if err != nil {
			return
		}
		acc := app.AccountKeeper.GetAccount(ctx, rg.exec.acc)
		if acc == nil {
			return
		}
		u := pick(r, rg.users[:3])
		denom := fmt.Sprintf("l2/%064x", 1+r.N(6))
		msgs := []sdk.Msg{opchildtypes.NewMsgFinalizeTokenDeposit(rg.exec.bech, "init1sender", u.bech, sdk.NewInt64Coin(denom, int64(r.In(1, 1000))), seq, 1, "uinit", nil)}
		if r.P(3, 4) {
			msgs = append(msgs, msgCall(rg.exec, cosmosAddr, pack(abiCosmos, "to_denom", next), nil))
		}
		if r.P(1, 2) {
			msgs = append(msgs, msgCall(rg.exec, cosmosAddr, pack(abiCosmos, "to_erc20", denom), nil))
		}
		if r.P(1, 2) {
			msgs = append(msgs, msgCall(rg.exec, next, pack(abiERC20, "name"), nil))
		}
		tx = rg.mk.cosmosTx([]*Acct{rg.exec}, []uint64{acc.GetSequence()}, msgs, TxOpts{Gas: 20_000_000, Fee: rg.fee(20_000_000)})
	})
	if tx == nil {
		return
	}
	ok := false
	n.do("simulate token", func() {
		_, _, err := app.Simulate(tx)
		ok = err == nil
		if err != nil && c.w.verbose {
			fmt.Println("ghost:", err)
		}
	})
	c.w.count("noise.ghost_token")
	if ok {
		c.w.count("noise.ghost_token_ok")
	}
}

// ---- historical query model

type hq struct {
	path string
	data []byte
}

func (c *Cluster) histQueries() []hq {
	var out []hq
	add := func(path string, m interface{ Marshal() ([]byte, error) }) {
		bz, _ := m.Marshal()
		out = append(out, hq{path, bz})
	}
	for i, u := range c.rg.users {
		if i < 3 {
			add("/cosmos.bank.v1beta1.Query/AllBalances", &banktypes.QueryAllBalancesRequest{Address: u.bech})
		}
	}
	add("/cosmos.bank.v1beta1.Query/TotalSupply", &banktypes.QueryTotalSupplyRequest{})
	for _, t := range c.wl.tokens[:2] {
		add("/cosmos.bank.v1beta1.Query/SupplyOf", &banktypes.QuerySupplyOfRequest{Denom: t.denom})
	}
	for _, con := range c.rg.con {
		for k := 0; k < 3; k++ {
			add("/minievm.evm.v1.Query/State", &evmtypes.QueryStateRequest{ContractAddr: con.Hex(), Key: "0x" + hex.EncodeToString(common32(k))})
		}
		add("/minievm.evm.v1.Query/Code", &evmtypes.QueryCodeRequest{ContractAddr: con.Hex()})
		// a state-changing call run as a query: environment, storage and balances flow into the answer
		s := script{}.sadd(1, 5).env(0, 40).u8(sSCOPY, 41, 1).u8(sCALL&0, 0)[:0]
		s = s.sadd(1, 5).env(0, 60).log(7, 1)
		s = append(s, sRETK, 1)
		add("/minievm.evm.v1.Query/Call", &evmtypes.QueryCallRequest{Sender: c.rg.users[0].bech, ContractAddr: con.Hex(), Input: hexutil.Encode(s), Value: math.ZeroInt()})
	}
	add("/minievm.evm.v1.Query/Params", &evmtypes.QueryParamsRequest{})
	return out
}

func common32(k int) []byte { b := make([]byte, 32); b[31] = byte(k); return b }

func qkey(q hq) string { return q.path + hex.EncodeToString(q.data) }

func resKey(r *abci.ResponseQuery) string {
	return fmt.Sprintf("%d/%s/%x", r.Code, r.Codespace, r.Value)
}

func (c *Cluster) recordAnswers(h int64) {
	m := map[string]string{}
	for _, q := range c.histQueries() {
		r, ok := c.abciQuery(c.rg.nodes[0], q.path, 0, q.data)
		if !ok {
			c.w.abort("reference query failed")
		}
		m[qkey(q)] = resKey(r)
		if r.Code == 0 {
			c.w.count("hist_answers_ok")
		}
	}
	c.answers[h] = m
}

// histQuery asks a node about a past or the latest height.
func (c *Cluster) histQuery(n *Node, r *Rng) {
	qs := c.histQueries()
	q := pick(r, qs)
	lo := n.stateH
	h := int64(0)
	if r.P(1, 2) {
		h = max(2, n.stateH-int64(r.N(6)))
		if c.answers[h] == nil {
			return
		}
	}
	res, ok := c.abciQuery(n, q.path, h, q.data)
	if !ok {
		return
	}
	hi := n.stateH
	got := resKey(res)
	if h > 0 {
		want := c.answers[h][qkey(q)]
		if want == "" {
			return
		}
		if got != want {
			if res.Code != 0 && (n.cfg.Pruning[0] > 0 || n.cfg.QueryGas > 0 || n.cfg.SimGas > 0) {
				return // pruned, or local query gas limit
			}
			c.w.violate("historical-answer", "n%d at height %d: %s asked at height %d answers %q, the state committed there gives %q (log %s)", n.id, hi, q.path, h, trunc(got), trunc(want), res.Log)
		}
		c.w.count("historical_checked")
		return
	}
	if n.inc.dead || c.answers[lo] == nil {
		return
	}
	if res.Code != 0 && (n.cfg.QueryGas > 0 || n.cfg.SimGas > 0) {
		return
	}
	for x := lo; x <= hi+1; x++ {
		if a := c.answers[x]; a != nil && a[qkey(q)] == got {
			c.w.count("latest_checked")
			return
		}
		if c.answers[x] == nil || c.answers[x][qkey(q)] == "" {
			return
		}
	}
	c.w.violate("latest-answer", "n%d: %s at the latest height answers %q, which no state committed between heights %d and %d gives (log %s)", n.id, q.path, trunc(got), lo, hi+1, res.Log)
}

var _ = sdk.AccAddress{}
