package main

import (
	"context"
	"crypto/sha256"
	"fmt"
	"math/big"
	"time"

	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"

	minitiaapp "github.com/initia-labs/minievm/app"
)

// Live runs several full nodes the way a network does: every node has a mempool
// that receives transactions from its clients and from its peers, proposers
// rotate, a proposal is judged by every node, and the decided block is executed
// by each node at its own pace. Links lose their connection, nodes crash.
type Live struct {
	w      *World
	rg     *Rig
	o      LiveOpts
	r      *Rng
	cut    [8][8]bool
	calm   bool // faults have stopped
	stop   bool
	idle   bool               // clients have stopped
	inBlk  map[[32]byte]int64 // decided transactions
	obl    []*Obl
	all    map[[32]byte]*Tx   // submitted transactions
	skips  map[skipKey]string // senders whose transactions a proposer left out in part
	active int
	turn   int
	maxB   int64
	maxG   int64
}

// Obl is a transaction a node admitted to its mempool in one of its lives.
type Obl struct {
	t   *Tx
	n   *Node
	inc *Inc
	h   int64
}

type LiveOpts struct {
	Nodes   int
	Blocks  int
	Clients int
	Crash   int // per-block crash chance of nodes other than node 0, in 1/100
	Cut     bool
	Power   bool
	Opts    RigOpts
	Cfg     func(i int, r *Rng) NodeCfg
	Pre     func(l *Live)
	OnNode  func(l *Live, n *Node)
	Client  func(l *Live, k int, r *Rng) // one client goroutine's life
	OnBlock func(l *Live, b *Block, txs []*Tx, res *abci.ResponseFinalizeBlock)
	Scripts int
	Streams bool // senders with several pending transactions, and blocks that fill up
	MinB    int  // shortest pause between blocks in ms
}

func runLive(w *World, o LiveOpts) *Live {
	l := &Live{w: w, o: o, r: NewRng(w.seed, "live"), inBlk: map[[32]byte]int64{}, all: map[[32]byte]*Tx{}, skips: map[skipKey]string{}}
	rg := newRig(w, o.Opts)
	l.rg = rg
	cr := NewRng(w.seed, "cfg")
	cfg := func(i int) NodeCfg {
		if o.Cfg != nil {
			return o.Cfg(i, cr)
		}
		return defaultCfg(i, cr)
	}
	n0 := newNode(w, 0, rg.gen, cfg(0))
	rg.nodes = append(rg.nodes, n0)
	rg.c.ref = n0
	if o.OnNode != nil {
		o.OnNode(l, n0)
	}
	if !n0.start(rg.c) {
		w.abort("node 0 did not start: %s", n0.inc.why)
	}
	rg.mk = &TxMaker{cfg: n0.app.TxConfig(), app: n0.app}
	rg.boot()
	for k := 0; k < o.Scripts; k++ {
		rg.deployScripts(1)
	}
	if o.Pre != nil {
		o.Pre(l)
	}
	rg.sync()
	l.maxB, l.maxG = rg.gen.MaxBytes, rg.gen.MaxGas
	for i := 1; i < o.Nodes; i++ {
		n := newNode(w, i, rg.gen, cfg(i))
		rg.nodes = append(rg.nodes, n)
		if o.OnNode != nil {
			o.OnNode(l, n)
		}
		if !n.start(rg.c) {
			w.abort("node %d did not start: %s", i, n.inc.why)
		}
		for h := rg.c.initialHeight; h <= rg.c.height(); h++ {
			if n.stateH < h && !n.apply(rg.c, rg.c.block(h), false) {
				w.abort("node %d did not sync", i)
			}
		}
	}
	for _, n := range rg.nodes {
		go l.node(n)
		for _, m := range rg.nodes {
			if n != m {
				go l.link(n, m)
			}
		}
	}
	for k := 0; k < o.Clients; k++ {
		l.active++
		go func() {
			o.Client(l, k, NewRng(w.seed, fmt.Sprintf("client%d", k)))
			l.active--
		}()
	}
	start := rg.c.height()
	for rg.c.height() < start+int64(o.Blocks) {
		if o.Cut && l.r.P(1, 4) {
			a, b := l.r.N(o.Nodes), l.r.N(o.Nodes)
			l.cut[a][b] = !l.cut[a][b]
			if l.cut[a][b] {
				w.fault("link_cut")
			}
		}
		l.round()
	}
	l.idle = true
	deadline := time.Now().Add(2 * time.Minute)
	for l.active > 0 && time.Now().Before(deadline) {
		l.round()
	}
	if l.active > 0 {
		w.violate("client-stuck", "%d clients are still waiting for an answer two minutes after the last submission", l.active)
	}
	l.calm = true
	l.cut = [8][8]bool{}
	return l
}

func (l *Live) pause(ms int) { time.Sleep(time.Duration(ms) * time.Millisecond) }

// node is one node's consensus loop.
func (l *Live) node(n *Node) {
	r := NewRng(l.w.seed, fmt.Sprintf("live%d", n.id))
	o, c := l.o, l.rg.c
	restart := func() {
		for {
			n.crash(o.Power && r.P(1, 2), n.inc.why)
			n.restarts++
			l.w.count("restarts")
			l.pause(r.N(1500))
			if n.start(c) {
				return
			}
		}
	}
	for !l.stop {
		if n.inc.dead {
			if n.id == 0 {
				l.w.abort("node 0 died: %s", n.inc.why)
			}
			restart()
			continue
		}
		if n.stateH >= c.height() {
			l.pause(r.In(3, 30))
			continue
		}
		if r.P(1, 4) {
			l.pause(r.N(400))
		}
		if n.id > 0 && !l.calm && r.P(o.Crash, 100) {
			inc := n.inc
			d := time.Duration(r.N(300)) * time.Microsecond
			if r.P(1, 2) {
				d *= 1000
			}
			go func() { time.Sleep(d); inc.kill("killed") }()
		}
		n.apply(c, c.block(n.stateH+1), false)
	}
}

// link hands the transactions of one node's mempool to a peer, each once per
// connection and in the order they came.
func (l *Live) link(a, b *Node) {
	r := NewRng(l.w.seed, fmt.Sprintf("link%d.%d", a.id, b.id))
	sent := map[[32]byte]bool{}
	var ia, ib *Inc
	for !l.stop {
		l.pause(r.In(2, 80))
		if a.inc.dead || b.inc.dead || !a.up || !b.up || l.cut[a.id][b.id] || a.inc != ia || b.inc != ib {
			sent, ia, ib = map[[32]byte]bool{}, a.inc, b.inc
			continue
		}
		for _, tx := range a.mp.reap() {
			h := sha256.Sum256(tx)
			if sent[h] {
				continue
			}
			if l.cut[a.id][b.id] || a.inc != ia || b.inc != ib || b.mp == nil || ib.dead {
				break
			}
			sent[h] = true
			if r.P(1, 5) {
				l.pause(r.N(200))
			}
			if res, ok := b.mp.check(tx); ok && res.Code == 0 {
				l.w.count("gossiped")
			}
		}
	}
}

// submit gives a transaction to a node's mempool; the admission creates an
// obligation to get it into a block.
func (l *Live) submit(n *Node, t *Tx) uint32 {
	if n.inc.dead || !n.up {
		return 1<<32 - 1
	}
	inc := n.inc
	res, ok := n.mp.check(t.bz)
	if !ok {
		return 1<<32 - 1
	}
	l.all[t.hash] = t
	if res.Code == 0 {
		l.w.count("admitted")
		if t.timeout != 0 {
			l.w.count("timed_admitted")
		} else if l.follows(n, t) {
			l.obl = append(l.obl, &Obl{t, n, inc, l.rg.c.height()})
		} else {
			l.w.count("admitted_with_gap")
		}
	} else {
		l.w.count("not_admitted")
		l.w.logf("n%d does not admit %s: %s", n.id, t, trunc(res.Log))
	}
	return res.Code
}

// round is one consensus round: it may decide a block.
func (l *Live) round() {
	w, c, r := l.w, l.rg.c, l.r
	l.pause(l.o.MinB + r.N(300))
	l.turn++
	h := c.height() + 1
	p := l.rg.nodes[l.turn%len(l.rg.nodes)]
	if p.inc.dead || !p.up || p.stateH != h-1 {
		w.count("rounds_without_proposer")
		l.pause(200 + r.N(800))
		return
	}
	t := c.clock.Add(time.Duration(1+r.N(4000)) * time.Millisecond)
	prop := valPriv.PubKey().Address()
	var txs [][]byte
	var perr error
	pool := p.mp.reap()
	if !p.abciCall("PrepareProposal", func(app *minitiaapp.MinitiaApp) {
		res, err := app.PrepareProposal(&abci.RequestPrepareProposal{MaxTxBytes: l.maxB - 2000, Txs: pool, Height: h, Time: t, ProposerAddress: prop, NextValidatorsHash: detBytes("nextvals", 0)})
		if perr = err; err == nil {
			txs = res.Txs
		}
	}) {
		return
	}
	if perr != nil {
		w.violate("proposal-failed", "n%d cannot build a proposal for height %d: %v", p.id, h, perr)
		return
	}
	w.count("proposals_built")
	if w.verbose {
		w.logf("n%d proposes %d of %d txs for height %d", p.id, len(txs), len(pool), h)
		for i, bz := range pool {
			w.logf("  pool %d: %s", i, l.txOf(sha256.Sum256(bz)))
		}
		for i, bz := range txs {
			w.logf("  prop %d: %s", i, l.txOf(sha256.Sum256(bz)))
		}
	}
	l.judge(p, h, pool, txs)
	hash := detBytes(fmt.Sprintf("block/%d/%d/%d", w.seed, h, l.turn), len(txs))
	accepted := 0
	for _, n := range l.rg.nodes {
		if n.inc.dead || !n.up || n.stateH != h-1 {
			continue
		}
		if r.P(1, 3) {
			l.pause(r.N(150))
		}
		var res *abci.ResponseProcessProposal
		var err error
		if !n.abciCall("ProcessProposal", func(app *minitiaapp.MinitiaApp) {
			res, err = app.ProcessProposal(&abci.RequestProcessProposal{Txs: txs, Height: h, Time: t, Hash: hash, ProposerAddress: prop, NextValidatorsHash: detBytes("nextvals", 0), ProposedLastCommit: abci.CommitInfo{Votes: []abci.VoteInfo{}}})
		}) {
			continue
		}
		if err != nil || res.Status != abci.ResponseProcessProposal_ACCEPT {
			w.violate("honest-proposal-rejected", "n%d rejects the proposal of n%d for height %d (%d transactions): %v %v", n.id, p.id, h, len(txs), res, err)
			return
		}
		accepted++
		w.count("proposals_accepted")
	}
	if accepted == 0 || (!l.calm && r.P(1, 8)) {
		w.fault("undecided_round")
		return
	}
	c.clock = t
	b := &Block{H: h, T: t, Txs: txs, Hash: hash}
	for _, tx := range txs {
		l.inBlk[sha256.Sum256(tx)] = h
	}
	c.decide(b)
	// decided blocks reach most nodes before the next height starts
	for k := 0; k < 200; k++ {
		up := 0
		for _, n := range l.rg.nodes {
			if n.stateH >= h && !n.inc.dead {
				up++
			}
		}
		if up*2 > len(l.rg.nodes) || l.calm && up > 0 {
			break
		}
		l.pause(10)
	}
}

// judge checks a proposal an honest node built.
func (l *Live) judge(p *Node, h int64, pool, txs [][]byte) {
	w := l.w
	var size, gas int64
	seen := map[[32]byte]bool{}
	ctx := p.committedCtx()
	next := map[string]uint64{}
	for i, bz := range txs {
		k := sha256.Sum256(bz)
		if seen[k] {
			w.violate("duplicate-in-proposal", "n%d proposes a transaction twice for height %d (position %d)", p.id, h, i)
		}
		seen[k] = true
		if t := l.txOf(k); t != nil && t.timeout != 0 {
			w.count("timed_proposed")
			if t.timeout < uint64(h) {
				w.violate("expired-in-proposal", "n%d proposes for height %d at position %d %s, which is valid up to height %d only", p.id, h, i, t, t.timeout)
			}
		}
		if at, ok := l.inBlk[k]; ok {
			w.violate("included-again", "n%d proposes for height %d a transaction that block %d contains", p.id, h, at)
		}
		size += int64(len(bz))
		tx, err := l.rg.mk.cfg.TxDecoder()(bz)
		if err != nil {
			w.violate("undecodable-in-proposal", "n%d proposes undecodable bytes for height %d: %v", p.id, h, err)
			return
		}
		gas += int64(tx.(sdk.FeeTx).GetGas())
		sigs, err := tx.(interface {
			GetSignaturesV2() ([]signing.SignatureV2, error)
		}).GetSignaturesV2()
		if err != nil {
			w.abort("signatures: %v", err)
		}
		for _, s := range sigs {
			a := sdk.AccAddress(s.PubKey.Address())
			key := string(a)
			want, ok := next[key]
			if !ok {
				if acc := p.app.AccountKeeper.GetAccount(ctx, a); acc != nil {
					want = acc.GetSequence()
				}
			}
			if s.Sequence != want {
				w.violate("nonce-order", "n%d proposes for height %d at position %d a transaction with sequence %d of %s, the one due is %d", p.id, h, i, s.Sequence, a, want)
			}
			next[key] = s.Sequence + 1
		}
	}
	if size > l.maxB-2000 {
		w.violate("proposal-too-large", "n%d proposes %d bytes for height %d, the limit is %d", p.id, size, h, l.maxB-2000)
	}
	if l.maxG > 0 && gas > l.maxG {
		w.violate("proposal-too-much-gas", "n%d proposes transactions with gas limits of %d for height %d, the block's is %d", p.id, gas, h, l.maxG)
	}
	w.countN("proposed_txs", len(txs))
	// senders a part of whose pending transactions did not fit, see the known findings
	for _, bz := range pool {
		k := sha256.Sum256(bz)
		if t := l.txOf(k); t != nil && !seen[k] {
			for _, u := range t.signers {
				if _, ok := l.skips[skipKey{p.id, u.bech}]; !ok {
					l.skips[skipKey{p.id, u.bech}] = fmt.Sprintf("n%d left out sequence %d from the proposal for height %d, which has %d bytes and gas %d", p.id, t.seq, h, size, gas)
				}
			}
		}
	}
}

type skipKey struct {
	node int
	user string
}

func (l *Live) txOf(k [32]byte) *Tx { return l.all[k] }

// follows reports whether nothing is missing between the signers' committed
// sequences and the transaction. The check state of a node runs ahead when its
// pool refuses a transaction for want of room, so a later one may get admitted.
func (l *Live) follows(n *Node, t *Tx) bool {
	ctx := n.committedCtx()
	for i, s := range t.signers {
		for q := seqOf(n, ctx, s); q < t.seqAt(i); q++ {
			ok := false
			for h, o := range l.all {
				if !n.mp.in[h] {
					continue
				}
				for j, x := range o.signers {
					ok = ok || x == s && o.seqAt(j) == q
				}
			}
			if !ok {
				return false
			}
		}
	}
	return true
}

// settle runs rounds without faults and clients until no admitted transaction is
// due any more, or the bound has passed, and judges what is left.
func (l *Live) settle() {
	w, c := l.w, l.rg.c
	due := l.due
	var gas uint64
	for _, o := range l.obl {
		if due(o) {
			gas += o.t.gas
		}
	}
	// everyone proposes a few times, plus the blocks the pending gas needs
	bound := 6*len(l.rg.nodes) + int(3*gas/uint64(l.maxG)) + 4
	h0 := c.height()
	for c.height() < h0+int64(bound) {
		left := 0
		for _, o := range l.obl {
			if due(o) {
				left++
			}
		}
		if left == 0 && c.height() > h0+1 {
			break
		}
		before := c.height()
		for k := 0; c.height() == before; k++ {
			if k > 40 {
				w.violate("no-progress", "no block in 40 rounds after the faults stopped at height %d", before)
			}
			l.round()
		}
	}
	w.countN("settling_blocks", int(c.height()-h0))
	for k := 0; k < 300; k++ {
		done := true
		for _, n := range l.rg.nodes {
			done = done && n.stateH == c.height() && !n.inc.dead && n.up
		}
		if done {
			break
		}
		l.pause(50)
	}
	for _, o := range l.obl {
		if due(o) {
			if why, ok := l.skips[skipKey{o.n.id, o.t.from.bech}]; ok && l.o.Streams {
				w.violate("dropped-behind-skipped", "%s, admitted by n%d at height %d, is not in any block and no longer in the pool: %s", o.t, o.n.id, o.h, why)
				continue
			}
			w.violate("not-included", "%s (gas %d), admitted by n%d at height %d, is in no block up to height %d, %d blocks after faults and submissions stopped; in the node's pool: %v", o.t, o.t.gas, o.n.id, o.h, c.height(), c.height()-h0, o.n.mp.in[o.t.hash])
		}
	}
	for _, n := range l.rg.nodes {
		if n.stateH != c.height() || n.inc.dead {
			w.violate("no-catch-up", "n%d is at height %d of %d after the faults stopped", n.id, n.stateH, c.height())
		}
		for _, bz := range n.mp.reap() {
			k := sha256.Sum256(bz)
			t := l.txOf(k)
			if at, ok := l.inBlk[k]; ok {
				w.violate("pool-keeps-included", "n%d still holds a transaction that block %d contains", n.id, at)
			}
			if t != nil && t.timeout != 0 && t.timeout < uint64(c.height()) {
				w.violate("pool-keeps-expired", "n%d still holds %s at height %d, which was valid up to height %d", n.id, t, c.height(), t.timeout)
			}
			if t != nil {
				ctx := n.committedCtx()
				for i, s := range t.signers {
					if q := seqOf(n, ctx, s); q > t.seqAt(i) {
						w.violate("pool-keeps-invalid", "n%d still holds %s, the sequence of the signer is %d", n.id, t, q)
					}
				}
			}
		}
		if k := n.app.Mempool().CountTx(); k > len(n.mp.txs) {
			// the application's pool holds what the node's does not
			var left []string
			for it := n.app.Mempool().Select(context.Background(), nil); it != nil; it = it.Next() {
				bz, _ := n.app.TxEncode(it.Tx())
				h := sha256.Sum256(bz)
				if _, ok := l.inBlk[h]; ok || !n.mp.in[h] {
					left = append(left, fmt.Sprint(l.txOf(h)))
				}
			}
			w.violate("app-pool-keeps", "n%d: the application's pool holds %d transactions, the node's %d: %v", n.id, k, len(n.mp.txs), left)
		}
	}
	ref := l.rg.n0().dump()
	for _, n := range l.rg.nodes[1:] {
		if d := diffDump(ref, n.dump()); len(d) > 0 {
			w.violate("state-divergence", "n%d holds other state than n0 at height %d: %s", n.id, c.height(), first(d, 5))
		}
		w.count("final_state_comparisons")
	}
	l.stop = true
}

func (t *Tx) seqAt(i int) uint64 {
	if i < len(t.seqs) {
		return t.seqs[i]
	}
	return t.seq
}

// tx makes one transaction of user u, paying a multiple of the minimum price.
func (l *Live) tx(r *Rng, u *Acct, gas uint64, op int) *Tx {
	rg := l.rg
	rg.opIdx = op
	mul := int64(pick(r, []int{1, 1, 1, 2, 5, 100}))
	fee := sdk.NewCoins(sdk.NewCoin(feeDenom, math.NewInt(rg.gasPrice*mul).MulRaw(int64(gas))))
	var t *Tx
	to := pick(r, rg.users)
	switch r.N(6) {
	case 0, 1:
		t = rg.cosmosN("bank", []*Acct{u}, gas, TxOpts{Fee: fee}, banktypes.NewMsgSend(u.acc, to.acc, coins(feeDenom, int64(1+r.N(1000)))))
	case 2:
		t = rg.cosmosN("call", []*Acct{u}, gas, TxOpts{Fee: fee}, msgCall(u, pick(r, rg.con), liveScript(r), nil))
	case 3, 4:
		x := EthArgs{Type: r.N(3), Nonce: u.next, To: &to.eth, Gas: gas, Value: big.NewInt(int64(r.N(1000))), FeeCap: big.NewInt(rg.gasPrice * mul)}
		e, err := rg.ethereum("value", u, x)
		if err != nil {
			l.w.abort("eth: %v", err)
		}
		u.next++
		t = e
	default:
		con := pick(r, rg.con)
		x := EthArgs{Type: r.N(3), Nonce: u.next, To: &con, Gas: gas, FeeCap: big.NewInt(rg.gasPrice * mul), Data: liveScript(r)}
		e, err := rg.ethereum("script", u, x)
		if err != nil {
			l.w.abort("eth: %v", err)
		}
		u.next++
		t = e
	}
	return t
}

// liveScript is a short contract program.
func liveScript(r *Rng) []byte {
	s := script{}
	for k := r.In(1, 4); k > 0; k-- {
		switch r.N(3) {
		case 0:
			s = s.sadd(byte(r.N(6)), r.N(9))
		case 1:
			s = s.log(r.N(9), 1)
		default:
			s = s.sstore(byte(r.N(6)), r.N(9))
		}
	}
	if r.P(1, 6) {
		s = s.u8(sREVERT).u16(7)
	}
	return s
}

// pendingSeq is the sequence a wallet would use next at this node.
func (n *Node) pendingSeq(u *Acct) uint64 {
	seq := uint64(0)
	n.abciCall("pending sequence", func(app *minitiaapp.MinitiaApp) {
		if acc := app.AccountKeeper.GetAccount(app.GetContextForCheckTx(nil), u.acc); acc != nil {
			seq = acc.GetSequence()
		}
	})
	return seq
}

// due reports whether the node that admitted the transaction still owes it.
func (l *Live) due(o *Obl) bool {
	if _, ok := l.inBlk[o.t.hash]; ok || o.inc != o.n.inc || o.inc.dead {
		return false
	}
	// another transaction took its place
	n := l.rg.n0()
	ctx := n.committedCtx()
	for i, s := range o.t.signers {
		if seqOf(n, ctx, s) > o.t.seqAt(i) {
			return false
		}
	}
	return true
}

// owed reports whether some node admitted the transaction and still owes it.
func (l *Live) owed(t *Tx) bool {
	for _, o := range l.obl {
		if o.t == t && l.due(o) {
			return true
		}
	}
	return false
}

// held reports whether some node's pool still has the transaction.
func (l *Live) held(t *Tx) bool {
	if _, ok := l.inBlk[t.hash]; ok {
		return false
	}
	for _, n := range l.rg.nodes {
		if n.up && !n.inc.dead && n.mp.in[t.hash] {
			return true
		}
	}
	return false
}
