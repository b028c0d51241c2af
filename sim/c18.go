package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"math/big"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
)

func init() { scenarios["C18"] = scC18 }

// sub is one submission of a transaction to a node's JSON-RPC server.
type sub struct {
	t     *Tx
	n     *Node
	inc   *Inc
	acked bool
	done  bool
	h     int64
	err   string
}

// rpcPool drives the submission of Ethereum transactions over JSON-RPC.
type rpcPool struct {
	l     *Live
	w     *World
	fr    []*Front
	base  map[*Acct]uint64
	count map[*Acct]int
	txs   map[*Acct]map[uint64][]*Tx
	byEth map[common.Hash]*Tx
	subs  []*sub
	sent  map[*Inc]map[[32]byte]int // broadcasts
	subm  map[*Inc]map[[32]byte]int // submissions
	okAt  map[okKey]int64           // height at which a node's mempool took it, -1 while a block executed
	small bool
}

type okKey struct {
	inc *Inc
	tx  [32]byte
}

func (p *rpcPool) onNode(l *Live, n *Node) {
	n.onUp = func(n *Node) {
		f := newFront(n, nil)
		inc := n.inc
		p.sent[inc], p.subm[inc] = map[[32]byte]int{}, map[[32]byte]int{}
		r := NewRng(p.w.seed, fmt.Sprintf("stub%d.%d", n.id, n.lives))
		f.stub.slow = func() time.Duration {
			if r.P(1, 4) {
				return time.Duration(r.N(60)) * time.Millisecond
			}
			return 0
		}
		f.stub.onRes = func(tx []byte, c uint32) {
			if c == codeFull {
				return
			}
			k := txKey(tx)
			if c == 0 && n.storeH == n.stateH {
				p.okAt[okKey{inc, k}] = n.storeH
			} else {
				p.okAt[okKey{inc, k}] = -1
			}
			p.sent[inc][k]++
			if p.sent[inc][k] > p.subm[inc][k] {
				p.w.violate("broadcast-again", "n%d broadcasts %s %d times, it was submitted %d times", n.id, p.l.txOf(k), p.sent[inc][k], p.subm[inc][k])
			}
		}
		for len(p.fr) <= n.id {
			p.fr = append(p.fr, nil)
		}
		p.fr[n.id] = f
		if n.mp != nil {
			lr := r.Fork("lag")
			n.mp.lag = func() time.Duration {
				if lr.P(1, 2) {
					return time.Duration(lr.N(25)) * time.Millisecond
				}
				return 0
			}
			if p.small {
				n.mp.max = 6
			}
		}
	}
}

// prepare builds the transactions of every user: a run of nonces, some of which
// have two candidates.
func (p *rpcPool) prepare(l *Live) {
	r := NewRng(p.w.seed, "c18txs")
	rg := l.rg
	for i, u := range rg.users[:r.In(1, 4)] {
		base := seqOf(rg.n0(), rg.n0().committedCtx(), u)
		p.base[u], p.count[u] = base, r.In(3, 14)
		p.txs[u] = map[uint64][]*Tx{}
		for k := 0; k < p.count[u]; k++ {
			q := base + uint64(k)
			c := 1
			if r.P(1, 8) {
				c = 2
			}
			if k > 0 && r.P(1, 8) {
				rg.opIdx = i*16 + k
				gas := uint64(r.In(150_000, 400_000))
				fee := sdk.NewCoins(sdk.NewCoin(feeDenom, math.NewInt(rg.gasPrice).MulRaw(int64(gas))))
				t := rg.cosmosN("bank", []*Acct{u}, gas, TxOpts{Fee: fee, Sequence: &q}, msgSend(u, pick(r, rg.users), 1))
				p.txs[u][q] = append(p.txs[u][q], t)
				l.all[t.hash] = t
				continue
			}
			for j := 0; j < c; j++ {
				rg.opIdx = i*16 + k
				to := pick(r, rg.users).eth
				x := EthArgs{Type: r.N(3), Nonce: q, To: &to, Gas: uint64(r.In(150_000, 400_000)), Value: big.NewInt(int64(r.N(1000))), FeeCap: big.NewInt(rg.gasPrice * int64(r.In(1, 5)))}
				if r.P(1, 3) {
					x.To, x.Value, x.Data = &rg.con[0], nil, liveScript(r)
				}
				t, err := rg.ethereum("raw", u, x)
				if err != nil {
					p.w.abort("eth: %v", err)
				}
				p.txs[u][q] = append(p.txs[u][q], t)
				p.byEth[t.eth.Hash()] = t
				l.all[t.hash] = t
			}
		}
	}
}

// submit sends one transaction and waits for the answer.
func (p *rpcPool) submit(n *Node, t *Tx) *sub {
	if !n.up || n.inc.dead || p.fr[n.id] == nil {
		return nil
	}
	f := p.fr[n.id]
	if t.eth == nil {
		// a transaction of another kind by the same account
		s := &sub{t: t, n: n, inc: n.inc, h: p.l.rg.c.height()}
		p.subs = append(p.subs, s)
		res, ok := n.mp.check(t.bz)
		s.done, s.acked = true, ok && res.Code == 0
		if ok && !s.acked {
			s.err = res.Log
		}
		p.w.count("cosmos_submissions")
		return s
	}
	s := &sub{t: t, n: n, inc: f.inc, h: p.l.rg.c.height()}
	p.subs = append(p.subs, s)
	p.subm[f.inc][t.hash]++
	raw, err := t.eth.MarshalBinary()
	if err != nil {
		p.w.abort("raw: %v", err)
	}
	out, rerr, ok := f.call("eth_sendRawTransaction", hexutil.Bytes(raw))
	s.done = true
	switch {
	case !ok:
		s.err = "node died"
	case rerr != nil:
		s.err = rerr.Error()
	default:
		var h common.Hash
		if json.Unmarshal(out, &h) != nil || h != t.eth.Hash() {
			p.w.violate("wrong-hash", "n%d answers the submission of %s with %s", n.id, t, out)
		}
		s.acked = true
	}
	p.w.count("submissions")
	if s.acked {
		p.w.count("acked")
		if h, ok := p.okAt[okKey{f.inc, t.hash}]; ok && h >= 0 {
			var q hexutil.Uint64
			if p.ask(n, "eth_getTransactionCount", &q, t.from.eth, "pending") && f.inc == n.inc && n.storeH == h && n.stateH == h {
				p.w.count("pending_after_ack")
				if uint64(q) <= t.seq {
					p.w.violate("pending-nonce", "n%d gives the pending nonce %d of user %d after it took %s into its mempool at height %d", n.id, q, t.from.idx, t, h)
				}
			}
		}
	} else {
		e := s.err
		if i := strings.IndexAny(e, ":,"); i > 0 {
			e = e[:i]
		}
		p.w.reach("refused." + e)
		p.w.logf("n%d refuses %s: %s", n.id, t, trunc(s.err))
	}
	return s
}

// holder is a running node that acknowledged a transaction with that nonce.
func (p *rpcPool) holder(u *Acct, q uint64) *sub {
	for i := len(p.subs) - 1; i >= 0; i-- {
		s := p.subs[i]
		if s.t.from == u && s.t.seq == q && s.acked && s.inc == s.n.inc && !s.inc.dead {
			return s
		}
	}
	return nil
}

func (p *rpcPool) seq(u *Acct) uint64 { n := p.l.rg.n0(); return seqOf(n, n.committedCtx(), u) }

func scC18(w *World) {
	cr := NewRng(w.seed, "c18")
	p := &rpcPool{w: w, base: map[*Acct]uint64{}, count: map[*Acct]int{}, txs: map[*Acct]map[uint64][]*Tx{}, byEth: map[common.Hash]*Tx{},
		sent: map[*Inc]map[[32]byte]int{}, subm: map[*Inc]map[[32]byte]int{}, okAt: map[okKey]int64{}}
	clients := cr.In(1, 5)
	pace := pick(cr, []int{5, 40, 300})
	lists := make([][]*Tx, clients)
	p.small = cr.P(1, 5)
	l := runLive(w, LiveOpts{Nodes: pick(cr, []int{1, 1, 1, 2, 3}), Blocks: cr.In(5, 10), Clients: clients + 1, Crash: pick(cr, []int{0, 0, 10}), Cut: cr.P(1, 3), Scripts: 1,
		Streams: true, MinB: pick(cr, []int{20, 100, 400}),
		Opts:   RigOpts{MinGas: 100, MaxGas: 2_000_000_000, MaxBytes: 4_000_000},
		OnNode: func(l *Live, n *Node) { p.l = l; p.onNode(l, n) },
		Cfg: func(i int, r *Rng) NodeCfg {
			c := defaultCfg(i, r)
			c.Index = true
			c.QueryGas, c.SimGas, c.MempoolN, c.MinRetain = 0, 0, 0, 0
			return c
		},
		Pre: func(l *Live) {
			p.prepare(l)
			r := NewRng(w.seed, "c18lists")
			for _, u := range l.rg.users {
				if p.count[u] == 0 {
					continue
				}
				one := r.N(clients)
				spread := r.P(2, 3)
				for k := 0; k < p.count[u]; k++ {
					for _, t := range p.txs[u][p.base[u]+uint64(k)] {
						c := one
						if spread {
							c = r.N(clients)
						}
						lists[c] = append(lists[c], t)
						if r.P(1, 6) {
							lists[r.N(clients)] = append(lists[r.N(clients)], t)
						}
					}
				}
			}
			for c := range lists {
				// in nonce order, nearly, or in any order
				reach := pick(r, []int{0, 3, 3, 100})
				key := make(map[*Tx]int)
				for _, t := range lists[c] {
					key[t] = int(t.seq-p.base[t.from]) + r.N(reach+1)
				}
				sort.SliceStable(lists[c], func(i, j int) bool { return key[lists[c][i]] < key[lists[c][j]] })
			}
		},
		Client: func(l *Live, k int, r *Rng) {
			if k == clients {
				for !l.idle {
					l.pause(r.N(200))
					p.look(pick(r, l.rg.nodes), r)
				}
				return
			}
			home := pick(r, l.rg.nodes)
			for _, t := range lists[k] {
				if !w.on(t.op) {
					continue
				}
				l.pause(r.N(pace))
				if r.P(1, 4) || !home.up || home.inc.dead {
					home = pick(r, l.rg.nodes)
				}
				if s := p.submit(home, t); s == nil {
					l.pause(100)
				}
			}
		},
	})
	p.finish(l)
	l.settle()
}

// finish closes the gaps that refusals and crashes left, waits, and judges.
func (p *rpcPool) finish(l *Live) {
	w, rg := p.w, l.rg
	r := NewRng(w.seed, "c18end")
	tries := map[*Tx]int{}
	want := func(u *Acct) uint64 { return p.base[u] + uint64(p.count[u]) }
	// some user's transactions removed by the minimiser leave a shorter run
	has := func(u *Acct, q uint64) *Tx {
		for _, t := range p.txs[u][q] {
			if w.on(t.op) {
				return t
			}
		}
		return nil
	}
	top := map[*Acct]uint64{}
	for u := range p.count {
		q := p.base[u]
		for q < want(u) && has(u, q) != nil {
			q++
		}
		top[u] = q
	}
	beyond := false // transactions above a gap that is never closed
	for u, q := range top {
		beyond = beyond || q < want(u)
	}
	quiet := 0
	last := ""
	for quiet < 8+2*len(rg.nodes) {
		state := ""
		done := true
		for _, u := range rg.users {
			if p.count[u] == 0 {
				continue
			}
			for q := p.seq(u); q < top[u]; q++ {
				done = false
				if p.holder(u, q) == nil {
					t := has(u, q)
					n := pick(r, rg.nodes)
					if s := p.submit(n, t); s != nil && !s.acked {
						if tries[t]++; tries[t] > 40 {
							w.violate("refused", "n%d still refuses %s after 40 attempts: %s", n.id, t, s.err)
						}
					}
					w.count("resubmitted")
				}
			}
			state += fmt.Sprint(p.seq(u), " ")
		}
		if done {
			break
		}
		if state == last {
			quiet++
		} else {
			last, quiet = state, 0
		}
		l.round()
		for k := 0; k < 100 && rg.n0().stateH < rg.c.height(); k++ {
			l.pause(20)
		}
	}
	for _, u := range rg.users {
		if c := p.seq(u); p.count[u] > 0 && c < top[u] {
			s := p.holder(u, c)
			if s == nil {
				w.violate("refused", "sequence %d of user %d is not accepted by any node", c, u.idx)
				continue
			}
			inPool := s.n.mp.in[s.t.hash]
			w.violate("acked-lost", "%s, acknowledged by n%d at height %d, is in no block up to height %d, though every lower nonce is, %d blocks after all submissions ended; broadcast by the node: %d times, in its mempool: %v", s.t, s.n.id, s.h, rg.c.height(), quiet, p.sent[s.inc][s.t.hash], inPool)
		}
	}
	// the blocks still due, and then every node must have forgotten its pool
	for k := 0; k < 3; k++ {
		l.round()
	}
	for k := 0; k < 300; k++ {
		ok := true
		for _, n := range rg.nodes {
			ok = ok && n.up && !n.inc.dead && n.stateH == rg.c.height() && n.storeH == n.stateH
		}
		if ok {
			break
		}
		l.pause(50)
	}
	l.pause(2500)
	for _, n := range rg.nodes {
		p.final(n, beyond)
	}
}

func (p *rpcPool) ask(n *Node, method string, out any, args ...any) bool {
	f := p.fr[n.id]
	if f == nil || !n.up || n.inc.dead || f.inc != n.inc {
		return false
	}
	raw, err, ok := f.call(method, args...)
	if !ok {
		return false
	}
	if err != nil {
		p.w.violate("query-error", "n%d: %s(%s) fails: %v", n.id, method, argStr(args), err)
		return false
	}
	if err := json.Unmarshal(raw, out); err != nil {
		p.w.violate("query-answer", "n%d: %s(%s) answers %s: %v", n.id, method, argStr(args), trunc(string(raw)), err)
		return false
	}
	return true
}

type poolListing map[string]map[string]map[string]*jTx

// look asks for the state of the pool while transactions come and go.
func (p *rpcPool) look(n *Node, r *Rng) {
	switch r.N(4) {
	case 0:
		var c poolListing
		if p.ask(n, "txpool_content", &c) {
			p.listing(n, c)
			p.w.count("pool_listings")
		}
	case 1:
		var st map[string]hexutil.Uint
		p.ask(n, "txpool_status", &st)
	case 2:
		u := pick(r, p.l.rg.users)
		if p.count[u] == 0 {
			return
		}
		h := n.ackH
		var q hexutil.Uint64
		lo := uint64(0)
		if h > 0 && h == n.stateH {
			n.do("read", func() {
				if ctx, err := n.ctxAt(h); err == nil {
					lo = seqOf(n, ctx, u)
				}
			})
		}
		if p.ask(n, "eth_getTransactionCount", &q, u.eth, "pending") {
			if uint64(q) < lo || uint64(q) > p.base[u]+uint64(p.count[u]) {
				p.w.violate("pending-nonce", "n%d gives the pending nonce %d of user %d, %d are committed and the highest transaction has %d", n.id, q, u.idx, lo, p.base[u]+uint64(p.count[u])-1)
			}
			p.w.count("pending_nonce_queries")
		}
	default:
		s := p.subs
		if len(s) == 0 {
			return
		}
		t := pick(r, s).t
		if t.eth == nil {
			return
		}
		var j *jTx
		if p.ask(n, "eth_getTransactionByHash", &j, t.eth.Hash()) && j != nil {
			if d := sameTx(j, t); d != "" {
				p.w.violate("tx-by-hash", "n%d answers eth_getTransactionByHash of %s with %s", n.id, t, d)
			}
		}
	}
}

// listing checks that a pool listing contains submitted transactions as signed.
func (p *rpcPool) listing(n *Node, c poolListing) (pending, queued int) {
	for _, part := range []string{"pending", "queued"} {
		if c[part] == nil {
			p.w.violate("pool-listing", "n%d: the pool listing has no part %q", n.id, part)
		}
		for acc, m := range c[part] {
			for nonce, j := range m {
				t := p.byEth[j.Hash]
				if t == nil {
					p.w.violate("pool-listing", "n%d lists as %s a transaction %s nobody submitted", n.id, part, j.Hash)
					return
				}
				if d := sameTx(j, t); d != "" {
					p.w.violate("pool-listing", "n%d lists as %s %s with %s", n.id, part, t, d)
				}
				if acc != t.from.eth.Hex() || nonce != fmt.Sprint(t.seq) {
					p.w.violate("pool-listing", "n%d lists as %s %s under %s, %s", n.id, part, t, acc, nonce)
				}
				if part == "pending" {
					pending++
				} else {
					queued++
				}
			}
		}
	}
	return
}

// final checks a node when everything is included.
func (p *rpcPool) final(n *Node, beyond bool) {
	w, rg := p.w, p.l.rg
	if !n.up || n.inc.dead || n.stateH != rg.c.height() {
		return
	}
	for _, u := range rg.users {
		if p.count[u] == 0 {
			continue
		}
		var q hexutil.Uint64
		if p.ask(n, "eth_getTransactionCount", &q, u.eth, "pending") && uint64(q) != p.seq(u) {
			w.violate("pending-nonce", "n%d gives the pending nonce %d of user %d with nothing pending, it is %d", n.id, q, u.idx, p.seq(u))
		}
		for _, ts := range p.txs[u] {
			for _, t := range ts {
				if t.eth == nil {
					continue
				}
				at, in := p.l.inBlk[t.hash]
				var j *jTx
				if !p.ask(n, "eth_getTransactionByHash", &j, t.eth.Hash()) {
					continue
				}
				if in != (j != nil) {
					w.violate("tx-by-hash", "n%d answers eth_getTransactionByHash of %s with %v, it is in block %d", n.id, t, j, at)
				} else if in {
					if d := sameTx(j, t); d != "" {
						w.violate("tx-by-hash", "n%d answers eth_getTransactionByHash of %s with %s", n.id, t, d)
					}
					if j.BlockNumber == nil || j.BlockNumber.ToInt().Int64() != at {
						w.violate("tx-by-hash", "n%d places %s in block %v, it is in %d", n.id, t, j.BlockNumber, at)
					}
				}
				w.count("tx_lookups")
			}
		}
	}
	var st map[string]hexutil.Uint
	var c poolListing
	if p.ask(n, "txpool_content", &c) && p.ask(n, "txpool_status", &st) {
		pd, qd := p.listing(n, c)
		if pd != 0 || st["pending"] != 0 {
			w.violate("pool-listing", "n%d lists %d pending transactions (status %d) when all are included", n.id, pd, st["pending"])
		}
		if !beyond && (qd != 0 || st["queued"] != 0) {
			w.violate("pool-listing", "n%d lists %d queued transactions (status %d) when all are included", n.id, qd, st["queued"])
		}
	}
}
