package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"math/big"
	"net"
	"runtime"
	"time"

	rpcconfig "github.com/initia-labs/minievm/jsonrpc/config"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/rpc"
)

func init() { scenarios["C17"] = scC17 }

// slack is the simulated time after which an event must have reached a filter.
const slack = 100 * time.Millisecond

// stallMax is the longest any request may take without faults of its own.
const stallMax = 3 * time.Second

// oev is something that happened, that filters are to deliver.
type oev struct {
	key        string
	begin, end time.Time
	h          int64
}

// watcher is one filter or subscription of a client.
type watcher struct {
	kind   string // block, logs, pending, full
	sub    bool
	id     string
	crit   *logCrit
	t0, t1 time.Time // creation
	items  []string
	polls  []time.Time
	upto   []int // items received after each poll
	raw    []json.RawMessage
	inc    *Inc
	who    string
}

type feeds struct {
	w       *World
	rg      *Rig
	n       *Node
	f       *Front
	or      *Oracle
	r       *Rng
	timeout time.Duration
	blocks  map[int64]*oev
	pend    []*oev
	ws      []*watcher
	stop    bool
	begin   chan struct{} // closed when the next block starts
	busy    bool
	stalled bool // a subscriber does not read
	live    int
	lo      int64
	evs     map[common.Hash]*Tx
	slowest map[string]time.Duration
}

func (d *feeds) took(what string, t time.Time) {
	e := time.Since(t)
	if e > d.slowest[what] {
		d.slowest[what] = e
	}
	if e > stallMax {
		d.w.violate("stall", "%s takes %v of simulated time (a subscriber that does not read: %v)", what, e, d.stalled)
	}
}

func (d *feeds) up(n *Node) {
	d.or.watch(n)
	d.f = newFront(n, func(c *rpcconfig.JSONRPCConfig) { c.FilterTimeout = d.timeout })
}

// make produces transactions and blocks.
func (d *feeds) make(blocks int) {
	w, rg, n := d.w, d.rg, d.n
	r := NewRng(w.seed, "c17make")
	pace := pick(r, []int{20, 200, 800})
	burst := pick(r, []int{4, 7, 16})
	for b := 0; b < blocks; b++ {
		for k := r.N(burst); k > 0; k-- {
			time.Sleep(time.Duration(r.N(pace)) * time.Millisecond)
			u := pick(r, rg.users)
			rg.opIdx = b*16 + k
			gas := uint64(r.In(300_000, 1_500_000))
			var t *Tx
			if r.P(1, 6) {
				t = rg.cosmos("call", u, gas, msgCall(u, pick(r, rg.con), liveScript(r), nil))
			} else {
				var s script
				for j := r.In(1, 4); j > 0; j-- {
					switch r.N(5) {
					case 0:
						s = s.call(fCALLs(r), pick(r, rg.con), 0, 100_000, byte(r.N(2))*fReq, 0, script{}.log(r.N(5), r.N(5)))
					case 1:
						s = append(s, liveScript(r)...)
					default:
						var tp []int
						for q := r.N(5); q > 0; q-- {
							tp = append(tp, r.N(3))
						}
						s = s.log(r.N(4), tp...)
					}
				}
				var v *big.Int
				t = rg.eth("call", u, &rg.con[r.N(len(rg.con))], gas, v, s)
			}
			if !w.on(b*16 + k) {
				u.next--
				continue
			}
			if r.P(1, 5) {
				// not for this node: the sequence is wrong
				d.admit(t, true)
				continue
			}
			d.admit(t, false)
		}
		time.Sleep(time.Duration(r.N(pace)) * time.Millisecond)
		if n.inc.dead {
			return
		}
		txs := n.mp.reap()
		h := rg.c.height() + 1
		if len(txs) > 0 && r.P(1, 5) {
			txs = txs[:r.N(len(txs))]
		}
		e := &oev{h: h, begin: time.Now()}
		ch := d.begin
		d.begin, d.busy = make(chan struct{}), true
		close(ch)
		rg.runRaw(txs)
		e.end, d.busy = time.Now(), false
		d.blocks[h] = e
		d.took("block", e.begin)
		rg.sync()
		for _, u := range rg.users {
			u.next = n.pendingSeq(u)
		}
		if r.P(1, 9) {
			n.crash(false, "between blocks")
			time.Sleep(time.Duration(r.N(500)) * time.Millisecond)
			if !n.start(rg.c) {
				w.abort("the node does not come up: %s", n.inc.why)
			}
			w.count("restarts")
			rg.sync()
		}
	}
}

func fCALLs(r *Rng) byte { return pick(r, []byte{sCALL, sDELEG}) }

func (d *feeds) admit(t *Tx, spoil bool) {
	n := d.n
	if n.inc.dead {
		return
	}
	if spoil {
		// a gap: the admission must fail
		u := t.from
		if t.eth == nil {
			return
		}
		x, err := d.rg.ethereum("gap", u, EthArgs{Type: 2, Nonce: t.seq + 3, To: t.eth.To(), Gas: t.gas, Data: t.eth.Data()})
		if err != nil {
			d.w.abort("%v", err)
		}
		u.next--
		t = x
	}
	e := &oev{begin: time.Now()}
	res, ok := n.mp.check(t.bz)
	e.end = time.Now()
	if !ok {
		return
	}
	d.took("CheckTx", e.begin)
	if res.Code != 0 {
		d.w.count("refused_admissions")
		return
	}
	if t.eth != nil {
		e.key = t.eth.Hash().Hex()
		d.evs[t.eth.Hash()] = t
		d.pend = append(d.pend, e)
		d.w.count("admissions")
	}
}

func (d *feeds) call(f *Front, cl *rpc.Client, out any, method string, args ...any) (error, bool) {
	t := time.Now()
	raw, err, ok := f.callWith(cl, method, args...)
	if !ok {
		return nil, false
	}
	d.took(method, t)
	if err != nil {
		return err, true
	}
	if out != nil {
		if err := json.Unmarshal(raw, out); err != nil {
			d.w.violate("rpc-format", "%s answers %s: %v", method, trunc(string(raw)), err)
			return nil, false
		}
	}
	return nil, true
}

// create installs a random filter or subscription.
func (d *feeds) create(f *Front, cl *rpc.Client, r *Rng, who string) *watcher {
	x := &watcher{kind: pick(r, []string{"block", "logs", "logs", "logs", "pending", "full"}), inc: f.inc, who: who, t0: time.Now()}
	method := ""
	var args []any
	switch x.kind {
	case "block":
		method = "eth_newBlockFilter"
	case "pending":
		method = "eth_newPendingTransactionFilter"
		if r.P(1, 2) {
			args = []any{false}
		}
	case "full":
		method, args = "eth_newPendingTransactionFilter", []any{true}
	case "logs":
		method = "eth_newFilter"
		hi := max(d.n.ackH, d.lo)
		x.crit = d.or.randCrit(r, d.lo, hi)
		if r.P(1, 3) {
			x.crit = &logCrit{}
		}
		switch r.N(4) {
		case 0:
			x.crit.from = max(1, hi+int64(r.N(5))-2)
			x.crit.to = x.crit.from + int64(r.N(6))
		case 1:
			x.crit.from = max(1, hi+int64(r.N(5))-2)
		}
		args = []any{x.crit.arg()}
	}
	err, ok := d.call(f, cl, &x.id, method, args...)
	if !ok {
		return nil
	}
	if err != nil {
		d.w.violate("refused", "%s%s fails: %v", method, argStr(args), err)
		return nil
	}
	x.t1 = time.Now()
	d.ws = append(d.ws, x)
	d.w.count("filters." + x.kind)
	return x
}

func (d *feeds) poll(f *Front, cl *rpc.Client, x *watcher) bool {
	var got []json.RawMessage
	t := time.Now()
	err, ok := d.call(f, cl, &got, "eth_getFilterChanges", x.id)
	if !ok {
		return false
	}
	if err != nil {
		last := x.t1
		if len(x.polls) > 0 {
			last = x.polls[len(x.polls)-1]
		}
		if idle := time.Since(last); idle < d.timeout {
			d.w.violate("dropped-early", "%s: the %s filter fails %v after its last use (timeout %v): %v", x.who, x.kind, idle, d.timeout, err)
		} else {
			d.w.count("expired")
		}
		return false
	}
	d.w.count("polls")
	x.polls = append(x.polls, t)
	for _, g := range got {
		x.raw = append(x.raw, g)
	}
	x.upto = append(x.upto, len(x.raw))
	return true
}

// client creates, polls and drops filters.
func (d *feeds) client(k int) {
	defer func() { d.live-- }()
	r := NewRng(d.w.seed, fmt.Sprintf("c17client%d", k))
	for !d.stop {
		f := d.f
		if f == nil || f.inc.dead {
			time.Sleep(100 * time.Millisecond)
			continue
		}
		cl := rpc.DialInProc(f.srv)
		var fs []*watcher
		gap := pick(r, []int{30, 300, 2000})
		eager := r.P(1, 2)
		for n := r.In(3, 25); n > 0 && !d.stop && !f.inc.dead; n-- {
			wait := time.Duration(r.N(gap)) * time.Millisecond
			if r.P(1, 15) {
				// as long as may be, or longer
				wait = d.timeout * time.Duration(pick(r, []int{90, 97, 130, 220})) / 100
			}
			time.Sleep(wait)
			if eager && len(fs) > 0 {
				// polls while a block is executed and its events are sent out
				select {
				case <-d.begin:
				case <-time.After(d.timeout / 2):
				}
				for k := r.In(5, 40); (k > 0 || d.busy) && len(fs) > 0 && !f.inc.dead; k-- {
					i := r.N(len(fs))
					if !d.poll(f, cl, fs[i]) {
						fs = append(fs[:i:i], fs[i+1:]...)
					}
				}
				d.w.count("eager")
				continue
			}
			switch {
			case len(fs) == 0 || (len(fs) < 4 && r.P(1, 5)):
				if x := d.create(f, cl, r, fmt.Sprintf("client %d", k)); x != nil {
					fs = append(fs, x)
				}
			case r.P(1, 12):
				i := r.N(len(fs))
				x := fs[i]
				fs = append(fs[:i:i], fs[i+1:]...)
				d.poll(f, cl, x)
				var gone bool
				if err, ok := d.call(f, cl, &gone, "eth_uninstallFilter", x.id); ok && err != nil {
					d.w.violate("refused", "eth_uninstallFilter fails: %v", err)
				}
				var got any
				if err, ok := d.call(f, cl, &got, "eth_getFilterChanges", x.id); ok && err == nil {
					d.w.violate("not-uninstalled", "an uninstalled %s filter still answers", x.kind)
				}
				d.w.count("uninstalled")
			case r.P(1, 8):
				d.filterLogs(f, cl, pick(r, fs))
			default:
				x := pick(r, fs)
				if !d.poll(f, cl, x) {
					for i := range fs {
						if fs[i] == x {
							fs = append(fs[:i:i], fs[i+1:]...)
							break
						}
					}
				}
			}
		}
		if r.P(1, 3) {
			cl.Close()
			d.w.count("vanished")
			continue
		}
		time.Sleep(slack * 2)
		for _, x := range fs {
			d.poll(f, cl, x)
		}
		cl.Close()
	}
}

// filterLogs compares the logs of a filter with a search for the same.
func (d *feeds) filterLogs(f *Front, cl *rpc.Client, x *watcher) {
	if x.kind != "logs" {
		return
	}
	h, s := d.n.stateH, d.n.storeH
	var a, b []json.RawMessage
	err, ok := d.call(f, cl, &a, "eth_getFilterLogs", x.id)
	if !ok || err != nil {
		return
	}
	err, ok = d.call(f, cl, &b, "eth_getLogs", x.crit.arg())
	if !ok || err != nil || h != s || d.n.stateH != h || d.n.storeH != h {
		return
	}
	if fmt.Sprintf("%s", a) != fmt.Sprintf("%s", b) {
		d.w.violate("filter-logs", "eth_getFilterLogs of a filter for %s gives %d logs, eth_getLogs %d, at height %d", argStr([]any{x.crit.arg()}), len(a), len(b), h)
	}
	d.w.count("filter_logs")
}

// subscriber listens on a connection.
func (d *feeds) subscriber(k int) {
	defer func() { d.live-- }()
	r := NewRng(d.w.seed, fmt.Sprintf("c17sub%d", k))
	for !d.stop {
		f := d.f
		if f == nil || f.inc.dead {
			time.Sleep(100 * time.Millisecond)
			continue
		}
		time.Sleep(time.Duration(r.N(2000)) * time.Millisecond)
		if f.inc.dead {
			continue
		}
		cl := rpc.DialInProc(f.srv)
		x := &watcher{kind: pick(r, []string{"block", "logs", "logs", "pending", "full"}), sub: true, inc: f.inc, who: fmt.Sprintf("subscriber %d", k), t0: time.Now()}
		ch := make(chan json.RawMessage, 8)
		var args []any
		switch x.kind {
		case "block":
			args = []any{"newHeads"}
		case "logs":
			x.crit = d.or.randCrit(r, d.lo, max(d.n.ackH, d.lo))
			args = []any{"logs", x.crit.arg()}
		case "pending":
			args = []any{"newPendingTransactions"}
		default:
			args = []any{"newPendingTransactions", true}
		}
		var sub *rpc.ClientSubscription
		var err error
		ok := f.n.do("subscribe", func() { sub, err = cl.EthSubscribe(context.Background(), ch, args...) })
		if !ok || f.inc.dead {
			continue
		}
		if err != nil {
			d.w.violate("refused", "eth_subscribe%s fails: %v", argStr(args), err)
			return
		}
		x.t1 = time.Now()
		d.ws = append(d.ws, x)
		d.w.count("subscriptions." + x.kind)
		end := time.After(time.Duration(r.In(500, 30_000)) * time.Millisecond)
		lazy := r.P(1, 3)
	loop:
		for !f.inc.dead {
			select {
			case m := <-ch:
				x.raw = append(x.raw, m)
				if lazy {
					time.Sleep(time.Duration(r.N(400)) * time.Millisecond)
				}
			case <-end:
				break loop
			case <-sub.Err():
				break loop
			case <-time.After(200 * time.Millisecond):
				if d.stop {
					break loop
				}
			}
		}
		if f.inc.dead {
			continue
		}
		// all that happened a while ago must have come
		t := time.Now()
		time.Sleep(2 * slack)
		for more := !f.inc.dead; more; {
			select {
			case m := <-ch:
				x.raw = append(x.raw, m)
			case <-time.After(10 * time.Millisecond):
				more = false
			}
		}
		if f.inc.dead {
			continue
		}
		x.polls = append(x.polls, t)
		x.upto = append(x.upto, len(x.raw))
		if r.P(1, 2) {
			sub.Unsubscribe()
		}
		cl.Close()
	}
}

// stickyConn is a connection that is broken after a failed write, as those of
// websockets are.
type stickyConn struct {
	net.Conn
	err error
}

func (c *stickyConn) Write(b []byte) (int, error) {
	if c.err != nil {
		return 0, c.err
	}
	n, err := c.Conn.Write(b)
	c.err = err
	return n, err
}

// deaf subscribes and stops reading.
func (d *feeds) deaf(k int) {
	defer func() { d.live-- }()
	r := NewRng(d.w.seed, fmt.Sprintf("c17deaf%d", k))
	for !d.stop {
		f := d.f
		if f == nil || f.inc.dead {
			time.Sleep(100 * time.Millisecond)
			continue
		}
		time.Sleep(time.Duration(r.N(5000)) * time.Millisecond)
		if f.inc.dead {
			continue
		}
		a, b := net.Pipe()
		go f.srv.ServeCodec(rpc.NewCodec(&stickyConn{Conn: a}), 0)
		what := pick(r, []string{`["newHeads"]`, `["logs",{}]`, `["newPendingTransactions"]`})
		fmt.Fprintf(b, `{"jsonrpc":"2.0","id":1,"method":"eth_subscribe","params":%s}`+"\n", what)
		rd := bufio.NewReader(b)
		rd.ReadString('\n')
		d.w.count("deaf_subscribers")
		d.w.fault("subscriber_stops_reading")
		d.stalled = true
		time.Sleep(time.Duration(r.N(40_000)) * time.Millisecond)
		if r.P(1, 2) {
			b.Close()
		}
	}
}

func scC17(w *World) {
	cr := NewRng(w.seed, "c17")
	rg := newRig(w, RigOpts{Users: 4, MinGas: 0})
	rg.plain = true
	d := &feeds{w: w, rg: rg, r: cr, blocks: map[int64]*oev{}, evs: map[common.Hash]*Tx{}, slowest: map[string]time.Duration{}}
	d.begin = make(chan struct{})
	d.timeout = time.Duration(pick(cr, []int{2, 10, 60})) * time.Second
	cfg := defaultCfg(0, cr)
	cfg.Index = true
	cfg.QueryGas, cfg.SimGas, cfg.MempoolN, cfg.MinRetain = 0, 0, 0, 0
	if cr.P(1, 4) {
		cfg.MempoolN = cr.In(3, 6) // the application's pool refuses more
	}
	d.n = rg.addNode(cfg)
	rg.boot()
	rg.deployScripts(2)
	rg.sync()
	d.lo = rg.c.height() + 1
	d.or = newOracle(rg)
	time.Sleep(time.Second) // the events of the blocks so far are out
	d.n.onUp = d.up
	d.up(d.n)
	runtime.DetYieldRates(pick(cr, []uint32{0, 4096, 20000, 30000, 30000}), pick(cr, []uint32{0, 0, 64}))
	start := func(f func(int), k int) {
		d.live++
		go f(k)
	}
	for k := cr.In(1, 6); k > 0; k-- {
		start(d.client, k)
	}
	for k := cr.N(4); k > 0; k-- {
		start(d.subscriber, k)
	}
	if cr.P(1, 3) {
		start(d.deaf, 1)
	}
	d.make(cr.In(8, 25))
	time.Sleep(2 * slack)
	d.stop = true
	for k := 0; k < 6000 && d.live > 0; k++ {
		time.Sleep(100 * time.Millisecond)
	}
	if d.live > 0 {
		w.violate("stall", "%d clients do not come back", d.live)
	}
	for _, x := range d.ws {
		d.judge(x)
	}
	p := d.or.probe(d.f)
	for h := d.lo; h <= rg.c.height(); h++ {
		p.block(h, cr)
	}
	if w.verbose {
		w.logf("slowest %v", d.slowest)
	}
}

// item turns what was delivered into the key of what happened.
func (d *feeds) item(x *watcher, raw json.RawMessage, p *Probe, bh map[common.Hash]int64) string {
	bad := func(f string, a ...any) string {
		d.w.violate("delivered", "%s: the %s filter delivers %s", x.who, x.kind, fmt.Sprintf(f, a...))
		return ""
	}
	switch x.kind {
	case "block":
		var h common.Hash
		if x.sub {
			var j struct {
				Hash   common.Hash `json:"hash"`
				Number string      `json:"number"`
			}
			if json.Unmarshal(raw, &j) != nil {
				return bad("%s", trunc(string(raw)))
			}
			h = j.Hash
		} else if json.Unmarshal(raw, &h) != nil {
			return bad("%s", trunc(string(raw)))
		}
		n, ok := bh[h]
		if !ok {
			return bad("the hash %s of no block after %v", h, x.items)
		}
		return fmt.Sprint("b", n)
	case "pending":
		var h common.Hash
		if json.Unmarshal(raw, &h) != nil {
			return bad("%s", trunc(string(raw)))
		}
		if d.evs[h] == nil {
			return bad("%s, which the mempool did not take", h)
		}
		return h.Hex()
	case "full":
		var j jTx
		if json.Unmarshal(raw, &j) != nil {
			return bad("%s", trunc(string(raw)))
		}
		t := d.evs[j.Hash]
		if t == nil {
			return bad("%s, which the mempool did not take", j.Hash)
		}
		if e := sameTx(&j, t); e != "" {
			return bad("%s with %s", t, e)
		}
		return j.Hash.Hex()
	}
	var l jLog
	if json.Unmarshal(raw, &l) != nil {
		return bad("%s", trunc(string(raw)))
	}
	xs := d.or.byHash[l.TxHash]
	if len(xs) != 1 {
		return bad("a log of %s, which is in %d blocks", l.TxHash, len(xs))
	}
	o := xs[0]
	i := int(l.Index)
	if i >= len(o.logs) {
		i -= o.logBase
	}
	if i < 0 || i >= len(o.logs) {
		return bad("log %d of %s, which has %d", l.Index, o.t, len(o.logs))
	}
	if e := p.logAnswer("a filter", &l, o, i); e != "" {
		return bad("a log of %s: %s", o.t, e)
	}
	return fmt.Sprintf("l%d.%d.%d", o.blk.h, o.pos, i)
}

// judge compares what a filter delivered with what happened.
func (d *feeds) judge(x *watcher) {
	w := d.w
	p := d.or.probe(d.f)
	bh := map[common.Hash]int64{}
	var want []*oev
	switch x.kind {
	case "block":
		for h := d.lo; h <= d.rg.c.height(); h++ {
			e := d.blocks[h]
			raw, ok := p.ask("eth_getBlockByNumber", hx(h), false)
			var j jBlock
			if !ok || json.Unmarshal(raw, &j) != nil || isNull(raw) {
				w.abort("block %d is not answered: %s", h, raw)
			}
			bh[j.Hash] = h
			want = append(want, &oev{key: fmt.Sprint("b", h), begin: e.begin, end: e.end})
		}
	case "logs":
		for h := d.lo; h <= d.rg.c.height(); h++ {
			e := d.blocks[h]
			if h < x.crit.from || (x.crit.to != 0 && h > x.crit.to) {
				continue
			}
			for _, o := range d.or.blocks[h].txs {
				for i, l := range o.logs {
					if x.crit.match(l) {
						want = append(want, &oev{key: fmt.Sprintf("l%d.%d.%d", h, o.pos, i), begin: e.begin, end: e.end})
					}
				}
			}
		}
	default:
		want = d.pend
	}
	for _, raw := range x.raw {
		k := d.item(x, raw, p, bh)
		if k == "" {
			return
		}
		x.items = append(x.items, k)
	}
	what := fmt.Sprintf("%s: the %s filter", x.who, x.kind)
	if x.crit != nil {
		what += " " + argStr([]any{x.crit.arg()})
	}
	a := 0
	if len(x.items) > 0 {
		for a < len(want) && want[a].key != x.items[0] {
			a++
		}
		if a == len(want) {
			w.violate("no-match", "%s delivers %s, which does not match", what, x.items[0])
			return
		}
		if x.t0.Sub(want[a].end) > slack {
			w.violate("too-early", "%s delivers %s of %v before it was made", what, x.items[0], x.t0.Sub(want[a].end))
			return
		}
	} else {
		for a < len(want) && !want[a].begin.After(x.t1) {
			a++
		}
	}
	for i, k := range x.items {
		if a+i >= len(want) || want[a+i].key != k {
			exp := "nothing more"
			if a+i < len(want) {
				exp = want[a+i].key
			}
			w.violate("sequence", "%s delivers %v, where %s should follow %d", what, x.items, exp, i)
			return
		}
	}
	if a > 0 && want[a-1].begin.After(x.t1) {
		w.violate("missed", "%s, made at %v, does not deliver %s of %v: first is %s", what, x.t1.UnixMilli(), want[a-1].key, want[a-1].begin.UnixMilli(), append(x.items, "nothing")[0])
		return
	}
	for i, t := range x.polls {
		k := a + x.upto[i]
		if k < len(want) && want[k].begin.After(x.t1) && t.Sub(want[k].end) > slack && !(x.sub && d.stalled) {
			w.violate("missed", "%s, polled %v after %s happened, has not delivered it (%d events)", what, t.Sub(want[k].end), want[k].key, x.upto[i])
			return
		}
	}
	w.count("judged")
	w.countN("delivered", len(x.items))
}
