package main

// C10: a contract asks the chain to run messages through the cosmos
// precompile. The model below runs the same call trees over a plain state and
// a queue that belongs to each execution.

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/crypto"
)

func init() { scenarios["C10"] = scC10 }

// mstate is the state the trees work on.
type mstate struct {
	mix   *big.Int // the order record
	slots map[string]*big.Int
	bal   map[common.Address]*big.Int
	queue []*mmsg
	trace []int
}

func (s *mstate) clone() *mstate {
	c := *s
	c.slots, c.bal = cloneMap(s.slots), cloneMap(s.bal)
	c.queue = append([]*mmsg(nil), s.queue...)
	c.trace = append([]int(nil), s.trace...)
	return &c
}

func skey(a common.Address, k byte) string { return string(a.Bytes()) + string([]byte{k}) }

func (s *mstate) move(from, to common.Address, v uint64) bool {
	b := s.bal[from]
	x := new(big.Int).SetUint64(v)
	if b == nil {
		b = new(big.Int)
	}
	if b.Cmp(x) < 0 {
		return false
	}
	s.bal[from] = new(big.Int).Sub(b, x)
	t := s.bal[to]
	if t == nil {
		t = new(big.Int)
	}
	s.bal[to] = new(big.Int).Add(t, x)
	return true
}

// mmsg is a message a contract asks for.
type mmsg struct {
	json   string
	refuse bool // the request itself is refused
	sub    *mframe
	run    func(d *c10, s *mstate) bool
}

type mop struct {
	kind  string
	call  byte
	k     byte
	v     int
	to    common.Address
	value uint64
	req   bool
	rec   bool // record the outcome at k
	sub   *mframe
	msg   *mmsg
	gas   uint32
}

type mframe struct {
	ops    []mop
	end    byte // 0, sREVERT or sINVALID
	static bool
}

type c10 struct {
	w     *World
	c     *Cluster
	rec   common.Address // the recorder
	work  []common.Address
	fresh []common.Address
	st    *mstate
	tag   int
	low   bool
	known map[common.Address]bool
}

type m10 struct {
	from  *Acct
	msgs  []*mcall
	low   bool
	block int
}

type mcall struct {
	to    *common.Address
	self  common.Address
	value uint64
	f     *mframe
}

func scC10(w *World) {
	r := NewRng(w.seed, "c10")
	o := ClusterOpts{Blocks: 14, PerBlock: 5, Scripts: 5}
	if r.P(1, 3) {
		o.Replicas, o.Noise, o.Crash, o.WriteCrash = 1, 1, 8, true
	}
	d := &c10{w: w, st: &mstate{mix: new(big.Int), slots: map[string]*big.Int{}, bal: map[common.Address]*big.Int{}}, known: map[common.Address]bool{}}
	for i := 0; i < 4; i++ {
		d.fresh = append(d.fresh, common.BytesToAddress(crypto.Keccak256([]byte(fmt.Sprintf("fresh%d", i)))))
	}
	o.Gen, o.OnRef = d.gen, d.check
	o.Pre = func(c *Cluster) {
		d.c = c
		d.rec, d.work = c.rg.con[0], c.rg.con[1:]
		q := &evmQ{c.rg.n0(), c.rg.n0().committedCtx()}
		for _, a := range append(append([]common.Address{cosmosAddr}, d.work...), d.fresh...) {
			d.st.bal[a] = q.balance(a, feeDenom)
			d.known[a] = true
		}
	}
	c := runCluster(w, o)
	if r.P(1, 12) {
		d.staticProbe(c)
	}
}

// ---- generation

func (d *c10) frame(r *Rng, self common.Address, depth, nest int, static bool) *mframe {
	f := &mframe{static: static}
	n := r.In(1, 4)
	for i := 0; i < n; i++ {
		if static {
			m := d.msg(r, self, 0)
			switch r.N(4) {
			case 0:
				f.ops = append(f.ops, mop{kind: "add", k: byte(r.N(8)), v: 1})
			case 1, 2:
				f.ops = append(f.ops, mop{kind: "ask", call: sSTATIC, msg: m, gas: d.askGas(m), req: r.P(1, 4)})
			default:
				f.ops = append(f.ops, mop{kind: "burn", v: r.In(1, 50)})
			}
			continue
		}
		switch k := r.N(14); {
		case k < 2:
			f.ops = append(f.ops, mop{kind: "add", k: byte(r.N(8)), v: r.In(1, 9)})
		case k < 4:
			d.tag++
			f.ops = append(f.ops, mop{kind: "mix", v: d.tag})
		case k == 4:
			f.ops = append(f.ops, mop{kind: "caller", k: byte(8 + r.N(4))})
		case k < 9:
			m := d.msg(r, self, nest)
			o := mop{kind: "ask", call: sCALL, msg: m, req: r.P(1, 3), rec: r.P(1, 3), k: byte(12 + r.N(4)), gas: d.askGas(m)}
			switch r.N(8) {
			case 0:
				o.call = sDELEG
			case 1:
				o.call = sCCODE
			case 2:
				o.call = sSTATIC
			case 3:
				o.value = uint64(r.N(60))
			}
			o.req = o.req || d.low
			f.ops = append(f.ops, o)
		default:
			if depth == 0 {
				continue
			}
			o := mop{kind: "call", call: sCALL, to: pick(r, d.work), req: r.P(1, 3), rec: r.P(1, 4), k: byte(12 + r.N(4))}
			sub := o.to
			switch r.N(7) {
			case 0:
				o.call, sub = sDELEG, self
			case 1:
				o.call, sub = sCCODE, self
			case 2:
				o.call, o.gas = sSTATIC, 700_000
			case 3:
				o.value = uint64(r.N(500))
			}
			// a transaction that may run out of gas must not carry on after a failed call
			o.req = o.req || d.low
			o.sub = d.frame(r, sub, depth-1, nest, o.call == sSTATIC)
			if o.sub.end == sINVALID {
				o.gas = 3_000_000
			}
			f.ops = append(f.ops, o)
		}
	}
	if r.P(1, 5) {
		f.end = sREVERT
		if depth == 0 && r.P(1, 3) {
			f.end = sINVALID
		}
	}
	return f
}

// askGas is enough for the precompile, and bounds what a refusal burns.
func (d *c10) askGas(m *mmsg) uint32 { return uint32(20_000 + 3*len(m.json)) }

func bech(a common.Address) string { return sdk.AccAddress(a.Bytes()).String() }

func mustJSON(v any) string {
	bz, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(bz)
}

func jsonSend(from, to common.Address, amt uint64) map[string]any {
	return map[string]any{"@type": "/cosmos.bank.v1beta1.MsgSend", "from_address": bech(from), "to_address": bech(to),
		"amount": []map[string]string{{"denom": feeDenom, "amount": fmt.Sprint(amt)}}}
}

// msg makes a request by self.
func (d *c10) msg(r *Rng, self common.Address, nest int) *mmsg {
	other := func() common.Address {
		switch r.N(4) {
		case 0:
			return d.c.wl.user(r).eth
		case 1:
			return modAddr("fee_collector")
		}
		for {
			if a := pick(r, d.work); a != self {
				return a
			}
		}
	}
	fails := func(*c10, *mstate) bool { return false }
	switch k := r.N(24); {
	case k < 6:
		to := pick(r, append(append([]common.Address(nil), d.fresh...), d.work...))
		amt := uint64(r.In(1, 40))
		return &mmsg{json: mustJSON(jsonSend(self, to, amt)), run: func(_ *c10, s *mstate) bool { return s.move(self, to, amt) }}
	case k < 15:
		to := pick(r, d.work)
		v := uint64(r.N(3) / 2 * r.N(60))
		var f *mframe
		if nest > 0 {
			f = d.frame(r, to, 1, nest-1, false)
		} else {
			f = &mframe{}
		}
		d.tag++
		f.ops = append([]mop{{kind: "mix", v: d.tag}}, f.ops...)
		if r.P(1, 2) {
			f.ops = append(f.ops, mop{kind: "caller", k: byte(8 + r.N(4))})
		}
		if f.end != 0 && r.P(2, 3) {
			f.end = 0
		}
		return &mmsg{json: mustJSON(map[string]any{"@type": "/minievm.evm.v1.MsgCall", "sender": bech(self), "contract_addr": to.Hex(),
			"input": hexutil.Encode(d.compile(f)), "value": fmt.Sprint(v), "access_list": []any{}}), sub: f,
			run: func(d *c10, s *mstate) bool { return d.exec(s, self, to, v, f, to) }}
	case k == 15:
		d.tag++
		f := &mframe{ops: []mop{{kind: "mix", v: d.tag}}}
		if r.P(1, 5) {
			f.end = sREVERT
		}
		return &mmsg{json: mustJSON(map[string]any{"@type": "/minievm.evm.v1.MsgCreate", "sender": bech(self), "code": hexutil.Encode(ctorFor(d.work[0], d.compile(f), []byte{0})),
			"value": "0", "access_list": []any{}}),
			run: func(d *c10, s *mstate) bool { return d.exec(s, self, common.Address{}, 0, f, common.Address{}) }}
	case k == 16: // run through authz on the contract's own behalf
		to := pick(r, d.fresh)
		amt := uint64(r.In(1, 40))
		return &mmsg{json: mustJSON(map[string]any{"@type": "/cosmos.authz.v1beta1.MsgExec", "grantee": bech(self), "msgs": []any{jsonSend(self, to, amt)}}),
			run: func(_ *c10, s *mstate) bool { return s.move(self, to, amt) }}
	case k == 17 && r.P(1, 2): // on behalf of somebody who granted nothing
		return &mmsg{json: mustJSON(map[string]any{"@type": "/cosmos.authz.v1beta1.MsgExec", "grantee": bech(self), "msgs": []any{jsonSend(other(), d.fresh[0], 1)}}), run: fails}
	case k == 18 && r.P(1, 2): // more than anybody has
		return &mmsg{json: mustJSON(jsonSend(self, d.fresh[0], 1<<62)), run: fails}
	case k == 19 && r.P(1, 2):
		switch r.N(4) {
		case 0: // blocked recipient
			return &mmsg{json: mustJSON(jsonSend(self, modAddr(authtypes.FeeCollectorName), 1)), run: fails}
		case 1: // invalid
			return &mmsg{json: mustJSON(map[string]any{"@type": "/minievm.evm.v1.MsgCall", "sender": bech(self), "contract_addr": d.work[0].Hex(), "input": "zz", "value": "0", "access_list": []any{}}), run: fails}
		case 2: // not the authority
			return &mmsg{json: mustJSON(map[string]any{"@type": "/cosmos.bank.v1beta1.MsgSetSendEnabled", "authority": bech(self), "send_enabled": []any{}, "use_default_for": []any{}}), run: fails}
		default:
			return &mmsg{json: mustJSON(map[string]any{"@type": "/cosmos.bank.v1beta1.MsgSend", "from_address": bech(self), "to_address": bech(d.fresh[0]), "amount": []any{}}), run: fails}
		}
	case k < 22: // in another's name
		o := other()
		m := jsonSend(o, d.fresh[1], 1)
		if r.P(1, 2) {
			d.tag++
			m = map[string]any{"@type": "/minievm.evm.v1.MsgCall", "sender": bech(o), "contract_addr": d.work[0].Hex(),
				"input": hexutil.Encode(d.compile(&mframe{ops: []mop{{kind: "mix", v: d.tag}}})), "value": "0", "access_list": []any{}}
		}
		if r.P(1, 6) {
			m = map[string]any{"@type": "/minievm.evm.v1.MsgUpdateParams", "authority": opAuthority(), "params": nil}
		}
		return &mmsg{json: mustJSON(m), refuse: true}
	default: // not a message
		return &mmsg{json: pick(r, []string{"", "{}", "[]", `{"@type":"/x.y.Z"}`, `{"@type":"/cosmos.bank.v1beta1.MsgSend","from_address":"` + bech(self) + `","foo":1}`, `{"@type":"/cosmos.bank.v1beta1.MsgSend"`}), refuse: true}
	}
}

// compile turns a frame into a script.
func (d *c10) compile(f *mframe) script {
	var s script
	for _, o := range f.ops {
		fl := byte(0)
		if o.req {
			fl |= fReq
		}
		if o.rec {
			fl |= fOK
		}
		switch o.kind {
		case "add":
			s = s.sadd(o.k, o.v)
		case "mix":
			s = s.call(sCALL, d.rec, 0, 0, fReq, 0, script{}.mix(0, o.v))
		case "caller":
			s = s.env(3, o.k)
		case "burn":
			s = s.u8(sBURN).u16(o.v)
		case "ask":
			s = s.call(o.call, cosmosAddr, o.value, o.gas, fl, o.k, pack(abiCosmos, "execute_cosmos", o.msg.json))
		case "call":
			s = s.call(o.call, o.to, o.value, o.gas, fl, o.k, d.compile(o.sub))
		}
	}
	switch f.end {
	case sREVERT:
		s = s.u8(sREVERT).u16(7)
	case sINVALID:
		s = s.u8(sINVALID)
	}
	return s
}

// ---- model

// run executes a frame in the context of self, called by caller.
func (d *c10) run(s *mstate, f *mframe, self, caller common.Address) bool {
	for _, o := range f.ops {
		ok := true
		switch o.kind {
		case "add":
			if f.static {
				return false
			}
			k := skey(self, o.k)
			v := new(big.Int)
			if x := s.slots[k]; x != nil {
				v.Set(x)
			}
			s.slots[k] = v.Add(v, bi(int64(o.v)))
		case "mix":
			v := new(big.Int).Mul(s.mix, bi(31))
			v.Add(v, bi(int64(o.v)))
			s.mix = v.And(v, new(big.Int).Sub(new(big.Int).Lsh(bi(1), 256), bi(1)))
			s.trace = append(s.trace, o.v)
		case "caller":
			s.slots[skey(self, o.k)] = new(big.Int).SetBytes(caller.Bytes())
		case "ask":
			sub := s.clone()
			ok = !o.msg.refuse && !f.static && o.call != sSTATIC && o.call != sDELEG // delegated requests count as read-only
			if o.value > 0 && o.call == sCALL {
				ok = sub.move(self, cosmosAddr, o.value) && ok
			}
			if ok {
				sub.queue = append(sub.queue, o.msg)
				*s = *sub
			}
		case "call":
			sub := s.clone()
			to, from := o.to, self
			if o.call == sDELEG {
				to, from = self, caller
			} else if o.call == sCCODE {
				to = self
			}
			ok = true
			if o.value > 0 && o.call == sCALL {
				ok = sub.move(self, o.to, o.value)
			}
			ok = ok && d.run(sub, o.sub, to, from)
			if ok {
				*s = *sub
			}
		}
		if !ok && o.req {
			return false
		}
		if o.rec && (o.kind == "ask" || o.kind == "call") {
			v := new(big.Int)
			if ok {
				v = bi(1)
			}
			s.slots[skey(self, o.k)] = v
		}
	}
	return f.end == 0
}

// exec runs one execution with its own queue, then the messages it asked for.
func (d *c10) exec(s *mstate, from, to common.Address, v uint64, f *mframe, self common.Address) bool {
	keep := s.queue
	s.queue = nil
	if v > 0 && !s.move(from, self, v) {
		return false
	}
	if !d.run(s, f, self, from) {
		return false
	}
	q := s.queue
	s.queue = keep
	for _, m := range q {
		d.w.count("messages_due")
		if !m.run(d, s) {
			return false
		}
	}
	return true
}

// ---- blocks

func (d *c10) gen(b, per int) []*Tx {
	rg := d.c.rg
	var out []*Tx
	used := map[*Acct]bool{}
	for i := 0; i < per; i++ {
		op := b*per + i
		r := NewRng(d.w.seed+uint64(op)*7919, "c10op")
		d.tag = op * 97 % 60000
		if !d.w.on(op) {
			continue
		}
		u := pick(r, rg.users)
		if used[u] {
			continue
		}
		used[u] = true
		rg.opIdx = op
		e := &m10{from: u, block: b, low: r.P(1, 8)}
		n := 1
		if r.P(1, 4) {
			n = r.In(2, 3)
		}
		create := n == 1 && r.P(1, 8)
		var ms []sdk.Msg
		for k := 0; k < n; k++ {
			to := pick(r, d.work)
			m := &mcall{to: &to, self: to}
			if r.P(1, 4) {
				m.value = uint64(r.N(5000))
			}
			if create {
				m.to, m.self = nil, crypto.CreateAddress(u.eth, u.next)
			}
			d.low = e.low
			m.f = d.frame(r, m.self, 3, 2, false)
			d.low = false
			if r.P(3, 4) {
				m.f.end = 0
			}
			e.msgs = append(e.msgs, m)
			if create {
				ms = append(ms, msgCreate(u, ctorFor(d.work[0], d.compile(m.f), []byte{0}), new(big.Int).SetUint64(m.value)))
			} else {
				ms = append(ms, msgCall(u, to, d.compile(m.f), new(big.Int).SetUint64(m.value)))
			}
		}
		gas := uint64(25_000_000)
		if e.low {
			gas = uint64(r.In(150_000, 2_500_000))
		}
		var t *Tx
		if n == 1 && r.P(1, 2) {
			var data []byte
			m := e.msgs[0]
			if create {
				data = ctorFor(d.work[0], d.compile(m.f), []byte{0})
			} else {
				data = d.compile(m.f)
			}
			t = rg.eth("eth", u, m.to, gas, new(big.Int).SetUint64(m.value), data)
		} else {
			t = rg.cosmos("cosmos", u, gas, ms...)
		}
		if len(t.bz) > 120_000 {
			d.w.count("too_large")
			u.next--
			used[u] = false
			continue
		}
		t.meta = e
		t.op = op
		out = append(out, t)
	}
	return out
}

func (d *c10) check(b int, txs []*Tx, res *abci.ResponseFinalizeBlock) {
	w, n := d.w, d.c.rg.n0()
	h := d.c.rg.c.height()
	for i, t := range txs {
		e := t.meta.(*m10)
		real := res.TxResults[i]
		s := d.st.clone()
		for _, m := range e.msgs {
			d.known[m.self] = true
		}
		ok := true
		for _, m := range e.msgs {
			s.bal[t.from.eth] = new(big.Int).Lsh(bi(1), 80)
			if ok = d.exec(s, t.from.eth, m.self, m.value, m.f, m.self); !ok {
				break
			}
		}
		for _, m := range e.msgs {
			w.logf("  op %d %s to %s v%d: %s", t.op, t.kind, m.self.Hex()[:6], m.value, m.f)
		}
		if e.low && ok && real.Code != 0 && strings.Contains(real.Log, "out of gas") {
			w.count("out_of_gas")
			continue
		}
		if ok != (real.Code == 0) {
			w.violate("outcome", "block %d tx %d (op %d, %s, %d messages): success is %v (%s), the messages its contracts asked for give %v", h, i, t.op, t.kind, len(e.msgs), real.Code == 0, trunc(real.Log), ok)
			return
		}
		if ok {
			delete(s.bal, t.from.eth)
			d.st = s
			w.countN("executed_in_order", len(s.trace))
			s.trace = nil
			w.count("trees_ok")
		} else {
			w.count("trees_failed")
		}
	}
	d.compare(h, n)
	// the same trees as queries leave no trace
	r := NewRng(w.seed+uint64(b), "c10q")
	q := &evmQ{n, n.committedCtx()}
	to := pick(r, d.work)
	keep := d.tag
	f := d.frame(r, to, 2, 1, false)
	_, why := q.view(d.c.wl.user(r).eth, to, d.compile(f))
	w.reach("query." + trunc(why)[:min(len(why), 12)])
	w.count("queries")
	d.tag = keep
	d.compare(h, n)
}

func (d *c10) compare(h int64, n *Node) {
	w := d.w
	q := &evmQ{n, n.committedCtx()}
	if got := q.slot(d.rec, common.Hash{}).Big(); got.Cmp(d.st.mix) != 0 {
		w.violate("order", "block %d: the order record of executed messages is %x, the surviving requests in order give %x", h, got, d.st.mix)
		return
	}
	var as []string
	for a := range d.known {
		as = append(as, a.Hex())
	}
	for _, x := range sorted(as) {
		a := common.HexToAddress(x)
		want := d.st.bal[a]
		if want == nil {
			want = new(big.Int)
		}
		if got := q.balance(a, feeDenom); got.Cmp(want) != 0 {
			w.violate("balance", "block %d: %s holds %s, the executed messages give %s", h, x, got, want)
			return
		}
		for k := byte(0); k < 16; k++ {
			want := d.st.slots[skey(a, k)]
			if want == nil {
				want = new(big.Int)
			}
			if got := q.slot(a, common.BytesToHash([]byte{k})).Big(); got.Cmp(want) != 0 {
				w.violate("effects", "block %d: %s slot %d is %x, the surviving calls give %x", h, x, k, got, want)
				return
			}
		}
	}
	w.count("states_compared")
}

// staticProbe asks for a message through a call nested in a static call.
func (d *c10) staticProbe(c *Cluster) {
	rg, w := c.rg, d.w
	n := rg.n0()
	rg.sync()
	a, b, u := d.work[0], d.work[1], rg.users[0]
	for _, kind := range []byte{sDELEG, sCALL} {
		inner := script{}.call(kind, cosmosAddr, 0, 0, 0, 0, pack(abiCosmos, "execute_cosmos", mustJSON(jsonSend(b, d.fresh[3], 3))))
		t := rg.cosmos("static", u, 5_000_000, msgCall(u, a, script{}.call(sSTATIC, b, 0, 0, 0, 0, inner), nil))
		bz := [][]byte{t.bz}
		blk := rg.c.next(bz, rg.r)
		rg.c.decide(blk)
		pre := (&evmQ{n, n.committedCtx()}).balance(d.fresh[3], feeDenom)
		if !n.apply(rg.c, blk, false) {
			w.abort("reference node died")
		}
		got := (&evmQ{n, n.committedCtx()}).balance(d.fresh[3], feeDenom)
		w.count("static_probes")
		if got.Cmp(pre) != 0 {
			w.violate("static-dispatch", "a message asked for through a %s nested in a STATICCALL was executed", map[byte]string{sCALL: "CALL", sDELEG: "DELEGATECALL"}[kind])
			return
		}
	}
}

func (f *mframe) String() string {
	var sb strings.Builder
	sb.WriteString("{")
	for _, o := range f.ops {
		fmt.Fprintf(&sb, "%s", o.kind)
		switch o.kind {
		case "ask":
			fmt.Fprintf(&sb, "(%x v%d g%d req=%v k=%d refuse=%v %s)", o.call, o.value, o.gas, o.req, o.k, o.msg.refuse, o.msg.String())
		case "call":
			fmt.Fprintf(&sb, "(%x %s v%d req=%v %s)", o.call, o.to.Hex()[:6], o.value, o.req, o.sub)
		default:
			fmt.Fprintf(&sb, "(%d %d)", o.k, o.v)
		}
		sb.WriteString("; ")
	}
	fmt.Fprintf(&sb, "end=%x static=%v}", f.end, f.static)
	return sb.String()
}

func (m *mmsg) String() string {
	j := m.json
	if i := strings.Index(j, `"input":"`); i >= 0 {
		j = j[:i]
	}
	if m.sub != nil {
		j += " -> " + m.sub.String()
	}
	return j
}
