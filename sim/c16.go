package main

import (
	sdk "github.com/cosmos/cosmos-sdk/types"
	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"
)

func init() { scenarios["C16"] = scC16 }

// C16: mempools, proposers and execution of several nodes together.
func scC16(w *World) {
	cr := NewRng(w.seed, "c16")
	if cr.P(1, 8) {
		hostile(w)
		return
	}
	// roomy blocks and streams of transactions, full blocks and one pending
	// transaction of each sender, or both, which meets a known finding
	mode := pick(cr, []int{0, 0, 0, 0, 1, 1, 1, 1, 1, 2})
	maxGas := int64(pick(cr, []int{10_000_000, 20_000_000}))
	maxBytes := int64(pick(cr, []int{16_000, 40_000, 4_000_000}))
	pool := pick(cr, []int{0, 0, 8, 30})
	free := cr.P(1, 2)
	if mode == 0 {
		maxGas, maxBytes = 2_000_000_000, 4_000_000
	}
	nodes := cr.In(2, 4)
	var whitelist string
	clients := cr.In(2, 6)
	fu := cr.N(clients)
	if free {
		whitelist = newAcct(fu).bech
	}
	pace := pick(cr, []int{30, 120, 500})
	l := runLive(w, LiveOpts{Nodes: nodes, Blocks: cr.In(8, 14), Clients: clients, Crash: pick(cr, []int{0, 0, 6}), Cut: cr.P(1, 2), Scripts: 2,
		Streams: mode == 2, MinB: pick(cr, []int{50, 400}),
		Opts: RigOpts{MinGas: 100, MaxGas: maxGas, MaxBytes: maxBytes, OP: func(p *opchildtypes.Params) {
			if free {
				p.FeeWhitelist = []string{whitelist}
			}
		}},
		Cfg: func(i int, r *Rng) NodeCfg {
			c := defaultCfg(i, r)
			c.QueryGas, c.SimGas = 0, 0
			c.MempoolN = pool
			return c
		},
		Client: func(l *Live, k int, r *Rng) {
			u := l.rg.users[k]
			n := pick(r, l.rg.nodes)
			var last *Tx
			for i := 0; !l.idle && i < 60; i++ {
				l.pause(r.N(pace))
				if n.inc.dead || !n.up || r.P(1, 12) {
					n = pick(r, l.rg.nodes)
					continue
				}
				op := i*8 + k
				if !w.on(op) {
					continue
				}
				single := mode == 1 || k == fu && free
				if single && last != nil && seqOf(l.rg.n0(), l.rg.n0().committedCtx(), u) <= last.seq && (l.owed(last) || l.held(last)) {
					i--
					l.pause(50)
					continue
				}
				u.next = n.pendingSeq(u)
				top := maxGas * 7 / 10
				if k == fu && free {
					top = maxGas / 10
				}
				gas := uint64(150_000)
				switch r.N(6) {
				case 0:
					gas = uint64(r.In(150_000, int(min(top, 20_000_000))))
				case 1, 2:
					gas = uint64(r.In(150_000, int(min(top, 1_000_000))))
				}
				t := l.tx(r, u, gas, op)
				if k == fu && free && t.eth == nil && r.P(1, 2) {
					u.next = t.seq
					t = l.rg.cosmosN("free", []*Acct{u}, gas, TxOpts{Fee: sdk.Coins{}}, t.msgs...)
				}
				if single && t.eth == nil && (r.P(1, 3) || k == fu && free && r.P(1, 2)) {
					// valid for a few blocks only
					u.next = t.seq
					o := TxOpts{Fee: sdk.NewCoins(sdk.NewCoin(feeDenom, t.fee)), Timeout: uint64(max(1, l.rg.c.height()+int64(pick(r, []int{0, 0, 1, 1, 2, 3}))))}
					t = l.rg.cosmosN("timed", []*Acct{u}, gas, o, t.msgs...)
				}
				last = t
				l.submit(n, t)
			}
		},
	})
	l.settle()
}
