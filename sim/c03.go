package main

import (
	"fmt"
	"time"

	abci "github.com/cometbft/cometbft/abci/types"
)

func init() {
	scenarios["C03"] = scC03
	scenarios["C19"] = scC19
}

// ethMix leans the workload towards Ethereum transactions with logs.
func ethMix(extra map[string]int) map[string]int {
	m := map[string]int{}
	for k, v := range mixAll {
		m[k] = v
	}
	for k, v := range extra {
		m[k] = v
	}
	return m
}

// indexRun drives a cluster of indexing nodes, and probes their Ethereum
// answers while blocks are produced and nodes crash, and in full at the end.
func indexRun(w *World, o ClusterOpts, probe func(p *Probe, h int64, r *Rng), extra func(p *Probe, r *Rng)) {
	var or *Oracle
	fronts := map[int]*Front{}
	up := func(n *Node) {
		or.watch(n)
		fronts[n.id] = newFront(n, nil)
	}
	pr := NewRng(w.seed, "probe")
	audit := func(n *Node, r *Rng, k int) {
		f := fronts[n.id]
		if f == nil || f.inc != n.inc || n.inc.dead || n.ackH == 0 {
			return
		}
		p := or.probe(f)
		for ; k > 0 && !p.dead; k-- {
			h := n.ackH + int64(r.N(3)) - 1
			if r.P(1, 2) {
				h = or.rg.c.initialHeight + int64(r.N(int(n.ackH-or.rg.c.initialHeight+1)))
			}
			probe(p, h, r)
			if r.P(1, 3) && len(or.ghostTx) > 0 {
				p.ghost(pick(r, or.ghostTx))
			}
			if !p.dead && extra != nil {
				extra(p, r)
			}
		}
	}
	var ncl *Cluster
	o.Pre = func(c *Cluster) {
		ncl = c
		n := c.rg.n0()
		up(n)
		go func() {
			r := NewRng(w.seed, "probe0")
			for !c.stop {
				time.Sleep(time.Duration(r.N(400)) * time.Millisecond)
				audit(n, r, 1)
			}
		}()
	}
	o.Early = func(rg *Rig) { or = newOracle(rg) }
	o.OnNode = func(c *Cluster, n *Node) {
		n.onUp = up
		go func() {
			r := NewRng(w.seed, fmt.Sprintf("probe%d", n.id))
			for !c.stop {
				time.Sleep(time.Duration(r.N(300)) * time.Millisecond)
				audit(n, r, 1)
			}
		}()
	}
	o.OnRef = func(b int, txs []*Tx, res *abci.ResponseFinalizeBlock) {
		if b%3 == 0 {
			// transactions that are made, maybe judged in proposals, never decided
			for i := 0; i < 2; i++ {
				op := ncl.wl.op(2_000_000 + b*2 + i)
				for _, t := range ncl.wl.gen(op) {
					if t.eth != nil {
						or.ghostTx = append(or.ghostTx, t)
					}
				}
			}
			ncl.wl.old = nil
		}
	}
	c := runCluster(w, o)
	// every node, then once more after a clean restart
	for _, n := range c.rg.nodes {
		for life := 0; life < 2; life++ {
			f := fronts[n.id]
			p := or.probe(f)
			for h := c.rg.c.initialHeight; h <= c.rg.c.height(); h++ {
				probe(p, h, pr)
			}
			for _, t := range or.ghostTx {
				p.ghost(t)
			}
			if extra != nil {
				for k := 0; k < 8; k++ {
					extra(p, pr)
				}
			}
			if p.dead {
				w.abort("n%d died in the final audit: %s", n.id, n.inc.why)
			}
			if life == 0 {
				if !pr.P(1, 2) {
					break
				}
				n.onUp = up
				n.crash(false, "final restart")
				if !n.start(c.rg.c) {
					w.abort("n%d did not come up again: %s", n.id, n.inc.why)
				}
				w.count("restarts")
			}
		}
	}
}

func idxCfg(i int, r *Rng) NodeCfg {
	c := defaultCfg(i, r)
	c.Index = true
	return c
}

func scC03(w *World) {
	r := NewRng(w.seed, "C03")
	o := ClusterOpts{Blocks: r.In(8, 16), PerBlock: r.In(2, 7), Replicas: r.In(1, 2), Scripts: 3, Cfg: idxCfg, WriteCrash: true, Crash: 12}
	o.Weights = ethMix(nil)
	o.Proposals = r.P(1, 3)
	if r.P(1, 5) {
		o.Opts.Initial = int64(r.In(2, 40))
	}
	if r.P(1, 4) {
		o.Opts.MaxGas = int64(r.In(20, 60)) * 1_000_000
	}
	if r.P(1, 4) {
		o.Noise = 1
	}
	indexRun(w, o, func(p *Probe, h int64, r *Rng) { p.block(h, r) }, func(p *Probe, r *Rng) { p.latest(r) })
}

func scC19(w *World) {
	r := NewRng(w.seed, "C19")
	o := ClusterOpts{Blocks: r.In(8, 16), PerBlock: r.In(2, 8), Replicas: 1, Scripts: 3, Cfg: idxCfg}
	if r.P(1, 3) {
		o.Crash, o.WriteCrash = 8, false
	}
	o.Weights = ethMix(nil)
	if r.P(1, 4) {
		o.Opts.MaxGas = int64(r.In(20, 60)) * 1_000_000
	}
	indexRun(w, o, func(p *Probe, h int64, r *Rng) {
		p.receipts(h, r)
		if ob := p.o.blocks[h]; ob != nil && h <= p.strict && r.P(1, 2) {
			p.block(h, r)
		}
	}, func(p *Probe, r *Rng) {
		p.logs(r)
		p.latest(r)
		if r.P(1, 2) {
			p.poke(r)
		}
	})
}
