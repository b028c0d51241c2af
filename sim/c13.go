package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	abci "github.com/cometbft/cometbft/abci/types"
	servertypes "github.com/cosmos/cosmos-sdk/server/types"
	minitiaapp "github.com/initia-labs/minievm/app"
)

// C13: a chain is exported at some height and a fresh node initialised from
// the export. Both execute the same blocks from then on and must give the same
// results, and their stores must agree.
func init() { scenarios["C13"] = scC13 }

func scC13(w *World) {
	r := NewRng(w.seed, "c13")
	d := &c13{w: w, r: NewRng(w.seed, "c13/crash"), at: r.In(1, 8)}
	d.blocks = d.at + r.In(3, 7)
	o := ClusterOpts{Blocks: d.blocks, PerBlock: 7, Scripts: 3, Opts: RigOpts{Initial: int64(r.N(2) * r.In(1, 50)), Mutate: func(app *minitiaapp.MinitiaApp, gs minitiaapp.GenesisState) {
		// the bridge's default genesis, whose sequences are set
		var g map[string]any
		if err := json.Unmarshal(gs["opchild"], &g); err != nil {
			panic(err)
		}
		g["next_l1_sequence"], g["next_l2_sequence"] = "1", "1"
		gs["opchild"] = json.RawMessage(mustJSON(g))
	}}}
	o.Pre = func(c *Cluster) { d.c = c }
	o.OnRef = d.check
	runCluster(w, o)
}

type c13 struct {
	w      *World
	r      *Rng
	c      *Cluster
	at     int // the block after which the state is exported
	blocks int
	twin   *Node
	tc     *Chain
}

func (d *c13) export(n *Node) (servertypes.ExportedApp, string) {
	var x servertypes.ExportedApp
	var why string
	n.abciCall("export", func(app *minitiaapp.MinitiaApp) {
		defer func() {
			if p := recover(); p != nil {
				why = fmt.Sprint(p)
			}
		}()
		var err error
		x, err = app.ExportAppStateAndValidators(false, nil, nil)
		if err != nil {
			why = err.Error()
		}
	})
	return x, why
}

// gap says whether the next account number is not the one after the highest
// number an account has.
func (d *c13) gap() bool {
	m := d.c.rg.n0().dump()
	top := uint64(0)
	for k := range m {
		if n, ok := strings.CutPrefix(k, "acc/accountNumber"); ok && len(n) == 8 {
			top = max(top, binary.BigEndian.Uint64([]byte(n)))
		}
	}
	c := m["acc/\x02"]
	return len(c) != 8 || binary.BigEndian.Uint64([]byte(c)) != top+1
}

func (d *c13) check(b int, txs []*Tx, res *abci.ResponseFinalizeBlock) {
	w, rg := d.w, d.c.rg
	h := rg.c.height()
	if d.twin != nil {
		blk := rg.c.block(h)
		d.tc.blocks = append(d.tc.blocks, blk)
		if !d.twin.apply(d.tc, blk, false) {
			w.violate("import", "block %d stops the node that started from the export: %s", h, d.twin.inc.why)
			return
		}
		tr := d.tc.res(h)
		for i, t := range txs {
			x, y := res.TxResults[i], tr.Res.TxResults[i]
			w.count("results_compared")
			if x.Code != y.Code || string(x.Data) != string(y.Data) || x.GasUsed != y.GasUsed || mustJSON(x.Events) != mustJSON(y.Events) {
				w.violate("outcome", "block %d tx %d (op %d, %s): code %d, gas %d (%.100s) on the original, %d, %d (%.100s) on the chain started from the export, or other data or events", h, i, t.op, t.kind, x.Code, x.GasUsed, x.Log, y.Code, y.GasUsed, y.Log)
				return
			}
		}
		d.diff(h)
		if len(d.tc.blocks) > 1 && d.r.N(3) == 0 {
			// with only its disk left it has to go on all the same
			d.twin.crash(d.r.N(2) == 0, "crash after the import")
			if !d.twin.start(d.tc) {
				w.violate("import", "the node that started from the export does not start again after block %d: %s", h, d.twin.inc.why)
				return
			}
			d.diff(h)
		}
		if b+1 == d.blocks {
			d.again(h)
		}
		return
	}
	if b+1 < d.at {
		return
	}
	if d.gap() {
		// the accounts created last were destroyed contracts: the auth module,
		// a dependency, gives their numbers out again after an import
		w.count("numbering_gaps")
		return
	}
	x, why := d.export(rg.n0())
	if why != "" {
		w.violate("export", "the state after block %d cannot be exported: %s", h, why)
		return
	}
	if x.Height != h+1 {
		w.violate("export", "export after block %d says height %d", h, x.Height)
	}
	// a node that starts from the same disk, with nothing in memory, exports the same
	e := newNode(w, 61, rg.gen, NodeCfg{})
	src := rg.n0()
	for i, dk := range src.disks {
		e.disks[i] = dk.clone()
	}
	e.storeH, e.stateH, e.ackH = src.storeH, src.stateH, src.ackH
	if !e.start(rg.c) {
		w.violate("export", "a node on a copy of the disk does not start after block %d: %s", h, e.inc.why)
		return
	}
	ex, why := d.export(e)
	if why != "" {
		w.violate("export", "the state after block %d cannot be exported by a node that just started: %s", h, why)
		return
	}
	d.same(h, x, ex, "a node that just started")
	d.tc = newChain(w, rg.gen)
	d.tc.genBz = x.AppState
	d.tc.initialHeight = h + 1
	d.tc.genTime = rg.c.clock
	d.twin = newNode(w, 60, rg.gen, NodeCfg{})
	if !d.twin.start(d.tc) {
		w.violate("import", "the state exported after block %d cannot start a node: %s", h, d.twin.inc.why)
		return
	}
	w.count("imports")
}

// norm drops what the bridge module, which is a dependency, does not carry
// over an export by design: its record of past headers.
func norm13(m map[string]string) map[string]string {
	for k := range m {
		if strings.HasPrefix(k, "opchild/!") {
			delete(m, k)
		}
	}
	return m
}

func (d *c13) diff(h int64) {
	ds := diffDump(norm13(d.c.rg.n0().dump()), norm13(d.twin.dump()))
	d.w.count("stores_compared")
	if len(ds) > 0 {
		d.w.violate("state", "after block %d the chain started from the export of block %d differs in %d entries, such as %.500s", h, d.tc.initialHeight-1, len(ds), strings.Join(ds, " "))
	}
}

// modules parses an exported state into canonical module states.
func (d *c13) modules(bz []byte) map[string]string {
	var m map[string]any
	if err := json.Unmarshal(bz, &m); err != nil {
		d.w.violate("export", "the export is not JSON: %v", err)
		return nil
	}
	out := map[string]string{}
	for k, v := range m {
		if o, ok := v.(map[string]any); ok && k == "opchild" {
			delete(o, "exported")
		}
		out[k] = mustJSON(v)
	}
	return out
}

// again exports both chains and compares.
func (d *c13) again(h int64) {
	x, why := d.export(d.c.rg.n0())
	y, whyY := d.export(d.twin)
	if why != "" || whyY != "" {
		d.w.violate("export", "after block %d: the original exports with %q, the chain started from an export with %q", h, why, whyY)
		return
	}
	d.same(h, x, y, "the chain started from an export")
}

func (d *c13) same(h int64, x, y servertypes.ExportedApp, who string) {
	a, b := d.modules(x.AppState), d.modules(y.AppState)
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if a[k] != b[k] {
			i := 0
			for i < len(a[k]) && i < len(b[k]) && a[k][i] == b[k][i] {
				i++
			}
			i = max(0, i-60)
			d.w.violate("reexport", "after block %d %s exports another state of module %s: ...%.200s instead of ...%.200s", h, who, k, b[k][min(i, len(b[k])):], a[k][min(i, len(a[k])):])
			return
		}
	}
	if mustJSON(x.Validators) != mustJSON(y.Validators) || mustJSON(x.ConsensusParams) != mustJSON(y.ConsensusParams) || x.Height != y.Height {
		d.w.violate("reexport", "after block %d %s exports other validators, parameters or height", h, who)
	}
	d.w.count("exports_compared")
}
