package main

// C12: contracts record the block environment and block hashes they see; the
// model knows which hash consensus gave to each height and which of them the
// chain still retains.

import (
	"math/big"

	abci "github.com/cometbft/cometbft/abci/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"

	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

func init() { scenarios["C12"] = scC12 }

type c12 struct {
	w      *World
	c      *Cluster
	hash   map[uint64][]byte // retained
	num    uint64
	blocks int
	next   *uint64
}

// look is what one transaction records.
type look struct {
	con  common.Address
	base byte
	ask  []uint64
}

func scC12(w *World) {
	r := NewRng(w.seed, "c12")
	d := &c12{w: w, hash: map[uint64][]byte{}, num: 256}
	d.blocks = pick(r, []int{40, 300, 300, 560})
	o := ClusterOpts{Blocks: d.blocks, PerBlock: 3, Scripts: 4}
	d.num = pick(r, []uint64{256, 256, 0, 257, 300})
	o.Opts.EVM = func(p *evmtypes.Params) { p.NumRetainBlockHashes = d.num }
	o.Opts.Initial = pick(r, []int64{1, 1, 1, 2, 250, 257, 5000, 1 << 33})
	if r.P(1, 3) {
		o.Replicas, o.Crash, o.WriteCrash, o.Power = 1, 2, true, true
	}
	o.Gen, o.OnRef = d.gen, d.check
	o.Pre = func(c *Cluster) {
		d.c = c
		for h := c.rg.c.initialHeight; h <= c.rg.c.height(); h++ {
			d.track(h)
		}
	}
	runCluster(w, o)
}

func (d *c12) track(h int64) {
	u := uint64(h)
	if d.num != 0 && u > d.num {
		for k := range d.hash {
			if k <= u-d.num {
				delete(d.hash, k)
			}
		}
	}
	d.hash[u] = d.c.rg.c.block(h).Hash
}

// envScript records number, time, chain id and the given block hashes from base on.
func envScript(base byte, ask []uint64) script {
	s := script{}.env(0, base).env(1, base+1).env(2, base+2)
	for i, n := range ask {
		s = append(s, sBHASH, base+3+byte(i))
		s = s.u64(n)
	}
	return s
}

func (d *c12) gen(b, per int) []*Tx {
	rg := d.c.rg
	var out []*Tx
	br := NewRng(d.w.seed+uint64(b), "c12b")
	h := uint64(rg.c.height() + 1)
	init := uint64(rg.c.initialHeight)
	d.next = nil
	// most blocks are empty: they only age the hashes
	quiet := d.blocks > 100 && !br.P(1, 12) && b != d.blocks-1
	for i := 0; i < per; i++ {
		op := b*per + i
		if quiet || !d.w.on(op) {
			continue
		}
		r := NewRng(d.w.seed+uint64(op)*7919, "c12op")
		rg.opIdx = op
		if i == 2 {
			if !r.P(1, 2) {
				continue
			}
			p, err := rg.n0().app.EVMKeeper.Params.Get(rg.n0().committedCtx())
			if err != nil {
				d.w.abort("params: %v", err)
			}
			v := pick(r, []uint64{0, 256, 257, 260, 300, 400, 1 << 40, 255, 1})
			p.NumRetainBlockHashes = v
			t := rg.cosmos("params", rg.admin, 3_000_000, adminMsgs(rg.admin, &evmtypes.MsgUpdateParams{Authority: opAuthority(), Params: p}))
			t.op = op
			t.meta = v
			out = append(out, t)
			continue
		}
		u := rg.users[i]
		var ask []uint64
		for k := r.In(3, 8); k > 0; k-- {
			n := pick(r, []uint64{h - 1, h - 2, h, h + 1, h - 256, h - 257, h - 255, h - d.num, h - d.num - 1, h - d.num + 1, 0, init, init - 1, h - uint64(r.N(300)), h - uint64(r.N(300)), ^uint64(0), h + 1<<32})
			ask = append(ask, n)
		}
		l := &look{con: rg.con[2*i], base: byte(r.N(8) * 12), ask: ask}
		s := envScript(l.base, ask)
		var t *Tx
		switch r.N(6) {
		case 0: // through another contract
			t = rg.cosmos("nested", u, 4_000_000, msgCall(u, rg.con[2*i+1], script{}.call(sCALL, l.con, 0, 0, fReq, 0, s), nil))
		case 1: // by another's code
			t = rg.cosmos("delegate", u, 4_000_000, msgCall(u, l.con, script{}.call(sDELEG, rg.con[2*i+1], 0, 0, fReq, 0, s), nil))
		case 2: // by a message a contract asks for
			j := mustJSON(map[string]any{"@type": "/minievm.evm.v1.MsgCall", "sender": bech(rg.con[2*i+1]), "contract_addr": l.con.Hex(),
				"input": hexutil.Encode(s), "value": "0", "access_list": []any{}})
			t = rg.cosmos("dispatched", u, 4_000_000, msgCall(u, rg.con[2*i+1], script{}.call(sCALL, cosmosAddr, 0, 0, fReq, 30, pack(abiCosmos, "execute_cosmos", j)), nil))
		case 3: // from a constructor
			t = rg.cosmos("ctor", u, 4_000_000, msgCreate(u, ctorFor(l.con, script{}.call(sCALL, l.con, 0, 0, fReq, 0, s), []byte{0}), nil))
		case 4: // with an earlier message
			t = rg.cosmos("multi", u, 6_000_000, msgCall(u, rg.con[2*i+1], script{}.sadd(200, 1), nil), msgCall(u, l.con, s, nil))
		default:
			t = rg.eth("eth", u, &l.con, 3_000_000, nil, s)
		}
		t.op = op
		t.meta = l
		out = append(out, t)
	}
	return out
}

func (d *c12) check(b int, txs []*Tx, res *abci.ResponseFinalizeBlock) {
	w, n := d.w, d.c.rg.n0()
	h := d.c.rg.c.height()
	blk := d.c.rg.c.block(h)
	q := &evmQ{n, n.committedCtx()}
	for i, t := range txs {
		ok := res.TxResults[i].Code == 0
		if v, is := t.meta.(uint64); is {
			if want := v == 0 || v >= 256; ok != want {
				w.violate("retention-setting", "block %d: setting the number of retained hashes to %d: success is %v (%s)", h, v, ok, res.TxResults[i].Log)
				return
			}
			if ok {
				d.num = v
			}
			w.count("retention_changes")
			continue
		}
		l := t.meta.(*look)
		if !ok {
			w.violate("lookup-failed", "block %d tx %d (op %d, %s): recording the environment failed with %s", h, i, t.op, t.kind, res.TxResults[i].Log)
			return
		}
		at := func(k int) *big.Int { return q.slot(l.con, common.BytesToHash([]byte{l.base + byte(k)})).Big() }
		for k, want := range []*big.Int{bi(h), bi(blk.T.Unix()), ethChainID} {
			if got := at(k); got.Cmp(want) != 0 {
				w.violate("environment", "block %d tx %d (op %d, %s): the contract saw %s %s, the block has %s", h, i, t.op, t.kind, []string{"number", "time", "chain id"}[k], got, want)
				return
			}
		}
		for k, a := range l.ask {
			want := new(big.Int)
			kind := "none"
			if x, ok := d.hash[a]; ok && a < uint64(h) && uint64(h)-a <= 256 {
				want.SetBytes(x)
				kind = "known"
			}
			if got := at(k + 3); got.Cmp(want) != 0 {
				w.violate("block-hash", "block %d tx %d (op %d, %s): the contract saw %x as the hash of block %d, it should see %x", h, i, t.op, t.kind, got, a, want)
				return
			}
			w.count("lookup." + kind)
		}
		w.reach("looked." + t.kind)
	}
	d.track(h)
	if len(txs) == 0 && b%40 != 0 {
		return
	}
	q = &evmQ{n, n.committedCtx()}
	got := map[uint64][]byte{}
	if err := n.app.EVMKeeper.EVMBlockHashes.Walk(q.ctx, nil, func(k uint64, v []byte) (bool, error) { got[k] = v; return false, nil }); err != nil {
		w.violate("stored-hashes", "block %d: %v", h, err)
	}
	for k, v := range d.hash {
		if !eqBytes(got[k], v) {
			w.violate("stored-hashes", "block %d: the stored hash of block %d is %x, it should be %x", h, k, got[k], v)
			return
		}
	}
	for k := range got {
		if d.hash[k] == nil {
			w.violate("stored-hashes", "block %d: the hash of block %d is still stored with %d retained", h, k, d.num)
			return
		}
	}
	w.count("stored_hashes_checked")
}
