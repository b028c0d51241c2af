package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"cosmossdk.io/math"
	storecache "cosmossdk.io/store/cache"
	pruningtypes "cosmossdk.io/store/pruning/types"
	storetypes "cosmossdk.io/store/types"
	abci "github.com/cometbft/cometbft/abci/types"
	tmproto "github.com/cometbft/cometbft/proto/tendermint/types"
	tmtypes "github.com/cometbft/cometbft/types"
	"github.com/cosmos/cosmos-sdk/baseapp"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"

	minitiaapp "github.com/initia-labs/minievm/app"
	evmconfig "github.com/initia-labs/minievm/x/evm/config"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

type appOpts map[string]interface{}

func (a appOpts) Get(k string) interface{} { return a[k] }

// Genesis of the simulated chain.
type GenSpec struct {
	Accts     []*Acct
	Balance   math.Int
	MinGas    sdk.DecCoins
	MaxGas    int64
	MaxBytes  int64
	EVMParams func(p *evmtypes.Params)
	OPParams  func(p *opchildtypes.Params)
	ExtraBal  []banktypes.Balance
	ExtraAccs []authtypes.GenesisAccount
	Mutate    func(app *minitiaapp.MinitiaApp, gs minitiaapp.GenesisState)
	Admin     *Acct
	Executor  *Acct
	NoKV      bool
}

var valPriv = ed25519.GenPrivKeyFromSecret([]byte("minisim validator"))

func (g *GenSpec) consensusParams() *tmproto.ConsensusParams {
	return &tmproto.ConsensusParams{
		Block:     &tmproto.BlockParams{MaxBytes: g.MaxBytes, MaxGas: g.MaxGas},
		Evidence:  &tmproto.EvidenceParams{MaxAgeNumBlocks: 302400, MaxAgeDuration: 504 * time.Hour, MaxBytes: 10000},
		Validator: &tmproto.ValidatorParams{PubKeyTypes: []string{tmtypes.ABCIPubKeyTypeEd25519}},
	}
}

func (g *GenSpec) build(app *minitiaapp.MinitiaApp) []byte {
	cdc := app.AppCodec()
	gs := minitiaapp.NewDefaultGenesisState(cdc, app.BasicModuleManager, feeDenom)
	var accs []authtypes.GenesisAccount
	var bals []banktypes.Balance
	for _, a := range g.Accts {
		accs = append(accs, authtypes.NewBaseAccount(a.acc, nil, 0, 0))
		bals = append(bals, banktypes.Balance{Address: a.bech, Coins: sdk.NewCoins(sdk.NewCoin(feeDenom, g.Balance))})
	}
	accs = append(accs, g.ExtraAccs...)
	bals = append(bals, g.ExtraBal...)
	gs[authtypes.ModuleName] = cdc.MustMarshalJSON(authtypes.NewGenesisState(authtypes.DefaultParams(), accs))
	pkAny, err := codectypes.NewAnyWithValue(valPriv.PubKey())
	if err != nil {
		panic(err)
	}
	v := opchildtypes.Validator{Moniker: "v", OperatorAddress: sdk.ValAddress(valPriv.PubKey().Address()).String(), ConsensusPubkey: pkAny, ConsPower: 1}
	var og opchildtypes.GenesisState
	cdc.MustUnmarshalJSON(gs[opchildtypes.ModuleName], &og)
	og.Params.Admin = g.Admin.bech
	og.Params.BridgeExecutors = []string{g.Executor.bech}
	og.Params.MinGasPrices = g.MinGas
	if g.OPParams != nil {
		g.OPParams(&og.Params)
	}
	ng := opchildtypes.NewGenesisState(og.Params, []opchildtypes.Validator{v}, nil)
	gs[opchildtypes.ModuleName] = cdc.MustMarshalJSON(ng)
	var eg evmtypes.GenesisState
	cdc.MustUnmarshalJSON(gs[evmtypes.ModuleName], &eg)
	if g.EVMParams != nil {
		g.EVMParams(&eg.Params)
	}
	gs[evmtypes.ModuleName] = cdc.MustMarshalJSON(&eg)
	gs[banktypes.ModuleName] = cdc.MustMarshalJSON(banktypes.NewGenesisState(banktypes.DefaultGenesisState().Params, bals, sdk.NewCoins(), nil, nil))
	if g.Mutate != nil {
		g.Mutate(app, gs)
	}
	bz, err := json.Marshal(gs)
	if err != nil {
		panic(err)
	}
	return bz
}

var emptyHash = func() []byte { h := sha256.Sum256(nil); return h[:] }()

// Block is what consensus decided.
type Block struct {
	H    int64
	T    time.Time
	Txs  [][]byte
	Hash []byte
}

func (b *Block) req() *abci.RequestFinalizeBlock {
	return &abci.RequestFinalizeBlock{
		Height: b.H, Time: b.T, Txs: b.Txs, Hash: b.Hash,
		ProposerAddress:    valPriv.PubKey().Address(),
		NextValidatorsHash: detBytes("nextvals", 0),
		DecidedLastCommit:  abci.CommitInfo{Votes: []abci.VoteInfo{{Validator: abci.Validator{Address: valPriv.PubKey().Address(), Power: 1}, BlockIdFlag: tmproto.BlockIDFlagCommit}}},
	}
}

// BlockRes is the reference outcome of a block.
type BlockRes struct {
	AppHash []byte
	Digest  string // per-tx results
	Res     *abci.ResponseFinalizeBlock
}

// NodeCfg is local, non-consensus configuration.
type NodeCfg struct {
	Index     bool // kv/evm indexer enabled
	IavlCache int
	MinRetain uint64
	Pruning   [2]uint64
	MempoolN  int
	SnapKeep  bool
	InterBlk  bool
	QueryGas  uint64
	SimGas    uint64
	InvCheck  bool // assert invariants
}

type Node struct {
	id    int
	w     *World
	cfg   NodeCfg
	rng   *Rng
	gen   *GenSpec
	genBz []byte
	disks [3]*Disk
	inc   *Inc
	app   *minitiaapp.MinitiaApp
	mu    *sync.Mutex // the ABCI connection mutex
	up    bool
	phase string

	storeH   int64 // consensus block store
	stateH   int64 // consensus state
	ackH     int64 // last height whose Commit returned
	upH      int64 // application height found at the last start
	upAck    int64 // and ackH then
	restarts int
	lives    int
	faulty   bool // a disk fault was injected in this life
	mp       *CMempool
	onUp     func(n *Node)
	onFin    func(n *Node, b *Block, r *abci.ResponseFinalizeBlock) // after FinalizeBlock, before Commit
	armNext  func(inc *Inc)
}

func newNode(w *World, id int, g *GenSpec, cfg NodeCfg) *Node {
	n := &Node{id: id, w: w, gen: g, cfg: cfg, rng: NewRng(w.seed, fmt.Sprintf("node%d", id))}
	for i, name := range []string{"app", "evmindex", "kvindex"} {
		n.disks[i] = NewDisk(fmt.Sprintf("n%d/%s", id, name))
	}
	return n
}

func (n *Node) opts() appOpts {
	o := appOpts{"home": "/nonexistent", "mempool.max-txs": 500, "query-gas-limit": 3000000}
	if n.cfg.QueryGas != 0 {
		o["query-gas-limit"] = n.cfg.QueryGas
	}
	if n.cfg.MempoolN != 0 {
		o["mempool.max-txs"] = n.cfg.MempoolN
	}
	if n.cfg.Index {
		o["indexer.enable"] = true
		o["indexer.cache-capacity"] = 10
	}
	return o
}

func (n *Node) construct(inc *Inc) *minitiaapp.MinitiaApp {
	bo := []func(*baseapp.BaseApp){baseapp.SetChainID(chainID)}
	if n.cfg.IavlCache > 0 {
		bo = append(bo, baseapp.SetIAVLCacheSize(n.cfg.IavlCache))
	}
	if n.cfg.MinRetain > 0 {
		bo = append(bo, baseapp.SetMinRetainBlocks(n.cfg.MinRetain))
	}
	if n.cfg.Pruning[0] > 0 {
		bo = append(bo, baseapp.SetPruning(pruningtypes.NewCustomPruningOptions(n.cfg.Pruning[0], n.cfg.Pruning[1])))
	}
	if n.cfg.InterBlk {
		bo = append(bo, baseapp.SetInterBlockCache(storecache.NewCommitKVStoreCacheManager(1000)))
	}
	ec := evmconfig.DefaultEVMConfig()
	if n.cfg.SimGas > 0 {
		ec.ContractSimulationGasLimit = n.cfg.SimGas
	}
	ec.IndexerCacheSize = 1
	return minitiaapp.NewMinitiaApp(simLogger(),
		&SimDB{n.disks[0], inc}, &SimDB{n.disks[1], inc}, &SimDB{n.disks[2], inc}, nil, true, ec, n.opts(), bo...)
}

// do runs f as part of this node's life. It reports false when the life ended
// (crash) before f finished. A panic in f ends the life.
func (n *Node) do(what string, f func()) bool {
	inc := n.inc
	if inc.dead {
		return false
	}
	done := make(chan struct{})
	var pv any
	var stack string
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				pv = r
				stack = string(debug.Stack())
			}
		}()
		f()
	}()
	select {
	case <-done:
	case <-inc.deadCh:
		return false
	}
	if inc.dead {
		return false
	}
	if pv != nil {
		msg := fmt.Sprintf("%v", pv)
		if e, ok := pv.(simExit); ok {
			msg = fmt.Sprintf("process exit with status %d", e.code)
			pv = msg
		}
		if strings.Contains(msg, errDisk.Error()) || n.faulty {
			n.w.logf("n%d: %s stopped by disk error", n.id, what)
			n.w.fault("disk_error_stop")
			inc.kill("disk error in " + what)
			return false
		}
		n.w.violate("node-panic", "n%d: %s panicked: %v\n%s", n.id, what, pv, trimStack(stack))
		inc.kill("panic in " + what)
		return false
	}
	return true
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.HasPrefix(l, "github.com/initia-labs/minievm") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 14 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// abciCall is do under the ABCI mutex, like CometBFT's local client.
func (n *Node) abciCall(what string, f func(app *minitiaapp.MinitiaApp)) bool {
	app, mu := n.app, n.mu
	return n.do(what, func() {
		mu.Lock()
		defer mu.Unlock()
		f(app)
	})
}

// crash ends the node's life. Only what reached the disks survives; a power
// loss additionally drops unsynced writes.
func (n *Node) crash(power bool, why string) {
	if n.inc != nil {
		n.inc.kill(why)
	}
	n.up = false
	if power {
		for _, d := range n.disks {
			k := len(d.undo)
			if k > 0 {
				lost := d.powerLoss(n.rng.N(k + 1))
				if lost > 0 {
					n.w.fault("lost_unsynced_write")
				}
			}
		}
		n.w.fault("power_loss")
	} else {
		for _, d := range n.disks {
			d.powerLoss(1 << 60)
		}
		n.w.fault("crash")
	}
	n.w.logf("n%d: down (%s)", n.id, why)
}

// start brings the node up on its disks and replays missing blocks the way
// CometBFT's handshake does. It reports false if the life ended meanwhile.
func (n *Node) start(c *Chain) bool {
	n.lives++
	n.inc = NewInc(NewRng(n.w.seed, fmt.Sprintf("inc%d/%d", n.id, n.lives)))
	n.inc.onFault = n.w.fault
	n.faulty = false
	if n.armNext != nil {
		n.armNext(n.inc)
		n.armNext = nil
	}
	n.mu = &sync.Mutex{}
	inc := n.inc
	dirty := n.disks[0].len() > 0
	fmt.Fprintf(phaseOut, "start n%d life %d\n", n.id, n.lives)
	if !n.do("start-up", func() { a := n.construct(inc); inc.gate(); n.app = a }) {
		return false
	}
	n.mp = newCMempool(n)
	var info *abci.ResponseInfo
	if !n.abciCall("Info", func(app *minitiaapp.MinitiaApp) {
		r, err := app.Info(&abci.RequestInfo{})
		if err != nil {
			panic(err)
		}
		info = r
	}) {
		return false
	}
	appH := info.LastBlockHeight
	n.upH, n.upAck = appH, n.ackH
	n.w.logf("n%d: up life=%d appH=%d storeH=%d stateH=%d", n.id, n.lives, appH, n.storeH, n.stateH)
	if appH > n.storeH {
		n.w.violate("app-ahead", "n%d: after restart the application is at height %d, beyond the last decided block %d", n.id, appH, n.storeH)
	}
	if appH > 0 && !bytes.Equal(info.LastBlockAppHash, c.res(appH).AppHash) {
		n.w.violate("restart-apphash", "n%d: after restart the application reports hash %x at height %d, blocks gave %x", n.id, info.LastBlockAppHash, appH, c.res(appH).AppHash)
	}
	if appH < n.ackH {
		n.w.violate("lost-commit", "n%d: the application is at height %d after a restart, Commit of height %d had returned", n.id, appH, n.ackH)
	}
	if appH == 0 {
		if n.genBz == nil {
			n.genBz = c.genesis(n)
		}
		if dirty {
			// A crash inside the very first commit left application stores with a
			// version but no commit record. The store library cannot tell them
			// from a fresh node's, see the known findings; the operator's way out
			// is to reset the data directory.
			var pv any
			n.abciCall("InitChain", func(app *minitiaapp.MinitiaApp) {
				defer func() { pv = recover() }()
				app.InitChain(&abci.RequestInitChain{ChainId: chainID, Time: c.genTime, ConsensusParams: n.gen.consensusParams(), AppStateBytes: n.genBz, InitialHeight: c.initialHeight})
			})
			if pv != nil && !inc.dead && n.w.prop == "C02" {
				n.w.violate("first-commit-crash", "n%d: a crash inside the commit of the first block leaves a node that cannot initialise again: %v", n.id, pv)
			}
			n.w.count("data_dir_resets")
			if n.storeH > c.initialHeight {
				n.w.violate("lost-all", "n%d: the application is at height 0 after a restart, %d blocks were decided", n.id, n.storeH)
			}
			inc.kill("data directory reset")
			for i := range n.disks {
				n.disks[i] = NewDisk(n.disks[i].name)
			}
			return false
		}
		if !n.abciCall("InitChain", func(app *minitiaapp.MinitiaApp) {
			_, err := app.InitChain(&abci.RequestInitChain{ChainId: chainID, Time: c.genTime, ConsensusParams: n.gen.consensusParams(), AppStateBytes: n.genBz, InitialHeight: c.initialHeight})
			if err != nil {
				panic(err)
			}
		}) {
			return false
		}
	}
	n.stateH = appH
	n.up = true
	first := appH + 1
	if appH == 0 {
		first = c.initialHeight
	}
	for h := first; h <= n.storeH; h++ {
		n.w.count("replayed_blocks")
		if !n.apply(c, c.block(h), true) {
			return false
		}
	}
	if n.onUp != nil {
		n.onUp(n)
	}
	return true
}

// apply executes one decided block: FinalizeBlock, then Commit.
func (n *Node) apply(c *Chain, b *Block, replay bool) bool {
	if b.H > n.storeH {
		n.storeH = b.H
	}
	var res *abci.ResponseFinalizeBlock
	var err error
	if !n.abciCall(fmt.Sprintf("FinalizeBlock(%d)", b.H), func(app *minitiaapp.MinitiaApp) { res, err = app.FinalizeBlock(b.req()) }) {
		return false
	}
	if err != nil {
		if strings.Contains(err.Error(), errDisk.Error()) || n.faulty {
			n.inc.kill("disk error in FinalizeBlock")
			return false
		}
		n.w.violate("finalize-error", "n%d: FinalizeBlock(%d) returned an error, the chain halts: %v", n.id, b.H, err)
		n.inc.kill("FinalizeBlock error")
		return false
	}
	c.record(n, b, res)
	if n.onFin != nil {
		n.onFin(n, b, res)
		if n.inc.dead {
			return false
		}
	}
	// CometBFT holds the mempool lock from before Commit until the update.
	ok := false
	n.mp.lock()
	if n.abciCall(fmt.Sprintf("Commit(%d)", b.H), func(app *minitiaapp.MinitiaApp) { _, err = app.Commit() }) {
		ok = true
	}
	if !ok {
		return false
	}
	if err != nil {
		n.mp.unlock()
		if strings.Contains(err.Error(), errDisk.Error()) || n.faulty {
			n.inc.kill("disk error in Commit")
			return false
		}
		n.w.violate("commit-error", "n%d: Commit(%d) returned an error, the chain halts: %v", n.id, b.H, err)
		n.inc.kill("Commit error")
		return false
	}
	n.stateH = b.H
	n.ackH = b.H
	n.mp.update(b, res)
	n.mp.unlock()
	if n.inc.dead {
		return false
	}
	return true
}

// committedCtx is a context on the last committed state, as queries get it.
func (n *Node) committedCtx() sdk.Context {
	ctx, err := n.app.CreateQueryContext(0, false)
	if err != nil {
		n.w.abort("CreateQueryContext: %v", err)
	}
	return ctx
}
func (n *Node) ctxAt(h int64) (sdk.Context, error) { return n.app.CreateQueryContext(h, false) }

// Chain is the agreed history.
type Chain struct {
	w             *World
	blocks        []*Block
	results       []*BlockRes
	genTime       time.Time
	initialHeight int64
	gen           *GenSpec
	genBz         []byte
	clock         time.Time
	ref           *Node
	onRecord      func(n *Node, b *Block, r *abci.ResponseFinalizeBlock, first bool)
}

func newChain(w *World, g *GenSpec) *Chain {
	return &Chain{w: w, gen: g, genTime: time.Unix(1735689600, 0).UTC(), initialHeight: 1, clock: time.Unix(1735689600, 0).UTC()}
}

func (c *Chain) genesis(n *Node) []byte {
	if c.genBz == nil {
		c.genBz = c.gen.build(n.app)
	}
	return c.genBz
}
func (c *Chain) height() int64 { return c.initialHeight + int64(len(c.blocks)) - 1 }
func (c *Chain) block(h int64) *Block {
	i := h - c.initialHeight
	if i < 0 || i >= int64(len(c.blocks)) {
		return nil
	}
	return c.blocks[i]
}
func (c *Chain) res(h int64) *BlockRes {
	i := h - c.initialHeight
	if i < 0 || i >= int64(len(c.results)) {
		return &BlockRes{}
	}
	return c.results[i]
}

// next makes the next block from the given transactions.
func (c *Chain) next(txs [][]byte, r *Rng) *Block {
	h := c.height() + 1
	c.clock = c.clock.Add(time.Duration(1+r.N(4000)) * time.Millisecond)
	b := &Block{H: h, T: c.clock, Txs: txs}
	hs := detBytes(fmt.Sprintf("block/%d/%d", c.w.seed, h), len(txs))
	b.Hash = hs
	return b
}
func (c *Chain) decide(b *Block) { c.blocks = append(c.blocks, b) }

func digest(res *abci.ResponseFinalizeBlock) string {
	var sb strings.Builder
	for i, t := range res.TxResults {
		fmt.Fprintf(&sb, "tx%d code=%d/%s gas=%d/%d data=%x", i, t.Code, t.Codespace, t.GasUsed, t.GasWanted, t.Data)
		for _, e := range t.Events {
			fmt.Fprintf(&sb, "|%s", e.Type)
			for _, a := range e.Attributes {
				fmt.Fprintf(&sb, ",%s=%s", a.Key, a.Value)
			}
		}
		sb.WriteString("\n")
	}
	sb.WriteString("block")
	for _, e := range res.Events {
		fmt.Fprintf(&sb, "|%s", e.Type)
		for _, a := range e.Attributes {
			fmt.Fprintf(&sb, ",%s=%s", a.Key, a.Value)
		}
	}
	for _, v := range res.ValidatorUpdates {
		fmt.Fprintf(&sb, "|val %v %d", v.PubKey, v.Power)
	}
	return sb.String()
}

func firstDiff(a, b string) string {
	al, bl := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range al {
		if i >= len(bl) || al[i] != bl[i] {
			x, y := al[i], ""
			if i < len(bl) {
				y = bl[i]
			}
			j := 0
			for j < len(x) && j < len(y) && x[j] == y[j] {
				j++
			}
			lo := max(0, j-60)
			return fmt.Sprintf("line %d at %d: %q vs %q", i, j, x[lo:min(len(x), j+100)], y[lo:min(len(y), j+100)])
		}
	}
	return "lengths differ"
}

// record stores the first result for a block and compares later ones with it.
func (c *Chain) record(n *Node, b *Block, res *abci.ResponseFinalizeBlock) {
	i := int(b.H - c.initialHeight)
	d := digest(res)
	c.w.hist.Write([]byte(d))
	if i == len(c.results) {
		c.results = append(c.results, &BlockRes{AppHash: res.AppHash, Digest: d, Res: res})
		c.w.state(res.AppHash)
		c.w.count("blocks")
		c.w.countN("txs_executed", len(b.Txs))
		for _, t := range res.TxResults {
			if t.Code == 0 {
				c.w.count("txs_ok")
			} else {
				c.w.count("txs_failed")
			}
		}
		ok := 0
		for _, t := range res.TxResults {
			if t.Code == 0 {
				ok++
			}
		}
		c.w.logf("n%d: block %d txs=%d ok=%d hash=%x", n.id, b.H, len(b.Txs), ok, res.AppHash[:6])
		if c.onRecord != nil {
			c.onRecord(n, b, res, true)
		}
		return
	}
	r := c.results[i]
	c.w.count("replica_comparisons")
	if r.Digest != d {
		c.w.violate("result-divergence", "block %d: n%d gets other transaction results than the first node to execute it: %s", b.H, n.id, firstDiff(r.Digest, d))
	}
	if !bytes.Equal(r.AppHash, res.AppHash) {
		if ref := c.ref; ref != nil && ref != n {
			if a, err := ref.ctxAt(b.H - 1); err == nil {
				if x, err := n.ctxAt(b.H - 1); err == nil {
					c.w.logf("state before block %d, reference vs n%d: %s", b.H, n.id, first(diffDump(ref.dumpCtx(a), n.dumpCtx(x)), 6))
				}
			}
			if ci, err := ref.app.CommitMultiStore().(interface {
				GetCommitInfo(int64) (*storetypes.CommitInfo, error)
			}).GetCommitInfo(b.H); err == nil {
				ni := n.app.CommitMultiStore().(interface {
					GetCommitKVStore(storetypes.StoreKey) storetypes.CommitKVStore
				})
				want := map[string][]byte{}
				for _, s := range ci.StoreInfos {
					want[s.Name] = s.CommitId.Hash
				}
				for _, k := range n.app.GetKVStoreKey() {
					if st := ni.GetCommitKVStore(k); st != nil && !bytes.Equal(st.WorkingHash(), want[k.Name()]) {
						if n.cfg.Pruning[0] > 0 && len(d) > 0 && bytes.Equal(st.WorkingHash(), emptyHash) {
							// see the known findings: the pruned store lost a node its tree still uses
							c.w.violate("pruned-tree-emptied", "block %d: on n%d, which prunes, the tree of store %s becomes empty at the first write after a restart", b.H, n.id, k.Name())
							c.w.emit("", "")
						}
						c.w.logf("store %s: %x, reference %x, version %d", k.Name(), st.WorkingHash(), want[k.Name()], st.LastCommitID().Version)
					}
				}
			}
		}
	}
	if !bytes.Equal(r.AppHash, res.AppHash) {
		c.w.violate("apphash-divergence", "block %d: n%d computes app hash %x, the first node to execute it computed %x", b.H, n.id, res.AppHash, r.AppHash)
	}
	if c.onRecord != nil {
		c.onRecord(n, b, res, false)
	}
}
