package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"time"

	abci "github.com/cometbft/cometbft/abci/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/trie"

	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

// Oracle says what a node's Ethereum index must hold for each decided block,
// computed from the transactions as they were signed and the execution results.
type Oracle struct {
	w       *World
	rg      *Rig
	blocks  map[int64]*oBlock
	byHash  map[common.Hash][]*oTx
	hashOf  map[int64]common.Hash  // block hashes as first answered
	numOf   map[common.Hash]int64  // and back
	first   map[string]string      // first answers, by question
	ghostTx []*Tx                  // transactions no block contains
	gaps    map[int]map[int64]bool // node -> heights whose index write a crash may have cut short
	blkIdx  int                    // 0 unknown, 1 log indexes restart per transaction, 2 they run through the block
	idxWho  string
}

type oBlock struct {
	h    int64
	t    time.Time
	gas  uint64
	txs  []*oTx
	logs int
	uses []string
}

type oTx struct {
	t        *Tx
	blk      *oBlock
	pos      int
	carrier  []byte
	ok       bool
	gas, cum uint64
	logs     []oLog
	logBase  int
	contract *common.Address
	refused  bool // not executed: refused by the ante handler
}

type oLog struct {
	addr   common.Address
	topics []common.Hash
	data   []byte
}

func newOracle(rg *Rig) *Oracle {
	o := &Oracle{w: rg.w, rg: rg, blocks: map[int64]*oBlock{}, byHash: map[common.Hash][]*oTx{}, hashOf: map[int64]common.Hash{}, numOf: map[common.Hash]int64{}, first: map[string]string{}, gaps: map[int]map[int64]bool{}}
	prev := rg.c.onRecord
	rg.c.onRecord = func(n *Node, b *Block, r *abci.ResponseFinalizeBlock, first bool) {
		if prev != nil {
			prev(n, b, r, first)
		}
		if first {
			o.add(b, r)
		}
	}
	return o
}

func (o *Oracle) add(b *Block, res *abci.ResponseFinalizeBlock) {
	ob := &oBlock{h: b.H, t: b.T}
	var cum uint64
	for i, bz := range b.Txs {
		r := res.TxResults[i]
		used := uint64(r.GasUsed)
		if r.GasWanted > 0 && used > uint64(r.GasWanted) {
			used = uint64(r.GasWanted)
		}
		ob.gas += used
		ob.uses = append(ob.uses, fmt.Sprintf("%d:%d/%d", r.Code, r.GasUsed, r.GasWanted))
		t := o.rg.reg[txKey(bz)]
		if t == nil || t.eth == nil {
			continue
		}
		h := sha256.Sum256(bz)
		cum += uint64(r.GasUsed)
		x := &oTx{t: t, blk: ob, pos: len(ob.txs), carrier: h[:], ok: r.Code == 0, gas: uint64(r.GasUsed), cum: cum, logBase: ob.logs, refused: r.Code != 0 && len(r.Events) == 0}
		if x.ok {
			var logs []evmtypes.Log
			if t.eth.To() == nil {
				var m evmtypes.MsgCreateResponse
				if !msgResp(r.Data, 0, &m) {
					o.w.abort("no create response in %x", r.Data)
				}
				logs = m.Logs
				a := crypto.CreateAddress(t.from.eth, t.eth.Nonce())
				x.contract = &a
			} else {
				var m evmtypes.MsgCallResponse
				if !msgResp(r.Data, 0, &m) {
					o.w.abort("no call response in %x", r.Data)
				}
				logs = m.Logs
			}
			for _, l := range logs {
				ol := oLog{addr: common.HexToAddress(l.Address)}
				for _, tp := range l.Topics {
					ol.topics = append(ol.topics, common.HexToHash(tp))
				}
				ol.data, _ = hex.DecodeString(strings.TrimPrefix(l.Data, "0x"))
				x.logs = append(x.logs, ol)
			}
			ob.logs += len(x.logs)
		}
		ob.txs = append(ob.txs, x)
		o.byHash[t.eth.Hash()] = append(o.byHash[t.eth.Hash()], x)
		o.w.count("oracle.eth_txs")
	}
	if mg := o.rg.gen.MaxGas; mg > 0 && ob.gas > uint64(mg) {
		ob.gas = uint64(mg)
	}
	o.blocks[b.H] = ob
}

// again says whether the transaction sits in blocks more than once. The index
// keeps one record per transaction hash, see the known findings.
func (o *Oracle) again(h common.Hash) bool { return len(o.byHash[h]) > 1 }

// watch notes, when a node comes up, which height's index write may be missing.
func (o *Oracle) watch(n *Node) {
	if n.upH > n.upAck && n.upH > 0 {
		if o.gaps[n.id] == nil {
			o.gaps[n.id] = map[int64]bool{}
		}
		o.gaps[n.id][n.upH] = true
		o.w.count("crash_between_commit_and_index_write")
	}
}

// A Probe asks one node's index and compares. strict is the last height all of
// whose answers must be there; above it answers may be missing but not wrong.
type Probe struct {
	o      *Oracle
	f      *Front
	n      *Node
	strict int64
	dead   bool
}

func (o *Oracle) probe(f *Front) *Probe { return &Probe{o: o, f: f, n: f.n, strict: f.n.ackH} }

func (p *Probe) bad(class, f string, a ...any) {
	if p.n.inc != p.f.inc || p.f.inc.dead {
		p.dead = true
		return
	}
	p.o.w.violate(class, "n%d at height %d: %s", p.n.id, p.n.ackH, fmt.Sprintf(f, a...))
}

// missing reports an answer that is not there, unless it need not be.
func (p *Probe) missing(h int64, f string, a ...any) {
	if h > p.strict {
		return
	}
	if p.o.gaps[p.n.id][h] {
		p.bad("index-gap", "block %d, committed but not indexed when the process ended: %s", h, fmt.Sprintf(f, a...))
		return
	}
	p.bad("index-missing", f, a...)
}

func (p *Probe) ask(method string, args ...any) (json.RawMessage, bool) {
	if p.dead {
		return nil, false
	}
	out, err, ok := p.f.call(method, args...)
	if !ok {
		p.dead = true
		return nil, false
	}
	p.o.w.count("rpc." + method)
	if err != nil {
		p.o.w.logf("n%d: %s(%s): %v", p.n.id, method, argStr(args), err)
		p.o.w.count("rpc_errors")
		return nil, true
	}
	return out, true
}

func isNull(r json.RawMessage) bool { return len(r) == 0 || string(r) == "null" }

type jTx struct {
	BlockHash        *common.Hash          `json:"blockHash"`
	BlockNumber      *hexutil.Big          `json:"blockNumber"`
	From             common.Address        `json:"from"`
	Gas              hexutil.Uint64        `json:"gas"`
	GasPrice         *hexutil.Big          `json:"gasPrice"`
	MaxFee           *hexutil.Big          `json:"maxFeePerGas"`
	MaxTip           *hexutil.Big          `json:"maxPriorityFeePerGas"`
	Hash             common.Hash           `json:"hash"`
	Input            hexutil.Bytes         `json:"input"`
	Nonce            hexutil.Uint64        `json:"nonce"`
	To               *common.Address       `json:"to"`
	TransactionIndex *hexutil.Uint64       `json:"transactionIndex"`
	Value            *hexutil.Big          `json:"value"`
	Type             hexutil.Uint64        `json:"type"`
	AccessList       *coretypes.AccessList `json:"accessList"`
	ChainID          *hexutil.Big          `json:"chainId"`
	V                *hexutil.Big          `json:"v"`
	R                *hexutil.Big          `json:"r"`
	S                *hexutil.Big          `json:"s"`
}

type jLog struct {
	Address     common.Address `json:"address"`
	Topics      []common.Hash  `json:"topics"`
	Data        hexutil.Bytes  `json:"data"`
	BlockNumber hexutil.Uint64 `json:"blockNumber"`
	TxHash      common.Hash    `json:"transactionHash"`
	TxIndex     hexutil.Uint   `json:"transactionIndex"`
	BlockHash   common.Hash    `json:"blockHash"`
	Index       hexutil.Uint   `json:"logIndex"`
	Removed     bool           `json:"removed"`
}

type jReceipt struct {
	BlockHash         common.Hash     `json:"blockHash"`
	BlockNumber       hexutil.Uint64  `json:"blockNumber"`
	TransactionHash   common.Hash     `json:"transactionHash"`
	TransactionIndex  hexutil.Uint64  `json:"transactionIndex"`
	From              common.Address  `json:"from"`
	To                *common.Address `json:"to"`
	GasUsed           hexutil.Uint64  `json:"gasUsed"`
	CumulativeGasUsed hexutil.Uint64  `json:"cumulativeGasUsed"`
	ContractAddress   *common.Address `json:"contractAddress"`
	Logs              []jLog          `json:"logs"`
	LogsBloom         coretypes.Bloom `json:"logsBloom"`
	Type              hexutil.Uint    `json:"type"`
	Status            hexutil.Uint    `json:"status"`
}

type jBlock struct {
	Number       *hexutil.Big      `json:"number"`
	Hash         common.Hash       `json:"hash"`
	ParentHash   common.Hash       `json:"parentHash"`
	LogsBloom    coretypes.Bloom   `json:"logsBloom"`
	GasLimit     hexutil.Uint64    `json:"gasLimit"`
	GasUsed      hexutil.Uint64    `json:"gasUsed"`
	Timestamp    hexutil.Uint64    `json:"timestamp"`
	TxRoot       common.Hash       `json:"transactionsRoot"`
	ReceiptsRoot common.Hash       `json:"receiptsRoot"`
	Txs          []json.RawMessage `json:"transactions"`
}

func bigEq(a *hexutil.Big, b *big.Int) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.ToInt().Cmp(b) == 0
}

// sameTx compares a transaction answer with the transaction as it was signed.
func sameTx(j *jTx, t *Tx) string {
	e := t.eth
	v, r, s := e.RawSignatureValues()
	switch {
	case j.Hash != e.Hash():
		return fmt.Sprintf("hash %s, not %s", j.Hash, e.Hash())
	case j.From != t.from.eth:
		return fmt.Sprintf("from %s, not the signer %s", j.From, t.from.eth)
	case uint64(j.Nonce) != e.Nonce():
		return fmt.Sprintf("nonce %d, not %d", j.Nonce, e.Nonce())
	case uint64(j.Gas) != e.Gas():
		return fmt.Sprintf("gas %d, not %d", j.Gas, e.Gas())
	case (j.To == nil) != (e.To() == nil) || (j.To != nil && *j.To != *e.To()):
		return fmt.Sprintf("to %v, not %v", j.To, e.To())
	case !bytes.Equal(j.Input, e.Data()):
		return fmt.Sprintf("input %x, not %x", trunc(string(j.Input)), trunc(string(e.Data())))
	case !bigEq(j.Value, e.Value()):
		return fmt.Sprintf("value %v, not %v", j.Value, e.Value())
	case uint64(j.Type) != uint64(e.Type()):
		return fmt.Sprintf("type %d, not %d", j.Type, e.Type())
	case !bigEq(j.V, v) || !bigEq(j.R, r) || !bigEq(j.S, s):
		return fmt.Sprintf("signature %v %v %v, not %v %v %v", j.V, j.R, j.S, v, r, s)
	case e.Type() == coretypes.DynamicFeeTxType && (!bigEq(j.MaxFee, e.GasFeeCap()) || !bigEq(j.MaxTip, e.GasTipCap())):
		return fmt.Sprintf("fees %v %v, not %v %v", j.MaxFee, j.MaxTip, e.GasFeeCap(), e.GasTipCap())
	case e.Type() != coretypes.DynamicFeeTxType && !bigEq(j.GasPrice, e.GasPrice()):
		return fmt.Sprintf("gas price %v, not %v", j.GasPrice, e.GasPrice())
	case e.Type() != coretypes.LegacyTxType && !bigEq(j.ChainID, e.ChainId()):
		return fmt.Sprintf("chain id %v, not %v", j.ChainID, e.ChainId())
	}
	if e.Type() != coretypes.LegacyTxType {
		var al coretypes.AccessList
		if j.AccessList != nil {
			al = *j.AccessList
		}
		if len(al) != len(e.AccessList()) || (len(al) > 0 && fmt.Sprint(al) != fmt.Sprint(e.AccessList())) {
			return fmt.Sprintf("access list %v, not %v", al, e.AccessList())
		}
	}
	return ""
}

// place checks the block, position and hash of an answer about x.
func (p *Probe) place(what string, x *oTx, bh common.Hash, num int64, pos uint64) {
	if p.o.again(x.t.eth.Hash()) {
		for _, y := range p.o.byHash[x.t.eth.Hash()] {
			if num == y.blk.h && pos == uint64(y.pos) {
				if y != x {
					p.bad("reincluded", "%s: %s, which blocks contain more than once, is given as in block %d at %d, asked about block %d at %d", what, x.t, num, pos, x.blk.h, x.pos)
				}
				p.blockHash(what, y.blk.h, bh)
				return
			}
		}
	}
	if num != x.blk.h || pos != uint64(x.pos) {
		p.bad("wrong-place", "%s: %s is given as in block %d at %d, it is in block %d at %d", what, x.t, num, pos, x.blk.h, x.pos)
		return
	}
	p.blockHash(what, x.blk.h, bh)
}

func (p *Probe) blockHash(what string, h int64, bh common.Hash) {
	if old, ok := p.o.hashOf[h]; !ok {
		p.o.hashOf[h] = bh
		if m, dup := p.o.numOf[bh]; dup && m != h {
			p.bad("block-hash", "%s: block %d has the hash %s of block %d", what, h, bh, m)
		}
		p.o.numOf[bh] = h
	} else if old != bh {
		if p.gapBefore(h) {
			p.bad("index-gap", "%s: the hash of block %d differs from other nodes' because its parent was not indexed when the process ended", what, h)
			return
		}
		p.bad("block-hash", "%s: block %d has hash %s, earlier answers said %s", what, h, bh, old)
	}
}

// gapBefore: one of the parents' headers may be missing on this node.
func (p *Probe) gapBefore(h int64) bool {
	for g := range p.o.gaps[p.n.id] {
		if g < h {
			return true
		}
	}
	return false
}

func (p *Probe) txAnswer(what string, raw json.RawMessage, x *oTx) {
	if isNull(raw) {
		p.missing(x.blk.h, "%s: %s of block %d is not found", what, x.t, x.blk.h)
		return
	}
	var j jTx
	if err := json.Unmarshal(raw, &j); err != nil {
		p.bad("rpc-format", "%s: %v in %s", what, err, raw)
		return
	}
	if d := sameTx(&j, x.t); d != "" {
		p.bad("wrong-tx", "%s: %s is given with %s", what, x.t, d)
	}
	if j.BlockHash == nil || j.BlockNumber == nil || j.TransactionIndex == nil {
		p.bad("wrong-place", "%s: %s is given without block, it is in block %d at %d", what, x.t, x.blk.h, x.pos)
		return
	}
	p.place(what, x, *j.BlockHash, j.BlockNumber.ToInt().Int64(), uint64(*j.TransactionIndex))
	p.steady(what+x.t.eth.Hash().Hex(), raw, x.t.eth.Hash(), x.blk.h)
}

// steady compares an answer with the first one given to the same question.
func (p *Probe) steady(q string, raw json.RawMessage, h common.Hash, blk int64) {
	if p.dead || (h != common.Hash{} && p.o.again(h)) || p.gapBefore(blk) {
		return
	}
	if f, ok := p.o.first[q]; !ok {
		p.o.first[q] = string(raw)
	} else if f != string(raw) {
		p.bad("answer-changed", "%s answered %s, earlier %s", q, raw, f)
	}
}

// block checks everything a node says about block h by number.
func (p *Probe) block(h int64, r *Rng) {
	ob := p.o.blocks[h]
	if ob == nil {
		return
	}
	full := r.P(1, 2)
	raw, ok := p.ask("eth_getBlockByNumber", hx(h), full)
	if !ok {
		return
	}
	p.o.w.count("blocks_probed")
	if isNull(raw) {
		p.missing(h, "eth_getBlockByNumber(%d) finds nothing", h)
		return
	}
	j := p.blockAnswer("eth_getBlockByNumber", raw, ob, full)
	if j == nil || p.dead {
		return
	}
	strict := h <= p.strict
	raw2, ok := p.ask("eth_getBlockByHash", j.Hash, full)
	if !ok {
		return
	}
	if isNull(raw2) {
		p.missing(h, "eth_getBlockByHash finds no block %d", h)
	} else if strict && !bytes.Equal(raw, raw2) {
		p.bad("by-hash", "block %d by number is %s, by its hash %s", h, raw, raw2)
	}
	if !strict {
		return
	}
	for _, x := range ob.txs {
		p.tx(x, j.Hash, r)
		if p.dead {
			return
		}
	}
	// one past the last position, and the counts
	if raw, ok = p.ask("eth_getTransactionByBlockNumberAndIndex", hx(h), hx(len(ob.txs))); ok && !isNull(raw) {
		p.bad("extra-tx", "block %d has %d Ethereum transactions, there is one at position %d: %s", h, len(ob.txs), len(ob.txs), raw)
	}
	for _, m := range []string{"eth_getBlockTransactionCountByNumber", "eth_getBlockTransactionCountByHash"} {
		var a any = hx(h)
		if strings.HasSuffix(m, "Hash") {
			a = j.Hash
		}
		if raw, ok = p.ask(m, a); ok {
			if want := fmt.Sprintf("%q", hx(len(ob.txs))); string(raw) != want {
				p.missing(h, "%s of block %d is %s, not %s", m, h, raw, want)
			}
		}
	}
}

func (p *Probe) blockAnswer(what string, raw json.RawMessage, ob *oBlock, full bool) *jBlock {
	var j jBlock
	if err := json.Unmarshal(raw, &j); err != nil {
		p.bad("rpc-format", "%s: %v in %s", what, err, raw)
		return nil
	}
	h := ob.h
	if j.Number.ToInt().Int64() != h {
		p.bad("wrong-header", "%s(%d) gives block %v", what, h, j.Number)
	}
	p.blockHash(what, h, j.Hash)
	if uint64(j.Timestamp) != uint64(ob.t.Unix()) {
		p.bad("wrong-header", "block %d has time %d, it was decided for %d", h, j.Timestamp, ob.t.Unix())
	}
	if uint64(j.GasUsed) != ob.gas {
		p.bad("wrong-header", "block %d has gas used %d, its transactions used %d: %v", h, j.GasUsed, ob.gas, ob.uses)
	}
	if mg := p.o.rg.gen.MaxGas; mg > 0 && uint64(j.GasLimit) != uint64(mg) {
		p.bad("wrong-header", "block %d has gas limit %d, the chain's is %d", h, j.GasLimit, mg)
	}
	if par := p.o.blocks[h-1]; par != nil {
		if ph, ok := p.o.hashOf[h-1]; ok && ph != j.ParentHash {
			if p.gapBefore(h) {
				p.bad("index-gap", "the parent hash of block %d is not that of block %d, whose index write was cut short by a crash", h, h-1)
			} else {
				p.bad("parent-hash", "block %d names parent %s, block %d is %s", h, j.ParentHash, h-1, ph)
			}
		} else if !ok && j.ParentHash != (common.Hash{}) {
			p.o.hashOf[h-1] = j.ParentHash
			p.o.numOf[j.ParentHash] = h - 1
		}
	}
	var ets []*coretypes.Transaction
	var rcs []*coretypes.Receipt
	bloom := coretypes.Bloom{}
	for _, x := range ob.txs {
		ets = append(ets, x.t.eth)
		rc := &coretypes.Receipt{Status: coretypes.ReceiptStatusFailed, CumulativeGasUsed: x.cum, GasUsed: x.gas}
		if x.ok {
			rc.Status = coretypes.ReceiptStatusSuccessful
		}
		for _, l := range x.logs {
			rc.Logs = append(rc.Logs, &coretypes.Log{Address: l.addr, Topics: l.topics, Data: l.data})
			bloom.Add(l.addr.Bytes())
			for _, t := range l.topics {
				bloom.Add(t.Bytes())
			}
		}
		rc.Bloom = coretypes.CreateBloom(coretypes.Receipts{rc})
		rcs = append(rcs, rc)
	}
	for _, x := range ob.txs {
		for _, l := range x.logs {
			if !coretypes.BloomLookup(j.LogsBloom, l.addr) {
				p.bad("bloom", "the bloom of block %d does not cover %s, which logs in %s", h, l.addr, x.t)
			}
			for _, t := range l.topics {
				if !coretypes.BloomLookup(j.LogsBloom, t) {
					p.bad("bloom", "the bloom of block %d does not cover topic %s, logged in %s", h, t, x.t)
				}
			}
		}
	}
	if j.LogsBloom != bloom {
		p.bad("bloom", "the bloom of block %d is not that of its logs", h)
	}
	if want := coretypes.DeriveSha(coretypes.Transactions(ets), trie.NewStackTrie(nil)); want != j.TxRoot {
		p.bad("tx-root", "block %d commits to transactions %s, its %d transactions give %s", h, j.TxRoot, len(ets), want)
	}
	// the receipts' own types are the wire format's, as the index sets none they are legacy ones
	if want := coretypes.DeriveSha(coretypes.Receipts(rcs), trie.NewStackTrie(nil)); want != j.ReceiptsRoot {
		for i, x := range ob.txs {
			rcs[i].Type = x.t.eth.Type()
		}
		if alt := coretypes.DeriveSha(coretypes.Receipts(rcs), trie.NewStackTrie(nil)); alt != j.ReceiptsRoot {
			p.bad("receipt-root", "block %d commits to receipts %s, its receipts give %s", h, j.ReceiptsRoot, want)
		}
	}
	if len(j.Txs) != len(ob.txs) {
		if len(j.Txs) < len(ob.txs) {
			p.missing(h, "%s: block %d lists %d Ethereum transactions, it has %d", what, h, len(j.Txs), len(ob.txs))
		} else {
			p.bad("extra-tx", "%s: block %d lists %d Ethereum transactions, it has %d", what, h, len(j.Txs), len(ob.txs))
		}
		return &j
	}
	for i, x := range ob.txs {
		if full {
			p.txAnswer(what, j.Txs[i], x)
		} else if string(j.Txs[i]) != fmt.Sprintf("%q", x.t.eth.Hash().Hex()) {
			p.bad("order", "%s: block %d lists %s at position %d, it has %s there", what, h, j.Txs[i], i, x.t.eth.Hash())
		}
	}
	steady := true
	for _, x := range ob.txs {
		steady = steady && !p.o.again(x.t.eth.Hash())
	}
	if steady && h <= p.strict {
		p.steady(fmt.Sprintf("%s(%d,%v)", what, h, full), raw, common.Hash{}, h)
	}
	return &j
}

// tx checks the ways to reach one transaction.
func (p *Probe) tx(x *oTx, bh common.Hash, r *Rng) {
	th := x.t.eth.Hash()
	if raw, ok := p.ask("eth_getTransactionByHash", th); ok {
		p.txAnswer("eth_getTransactionByHash", raw, x)
	}
	if raw, ok := p.ask("eth_getTransactionByBlockNumberAndIndex", hx(x.blk.h), hx(x.pos)); ok {
		p.txAnswer("eth_getTransactionByBlockNumberAndIndex", raw, x)
	}
	if r.P(1, 2) {
		if raw, ok := p.ask("eth_getTransactionByBlockHashAndIndex", bh, hx(x.pos)); ok {
			p.txAnswer("eth_getTransactionByBlockHashAndIndex", raw, x)
		}
	}
	want, _ := x.t.eth.MarshalBinary()
	if raw, ok := p.ask("eth_getRawTransactionByHash", th); ok {
		if isNull(raw) || string(raw) == `"0x"` {
			p.missing(x.blk.h, "eth_getRawTransactionByHash finds no %s", x.t)
		} else if string(raw) != fmt.Sprintf("%q", hexutil.Encode(want)) {
			p.bad("raw-tx", "eth_getRawTransactionByHash of %s gives %s, signed were %x", x.t, raw, want)
		}
	}
	if raw, ok := p.ask("cosmos_cosmosTxHashByTxHash", th); ok {
		var cs string
		json.Unmarshal(raw, &cs)
		c, _ := hex.DecodeString(strings.TrimPrefix(cs, "0x"))
		if len(bytes.Trim(c, "\x00")) == 0 {
			p.missing(x.blk.h, "cosmos_cosmosTxHashByTxHash finds no carrier of %s", x.t)
		} else if !bytes.Equal(c, x.carrier) {
			p.bad("pairing", "the carrier of %s is given as %x, it is %x", x.t, []byte(c), x.carrier)
		}
	}
	if raw, ok := p.ask("cosmos_txHashByCosmosTxHash", hex.EncodeToString(x.carrier)); ok {
		if isNull(raw) || string(raw) == fmt.Sprintf("%q", common.Hash{}.Hex()) {
			p.missing(x.blk.h, "cosmos_txHashByCosmosTxHash finds nothing for the carrier of %s", x.t)
		} else if string(raw) != fmt.Sprintf("%q", th.Hex()) {
			p.bad("pairing", "the transaction carried by %x is given as %s, it is %s", x.carrier, raw, th)
		}
	}
}

// ghost checks that transactions no block contains are not found.
func (p *Probe) ghost(t *Tx) {
	if t.eth == nil || len(p.o.byHash[t.eth.Hash()]) > 0 {
		return
	}
	for _, m := range []string{"eth_getTransactionByHash", "eth_getTransactionReceipt"} {
		raw, ok := p.ask(m, t.eth.Hash())
		if ok && len(p.o.byHash[t.eth.Hash()]) == 0 && !isNull(raw) {
			p.bad("ghost", "%s finds %s, which no block contains: %s", m, t, raw)
		}
	}
	p.o.w.count("ghosts_probed")
}

// ---- receipts and logs

func (p *Probe) logAnswer(what string, l *jLog, x *oTx, i int) string {
	w := x.logs[i]
	if l.Address != w.addr || !bytes.Equal(l.Data, w.data) || len(l.Topics) != len(w.topics) {
		return fmt.Sprintf("%s %v %x, executed was %s %v %x", l.Address, l.Topics, []byte(l.Data), w.addr, w.topics, w.data)
	}
	for k := range w.topics {
		if l.Topics[k] != w.topics[k] {
			return fmt.Sprintf("topic %d %s, executed was %s", k, l.Topics[k], w.topics[k])
		}
	}
	if l.Removed {
		return "marked as removed"
	}
	if l.TxHash != x.t.eth.Hash() {
		return fmt.Sprintf("attributed to transaction %s", l.TxHash)
	}
	p.place(what, x, l.BlockHash, int64(l.BlockNumber), uint64(l.TxIndex))
	if x.logBase == 0 {
		if int(l.Index) != i {
			return fmt.Sprintf("at log index %d, it is number %d", l.Index, i)
		}
		return ""
	}
	k := 0
	switch int(l.Index) {
	case i:
		k = 1
	case x.logBase + i:
		k = 2
	default:
		return fmt.Sprintf("at log index %d, it is number %d of its transaction and %d of its block", l.Index, i, x.logBase+i)
	}
	if p.o.blkIdx == 0 {
		p.o.blkIdx, p.o.idxWho = k, what
	} else if p.o.blkIdx != k {
		return fmt.Sprintf("at log index %d, counted differently than in %s", l.Index, p.o.idxWho)
	}
	return ""
}

func (p *Probe) receiptAnswer(what string, raw json.RawMessage, x *oTx) {
	if isNull(raw) {
		p.missing(x.blk.h, "%s: no receipt of %s of block %d", what, x.t, x.blk.h)
		return
	}
	var j jReceipt
	if err := json.Unmarshal(raw, &j); err != nil {
		p.bad("rpc-format", "%s: %v in %s", what, err, raw)
		return
	}
	th := x.t.eth.Hash()
	if p.o.again(th) {
		for _, y := range p.o.byHash[th] {
			if int64(j.BlockNumber) == y.blk.h && int(j.TransactionIndex) == y.pos {
				if y != x {
					p.bad("reincluded", "%s: the receipt of %s, which blocks contain more than once, is that of block %d, asked about block %d", what, x.t, y.blk.h, x.blk.h)
				}
				x = y
			}
		}
	}
	e := func(f string, a ...any) {
		p.bad("receipt", "%s: the receipt of %s (block %d) has %s", what, x.t, x.blk.h, fmt.Sprintf(f, a...))
	}
	if j.TransactionHash != th {
		e("hash %s, not %s", j.TransactionHash, th)
	}
	p.place(what, x, j.BlockHash, int64(j.BlockNumber), uint64(j.TransactionIndex))
	if j.From != x.t.from.eth || (j.To == nil) != (x.t.eth.To() == nil) || (j.To != nil && *j.To != *x.t.eth.To()) {
		e("parties %s and %v, not %s and %v", j.From, j.To, x.t.from.eth, x.t.eth.To())
	}
	if (j.Status == 1) != x.ok || j.Status > 1 {
		e("status %d, executed successfully: %v", j.Status, x.ok)
	}
	if uint64(j.GasUsed) != x.gas {
		e("gas used %d, not %d", j.GasUsed, x.gas)
	}
	if uint64(j.CumulativeGasUsed) != x.cum {
		e("cumulative gas used %d, not %d", j.CumulativeGasUsed, x.cum)
	}
	if (j.ContractAddress == nil) != (x.contract == nil) || (x.contract != nil && *j.ContractAddress != *x.contract) {
		e("contract address %v, not %v", j.ContractAddress, x.contract)
	}
	if uint64(j.Type) != uint64(x.t.eth.Type()) {
		e("type %d, not %d", j.Type, x.t.eth.Type())
	}
	if len(j.Logs) != len(x.logs) {
		e("%d logs, not %d", len(j.Logs), len(x.logs))
		return
	}
	for i := range j.Logs {
		if d := p.logAnswer(what, &j.Logs[i], x, i); d != "" {
			e("log %d %s", i, d)
		}
		if !coretypes.BloomLookup(j.LogsBloom, x.logs[i].addr) {
			e("a bloom without %s", x.logs[i].addr)
		}
		for _, t := range x.logs[i].topics {
			if !coretypes.BloomLookup(j.LogsBloom, t) {
				e("a bloom without topic %s", t)
			}
		}
	}
	p.o.w.countN("logs_probed", len(j.Logs))
	p.o.w.count("receipts_probed")
	p.steady(what+th.Hex(), raw, th, x.blk.h)
}

func (p *Probe) receipts(h int64, r *Rng) {
	ob := p.o.blocks[h]
	if ob == nil || h > p.strict {
		return
	}
	for _, x := range ob.txs {
		raw, ok := p.ask("eth_getTransactionReceipt", x.t.eth.Hash())
		if !ok {
			return
		}
		p.receiptAnswer("eth_getTransactionReceipt", raw, x)
	}
	var arg any = hx(h)
	if bh, ok := p.o.hashOf[h]; ok && r.P(1, 2) && !p.gapBefore(h) {
		arg = bh
	}
	raw, ok := p.ask("eth_getBlockReceipts", arg)
	if !ok {
		return
	}
	var rs []json.RawMessage
	json.Unmarshal(raw, &rs)
	if len(rs) != len(ob.txs) {
		p.missing(h, "eth_getBlockReceipts(%d) gives %d receipts, the block has %d transactions", h, len(rs), len(ob.txs))
		return
	}
	for i, x := range ob.txs {
		p.receiptAnswer("eth_getBlockReceipts", rs[i], x)
	}
}

type logCrit struct {
	from, to int64 // 0: not given
	hash     *common.Hash
	addrs    []common.Address
	topics   [][]common.Hash
}

func (c *logCrit) arg() map[string]any {
	m := map[string]any{}
	if c.hash != nil {
		m["blockHash"] = *c.hash
	} else {
		if c.from != 0 {
			m["fromBlock"] = hx(c.from)
		}
		if c.to != 0 {
			m["toBlock"] = hx(c.to)
		}
	}
	if len(c.addrs) == 1 {
		m["address"] = c.addrs[0]
	} else if len(c.addrs) > 1 {
		m["address"] = c.addrs
	}
	if c.topics != nil {
		var ts []any
		for _, t := range c.topics {
			switch len(t) {
			case 0:
				ts = append(ts, nil)
			case 1:
				ts = append(ts, t[0])
			default:
				ts = append(ts, t)
			}
		}
		m["topics"] = ts
	}
	return m
}

func (c *logCrit) match(l oLog) bool {
	if len(c.addrs) > 0 {
		ok := false
		for _, a := range c.addrs {
			ok = ok || a == l.addr
		}
		if !ok {
			return false
		}
	}
	for i, alts := range c.topics {
		if i >= len(l.topics) {
			return false
		}
		ok := len(alts) == 0
		for _, t := range alts {
			ok = ok || t == l.topics[i]
		}
		if !ok {
			return false
		}
	}
	return true
}

// randCrit makes a log filter near the logs there are.
func (o *Oracle) randCrit(r *Rng, lo, hi int64) *logCrit {
	c := &logCrit{}
	var pool []oLog
	for k := 0; k < 4; k++ {
		if ob := o.blocks[lo+int64(r.N(int(hi-lo+1)))]; ob != nil {
			for _, x := range ob.txs {
				pool = append(pool, x.logs...)
			}
		}
	}
	if r.P(1, 2) {
		for k := r.In(1, 3); k > 0; k-- {
			if len(pool) > 0 && r.P(4, 5) {
				c.addrs = append(c.addrs, pick(r, pool).addr)
			} else {
				c.addrs = append(c.addrs, common.BytesToAddress(r.Bytes(20)))
			}
		}
	}
	if r.P(1, 2) {
		for i := r.In(1, 4); i > 0; i-- {
			var alts []common.Hash
			if r.P(2, 3) {
				for k := r.In(1, 3); k > 0; k-- {
					t := common.BytesToHash(r.Bytes(32))
					if len(pool) > 0 && r.P(4, 5) {
						if l := pick(r, pool); len(l.topics) > 0 {
							t = l.topics[min(len(c.topics), len(l.topics)-1)]
						}
					}
					alts = append(alts, t)
				}
			}
			c.topics = append(c.topics, alts)
		}
	}
	return c
}

// logs runs one log search over blocks that are all committed on the node.
func (p *Probe) logs(r *Rng) {
	o := p.o
	hi := p.strict
	lo := max(o.rg.c.initialHeight, hi-12)
	if hi < o.rg.c.initialHeight {
		return
	}
	c := o.randCrit(r, lo, hi)
	from, to := lo+int64(r.N(int(hi-lo+1))), hi
	switch r.N(6) {
	case 0: // one block by hash
		to = from
		if bh, ok := o.hashOf[from]; ok && !p.gapBefore(from) {
			c.hash = &bh
		} else {
			c.from, c.to = from, from
		}
	case 1: // up to a later block
		c.from, c.to = from, hi+int64(r.In(1, 5))
	case 2:
		c.from = from
	default:
		to = from + int64(r.N(int(hi-from+1)))
		c.from, c.to = from, to
	}
	open := c.hash == nil && (c.to == 0 || c.to > hi)
	raw, err, ok := p.f.call("eth_getLogs", c.arg())
	if !ok {
		p.dead = true
		return
	}
	o.w.count("rpc.eth_getLogs")
	args, _ := json.Marshal(c.arg())
	if err != nil {
		if c.hash != nil && o.gaps[p.n.id][from] {
			p.missing(from, "eth_getLogs(%s): %v", args, err)
			return
		}
		p.bad("log-search", "eth_getLogs(%s) fails: %v", args, err)
		return
	}
	var ls []jLog
	if err := json.Unmarshal(raw, &ls); err != nil {
		p.bad("rpc-format", "eth_getLogs: %v in %s", err, raw)
		return
	}
	o.matchLogs(p, "eth_getLogs("+string(args)+")", ls, c, from, to, open)
}

// matchLogs requires ls to be exactly the matching logs of blocks from..to, and
// if open possibly those of blocks decided since.
func (o *Oracle) matchLogs(p *Probe, what string, ls []jLog, c *logCrit, from, to int64, open bool) {
	k := 0
	top := to
	if open {
		top = o.rg.c.height()
	}
	for h := from; h <= top; h++ {
		ob := o.blocks[h]
		if ob == nil {
			continue
		}
		for _, x := range ob.txs {
			if o.again(x.t.eth.Hash()) {
				// see the known findings: its logs are found in each block
				// that contains it, or in none
				for k < len(ls) && ls[k].TxHash == x.t.eth.Hash() {
					k++
				}
				continue
			}
			for i, l := range x.logs {
				if !c.match(l) {
					continue
				}
				if k >= len(ls) {
					if h > to {
						return
					}
					p.missing(h, "%s omits log %d of %s (block %d) and all after it: %d logs found", what, i, x.t, h, len(ls))
					return
				}
				if d := p.logAnswer("eth_getLogs", &ls[k], x, i); d != "" {
					if h > to {
						return
					}
					if o.gaps[p.n.id][h] {
						p.missing(h, "%s omits log %d of %s", what, i, x.t)
						return
					}
					p.bad("log-search", "%s: result %d should be log %d of %s (block %d) but is %s", what, k, i, x.t, h, d)
					return
				}
				k++
				o.w.count("search_hits")
			}
		}
	}
	if k < len(ls) {
		p.bad("log-search", "%s finds %d logs, only %d match; first extra one: %+v", what, len(ls), k, ls[k])
	}
	o.w.count("searches")
}

// latest checks answers about the latest block, named by tag.
func (p *Probe) latest(r *Rng) {
	o := p.o
	lo := p.n.ackH
	i := r.N(3)
	m := pick(r, []string{"eth_blockNumber", "eth_getBlockByNumber", "eth_getTransactionByBlockNumberAndIndex", "eth_getBlockTransactionCountByNumber", "eth_getBlockReceipts", "eth_getLogs"})
	var raw json.RawMessage
	ok := false
	switch m {
	case "eth_blockNumber":
		raw, ok = p.ask(m)
	case "eth_getBlockByNumber":
		raw, ok = p.ask(m, "latest", false)
	case "eth_getTransactionByBlockNumberAndIndex":
		raw, ok = p.ask(m, "latest", hx(i))
	case "eth_getLogs":
		raw, ok = p.ask(m, map[string]any{})
	default:
		raw, ok = p.ask(m, "latest")
	}
	if !ok {
		return
	}
	hi := p.n.storeH // a block being executed may be answered about already
	o.w.count("latest_probed")
	var seen []string
	for h := lo; h <= hi; h++ {
		ob := o.blocks[h]
		if ob == nil {
			return // not yet decided when asked, or from before the checks began
		}
		want := ""
		switch m {
		case "eth_blockNumber":
			want = fmt.Sprintf("%q", hx(h))
		case "eth_getBlockByNumber":
			var j jBlock
			if json.Unmarshal(raw, &j) == nil && j.Number != nil && j.Number.ToInt().Int64() == h {
				p.blockAnswer(m+" latest", raw, ob, false)
				return
			}
			want = fmt.Sprintf("block %d", h)
		case "eth_getTransactionByBlockNumberAndIndex":
			if i >= len(ob.txs) {
				want = "null"
			} else {
				want = ob.txs[i].t.eth.Hash().Hex()
				if strings.Contains(string(raw), want) {
					return
				}
			}
		case "eth_getBlockTransactionCountByNumber":
			want = fmt.Sprintf("%q", hx(len(ob.txs)))
		case "eth_getBlockReceipts", "eth_getLogs":
			var js []struct {
				BlockNumber hexutil.Uint64 `json:"blockNumber"`
			}
			k := len(ob.txs)
			if m == "eth_getLogs" {
				k = ob.logs
			}
			if err := json.Unmarshal(raw, &js); err == nil && len(js) == k && (k == 0 || int64(js[0].BlockNumber) == h) {
				return
			}
			want = fmt.Sprintf("%d of block %d", k, h)
			for _, x := range ob.txs {
				if o.again(x.t.eth.Hash()) {
					return
				}
			}
		}
		if string(raw) == want {
			return
		}
		seen = append(seen, want)
	}
	p.bad("latest", "%s of the latest block, asked between heights %d and %d, gives %s; expected one of %v", m, lo, hi, raw, seen)
}

// poke makes calls whose answers are not modelled; they must not harm the node.
func (p *Probe) poke(r *Rng) {
	o := p.o
	tag := func() any {
		return pick(r, []any{"latest", "pending", "earliest", "safe", "finalized", hx(r.N(40)), hx(uint64(r.Next())), "0x0"})
	}
	hash := func() any {
		if len(o.numOf) > 0 && r.P(1, 2) {
			return o.hashOf[max(1, p.strict-int64(r.N(5)))]
		}
		return common.BytesToHash(r.Bytes(32))
	}
	u := pick(r, o.rg.users)
	a := u.eth
	if len(o.rg.con) > 0 && r.P(1, 2) {
		a = pick(r, o.rg.con)
	}
	args := map[string]any{"from": u.eth, "to": a, "data": hexutil.Bytes(r.Bytes(r.N(40))), "value": hx(r.N(5))}
	if r.P(1, 3) {
		args["gas"] = hx(r.N(400_000))
	}
	if r.P(1, 4) {
		delete(args, "to")
	}
	switch r.N(14) {
	case 0:
		var ps []float64
		for k := r.N(4); k > 0; k-- {
			ps = append(ps, float64(25*(4-k))+float64(r.N(25)))
		}
		p.ask("eth_feeHistory", hx(r.N(20)), tag(), ps)
	case 1:
		p.ask("eth_call", args, tag())
	case 2:
		p.ask("eth_estimateGas", args, tag())
	case 3:
		p.ask("eth_getBalance", a, tag())
	case 4:
		p.ask("eth_getStorageAt", a, pick(r, []string{"0x0", "0x1", "0xzz", "", hx(uint64(r.Next()))}), tag())
	case 5:
		p.ask("eth_getCode", a, tag())
	case 6:
		p.ask("eth_getBlockByHash", hash(), r.P(1, 2))
		p.ask("eth_getBlockReceipts", hash())
	case 7:
		p.ask("eth_getBlockByNumber", tag(), r.P(1, 2))
		p.ask("eth_getBlockReceipts", tag())
		p.ask("eth_getBlockTransactionCountByNumber", tag())
	case 8:
		p.ask("eth_getTransactionCount", a, tag())
	case 9:
		p.ask("eth_pendingTransactions")
		p.ask("txpool_content")
		p.ask("txpool_inspect")
		p.ask("txpool_status")
	case 10:
		p.ask("eth_getLogs", map[string]any{"fromBlock": tag(), "toBlock": tag()})
		p.ask("eth_getLogs", map[string]any{"blockHash": hash()})
	case 11:
		p.ask("eth_gasPrice")
		p.ask("eth_maxPriorityFeePerGas")
		p.ask("eth_chainId")
		p.ask("eth_syncing")
	case 12:
		p.ask("eth_getTransactionByBlockHashAndIndex", hash(), hx(r.N(4)))
		p.ask("eth_getRawTransactionByBlockHashAndIndex", hash(), hx(r.N(4)))
	case 13:
		p.ask("cosmos_txHashByCosmosTxHash", hex.EncodeToString(r.Bytes(32)))
		p.ask("cosmos_cosmosTxHashByTxHash", hash())
	}
	o.w.count("pokes")
}
