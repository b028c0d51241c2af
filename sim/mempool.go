package main

import (
	"crypto/sha256"
	"sync"
	"time"

	abci "github.com/cometbft/cometbft/abci/types"
	minitiaapp "github.com/initia-labs/minievm/app"
)

// CMempool stands in for CometBFT's mempool of one node life.
type CMempool struct {
	n     *Node
	mu    sync.RWMutex
	txs   [][]byte
	in    map[[32]byte]bool
	cache map[[32]byte]bool
	max   int // most transactions held, like CometBFT's mempool.size
	lag   func() time.Duration
}

func newCMempool(n *Node) *CMempool {
	return &CMempool{n: n, in: map[[32]byte]bool{}, cache: map[[32]byte]bool{}, max: 5000}
}

func (m *CMempool) lock()   { m.mu.Lock() }
func (m *CMempool) unlock() { m.mu.Unlock() }

const (
	codeInCache = 1 << 30
	codeFull    = 1<<30 + 1
)

// check runs CheckTx for a new transaction. ok is false if the node died.
func (m *CMempool) check(tx []byte) (res *abci.ResponseCheckTx, ok bool) {
	n := m.n
	if n.mp != m {
		return nil, false
	}
	h := sha256.Sum256(tx)
	m.mu.RLock()
	if len(m.txs) >= m.max {
		m.mu.RUnlock()
		return &abci.ResponseCheckTx{Code: codeFull, Log: "mempool is full"}, true
	}
	if m.cache[h] {
		m.mu.RUnlock()
		return &abci.ResponseCheckTx{Code: codeInCache, Log: "tx already exists in cache"}, true
	}
	m.cache[h] = true
	var r *abci.ResponseCheckTx
	var err error
	if !n.abciCall("CheckTx", func(app *minitiaapp.MinitiaApp) {
		r, err = app.CheckTx(&abci.RequestCheckTx{Tx: tx, Type: abci.CheckTxType_New})
	}) {
		return nil, false
	}
	if err != nil {
		n.w.logf("n%d: CheckTx error %v", n.id, err)
		r = &abci.ResponseCheckTx{Code: 1, Log: err.Error()}
	}
	if r.Code == 0 {
		if !m.in[h] {
			m.in[h] = true
			m.txs = append(m.txs, tx)
		}
	} else {
		delete(m.cache, h)
	}
	m.mu.RUnlock()
	return r, true
}

// update removes the block's transactions and rechecks the rest (lock held).
func (m *CMempool) update(b *Block, res *abci.ResponseFinalizeBlock) {
	n := m.n
	for i, tx := range b.Txs {
		h := sha256.Sum256(tx)
		if res.TxResults[i].Code == 0 {
			m.cache[h] = true
		} else {
			delete(m.cache, h)
		}
		m.remove(h)
	}
	for _, tx := range append([][]byte(nil), m.txs...) {
		tx := tx
		if m.lag != nil {
			if d := m.lag(); d > 0 {
				time.Sleep(d)
			}
		}
		var r *abci.ResponseCheckTx
		var err error
		if !n.abciCall("ReCheckTx", func(app *minitiaapp.MinitiaApp) {
			r, err = app.CheckTx(&abci.RequestCheckTx{Tx: tx, Type: abci.CheckTxType_Recheck})
		}) {
			return
		}
		if err != nil || r.Code != 0 {
			h := sha256.Sum256(tx)
			m.remove(h)
			delete(m.cache, h)
			n.w.count("recheck_evicted")
			if n.w.verbose && r != nil {
				n.w.logf("n%d: recheck evicts %x: %.120s", n.id, h[:4], r.Log)
			}
		}
	}
}

func (m *CMempool) remove(h [32]byte) {
	if !m.in[h] {
		return
	}
	delete(m.in, h)
	for i, t := range m.txs {
		if sha256.Sum256(t) == h {
			m.txs = append(m.txs[:i:i], m.txs[i+1:]...)
			return
		}
	}
}

func (m *CMempool) reap() [][]byte { return append([][]byte(nil), m.txs...) }
