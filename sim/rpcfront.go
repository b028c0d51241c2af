package main

import (
	"context"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"time"

	"cosmossdk.io/log"
	"github.com/cometbft/cometbft/mempool"
	"github.com/cometbft/cometbft/p2p"
	cmtrpc "github.com/cometbft/cometbft/rpc/core/types"
	cmttypes "github.com/cometbft/cometbft/types"
	"github.com/cosmos/cosmos-sdk/client"
	"github.com/cosmos/cosmos-sdk/server"
	"github.com/ethereum/go-ethereum/rpc"

	minitiaapp "github.com/initia-labs/minievm/app"
	"github.com/initia-labs/minievm/jsonrpc/backend"
	rpcconfig "github.com/initia-labs/minievm/jsonrpc/config"
	cosmosns "github.com/initia-labs/minievm/jsonrpc/namespaces/cosmos"
	ethns "github.com/initia-labs/minievm/jsonrpc/namespaces/eth"
	"github.com/initia-labs/minievm/jsonrpc/namespaces/eth/filters"
	netns "github.com/initia-labs/minievm/jsonrpc/namespaces/net"
	txpoolns "github.com/initia-labs/minievm/jsonrpc/namespaces/txpool"
	web3ns "github.com/initia-labs/minievm/jsonrpc/namespaces/web3"
)

// cometStub is what the JSON-RPC server sees of CometBFT on one node: its block
// store height, its mempool and its transaction broadcast.
type cometStub struct {
	client.CometRPC
	n     *Node
	inc   *Inc
	onTx  func(tx []byte)           // a broadcast reached the mempool
	onRes func(tx []byte, c uint32) // and its outcome
	slow  func() time.Duration
}

func (s *cometStub) alive() {
	if s.inc.dead {
		select {}
	}
}

func (s *cometStub) Status(context.Context) (*cmtrpc.ResultStatus, error) {
	s.alive()
	// the block store is ahead of the application while a block executes
	return &cmtrpc.ResultStatus{NodeInfo: p2p.DefaultNodeInfo{}, SyncInfo: cmtrpc.SyncInfo{LatestBlockHeight: s.n.storeH}}, nil
}

func (s *cometStub) BroadcastTxSync(_ context.Context, tx cmttypes.Tx) (*cmtrpc.ResultBroadcastTx, error) {
	s.alive()
	if s.slow != nil {
		if d := s.slow(); d > 0 {
			time.Sleep(d)
		}
	}
	if s.onTx != nil {
		s.onTx(tx)
	}
	if s.n.inc != s.inc {
		select {}
	}
	r, ok := s.n.mp.check(tx)
	if !ok || s.inc.dead {
		select {}
	}
	if s.onRes != nil {
		s.onRes(tx, r.Code)
	}
	switch r.Code {
	case codeInCache:
		return nil, mempool.ErrTxInCache
	case codeFull:
		return nil, mempool.ErrMempoolIsFull{NumTxs: len(s.n.mp.txs), MaxTxs: s.n.mp.max}
	}
	return &cmtrpc.ResultBroadcastTx{Code: r.Code, Data: r.Data, Log: r.Log, Codespace: r.Codespace, Hash: tx.Hash()}, nil
}

func (s *cometStub) UnconfirmedTxs(_ context.Context, limit *int) (*cmtrpc.ResultUnconfirmedTxs, error) {
	s.alive()
	k := 30
	if limit != nil {
		if k = *limit; k < 1 {
			k = 30
		} else if k > 100 {
			k = 100
		}
	}
	txs := s.n.mp.reap()
	tot := len(txs)
	if len(txs) > k {
		txs = txs[:k]
	}
	r := &cmtrpc.ResultUnconfirmedTxs{Count: len(txs), Total: tot}
	for _, t := range txs {
		r.Txs = append(r.Txs, t)
	}
	return r, nil
}

func (s *cometStub) NumUnconfirmedTxs(context.Context) (*cmtrpc.ResultUnconfirmedTxs, error) {
	s.alive()
	k := len(s.n.mp.txs)
	return &cmtrpc.ResultUnconfirmedTxs{Count: k, Total: k}, nil
}

func (s *cometStub) CheckTx(context.Context, cmttypes.Tx) (*cmtrpc.ResultCheckTx, error) {
	return nil, errors.New("not provided")
}

// Front is the node's JSON-RPC server and a client connected to it.
type Front struct {
	n    *Node
	inc  *Inc
	app  *minitiaapp.MinitiaApp
	srv  *rpc.Server
	cl   *rpc.Client
	stub *cometStub
	be   *backend.JSONRPCBackend
	fil  *filters.FilterAPI
}

func newFront(n *Node, mut func(c *rpcconfig.JSONRPCConfig)) *Front {
	f := &Front{n: n, inc: n.inc, app: n.app, stub: &cometStub{n: n, inc: n.inc}}
	cfg := rpcconfig.DefaultJSONRPCConfig()
	if mut != nil {
		mut(&cfg)
	}
	lg := log.NewNopLogger()
	cc := client.Context{}.WithClient(f.stub).WithTxConfig(n.app.TxConfig()).WithChainID(chainID).WithCodec(n.app.AppCodec()).WithInterfaceRegistry(n.app.InterfaceRegistry())
	be, err := backend.NewJSONRPCBackend(n.app, lg, server.NewDefaultContext(), cc, cfg)
	if err != nil {
		n.w.abort("json-rpc backend: %v", err)
	}
	f.be = be
	f.fil = filters.NewFilterAPI(n.app, be, lg)
	f.srv = rpc.NewServer()
	for _, a := range []struct {
		ns  string
		svc any
	}{{"eth", ethns.NewEthAPI(lg, be)}, {"eth", f.fil}, {"net", netns.NewNetAPI(lg, be)}, {"web3", web3ns.NewWeb3API(lg, be)},
		{"txpool", txpoolns.NewTxPoolAPI(lg, be)}, {"cosmos", cosmosns.NewCosmosAPI(lg, be)}} {
		if err := f.srv.RegisterName(a.ns, a.svc); err != nil {
			n.w.abort("register %s: %v", a.ns, err)
		}
	}
	f.cl = rpc.DialInProc(f.srv)
	return f
}

// call makes one JSON-RPC call. ok is false when the node died meanwhile.
func (f *Front) call(method string, args ...any) (out json.RawMessage, err error, ok bool) {
	return f.callWith(f.cl, method, args...)
}

func (f *Front) callWith(cl *rpc.Client, method string, args ...any) (out json.RawMessage, err error, ok bool) {
	if f.n.inc != f.inc || f.inc.dead {
		return nil, nil, false
	}
	ok = f.n.do(method, func() { err = cl.Call(&out, method, args...) })
	if ok && f.n.inc != f.inc {
		ok = false
	}
	if ok && err != nil && err.Error() == "method handler crashed" {
		f.n.w.violate("rpc-crash", "n%d: the handler of %s(%s) crashed", f.n.id, method, argStr(args))
	}
	return
}

func argStr(args []any) string {
	bz, _ := json.Marshal(args)
	return trunc(string(bz))
}

func txKey(bz []byte) [32]byte { return sha256.Sum256(bz) }

func hx(n any) string { return fmt.Sprintf("0x%x", n) }
