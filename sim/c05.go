package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"strings"

	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"

	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

var mathZero = math.ZeroInt()

func init() { scenarios["C05"] = scC05 }

// emsg is one EVM message of a transaction, as the reference sees it.
type emsg struct {
	to    *common.Address
	salt  *uint64
	input []byte
	value *big.Int
	al    coretypes.AccessList
	probe int // storage slot in which the message recorded its gas, -1 if none
}

// etx is a transaction made of EVM messages of one sender.
type etx struct {
	from *Acct
	msgs []emsg
}

func scC05(w *World) {
	r := NewRng(w.seed, "c05")
	o := ClusterOpts{Blocks: 16, PerBlock: 5, Scripts: 4, Opts: RigOpts{EVM: func(p *evmtypes.Params) { p.GasRefundRatio = math.LegacyZeroDec() }}}
	if r.P(1, 3) {
		o.Replicas, o.Noise, o.Crash, o.WriteCrash = 1, 1, 8, true
	}
	d := &c05{w: w, overhead: map[string]int64{}}
	o.Gen = d.gen
	o.OnRef = d.check
	o.Pre = func(c *Cluster) { d.c, c.rg.plain = c, true }
	runCluster(w, o)
}

type c05 struct {
	w        *World
	c        *Cluster
	overhead map[string]int64
	deployed []common.Address

	probeCost int64
}

// gen makes a block of EVM transactions, at most one per sender.
func (d *c05) gen(b int, per int) []*Tx {
	rg, wl := d.c.rg, d.c.wl
	var out []*Tx
	used := map[*Acct]bool{}
	for i := 0; i < per; i++ {
		op := b*per + i
		r := NewRng(d.w.seed+uint64(op)*7919, "c05op")
		if !d.w.on(op) {
			continue
		}
		u := pick(r, rg.users)
		if used[u] {
			continue
		}
		used[u] = true
		rg.opIdx = op
		e := &etx{from: u}
		n := 1
		if r.P(1, 5) {
			n = r.In(2, 4)
		}
		gas := uint64(6_000_000 * n)
		for k := 0; k < n; k++ {
			m := emsg{value: new(big.Int), probe: -1}
			switch r.N(10) {
			case 0:
				m.input = smallInit(r)
				if r.P(1, 3) {
					m.input = initFor(interpRuntime, nil)
				}
				if r.P(1, 4) {
					m.value = bi(int64(r.N(2000)))
				}
			case 1:
				m.input = smallInit(r)
				s := uint64(r.N(6))
				m.salt = &s
				if n == 1 || true {
					m.value = bi(int64(r.N(2) * r.N(50)))
				}
			case 2:
				to := wl.anyAddr(r)
				m.to, m.value = &to, bi(int64(r.In(0, 100000)))
			default:
				to := pick(r, rg.con)
				if len(d.deployed) > 0 && r.P(1, 4) {
					to = pick(r, d.deployed)
				}
				m.to = &to
				m.probe = 200 + (len(out)*4+k)%50
				s := script{}.env(12, byte(m.probe))
				m.input = append(s, wl.script(r, 3)...)
				if r.P(1, 6) {
					m.value = bi(int64(r.N(5000)))
				}
				if r.P(1, 5) {
					for j := r.In(1, 3); j > 0; j-- {
						t := coretypes.AccessTuple{Address: wl.anyAddr(r)}
						for q := r.N(4); q > 0; q-- {
							t.StorageKeys = append(t.StorageKeys, common.BytesToHash([]byte{byte(r.N(12))}))
						}
						m.al = append(m.al, t)
					}
				}
			}
			e.msgs = append(e.msgs, m)
		}
		if n == 1 && r.P(1, 10) {
			gas = uint64(r.In(60_000, 700_000))
		}
		var t *Tx
		m0 := e.msgs[0]
		if n == 1 && m0.salt == nil && r.P(1, 2) {
			var err error
			ty := r.N(3)
			if m0.al != nil {
				ty = r.In(1, 2)
			}
			t, err = rg.ethereum("eth", u, EthArgs{Type: ty, Nonce: u.next, To: m0.to, Gas: gas, Value: m0.value, Data: m0.input, AL: m0.al})
			if err != nil {
				d.w.abort("eth: %v", err)
			}
			u.next++
		} else {
			var ms []sdk.Msg
			for _, m := range e.msgs {
				al := evmtypes.ConvertEthAccessListToCosmos(m.al)
				switch {
				case m.to != nil:
					x := msgCall(u, *m.to, m.input, m.value)
					x.AccessList = al
					ms = append(ms, x)
				case m.salt != nil:
					x := msgCreate2(u, m.input, m.value, *m.salt)
					x.AccessList = al
					ms = append(ms, x)
				default:
					x := msgCreate(u, m.input, m.value)
					x.AccessList = al
					ms = append(ms, x)
				}
			}
			t = rg.cosmos("cosmos", u, gas, ms...)
		}
		t.meta = e
		t.op = op
		out = append(out, t)
	}
	return out
}

var errGasWrap = errors.New("gas counter wrapped")

const gasUnknown = -1 << 60

// measureProbe returns the gas a script uses before it records what is left.
func measureProbe(s *RefEVM, con common.Address) int64 {
	const gas, k = 10_000_000, 249
	o := s.exec(detEOA, &con, nil, script{}.env(12, k), gas, new(big.Int), nil)
	v := s.slotIn(s.cur, con, common.BytesToHash([]byte{k})).Big()
	if o.err != nil || v.Sign() == 0 {
		panic(fmt.Sprint("probe: ", o.err))
	}
	return gas - v.Int64()
}

var detEOA = common.HexToAddress("0x00000000000000000000000000000000000e0a00")

// runRef runs a transaction on the reference. gas0 is the gas of its first message.
func runRef(s *RefEVM, e *etx, gas []int64) (outs []refOut, failed bool) {
	keep := s.cur.clone()
	for i, m := range e.msgs {
		x := s.acct(e.from.eth)
		if gas[i] == gasUnknown {
			gas[i] = int64(outs[i-1].left) - 18_000
		}
		g := max(gas[i], 0)
		if m.to != nil {
			if i > 0 {
				x.nonce++
			}
		} else if i == 0 {
			x.nonce--
		}
		o := s.exec(e.from.eth, m.to, m.salt, m.input, uint64(g), m.value, m.al)
		if o.left > uint64(g) {
			// the fork's interpreter let the gas counter wrap
			o.err = errGasWrap
		}
		outs = append(outs, o)
		if o.err != nil {
			s.cur = keep
			return outs, true
		}
	}
	return outs, false
}

func (d *c05) check(b int, txs []*Tx, res *abci.ResponseFinalizeBlock) {
	w, n := d.w, d.c.rg.n0()
	blk := d.c.rg.c.block(d.c.rg.c.height())
	pre, err := n.ctxAt(blk.H - 1)
	if err != nil {
		w.abort("ctxAt: %v", err)
	}
	post := &evmQ{n, n.committedCtx()}
	ref := newRefEVM(n, pre, blk)
	for i, t := range txs {
		e := t.meta.(*etx)
		real := res.TxResults[i]
		who := fmt.Sprintf("block %d tx %d (op %d, %s from user %d, %d messages)", blk.H, i, t.op, t.kind, t.from.idx, len(e.msgs))
		if real.Code != 0 && t.gas < 900_000 && strings.Contains(real.Log, "out of gas") && !feeTaken(real) {
			// too little gas for the bytes of the transaction: it never started
			w.count("never_started")
			continue
		}
		// fee and sequence, taken before the messages run
		x := ref.acct(t.from.eth)
		x.bal.Sub(x.bal, t.fee.BigInt())
		x.nonce++
		x.exists, x.opaque = true, true
		ov, known := d.overhead[t.kind]
		if !known {
			ov = 30000
		}
		gas := make([]int64, len(e.msgs))
		for k := range gas {
			gas[k] = int64(t.gas) - ov - 10*int64(len(t.bz))
			if k > 0 {
				gas[k] = gasUnknown
			}
		}
		keep := ref.cur.clone()
		outs, failed := runRef(ref, e, gas)
		if real.Code == 0 {
			// agree on the gas the messages started with
			if d.probeCost == 0 {
				d.probeCost = measureProbe(newRefEVM(n, pre, blk), d.c.rg.con[0])
			}
			probeCost := d.probeCost
			set := false
			for k, m := range e.msgs {
				if m.probe < 0 {
					continue
				}
				if got := post.slot(*m.to, common.BytesToHash([]byte{byte(m.probe)})).Big(); got.IsInt64() && got.Sign() > 0 && got.Int64()+probeCost != gas[k] {
					gas[k] = got.Int64() + probeCost
					set = true
				}
			}
			if set {
				for k, m := range e.msgs {
					if k > 0 && m.probe < 0 {
						gas[k] = gasUnknown
					}
				}
				ref.cur = keep.clone()
				outs, failed = runRef(ref, e, gas)
			}
			if failed {
				o := outs[len(outs)-1]
				big := make([]int64, len(gas))
				for k := range gas {
					big[k] = int64(t.gas) * 2
				}
				ref.cur = keep.clone()
				_, f2 := runRef(ref, e, big)
				if !f2 {
					// near the gas limit: the reference cannot know which side
					w.count("gas_ambiguous")
					return
				}
				w.violate("success", "%s: succeeded, the reference EVM fails message %d with %v %x", who, len(outs)-1, o.err, trunc(string(o.ret)))
				return
			}
			if e.msgs[0].probe >= 0 && post.slot(*e.msgs[0].to, common.BytesToHash([]byte{byte(e.msgs[0].probe)})).Big().Sign() > 0 {
				d.overhead[t.kind] = int64(t.gas) - 10*int64(len(t.bz)) - gas[0]
			}
			for k, m := range e.msgs {
				o := outs[k]
				var ret string
				var logs evmtypes.Logs
				var addr string
				switch {
				case m.to != nil:
					var x evmtypes.MsgCallResponse
					msgResp(real.Data, k, &x)
					ret, logs = x.Result, x.Logs
				case m.salt != nil:
					var x evmtypes.MsgCreate2Response
					msgResp(real.Data, k, &x)
					ret, logs, addr = x.Result, x.Logs, x.ContractAddr
				default:
					var x evmtypes.MsgCreateResponse
					msgResp(real.Data, k, &x)
					ret, logs, addr = x.Result, x.Logs, x.ContractAddr
				}
				if ret != hexutil.Encode(o.ret) {
					w.violate("return-data", "%s message %d: returned %s, the reference EVM returns %x", who, k, trunc(ret), trunc(string(o.ret)))
				}
				if m.to == nil && common.HexToAddress(addr) != o.addr {
					w.violate("create-address", "%s message %d: created %s, the reference EVM creates %s", who, k, addr, o.addr.Hex())
				}
				if m.to == nil && m.salt == nil && len(o.ret) == len(interpRuntime) {
					d.deployed = append(d.deployed, o.addr)
				}
				if len(d.deployed) > 6 {
					d.deployed = d.deployed[1:]
				}
				g, x := logText(logs.ToEthLogs()), logText(o.logs)
				if g != x {
					w.violate("logs", "%s message %d: %s", who, k, firstDiff(g, x))
				}
				w.countN("logs_compared", len(o.logs))
			}
			w.count("evm_ok")
			w.reach("evm_ok")
			continue
		}
		w.count("evm_failed")
		if !failed {
			low := make([]int64, len(gas))
			short := t.gas < 900_000
			for k := range gas {
				low[k] = gas[k] * 3 / 5
				short = short || outs[k].left < 1_000_000
			}
			ref.cur = keep.clone()
			_, f2 := runRef(ref, e, low)
			if len(e.msgs) > 1 {
				// the gas a later message starts with is only estimated
				f2 = f2 || short
				for _, dg := range []int64{-60_000, -5_000, 5_000, 60_000} {
					g := append([]int64(nil), gas...)
					for k := 1; k < len(g); k++ {
						g[k] += dg
					}
					ref.cur = keep.clone()
					_, f3 := runRef(ref, e, g)
					f2 = f2 || f3
				}
			}
			if (f2 || short || !known) && (len(e.msgs) > 1 || strings.Contains(real.Log, "out of gas")) {
				// the gas limit also pays for work outside the EVM
				w.count("gas_ambiguous")
				ref.cur = keep
				continue
			}
			w.violate("failure", "%s: failed with %s, the reference EVM succeeds", who, real.Log)
			return
		}
		o := outs[len(outs)-1]
		w.reach("evm_failed." + errLabel(o.err))
		if o.err == vm.ErrExecutionReverted && t.gas >= 900_000 && len(e.msgs) == 1 && !(o.left < 1_000_000 && strings.Contains(real.Log, "out of gas")) && !strings.Contains(real.Log, hexutil.Encode(o.ret)) {
			w.violate("revert-data", "%s: failed with %s, the reference EVM reverts with %x", who, real.Log, o.ret)
		}
	}
	// state after the block
	keys := func(a common.Address) []int {
		n := 12
		for _, c := range d.c.rg.con {
			if c == a {
				n = 64
			}
		}
		for _, c := range d.deployed {
			if c == a {
				n = 64
			}
		}
		var ks []int
		for k := 0; k < n; k++ {
			ks = append(ks, k)
		}
		for k := 200; k < 250 && n == 64; k++ {
			ks = append(ks, k)
		}
		return ks
	}
	for _, a := range d.c.rg.con {
		ref.acct(a)
	}
	ctx := post.ctx
	var addrs []string
	for a := range ref.cur.accts {
		addrs = append(addrs, a.Hex())
	}
	for _, s := range sorted(addrs) {
		a := common.HexToAddress(s)
		x := ref.cur.accts[a]
		if a == ref.feeCon {
			continue
		}
		if got := post.seq(a); got != x.nonce {
			w.violate("nonce", "block %d: %s has nonce %d, the reference EVM has %d", blk.H, s, got, x.nonce)
		}
		if got := post.balance(a, feeDenom); got.Cmp(x.bal) != 0 {
			w.violate("balance", "block %d: %s has balance %s, the reference EVM has %s", blk.H, s, got, x.bal)
		}
		if got := post.code(a); !bytes.Equal(got, x.code) {
			w.violate("code", "block %d: %s has code %x, the reference EVM has %x", blk.H, s, trunc(string(got)), trunc(string(x.code)))
		}
		if len(x.code) == 0 && len(x.stor) == 0 {
			continue
		}
		for k := range x.stor {
			if k.Big().IsInt64() && k.Big().Int64() < 256 {
				continue
			}
			if got := post.slot(a, k); got != x.stor[k] {
				w.violate("storage", "block %d: %s slot %s is %s, the reference EVM has %s", blk.H, s, k, got, x.stor[k])
			}
		}
		for _, k := range keys(a) {
			h := common.BytesToHash([]byte{byte(k)})
			want := ref.GetState(a, h)
			if got := post.slot(a, h); got != want {
				w.violate("storage", "block %d: %s slot %d is %s, the reference EVM has %s", blk.H, s, k, got, want)
			}
			w.count("slots_compared")
		}
	}
	_ = ctx
}

func errLabel(err error) string {
	if err == nil {
		return ""
	}
	return strings.SplitN(err.Error(), ":", 2)[0]
}

func logText(ls []*coretypes.Log) string {
	var sb strings.Builder
	for _, l := range ls {
		fmt.Fprintf(&sb, "%s %x", l.Address.Hex(), l.Data)
		for _, t := range l.Topics {
			fmt.Fprintf(&sb, " %s", t.Hex())
		}
		sb.WriteString("\n")
	}
	return sb.String()
}
