package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/big"
	"time"

	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	authsign "github.com/cosmos/cosmos-sdk/x/auth/signing"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/holiman/uint256"

	minitiaapp "github.com/initia-labs/minievm/app"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

func init() { scenarios["C09"] = scC09 }

// recorder is code that logs how it was called: the caller, the origin, the
// value, the size and hash of its input (its code, when creating) and its address.
func recorder(a *asm, creating bool) {
	size, cp := vm.CALLDATASIZE, vm.CALLDATACOPY
	if creating {
		size, cp = vm.CODESIZE, vm.CODECOPY
	}
	a.op(size).pi(0).pi(0).op(cp)
	a.op(size).pi(0).op(vm.KECCAK256)
	a.pi(0xa0).op(vm.MSTORE)
	for i, o := range []vm.OpCode{vm.CALLER, vm.ORIGIN, vm.CALLVALUE, size, vm.ADDRESS} {
		a.op(o).pi(uint64(32 * i)).op(vm.MSTORE)
	}
	a.pi(0xc0).pi(0).op(vm.LOG0)
}

// rawTx is one submission.
type rawTx struct {
	t     *Tx
	raw   []byte
	why   string // why it cannot be carried, "" if it can
	sure  bool   // must be accepted
	acked bool
	fresh *common.Address
}

type rawRun struct {
	w     *World
	rg    *Rig
	r     *Rng
	n     *Node
	f     *Front
	or    *Oracle
	dec   int
	denom string
	rec   common.Address
	all   []*rawTx
	bySig map[string]*rawTx
	byEth map[common.Hash]*rawTx
	ghost []*Tx
	want  map[common.Address]*big.Int // what fresh recipients must hold
	off   map[common.Address]bool // senders of refused transactions since the last block
	held  map[string]bool // nonces acknowledged in this life
}

func pow10(n int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil) }

// units is the value of so much wei in fee token units, and whether it is whole.
func (c *rawRun) units(wei *big.Int) (*big.Int, bool) {
	if c.dec >= 18 {
		return new(big.Int).Mul(wei, pow10(c.dec-18)), true
	}
	q, m := new(big.Int).QuoRem(wei, pow10(18-c.dec), new(big.Int))
	return q, m.Sign() == 0
}

// wei is the wei of so many fee token units, rounded up to a whole number.
func (c *rawRun) wei(u int64) *big.Int {
	if c.dec <= 18 {
		return new(big.Int).Mul(big.NewInt(u), pow10(18-c.dec))
	}
	return new(big.Int).Add(new(big.Int).Quo(big.NewInt(u), pow10(c.dec-18)), big.NewInt(u))
}

// judge says why a node could not carry raw exactly, "" if it could.
func (c *rawRun) judge(raw []byte) (*coretypes.Transaction, common.Address, string) {
	tx := new(coretypes.Transaction)
	if err := tx.UnmarshalBinary(raw); err != nil {
		return nil, common.Address{}, "malformed"
	}
	if tx.Type() > coretypes.DynamicFeeTxType {
		return tx, common.Address{}, "type"
	}
	if !tx.Protected() {
		return tx, common.Address{}, "unprotected"
	}
	if tx.ChainId().Cmp(ethChainID) != 0 {
		return tx, common.Address{}, "chain"
	}
	from, err := coretypes.Sender(coretypes.NewLondonSigner(ethChainID), tx)
	if err != nil {
		return tx, from, "signature"
	}
	if _, ok := c.units(tx.Value()); !ok {
		return tx, from, "precision"
	}
	v, _ := c.units(tx.Value())
	fee, _ := c.units(new(big.Int).Mul(tx.GasFeeCap(), new(big.Int).SetUint64(tx.Gas())))
	if v.BitLen() > 256 || fee.BitLen() > 256 {
		return tx, from, "overflow"
	}
	return tx, from, ""
}

func (c *rawRun) acct(a common.Address) *Acct {
	for _, u := range c.rg.users {
		if u.eth == a {
			return u
		}
	}
	return &Acct{idx: -1, eth: a, acc: a.Bytes()}
}

// add notes a raw transaction.
func (c *rawRun) add(op int, kind string, raw []byte) *rawTx {
	et, from, why := c.judge(raw)
	x := &rawTx{raw: raw, why: why}
	x.t = &Tx{kind: "raw", op: op, note: kind, eth: et, from: c.acct(from)}
	if et != nil {
		if old := c.byEth[et.Hash()]; old != nil {
			// the same transaction again
			return &rawTx{raw: raw, why: why, t: old.t}
		}
		x.t.seq, x.t.gas = et.Nonce(), et.Gas()
		c.byEth[et.Hash()] = x
		_, r, s := et.RawSignatureValues()
		if r.BitLen() <= 256 && s.BitLen() <= 256 && why != "malformed" {
			k := string(append(common.BigToHash(r).Bytes(), common.BigToHash(s).Bytes()...))
			if c.bySig[k] == nil || why == "" {
				c.bySig[k] = x
			}
		}
		c.ghost = append(c.ghost, x.t)
	}
	c.all = append(c.all, x)
	return x
}

// carrier names the submission a transaction of the node carries.
func (c *rawRun) carrier(bz []byte) *rawTx {
	dec, err := c.rg.mk.cfg.TxDecoder()(bz)
	if err != nil {
		return nil
	}
	sigs, err := dec.(authsign.Tx).GetSignaturesV2()
	if err != nil || len(sigs) != 1 {
		return nil
	}
	s := sigBytes(sigs[0].Data)
	if len(s) < 64 {
		return nil
	}
	return c.bySig[string(s[:64])]
}

// sent looks at a transaction the node broadcasts.
func (c *rawRun) sent(bz []byte) {
	x := c.carrier(bz)
	if x == nil {
		c.w.violate("unknown-broadcast", "the node broadcasts %x, which carries nothing submitted", trunc(string(bz)))
		return
	}
	if x.why != "" {
		c.w.violate("carried-invalid", "the node broadcasts %s, which cannot be carried: %s", x.t, x.why)
		return
	}
	x.t.bz = bz
	x.t.hash = sha256.Sum256(bz)
	c.rg.reg[x.t.hash] = x.t
	if d := c.altered(bz, x); d != "" {
		c.w.violate("altered", "the node carries %s with %s", x.t, d)
	}
}

// altered compares the carrier with what was signed.
func (c *rawRun) altered(bz []byte, x *rawTx) string {
	dec, err := c.rg.mk.cfg.TxDecoder()(bz)
	if err != nil {
		return "an undecodable carrier"
	}
	e := x.t.eth
	ft := dec.(sdk.FeeTx)
	if ft.GetGas() != e.Gas() {
		return fmt.Sprintf("gas %d, not %d", ft.GetGas(), e.Gas())
	}
	sigs, _ := dec.(authsign.Tx).GetSignaturesV2()
	if sigs[0].Sequence != e.Nonce() {
		return fmt.Sprintf("sequence %d, not %d", sigs[0].Sequence, e.Nonce())
	}
	if a := common.BytesToAddress(sigs[0].PubKey.Address()); a != x.t.from.eth {
		return fmt.Sprintf("the key of %s, not of %s", a, x.t.from.eth)
	}
	v, _ := c.units(e.Value())
	var sender, input string
	var val *big.Int
	var al []evmtypes.AccessTuple
	switch m := dec.GetMsgs()[0].(type) {
	case *evmtypes.MsgCall:
		if e.To() == nil || common.HexToAddress(m.ContractAddr) != *e.To() {
			return fmt.Sprintf("recipient %s, not %v", m.ContractAddr, e.To())
		}
		sender, input, val, al = m.Sender, m.Input, m.Value.BigInt(), m.AccessList
	case *evmtypes.MsgCreate:
		if e.To() != nil {
			return fmt.Sprintf("a creation, not a call of %v", e.To())
		}
		sender, input, val, al = m.Sender, m.Code, m.Value.BigInt(), m.AccessList
	default:
		return fmt.Sprintf("a %T", m)
	}
	if a, err := sdk.AccAddressFromBech32(sender); err != nil || !bytes.Equal(a, x.t.from.acc) {
		return fmt.Sprintf("sender %s, not %s", sender, x.t.from.acc)
	}
	if !bytes.Equal(common.FromHex(input), e.Data()) {
		return "another input"
	}
	if val.Cmp(v) != 0 {
		return fmt.Sprintf("value %s, not %s", val, v)
	}
	if len(al) != len(e.AccessList()) {
		return fmt.Sprintf("%d access tuples, not %d", len(al), len(e.AccessList()))
	}
	for i, t := range e.AccessList() {
		if common.HexToAddress(al[i].Address) != t.Address || len(al[i].StorageKeys) != len(t.StorageKeys) {
			return fmt.Sprintf("access tuple %d %v, not %v", i, al[i], t)
		}
		for j, k := range t.StorageKeys {
			if common.HexToHash(al[i].StorageKeys[j]) != k {
				return fmt.Sprintf("access tuple %d %v, not %v", i, al[i], t)
			}
		}
	}
	return ""
}

func (c *rawRun) pause(ms int) { time.Sleep(time.Duration(ms+1) * time.Millisecond) }

// up connects to the node's JSON-RPC server after each start.
func (c *rawRun) up(n *Node) {
	if c.or != nil {
		c.or.watch(n)
	}
	c.held = map[string]bool{}
	c.f = newFront(n, nil)
	c.f.stub.onTx = c.sent
}

// submit sends a raw transaction.
func (c *rawRun) submit(x *rawTx) {
	w := c.w
	w.count("submissions")
	out, err, ok := c.f.call("eth_sendRawTransaction", hexutil.Bytes(x.raw))
	if !ok {
		return
	}
	if err != nil {
		w.count("refused")
		// the admission of a transaction can fail after its sequence is taken:
		// the node's view of the sender is right again at the next block
		c.off[x.t.from.eth] = true
		w.logf("refused %s: %v", x.t, err)
		if x.sure {
			w.violate("refused-valid", "the node refuses %s (type %d, gas %d, fee cap %s, value %s): %v", x.t, x.t.eth.Type(), x.t.eth.Gas(), x.t.eth.GasFeeCap(), x.t.eth.Value(), err)
		}
		if x.why != "" {
			w.count("refused." + x.why)
		}
		return
	}
	x.acked = true
	if x.t.eth != nil {
		c.byEth[x.t.eth.Hash()].acked = true
	}
	w.count("accepted")
	w.logf("accepted %s (%s)", x.t, x.why)
	if x.why != "" {
		w.violate("accepted-invalid", "the node accepts %s, which cannot be carried: %s", x.t, x.why)
		return
	}
	var h common.Hash
	if json.Unmarshal(out, &h) != nil || h != x.t.eth.Hash() {
		w.violate("wrong-hash", "the submission of %s is answered with %s, its hash is %s", x.t, out, x.t.eth.Hash())
	}
}

// op makes and submits one transaction.
func (c *rawRun) op(i int) {
	r := NewRng(c.w.seed, fmt.Sprintf("c09op%d", i))
	u := pick(r, c.rg.users)
	if r.P(1, 3) {
		c.weird(i, r, u)
		return
	}
	x := c.valid(r, u, c.rg.users)
	kind := "call"
	var fresh *common.Address
	switch {
	case x.To == nil:
		kind = "create"
	case *x.To != c.rec:
		kind = "send"
		fresh = x.To
	}
	sure := true
	gap := r.P(1, 6)
	if gap {
		x.Nonce += uint64(r.In(1, 2))
		kind = "gap." + kind
	}
	var raw []byte
	tries := 1
	if r.P(1, 6) {
		// a signature with a short half
		tries = 700
		kind += ".short"
	}
	for k := 0; k < tries; k++ {
		et := u.ethTx(x)
		raw, _ = et.MarshalBinary()
		if _, rr, s := et.RawSignatureValues(); rr.BitLen() <= 248 || s.BitLen() <= 248 {
			c.w.count("short_signatures")
			break
		}
		x.FeeCap = new(big.Int).Add(x.FeeCap, big.NewInt(1))
	}
	t := c.add(i, kind, raw)
	if t.why != "" {
		c.w.abort("own transaction judged %s", t.why)
	}
	t.sure = sure && !gap && !c.off[u.eth] && x.Nonce == u.next && !c.held[fmt.Sprint(u.idx, " ", x.Nonce)]
	t.fresh = fresh
	c.submit(t)
	c.took(u, t)
	c.w.reach(fmt.Sprintf("%s.%d.%d", kind, x.Type, c.dec))
}

// took follows the nonces a user has used.
func (c *rawRun) took(u *Acct, t *rawTx) {
	if !t.acked {
		return
	}
	if t.t.seq >= u.next {
		c.held[fmt.Sprint(u.idx, " ", t.t.seq)] = true
	}
	if t.t.seq == u.next {
		u.next++
		for c.held[fmt.Sprint(u.idx, " ", u.next)] {
			u.next++
		}
	}
}

// valid makes the arguments of a transaction a node must take.
func (c *rawRun) valid(r *Rng, u *Acct, _ []*Acct) EthArgs {
	x := EthArgs{Type: r.N(3), Nonce: u.next, Gas: uint64(r.In(250_000, 900_000))}
	x.FeeCap = big.NewInt(c.rg.gasPrice)
	switch r.N(4) {
	case 0:
		x.FeeCap = new(big.Int).Mul(big.NewInt(int64(r.In(1, 3_000_000))), big.NewInt(int64(r.In(1, 1000))))
	case 1:
		x.FeeCap = big.NewInt(c.rg.gasPrice * int64(r.In(1, 40)))
	}
	if x.FeeCap.Cmp(big.NewInt(c.rg.gasPrice)) < 0 {
		x.FeeCap = big.NewInt(c.rg.gasPrice)
	}
	if x.Type == 2 {
		x.TipCap = new(big.Int).Quo(x.FeeCap, big.NewInt(int64(r.In(1, 9))))
	}
	if r.P(2, 3) {
		x.Value = c.wei(int64(r.N(1000)))
		if c.dec > 18 && r.P(1, 2) {
			x.Value = big.NewInt(int64(r.N(1000)))
		}
	}
	data := func() []byte {
		n := r.N(100)
		if r.P(1, 10) {
			n = r.In(1000, 6000)
		}
		b := r.Bytes(n)
		if r.P(1, 3) {
			for i := range b {
				if r.P(2, 3) {
					b[i] = 0
				}
			}
		}
		return b
	}
	switch r.N(4) {
	case 0:
		a := newAsm()
		recorder(a, true)
		a.pi(uint64(r.N(3))).pi(0).op(vm.RETURN)
		x.Data = append(a.bytes(), data()...)
	case 1:
		to := common.BytesToAddress(r.Bytes(20))
		x.To = &to
		if r.P(1, 2) {
			x.Data = data()
		}
	default:
		x.To = &c.rec
		x.Data = data()
	}
	if x.Type != 0 && r.P(1, 2) {
		for k := r.In(1, 4); k > 0; k-- {
			t := coretypes.AccessTuple{Address: common.BytesToAddress(r.Bytes(20)), StorageKeys: []common.Hash{}}
			if r.P(1, 3) {
				t.Address = pick(r, []common.Address{{}, c.rec, u.eth, common.BytesToAddress([]byte{byte(r.N(16))})})
			}
			for j := r.N(4); j > 0; j-- {
				t.StorageKeys = append(t.StorageKeys, common.BytesToHash(r.Bytes(r.N(33))))
			}
			x.AL = append(x.AL, t)
			if r.P(1, 6) {
				x.AL = append(x.AL, t)
			}
		}
	}
	x.Gas += uint64(40 * len(x.Data))
	for _, t := range x.AL {
		x.Gas += uint64(10_000 + 5_000*len(t.StorageKeys))
	}
	return x
}

// weird makes a transaction that must not execute, or is unusual.
func (c *rawRun) weird(i int, r *Rng, u *Acct) {
	x := c.valid(r, u, nil)
	kind := ""
	var raw []byte
	sign := func() []byte {
		bz, err := u.ethTx(x).MarshalBinary()
		if err != nil {
			c.w.abort("marshal: %v", err)
		}
		return bz
	}
	signAs := func(s coretypes.Signer, d coretypes.TxData) []byte {
		tx, err := coretypes.SignNewTx(u.ecd, s, d)
		if err != nil {
			c.w.abort("sign: %v", err)
		}
		bz, err := tx.MarshalBinary()
		if err != nil {
			c.w.abort("marshal: %v", err)
		}
		return bz
	}
	switch r.N(14) {
	case 0:
		kind = "chain"
		x.ChainID = pick(r, []*big.Int{big.NewInt(1), new(big.Int).Add(ethChainID, big.NewInt(1)), new(big.Int).Lsh(ethChainID, 64), new(big.Int).Add(ethChainID, new(big.Int).Lsh(big.NewInt(1), 64)), big.NewInt(0)})
		if x.ChainID.Sign() == 0 && x.Type == 0 {
			x.ChainID = big.NewInt(1)
		}
		raw = sign()
	case 1:
		kind = "unprotected"
		raw = signAs(coretypes.HomesteadSigner{}, &coretypes.LegacyTx{Nonce: x.Nonce, GasPrice: x.FeeCap, Gas: x.Gas, To: x.To, Value: x.Value, Data: x.Data})
	case 2:
		kind = "blob"
		to := c.rec
		raw = signAs(coretypes.NewCancunSigner(ethChainID), &coretypes.BlobTx{ChainID: uint256.MustFromBig(ethChainID), Nonce: x.Nonce, GasFeeCap: uint256.MustFromBig(x.FeeCap), Gas: x.Gas, To: to, Value: new(uint256.Int), BlobFeeCap: uint256.NewInt(1), BlobHashes: []common.Hash{{1}}})
	case 3:
		kind = "precision"
		if c.dec >= 18 {
			kind = "dust"
		}
		x.Value = new(big.Int).Add(c.wei(int64(r.N(5))), big.NewInt(int64(r.In(1, 1000))))
		raw = sign()
	case 4:
		kind = "trailing"
		raw = append(sign(), r.Bytes(r.In(1, 3))...)
	case 5:
		kind = "truncated"
		raw = sign()
		raw = raw[:r.N(len(raw))]
	case 6, 7:
		kind = "flipped"
		raw = sign()
		for k := r.In(1, 2); k > 0; k-- {
			raw[r.N(len(raw))] ^= 1 << r.N(8)
		}
	case 8:
		// the other signature of the same transaction
		kind = "highs"
		et := u.ethTx(x)
		v, rr, s := et.RawSignatureValues()
		n := crypto.S256().Params().N
		s2 := new(big.Int).Sub(n, s)
		v2 := new(big.Int)
		switch x.Type {
		case 0:
			base := new(big.Int).Add(new(big.Int).Lsh(ethChainID, 1), big.NewInt(35))
			v2.Add(base, new(big.Int).Sub(big.NewInt(1), new(big.Int).Sub(v, base)))
			raw = enc(&coretypes.LegacyTx{Nonce: et.Nonce(), GasPrice: et.GasPrice(), Gas: et.Gas(), To: et.To(), Value: et.Value(), Data: et.Data(), V: v2, R: rr, S: s2})
		case 1:
			raw = enc(&coretypes.AccessListTx{ChainID: ethChainID, Nonce: et.Nonce(), GasPrice: et.GasPrice(), Gas: et.Gas(), To: et.To(), Value: et.Value(), Data: et.Data(), AccessList: et.AccessList(), V: v2.Sub(big.NewInt(1), v), R: rr, S: s2})
		default:
			raw = enc(&coretypes.DynamicFeeTx{ChainID: ethChainID, Nonce: et.Nonce(), GasFeeCap: et.GasFeeCap(), GasTipCap: et.GasTipCap(), Gas: et.Gas(), To: et.To(), Value: et.Value(), Data: et.Data(), AccessList: et.AccessList(), V: v2.Sub(big.NewInt(1), v), R: rr, S: s2})
		}
	case 9:
		kind = "huge"
		big1 := new(big.Int).Lsh(big.NewInt(int64(r.In(1, 255))), uint(r.In(60, 262)))
		switch r.N(5) {
		case 0:
			x.Value = big1
		case 1:
			x.FeeCap = big1
		case 2:
			x.Gas = ^uint64(0) >> r.N(4)
		case 3:
			x.FeeCap, x.TipCap = big1, big1
		default:
			x.Nonce = ^uint64(0) >> r.N(3)
		}
		raw = sign()
	case 10:
		kind = "tip"
		x.Type = 2
		x.TipCap = new(big.Int).Add(x.FeeCap, big.NewInt(int64(r.In(1, 1000))))
		if r.P(1, 3) {
			x.FeeCap = new(big.Int)
		}
		raw = sign()
	case 11:
		kind = "poor"
		// more than the account has
		x.Value = new(big.Int).Lsh(c.wei(1), uint(r.In(90, 130)))
		raw = sign()
	case 12:
		kind = "lowgas"
		x.Gas = uint64(r.N(60_000))
		raw = sign()
	default:
		kind = "again"
		if len(c.all) == 0 {
			return
		}
		raw = pick(r, c.all).raw
	}
	t := c.add(i, "weird."+kind, raw)
	c.submit(t)
	if t.t.eth != nil && t.t.from.idx >= 0 {
		c.took(t.t.from, t)
	}
	c.w.reach("weird." + kind + "." + t.why)
}

func sigBytes(d signing.SignatureData) []byte {
	if s, ok := d.(*signing.SingleSignatureData); ok {
		return s.Signature
	}
	return nil
}

func enc(d coretypes.TxData) []byte {
	bz, err := coretypes.NewTx(d).MarshalBinary()
	if err != nil {
		panic(err)
	}
	return bz
}

// look reads the pool.
func (c *rawRun) look(r *Rng) {
	w := c.w
	get := func(out any, method string, args ...any) bool {
		raw, err, ok := c.f.call(method, args...)
		if !ok {
			return false
		}
		if err != nil {
			w.violate("query-error", "%s%s fails: %v", method, argStr(args), err)
			return false
		}
		if err := json.Unmarshal(raw, out); err != nil {
			w.violate("query-answer", "%s%s answers %s: %v", method, argStr(args), trunc(string(raw)), err)
			return false
		}
		return true
	}
	seen := map[common.Hash]string{}
	item := func(part, acc, nonce string, j *jTx) {
		x := c.byEth[j.Hash]
		if x == nil {
			w.violate("pool-listing", "the pool lists as %s %s, which nobody submitted", part, j.Hash)
			return
		}
		if !x.acked {
			w.violate("pool-listing", "the pool lists as %s %s, which was refused", part, x.t)
			return
		}
		if d := sameTx(j, x.t); d != "" {
			w.violate("pool-listing", "the pool lists as %s %s with %s", part, x.t, d)
		}
		if acc != "" && (common.HexToAddress(acc) != x.t.from.eth || nonce != fmt.Sprint(x.t.seq)) {
			w.violate("pool-listing", "the pool lists as %s %s under %s, %s", part, x.t, acc, nonce)
		}
		seen[j.Hash] = part
		w.count("pool_entries." + part)
	}
	var l poolListing
	if !get(&l, "txpool_content") {
		return
	}
	for _, part := range []string{"pending", "queued"} {
		for acc, m := range l[part] {
			for nonce, j := range m {
				item(part, acc, nonce, j)
			}
		}
	}
	// what is in the mempool must be listed (the listing is limited to 100)
	if len(c.n.mp.txs) <= 100 {
		for _, bz := range c.n.mp.reap() {
			if x := c.carrier(bz); x != nil && seen[x.t.eth.Hash()] != "pending" {
				w.violate("pool-listing", "%s is in the mempool, the pool lists it as %q", x.t, seen[x.t.eth.Hash()])
			}
		}
	}
	switch r.N(3) {
	case 0:
		var p []*jTx
		if get(&p, "eth_pendingTransactions") {
			for _, j := range p {
				item("pending", "", "", j)
			}
		}
	case 1:
		u := pick(r, c.rg.users)
		var m map[string]map[string]*jTx
		if get(&m, "txpool_contentFrom", u.eth) {
			for part, e := range m {
				for nonce, j := range e {
					item(part, u.eth.Hex(), nonce, j)
				}
			}
		}
	}
	if len(c.all) > 0 {
		x := pick(r, c.all)
		if x.t.eth == nil {
			return
		}
		var j *jTx
		if get(&j, "eth_getTransactionByHash", x.t.eth.Hash()) {
			if j != nil {
				if d := sameTx(j, x.t); d != "" {
					w.violate("tx-by-hash", "eth_getTransactionByHash gives %s with %s", x.t, d)
				}
				if !x.acked {
					w.violate("tx-by-hash", "eth_getTransactionByHash finds %s, which was refused", x.t)
				}
				w.count("looked_up")
			}
		}
	}
}

// executed judges the transactions of a block.
func (c *rawRun) executed(b *Block, res *abci.ResponseFinalizeBlock) {
	w := c.w
	for i, bz := range b.Txs {
		x := c.carrier(bz)
		if x == nil {
			continue
		}
		r := res.TxResults[i]
		w.count("executed")
		if x.why != "" {
			w.violate("executed-invalid", "%s, which cannot be carried (%s), is in block %d with code %d", x.t, x.why, b.H, r.Code)
			continue
		}
		if d := c.altered(bz, x); d != "" {
			w.violate("altered", "block %d carries %s with %s", b.H, x.t, d)
		}
		if uint64(r.GasWanted) != x.t.eth.Gas() {
			w.violate("gas-limit", "%s runs with gas limit %d, signed was %d", x.t, r.GasWanted, x.t.eth.Gas())
		}
		if r.Code != 0 {
			w.count("failed")
			if x.sure {
				w.violate("failed-valid", "%s fails in block %d: %s", x.t, b.H, trunc(r.Log))
			}
			continue
		}
		v, _ := c.units(x.t.eth.Value())
		if x.fresh != nil {
			if c.want[*x.fresh] == nil {
				c.want[*x.fresh] = new(big.Int)
			}
			c.want[*x.fresh].Add(c.want[*x.fresh], v)
			continue
		}
		var logs []evmtypes.Log
		self := c.rec
		var m evmtypes.MsgCallResponse
		if x.t.eth.To() == nil {
			var m evmtypes.MsgCreateResponse
			msgResp(r.Data, 0, &m)
			logs = m.Logs
			self = crypto.CreateAddress(x.t.from.eth, x.t.eth.Nonce())
			if common.HexToAddress(m.ContractAddr) != self {
				w.violate("wrong-address", "%s creates %s, not %s", x.t, m.ContractAddr, self)
			}
		} else {
			msgResp(r.Data, 0, &m)
			logs = m.Logs
		}
		if *pTo(x.t.eth, c.rec) != c.rec {
			continue
		}
		var got []byte
		for _, l := range logs {
			if common.HexToAddress(l.Address) == self {
				got = common.FromHex(l.Data)
			}
		}
		d := x.t.eth.Data()
		want := bytes.Join([][]byte{common.LeftPadBytes(x.t.from.eth.Bytes(), 32), common.LeftPadBytes(x.t.from.eth.Bytes(), 32), common.BigToHash(v).Bytes(),
			common.BigToHash(big.NewInt(int64(len(d)))).Bytes(), common.LeftPadBytes(self.Bytes(), 32), crypto.Keccak256(d)}, nil)
		if x.t.note != "weird.flipped" && !bytes.Equal(got, want) {
			w.violate("executed-otherwise", "%s (value %s, %d bytes of input) runs as (caller, origin, value, size, address, hash) %x, not %x", x.t, x.t.eth.Value(), len(d), got, want)
		}
		w.count("effects_compared")
	}
	// what fresh recipients received
	n := c.n
	q := &evmQ{n: n, ctx: n.committedCtx()}
	for a, v := range c.want {
		got := q.balance(a, c.denom)
		if got.Cmp(v) != 0 {
			w.violate("wrong-value", "%s was sent %s of the fee token, it has %s", a, v, got)
		}
	}
}

func pTo(t *coretypes.Transaction, dflt common.Address) *common.Address {
	if t.To() == nil {
		return &dflt
	}
	return t.To()
}

func (c *rawRun) block(r *Rng) {
	n, rg := c.n, c.rg
	txs := n.mp.reap()
	h := rg.c.height() + 1
	{
		var out [][]byte
		var err error
		n.abciCall("PrepareProposal", func(app *minitiaapp.MinitiaApp) {
			var res *abci.ResponsePrepareProposal
			if res, err = app.PrepareProposal(&abci.RequestPrepareProposal{MaxTxBytes: rg.gen.MaxBytes, Txs: txs, Height: h, Time: rg.c.clock, ProposerAddress: valPriv.PubKey().Address()}); err == nil {
				out = res.Txs
			}
		})
		if err != nil {
			c.w.violate("proposal-failed", "no proposal for height %d: %v", h, err)
			return
		}
		txs = out
	}
	if len(txs) > 0 && r.P(1, 6) {
		txs = txs[:r.N(len(txs))]
	}
	rg.runRaw(txs)
	if n.inc.dead {
		c.w.abort("the node died: %s", n.inc.why)
	}
	rec := rg.c.res(rg.c.height())
	c.executed(rg.c.block(rg.c.height()), rec.Res)
	c.next()
}

// next sets the next nonces from the state and the mempool.
func (c *rawRun) next() {
	c.rg.sync()
	c.off = map[common.Address]bool{}
	in := map[string]bool{}
	for _, bz := range c.n.mp.reap() {
		if x := c.carrier(bz); x != nil {
			in[fmt.Sprint(x.t.from.eth, x.t.seq)] = true
		}
	}
	for _, u := range c.rg.users {
		for in[fmt.Sprint(u.eth, u.next)] {
			u.next++
		}
	}
}

func scC09(w *World) {
	cr := NewRng(w.seed, "c09")
	c := &rawRun{off: map[common.Address]bool{}, w: w, r: cr, bySig: map[string]*rawTx{}, byEth: map[common.Hash]*rawTx{}, want: map[common.Address]*big.Int{}, dec: 18, denom: feeDenom}
	o := RigOpts{Users: 4, MinGas: 0}
	custom := cr.P(3, 5)
	if !custom && cr.P(1, 2) {
		o.MinGas = 1000
	}
	rg := newRig(w, o)
	rg.plain = true
	c.rg = rg
	cfg := defaultCfg(0, cr)
	cfg.Index = true
	cfg.QueryGas, cfg.SimGas, cfg.MempoolN, cfg.MinRetain = 0, 0, 0, 0
	c.n = rg.addNode(cfg)
	rg.boot()
	a := newAsm()
	recorder(a, false)
	a.op(vm.STOP)
	res := rg.run(rg.cosmos("deploy", rg.users[0], 8_000_000, msgCreate(rg.users[0], initFor(a.bytes(), nil), nil)))
	var cm evmtypes.MsgCreateResponse
	if res.TxResults[0].Code != 0 || !msgResp(res.TxResults[0].Data, 0, &cm) {
		w.abort("recorder: %s", res.TxResults[0].Log)
	}
	c.rec = common.HexToAddress(cm.ContractAddr)
	if custom {
		c.token(cr, pick(cr, []int{0, 1, 6, 8, 9, 12, 17, 18, 19, 24, 36}))
	}
	w.reach(fmt.Sprintf("decimals.%d", c.dec))
	rg.sync()
	c.or = newOracle(rg)
	c.n.onUp = c.up
	c.up(c.n)
	if rg.gasPrice == 0 || o.MinGas == 0 {
		rg.gasPrice = pick(cr, []int64{0, 1, 7, 1_000_000})
	}
	crash := pick(cr, []int{0, 0, 5})
	op := 0
	for b, nb := 0, cr.In(4, 8); b < nb; b++ {
		for k := cr.In(2, 9); k > 0; k-- {
			if w.on(op) {
				c.op(op)
			}
			op++
			if cr.P(1, 4) {
				c.look(cr)
			}
			c.pause(cr.N(400))
		}
		c.look(cr)
		if crash > 0 && cr.P(1, crash) {
			c.n.crash(false, "between blocks")
			w.fault("crash")
			if !c.n.start(rg.c) {
				w.abort("the node does not come up: %s", c.n.inc.why)
			}
			c.next()
		}
		c.block(cr)
		if cr.P(1, 3) {
			c.report(cr, rg.c.height())
		}
	}
	c.block(cr)
	if cr.P(1, 2) {
		c.n.crash(false, "final restart")
		w.fault("restart")
		if !c.n.start(rg.c) {
			w.abort("the node does not come up: %s", c.n.inc.why)
		}
	}
	for h := rg.c.initialHeight; h <= rg.c.height(); h++ {
		c.report(cr, h)
	}
	p := c.or.probe(c.f)
	for _, t := range c.ghost {
		if x := c.byEth[t.eth.Hash()]; !x.acked {
			p.ghost(t)
		}
	}
}

// report compares what the node reports of a block with what was signed.
func (c *rawRun) report(r *Rng, h int64) {
	p := c.or.probe(c.f)
	p.block(h, r)
	if !p.dead {
		p.receipts(h, r)
	}
}

// token makes a new token with so many decimals the chain's fee token.
func (c *rawRun) token(r *Rng, dec int) {
	rg, w := c.rg, c.w
	n := rg.n0()
	f, err := n.app.EVMKeeper.GetERC20FactoryAddr(n.committedCtx())
	if err != nil {
		w.abort("factory: %v", err)
	}
	u := rg.users[0]
	res := rg.run(rg.cosmos("token", u, 8_000_000, msgCall(u, f, pack(abiFactory, "createERC20", "F", "F", uint8(dec)), nil)))
	var m evmtypes.MsgCallResponse
	if res.TxResults[0].Code != 0 || !msgResp(res.TxResults[0].Data, 0, &m) {
		w.abort("token: %s", res.TxResults[0].Log)
	}
	addr := common.BytesToAddress(common.FromHex(m.Result))
	d, err := evmtypes.ContractAddrToDenom(n.committedCtx(), n.app.EVMKeeper, addr)
	if err != nil {
		w.abort("token denom: %v", err)
	}
	var txs []*Tx
	for _, v := range rg.users {
		amt := new(big.Int).Mul(pow10(12), pow10(dec))
		txs = append(txs, rg.cosmos("mint", u, 2_000_000, msgCall(u, addr, pack(abiERC20, "mint", v.eth, amt), nil)))
	}
	for _, t := range rg.run(txs...).TxResults {
		if t.Code != 0 {
			w.abort("mint: %s", t.Log)
		}
	}
	p, err := n.app.EVMKeeper.Params.Get(n.committedCtx())
	if err != nil {
		w.abort("params: %v", err)
	}
	p.FeeDenom = d
	res = rg.run(rg.cosmos("params", rg.admin, 2_000_000, adminMsgs(rg.admin, &evmtypes.MsgUpdateParams{Authority: opAuthority(), Params: p})))
	if res.TxResults[0].Code != 0 {
		w.abort("params: %s", res.TxResults[0].Log)
	}
	c.dec, c.denom = dec, d
}
