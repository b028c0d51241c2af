package main

// A reference EVM state: plain maps, snapshots are deep copies. The interpreter
// is the fork's own; everything below it (state, reverts, native token, logs)
// is this file.

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"

	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/state"
	"github.com/ethereum/go-ethereum/core/stateless"
	"github.com/ethereum/go-ethereum/core/tracing"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/params"
	"github.com/ethereum/go-ethereum/trie/utils"
	"github.com/holiman/uint256"
)

type refAcct struct {
	exists bool
	nonce  uint64
	code   []byte
	bal    *big.Int
	stor   map[common.Hash]common.Hash
	fresh  bool // storage not in the starting state
	opaque bool // an account with a key or a special role
}

type refSlot struct {
	a common.Address
	k common.Hash
}

type refFrame struct {
	accts   map[common.Address]*refAcct
	trans   map[refSlot]common.Hash
	alA     map[common.Address]bool
	alS     map[refSlot]bool
	created map[common.Address]bool
	dead    map[common.Address]bool
	refund  uint64
	logs    []*coretypes.Log
}

func (f *refFrame) clone() *refFrame {
	g := &refFrame{accts: map[common.Address]*refAcct{}, trans: map[refSlot]common.Hash{}, alA: map[common.Address]bool{}, alS: map[refSlot]bool{},
		created: map[common.Address]bool{}, dead: map[common.Address]bool{}, refund: f.refund, logs: append([]*coretypes.Log(nil), f.logs...)}
	for k, a := range f.accts {
		b := *a
		b.bal = new(big.Int).Set(a.bal)
		b.stor = map[common.Hash]common.Hash{}
		for x, y := range a.stor {
			b.stor[x] = y
		}
		g.accts[k] = &b
	}
	for k, v := range f.trans {
		g.trans[k] = v
	}
	for k, v := range f.alA {
		g.alA[k] = v
	}
	for k, v := range f.alS {
		g.alS[k] = v
	}
	for k, v := range f.created {
		g.created[k] = v
	}
	for k, v := range f.dead {
		g.dead[k] = v
	}
	return g
}

// RefEVM is the reference machine: a base state and an overlay.
type RefEVM struct {
	load     func(a common.Address) *refAcct
	loadSlot func(a common.Address, k common.Hash) common.Hash
	feeCon   common.Address
	chainID  *big.Int
	num      int64
	time     uint64
	hash     common.Hash

	cur   *refFrame
	begin *refFrame // at the start of the current execution
	snaps []*refFrame
}

var _ vm.StateDB = &RefEVM{}

func newRefFrame() *refFrame { return (&refFrame{}).clone() }

func (s *RefEVM) in(f *refFrame, a common.Address) *refAcct {
	x := f.accts[a]
	if x == nil {
		x = s.load(a)
		if x.stor == nil {
			x.stor = map[common.Hash]common.Hash{}
		}
		f.accts[a] = x
	}
	return x
}
func (s *RefEVM) acct(a common.Address) *refAcct { return s.in(s.cur, a) }

func (s *RefEVM) slotIn(f *refFrame, a common.Address, k common.Hash) common.Hash {
	x := s.in(f, a)
	v, ok := x.stor[k]
	if !ok {
		if !x.fresh {
			v = s.loadSlot(a, k)
		}
		x.stor[k] = v
	}
	return v
}

var transferTopic = crypto.Keccak256Hash([]byte("Transfer(address,address,uint256)"))

func (s *RefEVM) tokenLog(from, to common.Address, v *big.Int) {
	s.cur.logs = append(s.cur.logs, &coretypes.Log{Address: s.feeCon, Topics: []common.Hash{transferTopic, common.BytesToHash(from.Bytes()), common.BytesToHash(to.Bytes())}, Data: common.BigToHash(v).Bytes()})
}

func (s *RefEVM) CreateAccount(a common.Address) {
	x := s.acct(a)
	x.exists, x.nonce, x.code = true, 0, nil
}
func (s *RefEVM) CreateContract(a common.Address) {
	s.acct(a).exists = true
	s.cur.created[a] = true
}
func (s *RefEVM) SubBalance(a common.Address, v *uint256.Int, _ tracing.BalanceChangeReason) {
	if v.IsZero() {
		return
	}
	x := s.acct(a)
	x.bal.Sub(x.bal, v.ToBig())
	s.tokenLog(a, common.Address{}, v.ToBig())
}
func (s *RefEVM) AddBalance(a common.Address, v *uint256.Int, _ tracing.BalanceChangeReason) {
	if v.IsZero() {
		return
	}
	x := s.acct(a)
	x.bal.Add(x.bal, v.ToBig())
	s.tokenLog(common.Address{}, a, v.ToBig())
}
func (s *RefEVM) GetBalance(a common.Address) *uint256.Int { return uint256.MustFromBig(s.acct(a).bal) }
func (s *RefEVM) GetNonce(a common.Address) uint64         { return s.acct(a).nonce }
func (s *RefEVM) SetNonce(a common.Address, n uint64) {
	x := s.acct(a)
	x.exists, x.nonce = true, n
}
func (s *RefEVM) GetCodeHash(a common.Address) common.Hash {
	x := s.acct(a)
	if !x.exists && x.bal.Sign() == 0 {
		return common.Hash{}
	}
	if len(x.code) == 0 {
		return coretypes.EmptyCodeHash
	}
	return crypto.Keccak256Hash(x.code)
}
func (s *RefEVM) GetCode(a common.Address) []byte { return s.acct(a).code }
func (s *RefEVM) SetCode(a common.Address, c []byte) {
	x := s.acct(a)
	x.exists, x.code = true, append([]byte(nil), c...)
}
func (s *RefEVM) GetCodeSize(a common.Address) int { return len(s.acct(a).code) }
func (s *RefEVM) AddRefund(g uint64)               { s.cur.refund += g }
func (s *RefEVM) SubRefund(g uint64) {
	if g > s.cur.refund {
		panic("refund counter below zero")
	}
	s.cur.refund -= g
}
func (s *RefEVM) GetRefund() uint64 { return s.cur.refund }
func (s *RefEVM) GetCommittedState(a common.Address, k common.Hash) common.Hash {
	return s.slotIn(s.begin, a, k)
}
func (s *RefEVM) GetState(a common.Address, k common.Hash) common.Hash { return s.slotIn(s.cur, a, k) }
func (s *RefEVM) SetState(a common.Address, k, v common.Hash)          { s.acct(a).stor[k] = v }
func (s *RefEVM) GetStorageRoot(a common.Address) common.Hash {
	x := s.acct(a)
	for _, v := range x.stor {
		if v != (common.Hash{}) {
			return common.Hash{1}
		}
	}
	if x.opaque {
		return common.Hash{1}
	}
	return common.Hash{}
}
func (s *RefEVM) GetTransientState(a common.Address, k common.Hash) common.Hash {
	return s.cur.trans[refSlot{a, k}]
}
func (s *RefEVM) SetTransientState(a common.Address, k, v common.Hash) {
	s.cur.trans[refSlot{a, k}] = v
}
func (s *RefEVM) SelfDestruct(a common.Address) {
	s.cur.dead[a] = true
	s.SubBalance(a, s.GetBalance(a), 0)
}
func (s *RefEVM) HasSelfDestructed(a common.Address) bool { return s.cur.dead[a] }
func (s *RefEVM) Selfdestruct6780(a common.Address) {
	if s.cur.created[a] {
		s.SelfDestruct(a)
	}
}
func (s *RefEVM) Exist(a common.Address) bool {
	x := s.acct(a)
	return x.exists || x.bal.Sign() != 0
}
func (s *RefEVM) Empty(a common.Address) bool {
	x := s.acct(a)
	return x.bal.Sign() == 0 && x.nonce == 0 && len(x.code) == 0
}
func (s *RefEVM) AddressInAccessList(a common.Address) bool { return s.cur.alA[a] }
func (s *RefEVM) SlotInAccessList(a common.Address, k common.Hash) (bool, bool) {
	return s.cur.alA[a], s.cur.alS[refSlot{a, k}]
}
func (s *RefEVM) AddAddressToAccessList(a common.Address) { s.cur.alA[a] = true }
func (s *RefEVM) AddSlotToAccessList(a common.Address, k common.Hash) {
	s.cur.alA[a] = true
	s.cur.alS[refSlot{a, k}] = true
}
func (s *RefEVM) PointCache() *utils.PointCache { return nil }
func (s *RefEVM) Prepare(rules params.Rules, sender, coinbase common.Address, dst *common.Address, precompiles []common.Address, list coretypes.AccessList) {
	s.cur.alA[sender] = true
	if dst != nil {
		s.cur.alA[*dst] = true
	}
	for _, p := range precompiles {
		s.cur.alA[p] = true
	}
	for _, e := range list {
		s.cur.alA[e.Address] = true
		for _, k := range e.StorageKeys {
			s.cur.alS[refSlot{e.Address, k}] = true
		}
	}
	s.cur.alA[coinbase] = true
}
func (s *RefEVM) Snapshot() int {
	s.snaps = append(s.snaps, s.cur.clone())
	return len(s.snaps) - 1
}
func (s *RefEVM) RevertToSnapshot(i int) {
	s.cur = s.snaps[i]
	s.snaps = s.snaps[:i]
}
func (s *RefEVM) AddLog(l *coretypes.Log)         { s.cur.logs = append(s.cur.logs, l) }
func (s *RefEVM) AddPreimage(common.Hash, []byte) {}
func (s *RefEVM) Witness() *stateless.Witness     { return nil }

func refChainConfig(id *big.Int) *params.ChainConfig {
	z := uint64(0)
	b := big.NewInt(0)
	return &params.ChainConfig{ChainID: id, HomesteadBlock: b, DAOForkBlock: b, DAOForkSupport: true, EIP150Block: b, EIP155Block: b, EIP158Block: b, ByzantiumBlock: b,
		ConstantinopleBlock: b, PetersburgBlock: b, IstanbulBlock: b, MuirGlacierBlock: b, BerlinBlock: b, LondonBlock: b, ArrowGlacierBlock: b, GrayGlacierBlock: b,
		MergeNetsplitBlock: b, ShanghaiTime: &z, CancunTime: &z, PragueTime: &z, VerkleTime: &z}
}

type refOut struct {
	ret  []byte
	addr common.Address
	left uint64
	err  error
	logs []*coretypes.Log
}

// exec runs one message. to == nil creates; salt != nil creates with CREATE2.
func (s *RefEVM) exec(caller common.Address, to *common.Address, salt *uint64, input []byte, gas uint64, value *big.Int, al coretypes.AccessList) (o refOut) {
	s.cur.trans, s.cur.alA, s.cur.alS = map[refSlot]common.Hash{}, map[common.Address]bool{}, map[refSlot]bool{}
	s.cur.created, s.cur.dead, s.cur.refund, s.cur.logs = map[common.Address]bool{}, map[common.Address]bool{}, 0, nil
	s.begin = s.cur.clone()
	s.snaps = nil
	keep := s.cur.clone()
	h := s.hash
	bc := vm.BlockContext{
		CanTransfer: func(_ vm.StateDB, a common.Address, v *uint256.Int) bool { return s.acct(a).bal.Cmp(v.ToBig()) >= 0 },
		Transfer: func(_ vm.StateDB, a, b common.Address, v *uint256.Int) {
			if v.IsZero() {
				return
			}
			x, y := s.acct(a), s.acct(b)
			x.bal.Sub(x.bal, v.ToBig())
			y.bal.Add(y.bal, v.ToBig())
			s.tokenLog(a, b, v.ToBig())
		},
		GetHash:  func(uint64) common.Hash { return common.Hash{} },
		GasLimit: gas, BlockNumber: big.NewInt(s.num), Time: s.time, Difficulty: new(big.Int), BaseFee: new(big.Int), BlobBaseFee: new(big.Int), Random: &h,
	}
	tc := vm.TxContext{Origin: caller, GasPrice: new(big.Int), BlobFeeCap: new(big.Int), AccessEvents: state.NewAccessEvents(utils.NewPointCache(4096))}
	cfg := refChainConfig(s.chainID)
	evm := vm.NewEVMWithPrecompiles(bc, tc, s, cfg, vm.Config{}, map[common.Address]vm.PrecompiledContract{})
	rules := cfg.Rules(bc.BlockNumber, true, bc.Time)
	s.Prepare(rules, caller, common.Address{}, to, append(vm.ActivePrecompiles(rules), cosmosAddr, registryAddr), al)
	v := uint256.MustFromBig(value)
	switch {
	case to != nil:
		o.ret, o.left, o.err = evm.Call(vm.AccountRef(caller), *to, input, gas, v)
	case salt != nil:
		o.ret, o.addr, o.left, o.err = evm.Create2(vm.AccountRef(caller), input, gas, v, uint256.NewInt(*salt))
	default:
		o.ret, o.addr, o.left, o.err = evm.Create(vm.AccountRef(caller), input, gas, v)
	}
	if o.err != nil {
		s.cur = keep
		return
	}
	var dead []common.Address
	for a := range s.cur.dead {
		dead = append(dead, a)
	}
	sort.Slice(dead, func(i, j int) bool { return bytes.Compare(dead[i][:], dead[j][:]) < 0 })
	for _, a := range dead {
		s.SubBalance(a, s.GetBalance(a), 0)
		s.cur.accts[a] = &refAcct{bal: new(big.Int), stor: map[common.Hash]common.Hash{}, fresh: true}
	}
	o.logs = s.cur.logs
	return
}

// newRefEVM starts from a node's state.
func newRefEVM(n *Node, ctx sdk.Context, b *Block) *RefEVM {
	q := &evmQ{n, ctx}
	fc, err := n.app.EVMKeeper.GetContractAddrByDenom(ctx, feeDenom)
	if err != nil {
		n.w.abort("fee contract: %v", err)
	}
	r := &RefEVM{feeCon: fc, chainID: ethChainID, num: b.H, time: uint64(b.T.Unix()), hash: common.BytesToHash(b.Hash), cur: newRefFrame()}
	r.load = func(a common.Address) *refAcct {
		x := &refAcct{bal: q.balance(a, feeDenom), code: q.code(a)}
		if acc := n.app.AccountKeeper.GetAccount(ctx, sdk.AccAddress(a.Bytes())); acc != nil {
			x.exists, x.nonce = true, acc.GetSequence()
			x.opaque = acc.GetPubKey() != nil
		}
		return x
	}
	r.loadSlot = func(a common.Address, k common.Hash) common.Hash { return q.slot(a, k) }
	return r
}

func (s *RefEVM) String() string { return fmt.Sprintf("%d accounts", len(s.cur.accts)) }
