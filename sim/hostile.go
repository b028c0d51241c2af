package main

import (
	"fmt"
	"math/big"

	sdk "github.com/cosmos/cosmos-sdk/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/crypto"

	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

// bomb is a contract that asks n times to be called again after itself.
func bomb(self common.Address, n int, fail bool) []byte {
	m := mustJSON(map[string]any{"@type": "/minievm.evm.v1.MsgCall", "sender": sdk.AccAddress(self.Bytes()).String(), "contract_addr": self.Hex(), "input": "0x", "value": "0", "access_list": []any{}})
	d := pack(abiCosmos, "execute_cosmos", m)
	a := newAsm()
	a.pi(uint64(len(d))).ref("d").pi(0).op(vm.CODECOPY)
	for i := 0; i < n; i++ {
		a.pi(0).pi(0).pi(uint64(len(d))).pi(0).pi(0).push(cosmosAddr.Bytes()).op(vm.GAS, vm.CALL, vm.POP)
	}
	if fail {
		a.op(vm.INVALID)
	}
	a.op(vm.STOP)
	a.labels["d"] = len(a.b)
	return append(a.bytes(), d...)
}

// gasProbe stores the gas it is given, and a mark further down its code.
func gasProbe() []byte {
	a := newAsm()
	a.op(vm.GAS)
	for i := 0; i < 40; i++ {
		a.pi(1).op(vm.POP)
	}
	a.op(vm.GAS).pi(0).op(vm.SSTORE).op(vm.STOP)
	return a.bytes()
}

// creation deploys runtime as user u and returns its address.
func (rg *Rig) deploy(u *Acct, gas uint64, runtime func(self common.Address) []byte) common.Address {
	self := crypto.CreateAddress(u.eth, u.next)
	code := runtime(self)
	res := rg.run(rg.cosmos("deploy", u, gas, msgCreate(u, initFor(code, nil), nil)))
	r := res.TxResults[0]
	if r.Code != 0 {
		rg.w.abort("deploy: %s", r.Log)
	}
	var m evmtypes.MsgCreateResponse
	msgResp(r.Data, 0, &m)
	if common.HexToAddress(m.ContractAddr) != self {
		rg.w.abort("deployed at %s, not %s", m.ContractAddr, self)
	}
	return self
}

// hostile is a chain that executes transactions made to wear a node out; each
// block must get executed and an ordinary transaction must still work after it.
func hostile(w *World) {
	rg := newRig(w, RigOpts{MaxGas: 60_000_000, Mutate: nil})
	n := rg.addNode(defaultCfg(0, NewRng(w.seed, "cfg")))
	rg.boot()
	rg.deployScripts(1)
	r := NewRng(w.seed, "hostile")
	u := rg.users[0]
	b1 := rg.deploy(u, 6_000_000, func(s common.Address) []byte { return bomb(s, 1, false) })
	b2 := rg.deploy(u, 6_000_000, func(s common.Address) []byte { return bomb(s, r.In(2, 5), false) })
	probe := rg.deploy(u, 6_000_000, func(common.Address) []byte { return gasProbe() })
	self := rg.deploy(u, 6_000_000, func(s common.Address) []byte {
		// calls itself until the depth or the gas ends
		a := newAsm()
		a.pi(0).pi(0).pi(0).pi(0).pi(0).push(s.Bytes()).op(vm.GAS, vm.CALL, vm.POP, vm.STOP)
		return a.bytes()
	})
	loop := func(f func(a *asm)) common.Address {
		return rg.deploy(u, 8_000_000, func(common.Address) []byte {
			a := newAsm()
			a.lbl("top")
			f(a)
			a.ref("top").op(vm.JUMP)
			return a.bytes()
		})
	}
	loops := []common.Address{
		loop(func(a *asm) {}),
		loop(func(a *asm) { a.pi(0).pi(uint64(r.In(1000, 3_000_000))).op(vm.LOG0) }),
		loop(func(a *asm) { a.op(vm.GAS, vm.GAS, vm.SSTORE) }),
		loop(func(a *asm) { a.op(vm.GAS, vm.BALANCE, vm.POP) }),
		loop(func(a *asm) { a.op(vm.GAS, vm.EXTCODEHASH, vm.POP) }),
		loop(func(a *asm) { a.pi(0).pi(0).pi(0).op(vm.CREATE, vm.POP) }),
		loop(func(a *asm) {
			a.pi(0).pi(0).pi(uint64(r.In(0, 4000))).pi(0).pi(uint64(r.In(0, 12))).op(vm.GAS, vm.STATICCALL, vm.POP)
		}),
		loop(func(a *asm) {
			a.pi(0).pi(0).pi(uint64(r.In(0, 4000))).pi(0).pi(0).push(cosmosAddr.Bytes()).op(vm.GAS, vm.CALL, vm.POP)
		}),
		loop(func(a *asm) { a.pi(uint64(r.In(1, 1<<30))).op(vm.GAS, vm.MLOAD, vm.POP, vm.POP) }),
		loop(func(a *asm) { a.op(vm.NUMBER, vm.BLOCKHASH, vm.POP) }),
	}
	deep := func(k int) string {
		m := `{"@type":"/cosmos.bank.v1beta1.MsgSend","from_address":"","to_address":"","amount":[]}`
		for i := 0; i < k; i++ {
			m = `{"@type":"/cosmos.authz.v1beta1.MsgExec","grantee":"` + sdk.AccAddress(rg.con[0].Bytes()).String() + `","msgs":[` + m + `]}`
		}
		return m
	}
	rg.sync()
	for b := 0; b < 12; b++ {
		if !w.on(b) {
			continue
		}
		v := rg.users[1+r.N(4)]
		gas := uint64(r.In(300_000, 20_000_000))
		var t *Tx
		kind := r.N(8)
		switch kind {
		case 0:
			t = rg.cosmos("recursion", v, gas, msgCall(v, b1, nil, nil))
		case 1:
			t = rg.cosmos("fan", v, gas, msgCall(v, b2, nil, nil))
		case 2:
			t = rg.cosmos("selfcall", v, gas, msgCall(v, self, nil, nil))
		case 3, 4, 5:
			k := r.N(len(loops))
			if k == 3 || k == 4 || k == 6 {
				// each step adds a snapshot to a chain the next one walks, so
				// the work is quadratic in the gas
				gas = uint64(r.In(300_000, 1_500_000))
			}
			t = rg.eth(fmt.Sprintf("loop%d", k), v, &loops[k], gas, nil, nil)
		case 6:
			t = rg.cosmos("nested", v, gas, msgCall(v, rg.con[0], script{}.call(sCALL, cosmosAddr, 0, 0, 0, 30, pack(abiCosmos, "execute_cosmos", deep(r.In(1, 200)))), nil))
		default:
			// a call with less gas than reading the callee's code costs
			g := uint32(r.In(1, 400))
			t = rg.cosmos("tinygas", v, gas, msgCall(v, rg.con[0], script{}.call(sCALL, probe, 0, g, 0, 30, nil), nil))
		}
		w.logf("%s with gas %d", t.kind, gas)
		res := rg.run(t)
		w.count("hostile." + t.kind)
		w.reach(fmt.Sprintf("hostile.%s.%d", t.kind, res.TxResults[0].Code))
		if t.kind == "tinygas" {
			if seen := (&evmQ{n, n.committedCtx()}).slot(probe, common.Hash{}); seen.Big().Cmp(new(big.Int).SetUint64(gas)) > 0 {
				w.violate("gas-wrap", "block %d: a contract called with little gas runs on with %s, the transaction has %d", rg.c.height(), seen.Big(), gas)
				rg.run(rg.cosmos("reset", v, 3_000_000, msgCall(v, rg.con[0], script{}.sstore(1, 1), nil)))
			}
		}
		rg.sync()
		to := rg.users[5]
		ok := rg.run(rg.cosmos("after", v, 300_000, msgSend(v, to, 5)))
		if ok.TxResults[0].Code != 0 {
			w.violate("no-progress", "an ordinary transfer after %s fails: %s", t, ok.TxResults[0].Log)
		}
		rg.sync()
	}
}

func msgSend(from, to *Acct, n int64) sdk.Msg {
	return banktypes.NewMsgSend(from.acc, to.acc, coins(feeDenom, n))
}
