package main

// A small EVM assembler and a contract that interprets scripts from calldata,
// so that every transaction can carry its own tree of nested calls.

import (
	"encoding/binary"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"
)

type asm struct {
	b      []byte
	labels map[string]int
	fix    map[int]string
}

func newAsm() *asm { return &asm{labels: map[string]int{}, fix: map[int]string{}} }
func (a *asm) op(ops ...vm.OpCode) *asm {
	for _, o := range ops {
		a.b = append(a.b, byte(o))
	}
	return a
}
func (a *asm) push(v []byte) *asm {
	for len(v) > 1 && v[0] == 0 {
		v = v[1:]
	}
	if len(v) == 0 {
		v = []byte{0}
	}
	a.b = append(a.b, byte(vm.PUSH1)+byte(len(v)-1))
	a.b = append(a.b, v...)
	return a
}
func (a *asm) pi(n uint64) *asm { return a.push(binary.BigEndian.AppendUint64(nil, n)) }
func (a *asm) lbl(l string) *asm {
	a.labels[l] = len(a.b)
	return a.op(vm.JUMPDEST)
}
func (a *asm) ref(l string) *asm {
	a.b = append(a.b, byte(vm.PUSH2))
	a.fix[len(a.b)] = l
	a.b = append(a.b, 0, 0)
	return a
}
func (a *asm) bytes() []byte {
	for p, l := range a.fix {
		off, ok := a.labels[l]
		if !ok {
			panic("label " + l)
		}
		binary.BigEndian.PutUint16(a.b[p:], uint16(off))
	}
	return a.b
}

// script opcodes
const (
	sSSTORE  = 0x01 // k v2
	sSADD    = 0x02 // k v2
	sSCOPY   = 0x03 // k k2
	sTSTORE  = 0x04 // k v2
	sTTOS    = 0x05 // k k2
	sLOG0    = 0x10 // data2 (topic2)*n
	sENV     = 0x20 // base for environment ops: k
	sBHASH   = 0x38 // k n8
	sBAL     = 0x39 // k addr
	sXHASH   = 0x3a
	sXSIZE   = 0x3b
	sCALL    = 0x40 // to20 value8 gas4 flags k len2 data
	sDELEG   = 0x41
	sSTATIC  = 0x42
	sCCODE   = 0x43
	sCALLK   = 0x44 // as sCALL, target is sload(low byte of to)
	sCREATE  = 0x48 // value8 salt flags k len2 data
	sCREATE2 = 0x49
	sDESTR   = 0x50 // addr20
	sREVERT  = 0x51 // v2
	sRETK    = 0x52 // k
	sRETRD   = 0x53
	sINVALID = 0x54
	sSTOP    = 0x55
	sBURN    = 0x56 // n2
	sMEM     = 0x57 // n2
	sRDH     = 0x58 // k: hash of the return data buffer
	sMIX     = 0x59 // k v2: slot k = slot k * 31 + v
	sBALK    = 0x5a // k k2: balance, code size, code hash of the address in slot k2
	sXSIZEK  = 0x5b
	sXHASHK  = 0x5c
)

const (
	fReq  = 1 // revert if the call fails
	fOK   = 2 // store success flag / created address at k
	fHash = 4 // store keccak(returndata) at k+1
)

var envOps = []vm.OpCode{vm.NUMBER, vm.TIMESTAMP, vm.CHAINID, vm.CALLER, vm.ORIGIN, vm.ADDRESS, vm.SELFBALANCE, vm.CALLVALUE,
	vm.GASPRICE, vm.BASEFEE, vm.DIFFICULTY /* PREVRANDAO */, vm.COINBASE, vm.GAS, vm.GASLIMIT, vm.CODESIZE, vm.CALLDATASIZE}

var interpRuntime = buildInterp()

// rd pushes n bytes read from calldata at (p+off); p is at stack depth d (1 = top).
func (a *asm) rd(d int, off, n int) *asm {
	a.op(vm.DUP1 + vm.OpCode(d-1))
	if off > 0 {
		a.pi(uint64(off)).op(vm.ADD)
	}
	a.op(vm.CALLDATALOAD)
	if n < 32 {
		a.pi(uint64(256 - 8*n)).op(vm.SHR)
	}
	return a
}

func (a *asm) adv(n int) *asm { return a.pi(uint64(n)).op(vm.ADD).ref("loop").op(vm.JUMP) }

func buildInterp() []byte {
	a := newAsm()
	a.pi(0)
	a.lbl("loop")
	a.op(vm.DUP1, vm.CALLDATASIZE, vm.GT).ref("go").op(vm.JUMPI, vm.STOP) // CALLDATASIZE > p
	a.lbl("go")
	a.op(vm.DUP1, vm.CALLDATALOAD).pi(248).op(vm.SHR) // [p op]
	a.op(vm.SWAP1).pi(1).op(vm.ADD, vm.SWAP1)
	type h struct {
		code int
		f    func()
	}
	var hs []h
	add := func(code int, f func()) { hs = append(hs, h{code, f}) }
	add(sSSTORE, func() { a.rd(1, 1, 2).rd(2, 0, 1).op(vm.SSTORE).adv(3) })
	add(sSADD, func() { a.rd(1, 1, 2).rd(2, 0, 1).op(vm.SLOAD, vm.ADD).rd(2, 0, 1).op(vm.SSTORE).adv(3) })
	add(sSCOPY, func() { a.rd(1, 1, 1).op(vm.SLOAD).rd(2, 0, 1).op(vm.SSTORE).adv(2) })
	add(sTSTORE, func() { a.rd(1, 1, 2).rd(2, 0, 1).op(vm.TSTORE).adv(3) })
	add(sTTOS, func() { a.rd(1, 1, 1).op(vm.TLOAD).rd(2, 0, 1).op(vm.SSTORE).adv(2) })
	for n := 0; n <= 4; n++ {
		n := n
		add(sLOG0+n, func() {
			a.rd(1, 0, 2).pi(0).op(vm.MSTORE)
			for t := n; t >= 1; t-- {
				a.rd(n-t+1, 2*t, 2)
			}
			a.pi(32).pi(0).op(vm.LOG0 + vm.OpCode(n)).adv(2 + 2*n)
		})
	}
	for i, e := range envOps {
		e := e
		add(sENV+i, func() { a.op(e).rd(2, 0, 1).op(vm.SSTORE).adv(1) })
	}
	add(sBHASH, func() { a.rd(1, 1, 8).op(vm.BLOCKHASH).rd(2, 0, 1).op(vm.SSTORE).adv(9) })
	add(sBAL, func() { a.rd(1, 1, 20).op(vm.BALANCE).rd(2, 0, 1).op(vm.SSTORE).adv(21) })
	add(sXHASH, func() { a.rd(1, 1, 20).op(vm.EXTCODEHASH).rd(2, 0, 1).op(vm.SSTORE).adv(21) })
	add(sXSIZE, func() { a.rd(1, 1, 20).op(vm.EXTCODESIZE).rd(2, 0, 1).op(vm.SSTORE).adv(21) })
	for _, kind := range []int{sCALL, sDELEG, sSTATIC, sCCODE, sCALLK} {
		kind := kind
		add(kind, func() {
			// operands: to20 @0 value8 @20 gas4 @28 flags @32 k @33 len2 @34 data @36
			a.rd(1, 34, 2).op(vm.DUP2).pi(36).op(vm.ADD).pi(0x200).op(vm.CALLDATACOPY) // [p]
			a.pi(0).pi(0)                                                              // retSize retOff
			a.rd(3, 34, 2).pi(0x200)                                                   // inSize inOff -> need order: retSize retOff inSize inOff
			depth := 5
			if kind == sCALL || kind == sCCODE || kind == sCALLK {
				a.rd(depth, 20, 8)
				depth++
			}
			a.rd(depth, 0, 20)
			if kind == sCALLK {
				a.pi(0xff).op(vm.AND, vm.SLOAD)
			}
			depth++
			a.rd(depth, 28, 4) // gas
			lg := string(rune('a'+kind)) + "gas"
			a.op(vm.DUP1).ref(lg).op(vm.JUMPI, vm.POP, vm.GAS)
			a.lbl(lg)
			switch kind {
			case sDELEG:
				a.op(vm.DELEGATECALL)
			case sSTATIC:
				a.op(vm.STATICCALL)
			case sCCODE:
				a.op(vm.CALLCODE)
			default:
				a.op(vm.CALL)
			}
			a.ref("aftercall").op(vm.JUMP) // [p ok]
		})
	}
	add(sCREATE, func() {
		// value8 @0 salt @8 flags @9 k @10 len2 @11 data @13
		a.rd(1, 11, 2).op(vm.DUP2).pi(13).op(vm.ADD).pi(0x200).op(vm.CALLDATACOPY)
		a.rd(1, 11, 2).pi(0x200).rd(3, 0, 8).op(vm.CREATE).ref("aftercreate").op(vm.JUMP)
	})
	add(sCREATE2, func() {
		a.rd(1, 11, 2).op(vm.DUP2).pi(13).op(vm.ADD).pi(0x200).op(vm.CALLDATACOPY)
		a.rd(1, 8, 1).rd(2, 11, 2).pi(0x200).rd(4, 0, 8).op(vm.CREATE2).ref("aftercreate").op(vm.JUMP)
	})
	add(sDESTR, func() { a.rd(1, 0, 20).op(vm.SELFDESTRUCT) })
	add(sREVERT, func() { a.rd(1, 0, 2).pi(0).op(vm.MSTORE).pi(32).pi(0).op(vm.REVERT) })
	add(sRETK, func() { a.rd(1, 0, 1).op(vm.SLOAD).pi(0).op(vm.MSTORE).pi(32).pi(0).op(vm.RETURN) })
	add(sRETRD, func() {
		a.op(vm.RETURNDATASIZE).pi(0).pi(0).op(vm.RETURNDATACOPY).op(vm.RETURNDATASIZE).pi(0).op(vm.RETURN)
	})
	add(sINVALID, func() { a.op(vm.INVALID) })
	add(sSTOP, func() { a.op(vm.STOP) })
	add(sBURN, func() {
		a.rd(1, 0, 2) // [p n]
		a.lbl("burn")
		a.op(vm.DUP1).ref("burn2").op(vm.JUMPI, vm.POP).adv(2)
		a.lbl("burn2")
		a.pi(64).pi(0).op(vm.KECCAK256).pi(0).op(vm.MSTORE).pi(1).op(vm.SWAP1, vm.SUB).ref("burn").op(vm.JUMP)
	})
	add(sMEM, func() { a.pi(1).rd(2, 0, 2).pi(32).op(vm.MUL, vm.MSTORE).adv(2) })
	add(sRDH, func() {
		a.op(vm.RETURNDATASIZE).pi(0).pi(0x200).op(vm.RETURNDATACOPY).op(vm.RETURNDATASIZE).pi(0x200).op(vm.KECCAK256)
		a.rd(2, 0, 1).op(vm.SSTORE).adv(1)
	})
	add(sMIX, func() {
		a.rd(1, 1, 2).rd(2, 0, 1).op(vm.SLOAD).pi(31).op(vm.MUL, vm.ADD).rd(2, 0, 1).op(vm.SSTORE).adv(3)
	})
	for i, o := range []vm.OpCode{vm.BALANCE, vm.EXTCODESIZE, vm.EXTCODEHASH} {
		o := o
		add(sBALK+i, func() { a.rd(1, 1, 1).op(vm.SLOAD, o).rd(2, 0, 1).op(vm.SSTORE).adv(2) })
	}
	for i, x := range hs {
		a.op(vm.DUP1).pi(uint64(x.code)).op(vm.EQ).ref(lab(i)).op(vm.JUMPI)
	}
	a.op(vm.INVALID)
	for i, x := range hs {
		a.lbl(lab(i)).op(vm.POP)
		x.f()
	}
	// [p ok]
	a.lbl("aftercall")
	a.op(vm.DUP1).ref("acok").op(vm.JUMPI)
	a.rd(2, 32, 1).pi(fReq).op(vm.AND).ref("bubble").op(vm.JUMPI)
	a.lbl("acok")
	a.rd(2, 32, 1).pi(fOK).op(vm.AND, vm.ISZERO).ref("ac2").op(vm.JUMPI)
	a.op(vm.DUP1).rd(3, 33, 1).op(vm.SSTORE)
	a.lbl("ac2").op(vm.POP) // [p]
	a.rd(1, 32, 1).pi(fHash).op(vm.AND, vm.ISZERO).ref("ac3").op(vm.JUMPI)
	a.op(vm.RETURNDATASIZE).pi(0).pi(0x200).op(vm.RETURNDATACOPY).op(vm.RETURNDATASIZE).pi(0x200).op(vm.KECCAK256)
	a.rd(2, 33, 1).pi(1).op(vm.ADD, vm.SSTORE)
	a.lbl("ac3")
	a.rd(1, 34, 2).op(vm.ADD).adv(36)
	a.lbl("bubble")
	a.op(vm.RETURNDATASIZE).pi(0).pi(0).op(vm.RETURNDATACOPY).op(vm.RETURNDATASIZE).pi(0).op(vm.REVERT)
	// [p addr]
	a.lbl("aftercreate")
	a.op(vm.DUP1).ref("crok").op(vm.JUMPI)
	a.rd(2, 9, 1).pi(fReq).op(vm.AND).ref("bubble").op(vm.JUMPI)
	a.lbl("crok")
	a.rd(2, 9, 1).pi(fOK).op(vm.AND, vm.ISZERO).ref("cr2").op(vm.JUMPI)
	a.op(vm.DUP1).rd(3, 10, 1).op(vm.SSTORE)
	a.lbl("cr2").op(vm.POP)
	a.rd(1, 11, 2).op(vm.ADD).adv(13)
	return a.bytes()
}

func lab(i int) string { return "h" + string(rune('0'+i/10)) + string(rune('0'+i%10)) }

// initFor builds init code returning runtime, after running straight-line extras.
func initFor(runtime []byte, pre func(a *asm)) []byte {
	a := newAsm()
	if pre != nil {
		pre(a)
	}
	n := uint64(len(runtime))
	a.pi(n).ref("rt").pi(0).op(vm.CODECOPY).pi(n).pi(0).op(vm.RETURN)
	a.labels["rt"] = len(a.b)
	code := a.bytes()
	return append(code, runtime...)
}

// ---- script builders

type script []byte

func (s script) u8(v ...byte) script { return append(s, v...) }
func (s script) u16(v int) script    { return binary.BigEndian.AppendUint16(s, uint16(v)) }
func (s script) u32(v uint32) script { return binary.BigEndian.AppendUint32(s, v) }
func (s script) u64(v uint64) script { return binary.BigEndian.AppendUint64(s, v) }

func (s script) sstore(k byte, v int) script { return s.u8(sSSTORE, k).u16(v) }
func (s script) sadd(k byte, v int) script   { return s.u8(sSADD, k).u16(v) }
func (s script) log(data int, topics ...int) script {
	s = s.u8(byte(sLOG0 + len(topics))).u16(data)
	for _, t := range topics {
		s = s.u16(t)
	}
	return s
}
func (s script) env(i int, k byte) script { return s.u8(byte(sENV+i), k) }
func (s script) call(kind byte, to common.Address, value uint64, gas uint32, flags, k byte, data []byte) script {
	s = append(s.u8(kind), to.Bytes()...)
	s = s.u64(value).u32(gas).u8(flags, k).u16(len(data))
	return append(s, data...)
}
func (s script) create(kind byte, value uint64, salt, flags, k byte, init []byte) script {
	s = s.u8(kind).u64(value).u8(salt, flags, k).u16(len(init))
	return append(s, init...)
}
func (s script) mix(k byte, v int) script { return s.u8(sMIX, k).u16(v) }

// destructible destroys itself in favour of the address its input starts with,
// and takes value sent without input.
func destructible() []byte {
	a := newAsm()
	a.op(vm.CALLDATASIZE, vm.ISZERO).ref("end").op(vm.JUMPI)
	a.pi(0).op(vm.CALLDATALOAD).pi(96).op(vm.SHR, vm.SELFDESTRUCT)
	a.lbl("end").op(vm.STOP)
	return a.bytes()
}

// ctorFor is init code that runs a script of the interpreter at code in the
// context of the new contract and leaves the runtime there.
func ctorFor(code common.Address, sc script, runtime []byte) []byte {
	a := newAsm()
	n := uint64(len(runtime))
	m := uint64(len(sc))
	a.pi(m).ref("sc").pi(0x200).op(vm.CODECOPY)
	a.pi(0).pi(0).pi(m).pi(0x200).push(code.Bytes()).op(vm.GAS, vm.DELEGATECALL)
	a.ref("ok").op(vm.JUMPI).op(vm.RETURNDATASIZE).pi(0).pi(0).op(vm.RETURNDATACOPY).op(vm.RETURNDATASIZE).pi(0).op(vm.REVERT)
	a.lbl("ok")
	a.pi(n).ref("rt").pi(0).op(vm.CODECOPY).pi(n).pi(0).op(vm.RETURN)
	a.labels["sc"] = len(a.b)
	a.labels["rt"] = len(a.b) + len(sc)
	return append(append(a.bytes(), sc...), runtime...)
}
