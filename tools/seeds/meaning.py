# seeded bugs of what the functions offered to contracts mean (C22-C25)
API='''package elrondapi

import (
	"math/big"
	"testing"
	"unsafe"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/contexts"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	mock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/context"
)

var keep []interface{}
var _ = big.NewInt

// vm gives what a contract's call hands to the functions of the VM.
func vm() (unsafe.Pointer, *mock.VMHostMock, *mock.RuntimeContextMock) {
	rt := &mock.RuntimeContextMock{FailBigIntAPI: true, FailElrondAPI: true}
	mt := &mock.MeteringContextMock{}
	mt.SetGasSchedule(config.MakeGasMapForTests())
	mt.GasLeftMock = 1000000000
	bi, _ := contexts.NewBigIntContext()
	h := &mock.VMHostMock{RuntimeContext: rt, MeteringContext: mt, BigIntContext: bi, OutputContext: &mock.OutputContextMock{}}
	box := new(arwen.VMHost)
	*box = h
	p := new(uintptr)
	*p = uintptr(unsafe.Pointer(box))
	keep = append(keep, box, p)
	return unsafe.Pointer(p), h, rt
}
'''
CTX='''package contexts

import (
	"testing"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	mock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/context"
	"github.com/ElrondNetwork/elrond-vm-common"
)

var _ = arwen.ErrNotEnoughGas
var _ = config.MakeGasMapForTests
var _ = mock.NewMemoryMock
var _ vmcommon.VMInput
'''
SEEDS=[
dict(ID='c22-division-through-the-destination', PROPERTY='C22', NEEDS='a contract that divides by a number and puts the quotient in its place',
 BREAKS='the dividend is put into the destination before it is divided: where the destination is the divisor, the quotient is always 1',
 EDITS=[('arwen/elrondapi/bigIntOps.go','	dest.Quo(a, b) // Quo implements truncated division (like Go)','	dest.Set(a)\n	dest.Quo(dest, b) // Quo implements truncated division (like Go)')],
 PKG='arwen/elrondapi', TEST=API+'''
func TestDemo(t *testing.T) {
	p, h, _ := vm()
	for _, dest := range []int32{1, 2, 3} {
		h.BigInt().GetOne(1).SetInt64(-17)
		h.BigInt().GetOne(2).SetInt64(5)
		v1_3_bigIntTDiv(p, dest, 1, 2)
		if got := h.BigInt().GetOne(dest).Int64(); got != -3 {
			t.Fatalf("-17 / 5 into number %d is %d", dest, got)
		}
	}
}
'''),
dict(ID='c22-shift-of-a-negative', PROPERTY='C22', NEEDS='a negative number shifted to the right',
 BREAKS='a negative number is shifted by its amount instead of being refused',
 EDITS=[('arwen/elrondapi/bigIntOps.go','''	if a.Sign() < 0 || bits < 0 {
		runtime := arwen.GetRuntimeContext(context)
		arwen.WithFault(arwen.ErrShiftNegative, context, runtime.BigIntAPIErrorShouldFailExecution())
		return
	}
	dest.Rsh(a, uint(bits))''','''	if a.BitLen() == 0 || bits < 0 {
		runtime := arwen.GetRuntimeContext(context)
		arwen.WithFault(arwen.ErrShiftNegative, context, runtime.BigIntAPIErrorShouldFailExecution())
		return
	}
	dest.Rsh(a, uint(bits))''')],
 PKG='arwen/elrondapi', TEST=API+'''
func TestDemo(t *testing.T) {
	p, h, _ := vm()
	h.BigInt().GetOne(1).SetInt64(-17)
	h.BigInt().GetOne(2).SetInt64(99)
	func() {
		defer func() { recover() }()
		v1_3_bigIntShr(p, 2, 1, 2)
	}()
	if got := h.BigInt().GetOne(2).Int64(); got != 99 {
		t.Fatalf("the shift of a negative number gave %d", got)
	}
	h.BigInt().GetOne(1).SetInt64(17)
	v1_3_bigIntShr(p, 2, 1, 2)
	if got := h.BigInt().GetOne(2).Int64(); got != 4 {
		t.Fatalf("17 >> 2 is %d", got)
	}
}
'''),
dict(ID='c22-new-number-takes-a-used-handle', PROPERTY='C22', NEEDS='a contract that first uses a handle of its own choice (GetOne makes the number) and then asks for a new number',
 BREAKS='a new number takes the handle that equals the count of numbers, also when a number has that handle: it is overwritten',
 EDITS=[('arwen/contexts/bigint.go','''	for {
		if _, ok := context.values[newHandle]; !ok {
			break
		}
		newHandle++
	}
''','''	if value, ok := context.values[newHandle]; ok && value == nil {
		newHandle++
	}
''')],
 PKG='arwen/contexts', TEST=CTX+'''
func TestDemo(t *testing.T) {
	c, _ := NewBigIntContext()
	c.GetOne(1).SetInt64(42)
	h := c.Put(7)
	if h == 1 || c.GetOne(1).Int64() != 42 || c.GetOne(h).Int64() != 7 {
		t.Fatalf("number 1 is %d after the new number %d was made", c.GetOne(1).Int64(), h)
	}
}
'''),
dict(ID='c23-event-with-one-topic', PROPERTY='C23', NEEDS='a log entry with exactly one topic',
 BREAKS='the only topic of a log entry (its identifier) is lost',
 EDITS=[('arwen/contexts/output.go','	if len(topics) == 0 {\n		context.outputState.Logs','	if len(topics) <= 1 {\n		context.outputState.Logs')],
 PKG='arwen/contexts', TEST=CTX+'''
func TestDemo(t *testing.T) {
	c, _ := NewOutputContext(&mock.VMHostMock{RuntimeContext: &mock.RuntimeContextMock{}})
	c.WriteLog([]byte("address"), [][]byte{[]byte("transfer")}, []byte("data"))
	logs := c.outputState.Logs
	if len(logs) != 1 || string(logs[0].Identifier) != "transfer" || len(logs[0].Topics) != 0 {
		t.Fatalf("the log entry has the identifier %q", logs[0].Identifier)
	}
}
'''),
dict(ID='c23-epoch-of-the-wrong-block', PROPERTY='C23', NEEDS='a call in the first block of an epoch',
 BREAKS='contracts that ask for the epoch of the previous block are told the current one',
 EDITS=[('arwen/contexts/blockchain.go','return context.blockChainHook.LastEpoch()','return context.blockChainHook.CurrentEpoch()')],
 PKG='arwen/contexts', TEST=CTX+'''
func TestDemo(t *testing.T) {
	hook := &mock.BlockchainHookStub{CurrentEpochCalled: func() uint32 { return 8 }, LastEpochCalled: func() uint32 { return 7 }}
	c, err := NewBlockchainContext(&mock.VMHostMock{}, hook)
	if err != nil {
		t.Fatal(err)
	}
	if c.LastEpoch() != 7 || c.CurrentEpoch() != 8 {
		t.Fatalf("the last block was of epoch %d, the current one of %d", c.LastEpoch(), c.CurrentEpoch())
	}
}
'''),
dict(ID='c24-shortened-value-not-written', PROPERTY='C24', NEEDS='a stored value that is replaced by its own beginning',
 BREAKS='a value that is the beginning of what is stored counts as unchanged and is not written',
 EDITS=[('arwen/contexts/storage.go','	if bytes.Equal(oldValue, value) {','	if length > 0 && bytes.HasPrefix(oldValue, value) || length == 0 && lengthOldValue == 0 {')],
 PKG='arwen/contexts', TEST=CTX+'''
func TestDemo(t *testing.T) {
	out := &mock.OutputContextMock{}
	out.OutputAccountMock = out.NewVMOutputAccount([]byte("account"))
	m := &mock.MeteringContextMock{}
	m.SetGasSchedule(config.MakeGasMapForTests())
	h := &mock.VMHostMock{OutputContext: out, MeteringContext: m, RuntimeContext: &mock.RuntimeContextMock{}}
	c, _ := NewStorageContext(h, &mock.BlockchainHookStub{}, []byte("RESERVED"))
	c.SetAddress([]byte("account"))
	for _, v := range []string{"value", "values", "val", "", "value"} {
		if _, err := c.SetStorage([]byte("key"), []byte(v)); err != nil {
			t.Fatal(err)
		}
		if got := c.GetStorage([]byte("key")); string(got) != v {
			t.Fatalf("%q was written, %q is read", v, got)
		}
	}
}
'''),
dict(ID='c25-deployment-by-contract-priced-ahead-of-time', PROPERTY='C25', NEEDS='a schedule in which compiling and preparing a byte cost different amounts, and a contract that deploys another',
 BREAKS='the deployment of a contract by a contract is charged the price of preparing compiled code instead of the price of compiling',
 EDITS=[('arwen/contexts/metering.go','''		input.ContractCode,
		0,
		context.gasSchedule.BaseOperationCost.CompilePerByte,''','''		input.ContractCode,
		0,
		context.gasSchedule.BaseOperationCost.AoTPreparePerByte,''')],
 PKG='arwen/contexts', TEST=CTX+'''
func TestDemo(t *testing.T) {
	rt := &mock.RuntimeContextMock{VMInput: &vmcommon.VMInput{GasProvided: 1000}}
	c, _ := NewMeteringContext(&mock.VMHostMock{RuntimeContext: rt}, config.MakeGasMapForTests(), 15000)
	c.gasSchedule.BaseOperationCost.CompilePerByte = 5
	c.gasSchedule.BaseOperationCost.AoTPreparePerByte = 2
	if err := c.DeductInitialGasForIndirectDeployment(arwen.CodeDeployInput{ContractCode: make([]byte, 100)}); err != nil {
		t.Fatal(err)
	}
	if c.gasForExecution != 500 {
		t.Fatalf("%d gas is left for the execution", c.gasForExecution)
	}
}
'''),
]
