HEAD = '''package hosttest

import (
	"errors"
	"math/big"
	"testing"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/contracts"
	mock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/context"
	worldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"
	test "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/testcommon"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/stretchr/testify/require"
)

var _ = errors.New
var _ = big.NewInt
var _ = contracts.ExecuteOnDestContextInMockContracts
var _ vmcommon.ReturnCode
var _ = require.Equal
var _ arwen.VMHost

func method(name string, f func(host arwen.VMHost)) func(*mock.InstanceMock, interface{}) {
	return func(im *mock.InstanceMock, _ interface{}) {
		im.AddMockMethod(name, func() *mock.InstanceMock {
			instance := mock.GetMockInstance(im.Host)
			f(im.Host)
			return instance
		})
	}
}

func nested(host arwen.VMHost, dest []byte, function string, args ...[]byte) *vmcommon.ContractCallInput {
	input := test.DefaultTestContractCallInput()
	input.CallerAddr = host.Runtime().GetSCAddress()
	input.RecipientAddr = dest
	input.GasProvided = 1000
	input.Function = function
	input.Arguments = args
	input.CallValue = big.NewInt(0)
	return input
}

func runParent(t *testing.T, setup func(host arwen.VMHost, world *worldmock.MockWorld), assert func(world *worldmock.MockWorld, out *vmcommon.VMOutput, err error), parent []func(*mock.InstanceMock, interface{}), child []func(*mock.InstanceMock, interface{})) {
	host, world, imb := test.DefaultTestArwenForCallWithInstanceMocks(t)
	p := imb.CreateAndStoreInstanceMock(t, host, test.ParentAddress, 0, 1000)
	for _, m := range parent {
		m(p, nil)
	}
	c := imb.CreateAndStoreInstanceMock(t, host, test.ChildAddress, 0, 1000)
	for _, m := range child {
		m(c, nil)
	}
	setZeroCodeCosts(host)
	if setup != nil {
		setup(host, world)
	}
	world.CreateStateBackup()
	out, err := host.RunSmartContractCall(test.CreateTestContractCallInputBuilder().
		WithRecipientAddr(test.ParentAddress).
		WithGasProvided(100000).
		WithFunction("main").
		Build())
	assert(world, out, err)
}
'''
SEEDS = [
dict(ID='c03-user-error-keeps-world', PROPERTY='C03',
 NEEDS='a nested call on the destination context whose contract runs a protocol function and then signals a user error',
 BREAKS='what a nested call did to the blockchain state (through protocol functions) is kept although the call failed with a user error',
 EDITS=[('arwen/host/execution.go', '''	if err != nil {
		blockchain.PopSetActiveState()
	} else {
		blockchain.PopDiscard()
	}

	return
}

func (host *vmHost) handleBuiltinFunctionCall''','''	if vmOutput != nil && vmOutput.ReturnCode == vmcommon.ExecutionFailed {
		blockchain.PopSetActiveState()
	} else {
		blockchain.PopDiscard()
	}

	return
}

func (host *vmHost) handleBuiltinFunctionCall''')],
 PKG='arwen/hosttest',
 TEST=HEAD+'''
func TestDemo(t *testing.T) {
	child := method("fail", func(host arwen.VMHost) {
		in := nested(host, host.Runtime().GetSCAddress(), "ESDTLocalBurn", test.ESDTTestTokenName, []byte{10})
		ret := contracts.ExecuteOnDestContextInMockContracts(host, in)
		require.Equal(t, int32(0), ret)
		host.Runtime().SignalUserError("no")
	})
	parent := method("main", func(host arwen.VMHost) {
		_ = contracts.ExecuteOnDestContextInMockContracts(host, nested(host, test.ChildAddress, "fail"))
	})
	runParent(t, func(host arwen.VMHost, world *worldmock.MockWorld) {
		acc := world.AcctMap.GetAccount(test.ChildAddress)
		_ = acc.SetTokenBalanceUint64(test.ESDTTestTokenKey, 100)
		_ = acc.SetTokenRolesAsStrings(test.ESDTTestTokenName, []string{vmcommon.ESDTRoleLocalBurn})
		createMockBuiltinFunctions(t, host, world)
	}, func(world *worldmock.MockWorld, out *vmcommon.VMOutput, err error) {
		require.Nil(t, err)
		acc := world.AcctMap.GetAccount(test.ChildAddress)
		b, _ := acc.GetTokenBalanceUint64(test.ESDTTestTokenKey)
		require.Equal(t, uint64(100), b)
	}, []func(*mock.InstanceMock, interface{}){parent}, []func(*mock.InstanceMock, interface{}){child})
}
'''),
dict(ID='c02-transfer-failure-leaves-focus', PROPERTY='C02',
 NEEDS='a nested call on the destination context that fails, followed by a storage write of the caller',
 BREAKS='after a failed nested call the storage focus stays on the other contract, so that the caller writes into the wrong account',
 EDITS=[('arwen/host/execution.go', '''	bigInt.PopSetActiveState()
	storage.PopSetActiveState()

	if vmOutput.ReturnCode == vmcommon.Ok {
		metering.PopMergeActiveState()''','''	bigInt.PopSetActiveState()

	if vmOutput.ReturnCode == vmcommon.Ok {
		storage.PopSetActiveState()
		metering.PopMergeActiveState()''')],
 PKG='arwen/hosttest',
 TEST=HEAD+'''
func TestDemo(t *testing.T) {
	child := method("fail", func(host arwen.VMHost) {
		host.Runtime().SignalUserError("no")
	})
	parent := method("main", func(host arwen.VMHost) {
		_, _, err := host.ExecuteOnDestContext(nested(host, test.ChildAddress, "fail"))
		require.NotNil(t, err)
		_, err = host.Storage().SetStorage([]byte("k"), []byte("v"))
		require.Nil(t, err)
	})
	runParent(t, nil, func(world *worldmock.MockWorld, out *vmcommon.VMOutput, err error) {
		require.Nil(t, err)
		acc := out.OutputAccounts[string(test.ParentAddress)]
		require.NotNil(t, acc)
		require.NotNil(t, acc.StorageUpdates["k"])
		if c := out.OutputAccounts[string(test.ChildAddress)]; c != nil {
			require.Nil(t, c.StorageUpdates["k"])
		}
	}, []func(*mock.InstanceMock, interface{}){parent}, []func(*mock.InstanceMock, interface{}){child})
}
'''),
dict(ID='c03-samectx-gas-lost', PROPERTY='C03',
 NEEDS='a nested call on the same context that fails with a return code but is undone only for the error',
 BREAKS='the output of a failed call on the same context is merged into the caller',
 EDITS=[('arwen/host/execution.go', '''		metering.PopSetActiveState()
		output.PopSetActiveState()
		runtime.PopSetActiveState()
		blockchain.PopSetActiveState()
		return''','''		metering.PopSetActiveState()
		if errors.Is(executeErr, arwen.ErrReturnCodeNotOk) {
			output.PopDiscard()
		} else {
			output.PopSetActiveState()
		}
		runtime.PopSetActiveState()
		blockchain.PopSetActiveState()
		return''')],
 PKG='arwen/hosttest',
 TEST=HEAD+'''
func TestDemo(t *testing.T) {
	child := method("fail", func(host arwen.VMHost) {
		host.Output().Finish([]byte("leaked"))
		host.Output().SetReturnCode(vmcommon.UserError)
	})
	parent := method("main", func(host arwen.VMHost) {
		_, err := host.ExecuteOnSameContext(nested(host, test.ChildAddress, "fail"))
		require.NotNil(t, err)
	})
	runParent(t, nil, func(world *worldmock.MockWorld, out *vmcommon.VMOutput, err error) {
		require.Nil(t, err)
		require.Equal(t, vmcommon.Ok, out.ReturnCode)
		require.Equal(t, 0, len(out.ReturnData))
	}, []func(*mock.InstanceMock, interface{}){parent}, []func(*mock.InstanceMock, interface{}){child})
}
'''),
]
