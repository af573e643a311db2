SO='ipc/common/serializableVMOutput.go'
GW='''package arwenpart

import (
	"errors"
	"math/big"
	"os"
	"testing"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/nodepart"
	worldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"
	"github.com/stretchr/testify/require"
)

var _ = errors.New
var _ = big.NewInt
var _ = common.ErrInvalidMessageNonce

// both sides of the pipe: ask runs in the VM process, the node answers from the given world
func ask(t *testing.T, world *worldmock.MockWorld, f func(gateway *BlockchainHookGateway)) {
	inRead, inWrite, err := os.Pipe()
	require.Nil(t, err)
	outRead, outWrite, err := os.Pipe()
	require.Nil(t, err)
	part, err := nodepart.NewNodePart(outRead, inWrite, world, nodepart.Config{MaxLoopTime: 5000}, marshaling.CreateMarshalizer(marshaling.JSON))
	require.Nil(t, err)
	gateway := NewBlockchainHookGateway(NewArwenMessenger(inRead, outWrite, marshaling.CreateMarshalizer(marshaling.JSON)))
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		msg, err := gateway.messenger.ReceiveNodeRequest()
		if err != nil {
			panic(err)
		}
		_ = msg
		f(gateway)
		err = gateway.messenger.SendContractResponse(common.NewMessageVersionResponse("v"))
		if err != nil {
			panic(err)
		}
	}()
	_, err = part.StartLoop(common.NewMessageVersionRequest())
	r := <-done
	if r != nil {
		t.Fatal(r)
	}
	require.Nil(t, err)
}

func Test_Demo(t *testing.T) {
'''
CM='''package common

import (
	"math/big"
	"os"
	"testing"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/stretchr/testify/require"
)

var _ = big.NewInt
var _ = os.Pipe
var _ = marshaling.JSON
var _ vmcommon.ReturnCode

func Test_Demo(t *testing.T) {
'''
SEEDS=[
dict(ID='i02-empty-value-dropped',PROPERTY='I02',NEEDS='an account whose storage holds an entry with an empty value, asked for with GetAllState',
 BREAKS='the entries with empty values are missing from the state the VM is shown',
 EDITS=[('ipc/common/serializableMaps.go','''		value := s.Values[i]
		m[key] = value
''','''		value := s.Values[i]
		if len(value) == 0 {
			continue
		}
		m[key] = value
''')],
 PKG='ipc/arwenpart',TEST=GW+'''	world := worldmock.NewMockWorld()
	world.AcctMap.PutAccount(&worldmock.Account{Address: []byte("alice"), Balance: big.NewInt(1), Storage: map[string][]byte{"a": []byte("x"), "b": {}}})
	ask(t, world, func(gateway *BlockchainHookGateway) {
		state, err := gateway.GetAllState([]byte("alice"))
		if err != nil {
			panic(err)
		}
		if _, ok := state["b"]; !ok || len(state) != 2 {
			panic("an entry is missing")
		}
	})
}
'''),
dict(ID='i02-error-of-blockhash',PROPERTY='I02',NEEDS='a block hash the node cannot give',
 BREAKS='the VM takes the empty answer for the hash of the block',
 EDITS=[('ipc/nodepart/blockchainRepliers.go','''	result, err := part.blockchain.GetBlockhash(typedRequest.Nonce)

	response := common.NewMessageBlockchainGetBlockhashResponse(result, err)
	return response''','''	result, err := part.blockchain.GetBlockhash(typedRequest.Nonce)

	response := common.NewMessageBlockchainGetBlockhashResponse(result, nil)
	if err != nil && len(result) > 0 {
		response.SetError(err)
	}
	return response''')],
 PKG='ipc/arwenpart',TEST=GW+'''	world := worldmock.NewMockWorld()
	world.Err = errors.New("no such block")
	ask(t, world, func(gateway *BlockchainHookGateway) {
		_, err := gateway.GetBlockhash(1000)
		if err == nil {
			panic("no error")
		}
	})
}
'''),
dict(ID='i03-transfer-without-gas',PROPERTY='I03',NEEDS='a result with a plain value transfer (no gas) to another account',
 BREAKS='the transfer arrives in the node without value and data',
 EDITS=[(SO,'''	for i, transfer := range a.Transfers {
''','''	for i, transfer := range a.Transfers {
		if transfer.GasLimit+transfer.GasLocked == 0 {
			continue
		}
''')],
 PKG='ipc/common',TEST=CM+'''	out := &vmcommon.VMOutput{OutputAccounts: map[string]*vmcommon.OutputAccount{"a": {Address: []byte("a"), OutputTransfers: []vmcommon.OutputTransfer{{Value: big.NewInt(7), Data: []byte("d")}}}}}
	back := NewSerializableVMOutput(out).ConvertToVMOutput()
	require.Equal(t, out.OutputAccounts["a"].OutputTransfers, back.OutputAccounts["a"].OutputTransfers)
}
'''),
dict(ID='i03-deployer-lost',PROPERTY='I03',NEEDS='a result that deploys a contract',
 BREAKS='the address of the deployer of new code does not reach the node',
 EDITS=[(SO,'''		CodeDeployerAddress: account.CodeDeployerAddress,
	}

	a.Transfers''','''		CodeDeployerAddress: account.CodeMetadata,
	}

	a.Transfers''')],
 PKG='ipc/common',TEST=CM+'''	out := &vmcommon.VMOutput{OutputAccounts: map[string]*vmcommon.OutputAccount{"a": {Address: []byte("a"), Code: []byte("c"), CodeMetadata: []byte("m"), CodeDeployerAddress: []byte("d")}}}
	back := NewSerializableVMOutput(out).ConvertToVMOutput()
	require.Equal(t, []byte("d"), back.OutputAccounts["a"].CodeDeployerAddress)
}
'''),
dict(ID='i04-message-from-the-future',PROPERTY='I04',NEEDS='a message that was left out: the number of the next one is larger than expected',
 BREAKS='a message that does not continue the dialogue is accepted',
 EDITS=[('ipc/common/messenger.go','	if messageNonce != messenger.Nonce+1 {','	if messageNonce <= messenger.Nonce {')],
 PKG='ipc/common',TEST=CM+'''	r, w, err := os.Pipe()
	require.Nil(t, err)
	m := marshaling.CreateMarshalizer(marshaling.JSON)
	sender := NewMessengerPipes("a", nil, w, m)
	receiver := NewMessengerPipes("b", r, nil, m)
	sender.Nonce = 4
	require.Nil(t, sender.Send(NewMessageVersionRequest()))
	_, err = receiver.Receive(1000)
	require.NotNil(t, err)
}
'''),
dict(ID='i04-short-message',PROPERTY='I04',NEEDS='the other process ends in the middle of a message',
 BREAKS='a message that was cut off is taken for an empty one instead of ending the dialogue',
 EDITS=[('ipc/common/receiver.go','''	_, err := io.ReadFull(receiver.reader, buffer)
	if err != nil {
		return nil, err
	}

	message :=''','''	n, err := io.ReadFull(receiver.reader, buffer)
	if err == io.EOF || err == io.ErrUnexpectedEOF {
		buffer = append(buffer[:n], []byte("{}")[min(n, 2):]...)
		err = nil
	}
	if err != nil {
		return nil, err
	}

	message :='''),('ipc/common/receiver.go','''// Shutdown closes''','''func min(a int, b int) int {
	if a < b {
		return a
	}
	return b
}

// Shutdown closes''')],
 PKG='ipc/common',TEST=CM+'''	r, w, err := os.Pipe()
	require.Nil(t, err)
	_, err = w.Write([]byte{50, 0, 0, 0, byte(VersionRequest), 0, 0, 0})
	require.Nil(t, err)
	_ = w.Close()
	receiver := NewReceiver(r, marshaling.CreateMarshalizer(marshaling.JSON))
	_, _, err = receiver.Receive(1000)
	require.NotNil(t, err)
}
'''),
dict(ID='i01-decoder-of-another-answer',PROPERTY='I01',NEEDS='a contract that asks for the random seed of the previous block',
 BREAKS='the answer is decoded as another type: the VM process panics',
 EDITS=[('ipc/common/messagesFactory.go','messageCreators[BlockchainLastRandomSeedResponse] = createMessageBlockchainLastRandomSeedResponse','messageCreators[BlockchainLastRandomSeedResponse] = createMessageBlockchainCurrentRandomSeedResponse')],
 PKG='ipc/arwenpart',TEST=GW+'''	world := worldmock.NewMockWorld()
	ask(t, world, func(gateway *BlockchainHookGateway) {
		gateway.LastRandomSeed()
	})
}
'''),
]
