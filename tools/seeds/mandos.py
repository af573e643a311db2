# seeded bugs of the scenario format and its executor (M01-M04); demos are in-package tests of arwenmandos and of the format
A="arwenmandos/stepCheckAccounts.go"; T="arwenmandos/stepCheckTxResult.go"; S="arwenmandos/execScenario.go"; X='arwenmandos/stepRunTx.go'
W='mandos-go/json/write/';P='mandos-go/json/parse/';O='mandos-go/orderedjson/ojParse.go'
AM='''package arwenmandos

import (
	"math/big"
	"testing"

	er "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/expression/reconstructor"
	fr "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/fileresolver"
	mj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/model"
	mjparse "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/parse"
	worldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

var _ = big.NewInt
var _ vmcommon.VMOutput
var _ mj.Step

func executor() *ArwenTestExecutor {
	return &ArwenTestExecutor{World: worldmock.NewMockWorld(), exprReconstructor: er.ExprReconstructor{}, checkGas: true}
}

func step(t *testing.T, text string) mj.Step {
	p := mjparse.NewParser(fr.NewDefaultFileResolver())
	s, err := p.ParseScenarioStep(text)
	if err != nil {
		t.Fatal(err)
	}
	return s
}

func want(t *testing.T, what string, err error, fails bool) {
	if (err != nil) != fails {
		t.Fatalf("%s: failed %v (%v)", what, err != nil, err)
	}
}
'''
def RT(text): return '''package mandosjsonwrite_test

import (
	"reflect"
	"testing"

	fr "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/fileresolver"
	mjparse "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/parse"
	mjwrite "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/write"
)

// what is written reads back as the same scenario
func TestDemo(t *testing.T) {
	p := mjparse.NewParser(fr.NewDefaultFileResolver())
	first, err := p.ParseScenarioFile([]byte(`'''+text+'''`))
	if err != nil {
		t.Fatal(err)
	}
	second, err := p.ParseScenarioFile([]byte(mjwrite.ScenarioToJSONString(first)))
	if err != nil {
		t.Fatal(err)
	}
	if !reflect.DeepEqual(first, second) {
		t.Fatalf("%s", mjwrite.ScenarioToJSONString(second))
	}
}
'''
def REJ(text, ok): return '''package mandosjsonparse

import (
	"testing"

	fr "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/fileresolver"
)

func TestDemo(t *testing.T) {
	p := NewParser(fr.NewDefaultFileResolver())
	if _, err := p.ParseScenarioFile([]byte(`'''+ok+'''`)); err != nil {
		t.Fatal(err)
	}
	if _, err := p.ParseScenarioFile([]byte(`'''+text+'''`)); err == nil {
		t.Fatal("accepted")
	}
}
'''
SET='''
	ae := executor()
	want(t, "set state", ae.ExecuteStep(step(t, `%s`)), false)
	want(t, "right", ae.ExecuteStep(step(t, `%s`)), false)
	want(t, "wrong", ae.ExecuteStep(step(t, `%s`)), true)
}
'''
def chk(a,b,c): return AM+'\nfunc TestDemo(t *testing.T) {'+SET%(a,b,c)
acc='{"step": "setState", "accounts": {"address:a": {"nonce": "0", "balance": "0"%s}}}'
cs='{"step": "checkState", "accounts": {"address:a": {"nonce": "0", "balance": "0", "storage": %s, "code": ""%s}%s}}'
TOK=AM.replace('mj "github.com','"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"\n	mj "github.com',1)+'''
func TestDemo(t *testing.T) {
	ae := executor()
	want(t, "builtin functions", ae.World.InitBuiltinFunctions(config.MakeGasMapForTests()), false)
	want(t, "set state", ae.ExecuteStep(step(t, `{"step": "setState", "accounts": {"address:a": {"nonce": "0", "balance": "5", "esdt": {"str:TOK-123456": "10"}}, "address:b": {"nonce": "0", "balance": "0"}}}`)), false)
	tx := step(t, `{"step": "scCall", "txId": "1", "tx": {"from": "address:a", "to": "address:b", "esdt": {"tokenIdentifier": "str:TOK-123456", "value": "4"}, "function": "f", "arguments": [], "gasLimit": "1000000", "gasPrice": "0"}}`).(*mj.TxStep)
	_, err := ae.ExecuteTxStep(tx)
	want(t, "call of an account without code", err, true)
	want(t, "tokens", ae.ExecuteStep(step(t, `{"step": "checkState", "accounts": {"address:a": {"nonce": "*", "balance": "5", "storage": "*", "code": "", "esdt": {"str:TOK-123456": "10"}}, "address:b": {"nonce": "0", "balance": "0", "storage": "*", "code": "", "esdt": {}}}}`)), false)
}
'''
SEEDS=[
dict(ID='m02-storage-difference-forgiven',PROPERTY='M02',PKG='arwenmandos',
 NEEDS='an account whose expected storage leaves additional keys open ("+") while a listed key has another value',
 BREAKS='the difference in the listed key is noted, but the scenario passes',
 EDITS=[(A,'	if len(storageError) > 0 {','	if len(storageError) > 0 && !expectedAcct.MoreStorageAllowed {')],
 TEST=chk(acc%', "storage": {"str:k": "5", "str:l": "1"}', cs%('{"str:k": "5", "+": ""}','',''), cs%('{"str:k": "6", "+": ""}','',''))),
dict(ID='m02-missing-role-accepted',PROPERTY='M02',PKG='arwenmandos',
 NEEDS='a scenario that expects a token role the account does not have',
 BREAKS='an expected role that is missing is not noticed',
 EDITS=[(A,'''		if !accountRoles[role] {
			errors = append(errors, fmt.Errorf("missing ESDT role. Account: %s. Token: %s. Role: %s",
				accountAddress,
				tokenName,
				role))
		}
''','''		if accountRoles[role] {
			continue
		}
''')],
 TEST=chk(acc%', "esdt": {"str:TOK-1": {"balance": "5", "roles": ["ESDTRoleLocalMint"]}}', cs%('{}',', "esdt": {"str:TOK-1": {"balance": "5", "roles": ["ESDTRoleLocalMint"]}}',''), cs%('{}',', "esdt": {"str:TOK-1": {"balance": "5", "roles": ["ESDTRoleLocalMint", "ESDTRoleLocalBurn"]}}',''))),
dict(ID='m02-fewer-topics-accepted',PROPERTY='M02',PKG='arwenmandos',
 NEEDS='a log entry with fewer topics than the scenario expects, equal in the first ones',
 BREAKS='expected topics beyond the ones that were logged are ignored',
 EDITS=[(T,'		if len(outLog.Topics) != len(testLog.Topics) {','		if len(outLog.Topics) > len(testLog.Topics) {')],
 TEST=AM+'''
func TestDemo(t *testing.T) {
	ae := executor()
	result := func(topics string) *mj.TransactionResult {
		return step(t, `{"step": "scCall", "txId": "1", "tx": {"from": "address:a", "to": "address:b", "function": "f", "arguments": [], "gasLimit": "1", "gasPrice": "0"},
			"expect": {"out": [], "status": "0", "gas": "*", "refund": "*", "logs": [{"address": "address:b", "identifier": "str:id", "topics": `+topics+`, "data": ""}]}}`).(*mj.TxStep).ExpectedResult
	}
	address := result("[]").Logs[0].Address.Value
	output := &vmcommon.VMOutput{GasRefund: big.NewInt(0), Logs: []*vmcommon.LogEntry{{Address: address, Identifier: []byte("id"), Topics: [][]byte{[]byte("x")}}}}
	want(t, "same topics", ae.checkTxResults("1", result(`["str:x"]`), true, output), false)
	want(t, "one topic missing", ae.checkTxResults("1", result(`["str:x", "str:y"]`), true, output), true)
}
'''),
dict(ID='m02-gas-of-failures-unchecked',PROPERTY='M02',PKG='arwenmandos',
 NEEDS='a transaction that fails and for which the scenario states the remaining gas',
 BREAKS='the expectation about the remaining gas is ignored for failed transactions',
 EDITS=[(T,'	if checkGas && !blResult.Gas.IsUnspecified()','	if checkGas && output.ReturnCode == vmi.Ok && !blResult.Gas.IsUnspecified()')],
 TEST=AM+'''
func TestDemo(t *testing.T) {
	ae := executor()
	result := func(gas string) *mj.TransactionResult {
		return step(t, `{"step": "scCall", "txId": "1", "tx": {"from": "address:a", "to": "address:b", "function": "f", "arguments": [], "gasLimit": "100", "gasPrice": "0"},
			"expect": {"out": [], "status": "4", "gas": "`+gas+`", "refund": "*", "logs": []}}`).(*mj.TxStep).ExpectedResult
	}
	output := &vmcommon.VMOutput{GasRefund: big.NewInt(0), ReturnCode: vmcommon.UserError, GasRemaining: 30}
	want(t, "right gas", ae.checkTxResults("1", result("30"), true, output), false)
	want(t, "wrong gas", ae.checkTxResults("1", result("31"), true, output), true)
	want(t, "wrong gas, unchecked", ae.checkTxResults("1", result("31"), false, output), false)
}
'''),
dict(ID='m03-rollback-to-the-last-backup',PROPERTY='M03',PKG='arwenmandos',
 NEEDS='a transaction that moved tokens before it failed (each change makes a backup of its own)',
 BREAKS='the rollback returns to the last backup, which contains the changes of the failed transaction',
 EDITS=[('mock/world/worldUpdate.go','RevertToSnapshot(0)','RevertToSnapshot(b.AccountsAdapter.JournalLen())')],
 TEST=TOK),
dict(ID='m03-backup-after-the-tokens-moved',PROPERTY='M03',PKG='arwenmandos',
 NEEDS='a transaction with tokens whose contract call fails',
 BREAKS='the backup a failed transaction returns to is made when the tokens have moved already',
 EDITS=[(X,'	ae.World.CreateStateBackup()\n\n',''),(X,'''	// we also use fake vm outputs for''','''	ae.World.CreateStateBackup()

	// we also use fake vm outputs for''')],
 TEST=TOK),
dict(ID='m01-single-blockhash',PROPERTY='M01',PKG='mandos-go/json/write',
 NEEDS='a setState step with exactly one block hash',
 BREAKS='the block hash is not written',
 EDITS=[(W+'writeScenario.go','if len(step.BlockHashes) > 0','if len(step.BlockHashes) > 1')],
 TEST=RT('{"steps": [{"step": "setState", "blockHashes": ["0x1234"]}]}')),
dict(ID='m01-epoch-without-round',PROPERTY='M01',PKG='mandos-go/json/write',
 NEEDS='block information with an epoch but without a round',
 BREAKS='the epoch is not written',
 EDITS=[(W+'writeScenario.go','if len(blockInfo.BlockEpoch.Original) > 0','if len(blockInfo.BlockRound.Original) > 0')],
 TEST=RT('{"steps": [{"step": "setState", "currentBlockInfo": {"blockNonce": "5", "blockEpoch": "7"}}]}')),
dict(ID='m04-unknown-esdt-field',PROPERTY='M04',PKG='mandos-go/json/parse',
 NEEDS='a typing mistake in the name of a field of a token',
 BREAKS='the field is read as if it were not there',
 EDITS=[(P+'parseESDT.go','			default:\n				return nil, fmt.Errorf("unknown ESDT data field: %s", kvp.Key)\n','			default:\n				continue\n')],
 TEST=REJ('{"steps": [{"step": "setState", "accounts": {"address:a": {"esdt": {"str:T": {"instances": [{"nonce": "1", "balance": "1"}], "lastNoce": "5"}}}}}]}','{"steps": [{"step": "setState", "accounts": {"address:a": {"esdt": {"str:T": {"instances": [{"nonce": "1", "balance": "1"}], "lastNonce": "5"}}}}}]}')),
dict(ID='m04-checkgas-no-flag',PROPERTY='M04',PKG='mandos-go/json/parse',
 NEEDS='a scenario whose checkGas is no boolean, e.g. the string "true"',
 BREAKS='the setting is ignored instead of rejected',
 EDITS=[(P+'parseScenario.go','			if !isBool {\n				return nil, errors.New("scenario checkGas flag is not boolean")\n			}\n			scenario.CheckGas = bool(*checkGasOJ)','			if isBool {\n				scenario.CheckGas = bool(*checkGasOJ)\n			}')],
 TEST=REJ('{"checkGas": "false", "steps": []}','{"checkGas": false, "steps": []}')),
]
