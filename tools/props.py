p("C01", "A nested call gives the caller's execution state back intact",
  "When a contract runs another contract and that nested call ends, the caller continues with exactly the state it had: its transaction input (every part of it), own address, called function, read-only mode, pending asynchronous calls, running instance, big-integer handles, storage focus, gas bookkeeping and, after a failure, its accumulated output. Nothing the nested call does can alter what was set aside for the caller, because what is set aside is independent of what the nested call works on. At the start of a top-level execution none of these parts keeps anything from an earlier execution, and a nested call starts with its own input, address and function and a clean output, not with what its caller had.",
  ["programs", "inputs", "histories"], "for every contract, nesting depth and outcome of the nested calls",
  "Tests nest a handful of contracts two or three levels deep and look at a few fields; a part of the state that is not saved, not restored or shared by reference only shows when a nested contract happens to change exactly that part.",
  [C+"runtime.go", C+"output.go", C+"metering.go", C+"storage.go", C+"bigint.go", C+"blockchain.go"],
  [("PushState/PopSetActiveState", C+"runtime.go"), ("mergeVMOutputs", C+"output.go"), ("SetVMInput", C+"runtime.go")],
  [("stateStack", "what is set aside for the callers", C+"*.go")], ["VMOutput", "EEI getters after executeOnDestContext"])
p("C02", "Every saved state is taken back exactly once on every path",
  "A nested execution saves parts of the VM state before it starts; on every path through it - success, failed value transfer, failed built-in function, failed contract, failed asynchronous call - each part that was saved is removed from the saved states exactly once, and nothing that was not saved is removed. A nested execution therefore always leaves as many saved states as it found.",
  ["inputs", "fault_sequences"], "for every path through nested execution, including every early error return",
  "Error paths in the middle of nested execution need a failure at one particular point; tests cover a few, and an unbalanced save corrupts only the execution of an outer caller later.",
  [H+"execution.go", H+"asyncCall.go"], [("ExecuteOnDestContext", H+"execution.go"), ("ExecuteOnSameContext", H+"execution.go")],
  [("stateStack", "saved states", C+"*.go")], ["state of the caller after a nested call"])
p("C03", "A failed nested execution is undone, a successful one is kept",
  "If a nested execution ends with an error or with a return code other than success, then the output, the gas bookkeeping, the big-integer handles and the blockchain state are put back to what was saved before it; they are only kept or merged when it succeeded. Storage changes, transfers and logs of a failed nested call are therefore never part of the final result.",
  ["inputs", "fault_sequences"], "for every outcome of a nested execution",
  "Whether effects leak depends on which of several failure points was taken and on which part of the state the nested contract touched; tests only fix a few combinations.",
  [H+"execution.go", C+"output.go"], [("finishExecuteOnDestContext", H+"execution.go"), ("finishExecuteOnSameContext", H+"execution.go"), ("CreateNewContract", H+"execution.go")],
  [], ["VMOutput of the outermost call"])
p("C04", "Each transaction starts from a clean VM and always ends in a result",
  "Every top-level contract creation, call and upgrade resets every part of the VM state before it uses any of it, and however the execution ends - success, error or crash inside the VM - the contract instance is dropped afterwards, no saved state survives into the next execution, and the caller of the VM gets a result or an error, never a crash. So the outcome of a transaction does not depend on the transactions the same VM executed before.",
  ["histories", "fault_sequences"], "for every sequence of transactions on one VM, including ones that fail or crash",
  "Leftovers only show for particular pairs of transactions executed one after the other on the same VM; unit tests build a new VM for nearly every case.",
  [H+"arwen.go", H+"execution.go"], [("RunSmartContractCall/RunSmartContractCreate", H+"arwen.go"), ("TryCatch", H+"arwen.go"), ("InitState/Clean", H+"arwen.go")],
  [], ["VMOutput and error returned by RunSmartContract*"])
p("C05", "Executions and gas schedule changes exclude each other; locks are always released",
  "A gas schedule change waits for running executions and no execution starts while one is under way, so that a transaction is never charged with two different schedules; the VM driver of the node process likewise handles one operation at a time. Every lock that is taken is released on every path, and no lock is taken again by an operation that already holds it.",
  ["schedules"], "for every interleaving of concurrent operations and every path through them",
  "Needs two threads at particular points; single-threaded tests never see a missing lock, and a lock left behind only shows on the next call.",
  [H+"arwen.go", I+"nodepart/arwenDriver.go", "wasmer/instance_helpers.go"], [("mutExecution", H+"arwen.go"), ("operationsMutex", I+"nodepart/arwenDriver.go")], [], ["blocking of concurrent operations"])
p("C06", "Every operation offered to contracts is paid for, and paid for first",
  "Each function a contract can import from the VM charges gas taken from the current gas schedule before it reads contract memory, allocates, writes any state or starts another execution, on every path. No host function is free.",
  ["programs", "inputs"], "for every import, argument and path through it",
  "About 180 host functions with several early exits each; the tests compare gas for a few typical calls.",
  [E+"elrondei.go", E+"bigIntOps.go", E+"smallIntOps.go", "arwen/cryptoapi/cryptoei.go"], [("UseGas before effects", E+"elrondei.go")], [], ["GasRemaining"])
p("C07", "Gas and sizes never wrap around",
  "Amounts of gas, costs and byte counts that are added, subtracted or multiplied while metering can never wrap around to a small or huge number: additions and multiplications saturate and a subtraction is only done when it cannot go below zero. A huge input therefore leads to out of gas, never to a cheap execution or to minted gas.",
  ["inputs", "configurations"], "for every gas limit, cost and length up to the largest representable numbers",
  "Needs values near 2^64 or 2^31 at one particular arithmetic operation; tests use small numbers.",
  [C+"metering.go", H+"asyncCall.go", H+"execution.go", "math/overflow.go"], [("math.AddUint64/MulUint64/SubUint64", "math/overflow.go")], [], ["GasRemaining", "GasUsed"])
p("C08", "No failure inside a host function is swallowed",
  "When an operation performed on behalf of a contract by a host function fails - reading or writing contract memory, storing, transferring, calling - the failure is always looked at before the function goes on: the execution is failed or the failure is reported to the contract. A host function never continues with the result of an operation that failed.",
  ["programs", "inputs", "fault_sequences"], "for every host function and every operation in it that can fail",
  "Every call site has its own failing input; tests drive a few of them.",
  [E+"elrondei.go", E+"bigIntOps.go", E+"smallIntOps.go", "arwen/cryptoapi/cryptoei.go", "arwen/errorWrapping.go"], [("WithFault", "arwen/common.go")], [], ["ReturnCode", "ReturnMessage"])
p("C09", "Numbers chosen by a contract cannot make the VM read out of bounds",
  "Argument numbers, token indexes, offsets and lengths that a contract passes to a host function are checked against both ends of what they select before they are used to select an element or a range. A negative or too large number leads to an error or an empty answer, never to a crash of the VM or to access outside the contract's memory.",
  ["programs", "inputs"], "for every 32-bit number a contract can pass to any host function",
  "The failing numbers are single points (negative, exactly the length) of a huge space for each of many functions.",
  [E+"elrondei.go", E+"bigIntOps.go", E+"smallIntOps.go", C+"runtime.go"], [("MemLoad/MemStore bounds", C+"runtime.go"), ("argument index checks", E+"smallIntOps.go")], [], ["ReturnCode"])
p("C10", "Read-only execution changes nothing",
  "While a contract runs in read-only mode no operation available to it, directly or through contracts it calls, changes storage, writes logs, deploys or upgrades code or moves value. Read-only mode ends only for the code that was outside of it.",
  ["programs", "histories"], "for every host function and every nesting of calls made in read-only mode",
  "Requires trying every state-changing operation, in every nested position, in read-only mode; tests try storage and logs.",
  [C+"storage.go", C+"output.go", E+"elrondei.go", H+"execution.go"], [("ReadOnly checks", C+"storage.go"), ("SetReadOnly", E+"elrondei.go")], [("readOnly", "read-only mode of the running contract", C+"runtime.go")], ["VMOutput.OutputAccounts"])
p("C11", "Contracts cannot write storage keys reserved for the protocol",
  "A value is written to a contract's storage on behalf of that contract only after its key was found not to be reserved for the node and, unless the VM itself is writing its own bookkeeping, not to be reserved for the VM. The exemption given to the VM for its own writes always ends with that write, and a contract's storage of another contract can be read but never written.",
  ["programs", "inputs", "histories"], "for every key and every host function that stores",
  "Every storing function and every way of leaving the privileged write has to be considered; tests try one or two keys with one function.",
  [C+"storage.go", E+"elrondei.go"], [("SetStorage", C+"storage.go"), ("SetProtectedStorage", C+"storage.go")], [("arwenStorageProtectionEnabled", "whether VM-reserved keys are protected", C+"storage.go")], ["StorageUpdates"])
p("C12", "Value moves only if it is there, and never appears or disappears",
  "A transfer between accounts happens only after the amount was found not to be negative, the sender was found to have it and the receiver may be paid; then exactly the same amount is taken from the sender and given to the receiver. No other part of the VM changes balances, except for crediting the value of the transaction itself to the called contract.",
  ["programs", "inputs", "histories"], "for every transfer from any host function, nested call, asynchronous call and callback",
  "Transfers happen in many combinations of accounts, call types and failures; tests sample sums for a few.",
  [C+"output.go", H+"asyncCall.go", H+"execution.go"], [("TransferValueOnly", C+"output.go"), ("Transfer", C+"output.go")], [("BalanceDelta", "change of an account's balance", C+"output.go")], ["OutputAccounts[].BalanceDelta"])
p("C13", "Only validated code is deployed, and only the owner upgrades",
  "Code becomes the code of a contract only after it was validated (one memory, allowed functions with the right signatures, no reserved names, only available imports) and its initialisation succeeded. An existing contract's code is replaced by another contract's request only after the contract was found to be upgradeable and the requester to be its owner.",
  ["inputs", "programs"], "for every code and every way of deploying or upgrading",
  "There are four ways to deploy; tests use a few invalid binaries with some of them.",
  [H+"execution.go", C+"runtime.go", C+"validator.go"], [("VerifyContractCode", C+"runtime.go"), ("checkUpgradePermission", H+"execution.go"), ("DeployCode", C+"output.go")], [], ["OutputAccounts[].Code"])
p("C14", "Initialisation and callbacks cannot be invoked as ordinary calls",
  "A transaction or another contract can run a contract's initialisation function only as part of deploying or upgrading it, and its callback function only as the callback of an asynchronous call. Any other attempt fails before any of the contract's code runs.",
  ["inputs", "programs"], "for every function name, call type and way of calling",
  "Every entry route must apply the check; tests try the direct route.",
  [H+"execution.go", H+"asyncCall.go"], [("verifyAllowedFunctionCall", H+"execution.go"), ("isInitFunctionBeingCalled", H+"execution.go")], [], ["ReturnCode"])
p("C15", "A failed execution is always reported as failed",
  "If executing a contract stops with an error or at any of the VM's stop conditions (failure, user error, out of gas, asynchronous call), the result carries the return code of that condition; no failing path produces a result with code success. Every stop condition the VM can set is recognised when the contract stops, and a contract that used more gas than it had is reported as out of gas.",
  ["inputs", "programs", "fault_sequences"], "for every error and stop condition",
  "Needs every error at every level of nesting; tests check the codes for a few errors.",
  [H+"breakpoints.go", H+"execution.go", H+"arwen.go", C+"output.go"], [("handleBreakpointIfAny", H+"breakpoints.go"), ("resolveReturnCodeFromError", C+"output.go"), ("checkFinalGasAfterExit", H+"execution.go")], [], ["VMOutput.ReturnCode"])
p("C16", "The functions offered to contracts are wired to their implementations",
  "Each name a contract can import is connected to the implementation of that very function, with the same parameters and results on the contract's side, in the native declaration and in the implementation. Every implemented host function is offered under exactly one name, or is deliberately withheld.",
  ["programs"], "for every import name",
  "Nearly 180 imports; a wrong connection compiles and only shows when a contract imports that function.",
  [E+"elrondei.go", E+"bigIntOps.go", E+"smallIntOps.go", "arwen/cryptoapi/cryptoei.go", "wasmer/import.go"], [("imports.Append", "wasmer/import.go")], [], ["imports of a contract"])
p("C17", "Execution is deterministic",
  "The result of executing a transaction depends only on the transaction, the blockchain state and the configuration: order of map iteration, clocks, random numbers, environment, addresses in memory and concurrency never influence return data, logs, transfers, storage changes, gas or the order of any of them. All nodes therefore compute the same result.",
  ["histories", "schedules"], "for every execution on every node",
  "A dependence on map order gives the expected result most of the time in a test; only comparing many nodes shows it.",
  ["arwen/", "crypto/", "math/", "wasmer/"], [("output assembly", C+"output.go"), ("async map processing", H+"asyncCall.go")], [], ["VMOutput"])
p("C18", "The whole gas schedule is loaded, validated and used",
  "Every cost the VM charges is read from the gas schedule it is given, under its own name, and a schedule with a missing or zero cost is rejected; the default schedules contain every cost. Every WebAssembly instruction is given its own cost when the schedule is handed to the execution engine.",
  ["configurations"], "for every cost in the schedule and every instruction",
  "About 700 individual costs; tests load one schedule with all costs equal to 1, so that mixed-up or forgotten costs cannot be seen.",
  ["config/gasSchedule.go", "config/gasCost.go", "wasmer/opcodes.go"], [("CreateGasConfig", "config/gasSchedule.go"), ("ToOpcodeCostsArray", "config/gasCost.go")], [], ["GasRemaining"])
p("C19", "Contract instances are always released",
  "Every WebAssembly instance the VM creates is released after its last use, whatever happens in between, unless it is kept on purpose for reuse; and the number of simultaneously running instances never exceeds the configured maximum. An instance that is still needed by a caller is never released.",
  ["histories", "fault_sequences"], "for every sequence of nested calls and failures",
  "Leaks and early releases are invisible in results; they crash or exhaust a node after many transactions.",
  [C+"runtime.go", H+"arwen.go", "wasmer/instance.go"], [("popInstance/CleanWasmerInstance", C+"runtime.go"), ("StartWasmerInstance", C+"runtime.go")], [("instanceStack", "instances of the callers", C+"runtime.go")], ["native memory of the process"])
p("C20", "Signature checks accept only what was verified",
  "Verifying a signature succeeds only if the key and the signature were parsed without error, have the required form and the underlying verification of that very message under that very key said yes. An error anywhere in this chain is a rejection, for every scheme offered to contracts.",
  ["inputs"], "for every key, message and signature",
  "Tests use a few valid and invalid signatures; a skipped check matters for malformed inputs nobody wrote down.",
  ["crypto/signing", "arwen/cryptoapi/cryptoei.go"], [("VerifyBLS/VerifyEd25519/VerifySecp256k1", "crypto/signing"), ("Verify", "crypto/signing/mcl/singlesig/bls.go")], [], ["result of verifyBLS, verifyEd25519, verifySecp256k1"])
p("C21", "Asynchronous calls keep the caller's gas, value and destination",
  "Every asynchronous call a contract registers is either executed, sent to the other shard, or answered with a failed callback, and an error while doing so is reported; gas set aside for a callback or sent along with a call to another shard has been taken from the caller. The callback runs with the result of the call it belongs to.",
  ["programs", "schedules", "fault_sequences"], "for every set of registered asynchronous calls, shard layout and outcome",
  "Outcome depends on the combination of call modes, shards and failures across several transactions.",
  [H+"asyncCall.go", C+"runtime.go"], [("processAsyncInfo", H+"asyncCall.go"), ("executeAsyncCall", H+"asyncCall.go")], [], ["OutputTransfers", "GasRemaining"])
p("C22", "Big-integer and small-integer operations compute the right number",
  "Each big-integer and small-integer function offered to contracts puts the number its name says into the destination it was given, computed from the operands it was given (also where a contract names one number several times), and each conversion between numbers, bytes, arguments and results keeps value and sign. Operations that are not defined for their operands - division by zero, logic and shifts of negative numbers, values that do not fit into 64 bits - are refused and leave the destination alone. A handle that was never used stands for zero, and a new number never takes a handle that is in use.",
  ["inputs"], "for all operands of any size and sign, all handles",
  "Infinitely many operands; tests use a few, seldom negative, zero, longer than 64 bits or the same handle twice.",
  [E+"bigIntOps.go", E+"smallIntOps.go", C+"bigint.go"], [("v1_3_bigInt*", E+"bigIntOps.go"), ("v1_3_smallInt*", E+"smallIntOps.go"), ("bigIntContext.Put/GetOne", C+"bigint.go")], [("values", "handle to number", C+"bigint.go")], ["numbers read back, finished or stored"])
p("C23", "Contracts are told the truth and their requests reach the VM unchanged",
  "What a contract asks about its call, its accounts, the block and its previous results is answered with the value of that very thing (of the address, handle or index it named), written completely to the place in its memory it named, and what it asks for - results, log entries, hashes, transfers, reads and writes of its memory - is carried out with exactly the data it handed over. Accesses outside its memory are refused. Where something cannot be answered, the answer says so.",
  ["inputs", "histories"], "for every argument and every state of the blockchain and of the call",
  "Some hundred functions, each with several ways through it; an answer about a neighbouring thing (last for current block, caller for owner, another index) is right in many tests by chance.",
  [E+"elrondei.go", "arwen/cryptoapi/cryptoei.go", C+"blockchain.go", C+"runtime.go", C+"output.go"], [("v1_3_get*", E+"elrondei.go"), ("MemLoad/MemStore", C+"runtime.go"), ("blockchainContext getters", C+"blockchain.go")], [], ["answers of the EEI", "memory of the contract", "VMOutput"])
p("C24", "A contract's storage holds what was last written",
  "What a contract or the VM writes under a key is what is read under that key of that contract afterwards, until it is written again; what was not written during the call is what the blockchain has; writes to read-only or reserved keys are refused and change nothing; and the status that is answered tells whether the value was added, modified, deleted or unchanged. Keys and values of any length and content, the empty value included, are kept as they are.",
  ["inputs", "histories"], "for every key, value and history of writes",
  "Depends on what was stored before and on lengths and contents of both values; tests use a few short values.",
  [C+"storage.go", E+"elrondei.go", E+"smallIntOps.go", E+"bigIntOps.go"], [("SetStorage", C+"storage.go"), ("GetStorageFromAddress", C+"storage.go"), ("v1_3_storage*", E+"elrondei.go")], [("StorageUpdates", "what was written", C+"storage.go")], ["values read, OutputAccounts[..].StorageUpdates"])
p("C25", "The gas meter does its sums",
  "The gas left is the gas of the execution less what was used, and never less than zero; using, freeing and bounding gas change it by exactly the amount asked for; the initial deductions for executing and deploying code are the scheduled price times the size of the code, and are refused when there is not enough gas; the gas locked for a callback is the scheduled price of running it; a built-in function costs what it used, without what it hands on to the contract that follows.",
  ["inputs"], "for every amount of gas, schedule and size of code",
  "Off-by-one and exchanged amounts only show at limits or with schedules in which the prices differ.",
  [C+"metering.go"], [("GasLeft", C+"metering.go"), ("UseGasBounded", C+"metering.go"), ("deductInitialGas", C+"metering.go")], [("gasForExecution", "gas of the execution", C+"metering.go")], ["GasRemaining", "getGasLeft"])
p("I01", "Both processes agree on every message",
  "Every message one of the two processes can send can be decoded by the other as what it was sent as, is recognised as a request of the right kind, and is answered by the handler made for it with the matching answer. No kind that messages are sent with is left without decoder, name or handler.",
  ["inputs", "histories"], "for every message kind and direction",
  "Some fifty message kinds in several hand-written tables; tests exchange a few kinds.",
  [I+"common/messages.go", I+"common/messagesFactory.go", I+"nodepart/part.go", I+"arwenpart/part.go"], [("messageCreators", I+"common/messagesFactory.go"), ("Repliers", I+"nodepart/part.go")], [], ["dialogue between node and Arwen"])
p("I02", "The VM process sees the blockchain exactly as the node does",
  "Each question the VM asks the blockchain from its own process is forwarded with all its arguments to the same question on the node's side, and all parts of the answer, the error included, come back unchanged in their own place. A communication failure or an answer to another question is never taken for an answer.",
  ["inputs", "fault_sequences"], "for every blockchain question, argument, answer and failure",
  "Thirty hand-written forwarding functions on each side; tests exercise two of them.",
  [I+"arwenpart/blockchainGateway.go", I+"nodepart/blockchainRepliers.go", I+"common/messagesBlockchain.go"], [("BlockchainHookGateway", I+"arwenpart/blockchainGateway.go"), ("NodePart.reply*", I+"nodepart/blockchainRepliers.go")], [], ["values returned by the gateway"])
p("I03", "Inputs, outputs and accounts survive the trip between processes",
  "Converting an execution result or an account to the form that is sent between the processes and back loses nothing: every part of the original is carried over in each direction and into its own place, whatever bytes it holds.",
  ["inputs"], "for every result, account, transfer, log and storage change",
  "Tests convert one small result; a field that was forgotten or swapped shows only for results that use it.",
  [I+"common/serializableVMOutput.go", I+"common/messagesBlockchain.go"], [("NewSerializableVMOutput/ConvertToVMOutput", I+"common/serializableVMOutput.go")], [], ["VMOutput in the node process"])
p("I04", "A communication failure ends the dialogue, and a stale message is never accepted",
  "Every operation of the node's VM driver first makes sure the VM process runs, and if the dialogue fails in any way the process is closed and the error is reported as critical. A message whose number does not continue the dialogue is rejected, and a dialogue that lasts too long is ended with an error.",
  ["fault_sequences", "histories"], "for every failure of the pipe, the process or the dialogue at any point",
  "Needs faults at particular points of the dialogue; the tests' processes do not fail.",
  [I+"nodepart/arwenDriver.go", I+"nodepart/part.go", I+"common/messenger.go"], [("RestartArwenIfNecessary", I+"nodepart/arwenDriver.go"), ("Receive nonce check", I+"common/messenger.go")], [], ["error returned by the driver"])
p("M01", "A scenario survives being read and written",
  "Everything the scenario format lets an author write is kept when a scenario is parsed and written again: each part of the format that is read is also written, under the same name and from the place it was read into. Reading the written scenario gives the same scenario.",
  ["inputs"], "for every scenario file",
  "Tests convert a few files; a forgotten or swapped field shows only for files that use it.",
  [M+"parse", M+"write", M+"model"], [("ScenarioParser", M+"parse"), ("ScenarioToOrderedJSON", M+"write")], [], ["written JSON"])
p("M02", "Every expectation written in a scenario is checked",
  "Each expectation an author can state about a transaction's result or about the state of accounts is compared with what really happened, and a difference fails the scenario. No stated expectation is silently ignored.",
  ["inputs"], "for every expectation in every scenario",
  "An expectation that is not compared makes tests pass; only looking at each of them reveals it.",
  ["arwenmandos/stepCheckAccounts.go", "arwenmandos/stepCheckTxResult.go", M+"model"], [("checkAccounts", "arwenmandos/stepCheckAccounts.go"), ("checkTxResults", "arwenmandos/stepCheckTxResult.go")], [], ["result of running a scenario"])
p("M03", "A failed scenario transaction leaves no state behind",
  "When executing a transaction of a scenario fails in any way - before, during or after the contract ran - the accounts' storage is put back to what it was before it; only a transaction that completed without error is committed. Every transaction ends in exactly one of the two.",
  ["inputs", "fault_sequences"], "for every way a scenario transaction can fail",
  "The failure must occur at a particular stage of the transaction; tests fail inside the contract only.",
  ["arwenmandos/stepRunTx.go", "mock/world/worldUpdate.go"], [("executeTx", "arwenmandos/stepRunTx.go"), ("RollbackChanges/CommitChanges", "mock/world/worldUpdate.go")], [], ["world state after a failed step"])
p("M04", "Unknown parts of a scenario are rejected",
  "A scenario file that contains a field, step or value the format does not define at that place is rejected with an error instead of being read as if it were not there, and every error found while reading any part of a file is reported. A typing mistake in a scenario can therefore not switch off a check.",
  ["inputs"], "for every place of the format where names are read",
  "Every object of the format has its own list of names; tests misspell none.",
  [M+"parse"], [("field switches", M+"parse")], [], ["error of the parser"])
p("M05", "Values are written in a form that reads back as the same value",
  "Whatever notation the scenario tools use to write a value (addresses, numbers, texts, raw bytes) is one that the reader of scenarios interprets, with the same prefix and with well-formed digits.",
  ["inputs"], "for every value and kind of value",
  "Only particular values (small shard numbers, special bytes) take the differing route.",
  ["mandos-go/expression/interpreter/interpreter.go", "mandos-go/expression/reconstructor/reconstructor.go"], [("InterpretString", "mandos-go/expression/interpreter/interpreter.go"), ("Reconstruct", "mandos-go/expression/reconstructor/reconstructor.go")], [], ["written expression"])
p("W01", "A snapshot of the simulated blockchain is complete and independent",
  "A snapshot of the simulated blockchain contains every part of every account, in storage of its own: changing an account later never changes a snapshot taken before. Returning to a snapshot and clearing the world leave nothing behind of what they discard.",
  ["histories"], "for every sequence of changes, snapshots and returns",
  "A shared or forgotten part only shows when that part is changed between snapshot and return.",
  ["mock/world/worldAccount.go", "mock/world/worldAccountMap.go", "mock/world/worldAccountsAdapter.go", "mock/world/worldDef.go"], [("Account.Clone", "mock/world/worldAccount.go")], [], ["accounts after a rollback"])
p("N01", "Gas adds up",
  "For every execution the gas used by all contracts together plus the gas that remains, is refunded, locked or forwarded equals the gas provided.",
  ["inputs", "programs", "histories"], "for every execution", "The sum is over every account and nested call of an execution; tests check a few totals.",
  [C+"metering.go"], [("UpdateGasStateOnSuccess", C+"metering.go")], [], ["GasUsed", "GasRemaining"])
p("N02", "WebAssembly code runs as the standard says and every instruction is metered",
  "The execution engine executes every instruction with the standard's meaning, charges it before executing it and keeps every memory access inside the contract's memory.",
  ["programs"], "for every contract", "The engine runs arbitrary programs; tests run a few.",
  ["wasmer/"], [("NewInstanceWithOptions", "wasmer/instance.go")], [], ["results of contracts"])
p("N04", "The two processes always make progress",
  "Whatever the VM process does, an operation of the node ends within the configured time and the next operation can be served.",
  ["schedules", "fault_sequences"], "for every delay and failure", "Depends on timing and on the operating system.",
  [I+"nodepart/arwenDriver.go", I+"common/messenger.go"], [("ReceiveHookCallResponse loop", I+"nodepart/part.go")], [], ["duration of driver operations"])
