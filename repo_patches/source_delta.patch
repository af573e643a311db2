From 5d058f15a9af47e3cb1421700c568955360ab3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:56 +0000
Subject: [PATCH 01/54] fix: keep PrevTxHash when the VM input is copied into
 the runtime context

SetVMInput copies every member of the input except PrevTxHash, so contracts and
nested calls always saw an empty previous transaction hash.
---
 arwen/contexts/runtime.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arwen/contexts/runtime.go b/arwen/contexts/runtime.go
index 1ba0bcd..c030285 100644
--- a/arwen/contexts/runtime.go
+++ b/arwen/contexts/runtime.go
@@ -474,6 +474,11 @@ func (context *runtimeContext) SetVMInput(vmInput *vmcommon.VMInput) {
 		copy(context.vmInput.CurrentTxHash, vmInput.CurrentTxHash)
 	}
 
+	if len(vmInput.PrevTxHash) > 0 {
+		context.vmInput.PrevTxHash = make([]byte, len(vmInput.PrevTxHash))
+		copy(context.vmInput.PrevTxHash, vmInput.PrevTxHash)
+	}
+
 	if len(vmInput.Arguments) > 0 {
 		context.vmInput.Arguments = make([][]byte, len(vmInput.Arguments))
 		for i, arg := range vmInput.Arguments {
-- 
2.43.0


From 2d472b5437e5bfb81050beb509b1be054e5e081b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:17 +0000
Subject: [PATCH 02/54] fix: give the caller its code size back after a nested
 call

The gas locked for a callback is computed from the size of the calling contract's
code. After a nested call it was computed from the size of the called contract's.
---
 arwen/contexts/runtime.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arwen/contexts/runtime.go b/arwen/contexts/runtime.go
index c030285..5826504 100644
--- a/arwen/contexts/runtime.go
+++ b/arwen/contexts/runtime.go
@@ -323,6 +323,7 @@ func (context *runtimeContext) SetCustomCallFunction(callFunction string) {
 func (context *runtimeContext) PushState() {
 	newState := &runtimeContext{
 		scAddress:        context.scAddress,
+		codeSize:         context.codeSize,
 		callFunction:     context.callFunction,
 		readOnly:         context.readOnly,
 		asyncCallInfo:    context.asyncCallInfo,
@@ -352,6 +353,7 @@ func (context *runtimeContext) PopSetActiveState() {
 
 	context.SetVMInput(prevState.vmInput)
 	context.scAddress = prevState.scAddress
+	context.codeSize = prevState.codeSize
 	context.callFunction = prevState.callFunction
 	context.readOnly = prevState.readOnly
 	context.asyncCallInfo = prevState.asyncCallInfo
-- 
2.43.0


From b50162dd11d04b577698a99cd2cee0a813513441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:56 +0000
Subject: [PATCH 03/54] fix: clear the saved states of the blockchain context
 as well

---
 arwen/host/arwen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arwen/host/arwen.go b/arwen/host/arwen.go
index 782c41d..878eb18 100644
--- a/arwen/host/arwen.go
+++ b/arwen/host/arwen.go
@@ -281,6 +281,7 @@ func (host *vmHost) initContexts() {
 // ClearContextStateStack cleans the state stacks of all the contexts of the host
 func (host *vmHost) ClearContextStateStack() {
 	host.bigIntContext.ClearStateStack()
+	host.blockchainContext.ClearStateStack()
 	host.outputContext.ClearStateStack()
 	host.meteringContext.ClearStateStack()
 	host.runtimeContext.ClearStateStack()
-- 
2.43.0


From 5a17522f92975488df7e149eabd333f699490be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:05 +0000
Subject: [PATCH 04/54] fix: do not keep a gas schedule that was rejected

---
 arwen/host/arwen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arwen/host/arwen.go b/arwen/host/arwen.go
index 878eb18..ab68177 100644
--- a/arwen/host/arwen.go
+++ b/arwen/host/arwen.go
@@ -306,13 +306,14 @@ func (host *vmHost) GasScheduleChange(newGasSchedule config.GasScheduleMap) {
 	host.mutExecution.Lock()
 	defer host.mutExecution.Unlock()
 
-	host.gasSchedule = newGasSchedule
 	gasCostConfig, err := config.CreateGasConfig(newGasSchedule)
 	if err != nil {
 		log.Error("cannot apply new gas config remained with old one")
 		return
 	}
 
+	host.gasSchedule = newGasSchedule
+
 	opcodeCosts := gasCostConfig.WASMOpcodeCost.ToOpcodeCostsArray()
 	wasmer.SetOpcodeCosts(&opcodeCosts)
 
-- 
2.43.0


From f55be1d681ffb5a0d4b1dd5c97bdad3d5b16a0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:58 +0000
Subject: [PATCH 05/54] fix: charge for writeEventLog before reading contract
 memory

---
 arwen/elrondapi/elrondei.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index f4ee745..fd1343d 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -2033,6 +2033,9 @@ func v1_3_writeEventLog(
 	output := arwen.GetOutputContext(context)
 	metering := arwen.GetMeteringContext(context)
 
+	gasToUse := metering.GasSchedule().ElrondAPICost.Log
+	metering.UseGas(gasToUse)
+
 	topics, topicDataTotalLen, err := getArgumentsFromMemory(
 		host,
 		numTopics,
@@ -2048,11 +2051,9 @@ func v1_3_writeEventLog(
 		return
 	}
 
-	gasToUse := metering.GasSchedule().ElrondAPICost.Log
-	gasForData := math.MulUint64(
+	gasToUse = math.MulUint64(
 		metering.GasSchedule().BaseOperationCost.DataCopyPerByte,
 		uint64(topicDataTotalLen+dataLength))
-	gasToUse = math.AddUint64(gasToUse, gasForData)
 	metering.UseGas(gasToUse)
 
 	output.WriteLog(runtime.GetSCAddress(), topics, data)
-- 
2.43.0


From 920efc3c4ada16106cb7fadd526e90200b5e7b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:47 +0000
Subject: [PATCH 06/54] fix: reject negative argument and result numbers in
 host functions

---
 arwen/elrondapi/bigIntOps.go | 4 ++--
 arwen/elrondapi/elrondei.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/arwen/elrondapi/bigIntOps.go b/arwen/elrondapi/bigIntOps.go
index 1f8cabd..7ac77d0 100644
--- a/arwen/elrondapi/bigIntOps.go
+++ b/arwen/elrondapi/bigIntOps.go
@@ -274,7 +274,7 @@ func v1_3_bigIntGetUnsignedArgument(context unsafe.Pointer, id int32, destinatio
 	metering.UseGas(gasToUse)
 
 	args := runtime.Arguments()
-	if int32(len(args)) <= id {
+	if id < 0 || id >= int32(len(args)) {
 		return
 	}
 
@@ -293,7 +293,7 @@ func v1_3_bigIntGetSignedArgument(context unsafe.Pointer, id int32, destination
 	metering.UseGas(gasToUse)
 
 	args := runtime.Arguments()
-	if int32(len(args)) <= id {
+	if id < 0 || id >= int32(len(args)) {
 		return
 	}
 
diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index fd1343d..bff9610 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -2896,7 +2896,7 @@ func v1_3_getReturnDataSize(context unsafe.Pointer, resultID int32) int32 {
 	metering.UseGas(gasToUse)
 
 	returnData := output.ReturnData()
-	if resultID >= int32(len(returnData)) {
+	if resultID < 0 || resultID >= int32(len(returnData)) {
 		return 0
 	}
 
@@ -2913,7 +2913,7 @@ func v1_3_getReturnData(context unsafe.Pointer, resultID int32, dataOffset int32
 	metering.UseGas(gasToUse)
 
 	returnData := output.ReturnData()
-	if resultID >= int32(len(returnData)) {
+	if resultID < 0 || resultID >= int32(len(returnData)) {
 		return 0
 	}
 
-- 
2.43.0


From 0411547723b6e29ead67dd2b49abd3c5165226f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:08 +0000
Subject: [PATCH 07/54] fix: do not let the size of the argument lengths wrap
 around

---
 arwen/elrondapi/elrondei.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index bff9610..b1edc04 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -2970,6 +2970,9 @@ func prepareIndirectContractCallInput(
 	return contractCallInput, nil
 }
 
+// maxNumArguments is the largest number of arguments whose lengths (4 bytes each) can be addressed in memory
+const maxNumArguments = (1<<31 - 1) / 4
+
 func getArgumentsFromMemory(
 	host arwen.VMHost,
 	numArguments int32,
@@ -2981,6 +2984,9 @@ func getArgumentsFromMemory(
 	if numArguments < 0 {
 		return nil, 0, fmt.Errorf("negative numArguments (%d)", numArguments)
 	}
+	if numArguments > maxNumArguments {
+		return nil, 0, fmt.Errorf("too many arguments (%d)", numArguments)
+	}
 
 	argumentsLengthData, err := runtime.MemLoad(argumentsLengthOffset, numArguments*4)
 	if err != nil {
@@ -2995,7 +3001,7 @@ func getArgumentsFromMemory(
 
 	totalArgumentBytes := int32(0)
 	for _, length := range argumentLengths {
-		totalArgumentBytes += length
+		totalArgumentBytes = math.AddInt32(totalArgumentBytes, length)
 	}
 
 	return data, totalArgumentBytes, nil
-- 
2.43.0


From 07b41ecec0dbeb1bdc2690693ea61b61faa3fc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:10 +0000
Subject: [PATCH 08/54] fix: fail indirect calls whose arguments cannot be read
 from memory

---
 arwen/elrondapi/elrondei.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index b1edc04..c668feb 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -919,6 +919,9 @@ func extractIndirectContractCallArguments(
 		argumentsLengthOffset,
 		dataOffset,
 	)
+	if err != nil {
+		return nil, err
+	}
 
 	gasToUse := math.MulUint64(metering.GasSchedule().BaseOperationCost.DataCopyPerByte, uint64(actualLen))
 	metering.UseGas(gasToUse)
-- 
2.43.0


From e6fa33432ddbc4c481db7356bc961f9ccfd1c412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:18 +0000
Subject: [PATCH 09/54] fix: compute the length of log data without wrapping
 around

---
 arwen/elrondapi/elrondei.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index c668feb..7398d3d 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -1998,7 +1998,8 @@ func v1_3_writeLog(context unsafe.Pointer, dataPointer int32, dataLength int32,
 	metering := arwen.GetMeteringContext(context)
 
 	gasToUse := metering.GasSchedule().ElrondAPICost.Log
-	gas := math.MulUint64(metering.GasSchedule().BaseOperationCost.PersistPerByte, uint64(numTopics*arwen.HashLen+dataLength))
+	logLength := math.AddUint64(math.MulUint64(uint64(numTopics), arwen.HashLen), uint64(dataLength))
+	gas := math.MulUint64(metering.GasSchedule().BaseOperationCost.PersistPerByte, logLength)
 	gasToUse = math.AddUint64(gasToUse, gas)
 	metering.UseGas(gasToUse)
 
@@ -2056,7 +2057,7 @@ func v1_3_writeEventLog(
 
 	gasToUse = math.MulUint64(
 		metering.GasSchedule().BaseOperationCost.DataCopyPerByte,
-		uint64(topicDataTotalLen+dataLength))
+		math.AddUint64(uint64(topicDataTotalLen), uint64(dataLength)))
 	metering.UseGas(gasToUse)
 
 	output.WriteLog(runtime.GetSCAddress(), topics, data)
-- 
2.43.0


From 494eac48b0775fd3de358c8b670d2005b0d01ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:19 +0000
Subject: [PATCH 10/54] fix: add gas amounts without wrapping around

---
 arwen/contexts/metering.go | 2 +-
 arwen/host/asyncCall.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/arwen/contexts/metering.go b/arwen/contexts/metering.go
index 2e6863d..d7112db 100644
--- a/arwen/contexts/metering.go
+++ b/arwen/contexts/metering.go
@@ -135,7 +135,7 @@ func (context *meteringContext) cloneGasUsedByAccounts() map[string]uint64 {
 
 func (context *meteringContext) addToGasUsedByAccounts(gasUsed map[string]uint64) {
 	for address, gas := range gasUsed {
-		context.gasUsedByAccounts[address] += gas
+		context.gasUsedByAccounts[address] = math.AddUint64(context.gasUsedByAccounts[address], gas)
 	}
 }
 
diff --git a/arwen/host/asyncCall.go b/arwen/host/asyncCall.go
index b0586ed..06d3d0f 100644
--- a/arwen/host/asyncCall.go
+++ b/arwen/host/asyncCall.go
@@ -376,7 +376,7 @@ func (host *vmHost) createCallbackContractCallInput(
 		returnWithError = true
 	}
 
-	gasLimit := destinationVMOutput.GasRemaining + asyncCallInfo.GetGasLocked()
+	gasLimit := math.AddUint64(destinationVMOutput.GasRemaining, asyncCallInfo.GetGasLocked())
 	dataLength := host.computeDataLengthFromArguments(callbackFunction, arguments)
 
 	gasToUse := gasSchedule.ElrondAPICost.AsyncCallStep
-- 
2.43.0


From 1a3a17119336ecad063fec0ace3c55ad07c07bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:48 +0000
Subject: [PATCH 11/54] fix: keep gas refunds above the largest signed number
 positive

---
 arwen/contexts/output.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arwen/contexts/output.go b/arwen/contexts/output.go
index 4c06e4a..c3d11e6 100644
--- a/arwen/contexts/output.go
+++ b/arwen/contexts/output.go
@@ -161,12 +161,12 @@ func (context *outputContext) DeleteOutputAccount(address []byte) {
 
 // GetRefund returns the value of the gas refund for the current output state.
 func (context *outputContext) GetRefund() uint64 {
-	return uint64(context.outputState.GasRefund.Int64())
+	return context.outputState.GasRefund.Uint64()
 }
 
 // SetRefund sets the given value as gas refund for the current output state.
 func (context *outputContext) SetRefund(refund uint64) {
-	context.outputState.GasRefund = big.NewInt(int64(refund))
+	context.outputState.GasRefund = big.NewInt(0).SetUint64(refund)
 }
 
 // ReturnData returns the data of the current output state.
-- 
2.43.0


From 5c0fcb7e84f5fde8828b863208dbce9d5b32f4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:51 +0000
Subject: [PATCH 12/54] fix: fail getCurrentESDTNFTNonce when its arguments
 cannot be read

---
 arwen/elrondapi/elrondei.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 7398d3d..a28f133 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -1930,12 +1930,12 @@ func v1_3_getCurrentESDTNFTNonce(context unsafe.Pointer, addressOffset int32, to
 	metering.UseGas(gasToUse)
 
 	destination, err := runtime.MemLoad(addressOffset, arwen.AddressLen)
-	if err != nil {
+	if arwen.WithFault(err, context, runtime.ElrondAPIErrorShouldFailExecution()) {
 		return 0
 	}
 
 	tokenID, err := runtime.MemLoad(tokenIDOffset, tokenIDLen)
-	if err != nil {
+	if arwen.WithFault(err, context, runtime.ElrondAPIErrorShouldFailExecution()) {
 		return 0
 	}
 
-- 
2.43.0


From fcb38847786a2d828efab4bbeb8d6ddf5d4ecef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:51 +0000
Subject: [PATCH 13/54] fix: do not go on when the asynchronous call of an
 upgrade could not be made

---
 arwen/elrondapi/elrondei.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index a28f133..113de47 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -1540,6 +1540,13 @@ func upgradeContract(
 		value,
 	)
 	logEEI.Trace("upgradeContract", "error", err)
+	if errors.Is(err, arwen.ErrNotEnoughGas) {
+		runtime.SetRuntimeBreakpointValue(arwen.BreakpointOutOfGas)
+		return
+	}
+	if arwen.WithFaultAndHost(host, err, runtime.ElrondAPIErrorShouldFailExecution()) {
+		return
+	}
 }
 
 //export v1_3_asyncCall
-- 
2.43.0


From 7dc3f6c85403e7a225eb64a649cc4505ec9359e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:59 +0000
Subject: [PATCH 14/54] fix: do not execute an asynchronous call whose input
 could not be made

---
 arwen/host/asyncCall.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/arwen/host/asyncCall.go b/arwen/host/asyncCall.go
index 06d3d0f..04311ca 100644
--- a/arwen/host/asyncCall.go
+++ b/arwen/host/asyncCall.go
@@ -522,7 +522,11 @@ func (host *vmHost) processAsyncInfo(asyncInfo *arwen.AsyncContextInfo) (*arwen.
  * processAsyncCall executes an async call and processes the callback if no extra calls are pending
  */
 func (host *vmHost) processAsyncCall(asyncCall *arwen.AsyncGeneratedCall) error {
-	input, _ := host.createDestinationContractCallInput(asyncCall)
+	input, err := host.createDestinationContractCallInput(asyncCall)
+	if err != nil {
+		return err
+	}
+
 	output, asyncMap, executionError := host.ExecuteOnDestContext(input)
 
 	pendingMap := host.getPendingAsyncCalls(asyncMap)
-- 
2.43.0


From f36abc8177b96ba32fb0295ffd6b964e715a0fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:22 +0000
Subject: [PATCH 15/54] fix: do not turn a storage value that could not be read
 into a storage update

---
 arwen/contexts/storage.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/arwen/contexts/storage.go b/arwen/contexts/storage.go
index 72238af..7ae5cc7 100644
--- a/arwen/contexts/storage.go
+++ b/arwen/contexts/storage.go
@@ -160,7 +160,13 @@ func (context *storageContext) getStorageFromAddressUnmetered(address []byte, ke
 	if storageUpdate, ok := storageUpdates[string(key)]; ok {
 		value = storageUpdate.Data
 	} else {
-		value, _ = context.blockChainHook.GetStorageData(address, key)
+		var err error
+		value, err = context.blockChainHook.GetStorageData(address, key)
+		if err != nil {
+			// what could not be read must not become an update
+			return nil
+		}
+
 		storageUpdates[string(key)] = &vmcommon.StorageUpdate{
 			Offset: key,
 			Data:   value,
-- 
2.43.0


From 2ffa6ba3d1d1d94d1fd64bbe0d8519d46a84245d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:31 +0000
Subject: [PATCH 16/54] fix: stay in read-only mode after a nested read-only
 call

---
 arwen/elrondapi/elrondei.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 113de47..9d3bd74 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -2694,9 +2694,10 @@ func ExecuteReadOnlyWithTypedArguments(
 		return 1
 	}
 
+	wasReadOnly := runtime.ReadOnly()
 	runtime.SetReadOnly(true)
 	_, err = host.ExecuteOnSameContext(contractCallInput)
-	runtime.SetReadOnly(false)
+	runtime.SetReadOnly(wasReadOnly)
 	if arwen.WithFaultAndHost(host, err, runtime.ElrondAPIErrorShouldFailExecution()) {
 		return 1
 	}
-- 
2.43.0


From 88ab028144f0a2edbb5d1f3d00168d8f6d77ab28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:37 +0000
Subject: [PATCH 17/54] fix: balance of an account the ledger does not know yet
 includes what it received

---
 arwen/contexts/blockchain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arwen/contexts/blockchain.go b/arwen/contexts/blockchain.go
index 4f18f9f..0ed452e 100644
--- a/arwen/contexts/blockchain.go
+++ b/arwen/contexts/blockchain.go
@@ -74,7 +74,7 @@ func (context *blockchainContext) GetBalanceBigInt(address []byte) *big.Int {
 		if outputAccount.Balance == nil {
 			account, err := context.blockChainHook.GetUserAccount(address)
 			if err != nil || arwen.IfNil(account) {
-				return big.NewInt(0)
+				return big.NewInt(0).Set(outputAccount.BalanceDelta)
 			}
 
 			outputAccount.Balance = account.GetBalance()
-- 
2.43.0


From 1fc502b956ff343e18f2fabc03595c147f125ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 18/54] fix: decode the messages of a gas schedule change as
 what they are

---
 ipc/common/messagesFactory.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ipc/common/messagesFactory.go b/ipc/common/messagesFactory.go
index d9f24dc..b4fa34d 100644
--- a/ipc/common/messagesFactory.go
+++ b/ipc/common/messagesFactory.go
@@ -31,6 +31,8 @@ func init() {
 	messageCreators[DiagnoseWaitResponse] = createMessageDiagnoseWaitResponse
 	messageCreators[VersionRequest] = createMessageVersionRequest
 	messageCreators[VersionResponse] = createMessageVersionResponse
+	messageCreators[GasScheduleChangeRequest] = createMessageGasScheduleChangeRequest
+	messageCreators[GasScheduleChangeResponse] = createMessageGasScheduleChangeResponse
 
 	messageCreators[BlockchainNewAddressRequest] = createMessageBlockchainNewAddressRequest
 	messageCreators[BlockchainNewAddressResponse] = createMessageBlockchainNewAddressResponse
@@ -129,6 +131,14 @@ func createMessageVersionResponse() MessageHandler {
 	return &MessageVersionResponse{}
 }
 
+func createMessageGasScheduleChangeRequest() MessageHandler {
+	return &MessageGasScheduleChangeRequest{}
+}
+
+func createMessageGasScheduleChangeResponse() MessageHandler {
+	return &Message{}
+}
+
 func createUndefinedMessage() MessageHandler {
 	return NewUndefinedMessage()
 }
-- 
2.43.0


From 9873203894f407c9fa6f15284cfc98aeedafc061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 19/54] fix: recognise every question about the blockchain as a
 hook call

---
 ipc/common/messages.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipc/common/messages.go b/ipc/common/messages.go
index 3b128cf..26a2f6e 100644
--- a/ipc/common/messages.go
+++ b/ipc/common/messages.go
@@ -286,7 +286,11 @@ func CreateReplySlots(noopReplier MessageReplier) []MessageReplier {
 // IsHookCall returns whether a message is a hook call
 func IsHookCall(message MessageHandler) bool {
 	kind := message.GetKind()
-	return kind >= BlockchainNewAddressRequest && kind <= BlockchainGetCompiledCodeResponse
+	if kind >= BlockchainNewAddressRequest && kind <= BlockchainGetCompiledCodeResponse {
+		return true
+	}
+
+	return kind >= BlockchainClearCompiledCodesRequest && kind <= BlockchainProcessBuiltInFunctionResponse
 }
 
 // IsStopRequest returns whether a message is a stop request
-- 
2.43.0


From 4c7677bfdb4f19bd31b6dcb6e4ab8dc155c72e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 20/54] fix: keep percent signs in errors passed between the
 processes

---
 ipc/common/messages.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipc/common/messages.go b/ipc/common/messages.go
index 26a2f6e..1dc3431 100644
--- a/ipc/common/messages.go
+++ b/ipc/common/messages.go
@@ -1,6 +1,7 @@
 package common
 
 import (
+	"errors"
 	"fmt"
 	"math"
 )
@@ -209,7 +210,7 @@ func (message *Message) GetError() error {
 		return nil
 	}
 
-	return fmt.Errorf(message.ErrorMessage)
+	return errors.New(message.ErrorMessage)
 }
 
 // SetError sets the error within the message
-- 
2.43.0


From 9c7dbef838b4cc392deb84bfaa2cdcc4ab3fbedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 21/54] fix: name of the built-in function response without a
 stray tab

---
 ipc/common/messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipc/common/messages.go b/ipc/common/messages.go
index 1dc3431..ab128ca 100644
--- a/ipc/common/messages.go
+++ b/ipc/common/messages.go
@@ -160,7 +160,7 @@ func init() {
 	messageKindNameByID[BlockchainRevertToSnapshotRequest] = "BlockchainRevertToSnapshotRequest"
 	messageKindNameByID[BlockchainRevertToSnapshotResponse] = "BlockchainRevertToSnapshotResponse"
 	messageKindNameByID[BlockchainProcessBuiltInFunctionRequest] = "BlockchainProcessBuiltInFunctionRequest"
-	messageKindNameByID[BlockchainProcessBuiltInFunctionResponse] = "BlockchainProcessBuiltInFunctionResponse	"
+	messageKindNameByID[BlockchainProcessBuiltInFunctionResponse] = "BlockchainProcessBuiltInFunctionResponse"
 	messageKindNameByID[UndefinedRequestOrResponse] = "UndefinedRequestOrResponse"
 	messageKindNameByID[LastKind] = "LastKind"
 }
-- 
2.43.0


From 2f29cf689b3732cd0334e16d0b53e64d85e5a53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 22/54] fix: report to the VM that the node could not revert to
 a snapshot

---
 ipc/arwenpart/blockchainGateway.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipc/arwenpart/blockchainGateway.go b/ipc/arwenpart/blockchainGateway.go
index 035dc96..703f7f8 100644
--- a/ipc/arwenpart/blockchainGateway.go
+++ b/ipc/arwenpart/blockchainGateway.go
@@ -504,5 +504,5 @@ func (blockchain *BlockchainHookGateway) RevertToSnapshot(snapshot int) error {
 		return common.ErrBadHookResponseFromNode
 	}
 
-	return err
+	return rawResponse.GetError()
 }
-- 
2.43.0


From cb37cc1c8c34ea79ca2aab693d6c8fbe5a2a698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 23/54] fix: log the error of a gas schedule change

---
 ipc/nodepart/arwenDriver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipc/nodepart/arwenDriver.go b/ipc/nodepart/arwenDriver.go
index 32615d6..b0e1fd6 100644
--- a/ipc/nodepart/arwenDriver.go
+++ b/ipc/nodepart/arwenDriver.go
@@ -259,7 +259,7 @@ func (driver *ArwenDriver) GasScheduleChange(newGasSchedule map[string]map[strin
 	}
 
 	if response.GetError() != nil {
-		log.Error("GasScheduleChange StartLoop response", "error", err)
+		log.Error("GasScheduleChange StartLoop response", "error", response.GetError())
 		_ = driver.Close()
 		return
 	}
-- 
2.43.0


From 62eb70a44c126fef8518a125361198011e06cb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 24/54] fix: treat Arwen as closed when it could not be started

---
 ipc/nodepart/arwenDriver.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ipc/nodepart/arwenDriver.go b/ipc/nodepart/arwenDriver.go
index b0e1fd6..039f464 100644
--- a/ipc/nodepart/arwenDriver.go
+++ b/ipc/nodepart/arwenDriver.go
@@ -202,6 +202,10 @@ func (driver *ArwenDriver) RestartArwenIfNecessary() error {
 
 // IsClosed checks whether the Arwen process is closed
 func (driver *ArwenDriver) IsClosed() bool {
+	if driver.command == nil || driver.command.Process == nil {
+		return true
+	}
+
 	pid := driver.command.Process.Pid
 	process, err := os.FindProcess(pid)
 	if err != nil {
@@ -360,6 +364,10 @@ func (driver *ArwenDriver) Close() error {
 }
 
 func (driver *ArwenDriver) stopArwen() error {
+	if driver.command == nil || driver.command.Process == nil {
+		return nil
+	}
+
 	err := driver.command.Process.Kill()
 	if err != nil {
 		return err
-- 
2.43.0


From 92a945befc5ceacb4501a8bfcd75f193fc9c5cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 25/54] fix: do not wait without a deadline when the time of a
 dialogue is used up exactly

---
 ipc/nodepart/part.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipc/nodepart/part.go b/ipc/nodepart/part.go
index 4d087fb..7921752 100644
--- a/ipc/nodepart/part.go
+++ b/ipc/nodepart/part.go
@@ -104,7 +104,7 @@ func (part *NodePart) doLoop() (common.MessageHandler, error) {
 		}
 
 		remainingMilliseconds -= duration
-		if remainingMilliseconds < 0 {
+		if remainingMilliseconds <= 0 {
 			return nil, common.ErrArwenTimeExpired
 		}
 
-- 
2.43.0


From 407ef810413a412a3e6ab5a8c1ce9b07d092a259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:45 +0000
Subject: [PATCH 26/54] fix: mandos writer: write all expectations about ESDT
 tokens, each under its own name

---
 mandos-go/json/write/writeESDTCheck.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/mandos-go/json/write/writeESDTCheck.go b/mandos-go/json/write/writeESDTCheck.go
index 6ce84de..80d8806 100644
--- a/mandos-go/json/write/writeESDTCheck.go
+++ b/mandos-go/json/write/writeESDTCheck.go
@@ -64,19 +64,19 @@ func appendCheckESDTInstanceToOJ(esdtInstance *mj.CheckESDTInstance, targetOj *o
 	if len(esdtInstance.Balance.Original) > 0 {
 		targetOj.Put("balance", checkBigIntToOJ(esdtInstance.Balance))
 	}
-	if !esdtInstance.Creator.Unspecified && len(esdtInstance.Creator.Value) > 0 {
+	if !esdtInstance.Creator.IsUnspecified() {
 		targetOj.Put("creator", checkBytesToOJ(esdtInstance.Creator))
 	}
-	if !esdtInstance.Royalties.Unspecified && len(esdtInstance.Royalties.Original) > 0 {
+	if !esdtInstance.Royalties.IsUnspecified() {
 		targetOj.Put("royalties", checkUint64ToOJ(esdtInstance.Royalties))
 	}
-	if !esdtInstance.Hash.Unspecified && len(esdtInstance.Hash.Value) > 0 {
+	if !esdtInstance.Hash.IsUnspecified() {
 		targetOj.Put("hash", checkBytesToOJ(esdtInstance.Hash))
 	}
-	if !esdtInstance.Uri.Unspecified && len(esdtInstance.Uri.Value) > 0 {
-		targetOj.Put("uri", checkBytesToOJ(esdtInstance.Creator))
+	if !esdtInstance.Uri.IsUnspecified() {
+		targetOj.Put("uri", checkBytesToOJ(esdtInstance.Uri))
 	}
-	if !esdtInstance.Attributes.Unspecified && len(esdtInstance.Attributes.Value) > 0 {
+	if !esdtInstance.Attributes.IsUnspecified() {
 		targetOj.Put("attributes", checkBytesToOJ(esdtInstance.Attributes))
 	}
 }
@@ -85,7 +85,19 @@ func isCompactCheckESDT(esdtItem *mj.CheckESDTData) bool {
 	if len(esdtItem.Instances) != 1 {
 		return false
 	}
-	if len(esdtItem.Instances[0].Nonce.Original) > 0 {
+	// the compact form requires the fields that are not mentioned to be empty, the long form leaves them unchecked
+	instance := esdtItem.Instances[0]
+	if instance.Nonce.IsUnspecified() || len(instance.Nonce.Original) > 0 {
+		return false
+	}
+	if instance.Creator.Original != nil ||
+		len(instance.Royalties.Original) > 0 ||
+		instance.Hash.Original != nil ||
+		instance.Uri.Original != nil ||
+		instance.Attributes.Original != nil {
+		return false
+	}
+	if len(esdtItem.LastNonce.Original) > 0 {
 		return false
 	}
 	if len(esdtItem.Roles) > 0 {
-- 
2.43.0


From be4e14df60cb134c1e880e73e3029cab7434c840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:11 +0000
Subject: [PATCH 27/54] fix: mandos writer: use the compact form of ESDT data
 only when there is nothing but a balance

---
 mandos-go/json/write/writeESDT.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mandos-go/json/write/writeESDT.go b/mandos-go/json/write/writeESDT.go
index 76c609b..9407847 100644
--- a/mandos-go/json/write/writeESDT.go
+++ b/mandos-go/json/write/writeESDT.go
@@ -96,7 +96,16 @@ func isCompactESDT(esdtItem *mj.ESDTData) bool {
 	if len(esdtItem.Instances) != 1 {
 		return false
 	}
-	if len(esdtItem.Instances[0].Nonce.Original) > 0 {
+	instance := esdtItem.Instances[0]
+	if len(instance.Nonce.Original) > 0 ||
+		len(instance.Creator.Original) > 0 ||
+		len(instance.Royalties.Original) > 0 ||
+		len(instance.Hash.Original) > 0 ||
+		len(instance.Uri.Value) > 0 ||
+		len(instance.Attributes.Original) > 0 {
+		return false
+	}
+	if len(esdtItem.LastNonce.Original) > 0 {
 		return false
 	}
 	if len(esdtItem.Roles) > 0 {
-- 
2.43.0


From 02f7637b32a01edcb2188b1913346a20c3a29b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:11 +0000
Subject: [PATCH 28/54] fix: mandos writer: write the shard of an account

---
 mandos-go/json/write/writeAccount.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mandos-go/json/write/writeAccount.go b/mandos-go/json/write/writeAccount.go
index 3360263..1afa6a4 100644
--- a/mandos-go/json/write/writeAccount.go
+++ b/mandos-go/json/write/writeAccount.go
@@ -13,6 +13,9 @@ func AccountsToOJ(accounts []*mj.Account) oj.OJsonObject {
 		if len(account.Comment) > 0 {
 			acctOJ.Put("comment", stringToOJ(account.Comment))
 		}
+		if len(account.Shard.Original) > 0 {
+			acctOJ.Put("shard", uint64ToOJ(account.Shard))
+		}
 		acctOJ.Put("nonce", uint64ToOJ(account.Nonce))
 		acctOJ.Put("balance", bigIntToOJ(account.Balance))
 		if len(account.ESDTData) > 0 {
-- 
2.43.0


From c809beaf4655625deca5974e8568b9df509d1c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:11 +0000
Subject: [PATCH 29/54] fix: mandos writer: write that more ESDT tokens are
 allowed also when no token is expected

---
 mandos-go/json/write/writeAccount.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandos-go/json/write/writeAccount.go b/mandos-go/json/write/writeAccount.go
index 1afa6a4..1c1a91a 100644
--- a/mandos-go/json/write/writeAccount.go
+++ b/mandos-go/json/write/writeAccount.go
@@ -59,7 +59,7 @@ func checkAccountsToOJ(checkAccounts *mj.CheckAccounts) oj.OJsonObject {
 		if checkAccount.IgnoreESDT {
 			acctOJ.Put("esdt", stringToOJ("*"))
 		} else {
-			if len(checkAccount.CheckESDTData) > 0 {
+			if len(checkAccount.CheckESDTData) > 0 || checkAccount.MoreESDTTokensAllowed {
 				acctOJ.Put("esdt", checkESDTDataToOJ(
 					checkAccount.CheckESDTData, checkAccount.MoreESDTTokensAllowed))
 			}
-- 
2.43.0


From da14331224a9e97317987a0bf17cea1212d7b93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:11 +0000
Subject: [PATCH 30/54] fix: mandos writer: write the nonce, arguments and ESDT
 value of every kind of transaction that has them

---
 mandos-go/json/write/writeScenario.go | 5 ++++-
 mandos-go/json/write/writeTest.go     | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/mandos-go/json/write/writeScenario.go b/mandos-go/json/write/writeScenario.go
index da11b2d..2d16643 100644
--- a/mandos-go/json/write/writeScenario.go
+++ b/mandos-go/json/write/writeScenario.go
@@ -93,6 +93,9 @@ func ScenarioToOrderedJSON(scenario *mj.Scenario) oj.OJsonObject {
 
 func transactionToScenarioOJ(tx *mj.Transaction) oj.OJsonObject {
 	transactionOJ := oj.NewMap()
+	if len(tx.Nonce.Original) > 0 {
+		transactionOJ.Put("nonce", uint64ToOJ(tx.Nonce))
+	}
 	if tx.Type.HasSender() {
 		transactionOJ.Put("from", bytesFromStringToOJ(tx.From))
 	}
@@ -113,7 +116,7 @@ func transactionToScenarioOJ(tx *mj.Transaction) oj.OJsonObject {
 		transactionOJ.Put("contractCode", bytesFromStringToOJ(tx.Code))
 	}
 
-	if tx.Type.HasFunction() || tx.Type == mj.ScDeploy {
+	if tx.Type.HasFunction() || tx.Type == mj.ScDeploy || len(tx.Arguments) > 0 {
 		var argList []oj.OJsonObject
 		for _, arg := range tx.Arguments {
 			argList = append(argList, bytesFromTreeToOJ(arg))
diff --git a/mandos-go/json/write/writeTest.go b/mandos-go/json/write/writeTest.go
index 8d38ccc..dc8d02f 100644
--- a/mandos-go/json/write/writeTest.go
+++ b/mandos-go/json/write/writeTest.go
@@ -49,6 +49,9 @@ func transactionToTestOJ(tx *mj.Transaction) oj.OJsonObject {
 	transactionOJ.Put("function", stringToOJ(tx.Function))
 	transactionOJ.Put("gasLimit", uint64ToOJ(tx.GasLimit))
 	transactionOJ.Put("value", bigIntToOJ(tx.Value))
+	if tx.ESDTValue != nil {
+		transactionOJ.Put("esdt", esdtTxDataToOJ(tx.ESDTValue))
+	}
 	transactionOJ.Put("to", bytesFromStringToOJ(tx.To))
 
 	var argList []oj.OJsonObject
-- 
2.43.0


From ff8bc7de4985313e5a08a0104f51ebafb201ab07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:11 +0000
Subject: [PATCH 31/54] fix: mandos writer: write bytes without an original
 notation in one that reads back as the same bytes

---
 mandos-go/json/write/writeCommon.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/mandos-go/json/write/writeCommon.go b/mandos-go/json/write/writeCommon.go
index 8d0d21c..7db18f9 100644
--- a/mandos-go/json/write/writeCommon.go
+++ b/mandos-go/json/write/writeCommon.go
@@ -120,25 +120,32 @@ func checkBigIntToOJ(i mj.JSONCheckBigInt) oj.OJsonObject {
 
 func bytesFromStringToString(bytes mj.JSONBytesFromString) string {
 	if len(bytes.Original) == 0 && len(bytes.Value) > 0 {
-		bytes.Original = hex.EncodeToString(bytes.Value)
+		bytes.Original = bytesToString(bytes.Value)
 	}
 	return bytes.Original
 }
 
+func bytesToString(value []byte) string {
+	if len(value) == 0 {
+		return ""
+	}
+	return "0x" + hex.EncodeToString(value)
+}
+
 func bytesFromStringToOJ(bytes mj.JSONBytesFromString) oj.OJsonObject {
 	return &oj.OJsonString{Value: bytesFromStringToString(bytes)}
 }
 
 func bytesFromTreeToOJ(bytes mj.JSONBytesFromTree) oj.OJsonObject {
-	if bytes.OriginalEmpty() {
-		bytes.Original = &oj.OJsonString{Value: hex.EncodeToString(bytes.Value)}
+	if bytes.Original == nil || bytes.OriginalEmpty() {
+		bytes.Original = &oj.OJsonString{Value: bytesToString(bytes.Value)}
 	}
 	return bytes.Original
 }
 
 func checkBytesToOJ(checkBytes mj.JSONCheckBytes) oj.OJsonObject {
-	if checkBytes.OriginalEmpty() && len(checkBytes.Value) > 0 {
-		checkBytes.Original = &oj.OJsonString{Value: hex.EncodeToString(checkBytes.Value)}
+	if checkBytes.Original == nil || checkBytes.OriginalEmpty() {
+		checkBytes.Original = &oj.OJsonString{Value: bytesToString(checkBytes.Value)}
 	}
 	return checkBytes.Original
 }
-- 
2.43.0


From ec01972e068fb1b16adc57f10ce95f0ab1f5c261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:26 +0000
Subject: [PATCH 32/54] fix: mandos writer: do not fail on a block without a
 header

---
 mandos-go/json/write/writeTest.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/mandos-go/json/write/writeTest.go b/mandos-go/json/write/writeTest.go
index dc8d02f..04a54b9 100644
--- a/mandos-go/json/write/writeTest.go
+++ b/mandos-go/json/write/writeTest.go
@@ -87,13 +87,15 @@ func blockToOJ(block *mj.Block) oj.OJsonObject {
 	txsOJ := oj.OJsonList(txList)
 	blockOJ.Put("transactions", &txsOJ)
 
-	blockHeaderOJ := oj.NewMap()
-	blockHeaderOJ.Put("gasLimit", bigIntToOJ(block.BlockHeader.GasLimit))
-	blockHeaderOJ.Put("number", bigIntToOJ(block.BlockHeader.Number))
-	blockHeaderOJ.Put("difficulty", bigIntToOJ(block.BlockHeader.Difficulty))
-	blockHeaderOJ.Put("timestamp", uint64ToOJ(block.BlockHeader.Timestamp))
-	blockHeaderOJ.Put("coinbase", bigIntToOJ(block.BlockHeader.Beneficiary))
-	blockOJ.Put("blockHeader", blockHeaderOJ)
+	if block.BlockHeader != nil {
+		blockHeaderOJ := oj.NewMap()
+		blockHeaderOJ.Put("gasLimit", bigIntToOJ(block.BlockHeader.GasLimit))
+		blockHeaderOJ.Put("number", bigIntToOJ(block.BlockHeader.Number))
+		blockHeaderOJ.Put("difficulty", bigIntToOJ(block.BlockHeader.Difficulty))
+		blockHeaderOJ.Put("timestamp", uint64ToOJ(block.BlockHeader.Timestamp))
+		blockHeaderOJ.Put("coinbase", bigIntToOJ(block.BlockHeader.Beneficiary))
+		blockOJ.Put("blockHeader", blockHeaderOJ)
+	}
 
 	return blockOJ
 }
-- 
2.43.0


From cec256363e044fa46aee73487d2bd4d82d4083e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:50 +0000
Subject: [PATCH 33/54] fix: mandos: reject what is neither a comma nor the end
 after an element of a list

---
 mandos-go/orderedjson/ojParse.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mandos-go/orderedjson/ojParse.go b/mandos-go/orderedjson/ojParse.go
index d1d3f49..4ef1e84 100644
--- a/mandos-go/orderedjson/ojParse.go
+++ b/mandos-go/orderedjson/ojParse.go
@@ -122,6 +122,8 @@ func ParseOrderedJSON(input []byte) (OJsonObject, error) {
 						done = false
 					} else if c == ',' {
 						stateStack.push(&jsonParserStateAnyObjPlaceholder{})
+					} else {
+						return nil, errors.New("invalid list state")
 					}
 				}
 			case *jsonParserStateMap:
-- 
2.43.0


From 4d48d1f342b28efb6733520bd75db164656c0b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:50 +0000
Subject: [PATCH 34/54] fix: mandos: reject a map with two entries of the same
 name

---
 mandos-go/orderedjson/ojParse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mandos-go/orderedjson/ojParse.go b/mandos-go/orderedjson/ojParse.go
index 4ef1e84..fb2adcd 100644
--- a/mandos-go/orderedjson/ojParse.go
+++ b/mandos-go/orderedjson/ojParse.go
@@ -182,6 +182,9 @@ func ParseOrderedJSON(input []byte) (OJsonObject, error) {
 					if !isMap {
 						return nil, errors.New("map key value state, but no map state underneath")
 					}
+					if mapState.currentMap.KeySet[key] {
+						return nil, errors.New("duplicate key in map: " + key)
+					}
 					mapState.currentMap.Put(key, pendingResult)
 					pendingResult = nil
 					done = false
-- 
2.43.0


From 0aea2171ea56f4bb0dd0977a54f8d51c211b46b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:26 +0000
Subject: [PATCH 35/54] fix: mandos: roll back a transaction whatever part of
 it failed

---
 arwenmandos/stepRunTx.go | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/arwenmandos/stepRunTx.go b/arwenmandos/stepRunTx.go
index 46a9f0c..dc30240 100644
--- a/arwenmandos/stepRunTx.go
+++ b/arwenmandos/stepRunTx.go
@@ -11,12 +11,11 @@ import (
 	"github.com/ElrondNetwork/elrond-vm-common"
 )
 
-func (ae *ArwenTestExecutor) executeTx(txIndex string, tx *mj.Transaction) (*vmcommon.VMOutput, error) {
+func (ae *ArwenTestExecutor) executeTx(txIndex string, tx *mj.Transaction) (output *vmcommon.VMOutput, err error) {
 	ae.World.CreateStateBackup()
 
-	var err error
 	defer func() {
-		if err != nil {
+		if err != nil || output == nil || output.ReturnCode != vmcommon.Ok {
 			errRollback := ae.World.RollbackChanges()
 			if errRollback != nil {
 				err = errRollback
@@ -53,8 +52,6 @@ func (ae *ArwenTestExecutor) executeTx(txIndex string, tx *mj.Transaction) (*vmc
 	}
 
 	// we also use fake vm outputs for transactions that don't use the VM, just for convenience
-	var output *vmcommon.VMOutput
-
 	if !ae.senderHasEnoughBalance(tx) {
 		// out of funds is handled by the protocol, so it needs to be mocked here
 		output = outOfFundsResult()
@@ -91,14 +88,10 @@ func (ae *ArwenTestExecutor) executeTx(txIndex string, tx *mj.Transaction) (*vmc
 	}
 
 	if output.ReturnCode == vmcommon.Ok {
-		err := ae.updateStateAfterTx(tx, output)
+		err = ae.updateStateAfterTx(tx, output)
 		if err != nil {
 			return nil, err
 		}
-	} else {
-		err = fmt.Errorf(
-			"tx step failed: retcode=%d, msg=%s",
-			output.ReturnCode, output.ReturnMessage)
 	}
 
 	return output, nil
-- 
2.43.0


From 0ee317c4e4b91bb0b3e1a77fef26a785217d6fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:26 +0000
Subject: [PATCH 36/54] fix: mock world: returning to a snapshot removes
 accounts created since then and brings back removed ones

---
 mock/world/worldAccountsAdapter.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mock/world/worldAccountsAdapter.go b/mock/world/worldAccountsAdapter.go
index 28a4920..690a488 100644
--- a/mock/world/worldAccountsAdapter.go
+++ b/mock/world/worldAccountsAdapter.go
@@ -93,6 +93,19 @@ func (m *MockAccountsAdapter) RevertToSnapshot(snapshotIndex int) error {
 	snapshot := m.Snapshots[snapshotIndex]
 	m.Snapshots = m.Snapshots[:snapshotIndex]
 
+	for address := range m.World.AcctMap {
+		_, existed := snapshot[address]
+		if !existed {
+			delete(m.World.AcctMap, address)
+		}
+	}
+	for address, account := range snapshot {
+		_, exists := m.World.AcctMap[address]
+		if !exists {
+			m.World.AcctMap[address] = account
+		}
+	}
+
 	// TODO should probably set BalanceDelta of all accounts to 0 as well?
 	return m.World.AcctMap.LoadAccountStorageFrom(snapshot)
 }
-- 
2.43.0


From b47eca7c3da5f3df5af14d32854fa5ea47895af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:37 +0000
Subject: [PATCH 37/54] fix: mock world: a snapshot that is given out is of the
 current state, also after an earlier one was returned to

---
 mock/world/worldDef.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mock/world/worldDef.go b/mock/world/worldDef.go
index dd0ecc5..411eef0 100644
--- a/mock/world/worldDef.go
+++ b/mock/world/worldDef.go
@@ -125,6 +125,7 @@ func (b *MockWorld) CommunicationIdentifier(destShardID uint32) string {
 
 // GetSnapshot -
 func (b *MockWorld) GetSnapshot() int {
+	b.CreateStateBackup()
 	return b.AccountsAdapter.JournalLen()
 }
 
-- 
2.43.0


From 31cc1fa87fc1bc041dc8bda9474eaf9a8107ba3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 38/54] fix: a transaction step with the expectation before the
 transaction, or without one, is an error, not a crash

---
 mandos-go/json/parse/parseScenario.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mandos-go/json/parse/parseScenario.go b/mandos-go/json/parse/parseScenario.go
index 36a5901..877896c 100644
--- a/mandos-go/json/parse/parseScenario.go
+++ b/mandos-go/json/parse/parseScenario.go
@@ -260,8 +260,8 @@ func (p *Parser) parseTxStep(txType mj.TransactionType, stepMap *oj.OJsonMap) (*
 				return nil, fmt.Errorf("cannot parse tx step transaction: %w", err)
 			}
 		case "expect":
-			if !step.Tx.Type.IsSmartContractTx() {
-				return nil, fmt.Errorf("no expected result allowed for step of type %s", step.StepTypeName())
+			if !txType.IsSmartContractTx() {
+				return nil, errors.New("no expected result allowed for a step that is not a smart contract transaction")
 			}
 			step.ExpectedResult, err = p.processTxExpectedResult(kvp.Value)
 			if err != nil {
@@ -271,5 +271,8 @@ func (p *Parser) parseTxStep(txType mj.TransactionType, stepMap *oj.OJsonMap) (*
 			return nil, fmt.Errorf("invalid tx step field: %s", kvp.Key)
 		}
 	}
+	if step.Tx == nil {
+		return nil, errors.New("tx step without a transaction")
+	}
 	return step, nil
 }
-- 
2.43.0


From b87df07241fecd542f429bc5919d5e7728fa9980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 39/54] fix: check the owner a scenario expects an account to
 have

---
 arwenmandos/stepCheckAccounts.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/arwenmandos/stepCheckAccounts.go b/arwenmandos/stepCheckAccounts.go
index b637ecd..ba32113 100644
--- a/arwenmandos/stepCheckAccounts.go
+++ b/arwenmandos/stepCheckAccounts.go
@@ -82,6 +82,17 @@ func (ae *ArwenTestExecutor) checkAccounts(checkAccounts *mj.CheckAccounts) erro
 					er.CodeHint))
 		}
 
+		// like asyncCallData, the owner is only checked if specified in the json
+		if !expectedAcct.Owner.IsUnspecified() &&
+			!expectedAcct.Owner.Check(matchingAcct.OwnerAddress) {
+			return fmt.Errorf("bad account owner. Account: %s. Want: %s. Have: \"%s\"",
+				expectedAcct.Address.Original,
+				oj.JSONString(expectedAcct.Owner.Original),
+				ae.exprReconstructor.Reconstruct(
+					matchingAcct.OwnerAddress,
+					er.AddressHint))
+		}
+
 		// currently ignoring asyncCallData that is unspecified in the json
 		if !expectedAcct.AsyncCallData.IsUnspecified() &&
 			!expectedAcct.AsyncCallData.Check([]byte(matchingAcct.AsyncCallData)) {
-- 
2.43.0


From d8b470585893221ae5d761a8a9e836bd605c5265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 40/54] fix: allow the additional tokens that a scenario says
 are allowed

---
 arwenmandos/stepCheckAccounts.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arwenmandos/stepCheckAccounts.go b/arwenmandos/stepCheckAccounts.go
index ba32113..9ade0d3 100644
--- a/arwenmandos/stepCheckAccounts.go
+++ b/arwenmandos/stepCheckAccounts.go
@@ -191,6 +191,10 @@ func (ae *ArwenTestExecutor) checkAccountESDT(expectedAcct *mj.CheckAccount, mat
 	for tokenName := range allTokenNames {
 		expectedToken := expectedTokens[tokenName]
 		accountToken := accountTokens[tokenName]
+		if expectedToken == nil && expectedAcct.MoreESDTTokensAllowed {
+			// if `"+": ""` was written in the test, any unspecified tokens are allowed
+			continue
+		}
 		if expectedToken == nil {
 			expectedToken = &mj.CheckESDTData{
 				TokenIdentifier: mj.JSONBytesFromString{
-- 
2.43.0


From 0ce37c4be2f0e0763be6717bd568ccbbc90ae361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 41/54] fix: executing a step of unknown type is an error

---
 arwenmandos/execScenario.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arwenmandos/execScenario.go b/arwenmandos/execScenario.go
index ef118d9..6b120a6 100644
--- a/arwenmandos/execScenario.go
+++ b/arwenmandos/execScenario.go
@@ -1,6 +1,8 @@
 package arwenmandos
 
 import (
+	"fmt"
+
 	mc "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/controller"
 	fr "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/fileresolver"
 	mj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/model"
@@ -50,6 +52,8 @@ func (ae *ArwenTestExecutor) ExecuteStep(generalStep mj.Step) error {
 		_, err = ae.ExecuteTxStep(step)
 	case *mj.DumpStateStep:
 		err = ae.DumpWorld()
+	default:
+		err = fmt.Errorf("unknown step type: %T", generalStep)
 	}
 
 	return err
-- 
2.43.0


From e1eb8c64769f8158b8800b4557c946b49c21632f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 42/54] fix: external steps do not switch off the gas
 expectations of the scenario that contains them

---
 arwenmandos/execScenario.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arwenmandos/execScenario.go b/arwenmandos/execScenario.go
index 6b120a6..8dfbb62 100644
--- a/arwenmandos/execScenario.go
+++ b/arwenmandos/execScenario.go
@@ -67,6 +67,12 @@ func (ae *ArwenTestExecutor) ExecuteExternalStep(step *mj.ExternalStepsStep) err
 	}
 
 	fileResolverBackup := ae.fileResolver
+	checkGasBackup := ae.checkGas
+	defer func() {
+		ae.fileResolver = fileResolverBackup
+		ae.checkGas = checkGasBackup
+	}()
+
 	clonedFileResolver := ae.fileResolver.Clone()
 	externalStepsRunner := mc.NewScenarioRunner(ae, clonedFileResolver)
 
@@ -76,8 +82,6 @@ func (ae *ArwenTestExecutor) ExecuteExternalStep(step *mj.ExternalStepsStep) err
 		return err
 	}
 
-	ae.fileResolver = fileResolverBackup
-
 	return nil
 }
 
-- 
2.43.0


From 5eb13cd5c6a270f195b65dfff09f6296bcc7cb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 43/54] fix: a part of an account that is expected twice is an
 error, one of the expectations would be ignored

---
 arwenmandos/stepCheckAccounts.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/arwenmandos/stepCheckAccounts.go b/arwenmandos/stepCheckAccounts.go
index 9ade0d3..ac2b31d 100644
--- a/arwenmandos/stepCheckAccounts.go
+++ b/arwenmandos/stepCheckAccounts.go
@@ -123,6 +123,11 @@ func (ae *ArwenTestExecutor) checkAccountStorage(expectedAcct *mj.CheckAccount,
 
 	expectedStorage := make(map[string]mj.JSONCheckBytes)
 	for _, stkvp := range expectedAcct.CheckStorage {
+		if _, isDuplicate := expectedStorage[string(stkvp.Key.Value)]; isDuplicate {
+			return fmt.Errorf("storage key expected twice. Account: %s. Key: %s",
+				expectedAcct.Address.Original,
+				stkvp.Key.Original)
+		}
 		expectedStorage[string(stkvp.Key.Value)] = stkvp.CheckValue
 	}
 
@@ -174,7 +179,10 @@ func (ae *ArwenTestExecutor) checkAccountESDT(expectedAcct *mj.CheckAccount, mat
 	}
 
 	accountAddress := expectedAcct.Address.Original
-	expectedTokens := getExpectedTokens(expectedAcct)
+	expectedTokens, err := getExpectedTokens(expectedAcct)
+	if err != nil {
+		return err
+	}
 	accountTokens, err := matchingAcct.GetFullMockESDTData()
 	if err != nil {
 		return err
@@ -225,14 +233,19 @@ func (ae *ArwenTestExecutor) checkAccountESDT(expectedAcct *mj.CheckAccount, mat
 	return nil
 }
 
-func getExpectedTokens(expectedAcct *mj.CheckAccount) map[string]*mj.CheckESDTData {
+func getExpectedTokens(expectedAcct *mj.CheckAccount) (map[string]*mj.CheckESDTData, error) {
 	expectedTokens := make(map[string]*mj.CheckESDTData)
 	for _, expectedTokenData := range expectedAcct.CheckESDTData {
 		tokenName := expectedTokenData.TokenIdentifier.Value
+		if _, isDuplicate := expectedTokens[string(tokenName)]; isDuplicate {
+			return nil, fmt.Errorf("ESDT token expected twice. Account: %s. Token: %s",
+				expectedAcct.Address.Original,
+				expectedTokenData.TokenIdentifier.Original)
+		}
 		expectedTokens[string(tokenName)] = expectedTokenData
 	}
 
-	return expectedTokens
+	return expectedTokens, nil
 }
 
 func (ae *ArwenTestExecutor) checkTokenState(
@@ -272,6 +285,9 @@ func (ae *ArwenTestExecutor) checkTokenInstances(
 	for _, expectedInstance := range expectedToken.Instances {
 		nonce := expectedInstance.Nonce.Value
 		allNonces[nonce] = true
+		if _, isDuplicate := expectedInstances[nonce]; isDuplicate {
+			errors = append(errors, fmt.Errorf("for token: %s, nonce: %d: instance expected twice", tokenName, nonce))
+		}
 		expectedInstances[nonce] = expectedInstance
 	}
 	for _, accountInstance := range accountToken.Instances {
-- 
2.43.0


From 90758b7af70290f436834cd0473b502ff6bef486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 44/54] fix: write the shard of a smart contract address with
 two digits

---
 mandos-go/expression/reconstructor/reconstructor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandos-go/expression/reconstructor/reconstructor.go b/mandos-go/expression/reconstructor/reconstructor.go
index eaa52f1..4baca19 100644
--- a/mandos-go/expression/reconstructor/reconstructor.go
+++ b/mandos-go/expression/reconstructor/reconstructor.go
@@ -95,7 +95,7 @@ func addressPretty(value []byte) string {
 			addrStr := string(value[ei.SCAddressNumLeadingZeros:31])
 			addrStr = strings.TrimRight(addrStr, "_")
 			shard_id := value[31]
-			return fmt.Sprintf("sc:%s#%x", addrStr, shard_id)
+			return fmt.Sprintf("sc:%s#%02x", addrStr, shard_id)
 		}
 	}
 
-- 
2.43.0


From 89ab221598529c24a47cf04282ee577cf8d93a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 45/54] fix: write texts and names that contain separators as
 bytes

---
 .../expression/reconstructor/reconstructor.go | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/mandos-go/expression/reconstructor/reconstructor.go b/mandos-go/expression/reconstructor/reconstructor.go
index 4baca19..4b6202e 100644
--- a/mandos-go/expression/reconstructor/reconstructor.go
+++ b/mandos-go/expression/reconstructor/reconstructor.go
@@ -32,6 +32,12 @@ const (
 
 const maxBytesInterpretedAsNumber = 15
 
+// reservedInText contains the characters that cannot be part of a text in a value expression
+const reservedInText = "|\"\\"
+
+// reservedInAddress contains the characters that cannot be part of the name in an address expression
+const reservedInAddress = reservedInText + "#"
+
 // ExprReconstructor is a component that attempts to convert raw bytes to a human-readable format.
 type ExprReconstructor struct{}
 
@@ -40,7 +46,7 @@ func (er *ExprReconstructor) Reconstruct(value []byte, hint ExprReconstructorHin
 	case NumberHint:
 		return fmt.Sprintf("%d", big.NewInt(0).SetBytes(value))
 	case StrHint:
-		return fmt.Sprintf("str:%s", string(value))
+		return strPretty(value)
 	case AddressHint:
 		return addressPretty(value)
 	case CodeHint:
@@ -78,11 +84,23 @@ func unknownByteArrayPretty(bytes []byte) string {
 	return fmt.Sprintf("0x%s (str:%s)", hex.EncodeToString(bytes), strconv.Quote(string(bytes)))
 }
 
+func strPretty(value []byte) string {
+	if bytes.ContainsAny(value, reservedInText) {
+		return fmt.Sprintf("0x%s", hex.EncodeToString(value))
+	}
+	return fmt.Sprintf("str:%s", string(value))
+}
+
 func addressPretty(value []byte) string {
 	if len(value) != 32 {
 		return unknownByteArrayPretty(value)
 	}
 
+	// the name cannot be written as such
+	if bytes.ContainsAny(value[:31], reservedInAddress) {
+		return fmt.Sprintf("0x%s", hex.EncodeToString(value))
+	}
+
 	// smart contract addresses
 	leadingZeros := make([]byte, ei.SCAddressNumLeadingZeros)
 	if bytes.Equal(value[:ei.SCAddressNumLeadingZeros], leadingZeros) {
-- 
2.43.0


From 5ec3961c61c9d5329b1bf3621092ed3ae784ae43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 46/54] fix: reject an expression whose number is missing

---
 mandos-go/expression/interpreter/interpreter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mandos-go/expression/interpreter/interpreter.go b/mandos-go/expression/interpreter/interpreter.go
index 4cc5a55..cef6050 100644
--- a/mandos-go/expression/interpreter/interpreter.go
+++ b/mandos-go/expression/interpreter/interpreter.go
@@ -182,6 +182,10 @@ func (ei *ExprInterpreter) InterpretString(strRaw string) ([]byte, error) {
 
 // targetWidth = 0 means minimum length that can contain the result
 func (ei *ExprInterpreter) interpretNumber(strRaw string, targetWidth int) ([]byte, error) {
+	if len(strRaw) == 0 {
+		return []byte{}, errors.New("missing number")
+	}
+
 	// signed numbers
 	if strRaw[0] == '-' || strRaw[0] == '+' {
 		numberBytes, err := ei.interpretUnsignedNumber(strRaw[1:])
-- 
2.43.0


From b1f2f86f4c86bc9216855bc0e405c9b6a3f154f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:11 +0000
Subject: [PATCH 47/54] fix: give the clone of an account its own address

---
 mock/world/worldAccount.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mock/world/worldAccount.go b/mock/world/worldAccount.go
index 07841db..f60e59c 100644
--- a/mock/world/worldAccount.go
+++ b/mock/world/worldAccount.go
@@ -250,7 +250,7 @@ func (a *Account) DirtyData() map[string][]byte {
 func (a *Account) Clone() *Account {
 	return &Account{
 		Exists:          a.Exists,
-		Address:         a.Address,
+		Address:         cloneBytes(a.Address),
 		Nonce:           a.Nonce,
 		Balance:         big.NewInt(0).Set(a.Balance),
 		BalanceDelta:    big.NewInt(0).Set(a.BalanceDelta),
-- 
2.43.0


From 9efb426af6f6eb8cbb15d7fd87fe6eb1700e7367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:11 +0000
Subject: [PATCH 48/54] fix: clear every part of the simulated blockchain

---
 mock/world/worldDef.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mock/world/worldDef.go b/mock/world/worldDef.go
index 411eef0..c043e87 100644
--- a/mock/world/worldDef.go
+++ b/mock/world/worldDef.go
@@ -78,6 +78,9 @@ func (b *MockWorld) Clear() {
 	b.CurrentBlockInfo = nil
 	b.Blockhashes = nil
 	b.NewAddressMocks = nil
+	b.StateRootHash = nil
+	b.Err = nil
+	b.LastCreatedContractAddress = nil
 	b.CompiledCode = make(map[string][]byte)
 }
 
-- 
2.43.0


From e3c5cf6b039612040f964cdbe90cea39a89871a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 49/54] fix: reject opcode costs that do not fit in 32 bits

They were truncated without notice when the gas schedule was decoded, so that an opcode was charged another
cost than the one in the schedule.
---
 config/gasSchedule.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/config/gasSchedule.go b/config/gasSchedule.go
index 85a434b..a7cfd8d 100644
--- a/config/gasSchedule.go
+++ b/config/gasSchedule.go
@@ -2,6 +2,7 @@ package config
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 
 	"github.com/mitchellh/mapstructure"
@@ -70,6 +71,11 @@ func CreateGasConfig(gasMap GasScheduleMap) (*GasCost, error) {
 		return nil, err
 	}
 
+	err = checkOpcodeCostsFitUint32(gasMap["WASMOpcodeCost"])
+	if err != nil {
+		return nil, err
+	}
+
 	opcodeCosts := &WASMOpcodeCost{}
 	err = mapstructure.Decode(gasMap["WASMOpcodeCost"], opcodeCosts)
 	if err != nil {
@@ -109,6 +115,17 @@ func checkForZeroUint64Fields(arg interface{}) error {
 	return nil
 }
 
+// checkOpcodeCostsFitUint32 rejects opcode costs which would be silently truncated when decoded into WASMOpcodeCost
+func checkOpcodeCostsFitUint32(opcodeCosts map[string]uint64) error {
+	for name, cost := range opcodeCosts {
+		if cost > math.MaxUint32 {
+			return fmt.Errorf("Gas cost for opcode %s is too large: %d", name, cost)
+		}
+	}
+
+	return nil
+}
+
 func MakeGasMap(value, asyncCallbackGasLock uint64) GasScheduleMap {
 	gasMap := make(GasScheduleMap)
 	gasMap = FillGasMap(gasMap, value, asyncCallbackGasLock)
-- 
2.43.0


From 91464be674ec8c837a4675b8600ad1249cd13ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:42 +0000
Subject: [PATCH 50/54] fix: destroy the native instance when its exports
 cannot be read

---
 wasmer/instance.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/wasmer/instance.go b/wasmer/instance.go
index 964f8f9..2700ddc 100644
--- a/wasmer/instance.go
+++ b/wasmer/instance.go
@@ -154,6 +154,11 @@ func NewInstanceWithOptions(
 	}
 
 	instance, err := newInstance(c_instance)
+	if err != nil {
+		cWasmerInstanceDestroy(c_instance)
+		return instance, err
+	}
+
 	if instance != nil && instance.Memory != nil {
 		c_instance_context := cWasmerInstanceContextGet(c_instance)
 		instance.InstanceCtx = IntoInstanceContextDirect(c_instance_context)
@@ -217,6 +222,11 @@ func NewInstanceFromCompiledCodeWithOptions(
 	}
 
 	instance, err := newInstance(c_instance)
+	if err != nil {
+		cWasmerInstanceDestroy(c_instance)
+		return instance, err
+	}
+
 	if instance != nil && instance.Memory != nil {
 		c_instance_context := cWasmerInstanceContextGet(c_instance)
 		instance.InstanceCtx = IntoInstanceContextDirect(c_instance_context)
-- 
2.43.0


From a34618416615e2a2a894f786f1a7a7627150c426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:01 +0000
Subject: [PATCH 51/54] fix: destroy an exported memory before taking the next
 one

---
 wasmer/instance_helpers.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wasmer/instance_helpers.go b/wasmer/instance_helpers.go
index fbf974e..cbfbcfd 100644
--- a/wasmer/instance_helpers.go
+++ b/wasmer/instance_helpers.go
@@ -68,10 +68,13 @@ func retrieveExportedMemory(wasmExports *cWasmerExportsT) (Memory, bool, error)
 			var wasmMemory *cWasmerMemoryT
 
 			if cWasmerExportToMemory(wasmExport, &wasmMemory) != cWasmerOk {
+				memory.Destroy()
+
 				var emptyMemory Memory
 				return emptyMemory, false, NewInstanceError("Failed to extract the exported memory.")
 			}
 
+			memory.Destroy()
 			memory = newMemory(wasmMemory)
 			hasMemory = true
 		}
-- 
2.43.0


From c465ff03c0849d440fe89e30fe938f2901b8b39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:34 +0000
Subject: [PATCH 52/54] fix: a callback sent to another shard takes its gas
 from the contract

---
 arwen/host/asyncCall.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arwen/host/asyncCall.go b/arwen/host/asyncCall.go
index 04311ca..b3c0372 100644
--- a/arwen/host/asyncCall.go
+++ b/arwen/host/asyncCall.go
@@ -285,6 +285,8 @@ func (host *vmHost) sendStorageCallbackToDestination(callerAddress, returnData [
 		return err
 	}
 
+	gasLeft := metering.GasLeft()
+	metering.UseGas(gasLeft)
 	return nil
 }
 
-- 
2.43.0


From 70a4f1535b39a0f5182a9302116b796874c9910d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:20 +0000
Subject: [PATCH 53/54] fix: forget the code size of the previous execution

A contract that makes an asynchronous call while it is deployed locks gas by the
size of its code; as a deployment never reads the code of an account, that was the
size of whichever contract the same VM had executed last.
---
 arwen/contexts/runtime.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arwen/contexts/runtime.go b/arwen/contexts/runtime.go
index 5826504..6f6c295 100644
--- a/arwen/contexts/runtime.go
+++ b/arwen/contexts/runtime.go
@@ -82,6 +82,7 @@ func (context *runtimeContext) InitState() {
 	context.vmInput = &vmcommon.VMInput{}
 	context.scAddress = make([]byte, 0)
 	context.callFunction = ""
+	context.codeSize = 0
 	context.verifyCode = false
 	context.readOnly = false
 	context.asyncCallInfo = nil
-- 
2.43.0


From 73d1d8be8644b84555a12adeae28109cc7725540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:40 +0000
Subject: [PATCH 54/54] fix: hand the whole token name of the call to the
 contract

---
 arwen/elrondapi/elrondei.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 9d3bd74..e222b96 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -1978,7 +1978,7 @@ func v1_3_getCallValueTokenName(context unsafe.Pointer, callValueOffset int32, t
 	esdtTransfer := getFirstESDTTransferIfExist(runtime.GetVMInput())
 
 	if len(esdtTransfer.ESDTTokenName) > 0 {
-		tokenName = make([]byte, 0, len(esdtTransfer.ESDTTokenName))
+		tokenName = make([]byte, len(esdtTransfer.ESDTTokenName))
 		copy(tokenName, esdtTransfer.ESDTTokenName)
 		callValue = esdtTransfer.ESDTValue.Bytes()
 	}
-- 
2.43.0

