package main

// Asynchronous calls keep the caller's gas, value and destination (C21).

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C21", checkC21) }

func checkC21(p *Prog, r *Result) {
	r.Rule = "symbolic terms: what a call registers, sends, executes and hands to its callback is computed, over every answer of the questions on the way, as an expression over what the contract asked for"
	r.Assumptions = []string{
		"the promises interface (createAsyncCall) is not offered to contracts; the processing of its calls is decided for up to two contexts and calls (processAsyncInfo, processAsyncCall, callbackAsync, setupAsyncCallsGas); saving them to storage and what happens when their callbacks come back is not",
	}
	c21Register(p, r)
	c21Lock(p, r)
	c21Mode(p, r)
	c21Break(p, r)
	c21Dest(p, r)
	c21Callback(p, r)
	c21Failed(p, r)
	c21Sent(p, r)
	c21Each(p, r)
	c21Promises(p, r)
}

func except(f func(fn *ssa.Function) bool, names ...string) func(fn *ssa.Function) bool {
	return func(fn *ssa.Function) bool {
		for _, n := range names {
			if fn.Name() == n {
				return false
			}
		}
		return f(fn)
	}
}

// getters of the descriptions of asynchronous calls are looked through
var infoGetters = map[string]string{"GetDestination": "Destination", "GetData": "Data", "GetGasLimit": "GasLimit", "GetGasLocked": "GasLocked", "GetValueBytes": "ValueBytes"}

func asyncTerms(p *Prog, world termWorld, inline func(fn *ssa.Function) bool) *terms {
	t := newTerms(p, world, func(fn *ssa.Function) bool {
		if rv := fn.Signature.Recv(); rv != nil {
			if typeName(rv.Type()) == "AsyncCallInfo" {
				return false
			}
			switch fn.Name() {
			case "Runtime", "Metering", "Output", "Blockchain", "Storage", "BigInt", "Crypto", "GetContexts", "IsArwenV2Enabled", "IsArwenV3Enabled", "IsBuiltinFunctionName", "AreInSameShard", "IsDynamicGasLockingEnabled", "IsAheadOfTimeCompileEnabled", "IsESDTFunctionsEnabled", "HasCallbackMethod", "GetSCCode", "ExecuteOnDestContext", "ExecuteOnSameContext", "computeDataLengthFromArguments":
				return false
			}
		}
		return inline(fn)
	})
	t.call = func(c *CallCtx, name string, args []string, st string) ([]Outcome, bool) {
		if f, ok := infoGetters[name]; ok && len(args) == 1 {
			pl := place(args[0]) + "." + f
			if v := kvGet(st, "m:"+pl); v != "" {
				return []Outcome{{C: st, Res: []Val{t.dec(v)}}}, true
			}
			if v, ok := world[pl]; ok {
				return []Outcome{{C: st, Res: []Val{v}}}, true
			}
			return []Outcome{{C: st, Res: []Val{vtag(pl)}}}, true
		}
		switch name {
		case "WithFaultAndHost", "WithFault":
			// an error makes the contract fail, or is told to it
			if len(args) == 3 {
				for _, a := range args {
					if strings.HasPrefix(a, "err:") {
						return []Outcome{{C: st, Res: []Val{vbool(true)}}}, true
					}
				}
				for _, a := range args[:2] {
					if a == "nil" {
						return []Outcome{{C: st, Res: []Val{vbool(false)}}}, true
					}
				}
			}
		case "GetContexts":
			return []Outcome{{C: st, Res: []Val{vtag("bigint"), vtag("blockchain"), vtag("metering"), vtag("output"), vtag("runtime"), vtag("storage")}}}, true
		}
		return nil, false
	}
	t.moves = func(name string) bool {
		switch name {
		case "UseGas", "UseGasBounded", "RestoreGas", "UseGasForAsyncStep", "ExecuteOnDestContext":
			return true
		}
		return false
	}
	return t
}

// errNil tells whether the last result, an error, is nil.
func errNil(x *Exit) (nilErr, known bool) {
	if len(x.Res) == 0 {
		return false, false
	}
	return x.Res[len(x.Res)-1].isNil()
}

func c21run(p *Prog, r *Result, name string, world termWorld, inline func(fn *ssa.Function) bool, judge func(t *terms, x *Exit) string, names ...string) {
	root := p.fn(name)
	short := name[strings.LastIndex(name, ".")+1:]
	if root == nil {
		r.violate("undecided:"+short, "-", "%s was not found", name)
		return
	}
	r.saw(fname(root))
	t := asyncTerms(p, world, inline)
	seen := map[string]bool{}
	xs := t.explore(root, names...)
	if len(xs) == 0 {
		r.violate("undecided:"+short, p.pos(root.Pos()), "%s never returns", short)
	}
	for _, x := range xs {
		if x.Panic {
			continue
		}
		if msg := judge(t, x); msg != "" {
			if !seen[msg] {
				seen[msg] = true
				what := msg
				if i := strings.Index(msg, ":"); i >= 0 {
					what = msg[:i]
				}
				r.violate(short+":"+strings.ReplaceAll(what, " ", "_"), p.pos(root.Pos()), "%s: %s", short, msg)
			}
		} else {
			r.ok("an exit of " + short)
		}
	}
	t.finish(r)
}

func want(m map[string]string, got func(k string) string) string {
	for _, k := range sortedKeysS(m) {
		ok := false
		g := got(k)
		for _, w := range strings.Split(m[k], " | ") {
			ok = ok || w == g
		}
		if !ok {
			return fmt.Sprintf("%s is not what was asked for: %s instead of %s", k, g, m[k])
		}
	}
	return ""
}

func sortedKeysS(m map[string]string) []string {
	b := map[string]bool{}
	for k := range m {
		b[k] = true
	}
	return sortedKeys(b)
}

func count(tr []string, prefix string) int {
	n := 0
	for _, s := range tr {
		if strings.HasPrefix(s, prefix) {
			n++
		}
	}
	return n
}

// c21Register: asyncCall takes the gas it sets aside and remembers the call as it was asked for.
func c21Register(p *Prog, r *Result) {
	for _, cb := range []bool{false, true} {
		for _, dyn := range []bool{false, true} {
			w := termWorld{"HasCallbackMethod()": vbool(cb), "IsDynamicGasLockingEnabled()": vbool(dyn)}
			lock := cb || !dyn
			c21run(p, r, ctxPkg+".runtimeContext.ExecuteAsyncCall", w, inPkg(ctxPkg), func(t *terms, x *Exit) string {
				tr := trace(x)
				info := kvGet(x.C, "m:ctx.asyncCallInfo")
				brk := count(tr, "SetRuntimeBreakpointValue(#2)") + count(tr, "SetBreakpointValue(ctx.instance,#2)")
				n, known := errNil(x)
				if !known {
					return "the error is not known"
				}
				if !n {
					if brk != 0 {
						return "a refused call still stops the contract as if it had been made"
					}
					return ""
				}
				if kvGet(x.C, "failed") != "" {
					return "a failure is not reported: " + kvGet(x.C, "failed")
				}
				if !strings.HasPrefix(info, "&a") {
					return "the call is not remembered"
				}
				if brk == 0 {
					return "the contract is not stopped for the call"
				}
				locked := "#0"
				if lock {
					locked = "ComputeGasLockedForAsync()"
				}
				if count(tr, "UseGasForAsyncStep()") != 1 {
					return "the step is not paid for once"
				}
				if lock != (count(tr, "UseGasBounded("+locked+")") == 1) || count(tr, "UseGasBounded(") > 1 {
					return "the gas set aside for the callback is not taken once"
				}
				if count(tr, "UseGas(")+count(tr, "RestoreGas(")+count(tr, "FreeGas(") > 0 {
					return "gas is moved otherwise"
				}
				return want(map[string]string{
					"Destination": "p1", "Data": "p2", "ValueBytes": "p3", "GasLocked": locked,
					"GasLimit": "gasleft." + fmt.Sprint(1+b2i(lock)),
				}, func(k string) string { return kvGet(x.C, "m:"+place(info)+"."+k) })
			}, "ctx")
		}
	}
}

// failedAt: a call whose term begins like this has failed on the path.
func failedAt(x *Exit, prefix string) bool {
	return count(strings.Split(kvGet(x.C, "fl"), "|"), clean.Replace(prefix)) > 0
}

func pkgConstStr(p *Prog, rel, name string) string {
	pk := p.Pkgs[rel]
	if pk == nil || pk.Types == nil {
		return "?"
	}
	if c, ok := pk.Types.Scope().Lookup(name).(*types.Const); ok && c.Val().Kind() == constant.String {
		return constant.StringVal(c.Val())
	}
	return "?"
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// c21Lock: what is set aside covers starting the callback.
func c21Lock(p *Prog, r *Result) {
	for _, dyn := range []bool{false, true} {
		for _, aot := range []bool{false, true} {
			w := termWorld{"IsDynamicGasLockingEnabled()": vbool(dyn), "IsAheadOfTimeCompileEnabled()": vbool(aot)}
			cost := "CompilePerByte"
			if aot {
				cost = "AoTPreparePerByte"
			}
			c21run(p, r, ctxPkg+".meteringContext.ComputeGasLockedForAsync", w, inPkg(ctxPkg), func(t *terms, x *Exit) string {
				gs := "ctx.gasSchedule."
				w := sumOf(gs+"ElrondAPICost.AsyncCallStep", gs+"ElrondAPICost.AsyncCallbackGasLock")
				if dyn {
					w = sumOf(w, mulOf("GetSCCodeSize()", gs+"BaseOperationCost."+cost))
				}
				if len(x.Res) != 1 {
					return "no answer"
				}
				if g := t.enc(x.Res[0]); g != w {
					return "the gas set aside is not what the callback needs: " + g + " instead of " + w
				}
				return ""
			}, "ctx")
		}
	}
}

// c21Mode: how a call is made is decided by the shard, the function and the code of its destination.
func c21Mode(p *Prog, r *Result) {
	mode := func(n string) int64 { return p.constOf("arwen", n, -1) }
	names := []string{"SyncCall", "AsyncBuiltinFuncIntraShard", "AsyncBuiltinFuncCrossShard", "ESDTTransferOnCallBack", "AsyncUnknown"}
	for _, builtin := range []bool{false, true} {
		for _, same := range []bool{false, true} {
			for _, back := range []bool{false, true} {
				for _, code := range []bool{false, true} {
					fn, nargs := "s:anything", 7
					if builtin {
						fn = "s:otherBuiltin"
						if back {
							fn, nargs = "s:ESDTTransfer", 2
						}
					}
					args := "[" + strings.TrimSuffix(strings.Repeat("x,", nargs), ",") + "]"
					ct := int64(0)
					if back {
						ct = 1
					}
					w := termWorld{
						"IsBuiltinFunctionName(" + fn + ")": vbool(builtin),
						"AreInSameShard(GetSCAddress(),info.Destination)": vbool(same),
						"AreInSameShard(info.Destination,GetSCAddress())": vbool(same),
						"ParseData(info.Data).0":                          vtag(fn),
						"ParseData(info.Data).1":                          vtag(args),
						"GetVMInput().CallType":                           vint(ct),
						"Equal(GetVMInput().CallerAddr,info.Destination)": vbool(back),
						"Equal(info.Destination,GetVMInput().CallerAddr)": vbool(back),
						"len(GetCode(info.Destination).0)":                vint(int64(b2i(code) * 9)),
					}
					c21run(p, r, hostPkg+".vmHost.determineAsyncCallExecutionMode", w, inPkg(hostPkg), func(t *terms, x *Exit) string {
						n, known := errNil(x)
						failed := kvGet(x.C, "failed")
						if failed == "ParseData" {
							if n || !known {
								return "a call that cannot be read is not refused"
							}
							return ""
						}
						if !n || !known {
							return "a call that can be read is refused"
						}
						want := "AsyncUnknown"
						switch {
						case builtin && same && back:
							want = "ESDTTransferOnCallBack"
						case builtin && same:
							want = "AsyncBuiltinFuncIntraShard"
						case builtin:
							want = "AsyncBuiltinFuncCrossShard"
						case code && failed == "":
							want = "SyncCall"
						}
						got := t.enc(x.Res[0])
						for _, m := range names {
							if got == fmt.Sprintf("#%d", mode(m)) {
								got = m
								break
							}
						}
						if got != want {
							return fmt.Sprintf("a call is made in the wrong way: %s instead of %s", got, want)
						}
						return ""
					}, "host", "info")
				}
			}
		}
	}
}

// c21Break: every registered call is made, once, and answered.
func c21Break(p *Prog, r *Result) {
	mode := func(n string) int64 { return p.constOf("arwen", n, -1) }
	inline := except(inPkg(hostPkg), "determineAsyncCallExecutionMode", "sendAsyncCallToDestination", "createDestinationContractCallInput", "createCallbackContractCallInput", "processCallbackVMOutput")
	for _, m := range []string{"SyncCall", "AsyncBuiltinFuncIntraShard", "AsyncBuiltinFuncCrossShard", "ESDTTransferOnCallBack", "AsyncUnknown"} {
		m := m
		w := termWorld{"determineAsyncCallExecutionMode(GetAsyncCallInfo()).0": vint(mode(m))}
		c21run(p, r, hostPkg+".vmHost.handleAsyncCallBreakpoint", w, inline, func(t *terms, x *Exit) string {
			const info = "GetAsyncCallInfo()"
			tr := trace(x)
			n, known := errNil(x)
			if !known {
				return "the error is not known"
			}
			if count(tr, "SetRuntimeBreakpointValue(#0)") != 1 {
				return "the breakpoint is not cleared"
			}
			for i, s := range tr {
				if s == "SetRuntimeBreakpointValue(#0)" {
					tr = append(append([]string{}, tr[:i]...), tr[i+1:]...)
					break
				}
			}
			failed := kvGet(x.C, "failed")
			if failed == "determineAsyncCallExecutionMode" {
				if n {
					return "an error is not reported"
				}
				if len(tr) != 0 {
					return "something is done for a call that cannot be made: " + strings.Join(tr, " ")
				}
				return ""
			}
			dest := "ExecuteOnDestContext(createDestinationContractCallInput(" + info + ").0)"
			got := strings.Join(tr, " ")
			switch m {
			case "AsyncUnknown":
				if got != "sendAsyncCallToDestination("+info+")" {
					return "a call to another shard is not sent once: " + got
				}
				if n != (failed == "") {
					return "an error is not reported"
				}
			case "AsyncBuiltinFuncCrossShard":
				if failed != "createDestinationContractCallInput" && got != dest {
					return "a built-in function is not executed once: " + got
				}
				if n != (failed == "") {
					return "an error is not reported"
				}
			case "ESDTTransferOnCallBack":
				if !n {
					return "it fails"
				}
				if count(tr, "PrependFinish("+info+".Data)") != 1 || count(tr, "RestoreGas("+info+".GasLocked)") != 1 || len(tr) != 2 {
					return "the transfer is not handed back with the gas set aside restored: " + got
				}
			default:
				out, e := "ExecuteOnDestContext(createDestinationContractCallInput("+info+").0).0", "nil"
				if failedAt(x, "createDestinationContractCallInput(") {
					out, e = "nil", "err:createDestinationContractCallInput"
				} else {
					if len(tr) == 0 || tr[0] != dest {
						return "the destination is not executed first: " + got
					}
					tr = tr[1:]
					if failedAt(x, dest) {
						e = "err:ExecuteOnDestContext"
					}
				}
				cb := "createCallbackContractCallInput(" + info + "," + out + "," + info + ".Destination,s:" + pkgConstStr(p, "arwen", "CallbackFunctionName") + "," + e + ")"
				var must []string
				if failedAt(x, "createCallbackContractCallInput(") {
					must = []string{"processCallbackVMOutput(nil,err:createCallbackContractCallInput)"}
				} else {
					run := "ExecuteOnDestContext(" + cb + ".0)"
					e := "nil"
					if failedAt(x, run) {
						e = "err:ExecuteOnDestContext"
					}
					must = []string{"RestoreGas(" + info + ".GasLocked)", run, "processCallbackVMOutput(" + run + ".0," + e + ")"}
				}
				if strings.Join(tr, " ") != strings.Join(must, " ") {
					return "the callback is not given the result of its call: " + strings.Join(tr, " ") + " instead of " + strings.Join(must, " ")
				}
				if n == failedAt(x, "processCallbackVMOutput(") {
					return "an error is not reported"
				}
			}
			return ""
		}, "host")
	}
}

// c21Dest: the call is executed as it was asked for.
func c21Dest(p *Prog, r *Result) {
	c21run(p, r, hostPkg+".vmHost.createDestinationContractCallInput", termWorld{}, inPkg(hostPkg), func(t *terms, x *Exit) string {
		n, known := errNil(x)
		if kvGet(x.C, "failed") != "" {
			if n || !known {
				return "an error is not reported"
			}
			return ""
		}
		if !n {
			return "a call that can be read is refused"
		}
		return want(map[string]string{
			"CallerAddr": "GetSCAddress()", "Arguments": "ParseData(info.Data).1", "Function": "ParseData(info.Data).0",
			"CallValue": "big(info.ValueBytes)", "CallType": "#1", "GasPrice": "GetVMInput().GasPrice",
			"GasProvided": "gasleft", "GasLocked": "info.GasLocked", "RecipientAddr": "info.Destination",
			"CurrentTxHash": "GetCurrentTxHash()", "OriginalTxHash": "GetOriginalTxHash()",
		}, func(k string) string { return t.field(x, x.Res[0], k) })
	}, "host", "info")
}

// c21Callback: the callback gets the result of its call and the gas that is left of it.
func c21Callback(p *Prog, r *Result) {
	for _, failed := range []bool{false, true} {
		for _, rc := range []int64{0, 4} {
			for _, esdt := range []string{"", "ESDTTransfer", "ESDTNFTTransfer"} {
				for _, enough := range []bool{false, true} {
					for _, more := range []bool{false, true} {
						w := termWorld{"out.ReturnCode": vint(rc), "p5": {K: VNil}}
						if failed {
							w["p5"] = vtag("err:dest")
						}
						ok := !failed && rc == 0
						w["len(out.ReturnData)"] = vint(int64(1 + b2i(more)))
						fn, n := "s:other", 1
						switch esdt {
						case "ESDTTransfer":
							fn, n = "s:ESDTTransfer", 2
						case "ESDTNFTTransfer":
							fn, n = "s:ESDTNFTTransfer", 4
						}
						var el []string
						for i := 0; i < n; i++ {
							el = append(el, fmt.Sprintf("arg%d", i))
						}
						w["ParseData(out.ReturnData[#0]).0"] = vtag(fn)
						w["ParseData(out.ReturnData[#0]).1"] = vtag("[" + strings.Join(el, ",") + "]")
						w["ParseData(out.ReturnData[#0]).2"] = Val{K: VNil}
						gs := "GasSchedule()."
						code := "bytes(big(#" + fmt.Sprint(rc) + "))"
						args := "[" + code + ",out.ReturnData...]"
						if !ok {
							args = "[" + code + ",out.ReturnMessage]"
						}
						length := "computeDataLengthFromArguments(cb," + args + ")"
						use := sumOf(gs+"ElrondAPICost.AsyncCallStep", mulOf(gs+"BaseOperationCost.DataCopyPerByte", length))
						have := sumOf("out.GasRemaining", "info.GasLocked")
						w[have+"<="+use] = vbool(!enough)
						w[have+"<"+use] = vbool(!enough)
						c21run(p, r, hostPkg+".vmHost.createCallbackContractCallInput", w, except(inPkg(hostPkg), "computeCallValueFromLastOutputTransfer"), func(t *terms, x *Exit) string {
							nl, known := errNil(x)
							if !known {
								return "whether there is gas for the callback is not decided by what is left and set aside"
							}
							if !enough {
								if nl {
									return "a callback is made without gas for it"
								}
								return ""
							}
							if !nl {
								return "a callback that can be paid for is refused"
							}
							m := map[string]string{
								"CallerAddr": "init", "CallValue": "computeCallValueFromLastOutputTransfer(out)", "CallType": "#2",
								"GasPrice": "GetVMInput().GasPrice", "GasProvided": subOf(have, use), "RecipientAddr": "GetSCAddress()",
								"CurrentTxHash": "GetCurrentTxHash()", "OriginalTxHash": "GetOriginalTxHash()",
								"Function": "cb", "Arguments": args, "ReturnCallAfterError": fmt.Sprint(!ok),
							}
							if ok && esdt != "" {
								a := "arg0,arg1"
								if esdt == "ESDTNFTTransfer" {
									a += ",arg2,arg3"
								}
								a = "[" + a + ",cb," + code
								// nothing follows the first result if it is the only one
								m["Arguments"] = a + ",out.ReturnData[#1:]...]"
								if !more {
									m["Arguments"] += " | " + a + "]"
								}
								m["Function"] = fn
							}
							return want(m, func(k string) string {
								v := t.field(x, x.Res[0], k)
								if k == "ReturnCallAfterError" && v == "" {
									v = "false"
								}
								return v
							})
						}, "host", "info", "out", "init", "cb", "p5")
					}
				}
			}
		}
	}
}

// c21Failed: a callback that fails is reported.
func c21Failed(p *Prog, r *Result) {
	for _, failed := range []bool{false, true} {
		for _, none := range []bool{false, true} {
			w := termWorld{"p2": {K: VNil}}
			if failed {
				w["p2"] = vtag("err:callback")
			}
			out := "out"
			if none {
				w["p1"] = Val{K: VNil}
				out = "CreateVMOutputInCaseOfError(err:callback)"
			} else {
				w["p1"] = vtag("out")
				w["out==nil"] = vbool(false)
			}
			c21run(p, r, hostPkg+".vmHost.processCallbackVMOutput", w, inPkg(hostPkg), func(t *terms, x *Exit) string {
				tr := trace(x)
				if !failed {
					if len(tr) != 0 {
						return "a successful callback is reported as failed"
					}
					return ""
				}
				if n, known := errNil(x); known && !n {
					return "" // reported
				}
				if count(tr, "SetReturnMessage("+out+".ReturnMessage)") != 1 || count(tr, "Finish(String("+out+".ReturnCode))") != 1 {
					return "a failed callback is not reported: " + strings.Join(tr, " ")
				}
				return ""
			}, "host", "p1", "p2")
		}
	}
}

// c21Sent: what is sent to another shard is what was asked for, and its gas is taken from the sender.
func c21Sent(p *Prog, r *Result) {
	sent := func(name, transfer string, gas string, w termWorld, names ...string) {
		c21run(p, r, hostPkg+".vmHost."+name, w, except(inPkg(hostPkg), "computeDataLengthFromArguments"), func(t *terms, x *Exit) string {
			n, known := errNil(x)
			tr := trace(x)
			if !known {
				return "the error is not known"
			}
			if len(tr) == 0 || tr[0] != transfer {
				return "what is sent is not what was asked for: " + strings.Join(tr, " ") + " instead of " + transfer
			}
			if count(tr, "Transfer(") != 1 {
				return "it is sent more than once"
			}
			if count(tr, "UseGas("+gas) != 1 || count(tr, "UseGas") != 1 {
				return "the gas that is sent is not taken from the sender"
			}
			if failedAt(x, "Transfer(") {
				if n || count(tr, "FailExecution(err:Transfer)") != 1 {
					return "an error is not reported"
				}
			} else if !n || count(tr, "FailExecution(") > 0 {
				return "a call that is sent fails"
			}
			return ""
		}, names...)
	}
	sent("sendAsyncCallToDestination", "Transfer(info.Destination,GetSCAddress(),info.GasLimit,info.GasLocked,big(info.ValueBytes),info.Data,#1)", "gasleft)", termWorld{}, "host", "info")
	for n := int64(0); n < 3; n++ {
		el := []string{"cat(s:@,EncodeToString(String(ReturnCode())))..."}
		for i := int64(0); i < n; i++ {
			el = append(el, fmt.Sprintf("cat(s:@,EncodeToString(ReturnData()[#%d]))...", i))
		}
		data := "[" + strings.Join(el, ",") + "]"
		if n == 0 {
			data = "cat(s:@,EncodeToString(String(ReturnCode())))"
		}
		sent("sendCallbackToCurrentCaller", "Transfer(GetVMInput().CallerAddr,GetSCAddress(),gasleft,#0,GetVMInput().CallValue,"+data+",#2)", "gasleft)", termWorld{"len(ReturnData())": vint(n)}, "host")
	}
	sent("sendStorageCallbackToDestination", "Transfer(caller,GetSCAddress(),gasleft,#0,GetVMInput().CallValue,data,#2)", "gasleft)", termWorld{}, "host", "caller", "data")

	// transferValueExecute
	const input = "prepareIndirectContractCallInput(host,GetSCAddress(),value,gasLimit,dest,function,args,GasSchedule().ElrondAPICost.TransferValue,false).0"
	for _, fn := range []bool{false, true} {
		w := termWorld{"AreInSameShard(GetSCAddress(),dest)": vbool(false), "AreInSameShard(dest,GetSCAddress())": vbool(false)}
		if !fn {
			w["function"] = Val{K: VNil}
		} else {
			w["function==nil"] = vbool(false)
			w[input+"==nil"] = vbool(false)
		}
		c21run(p, r, "arwen/elrondapi.TransferValueExecuteWithTypedArgs", w, except(inPkg("arwen/elrondapi"), "prepareIndirectContractCallInput", "makeCrossShardCallFromInput"), func(t *terms, x *Exit) string {
			if count(trace(x), "ExecuteOn") > 0 {
				return "a contract of another shard is executed here"
			}
			if len(x.Res) != 1 || t.enc(x.Res[0]) != "#0" {
				return ""
			}
			data := "makeCrossShardCallFromInput(nil)"
			if fn {
				data = "makeCrossShardCallFromInput(" + input + ")"
			}
			tr := trace(x)
			must := "Transfer(dest,GetSCAddress(),gasLimit,#0,value," + data + ",#0)"
			if count(tr, must) != 1 || count(tr, "Transfer(") != 1 {
				return "what is sent is not what was asked for: " + strings.Join(tr, " ") + " instead of " + must
			}
			if count(tr, "UseGas(gasLimit)")+count(tr, "UseGasBounded(gasLimit)") != 1 {
				return "the gas that is sent is not taken from the sender"
			}
			return ""
		}, "host", "dest", "value", "gasLimit", "function", "args")
	}
}

// c21Each: what comes after a call of each kind.
func c21Each(p *Prog, r *Result) {
	for ct := int64(0); ct <= 3; ct++ {
		for _, none := range []bool{false, true} {
			pend := "processAsyncInfo(GetAsyncContextInfo())"
			w := termWorld{"GetVMInput().CallType": vint(ct), "len(" + pend + ".0.AsyncContextMap)": vint(int64(b2i(!none) * 2))}
			inline := except(inPkg(hostPkg), "verifyAllowedFunctionCall", "getFunctionByCallType", "handleBreakpointIfAny", "checkFinalGasAfterExit", "processAsyncInfo", "sendCallbackToCurrentCaller", "processCallbackStack")
			c21run(p, r, hostPkg+".vmHost.callSCMethod", w, inline, func(t *terms, x *Exit) string {
				n, known := errNil(x)
				if !known {
					return "the error is not known"
				}
				tr := trace(x)
				rest := []string{}
				for _, s := range tr {
					if strings.HasPrefix(s, "process") || strings.HasPrefix(s, "send") {
						rest = append(rest, s)
					}
				}
				got := strings.Join(rest, " ")
				must := ""
				fails := kvGet(x.C, "failed") != ""
				switch {
				case failedAt(x, "getFunctionByCallType("):
					if got != "" && got != "processCallbackStack()" {
						return "a call that is not made is answered: " + got
					}
					return ""
				case failedAt(x, "verifyAllowedFunctionCall(") || failedAt(x, "handleBreakpointIfAny(") || failedAt(x, "checkFinalGasAfterExit("):
					if n {
						return "an error is not reported"
					}
					if got != "" {
						return "a failed call is answered: " + got
					}
					return ""
				case ct == 2:
					must = "processCallbackStack()"
				default:
					must = pend
					if ct == 1 && none && !failedAt(x, "processAsyncInfo(") {
						must += " sendCallbackToCurrentCaller()"
					}
				}
				if got != must {
					return "what is left to do after the call is not done: " + got + " instead of " + must
				}
				if fails && n && (failedAt(x, "process") || failedAt(x, "send")) {
					return "an error is not reported"
				}
				return ""
			}, "host")
		}
	}
}

// c21Promises: of the calls of a list each is executed or sent, with the gas it was promised.
func c21Promises(p *Prog, r *Result) {
	inline := except(inPkg(hostPkg), "setupAsyncCallsGas", "processAsyncCall", "getPendingAsyncCalls", "savePendingAsyncCalls", "sendAsyncCallToDestination", "callbackAsync", "createDestinationContractCallInput", "createCallbackContractCallInput", "processCallbackVMOutput", "canExecuteSynchronously")
	const pending = "getPendingAsyncCalls(info)"
	for _, here := range []bool{false, true} {
		for _, size := range []int64{0, 1, 2} {
			for _, left := range []int64{0, 1} {
				w := termWorld{"len(info.AsyncContextMap)": vint(size), "len(" + pending + ".AsyncContextMap)": vint(left)}
				calls, sends := []string{}, []string{}
				for i := int64(0); i < size; i++ {
					k := fmt.Sprintf("info.AsyncContextMap[key%d].AsyncCalls", i)
					w["len("+k+")"] = vint(2)
					for j := 0; j < 2; j++ {
						c := fmt.Sprintf("%s[#%d]", k, j)
						w["canExecuteSynchronously("+c+".Destination,"+c+".Data)"] = vbool(here)
						if here {
							calls = append(calls, "processAsyncCall("+c+")")
						}
					}
				}
				k := pending + ".AsyncContextMap[key0].AsyncCalls"
				w["len("+k+")"] = vint(2)
				for j := 0; j < 2; j++ {
					c := fmt.Sprintf("%s[#%d]", k, j)
					w["canExecuteSynchronously("+c+".Destination,"+c+".Data)"] = vbool(here)
					if !here {
						sends = append(sends, "sendAsyncCallToDestination("+c+")")
					}
				}
				c21run(p, r, hostPkg+".vmHost.processAsyncInfo", w, inline, func(t *terms, x *Exit) string {
					n, known := errNil(x)
					tr := trace(x)
					fails := kvGet(x.C, "failed") != ""
					if !known {
						return "the error is not known"
					}
					if size == 0 {
						if !n || len(tr) != 0 {
							return "something is done though no call was made: " + strings.Join(tr, " ")
						}
						return ""
					}
					if fails {
						if n {
							return "an error is not reported"
						}
						return ""
					}
					must := append([]string{"setupAsyncCallsGas(info)"}, calls...)
					if left > 0 {
						must = append(must, "savePendingAsyncCalls("+pending+")", "setupAsyncCallsGas("+pending+")")
						must = append(must, sends...)
					}
					if !n {
						return "it fails though nothing failed"
					}
					if t.enc(x.Res[0]) != pending {
						return "the calls that are left are not told: " + t.enc(x.Res[0])
					}
					if strings.Join(tr, " ") != strings.Join(must, " ") {
						return "a call is neither executed nor sent: " + strings.Join(tr, " ") + " instead of " + strings.Join(must, " ")
					}
					return ""
				}, "host", "info")
			}
		}
	}
	// one call
	for _, left := range []int64{0, 1} {
		run := "ExecuteOnDestContext(createDestinationContractCallInput(call).0)"
		w := termWorld{"len(getPendingAsyncCalls(" + run + ".1).AsyncContextMap)": vint(left)}
		c21run(p, r, hostPkg+".vmHost.processAsyncCall", w, inline, func(t *terms, x *Exit) string {
			n, known := errNil(x)
			if !known {
				return "the error is not known"
			}
			tr := strings.Join(trace(x), " ")
			if failedAt(x, "createDestinationContractCallInput(") {
				if n || tr != "" {
					return "an error is not reported"
				}
				return ""
			}
			e, must := "nil", run
			if failedAt(x, run) {
				e = "err:ExecuteOnDestContext"
			}
			if left == 0 {
				must += " callbackAsync(call," + run + ".0," + e + ")"
				if n == failedAt(x, "callbackAsync(") {
					return "an error is not reported"
				}
			} else if n != (e == "nil") {
				return "an error is not reported"
			}
			if tr != must {
				return "the call is not executed and answered: " + tr + " instead of " + must
			}
			return ""
		}, "host", "call")
	}
	for _, rc := range []int64{0, 4} {
		c21run(p, r, hostPkg+".vmHost.callbackAsync", termWorld{"out.ReturnCode": vint(rc)}, inline, func(t *terms, x *Exit) string {
			n, known := errNil(x)
			if !known {
				return "the error is not known"
			}
			cb, status := "call.SuccessCallback", p.constOf("arwen", "AsyncCallResolved", -1)
			if rc != 0 {
				cb, status = "call.ErrorCallback", p.constOf("arwen", "AsyncCallRejected", -1)
			}
			if got := kvGet(x.C, "m:call.Status"); got != fmt.Sprintf("#%d", status) {
				return "the status of the call is not its result's: " + got
			}
			in := "createCallbackContractCallInput(call,out,call.Destination," + cb + ",err)"
			if failedAt(x, "createCallbackContractCallInput(") {
				if n || len(trace(x)) != 0 {
					return "an error is not reported"
				}
				return ""
			}
			run, e := "ExecuteOnDestContext("+in+".0)", "nil"
			if failedAt(x, run) {
				e = "err:ExecuteOnDestContext"
			}
			must := run + " processCallbackVMOutput(" + run + ".0," + e + ")"
			if got := strings.Join(trace(x), " "); got != must {
				return "the callback is not given the result of its call: " + got + " instead of " + must
			}
			if n == failedAt(x, "processCallbackVMOutput(") {
				return "an error is not reported"
			}
			return ""
		}, "host", "call", "out", "err")
	}
	// the gas of two calls: what was asked for, the rest goes to those that asked for none
	for _, zero := range [][2]bool{{false, false}, {false, true}, {true, false}, {true, true}} {
		for _, enough := range []bool{false, true} {
			el := func(i int) string { return fmt.Sprintf("info.AsyncContextMap[key0].AsyncCalls[#%d]", i) }
			w := termWorld{"len(info.AsyncContextMap)": vint(1), "len(info.AsyncContextMap[key0].AsyncCalls)": vint(2)}
			need, zeros := "#0", int64(0)
			for i := 0; i < 2; i++ {
				g := el(i) + ".ProvidedGas"
				if zero[i] {
					w[g] = vint(0)
					zeros++
				} else {
					w[g+"==#0"] = vbool(false)
					before := need
					need = sumOf(need, g)
					if before != "#0" {
						w[before+"<=gasleft"] = vbool(true)
					}
				}
			}
			w[need+"<=gasleft"] = vbool(enough)
			if zeros > 0 {
				w["#0<=gasleft"] = vbool(true)
				w[need+"<gasleft"] = vbool(enough)
			}
			if need == "#0" {
				w["#0<gasleft"] = vbool(enough)
			}
			c21run(p, r, hostPkg+".vmHost.setupAsyncCallsGas", w, inPkg(hostPkg), func(t *terms, x *Exit) string {
				n, known := errNil(x)
				if !known {
					return "whether there is gas for the calls is not decided by what is left"
				}
				if failedAt(x, "AddUint64WithErr(") {
					if n {
						return "an error is not reported"
					}
					return ""
				}
				if !enough {
					if n {
						return "calls are given more gas than there is"
					}
					return ""
				}
				if !n {
					return "calls that can be paid for are refused"
				}
				for i := 0; i < 2; i++ {
					must := el(i) + ".ProvidedGas"
					if zero[i] {
						rest := "gasleft"
						if need != "#0" {
							rest = subOf("gasleft", need)
						}
						must = "(" + rest + ")/(#" + fmt.Sprint(zeros) + ")"
						if zeros == 1 {
							must += " or " + rest
						}
					}
					ok := false
					got := kvGet(x.C, "m:"+el(i)+".GasLimit")
					for _, m := range strings.Split(must, " or ") {
						ok = ok || got == m
					}
					if !ok {
						return "a call is not given its share: " + got + " instead of " + must
					}
				}
				return ""
			}, "host", "info")
		}
	}
}
