package main

// What the end of an execution is reported as (C15).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C15", checkC15) }

// codeOfError: the return code each error of the VM stands for; every other error is a failed execution.
var codeOfError = map[string]string{
	"ErrSignalError": "UserError", "ErrFuncNotFound": "FunctionNotFound", "ErrFunctionNonvoidSignature": "FunctionWrongSignature",
	"ErrInvalidFunction": "UserError", "ErrNotEnoughGas": "OutOfGas", "ErrContractNotFound": "ContractNotFound",
	"ErrContractInvalid": "ContractInvalid", "ErrUpgradeFailed": "UpgradeFailed", "ErrTransferInsufficientFunds": "OutOfFunds",
}

// codeOfStop: the return code each stop condition stands for.
var codeOfStop = map[string]string{
	"BreakpointExecutionFailed": "ExecutionFailed", "BreakpointSignalError": "UserError", "BreakpointOutOfGas": "OutOfGas",
}

func (p *Prog) constsOf(pkg *types.Package, typ string) map[string]int64 {
	out := map[string]int64{}
	if pkg == nil {
		return out
	}
	for _, n := range pkg.Scope().Names() {
		c, ok := pkg.Scope().Lookup(n).(*types.Const)
		if !ok || typeName(c.Type()) != typ {
			continue
		}
		if v, ok := constant.Int64Val(constant.ToInt(c.Val())); ok {
			out[n] = v
		}
	}
	return out
}

// errorGlobal: the load of an error variable of a package, as "err:Name".
func errorGlobal(x *ssa.UnOp) (Val, bool) {
	if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && isErrorType(deref(g.Type())) {
		return vtag("err:" + g.Name()), true
	}
	return Val{}, false
}

func isCallback(com *ssa.CallCommon) bool {
	return unknownCall(com) && typeName(com.Value.Type()) == "ExportedFunctionCallback"
}

// fallibleCall: a call that can answer an error.
func fallibleCall(com *ssa.CallCommon) bool {
	if !lastError(com) {
		return false
	}
	n := calleeName(com)
	// a getter of the errors met so far is no step
	if strings.HasPrefix(methodName(com), "Get") && com.Signature().Results().Len() == 1 {
		return false
	}
	return !strings.HasPrefix(n, "fmt.") && !strings.HasPrefix(n, "errors.") && n != "arwen.WrapError" && n != "builtin.recover"
}

// separate: parts of the host that are judged on their own; what they answer is what counts.
func separateExecution(f *ssa.Function) bool {
	switch f.Name() {
	case "ExecuteOnDestContext", "ExecuteOnSameContext", "CreateNewContract", "ExecuteESDTTransfer", "callBuiltinFunction":
		return true
	}
	return false
}

func checkC15(p *Prog, r *Result) {
	r.Rule = "for every stop condition the VM can set, the contract's stop is answered by an error whose return code is that of the condition, an unknown one by an error; an error is never turned into the code success, and the result made for an error carries the code of that error; on every path of every execution on which a step fails - the contract's code included - the result is the one made for an error, of the failed step's condition, and an execution whose contract used more than its gas never ends in success"
	r.Assumptions = []string{"asynchronous calls answer their own failures to the callback: their handling is one step that succeeds or fails", "errors are compared with errors.Is or =="}
	arwenPkg := p.Pkgs["arwen"]
	if arwenPkg == nil {
		r.violate("undecided:arwen", "-", "package arwen not found")
		return
	}
	stops := p.constsOf(arwenPkg.Types, "BreakpointValue")
	r.floor("stop conditions", len(stops), 4)
	var vmcommon *types.Package
	if t, ok := p.vmType("VMOutput").(*types.Named); ok {
		vmcommon = t.Obj().Pkg()
	}
	codes := p.constsOf(vmcommon, "ReturnCode")
	r.floor("return codes", len(codes), 10)
	resolved := c15Resolve(p, r, codes)
	c15ErrorResult(p, r)
	c15Setters(p, r, stops, codes)
	c15Stops(p, r, stops, codes, resolved)
	for _, name := range []string{"doRunSmartContractCreate", "doRunSmartContractUpgrade", "doRunSmartContractCall", "execute", "ExecuteOnDestContext", "ExecuteOnSameContext", "CreateNewContract"} {
		f := p.fn(hostPkg + ".vmHost." + name)
		if f == nil {
			r.violate("undecided:"+name, "-", "%s not found", name)
			continue
		}
		c15Paths(p, r, f, stops, codes, resolved)
	}
}

// c15Resolve finds the function that turns errors into return codes and reads its table.
func c15Resolve(p *Prog, r *Result, codes map[string]int64) func(string) (int64, bool) {
	var fn *ssa.Function
	for _, f := range p.Funcs {
		if pkgRel(f) == "arwen/contexts" && recvName(f) == "outputContext" && f.Signature.Results().Len() == 1 && typeName(f.Signature.Results().At(0).Type()) == "ReturnCode" &&
			f.Signature.Params().Len() == 1 && isErrorType(f.Signature.Params().At(0).Type()) {
			fn = f
		}
	}
	if fn == nil {
		r.violate("undecided:resolve", "-", "the function that turns an error into a return code was not found")
		return func(string) (int64, bool) { return 0, false }
	}
	r.saw(fname(fn))
	if hasLoop(fn) {
		// a table that is searched: what it holds is not decided
		r.Assumptions = append(r.Assumptions, "the table of errors and return codes is searched in a loop and was not read: it is taken to hold the documented codes")
		return func(name string) (int64, bool) {
			if name == "" {
				return codes["Ok"], true
			}
			if c, ok := codeOfError[name]; ok {
				return codes[c], true
			}
			return codes["ExecutionFailed"], true
		}
	}
	run := func(arg Val) []int64 {
		e := newEngine(p)
		e.Args = make([]Val, len(fn.Params))
		for i := range fn.Params {
			e.Args[i] = Val{K: VSym, S: fn.Params[i]}
		}
		e.Args[len(fn.Params)-1] = arg
		e.Load = func(st *State, x *ssa.UnOp) (Val, bool) { return errorGlobal(x) }
		e.IsEvent = func(com *ssa.CallCommon, name string) bool { return name == "errors.Is" }
		e.Event = func(c *CallCtx) ([]Outcome, bool) {
			if c.Name != "errors.Is" {
				return nil, false
			}
			if n, known := c.Args[0].isNil(); known && n {
				return []Outcome{{C: c.St.C, Res: []Val{vbool(false)}}}, true
			}
			return []Outcome{{C: c.St.C, Res: []Val{vbool(c.Args[0] == c.Args[1])}}}, true
		}
		e.Force = func(f *ssa.Function) bool { return pkgRel(f) == "arwen/contexts" }
		var out []int64
		for _, x := range e.Run(fn, "") {
			if len(x.Res) != 1 || x.Res[0].K != VInt {
				out = append(out, -1)
				continue
			}
			out = append(out, x.Res[0].N)
		}
		e.finish(r)
		return out
	}
	memo := map[string]int64{}
	resolve := func(name string) (int64, bool) {
		if n, ok := memo[name]; ok {
			return n, n >= 0
		}
		memo[name] = -1
		arg := vtag("err:" + name)
		if name == "" {
			arg = Val{K: VNil}
		}
		vs := run(arg)
		if len(vs) == 1 {
			memo[name] = vs[0]
		}
		return memo[name], memo[name] >= 0
	}
	want := map[string]string{"": "Ok", "SomeOtherError": "ExecutionFailed"}
	for k, v := range codeOfError {
		want[k] = v
	}
	var names []string
	for k := range want {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, n := range names {
		got, ok := resolve(n)
		if !ok || got != codes[want[n]] {
			what := n
			if n == "" {
				what = "no error"
			}
			r.violate("code-of:"+what, p.pos(fn.Pos()), "%s turns %s into return code %d, not into %s (%d)", fname(fn), what, got, want[n], codes[want[n]])
		} else {
			r.ok("errors with their return code")
		}
	}
	return resolve
}

// c15ErrorResult: the result made for an error carries the code of that error.
func c15ErrorResult(p *Prog, r *Result) {
	fn := p.fn("arwen/contexts.outputContext.CreateVMOutputInCaseOfError")
	if fn == nil {
		r.violate("undecided:error-result", "-", "CreateVMOutputInCaseOfError not found")
		return
	}
	r.saw(fname(fn))
	e := newEngine(p)
	e.Args = []Val{{K: VSym, S: fn.Params[0]}, vtag("err:This")}
	isResolve := func(com *ssa.CallCommon) bool {
		rs := com.Signature().Results()
		return rs.Len() == 1 && typeName(rs.At(0).Type()) == "ReturnCode" && com.Signature().Params().Len() == 1 && isErrorType(com.Signature().Params().At(0).Type())
	}
	e.IsEvent = func(com *ssa.CallCommon, _ string) bool { return isResolve(com) }
	e.IsRelevantInstr = func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		return ok && returnCodeAddr(s.Addr)
	}
	e.Load = func(st *State, x *ssa.UnOp) (Val, bool) { return errorGlobal(x) }
	e.Skip = func(f *ssa.Function) bool { return pkgRel(f) != "arwen/contexts" }
	e.Event = func(c *CallCtx) ([]Outcome, bool) {
		if !isResolve(c.Com) {
			return nil, false
		}
		return []Outcome{{C: c.St.C, Res: []Val{vtag("codeof:" + c.Args[len(c.Args)-1].T)}}}, true
	}
	e.Instr = func(e *Engine, f *ssa.Function, in ssa.Instruction, st *State) {
		if s, ok := in.(*ssa.Store); ok && returnCodeAddr(s.Addr) {
			v := e.Eval(st, s.Val)
			if v.T == "codeof:err:This" {
				st.C = kvSet(st.C, "code", "1")
			} else {
				st.C = kvSet(st.C, "code", "other")
			}
		}
	}
	for _, x := range e.Run(fn, "") {
		if kvGet(x.C, "code") == "1" {
			r.ok("the result made for an error carries its code")
		} else {
			r.violate("error-result", p.pos(fn.Pos()), "there is a path through %s on which the result does not get the return code of the error", fname(fn))
		}
	}
	e.finish(r)
	// what builds the final result of a success answers a failure of its own as one
	gv := p.fn("arwen/contexts.outputContext.GetVMOutput")
	if gv == nil {
		r.violate("undecided:final-result", "-", "GetVMOutput not found")
		return
	}
	r.saw(fname(gv))
	e = newEngine(p)
	e.Skip = func(f *ssa.Function) bool { return f == fn || pkgRel(f) != "arwen/contexts" }
	e.IsEvent = func(com *ssa.CallCommon, _ string) bool {
		return methodName(com) == "CreateVMOutputInCaseOfError" || fallibleCall(com)
	}
	e.Event = func(c *CallCtx) ([]Outcome, bool) {
		n := c.Com.Signature().Results().Len()
		switch {
		case methodName(c.Com) == "CreateVMOutputInCaseOfError":
			return []Outcome{{C: c.St.C, Res: []Val{vtag("errout")}}}, true
		case fallibleCall(c.Com):
			good, bad := make([]Val, n), make([]Val, n)
			good[n-1], bad[n-1] = Val{K: VNil}, Val{K: VNonNil}
			return []Outcome{{C: c.St.C, Res: good}, {C: kvSet(c.St.C, "failed", calleeName(c.Com)), Res: bad}}, true
		}
		return nil, false
	}
	for _, x := range e.Run(gv, "") {
		failed := kvGet(x.C, "failed")
		if failed != "" && (len(x.Res) != 1 || x.Res[0].T != "errout") {
			r.violate("final-result", p.pos(gv.Pos()), "%s gives the result of a success although %s failed", fname(gv), failed)
		} else {
			r.ok("paths of the final result")
		}
	}
	e.finish(r)
}

// c15Setters: the functions that stop the contract set both the code and the stop condition, and nobody sets the code success.
func c15Setters(p *Prog, r *Result, stops, codes map[string]int64) {
	for name, want := range map[string]string{"FailExecution": "BreakpointExecutionFailed", "SignalUserError": "BreakpointSignalError"} {
		fn := p.fn("arwen/contexts.runtimeContext." + name)
		if fn == nil {
			r.violate("undecided:"+name, "-", "%s not found", name)
			continue
		}
		r.saw(fname(fn))
		e := newEngine(p)
		e.Skip = func(f *ssa.Function) bool { return pkgRel(f) != "arwen/contexts" }
		e.IsEvent = func(com *ssa.CallCommon, _ string) bool {
			n := methodName(com)
			return n == "SetReturnCode" || n == "SetRuntimeBreakpointValue" || n == "SetBreakpointValue"
		}
		e.Event = func(c *CallCtx) ([]Outcome, bool) {
			k := ""
			switch methodName(c.Com) {
			case "SetReturnCode":
				k = "code"
			case "SetRuntimeBreakpointValue", "SetBreakpointValue":
				k = "stop"
			default:
				return nil, false
			}
			v := c.Args[len(c.Args)-1]
			s := "?"
			if v.K == VInt {
				s = fmt.Sprint(v.N)
			}
			return []Outcome{{C: kvSet(c.St.C, k, s), Res: nil}}, true
		}
		for _, x := range e.Run(fn, "") {
			if kvGet(x.C, "code") != fmt.Sprint(codes[codeOfStop[want]]) {
				r.violate("stop-code:"+name, p.pos(fn.Pos()), "%s does not always set the return code %s", fname(fn), codeOfStop[want])
			} else if kvGet(x.C, "stop") != fmt.Sprint(stops[want]) {
				r.violate("stop-condition:"+name, p.pos(fn.Pos()), "%s does not always stop the contract with %s", fname(fn), want)
			} else {
				r.ok("functions that stop a contract set its code and its condition")
			}
		}
		e.finish(r)
	}
	n := 0
	for _, f := range p.Funcs {
		rel := pkgRel(f)
		if rel != "arwen" && !strings.HasPrefix(rel, "arwen/") || strings.HasPrefix(rel, "arwen/mock") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				switch methodName(c.Common()) {
				case "SetReturnCode":
					n++
					args := c.Common().Args
					if k, ok := constOf(args[len(args)-1]); ok && k == 0 {
						r.violate("set-ok:"+fname(f), p.pos(in.Pos()), "%s sets the return code to success", fname(f))
					}
				case "SetRuntimeBreakpointValue":
					args := c.Common().Args
					k, ok := constOf(args[len(args)-1])
					if !ok {
						r.violate("set-stop:"+fname(f), p.pos(in.Pos()), "%s sets a stop condition that is not a constant", fname(f))
						continue
					}
					n++
					known := false
					for _, v := range stops {
						known = known || v == int64(k)
					}
					if !known {
						r.violate("set-stop:"+fname(f), p.pos(in.Pos()), "%s sets the stop condition %d, which is not declared", fname(f), k)
					} else {
						r.ok("stop conditions that are set are declared ones")
					}
				}
			}
		}
	}
	r.floor("places that set a code or a stop condition", n, 4)
}

// c15Stops: the answer to each stop condition.
func c15Stops(p *Prog, r *Result, stops, codes map[string]int64, resolved func(string) (int64, bool)) {
	fn := p.fn(hostPkg + ".vmHost.handleBreakpointIfAny")
	if fn == nil {
		r.violate("undecided:stops", "-", "handleBreakpointIfAny not found")
		return
	}
	r.saw(fname(fn))
	run := func(v int64) (out []Exit) {
		e := c15Engine(p, nil)
		e.Args = []Val{{K: VSym, S: fn.Params[0]}, {K: VNonNil}}
		for _, x := range e.Run(fn, kvSet("", "bp", fmt.Sprint(v))) {
			out = append(out, *x)
		}
		e.finish(r)
		return
	}
	unknown := map[string]bool{}
	for _, x := range run(9999) {
		if n, known := x.Res[0].isNil(); !known || n {
			r.violate("unknown-stop", p.pos(fn.Pos()), "a stop condition that is not known is not answered by an error in %s", fname(fn))
		} else {
			unknown[x.Res[0].T] = true
			r.ok("unknown stop conditions are errors")
		}
	}
	var names []string
	for n := range stops {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		for _, x := range run(stops[n]) {
			res := x.Res[0]
			isNil, known := res.isNil()
			handled := kvGet(x.C, "async")
			switch {
			case n == "BreakpointAsyncCall":
				if handled == "" {
					r.violate("stop:"+n, p.pos(fn.Pos()), "the asynchronous call a contract stopped for is not made")
				} else if handled == "failed" && (!known || isNil) {
					r.violate("stop:"+n, p.pos(fn.Pos()), "a failed asynchronous call is not reported as an error")
				} else {
					r.ok("stop conditions answered")
				}
			case !known || isNil:
				r.violate("stop:"+n, p.pos(fn.Pos()), "a contract that stopped with %s is not reported as failed", n)
			case handled != "":
				r.violate("stop:"+n, p.pos(fn.Pos()), "a contract that stopped with %s is handled as an asynchronous call", n)
			case n == "BreakpointNone":
				r.ok("stop conditions answered")
			default:
				want, listed := codeOfStop[n]
				got, ok := resolved(strings.TrimPrefix(res.T, "err:"))
				if unknown[res.T] {
					r.violate("stop:"+n, p.pos(fn.Pos()), "the stop condition %s is not recognised when a contract stops", n)
				} else if listed && (!ok || got != codes[want]) {
					r.violate("stop:"+n, p.pos(fn.Pos()), "a contract that stopped with %s is reported with %s, whose return code is %d and not %s", n, res.T, got, want)
				} else {
					r.ok("stop conditions answered")
				}
			}
		}
	}
}

// c15Engine explores the host: every step outside of it, and every separate execution, succeeds or fails.
func c15Engine(p *Prog, root *ssa.Function) *Engine {
	e := newEngine(p)
	e.MaxState = 60000
	asyncPart := func(f *ssa.Function) bool {
		switch f.Name() {
		case "handleAsyncCallBreakpoint", "processAsyncInfo", "processCallbackStack", "sendCallbackToCurrentCaller", "getCurrentAsyncInfo":
			return true
		}
		return false
	}
	own := func(com *ssa.CallCommon) bool {
		f := com.StaticCallee()
		return f != nil && pkgRel(f) == hostPkg && len(f.Blocks) > 0 && !asyncPart(f) && (f == root || !separateExecution(f))
	}
	e.Skip = func(f *ssa.Function) bool {
		return pkgRel(f) != hostPkg || asyncPart(f) || f != root && separateExecution(f)
	}
	e.Force = func(f *ssa.Function) bool { return !e.Skip(f) && (lastErrorOf(f) || resultIs(f, "VMOutput")) }
	e.Load = func(st *State, x *ssa.UnOp) (Val, bool) {
		if returnCodeAddr(x.X) && kvGet(st.C, "result") != "" {
			if kvGet(st.C, "result") == "ok" {
				return vint(0), true
			}
			return vint(10), true
		}
		return errorGlobal(x)
	}
	e.IsEvent = func(com *ssa.CallCommon, name string) bool {
		if isCallback(com) || name == "errors.Is" {
			return true
		}
		switch methodName(com) {
		case "GetRuntimeBreakpointValue", "GetVMOutput", "CreateVMOutputInCaseOfError", "GetPointsUsed", "GetGasForExecution", "IsArwenV2Enabled", "ReturnCode", "GetInitFunction", "GetFunctionToCall":
			return true
		}
		return fallibleCall(com) && !own(com)
	}
	e.Event = func(c *CallCtx) ([]Outcome, bool) {
		st := c.St.C
		// whatever a question that is answered by yes or no asks is no step of the execution
		if rs := c.Instr.Parent().Signature.Results(); fallibleCall(c.Com) && !own(c.Com) && rs.Len() == 1 && types.Identical(rs.At(0).Type(), types.Typ[types.Bool]) {
			return []Outcome{{C: st, Res: make([]Val, c.Com.Signature().Results().Len())}}, true
		}
		n := c.Com.Signature().Results().Len()
		good, bad := make([]Val, n), make([]Val, n)
		if lastError(c.Com) {
			good[n-1], bad[n-1] = Val{K: VNil}, Val{K: VNonNil}
		}
		switch {
		case c.Name == "errors.Is":
			switch {
			case c.Args[0] == c.Args[1]:
				good[0] = vbool(true)
				return []Outcome{{C: kvSet(st, "failed", ""), Res: good}}, true
			case strings.HasPrefix(c.Args[0].T, "err:"):
				good[0] = vbool(false)
				return []Outcome{{C: st, Res: good}}, true
			}
			good[0], bad[0] = vbool(true), vbool(false)
			outs := []Outcome{{C: st, Res: bad}}
			if n, known := c.Args[0].isNil(); !known || !n {
				if c.Args[1].T == "err:ErrNilCallbackFunction" && kvGet(st, "failed") != "" && strings.HasSuffix(kvGet(st, "failed"), "GetFunctionToCall") {
					// a callback that does not exist is not an error
					outs = append(outs, Outcome{C: kvSet(st, "failed", ""), Res: good})
				} else if c.Args[1].T != "err:ErrNilCallbackFunction" {
					outs = append(outs, Outcome{C: st, Res: good})
				}
			}
			return outs, true
		case isCallback(c.Com):
			kind := "call"
			v := c.E.Eval(c.St, c.Com.Value)
			if v.T == "fn:init" {
				kind = "init"
			}
			if n, known := v.isNil(); known && n {
				// crashes, which is reported as a failure (C04)
				return nil, true
			}
			st = kvSet(kvSet(kvSet(st, "ran", kind), "gas", ""), "rc", "")
			outs := []Outcome{{C: kvSet(st, "bp", ""), Res: good}}
			for _, bp := range []string{"0", "1", "2", "3", "4", "9999"} {
				outs = append(outs, Outcome{C: kvSet(kvSet(st, "bp", bp), "failed", "the contract:"+bp), Res: bad})
			}
			return outs, true
		}
		switch methodName(c.Com) {
		case "GetInitFunction":
			return []Outcome{{C: st, Res: []Val{{K: VNil}}}, {C: st, Res: []Val{vtag("fn:init")}}}, true
		case "GetRuntimeBreakpointValue":
			v := Val{K: VSym, S: c.Instr.(ssa.Value)}
			if b := kvGet(st, "bp"); b != "" {
				var k int64
				fmt.Sscan(b, &k)
				v = vint(k)
			}
			return []Outcome{{C: st, Res: []Val{v}}}, true
		case "ReturnCode":
			ok := Outcome{C: kvSet(st, "rc", "ok"), Res: []Val{vint(0)}}
			no := Outcome{C: kvSet(kvSet(st, "rc", "bad"), "failed", "the contract:code"), Res: []Val{vint(10)}}
			switch kvGet(st, "rc") {
			case "ok":
				return []Outcome{ok}, true
			case "bad":
				return []Outcome{no}, true
			}
			return []Outcome{ok, no}, true
		case "GetVMOutput":
			return []Outcome{{C: kvSet(st, "result", "ok"), Res: []Val{vtag("obj:result")}}, {C: kvSet(kvSet(st, "result", "bad"), "failed", "the result"), Res: []Val{vtag("obj:errresult")}}}, true
		case "CreateVMOutputInCaseOfError":
			s := "err"
			a := c.Args[len(c.Args)-1]
			if n, known := a.isNil(); !known || n {
				s = "nilerr"
			} else if strings.HasPrefix(a.T, "err:") {
				s = a.T
			}
			return []Outcome{{C: kvSet(kvSet(st, "result", "bad"), "of", s), Res: []Val{vtag("obj:errresult")}}}, true
		case "GetPointsUsed":
			return []Outcome{{C: st, Res: []Val{vtag("points")}}}, true
		case "GetGasForExecution":
			return []Outcome{{C: st, Res: []Val{vtag("gaslimit")}}}, true
		case "IsArwenV2Enabled":
			outs := []Outcome{{C: kvSet(st, "v2", "1"), Res: []Val{vbool(true)}}, {C: kvSet(st, "v2", "0"), Res: []Val{vbool(false)}}}
			if v := kvGet(st, "v2"); v == "1" {
				outs = outs[:1]
			} else if v == "0" {
				outs = outs[1:]
			}
			return outs, true
		}
		if !fallibleCall(c.Com) || own(c.Com) {
			return nil, false
		}
		m := methodName(c.Com)
		if m == "GetFunctionToCall" {
			good[0], bad[0] = vtag("fn:call"), Val{K: VNil}
		}
		if m == "handleAsyncCallBreakpoint" {
			return []Outcome{{C: kvSet(kvSet(st, "async", "done"), "failed", ""), Res: good}, {C: kvSet(kvSet(st, "async", "failed"), "failed", m), Res: bad}}, true
		}
		if m == "getCurrentAsyncInfo" {
			good[0] = Val{K: VNonNil}
		}
		if n == 3 && m == "ExecuteOnDestContext" {
			bad[0] = vtag("obj:errresult")
		}
		if m != "handleAsyncCallBreakpoint" {
			st = kvSet(st, "rc", "")
		}
		// a later failure does not hide an earlier one
		w := m
		if f := kvGet(st, "failed"); f != "" {
			w = f
		}
		return []Outcome{{C: st, Res: good}, {C: kvSet(st, "failed", w), Res: bad}}, true
	}
	e.Branch = func(e *Engine, fn *ssa.Function, cond ssa.Value, truth bool, st *State) bool {
		b, ok := cond.(*ssa.BinOp)
		if !ok {
			return true
		}
		x, y := e.Eval(st, b.X).T, e.Eval(st, b.Y).T
		op := b.Op
		if x == "gaslimit" && y == "points" {
			x, y = y, x
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		if x != "points" || y != "gaslimit" {
			return true
		}
		switch {
		case op == token.GTR && !truth, op == token.LEQ && truth, op == token.GEQ && !truth, op == token.LSS && truth:
			st.C = kvSet(st.C, "gas", "within")
		case op == token.GTR && truth, op == token.LEQ && !truth:
			st.C = kvSet(st.C, "gas", "over")
			if kvGet(st.C, "failed") == "" {
				st.C = kvSet(st.C, "failed", "gas")
			}
		}
		return true
	}
	return e
}

func c15Paths(p *Prog, r *Result, root *ssa.Function, stops, codes map[string]int64, resolved func(string) (int64, bool)) {
	e := c15Engine(p, root)
	nameOf := map[string]string{}
	for n, v := range stops {
		nameOf[fmt.Sprint(v)] = n
	}
	name := root.Name()
	r.saw(fname(root))
	hasErr := lastErrorOf(root)
	paths := 0
	for _, x := range e.Run(root, "") {
		paths++
		failed := kvGet(x.C, "failed")
		if debugOn {
			fmt.Println("C15", name, x.C, x.Res)
		}
		ran := kvGet(x.C, "ran")
		success := false
		if hasErr {
			n, known := x.Res[len(x.Res)-1].isNil()
			success = !known || n
			if known && !n && name == "execute" {
				// the error names the condition
				if bp := strings.TrimPrefix(failed, "the contract:"); bp != failed {
					c15Code(p, r, root, nameOf[bp], x.Res[len(x.Res)-1].T, codes, resolved)
				}
				if failed == "gas" {
					if got, ok := resolved(strings.TrimPrefix(x.Res[len(x.Res)-1].T, "err:")); !ok || got != codes["OutOfGas"] {
						r.violate("gas-code:"+name, p.pos(root.Pos()), "%s does not report a contract that used too much gas as out of gas", fname(root))
					}
				}
			}
		} else {
			res := x.Res[0]
			success = kvGet(x.C, "result") == "ok" && res.T != "obj:errresult"
			if !success {
				of := kvGet(x.C, "of")
				switch {
				case res.T != "obj:errresult":
					r.violate("no-result:"+name, p.pos(root.Pos()), "there is a path through %s that does not give the result of the execution", fname(root))
				case of == "nilerr":
					r.violate("nil-error:"+name, p.pos(root.Pos()), "%s can make the result of a failure without an error: its code would be success", fname(root))
				case failed == "gas":
					if got, ok := resolved(strings.TrimPrefix(of, "err:")); !ok || got != codes["OutOfGas"] {
						r.violate("gas-code:"+name, p.pos(root.Pos()), "%s does not report a contract that used too much gas as out of gas", fname(root))
					}
				default:
					if bp := strings.TrimPrefix(failed, "the contract:"); bp != failed {
						c15Code(p, r, root, nameOf[bp], of, codes, resolved)
					}
				}
			}
		}
		switch {
		case success && failed != "":
			r.violate("success:"+name+":"+strings.SplitN(failed, ":", 2)[0], p.pos(root.Pos()), "there is a path through %s that ends in success although this failed: %s", fname(root), describeFailure(failed, nameOf))
		case success && ran != "" && kvGet(x.C, "v2") != "0" && kvGet(x.C, "gas") != "within":
			if kvGet(x.C, "async") == "" && !strings.HasPrefix(name, "Execute") && name != "CreateNewContract" {
				r.violate("final-gas:"+name+":"+ran, p.pos(root.Pos()), "%s ends in success without a look at whether the contract used more gas than it had (%s)", fname(root), ran)
			} else if kvGet(x.C, "async") != "" && !strings.HasPrefix(name, "Execute") && name != "CreateNewContract" {
				r.violate("final-gas:"+name+":"+ran, p.pos(root.Pos()), "%s ends in success without a look at whether the contract used more gas than it had (%s, after an asynchronous call)", fname(root), ran)
			}
		default:
			r.ok("paths of executions whose result tells whether they failed")
		}
	}
	r.floor("paths of "+name, paths, 2)
	e.finish(r)
}

func describeFailure(failed string, nameOf map[string]string) string {
	if bp := strings.TrimPrefix(failed, "the contract:"); bp != failed {
		if n := nameOf[bp]; n != "" {
			return "the contract stopped with " + n
		}
		return "the contract stopped"
	}
	return failed
}

func c15Code(p *Prog, r *Result, root *ssa.Function, stop, of string, codes map[string]int64, resolved func(string) (int64, bool)) {
	want, ok := codeOfStop[stop]
	if !ok {
		return
	}
	got, ok := resolved(strings.TrimPrefix(of, "err:"))
	if !ok || got != codes[want] {
		r.violate("stop-result:"+root.Name()+":"+stop, p.pos(root.Pos()), "%s reports a contract that stopped with %s by %s, whose code is not %s", fname(root), stop, of, want)
	} else {
		r.ok("stop conditions reported with their code")
	}
}

// hasLoop: the function contains a loop.
func hasLoop(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}
