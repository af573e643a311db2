package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C08", checkC08) }

// errorCall tells whether a call can fail: its last result is an error. makers of errors are no failures.
func errorCall(com *ssa.CallCommon) (n int, maker, ok bool) {
	sig := com.Signature()
	n = sig.Results().Len()
	if n == 0 || !isErrorType(sig.Results().At(n-1).Type()) {
		return n, false, false
	}
	switch calleeName(com) {
	case "errors.New", "fmt.Errorf":
		return n, true, true
	}
	if o := calleeObj(com); o != nil && o.Pkg() != nil {
		switch o.Pkg().Path() {
		case "errors":
			return n, true, true
		case "fmt":
			return n, o.Name() == "Errorf", o.Name() == "Errorf"
		}
		if strings.HasPrefix(o.Name(), "WrapError") || strings.HasPrefix(o.Name(), "NewWrappedError") {
			return n, true, true
		}
	}
	return n, false, true
}

// undoes: putting the blockchain back is part of answering a failure.
func undoes(com *ssa.CallCommon) bool {
	ctx, m := anyCtxCall(com)
	return ctx == "blockchain" && m == "RevertToSnapshot"
}

// droppedErrors finds the calls whose error is never looked at.
func droppedErrors(fn *ssa.Function) []*ssa.Call {
	var out []*ssa.Call
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			n, maker, ok := errorCall(call.Common())
			if !ok || maker || !vmOperation(call.Common()) {
				continue
			}
			var errs []ssa.Value
			if n == 1 {
				errs = append(errs, call)
			} else {
				for _, u := range *call.Referrers() {
					if x, ok := u.(*ssa.Extract); ok && x.Index == n-1 {
						errs = append(errs, x)
					}
				}
			}
			looked := false
			for _, v := range errs {
				looked = looked || isLookedAt(v, map[ssa.Value]bool{})
			}
			if !looked {
				out = append(out, call)
			}
		}
	}
	return out
}

// vmOperation: an operation of the VM itself or of the blockchain it asks, not of some library.
func vmOperation(com *ssa.CallCommon) bool {
	o := calleeObj(com)
	if o == nil || o.Pkg() == nil {
		return false
	}
	path := o.Pkg().Path()
	return isModPath(path) || com.IsInvoke() && strings.HasSuffix(path, "/elrond-vm-common")
}

// isLookedAt: the value is compared, returned, stored or handed to something other than the log.
func isLookedAt(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			if isLookedAt(x, seen) {
				return true
			}
		case *ssa.ChangeInterface:
			if isLookedAt(x, seen) {
				return true
			}
		case *ssa.MakeInterface:
			if isLookedAt(x, seen) {
				return true
			}
		case *ssa.Store:
			if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
				if al, ok := ia.X.(*ssa.Alloc); ok && onlyLogged(al) {
					continue // an argument of the log
				}
			}
			return true
		default:
			return true
		}
	}
	return false
}

// onlyLogged: a list of arguments that is only given to a logger.
func onlyLogged(al *ssa.Alloc) bool {
	for _, u := range *al.Referrers() {
		sl, ok := u.(*ssa.Slice)
		if !ok {
			continue
		}
		for _, w := range *sl.Referrers() {
			ci, ok := w.(ssa.CallInstruction)
			if !ok || !strings.Contains(calleeName(ci.Common()), "ogger.") {
				return false
			}
		}
	}
	return true
}

// failsExecution: the call ends the execution of the contract.
func failsExecution(com *ssa.CallCommon) bool {
	ctx, m := anyCtxCall(com)
	return ctx == "runtime" && (m == "FailExecution" || m == "SignalUserError" || m == "SetRuntimeBreakpointValue")
}

func checkC08(p *Prog, r *Result) {
	r.Rule = "Typestate over all paths of every host function, with the helpers it uses: after an operation that can fail has failed, nothing that matters is done any more - no memory access, storage, output, big integer, blockchain, cryptographic or execution operation - until the execution was failed, and the function does not end as if all was well: the execution was failed, or what it answers to the contract is a constant other than zero."
	r.Assumptions = []string{"an operation fails when its last result is an error that is not nil", "conditions over values other than nil, booleans and small constants may go either way"}
	e := newEngine(p)
	e.IsEvent = func(com *ssa.CallCommon, name string) bool {
		_, _, ok := errorCall(com)
		return ok || failsExecution(com) || sensitive(com) != ""
	}
	e.Skip = func(f *ssa.Function) bool {
		rel := pkgRel(f)
		return !(isAPIPkg(rel) || rel == "arwen" || constResult(f))
	}
	e.Force = constResult
	var root *ssa.Function
	seen := map[string]bool{}
	calls := map[ssa.Instruction]bool{}
	e.Event = func(c *CallCtx) ([]Outcome, bool) {
		st := c.St.C
		if v, ok := constCall(p, c.Com); ok {
			return []Outcome{{C: st, Res: []Val{v}}}, true
		}
		if failsExecution(c.Com) {
			return []Outcome{{C: "", Res: nil}}, true
		}
		if what := sensitive(c.Com); what != "" && st != "" && !strings.HasPrefix(st, "pure:") && !undoes(c.Com) {
			op := strings.SplitN(st, "@", 2)
			k := "continues:" + fname(root) + ":" + op[0]
			if !seen[k] {
				seen[k] = true
				r.violate(k, p.pos(c.Instr.Pos()), "%s: %s (%s) although %s failed before (%s)", fname(root), what, c.Name, op[0], op[1])
			}
		}
		n, maker, ok := errorCall(c.Com)
		if !ok {
			return nil, false
		}
		// helpers of the host functions are looked into
		if !maker {
			inl := len(c.Impl) > 0
			for _, g := range c.Impl {
				if !e.inlineable(g) {
					inl = false
				}
			}
			if inl {
				return nil, false
			}
		}
		res := func(last Val) []Val {
			out := make([]Val, n)
			out[n-1] = last
			return out
		}
		if maker {
			return []Outcome{{C: st, Res: res(Val{K: VNonNil})}}, true
		}
		if !calls[c.Instr] {
			calls[c.Instr] = true
			r.ok("operation that can fail")
		}
		failed := st
		if failed == "" {
			failed = c.Name + "@" + p.pos(c.Instr.Pos())
			if ctx, _ := anyCtxCall(c.Com); ctx == "" && !isCryptoHook(c.Com) {
				failed = "pure:" + failed
			}
		}
		return []Outcome{{C: st, Res: res(Val{K: VNil})}, {C: failed, Res: res(Val{K: VNonNil})}}, true
	}
	e.OnReturn = func(e *Engine, fn *ssa.Function, in ssa.Instruction, st *State, res []Val) {
		if fn != root {
			if n := len(res); n > 0 && isErrorType(fn.Signature.Results().At(n-1).Type()) && res[n-1].K == VNonNil && st.C == "" {
				st.C = fname(fn) + "@" + p.pos(in.Pos())
			}
			if len(res) == 1 && res[0].K == VFalse && strings.HasPrefix(st.C, "pure:") {
				st.C = "" // a question about data was answered with no
			}
			return
		}
		if st.C == "" {
			r.ok("ends without an unanswered failure")
			return
		}
		for i, v := range res {
			b, isInt := fn.Signature.Results().At(i).Type().Underlying().(*types.Basic)
			if isInt && b.Info()&types.IsInteger != 0 && v.K == VInt && v.N != 0 {
				r.ok("the failure is reported to the contract")
				return
			}
		}
		op := strings.SplitN(st.C, "@", 2)
		k := "swallowed:" + fname(root) + ":" + op[0]
		if !seen[k] {
			seen[k] = true
			r.violate(k, p.pos(in.Pos()), "%s ends as if all was well although %s failed (%s)", fname(root), op[0], op[1])
		}
	}
	n := 0
	for _, f := range p.hostFunctions() {
		root = f
		n++
		r.saw(fname(f))
		e.memo = map[string]*summary{}
		e.Run(f, "")
	}
	for _, o := range e.Overflow {
		r.violate("overflow:"+o, "-", "analysis gave up: %s", o)
	}
	p.modularErrors(r)
	for _, f := range p.Funcs {
		rel := pkgRel(f)
		if rel != "arwen" && !strings.HasPrefix(rel, "arwen/") || strings.HasPrefix(rel, "arwen/mock") {
			continue
		}
		r.saw(fname(f))
		for _, call := range droppedErrors(f) {
			owner := rel
			if f.Signature.Recv() != nil {
				owner = typeName(f.Signature.Recv().Type())
			}
			o := calleeObj(call.Common())
			r.violate("dropped:"+owner+":"+o.Name(), p.pos(call.Pos()), "%s never looks at the error of %s", fname(f), calleeName(call.Common()))
		}
	}
	r.floor("host functions", n, 100)
	r.floor("operations that can fail", len(calls), 60)
}

// isQuestion: what could not be found out is no operation that failed.
func isQuestion(com *ssa.CallCommon) bool {
	o := calleeObj(com)
	return o != nil && strings.HasPrefix(strings.ToLower(o.Name()), "get")
}

// modularErrors: a function of the VM that can itself report an error reports that of an operation it made.
func (p *Prog) modularErrors(r *Result) {
	e := newEngine(p)
	e.IsEvent = func(com *ssa.CallCommon, name string) bool {
		_, _, ok := errorCall(com)
		return ok || calleeName(com) == "errors.Is"
	}
	e.Skip = func(f *ssa.Function) bool { return f.Parent() == nil }
	// what a contract that was called did wrong is its caller's to see: C03, C15 and C21
	running := p.reaching(func(com *ssa.CallCommon, name string) bool {
		return unknownCall(com) && typeName(com.Value.Type()) == "ExportedFunctionCallback"
	})
	runs := func(fs []*ssa.Function) bool {
		for _, f := range fs {
			if running[f] {
				return true
			}
		}
		return false
	}
	seen := map[string]bool{}
	e.Event = func(c *CallCtx) ([]Outcome, bool) {
		st := c.St.C
		n, maker, ok := errorCall(c.Com)
		if o := calleeObj(c.Com); o != nil && o.Pkg() != nil && o.Pkg().Path() == "errors" && o.Name() == "Is" {
			// a particular error was expected
			return []Outcome{{C: "", Res: []Val{vbool(true)}}, {C: st, Res: []Val{vbool(false)}}}, true
		}
		if !ok {
			return nil, false
		}
		res := func(last Val) []Val {
			out := make([]Val, n)
			out[n-1] = last
			return out
		}
		if maker {
			return []Outcome{{C: st, Res: res(Val{K: VNonNil})}}, true
		}
		failed := st
		if failed == "" && vmOperation(c.Com) && !runs(c.Impl) && !isQuestion(c.Com) {
			failed = c.Name + "@" + p.pos(c.Instr.Pos())
		}
		return []Outcome{{C: st, Res: res(Val{K: VNil})}, {C: failed, Res: res(Val{K: VNonNil})}}, true
	}
	var root *ssa.Function
	e.OnReturn = func(e *Engine, fn *ssa.Function, in ssa.Instruction, st *State, res []Val) {
		if fn != root || st.C == "" {
			return
		}
		n := len(res)
		if res[n-1].K == VNonNil {
			r.ok("the failure is handed on")
			return
		}
		op := strings.SplitN(st.C, "@", 2)
		k := "not-reported:" + fname(root) + ":" + op[0]
		if !seen[k] {
			seen[k] = true
			r.violate(k, p.pos(in.Pos()), "%s can answer without error although %s failed (%s)", fname(root), op[0], op[1])
		}
	}
	for _, f := range p.Funcs {
		rel := pkgRel(f)
		if rel != "arwen/host" && rel != "arwen/contexts" || f.Parent() != nil {
			continue
		}
		n := f.Signature.Results().Len()
		if n == 0 || !isErrorType(f.Signature.Results().At(n-1).Type()) {
			continue
		}
		root = f
		r.saw(fname(f))
		e.memo = map[string]*summary{}
		e.Run(f, "")
	}
	for _, o := range e.Overflow {
		r.violate("overflow:"+o, "-", "analysis gave up: %s", o)
	}
}
