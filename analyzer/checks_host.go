package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C04", checkC04) }

const hostPkg = "arwen/host"

// anyCtxCall recognises a call on any VM context, the stack methods of the embedded interface included.
func anyCtxCall(com *ssa.CallCommon) (ctx, method string) {
	ctx, method = ctxCall(com)
	if ctx == "" {
		ctx, method = contextOf(calleeName(com))
	}
	return
}

// unknownCall: a call of a function value, which is contract code or a hook, as far as the VM can tell.
func unknownCall(com *ssa.CallCommon) bool {
	if com.IsInvoke() || com.StaticCallee() != nil {
		return false
	}
	_, isBuiltin := com.Value.(*ssa.Builtin)
	return !isBuiltin
}

func fieldsOfType(t types.Type, name string) []string {
	var out []string
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if typeName(st.Field(i).Type()) == name {
			out = append(out, st.Field(i).Name())
		}
	}
	return out
}

// flagField: a method call on a field of the host that is a flag.
func flagField(com *ssa.CallCommon, typ string) string {
	if com.IsInvoke() || len(com.Args) == 0 {
		return ""
	}
	fa, ok := com.Args[0].(*ssa.FieldAddr)
	if !ok || typeName(deref(fa.X.Type())) != typ || typeName(fa.Type()) != "Flag" {
		return ""
	}
	return fieldName(fa.X.Type(), fa.Field)
}

var topEntries = []string{"arwen/host.vmHost.RunSmartContractCreate", "arwen/host.vmHost.RunSmartContractCall"}

var statefulContexts = []string{"bigInt", "metering", "output", "runtime", "storage"}

// checkC04: every top-level execution starts clean, ends cleaned up, and gives an answer.
func checkC04(p *Prog, r *Result) {
	r.Rule = "Typestate over all paths of the top-level entry points, with a crash injected at every call that leaves the host (contexts, contract code, hooks): the saved states of all six contexts are cleared and the five stateful contexts initialised before any other use; every epoch flag and every other transaction-dependent field of the host is set again; every started instance is released on every normal, failing and crashing path unless found to be the warm one; no crash leaves the entry point, and every return has a result or an error - after a crash always an error."
	r.Assumptions = []string{"the deferred functions of nested executions do not crash themselves", "logging does not crash"}
	hostT := p.namedType(hostPkg, "vmHost")
	if hostT == nil {
		r.violate("missing:vmHost", "-", "the host type is gone")
		return
	}
	flags := fieldsOfType(hostT, "Flag")
	r.floor("epoch flags of the host", len(flags), 5)

	// parts of the host that change while it lives
	skip := func(fn *ssa.Function) bool {
		n := fn.Name()
		return n == "GasScheduleChange" || strings.HasPrefix(n, "Set") || strings.HasPrefix(n, "New")
	}
	written := p.writtenFields("vmHost", map[string]bool{hostPkg: true}, skip)
	var mutable []string
	for f := range written {
		mutable = append(mutable, f)
	}
	sort.Strings(mutable)

	entries := 0
	for _, name := range topEntries {
		fn := p.fn(name)
		if fn == nil {
			r.violate("missing:"+name, "-", "the entry point is gone")
			continue
		}
		entries++
		e := newEngine(p)
		e.Panics = true
		e.Skip = func(f *ssa.Function) bool {
			if pkgRel(f) != hostPkg {
				return true
			}
			switch f.Name() {
			case "ExecuteOnDestContext", "ExecuteOnSameContext", "CreateNewContract", "ExecuteESDTTransfer":
				return true // nested executions: C02, C03
			}
			return false
		}
		hostStore := func(in ssa.Instruction) string {
			st, ok := in.(*ssa.Store)
			if !ok {
				return ""
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || typeName(deref(fa.X.Type())) != "vmHost" {
				return ""
			}
			return fieldName(fa.X.Type(), fa.Field)
		}
		nestedCall := func(com *ssa.CallCommon, name string) bool {
			for _, n := range []string{".ExecuteOnDestContext", ".ExecuteOnSameContext", ".CreateNewContract", ".ExecuteESDTTransfer", ".ProcessBuiltInFunction"} {
				if strings.HasSuffix(name, n) {
					return true
				}
			}
			return false
		}
		e.IsRelevantInstr = func(in ssa.Instruction) bool { return hostStore(in) != "" }
		e.IsEvent = func(com *ssa.CallCommon, name string) bool {
			ctx, _ := anyCtxCall(com)
			return ctx != "" || name == "builtin.recover" || flagField(com, "vmHost") != "" || unknownCall(com) || nestedCall(com, name)
		}
		missing := map[string]bool{}
		ready := func(c string) (string, bool) {
			for _, x := range stackContexts {
				if kvGet(c, "c."+x) == "" {
					return "the saved states of " + x + " are not cleared", false
				}
			}
			for _, x := range statefulContexts {
				if kvGet(c, "i."+x) == "" {
					return x + " is not initialised", false
				}
			}
			return "", true
		}
		configured := func(c string) (string, bool) {
			for _, f := range flags {
				if kvGet(c, "f."+f) == "" {
					return "the flag " + f + " was not set for the current epoch", false
				}
			}
			for _, f := range mutable {
				if kvGet(c, "w."+f) == "" {
					return "the field " + f + " of the host was not reset", false
				}
			}
			return "", true
		}
		if len(flags)+len(mutable) > 40 {
			r.violate("too-many-host-fields", "-", "the host has too many changing fields")
		}
		e.Instr = func(e *Engine, f *ssa.Function, in ssa.Instruction, st *State) {
			if n := hostStore(in); n != "" && kvGet(st.C, "ready") == "" {
				st.C = kvSet(st.C, "w."+n, "1")
			}
		}
		crash := func(c string) Outcome { return Outcome{C: kvSet(c, "crashed", "1"), Panic: true} }
		e.Event = func(c *CallCtx) ([]Outcome, bool) {
			cur := c.St.C
			if fl := flagField(c.Com, "vmHost"); fl != "" {
				switch methodName(c.Com) {
				case "Toggle", "Set", "Unset":
					if kvGet(cur, "ready") == "" {
						cur = kvSet(cur, "f."+fl, "1")
					}
					return []Outcome{{C: cur}}, true
				}
				return []Outcome{{C: cur}}, true
			}
			ctx, m := anyCtxCall(c.Com)
			if ctx == "" {
				if nestedCall(c.Com, c.Name) || unknownCall(c.Com) && len(c.Impl) == 0 {
					return []Outcome{{C: cur}, crash(cur)}, true
				}
				return nil, false
			}
			if m == "IsInterfaceNil" || m == "IsNil" {
				return nil, false
			}
			switch m {
			case "ClearStateStack":
				cur = kvSet(cur, "c."+ctx, "1")
				return []Outcome{{C: cur}, crash(cur)}, true
			case "InitState":
				if ctx != "blockchain" {
					cur = kvSet(cur, "i."+ctx, "1")
				}
				return []Outcome{{C: cur}, crash(cur)}, true
			}
			if kvGet(cur, "ready") == "" {
				if why, ok := ready(cur); !ok {
					k := "used-before-reset:" + fname(c.Fn) + ":" + ctx + "." + m
					r.violate(k, p.pos(c.Instr.Pos()), "%s uses %s.%s in a top-level execution when %s", fname(c.Fn), ctx, m, why)
					missing[k] = true
				}
				if ctx == "blockchain" {
					return []Outcome{{C: cur}, crash(cur)}, true
				}
				if why, ok := configured(cur); !ok {
					k := "not-configured:" + fname(c.Fn)
					r.violate(k, p.pos(c.Instr.Pos()), "%s uses %s.%s in a top-level execution when %s", fname(c.Fn), ctx, m, why)
				}
				// from here on the details of the start do not matter
				cur = kvSet(kvSet("", "ready", "1"), "crashed", kvGet(cur, "crashed"))
				r.ok("start-clean")
			}
			switch ctx + "." + m {
			case "runtime.StartWasmerInstance":
				return []Outcome{{C: kvSet(cur, "inst", "1"), Res: []Val{{K: VNil}}}, {C: cur, Res: []Val{{K: VNonNil}}}, crash(kvSet(cur, "inst", "1"))}, true
			case "runtime.CleanWasmerInstance":
				return []Outcome{{C: kvSet(cur, "inst", "")}}, true
			case "runtime.ResetWarmInstance":
				return []Outcome{{C: cur}}, true
			case "runtime.IsWarmInstance":
				return []Outcome{{C: kvSet(cur, "inst", ""), Res: []Val{vbool(true)}}, {C: cur, Res: []Val{vbool(false)}}}, true
			case "runtime.GetAllErrors":
				return []Outcome{{C: cur}}, true
			case "output.CreateVMOutputInCaseOfError", "output.GetVMOutput":
				return []Outcome{{C: cur, Res: []Val{{K: VNonNil}}}, crash(cur)}, true
			}
			return []Outcome{{C: cur}, crash(cur)}, true
		}
		starts := false
		for _, x := range e.Run(fn, "") {
			if debugOn {
				println(x.C, x.Panic, len(x.Res), e.vs(x.Res[0]), e.vs(x.Res[1]))
			}
			if x.Panic {
				r.violate("crash-escapes:"+fn.Name(), p.pos(fn.Pos()), "a crash inside the VM can leave %s", name)
				continue
			}
			starts = true
			if kvGet(x.C, "inst") != "" {
				r.violate("instance-kept:"+fn.Name()+":"+kvGet(x.C, "crashed"), p.pos(fn.Pos()), "a path through %s ends without releasing the contract instance it started", name)
			} else {
				r.ok("instance-released")
			}
			if len(x.Res) != 2 {
				r.violate("results:"+fn.Name(), p.pos(fn.Pos()), "%s does not return an output and an error", name)
				continue
			}
			outNil, outKnown := x.Res[0].isNil()
			errNil, errKnown := x.Res[1].isNil()
			switch {
			case kvGet(x.C, "crashed") == "1" && (!errKnown || errNil):
				r.violate("crash-unreported:"+fn.Name(), p.pos(fn.Pos()), "after a crash %s can return without an error", name)
			case kvGet(x.C, "crashed") == "" && (!outKnown || outNil) && (!errKnown || errNil):
				r.violate("no-answer:"+fn.Name(), p.pos(fn.Pos()), "%s can return neither an output nor an error", name)
			default:
				r.ok("answer")
			}
		}
		if !starts {
			r.violate("no-exit:"+fn.Name(), p.pos(fn.Pos()), "no path through %s was found", name)
		}
		if r.Obligations["start-clean"] == 0 && len(r.Violations) == 0 {
			r.violate("never-starts:"+fn.Name(), p.pos(fn.Pos()), "%s never reaches the contexts", name)
		}
		e.finish(r)
	}
	r.floor("entry points", entries, 2)

	// clearing means clearing
	for _, ctx := range stackContexts {
		typ := ctx + "Context"
		fn := p.fn("arwen/contexts." + typ + ".ClearStateStack")
		if fn == nil {
			r.violate("missing:"+typ+".ClearStateStack", "-", "the method is gone")
			continue
		}
		exits, _ := mustStores(p, fn, typ)
		for _, m := range exits {
			if !m["stateStack"] {
				r.violate("not-cleared:"+typ, p.pos(fn.Pos()), "%s does not drop the saved states on every path", fname(fn))
			} else {
				r.ok("stack-cleared")
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldName(fa.X.Type(), fa.Field) != "stateStack" {
					continue
				}
				if !emptySlice(st.Val) {
					r.violate("stack-carried-over:"+typ, p.pos(in.Pos()), "%s keeps saved states", fname(fn))
				} else {
					r.ok("stack-emptied")
				}
			}
		}
	}
}

// emptySlice: a value that certainly is a slice without elements, or unknown to the function (a call).
func emptySlice(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.MakeSlice:
		n, ok := constInt(x.Len)
		return ok && n == 0
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			if at, ok := deref(al.Type()).Underlying().(*types.Array); ok && at.Len() == 0 {
				return true
			}
		}
		n, ok := constInt(x.High)
		return ok && n == 0
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !emptySlice(e) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && f.Blocks != nil && f.Signature.Results().Len() == 1 {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ret, ok := in.(*ssa.Return); ok && !emptySlice(ret.Results[0]) {
						return false
					}
				}
			}
			return true
		}
	}
	return false
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return 0, false
	}
	x := constVal(c)
	return x.N, x.K == VInt
}
