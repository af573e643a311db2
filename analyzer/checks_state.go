package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// contextOf names the VM context a method belongs to ("runtime", "output", ...), by its interface or its
// implementation.
func contextOf(name string) (ctx, method string) {
	i := strings.LastIndex(name, ".")
	if i < 0 {
		return "", ""
	}
	method = name[i+1:]
	rest := name[:i]
	switch {
	case strings.HasPrefix(rest, "arwen.") && strings.HasSuffix(rest, "Context"):
		rest = strings.TrimSuffix(strings.TrimPrefix(rest, "arwen."), "Context")
	case strings.HasPrefix(rest, "arwen/contexts.") && strings.HasSuffix(rest, "Context"):
		rest = strings.TrimSuffix(strings.TrimPrefix(rest, "arwen/contexts."), "Context")
	default:
		return "", ""
	}
	return strings.ToLower(rest[:1]) + rest[1:], method
}

var stackContexts = []string{"bigInt", "blockchain", "metering", "output", "runtime", "storage"}

func isStackContext(c string) bool {
	for _, s := range stackContexts {
		if s == c {
			return true
		}
	}
	return false
}

// ctxCall recognises a call on a context; methods of the StateStack interface are attributed to the
// context by the static type of the receiver expression.
func ctxCall(com *ssa.CallCommon) (ctx, method string) {
	name := calleeName(com)
	ctx, method = contextOf(name)
	if ctx != "" && isStackContext(ctx) {
		return ctx, method
	}
	// embedded interface: arwen.StateStack.PushState invoked on an arwen.XContext value
	if com.IsInvoke() && strings.HasPrefix(name, "arwen.StateStack.") {
		c, _ := contextOf("arwen." + typeName(com.Value.Type()) + ".x")
		if isStackContext(c) {
			return c, com.Method.Name()
		}
	}
	return "", ""
}

// outputEffects: operations that add something to the output, or drop something from it.
var outputEffects = map[string]bool{"Transfer": true, "TransferValueOnly": true, "TransferESDT": true, "AddTxValueToAccount": true, "DeployCode": true, "WriteLog": true, "DeleteOutputAccount": true, "Finish": true, "PrependFinish": true, "ClearReturnData": true, "CensorVMOutput": true}

var popKinds = map[string]string{"PopSetActiveState": "R", "PopDiscard": "K", "PopMergeActiveState": "K"}

// nestedRoots are the ways a contract is run by another one.
var nestedRoots = []string{"arwen/host.vmHost.ExecuteOnDestContext", "arwen/host.vmHost.ExecuteOnSameContext"}

func nestedEngine(p *Prog, on func(e *Engine, root string, c *CallCtx, ctx, m, st string)) *Engine {
	e := newEngine(p)
	roots := map[string]bool{}
	for _, n := range nestedRoots {
		roots[n] = true
	}
	e.IsEvent = func(com *ssa.CallCommon, name string) bool {
		ctx, m := ctxCall(com)
		if ctx == "" {
			return false
		}
		switch m {
		case "PushState", "PopSetActiveState", "PopDiscard", "PopMergeActiveState", "StartWasmerInstance", "AddToActiveState", "ProcessBuiltInFunction", "CreateVMOutputInCaseOfError", "GetVMOutput":
			return true
		}
		return ctx == "output" && outputEffects[m]
	}
	e.Skip = func(fn *ssa.Function) bool {
		pk := pkgRel(fn)
		return pk != "arwen/host" && pk != "arwen/elrondapi"
	}
	e.FieldLoad = func(st *State, base Val, field string) (Val, bool) {
		if field == "ReturnCode" {
			switch base.T {
			case "vmout:ok":
				return vint(0), true
			case "vmout:bad", "vmout:badbuiltin":
				return vint(10), true // execution failed
			case "vmout:bad4":
				return vint(4), true // user error
			case "vmout:bad5":
				return vint(5), true // out of gas
			}
		}
		return Val{}, false
	}
	e.Event = func(c *CallCtx) ([]Outcome, bool) {
		ctx, m := ctxCall(c.Com)
		cur := c.St.C
		if ctx == "" {
			return nil, false
		}
		switch m {
		case "PushState":
			return []Outcome{{C: kvAdd(cur, "d."+ctx, 1)}}, true
		case "PopSetActiveState", "PopDiscard", "PopMergeActiveState":
			k := popKinds[m]
			old := kvGet(cur, "p."+ctx)
			if !strings.Contains(old, k) {
				s := strings.Split(old+k, "")
				sort.Strings(s)
				cur = kvSet(cur, "p."+ctx, strings.Join(s, ""))
			}
			return []Outcome{{C: kvAdd(cur, "d."+ctx, -1)}}, true
		case "StartWasmerInstance":
			if on != nil {
				on(e, "", c, ctx, m, cur)
			}
			cur = kvSet(cur, "rc", "")
			return []Outcome{{C: kvSet(cur, "ran", "1"), Res: []Val{{K: VNil}}}, {C: cur, Res: []Val{{K: VNonNil}}}}, true
		case "ReturnCode":
			if ctx != "output" {
				return nil, false
			}
			var outs []Outcome
			if k := kvGet(cur, "rc"); k != "bad" {
				outs = append(outs, Outcome{C: kvSet(cur, "rc", "ok"), Res: []Val{vint(0)}})
			}
			if k := kvGet(cur, "rc"); k != "ok" {
				outs = append(outs, Outcome{C: kvSet(cur, "rc", "bad"), Res: []Val{vint(10)}})
			}
			return outs, true
		case "SetReturnCode":
			return []Outcome{{C: kvSet(cur, "rc", "")}}, true
		case "CreateVMOutputInCaseOfError":
			return []Outcome{{C: cur, Res: []Val{vtag("vmout:bad")}}, {C: cur, Res: []Val{vtag("vmout:bad4")}}, {C: cur, Res: []Val{vtag("vmout:bad5")}}}, true
		case "GetVMOutput":
			return []Outcome{{C: cur, Res: []Val{vtag("vmout:ok")}}, {C: cur, Res: []Val{vtag("vmout:bad")}}, {C: cur, Res: []Val{vtag("vmout:bad4")}}}, true
		case "ProcessBuiltInFunction":
			return []Outcome{
				{C: cur, Res: []Val{vtag("vmout:ok"), {K: VNil}}},
				{C: cur, Res: []Val{vtag("vmout:badbuiltin"), {K: VNil}}},
				{C: cur, Res: []Val{{K: VNil}, {K: VNonNil}}}}, true
		case "AddToActiveState", "Transfer", "TransferValueOnly", "TransferESDT", "AddTxValueToAccount", "DeployCode", "WriteLog", "DeleteOutputAccount", "Finish", "PrependFinish", "ClearReturnData", "CensorVMOutput":
			if kvGet(cur, "d.output") == "" {
				cur = kvSet(cur, "unsaved", m)
			}
			if n := c.Com.Signature().Results().Len(); n > 0 {
				good, bad := make([]Val, n), make([]Val, n)
				good[n-1], bad[n-1] = Val{K: VNil}, Val{K: VNonNil}
				return []Outcome{{C: cur, Res: good}, {C: cur, Res: bad}}, true
			}
			return []Outcome{{C: cur}}, true
		}
		return nil, false
	}
	e.Enter = func(f *ssa.Function, c string) string {
		if !roots[fname(f)] {
			return c
		}
		return ""
	}
	e.Leave = func(f *ssa.Function, before, after string) string {
		if !roots[fname(f)] {
			return after
		}
		// a complete nested execution: only what it left unbalanced matters to the caller
		for _, ctx := range stackContexts {
			if d := kvGet(after, "d."+ctx); d != "" {
				n := 0
				fmt.Sscanf(d, "%d", &n)
				before = kvAdd(before, "d."+ctx, n)
			}
		}
		return kvSet(before, "rc", "")
	}
	return e
}

func init() {
	register("C02", checkC02)
	register("C03", checkC03)
}

func checkC02(p *Prog, r *Result) {
	r.Rule = "Typestate over all paths of every host entry point and host API function (interprocedural, deferred calls included): the number of saved states per context at each return equals the number at entry, and never falls below it; before another contract's instance is started inside a nested execution, output, runtime, metering, big integers and blockchain (and storage, when its focus is moved) have been saved. Each pop/push implementation changes its stack by exactly one."
	r.Assumptions = []string{"contexts are reached through the arwen.*Context interfaces", "a panic ends the transaction, so only returning paths are considered"}
	starts := 0
	var e *Engine
	e = nestedEngine(p, func(_ *Engine, _ string, c *CallCtx, ctx, m, st string) {
		if kvGet(st, "top") == "1" {
			return
		}
		starts++
		for _, need := range []string{"output", "runtime", "metering", "bigInt", "blockchain"} {
			if d := kvGet(st, "d."+need); d == "" || strings.HasPrefix(d, "-") {
				r.violate("start-unsaved:"+need, p.pos(c.Instr.Pos()), "%s starts a contract instance in a nested execution although the state of %s was not saved on some path", fname(c.Fn), need)
			} else {
				r.ok("saved-before-start")
			}
		}
	})
	// moving the storage focus, or re-initialising a context, needs a saved state as well
	base := e.Event
	isEv := e.IsEvent
	needs := map[string]string{"storage.SetAddress": "storage", "runtime.InitStateFromContractCallInput": "runtime", "metering.InitStateFromContractCallInput": "metering", "bigInt.InitState": "bigInt", "output.CensorVMOutput": "output", "output.InitState": "output", "runtime.InitState": "runtime", "metering.InitState": "metering"}
	e.IsEvent = func(com *ssa.CallCommon, name string) bool {
		ctx, m := ctxCall(com)
		return needs[ctx+"."+m] != "" || isEv(com, name)
	}
	e.Event = func(c *CallCtx) ([]Outcome, bool) {
		ctx, m := ctxCall(c.Com)
		if n := needs[ctx+"."+m]; n != "" {
			if kvGet(c.St.C, "top") != "1" {
				if d := kvGet(c.St.C, "d."+n); d == "" || strings.HasPrefix(d, "-") {
					r.violate("overwrite-unsaved:"+fname(c.Fn)+":"+ctx+"."+m, p.pos(c.Instr.Pos()), "%s calls %s.%s on a path on which the state of %s was not saved", fname(c.Fn), ctx, m, n)
				} else {
					r.ok("saved-before-overwrite")
				}
			}
			return []Outcome{{C: c.St.C}}, true
		}
		outs, ok := base(c)
		if ok && popKinds[m] != "" && ctx != "" {
			if d := kvGet(outs[0].C, "d."+ctx); strings.HasPrefix(d, "-") {
				r.violate("underflow:"+fname(c.Fn)+":"+ctx, p.pos(c.Instr.Pos()), "%s removes a saved state of %s that it did not save", fname(c.Fn), ctx)
			}
			r.ok("pop-follows-push")
		}
		return outs, ok
	}
	roots := 0
	for _, fn := range p.Funcs {
		pk := pkgRel(fn)
		if fn.Parent() != nil || (pk != "arwen/host" && pk != "arwen/elrondapi") || fn.Object() == nil || !fn.Object().Exported() && !strings.HasPrefix(fn.Name(), "v1_3_") {
			continue
		}
		e.computeRelevance()
		if !e.relevant[fn] {
			continue
		}
		if strings.HasPrefix(fn.Name(), "Init") || strings.HasPrefix(fn.Name(), "New") || fn.Name() == "Clean" || fn.Name() == "ClearContextStateStack" {
			continue
		}
		roots++
		nested := false
		for _, n := range nestedRoots {
			nested = nested || fname(fn) == n
		}
		init := "top=1"
		if nested {
			init = ""
		}
		for _, x := range e.Run(fn, init) {
			bad := false
			for _, ctx := range stackContexts {
				if d := kvGet(x.C, "d."+ctx); d != "" {
					bad = true
					r.violate("unbalanced:"+fname(fn)+":"+ctx, p.pos(fn.Pos()), "a path through %s leaves the saved states of %s changed by %s", fname(fn), ctx, d)
				}
			}
			if !bad {
				r.ok("balanced-exit")
			}
		}
	}
	for _, sp := range append([]ctxSpec{{ctx: "blockchainContext", stack: "stateStack"}}, ctxSpecs...) {
		for _, mn := range []string{"PopSetActiveState", "PopDiscard", "PopMergeActiveState"} {
			if m := p.fn("arwen/contexts." + sp.ctx + "." + mn); m != nil {
				emptyGuard(p, r, m, sp.ctx, sp.stack)
			}
		}
	}
	r.floor("entry points", roots, 20)
	r.floor("instance starts in nested executions", starts, 2)
	e.finish(r)
}

func checkC03(p *Prog, r *Result) {
	r.Rule = "Typestate over all paths of the nested execution entry points, correlated with the error and output they return: on every exit that reports a failure, each saved state was put back (PopSetActiveState) and nothing was added to the output before it was saved; on every exit that reports success, output, gas and blockchain states were kept (PopMergeActiveState/PopDiscard) while runtime and storage were put back."
	r.Assumptions = []string{"the implementations of the pop methods do what C01 decides about them", "an output made by CreateVMOutputInCaseOfError has a return code other than Ok (C15)"}
	e := nestedEngine(p, nil)
	exits := 0
	fails, oks := 0, 0
	for _, name := range nestedRoots {
		fn := p.fn(name)
		if fn == nil {
			r.violate("missing:"+name, "-", "the nested execution entry point is gone")
			continue
		}
		for _, x := range e.Run(fn, "") {
			exits++
			if len(x.Res) == 0 {
				continue
			}
			errv := x.Res[len(x.Res)-1]
			isNil, known := errv.isNil()
			short := fn.Name()
			any := false
			for _, ctx := range stackContexts {
				any = any || kvGet(x.C, "p."+ctx) != ""
			}
			if !any {
				continue // refused before anything was saved
			}
			if !known {
				r.violate("uncorrelated:"+short, p.pos(fn.Pos()), "%s has an exit on which the states were popped without looking at the error that is returned", name)
				continue
			}
			outBad := x.Res[0].K == VTag && strings.HasPrefix(x.Res[0].T, "vmout:bad")
			of := ""
			if outBad && x.Res[0].T != "vmout:badbuiltin" {
				of = ":of-the-contract"
			}
			failed := !isNil
			if failed {
				fails++
			} else {
				oks++
			}
			for _, ctx := range stackContexts {
				k := kvGet(x.C, "p."+ctx)
				if k == "" {
					continue
				}
				switch {
				case failed && k != "R":
					r.violate("failure-kept:"+short+":"+ctx, p.pos(fn.Pos()), "on a failing path of %s the state of %s is kept instead of being put back", name, ctx)
				case !failed && outBad && k != "R" && (ctx == "output" || ctx == "blockchain" || ctx == "metering"):
					r.violate("bad-output-kept:"+short+":"+ctx+of, p.pos(fn.Pos()), "on a path of %s that ends with a failing return code but no error, the state of %s is kept", name, ctx)
				case !failed && !outBad && k != "K" && (ctx == "output" || ctx == "blockchain" || ctx == "metering"):
					r.violate("success-lost:"+short+":"+ctx, p.pos(fn.Pos()), "on a successful path of %s the effects on %s are thrown away", name, ctx)
				case k != "R" && (ctx == "runtime" || ctx == "storage"):
					r.violate("caller-not-restored:"+short+":"+ctx, p.pos(fn.Pos()), "a path of %s does not give the caller its %s state back", name, ctx)
				default:
					r.ok("exit-" + ctx)
				}
			}
			if failed && kvGet(x.C, "unsaved") != "" {
				r.violate("unsaved-effect:"+short+":"+kvGet(x.C, "unsaved"), p.pos(fn.Pos()), "on a failing path of %s the output keeps what was added to it (%s) before its state was saved", name, kvGet(x.C, "unsaved"))
			}
		}
	}
	// contract creation: when it fails, the new account is removed again
	checkCreateUndone(p, r)
	r.floor("exits of nested executions", exits, 6)
	r.floor("failing exits", fails, 3)
	r.floor("successful exits", oks, 2)
	e.finish(r)
}

func checkCreateUndone(p *Prog, r *Result) {
	fn := p.fn("arwen/host.vmHost.CreateNewContract")
	if fn == nil {
		r.violate("missing:CreateNewContract", "-", "CreateNewContract is gone")
		return
	}
	e := newEngine(p)
	ev := func(com *ssa.CallCommon) string {
		ctx, m := ctxCall(com)
		switch ctx + "." + m {
		case "output.DeployCode":
			return "deploy"
		case "output.DeleteOutputAccount":
			return "delete"
		}
		if calleeName(com) == "arwen/host.vmHost.ExecuteOnDestContext" || calleeName(com) == "arwen.VMHost.ExecuteOnDestContext" {
			return "run"
		}
		return ""
	}
	e.IsEvent = func(com *ssa.CallCommon, _ string) bool { return ev(com) != "" }
	e.Skip = func(fn *ssa.Function) bool { return pkgRel(fn) != "arwen/host" }
	e.Event = func(c *CallCtx) ([]Outcome, bool) {
		switch ev(c.Com) {
		case "deploy":
			return []Outcome{{C: kvSet(c.St.C, "code", "1")}}, true
		case "delete":
			return []Outcome{{C: kvSet(c.St.C, "code", "")}}, true
		case "run":
			return []Outcome{{C: c.St.C, Res: []Val{{}, {}, {K: VNil}}}, {C: c.St.C, Res: []Val{{}, {}, {K: VNonNil}}}}, true
		}
		return nil, false
	}
	for _, x := range e.Run(fn, "") {
		if len(x.Res) != 2 {
			continue
		}
		isNil, known := x.Res[1].isNil()
		if !known || !isNil {
			if kvGet(x.C, "code") == "1" {
				r.violate("failed-create-kept", p.pos(fn.Pos()), "a failing path of CreateNewContract leaves the new contract's code in the output")
			} else {
				r.ok("failed-create-undone")
			}
		} else if kvGet(x.C, "code") != "1" {
			r.violate("create-without-code", p.pos(fn.Pos()), "a successful path of CreateNewContract does not deploy the code")
		} else {
			r.ok("create-deploys")
		}
	}
	e.finish(r)
}
