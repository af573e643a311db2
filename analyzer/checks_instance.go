package main

// Contract instances are released, once, after their last use (C19).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C19", checkC19) }

const (
	ctxPkg  = "arwen/contexts"
	wasmPkg = "wasmer"
)

func checkC19(p *Prog, r *Result) {
	r.Rule = "ownership typestate of contract instances: in the runtime context (abstract field store over every entry configuration), in the executions of the host (with failures and crashes injected), and of the native handles in the wasmer package"
	r.Assumptions = []string{
		"wasmer_instance_destroy, wasmer_memory_destroy and wasmer_exports_destroy release what the functions of the same family created",
	}
	c19Start(p, r)
	c19Clean(p, r)
	c19Stack(p, r)
	c19Host(p, r)
	c19Native(p, r)
	c19Limit(p, r)
}

// instWorld describes what the runtime context holds when a function is entered.
type instWorld struct {
	name      string
	cur, warm string // "" = nil
	useWarm   bool
	stack     int // elements e0, e1, … ; "" as top means that the top is nil
	nilTop    bool
	max       int64
	states    int // length of the state stack, -1 = unknown
	warmAddr  bool
}

// instEngine explores methods of the runtime context over an abstract store of its fields.
func instEngine(p *Prog, w instWorld, bad func(key, pos, format string, args ...interface{})) (*Engine, func(c string)) {
	eng := newEngine(p)
	val := func(s string) Val {
		if s == "" || s == "nil" {
			return Val{K: VNil}
		}
		return vtag("inst:" + s)
	}
	name := func(v Val) string {
		switch {
		case v.K == VNil:
			return ""
		case strings.HasPrefix(v.T, "inst:"):
			return v.T[5:]
		}
		return "?"
	}
	get := func(c, k, dflt string) string {
		if v := kvGet(c, k); v != "" {
			if v == "nil" {
				return ""
			}
			return v
		}
		return dflt
	}
	put := func(c, k, v string) string {
		if v == "" {
			v = "nil"
		}
		return kvSet(c, k, v)
	}
	eng.Force = func(fn *ssa.Function) bool {
		if pkgRel(fn) != ctxPkg {
			return false
		}
		recv := fn.Signature.Recv()
		if recv == nil {
			return false
		}
		return typeName(recv.Type()) == "runtimeContext" && touchesInstance(fn, 0)
	}
	eng.Skip = func(fn *ssa.Function) bool { return pkgRel(fn) != ctxPkg }
	eng.Addr = func(st *State, x *ssa.FieldAddr) (Val, bool) {
		if eng.Eval(st, x.X).T == "ctx" {
			return vtag("ctx." + fieldAddrName(x)), true
		}
		return Val{}, false
	}
	top := func(st *State) int {
		n := w.stack
		if s := kvGet(st.C, "n"); s != "" {
			n, _ = strconv.Atoi(s)
		}
		return n
	}
	elem := func(i int) Val {
		if i < 0 || i >= w.stack {
			return Val{}
		}
		if w.nilTop && i == w.stack-1 {
			return Val{K: VNil}
		}
		if i == w.stack-1 {
			return vtag("inst:A")
		}
		return vtag("inst:" + fmt.Sprint("e", i))
	}
	states := func(st *State) int {
		if s := kvGet(st.C, "m"); s != "" {
			n, _ := strconv.Atoi(s)
			return n
		}
		return w.states
	}
	eng.Load = func(st *State, x *ssa.UnOp) (Val, bool) {
		a := eng.Eval(st, x.X)
		switch a.T {
		case "ctx.instance":
			return val(get(st.C, "cur", w.cur)), true
		case "ctx.warmInstance":
			return val(get(st.C, "warm", w.warm)), true
		case "ctx.useWarmInstance":
			return vbool(w.useWarm), true
		case "ctx.warmInstanceAddress":
			if !w.warmAddr {
				return Val{K: VNil}, true
			}
		case "ctx.instanceStack":
			return vtag("stack:" + strconv.Itoa(top(st))), true
		case "ctx.stateStack":
			if states(st) >= 0 {
				return vtag("states:" + strconv.Itoa(states(st))), true
			}
		case "ctx.maxWasmerInstances":
			return vint(w.max), true
		}
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			s, i := eng.Eval(st, ia.X), eng.Eval(st, ia.Index)
			if strings.HasPrefix(s.T, "stack:") && i.K == VInt {
				n, _ := strconv.Atoi(s.T[6:])
				if int(i.N) >= n {
					return Val{}, false
				}
				return elem(int(i.N)), true
			}
		}
		return Val{}, false
	}
	var cut *Val
	eng.SliceOf = func(v Val) (Val, bool) {
		if cut != nil {
			return *cut, true
		}
		return Val{}, false
	}
	eng.BinOp = func(op token.Token, a, b Val) (Val, bool) {
		if op == token.ADD || op == token.SUB {
			if a.K == VInt && b.K == VInt {
				if op == token.SUB {
					b.N = -b.N
				}
				return vint(a.N + b.N), true
			}
		}
		if op != token.EQL && op != token.NEQ {
			return Val{}, false
		}
		x, y := name(a), name(b)
		if x == "?" || y == "?" {
			return Val{}, false
		}
		return vbool((x == y) == (op == token.EQL)), true
	}
	lost := map[string][3]string{}
	settle := func(c string) {
		for _, kv := range strings.Split(c, ";") {
			if !strings.HasPrefix(kv, "lost:") {
				continue
			}
			i := strings.LastIndex(kv, "=")
			old, key := kv[5:i], kv[i+1:]
			if kvGet(c, "clean:"+old) == "" && get(c, "cur", w.cur) != old && get(c, "warm", w.warm) != old {
				l := lost[key]
				bad(key, l[0], "%s overwrites %s without releasing it", l[1], l[2])
			}
		}
	}
	held := func(st *State, n string) bool {
		return get(st.C, "cur", w.cur) == n || get(st.C, "warm", w.warm) == n
	}
	eng.Instr = func(e *Engine, fn *ssa.Function, in ssa.Instruction, st *State) {
		switch x := in.(type) {
		case *ssa.Slice:
			cut = nil
			if v := e.Eval(st, x.X); strings.HasPrefix(v.T, "stack:") || strings.HasPrefix(v.T, "states:") {
				i := strings.Index(v.T, ":")
				n, _ := strconv.Atoi(v.T[i+1:])
				lo, hi := int64(0), int64(n)
				if x.Low != nil {
					if l := e.Eval(st, x.Low); l.K == VInt {
						lo = l.N
					} else {
						lo = -1
					}
				}
				if x.High != nil {
					if h := e.Eval(st, x.High); h.K == VInt {
						hi = h.N
					} else {
						hi = -1
					}
				}
				t := vtag("stack:?")
				if lo == 0 && hi >= 0 && hi <= int64(n) {
					t = vtag(v.T[:i+1] + strconv.FormatInt(hi, 10))
				}
				cut = &t
			}
		case *ssa.Store:
			a := e.Eval(st, x.Addr)
			if !strings.HasPrefix(a.T, "ctx.") {
				return
			}
			v := e.Eval(st, x.Val)
			switch a.T {
			case "ctx.instance", "ctx.warmInstance":
				k, old := "cur", get(st.C, "cur", w.cur)
				if a.T == "ctx.warmInstance" {
					k, old = "warm", get(st.C, "warm", w.warm)
				}
				n := name(v)
				if n == "bad" && k == "cur" {
					bad("failed-instance:"+fname(fn), p.pos(x.Pos()), "%s makes an instance the current one although its creation failed", fname(fn))
				}
				if n != "" && kvGet(st.C, "clean:"+n) != "" {
					bad("stale:"+fname(fn), p.pos(x.Pos()), "%s makes a released instance the current one", fname(fn))
				}
				st.C = put(st.C, k, n)
				if old != n && old != "" && kvGet(st.C, "clean:"+old) == "" && !held(st, old) {
					if strings.HasPrefix(old, "N") || k == "warm" || old == "W" || old == "B" {
						what := "an instance it has created"
						if old == "W" {
							what = "the instance kept for reuse"
						} else if old == "B" {
							what = "the instance that was running"
						}
						key := "overwritten:" + fname(fn)
						if old == "W" {
							key = "warm-overwritten:" + fname(fn)
						}
						// it may still be released through a local variable
						st.C = kvSet(st.C, "lost:"+old, key)
						lost[key] = [3]string{p.pos(x.Pos()), fname(fn), what}
					}
				}
			case "ctx.instanceStack":
				if strings.HasPrefix(v.T, "stack:") {
					st.C = kvSet(st.C, "n", v.T[6:])
				} else {
					st.C = kvSet(st.C, "n", "?")
				}
			case "ctx.stateStack":
				if strings.HasPrefix(v.T, "states:") {
					st.C = kvSet(st.C, "m", v.T[7:])
				}
			}
		}
	}
	eng.Event = func(c *CallCtx) ([]Outcome, bool) {
		st := c.St.C
		m := methodName(c.Com)
		if c.Name == "builtin.len" {
			v := c.E.Eval(c.St, c.Com.Args[0])
			if i := strings.Index(v.T, ":"); i > 0 && (v.T[:i] == "stack" || v.T[:i] == "states") {
				if n, err := strconv.Atoi(v.T[i+1:]); err == nil {
					return []Outcome{{C: st, Res: []Val{vint(int64(n))}}}, true
				}
			}
			return nil, false
		}
		if c.Name == "builtin.append" {
			v := c.E.Eval(c.St, c.Com.Args[0])
			i := strings.Index(v.T, ":")
			if i <= 0 || v.T[:i] != "stack" && v.T[:i] != "states" {
				return nil, false
			}
			n, err := strconv.Atoi(v.T[i+1:])
			if err != nil {
				return nil, false
			}
			if v.T[:i] == "stack" {
				var sc *scope
				_, el := appended(c.Instr.(ssa.Value), sc)
				if len(el) == 1 {
					e := c.E.Eval(c.St, el[0])
					st = put(st, "pushed", name(e))
				} else {
					st = put(st, "pushed", "?")
				}
			}
			return []Outcome{{C: st, Res: []Val{vtag(v.T[:i+1] + strconv.Itoa(n+1))}}}, true
		}
		switch m {
		case "NewInstanceWithOptions", "NewInstanceFromCompiledCodeWithOptions":
			n := "N" + strconv.Itoa(c.E.id(c.Instr.(ssa.Value)))
			return []Outcome{
				{C: kvSet(st, "made", n), Res: []Val{vtag("inst:" + n), {K: VNil}}},
				{C: st, Res: []Val{vtag("inst:bad"), vtag("err:create")}}}, true
		}
		if c.Com.IsInvoke() && typeName(c.Com.Value.Type()) == "InstanceHandler" {
			n := name(c.Args[0])
			if n == "?" {
				return nil, false
			}
			if n == "" {
				return []Outcome{}, true // a crash, which C04 looks after
			}
			if m == "Clean" {
				if kvGet(st, "clean:"+n) != "" {
					bad("twice:"+fname(c.Fn), p.pos(c.Instr.Pos()), "%s releases an instance a second time", fname(c.Fn))
				}
				if n == "W" && kvGet(st, "dropped") == "" {
					st = kvSet(st, "warmclean", "1")
				}
				return []Outcome{{C: kvSet(st, "clean:"+n, "1"), Res: nil}}, true
			}
			if kvGet(st, "clean:"+n) != "" {
				bad("used:"+fname(c.Fn), p.pos(c.Instr.Pos()), "%s uses an instance after releasing it (%s)", fname(c.Fn), m)
			}
			if n == "bad" {
				bad("failed-instance:"+fname(c.Fn), p.pos(c.Instr.Pos()), "%s uses an instance whose creation failed (%s)", fname(c.Fn), m)
			}
			return nil, false
		}
		return nil, false
	}
	return eng, settle
}

// touchesInstance: the method reads or writes the instances the context holds, or calls one that does.
func touchesInstance(fn *ssa.Function, depth int) bool {
	if depth > 4 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				switch fieldAddrName(x) {
				case "instance", "warmInstance", "instanceStack", "stateStack", "maxWasmerInstances", "useWarmInstance":
					if typeName(x.X.Type()) == "runtimeContext" {
						return true
					}
				}
			case ssa.CallInstruction:
				if g := x.Common().StaticCallee(); g != nil && g != fn && pkgRel(g) == ctxPkg && touchesInstance(g, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

func runInst(p *Prog, r *Result, fn string, w instWorld, judge func(x *Exit, get func(k, dflt string) string) string) {
	root := p.fn(ctxPkg + ".runtimeContext." + fn)
	if root == nil {
		r.violate("undecided:"+fn, "-", "runtimeContext.%s was not found", fn)
		return
	}
	r.saw(fname(root))
	eng, settle := instEngine(p, w, func(key, pos, format string, args ...interface{}) {
		r.violate(key, pos, format+" ("+w.name+")", args...)
	})
	eng.Args = make([]Val, len(root.Params))
	eng.Args[0] = vtag("ctx")
	for _, x := range eng.Run(root, "") {
		x := x
		get := func(k, dflt string) string {
			v := kvGet(x.C, k)
			if v == "" {
				return dflt
			}
			if v == "nil" {
				return ""
			}
			return v
		}
		settle(x.C)
		if msg := judge(x, get); msg != "" {
			r.violate(fn+":"+w.name, p.pos(root.Pos()), "%s, %s: %s", fname(root), w.name, msg)
		} else {
			r.ok("runtimeContext." + fn + " leaves every instance held or released")
		}
	}
	eng.finish(r)
}

func c19Start(p *Prog, r *Result) {
	for _, w := range []instWorld{
		{name: "no instance is running", stack: 0, max: 10, states: 0},
		{name: "the caller's instance is current", cur: "A", stack: 2, max: 10, states: 2},
		{name: "an instance is kept for reuse", cur: "A", warm: "W", useWarm: true, stack: 2, max: 10, states: 2, warmAddr: true},
		{name: "instances may be kept for reuse", cur: "A", useWarm: true, stack: 2, max: 10, states: 2},
	} {
		w := w
		runInst(p, r, "StartWasmerInstance", w, func(x *Exit, get func(k, dflt string) string) string {
			if len(x.Res) != 1 {
				return "no answer"
			}
			cur, warm := get("cur", w.cur), get("warm", w.warm)
			made := get("made", "")
			n, known := x.Res[0].isNil()
			ok := !known || n
			if cur != "" && get("clean:"+cur, "") != "" {
				return "the current instance has been released"
			}
			if made != "" && get("clean:"+made, "") == "" && cur != made && warm != made {
				return "an instance was created that nobody holds"
			}
			if get("clean:A", "") != "" {
				return "the instance of the caller is released"
			}
			if warm != "" && get("clean:"+warm, "") != "" {
				return "a released instance is kept for reuse"
			}
			if ok && (cur == "" || cur == "A") {
				return "success is answered without an instance for the called contract"
			}
			if ok && strings.HasPrefix(cur, "N") && w.useWarm && get("warm", w.warm) != cur && made != "" {
				// an instance from compiled code is not kept for reuse
				return ""
			}
			return ""
		})
	}
}

func c19Clean(p *Prog, r *Result) {
	for _, w := range []instWorld{
		{name: "no instance is running", max: 10, states: 0},
		{name: "an instance is running", cur: "B", max: 10, states: 0},
		{name: "another instance is kept for reuse", cur: "B", warm: "W", useWarm: true, max: 10, states: 0, warmAddr: true},
		{name: "the current instance is kept for reuse", cur: "W", warm: "W", useWarm: true, max: 10, states: 0, warmAddr: true},
	} {
		w := w
		runInst(p, r, "CleanWasmerInstance", w, func(x *Exit, get func(k, dflt string) string) string {
			cur := get("cur", w.cur)
			switch w.cur {
			case "B":
				if get("clean:B", "") == "" {
					return "the instance is not released"
				}
				if cur != "" {
					return "the released instance stays the current one"
				}
			case "W":
				if get("clean:W", "") != "" {
					return "an instance kept for reuse is released"
				}
			}
			if get("warm", w.warm) != w.warm {
				return "what is kept for reuse changes"
			}
			return ""
		})
	}
	w := instWorld{name: "the current instance is kept for reuse", cur: "W", warm: "W", useWarm: true, max: 10, states: 0, warmAddr: true}
	runInst(p, r, "ResetWarmInstance", w, func(x *Exit, get func(k, dflt string) string) string {
		if get("clean:W", "") == "" {
			return "the instance is not released"
		}
		if get("cur", w.cur) == "W" || get("warm", w.warm) == "W" {
			return "a released instance is still held"
		}
		return ""
	})
	runInst(p, r, "IsWarmInstance", w, func(x *Exit, get func(k, dflt string) string) string {
		if len(x.Res) != 1 || x.Res[0].K != VTrue {
			return "an instance kept for reuse is not recognised"
		}
		return ""
	})
	for _, w := range []instWorld{{name: "no instance", max: 10}, {name: "an ordinary instance", cur: "B", max: 10}, {name: "another instance is kept", cur: "B", warm: "W", useWarm: true, max: 10}} {
		w := w
		runInst(p, r, "IsWarmInstance", w, func(x *Exit, get func(k, dflt string) string) string {
			if len(x.Res) != 1 || x.Res[0].K != VFalse {
				return "an instance is taken for one kept for reuse, so that it is never released"
			}
			return ""
		})
	}
}

func c19Stack(p *Prog, r *Result) {
	worlds := []instWorld{
		{name: "a new instance was started", cur: "B", stack: 3, max: 10, states: 3},
		{name: "no new instance was started", cur: "A", stack: 3, max: 10, states: 3},
		{name: "the new instance is gone already", cur: "", stack: 3, max: 10, states: 3},
		{name: "there was no instance before", cur: "B", stack: 3, nilTop: true, max: 10, states: 3},
		{name: "the new instance is kept for reuse", cur: "W", warm: "W", useWarm: true, stack: 3, max: 10, states: 3, warmAddr: true},
	}
	for _, fn := range []string{"PopSetActiveState", "PopDiscard"} {
		for _, w := range worlds {
			w := w
			runInst(p, r, fn, w, func(x *Exit, get func(k, dflt string) string) string {
				top := "A"
				if w.nilTop {
					top = ""
				}
				switch {
				case get("cur", w.cur) != top:
					return "the instance of the caller does not become the current one"
				case top != "" && get("clean:"+top, "") != "":
					return "the instance of the caller is released while it is still running"
				case w.cur == "B" && get("clean:B", "") == "":
					return "the instance of the called contract is never released"
				case w.cur == "W" && get("clean:W", "") != "":
					return "an instance kept for reuse is released"
				case get("n", "3") != "2":
					return "the stack of instances does not lose its last one (length 3 becomes " + get("n", "3") + ")"
				case get("m", "3") != "2":
					return "the stack of states does not lose its last one"
				}
				return ""
			})
		}
	}
	w := instWorld{name: "an instance is running", cur: "A0", stack: 3, max: 10, states: 3}
	runInst(p, r, "PushState", w, func(x *Exit, get func(k, dflt string) string) string {
		switch {
		case get("n", "3") != "4" || get("m", "3") != "4":
			return "the stacks of states and of instances do not both grow by one"
		case get("pushed", "") != "A0":
			return "it is not the running instance that is put on the stack"
		case get("cur", w.cur) != "A0":
			return "the running instance changes"
		}
		return ""
	})
}

// c19Host: every execution releases what it has started, also when it fails or crashes.
func c19Host(p *Prog, r *Result) {
	roots := []string{"doRunSmartContractCreate", "doRunSmartContractCall", "doRunSmartContractUpgrade", "ExecuteOnDestContext", "ExecuteOnSameContext", "CreateNewContract"}
	started := 0
	for _, n := range roots {
		root := p.fn("arwen/host.vmHost." + n)
		if root == nil {
			r.violate("undecided:"+n, "-", "vmHost.%s was not found", n)
			continue
		}
		r.saw(fname(root))
		nested := strings.HasPrefix(n, "Execute") || n == "CreateNewContract"
		eng := newEngine(p)
		eng.Panics = true
		eng.MaxState = 20000
		eng.Args = make([]Val, len(root.Params))
		eng.Args[0] = Val{K: VNonNil}
		isRuntime := func(com *ssa.CallCommon) bool {
			return com.IsInvoke() && typeName(com.Value.Type()) == "RuntimeContext"
		}
		isMetering := func(com *ssa.CallCommon) bool {
			return com.IsInvoke() && typeName(com.Value.Type()) == "MeteringContext"
		}
		isOutput := func(com *ssa.CallCommon) bool {
			return com.IsInvoke() && typeName(com.Value.Type()) == "OutputContext"
		}
		kind := func(com *ssa.CallCommon) string {
			m := methodName(com)
			switch {
			case isRuntime(com):
				switch m {
				case "StartWasmerInstance", "CleanWasmerInstance", "PushState", "PopSetActiveState", "PopDiscard", "ResetWarmInstance", "IsWarmInstance", "ClearStateStack":
					return m
				}
			case isOutput(com) && m == "GetVMOutput":
				return m
			case isMetering(com) && (m == "GasSpentByContract"):
				return m
			case isCallback(com):
				return "run"
			}
			return ""
		}
		eng.IsEvent = func(com *ssa.CallCommon, name string) bool { return kind(com) != "" }
		eng.Skip = func(fn *ssa.Function) bool {
			if pkgRel(fn) != "arwen/host" {
				return true
			}
			switch fn.Name() {
			case "processAsyncInfo", "ExecuteOnDestContext", "ExecuteOnSameContext", "CreateNewContract", "processCallbackVMOutput", "callBuiltinFunction", "handleBuiltinFunctionCall":
				return true
			}
			return strings.HasPrefix(fn.Name(), "RunSmartContract")
		}
		if n == "CreateNewContract" {
			continue // starts instances only through ExecuteOnDestContext
		}
		eng.Event = func(c *CallCtx) ([]Outcome, bool) {
			st := c.St.C
			fresh := func() []Val { return nil }
			depth := len(kvGet(st, "depth"))
			pos := p.pos(c.Instr.Pos())
			switch kind(c.Com) {
			case "StartWasmerInstance":
				started++
				if nested && depth == 0 {
					r.violate("unpushed:"+n, pos, "%s replaces the instance of the caller before it was put aside", n)
				}
				if kvGet(st, "live") != "" {
					r.violate("overwritten:"+n, pos, "%s starts a second instance while the first is held by nobody else", n)
				}
				ok := kvSet(kvSet(st, "live", "1"), "gone", "")
				return []Outcome{{C: ok, Res: []Val{{K: VNil}}}, {C: kvSet(st, "gone", "1"), Res: []Val{vtag("err:start")}}, {C: ok, Panic: true}}, true
			case "CleanWasmerInstance":
				if nested && depth == 0 {
					r.violate("released-early:"+n, pos, "%s releases the instance of the caller", n)
				}
				return []Outcome{{C: kvSet(kvSet(st, "live", ""), "gone", "1"), Res: fresh()}}, true
			case "PushState":
				if kvGet(st, "live") != "" {
					st = kvSet(st, "live", "")
				}
				return []Outcome{{C: kvSet(st, "depth", strings.Repeat("x", depth+1)), Res: fresh()}}, true
			case "PopSetActiveState", "PopDiscard":
				if depth == 0 {
					r.violate("unbalanced:"+n, pos, "%s takes an instance of its caller's callers from the stack", n)
					return []Outcome{{C: st}}, true
				}
				st = kvSet(kvSet(st, "live", ""), "gone", "")
				return []Outcome{{C: kvSet(kvSet(st, "depth", strings.Repeat("x", depth-1)), "popped", "1"), Res: fresh()}}, true
			case "ResetWarmInstance":
				return []Outcome{{C: kvSet(st, "live", ""), Res: fresh()}}, true
			case "IsWarmInstance":
				return []Outcome{{C: st, Res: []Val{vbool(false)}}}, true
			case "run":
				if kvGet(st, "gone") != "" {
					r.violate("run-released:"+n, pos, "%s runs a contract on an instance that was released", n)
				}
				return []Outcome{{C: st, Res: []Val{{}, {K: VNil}}}, {C: st, Res: []Val{{}, vtag("err:run")}}, {C: st, Panic: true}}, true
			case "GetVMOutput", "GasSpentByContract", "GasLeft":
				if kvGet(st, "gone") != "" || nested && kvGet(st, "popped") != "" {
					if kind(c.Com) == "GetVMOutput" || kvGet(st, "popped") != "" {
						r.violate("gas-of-released:"+n, pos, "%s asks for the gas left (%s) after the instance was released", n, methodName(c.Com))
					}
				}
				return []Outcome{{C: st, Res: nil}}, true
			}
			return nil, false
		}
		for _, x := range eng.Run(root, "") {
			how := "returns"
			if x.Panic {
				how = "is left by a crash"
			}
			switch {
			case kvGet(x.C, "live") != "":
				r.violate("leak:"+n+":"+map[bool]string{true: "crash", false: "return"}[x.Panic], p.pos(root.Pos()), "%s %s without releasing the instance it has started", n, how)
			case kvGet(x.C, "depth") != "":
				r.violate("leak-stack:"+n, p.pos(root.Pos()), "%s %s without restoring the instance of its caller", n, how)
			default:
				r.ok("an execution releases the instance it has started, however it ends")
			}
		}
		eng.finish(r)
	}
	r.floor("starts of an instance met on the paths of the host", started, 4)
}

// c19Limit: no instance is created when the maximum is reached, and the maximum is set.
func c19Limit(p *Prog, r *Result) {
	for n := 0; n <= 3; n++ {
		w := instWorld{name: fmt.Sprintf("%d of at most 2 callers are running", n), cur: "A", stack: n, max: 2, states: n}
		created, exits := false, 0
		runInst(p, r, "StartWasmerInstance", w, func(x *Exit, get func(k, dflt string) string) string {
			exits++
			if get("clean:A", "") != "" {
				return "the instance of the caller is released"
			}
			if get("made", "") != "" {
				created = true
				if n >= 2 {
					return "an instance is created although the maximum is reached"
				}
			}
			if n >= 2 {
				if nl, known := x.Res[0].isNil(); !known || nl {
					return "success is answered although the maximum is reached"
				}
			}
			return ""
		})
		if n < 2 && exits > 0 && !created {
			r.violate("limit-low", "-", "no instance is created although the maximum is not reached (%s)", w.name)
		}
	}
	root := p.fn("arwen/host.NewArwenVM")
	if root == nil {
		r.violate("undecided:NewArwenVM", "-", "NewArwenVM was not found")
		return
	}
	r.saw(fname(root))
	eng := newEngine(p)
	eng.Skip = func(fn *ssa.Function) bool { return pkgRel(fn) != "arwen/host" }
	set := func(com *ssa.CallCommon) bool { return methodName(com) == "SetMaxInstanceCount" }
	eng.Load = func(st *State, x *ssa.UnOp) (Val, bool) {
		if g, ok := x.X.(*ssa.Global); ok {
			return globalConst(p, g)
		}
		return Val{}, false
	}
	eng.IsEvent = func(com *ssa.CallCommon, name string) bool { return set(com) }
	eng.Event = func(c *CallCtx) ([]Outcome, bool) {
		if !set(c.Com) {
			return nil, false
		}
		v := c.E.Eval(c.St, lastArg(c.Com))
		return []Outcome{{C: kvSet(c.St.C, "max", strconv.FormatInt(v.N, 10))}}, true
	}
	for _, x := range eng.Run(root, "") {
		if len(x.Res) == 2 {
			if n, known := x.Res[1].isNil(); known && !n {
				continue
			}
		}
		m, _ := strconv.Atoi(kvGet(x.C, "max"))
		if m < 1 || m > 1000 {
			r.violate("limit-unset", p.pos(root.Pos()), "NewArwenVM answers a VM with the maximum of %d instances", m)
		} else {
			r.ok("a new VM has a maximum number of instances")
		}
	}
	eng.finish(r)
	f := p.fn(ctxPkg + ".runtimeContext.RunningInstancesCount")
	if f != nil {
		w := instWorld{name: "three callers are running", stack: 3, max: 10, states: 3}
		runInst(p, r, "RunningInstancesCount", w, func(x *Exit, get func(k, dflt string) string) string {
			if len(x.Res) != 1 || x.Res[0].K != VInt || x.Res[0].N != 3 {
				return "the running instances are not counted"
			}
			return ""
		})
	}
}

// c19Native: native handles are released on every path that does not hand them to the caller.
func c19Native(p *Prog, r *Result) {
	creators := 0
	for _, root := range pkgFuncs(p, wasmPkg) {
		if !calls(root, "cWasmerInstantiateWithOptions") && !calls(root, "cWasmerInstanceFromCache") && !calls(root, "cWasmerInstanceExports") && !calls(root, "cWasmerExportToMemory") {
			continue
		}
		if root.Parent() != nil {
			continue
		}
		creators++
		r.saw(fname(root))
		eng := newEngine(p)
		eng.KeepPtr = true
		ctor := calls(root, "cWasmerInstantiateWithOptions") || calls(root, "cWasmerInstanceFromCache")
		kind := func(com *ssa.CallCommon) string {
			m := methodName(com)
			switch m {
			case "cWasmerInstantiateWithOptions", "cWasmerInstanceFromCache", "cWasmerInstanceExports", "cWasmerExportToMemory", "cWasmerInstanceDestroy", "cWasmerExportsDestroy", "cWasmerMemoryDestroy":
				return m
			case "Destroy":
				if strings.HasSuffix(calleeName(com), "Memory.Destroy") {
					return "cWasmerMemoryDestroy"
				}
			case "Clean":
				if strings.HasSuffix(calleeName(com), "Instance.Clean") {
					return "cWasmerInstanceDestroy"
				}
			}
			return ""
		}
		eng.IsEvent = func(com *ssa.CallCommon, name string) bool { return kind(com) != "" }
		eng.Force = func(fn *ssa.Function) bool { return false }
		eng.Addr = func(st *State, x *ssa.FieldAddr) (Val, bool) {
			if typeName(x.X.Type()) != "Instance" {
				return Val{}, false
			}
			v := eng.Eval(st, x.X)
			if v.K == VPtr {
				return vtag("own:" + strconv.Itoa(eng.id(v.S)) + ":" + fieldAddrName(x)), true
			}
			return Val{}, false
		}
		// the native functions answer through a pointer
		eng.Load = func(st *State, x *ssa.UnOp) (Val, bool) {
			if _, ok := x.X.(*ssa.FieldAddr); !ok && typeName(x.Type()) == "cWasmerInstanceT" {
				if kvGet(st.C, "given") != "" {
					return vtag("native"), true
				}
			}
			return Val{}, false
		}
		eng.Instr = func(e *Engine, fn *ssa.Function, in ssa.Instruction, st *State) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			a := e.Eval(st, s.Addr)
			if !strings.HasPrefix(a.T, "own:") {
				return
			}
			if nl, known := e.Eval(st, s.Val).isNil(); known && nl {
				st.C = kvSet(st.C, a.T, "")
			} else {
				st.C = kvSet(st.C, a.T, "1")
			}
		}
		okRes := func(p *Prog) int64 { return p.constOf(wasmPkg, "cWasmerOk", 1) }
		eng.Event = func(c *CallCtx) ([]Outcome, bool) {
			st := c.St.C
			switch kind(c.Com) {
			case "cWasmerInstantiateWithOptions", "cWasmerInstanceFromCache":
				return []Outcome{{C: kvSet(kvSet(st, "instance", "1"), "given", "1"), Res: []Val{vint(okRes(p))}}, {C: st, Res: []Val{vint(okRes(p) + 1)}}}, true
			case "cWasmerInstanceExports":
				return []Outcome{{C: kvSet(st, "exports", "1")}}, true
			case "cWasmerExportsDestroy":
				return []Outcome{{C: kvSet(st, "exports", "")}}, true
			case "cWasmerInstanceDestroy":
				if ctor && kvGet(st, "instance") == "" {
					r.violate("native-twice:"+fname(root), p.pos(c.Instr.Pos()), "%s releases the native instance twice", fname(root))
				}
				return []Outcome{{C: kvSet(st, "instance", "")}}, true
			case "cWasmerMemoryDestroy":
				return []Outcome{{C: kvSet(st, "memory", "")}}, true
			case "cWasmerExportToMemory":
				if kvGet(st, "memory") != "" {
					r.violate("native-memory:"+fname(root), p.pos(c.Instr.Pos()), "%s takes another exported memory without releasing the one it has", fname(root))
				}
				return []Outcome{{C: kvSet(st, "memory", "1"), Res: []Val{vint(okRes(p))}}, {C: st, Res: []Val{vint(okRes(p) + 1)}}}, true
			}
			return nil, false
		}
		for _, x := range eng.Run(root, "") {
			var errV Val
			if n := len(x.Res); n > 0 && isErrorType(root.Signature.Results().At(n-1).Type()) {
				errV = x.Res[n-1]
			}
			nl, known := errV.isNil()
			failed := known && !nl
			if kvGet(x.C, "exports") != "" {
				r.violate("native-exports:"+fname(root), p.pos(root.Pos()), "%s returns without releasing the list of exports", fname(root))
				continue
			}
			if !ctor {
				if failed && kvGet(x.C, "memory") != "" {
					r.violate("native-memory:"+fname(root), p.pos(root.Pos()), "%s fails without releasing the memory it has taken", fname(root))
				} else {
					r.ok("native handles are released or handed over")
				}
				continue
			}
			owned := false
			if len(x.Res) > 0 && x.Res[0].K == VPtr {
				owned = kvGet(x.C, "own:"+strconv.Itoa(eng.id(x.Res[0].S))+":instance") != ""
			}
			switch {
			case kvGet(x.C, "instance") != "" && failed:
				r.violate("native-leak:"+fname(root), p.pos(root.Pos()), "%s fails without releasing the native instance it has created", fname(root))
			case kvGet(x.C, "instance") != "" && !owned:
				r.violate("native-leak:"+fname(root), p.pos(root.Pos()), "%s succeeds without handing over the native instance it has created", fname(root))
			case kvGet(x.C, "instance") == "" && owned && !failed:
				r.violate("native-stale:"+fname(root), p.pos(root.Pos()), "%s hands over a native instance that was released", fname(root))
			default:
				r.ok("native handles are released or handed over")
			}
		}
		eng.finish(r)
	}
	r.floor("functions that create native handles", creators, 3)
	c19CleanNative(p, r)
}

// c19CleanNative: releasing an instance releases the native instance and its memory.
func c19CleanNative(p *Prog, r *Result) {
	for _, t := range []struct {
		fn, field, destroy string
		noMemory           bool
	}{
		{wasmPkg + ".Instance.Clean", "instance", "cWasmerInstanceDestroy", false},
		{wasmPkg + ".Instance.Clean", "instance", "cWasmerInstanceDestroy", true},
		{wasmPkg + ".Instance.Clean", "Memory", "Destroy", false},
		{wasmPkg + ".Memory.Destroy", "memory", "cWasmerMemoryDestroy", false},
	} {
		root := p.fn(t.fn)
		if root == nil {
			r.violate("undecided:"+t.fn, "-", "%s was not found", t.fn)
			continue
		}
		r.saw(fname(root))
		eng := newEngine(p)
		is := func(com *ssa.CallCommon) bool { return methodName(com) == t.destroy }
		eng.Force = func(fn *ssa.Function) bool { return pkgRel(fn) == wasmPkg && fn.Signature.Recv() != nil && len(fn.Blocks) < 6 }
		eng.IsEvent = func(com *ssa.CallCommon, name string) bool { return is(com) }
		eng.Skip = func(fn *ssa.Function) bool { return fn != root && is2(fn, t.destroy) }
		eng.Load = func(st *State, x *ssa.UnOp) (Val, bool) {
			fa, ok := x.X.(*ssa.FieldAddr)
			if !ok {
				return Val{}, false
			}
			switch n := fieldAddrName(fa); n {
			case "instance", "Memory", "memory":
				if n == "Memory" && t.noMemory {
					return Val{K: VNil}, true
				}
				return Val{K: VNonNil}, true
			}
			return Val{}, false
		}
		eng.Event = func(c *CallCtx) ([]Outcome, bool) {
			if !is(c.Com) {
				return nil, false
			}
			if kvGet(c.St.C, "done") != "" {
				r.violate("native-twice:"+t.fn, p.pos(c.Instr.Pos()), "%s releases the native %s twice", t.fn, t.field)
			}
			return []Outcome{{C: kvSet(c.St.C, "done", "1")}}, true
		}
		for _, x := range eng.Run(root, "") {
			if kvGet(x.C, "done") == "" {
				r.violate("native-clean:"+t.fn+":"+t.field, p.pos(root.Pos()), "%s does not release the native %s", t.fn, t.field)
			} else {
				r.ok("releasing an instance releases its native parts")
			}
		}
		eng.finish(r)
	}
}

func is2(fn *ssa.Function, name string) bool { return fn.Name() == name }

func (p *Prog) constOf(rel, name string, dflt int64) int64 {
	pk := p.Pkgs[rel]
	if pk == nil {
		return dflt
	}
	if c, ok := pk.Types.Scope().Lookup(name).(*types.Const); ok {
		if v, err := strconv.ParseInt(c.Val().ExactString(), 10, 64); err == nil {
			return v
		}
	}
	return dflt
}

// globalConst is the value of a package variable that is only ever given one constant.
func globalConst(p *Prog, g *ssa.Global) (Val, bool) {
	var val Val
	stores := 0
	fns := p.Funcs
	if init := g.Pkg.Func("init"); init != nil {
		fns = append([]*ssa.Function{init}, fns...)
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					stores++
					if c, ok := s.Val.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
						if n, exact := constant.Int64Val(c.Value); exact {
							val = vint(n)
							continue
						}
					}
					return Val{}, false
				}
			}
		}
	}
	return val, stores == 1
}
