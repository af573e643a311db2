package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C05", checkC05) }

// lockOp recognises an operation on a mutex and names the mutex by the place it lives in.
func lockOp(com *ssa.CallCommon) (lock, op string) {
	name := calleeName(com)
	if !strings.HasPrefix(name, "sync.Mutex.") && !strings.HasPrefix(name, "sync.RWMutex.") && !strings.HasPrefix(name, "sync.Locker.") {
		return "", ""
	}
	op = methodName(com)
	var recv ssa.Value
	if com.IsInvoke() {
		recv = com.Value
	} else if len(com.Args) > 0 {
		recv = com.Args[0]
	}
	return lockName(recv), op
}

func lockName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return typeName(deref(x.X.Type())) + "." + fieldName(x.X.Type(), x.Field)
	case *ssa.Global:
		return x.Name()
	case *ssa.UnOp:
		return lockName(x.X)
	case *ssa.MakeInterface:
		return lockName(x.X)
	}
	return "?"
}

// reaching gives the functions of the module from which a call accepted by pred can be reached.
func (p *Prog) reaching(pred func(com *ssa.CallCommon, name string) bool) map[*ssa.Function]bool {
	callers := map[*ssa.Function][]*ssa.Function{}
	out := map[*ssa.Function]bool{}
	var work []*ssa.Function
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						callers[g] = append(callers[g], f)
					}
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := ci.Common()
				if pred(com, calleeName(com)) && !out[f] {
					out[f] = true
					work = append(work, f)
				}
				for _, g := range p.resolve(com) {
					callers[g] = append(callers[g], f)
				}
			}
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, c := range callers[f] {
			if !out[c] {
				out[c] = true
				work = append(work, c)
			}
		}
	}
	return out
}

func checkC05(p *Prog, r *Result) {
	r.Rule = "Lock typestate over all paths, crashing ones included, of every function that touches a lock and of every operation the VM and the VM driver offer: a lock is never taken while held, never released without being held, and released at every exit, and held only once per operation, so that the operation is one critical section; every call that can start a contract instance happens with the host's execution lock held, every change of the gas schedule or of the opcode costs with it held exclusively; every call that can start a dialogue with the VM process happens with the driver's operations lock held."
	r.Assumptions = []string{"constructors run before the object is shared", "locks are named by the field they live in, so that one VM or driver is considered"}
	hostT := p.namedType(hostPkg, "vmHost")
	const driverPkg = "ipc/nodepart"
	driverT := p.namedType(driverPkg, "ArwenDriver")
	if hostT == nil || driverT == nil {
		r.violate("missing:types", "-", "the host or the driver type is gone")
		return
	}
	starts := p.reaching(func(com *ssa.CallCommon, name string) bool {
		ctx, m := ctxCall(com)
		return ctx == "runtime" && m == "StartWasmerInstance"
	})
	dialogue := p.reaching(func(com *ssa.CallCommon, name string) bool {
		return strings.HasSuffix(name, "nodepart.NodePart.StartLoop")
	})
	schedule := func(com *ssa.CallCommon, name string) bool {
		ctx, m := ctxCall(com)
		return name == "wasmer.SetOpcodeCosts" || ctx == "metering" && m == "SetGasSchedule"
	}
	scheduleStore := func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		return ok && typeName(deref(fa.X.Type())) == "vmHost" && fieldName(fa.X.Type(), fa.Field) == "gasSchedule"
	}
	hostLock := fieldsOfType(hostT, "RWMutex")
	hostLock = append(hostLock, fieldsOfType(hostT, "Mutex")...)
	driverLock := append(fieldsOfType(driverT, "Mutex"), fieldsOfType(driverT, "RWMutex")...)
	if len(hostLock) != 1 || len(driverLock) != 1 {
		r.violate("missing:locks", "-", "the host or the driver has no lock, or more than one")
		return
	}
	hl, dl := "vmHost."+hostLock[0], "ArwenDriver."+driverLock[0]

	type root struct {
		fn   *ssa.Function
		kind string
	}
	var roots []root
	isRoot := map[*ssa.Function]bool{}
	methods := func(pk, typ, kind string) {
		for _, fn := range p.Funcs {
			if fn.Parent() != nil || pkgRel(fn) != pk || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Recv() == nil || typeName(fn.Signature.Recv().Type()) != typ {
				continue
			}
			roots = append(roots, root{fn, kind})
			isRoot[fn] = true
		}
	}
	// what the VM offers: the methods of the interface the node knows
	if it := p.vmType("VMExecutionHandler"); it != nil {
		iface, _ := it.Underlying().(*types.Interface)
		for i := 0; iface != nil && i < iface.NumMethods(); i++ {
			if fn := p.fn(hostPkg + ".vmHost." + iface.Method(i).Name()); fn != nil {
				roots = append(roots, root{fn, "host"})
				isRoot[fn] = true
			} else {
				r.violate("missing:"+iface.Method(i).Name(), "-", "the host does not implement this operation")
			}
		}
	}
	methods(driverPkg, "ArwenDriver", "driver")
	// every other function with lock operations
	for _, fn := range p.Funcs {
		if isRoot[fn] || fn.Parent() != nil {
			continue
		}
		has := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if l, _ := lockOp(ci.Common()); l != "" {
						has = true
					}
				}
			}
		}
		if has && !isAux(pkgRel(fn)) {
			roots = append(roots, root{fn, "any"})
		}
	}
	// what is started on its own holds none of the locks of whoever started it
	changes := p.reaching(schedule)
	for _, fn := range p.Funcs {
		if isAux(pkgRel(fn)) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				com := g.Common()
				if schedule(com, calleeName(com)) {
					r.violate("schedule-unlocked:"+fname(fn)+":"+methodName(com), p.pos(g.Pos()), "%s starts a change of the gas schedule on its own, without %s", fname(fn), hl)
					continue
				}
				for _, t := range p.resolve(com) {
					if isRoot[t] {
						continue
					}
					if starts[t] || changes[t] {
						roots = append(roots, root{t, "host"})
						isRoot[t] = true
					} else if dialogue[t] {
						roots = append(roots, root{t, "driver"})
						isRoot[t] = true
					}
				}
			}
		}
	}
	locks, guarded := 0, 0
	for _, rt := range roots {
		kind := rt.kind
		e := newEngine(p)
		e.Panics = true
		e.Skip = func(f *ssa.Function) bool { return isAux(pkgRel(f)) || f.Name() == "RestartArwenIfNecessary" }
		e.IsEvent = func(com *ssa.CallCommon, name string) bool {
			l, _ := lockOp(com)
			return l != "" || name == "builtin.recover" || schedule(com, name)
		}
		e.IsRelevantInstr = scheduleStore
		needW := func(fn *ssa.Function, in ssa.Instruction, c, what string) {
			if kind != "host" {
				return
			}
			guarded++
			if kvGet(c, "L."+hl) != "W" {
				r.violate("schedule-unlocked:"+fname(fn)+":"+what, p.pos(in.Pos()), "%s changes %s without holding %s exclusively", fname(fn), what, hl)
			} else {
				r.ok("schedule-exclusive")
			}
		}
		e.Instr = func(e *Engine, f *ssa.Function, in ssa.Instruction, st *State) {
			if scheduleStore(in) {
				needW(f, in, st.C, "gasSchedule")
			}
		}
		e.Event = func(c *CallCtx) ([]Outcome, bool) {
			cur := c.St.C
			if l, op := lockOp(c.Com); l != "" {
				k := "L." + l
				held := kvGet(cur, k)
				at := p.pos(c.Instr.Pos())
				switch op {
				case "Lock", "RLock":
					locks++
					if kvGet(cur, "rel."+l) != "" && kind != "any" {
						r.violate("split:"+fname(rt.fn)+":"+l, at, "%s takes %s a second time within one operation (%s): what was seen or changed before and after may belong to different operations", fname(c.Fn), l, fname(rt.fn))
					}
					if held != "" {
						r.violate("relock:"+fname(rt.fn)+":"+l, at, "%s takes %s on a path on which it is already held (from %s)", fname(c.Fn), l, fname(rt.fn))
					} else {
						r.ok("lock-free-when-taken")
					}
					return []Outcome{{C: kvSet(cur, k, map[string]string{"Lock": "W", "RLock": "R"}[op])}}, true
				case "Unlock", "RUnlock":
					want := "W"
					if op == "RUnlock" {
						want = "R"
					}
					if held != want && !(rt.kind == "any" && held == "") {
						r.violate("bad-unlock:"+fname(rt.fn)+":"+l, at, "%s releases %s (%s) on a path on which it is not held that way", fname(c.Fn), l, op)
					} else {
						r.ok("unlock-held")
					}
					return []Outcome{{C: kvSet(kvSet(cur, k, ""), "rel."+l, "1")}}, true
				case "TryLock", "TryRLock":
					m := "W"
					if op == "TryRLock" {
						m = "R"
					}
					return []Outcome{{C: kvSet(cur, k, m), Res: []Val{vbool(true)}}, {C: cur, Res: []Val{vbool(false)}}}, true
				}
				return []Outcome{{C: cur}}, true
			}
			if schedule(c.Com, c.Name) {
				needW(c.Fn, c.Instr, cur, methodName(c.Com))
				return []Outcome{{C: cur}, {C: cur, Panic: true}}, true
			}
			for _, t := range c.Impl {
				if kind == "host" && starts[t] && !e.inlineable(t) {
					guarded++
					if kvGet(cur, "L."+hl) == "" {
						r.violate("execution-unlocked:"+fname(c.Fn)+":"+fname(t), p.pos(c.Instr.Pos()), "%s calls %s, which can run a contract, without holding %s", fname(c.Fn), fname(t), hl)
					} else {
						r.ok("execution-locked")
					}
				}
				if kind == "driver" && (dialogue[t] || strings.HasSuffix(fname(t), "NodePart.StartLoop")) && !isRoot[t] && !e.inlineable(t) {
					guarded++
					if kvGet(cur, "L."+dl) == "" {
						r.violate("dialogue-unlocked:"+fname(c.Fn), p.pos(c.Instr.Pos()), "%s calls %s without holding %s", fname(c.Fn), fname(t), dl)
					} else {
						r.ok("dialogue-locked")
					}
				}
				if kind == "driver" && t.Name() == "RestartArwenIfNecessary" && kvGet(cur, "L."+dl) == "" {
					r.violate("restart-unlocked:"+fname(c.Fn), p.pos(c.Instr.Pos()), "%s restarts the VM process without holding %s", fname(c.Fn), dl)
				}
			}
			if ctx, m := ctxCall(c.Com); kind == "host" && ctx == "runtime" && m == "StartWasmerInstance" && kvGet(cur, "L."+hl) == "" {
				r.violate("execution-unlocked:"+fname(c.Fn)+":"+m, p.pos(c.Instr.Pos()), "%s starts a contract without holding %s", fname(c.Fn), hl)
			}
			for _, t := range c.Impl {
				if e.inlineable(t) {
					return nil, false
				}
			}
			if strings.HasPrefix(c.Name, "builtin.") || !strings.Contains(cur, "L.") {
				return nil, false
			}
			return []Outcome{{C: cur}, {C: cur, Panic: true}}, true
		}
		for _, x := range e.Run(rt.fn, "") {
			for _, kv := range strings.Split(x.C, ";") {
				if strings.HasPrefix(kv, "L.") {
					how := "returns"
					if x.Panic {
						how = "crashes"
					}
					r.violate("held-at-exit:"+fname(rt.fn)+":"+kv[2:], p.pos(rt.fn.Pos()), "a path through %s %s with %s still held", fname(rt.fn), how, kv[2:])
				}
			}
			r.ok("released-at-exit")
		}
		e.finish(r)
	}
	r.floor("lock acquisitions", locks, 8)
	r.floor("guarded operations", guarded, 8)
	r.floor("operations", len(roots), 10)
}
