package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ctxSpec says what the state of a context consists of.
type ctxSpec struct {
	ctx    string // type name in arwen/contexts
	stack  string // field holding the saved states
	direct string // field that is saved as the element itself ("" = element is a struct of the same fields)
	fields []string
	// deepFields: field -> members that have to be saved as well ("" type = all of the struct type's)
	deep map[string]bool
	// noShare: kinds of objects that the running state and the saved one must not have in common
	noShare []string
	// other fields that may change without being part of a transaction's nested state
	other map[string]string
}

var ctxSpecs = []ctxSpec{
	{ctx: "bigIntContext", stack: "stateStack", direct: "values", fields: []string{"values"}, noShare: []string{"map", "big.Int"}},
	{ctx: "meteringContext", stack: "stateStack", fields: []string{"initialGasProvided", "initialCost", "gasForExecution", "gasUsedByAccounts"}, noShare: []string{"map"},
		other: map[string]string{"gasSchedule": "changed between transactions only (C05)"}},
	{ctx: "outputContext", stack: "stateStack", direct: "outputState", fields: []string{"outputState", "codeUpdates"}, deep: map[string]bool{"outputState": true}, noShare: []string{"map", "VMOutput", "OutputAccount"}},
	{ctx: "storageContext", stack: "stateStack", direct: "address", fields: []string{"address"},
		other: map[string]string{"arwenStorageProtectionEnabled": "switched off and on within one call (C11)"}},
	{ctx: "runtimeContext", stack: "stateStack", fields: []string{"vmInput", "scAddress", "callFunction", "readOnly", "asyncCallInfo", "asyncContextInfo", "codeSize"}, deep: map[string]bool{"vmInput": true}, noShare: []string{"VMInput", "big.Int", "ESDTTransfer"},
		other: map[string]string{
			"instance": "saved on the instance stack", "instanceStack": "the stack of instances", "maxWasmerInstances": "configuration", "instanceBuilder": "configuration",
			"verifyCode": "set immediately before the start it is about", "errors": "the list of errors of the whole transaction",
			"warmInstanceAddress": "cache (C19)", "warmInstance": "cache (C19)"}},
}

func init() { register("C01", checkC01) }

// engineFieldStores runs a method and reports, per exit, which receiver fields were certainly assigned.
func mustStores(p *Prog, fn *ssa.Function, typ string) (exits []map[string]bool, e *Engine) {
	e = newEngine(p)
	ofType := func(a ssa.Value) (string, bool) {
		fa, ok := a.(*ssa.FieldAddr)
		if !ok || typeName(deref(fa.X.Type())) != typ {
			return "", false
		}
		if _, isAlloc := fa.X.(*ssa.Alloc); isAlloc {
			return "", false
		}
		return fieldName(fa.X.Type(), fa.Field), true
	}
	e.IsRelevantInstr = func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		_, ok = ofType(st.Addr)
		return ok
	}
	pk := pkgRel(fn)
	e.Skip = func(g *ssa.Function) bool { return pkgRel(g) != pk }
	e.Instr = func(e *Engine, f *ssa.Function, in ssa.Instruction, st *State) {
		if s, ok := in.(*ssa.Store); ok {
			if n, ok := ofType(s.Addr); ok {
				st.C = kvSet(st.C, n, "1")
			}
		}
	}
	for _, x := range e.Run(fn, "") {
		m := map[string]bool{}
		for _, kv := range strings.Split(x.C, ";") {
			if kv != "" {
				m[strings.TrimSuffix(kv, "=1")] = true
			}
		}
		exits = append(exits, m)
	}
	return exits, e
}

func inPkg(rel string) func(*ssa.Function) bool {
	return func(fn *ssa.Function) bool { return pkgRel(fn) == rel }
}

// savedObject finds what a PushState method appends to the stack field of its receiver.
func savedElement(f *Flow, fr *fframe, stack string) *fval {
	recv := fr.vals[fr.fn.Params[0]]
	out := newFval()
	for l := range recv.ptrs {
		s := f.slot(l.o, stack, fieldType(l.o.typ, stack))
		for sl := range s.ptrs {
			if sl.o.path != "" {
				continue // the stack as it was
			}
			if el, ok := sl.o.slots["[]"]; ok {
				for p := range el.ptrs {
					if !strings.HasPrefix(p.o.path, "s."+stack) {
						out.ptrs[p] = true
					}
				}
				for lb := range el.labels {
					if !strings.HasPrefix(lb, "s."+stack) {
						out.labels[lb] = true
					}
				}
			}
			for lb := range sl.o.deep {
				if !strings.HasPrefix(lb, "s."+stack) {
					out.labels[lb] = true
				}
			}
		}
	}
	return out
}

func structFields(t types.Type) []string {
	var out []string
	if st, ok := deref(t).Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			out = append(out, st.Field(i).Name())
		}
	}
	return out
}

// writtenFields: field names of a named struct type that any production function of the packages writes,
// other than the given constructors.
func (p *Prog) writtenFields(typ string, pkgs map[string]bool, skip func(*ssa.Function) bool) map[string][]*ssa.Function {
	out := map[string][]*ssa.Function{}
	for _, fn := range p.Funcs {
		if !pkgs[pkgRel(fn)] || skip(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var fa *ssa.FieldAddr
				switch x := in.(type) {
				case *ssa.Store:
					fa, _ = x.Addr.(*ssa.FieldAddr)
				case *ssa.MapUpdate:
					if u, ok := x.Map.(*ssa.UnOp); ok && u.Op == token.MUL {
						fa, _ = u.X.(*ssa.FieldAddr)
					}
				}
				if fa == nil || typeName(deref(fa.X.Type())) != typ {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); fresh {
					continue
				}
				n := fieldName(fa.X.Type(), fa.Field)
				out[n] = append(out[n], fn)
			}
		}
	}
	return out
}

func (p *Prog) namedType(rel, name string) types.Type {
	pk := p.Pkgs[rel]
	if pk == nil {
		pk = p.All[rel]
	}
	if pk == nil {
		return nil
	}
	o := pk.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

const vmCommonPath = "github.com/ElrondNetwork/elrond-vm-common"

func (p *Prog) vmType(name string) types.Type { return p.namedType(vmCommonPath, name) }

func checkC01(p *Prog, r *Result) {
	r.Rule = "For every context with a stack of saved states: data flow shows that each part of its state (each field, and each member of the VM input, the VM output and its accounts) reaches the saved element in PushState and comes back from the same part of the popped element in PopSetActiveState, on every path that pops (must-assign typestate); the saved copy shares no mutable map, account, input or big integer with the running state; pops touch the top of the stack only; merging keeps both the parent's and the child's accounts, logs and return data; no element is passed over in copying and merging; and no other field of a context is changed during an execution without being in this list. Each InitState sets every part of its context anew, and the input of a nested call is what it was called with."
	r.Assumptions = []string{"byte strings are not modified in place once they are part of the state", "the members of vmcommon structures are those of the imported package"}
	const pk = "arwen/contexts"
	n := 0
	var loopRoots []*ssa.Function
	for _, sp := range ctxSpecs {
		push := p.fn(pk + "." + sp.ctx + ".PushState")
		pop := p.fn(pk + "." + sp.ctx + ".PopSetActiveState")
		t := p.namedType(pk, sp.ctx)
		if push == nil || pop == nil || t == nil {
			r.violate("missing:"+sp.ctx, "-", "%s has no PushState/PopSetActiveState", sp.ctx)
			continue
		}
		n++
		loopRoots = append(loopRoots, push)
		var members []string // paths below the receiver that must be saved
		deepOf := map[string]string{}
		have := map[string]bool{}
		for _, f := range structFields(t) {
			have[f] = true
		}
		for _, f := range sp.fields {
			if !have[f] {
				continue // renamed or removed: the write check below sees its replacement
			}
			if !sp.deep[f] {
				members = append(members, f)
				continue
			}
			for _, m := range structFields(fieldType(t, f)) {
				if f == "outputState" && (m == "DeletedAccounts" || m == "TouchedAccounts") {
					if len(p.writtenFields("VMOutput", map[string]bool{pk: true, "arwen/host": true, "arwen/elrondapi": true}, func(*ssa.Function) bool { return false })[m]) == 0 {
						continue // never filled by the VM
					}
				}
				members = append(members, f+"."+m)
				if f == "vmInput" && m == "ESDTTransfers" {
					for _, a := range structFields(p.vmType("ESDTTransfer")) {
						members = append(members, f+"."+m+"[]."+a)
					}
				}
				if f == "outputState" && m == "OutputAccounts" {
					for _, a := range structFields(p.vmType("OutputAccount")) {
						members = append(members, f+"."+m+"[]."+a)
						deepOf[f+"."+m+"[]."+a] = a
					}
				}
			}
		}
		// what is saved
		fl := newFlow(p)
		fl.Inline = inPkg(pk)
		fr := fl.Run(push, "s")
		el := savedElement(fl, fr, sp.stack)
		get := func(fl *Flow, base *fval, path string) *fval {
			cur := base
			for _, part := range strings.Split(strings.ReplaceAll(path, "[]", ".[]"), ".") {
				if part == "" {
					continue
				}
				cur = fl.Field(cur, part)
			}
			return cur
		}
		within := func(m string) string { // path inside the element
			if sp.direct == "" {
				return m
			}
			return strings.TrimPrefix(strings.TrimPrefix(m, sp.direct), ".")
		}
		if len(el.ptrs) == 0 && len(el.labels) == 0 {
			r.violate("nothing-saved:"+sp.ctx, p.pos(push.Pos()), "%s.PushState does not put anything on %s", sp.ctx, sp.stack)
			continue
		}
		for _, m := range members {
			if sp.direct != "" && !strings.HasPrefix(m, sp.direct) {
				r.violate("not-saved:"+sp.ctx+"."+m, p.pos(push.Pos()), "%s.PushState does not save %s", sp.ctx, m)
				continue
			}
			ls := fl.Labels(get(fl, el, within(m)))
			if !hasPath(ls, "s."+m) {
				r.violate("not-saved:"+sp.ctx+"."+m, p.pos(push.Pos()), "%s.PushState: %s does not reach the same member of the saved state (which gets: %s)", sp.ctx, m, labelList(ls))
			} else {
				r.ok("saved")
			}
		}
		// aliasing
		for _, o := range fl.Objs(el) {
			if o.path == "" || !strings.HasPrefix(o.path, "s.") || strings.HasPrefix(o.path, "s."+sp.stack) {
				continue
			}
			kind := ""
			for _, ns := range sp.noShare {
				if ns == "map" {
					if _, ok := o.typ.Underlying().(*types.Map); ok {
						kind = "map"
					}
				} else if o.typ != nil && (typeName(o.typ) == ns || ns == "big.Int" && typeName(o.typ) == "Int") {
					kind = ns
				}
			}
			if kind != "" {
				r.violate("shared:"+sp.ctx+":"+o.path[2:], p.pos(push.Pos()), "%s.PushState saves a reference to the %s at %s instead of a copy: running code changes the saved state", sp.ctx, kind, o.path[2:])
			} else {
				r.ok("not-shared")
			}
		}
		// what comes back
		fp := newFlow(p)
		fp.Inline = inPkg(pk)
		fpr := fp.Run(pop, "s")
		recv := fpr.vals[pop.Params[0]]
		for _, m := range members {
			if sp.direct != "" && !strings.HasPrefix(m, sp.direct) {
				continue
			}
			ls := fp.Labels(get(fp, recv, m))
			want := "s." + sp.stack + "[]"
			if w := within(m); w != "" {
				want += "." + w
			}
			if !hasPath(ls, want) && !pathAbove(ls, want, "s."+sp.stack+"[]") {
				r.violate("not-restored:"+sp.ctx+"."+m, p.pos(pop.Pos()), "%s.PopSetActiveState does not bring %s back from the saved state (it gets: %s)", sp.ctx, m, labelList(ls))
			} else {
				r.ok("restored")
			}
		}
		// on every path that pops
		exits, e := mustStores(p, pop, sp.ctx)
		e.finish(r)
		popped := 0
		for _, m := range exits {
			if !m[sp.stack] {
				for f := range m {
					r.violate("pop-without-shrinking:"+sp.ctx, p.pos(pop.Pos()), "a path of %s.PopSetActiveState changes %s without removing the saved state", sp.ctx, f)
				}
				continue
			}
			popped++
			for _, f := range sp.fields {
				if f == "codeUpdates" || !have[f] {
					continue
				}
				if !m[f] {
					r.violate("not-always-restored:"+sp.ctx+"."+f, p.pos(pop.Pos()), "a path of %s.PopSetActiveState removes the saved state without assigning %s", sp.ctx, f)
				} else {
					r.ok("always-restored")
				}
			}
		}
		if popped == 0 {
			r.violate("never-pops:"+sp.ctx, p.pos(pop.Pos()), "no path of %s.PopSetActiveState removes a saved state", sp.ctx)
		}
		// other fields
		known := map[string]bool{sp.stack: true}
		for _, f := range sp.fields {
			known[f] = true
		}
		w := p.writtenFields(sp.ctx, map[string]bool{pk: true, "arwen/host": true}, func(fn *ssa.Function) bool { return strings.HasPrefix(fn.Name(), "New") })
		var names []string
		for f := range w {
			names = append(names, f)
		}
		sort.Strings(names)
		for _, f := range names {
			if known[f] || sp.other[f] != "" {
				r.ok("classified-field")
				continue
			}
			r.violate("unsaved-field:"+sp.ctx+"."+f, p.pos(w[f][0].Pos()), "%s changes %s.%s during executions, but no saved state contains it", fname(w[f][0]), sp.ctx, f)
		}
		// only the top
		for _, mn := range []string{"PopSetActiveState", "PopDiscard", "PopMergeActiveState"} {
			if m := p.fn(pk + "." + sp.ctx + "." + mn); m != nil {
				topOnly(p, r, m, sp.ctx, sp.stack)
				loopRoots = append(loopRoots, m)
				if mn != "PopDiscard" {
					asItWas(p, r, m, sp)
				}
				if mn == "PopMergeActiveState" {
					sameCalls(p, r, m, sp.ctx, sp.stack)
				}
			}
		}
	}
	r.floor("contexts with saved states", n, 5)
	wholeLoops(p, r, loopRoots)
	checkStarts(p, r)
	checkInstanceStack(p, r)
	checkBlockchainSnapshot(p, r)
	checkMerge(p, r)
}

// pathAbove: the labels contain an ancestor of want that is itself below base (the whole object was taken).
func pathAbove(ls map[string]bool, want, base string) bool {
	for l := range ls {
		if len(l) >= len(base) && strings.HasPrefix(l, base) && (want == l || strings.HasPrefix(want, l+".") || strings.HasPrefix(want, l+"[")) {
			return true
		}
	}
	return false
}

// affine expresses an index as len(x)+c when it can.
func affine(v ssa.Value, depth int) (base string, c int64, ok bool) {
	if depth > 6 {
		return "", 0, false
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return "", 0, false
		}
		return "", x.Int64(), true
	case *ssa.BinOp:
		b1, c1, ok1 := affine(x.X, depth+1)
		b2, c2, ok2 := affine(x.Y, depth+1)
		if !ok1 || !ok2 {
			return "", 0, false
		}
		switch x.Op {
		case token.ADD:
			if b1 != "" && b2 != "" {
				return "", 0, false
			}
			return b1 + b2, c1 + c2, true
		case token.SUB:
			if b2 != "" {
				return "", 0, false
			}
			return b1, c1 - c2, true
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return "len:" + loadedField(x.Call.Args[0]), 0, true
		}
	case *ssa.Convert:
		return affine(x.X, depth+1)
	}
	return "", 0, false
}

func loadedField(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return fieldName(fa.X.Type(), fa.Field)
		}
	}
	return "?"
}

// topOnly: where a pop method indexes or cuts the stack with an index that can be expressed, it is len-1.
func topOnly(p *Prog, r *Result, fn *ssa.Function, ctx, stack string) {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || f.Blocks == nil || pkgRel(f) != pkgRel(fn) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				bad := func(idx ssa.Value, what string) {
					if idx == nil {
						return
					}
					base, c, ok := affine(idx, 0)
					if ok && !(base == "len:"+stack && c == -1) && !(base == "len:?" && c == -1) {
						r.violate("not-the-top:"+fname(f)+":"+what, p.pos(in.Pos()), "%s %s %s at %s%+d instead of at its top", fname(f), what, stack, base, c)
					} else {
						r.ok("top-of-stack")
					}
				}
				switch x := in.(type) {
				case *ssa.IndexAddr:
					if loadedField(x.X) == stack {
						bad(x.Index, "reads")
					}
				case *ssa.Slice:
					if loadedField(x.X) == stack {
						if x.Low != nil {
							r.violate("not-the-top:"+fname(f)+":cuts", p.pos(in.Pos()), "%s cuts %s from the bottom", fname(f), stack)
						}
						bad(x.High, "cuts")
					}
				case ssa.CallInstruction:
					if g := x.Common().StaticCallee(); g != nil {
						visit(g)
					}
				}
			}
		}
	}
	visit(fn)
}

func checkInstanceStack(p *Prog, r *Result) {
	const pk = "arwen/contexts"
	push, pop := p.fn(pk+".runtimeContext.PushState"), p.fn(pk+".runtimeContext.PopSetActiveState")
	if push == nil || pop == nil {
		return
	}
	fl := newFlow(p)
	fl.Inline = inPkg(pk)
	fr := fl.Run(push, "s")
	if el := savedElement(fl, fr, "instanceStack"); !hasPath(fl.Labels(el), "s.instance") {
		r.violate("not-saved:runtimeContext.instance", p.pos(push.Pos()), "runtimeContext.PushState does not keep the running instance")
	} else {
		r.ok("saved")
	}
	for _, m := range []string{"PopSetActiveState", "PopDiscard"} {
		fn := p.fn(pk + ".runtimeContext." + m)
		if fn == nil {
			continue
		}
		fp := newFlow(p)
		fp.Inline = inPkg(pk)
		fpr := fp.Run(fn, "s")
		if !hasPath(fp.Labels(fp.Field(fpr.vals[fn.Params[0]], "instance")), "s.instanceStack[]") {
			r.violate("not-restored:runtimeContext.instance:"+m, p.pos(fn.Pos()), "runtimeContext.%s does not make the caller's instance the running one again", m)
		} else {
			r.ok("restored")
		}
		topOnly(p, r, fn, "runtimeContext", "instanceStack")
	}
}

func checkBlockchainSnapshot(p *Prog, r *Result) {
	const pk = "arwen/contexts"
	push, pop := p.fn(pk+".blockchainContext.PushState"), p.fn(pk+".blockchainContext.PopSetActiveState")
	if push == nil || pop == nil {
		r.violate("missing:blockchainContext", "-", "blockchainContext has no PushState/PopSetActiveState")
		return
	}
	isHook := func(name, m string) bool { return strings.HasSuffix(name, ".BlockchainHook."+m) }
	fl := newFlow(p)
	fl.Inline = inPkg(pk)
	fl.ExtLabel = func(name string) (string, bool) {
		if isHook(name, "GetSnapshot") {
			return "hook.snapshot", true
		}
		return "", false
	}
	fr := fl.Run(push, "s")
	if !fl.Labels(savedElement(fl, fr, "stateStack"))["hook.snapshot"] {
		r.violate("not-saved:blockchainContext.snapshot", p.pos(push.Pos()), "blockchainContext.PushState does not keep a snapshot of the blockchain")
	} else {
		r.ok("saved")
	}
	fp := newFlow(p)
	fp.Inline = inPkg(pk)
	fp.Run(pop, "s")
	found := false
	for _, c := range fp.Calls {
		if isHook(c.Name, "RevertToSnapshot") && len(c.Args) == 2 && hasPath(fp.Labels(c.Args[1]), "s.stateStack[]") {
			found = true
		}
	}
	if !found {
		r.violate("not-restored:blockchainContext.snapshot", p.pos(pop.Pos()), "blockchainContext.PopSetActiveState does not revert to the snapshot at the top of its stack")
	} else {
		r.ok("restored")
	}
	topOnly(p, r, pop, "blockchainContext", "stateStack")
	// on every path that pops
	e := newEngine(p)
	isPop := func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		return ok && typeName(deref(fa.X.Type())) == "blockchainContext" && fieldName(fa.X.Type(), fa.Field) == "stateStack"
	}
	e.IsRelevantInstr = isPop
	e.IsEvent = func(_ *ssa.CallCommon, name string) bool { return isHook(name, "RevertToSnapshot") }
	e.Skip = func(f *ssa.Function) bool { return pkgRel(f) != pk }
	e.Event = func(c *CallCtx) ([]Outcome, bool) {
		if isHook(c.Name, "RevertToSnapshot") {
			return []Outcome{{C: kvSet(c.St.C, "rev", "1"), Res: []Val{{K: VNil}}}, {C: kvSet(c.St.C, "rev", "1"), Res: []Val{{K: VNonNil}}}}, true
		}
		return nil, false
	}
	e.Instr = func(_ *Engine, _ *ssa.Function, in ssa.Instruction, st *State) {
		if isPop(in) {
			st.C = kvSet(st.C, "pop", "1")
		}
	}
	any := false
	for _, x := range e.Run(pop, "") {
		if kvGet(x.C, "pop") != kvGet(x.C, "rev") {
			r.violate("pop-and-revert:blockchainContext", p.pos(pop.Pos()), "a path of blockchainContext.PopSetActiveState removes the snapshot without reverting to it, or the other way round")
		} else {
			r.ok("always-restored")
			any = any || kvGet(x.C, "pop") == "1"
		}
	}
	if !any {
		r.violate("never-pops:blockchainContext", p.pos(pop.Pos()), "no path of blockchainContext.PopSetActiveState reverts")
	}
	e.finish(r)
}

// checkMerge: what a successful nested execution leaves.
func checkMerge(p *Prog, r *Result) {
	const pk = "arwen/contexts"
	if fn := p.fn(pk + ".outputContext.PopMergeActiveState"); fn == nil {
		r.violate("missing:outputContext.PopMergeActiveState", "-", "gone")
	} else {
		fl := newFlow(p)
		fl.Inline = inPkg(pk)
		fr := fl.Run(fn, "s")
		recv := fr.vals[fn.Params[0]]
		out := fl.Field(recv, "outputState")
		mergeOrder(p, r, fl, fn, out)
		both := []string{"ReturnData", "Logs", "OutputAccounts"}
		for _, a := range structFields(p.vmType("OutputAccount")) {
			both = append(both, "OutputAccounts[]."+a)
		}
		for _, m := range both {
			cur := out
			for _, part := range strings.Split(strings.ReplaceAll(m, "[]", ".[]"), ".") {
				if part != "" {
					cur = fl.Field(cur, part)
				}
			}
			ls := fl.Labels(cur)
			for _, src := range []string{"s.outputState.", "s.stateStack[]."} {
				if !hasPath(ls, src+m) {
					who := "nested call"
					if strings.Contains(src, "Stack") {
						who = "caller"
					}
					r.violate("merge-loses:"+m+":"+strings.Fields(who)[0], p.pos(fn.Pos()), "after a successful nested execution the merged output does not contain the %s's %s", who, m)
				} else {
					r.ok("merged")
				}
			}
		}
		for _, m := range []string{"GasRemaining", "GasRefund", "ReturnCode", "ReturnMessage"} {
			if !hasPath(fl.Labels(fl.Field(out, m)), "s.outputState."+m) && !hasPath(fl.Labels(fl.Field(out, m)), "s.stateStack[]."+m) {
				r.violate("merge-loses:"+m, p.pos(fn.Pos()), "after a successful nested execution the merged output has no %s", m)
			} else {
				r.ok("merged")
			}
		}
	}
	if fn := p.fn(pk + ".meteringContext.PopMergeActiveState"); fn == nil {
		r.violate("missing:meteringContext.PopMergeActiveState", "-", "gone")
	} else {
		fl := newFlow(p)
		fl.Inline = inPkg(pk)
		fr := fl.Run(fn, "s")
		recv := fr.vals[fn.Params[0]]
		for _, f := range []string{"initialGasProvided", "initialCost", "gasForExecution"} {
			if !hasPath(fl.Labels(fl.Field(recv, f)), "s.stateStack[]."+f) {
				r.violate("not-restored:meteringContext."+f+":merge", p.pos(fn.Pos()), "meteringContext.PopMergeActiveState does not give the caller its %s back", f)
			} else {
				r.ok("restored")
			}
		}
		ls := fl.Labels(fl.Field(recv, "gasUsedByAccounts"))
		if !hasPath(ls, "s.stateStack[].gasUsedByAccounts") || !hasPath(ls, "s.gasUsedByAccounts") {
			r.violate("merge-loses:gasUsedByAccounts", p.pos(fn.Pos()), "meteringContext.PopMergeActiveState loses the gas used by the caller or by the nested call")
		} else {
			r.ok("merged")
		}
		exits, e := mustStores(p, fn, "meteringContext")
		e.finish(r)
		for _, m := range exits {
			if m["stateStack"] {
				for _, f := range []string{"initialGasProvided", "initialCost", "gasForExecution"} {
					if !m[f] {
						r.violate("not-always-restored:meteringContext."+f+":merge", p.pos(fn.Pos()), "a path of meteringContext.PopMergeActiveState does not restore %s", f)
					}
				}
			}
		}
	}
	_ = fmt.Sprint
}
