package main

import (
	"go/constant"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C11", checkC11) }

const vmPrefix = "ARWEN@"

func isFieldOf(v ssa.Value, typ, field string) bool {
	fa, ok := v.(*ssa.FieldAddr)
	return ok && typeName(deref(fa.X.Type())) == typ && fieldName(fa.X.Type(), fa.Field) == field
}

// storageWrite is an instruction that puts something other than what was read under a storage key.
func (p *Prog) storageWrite(in ssa.Instruction) bool {
	switch in.(type) {
	case *ssa.MapUpdate, *ssa.Store, *ssa.Call:
		w := p.changeOf(in)
		if w == "something is removed from the output" {
			b := in.(*ssa.Call)
			return strings.Contains(b.Call.Args[0].Type().String(), "StorageUpdate")
		}
		return w == "storage is changed"
	}
	return false
}

func checkC11(p *Prog, r *Result) {
	r.Rule = "Typestate over all paths of the storage operations and of the host functions: something is put under a storage key only after that very key was compared with the prefix reserved for the node and found different, and compared with the prefix reserved for the VM and found different unless the protection is off; only in the storage of the account whose storage is in use. The protection is on again whenever an operation ends, crashes of the blockchain included; it is only switched off for keys the VM makes itself from its prefix; the storage in use is always that of the running contract."
	r.Assumptions = []string{"merging whole outputs is C03", "a crash is injected at every call of the blockchain"}
	e := newEngine(p)
	e.MaxState = 20000
	e.Panics = true
	crash := func(com *ssa.CallCommon) bool {
		return com.IsInvoke() && typeName(com.Value.Type()) == "BlockchainHook"
	}
	isPrefix := func(com *ssa.CallCommon) bool {
		o := calleeObj(com)
		return o != nil && o.Pkg() != nil && (o.Pkg().Path() == "bytes" || o.Pkg().Path() == "strings") && o.Name() == "HasPrefix"
	}
	updates := func(com *ssa.CallCommon) bool {
		ctx, m := anyCtxCall(com)
		return ctx == "storage" && m == "GetStorageUpdates"
	}
	prot := func(in ssa.Instruction) (*ssa.Store, bool) {
		st, ok := in.(*ssa.Store)
		if !ok || !isFieldOf(st.Addr, "storageContext", "arwenStorageProtectionEnabled") {
			return nil, false
		}
		if _, fresh := st.Addr.(*ssa.FieldAddr).X.(*ssa.Alloc); fresh {
			return nil, false
		}
		return st, true
	}
	e.IsEvent = func(com *ssa.CallCommon, name string) bool {
		return crash(com) || isPrefix(com) || updates(com)
	}
	e.IsRelevantInstr = func(in ssa.Instruction) bool {
		_, ok := prot(in)
		return ok || p.storageWrite(in)
	}
	e.Skip = func(f *ssa.Function) bool {
		rel := pkgRel(f)
		if f.Signature.Recv() != nil && plumbing(f.Name()) {
			return true
		}
		return rel != "arwen/contexts" && !isAPIPkg(rel) && rel != "arwen" && rel != "arwen/host"
	}
	e.Load = func(st *State, x *ssa.UnOp) (Val, bool) {
		switch {
		case isFieldOf(x.X, "storageContext", "arwenStorageProtectionEnabled"):
			return vbool(kvGet(st.C, "off") == ""), true
		case isFieldOf(x.X, "storageContext", "elrondProtectedKeyPrefix"):
			return vtag("nodeprefix"), true
		case isFieldOf(x.X, "storageContext", "address"):
			return vtag("self"), true
		}
		return Val{}, false
	}
	e.Event = func(c *CallCtx) ([]Outcome, bool) {
		st := c.St.C
		switch {
		case isPrefix(c.Com):
			k := "k" + e.vs(c.Args[0])
			switch pre := c.Args[1]; {
			case pre.T == "nodeprefix":
				return []Outcome{{C: st, Res: []Val{vbool(true)}}, {C: kvSet(st, "node"+k, "1"), Res: []Val{vbool(false)}}}, true
			case pre.T == "s:"+vmPrefix:
				return []Outcome{{C: st, Res: []Val{vbool(true)}}, {C: kvSet(st, "vm"+k, "1"), Res: []Val{vbool(false)}}}, true
			}
			return nil, false
		case updates(c.Com):
			if c.Args[len(c.Args)-1].T == "self" {
				return []Outcome{{C: st, Res: []Val{vtag("selfmap")}}}, true
			}
			return []Outcome{{C: st, Res: []Val{vtag("othermap")}}}, true
		case crash(c.Com):
			res := make([]Val, c.Com.Signature().Results().Len())
			return []Outcome{{C: st, Res: res}, {C: st, Panic: true}}, true
		}
		return nil, false
	}
	var root *ssa.Function
	seen := map[string]bool{}
	visited := map[ssa.Instruction]bool{}
	report := func(key string, pos token.Pos, format string, args ...interface{}) {
		if !seen[key] {
			seen[key] = true
			r.violate(key, p.pos(pos), format, args...)
		}
	}
	e.Instr = func(e *Engine, fn *ssa.Function, in ssa.Instruction, st *State) {
		if s, ok := prot(in); ok {
			switch e.Eval(st, s.Val).K {
			case VTrue:
				st.C = kvSet(st.C, "off", "")
			default:
				st.C = kvSet(st.C, "off", "1")
			}
			return
		}
		if !p.storageWrite(in) {
			return
		}
		visited[in] = true
		r.saw(fname(fn) + " writes storage")
		mu, ok := in.(*ssa.MapUpdate)
		if !ok {
			report("direct:"+fname(root), in.Pos(), "%s: %s changes a storage update in place", fname(root), fname(fn))
			return
		}
		k := "k" + e.vs(e.Eval(st, mu.Key))
		if kvGet(st.C, "node"+k) == "" {
			report("node-key:"+fname(root), in.Pos(), "%s: %s writes storage under a key that was not found to be free of the node's prefix", fname(root), fname(fn))
		} else {
			r.ok("not a key of the node")
		}
		if kvGet(st.C, "vm"+k) == "" && kvGet(st.C, "off") == "" {
			report("vm-key:"+fname(root), in.Pos(), "%s: %s writes storage under a key that was not found to be free of the VM's prefix, with the protection on", fname(root), fname(fn))
		} else {
			r.ok("not a key of the VM, or the VM's own write")
		}
		if e.Eval(st, mu.Map).T != "selfmap" {
			report("foreign:"+fname(root), in.Pos(), "%s: %s writes to storage that may not be the running contract's", fname(root), fname(fn))
		} else {
			r.ok("own storage")
		}
	}
	run := func(f *ssa.Function) {
		root = f
		e.memo = map[string]*summary{}
		for _, x := range e.Run(f, "") {
			if kvGet(x.C, "off") == "" {
				r.ok("protection on at the end")
				continue
			}
			how := "returns"
			if x.Panic {
				how = "crashes"
			}
			report("protection-off:"+fname(f), f.Pos(), "%s %s with the protection of the VM's keys off", fname(f), how)
		}
	}
	n := 0
	for _, f := range p.Funcs {
		if f.Signature.Recv() == nil || f.Parent() != nil || f.Synthetic != "" || typeName(f.Signature.Recv().Type()) != "storageContext" || pkgRel(f) != "arwen/contexts" {
			continue
		}
		if !token.IsExported(f.Name()) || plumbing(f.Name()) {
			continue
		}
		n++
		run(f)
	}
	for _, f := range p.hostFunctions() {
		n++
		run(f)
	}
	// writes nobody above reached
	moving := p.onlyPlumbing()
	for _, f := range p.Funcs {
		rel := pkgRel(f)
		if rel != "arwen" && !strings.HasPrefix(rel, "arwen/") || strings.HasPrefix(rel, "arwen/mock") || moving[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if p.storageWrite(in) && !visited[in] {
					run(f)
				}
			}
		}
	}
	for _, o := range e.Overflow {
		r.violate("overflow:"+o, "-", "analysis gave up: %s", o)
	}
	p.ownKeys(r)
	p.focus(r)
	r.floor("entry points", n, 100)
	r.floor("storage writes", len(visited), 1)
}

// onlyPlumbing are the functions that are reached only through what moves whole states around.
func (p *Prog) onlyPlumbing() map[*ssa.Function]bool {
	called, by := map[*ssa.Function]bool{}, map[*ssa.Function][]*ssa.Function{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						called[g] = true
						by[g] = append(by[g], f)
					}
				}
			}
		}
	}
	out := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if f.Signature.Recv() != nil && plumbing(f.Name()) {
			out[f] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range p.Funcs {
			if out[f] || !called[f] {
				continue
			}
			all := true
			for _, g := range by[f] {
				if !out[g] && g != f {
					all = false
				}
			}
			if all {
				out[f] = true
				changed = true
			}
		}
	}
	return out
}

// ownKeys: the protection is only switched off for keys made by the VM from its own prefix.
func (p *Prog) ownKeys(r *Result) {
	n := 0
	for _, f := range p.Funcs {
		rel := pkgRel(f)
		if rel != "arwen" && !strings.HasPrefix(rel, "arwen/") || strings.HasPrefix(rel, "arwen/mock") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				ctx, m := anyCtxCall(ci.Common())
				if ctx != "storage" || m != "SetProtectedStorage" {
					continue
				}
				n++
				args := ci.Common().Args
				key := args[len(args)-2]
				where, parts := p.textParts(key, f, 6, map[*ssa.Parameter]ssa.Value{})
				first, any := false, false
				for i, s := range parts {
					if strings.HasPrefix(s, vmPrefix) {
						any = true
						first = first || i == 0
					}
				}
				switch {
				case first:
					r.ok("privileged write under a key of the VM")
				case any:
					r.violate("own-key-not-protected:"+where, p.pos(in.Pos()), "%s makes the VM's own keys so that they do not begin with the prefix the protection looks for", where)
				default:
					r.violate("privileged-write:"+fname(f), p.pos(in.Pos()), "%s writes with the protection off under a key that is not made from the VM's prefix", fname(f))
				}
			}
		}
	}
	r.floor("privileged writes", n, 1)
}

// textParts is the list of texts a key is put together from, "" where unknown, and the function that does it.
func (p *Prog) textParts(v ssa.Value, f *ssa.Function, depth int, bind map[*ssa.Parameter]ssa.Value) (string, []string) {
	if depth == 0 {
		return fname(f), []string{""}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return fname(f), []string{constant.StringVal(x.Value)}
		}
	case *ssa.Convert:
		return p.textParts(x.X, f, depth, bind)
	case *ssa.ChangeType:
		return p.textParts(x.X, f, depth, bind)
	case *ssa.Slice:
		return p.textParts(x.X, f, depth, bind)
	case *ssa.Parameter:
		if w, ok := bind[x]; ok {
			return p.textParts(w, f, depth-1, map[*ssa.Parameter]ssa.Value{})
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			_, a := p.textParts(x.X, f, depth-1, bind)
			_, b := p.textParts(x.Y, f, depth-1, bind)
			return fname(f), append(a, b...)
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			_, a := p.textParts(x.Call.Args[0], f, depth-1, bind)
			_, c := p.textParts(x.Call.Args[1], f, depth-1, bind)
			if isEmptyMake(x.Call.Args[0]) {
				return fname(f), c
			}
			return fname(f), append(a, c...)
		}
		g := x.Call.StaticCallee()
		if g == nil || g.Blocks == nil {
			break
		}
		nb := map[*ssa.Parameter]ssa.Value{}
		for i, pa := range g.Params {
			nb[pa] = x.Call.Args[i]
			if q, ok := x.Call.Args[i].(*ssa.Parameter); ok && bind[q] != nil {
				nb[pa] = bind[q]
			}
		}
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > 0 {
				return p.textParts(ret.Results[0], g, depth-1, nb)
			}
		}
	}
	return fname(f), []string{""}
}

// isEmptyMake: a list that is still empty.
func isEmptyMake(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeSlice:
		c, ok := x.Len.(*ssa.Const)
		return ok && c.Value != nil && c.Int64() == 0
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Slice:
		if c, ok := x.High.(*ssa.Const); ok && c.Value != nil && c.Int64() == 0 {
			return true
		}
	}
	return false
}

// focus: the storage in use is chosen by the host only, and always as that of the running contract.
func (p *Prog) focus(r *Result) {
	n := 0
	for _, f := range p.Funcs {
		rel := pkgRel(f)
		if rel != "arwen" && !strings.HasPrefix(rel, "arwen/") || strings.HasPrefix(rel, "arwen/mock") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && isFieldOf(st.Addr, "storageContext", "address") {
					_, param := st.Val.(*ssa.Parameter)
					if plumbing(f.Name()) || f.Name() == "SetAddress" && param {
						r.ok("the storage in use is set only where it is expected")
						continue
					}
					r.violate("focus-set:"+fname(f), p.pos(in.Pos()), "%s chooses the storage in use on its own", fname(f))
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				ctx, m := anyCtxCall(ci.Common())
				if ctx != "storage" || m != "SetAddress" {
					continue
				}
				n++
				a := ci.Common().Args[len(ci.Common().Args)-1]
				if p.isRunningAddress(a, f, 3) {
					r.ok("the storage in use is the running contract's")
					continue
				}
				r.violate("focus:"+fname(f), p.pos(in.Pos()), "%s puts in use the storage of something other than the running contract", fname(f))
			}
		}
	}
	r.floor("choices of the storage in use", n, 1)
}

// isRunningAddress: the address is what the runtime says the running contract's is.
func (p *Prog) isRunningAddress(v ssa.Value, f *ssa.Function, depth int) bool {
	switch x := v.(type) {
	case *ssa.Call:
		if ctx, m := anyCtxCall(&x.Call); ctx == "runtime" && m == "GetSCAddress" {
			return true
		}
		g := x.Call.StaticCallee()
		if g == nil || depth == 0 {
			return false
		}
		ok := false
		for _, b := range g.Blocks {
			if ret, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isRet {
				if len(ret.Results) == 0 || !p.isRunningAddress(ret.Results[0], g, depth-1) {
					return false
				}
				ok = true
			}
		}
		return ok
	case *ssa.Parameter:
		// a helper: all callers have to hand it in
		if depth == 0 {
			return false
		}
		idx := -1
		for i, q := range f.Params {
			if q == x {
				idx = i
			}
		}
		calls := 0
		for _, g := range p.Funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok || ci.Common().StaticCallee() != f {
						continue
					}
					calls++
					if idx >= len(ci.Common().Args) || !p.isRunningAddress(ci.Common().Args[idx], g, depth-1) {
						return false
					}
				}
			}
		}
		return calls > 0
	}
	return false
}
