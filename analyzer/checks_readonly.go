package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C10", checkC10) }

// changeOf tells what an instruction changes in the result of a transaction; "" if nothing, or only something
// that was just made.
func (p *Prog) changeOf(in ssa.Instruction) string {
	switch x := in.(type) {
	case *ssa.Store:
		fa, ok := x.Addr.(*ssa.FieldAddr)
		if !ok {
			return ""
		}
		if _, fresh := fa.X.(*ssa.Alloc); fresh {
			return ""
		}
		f := fieldName(fa.X.Type(), fa.Field)
		switch typeName(deref(fa.X.Type())) {
		case "OutputAccount":
			switch f {
			case "Code", "CodeMetadata", "CodeDeployerAddress":
				if fromHook(x.Val) {
					return "" // remembered as the blockchain has it
				}
				return "code is put into the output"
			case "BalanceDelta":
				return "a balance is changed"
			case "OutputTransfers":
				return "a transfer is put into the output"
			case "Nonce":
				if fromHook(x.Val) {
					return ""
				}
				return "a nonce is changed"
			}
		case "OutputTransfer":
			return ""
		case "VMOutput":
			switch f {
			case "Logs":
				return "a log is written"
			case "DeletedAccounts":
				return "an account is deleted"
			}
		case "StorageUpdate":
			return "storage is changed"
		}
	case *ssa.MapUpdate:
		mt, ok := x.Map.Type().Underlying().(*types.Map)
		if !ok || typeName(deref(mt.Elem())) != "StorageUpdate" {
			return ""
		}
		if al, ok := x.Value.(*ssa.Alloc); ok && p.onlyRead(al) {
			return "" // a value that was read is remembered
		}
		return "storage is changed"
	case ssa.CallInstruction:
		com := x.Common()
		if com.IsInvoke() && typeName(com.Value.Type()) == "BlockchainHook" && com.Method.Name() == "ProcessBuiltInFunction" {
			return "a protocol function is run"
		}
		if b, ok := com.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
			mt, ok := com.Args[0].Type().Underlying().(*types.Map)
			if ok && (typeName(deref(mt.Elem())) == "StorageUpdate" || typeName(deref(mt.Elem())) == "OutputAccount") {
				return "something is removed from the output"
			}
		}
	}
	return ""
}

// fromHook: the value is what the blockchain, or an account of it, answered.
func fromHook(v ssa.Value) bool {
	if x, ok := v.(*ssa.Extract); ok {
		v = x.Tuple
	}
	c, ok := v.(*ssa.Call)
	if !ok || !c.Call.IsInvoke() {
		return false
	}
	t := typeName(c.Call.Value.Type())
	return t == "BlockchainHook" || t == "UserAccountHandler"
}

// onlyRead: the value of a storage update is what the blockchain answered.
func (p *Prog) onlyRead(al *ssa.Alloc) bool {
	found := false
	for _, u := range *al.Referrers() {
		fa, ok := u.(*ssa.FieldAddr)
		if !ok || fieldName(fa.X.Type(), fa.Field) != "Data" {
			continue
		}
		for _, w := range *fa.Referrers() {
			st, ok := w.(*ssa.Store)
			if !ok {
				continue
			}
			if !p.readValue(st.Val, 4) {
				return false
			}
			found = true
		}
	}
	return found
}

// readValue: the value comes from reading storage, directly or from a function that only hands it on.
func (p *Prog) readValue(v ssa.Value, depth int) bool {
	switch x := v.(type) {
	case *ssa.Extract:
		return p.readValue(x.Tuple, depth)
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Phi:
		if depth == 0 {
			return false
		}
		for _, e := range x.Edges {
			if !p.readValue(e, depth-1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		// the value another update holds
		if fa, ok := x.X.(*ssa.FieldAddr); ok && typeName(deref(fa.X.Type())) == "StorageUpdate" {
			return true
		}
	case *ssa.Call:
		com := x.Common()
		if com.IsInvoke() && com.Method.Name() == "GetStorageData" {
			return true
		}
		fs := p.resolve(com)
		if depth == 0 || len(fs) == 0 {
			return false
		}
		for _, f := range fs {
			if f.Blocks == nil {
				return false
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ret, ok := in.(*ssa.Return); ok && (len(ret.Results) == 0 || !p.readValue(ret.Results[0], depth-1)) {
						return false
					}
				}
			}
		}
		return true
	}
	return false
}

// plumbing is what moves a whole state around: decided by C01 to C04.
func plumbing(m string) bool {
	switch m {
	case "PushState", "PopSetActiveState", "PopMergeActiveState", "PopDiscard", "ClearStateStack", "InitState", "AddToActiveState", "GetVMOutput", "CreateVMOutputInCaseOfError", "CensorVMOutput":
		return true
	}
	return false
}

func checkC10(p *Prog, r *Result) {
	r.Rule = "Typestate over all paths of every host function, into the host and the contexts: every instruction that changes storage, balances, transfers, logs, code, nonces or runs a protocol function is reached only on paths on which the execution was found not to be read-only; read-only mode is what it was before when the function ends, and nothing else sets it."
	r.Assumptions = []string{"a nested contract acts through host functions, each of which is analysed for any mode", "saving and restoring the mode around nested executions is C01", "a transfer is taken to be of a non-zero value"}
	e := newEngine(p)
	e.MaxState = 20000
	isMode := func(com *ssa.CallCommon) string {
		ctx, m := anyCtxCall(com)
		if ctx == "runtime" && (m == "ReadOnly" || m == "SetReadOnly" || m == "InitState") {
			return m
		}
		return ""
	}
	e.IsEvent = func(com *ssa.CallCommon, name string) bool {
		return isMode(com) != ""
	}
	e.IsRelevantInstr = func(in ssa.Instruction) bool { return p.changeOf(in) != "" }
	e.Skip = func(f *ssa.Function) bool {
		rel := pkgRel(f)
		if f.Signature.Recv() != nil && plumbing(f.Name()) {
			return true
		}
		return rel != "arwen/host" && rel != "arwen/contexts" && !isAPIPkg(rel) && rel != "arwen"
	}
	var root *ssa.Function
	seen := map[string]bool{}
	sites := map[ssa.Instruction]bool{}
	note := func(what string, fn *ssa.Function, pos token.Pos, in ssa.Instruction, st *State) {
		if !sites[in] {
			sites[in] = true
			r.saw(fname(fn) + ": " + what)
		}
		if kvGet(st.C, "cur") == "rw" {
			r.ok("change only when not read-only")
			return
		}
		k := "changes:" + fname(root) + ":" + what
		if !seen[k] {
			seen[k] = true
			r.violate(k, p.pos(pos), "%s: %s in %s without having found that the execution is not read-only", fname(root), what, fname(fn))
		}
	}
	e.Event = func(c *CallCtx) ([]Outcome, bool) {
		if what := p.changeOf(c.Instr); what != "" {
			note(what, c.Fn, c.Instr.Pos(), c.Instr, c.St)
			return nil, false
		}
		st := c.St.C
		switch isMode(c.Com) {
		case "ReadOnly":
			switch kvGet(st, "cur") {
			case "ro":
				return []Outcome{{C: st, Res: []Val{vbool(true)}}}, true
			case "rw":
				return []Outcome{{C: st, Res: []Val{vbool(false)}}}, true
			}
			return []Outcome{
				{C: kvSet(kvSet(st, "was", "ro"), "cur", "ro"), Res: []Val{vbool(true)}},
				{C: kvSet(kvSet(st, "was", "rw"), "cur", "rw"), Res: []Val{vbool(false)}}}, true
		case "SetReadOnly":
			mode := "unknown"
			switch c.Args[len(c.Args)-1].K {
			case VTrue:
				mode = "ro"
			case VFalse:
				mode = "rw"
			}
			return []Outcome{{C: kvSet(st, "cur", mode)}}, true
		case "InitState":
			return []Outcome{{C: kvSet(st, "cur", "rw")}}, true
		}
		return nil, false
	}
	e.Instr = func(e *Engine, fn *ssa.Function, in ssa.Instruction, st *State) {
		if _, ok := in.(ssa.CallInstruction); ok {
			return
		}
		if what := p.changeOf(in); what != "" {
			note(what, fn, in.Pos(), in, st)
		}
	}
	e.OnReturn = func(e *Engine, fn *ssa.Function, in ssa.Instruction, st *State, res []Val) {
		if fn != root {
			return
		}
		if kvGet(st.C, "cur") == kvGet(st.C, "was") {
			r.ok("mode as before")
			return
		}
		k := "mode:" + fname(root)
		if !seen[k] {
			seen[k] = true
			r.violate(k, p.pos(in.Pos()), "%s ends in another mode (%s) than it began in", fname(root), kvGet(st.C, "cur"))
		}
	}
	n := 0
	for _, f := range p.hostFunctions() {
		root = f
		n++
		e.memo = map[string]*summary{}
		e.Run(f, "")
	}
	for _, o := range e.Overflow {
		r.violate("overflow:"+o, "-", "analysis gave up: %s", o)
	}
	// who sets the mode at all
	stores := 0
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || typeName(deref(fa.X.Type())) != "runtimeContext" || fieldName(fa.X.Type(), fa.Field) != "readOnly" {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); fresh {
					continue
				}
				stores++
				if _, isParam := st.Val.(*ssa.Parameter); isParam && f.Name() == "SetReadOnly" || plumbing(f.Name()) {
					r.ok("the mode is set only where it is expected")
					continue
				}
				r.violate("mode-set:"+fname(f), p.pos(in.Pos()), "%s sets read-only mode on its own", fname(f))
			}
		}
	}
	for _, f := range p.Funcs {
		if f.Name() != "ReadOnly" || f.Signature.Recv() == nil || typeName(f.Signature.Recv().Type()) != "runtimeContext" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ret, ok := in.(*ssa.Return)
				if !ok {
					continue
				}
				if ld, ok := ret.Results[0].(*ssa.UnOp); ok && ld.Op == token.MUL {
					if fa, ok := ld.X.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "readOnly" {
						r.ok("ReadOnly tells the mode")
						continue
					}
				}
				r.violate("mode-told:"+fname(f), p.pos(in.Pos()), "%s does not tell the mode", fname(f))
			}
		}
	}
	// the mode is part of what is set aside for the caller
	states := newResult()
	checkC01(p, states)
	for _, v := range states.Violations {
		if strings.Contains(v.Key, ".readOnly") {
			r.violate(v.Key, v.Pos, "%s", v.Msg)
		}
	}
	r.ok("the mode is saved and restored around nested executions")
	r.floor("host functions", n, 100)
	r.floor("changing instructions", len(sites), 6)
	r.floor("places that set the mode", stores, 1)
}
