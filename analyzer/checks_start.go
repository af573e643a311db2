package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Parts of C01 about where states begin: a clean start of each context, a nested call that has its own
// input, values put back as they were, and copying loops that leave nothing out.

// startSpec: a method that begins a state, and the fields it has to set on every path.
type startSpec struct {
	fn     string
	typ    string            // struct whose fields are set
	fields []string          // fields of it
	from   map[string]string // field (path) -> label its value has to come from
	clean  bool              // no field may keep anything of the old state
}

var startSpecs = []startSpec{
	{fn: "bigIntContext.InitState", typ: "bigIntContext", fields: []string{"values"}, clean: true},
	{fn: "meteringContext.InitState", typ: "meteringContext", fields: []string{"initialGasProvided", "initialCost", "gasForExecution", "gasUsedByAccounts"}, clean: true},
	{fn: "outputContext.InitState", typ: "outputContext", fields: []string{"outputState", "codeUpdates"}, clean: true},
	{fn: "runtimeContext.InitState", typ: "runtimeContext", fields: []string{"vmInput", "scAddress", "callFunction", "readOnly", "asyncCallInfo", "asyncContextInfo", "codeSize", "verifyCode", "errors"}, clean: true},
	{fn: "runtimeContext.InitStateFromContractCallInput", typ: "runtimeContext", fields: []string{"vmInput", "scAddress", "callFunction", "asyncContextInfo"}, clean: true,
		from: map[string]string{"scAddress": "input.RecipientAddr", "callFunction": "input.Function", "asyncContextInfo.CallerAddr": "input.VMInput.CallerAddr"}},
	{fn: "meteringContext.InitStateFromContractCallInput", typ: "meteringContext", fields: []string{"initialGasProvided", "initialCost", "gasForExecution", "gasUsedByAccounts"}, clean: true,
		from: map[string]string{"initialGasProvided": "input.GasProvided", "gasForExecution": "input.GasProvided"}},
	{fn: "outputContext.CensorVMOutput", typ: "VMOutput", fields: []string{"ReturnData", "ReturnCode", "ReturnMessage", "GasRemaining", "GasRefund", "Logs"}},
}

func checkStarts(p *Prog, r *Result) {
	const pk = "arwen/contexts"
	for _, sp := range startSpecs {
		fn := p.fn(pk + "." + sp.fn)
		if fn == nil {
			r.violate("missing:"+sp.fn, "-", "the method that begins a state is gone")
			continue
		}
		r.saw(fname(fn))
		recvT := deref(fn.Params[0].Type())
		have := map[string]bool{}
		t := p.namedType(pk, sp.typ)
		if t == nil {
			t = p.vmType(sp.typ)
		}
		for _, f := range structFields(t) {
			have[f] = true
		}
		exits, e := mustStores(p, fn, sp.typ)
		e.finish(r)
		for _, m := range exits {
			for _, f := range sp.fields {
				if have[f] && !m[f] {
					r.violate("not-begun:"+sp.fn+":"+f, p.pos(fn.Pos()), "a path of %s does not set %s: what an earlier execution left there stays", sp.fn, f)
				} else {
					r.ok("begun")
				}
			}
		}
		if !sp.clean {
			continue
		}
		_ = recvT
		fl := newFlow(p)
		fl.Inline = inPkg(pk)
		var fr *fframe
		if len(fn.Params) > 1 {
			fr = fl.Run(fn, "s", "input")
		} else {
			fr = fl.Run(fn, "s")
		}
		recv := fr.vals[fn.Params[0]]
		for _, f := range sp.fields {
			if !have[f] {
				continue
			}
			for l := range onlyWritten(p, fl, fn, sp.typ, f) {
				if l == "s."+f || strings.HasPrefix(l, "s."+f+".") || strings.HasPrefix(l, "s."+f+"[") {
					r.violate("carried-over:"+sp.fn+":"+f, p.pos(fn.Pos()), "%s makes %s from what it was before (%s)", sp.fn, f, l)
				}
			}
		}
		var fs []string
		for f := range sp.from {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		for _, f := range fs {
			cur := recv
			for _, part := range strings.Split(f, ".") {
				cur = fl.Field(cur, part)
			}
			if !hasPath(fl.Labels(cur), sp.from[f]) {
				r.violate("not-from-input:"+sp.fn+":"+f, p.pos(fn.Pos()), "%s: %s does not come from %s (it gets: %s)", sp.fn, f, sp.from[f], labelList(fl.Labels(cur)))
			} else {
				r.ok("begun from the input")
			}
		}
		if sp.fn == "runtimeContext.InitStateFromContractCallInput" {
			for _, m := range structFields(p.vmType("VMInput")) {
				v := fl.Field(fl.Field(recv, "vmInput"), m)
				if !hasPath(fl.Labels(v), "input.VMInput."+m) {
					r.violate("not-from-input:"+sp.fn+":vmInput."+m, p.pos(fn.Pos()), "%s: the %s of the input of a nested call is not the one it was given (it gets: %s)", sp.fn, m, labelList(fl.Labels(v)))
				} else {
					r.ok("begun from the input")
				}
			}
		}
	}
}

// onlyWritten: the labels of the values stored into a field by the function and its helpers.
func onlyWritten(p *Prog, fl *Flow, fn *ssa.Function, typ, field string) map[string]bool {
	out := map[string]bool{}
	seen := map[*fframe]bool{}
	var visit func(fr *fframe)
	visit = func(fr *fframe) {
		if fr == nil || seen[fr] {
			return
		}
		seen[fr] = true
		for _, b := range fr.fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && typeName(deref(fa.X.Type())) == typ && fieldName(fa.X.Type(), fa.Field) == field {
						if v, ok := fr.vals[st.Val]; ok {
							for l := range v.labels {
								out[l] = true
							}
						}
					}
				}
				for _, k := range fr.kids[in] {
					visit(k)
				}
			}
		}
	}
	visit(fl.Root)
	return out
}

// asItWas: where a pop method assigns a plain field of its context, the value is that very field of the
// popped state, neither computed with nor mixed with anything else.
func asItWas(p *Prog, r *Result, fn *ssa.Function, sp ctxSpec) {
	isField := map[string]bool{}
	for _, f := range sp.fields {
		isField[f] = true
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || typeName(deref(fa.X.Type())) != sp.ctx {
				continue
			}
			f := fieldName(fa.X.Type(), fa.Field)
			if _, basic := deref(fa.Type()).Underlying().(*types.Basic); !basic || !isField[f] {
				continue
			}
			seen := map[ssa.Value]bool{}
			var pure func(v ssa.Value) bool
			pure = func(v ssa.Value) bool {
				if seen[v] {
					return true
				}
				seen[v] = true
				switch x := v.(type) {
				case *ssa.UnOp:
					if x.Op != token.MUL {
						return false
					}
					a, ok := x.X.(*ssa.FieldAddr)
					if !ok {
						return true // a local variable: followed no further
					}
					return fieldName(a.X.Type(), a.Field) == f && a.X != fa.X
				case *ssa.Field:
					return fieldName(x.X.Type(), x.Field) == f
				case *ssa.ChangeType:
					return pure(x.X)
				case *ssa.Phi:
					for _, e := range x.Edges {
						if !pure(e) {
							return false
						}
					}
					return true
				case *ssa.Const, *ssa.BinOp, *ssa.Call, *ssa.Convert:
					return false
				}
				return true
			}
			if pure(st.Val) {
				r.ok("put back as it was")
			} else {
				r.violate("changed-on-return:"+sp.ctx+"."+f+":"+fn.Name(), p.pos(in.Pos()), "%s gives the caller another %s than the one that was saved", fname(fn), f)
			}
		}
	}
}

// emptyGuard: a pop method keeps a saved state only when there is none.
func emptyGuard(p *Prog, r *Result, fn *ssa.Function, ctx, stack string) {
	for _, b := range fn.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		base, c, ok := affine(cmp.X, 0)
		k, isC := constInt(cmp.Y)
		if !ok || !isC || !strings.HasPrefix(base, "len:") || base != "len:"+stack && base != "len:?" {
			continue
		}
		k -= c
		// which lengths of the stack take which way
		holds := func(n int64) bool {
			switch cmp.Op {
			case token.EQL:
				return n == k
			case token.NEQ:
				return n != k
			case token.LSS:
				return n < k
			case token.LEQ:
				return n <= k
			case token.GTR:
				return n > k
			case token.GEQ:
				return n >= k
			}
			return false
		}
		for n := int64(2); n <= 5; n++ {
			if holds(n) != holds(1) {
				r.violate("keeps-saved-state:"+ctx+"."+fn.Name(), p.pos(cmp.Pos()), "%s treats %d saved states other than 1: a state that was saved is not always taken back", fname(fn), n)
				break
			}
		}
		r.ok("pops whenever there is a state")
	}
}

// wholeLoops: the loops of the functions that save, put back, merge and start states deal with every element.
func wholeLoops(p *Prog, r *Result, roots []*ssa.Function) {
	seen := map[*ssa.Function]bool{}
	n := 0
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || pkgRel(f) != "arwen/contexts" {
			return
		}
		seen[f] = true
		for _, l := range naturalLoops(f) {
			effect := func(in ssa.Instruction) bool {
				switch x := in.(type) {
				case *ssa.MapUpdate:
					return true
				case *ssa.Store:
					_, local := x.Addr.(*ssa.Alloc)
					return !local
				case *ssa.Call:
					if b, ok := x.Call.Value.(*ssa.Builtin); ok {
						return b.Name() == "append" || b.Name() == "copy"
					}
					g := x.Call.StaticCallee()
					return g != nil && pkgRel(g) == "arwen/contexts"
				}
				return false
			}
			any := false
			for b := range l.blocks {
				for _, in := range b.Instrs {
					any = any || effect(in)
				}
			}
			if !any {
				continue // only looks
			}
			n++
			if l.skips(effect) {
				r.violate("left-out:"+fname(f), p.pos(f.Pos()), "%s can pass over an element of what it copies or merges", fname(f))
			} else {
				r.ok("every element")
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					visit(ci.Common().StaticCallee())
				}
			}
		}
	}
	for _, f := range roots {
		visit(f)
	}
	r.floor("loops that copy or merge states", n, 4)
}

type natLoop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func naturalLoops(f *ssa.Function) []*natLoop {
	byHead := map[*ssa.BasicBlock]*natLoop{}
	var order []*natLoop
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := byHead[s]
			if l == nil {
				l = &natLoop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
				byHead[s] = l
				order = append(order, l)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	return order
}

// skips: an iteration can come back to the head, or leave the loop from its middle, without the effect.
func (l *natLoop) skips(effect func(ssa.Instruction) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == l.head || !l.blocks[b] {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if effect(in) {
				return false
			}
			if _, ok := in.(*ssa.Panic); ok {
				return false
			}
		}
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	for _, in := range l.head.Instrs {
		if effect(in) {
			return false
		}
	}
	for _, s := range l.head.Succs {
		if l.blocks[s] && walk(s) {
			return true
		}
	}
	return false
}

// sameCalls: on every path of a merging method that takes a saved state back, the same steps are made.
func sameCalls(p *Prog, r *Result, fn *ssa.Function, ctx, stack string) {
	e := newEngine(p)
	e.Skip = func(*ssa.Function) bool { return true }
	own := func(com *ssa.CallCommon) string {
		if g := com.StaticCallee(); g != nil && pkgRel(g) == "arwen/contexts" {
			return fname(g)
		}
		return ""
	}
	isPop := func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		return ok && typeName(deref(fa.X.Type())) == ctx && fieldName(fa.X.Type(), fa.Field) == stack
	}
	e.IsRelevantInstr = isPop
	e.IsEvent = func(com *ssa.CallCommon, _ string) bool { return own(com) != "" }
	e.Instr = func(_ *Engine, _ *ssa.Function, in ssa.Instruction, st *State) {
		if isPop(in) {
			st.C = kvSet(st.C, "pop", "1")
		}
	}
	e.Event = func(c *CallCtx) ([]Outcome, bool) {
		if n := own(c.Com); n != "" {
			return []Outcome{{C: kvSet(c.St.C, "c."+n, "1")}}, true
		}
		return nil, false
	}
	first, any := "", false
	for _, x := range e.Run(fn, "") {
		if kvGet(x.C, "pop") == "" {
			continue
		}
		if !any {
			first, any = x.C, true
		} else if x.C != first {
			r.violate("not-always-merged:"+ctx, p.pos(fn.Pos()), "%s takes the saved state back without merging it on some path", fname(fn))
		}
		r.ok("always merged")
	}
	e.finish(r)
}

// mergeOrder: what the nested call did comes after what its caller had done.
func mergeOrder(p *Prog, r *Result, fl *Flow, fn *ssa.Function, out *fval) {
	// what the caller had done is written into the state of the nested call itself, and nothing the other way round
	bad := false
	for l := range out.ptrs {
		if l.o.path != "s.outputState" {
			bad = false
			break
		}
		bad = hasPath(fl.Labels(fl.slot(l.o, "ReturnCode", nil)), "s.stateStack[].ReturnCode")
	}
	if bad {
		r.violate("merge-order", p.pos(fn.Pos()), "%s merges the caller's output over that of the nested call, so that what the caller had done before counts as done last", fname(fn))
	} else {
		r.ok("merge order")
	}
}
