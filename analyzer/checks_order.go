package main

// Execution is deterministic (C17).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C17", checkC17) }

var orderPkgs = map[string]bool{"arwen": true, "arwen/contexts": true, "arwen/host": true, "arwen/elrondapi": true, "arwen/cryptoapi": true, "arwen/ethapi": true, "math": true, "config": true}

func checkC17(p *Prog, r *Result) {
	r.Rule = "sources of chance (clocks, random numbers, the environment, goroutines, selects, addresses) do not occur in what execution can reach, or reach only the log; every loop over a map does the same whatever the order: it writes only to what belongs to the element, or accumulates commutatively, or sorts what it collected, and an early exit says nothing about the element it stopped at"
	r.Assumptions = []string{
		"accounts are kept under their address, so that writing under the address of an element is writing under its key",
		"observers of the blockchain and of the contexts (Get…, Is…) do not change anything",
		"the execution engine itself is deterministic (native code outside the repository); package wasmer hands it imports that are looked up by name",
		"the text of errors that are replaced before they become visible, and log lines, are not part of the result",
	}
	o := &order{p: p, r: r, sum: map[*ssa.Function]*effects{}, carry: map[string]bool{}}
	reach := o.reachable()
	o.sources(reach)
	o.maps(reach)
	o.errors()
	r.floor("map iterations analysed", o.loops, 5)
	r.floor("functions execution can reach", len(reach), 200)
}

type order struct {
	p     *Prog
	r     *Result
	loops int
	sum   map[*ssa.Function]*effects
	// functions that answer an error whose text depends on the order, and where
	errSrc map[*ssa.Function]ssa.Instruction
	carry  map[string]bool
}

// reachable is what execution can call: the packages of the VM and what they use of the others.
func (o *order) reachable() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !out[f] && f.Blocks != nil && f.Pkg != nil && !notVM(pkgRel(f)) {
			out[f] = true
			work = append(work, f)
		}
	}
	for _, f := range o.p.Funcs {
		if pkgRel(f) != hostPkg || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		if rv := f.Signature.Recv(); rv == nil || typeName(rv.Type()) == "vmHost" {
			add(f)
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op != nil && *op != nil {
						if g, ok := (*op).(*ssa.Function); ok {
							add(g)
						}
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, g := range o.p.resolve(ci.Common()) {
						add(g)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					if g, ok := mc.Fn.(*ssa.Function); ok {
						add(g)
					}
				}
			}
		}
	}
	return out
}

// packages of the repository that are not the VM's
func notVM(rel string) bool {
	for _, x := range []string{"mock", "ipc", "arwendebug", "arwenmandos", "mandos-go", "cmd", "fuzz", "integrationTests", "testcommon", "test", "arwenpart"} {
		if rel == x || strings.HasPrefix(rel, x+"/") {
			return true
		}
	}
	return strings.HasSuffix(rel, "mock") || strings.Contains(rel, "/mock")
}

// chance tells what in a call depends on more than its arguments.
func chance(f *ssa.Function) string {
	if f == nil || f.Pkg == nil {
		return ""
	}
	n := f.Name()
	switch f.Pkg.Pkg.Path() {
	case "time":
		switch n {
		case "Now", "Since", "Until", "After", "Tick", "NewTimer", "NewTicker", "AfterFunc", "Sleep":
			return "the clock"
		}
	case "math/rand", "math/rand/v2", "crypto/rand", "hash/maphash":
		return "random numbers"
	case "os":
		switch n {
		case "Getenv", "LookupEnv", "Environ", "Hostname", "Getpid", "Getppid", "Getwd", "Getuid", "TempDir", "ReadFile", "Open", "UserHomeDir":
			return "the environment"
		}
	case "runtime":
		switch n {
		case "NumGoroutine", "NumCPU", "ReadMemStats", "Stack", "GOMAXPROCS", "NumCgoCall":
			return "the state of the process"
		}
	case "runtime/debug":
		return "the state of the process"
	case "reflect":
		switch n {
		case "MapKeys", "MapRange", "Pointer", "UnsafePointer", "UnsafeAddr":
			return "the order of a map or an address"
		}
	case "maps":
		switch n {
		case "Keys", "Values", "All":
			return "the order of a map"
		}
	}
	return ""
}

func (o *order) sources(reach map[*ssa.Function]bool) {
	p, r := o.p, o.r
	for _, fn := range sortedFuncs(reach) {
		r.saw(fname(fn))
		if strings.HasPrefix(fn.Name(), "_C") {
			continue // generated
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go:
					r.violate("concurrent:"+fname(fn), p.pos(x.Pos()), "%s starts a goroutine: what is done depends on how it is scheduled", fname(fn))
				case *ssa.Select:
					if len(x.States) > 1 || !x.Blocking {
						r.violate("concurrent:"+fname(fn), p.pos(x.Pos()), "%s chooses among channels: what is done depends on which is ready", fname(fn))
					}
				case *ssa.Convert:
					if pointerNumber(x) && pkgRel(fn) != "wasmer" && !o.only(x, func(in ssa.Instruction) bool {
						ci, ok := in.(ssa.CallInstruction)
						return ok && (methodName(ci.Common()) == "SetContextData" || isLogger(ci.Common()))
					}) {
						r.violate("address:"+fname(fn), p.pos(x.Pos()), "%s computes with an address of memory", fname(fn))
					}
				case ssa.CallInstruction:
					com := x.Common()
					f := com.StaticCallee()
					if f != nil && f.Origin() != nil {
						f = f.Origin()
					}
					if what := chance(f); what != "" {
						if v, ok := in.(ssa.Value); ok && what != "random numbers" && (o.only(v, func(in ssa.Instruction) bool {
							ci, ok := in.(ssa.CallInstruction)
							return ok && isLogger(ci.Common())
						}) || o.sorted(v)) && methodOf(f) != "Sleep" {
							continue
						}
						r.violate("chance:"+fname(fn)+":"+strings.ReplaceAll(what, " ", "_"), p.pos(in.Pos()), "%s depends on %s (%s)", fname(fn), what, calleeName(com))
					}
					for _, a := range com.Args {
						if c, ok := a.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && strings.Contains(constant.StringVal(c.Value), "%p") && !isLogger(com) {
							r.violate("address:"+fname(fn), p.pos(in.Pos()), "%s writes an address of memory into a text", fname(fn))
						}
					}
				}
			}
		}
	}
	r.ok("no source of chance in the functions execution can reach")
}

func methodOf(f *ssa.Function) string { return f.Name() }

func isLogger(com *ssa.CallCommon) bool { return isLog(com, calleeName(com)) }

func pointerNumber(x *ssa.Convert) bool {
	b, ok := x.X.Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer && types.Identical(x.Type().Underlying(), types.Typ[types.Uintptr])
}

// only: every use of the value ends in an instruction that is accepted.
func (o *order) only(v ssa.Value, accept func(in ssa.Instruction) bool) bool {
	seen := map[ssa.Value]bool{}
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		refs := v.Referrers()
		if refs == nil {
			return true
		}
		for _, in := range *refs {
			switch x := in.(type) {
			case *ssa.DebugRef:
			case *ssa.Store:
				if x.Val == v {
					// into a local (arguments of the call)
					al, okA := base(x.Addr).(*ssa.Alloc)
					if !okA || !ok(al) {
						return false
					}
				}
			case *ssa.Slice, *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Convert, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Phi, *ssa.UnOp, *ssa.Field, *ssa.BinOp, *ssa.Extract:
				if !ok(in.(ssa.Value)) {
					return false
				}
			case *ssa.MakeClosure:
				// a variable a closure has too
				g, isFn := x.Fn.(*ssa.Function)
				if !isFn {
					return false
				}
				for i, bd := range x.Bindings {
					if bd == v && (i >= len(g.FreeVars) || !ok(g.FreeVars[i])) {
						return false
					}
				}
			default:
				if accept(in) {
					continue
				}
				// a text made of it, or a duration
				if c, isCall := in.(*ssa.Call); isCall {
					if f := c.Call.StaticCallee(); f != nil && f.Pkg != nil && (f.Pkg.Pkg.Path() == "time" || f.Pkg.Pkg.Path() == "fmt" && strings.HasPrefix(f.Name(), "Sprint")) && ok(c) {
						continue
					}
				}
				return false
			}
		}
		return true
	}
	return ok(v)
}

// base of an address
func base(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return v
		}
	}
}

// sorted: the list is put into order.
func (o *order) sorted(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var look func(v ssa.Value) bool
	look = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, in := range *v.Referrers() {
			switch x := in.(type) {
			case ssa.CallInstruction:
				if f := x.Common().StaticCallee(); f != nil {
					g := f
					if f.Origin() != nil {
						g = f.Origin()
					}
					if g.Pkg != nil && (g.Pkg.Pkg.Path() == "sort" || g.Pkg.Pkg.Path() == "slices" && strings.HasPrefix(g.Name(), "Sort")) {
						return true
					}
					if g.Pkg != nil && g.Pkg.Pkg.Path() == "slices" && g.Name() == "Collect" {
						if c, ok := in.(ssa.Value); ok && look(c) {
							return true
						}
					}
				}
				if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" && x.Value() != nil && look(x.Value()) {
					return true
				}
			case *ssa.MakeInterface, *ssa.ChangeType, *ssa.Phi, *ssa.Slice, *ssa.Convert:
				if look(in.(ssa.Value)) {
					return true
				}
			case *ssa.Store:
				// a variable captured by a closure
				if x.Val == v {
					if al, ok := x.Addr.(*ssa.Alloc); ok {
						for _, u := range *al.Referrers() {
							if ld, ok := u.(*ssa.UnOp); ok && look(ld) {
								return true
							}
						}
					}
				}
			}
		}
		return false
	}
	return look(v)
}

func sortedFuncs(m map[*ssa.Function]bool) []*ssa.Function {
	by := map[string]*ssa.Function{}
	names := map[string]bool{}
	for f := range m {
		k := fname(f) + "@" + fmt.Sprint(f.Pos())
		by[k] = f
		names[k] = true
	}
	var out []*ssa.Function
	for _, k := range sortedKeys(names) {
		out = append(out, by[k])
	}
	return out
}

func (o *order) maps(reach map[*ssa.Function]bool) {
	o.errSrc = map[*ssa.Function]ssa.Instruction{}
	for _, fn := range sortedFuncs(reach) {
		if !orderPkgs[pkgRel(fn)] && !strings.HasPrefix(pkgRel(fn), "crypto") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				nx, ok := in.(*ssa.Next)
				if !ok || nx.IsString {
					continue
				}
				rg, ok := nx.Iter.(*ssa.Range)
				if !ok {
					continue
				}
				if _, ok := rg.X.Type().Underlying().(*types.Map); !ok {
					continue
				}
				o.loops++
				l := &mapLoop{order: o, fn: fn, head: b, next: nx, pos: rg}
				l.check()
			}
		}
	}
}

type mapLoop struct {
	*order
	fn     *ssa.Function
	head   *ssa.BasicBlock
	next   *ssa.Next
	pos    ssa.Instruction
	in     map[*ssa.BasicBlock]bool
	own    map[ssa.Value]bool // belongs to the element
	ident  map[ssa.Value]bool // identifies the element
	bad    bool
	writes bool
}

func (l *mapLoop) flag(kind, format string, args ...interface{}) {
	l.bad = true
	l.r.violate(kind+":"+fname(l.fn), l.p.pos(l.pos.Pos()), "%s goes through a map in any order and %s", fname(l.fn), fmt.Sprintf(format, args...))
}

func (l *mapLoop) inside(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return ok && l.in[in.Block()]
}

func (l *mapLoop) check() {
	l.in = naturalLoop(l.head)
	if len(l.in) == 0 {
		// leaves at the first element
		l.in = map[*ssa.BasicBlock]bool{l.head: true}
	}
	l.classify()
	n := l.next
	for _, b := range l.fn.Blocks {
		if !l.in[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				l.store(x)
			case *ssa.MapUpdate:
				l.update(x)
			case ssa.CallInstruction:
				l.call(x)
			case *ssa.Phi:
				if b == l.head {
					l.carried(x)
				}
			case *ssa.Send:
				l.flag("order", "sends something for each of its elements")
			}
		}
	}
	l.exits()
	_ = n
	if !l.bad {
		l.r.ok(fmt.Sprintf("the map iteration of %s at %s does the same in any order", fname(l.fn), l.p.pos(l.pos.Pos())))
	}
}

// naturalLoop of a header
func naturalLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{}
	var work []*ssa.BasicBlock
	for _, t := range h.Preds {
		if h.Dominates(t) {
			out[h] = true
			work = append(work, t)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if out[b] {
			continue
		}
		out[b] = true
		work = append(work, b.Preds...)
	}
	return out
}

// classify finds what belongs to the element.
func (l *mapLoop) classify() {
	l.own, l.ident = map[ssa.Value]bool{}, map[ssa.Value]bool{}
	for changed := true; changed; {
		changed = false
		mark := func(m map[ssa.Value]bool, v ssa.Value) {
			if !m[v] {
				m[v] = true
				changed = true
			}
		}
		for _, b := range l.fn.Blocks {
			if !l.in[b] && !l.after(b) {
				continue
			}
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				switch x := in.(type) {
				case *ssa.Extract:
					if x.Tuple == l.next && x.Index > 0 {
						mark(l.own, v)
						if x.Index == 1 {
							mark(l.ident, v)
						}
					} else if l.own[x.Tuple] {
						mark(l.own, v)
					}
				case *ssa.Convert:
					if l.own[x.X] {
						mark(l.own, v)
					}
					if l.ident[x.X] {
						mark(l.ident, v)
					}
				case *ssa.ChangeType:
					if l.own[x.X] {
						mark(l.own, v)
					}
					if l.ident[x.X] {
						mark(l.ident, v)
					}
				case *ssa.FieldAddr:
					if l.own[x.X] {
						mark(l.own, v)
						if fieldAddrName(x) == "Address" {
							mark(l.ident, v)
						}
					}
				case *ssa.Field:
					if l.own[x.X] {
						mark(l.own, v)
						if fieldName(x.X.Type(), x.Field) == "Address" {
							mark(l.ident, v)
						}
					}
				case *ssa.UnOp:
					if l.own[x.X] {
						mark(l.own, v)
					}
					if l.ident[x.X] {
						mark(l.ident, v)
					}
				case *ssa.Lookup:
					if l.own[x.X] || l.ident[x.Index] || l.own[x.Index] && !isPointerish(v) {
						mark(l.own, v)
					}
				case *ssa.IndexAddr:
					if l.own[x.X] {
						mark(l.own, v)
					}
				case *ssa.Index:
					if l.own[x.X] {
						mark(l.own, v)
					}
				case *ssa.Slice:
					if l.own[x.X] {
						mark(l.own, v)
					}
				case *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.TypeAssert, *ssa.Range:
					for _, op := range in.Operands(nil) {
						if l.own[*op] {
							mark(l.own, v)
						}
					}
				case *ssa.Next:
					if x != l.next && l.own[x.Iter] {
						mark(l.own, v)
					}
				case *ssa.BinOp:
					if l.own[x.X] || l.own[x.Y] {
						mark(l.own, v)
					}
				case *ssa.Phi:
					if b == l.head {
						continue
					}
					any, all := false, true
					for _, e := range x.Edges {
						if l.own[e] {
							any = true
						} else if _, isConst := e.(*ssa.Const); !isConst && !l.fresh(e) {
							all = false
						}
					}
					if any && (all || !isPointerish(v)) {
						mark(l.own, v)
					}
				case *ssa.Call:
					for _, a := range x.Call.Args {
						if l.own[a] || l.ownParts(a) {
							mark(l.own, v)
						}
					}
					if x.Call.IsInvoke() && l.own[x.Call.Value] {
						mark(l.own, v)
					}
				case *ssa.Alloc:
					// filled with what belongs to the element
					if l.ownParts(x) {
						mark(l.own, v)
					}
				}
			}
		}
	}
}

// after: only reached by leaving the loop early
func (l *mapLoop) after(b *ssa.BasicBlock) bool {
	for x := b; x != nil; x = x.Idom() {
		if l.in[x] {
			// dominated by a block of the body: an early exit
			return x != l.head
		}
	}
	return false
}

// ownParts: a list made here that contains something of the element
func (l *mapLoop) ownParts(v ssa.Value) bool {
	al, ok := base(v).(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, in := range *al.Referrers() {
		if ia, ok := in.(*ssa.IndexAddr); ok && ia.Referrers() != nil {
			for _, u := range *ia.Referrers() {
				if st, ok := u.(*ssa.Store); ok && l.own[st.Val] {
					return true
				}
			}
		}
		if fa, ok := in.(*ssa.FieldAddr); ok && fa.Referrers() != nil {
			for _, u := range *fa.Referrers() {
				if st, ok := u.(*ssa.Store); ok && l.own[st.Val] {
					return true
				}
			}
		}
	}
	return false
}

func isPointerish(v ssa.Value) bool {
	switch t := v.Type().Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface, *types.Chan:
		return true
	case *types.Tuple:
		return true
	default:
		_ = t
	}
	return false
}

// fresh: made in this turn of the loop
func (l *mapLoop) fresh(v ssa.Value) bool {
	switch x := base(v).(type) {
	case *ssa.Alloc:
		return l.in[x.Block()] || l.after(x.Block())
	case *ssa.MakeMap:
		return l.in[x.Block()] || l.after(x.Block())
	case *ssa.MakeSlice:
		return l.in[x.Block()] || l.after(x.Block())
	case *ssa.MakeInterface:
		return l.fresh(x.X)
	case *ssa.Call:
		return l.in[x.Block()] && l.makes(x)
	}
	return false
}

// makes: a call whose result is new
func (l *mapLoop) makes(c *ssa.Call) bool {
	n := methodName(&c.Call)
	f := c.Call.StaticCallee()
	return f != nil && (strings.HasPrefix(n, "New") || strings.HasPrefix(n, "new") || strings.HasPrefix(n, "Create") || strings.HasPrefix(n, "create"))
}

func (l *mapLoop) ours(v ssa.Value) bool {
	return l.own[v] || l.fresh(v) || l.own[base(v)] || l.throughOwn(v)
}

// throughOwn: reached from the element by fields and elements
func (l *mapLoop) throughOwn(v ssa.Value) bool {
	for i := 0; i < 20; i++ {
		if l.own[v] || l.fresh(v) {
			return true
		}
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Extract:
			v = x.Tuple
		case *ssa.Lookup:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return false
		}
	}
	return false
}

// same for every element
func (l *mapLoop) invariant(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Parameter, *ssa.FreeVar, *ssa.Builtin:
		return true
	case *ssa.MakeInterface:
		return l.invariant(x.X)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if _, ok := x.X.(*ssa.Global); ok {
				return true
			}
			if al, ok := x.X.(*ssa.Alloc); ok && l.in[al.Block()] {
				// a structure made here that nothing was put into
				return !l.ownParts(al) && isEmptyStruct(x.Type())
			}
		}
	case *ssa.Alloc:
		return false
	}
	return !l.inside(v)
}

func isEmptyStruct(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

// commutative: v is cur with something added to it, whatever the order
func commutative(v ssa.Value, cur func(v ssa.Value) bool) bool {
	switch x := v.(type) {
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.MUL, token.OR, token.AND, token.XOR:
			b, ok := x.Type().Underlying().(*types.Basic)
			if !ok || b.Info()&(types.IsInteger|types.IsBoolean) == 0 {
				return false
			}
			return sumWith(x.X, cur) || sumWith(x.Y, cur)
		case token.SUB:
			b, ok := x.Type().Underlying().(*types.Basic)
			return ok && b.Info()&types.IsInteger != 0 && sumWith(x.X, cur)
		}
	case *ssa.Call:
		switch calleeName(&x.Call) {
		case "math.AddUint64", "math.AddInt64", "math.AddInt32":
			return sumWith(x.Call.Args[0], cur) || sumWith(x.Call.Args[1], cur)
		case "math.SubUint64":
			return sumWith(x.Call.Args[0], cur)
		case "builtin.max", "builtin.min":
			for _, a := range x.Call.Args {
				if sumWith(a, cur) {
					return true
				}
			}
		}
	case *ssa.Phi:
		return false
	}
	return false
}

// opsOf: the operations by which v adds to cur; only one kind of them commutes with itself
func opsOf(v ssa.Value, cur func(v ssa.Value) bool, ops map[string]bool, at func(v ssa.Value)) {
	var operand func(v ssa.Value)
	operand = func(v ssa.Value) {
		if cur(v) {
			if at != nil {
				at(v)
			}
			return
		}
		if commutative(v, cur) {
			opsOf(v, cur, ops, at)
		}
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		op := x.Op.String()
		if x.Op == token.SUB {
			op = token.ADD.String()
		}
		ops[op] = true
		operand(x.X)
		if x.Op != token.SUB {
			operand(x.Y)
		}
	case *ssa.Call:
		ops[calleeName(&x.Call)] = true
		for _, a := range x.Call.Args {
			operand(a)
		}
	}
}

func sumWith(v ssa.Value, cur func(v ssa.Value) bool) bool {
	return cur(v) || commutative(v, cur)
}

func (l *mapLoop) store(x *ssa.Store) {
	if l.ours(x.Addr) {
		l.writes = true
		return
	}
	if l.invariant(x.Val) && !l.own[x.Val] {
		return
	}
	if commutative(x.Val, func(v ssa.Value) bool {
		ld, ok := v.(*ssa.UnOp)
		return ok && ld.Op == token.MUL && sameAddr(ld.X, x.Addr)
	}) {
		l.writes = true
		ops := map[string]bool{}
		for _, b := range l.fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && l.in[b] && sameAddr(st.Addr, x.Addr) {
					opsOf(st.Val, func(v ssa.Value) bool {
						ld, ok := v.(*ssa.UnOp)
						return ok && ld.Op == token.MUL && sameAddr(ld.X, x.Addr)
					}, ops, nil)
				}
			}
		}
		if len(ops) > 1 {
			l.flag("order", "changes %s by operations that do not commute (%s)", placeName(x.Addr), strings.Join(sortedKeys(ops), ", "))
		}
		return
	}
	if l.extreme(x.Val) {
		return
	}
	if c, ok := x.Val.(*ssa.Call); ok && calleeName(&c.Call) == "builtin.append" && l.sortedPlace(x.Addr) {
		return
	}
	l.flag("order", "what it stores in %s depends on which element comes first or last", placeName(x.Addr))
}

func placeName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return fieldAddrName(x)
	case *ssa.Global:
		return x.Name()
	case *ssa.IndexAddr:
		return "the elements of a list"
	}
	return "a variable"
}

// sortedPlace: what is collected in the place is sorted
func (l *mapLoop) sortedPlace(addr ssa.Value) bool {
	for _, b := range l.fn.Blocks {
		if l.in[b] {
			continue
		}
		for _, in := range b.Instrs {
			if ld, ok := in.(*ssa.UnOp); ok && ld.Op == token.MUL && sameAddr(ld.X, addr) && l.sorted(ld) {
				return true
			}
		}
	}
	return false
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameAddr(x.X, y.X)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && sameAddr(x.X, y.X) && sameAddr(x.Index, y.Index)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameAddr(x.X, y.X)
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && constant.Compare(x.Value, token.EQL, y.Value)
	case *ssa.Convert:
		y, ok := b.(*ssa.Convert)
		return ok && sameAddr(x.X, y.X)
	}
	return false
}

// extreme: the largest or smallest of all (v was compared with what is kept)
func (l *mapLoop) extreme(v ssa.Value) bool {
	b, ok := v.Type().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 || v.Referrers() == nil {
		return false
	}
	for _, in := range *v.Referrers() {
		if x, ok := in.(*ssa.BinOp); ok {
			switch x.Op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				return true
			}
		}
	}
	return false
}

func (l *mapLoop) update(x *ssa.MapUpdate) {
	if l.ours(x.Map) || l.ident[x.Key] {
		l.writes = true
		return
	}
	if l.invariant(x.Value) && !l.own[x.Value] {
		l.writes = true
		return // a set
	}
	if commutative(x.Value, func(v ssa.Value) bool {
		if ex, ok := v.(*ssa.Extract); ok {
			v = ex.Tuple
		}
		lk, ok := v.(*ssa.Lookup)
		return ok && sameAddr(lk.X, x.Map) && sameAddr(lk.Index, x.Key)
	}) {
		l.writes = true
		return
	}
	l.flag("order", "what it keeps under a key that several elements can have depends on their order")
}

// effects of a function: the parameters it writes through, and whether it changes anything else
type effects struct {
	params map[int]bool
	other  string
}

func (l *mapLoop) call(x ssa.CallInstruction) {
	com := x.Common()
	if isLogger(com) {
		return
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete":
			if !l.ident[com.Args[1]] && !l.ours(com.Args[0]) && !l.own[com.Args[1]] {
				l.flag("order", "it deletes something for each element")
			}
		case "copy":
			if !l.ours(com.Args[0]) {
				l.flag("order", "copies into a list in that order")
			}
		}
		return
	}
	w, other := l.callWrites(com)
	if other != "" {
		l.flag("order", "calls %s for each element, which changes %s in that order", methodName(com), other)
		return
	}
	args := callArgs(com)
	for _, i := range w {
		if i < len(args) && !l.ours(args[i]) && !l.bigSum(com, i) {
			l.flag("order", "calls %s for each element, which changes what it is given in that order", methodName(com))
			return
		}
		l.writes = true
	}
}

func callArgs(com *ssa.CallCommon) []ssa.Value {
	if com.IsInvoke() {
		return append([]ssa.Value{com.Value}, com.Args...)
	}
	return com.Args
}

// bigSum: z.Add(z, x) and the like
func (l *mapLoop) bigSum(com *ssa.CallCommon, i int) bool {
	if i != 0 || len(com.Args) != 3 {
		return false
	}
	switch calleeName(com) {
	case "math/big.Int.Add", "math/big.Int.Mul", "math/big.Int.Or", "math/big.Int.And", "math/big.Int.Xor":
		return sameAddr(com.Args[0], com.Args[1]) || sameAddr(com.Args[0], com.Args[2])
	case "math/big.Int.Sub":
		return sameAddr(com.Args[0], com.Args[1])
	}
	return false
}

// callWrites: which arguments a call writes through
func (o *order) callWrites(com *ssa.CallCommon) (args []int, other string) {
	if com.IsInvoke() {
		if observer(methodName(com)) {
			return nil, ""
		}
		return nil, "the state of the VM"
	}
	f := com.StaticCallee()
	if f == nil {
		return nil, "something unknown"
	}
	if f.Blocks == nil || f.Pkg == nil || o.p.Pkgs[pkgRel(f)] == nil || strings.HasPrefix(pkgRel(f), "/") {
		switch path := orderPkgPath(f); path {
		case "strings", "bytes", "errors", "encoding/hex", "strconv", "unicode", "unicode/utf8", "encoding/binary", "math", "math/bits", "runtime":
			return nil, ""
		case "fmt":
			if strings.HasPrefix(f.Name(), "Sprint") || f.Name() == "Errorf" {
				return nil, ""
			}
			return nil, "what is written"
		case "math/big":
			if observerBig(f.Name()) {
				return nil, ""
			}
			return []int{0}, ""
		case "sort":
			return []int{0}, ""
		}
		if f.Signature.Recv() != nil && observer(f.Name()) {
			return nil, ""
		}
		if f.Signature.Recv() == nil && observer(f.Name()) {
			return nil, ""
		}
		var all []int
		for i := range com.Args {
			if isPointerish(com.Args[i]) {
				all = append(all, i)
			}
		}
		return all, ""
	}
	e := o.effectsOf(f)
	for i := range f.Params {
		if e.params[i] {
			args = append(args, i)
		}
	}
	return args, e.other
}

func observerBig(n string) bool {
	switch n {
	case "Bytes", "Cmp", "CmpAbs", "Sign", "BitLen", "Int64", "Uint64", "IsInt64", "IsUint64", "String", "Text", "Bit", "NewInt", "ProbablyPrime", "Bits", "Append":
		return true
	}
	return false
}

func orderPkgPath(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func (o *order) effectsOf(f *ssa.Function) *effects {
	if e := o.sum[f]; e != nil {
		return e
	}
	e := &effects{params: map[int]bool{}}
	o.sum[f] = e
	par := map[ssa.Value]int{}
	for i, x := range f.Params {
		par[x] = i
	}
	var roots func(v ssa.Value, depth int, seen map[ssa.Value]bool) (ps []int, other string)
	roots = func(v ssa.Value, depth int, seen map[ssa.Value]bool) (ps []int, other string) {
		if depth > 30 || seen[v] {
			return nil, ""
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Parameter:
			return []int{par[x]}, ""
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.Const, *ssa.MakeChan:
			return nil, ""
		case *ssa.Global:
			return nil, "the variable " + x.Name()
		case *ssa.FieldAddr:
			return roots(x.X, depth+1, seen)
		case *ssa.IndexAddr:
			return roots(x.X, depth+1, seen)
		case *ssa.Field:
			return roots(x.X, depth+1, seen)
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok {
				// what is kept in the variable
				for _, in := range *al.Referrers() {
					if st, ok := in.(*ssa.Store); ok && st.Addr == al {
						p2, o2 := roots(st.Val, depth+1, seen)
						ps = append(ps, p2...)
						if o2 != "" {
							other = o2
						}
					}
				}
				return ps, other
			}
			return roots(x.X, depth+1, seen)
		case *ssa.Slice:
			return roots(x.X, depth+1, seen)
		case *ssa.Extract:
			return roots(x.Tuple, depth+1, seen)
		case *ssa.Lookup:
			return roots(x.X, depth+1, seen)
		case *ssa.Next:
			return roots(x.Iter, depth+1, seen)
		case *ssa.Range:
			return roots(x.X, depth+1, seen)
		case *ssa.ChangeType:
			return roots(x.X, depth+1, seen)
		case *ssa.ChangeInterface:
			return roots(x.X, depth+1, seen)
		case *ssa.MakeInterface:
			return roots(x.X, depth+1, seen)
		case *ssa.TypeAssert:
			return roots(x.X, depth+1, seen)
		case *ssa.Phi:
			for _, ed := range x.Edges {
				p2, o2 := roots(ed, depth+1, seen)
				ps = append(ps, p2...)
				if o2 != "" {
					other = o2
				}
			}
			return ps, other
		case *ssa.Call:
			for _, a := range callArgs(&x.Call) {
				if isPointerish(a) {
					p2, o2 := roots(a, depth+1, seen)
					ps = append(ps, p2...)
					if o2 != "" {
						other = o2
					}
				}
			}
			return ps, other
		}
		return nil, ""
	}
	wrote := func(v ssa.Value) {
		ps, other := roots(v, 0, map[ssa.Value]bool{})
		for _, i := range ps {
			e.params[i] = true
		}
		if other != "" && e.other == "" {
			e.other = other
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				wrote(x.Addr)
			case *ssa.MapUpdate:
				wrote(x.Map)
			case *ssa.Send, *ssa.Go:
				e.other = "something concurrent"
			case ssa.CallInstruction:
				com := x.Common()
				if isLogger(com) {
					continue
				}
				if bi, ok := com.Value.(*ssa.Builtin); ok {
					if bi.Name() == "copy" || bi.Name() == "delete" {
						wrote(com.Args[0])
					}
					continue
				}
				if com.IsInvoke() && !observer(methodName(com)) {
					// changes what it is called on
					wrote(com.Value)
					ps, _ := roots(com.Value, 0, map[ssa.Value]bool{})
					if len(ps) == 0 && e.other == "" {
						if _, isAlloc := base(com.Value).(*ssa.Alloc); !isAlloc {
							e.other = "the state of the VM"
						}
					}
					continue
				}
				ws, other := o.callWrites(com)
				if other != "" && e.other == "" {
					e.other = other
				}
				args := callArgs(com)
				for _, i := range ws {
					if i < len(args) {
						wrote(args[i])
					}
				}
			}
		}
	}
	return e
}

// carried: what one turn of the loop leaves to the next
func (l *mapLoop) carried(phi *ssa.Phi) {
	kinds := map[string]bool{}
	consts := map[string]bool{}
	ops := map[string]bool{}
	seen := map[ssa.Value]bool{}
	var leaf func(v ssa.Value)
	cur := func(v ssa.Value) bool { return v == phi }
	// the running value: phi itself or what inner loops and branches make of it
	running := func(v ssa.Value) bool {
		if cur(v) {
			return true
		}
		in, ok := v.(*ssa.Phi)
		return ok && l.in[in.Block()] && l.flows(phi, in)
	}
	leaf = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			kinds["const"] = true
			consts[x.String()] = true
			return
		case *ssa.Phi:
			if x == phi {
				return
			}
			if l.in[x.Block()] {
				for _, e := range x.Edges {
					leaf(e)
				}
				return
			}
		case *ssa.Extract:
			// sum, err := AddUint64WithErr(sum, x)
			if c, ok := x.Tuple.(*ssa.Call); ok && calleeName(&c.Call) == "math.AddUint64WithErr" && x.Index == 0 {
				for i, a := range c.Call.Args {
					if running(a) {
						leaf(c.Call.Args[i])
						kinds["sum"] = true
						return
					}
				}
			}
		case *ssa.Call:
			if calleeName(&x.Call) == "builtin.append" {
				kinds["list"] = true
				leaf(x.Call.Args[0])
				return
			}
			if f := x.Call.StaticCallee(); f != nil && (calleeName(&x.Call) == "math/big.Int.Add") {
				kinds["sum"] = true
				return
			}
		}
		if !l.inside(v) {
			kinds["const"] = true
			consts[v.Name()] = true
			return
		}
		if commutative(v, running) {
			kinds["sum"] = true
			opsOf(v, running, ops, func(v ssa.Value) { leaf(v) })
			return
		}
		if l.extreme(v) {
			kinds["extreme"] = true
			return
		}
		kinds["element"] = true
	}
	for i, e := range phi.Edges {
		if l.in[phi.Block().Preds[i]] {
			leaf(e)
		}
	}
	name := phi.Comment
	if name == "" {
		name = "a variable"
	}
	switch {
	case kinds["element"]:
		// a count that positions are taken from shows in the stores; a variable that is
		// set anew in each turn before it is used is none
		if used(phi) {
			l.flag("order", "leaves in %s what depends on which element comes first or last", name)
		}
	case kinds["list"]:
		if !l.sorted(phi) && !onlyLen(phi, l) {
			l.flag("order", "collects the list %s in that order", name)
		}
	case len(kinds) > 1:
		l.flag("order", "%s is both set and added to", name)
	case len(consts) > 1:
		l.flag("order", "%s is set to different values", name)
	case len(ops) > 1:
		l.flag("order", "changes %s by operations that do not commute (%s)", name, strings.Join(sortedKeys(ops), ", "))
	case kinds["sum"] && l.shows(phi):
		l.flag("order", "does with an element what depends on how many came before (%s)", name)
	}
	if kinds["sum"] || kinds["list"] {
		l.writes = true
	}
	// positions counted in this order
	if kinds["sum"] && phi.Referrers() != nil {
		for _, in := range *phi.Referrers() {
			if ia, ok := in.(*ssa.IndexAddr); ok && ia.Index == phi && l.in[ia.Block()] {
				ok := false
				for b := ia.X; ; {
					if l.sorted(b) {
						ok = true
					}
					break
				}
				if !ok {
					l.flag("order", "numbers the elements in that order")
				}
			}
		}
	}
}

// shows: what the running value of a sum or count is used for within the loop, other than going on with it
func (l *mapLoop) shows(phi *ssa.Phi) bool {
	seen := map[ssa.Value]bool{}
	bad := false
	var use func(v ssa.Value)
	use = func(v ssa.Value) {
		if seen[v] || bad || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, in := range *v.Referrers() {
			if !l.in[in.Block()] {
				continue
			}
			switch x := in.(type) {
			case *ssa.DebugRef:
			case *ssa.Store:
				if al, ok := base(x.Addr).(*ssa.Alloc); ok && x.Val == v && l.in[al.Block()] && l.only(al, func(in ssa.Instruction) bool {
					ci, ok := in.(ssa.CallInstruction)
					return ok && isLogger(ci.Common())
				}) {
					continue
				}
				bad = x.Val == v
			case *ssa.MapUpdate:
				bad = bad || x.Value == v || x.Key == v
			case *ssa.If:
				out := false
				for _, s := range in.Block().Succs {
					if !l.in[s] && l.fails(s) {
						out = true
					}
				}
				if !out {
					bad = true
				}
			case *ssa.IndexAddr:
				// positions are looked at elsewhere
			case *ssa.Return, *ssa.Send, *ssa.Panic:
				bad = true
			case *ssa.Call:
				n := calleeName(&x.Call)
				switch {
				case isLogger(&x.Call), n == "builtin.append" && x.Call.Args[0] == v:
				case strings.HasPrefix(n, "math.") || n == "builtin.max" || n == "builtin.min" || n == "builtin.len":
					use(x)
				case strings.HasPrefix(n, "math/big.Int."):
					// z.Add(z, x)
				case l.effectFree(&x.Call):
					use(x)
				default:
					bad = true
				}
			default:
				if val, ok := in.(ssa.Value); ok {
					use(val)
				}
			}
		}
	}
	use(phi)
	return bad
}

func (l *mapLoop) effectFree(com *ssa.CallCommon) bool {
	w, other := l.callWrites(com)
	return len(w) == 0 && other == ""
}

// fails: leaving to this block means to answer an error
func (l *mapLoop) fails(s *ssa.BasicBlock) bool {
	if !l.after(s) {
		return false
	}
	n := 0
	for _, b := range l.fn.Blocks {
		if !s.Dominates(b) {
			continue
		}
		for _, t := range b.Succs {
			if !s.Dominates(t) {
				return false
			}
		}
		for _, in := range b.Instrs {
			if ret, ok := in.(*ssa.Return); ok {
				n++
				if len(ret.Results) == 0 {
					return false
				}
				last := ret.Results[len(ret.Results)-1]
				if c, ok := last.(*ssa.Const); !isErrorType(last.Type()) || ok && c.IsNil() {
					return false
				}
			}
		}
	}
	return n > 0
}

// flows: a phi of an inner loop or branch that carries the value of the outer one
func (l *mapLoop) flows(from, to *ssa.Phi) bool {
	seen := map[ssa.Value]bool{}
	var f func(v ssa.Value) bool
	f = func(v ssa.Value) bool {
		if v == from {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if f(e) {
					return true
				}
			}
		case *ssa.BinOp:
			return f(x.X) || f(x.Y)
		case *ssa.Call:
			for _, a := range x.Call.Args {
				if f(a) {
					return true
				}
			}
		case *ssa.Extract:
			return f(x.Tuple)
		}
		return false
	}
	return f(to)
}

// used at all
func used(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, in := range *v.Referrers() {
		switch x := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			_ = x
			if x != v {
				return true
			}
		default:
			return true
		}
	}
	return false
}

func onlyLen(v ssa.Value, l *mapLoop) bool {
	seen := map[ssa.Value]bool{}
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		for _, in := range *v.Referrers() {
			switch x := in.(type) {
			case *ssa.DebugRef:
			case *ssa.Phi:
				if !ok(x) {
					return false
				}
			case *ssa.Call:
				switch calleeName(&x.Call) {
				case "builtin.len":
				case "builtin.append":
					if x.Call.Args[0] != v || !ok(x) {
						return false
					}
				default:
					if !isLogger(&x.Call) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	return ok(v)
}

// exits: what leaving early tells
func (l *mapLoop) exits() {
	var early []*ssa.BasicBlock
	joins := false
	for _, b := range l.fn.Blocks {
		if !l.in[b] || b == l.head {
			continue
		}
		for _, s := range b.Succs {
			if !l.in[s] {
				early = append(early, s)
				if !l.after(s) {
					joins = true // goes on as if all had been seen
				}
			}
		}
	}
	if len(early) == 0 {
		return
	}
	// what of the body is used outside
	sig := map[string]bool{}
	failing := !joins
	isErr := func(v ssa.Value) bool { return isErrorType(v.Type()) }
	for _, b := range l.fn.Blocks {
		if l.in[b] {
			continue
		}
		for _, in := range b.Instrs {
			ret, isRet := in.(*ssa.Return)
			if isRet && l.after(b) {
				s := ""
				for i, v := range ret.Results {
					v = stripErr(v)
					if isErr(ret.Results[i]) {
						if c, ok := v.(*ssa.Const); ok && c.IsNil() {
							failing = false
						}
						if l.own[v] || l.own[ret.Results[i]] || !l.invariant(v) && !l.after(b) {
							l.errSrc[l.fn] = ret
						}
						s += " " + errText(v)
						continue
					}
					if l.own[v] {
						l.flag("order", "tells which element it stopped at")
						return
					}
					s += " " + v.Name()
				}
				if len(ret.Results) == 0 || !isErr(ret.Results[len(ret.Results)-1]) {
					failing = false
				}
				sig[s] = true
				continue
			}
			for _, op := range in.Operands(nil) {
				v := *op
				if v == nil || !l.inside(v) || !l.own[v] {
					continue
				}
				if iv, ok := v.(ssa.Instruction); ok && iv.Block() == l.head {
					continue
				}
				switch x := in.(type) {
				case *ssa.DebugRef:
					continue
				case *ssa.Phi:
					if l.phiEarlySame(x) {
						continue
					}
				case ssa.CallInstruction:
					if isLogger(x.Common()) {
						continue
					}
				}
				if val, ok := in.(ssa.Value); ok && l.only(val, func(in ssa.Instruction) bool {
					ci, ok := in.(ssa.CallInstruction)
					return ok && isLogger(ci.Common())
				}) && !isCallIn(in) {
					continue
				}
				if ph, ok := in.(*ssa.Phi); ok && isErr(ph) {
					l.errSrc[l.fn] = in
					continue
				}
				if l.after(b) || isPhi(in) {
					if val, ok := in.(ssa.Value); ok && l.errorOnly(val) {
						l.errSrc[l.fn] = in
						continue
					}
					l.flag("order", "goes on with the element it stopped at")
					return
				}
			}
			// the merge of leaving early and of having seen everything
			if ph, ok := in.(*ssa.Phi); ok && !isErr(ph) {
				diff := map[string]bool{}
				for i, e := range ph.Edges {
					if l.in[b.Preds[i]] && b.Preds[i] != l.head || l.after(b.Preds[i]) {
						diff[e.Name()] = true
						if l.own[e] {
							l.flag("order", "goes on with the element it stopped at")
							return
						}
					}
				}
				if len(diff) > 1 {
					l.flag("order", "goes on with what depends on the element it stopped at")
					return
				}
			}
		}
	}
	if len(sig) > 1 {
		ne := 0
		for s := range sig {
			if !strings.Contains(s, "err:") {
				ne++
			}
		}
		if ne > 1 || ne == 1 && len(sig) > 1 {
			l.flag("order", "tells what depends on the element it stopped at")
			return
		}
		for _, b := range l.fn.Blocks {
			if l.after(b) {
				for _, in := range b.Instrs {
					if ret, ok := in.(*ssa.Return); ok {
						l.errSrc[l.fn] = ret
					}
				}
			}
		}
	}
	if l.writes && !failing {
		l.flag("order", "stops early with the elements seen so far changed")
	}
}

func isCallIn(in ssa.Instruction) bool { _, ok := in.(ssa.CallInstruction); return ok }
func isPhi(in ssa.Instruction) bool    { _, ok := in.(*ssa.Phi); return ok }

// errorOnly: the value is only used to make an error
func (l *mapLoop) errorOnly(v ssa.Value) bool {
	return l.only(v, func(in ssa.Instruction) bool {
		ci, ok := in.(*ssa.Call)
		if ok && isLogger(&ci.Call) {
			return true
		}
		if ok && isErrorType(ci.Type()) {
			return true
		}
		_, ret := in.(*ssa.Return)
		return ret && isErrorType(v.Type())
	})
}

func (l *mapLoop) phiEarlySame(ph *ssa.Phi) bool {
	for _, e := range ph.Edges {
		if l.own[e] {
			return false
		}
	}
	return true
}

func stripErr(v ssa.Value) ssa.Value {
	if m, ok := v.(*ssa.MakeInterface); ok {
		return m.X
	}
	return v
}

func errText(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Const:
		if x.IsNil() {
			return "nil"
		}
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok {
			return "err:" + g.Name()
		}
	}
	return "err:" + v.Name()
}

// errors whose text depends on the order must not become visible.
func (o *order) errors() {
	all := map[*ssa.Function]bool{}
	for f := range o.errSrc {
		all[f] = true
	}
	for _, f := range sortedFuncs(all) {
		o.errorsOf(f)
	}
}

func (o *order) errorsOf(src *ssa.Function) {
	memo := map[string]bool{}
	var carries func(f *ssa.Function, bind string, depth int) bool
	bindOf := func(f *ssa.Function, com *ssa.CallCommon, callerBind map[ssa.Value]bool, callerKnown map[ssa.Value]bool) string {
		s := ""
		off := 0
		if com.IsInvoke() {
			off = 1
		}
		for i := range f.Params {
			j := i - off
			if j < 0 || j >= len(com.Args) {
				s += "?"
				continue
			}
			c := "?"
			switch a := com.Args[j].(type) {
			case *ssa.Const:
				if a.Value != nil && a.Value.Kind() == constant.Bool {
					c = "f"
					if constant.BoolVal(a.Value) {
						c = "t"
					}
				}
			case *ssa.Parameter:
				if callerKnown[a] {
					c = "f"
					if callerBind[a] {
						c = "t"
					}
				}
			}
			s += c
		}
		return s
	}
	// sites are the calls of f, under the given constants, whose error depends on the order
	var sites func(f *ssa.Function, bind string, depth int) []*ssa.Call
	sites = func(f *ssa.Function, bind string, depth int) []*ssa.Call {
		val, known := map[ssa.Value]bool{}, map[ssa.Value]bool{}
		for i, x := range f.Params {
			if i < len(bind) && bind[i] != '?' {
				known[x] = true
				val[x] = bind[i] == 't'
			}
		}
		live := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock)
		walk = func(b *ssa.BasicBlock) {
			if live[b] {
				return
			}
			live[b] = true
			if n := len(b.Instrs); n > 0 {
				if ifi, ok := b.Instrs[n-1].(*ssa.If); ok {
					c, neg := ifi.Cond, false
					if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
						c, neg = u.X, true
					}
					if known[c] {
						if val[c] != neg {
							walk(b.Succs[0])
						} else {
							walk(b.Succs[1])
						}
						return
					}
				}
			}
			for _, s := range b.Succs {
				walk(s)
			}
		}
		walk(f.Blocks[0])
		var out []*ssa.Call
		for _, b := range f.Blocks {
			if !live[b] {
				continue
			}
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || !hasError(c) {
					continue
				}
				for _, g := range o.p.resolve(&c.Call) {
					if g.Blocks != nil && !notVM(pkgRel(g)) && carries(g, bindOf(g, &c.Call, val, known), depth+1) {
						out = append(out, c)
						break
					}
				}
			}
		}
		return out
	}
	carries = func(f *ssa.Function, bind string, depth int) bool {
		if f == src {
			return true
		}
		k := fname(f) + "|" + bind
		if v, ok := memo[k]; ok {
			return v
		}
		memo[k] = false
		if depth > 25 || !hasErrorResult(f.Signature) {
			return false
		}
		for _, c := range sites(f, bind, depth) {
			if _, ret := o.errUses(c); ret {
				memo[k] = true
				return true
			}
		}
		return memo[k]
	}
	shown := map[string]bool{}
	for _, f := range o.p.Funcs {
		if f.Blocks == nil || !orderPkgs[pkgRel(f)] {
			continue
		}
		for _, c := range sites(f, strings.Repeat("?", len(f.Params)), 0) {
			exposed, ret := o.errUses(c)
			// nobody of the VM calls it: who does sees the error
			if exposed || ret && o.outermost(f) {
				shown[fname(f)] = true
			}
		}
	}
	if len(shown) > 0 {
		o.r.violate("order-of-errors:"+fname(src), o.p.pos(o.errSrc[src].Pos()), "the error %s answers depends on the order of a map and is shown by %s", fname(src), strings.Join(sortedKeys(shown), ", "))
		return
	}
	o.r.ok(fmt.Sprintf("the error %s answers at %s is replaced before it is visible", fname(src), o.p.pos(o.errSrc[src].Pos())))
}

func (o *order) outermost(f *ssa.Function) bool {
	rv := f.Signature.Recv()
	if rv == nil {
		return false
	}
	return typeName(rv.Type()) == "vmHost" && strings.HasPrefix(f.Name(), "RunSmartContract")
}

func hasError(c *ssa.Call) bool { return hasErrorResult(c.Call.Signature()) }

func hasErrorResult(s *types.Signature) bool {
	n := s.Results().Len()
	return n > 0 && isErrorType(s.Results().At(n-1).Type())
}

// errUses: whether the error of a call is shown to anyone but its caller, and whether it is returned
func (o *order) errUses(c *ssa.Call) (exposed, returned bool) {
	var e []ssa.Value
	if _, ok := c.Type().(*types.Tuple); ok {
		n := c.Type().(*types.Tuple).Len()
		for _, in := range *c.Referrers() {
			if ex, ok := in.(*ssa.Extract); ok && ex.Index == n-1 {
				e = append(e, ex)
			}
		}
	} else {
		e = append(e, c)
	}
	seen := map[ssa.Value]bool{}
	var use func(v ssa.Value)
	use = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, in := range *v.Referrers() {
			switch x := in.(type) {
			case *ssa.DebugRef, *ssa.If:
			case *ssa.BinOp:
			case *ssa.Return:
				returned = true
			case *ssa.Phi, *ssa.ChangeInterface, *ssa.MakeInterface:
				use(in.(ssa.Value))
			case *ssa.Store:
				if al, ok := base(x.Addr).(*ssa.Alloc); ok {
					if o.only(al, func(in ssa.Instruction) bool {
						ci, ok := in.(ssa.CallInstruction)
						return ok && isLogger(ci.Common())
					}) {
						continue
					}
					for _, u := range *al.Referrers() {
						if ld, ok := u.(*ssa.UnOp); ok {
							use(ld)
						}
					}
				}
			case *ssa.Call:
				switch calleeName(&x.Call) {
				case "errors.Is":
				default:
					if !isLogger(&x.Call) {
						if isErrorType(x.Type()) {
							use(x)
						} else {
							exposed = true
						}
					}
				}
			}
		}
	}
	for _, v := range e {
		use(v)
	}
	return
}
