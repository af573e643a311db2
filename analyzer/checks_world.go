package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// W01: snapshots of the simulated blockchain.

func init() {
	register("W01", func(p *Prog, r *Result) { checkW01(p, r) })
}

const worldPkg = "mock/world"

// loopOf describes a loop over a map or slice: the block that asks for the next element, and what it is over.
type loopOf struct {
	fn         *ssa.Function
	head, body *ssa.BasicBlock
	next       *ssa.Next
	over       ssa.Value
	key, val   ssa.Value
}

func mapLoops(f *ssa.Function) []*loopOf {
	var out []*loopOf
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			nx, ok := in.(*ssa.Next)
			if !ok || nx.IsString {
				continue
			}
			rg, ok := nx.Iter.(*ssa.Range)
			if !ok {
				continue
			}
			l := &loopOf{fn: f, head: b, next: nx, over: rg.X}
			for _, ref := range *nx.Referrers() {
				if ex, ok := ref.(*ssa.Extract); ok {
					switch ex.Index {
					case 1:
						l.key = ex
					case 2:
						l.val = ex
					}
				}
			}
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				_ = iff
				l.body = b.Succs[0]
			}
			if l.body != nil {
				out = append(out, l)
			}
		}
	}
	return out
}

// everyIteration: no iteration gets back to the head of the loop, or out of the loop without an error, without doing it.
// skip tells which branches need not do it.
func (l *loopOf) everyIteration(does func(ssa.Instruction) bool, skip func(cond ssa.Value, truth bool) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	did := false
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == l.head {
			return false
		}
		if seen[b] {
			return true
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if does(in) {
				did = true
				return true
			}
			if ret, ok := in.(*ssa.Return); ok {
				return returnsError(ret)
			}
			if _, ok := in.(*ssa.Panic); ok {
				return true
			}
		}
		iff, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		for i, s := range b.Succs {
			if isIf && skip != nil && skip(iff.Cond, i == 0) {
				continue
			}
			if !walk(s) {
				return false
			}
		}
		return true
	}
	return walk(l.body) && did
}

// returnsError: the error returned is made here, or was found not to be nil.
func returnsError(ret *ssa.Return) bool {
	for _, v := range ret.Results {
		if types.TypeString(v.Type(), nil) != "error" {
			continue
		}
		if c, ok := v.(*ssa.Const); ok && c.Value == nil {
			return false
		}
		return true
	}
	return false
}

// always: every path through f does it (directly, or by calling a function of the package that always does it).
func always(f *ssa.Function, does func(ssa.Instruction) bool, okExit func(*ssa.Return) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return true
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if does(in) {
				return true
			}
			if ret, ok := in.(*ssa.Return); ok {
				return okExit != nil && okExit(ret)
			}
			if _, ok := in.(*ssa.Panic); ok {
				return true
			}
		}
		for _, s := range b.Succs {
			if !walk(s) {
				return false
			}
		}
		return true
	}
	return len(f.Blocks) > 0 && walk(f.Blocks[0])
}


// scope binds the parameters of functions that were entered to what they were called with.
type scope struct {
	bind map[*ssa.Parameter]ssa.Value
	up   *scope
}

func (sc *scope) enter(c *ssa.Call, g *ssa.Function) *scope {
	n := &scope{bind: map[*ssa.Parameter]ssa.Value{}, up: sc}
	for i, p := range g.Params {
		if i < len(c.Call.Args) {
			n.bind[p] = c.Call.Args[i]
		}
	}
	return n
}

// root follows conversions, single-assignment variables and parameters to where a value comes from.
func (sc *scope) root(v ssa.Value) ssa.Value {
	for i := 0; i < 50; i++ {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
				if s := onlyStore(al); s != nil {
					v = s
					continue
				}
			}
			return v
		case *ssa.Parameter:
			if sc == nil {
				return v
			}
			b, ok := sc.bind[x]
			if !ok {
				return v
			}
			v, sc = b, sc.up
		default:
			return v
		}
	}
	return v
}

func onlyStore(al *ssa.Alloc) ssa.Value {
	var val ssa.Value
	for _, ref := range *al.Referrers() {
		if s, ok := ref.(*ssa.Store); ok && s.Addr == al {
			if val != nil {
				return nil
			}
			val = s.Val
		}
	}
	return val
}

// fieldOf: the name of the field a value was loaded from, "" if it was not.
func (sc *scope) fieldOf(v ssa.Value) string {
	v = sc.root(v)
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			return fieldAddrName(fa)
		}
	case *ssa.Field:
		return deref(x.X.Type()).Underlying().(*types.Struct).Field(x.Field).Name()
	}
	return ""
}

func fieldAddrName(fa *ssa.FieldAddr) string {
	return deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
}

// deep: the instruction does it, or calls a function of the package that does it on every path.
func deep(sc *scope, does func(ssa.Instruction, *scope) bool) func(ssa.Instruction) bool {
	var with func(sc *scope, depth int) func(ssa.Instruction) bool
	with = func(sc *scope, depth int) func(ssa.Instruction) bool {
		return func(in ssa.Instruction) bool {
			if does(in, sc) {
				return true
			}
			c, ok := in.(*ssa.Call)
			if !ok || depth > 4 {
				return false
			}
			g := c.Call.StaticCallee()
			if g == nil || len(g.Blocks) == 0 || pkgRel(g) != worldPkg {
				return false
			}
			return always(g, with(sc.enter(c, g), depth+1), nil)
		}
	}
	return with(sc, 0)
}

// reach: the functions of the package that are called from f, with f.
func reach(p *Prog, f *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 || pkgRel(f) != worldPkg {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					walk(c.Common().StaticCallee())
				}
			}
		}
	}
	walk(f)
	return out
}

// calls lists the calls in f and the functions of the package it calls, with the scope they are in.
func callsIn(f *ssa.Function, sc *scope, visit func(in ssa.Instruction, sc *scope), depth int) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			visit(in, sc)
			c, ok := in.(*ssa.Call)
			if !ok || depth > 4 {
				continue
			}
			if g := c.Call.StaticCallee(); g != nil && len(g.Blocks) > 0 && pkgRel(g) == worldPkg {
				callsIn(g, sc.enter(c, g), visit, depth+1)
			}
		}
	}
}

func isNilOrEmptyTest(v ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return false
	}
	zero := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Const)
		return ok && (c.Value == nil || c.Value.ExactString() == "0")
	}
	return zero(b.X) || zero(b.Y)
}

func lenOf(v ssa.Value) ssa.Value {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return c.Call.Args[0]
		}
	}
	return nil
}

func checkW01(p *Prog, r *Result) {
	r.Rule = "every field of an account goes into its clone, and every part of it that can be changed in place is copied, whole; the clone of the accounts contains a clone of each; " +
		"taking a snapshot stores such a clone and answers its number; returning to a snapshot removes the accounts it does not have, brings back those it has, gives every account the storage it had, " +
		"and drops this snapshot and the later ones; committing drops all; clearing the world resets every part that is not configuration"
	r.Assumptions = append(r.Assumptions,
		"the simulated blockchain puts back the storage and the existence of accounts only; the nonce and the balance stay because the gas of a failed transaction stays paid",
		"SelfShardID and BuiltinFuncs of the world are configuration and outlive a clearing")
	need := func(name string) *ssa.Function {
		f := p.fn(worldPkg + "." + name)
		if f == nil {
			r.violate("undecided:"+name, "-", "%s of the simulated blockchain not found", name)
			return nil
		}
		r.saw(fname(f))
		return f
	}
	if f := need("Account.Clone"); f != nil {
		w01Clone(p, r, f)
	}
	if f := need("AccountMap.Clone"); f != nil {
		w01Map(p, r, f)
	}
	if f := need("MockAccountsAdapter.SnapshotState"); f != nil {
		w01Take(p, r, f)
	}
	if f := need("MockAccountsAdapter.Commit"); f != nil {
		w01Commit(p, r, f)
	}
	if f := need("MockAccountsAdapter.RevertToSnapshot"); f != nil {
		w01Revert(p, r, f)
	}
	if f := need("MockWorld.GetSnapshot"); f != nil {
		w01Number(p, r, f, need("MockAccountsAdapter.JournalLen"))
	}
	if f := need("MockWorld.RevertToSnapshot"); f != nil {
		sc := (*scope)(nil)
		does := deep(sc, func(in ssa.Instruction, sc *scope) bool {
			c, ok := in.(*ssa.Call)
			if !ok || methodName(&c.Call) != "RevertToSnapshot" {
				return false
			}
			return sc.root(c.Call.Args[len(c.Call.Args)-1]) == ssa.Value(f.Params[1])
		})
		if always(f, does, nil) {
			r.ok("the world returns to the snapshot it was asked for")
		} else {
			r.violate("world-revert", p.pos(f.Pos()), "%s does not always return to the snapshot it was asked for", fname(f))
		}
	}
	if f := need("MockWorld.Clear"); f != nil {
		w01Clear(p, r, f)
	}
	// nobody else replaces the snapshots
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || typeName(deref(fa.X.Type())) != "MockAccountsAdapter" || fieldAddrName(fa) != "Snapshots" {
					continue
				}
				r.ok("places that change the list of snapshots")
				if _, fresh := fa.X.(*ssa.Alloc); fresh {
					continue
				}
				ok = false
				for _, n := range []string{"SnapshotState", "Commit", "RevertToSnapshot"} {
					if root := p.fn(worldPkg + ".MockAccountsAdapter." + n); root != nil {
						for _, g := range reach(p, root) {
							ok = ok || g == f
						}
					}
				}
				if !ok {
					r.violate("snapshots-changed:"+fname(f), p.pos(in.Pos()), "%s changes the list of snapshots although it neither takes one, nor commits, nor returns to one", fname(f))
				}
			}
		}
	}
}

func w01Clone(p *Prog, r *Result, fn *ssa.Function) {
	f := newFlow(p)
	f.Inline = inPkg(worldPkg)
	f.MaxDepth = 6
	fr := f.Run(fn, "a")
	if len(fr.ret) == 0 {
		r.violate("undecided:clone", p.pos(fn.Pos()), "%s returns nothing", fname(fn))
		return
	}
	res := fr.ret[0]
	if s := sharedPaths(f, res); pathIn(s, "a") {
		r.violate("clone-itself", p.pos(fn.Pos()), "the clone of an account can be the account itself (%s)", s)
	}
	st := deref(fn.Params[0].Type()).Underlying().(*types.Struct)
	n := 0
	for i := 0; i < st.NumFields(); i++ {
		fl := st.Field(i)
		v := f.Field(res, fl.Name())
		n++
		if typeName(deref(fl.Type())) == "MockWorld" {
			continue
		}
		from := false
		for l := range f.Labels(v) {
			if l == "a."+fl.Name() || strings.HasPrefix(l, "a."+fl.Name()+".") || strings.HasPrefix(l, "a."+fl.Name()+"[") {
				from = true
			} else if strings.HasPrefix(l, "a.") {
				r.violate("clone-other:"+fl.Name(), p.pos(fn.Pos()), "the clone of an account gets its %s from %s", fl.Name(), l)
			}
		}
		if !from {
			r.violate("clone-field:"+fl.Name(), p.pos(fn.Pos()), "the clone of an account does not get the account's %s", fl.Name())
			continue
		}
		if s := sharedPaths(f, v); s != "" {
			r.violate("clone-shared:"+fl.Name(), p.pos(fn.Pos()), "the clone of an account shares its %s with the account: changing it in place changes the snapshot", fl.Name())
			continue
		}
		r.ok("fields of an account that are cloned on their own")
	}
	r.floor("fields of an account", n, 10)
	for _, g := range reach(p, fn) {
		r.saw(fname(g))
		wholeCopies(p, r, g)
	}
}

// wholeCopies: a function that makes clones copies all of what it copies.
func wholeCopies(p *Prog, r *Result, g *ssa.Function) {
	loops := mapLoops(g)
	inLoop := map[ssa.Value]bool{}
	for _, l := range loops {
		inLoop[l.next] = true
		stores := func(in ssa.Instruction) bool {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok {
				return false
			}
			sc := (*scope)(nil)
			if _, fresh := sc.root(mu.Map).(*ssa.MakeMap); !fresh {
				return false
			}
			return l.key != nil && sc.root(mu.Key) == sc.root(l.key)
		}
		if l.everyIteration(stores, nil) {
			r.ok("loops that copy every entry")
		} else {
			r.violate("clone-loop:"+fname(g), p.pos(g.Pos()), "%s can leave out an entry of what it clones, or puts it under another key", fname(g))
		}
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.If:
				if ex, ok := x.Cond.(*ssa.Extract); ok && inLoop[ex.Tuple] {
					continue
				}
				if !isNilOrEmptyTest(x.Cond) && !rangeCond(x.Cond) {
					r.violate("clone-condition:"+fname(g), p.pos(g.Pos()), "what %s clones depends on a condition (%s)", fname(g), x.Cond)
				}
			case *ssa.MakeSlice:
				src := lenOf(x.Len)
				whole := false
				if src != nil {
					for _, ref := range *x.Referrers() {
						c, ok := ref.(*ssa.Call)
						if !ok {
							continue
						}
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "copy" && c.Call.Args[0] == ssa.Value(x) && sameValue(c.Call.Args[1], src) {
							whole = true
						}
					}
				}
				if c, ok := x.Len.(*ssa.Const); ok && c.Value != nil && c.Value.ExactString() == "0" {
					whole = true // filled by append, or empty: what is in it is decided by the flow of values
				}
				if whole {
					r.ok("copies of whole byte sequences")
				} else {
					r.violate("clone-part:"+fname(g), p.pos(x.Pos()), "%s does not copy a byte sequence as a whole", fname(g))
				}
			case *ssa.Call:
				bi, ok := x.Call.Value.(*ssa.Builtin)
				if ok && bi.Name() == "copy" {
					if mk, ok := x.Call.Args[0].(*ssa.MakeSlice); !ok || lenOf(mk.Len) == nil || !sameValue(lenOf(mk.Len), x.Call.Args[1]) {
						r.violate("clone-part:"+fname(g), p.pos(x.Pos()), "%s copies into something of another length", fname(g))
					}
				}
			case *ssa.Slice:
				if x.Low == nil && x.High == nil {
					continue
				}
				if x.Low == nil && isZero(x.High) {
					if _, fresh := x.X.(*ssa.Alloc); fresh || isZero(x.Max) {
						continue
					}
				}
				if _, fresh := x.X.(*ssa.Alloc); fresh {
					continue
				}
				r.violate("clone-part:"+fname(g), p.pos(x.Pos()), "%s clones only a part of a byte sequence", fname(g))
			}
		}
	}
}

func rangeCond(v ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	return ok && b.Op == token.LSS && lenOf(b.Y) != nil
}

// sameValue: the two are the same value, or loads of the same place.
func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	la, ok1 := a.(*ssa.UnOp)
	lb, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && la.Op == token.MUL && lb.Op == token.MUL {
		fa, ok1 := la.X.(*ssa.FieldAddr)
		fb, ok2 := lb.X.(*ssa.FieldAddr)
		return la.X == lb.X || ok1 && ok2 && fa.Field == fb.Field && sameValue(fa.X, fb.X)
	}
	return false
}

func w01Map(p *Prog, r *Result, fn *ssa.Function) {
	n := 0
	for _, g := range reach(p, fn) {
		if recvName(g) == "Account" {
			continue
		}
		for _, l := range mapLoops(g) {
			if typeName(l.over.Type()) != "AccountMap" && recvName(g) != "AccountMap" {
				continue
			}
			n++
			sc := (*scope)(nil)
			stores := deep(sc, func(in ssa.Instruction, sc *scope) bool {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || l.key == nil || sc.root(mu.Key) != l.key {
					return false
				}
				if g == fn && sc == nil {
					if _, fresh := sc.root(mu.Map).(*ssa.MakeMap); !fresh {
						return false
					}
				}
				c, ok := sc.root(mu.Value).(*ssa.Call)
				if !ok || methodName(&c.Call) != "Clone" || len(c.Call.Args) == 0 {
					return false
				}
				return l.val != nil && sc.root(c.Call.Args[0]) == l.val ||
					lookupOf(c.Call.Args[0], 0, l, sc, func(v ssa.Value, sc *scope) bool { return sc.root(v) == l.over })
			})
			if l.everyIteration(stores, nil) {
				r.ok("the clone of the accounts contains a clone of each")
			} else {
				r.violate("clone-map", p.pos(g.Pos()), "%s does not put a clone of every account into the clone, under the same address", fname(g))
			}
		}
	}
	r.floor("loops that clone the accounts", n, 1)
	f := newFlow(p)
	f.Inline = inPkg(worldPkg)
	f.MaxDepth = 6
	fr := f.Run(fn, "am")
	if len(fr.ret) > 0 && pathIn(sharedPaths(f, fr.ret[0]), "am", "am[]") {
		r.violate("clone-map-itself", p.pos(fn.Pos()), "the clone of the accounts can be the map of the accounts itself (%s)", sharedPaths(f, fr.ret[0]))
	}
}

// cloneOfWorld: the value is a clone of the accounts of the world.
func cloneOfWorld(v ssa.Value, sc *scope) bool {
	c, ok := sc.root(v).(*ssa.Call)
	return ok && methodName(&c.Call) == "Clone" && len(c.Call.Args) > 0 && sc.fieldOf(c.Call.Args[0]) == "AcctMap"
}

func appended(v ssa.Value, sc *scope) (base ssa.Value, elems []ssa.Value) {
	c, ok := sc.root(v).(*ssa.Call)
	if !ok {
		return nil, nil
	}
	bi, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || bi.Name() != "append" || len(c.Call.Args) != 2 {
		return nil, nil
	}
	sl, ok := c.Call.Args[1].(*ssa.Slice)
	if !ok {
		return c.Call.Args[0], nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return c.Call.Args[0], nil
	}
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, rr := range *ia.Referrers() {
			if s, ok := rr.(*ssa.Store); ok {
				elems = append(elems, s.Val)
			}
		}
	}
	return c.Call.Args[0], elems
}

func snapshotsStore(in ssa.Instruction) *ssa.Store {
	s, ok := in.(*ssa.Store)
	if !ok {
		return nil
	}
	fa, ok := s.Addr.(*ssa.FieldAddr)
	if !ok || typeName(deref(fa.X.Type())) != "MockAccountsAdapter" || fieldAddrName(fa) != "Snapshots" {
		return nil
	}
	return s
}

func w01Take(p *Prog, r *Result, fn *ssa.Function) {
	takes := func(in ssa.Instruction, sc *scope) bool {
		s := snapshotsStore(in)
		if s == nil {
			return false
		}
		base, elems := appended(s.Val, sc)
		return base != nil && sc.fieldOf(base) == "Snapshots" && len(elems) == 1 && cloneOfWorld(elems[0], sc)
	}
	n := 0
	callsIn(fn, nil, func(in ssa.Instruction, sc *scope) {
		if snapshotsStore(in) != nil {
			n++
		}
	}, 0)
	switch {
	case n != 1:
		r.violate("take", p.pos(fn.Pos()), "%s changes the list of snapshots in %d places, not one", fname(fn), n)
	case !always(fn, deep(nil, takes), nil):
		r.violate("take", p.pos(fn.Pos()), "%s does not always append a clone of the accounts to the snapshots", fname(fn))
	default:
		r.ok("taking a snapshot stores a clone of the accounts")
	}
}

func w01Commit(p *Prog, r *Result, fn *ssa.Function) {
	empties := func(in ssa.Instruction, sc *scope) bool {
		s := snapshotsStore(in)
		return s != nil && noElems(sc.root(s.Val), sc)
	}
	if always(fn, deep(nil, empties), nil) {
		r.ok("committing drops all snapshots")
	} else {
		r.violate("commit", p.pos(fn.Pos()), "%s does not always drop all snapshots: a later failure returns to before an earlier transaction", fname(fn))
	}
}

func noElems(v ssa.Value, sc *scope) bool {
	switch x := v.(type) {
	case *ssa.MakeSlice:
		return isZero(x.Len)
	case *ssa.Const:
		return x.Value == nil
	case *ssa.Slice:
		if isZero(x.High) {
			return true
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			if a, ok := deref(al.Type()).Underlying().(*types.Array); ok {
				return a.Len() == 0
			}
		}
	}
	return false
}

func w01Revert(p *Prog, r *Result, fn *ssa.Function) {
	idx := ssa.Value(fn.Params[1])
	var snap ssa.Value
	// the snapshot it returns to
	callsIn(fn, nil, func(in ssa.Instruction, sc *scope) {
		u, ok := in.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return
		}
		ia, ok := u.X.(*ssa.IndexAddr)
		if !ok || sc.fieldOf(ia.X) != "Snapshots" {
			return
		}
		if sc.root(ia.Index) != idx {
			r.violate("revert-index", p.pos(in.Pos()), "%s reads another snapshot than the one it is asked to return to", fname(fn))
			return
		}
		snap = u
	}, 0)
	if snap == nil {
		r.violate("revert-index", p.pos(fn.Pos()), "%s does not read the snapshot it is asked to return to", fname(fn))
		return
	}
	pr := newProver(p)
	if why := w01InBounds(pr, fn); why != "" {
		r.violate("revert-bounds", p.pos(fn.Pos()), "%s: %s", fname(fn), why)
	} else {
		r.ok("the number of the snapshot is within the list")
	}
	// it is dropped
	truncates := func(in ssa.Instruction, sc *scope) bool {
		s := snapshotsStore(in)
		if s == nil {
			return false
		}
		sl, ok := sc.root(s.Val).(*ssa.Slice)
		return ok && isZeroOrNil(sl.Low) && sl.High != nil && sc.root(sl.High) == idx && sc.fieldOf(sl.X) == "Snapshots"
	}
	if always(fn, deep(nil, truncates), func(ret *ssa.Return) bool { return returnsError(ret) && !returnsCall(ret) }) {
		r.ok("returning to a snapshot drops it and the later ones")
	} else {
		r.violate("revert-drop", p.pos(fn.Pos()), "%s does not drop the snapshot it returned to and the later ones: accounts and snapshot share their storage afterwards", fname(fn))
	}
	n := 0
	callsIn(fn, nil, func(in ssa.Instruction, sc *scope) {
		if snapshotsStore(in) != nil {
			n++
		}
	}, 0)
	if n != 1 {
		r.violate("revert-drop", p.pos(fn.Pos()), "%s changes the list of snapshots in %d places, not one", fname(fn), n)
	}
	// the loops
	isSnap := func(v ssa.Value, sc *scope) bool { return sc.root(v) == snap }
	isWorld := func(v ssa.Value, sc *scope) bool { return sc.fieldOf(v) == "AcctMap" }
	removes, restores, storage := false, false, false
	var visit func(g *ssa.Function, sc *scope, depth int, uncond func(ssa.Instruction) bool)
	visit = func(g *ssa.Function, sc *scope, depth int, uncond func(ssa.Instruction) bool) {
		for _, l := range mapLoops(g) {
			l := l
			must := func(in ssa.Instruction) bool { return in == ssa.Instruction(l.next) }
			if !always(g, must, func(ret *ssa.Return) bool { return returnsError(ret) && !returnsCall(ret) }) || !uncond(l.next) {
				continue
			}
			if isWorld(l.over, sc) {
				if l.everyIteration(func(in ssa.Instruction) bool {
					c, ok := in.(*ssa.Call)
					if !ok {
						return false
					}
					if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
						return isWorld(c.Call.Args[0], sc) && sc.root(c.Call.Args[1]) == l.key
					}
					return methodName(&c.Call) == "DeleteAccount" && len(c.Call.Args) == 2 && isWorld(c.Call.Args[0], sc) && sc.root(c.Call.Args[1]) == l.key
				}, func(cond ssa.Value, truth bool) bool { return foundIn(cond, truth, l, sc, isSnap) }) {
					removes = true
				}
				if l.everyIteration(func(in ssa.Instruction) bool {
					s, ok := in.(*ssa.Store)
					if !ok {
						return false
					}
					fa, ok := s.Addr.(*ssa.FieldAddr)
					if !ok || fieldAddrName(fa) != "Storage" || fa.X != l.val {
						return false
					}
					return ofSnapshot(s.Val, l, sc, isSnap)
				}, nil) {
					storage = true
				}
			}
			if isSnap(l.over, sc) {
				if l.everyIteration(func(in ssa.Instruction) bool {
					mu, ok := in.(*ssa.MapUpdate)
					return ok && isWorld(mu.Map, sc) && sc.root(mu.Key) == l.key && (sc.root(mu.Value) == l.val || cloneOf(mu.Value, l.val, sc))
				}, func(cond ssa.Value, truth bool) bool { return foundIn(cond, truth, l, sc, isWorld) }) {
					restores = true
				}
				if l.everyIteration(func(in ssa.Instruction) bool {
					s, ok := in.(*ssa.Store)
					if !ok {
						return false
					}
					fa, ok := s.Addr.(*ssa.FieldAddr)
					return ok && fieldAddrName(fa) == "Storage" && sc.fieldOf(s.Val) == "Storage" && baseOf(s.Val) == l.val && ofWorld(fa.X, l, sc, isWorld)
				}, nil) {
					storage = true
				}
			}
		}
		if depth > 4 {
			return
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				h := c.Call.StaticCallee()
				if h == nil || len(h.Blocks) == 0 || pkgRel(h) != worldPkg {
					continue
				}
				here := always(g, func(x ssa.Instruction) bool { return x == in }, func(ret *ssa.Return) bool { return returnsError(ret) && !returnsCall(ret) }) && uncond(in)
				visit(h, sc.enter(c, h), depth+1, func(ssa.Instruction) bool { return here })
			}
		}
	}
	visit(fn, nil, 0, func(ssa.Instruction) bool { return true })
	rule := func(ok bool, key, what string) {
		if ok {
			r.ok("returning to a snapshot " + what)
		} else {
			r.violate("revert-"+key, p.pos(fn.Pos()), "there is a way through %s that does not do this: it %s", fname(fn), what)
		}
	}
	rule(removes, "new", "removes every account the snapshot does not have")
	rule(restores, "gone", "brings back every account the snapshot has")
	rule(storage, "storage", "gives every account the storage it has in the snapshot")
	// an error is reported
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || !lastError(&c.Call) {
				continue
			}
			used := false
			for _, ref := range *c.Referrers() {
				if _, dbg := ref.(*ssa.DebugRef); !dbg {
					used = true
				}
			}
			if !used {
				r.violate("revert-error", p.pos(in.Pos()), "%s ignores the error of %s", fname(fn), calleeName(&c.Call))
			}
		}
	}
	// what of an account it puts back
	restored := map[string]bool{}
	callsIn(fn, nil, func(in ssa.Instruction, sc *scope) {
		if s, ok := in.(*ssa.Store); ok {
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && typeName(deref(fa.X.Type())) == "Account" && !isAlloc(fa.X) {
				restored[fieldAddrName(fa)] = true
			}
		}
	}, 0)
	// the parts of an account that functions of the blockchain change on behalf of a contract while it runs
	changed := map[string]string{}
	for _, g := range p.Funcs {
		if pkgRel(g) != worldPkg || recvName(g) != "Account" || !g.Object().Exported() || !vmAccountMethod(p, g.Name()) {
			continue
		}
		for _, h := range reach(p, g) {
			for _, b := range h.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if fa, ok := s.Addr.(*ssa.FieldAddr); ok && typeName(deref(fa.X.Type())) == "Account" {
							if _, fresh := fa.X.(*ssa.Alloc); !fresh {
								changed[fieldAddrName(fa)] = g.Name()
							}
						}
					}
				}
			}
		}
	}
	var fields []string
	for k := range changed {
		fields = append(fields, k)
	}
	sort.Strings(fields)
	for _, k := range fields {
		if k == "Nonce" || k == "Balance" {
			continue
		}
		if restored[k] {
			r.ok("parts of an account that are put back")
		} else {
			r.violate("not-restored:"+k, p.pos(fn.Pos()), "returning to a snapshot does not put back the %s of accounts, which built-in functions change (Account.%s): the change of a failed execution stays", k, changed[k])
		}
	}
}

// vmAccountMethod: the method belongs to the account interface built-in functions work with.
func vmAccountMethod(p *Prog, name string) bool {
	t := p.vmType("UserAccountHandler")
	if t == nil {
		return false
	}
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == name {
			return true
		}
	}
	return false
}

func baseOf(v ssa.Value) ssa.Value {
	sc := (*scope)(nil)
	if u, ok := sc.root(v).(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return sc.root(fa.X)
		}
	}
	return nil
}

func isZeroOrNil(v ssa.Value) bool { return v == nil || isZero(v) }

// lookupOf: the value is, or is the found-flag of, a lookup of the loop's key in a map the predicate accepts.
func lookupOf(v ssa.Value, index int, l *loopOf, sc *scope, is func(ssa.Value, *scope) bool) bool {
	v = sc.root(v)
	var lk *ssa.Lookup
	switch x := v.(type) {
	case *ssa.Extract:
		y, ok := x.Tuple.(*ssa.Lookup)
		if !ok || x.Index != index {
			return false
		}
		lk = y
	case *ssa.Lookup:
		if x.CommaOk || index != 0 {
			return false
		}
		lk = x
	case *ssa.Call:
		return index == 0 && methodName(&x.Call) == "GetAccount" && len(x.Call.Args) == 2 && is(x.Call.Args[0], sc) && sc.root(x.Call.Args[1]) == l.key
	default:
		return false
	}
	return is(lk.X, sc) && sc.root(lk.Index) == l.key
}

// foundIn: on this side of the branch the loop's key was found in the map.
func foundIn(cond ssa.Value, truth bool, l *loopOf, sc *scope, is func(ssa.Value, *scope) bool) bool {
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, truth = u.X, !truth
	}
	if lookupOf(cond, 1, l, sc, is) {
		return truth
	}
	if b, ok := cond.(*ssa.BinOp); ok {
		for _, pair := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			c, isC := pair[1].(*ssa.Const)
			if isC && c.Value == nil && lookupOf(pair[0], 0, l, sc, is) {
				return b.Op == token.NEQ && truth || b.Op == token.EQL && !truth
			}
		}
	}
	return false
}

// ofSnapshot: the storage of the account of the same address in the snapshot.
func ofSnapshot(v ssa.Value, l *loopOf, sc *scope, isSnap func(ssa.Value, *scope) bool) bool {
	v = sc.root(v)
	if c, ok := v.(*ssa.Call); ok && methodName(&c.Call) == "cloneStorage" && len(c.Call.Args) == 1 {
		return lookupOf(c.Call.Args[0], 0, l, sc, isSnap)
	}
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return ok && fieldAddrName(fa) == "Storage" && lookupOf(fa.X, 0, l, sc, isSnap)
}

func ofWorld(v ssa.Value, l *loopOf, sc *scope, isWorld func(ssa.Value, *scope) bool) bool {
	return lookupOf(v, 0, l, sc, isWorld)
}

// returnsCall: the error returned is what a call answered, so it may be nil.
func returnsCall(ret *ssa.Return) bool {
	for _, v := range ret.Results {
		if types.TypeString(v.Type(), nil) != "error" {
			continue
		}
		switch x := v.(type) {
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil && pkgRel(g) != worldPkg {
				return false // errors.New, fmt.Errorf
			}
			return true
		case *ssa.Phi:
			return true
		}
	}
	return false
}

func w01InBounds(pr *Prover, fn *ssa.Function) string {
	for _, g := range reach(pr.p, fn) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.IndexAddr, *ssa.Index:
				case *ssa.Slice:
					if x.Low == nil && x.High == nil {
						continue
					}
				default:
					continue
				}
				if g != fn {
					continue
				}
				if why, ok := pr.inBounds(in); !ok {
					return why
				}
			}
		}
	}
	return ""
}

func w01Number(p *Prog, r *Result, fn, jl *ssa.Function) {
	if jl == nil {
		return
	}
	isTake := func(in ssa.Instruction, sc *scope) bool {
		c, ok := in.(*ssa.Call)
		return ok && methodName(&c.Call) == "SnapshotState"
	}
	takes := deep(nil, isTake)
	last := false
	for _, b := range jl.Blocks {
		for _, in := range b.Instrs {
			ret, ok := in.(*ssa.Return)
			if !ok || len(ret.Results) != 1 {
				continue
			}
			sc := (*scope)(nil)
			bo, ok := sc.root(ret.Results[0]).(*ssa.BinOp)
			c, isC := (*ssa.Const)(nil), false
			if ok {
				c, isC = bo.Y.(*ssa.Const)
			}
			last = isC && bo.Op == token.SUB && c.Value.ExactString() == "1" && lenOf(bo.X) != nil && sc.fieldOf(lenOf(bo.X)) == "Snapshots"
			if !last {
				break
			}
		}
	}
	numbers := func(v ssa.Value, sc *scope) bool {
		c, ok := sc.root(v).(*ssa.Call)
		return ok && methodName(&c.Call) == "JournalLen"
	}
	good := last
	nTake := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if takes(in) {
				nTake++
			}
			if ret, ok := in.(*ssa.Return); ok {
				good = good && len(ret.Results) == 1 && numbers(ret.Results[0], nil)
			}
			if c, ok := in.(*ssa.Call); ok && methodName(&c.Call) == "JournalLen" {
				before := false
				for _, b2 := range fn.Blocks {
					for i, in2 := range b2.Instrs {
						if takes(in2) && (b2 != b && b2.Dominates(b) || b2 == b && i < indexInBlock(b, in)) {
							before = true
						}
					}
				}
				good = good && before
			}
		}
	}
	if good && nTake == 1 && always(fn, takes, nil) {
		r.ok("the number answered is that of the snapshot just taken")
	} else {
		r.violate("snapshot-number", p.pos(fn.Pos()), "%s does not answer the number of the snapshot it takes", fname(fn))
	}
}

func indexInBlock(b *ssa.BasicBlock, in ssa.Instruction) int {
	for i, x := range b.Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

func w01Clear(p *Prog, r *Result, fn *ssa.Function) {
	st := deref(fn.Params[0].Type()).Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		name := st.Field(i).Name()
		if name == "SelfShardID" || name == "BuiltinFuncs" {
			continue
		}
		resets := func(in ssa.Instruction, sc *scope) bool {
			switch x := in.(type) {
			case *ssa.Store:
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if ok && typeName(deref(fa.X.Type())) == "MockWorld" && fieldAddrName(fa) == name && sc.root(fa.X) == ssa.Value(fn.Params[0]) {
					return freshValue(p, sc.root(x.Val), sc)
				}
				// the whole world at once
				if sc.root(x.Addr) == ssa.Value(fn.Params[0]) {
					return true
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "clear" {
					return sc.fieldOf(x.Call.Args[0]) == name
				}
			}
			return false
		}
		if always(fn, deep(nil, resets), nil) {
			r.ok("parts of the world that are reset")
		} else {
			r.violate("not-cleared:"+name, p.pos(fn.Pos()), "clearing the world does not always reset its %s: it stays what it was", name)
		}
	}
}

// freshValue: nil, a constant, or something just made.
func freshValue(p *Prog, v ssa.Value, sc *scope) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeMap, *ssa.Alloc:
		return true
	case *ssa.MakeSlice:
		return isZero(x.Len)
	case *ssa.Slice:
		return noElems(x, sc)
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || pkgRel(g) != worldPkg {
			return false
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ret, ok := in.(*ssa.Return); ok {
					for _, v := range ret.Results {
						sub := sc.enter(x, g)
						if !freshValue(p, sub.root(v), sub) {
							return false
						}
					}
				}
			}
		}
		return true
	}
	return false
}

func sharedPaths(f *Flow, v *fval) string {
	var out []string
	for _, o := range f.Objs(v) {
		if o.path != "" {
			out = append(out, o.path)
		}
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

func pathIn(paths string, names ...string) bool {
	for _, x := range strings.Split(paths, ",") {
		for _, n := range names {
			if x == n {
				return true
			}
		}
	}
	return false
}

func cloneOf(v, of ssa.Value, sc *scope) bool {
	c, ok := sc.root(v).(*ssa.Call)
	return ok && methodName(&c.Call) == "Clone" && len(c.Call.Args) > 0 && sc.root(c.Call.Args[0]) == of
}

func isAlloc(v ssa.Value) bool {
	_, ok := v.(*ssa.Alloc)
	return ok
}
