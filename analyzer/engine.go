package main

// A path-sensitive, interprocedural typestate engine over SSA ("property simulation"): the abstract
// state is a client typestate plus what is known about nil-ness, booleans and small constants of the
// registers and local cells that are live. Calls are analysed by summaries (callee, abstract arguments,
// in-state) -> exits, computed to a fixpoint, so that a guard keeps its meaning when it is moved into a
// helper and recursion terminates. Nothing is executed and no path condition is given to a solver.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type VK uint8

const (
	VSym VK = iota // unknown value, identified by where it comes from
	VNil
	VNonNil
	VTrue
	VFalse
	VInt
	VPtr // address of a local cell or a global
	VFn
	VClos
	VTag // client constant, string constants included ("s:...")
)

// Val is an abstract value.
type Val struct {
	K VK
	N int64
	S ssa.Value
	T string
}

func vbool(b bool) Val {
	if b {
		return Val{K: VTrue}
	}
	return Val{K: VFalse}
}

func vint(n int64) Val  { return Val{K: VInt, N: n} }
func vtag(s string) Val { return Val{K: VTag, T: s} }

type regKey struct {
	v ssa.Value
	i int
}

type deferRec struct {
	instr *ssa.Defer
	fn    Val
	args  []Val
}

// State is an abstract state at a program point.
type State struct {
	C      string
	env    map[regKey]Val
	cells  map[ssa.Value]Val
	facts  map[Val]Val
	defers []deferRec
	// panics (only when the client injects them): panicking = the current instruction panicked; pend = a
	// deferred function runs because of a panic that was not recovered yet; passPend = the call about to be
	// made is such a deferred function itself.
	panicking, pend, passPend bool
}

func (s *State) clone() *State {
	n := &State{C: s.C, env: make(map[regKey]Val, len(s.env)), cells: make(map[ssa.Value]Val, len(s.cells)), facts: make(map[Val]Val, len(s.facts)), defers: s.defers, panicking: s.panicking, pend: s.pend, passPend: s.passPend}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	return n
}

// Exit is a way a function can return.
type Exit struct {
	C     string
	cells map[ssa.Value]Val
	facts map[Val]Val
	Res   []Val
	Panic bool // left by an unrecovered panic
	pend  bool
}

// Outcome is a possible result of an event call.
type Outcome struct {
	C     string
	Res   []Val
	Panic bool
}

// CallCtx is what a client sees at a call.
type CallCtx struct {
	E     *Engine
	Fn    *ssa.Function // the function containing the call
	Instr ssa.Instruction
	Com   *ssa.CallCommon
	Name  string // short callee name (interface methods by their interface)
	Impl  []*ssa.Function
	Args  []Val // receiver first for methods
	St    *State
}

// Engine explores a program for one client.
type Engine struct {
	P *Prog
	// Args gives known values for parameters of the function that is run.
	Args []Val
	// Event handles a call: (nil,false) = not an event.
	Event func(c *CallCtx) ([]Outcome, bool)
	// IsEvent tells, without state, whether a call may be an event (for relevance).
	IsEvent func(com *ssa.CallCommon, name string) bool
	// IsRelevantInstr marks other instructions that matter to the client.
	IsRelevantInstr func(in ssa.Instruction) bool
	// Instr sees every other instruction and may change the client state.
	Instr func(e *Engine, fn *ssa.Function, in ssa.Instruction, st *State)
	// Branch may refine the client state when a condition is decided; returning false drops the path.
	Branch func(e *Engine, fn *ssa.Function, cond ssa.Value, truth bool, st *State) bool
	// Enter and Leave frame an inlined call, so that summaries can be relative.
	Enter func(callee *ssa.Function, c string) string
	Leave func(callee *ssa.Function, before, after string) string
	// FieldLoad gives the value of a field of an object known by a tag.
	FieldLoad func(st *State, base Val, field string) (Val, bool)
	// Load gives the value of a load from memory.
	Load func(st *State, x *ssa.UnOp) (Val, bool)
	// NextVal gives what the next step of an iteration yields (whether there is one, key, value).
	NextVal func(st *State, x *ssa.Next) ([]Val, bool)
	// Lookup gives the value found in a map.
	Lookup func(st *State, x *ssa.Lookup) (Val, bool)
	// Convert may give the value of a conversion between types.
	Convert func(x *ssa.Convert, v Val) Val
	// LookupOk tells whether there was one.
	LookupOk func(st *State, x *ssa.Lookup) Val
	// Addr gives the value of the address of a field.
	Addr func(st *State, x *ssa.FieldAddr) (Val, bool)
	// Made gives the value of a slice expression or of something made here.
	Made func(st *State, v ssa.Value) (Val, bool)
	// SliceOf gives the value of a part of a value known by a tag.
	SliceOf func(v Val) (Val, bool)
	// BinOp may give the value of an operation on client values.
	BinOp func(op token.Token, a, b Val) (Val, bool)
	// KeepPtr keeps the identity of a pointer through its conversion to an interface.
	KeepPtr bool
	// Force inlines a function that is not relevant by itself; Skip never inlines it.
	Force func(fn *ssa.Function) bool
	Skip  func(fn *ssa.Function) bool
	// OnReturn sees every exit of every analysed function.
	OnReturn func(e *Engine, fn *ssa.Function, in ssa.Instruction, st *State, res []Val)

	relevant map[*ssa.Function]bool
	live     map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	memo     map[string]*summary
	clos     []closRec
	closIdx  map[string]int64
	ids      map[ssa.Value]int
	changed  bool
	Overflow []string
	Funcs    map[*ssa.Function]bool
	Steps    int
	MaxState int
	Panics   bool // panics injected by Event outcomes, and panic statements, are followed
	stackN   int
}

type closRec struct {
	fn   *ssa.Function
	bind []Val
}

type summary struct {
	exits    map[string]*Exit
	order    []string
	running  bool
	round    int
	complete bool
	touched  bool
}

func newEngine(p *Prog) *Engine {
	return &Engine{P: p, memo: map[string]*summary{}, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, closIdx: map[string]int64{}, ids: map[ssa.Value]int{}, Funcs: map[*ssa.Function]bool{}, MaxState: 4000}
}

func (e *Engine) id(v ssa.Value) int {
	if n, ok := e.ids[v]; ok {
		return n
	}
	n := len(e.ids) + 1
	e.ids[v] = n
	return n
}

func (e *Engine) vs(v Val) string {
	s := strconv.Itoa(int(v.K))
	if v.N != 0 {
		s += "n" + strconv.FormatInt(v.N, 10)
	}
	if v.S != nil {
		s += "v" + strconv.Itoa(e.id(v.S))
	}
	if v.T != "" {
		s += "t" + v.T
	}
	return s
}

func (e *Engine) stateKey(s *State) string {
	var parts []string
	for k, v := range s.env {
		parts = append(parts, "r"+strconv.Itoa(e.id(k.v))+"."+strconv.Itoa(k.i)+"="+e.vs(v))
	}
	parts = append(parts, e.memKey(s.cells, s.facts)...)
	sort.Strings(parts)
	d := ""
	for _, r := range s.defers {
		d += "d" + strconv.Itoa(int(r.instr.Pos())) + e.vs(r.fn)
		for _, a := range r.args {
			d += "," + e.vs(a)
		}
	}
	if s.pend {
		d += "P"
	}
	return s.C + "|" + strings.Join(parts, ";") + "|" + d
}

func (e *Engine) memKey(cells map[ssa.Value]Val, facts map[Val]Val) []string {
	var parts []string
	for k, v := range cells {
		parts = append(parts, "c"+strconv.Itoa(e.id(k))+"="+e.vs(v))
	}
	for k, v := range facts {
		parts = append(parts, "f"+e.vs(k)+"="+e.vs(v))
	}
	return parts
}

// ---- relevance

func (e *Engine) computeRelevance() {
	if e.relevant != nil {
		return
	}
	e.relevant = map[*ssa.Function]bool{}
	callers := map[*ssa.Function][]*ssa.Function{}
	var work []*ssa.Function
	mark := func(f *ssa.Function) {
		if !e.relevant[f] {
			e.relevant[f] = true
			work = append(work, f)
		}
	}
	for _, f := range e.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if e.IsRelevantInstr != nil && e.IsRelevantInstr(in) {
					mark(f)
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					callers[g] = append(callers[g], f)
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok && g.Blocks != nil {
						callers[g] = append(callers[g], f)
					}
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := ci.Common()
				if e.IsEvent != nil && e.IsEvent(com, calleeName(com)) {
					mark(f)
				}
				for _, g := range e.P.resolve(com) {
					callers[g] = append(callers[g], f)
				}
			}
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if e.Skip != nil && e.Skip(f) {
			continue
		}
		for _, c := range callers[f] {
			mark(c)
		}
	}
}

func (e *Engine) inlineable(f *ssa.Function) bool {
	if f == nil || f.Blocks == nil || f.Pkg == nil && f.Parent() == nil {
		return false
	}
	if f.Synthetic != "" && f.Parent() == nil {
		return false
	}
	root := f
	for root.Parent() != nil {
		root = root.Parent()
	}
	if root.Pkg == nil || !isModPath(root.Pkg.Pkg.Path()) {
		return false
	}
	if e.Skip != nil && e.Skip(f) {
		return false
	}
	if e.relevant[f] || len(f.FreeVars) > 0 {
		return true // a closure may change what it captured
	}
	return e.Force != nil && e.Force(f)
}

// ---- liveness

func (e *Engine) liveIn(f *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l, ok := e.live[f]; ok {
		return l
	}
	l := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		l[b] = map[ssa.Value]bool{}
	}
	changed := true
	for changed {
		changed = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range l[s] {
					cur[v] = true
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(cur, ph)
				}
				idx := -1
				for k, p := range s.Preds {
					if p == b {
						idx = k
					}
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if idx >= 0 {
						cur[ph.Edges[idx]] = true
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				for _, op := range in.Operands(nil) {
					if op != nil && *op != nil {
						cur[*op] = true
					}
				}
			}
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				cur[ph] = true // evaluated on the edge
			}
			for v := range cur {
				if !l[b][v] {
					l[b][v] = true
					changed = true
				}
			}
		}
	}
	e.live[f] = l
	return l
}

// ---- evaluation

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		switch c.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			return Val{K: VSym, S: c}
		case *types.Basic:
			return vint(0)
		}
		return Val{K: VNil}
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return vbool(constant.BoolVal(c.Value))
	case constant.Int:
		if n, ok := constant.Int64Val(c.Value); ok {
			return vint(n)
		}
		return vtag("i:" + c.Value.ExactString())
	case constant.String:
		return vtag("s:" + constant.StringVal(c.Value))
	}
	return Val{K: VSym, S: c}
}

// Eval gives the abstract value of a register in a state.
func (e *Engine) Eval(st *State, v ssa.Value) Val {
	var r Val
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Function:
		return Val{K: VFn, S: x}
	case *ssa.Global:
		return Val{K: VPtr, S: x}
	case *ssa.Builtin:
		return Val{K: VSym, S: x}
	}
	if w, ok := st.env[regKey{v, 0}]; ok {
		r = w
	} else if al, ok := v.(*ssa.Alloc); ok {
		r = Val{K: VPtr, S: al}
	} else {
		r = Val{K: VSym, S: v}
	}
	if r.K == VSym {
		if f, ok := st.facts[r]; ok {
			return f
		}
	}
	return r
}

// raw is Eval without the facts.
func (e *Engine) raw(st *State, v ssa.Value) Val {
	if w, ok := st.env[regKey{v, 0}]; ok {
		return w
	}
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Alloc:
		return e.Eval(st, v)
	}
	return Val{K: VSym, S: v}
}

func (v Val) isNil() (bool, bool) {
	switch v.K {
	case VNil:
		return true, true
	case VNonNil, VPtr, VFn, VClos:
		return false, true
	case VTag:
		if strings.HasPrefix(v.T, "err:") || strings.HasPrefix(v.T, "fn:") {
			return false, true
		}
	}
	return false, false
}

func (e *Engine) set(st *State, v ssa.Value, x Val) {
	if x.K == VSym && x.S == v {
		delete(st.env, regKey{v, 0})
		return
	}
	st.env[regKey{v, 0}] = x
}

// fresh makes v a new unknown: what was known about an earlier value of the same register is forgotten.
func (e *Engine) fresh(st *State, v ssa.Value) {
	delete(st.env, regKey{v, 0})
	delete(st.facts, Val{K: VSym, S: v})
}

func zeroOf(t types.Type) (Val, bool) {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return Val{K: VNil}, true
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return vbool(false), true
		}
		if u.Info()&types.IsInteger != 0 {
			return vint(0), true
		}
		if u.Info()&types.IsString != 0 {
			return vtag("s:"), true
		}
	}
	return Val{}, false
}

func binop(op token.Token, a, b Val) (Val, bool) {
	if op == token.EQL || op == token.NEQ {
		eq, known := false, false
		if an, ok := a.isNil(); ok {
			if bn, ok2 := b.isNil(); ok2 && (an || bn) {
				eq, known = an == bn, true
			}
		}
		if !known {
			bothConst := func(k VK) bool { return a.K == k && b.K == k }
			switch {
			case bothConst(VInt):
				eq, known = a.N == b.N, true
			case bothConst(VTag) && strings.HasPrefix(a.T, "s:") && strings.HasPrefix(b.T, "s:"):
				eq, known = a.T == b.T, true
			case bothConst(VTag) && strings.HasPrefix(a.T, "err:") && strings.HasPrefix(b.T, "err:"):
				eq, known = a.T == b.T, true
			case bothConst(VTag) && a.T == b.T:
				eq, known = true, true
			case (a.K == VTrue || a.K == VFalse) && (b.K == VTrue || b.K == VFalse):
				eq, known = a.K == b.K, true
			case a.K == VSym && a == b:
				eq, known = true, true
			}
		}
		if !known {
			return Val{}, false
		}
		return vbool(eq == (op == token.EQL)), true
	}
	if a.K == VInt && b.K == VInt {
		switch op {
		case token.LSS:
			return vbool(a.N < b.N), true
		case token.LEQ:
			return vbool(a.N <= b.N), true
		case token.GTR:
			return vbool(a.N > b.N), true
		case token.GEQ:
			return vbool(a.N >= b.N), true
		}
	}
	return Val{}, false
}

// ---- exploration

type work struct {
	b    *ssa.BasicBlock
	pred *ssa.BasicBlock
	st   *State
}

// Run analyses a root function with unknown arguments from the client state c.
func (e *Engine) Run(fn *ssa.Function, c string) []*Exit {
	e.computeRelevance()
	var args []Val
	for i, p := range fn.Params {
		if i < len(e.Args) && e.Args[i].K != VSym {
			args = append(args, e.Args[i])
			continue
		}
		args = append(args, Val{K: VSym, S: p})
	}
	var binds []Val
	for _, fv := range fn.FreeVars {
		binds = append(binds, Val{K: VSym, S: fv})
	}
	st := &State{C: c, env: map[regKey]Val{}, cells: map[ssa.Value]Val{}, facts: map[Val]Val{}}
	var out []*Exit
	for i := 0; i < 60; i++ {
		e.changed = false
		for _, s := range e.memo {
			s.touched = false
		}
		out = e.call(fn, args, binds, st)
		if !e.changed {
			return out
		}
	}
	e.Overflow = append(e.Overflow, fname(fn)+": no fixpoint")
	return out
}

func (e *Engine) call(fn *ssa.Function, args, binds []Val, st *State) []*Exit {
	key := strconv.Itoa(e.id(fn)) + "("
	for _, a := range args {
		key += e.vs(a) + ","
	}
	key += ")["
	for _, b := range binds {
		key += e.vs(b) + ","
	}
	mk := e.memKey(st.cells, st.facts)
	sort.Strings(mk)
	key += "]" + st.C + "|" + strings.Join(mk, ";")
	if st.pend {
		key += "P"
	}
	s := e.memo[key]
	if s == nil {
		s = &summary{exits: map[string]*Exit{}}
		e.memo[key] = s
	}
	if !s.running && !s.touched && e.stackN < 200 {
		s.running = true
		s.touched = true
		e.stackN++
		e.explore(fn, args, binds, st, s)
		e.stackN--
		s.running = false
	}
	var out []*Exit
	for _, k := range s.order {
		out = append(out, s.exits[k])
	}
	return out
}

func (e *Engine) addExit(s *summary, x *Exit) {
	parts := e.memKey(x.cells, x.facts)
	sort.Strings(parts)
	k := x.C + "|" + strings.Join(parts, ";") + "|"
	for _, r := range x.Res {
		k += e.vs(r) + ","
	}
	if x.Panic {
		k += "!"
	}
	if x.pend {
		k += "P"
	}
	if _, ok := s.exits[k]; !ok {
		s.exits[k] = x
		s.order = append(s.order, k)
		e.changed = true
	}
}

func (e *Engine) explore(fn *ssa.Function, args, binds []Val, in *State, sum *summary) {
	e.Funcs[fn] = true
	live := e.liveIn(fn)
	st := in.clone()
	st.env = map[regKey]Val{}
	st.defers = nil
	for i, p := range fn.Params {
		if i < len(args) {
			e.set(st, p, args[i])
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			e.set(st, fv, binds[i])
		}
	}
	seen := map[string]bool{}
	list := []work{{fn.Blocks[0], nil, st}}
	nstates := 0
	widened := map[*ssa.BasicBlock]int{}
	for len(list) > 0 {
		w := list[len(list)-1]
		list = list[:len(list)-1]
		st := w.st
		// phis
		if w.pred != nil {
			idx := 0
			for k, p := range w.b.Preds {
				if p == w.pred {
					idx = k
				}
			}
			var phis []*ssa.Phi
			var vals []Val
			for _, in := range w.b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				phis = append(phis, ph)
				vals = append(vals, e.raw(st, ph.Edges[idx]))
			}
			for i, ph := range phis {
				if vals[i].K == VSym && vals[i].S == ph {
					continue
				}
				delete(st.facts, Val{K: VSym, S: ph})
				e.set(st, ph, vals[i])
			}
		}
		e.prune(fn, st, live[w.b])
		widened[w.b]++
		if widened[w.b] > e.MaxState/8 {
			// too many states here: forget what is known about values, keep the typestate
			for k := range st.env {
				if k.v.Parent() == fn {
					if _, isParam := k.v.(*ssa.Parameter); !isParam {
						if _, isFV := k.v.(*ssa.FreeVar); !isFV {
							delete(st.env, k)
						}
					}
				}
			}
			st.facts = map[Val]Val{}
			for k := range st.cells {
				if _, ok := k.(*ssa.Alloc); ok {
					delete(st.cells, k)
				}
			}
		}
		key := strconv.Itoa(w.b.Index) + "#" + e.stateKey(st)
		if seen[key] {
			continue
		}
		seen[key] = true
		nstates++
		if nstates > e.MaxState {
			e.Overflow = append(e.Overflow, fname(fn)+": too many states")
			return
		}
		states := []*State{st}
		for _, in := range w.b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			var next []*State
			for _, s := range states {
				e.Steps++
				switch x := in.(type) {
				case *ssa.If:
					e.branch(fn, w.b, x, s, &list)
				case *ssa.Jump:
					list = append(list, work{w.b.Succs[0], w.b, s})
				case *ssa.Return:
					var res []Val
					for _, r := range x.Results {
						res = append(res, e.Eval(s, r))
					}
					if e.OnReturn != nil {
						e.OnReturn(e, fn, x, s, res)
					}
					e.exit(fn, s, res, sum)
				case *ssa.Panic:
					// not a return
					if e.Panics {
						s.panicking = true
						e.unwind(fn, s, sum, &list)
					}
				default:
					for _, n := range e.step(fn, in, s) {
						if n.panicking {
							e.unwind(fn, n, sum, &list)
							continue
						}
						next = append(next, n)
					}
				}
			}
			states = next
			if len(states) > e.MaxState {
				e.Overflow = append(e.Overflow, fname(fn)+": too many states in a block")
				return
			}
		}
	}
}

// unwind runs the deferred calls of a panicking function; it returns normally if one of them recovers.
func (e *Engine) unwind(fn *ssa.Function, s *State, sum *summary, list *[]work) {
	s.panicking = false
	s.pend = true
	for _, n := range e.runDefers(fn, s) {
		if n.pend {
			e.addExit(sum, &Exit{C: n.C, cells: e.outerCells(fn, n), facts: map[Val]Val{}, Panic: true})
			continue
		}
		if fn.Recover != nil {
			*list = append(*list, work{fn.Recover, nil, n})
			continue
		}
		var res []Val
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			z, _ := zeroOf(fn.Signature.Results().At(i).Type())
			res = append(res, z)
		}
		e.exit(fn, n, res, sum)
	}
}

func (e *Engine) outerCells(fn *ssa.Function, s *State) map[ssa.Value]Val {
	out := map[ssa.Value]Val{}
	for k, v := range s.cells {
		if in, ok := k.(ssa.Instruction); ok && in.Parent() == fn {
			continue
		}
		out[k] = v
	}
	return out
}

func (e *Engine) runDefers(fn *ssa.Function, st *State) []*State {
	states := []*State{st}
	for {
		var next []*State
		progress := false
		for _, s := range states {
			if len(s.defers) == 0 {
				next = append(next, s)
				continue
			}
			progress = true
			d := s.defers[len(s.defers)-1]
			s.defers = s.defers[:len(s.defers)-1]
			s.passPend = true
			for _, n := range e.doCall(fn, d.instr, d.instr.Common(), nil, s, &d.fn, d.args) {
				n.passPend = false
				if n.panicking {
					n.panicking = false
					n.pend = true
				}
				next = append(next, n)
			}
		}
		states = next
		if !progress {
			return states
		}
	}
}

func (e *Engine) exit(fn *ssa.Function, s *State, res []Val, sum *summary) {
	// an unknown made inside is just an unknown to the caller
	if e.stackN > 1 {
		for i, r := range res {
			if r.K == VSym && r.S != nil && r.S.Parent() == fn {
				res[i] = Val{}
			}
		}
	}
	x := &Exit{C: s.C, cells: map[ssa.Value]Val{}, facts: map[Val]Val{}, Res: res, pend: s.pend}
	for k, v := range s.cells {
		if in, ok := k.(ssa.Instruction); ok && in.Parent() == fn {
			continue
		}
		x.cells[k] = v
	}
	for k, v := range s.facts {
		if k.S != nil && k.S.Parent() == fn {
			used := false
			for _, r := range res {
				if r == k {
					used = true
				}
			}
			for _, c := range x.cells {
				if c == k {
					used = true
				}
			}
			if !used {
				continue
			}
		}
		x.facts[k] = v
	}
	e.addExit(sum, x)
}

func (e *Engine) prune(fn *ssa.Function, st *State, live map[ssa.Value]bool) {
	for k := range st.env {
		if k.v.Parent() == fn && !live[k.v] {
			delete(st.env, k)
		}
	}
	refs := map[Val]bool{}
	for _, v := range st.env {
		refs[v] = true
	}
	for _, v := range st.cells {
		refs[v] = true
	}
	for _, d := range st.defers {
		for _, a := range d.args {
			refs[a] = true
		}
	}
	for k := range st.facts {
		if k.S == nil || k.S.Parent() != fn {
			continue
		}
		if !live[k.S] && !refs[k] {
			delete(st.facts, k)
		}
	}
}

func (e *Engine) branch(fn *ssa.Function, b *ssa.BasicBlock, x *ssa.If, s *State, list *[]work) {
	v := e.Eval(s, x.Cond)
	for i, truth := range []bool{true, false} {
		if v.K == VTrue && !truth || v.K == VFalse && truth {
			continue
		}
		n := s.clone()
		e.refine(n, x.Cond, truth)
		if e.Branch != nil && !e.Branch(e, fn, x.Cond, truth, n) {
			continue
		}
		*list = append(*list, work{b.Succs[i], b, n})
	}
}

func (e *Engine) learn(st *State, v ssa.Value, x Val) {
	r := e.raw(st, v)
	if r.K == VSym {
		st.facts[r] = x
	}
}

func (e *Engine) refine(st *State, cond ssa.Value, truth bool) {
	e.learn(st, cond, vbool(truth))
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			e.refine(st, x.X, !truth)
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return
		}
		eq := (x.Op == token.EQL) == truth
		a, b := e.Eval(st, x.X), e.Eval(st, x.Y)
		set := func(v ssa.Value, k Val) {
			switch k.K {
			case VNil:
				if eq {
					e.learn(st, v, Val{K: VNil})
				} else {
					e.learn(st, v, Val{K: VNonNil})
				}
			case VTrue, VFalse:
				e.refineBool(st, v, (k.K == VTrue) == eq)
			case VInt, VTag:
				if eq {
					e.learn(st, v, k)
				}
			}
		}
		if a.K == VSym {
			set(x.X, b)
		}
		if b.K == VSym {
			set(x.Y, a)
		}
	}
}

func (e *Engine) refineBool(st *State, v ssa.Value, truth bool) { e.refine(st, v, truth) }

var nonNilMakers = map[string]bool{"errors.New": true, "fmt.Errorf": true, "arwen.WrapError": true}

func (e *Engine) step(fn *ssa.Function, in ssa.Instruction, st *State) []*State {
	if e.Instr != nil {
		e.Instr(e, fn, in, st)
	}
	one := []*State{st}
	switch x := in.(type) {
	case *ssa.Alloc:
		e.fresh(st, x)
		if z, ok := zeroOf(deref(x.Type())); ok {
			st.cells[x] = z
		} else {
			delete(st.cells, x)
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a := e.Eval(st, x.X)
			if e.Load != nil {
				if v, ok := e.Load(st, x); ok {
					e.set(st, x, v)
					return one
				}
			}
			if a.K == VTag && strings.HasPrefix(a.T, "fld|") && e.FieldLoad != nil {
				p := strings.SplitN(a.T, "|", 3)
				if v, ok := e.FieldLoad(st, vtag(p[2]), p[1]); ok {
					e.set(st, x, v)
					return one
				}
			}
			if a.K == VPtr {
				if g, ok := a.S.(*ssa.Global); ok {
					if isErrorType(deref(g.Type())) {
						e.set(st, x, Val{K: VNonNil})
					} else {
						e.fresh(st, x)
					}
					return one
				}
				if c, ok := st.cells[a.S]; ok {
					e.fresh(st, x)
					e.set(st, x, c)
					return one
				}
				if _, isStruct := deref(a.S.Type()).Underlying().(*types.Struct); !isStruct {
					e.fresh(st, x)
					st.cells[a.S] = Val{K: VSym, S: x}
					return one
				}
			}
			e.fresh(st, x)
		case token.NOT:
			a := e.Eval(st, x.X)
			switch a.K {
			case VTrue:
				e.set(st, x, vbool(false))
			case VFalse:
				e.set(st, x, vbool(true))
			default:
				e.fresh(st, x)
			}
		case token.SUB:
			a := e.Eval(st, x.X)
			if a.K == VInt {
				e.set(st, x, vint(-a.N))
			} else {
				e.fresh(st, x)
			}
		default:
			e.fresh(st, x)
		}
	case *ssa.Next:
		e.fresh(st, x)
		if e.NextVal != nil {
			if vs, ok := e.NextVal(st, x); ok {
				e.setResults(st, x, vs)
			}
		}
	case *ssa.Lookup:
		e.fresh(st, x)
		if e.Lookup != nil {
			if v, ok := e.Lookup(st, x); ok {
				if x.CommaOk {
					found := Val{}
					if e.LookupOk != nil {
						found = e.LookupOk(st, x)
					}
					e.setResults(st, x, []Val{v, found})
				} else {
					e.set(st, x, v)
				}
			}
		}
	case *ssa.FieldAddr:
		a := e.Eval(st, x.X)
		e.fresh(st, x)
		if e.Addr != nil {
			if v, ok := e.Addr(st, x); ok {
				e.set(st, x, v)
				return one
			}
		}
		if a.K == VPtr {
			if c, ok := st.cells[a.S]; ok && c.K == VTag {
				a = c
			}
		}
		if a.K == VTag && e.FieldLoad != nil {
			e.set(st, x, vtag("fld|"+fieldName(x.X.Type(), x.Field)+"|"+a.T))
		}
	case *ssa.Field:
		a := e.Eval(st, x.X)
		e.fresh(st, x)
		if a.K == VTag && e.FieldLoad != nil {
			if v, ok := e.FieldLoad(st, a, fieldName(x.X.Type(), x.Field)); ok {
				e.set(st, x, v)
			}
		}
	case *ssa.Store:
		a := e.Eval(st, x.Addr)
		if a.K == VPtr {
			if _, ok := a.S.(*ssa.Global); !ok {
				st.cells[a.S] = e.raw(st, x.Val)
				if st.cells[a.S].K == VSym {
					// keep identity; facts about it stay in st.facts
				}
			}
		}
	case *ssa.BinOp:
		if e.BinOp != nil {
			if r, ok := e.BinOp(x.Op, e.Eval(st, x.X), e.Eval(st, x.Y)); ok {
				e.set(st, x, r)
				return one
			}
		}
		if r, ok := binop(x.Op, e.Eval(st, x.X), e.Eval(st, x.Y)); ok {
			e.set(st, x, r)
		} else {
			e.fresh(st, x)
		}
	case *ssa.MakeInterface:
		v := e.raw(st, x.X)
		if v.K == VTag {
			e.set(st, x, v)
		} else if v.K == VSym {
			if isErrorType(x.Type()) {
				e.set(st, x, Val{K: VNonNil})
			} else {
				e.set(st, x, v)
			}
		} else if e.KeepPtr && v.K == VPtr {
			e.set(st, x, v)
		} else {
			e.set(st, x, Val{K: VNonNil})
		}
	case *ssa.ChangeInterface:
		e.set(st, x, e.raw(st, x.X))
	case *ssa.ChangeType:
		e.set(st, x, e.raw(st, x.X))
	case *ssa.Convert:
		w := e.raw(st, x.X)
		if e.Convert != nil {
			w = e.Convert(x, w)
		}
		e.set(st, x, w)
	case *ssa.MakeClosure:
		var b []Val
		k := strconv.Itoa(e.id(x.Fn.(*ssa.Function)))
		for _, v := range x.Bindings {
			w := e.raw(st, v)
			b = append(b, w)
			k += "," + e.vs(w)
		}
		n, ok := e.closIdx[k]
		if !ok {
			n = int64(len(e.clos))
			e.clos = append(e.clos, closRec{x.Fn.(*ssa.Function), b})
			e.closIdx[k] = n
		}
		e.set(st, x, Val{K: VClos, N: n})
	case *ssa.Extract:
		if w, ok := st.env[regKey{x.Tuple, x.Index + 1}]; ok {
			e.fresh(st, x)
			e.set(st, x, w)
		} else {
			e.fresh(st, x)
		}
	case *ssa.TypeAssert:
		v := e.raw(st, x.X)
		if _, toIface := x.AssertedType.Underlying().(*types.Interface); !x.CommaOk {
			e.fresh(st, x)
			if toIface {
				e.set(st, x, Val{K: VNonNil})
			}
			return one
		} else if toIface && v.K != VTag {
			no := st.clone()
			e.setResults(no, x, []Val{{K: VNil}, vbool(false)})
			if e.Eval(st, x.X).K == VNil {
				return []*State{no}
			}
			e.setResults(st, x, []Val{{K: VNonNil}, vbool(true)})
			return []*State{st, no}
		}
		e.fresh(st, x)
		e.setResults(st, x, nil)
	case *ssa.Slice, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		if e.Made != nil {
			if v, ok := e.Made(st, in.(ssa.Value)); ok {
				e.set(st, in.(ssa.Value), v)
				return one
			}
		}
		var part Val
		if sl, ok := in.(*ssa.Slice); ok && e.SliceOf != nil {
			if v := e.Eval(st, sl.X); v.K == VTag {
				part, _ = e.SliceOf(v)
			}
		}
		e.fresh(st, in.(ssa.Value))
		if part.K == VTag {
			e.set(st, in.(ssa.Value), part)
			return one
		}
		switch in.(type) {
		case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
			e.set(st, in.(ssa.Value), Val{K: VNonNil})
		}
	case *ssa.Call:
		return e.doCall(fn, x, x.Common(), x, st, nil, nil)
	case *ssa.Defer:
		com := x.Common()
		var args []Val
		if com.IsInvoke() {
			args = append(args, e.raw(st, com.Value))
		}
		for _, a := range com.Args {
			args = append(args, e.raw(st, a))
		}
		fv := Val{}
		if !com.IsInvoke() {
			fv = e.raw(st, com.Value)
		}
		st.defers = append(append([]deferRec{}, st.defers...), deferRec{x, fv, args})
	case *ssa.RunDefers:
		states := e.runDefers(fn, st)
		for _, n := range states {
			if n.pend && e.Panics && !st.pend {
				// a deferred function panicked on the way out: the rest is gone already
				n.panicking = true
			}
		}
		return states
	default:
		if v, ok := in.(ssa.Value); ok {
			e.fresh(st, v)
		}
	}
	return one
}

func (e *Engine) setResults(st *State, v ssa.Value, res []Val) {
	if v == nil {
		return
	}
	e.fresh(st, v)
	for i := range 8 {
		delete(st.env, regKey{v, i + 1})
	}
	if tup, ok := v.Type().(*types.Tuple); ok {
		for i := 0; i < tup.Len() && i < len(res); i++ {
			if res[i] != (Val{}) {
				st.env[regKey{v, i + 1}] = res[i]
			}
		}
		return
	}
	if len(res) > 0 && res[0] != (Val{}) {
		e.set(st, v, res[0])
	}
}

func (e *Engine) doCall(fn *ssa.Function, in ssa.Instruction, com *ssa.CallCommon, v ssa.Value, st *State, fnVal *Val, args []Val) []*State {
	if args == nil {
		if com.IsInvoke() {
			args = append(args, e.raw(st, com.Value))
		}
		for _, a := range com.Args {
			args = append(args, e.raw(st, a))
		}
	}
	name := calleeName(com)
	if name == "builtin.recover" && e.Panics {
		if st.pend {
			st.pend = false
			e.setResults(st, v, []Val{{K: VNonNil}})
		} else {
			e.setResults(st, v, []Val{{K: VNil}})
		}
		return []*State{st}
	}
	targets := e.P.resolve(com)
	var binds []Val
	if len(targets) == 0 || !com.IsInvoke() && com.StaticCallee() != nil && com.StaticCallee().Parent() != nil {
		var f Val
		if fnVal != nil {
			f = *fnVal
		} else if !com.IsInvoke() {
			f = e.raw(st, com.Value)
		}
		switch f.K {
		case VClos:
			c := e.clos[f.N]
			targets = []*ssa.Function{c.fn}
			binds = c.bind
			if w := boundTarget(c.fn); w != nil {
				targets = []*ssa.Function{w}
				args = append(append([]Val{}, c.bind...), args...)
				binds = nil
			}
		case VFn:
			targets = []*ssa.Function{f.S.(*ssa.Function)}
		}
		if len(targets) == 1 {
			if o, ok := targets[0].Object().(*types.Func); ok && name == "" {
				name = oname(o)
			}
		}
	}
	if e.Event != nil {
		ctx := &CallCtx{E: e, Fn: fn, Instr: in, Com: com, Name: name, Impl: targets, Args: args, St: st}
		if outs, ok := e.Event(ctx); ok {
			var states []*State
			for _, o := range outs {
				n := st.clone()
				n.C = o.C
				n.panicking = o.Panic
				e.setResults(n, v, o.Res)
				states = append(states, n)
			}
			return states
		}
	}
	var inl []*ssa.Function
	for _, t := range targets {
		if e.inlineable(t) {
			inl = append(inl, t)
		}
	}
	if len(inl) == 0 {
		if v != nil {
			e.setResults(st, v, nil)
			if nonNilMakers[name] {
				e.set(st, v, Val{K: VNonNil})
			}
		}
		// a closure given to code that is not analysed may be called by it, once
		states := []*State{st}
		for _, a := range args {
			if a.K != VClos {
				continue
			}
			c := e.clos[a.N]
			if !e.inlineable(c.fn) {
				continue
			}
			var next []*State
			for _, s := range states {
				next = append(next, s.clone())
				next = append(next, e.inline(fn, c.fn, nil, c.bind, s, nil)...)
			}
			states = next
		}
		return states
	}
	var states []*State
	for _, t := range inl {
		states = append(states, e.inline(fn, t, args, binds, st, v)...)
	}
	return states
}

// boundTarget recognises the wrapper of a method value (x.M), whose single free variable is the receiver.
func boundTarget(f *ssa.Function) *ssa.Function {
	if f.Synthetic == "" || !strings.HasPrefix(f.Synthetic, "bound method wrapper") {
		return nil
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				return c.Call.StaticCallee()
			}
		}
	}
	return nil
}

func (e *Engine) inline(fn, t *ssa.Function, args, binds []Val, st *State, v ssa.Value) []*State {
	in := st.clone()
	in.env = nil
	// facts that concern neither the arguments nor the cells cannot matter inside
	keep := map[Val]bool{}
	for _, a := range args {
		keep[a] = true
	}
	for _, b := range binds {
		keep[b] = true
	}
	for _, c := range in.cells {
		keep[c] = true
	}
	facts := map[Val]Val{}
	for k, f := range in.facts {
		if keep[k] {
			facts[k] = f
		}
	}
	in.facts = facts
	// cells that the callee cannot reach stay in the caller
	reach := e.reachCells(in, append(append([]Val{}, args...), binds...))
	held := map[ssa.Value]Val{}
	for k, c := range in.cells {
		if !reach[k] {
			held[k] = c
			delete(in.cells, k)
		}
	}
	if !st.passPend {
		in.pend = false
	}
	in.passPend = false
	before := in.C
	if e.Enter != nil {
		in.C = e.Enter(t, in.C)
	}
	var states []*State
	for _, x := range e.call(t, args, binds, in) {
		n := st.clone()
		n.C = x.C
		if e.Leave != nil {
			n.C = e.Leave(t, before, x.C)
		}
		n.cells = map[ssa.Value]Val{}
		for k, c := range held {
			n.cells[k] = c
		}
		for k, c := range x.cells {
			n.cells[k] = c
		}
		for k, f := range x.facts {
			n.facts[k] = f
		}
		n.panicking = x.Panic
		if st.passPend {
			n.pend = x.pend
		}
		e.setResults(n, v, x.Res)
		states = append(states, n)
	}
	return states
}

func (e *Engine) reachCells(st *State, roots []Val) map[ssa.Value]bool {
	seen := map[ssa.Value]bool{}
	var visit func(v Val)
	visit = func(v Val) {
		switch v.K {
		case VPtr:
			if seen[v.S] {
				return
			}
			seen[v.S] = true
			if c, ok := st.cells[v.S]; ok {
				visit(c)
			}
		case VClos:
			for _, b := range e.clos[v.N].bind {
				visit(b)
			}
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return seen
}

// ---- client state helpers: a canonical key=value string

func kvGet(c, k string) string {
	for _, p := range strings.Split(c, ";") {
		if strings.HasPrefix(p, k+"=") {
			return p[len(k)+1:]
		}
	}
	return ""
}

func kvSet(c, k, v string) string {
	var parts []string
	for _, p := range strings.Split(c, ";") {
		if p != "" && !strings.HasPrefix(p, k+"=") {
			parts = append(parts, p)
		}
	}
	if v != "" {
		parts = append(parts, k+"="+v)
	}
	sort.Strings(parts)
	return strings.Join(parts, ";")
}

func kvAdd(c, k string, d int) string {
	n, _ := strconv.Atoi(kvGet(c, k))
	n += d
	if n > 3 { // saturated, so that unbalanced loops and recursion still reach a fixpoint
		n = 3
	}
	if n < -3 {
		n = -3
	}
	if n == 0 {
		return kvSet(c, k, "")
	}
	return kvSet(c, k, strconv.Itoa(n))
}

func (e *Engine) finish(r *Result) {
	for _, o := range e.Overflow {
		r.violate("undecided:"+strings.Fields(o)[0], "-", "the analysis did not terminate within its bounds: %s", o)
	}
	for f := range e.Funcs {
		r.saw(fname(f))
	}
	r.Counts["abstract_steps"] += e.Steps
	_ = fmt.Sprint
}

func fieldName(t types.Type, i int) string {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok || i >= st.NumFields() {
		return "?"
	}
	return st.Field(i).Name()
}

type rootRec struct {
	name string
	id   int
}

// rootID numbers the pieces of JSON of one run.
func (e *Engine) rootID(name string, m map[string]string) int {
	if s, ok := m[name]; ok {
		n, _ := strconv.Atoi(s)
		return n
	}
	n := len(m) + 1
	m[name] = strconv.Itoa(n)
	return n
}

func (e *Engine) rootList(m map[string]string) []rootRec {
	var out []rootRec
	for k, v := range m {
		n, _ := strconv.Atoi(v)
		out = append(out, rootRec{k, n})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}
