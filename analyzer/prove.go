package main

// A demand-driven bounds prover over SSA (in the manner of "ABCD": array bounds checks on demand): it
// decides x <= y + c from the branches that dominate a point, the shape of the values and, where a value
// comes from or goes to another function of the module, from that function's own branches. No solver.

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

type termKind uint8

const (
	tZero termKind = iota // the number 0
	tVal
	tLen // length of a slice, string or array
	tCap
)

type term struct {
	k termKind
	v ssa.Value
}

// Point is a place in a function: before instruction idx of block b; if edge is set, on the edge from b to it.
type Point struct {
	b    *ssa.BasicBlock
	edge *ssa.BasicBlock
}

type fact struct {
	x, y term
	c    int64 // x <= y + c
}

type Prover struct {
	p       *Prog
	depth   int
	steps   int
	goals   map[goalKey]int64
	callers map[*ssa.Function][]ssa.CallInstruction
	escapes map[*ssa.Function]bool // used as a value: callers are not all known
	writers map[string]map[*ssa.Function]bool
	factsOf map[Point][]fact
	norming map[ssa.Value]bool
	canons  map[ssa.Value]ssa.Value
}

type goalKey struct {
	x, y term
	pt   Point
}

func newProver(p *Prog) *Prover {
	q := &Prover{p: p, callers: map[*ssa.Function][]ssa.CallInstruction{}, escapes: map[*ssa.Function]bool{}, writers: map[string]map[*ssa.Function]bool{}, factsOf: map[Point][]fact{}, norming: map[ssa.Value]bool{}, canons: map[ssa.Value]ssa.Value{}}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, isCall := in.(ssa.CallInstruction)
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						if isCall && ci.Common().Value == g {
							continue
						}
						if _, ok := in.(*ssa.MakeClosure); ok {
							continue
						}
						q.escapes[g] = true
					}
				}
				if isCall {
					if g := ci.Common().StaticCallee(); g != nil {
						q.callers[g] = append(q.callers[g], ci)
					}
				}
			}
		}
	}
	return q
}

func intInfo(t types.Type) (bits int, unsigned, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, false, true
	case types.Int16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, false, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, false, true
	case types.Uint8:
		return 8, true, true
	case types.Uint16:
		return 16, true, true
	case types.Uint32:
		return 32, true, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, true, true
	}
	return 0, false, false
}

func constOf(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

// norm writes an integer value as term + offset. Offsets are only taken out when the arithmetic cannot wrap.
func (q *Prover) norm(v ssa.Value, pt Point) (term, int64) {
	if n, ok := constOf(v); ok {
		return term{}, n
	}
	switch x := v.(type) {
	case *ssa.ChangeType:
		return q.norm(x.X, pt)
	case *ssa.Convert:
		sb, su, ok1 := intInfo(x.X.Type())
		db, du, ok2 := intInfo(x.Type())
		if !ok1 || !ok2 {
			break
		}
		if !su && !du && db >= sb || su && du && db >= sb || su && !du && db > sb {
			return q.norm(x.X, pt)
		}
		if db >= 32 && isLenCall(x.X) {
			// no slice or string has 2^31 elements
			return q.norm(x.X, pt)
		}
		if q.norming[v] {
			break
		}
		q.norming[v] = true
		defer delete(q.norming, v)
		if !su && du && db >= sb && q.le(term{}, x.X, pt) {
			return q.norm(x.X, pt)
		}
	case *ssa.BinOp:
		if x.Op != token.ADD && x.Op != token.SUB {
			break
		}
		c, ok := constOf(x.Y)
		base := x.X
		if !ok && x.Op == token.ADD {
			if c, ok = constOf(x.X); ok {
				base = x.Y
			}
		}
		if !ok {
			break
		}
		if x.Op == token.SUB {
			c = -c
		}
		if q.norming[v] {
			break
		}
		q.norming[v] = true
		defer delete(q.norming, v)
		if q.noWrap(base, c, Point{b: x.Block()}) || pt.b != x.Block() && q.noWrap(base, c, pt) {
			t, o := q.norm(base, pt)
			return t, o + c
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && len(x.Call.Args) == 1 {
			switch b.Name() {
			case "len":
				return q.lenOf(x.Call.Args[0], pt)
			case "cap":
				return term{tCap, q.canon(x.Call.Args[0])}, 0
			}
		}
		if d := q.dataOfMemory(x); d != nil {
			return term{tLen, q.canon(d)}, 0
		}
	}
	if c := q.canon(v); c != v {
		return q.norm(c, pt)
	}
	return term{tVal, v}, 0
}

// dataOfMemory: m.Length() is the length of what m.Data() returned before, if the memory was not grown since.
func (q *Prover) dataOfMemory(x *ssa.Call) ssa.Value {
	if o := calleeObj(&x.Call); o == nil || o.Name() != "Length" || !x.Call.IsInvoke() || typeName(x.Call.Value.Type()) != "MemoryHandler" {
		return nil
	}
	for i := indexIn(x) - 1; i >= 0; i-- {
		c, ok := x.Block().Instrs[i].(*ssa.Call)
		if !ok || !c.Call.IsInvoke() {
			continue
		}
		if c.Call.Method.Name() == "Grow" {
			return nil
		}
		if c.Call.Method.Name() == "Data" && q.canon(c.Call.Value) == q.canon(x.Call.Value) {
			return c
		}
	}
	return nil
}

func isLenCall(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len"
}

// lenOf writes the length of a value as term + offset.
func (q *Prover) lenOf(v ssa.Value, pt Point) (term, int64) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return term{}, 0
		}
		if x.Value.Kind() == constant.String {
			return term{}, int64(len(constant.StringVal(x.Value)))
		}
	case *ssa.ChangeType:
		return q.lenOf(x.X, pt)
	case *ssa.Convert: // []byte <-> string
		_, s1 := x.X.Type().Underlying().(*types.Slice)
		b1, isB := x.X.Type().Underlying().(*types.Basic)
		if s1 || isB && b1.Info()&types.IsString != 0 {
			return q.lenOf(x.X, pt)
		}
	case *ssa.MakeSlice:
		return q.norm(x.Len, pt)
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			if n, ok := arrayLen(x.X.Type()); ok {
				return term{}, n
			}
			return q.lenOf(x.X, pt)
		}
		var low int64
		if x.Low != nil {
			n, ok := constOf(x.Low)
			if !ok {
				break
			}
			low = n
		}
		if x.High == nil {
			if n, ok := arrayLen(x.X.Type()); ok {
				return term{}, n - low
			}
			t, o := q.lenOf(x.X, pt)
			return t, o - low
		}
		t, o := q.norm(x.High, pt)
		return t, o - low
	}
	if n, ok := arrayLen(v.Type()); ok {
		return term{}, n
	}
	if c := q.canon(v); c != v {
		return q.lenOf(c, pt)
	}
	return term{tLen, v}, 0
}

func arrayLen(t types.Type) (int64, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Len(), true
	}
	return 0, false
}

// noWrap tells whether base + c stays in the range of its type.
func (q *Prover) noWrap(base ssa.Value, c int64, pt Point) bool {
	bits, unsigned, ok := intInfo(base.Type())
	if !ok {
		return false
	}
	if c == 0 {
		return true
	}
	if c < 0 {
		if !unsigned {
			if bits == 64 {
				return true // lengths and indexes do not come near the smallest 64 bit number
			}
			// base >= min - c: enough that base >= something plus |c| of the same kind, or base >= 0
			return q.le(term{}, base, pt)
		}
		return q.leTerm(term{}, -c, base, pt)
	}
	if bits == 64 && !unsigned {
		return true
	}
	// base <= some value of the same type - c
	t, o := q.norm(base, pt)
	for _, f := range q.facts(pt) {
		if f.x == t && f.y.k == tVal {
			b2, u2, ok2 := intInfo(f.y.v.Type())
			if ok2 && (b2 < bits || b2 == bits && u2 == unsigned || b2 == bits && !u2) && f.c+o+c <= 0 {
				return true
			}
		}
		if f.x == t && f.y.k == tZero {
			max := int64(math.MaxInt64)
			if bits < 64 {
				max = int64(1)<<bits - 1
				if !unsigned {
					max = int64(1)<<(bits-1) - 1
				}
			}
			if f.c+o+c <= max {
				return true
			}
		}
		if f.x == t && f.y.k == tLen && bits == 64 {
			return true
		}
	}
	return false
}

// canon gives a representative for values that are the same: loads of the same place with nothing written
// in between.
func (q *Prover) canon(v ssa.Value) ssa.Value {
	if r, ok := q.canons[v]; ok {
		return r
	}
	q.canons[v] = v // while it is worked out
	r := q.canon1(v)
	q.canons[v] = r
	return r
}

func (q *Prover) canon1(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.ChangeType:
		return q.canon(x.X)
	case *ssa.MakeInterface:
		return q.canon(x.X)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if r := q.earlierLoad(x); r != nil {
				return r
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return v
		}
	case *ssa.Convert:
		if r := q.earlierSame(x, func(o ssa.Instruction) bool {
			y, ok := o.(*ssa.Convert)
			return ok && q.canon(y.X) == q.canon(x.X) && types.Identical(y.Type(), x.Type())
		}); r != nil {
			return r
		}
	case *ssa.Extract:
		return v
	}
	return v
}

func (q *Prover) earlierSame(x ssa.Value, same func(ssa.Instruction) bool) ssa.Value {
	in := x.(ssa.Instruction)
	for b := in.Block(); b != nil; b = b.Idom() {
		for _, o := range b.Instrs {
			if o == in {
				break
			}
			if same(o) {
				return o.(ssa.Value)
			}
		}
	}
	return nil
}

// addrPath names the place an address denotes, with the struct field it ends in.
func (q *Prover) addrPath(a ssa.Value) (path string, field string, ok bool) {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		f := typeName(deref(x.X.Type())) + "." + fieldName(x.X.Type(), x.Field)
		p, _, ok := q.addrPath(x.X)
		if !ok {
			p = q.valName(x.X)
		}
		return p + "." + fieldName(x.X.Type(), x.Field), f, true
	case *ssa.Alloc:
		if x.Heap && !localOnly(x) {
			return "", "", false
		}
		return q.valName(x), "alloc", true
	case *ssa.Global:
		return "global:" + x.String(), "global:" + x.String(), true
	case *ssa.IndexAddr:
		// an element, by the slice it is in and its index
		idx, isC := constOf(x.Index)
		n := ""
		if isC {
			n = strconv.FormatInt(idx, 10)
		} else {
			n = q.valName(x.Index)
		}
		return q.valName(x.X) + "[" + n + "]", "elem:" + x.Type().String(), true
	}
	return "", "", false
}

// addrField names the kind of place an address denotes: what a write to it may change.
func addrField(a ssa.Value) (field string, ok bool) {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		return typeName(deref(x.X.Type())) + "." + fieldName(x.X.Type(), x.Field), true
	case *ssa.Alloc:
		return "alloc", !x.Heap || localOnly(x)
	case *ssa.Global:
		return "global:" + x.String(), true
	case *ssa.IndexAddr:
		return "elem:" + x.Type().String(), true
	}
	return "", false
}

func localOnly(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		switch y := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if y.Addr != a {
				return false
			}
		case *ssa.FieldAddr:
			for _, rr := range *y.Referrers() {
				switch z := rr.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.Store:
					if z.Addr != y {
						return false
					}
				default:
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func (q *Prover) valName(v ssa.Value) string {
	c := q.canon(v)
	fn := ""
	if c.Parent() != nil {
		fn = c.Parent().String()
	}
	return fn + "/" + c.Name()
}

func (q *Prover) earlierLoad(x *ssa.UnOp) ssa.Value {
	path, field, ok := q.addrPath(x.X)
	if !ok {
		return nil
	}
	for b := x.Block(); b != nil; b = b.Idom() {
		for i, o := range b.Instrs {
			if o == ssa.Instruction(x) {
				break
			}
			y, ok := o.(*ssa.UnOp)
			if !ok || y.Op != token.MUL {
				continue
			}
			p2, _, ok2 := q.addrPath(y.X)
			if !ok2 || p2 != path {
				continue
			}
			if !q.writtenBetween(y, i, x, field) {
				return q.canon(y)
			}
		}
	}
	// stored before, and not written since
	for b := x.Block(); b != nil; b = b.Idom() {
		for i := len(b.Instrs) - 1; i >= 0; i-- {
			s, ok := b.Instrs[i].(*ssa.Store)
			if !ok {
				continue
			}
			p2, _, ok2 := q.addrPath(s.Addr)
			if !ok2 || p2 != path || b == x.Block() && i > indexIn(x) {
				continue
			}
			if !q.writtenBetween(s, i, x, field) {
				return q.canon(s.Val)
			}
			return nil
		}
	}
	return nil
}

func indexIn(in ssa.Instruction) int {
	for i, o := range in.Block().Instrs {
		if o == in {
			return i
		}
	}
	return -1
}

// writtenBetween tells whether field may be written on a path from instruction y (index iy) to x.
func (q *Prover) writtenBetween(y ssa.Instruction, iy int, x ssa.Instruction, field string) bool {
	bx, by := x.Block(), y.Block()
	ix := indexIn(x)
	hit := func(b *ssa.BasicBlock, from, to int) bool {
		for i := from; i < to; i++ {
			if q.mayWrite(b.Instrs[i], field) {
				return true
			}
		}
		return false
	}
	if bx == by && iy < ix {
		// a way around the loop passes y again, so what is in between is enough
		return hit(bx, iy+1, ix)
	}
	if hit(by, iy+1, len(by.Instrs)) || hit(bx, 0, ix) {
		return true
	}
	// blocks between: reachable from by without passing by again, and reaching bx
	fwd := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if b == by || fwd[b] {
			return
		}
		fwd[b] = true
		for _, s := range b.Succs {
			walk(s)
		}
	}
	for _, s := range by.Succs {
		walk(s)
	}
	back := map[*ssa.BasicBlock]bool{}
	var rwalk func(b *ssa.BasicBlock)
	rwalk = func(b *ssa.BasicBlock) {
		if b == by || back[b] {
			return
		}
		back[b] = true
		for _, s := range b.Preds {
			rwalk(s)
		}
	}
	loops := false
	for _, s := range bx.Preds {
		rwalk(s)
	}
	if back[bx] && fwd[bx] {
		loops = true
	}
	for b := range fwd {
		if !back[b] || b == bx {
			continue
		}
		if hit(b, 0, len(b.Instrs)) {
			return true
		}
	}
	if loops && hit(bx, ix, len(bx.Instrs)) {
		return true
	}
	return false
}

func (q *Prover) mayWrite(in ssa.Instruction, field string) bool {
	switch x := in.(type) {
	case *ssa.Store:
		f, ok := addrField(x.Addr)
		if !ok {
			return field != "alloc"
		}
		return f == field
	case ssa.CallInstruction:
		if field == "alloc" {
			return false
		}
		com := x.Common()
		if _, ok := com.Value.(*ssa.Builtin); ok {
			return com.Value.Name() == "copy" && field[0] == 'e'
		}
		targets := q.p.resolve(com)
		if len(targets) == 0 {
			if com.IsInvoke() || com.StaticCallee() == nil {
				return true
			}
			// a library function cannot reach our unexported fields; elements it may
			return field[0] == 'e'
		}
		w := q.writersOf(field)
		for _, t := range targets {
			if w[t] {
				return true
			}
		}
	}
	return false
}

// writersOf gives the functions that may, directly or through calls, write a field.
func (q *Prover) writersOf(field string) map[*ssa.Function]bool {
	if w, ok := q.writers[field]; ok {
		return w
	}
	w := map[*ssa.Function]bool{}
	q.writers[field] = w
	callers := map[*ssa.Function][]*ssa.Function{}
	var work []*ssa.Function
	for _, f := range q.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fl, ok := addrField(s.Addr); ok && fl == field && !w[f] {
						w[f] = true
						work = append(work, f)
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					com := ci.Common()
					ts := q.p.resolve(com)
					for _, g := range ts {
						callers[g] = append(callers[g], f)
					}
					if unknownCall(com) && !w[f] {
						w[f] = true
						work = append(work, f)
					}
				}
			}
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, c := range callers[f] {
			if !w[c] {
				w[c] = true
				work = append(work, c)
			}
		}
	}
	return w
}

// ---- facts

// conds gives the conditions that hold at a point: a value and its truth.
type condAt struct {
	v     ssa.Value
	truth bool
	at    *ssa.BasicBlock
}

func (q *Prover) conds(pt Point) []condAt {
	var out []condAt
	if pt.edge != nil && pt.b != nil {
		if ifi, ok := pt.b.Instrs[len(pt.b.Instrs)-1].(*ssa.If); ok && pt.b.Succs[0] != pt.b.Succs[1] {
			out = append(out, q.expand(condAt{ifi.Cond, pt.b.Succs[0] == pt.edge, pt.b}, 0)...)
		}
	}
	for b := pt.b; b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			break
		}
		ifi, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || d.Succs[0] == d.Succs[1] {
			continue
		}
		for i, s := range d.Succs {
			if s == b && len(s.Preds) == 1 {
				out = append(out, q.expand(condAt{ifi.Cond, i == 0, d}, 0)...)
			}
		}
	}
	return out
}

func (q *Prover) expand(c condAt, depth int) []condAt {
	if depth > 6 {
		return nil
	}
	switch x := c.v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return q.expand(condAt{x.X, !c.truth, c.at}, depth+1)
		}
		if x.Op == token.MUL {
			if r := q.canon(x); r != c.v {
				return q.expand(condAt{r, c.truth, c.at}, depth+1)
			}
		}
	case *ssa.Phi:
		out := []condAt{c}
		var only = -1
		n := 0
		for i, e := range x.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != c.truth {
				continue
			}
			only = i
			n++
		}
		if n == 1 {
			pred := x.Block().Preds[only]
			out = append(out, q.expand(condAt{x.Edges[only], c.truth, pred}, depth+1)...)
			out = append(out, q.conds(Point{b: pred, edge: x.Block()})...)
		}
		return out
	case *ssa.BinOp:
		if (x.Op == token.EQL || x.Op == token.NEQ) && isBoolType(x.X.Type()) {
			for i, o := range []ssa.Value{x.X, x.Y} {
				if k, ok := o.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
					other := x.Y
					if i == 1 {
						other = x.X
					}
					t := constant.BoolVal(k.Value) == (c.truth == (x.Op == token.EQL))
					return q.expand(condAt{other, t, c.at}, depth+1)
				}
			}
		}
	}
	return []condAt{c}
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// facts gives the order relations that hold at a point.
func (q *Prover) facts(pt Point) []fact {
	if f, ok := q.factsOf[pt]; ok {
		return f
	}
	q.factsOf[pt] = nil // facts needed to normalise facts: none
	goals, depth, steps := q.goals, q.depth, q.steps
	q.goals, q.depth = nil, 0
	defer func() { q.goals, q.depth, q.steps = goals, depth, steps }()
	var out []fact
	add := func(x, y ssa.Value, c int64) {
		if _, _, ok := intInfo(x.Type()); !ok {
			return
		}
		tx, ox := q.norm(x, pt)
		ty, oy := q.norm(y, pt)
		out = append(out, fact{tx, ty, oy + c - ox})
		// keep what was found for later normalisations at this point
		q.factsOf[pt] = out
		// the same with the conversions left in place
		if cx := q.canon(x); cx != nil && (tx != term{tVal, cx}) {
			if _, isC := constOf(x); !isC {
				out = append(out, fact{term{tVal, cx}, ty, oy + c})
			}
		}
		if cy := q.canon(y); cy != nil && (ty != term{tVal, cy}) {
			if _, isC := constOf(y); !isC {
				out = append(out, fact{tx, term{tVal, cy}, c - ox})
			}
		}
		q.factsOf[pt] = out
	}
	conds := q.conds(pt)
	// twice: facts about signs first make conversions transparent
	for round := 0; round < 2; round++ {
		if round == 1 {
			prev := out
			out = append([]fact{}, prev...)
		}
		for _, c := range conds {
			bo, ok := c.v.(*ssa.BinOp)
			if !ok {
				continue
			}
			op := bo.Op
			if !c.truth {
				switch op {
				case token.LSS:
					op = token.GEQ
				case token.LEQ:
					op = token.GTR
				case token.GTR:
					op = token.LEQ
				case token.GEQ:
					op = token.LSS
				case token.EQL:
					op = token.NEQ
				case token.NEQ:
					op = token.EQL
				}
			}
			switch op {
			case token.LSS:
				add(bo.X, bo.Y, -1)
			case token.LEQ:
				add(bo.X, bo.Y, 0)
			case token.GTR:
				add(bo.Y, bo.X, -1)
			case token.GEQ:
				add(bo.Y, bo.X, 0)
			case token.EQL:
				if _, _, ok := intInfo(bo.X.Type()); ok {
					add(bo.X, bo.Y, 0)
					add(bo.Y, bo.X, 0)
				} else if isStringT(bo.X.Type()) {
					for i, o := range []ssa.Value{bo.X, bo.Y} {
						other := []ssa.Value{bo.Y, bo.X}[i]
						if k, ok := o.(*ssa.Const); ok && k.Value != nil {
							n := int64(len(constant.StringVal(k.Value)))
							t, of := q.lenOf(other, pt)
							out = append(out, fact{t, term{}, n - of}, fact{term{}, t, of - n})
						}
					}
				}
			case token.NEQ:
				if isStringT(bo.X.Type()) {
					for i, o := range []ssa.Value{bo.X, bo.Y} {
						other := []ssa.Value{bo.Y, bo.X}[i]
						if k, ok := o.(*ssa.Const); ok && k.Value != nil && constant.StringVal(k.Value) == "" {
							t, of := q.lenOf(other, pt)
							out = append(out, fact{term{}, t, of - 1})
						}
					}
					break
				}
				// x != 0 with x >= 0 known
				for i, o := range []ssa.Value{bo.X, bo.Y} {
					other := []ssa.Value{bo.Y, bo.X}[i]
					if n, ok := constOf(o); ok && n == 0 {
						if _, u, ok := intInfo(other.Type()); ok && (u || q.nonNegShape(other)) {
							t, of := q.norm(other, pt)
							out = append(out, fact{term{}, t, of - 1})
						}
					}
				}
			}
		}
	}
	q.factsOf[pt] = out
	return out
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (q *Prover) nonNegShape(v ssa.Value) bool {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return true
		}
	}
	if c, ok := v.(*ssa.Convert); ok {
		sb, _, ok1 := intInfo(c.X.Type())
		db, _, ok2 := intInfo(c.Type())
		return ok1 && ok2 && db >= sb && q.nonNegShape(c.X)
	}
	_, u, ok := intInfo(v.Type())
	return ok && u
}

// ---- proving

// le: t <= v at pt.
func (q *Prover) le(t term, v ssa.Value, pt Point) bool { return q.leTerm(t, 0, v, pt) }

// leTerm: t + c <= v at pt.
func (q *Prover) leTerm(t term, c int64, v ssa.Value, pt Point) bool {
	ty, oy := q.norm(v, pt)
	return q.prove(t, ty, oy-c, pt)
}

// LE: x + c <= y at pt.
func (q *Prover) LE(x ssa.Value, c int64, y ssa.Value, pt Point) bool {
	tx, ox := q.norm(x, pt)
	ty, oy := q.norm(y, pt)
	return q.prove(tx, ty, oy-ox-c, pt)
}

// NonNeg: 0 <= v at pt.
func (q *Prover) NonNeg(v ssa.Value, pt Point) bool { return q.le(term{}, v, pt) }

// Below: v + c <= len(s) at pt.
func (q *Prover) Below(v ssa.Value, c int64, s ssa.Value, pt Point) bool {
	tx, ox := q.norm(v, pt)
	ty, oy := q.lenOf(s, pt)
	return q.prove(tx, ty, oy-ox-c, pt)
}

// prove: x <= y + c at pt.
func (q *Prover) prove(x, y term, c int64, pt Point) bool {
	if x == y {
		return c >= 0
	}
	top := q.goals == nil
	if top {
		q.goals = map[goalKey]int64{}
		q.steps = 0
		defer func() { q.goals = nil }()
	}
	q.steps++
	if q.depth > 24 || q.steps > 60000 {
		return false
	}
	key := goalKey{x, y, pt}
	if c0, ok := q.goals[key]; ok {
		return c >= c0 && q.isPhi(x, y) // a cycle through a phi that does not make it worse: induction
	}
	q.goals[key] = c
	q.depth++
	defer func() { q.depth--; delete(q.goals, key) }()

	// axioms about the terms
	if x.k == tZero && c >= 0 {
		if y.k == tLen || y.k == tCap {
			return true
		}
		if y.k == tVal {
			if _, u, ok := intInfo(y.v.Type()); ok && u {
				return true
			}
		}
	}
	if y.k == tZero && x.k == tVal {
		if bits, u, ok := intInfo(x.v.Type()); ok && bits < 64 {
			max := int64(1)<<bits - 1
			if !u {
				max = int64(1)<<(bits-1) - 1
			}
			if c >= max {
				return true
			}
		}
	}
	if x.k == tLen && y.k == tCap && x.v == y.v && c >= 0 {
		return true
	}
	if y.k == tVal && x.k == tZero && c >= 0 {
		if b, u, ok := intInfo(y.v.Type()); ok && !u && c >= int64(1)<<(b-1)-1 && b < 64 {
			return true
		}
	}
	for _, f := range q.facts(pt) {
		if f.x == x && q.prove(f.y, y, c-f.c, pt) {
			return true
		}
	}
	for _, f := range q.facts(pt) {
		if f.y == y && q.prove(x, f.x, c-f.c, pt) {
			return true
		}
	}
	return q.jointPhi(x, y, c) || q.stride(x, y, c, pt) || q.up(x, y, c, pt) || q.down(x, y, c, pt) || q.fromCalls(x, y, c, pt)
}

// jointPhi: both sides are chosen by the same branch.
func (q *Prover) jointPhi(x, y term, c int64) bool {
	px, ok1 := x.v.(*ssa.Phi)
	py, ok2 := y.v.(*ssa.Phi)
	if !ok1 || !ok2 || px.Block() != py.Block() || x.k == tCap || y.k == tCap {
		return false
	}
	for i := range px.Edges {
		ep := Point{b: px.Block().Preds[i], edge: px.Block()}
		t := func(k termKind, e ssa.Value) (term, int64) {
			if k == tLen {
				return q.lenOf(e, ep)
			}
			return q.norm(e, ep)
		}
		tx, ox := t(x.k, px.Edges[i])
		ty, oy := t(y.k, py.Edges[i])
		if !q.prove(tx, ty, c+oy-ox, ep) {
			return false
		}
	}
	return true
}

// steps gives the increment of a counter that starts at 0.
func steps(v ssa.Value) (int64, bool) {
	p, ok := v.(*ssa.Phi)
	if !ok || len(p.Edges) != 2 {
		return 0, false
	}
	step := int64(0)
	for _, e := range p.Edges {
		if n, ok := constOf(e); ok {
			if n != 0 {
				return 0, false
			}
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != v {
			return 0, false
		}
		n, ok := constOf(b.Y)
		if !ok || n <= 0 {
			return 0, false
		}
		step = n
	}
	return step, step > 0
}

// multiple: the length of v is a multiple of m (and of k times which value, when it does not wrap).
func (q *Prover) multiple(v ssa.Value, m int64, of func(mul *ssa.BinOp) bool, pt Point) bool {
	switch x := q.canon(v).(type) {
	case *ssa.Parameter:
		f := x.Parent()
		i := paramIndex(f, x)
		if i < 0 || !q.closed(f) || len(q.callers[f]) == 0 {
			return false
		}
		for _, ci := range q.callers[f] {
			if !q.multiple(ci.Common().Args[i], m, of, callPoint(ci)) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		// some length that is m * a, both ways
		call, ok := x.Tuple.(*ssa.Call)
		if !ok {
			return false
		}
		for _, arg := range call.Call.Args {
			a := arg
			if cv, ok := a.(*ssa.Convert); ok {
				a = cv.X
			}
			mul, ok := a.(*ssa.BinOp)
			if !ok || mul.Op != token.MUL {
				continue
			}
			k, ok := constOf(mul.Y)
			if !ok || k%m != 0 {
				continue
			}
			tl := term{tLen, q.canon(x)}
			ta, oa := q.norm(arg, pt)
			if !q.prove(tl, ta, oa, pt) || !q.prove(ta, tl, -oa, pt) {
				continue
			}
			return of == nil || k == m && of(mul)
		}
	}
	return false
}

// stride: a counter i that goes up by m below n, a multiple of m, stays m below n; and one that goes up by 1
// along with it stays below n/m.
func (q *Prover) stride(x, y term, c int64, pt Point) bool {
	if x.k != tVal {
		return false
	}
	m, ok := steps(x.v)
	if !ok {
		return false
	}
	limit := func(z ssa.Value) ssa.Value { // the slice z is kept below the length of
		for _, f := range q.facts(pt) {
			if f.x == (term{tVal, z}) && f.y.k == tLen && f.c <= -1 {
				return f.y.v
			}
		}
		return nil
	}
	if m > 1 {
		s := limit(x.v)
		return s != nil && y.k == tLen && y.v == s && c >= -m && q.multiple(s, m, nil, pt)
	}
	for _, in := range x.v.(*ssa.Phi).Block().Instrs {
		z, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		k, ok := steps(z)
		if !ok || k == 1 || c < -1 {
			continue
		}
		s := limit(z)
		if s == nil {
			continue
		}
		par, isPar := y.v.(*ssa.Parameter)
		if y.k != tVal || !isPar {
			continue
		}
		idx := paramIndex(par.Parent(), par)
		if idx < 0 {
			continue
		}
		if sp, ok := s.(*ssa.Parameter); ok && sp.Parent() == par.Parent() {
			good := len(q.callers[par.Parent()]) > 0 && q.closed(par.Parent())
			for _, ci := range q.callers[par.Parent()] {
				arg := ci.Common().Args[idx]
				cp := callPoint(ci)
				good = good && q.multiple(ci.Common().Args[paramIndex(sp.Parent(), sp)], k, func(mul *ssa.BinOp) bool {
					ta, oa := q.norm(mul.X, cp)
					tb, ob := q.norm(arg, cp)
					if ta != tb || oa != ob {
						return false
					}
					bits, unsigned, _ := intInfo(mul.Type())
					if unsigned {
						return false
					}
					if cv, ok := mul.X.(*ssa.Convert); ok && bits == 64 {
						if b0, _, _ := intInfo(cv.X.Type()); b0 <= 32 {
							return true
						}
					}
					return q.prove(ta, term{}, (int64(1)<<(bits-1)-1)/k-oa, cp) && q.prove(term{}, ta, (int64(1)<<(bits-1)-1)/k+oa, cp)
				}, cp)
			}
			if good {
				return true
			}
		}
	}
	return false
}

func (q *Prover) isPhi(ts ...term) bool {
	for _, t := range ts {
		if t.v != nil {
			if _, ok := t.v.(*ssa.Phi); ok {
				return true
			}
		}
	}
	return false
}

// up: x <= y + c from what x is made of.
func (q *Prover) up(x, y term, c int64, pt Point) bool {
	if x.k == tLen {
		switch v := x.v.(type) {
		case *ssa.Phi:
			return q.phi(v, pt, func(e ssa.Value, ep Point) bool {
				t, o := q.lenOf(e, ep)
				return q.prove(t, y, c-o, ep)
			})
		case *ssa.Slice:
			if v.Low != nil && q.NonNeg(v.Low, pt) {
				// len(s[l:h]) = h - l <= h
				if v.High != nil {
					t, o := q.norm(v.High, pt)
					return q.prove(t, y, c-o, pt)
				}
				t, o := q.lenOf(v.X, pt)
				return q.prove(t, y, c-o, pt)
			}
		case *ssa.Extract, *ssa.Call:
			return q.fromResult(x, y, c, pt, true)
		}
		return false
	}
	if x.k != tVal {
		return false
	}
	switch v := x.v.(type) {
	case *ssa.Phi:
		return q.phi(v, pt, func(e ssa.Value, ep Point) bool {
			t, o := q.norm(e, ep)
			return q.prove(t, y, c-o, ep)
		})
	case *ssa.Convert:
		// truncation of a non-negative number does not make it bigger
		if _, _, ok := intInfo(v.X.Type()); ok && q.NonNeg(v.X, pt) {
			t, o := q.norm(v.X, pt)
			return q.prove(t, y, c-o, pt)
		}
	case *ssa.BinOp:
		switch v.Op {
		case token.REM:
			// x % n <= n - 1 for n > 0
			if n, ok := constOf(v.Y); ok && n > 0 {
				return q.prove(term{}, y, c-(n-1), pt)
			}
			if q.NonNeg(v.Y, pt) {
				t, o := q.norm(v.Y, pt)
				return q.prove(t, y, c-o+1, pt)
			}
		case token.QUO, token.SHR:
			if q.NonNeg(v.X, pt) && q.NonNeg(v.Y, pt) {
				t, o := q.norm(v.X, pt)
				return q.prove(t, y, c-o, pt)
			}
		case token.AND:
			for _, o := range []ssa.Value{v.X, v.Y} {
				if q.NonNeg(o, pt) {
					t, of := q.norm(o, pt)
					if q.prove(t, y, c-of, pt) {
						return true
					}
				}
			}
		case token.SUB:
			if q.NonNeg(v.Y, pt) && (q.LE(v.Y, 0, v.X, pt) || isWideSigned(v.X.Type())) {
				t, o := q.norm(v.X, pt)
				if q.prove(t, y, c-o, pt) {
					return true
				}
				// x - y with a lower bound of y: x - y <= x - k
				for k := int64(1); k <= 2; k++ {
					if q.leTerm(term{}, k, v.Y, pt) && q.prove(t, y, c-o+k, pt) {
						return true
					}
				}
			}
		case token.MUL:
			if n, ok := constOf(v.Y); ok && n == 1 {
				t, o := q.norm(v.X, pt)
				return q.prove(t, y, c-o, pt)
			}
		}
	case *ssa.Parameter:
		return q.atCallers(v, x, y, c)
	case *ssa.Extract, *ssa.Call:
		return q.fromResult(x, y, c, pt, true)
	}
	return false
}

func isWideSigned(t types.Type) bool {
	b, u, ok := intInfo(t)
	return ok && !u && b == 64
}

// down: x <= y + c from what y is made of.
func (q *Prover) down(x, y term, c int64, pt Point) bool {
	if y.k == tLen {
		switch v := y.v.(type) {
		case *ssa.Phi:
			return q.phi(v, pt, func(e ssa.Value, ep Point) bool {
				t, o := q.lenOf(e, ep)
				return q.prove(x, t, c+o, ep)
			})
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				t, o := q.lenOf(v.Call.Args[0], pt)
				if q.prove(x, t, c+o, pt) {
					return true
				}
				if len(v.Call.Args) == 2 {
					t2, o2 := q.lenOf(v.Call.Args[1], pt)
					if t2.k == tZero {
						return q.prove(x, t, c+o+o2, pt)
					}
					return q.prove(x, t2, c+o2, pt)
				}
				return false
			}
			return q.fromResult(x, y, c, pt, false)
		case *ssa.Extract:
			return q.fromResult(x, y, c, pt, false)
		case *ssa.Parameter:
			return q.atCallers(v, x, y, c)
		}
		return false
	}
	if y.k != tVal {
		return false
	}
	switch v := y.v.(type) {
	case *ssa.Phi:
		return q.phi(v, pt, func(e ssa.Value, ep Point) bool {
			t, o := q.norm(e, ep)
			return q.prove(x, t, c+o, ep)
		})
	case *ssa.BinOp:
		switch v.Op {
		case token.REM, token.QUO, token.SHR:
			if x.k == tZero && c >= 0 && q.NonNeg(v.X, pt) && (v.Op != token.QUO || q.NonNeg(v.Y, pt)) {
				return true
			}
		case token.AND:
			if x.k == tZero && c >= 0 && (q.NonNeg(v.X, pt) || q.NonNeg(v.Y, pt)) {
				return true
			}
		case token.SUB:
			if x.k == tZero && c >= 0 && q.LE(v.Y, 0, v.X, pt) {
				return true
			}
			if x.k == tZero && c < 0 && q.LE(v.Y, -c, v.X, pt) {
				return true
			}
		case token.ADD:
			if isWideSigned(v.Type()) {
				// 64 bit sums of lengths and indexes do not wrap
				if q.NonNeg(v.Y, pt) {
					t, o := q.norm(v.X, pt)
					if q.prove(x, t, c+o, pt) {
						return true
					}
				}
				if q.NonNeg(v.X, pt) {
					t, o := q.norm(v.Y, pt)
					if q.prove(x, t, c+o, pt) {
						return true
					}
				}
			}
		case token.MUL:
			if x.k == tZero && c >= 0 && isWideSigned(v.Type()) && q.NonNeg(v.X, pt) && q.NonNeg(v.Y, pt) {
				return true
			}
		}
	case *ssa.Parameter:
		return q.atCallers(v, x, y, c)
	case *ssa.Extract, *ssa.Call:
		if call, ok := v.(*ssa.Call); ok && calleeName(&call.Call) == "math.AddInt32" {
			// saturates (C07): for non-negative operands the sum is not below either of them
			a, b := call.Call.Args[0], call.Call.Args[1]
			if q.NonNeg(a, pt) && q.NonNeg(b, pt) {
				for _, o := range []ssa.Value{a, b} {
					t, of := q.norm(o, pt)
					if q.prove(x, t, c+of, pt) {
						return true
					}
				}
			}
			return false
		}
		return q.fromResult(x, y, c, pt, false)
	}
	return false
}

func (q *Prover) phi(v *ssa.Phi, pt Point, f func(e ssa.Value, ep Point) bool) bool {
	for i, e := range v.Edges {
		if !f(e, Point{b: v.Block().Preds[i], edge: v.Block()}) {
			return false
		}
	}
	return true
}

func paramIndex(f *ssa.Function, v ssa.Value) int {
	for i, p := range f.Params {
		if p == v {
			return i
		}
	}
	return -1
}

// subst maps a term over the parameters of a function to the arguments of a call.
func (q *Prover) subst(t term, f *ssa.Function, args []ssa.Value, pt Point) (term, int64, bool) {
	if t.k == tZero {
		return t, 0, true
	}
	i := paramIndex(f, t.v)
	if i < 0 || i >= len(args) {
		return t, 0, false
	}
	switch t.k {
	case tVal:
		n, o := q.norm(args[i], pt)
		return n, o, true
	case tLen:
		n, o := q.lenOf(args[i], pt)
		return n, o, true
	}
	return t, 0, false
}

func callPoint(ci ssa.Instruction) Point { return Point{b: ci.Block()} }

// atCallers: a relation between parameters holds if it holds at every call. Only for functions whose
// callers are all known.
func (q *Prover) atCallers(v *ssa.Parameter, x, y term, c int64) bool {
	f := v.Parent()
	if !q.closed(f) {
		return false
	}
	calls := q.callers[f]
	if len(calls) == 0 {
		return false
	}
	for _, ci := range calls {
		pt := callPoint(ci)
		args := ci.Common().Args
		tx, ox, ok1 := q.subst(x, f, args, pt)
		ty, oy, ok2 := q.subst(y, f, args, pt)
		if !ok1 || !ok2 || !q.prove(tx, ty, c+oy-ox, pt) {
			return false
		}
	}
	return true
}

// closed: every caller of the function is known.
func (q *Prover) closed(f *ssa.Function) bool {
	if f.Object() == nil || f.Object().Exported() || q.escapes[f] || f.Parent() != nil {
		return false
	}
	if f.Signature.Recv() != nil {
		// may implement an interface of the module
		for _, ci := range q.p.invokedMethods() {
			if ci == f.Name() {
				return false
			}
		}
	}
	return true
}

var invokedNames []string

func (p *Prog) invokedMethods() []string {
	if invokedNames != nil {
		return invokedNames
	}
	seen := map[string]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					seen[ci.Common().Method.Name()] = true
				}
			}
		}
	}
	invokedNames = append(sortedKeys(seen), "")
	return invokedNames
}

// resultOf splits a value into the call it is a result of and its position.
func resultOf(v ssa.Value) (*ssa.Call, int) {
	switch x := v.(type) {
	case *ssa.Call:
		return x, 0
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return c, x.Index
		}
	}
	return nil, 0
}

// returnsUnder gives the returns of f that agree with what is known about the results of the call at pt.
func (q *Prover) returnsUnder(call *ssa.Call, f *ssa.Function, pt Point) []*ssa.Return {
	type want struct {
		idx   int
		kind  string // nil, nonnil, true, false
		truth bool
	}
	var wants []want
	for _, c := range q.conds(pt) {
		if rc, i := resultOf(c.v); rc == call && isBoolType(c.v.Type()) {
			wants = append(wants, want{i, "bool", c.truth})
			continue
		}
		bo, ok := c.v.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
			continue
		}
		for i, o := range []ssa.Value{bo.X, bo.Y} {
			other := []ssa.Value{bo.Y, bo.X}[i]
			k, isC := o.(*ssa.Const)
			if !isC || k.Value != nil {
				continue
			}
			if rc, idx := resultOf(q.canon(other)); rc == call {
				wants = append(wants, want{idx, "nil", c.truth == (bo.Op == token.EQL)})
			}
		}
	}
	// arwen.WithFault(err, ...) false means err == nil: any bool helper called with the result
	for _, c := range q.conds(pt) {
		hc, ok := c.v.(*ssa.Call)
		if !ok || hc == call {
			continue
		}
		h := hc.Call.StaticCallee()
		if h == nil || h.Blocks == nil {
			continue
		}
		for ai, a := range hc.Call.Args {
			if rc, idx := resultOf(q.canon(a)); rc == call && isErrorType(a.Type()) && !c.truth {
				if q.falseMeansNil(h, ai, 0) {
					wants = append(wants, want{idx, "nil", true})
				}
			}
		}
	}
	var out []*ssa.Return
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		fits := true
		for _, w := range wants {
			if w.idx >= len(ret.Results) {
				continue
			}
			r := ret.Results[w.idx]
			switch w.kind {
			case "nil":
				isNil, known := q.nilness(r, Point{b: b})
				if known && isNil != w.truth {
					fits = false
				}
			case "bool":
				if k, ok := r.(*ssa.Const); ok && k.Value != nil && constant.BoolVal(k.Value) != w.truth {
					fits = false
				}
			}
		}
		if fits {
			out = append(out, ret)
		}
	}
	return out
}

// nilness of a returned value.
func (q *Prover) nilness(v ssa.Value, pt Point) (isNil, known bool) {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil, x.Value == nil
	case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		return false, true
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && isErrorType(deref(g.Type())) {
			return false, true
		}
	case *ssa.Call:
		if nonNilMakers[calleeName(&x.Call)] {
			return false, true
		}
	}
	for _, c := range q.conds(pt) {
		bo, ok := c.v.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
			continue
		}
		for i, o := range []ssa.Value{bo.X, bo.Y} {
			other := []ssa.Value{bo.Y, bo.X}[i]
			if k, isC := o.(*ssa.Const); isC && k.Value == nil && q.canon(other) == q.canon(v) {
				return c.truth == (bo.Op == token.EQL), true
			}
		}
	}
	return false, false
}

// falseMeansNil: the helper returns false only if its ai-th argument was nil.
func (q *Prover) falseMeansNil(h *ssa.Function, ai, depth int) bool {
	if depth > 3 || ai >= len(h.Params) {
		return false
	}
	for _, b := range h.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if len(ret.Results) != 1 {
			return false
		}
		r := ret.Results[0]
		if k, ok := r.(*ssa.Const); ok && k.Value != nil && constant.BoolVal(k.Value) {
			continue
		}
		if n, known := q.nilness(h.Params[ai], Point{b: b}); known && n {
			continue
		}
		if bo, ok := r.(*ssa.BinOp); ok && bo.Op == token.NEQ {
			if k, ok := bo.Y.(*ssa.Const); ok && k.Value == nil && bo.X == h.Params[ai] {
				continue
			}
		}
		if c, ok := r.(*ssa.Call); ok {
			g := c.Call.StaticCallee()
			if g != nil && g.Blocks != nil {
				okArg := false
				for i, a := range c.Call.Args {
					if a == h.Params[ai] && q.falseMeansNil(g, i, depth+1) {
						okArg = true
					}
				}
				if okArg {
					continue
				}
			}
		}
		return false
	}
	return true
}

// fromResult: a relation about the result of a call, from the function that is called.
func (q *Prover) fromResult(x, y term, c int64, pt Point, xIsResult bool) bool {
	rt := x
	if !xIsResult {
		rt = y
	}
	call, idx := resultOf(rt.v)
	if call == nil {
		return false
	}
	if _, ok := call.Call.Value.(*ssa.Builtin); ok {
		return false
	}
	targets := q.p.resolve(&call.Call)
	if len(targets) == 0 || q.depth > 16 {
		return false
	}
	for _, f := range targets {
		if f.Blocks == nil {
			return false
		}
		rets := q.returnsUnder(call, f, pt)
		args := call.Call.Args
		if call.Call.IsInvoke() {
			args = append([]ssa.Value{call.Call.Value}, args...)
		}
		other := y
		if !xIsResult {
			other = x
		}
		// the other side as a parameter of the callee
		var alts []term
		var offs []int64
		if other.k == tZero {
			alts, offs = append(alts, term{}), append(offs, 0)
		} else {
			for i, a := range args {
				if i >= len(f.Params) {
					break
				}
				if _, _, ok := intInfo(a.Type()); ok {
					n, o := q.norm(a, pt)
					if n == other {
						alts, offs = append(alts, term{tVal, f.Params[i]}), append(offs, o)
					} else if n.k == tZero && other.k != tZero {
						continue
					}
				} else if other.k == tLen {
					n, o := q.lenOf(a, pt)
					if n == other {
						alts, offs = append(alts, term{tLen, f.Params[i]}), append(offs, o)
					}
				}
			}
			// constants passed as arguments bound things as well
			for i, a := range args {
				if k, ok := constOf(a); ok && i < len(f.Params) {
					// result vs constant argument: result <= param, param = k
					if xIsResult && q.prove(term{}, other, c-k, pt) {
						alts, offs = append(alts, term{tVal, f.Params[i]}), append(offs, 0)
						_ = k
					}
				}
			}
		}
		if other.k == tZero {
			for i, a := range args {
				if k, ok := constOf(a); ok && i < len(f.Params) {
					// 0 as parameter minus its constant value
					alts, offs = append(alts, term{tVal, f.Params[i]}), append(offs, k)
				}
			}
		}
		proven := false
		for ai, alt := range alts {
			all := true
			for _, ret := range rets {
				if idx >= len(ret.Results) {
					all = false
					break
				}
				rp := Point{b: ret.Block()}
				var tr term
				var or int64
				if rt.k == tLen {
					tr, or = q.lenOf(ret.Results[idx], rp)
				} else {
					tr, or = q.norm(ret.Results[idx], rp)
				}
				var ok bool
				if xIsResult {
					// result <= other + c ; other = param - off
					cc := c - offs[ai]
					if other.k != tZero && alt.k == tVal && alt.v != nil {
						if k, isC := constOf(argFor(args, f, alt.v)); isC {
							// param = k; other >= k - c was shown
							_ = k
							cc = 0
						}
					}
					ok = q.prove(tr, alt, cc-or, rp)
				} else {
					ok = q.prove(alt, tr, c+offs[ai]+or, rp)
				}
				if !ok {
					all = false
					break
				}
			}
			if all && len(rets) > 0 {
				proven = true
				break
			}
		}
		if !proven {
			return false
		}
	}
	return true
}

func argFor(args []ssa.Value, f *ssa.Function, p ssa.Value) ssa.Value {
	i := paramIndex(f, p)
	if i >= 0 && i < len(args) {
		return args[i]
	}
	return p
}

// fromCalls: a relation between values that were passed to a function whose outcome is known here, because
// the function only has that outcome if the relation holds.
func (q *Prover) fromCalls(x, y term, c int64, pt Point) bool {
	if q.depth > 12 {
		return false
	}
	tried := map[*ssa.Call]bool{}
	try := func(call *ssa.Call) bool {
		if call == nil || tried[call] {
			return false
		}
		tried[call] = true
		f := call.Call.StaticCallee()
		if f == nil || f.Blocks == nil || f.Pkg == nil || !isModPath(f.Pkg.Pkg.Path()) {
			return false
		}
		rets := q.returnsUnder(call, f, pt)
		if len(rets) == 0 {
			return false
		}
		back := func(t term) []fact { // candidates: term, offset such that t = cand - off
			if t.k == tZero {
				return []fact{{x: term{}}}
			}
			var out []fact
			for i, a := range call.Call.Args {
				if i >= len(f.Params) {
					break
				}
				if _, _, ok := intInfo(a.Type()); ok {
					if n, o := q.norm(a, pt); n == t {
						out = append(out, fact{x: term{tVal, f.Params[i]}, c: o})
					}
				} else if t.k == tLen {
					if n, o := q.lenOf(a, pt); n == t {
						out = append(out, fact{x: term{tLen, f.Params[i]}, c: o})
					}
				}
			}
			return out
		}
		for _, cx := range back(x) {
			for _, cy := range back(y) {
				if cx.x == cy.x {
					continue
				}
				all := true
				for _, ret := range rets {
					rp := Point{b: ret.Block()}
					if q.prove(cx.x, cy.x, c+cx.c-cy.c, rp) {
						continue
					}
					if !q.proveReturned(call, ret, pt, cx.x, cy.x, c+cx.c-cy.c) {
						all = false
						break
					}
				}
				if all {
					return true
				}
			}
		}
		return false
	}
	for _, cd := range q.conds(pt) {
		if call, ok := cd.v.(*ssa.Call); ok {
			if try(call) {
				return true
			}
			for _, a := range call.Call.Args {
				if isErrorType(a.Type()) {
					if rc, _ := resultOf(q.canon(a)); try(rc) {
						return true
					}
				}
			}
		}
		if e, ok := cd.v.(*ssa.Extract); ok {
			if rc, _ := resultOf(e); try(rc) {
				return true
			}
		}
		if bo, ok := cd.v.(*ssa.BinOp); ok {
			for _, o := range []ssa.Value{bo.X, bo.Y} {
				if isErrorType(o.Type()) || isBoolType(o.Type()) {
					if rc, _ := resultOf(q.canon(o)); try(rc) {
						return true
					}
				}
			}
		}
	}
	return false
}

// proveReturned: the callee returns a boolean expression; use it as a condition.
func (q *Prover) proveReturned(call *ssa.Call, ret *ssa.Return, pt Point, x, y term, c int64) bool {
	for _, cd := range q.conds(pt) {
		if rc, i := resultOf(cd.v); rc == call && isBoolType(cd.v.Type()) && i < len(ret.Results) {
			r := ret.Results[i]
			// facts from the returned expression itself
			saved := q.factsOf
			q.factsOf = map[Point][]fact{}
			for k, v := range saved {
				q.factsOf[k] = v
			}
			rp := Point{b: ret.Block()}
			extra := q.condFacts(q.expand(condAt{r, cd.truth, ret.Block()}, 0), rp)
			q.factsOf[rp] = append(append([]fact{}, q.facts(rp)...), extra...)
			ok := q.prove(x, y, c, rp)
			q.factsOf = saved
			if ok {
				return true
			}
		}
	}
	return false
}

// condFacts gives the order relations of explicit conditions.
func (q *Prover) condFacts(cs []condAt, pt Point) []fact {
	var out []fact
	for _, c := range cs {
		bo, ok := c.v.(*ssa.BinOp)
		if !ok {
			continue
		}
		if _, _, isInt := intInfo(bo.X.Type()); !isInt {
			continue
		}
		tx, ox := q.norm(bo.X, pt)
		ty, oy := q.norm(bo.Y, pt)
		op := bo.Op
		if !c.truth {
			op = map[token.Token]token.Token{token.LSS: token.GEQ, token.LEQ: token.GTR, token.GTR: token.LEQ, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
		}
		le := func(a term, oa int64, b term, ob int64, k int64) { out = append(out, fact{a, b, ob + k - oa}) }
		switch op {
		case token.LSS:
			le(tx, ox, ty, oy, -1)
		case token.LEQ:
			le(tx, ox, ty, oy, 0)
		case token.GTR:
			le(ty, oy, tx, ox, -1)
		case token.GEQ:
			le(ty, oy, tx, ox, 0)
		case token.EQL:
			le(tx, ox, ty, oy, 0)
			le(ty, oy, tx, ox, 0)
		}
	}
	return out
}
