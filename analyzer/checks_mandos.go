package main

// M01-M05: the scenario language (mandos): what is read, written, checked and rolled back.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("M01", checkM01)
}

const (
	mjModel = "mandos-go/json/model"
	mjParse = "mandos-go/json/parse"
	mjWrite = "mandos-go/json/write"
	mjOJ    = "mandos-go/orderedjson"
	mjExec  = "arwenmandos"
)

// mfield is a field of a struct of the scenario model.
type mfield struct {
	strct string
	name  string
	t     types.Type
}

func (f mfield) String() string { return f.strct + "." + f.name }

// mkind says how a field of the model holds its value.
type mkind int

const (
	mkOther  mkind = iota
	mkValue        // JSONUint64, JSONBytesFromString, ...: a value with its original notation
	mkCheck        // JSONCheck...: an expectation
	mkString       // a plain text
	mkBool
	mkEnum
	mkList // a list of something
	mkPtr  // a nested part of the model
)

func modelNamed(t types.Type) *types.Named {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || relPath(n.Obj().Pkg().Path()) != mjModel {
		return nil
	}
	return n
}

// isValueType: a leaf of the model: a struct with an Original field.
func isValueType(t types.Type) (value, check bool) {
	n := modelNamed(t)
	if n == nil {
		return false, false
	}
	if _, isPtr := t.(*types.Pointer); isPtr {
		return false, false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false, false
	}
	orig, unspec := false, false
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "Original":
			orig = true
		case "Unspecified":
			unspec = true
		}
	}
	return orig, orig && unspec
}

func kindOf(t types.Type) mkind {
	if v, c := isValueType(t); c {
		return mkCheck
	} else if v {
		return mkValue
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkBool
		case u.Info()&types.IsString != 0:
			return mkString
		case u.Info()&types.IsInteger != 0:
			return mkEnum
		}
	case *types.Slice:
		return mkList
	case *types.Pointer:
		return mkPtr
	}
	return mkOther
}

// modelPart: a struct of the model that is not a leaf.
func modelPart(t types.Type) *types.Named {
	n := modelNamed(t)
	if n == nil {
		return nil
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return nil
	}
	if v, _ := isValueType(n); v {
		return nil
	}
	return n
}

func modelFields(p *Prog) []mfield {
	var out []mfield
	pk := p.Pkgs[mjModel]
	if pk == nil {
		return nil
	}
	sc := pk.Types.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		mp := modelPart(tn.Type())
		if mp == nil {
			continue
		}
		st := mp.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			out = append(out, mfield{n, st.Field(i).Name(), st.Field(i).Type()})
		}
	}
	return out
}

// fieldOfModel: the field of the model an address denotes, if the address is directly that of a field of a part.
func fieldOfModel(x *ssa.FieldAddr) (mfield, bool) {
	mp := modelPart(deref(x.X.Type()))
	if mp == nil {
		return mfield{}, false
	}
	f := mp.Underlying().(*types.Struct).Field(x.Field)
	return mfield{mp.Obj().Name(), f.Name(), f.Type()}, true
}

// fieldOfModelV is the same for a part held as a value.
func fieldOfModelV(x *ssa.Field) (mfield, bool) {
	mp := modelPart(x.X.Type())
	if mp == nil {
		return mfield{}, false
	}
	f := mp.Underlying().(*types.Struct).Field(x.Field)
	return mfield{mp.Obj().Name(), f.Name(), f.Type()}, true
}

func isKV(t types.Type) bool {
	pt, ok := t.(*types.Pointer)
	return ok && typeName(pt) == "OJsonKeyValuePair"
}

// ---- what the reader reads

type readPlace struct {
	keys  map[string]bool            // the names under which the field is read ("*": any name)
	outer map[string]bool            // the nearest fixed names
	when  map[string]map[string]bool // other flags of the same part, as they are when the field is read
	types map[int64]bool             // kinds of transaction for which it is read; nil when it does not depend on it
	pos   token.Pos
	// for flags
	recs map[flagRec]bool
	init map[string]bool // the values it has before anything is read
}

// flagRec: how a flag gets a value: "t" or "f" because an entry of this name is there, with a star for a value, or
// "" from the value of the entry.
type flagRec struct {
	v, key string
	star   string // "t": its value is a star, "f": it is not, "": either
}

type reader struct {
	p      *Prog
	places map[mfield]*readPlace
	runs   int
	funcs  map[string]bool
}

const kvSep = "\x1f"

// pushKey: a new entry of a JSON map is looked at by instruction id.
func pushKey(c string, id int) string {
	st := kvGet(c, "K")
	var out []string
	mark := fmt.Sprintf("%d=", id)
	if st != "" {
		for _, e := range strings.Split(st, kvSep) {
			if strings.HasPrefix(e, mark) {
				break
			}
			out = append(out, e)
		}
	}
	out = append(out, mark+"*")
	return kvSet(c, "K", strings.Join(out, kvSep))
}

func nameKey(c string, key string) string {
	st := kvGet(c, "K")
	if st == "" {
		return c
	}
	es := strings.Split(st, kvSep)
	last := es[len(es)-1]
	es[len(es)-1] = last[:strings.Index(last, "=")+1] + key
	return kvSet(c, "K", strings.Join(es, kvSep))
}

func topKeys(c string) (top, outer string) {
	st := kvGet(c, "K")
	if st == "" {
		return "", ""
	}
	es := strings.Split(st, kvSep)
	for i := len(es) - 1; i >= 0; i-- {
		k := es[i][strings.Index(es[i], "=")+1:]
		if i == len(es)-1 {
			top = k
		}
		if k != "*" {
			return top, k
		}
	}
	return top, ""
}

// keyTest: cond compares the name of an entry with a fixed one.
func keyTest(cond ssa.Value) (string, bool) {
	b, ok := cond.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ {
		return "", false
	}
	isKey := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		return ok && typeName(fa.X.Type()) == "OJsonKeyValuePair" && fieldName(fa.X.Type(), fa.Field) == "Key"
	}
	for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
		if c, ok := pr[1].(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && isKey(pr[0]) {
			return constant.StringVal(c.Value), true
		}
	}
	return "", false
}

// readModel finds out which part of the format is read into which field of the model. For every block of
// every function of the reader it computes the names of the JSON entries that may be the current ones there
// (a name is current after the comparison with it, within the block and the functions called from it), and
// what is known there of the flags of the model; a store to a field of the model is read from these names.
// For the functions that read according to the kind of a transaction, it further decides for which kinds a
// field that is given is accepted.
func readModel(p *Prog) *reader {
	rd := &reader{p: p, places: map[mfield]*readPlace{}, funcs: map[string]bool{}}
	var fns, typed []*ssa.Function
	for _, f := range p.Funcs {
		if pkgRel(f) != mjParse || len(f.Blocks) == 0 {
			continue
		}
		fns = append(fns, f)
		for _, a := range f.Params {
			if f.Parent() == nil && typeName(a.Type()) == "TransactionType" {
				typed = append(typed, f)
				break
			}
		}
	}
	ids := map[ssa.Instruction]int{}
	var byID []ssa.Instruction
	entry := map[*ssa.Function]map[string]bool{} // contexts
	for _, f := range fns {
		entry[f] = map[string]bool{}
		if f.Object() != nil && f.Object().Exported() {
			entry[f][""] = true
		}
		rd.funcs[fname(f)] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				byID = append(byID, in)
				ids[in] = len(byID) - 1
			}
		}
	}
	// transfer of one instruction
	step := func(in ssa.Instruction, c string) string {
		switch x := in.(type) {
		case *ssa.Store:
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
				if f, ok := fieldOfModel(fa); ok && kindOf(f.t) == mkBool {
					v := ""
					if k, ok := x.Val.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
						v = "f"
						if constant.BoolVal(k.Value) {
							v = "t"
						}
					}
					return kvSet(c, "b:"+f.String(), v)
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL && isKV(x.Type()) {
				return pushKey(kvSet(c, "star", ""), ids[in])
			}
		}
		return c
	}
	edge := func(b *ssa.BasicBlock, i int, c string) (string, bool) {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || b.Succs[0] == b.Succs[1] {
			return c, true
		}
		cond, truth := iff.Cond, i == 0
		if k, ok := keyTest(cond); ok {
			if truth == (cond.(*ssa.BinOp).Op == token.EQL) {
				return nameKey(c, k), true
			}
			return c, true
		}
		for {
			if cl, ok := cond.(*ssa.Call); ok && isStarTest(cl.Call.StaticCallee()) {
				if truth {
					return kvSet(c, "star", "t"), true
				}
				return kvSet(c, "star", "f"), true
			}
			u, ok := cond.(*ssa.UnOp)
			if !ok {
				return c, true
			}
			if u.Op == token.NOT {
				cond, truth = u.X, !truth
				continue
			}
			if fa, ok := u.X.(*ssa.FieldAddr); ok && u.Op == token.MUL {
				if f, ok := fieldOfModel(fa); ok && kindOf(f.t) == mkBool {
					v := "f"
					if truth {
						v = "t"
					}
					if was := kvGet(c, "b:"+f.String()); was != "" && was != v {
						return c, false
					}
					return kvSet(c, "b:"+f.String(), v), true
				}
			}
			return c, true
		}
	}
	local := func(f *ssa.Function, visit func(in ssa.Instruction, c string)) {
		at := make([]map[string]bool, len(f.Blocks))
		for i := range at {
			at[i] = map[string]bool{}
		}
		type item struct {
			b int
			c string
		}
		var work []item
		// a name is current only as long as its entry is: where the entry was taken from the map on every way
		add := func(b int, c string) {
			if k := kvGet(c, "K"); k != "" {
				var keep []string
				for _, e := range strings.Split(k, kvSep) {
					id, _ := strconv.Atoi(e[:strings.Index(e, "=")])
					if at := byID[id]; at != nil && at.Parent() == f && !at.Block().Dominates(f.Blocks[b]) {
						break
					}
					keep = append(keep, e)
				}
				c = kvSet(c, "K", strings.Join(keep, kvSep))
			}
			if !at[b][c] && len(at[b]) < 400 {
				at[b][c] = true
				work = append(work, item{b, c})
			}
		}
		for c := range entry[f] {
			add(0, c)
		}
		for len(work) > 0 {
			it := work[len(work)-1]
			work = work[:len(work)-1]
			c := it.c
			b := f.Blocks[it.b]
			for _, in := range b.Instrs {
				c = step(in, c)
				visit(in, c)
			}
			for i, s := range b.Succs {
				if d, ok := edge(b, i, c); ok {
					add(s.Index, d)
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range fns {
			rd.runs++
			local(f, func(in ssa.Instruction, c string) {
				var callee *ssa.Function
				switch x := in.(type) {
				case ssa.CallInstruction:
					callee = x.Common().StaticCallee()
				case *ssa.MakeClosure:
					callee, _ = x.Fn.(*ssa.Function)
				}
				if callee == nil || entry[callee] == nil {
					return
				}
				k := kvGet(c, "K")
				if es := strings.Split(k, kvSep); len(es) > 5 {
					k = strings.Join(es[len(es)-5:], kvSep)
				}
				d := kvSet("", "K", k)
				if !entry[callee][d] {
					entry[callee][d] = true
					ch = true
				}
			})
		}
	}
	fieldsOf := map[*ssa.Function]map[mfield]bool{}
	for _, f := range fns {
		local(f, func(in ssa.Instruction, c string) {
			x, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := x.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			m, ok := fieldOfModel(fa)
			if !ok {
				return
			}
			if kindOf(m.t) == mkBool {
				rd.flag(c, m, x)
			}
			if fromInput(x.Val, 0, map[ssa.Value]bool{}) && rd.note(c, m, x.Pos()) {
				if fieldsOf[f] == nil {
					fieldsOf[f] = map[mfield]bool{}
				}
				fieldsOf[f][m] = true
			}
		})
	}
	for _, root := range typed {
		fields := map[mfield]bool{}
		seen := map[*ssa.Function]bool{}
		var visit func(f *ssa.Function, depth int)
		visit = func(f *ssa.Function, depth int) {
			if f == nil || seen[f] || entry[f] == nil || depth > 4 {
				return
			}
			seen[f] = true
			for m := range fieldsOf[f] {
				if txPart(p, m.strct) {
					fields[m] = true
				}
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						visit(ci.Common().StaticCallee(), depth+1)
					}
				}
			}
		}
		visit(root, 0)
		for m := range fields {
			pl := rd.place(m)
			if pl.types == nil {
				pl.types = map[int64]bool{}
			}
			for _, k := range txKinds(p) {
				if rd.accepts(root, m, k) {
					pl.types[k] = true
				}
			}
		}
	}
	return rd
}

// fromInput: the value is made from what is read: JSON, or a text or something general handed over.
func fromInput(v ssa.Value, depth int, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] || depth > 25 {
		return false
	}
	seen[v] = true
	if pkgRelOf(deref(v.Type())) == mjOJ {
		return true
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		if _, ok := x.Type().Underlying().(*types.Interface); ok && typeName(x.Type()) != "error" {
			return true
		}
		if modelNamed(x.Type()) != nil {
			return typeName(x.Type()) != "TransactionType"
		}
		switch u := x.Type().Underlying().(type) {
		case *types.Slice:
			return true
		case *types.Basic:
			return u.Info()&types.IsString != 0 || u.Info()&types.IsBoolean != 0
		}
		return false
	case *ssa.Alloc:
		for _, ref := range *x.Referrers() {
			switch y := ref.(type) {
			case *ssa.Store:
				if y.Addr == x && fromInput(y.Val, depth+1, seen) {
					return true
				}
			case *ssa.FieldAddr, *ssa.IndexAddr:
				for _, r2 := range *y.(ssa.Value).Referrers() {
					if s, ok := r2.(*ssa.Store); ok && s.Addr == y.(ssa.Value) && fromInput(s.Val, depth+1, seen) {
						return true
					}
				}
			case ssa.CallInstruction:
				for _, a := range y.Common().Args {
					if a != ssa.Value(x) && fromInput(a, depth+1, seen) {
						return true
					}
				}
			}
		}
		return false
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, op := range in.Operands(nil) {
		if op != nil && *op != nil && fromInput(*op, depth+1, seen) {
			return true
		}
	}
	return false
}

// txPart: the part is a transaction or directly holds one.
func txPart(p *Prog, strct string) bool {
	if strct == "Transaction" {
		return true
	}
	for _, m := range modelFields(p) {
		if m.strct == strct && kindOf(m.t) == mkPtr && typeName(m.t) == "Transaction" {
			return true
		}
	}
	return false
}

// isStarTest: a function of the reader that tells whether a value is a star.
func isStarTest(f *ssa.Function) bool {
	if f == nil || pkgRel(f) != mjParse || len(f.Params) != 1 || f.Signature.Results().Len() != 1 || pkgRelOf(deref(f.Params[0].Type())) != mjOJ {
		return false
	}
	if b, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.BinOp); ok {
				for _, o := range []ssa.Value{x.X, x.Y} {
					if c, ok := o.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) == "*" {
						return true
					}
				}
			}
		}
	}
	return false
}

// initial: the store fills a new part before any entry was looked at in this function.
func (rd *reader) initial(x *ssa.Store) bool {
	fa := x.Addr.(*ssa.FieldAddr)
	if _, ok := fa.X.(*ssa.Alloc); !ok {
		return false
	}
	for _, b := range x.Parent().Blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && isKV(u.Type()) && b.Dominates(x.Block()) {
				return false
			}
		}
	}
	return true
}

// flag records how a flag gets its value.
func (rd *reader) flag(c string, f mfield, x *ssa.Store) {
	top, _ := topKeys(c)
	pl := rd.place(f)
	if pl.recs == nil {
		pl.recs, pl.init = map[flagRec]bool{}, map[string]bool{}
	}
	v := ""
	if k, ok := x.Val.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
		v = "f"
		if constant.BoolVal(k.Value) {
			v = "t"
		}
	}
	if top == "" || rd.initial(x) {
		if v != "" {
			pl.init[v] = true
		}
		return
	}
	if cl, ok := x.Val.(*ssa.Call); ok && isStarTest(cl.Call.StaticCallee()) {
		pl.recs[flagRec{"t", top, "t"}] = true
		pl.recs[flagRec{"f", top, "f"}] = true
		return
	}
	star := kvGet(c, "star")
	pl.recs[flagRec{v, top, star}] = true
	if v != "" {
		rd.note(c, f, x.Pos())
	}
}

// note records that a field is read in a context.
func (rd *reader) note(c string, f mfield, pos token.Pos) bool {
	top, outer := topKeys(c)
	if top == "" {
		return false // the initial value of a part
	}
	pl := rd.place(f)
	pl.keys[top] = true
	if outer != "" {
		pl.outer[outer] = true
	}
	if !pl.pos.IsValid() {
		pl.pos = pos
	}
	for _, m := range modelFields(rd.p) {
		if m.strct == f.strct && m.name != f.name && kindOf(m.t) == mkBool {
			if pl.when[m.name] == nil {
				pl.when[m.name] = map[string]bool{}
			}
			pl.when[m.name][kvGet(c, "b:"+m.String())] = true
		}
	}
	return true
}

func txKinds(p *Prog) []int64 { return enumConsts(p, "TransactionType") }

func enumConsts(p *Prog, name string) []int64 {
	pk := p.Pkgs[mjModel]
	if pk == nil {
		return nil
	}
	sc := pk.Types.Scope()
	seen := map[int64]bool{}
	var out []int64
	for _, n := range sc.Names() {
		c, ok := sc.Lookup(n).(*types.Const)
		if !ok || typeName(c.Type()) != name {
			continue
		}
		if v, ok := constant.Int64Val(c.Val()); ok && !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func (rd *reader) place(f mfield) *readPlace {
	pl := rd.places[f]
	if pl == nil {
		pl = &readPlace{keys: map[string]bool{}, outer: map[string]bool{}, when: map[string]map[string]bool{}}
		rd.places[f] = pl
	}
	return pl
}

// accepts: a transaction of this kind that gives the field is read without an error.
func (rd *reader) accepts(root *ssa.Function, field mfield, kind int64) bool {
	rd.runs++
	e := newEngine(rd.p)
	e.Skip = func(f *ssa.Function) bool {
		rel := pkgRel(f)
		return rel != mjParse && rel != mjModel
	}
	e.Force = func(f *ssa.Function) bool {
		if pkgRel(f) == mjModel {
			return true
		}
		for _, a := range f.Params {
			if typeName(a.Type()) == "TransactionType" || typeName(a.Type()) == "Transaction" {
				return true
			}
		}
		return false
	}
	e.IsRelevantInstr = func(in ssa.Instruction) bool { return false }
	for _, a := range root.Params {
		v := Val{}
		if typeName(a.Type()) == "TransactionType" {
			v = vint(kind)
		}
		e.Args = append(e.Args, v)
	}
	present := func(t types.Type) bool {
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return true
		case *types.Basic:
			return u.Info()&types.IsString != 0
		}
		return false
	}
	e.Instr = func(e *Engine, fn *ssa.Function, in ssa.Instruction, st *State) {
		if x, ok := in.(*ssa.Store); ok {
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
				if f, ok := fieldOfModel(fa); ok && f == field && fromInput(x.Val, 0, map[ssa.Value]bool{}) {
					st.C = kvSet(st.C, "s", "1")
				}
			}
		}
	}
	e.Load = func(st *State, x *ssa.UnOp) (Val, bool) {
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok {
			return Val{}, false
		}
		if f, ok := fieldOfModel(fa); ok {
			if f.strct == "Transaction" && f.name == "Type" {
				return vint(kind), true
			}
			if present(x.Type()) {
				return vtag("given"), true
			}
		}
		if v, _ := isValueType(deref(fa.X.Type())); v && present(x.Type()) {
			return vtag("given"), true
		}
		return Val{}, false
	}
	e.Event = func(c *CallCtx) ([]Outcome, bool) {
		if c.Name == "builtin.len" && len(c.Args) == 1 {
			if c.Args[0] == vtag("given") || c.Args[0].K != VNil && present(c.Com.Args[0].Type()) && pkgRel(c.Instr.Parent()) == mjParse {
				if _, isStr := c.Com.Args[0].Type().Underlying().(*types.Basic); isStr || c.Args[0] == vtag("given") {
					return []Outcome{{C: c.St.C, Res: []Val{vtag("given#")}}}, true
				}
			}
		}
		return nil, false
	}
	e.BinOp = func(op token.Token, a, b Val) (Val, bool) { return presentOp("given#", op, a, b) }
	for _, x := range e.Run(root, "") {
		if kvGet(x.C, "s") == "" {
			continue
		}
		ok := len(x.Res) == 0
		if n := len(x.Res); n > 0 {
			isNil, known := x.Res[n-1].isNil()
			ok = !known || isNil
		}
		if ok {
			return true
		}
	}
	return false
}

func pkgRelOf(t types.Type) string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return relPath(n.Obj().Pkg().Path())
	}
	return ""
}

// presentOp decides comparisons of the length of something that is present.
func presentOp(tag string, op token.Token, a, b Val) (Val, bool) {
	swap := map[token.Token]token.Token{token.GTR: token.LSS, token.LSS: token.GTR, token.GEQ: token.LEQ, token.LEQ: token.GEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
	if b == vtag(tag) {
		a, b = b, a
		op = swap[op]
	}
	if a != vtag(tag) || b.K != VInt || b.N > 1 || b.N < 0 {
		return Val{}, false
	}
	switch {
	case b.N == 0 && (op == token.GTR || op == token.NEQ || op == token.GEQ):
		return vbool(true), true
	case b.N == 0 && (op == token.EQL || op == token.LEQ || op == token.LSS):
		return vbool(false), true
	case b.N == 1 && op == token.GEQ:
		return vbool(true), true
	case b.N == 1 && op == token.LSS:
		return vbool(false), true
	}
	return Val{}, false
}

// ---- what the writer writes

type writeRun struct {
	p    *Prog
	f    mfield
	k    mkind
	n    int64           // length of every list
	kind int64           // kind of transaction, -1: any
	mark map[string]bool // for flags: the entries that tell one value from the other
	flag *Val            // value of a flag or an enumeration
	rd   *reader
	// what was found
	keys   map[string]token.Pos // names under which the field itself is written
	above  map[string]bool      // all names on the way from it to the top
	puts   map[string]bool      // for flags: what is written where
	edges  map[string]map[string]bool
	direct map[string]bool
	lazy   map[string]bool // maps that may hold the field
	miss   string
	enums  map[string]bool
	part   token.Pos // where only a part of the list is taken
	raw    token.Pos // where the bytes are written as they are
	used   bool // some path touched the part and was judged
	over   []string
	funcs  map[*ssa.Function]bool
}

const (
	tF    = "M:F"  // derived from the field
	tLenM = "M:F#" // its length
	tL    = "M:L"  // the list itself
	tE    = "M:E"  // an element of it, or the nested part
	tA    = "M:A"  // its address
	tOL   = "M:O"  // another list
	tOLN  = "M:ON" // the list of the parts the field belongs to
)

func fromField(v Val) bool {
	return v.K == VTag && (v.T == tF || v.T == tL || v.T == tE || v.T == "M:FV")
}

func (w *writeRun) engine(root *ssa.Function) *Engine {
	e := newEngine(w.p)
	e.MaxState = 20000
	e.Skip = func(f *ssa.Function) bool {
		rel := pkgRel(f)
		return rel != mjWrite && rel != mjModel
	}
	e.Force = func(f *ssa.Function) bool { return true }
	siblings := map[string]bool{}
	pl := w.rd.places[w.f]
	if pl != nil {
		for m, q := range w.rd.places {
			if m.strct == w.f.strct && m != w.f && sameKeys(pl.keys, q.keys) {
				siblings[m.name] = true
			}
		}
	}
	valueFor := func(f mfield) (Val, bool) {
		if f == w.f {
			switch w.k {
			case mkBool, mkEnum:
				if w.flag != nil {
					return *w.flag, true
				}
				return Val{}, false
			case mkList:
				return vtag(tL), true
			case mkPtr:
				return vtag(tE), true
			}
			return vtag(tF), true
		}
		if f.strct == "Transaction" && f.name == "Type" && w.kind >= 0 {
			return vint(w.kind), true
		}
		if f.strct == w.f.strct && pl != nil {
			if siblings[f.name] {
				switch kindOf(f.t) {
				case mkList, mkPtr:
					return Val{K: VNil}, true
				case mkString:
					return vtag("s:"), true
				}
			}
			if vs := pl.when[f.name]; kindOf(f.t) == mkBool && len(vs) == 1 {
				if vs["t"] {
					return vbool(true), true
				}
				if vs["f"] {
					return vbool(false), true
				}
			}
		}
		if kindOf(f.t) == mkList {
			if typeName(elemOf(f.t)) == w.f.strct {
				return vtag(tOLN), true
			}
			if n := modelNamed(elemOf(f.t)); n != nil && modelReach(w.p, n.Obj().Name())[w.f.strct] {
				return vtag(tOL), true
			}
		}
		return Val{}, false
	}
	touch := func(fn *ssa.Function, f mfield, st *State) {
		if f.strct == w.f.strct && pkgRel(fn) == mjWrite {
			st.C = kvSet(st.C, "t", "1")
		}
	}
	byType := func(t types.Type) (Val, bool) {
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
				return vtag(tF), true
			}
			return vtag(tL), true
		case *types.Pointer:
			if modelPart(t) != nil {
				return vtag(tE), true
			}
			return vtag(tF), true
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				return vtag(tF), true
			}
		case *types.Struct, *types.Interface:
			return vtag(tF), true
		}
		return Val{}, false
	}
	e.Addr = func(st *State, x *ssa.FieldAddr) (Val, bool) {
		if f, ok := fieldOfModel(x); ok {
			if b := e.Eval(st, x.X); b.K == VTag && b.T == tE {
				return Val{}, false
			}
			if f == w.f && w.flag == nil && (w.k == mkValue || w.k == mkCheck) {
				touch(x.Parent(), f, st)
				return vtag(tA), true
			}
		}
		return Val{}, false
	}
	e.FieldLoad = func(st *State, base Val, field string) (Val, bool) {
		if base.K != VTag {
			return Val{}, false
		}
		switch base.T {
		case tF, tA, tE:
			switch field {
			case "Unspecified":
				return vbool(false), true
			case "IsStar":
				return Val{}, false
			case "Value":
				if w.k == mkCheck || w.k == mkValue {
					return vtag("M:FV"), true
				}
			}
			return vtag(tF), true
		}
		return Val{}, false
	}
	e.Load = func(st *State, x *ssa.UnOp) (Val, bool) {
		a := e.Eval(st, x.X)
		if a == vtag(tA) || (a == vtag(tE) || a == vtag(tF)) && modelNamed(x.Type()) != nil {
			return vtag(tF), true
		}
		switch y := x.X.(type) {
		case *ssa.IndexAddr:
			b := e.Eval(st, y.X)
			if b.K == VTag && (b.T == tL || b.T == tE || b.T == tF) {
				return byType(x.Type())
			}
			if b.K == VTag && strings.HasPrefix(b.T, "map:") {
				return b, true
			}
		case *ssa.FieldAddr:
			if a.K == VTag && strings.HasPrefix(a.T, "fld|") {
				p := strings.SplitN(a.T, "|", 3)
				base := p[2][strings.LastIndex(p[2], "|")+1:]
				if base == tE || base == tF || base == tA {
					if p[1] == "Unspecified" || p[1] == "IsStar" || p[1] == "Value" {
						return Val{}, false
					}
					return byType(x.Type())
				}
			}
			if f, ok := fieldOfModel(y); ok {
				touch(x.Parent(), f, st)
				return valueFor(f)
			}
		}
		return Val{}, false
	}
	e.SliceOf = func(v Val) (Val, bool) {
		if strings.HasPrefix(v.T, "M:") || strings.HasPrefix(v.T, "map:") {
			return v, true
		}
		return Val{}, false
	}
	better := func(a, b Val) Val { // what a list with both counts as
		if fromField(a) {
			return a
		}
		if fromField(b) {
			return vtag(tF)
		}
		if a.K == VTag && strings.HasPrefix(a.T, "map:") {
			return a
		}
		if b.K == VTag && strings.HasPrefix(b.T, "map:") {
			return b
		}
		return Val{}
	}
	e.Instr = func(e *Engine, fn *ssa.Function, in ssa.Instruction, st *State) {
		switch x := in.(type) {
		case *ssa.Field:
			if f, ok := fieldOfModelV(x); ok {
				touch(fn, f, st)
			}
		case *ssa.Slice:
			if v := e.Eval(st, x.X); v == vtag(tL) && w.k == mkList {
				low, isC := x.Low.(*ssa.Const)
				if x.Low != nil && (!isC || low.Int64() != 0) || x.High != nil {
					w.part = x.Pos()
				}
			}
		case *ssa.Store:
			v := e.Eval(st, x.Val)
			if v.K == VTrue && w.k == mkBool {
				v = vtag("b:t")
			}
			if v.K == VFalse && w.k == mkBool {
				v = vtag("b:f")
			}
			if v.K != VTag {
				return
			}
			switch a := x.Addr.(type) {
			case *ssa.FieldAddr:
				if al, ok := a.X.(*ssa.Alloc); ok && pkgRelOf(deref(al.Type())) == mjOJ {
					e.set(st, al, v)
				}
			case *ssa.Alloc:
				if pkgRelOf(deref(a.Type())) == mjOJ {
					e.set(st, a, v)
				}
			case *ssa.IndexAddr:
				root := ssa.Value(a.X)
				if fromField(v) || strings.HasPrefix(v.T, "map:") {
					if r := better(e.Eval(st, root), v); r.K == VTag {
						e.set(st, root, r)
					}
				}
			}
		}
	}
	e.BinOp = func(op token.Token, a, b Val) (Val, bool) {
		if op == token.ADD {
			if a.K == VInt && b.K == VInt && a.N+b.N <= 3 {
				return vint(a.N + b.N), true
			}
			if fromField(a) || fromField(b) {
				return vtag(tF), true
			}
			return Val{}, false
		}
		if r, ok := presentOp(tLenM, op, a, b); ok {
			return r, true
		}
		if op == token.EQL || op == token.NEQ {
			for _, pr := range [][2]Val{{a, b}, {b, a}} {
				if fromField(pr[0]) && (pr[1].K == VNil || pr[1] == vtag("s:") && pr[0].T == tF) {
					return vbool(op == token.NEQ), true
				}
			}
		}
		return Val{}, false
	}
	siteKey := func(in ssa.Instruction) string { return fmt.Sprintf("%d", e.id(in.(ssa.Value))) }
	_ = siteKey
	e.Event = func(c *CallCtx) ([]Outcome, bool) {
		st := c.St
		res := func(v Val) ([]Outcome, bool) { return []Outcome{{C: st.C, Res: []Val{v}}}, true }
		switch c.Name {
		case "builtin.len":
			switch {
			case c.Args[0].K != VTag:
				if c.Args[0].K == VNil {
					return res(vint(0))
				}
				return nil, false
			case c.Args[0].T == tL || c.Args[0].T == tOLN:
				return res(vint(w.n))
			case c.Args[0].T == tOL:
				return res(vint(1))
			case c.Args[0].T == tF || c.Args[0].T == tE || c.Args[0].T == "M:FV" && w.k == mkValue:
				return res(vtag(tLenM))
			case c.Args[0].T == "s:":
				return res(vint(0))
			}
			return nil, false
		case "builtin.append":
			v := Val{}
			for _, a := range c.Args {
				v = better(v, a)
			}
			if v.K == VTag {
				return res(v)
			}
			return nil, false
		case mjOJ + ".NewMap":
			return res(vtag("map:" + siteKey(c.Instr)))
		case mjOJ + ".OJsonMap.Put":
			if len(c.Args) != 3 {
				return nil, false
			}
			w.put(c)
			return []Outcome{{C: st.C}}, true
		}
		if len(c.Impl) == 0 || c.Com.StaticCallee() != nil && !isModPath(pkgPathOf(c.Com.StaticCallee())) {
			for _, a := range c.Args {
				if fromField(a) {
					return res(vtag(tF))
				}
			}
		}
		return nil, false
	}
	return e
}

func pkgPathOf(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

func sameKeys(a, b map[string]bool) bool {
	if len(a) != 1 || len(b) != 1 {
		return false
	}
	for k := range a {
		if k != "*" && b[k] {
			return true
		}
	}
	return false
}

// instrKey names an instruction the same way in every analysis.
func instrKey(in ssa.Instruction) string {
	for i, x := range in.Block().Instrs {
		if x == in {
			return fmt.Sprintf("%s/%d.%d", fname(in.Parent()), in.Block().Index, i)
		}
	}
	return fname(in.Parent())
}

// put handles an entry written into a JSON map.
func (w *writeRun) put(c *CallCtx) {
	st := c.St
	recv, key, val := c.Args[0], c.E.Eval(st, c.Com.Args[1]), c.Args[2]
	if recv.K != VTag {
		return
	}
	name := "*"
	if key.K == VTag && strings.HasPrefix(key.T, "s:") {
		name = key.T[2:]
	}
	if w.flag != nil {
		d := "?"
		if val.K == VTag && !strings.HasPrefix(val.T, "map:") {
			d = val.T
		}
		pt := fmt.Sprintf("%s|%s|%s", instrKey(c.Instr), name, d)
		w.puts[pt] = true
		if w.mark[pt] {
			st.C = kvSet(st.C, "f", "1")
		}
		if w.k == mkEnum && strings.HasPrefix(d, "s:") {
			w.enums[name+"="+d[2:]] = true
		}
	}
	if val == vtag("M:FV") || key == vtag("M:FV") {
		w.raw = c.Instr.Pos()
	}
	if fromField(val) || fromField(key) {
		if _, ok := w.keys[name]; !ok {
			w.keys[name] = c.Instr.Pos()
		}
		w.above[name] = true
		w.direct[recv.T] = true
		st.C = kvSet(st.C, "d:"+recv.T, "1")
		return
	}
	if val.K == VTag && strings.HasPrefix(val.T, "map:") {
		if w.edges[recv.T] == nil {
			w.edges[recv.T] = map[string]bool{}
		}
		w.edges[recv.T][val.T+"|"+name] = true
		if w.lazy != nil && w.lazy[val.T] {
			st.C = kvSet(st.C, "e:"+recv.T+">"+val.T, "1")
		}
	}
}

// holders: the maps in which the field may end up.
func (w *writeRun) holders() map[string]bool {
	h := map[string]bool{}
	for d := range w.direct {
		h[d] = true
	}
	for ch := true; ch; {
		ch = false
		for par, es := range w.edges {
			for e := range es {
				i := strings.LastIndex(e, "|")
				if h[e[:i]] {
					if !h[par] {
						h[par] = true
						ch = true
					}
					w.above[e[i+1:]] = true
				}
			}
		}
	}
	return h
}

func (w *writeRun) run(root *ssa.Function) {
	w.keys, w.above, w.puts, w.enums = map[string]token.Pos{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	w.edges, w.direct, w.funcs = map[string]map[string]bool{}, map[string]bool{}, map[*ssa.Function]bool{}
	for pass := 0; pass < 2; pass++ {
		e := w.engine(root)
		t0 := time.Now()
		exits := e.Run(root, "")
		if debugOn && time.Since(t0) > time.Second {
			fmt.Fprintf(os.Stderr, "M01 %s pass %d n %d kind %d: %v, %d exits\n", w.f, pass, w.n, w.kind, time.Since(t0), len(exits))
		}
		w.over = append(w.over, e.Overflow...)
		for f := range e.Funcs {
			w.funcs[f] = true
		}
		if w.flag != nil {
			for _, x := range exits {
				if kvGet(x.C, "t") != "" {
					w.used = true
					if kvGet(x.C, "f") == "" {
						w.miss = "not shown"
					}
				}
			}
			return
		}
		if pass == 0 {
			w.lazy = w.holders()
			continue
		}
		for _, x := range exits {
			if debugOn && os.Getenv("VERIF_FIELD") == w.f.String() {
				fmt.Fprintln(os.Stderr, "M01 exit", w.f, w.n, w.kind, x.C, x.Res, w.direct, w.edges)
			}
			if kvGet(x.C, "t") == "" {
				continue
			}
			w.used = true
			if len(x.Res) == 0 || x.Res[0].K != VTag {
				w.miss = "the result of " + fname(root) + " is not followed"
				continue
			}
			has := map[string]bool{}
			for d := range w.direct {
				if kvGet(x.C, "d:"+d) != "" {
					has[d] = true
				}
			}
			for ch := true; ch; {
				ch = false
				for par, es := range w.edges {
					for e := range es {
						c := e[:strings.LastIndex(e, "|")]
						if has[c] && !has[par] && kvGet(x.C, "e:"+par+">"+c) != "" {
							has[par] = true
							ch = true
						}
					}
				}
			}
			if !has[x.Res[0].T] && !fromField(x.Res[0]) {
				w.miss = "there is a path on which the field is given and is not written"
			}
		}
	}
}

// writerRoots: the functions of the writer that turn a whole file into JSON.
func writerRoots(p *Prog) []*ssa.Function {
	var out []*ssa.Function
	called := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if pkgRel(f) != mjWrite {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && g != f {
						called[g] = true
					}
				}
			}
		}
	}
	for _, f := range p.Funcs {
		if pkgRel(f) != mjWrite || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() != 1 || typeName(rs.At(0).Type()) != "OJsonObject" || f.Signature.Params().Len() != 1 {
			continue
		}
		n := typeName(f.Signature.Params().At(0).Type())
		if sl, ok := f.Signature.Params().At(0).Type().(*types.Slice); ok {
			n = typeName(sl.Elem())
		}
		if n == "Scenario" || n == "Test" {
			out = append(out, f)
		}
	}
	return out
}

// reaches: the structs of the model that a file of this kind is made of.
func modelReach(p *Prog, top string) map[string]bool {
	out := map[string]bool{}
	pk := p.Pkgs[mjModel]
	var visit func(t types.Type)
	visit = func(t types.Type) {
		switch u := t.(type) {
		case *types.Slice:
			visit(u.Elem())
			return
		case *types.Pointer:
			visit(u.Elem())
			return
		}
		n := modelNamed(t)
		if n == nil || out[n.Obj().Name()] {
			return
		}
		if it, ok := n.Underlying().(*types.Interface); ok {
			sc := pk.Types.Scope()
			for _, nm := range sc.Names() {
				if tn, ok := sc.Lookup(nm).(*types.TypeName); ok && !types.IsInterface(tn.Type()) && (types.Implements(tn.Type(), it) || types.Implements(types.NewPointer(tn.Type()), it)) {
					visit(tn.Type())
				}
			}
			return
		}
		mp := modelPart(n)
		if mp == nil {
			return
		}
		out[n.Obj().Name()] = true
		st := mp.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			visit(st.Field(i).Type())
		}
	}
	if o := pk.Types.Scope().Lookup(top); o != nil {
		visit(o.Type())
	}
	return out
}

func setStr(m map[string]bool) string {
	var out []string
	for k := range m {
		if k == "*" {
			k = "(any name)"
		}
		out = append(out, k)
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

func checkM01(p *Prog, r *Result) {
	r.Rule = "for every field of the scenario model the reader fills in: on every path of the writer that handles the part the field belongs to, with the field given, a value derived from it is put into the result, under the name it is read from"
	r.Assumptions = []string{"lists are followed with one and with two elements", "two fields that are read from the same name of the same part are not given together"}
	if p.Pkgs[mjModel] == nil || p.Pkgs[mjParse] == nil || p.Pkgs[mjWrite] == nil {
		r.violate("undecided:mandos", "-", "packages of the scenario format not found")
		return
	}
	rd := readModel(p)
	for f := range rd.funcs {
		r.saw(f)
	}
	roots := writerRoots(p)
	if debugOn {
		for f, pl := range rd.places {
			fmt.Fprintln(os.Stderr, "M01 read", f, setStr(pl.keys), pl.when, pl.types)
		}
	}
	r.floor("kinds of files written", len(roots), 2)
	var fields []mfield
	for f, pl := range rd.places {
		if len(pl.keys) > 0 {
			fields = append(fields, f)
		}
	}
	sort.Slice(fields, func(i, j int) bool { return fields[i].String() < fields[j].String() })
	r.floor("fields read from scenarios", len(fields), 60)
	readOf := map[string]map[string]string{} // struct -> name -> field
	for _, f := range fields {
		if readOf[f.strct] == nil {
			readOf[f.strct] = map[string]string{}
		}
		for k := range rd.places[f].keys {
			if k != "*" && len(rd.places[f].keys) == 1 {
				readOf[f.strct][k] = f.name
			}
		}
	}
	judged := map[mfield]bool{}
	for _, root := range roots {
		pt := root.Signature.Params().At(0).Type()
		if sl, ok := pt.(*types.Slice); ok {
			pt = sl.Elem()
		}
		top := typeName(pt)
		reach := modelReach(p, top)
		for _, f := range fields {
			if !reach[f.strct] {
				continue
			}
			pl := rd.places[f]
			k := kindOf(f.t)
			pos := p.pos(pl.pos)
			key := func(what string) string { return what + ":" + f.String() + "@" + top }
			switch k {
			case mkBool:
				var sets []map[string]bool
				for _, v := range []bool{false, true} {
					b := vbool(v)
					w := &writeRun{p: p, f: f, k: k, n: 1, kind: -1, flag: &b, rd: rd}
					w.run(root)
					sets = append(sets, w.puts)
				}
				judged[f] = true
				if sameSet(sets[0], sets[1]) {
					r.violate(key("flag"), pos, "%s is read from a %s, but what is written does not depend on it", f, top)
					continue
				}
				// on every path, a value other than the initial one leaves what the reader takes for it
				bad := false
				for i, v := range []bool{false, true} {
					name := "f"
					if v {
						name = "t"
					}
					if _, d := judgeFlag(pl, name, sets[i], sets[1-i]); d != "" {
						r.violate(key("flagvalue")+":"+name, pos, "%s is read from a %s, but for the value %v %s", f, top, v, d)
						bad = true
						continue
					}
					if pl.init[name] || len(pl.init) == 0 && !v {
						continue
					}
					b := vbool(v)
					w := &writeRun{p: p, f: f, k: k, n: 1, kind: -1, flag: &b, rd: rd}
					w.mark, _ = judgeFlag(pl, name, sets[i], sets[1-i])
					w.run(root)
					if w.used && w.miss != "" {
						r.violate(key("flaglost")+":"+name, pos, "%s is read from a %s, but there are paths on which its value %v does not show in what is written as it is read", f, top, v)
						bad = true
					}
				}
				if !bad {
					r.ok("flags that show in what is written")
				}
				continue
			case mkEnum:
				checkEnum(p, r, rd, f, root, top, pos)
				judged[f] = true
				continue
			case mkOther:
				r.violate(key("kind"), pos, "%s is of a kind that is not followed", f)
				continue
			}
			kinds := []int64{-1}
			if pl.types != nil {
				kinds = nil
				for _, t := range txKinds(p) {
					if pl.types[t] {
						kinds = append(kinds, t)
					}
				}
			}
			used := false
			keys := map[string]token.Pos{}
			above := map[string]bool{}
			miss, missKinds := "", []string{}
			for _, kd := range kinds {
				m := ""
				for _, n := range []int64{1, 2} {
					w := &writeRun{p: p, f: f, k: k, n: n, kind: kd, rd: rd}
					w.run(root)
					for g := range w.funcs {
						r.saw(fname(g))
					}
					if len(w.over) > 0 {
						r.violate(key("undecided"), pos, "%s: %s", f, strings.Join(w.over, "; "))
					}
					if w.used {
						used = true
					}
					if w.part.IsValid() {
						r.violate(key("part"), p.pos(w.part), "only a part of %s is written", f)
					}
					if w.raw.IsValid() {
						r.violate(key("raw"), p.pos(w.raw), "the bytes of %s are written as they are, not in a notation that reads back as them", f)
					}
					if w.miss != "" {
						m = w.miss
					}
					for a, b := range w.keys {
						keys[a] = b
					}
					for a := range w.above {
						above[a] = true
					}
				}
				if m != "" {
					miss = m
					if kd >= 0 {
						missKinds = append(missKinds, fmt.Sprintf("%d", kd))
					}
				}
			}
			if !used {
				// the part is never looked at by this writer; a nested part is judged where it hangs
				continue
			}
			judged[f] = true
			if miss != "" {
				d := ""
				kk := key("dropped")
				if len(missKinds) > 0 && len(missKinds) < len(kinds) {
					d = " for transactions of kind " + strings.Join(missKinds, ",")
					kk += ":" + strings.Join(missKinds, ",")
				}
				r.violate(kk, pos, "%s is read (from %s), but %s when a %s is written%s", f, setStr(pl.keys), miss, top, d)
			} else {
				r.ok("fields written whenever given")
			}
			// names
			if k != mkList && k != mkPtr || k == mkList && !partOrParts(elemOf(f.t)) {
				for name, at := range keys {
					if name == "*" || pl.keys[name] || len(pl.keys) != 1 {
						continue
					}
					if other := readOf[f.strct][name]; other != "" && other != f.name {
						r.violate(key("misplaced")+":"+name, p.pos(at), "%s is written under \"%s\", from where %s.%s is read", f, name, f.strct, other)
					} else if !pl.keys["*"] {
						r.violate(key("renamed")+":"+name, p.pos(at), "%s is written under \"%s\", but read from %s", f, name, setStr(pl.keys))
					}
				}
				if len(pl.keys) == 1 && !pl.keys["*"] {
					for want := range pl.keys {
						if _, ok := keys[want]; ok {
							r.ok("fields written under the name they are read from")
						} else if _, dyn := keys["*"]; !dyn || miss == "" && len(keys) > 0 {
							r.violate(key("name")+":"+want, pos, "%s is read from \"%s\", but never written under it", f, want)
						}
					}
				}
			} else if len(pl.outer) == 1 && len(pl.keys) == 1 {
				for want := range pl.outer {
					if above[want] {
						r.ok("parts written under the name they are read from")
					} else if miss == "" {
						r.violate(key("name")+":"+want, pos, "%s is read from \"%s\", but never written under it", f, want)
					}
				}
			}
		}
	}
	stepNames(p, r)
	for _, f := range fields {
		if !judged[f] {
			r.violate("unwritten:"+f.String(), p.pos(rd.places[f].pos), "%s is read (from %s) into a part no writer handles", f, setStr(rd.places[f].keys))
		}
	}
	r.Counts["analyses of the reader"] = rd.runs

}

// judgeFlag gives the entries, of those written only for this value of a flag, from which the reader takes it; or
// what is wrong with one of them.
func judgeFlag(pl *readPlace, v string, own, other map[string]bool) (map[string]bool, string) {
	good := map[string]bool{}
	for pt := range own {
		if other[pt] {
			continue
		}
		parts := strings.SplitN(pt, "|", 3)
		name, d := parts[1], parts[2]
		for rec := range pl.recs {
			if rec.key != name {
				continue
			}
			switch {
			case rec.v == "" && strings.HasPrefix(d, "b:"):
				if d[2:] != v {
					return nil, "\"" + name + "\" is written with the opposite value"
				}
				good[pt] = true
			case rec.v == "":
				good[pt] = true
			case rec.v == v && (rec.star == "" || (rec.star == "t") == (d == "s:*")):
				good[pt] = true
			case rec.v != v && rec.star == "t" && d == "s:*":
				return nil, "\"" + name + "\" is written as a star"
			}
		}
	}
	return good, ""
}

// partOrParts: a part of the model, or one of several kinds of them.
func partOrParts(t types.Type) bool {
	if modelPart(t) != nil {
		return true
	}
	if n := modelNamed(t); n != nil {
		return types.IsInterface(n)
	}
	return false
}

func elemOf(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return t
}

func sameSet(a, b map[string]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

// stepNames: the name a step gives itself is the one under which the reader makes a step of this type and,
// for transactions, of this kind.
func stepNames(p *Prog, r *Result) {
	pk := p.Pkgs[mjModel]
	var stepT *types.Named
	if o := pk.Types.Scope().Lookup("Step"); o != nil {
		stepT, _ = o.Type().(*types.Named)
	}
	if stepT == nil || !types.IsInterface(stepT) {
		r.violate("undecided:steps", "-", "the interface of the steps of a scenario was not found")
		return
	}
	it := stepT.Underlying().(*types.Interface)
	var readers []*ssa.Function
	for _, g := range p.Funcs {
		if pkgRel(g) == mjParse && g.Parent() == nil && g.Object() != nil && !g.Object().Exported() {
			rs := g.Signature.Results()
			if rs.Len() == 2 && rs.At(0).Type() == types.Type(stepT) && isErrorType(rs.At(1).Type()) {
				readers = append(readers, g)
			}
		}
	}
	n := 0
	seen := map[string]string{}
	sc := pk.Types.Scope()
	for _, nm := range sc.Names() {
		tn, ok := sc.Lookup(nm).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) || !types.Implements(types.NewPointer(tn.Type()), it) {
			continue
		}
		kinds := []int64{-1}
		if txPart(p, nm) {
			kinds = txKinds(p)
		}
		fn := p.fn(mjModel + "." + nm + ".StepTypeName")
		if fn == nil {
			for _, g := range p.Funcs {
				if g.Name() == "StepTypeName" && g.Signature.Recv() != nil && typeName(g.Signature.Recv().Type()) == nm {
					fn = g
				}
			}
		}
		for _, kd := range kinds {
			what := nm
			if kd >= 0 {
				what = fmt.Sprintf("%s of kind %d", nm, kd)
			}
			n++
			key := strings.ReplaceAll("step:"+what, " ", "_")
			if fn == nil {
				r.violate("undecided:"+key, "-", "the name of %s was not found", what)
				continue
			}
			r.saw(fname(fn))
			e := newEngine(p)
			e.Force = func(f *ssa.Function) bool { return pkgRel(f) == mjModel }
			e.Load = func(st *State, x *ssa.UnOp) (Val, bool) {
				if typeName(x.Type()) == "TransactionType" {
					return vint(kd), true
				}
				return Val{}, false
			}
			name, many := "", false
			for _, x := range e.Run(fn, "") {
				if len(x.Res) != 1 || x.Res[0].K != VTag || !strings.HasPrefix(x.Res[0].T, "s:") {
					many = true
					continue
				}
				if name != "" && name != x.Res[0].T[2:] {
					many = true
				}
				name = x.Res[0].T[2:]
			}
			if name == "" || many {
				r.violate(key, p.pos(fn.Pos()), "the name under which %s is written is not a fixed one", what)
				continue
			}
			if o := seen[name]; o != "" {
				r.violate(key, p.pos(fn.Pos()), "%s and %s are both written as \"%s\"", what, o, name)
				continue
			}
			seen[name] = what
			got := map[string]bool{}
			for _, g := range readers {
				for _, x := range runStepReader(p, g, name) {
					got[x] = true
				}
			}
			want := nm
			if kd >= 0 {
				want = fmt.Sprintf("%s/%d", nm, kd)
			}
			if len(got) == 1 && got[want] {
				r.ok("steps whose name reads back as the same kind of step")
			} else {
				r.violate(key, p.pos(fn.Pos()), "%s is written as \"%s\", which is read as %s", what, name, setStr(got))
			}
		}
	}
	r.floor("kinds of steps", n, 9)
}

// runStepReader: what kinds of step a reader of steps can return for a step of this name.
func runStepReader(p *Prog, root *ssa.Function, name string) []string {
	e := newEngine(p)
	e.Skip = func(f *ssa.Function) bool {
		rel := pkgRel(f)
		return rel != mjParse && rel != mjModel
	}
	e.Force = func(f *ssa.Function) bool {
		if pkgRel(f) == mjModel {
			return true
		}
		rs := f.Signature.Results()
		if rs.Len() != 2 || !isErrorType(rs.At(1).Type()) {
			return false
		}
		t := typeName(rs.At(0).Type())
		return t == "string" || t == "Transaction" || t == "Step" || strings.HasSuffix(t, "Step")
	}
	e.Load = func(st *State, x *ssa.UnOp) (Val, bool) {
		if fa, ok := x.X.(*ssa.FieldAddr); ok && typeName(fa.X.Type()) == "OJsonString" {
			return vtag("s:" + name), true
		}
		return Val{}, false
	}
	e.BinOp = func(op token.Token, a, b Val) (Val, bool) {
		if a.K == VTag && b.K == VTag && strings.HasPrefix(a.T, "s:") && strings.HasPrefix(b.T, "s:") && (op == token.EQL || op == token.NEQ) {
			return vbool((a.T == b.T) == (op == token.EQL)), true
		}
		return Val{}, false
	}
	e.Instr = func(e *Engine, fn *ssa.Function, in ssa.Instruction, st *State) {
		switch x := in.(type) {
		case *ssa.Alloc:
			if mp := modelPart(deref(x.Type())); mp != nil && mp.Obj().Pkg().Scope().Lookup("Step") != nil {
				if step, ok := mp.Obj().Pkg().Scope().Lookup("Step").Type().Underlying().(*types.Interface); ok && types.Implements(types.NewPointer(mp), step) {
					st.C = kvSet(st.C, "T", mp.Obj().Name())
				}
			}
		case *ssa.Store:
			if typeName(x.Val.Type()) == "TransactionType" {
				if v := e.Eval(st, x.Val); v.K == VInt {
					st.C = kvSet(st.C, "k", fmt.Sprintf("%d", v.N))
				}
			}
		}
	}
	var out []string
	for _, x := range e.Run(root, "") {
		if len(x.Res) == 2 {
			if isNil, known := x.Res[1].isNil(); known && !isNil {
				continue
			}
		}
		t := kvGet(x.C, "T")
		if txPart(p, t) {
			if kvGet(x.C, "k") == "" {
				continue // without a transaction
			}
			t += "/" + kvGet(x.C, "k")
		}
		out = append(out, t)
	}
	return out
}

// checkEnum: each value of an enumeration is written as a name that reads back as this value.
func checkEnum(p *Prog, r *Result, rd *reader, f mfield, root *ssa.Function, top, pos string) {
	tn := typeName(f.t)
	// how the reader understands names
	var readers []*ssa.Function
	for _, g := range p.Funcs {
		if pkgRel(g) != mjParse || g.Parent() != nil {
			continue
		}
		rs := g.Signature.Results()
		if rs.Len() == 2 && typeName(rs.At(0).Type()) == tn && isErrorType(rs.At(1).Type()) {
			readers = append(readers, g)
		}
	}
	understands := func(name string) (int64, bool) {
		for _, g := range readers {
			e := newEngine(p)
			e.Skip = func(h *ssa.Function) bool { return pkgRel(h) != mjParse }
			e.Force = func(h *ssa.Function) bool { return true }
			e.Load = func(st *State, x *ssa.UnOp) (Val, bool) {
				if fa, ok := x.X.(*ssa.FieldAddr); ok && typeName(fa.X.Type()) == "OJsonString" {
					return vtag("s:" + name), true
				}
				return Val{}, false
			}
			got := map[int64]bool{}
			for _, x := range e.Run(g, "") {
				if len(x.Res) == 2 && x.Res[1].K == VNil && x.Res[0].K == VInt {
					got[x.Res[0].N] = true
				}
			}
			if len(got) == 1 {
				for v := range got {
					return v, true
				}
			}
		}
		return 0, false
	}
	vals := enumConsts(p, tn)
	for _, v := range vals {
		b := vint(v)
		w := &writeRun{p: p, f: f, k: mkEnum, n: 1, kind: -1, flag: &b, rd: rd}
		w.run(root)
		good := false
		var names []string
		for kv := range w.enums {
			i := strings.Index(kv, "=")
			if !rd.places[f].keys[kv[:i]] {
				continue
			}
			names = append(names, kv[i+1:])
			if got, ok := understands(kv[i+1:]); ok && got == v {
				good = true
			}
		}
		sort.Strings(names)
		if good && len(names) == 1 {
			r.ok("values of an enumeration that read back as themselves")
		} else {
			r.violate(fmt.Sprintf("enum:%s=%d@%s", f, v, top), pos, "value %d of %s is written as %q, which does not read back as it", v, f, names)
		}
	}
}
