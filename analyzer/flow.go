package main

// A flow-insensitive, field-sensitive, call-by-inlining data-flow analysis: which parts of the parameters
// of a function can end up in which parts of the objects it reaches or returns. Labels are access paths
// from the parameters ("s.vmInput.CallerAddr"); objects are allocation sites per inlined call, or the
// objects the parameters stand for.

import (
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type fobj struct {
	id    int
	path  string // access path when it is (part of) a parameter
	typ   types.Type
	site  ssa.Instruction
	slots map[string]*fval
	deep  map[string]bool // labels that any part of the object may carry
	depth int
}

type loc struct {
	o *fobj
	f string // "" = the object itself
}

type fclos struct {
	fn   *ssa.Function
	bind []*fval
}

type fval struct {
	labels map[string]bool
	ptrs   map[loc]bool
	fns    map[*ssa.Function]*fclos
	tuple  []*fval
}

func newFval() *fval {
	return &fval{labels: map[string]bool{}, ptrs: map[loc]bool{}, fns: map[*ssa.Function]*fclos{}}
}

type fframe struct {
	fn     *ssa.Function
	vals   map[ssa.Value]*fval
	objs   map[ssa.Value]*fobj
	kids   map[ssa.Instruction]map[*ssa.Function]*fframe
	parent *fframe
	depth  int
	ret    []*fval
}

// FlowCall is a call that left the analysed code.
type FlowCall struct {
	Name  string
	Fn    *ssa.Function
	Instr ssa.Instruction
	Args  []*fval
	Res   *fval
}

// FlowStore is a store into a named slot.
type FlowStore struct {
	Fn    *ssa.Function
	Instr ssa.Instruction
	Loc   loc
	Val   *fval
}

// Flow is one analysis.
type Flow struct {
	P      *Prog
	Root   *fframe
	Calls  map[ssa.Instruction]*FlowCall
	Inline func(fn *ssa.Function) bool
	// ExtResult may give an external call's result labels.
	ExtLabel func(name string) (string, bool)
	objN     int
	changed  bool
	MaxDepth int
	Funcs    map[*ssa.Function]bool
	impls    func(c *ssa.CallCommon) []*ssa.Function
	// Redirect sends a call to another function; its result comes first in the call's results, the others
	// carry the given label.
	Redirect func(in ssa.Instruction, com *ssa.CallCommon, args []*fval) (fn *ssa.Function, fargs []*fval, label string)
	// ExtRes gives the results of a call that leaves the analysed code.
	ExtRes  func(in ssa.Instruction, com *ssa.CallCommon, name string) []*fval
	extMemo map[ssa.Instruction][]*fval
}

func newFlow(p *Prog) *Flow {
	return &Flow{P: p, Calls: map[ssa.Instruction]*FlowCall{}, MaxDepth: 8, Funcs: map[*ssa.Function]bool{}}
}

func (f *Flow) newObj(t types.Type, path string, site ssa.Instruction, depth int) *fobj {
	f.objN++
	return &fobj{id: f.objN, path: path, typ: t, site: site, slots: map[string]*fval{}, deep: map[string]bool{}, depth: depth}
}

func isStruct(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }

func isRefLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface, *types.Signature, *types.Chan:
		return true
	}
	return false
}

// slot gives the content of a slot; slots of parameter objects exist from the start.
func (f *Flow) slot(o *fobj, name string, t types.Type) *fval {
	if s, ok := o.slots[name]; ok {
		if t != nil && isStruct(t) && len(s.ptrs) == 0 {
			f.subobj(o, name, t, s)
		}
		return s
	}
	s := newFval()
	o.slots[name] = s
	if o.path != "" {
		p := o.path + "." + name
		if strings.HasPrefix(name, "[") {
			p = o.path + name
		}
		if name == "*" {
			p = o.path
		}
		s.labels[p] = true
		if t != nil && !isStruct(t) && isRefLike(t) && o.depth < 6 {
			el := t
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				el = pt.Elem()
			}
			s.ptrs[loc{f.newObj(el, p, nil, o.depth+1), ""}] = true
		}
	}
	if t != nil && isStruct(t) {
		f.subobj(o, name, t, s)
	}
	return s
}

func (f *Flow) subobj(o *fobj, name string, t types.Type, s *fval) {
	p := ""
	if o.path != "" {
		p = o.path + "." + name
		if strings.HasPrefix(name, "[") {
			p = o.path + name
		}
	}
	sub := f.newObj(t, p, o.site, o.depth+1)
	s.ptrs[loc{sub, ""}] = true
}

func (f *Flow) add(dst, src *fval) {
	if dst == nil || src == nil || dst == src {
		return
	}
	for l := range src.labels {
		if !dst.labels[l] {
			dst.labels[l] = true
			f.changed = true
		}
	}
	for l := range src.ptrs {
		if !dst.ptrs[l] {
			dst.ptrs[l] = true
			f.changed = true
		}
	}
	for k, v := range src.fns {
		if _, ok := dst.fns[k]; !ok {
			dst.fns[k] = v
			f.changed = true
		}
	}
	for i, t := range src.tuple {
		for len(dst.tuple) <= i {
			dst.tuple = append(dst.tuple, newFval())
		}
		f.add(dst.tuple[i], t)
	}
}

func (f *Flow) addLabels(dst *fval, ls map[string]bool) {
	for l := range ls {
		if !dst.labels[l] {
			dst.labels[l] = true
			f.changed = true
		}
	}
}

func (f *Flow) addDeep(o *fobj, ls map[string]bool) {
	for l := range ls {
		if !o.deep[l] {
			o.deep[l] = true
			f.changed = true
		}
	}
}

// Labels collects every label reachable from a value.
func (f *Flow) Labels(v *fval) map[string]bool {
	out := map[string]bool{}
	seen := map[*fobj]bool{}
	var visit func(v *fval)
	visitObj := func(o *fobj) {}
	visitObj = func(o *fobj) {
		if seen[o] {
			return
		}
		seen[o] = true
		if o.path != "" {
			out[o.path] = true
		}
		for l := range o.deep {
			out[l] = true
		}
		for _, s := range o.slots {
			visit(s)
		}
	}
	visit = func(v *fval) {
		if v == nil {
			return
		}
		for l := range v.labels {
			out[l] = true
		}
		for l := range v.ptrs {
			if l.f == "" {
				visitObj(l.o)
			} else if s, ok := l.o.slots[l.f]; ok {
				visit(s)
			}
		}
		for _, t := range v.tuple {
			visit(t)
		}
	}
	visit(v)
	return out
}

// Objs collects the objects reachable from a value.
func (f *Flow) Objs(v *fval) []*fobj {
	seen := map[*fobj]bool{}
	var out []*fobj
	var visit func(v *fval)
	visit = func(v *fval) {
		if v == nil {
			return
		}
		for l := range v.ptrs {
			if seen[l.o] {
				continue
			}
			seen[l.o] = true
			out = append(out, l.o)
			for _, s := range l.o.slots {
				visit(s)
			}
		}
		for _, t := range v.tuple {
			visit(t)
		}
	}
	visit(v)
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// load reads the content behind the pointers in a.
func (f *Flow) load(a *fval, t types.Type, dst *fval) {
	for l := range a.ptrs {
		f.addLabels(dst, l.o.deep)
		if l.f == "" {
			if isStruct(t) {
				if !dst.ptrs[l] {
					dst.ptrs[l] = true
					f.changed = true
				}
				continue
			}
			f.add(dst, f.slot(l.o, "*", t))
			continue
		}
		f.add(dst, f.slot(l.o, l.f, t))
	}
}

func (f *Flow) copyStruct(dst *fobj, src *fobj, t types.Type) {
	if dst == src {
		return
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	f.addDeep(dst, src.deep)
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		n := st.Field(i).Name()
		s := f.slot(src, n, ft)
		d := f.slot(dst, n, ft)
		if isStruct(ft) {
			f.addLabels(d, s.labels)
			for sl := range s.ptrs {
				for dl := range d.ptrs {
					f.copyStruct(dl.o, sl.o, ft)
				}
			}
			continue
		}
		f.add(d, s)
	}
}

func (f *Flow) store(a *fval, v *fval, t types.Type) {
	for l := range a.ptrs {
		if isStruct(t) {
			dst := l.o
			if l.f != "" {
				for sl := range f.slot(l.o, l.f, t).ptrs {
					dst = sl.o
				}
			}
			for s := range v.ptrs {
				f.copyStruct(dst, s.o, t)
			}
			f.addDeep(dst, v.labels)
			continue
		}
		name := l.f
		if name == "" {
			name = "*"
		}
		f.add(f.slot(l.o, name, nil), v)
	}
}

// Run analyses a function; the parameters are named by names ("" keeps the source name).
func (f *Flow) Run(fn *ssa.Function, names ...string) *fframe {
	var args []*fval
	for i, p := range fn.Params {
		n := p.Name()
		if i < len(names) && names[i] != "" {
			n = names[i]
		}
		args = append(args, f.Param(n, p.Type()))
	}
	return f.RunArgs(fn, args)
}

// Param makes a value standing for an unknown argument.
func (f *Flow) Param(n string, t types.Type) *fval {
	v := newFval()
	v.labels[n] = true
	el := t
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		el = pt.Elem()
	}
	if isRefLike(t) || isStruct(t) {
		o := f.newObj(el, n, nil, 0)
		v.ptrs[loc{o, ""}] = true
	}
	return v
}

func (f *Flow) RunArgs(fn *ssa.Function, args []*fval) *fframe {
	fr := f.frame(fn, nil)
	for i, p := range fn.Params {
		if i < len(args) {
			fr.vals[p] = args[i]
		}
	}
	f.Root = fr
	for i := 0; i < 40; i++ {
		f.changed = false
		f.eval(fr)
		if !f.changed {
			break
		}
	}
	return fr
}

func (f *Flow) frame(fn *ssa.Function, parent *fframe) *fframe {
	fr := &fframe{fn: fn, vals: map[ssa.Value]*fval{}, objs: map[ssa.Value]*fobj{}, kids: map[ssa.Instruction]map[*ssa.Function]*fframe{}, parent: parent}
	if parent != nil {
		fr.depth = parent.depth + 1
	}
	n := fn.Signature.Results().Len()
	for i := 0; i < n; i++ {
		fr.ret = append(fr.ret, newFval())
	}
	return fr
}

func (f *Flow) val(fr *fframe, v ssa.Value) *fval {
	if x, ok := fr.vals[v]; ok {
		return x
	}
	x := newFval()
	fr.vals[v] = x
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value != nil {
			if c.Value.Kind() == constant.String {
				x.labels["const:"+constant.StringVal(c.Value)] = true
			} else {
				x.labels["const:"+c.Value.ExactString()] = true
			}
		}
	case *ssa.Function:
		x.fns[c] = &fclos{fn: c}
	case *ssa.Global:
		root := f.Root
		if root != nil && root != fr {
			return f.val(root, v)
		}
		o := f.newObj(deref(c.Type()), "global:"+relPath(c.Pkg.Pkg.Path())+"."+c.Name(), nil, 3)
		x.ptrs[loc{o, ""}] = true
	}
	return x
}

func (f *Flow) obj(fr *fframe, v ssa.Value, t types.Type) *fobj {
	if o, ok := fr.objs[v]; ok {
		return o
	}
	in, _ := v.(ssa.Instruction)
	o := f.newObj(t, "", in, 0)
	fr.objs[v] = o
	return o
}

func (f *Flow) ptr(dst *fval, l loc) {
	if !dst.ptrs[l] {
		dst.ptrs[l] = true
		f.changed = true
	}
}

func (f *Flow) eval(fr *fframe) {
	f.Funcs[fr.fn] = true
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			f.instr(fr, in)
		}
	}
}

func (f *Flow) elemSlot(dst *fval, a *fval, name string, t types.Type) {
	// the address of an element
	for l := range a.ptrs {
		o := l.o
		if l.f != "" {
			// address of a slot holding an array
			s := f.slot(o, l.f, nil)
			for sl := range s.ptrs {
				f.elemAddr(dst, sl.o, name, t)
			}
			f.elemAddr(dst, f.slotArray(o, l.f), name, t)
			continue
		}
		f.elemAddr(dst, o, name, t)
	}
}

func (f *Flow) slotArray(o *fobj, name string) *fobj {
	s := f.slot(o, name, nil)
	for l := range s.ptrs {
		return l.o
	}
	p := ""
	if o.path != "" {
		p = o.path + "." + name
	}
	a := f.newObj(nil, p, o.site, o.depth+1)
	s.ptrs[loc{a, ""}] = true
	f.changed = true
	return a
}

func (f *Flow) elemAddr(dst *fval, o *fobj, name string, t types.Type) {
	if isStruct(t) {
		for l := range f.slot(o, name, t).ptrs {
			f.ptr(dst, l)
		}
		return
	}
	f.slot(o, name, t)
	f.ptr(dst, loc{o, name})
}

func (f *Flow) instr(fr *fframe, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		f.ptr(f.val(fr, x), loc{f.obj(fr, x, deref(x.Type())), ""})
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		v := in.(ssa.Value)
		f.ptr(f.val(fr, v), loc{f.obj(fr, v, v.Type()), ""})
	case *ssa.FieldAddr:
		n := fieldName(x.X.Type(), x.Field)
		ft := deref(x.Type())
		dst := f.val(fr, x)
		a := f.val(fr, x.X)
		f.elemSlotField(dst, a, n, ft)
	case *ssa.Field:
		n := fieldName(x.X.Type(), x.Field)
		dst := f.val(fr, x)
		for l := range f.val(fr, x.X).ptrs {
			f.addLabels(dst, l.o.deep)
			f.add(dst, f.slot(l.o, n, x.Type()))
		}
		f.addLabels(dst, f.val(fr, x.X).labels)
	case *ssa.IndexAddr:
		f.elemSlot(f.val(fr, x), f.val(fr, x.X), "[]", deref(x.Type()))
	case *ssa.Index:
		dst := f.val(fr, x)
		f.addLabels(dst, f.val(fr, x.X).labels)
		for l := range f.val(fr, x.X).ptrs {
			f.add(dst, f.slot(l.o, "[]", x.Type()))
			f.addLabels(dst, l.o.deep)
		}
	case *ssa.Lookup:
		dst := f.val(fr, x)
		m := f.val(fr, x.X)
		target := dst
		if x.CommaOk {
			for len(dst.tuple) < 2 {
				dst.tuple = append(dst.tuple, newFval())
			}
			target = dst.tuple[0]
		}
		var et types.Type
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			et = mt.Elem()
		} else {
			f.addLabels(target, m.labels)
		}
		for l := range m.ptrs {
			f.addLabels(target, l.o.deep)
			f.add(target, f.slot(l.o, "[]", et))
		}
	case *ssa.MapUpdate:
		v := f.val(fr, x.Value)
		k := f.val(fr, x.Key)
		mt := x.Map.Type().Underlying().(*types.Map)
		for l := range f.val(fr, x.Map).ptrs {
			if isStruct(mt.Elem()) {
				d := f.slot(l.o, "[]", mt.Elem())
				for dl := range d.ptrs {
					for sl := range v.ptrs {
						f.copyStruct(dl.o, sl.o, mt.Elem())
					}
				}
			} else {
				f.add(f.slot(l.o, "[]", nil), v)
			}
			f.add(f.slot(l.o, "[k]", nil), k)
		}
	case *ssa.Range:
		f.add(f.val(fr, x), f.val(fr, x.X))
	case *ssa.Next:
		dst := f.val(fr, x)
		for len(dst.tuple) < 3 {
			dst.tuple = append(dst.tuple, newFval())
		}
		it := f.val(fr, x.Iter)
		if x.IsString {
			f.addLabels(dst.tuple[2], it.labels)
			return
		}
		var kt, vt types.Type
		if rg, ok := x.Iter.(*ssa.Range); ok {
			if mt, ok := rg.X.Type().Underlying().(*types.Map); ok {
				kt, vt = mt.Key(), mt.Elem()
			}
		}
		for l := range it.ptrs {
			f.add(dst.tuple[1], f.slot(l.o, "[k]", kt))
			f.add(dst.tuple[2], f.slot(l.o, "[]", vt))
			f.addLabels(dst.tuple[1], l.o.deep)
			f.addLabels(dst.tuple[2], l.o.deep)
		}
	case *ssa.UnOp:
		dst := f.val(fr, x)
		if x.Op.String() == "*" {
			f.load(f.val(fr, x.X), x.Type(), dst)
			return
		}
		f.add(dst, f.val(fr, x.X))
	case *ssa.Store:
		if knownNil(in.Block(), x.Val) {
			return
		}
		f.store(f.val(fr, x.Addr), f.val(fr, x.Val), x.Val.Type())
	case *ssa.BinOp:
		f.addLabels(f.val(fr, x), f.val(fr, x.X).labels)
		f.addLabels(f.val(fr, x), f.val(fr, x.Y).labels)
	case *ssa.Phi:
		for _, e := range x.Edges {
			f.add(f.val(fr, x), f.val(fr, e))
		}
	case *ssa.Extract:
		t := f.val(fr, x.Tuple)
		if x.Index < len(t.tuple) {
			f.add(f.val(fr, x), t.tuple[x.Index])
		}
		f.addLabels(f.val(fr, x), t.labels)
	case *ssa.Convert:
		dst := f.val(fr, x)
		src := f.val(fr, x.X)
		_, toSlice := x.Type().Underlying().(*types.Slice)
		_, fromSlice := x.X.Type().Underlying().(*types.Slice)
		if toSlice != fromSlice {
			ls := f.Labels(src)
			f.addLabels(dst, ls)
			if toSlice {
				o := f.obj(fr, x, x.Type())
				f.addDeep(o, ls)
				f.ptr(dst, loc{o, ""})
			}
			return
		}
		f.add(dst, src)
	case *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		v := in.(ssa.Value)
		f.add(f.val(fr, v), f.val(fr, *in.Operands(nil)[0]))
	case *ssa.TypeAssert:
		dst := f.val(fr, x)
		if x.CommaOk {
			for len(dst.tuple) < 2 {
				dst.tuple = append(dst.tuple, newFval())
			}
			f.add(dst.tuple[0], f.val(fr, x.X))
			return
		}
		f.add(dst, f.val(fr, x.X))
	case *ssa.Slice:
		f.add(f.val(fr, x), f.val(fr, x.X))
	case *ssa.MakeClosure:
		c := &fclos{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.bind = append(c.bind, f.val(fr, b))
		}
		dst := f.val(fr, x)
		if _, ok := dst.fns[c.fn]; !ok {
			dst.fns[c.fn] = c
			f.changed = true
		}
	case *ssa.Return:
		for i, r := range x.Results {
			if knownNil(in.Block(), r) {
				continue
			}
			f.add(fr.ret[i], f.val(fr, r))
		}
	case *ssa.Call:
		f.call(fr, x, x.Common(), x)
	case *ssa.Defer:
		f.call(fr, x, x.Common(), nil)
	case *ssa.Go:
		f.call(fr, x, x.Common(), nil)
	}
}

func (f *Flow) elemSlotField(dst, a *fval, n string, ft types.Type) {
	for l := range a.ptrs {
		o := l.o
		if l.f != "" {
			// pointer to a slot that holds a struct
			for sl := range f.slot(o, l.f, nil).ptrs {
				f.elemAddr(dst, sl.o, n, ft)
			}
			continue
		}
		f.elemAddr(dst, o, n, ft)
	}
}

func (f *Flow) call(fr *fframe, in ssa.Instruction, com *ssa.CallCommon, res ssa.Value) {
	var args []*fval
	if com.IsInvoke() {
		args = append(args, f.val(fr, com.Value))
	}
	for _, a := range com.Args {
		args = append(args, f.val(fr, a))
	}
	var dst *fval
	if res != nil {
		dst = f.val(fr, res)
	}
	if b, ok := com.Value.(*ssa.Builtin); ok && !com.IsInvoke() {
		f.builtin(fr, b.Name(), in, com, args, dst, res)
		return
	}
	type target struct {
		fn   *ssa.Function
		args []*fval
		bind []*fval
	}
	var ts []target
	if com.IsInvoke() {
		for _, t := range f.P.resolve(com) {
			ts = append(ts, target{t, append([]*fval{f.embedded(args[0], t)}, args[1:]...), nil})
		}
	} else if sf := com.StaticCallee(); sf != nil && sf.Parent() == nil {
		ts = append(ts, target{sf, args, nil})
	} else {
		fv := f.val(fr, com.Value)
		for _, c := range fv.fns {
			if w := boundTarget(c.fn); w != nil {
				ts = append(ts, target{w, append(append([]*fval{}, c.bind...), args...), nil})
			} else {
				ts = append(ts, target{c.fn, args, c.bind})
			}
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].fn.String() < ts[j].fn.String() })
	}
	label := ""
	if f.Redirect != nil {
		if t, a, l := f.Redirect(in, com, args); t != nil {
			ts = []target{{t, a, nil}}
			label = l
		}
	}
	inlined := false
	for _, t := range ts {
		if !f.canInline(fr, t.fn) {
			continue
		}
		inlined = true
		if fr.kids[in] == nil {
			fr.kids[in] = map[*ssa.Function]*fframe{}
		}
		k := fr.kids[in][t.fn]
		if k == nil {
			k = f.frame(t.fn, fr)
			fr.kids[in][t.fn] = k
			f.changed = true
		}
		for i, p := range t.fn.Params {
			if i < len(t.args) {
				f.add(f.val(k, p), t.args[i])
			}
		}
		for i, p := range t.fn.FreeVars {
			if i < len(t.bind) {
				f.add(f.val(k, p), t.bind[i])
			}
		}
		f.eval(k)
		if dst != nil && label != "" {
			if tup, ok := res.Type().(*types.Tuple); ok {
				for len(dst.tuple) < tup.Len() {
					dst.tuple = append(dst.tuple, newFval())
				}
				f.add(dst.tuple[0], k.ret[0])
				for i := 1; i < tup.Len(); i++ {
					f.addLabels(dst.tuple[i], map[string]bool{label: true})
				}
			} else {
				f.add(dst, k.ret[0])
			}
			continue
		}
		if dst != nil {
			if len(k.ret) == 1 {
				f.add(dst, k.ret[0])
			} else {
				for len(dst.tuple) < len(k.ret) {
					dst.tuple = append(dst.tuple, newFval())
				}
				for i, r := range k.ret {
					f.add(dst.tuple[i], r)
				}
			}
		}
	}
	if inlined && len(ts) > 0 {
		return
	}
	// leaves the analysed code
	name := calleeName(com)
	c := f.Calls[in]
	if c == nil {
		c = &FlowCall{Name: name, Fn: fr.fn, Instr: in}
		f.Calls[in] = c
		for range args {
			c.Args = append(c.Args, newFval())
		}
		c.Res = newFval()
	}
	all := map[string]bool{}
	for i, a := range args {
		f.add(c.Args[i], a)
		for l := range f.Labels(a) {
			all[l] = true
		}
	}
	if f.ExtLabel != nil {
		if l, ok := f.ExtLabel(name); ok {
			all = map[string]bool{l: true}
		}
	}
	if f.ExtRes != nil && dst != nil {
		if f.extMemo == nil {
			f.extMemo = map[ssa.Instruction][]*fval{}
		}
		rs, ok := f.extMemo[in]
		if !ok {
			rs = f.ExtRes(in, com, name)
			f.extMemo[in] = rs
		}
		if rs != nil {
			if _, ok := res.Type().(*types.Tuple); ok {
				for len(dst.tuple) < len(rs) {
					dst.tuple = append(dst.tuple, newFval())
				}
				for i, r := range rs {
					f.add(dst.tuple[i], r)
				}
			} else if len(rs) > 0 {
				f.add(dst, rs[0])
			}
			f.add(c.Res, dst)
			return
		}
	}
	// the receiver may be changed by the call
	sig := com.Signature()
	if len(args) > 0 && (com.IsInvoke() || sig.Recv() != nil) && !onlyAnswers(sig) {
		for l := range args[0].ptrs {
			if l.o.path == "" && l.f == "" {
				f.addDeep(l.o, all)
			}
		}
	}
	if dst == nil {
		return
	}
	fill := func(d *fval, t types.Type) {
		f.addLabels(d, all)
		if len(args) > 0 && sig.Recv() != nil && types.Identical(t, sig.Recv().Type()) {
			for l := range args[0].ptrs {
				f.ptr(d, l)
			}
			return
		}
		if isRefLike(t) || isStruct(t) {
			o := f.obj(fr, res, t)
			f.addDeep(o, all)
			f.ptr(d, loc{o, ""})
		}
	}
	if tup, ok := res.Type().(*types.Tuple); ok {
		for len(dst.tuple) < tup.Len() {
			dst.tuple = append(dst.tuple, newFval())
		}
		for i := 0; i < tup.Len(); i++ {
			fill(dst.tuple[i], tup.At(i).Type())
		}
	} else {
		fill(dst, res.Type())
	}
	f.add(c.Res, dst)
}

// embedded gives the part of the receiver a promoted method works on.
func (f *Flow) embedded(recv *fval, t *ssa.Function) *fval {
	want := t.Signature.Recv()
	if want == nil {
		return recv
	}
	wt := deref(want.Type())
	if !isStruct(wt) {
		return recv
	}
	var find func(o *fobj, d int) *fval
	find = func(o *fobj, d int) *fval {
		if o.typ == nil || d > 3 {
			return nil
		}
		st, ok := deref(o.typ).Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for i := 0; i < st.NumFields(); i++ {
			fd := st.Field(i)
			if !fd.Embedded() {
				continue
			}
			if _, isI := fd.Type().Underlying().(*types.Interface); isI {
				continue
			}
			s := f.slot(o, fd.Name(), fd.Type())
			if types.Identical(deref(fd.Type()), wt) {
				return s
			}
			for l := range s.ptrs {
				if x := find(l.o, d+1); x != nil {
					return x
				}
			}
		}
		return nil
	}
	var out *fval
	for l := range recv.ptrs {
		var x *fval
		if l.f == "" && l.o.typ != nil && !types.Identical(deref(l.o.typ), wt) {
			x = find(l.o, 0)
		}
		if x == nil {
			continue
		}
		if out == nil {
			out = newFval()
			for k := range recv.labels {
				out.labels[k] = true
			}
			for k := range recv.ptrs {
				out.ptrs[k] = true
			}
		}
		delete(out.ptrs, l)
		for k := range x.ptrs {
			out.ptrs[k] = true
		}
		for k := range x.labels {
			out.labels[k] = true
		}
	}
	if out == nil {
		return recv
	}
	return out
}

func (f *Flow) canInline(fr *fframe, fn *ssa.Function) bool {
	if fn == nil || fn.Blocks == nil || fr.depth >= f.MaxDepth {
		return false
	}
	for x := fr; x != nil; x = x.parent {
		if x.fn == fn {
			return false
		}
	}
	root := fn
	for root.Parent() != nil {
		root = root.Parent()
	}
	if root.Pkg == nil && root.Synthetic != "" && root.Object() != nil && root.Object().Pkg() != nil && isModPath(root.Object().Pkg().Path()) {
		return true // the method of an embedded field
	}
	if root.Pkg == nil || !isModPath(root.Pkg.Pkg.Path()) {
		return false
	}
	if f.Inline != nil {
		return f.Inline(fn)
	}
	return true
}

func (f *Flow) builtin(fr *fframe, name string, in ssa.Instruction, com *ssa.CallCommon, args []*fval, dst *fval, res ssa.Value) {
	switch name {
	case "append":
		if dst == nil {
			return
		}
		o := f.obj(fr, res, res.Type())
		f.ptr(dst, loc{o, ""})
		et := res.Type().Underlying().(*types.Slice).Elem()
		merge := func(to *fobj, from *fval) {
			f.addLabelsObj(to, from)
			for l := range from.ptrs {
				if l.o == to {
					continue
				}
				f.addDeep(to, l.o.deep)
				s := f.slot(l.o, "[]", et)
				d := f.slot(to, "[]", et)
				if isStruct(et) {
					for dl := range d.ptrs {
						for sl := range s.ptrs {
							f.copyStruct(dl.o, sl.o, et)
						}
					}
				} else {
					f.add(d, s)
				}
			}
		}
		merge(o, args[0])
		if len(args) > 1 {
			merge(o, args[1])
		}
		_ = com
	case "copy":
		for l := range args[0].ptrs {
			ls := f.Labels(args[1])
			if l.o.path == "" {
				f.addDeep(l.o, ls)
			}
			for s := range args[1].ptrs {
				f.add(f.slot(l.o, "[]", nil), f.slot(s.o, "[]", nil))
			}
		}
	case "len", "cap":
		if dst != nil {
			f.addLabels(dst, args[0].labels)
		}
	default:
		if dst != nil {
			for _, a := range args {
				f.add(dst, a)
			}
		}
	}
}

// the labels of a slice value itself say where its elements come from
func (f *Flow) addLabelsObj(o *fobj, v *fval) {
	ls := map[string]bool{}
	for l := range v.labels {
		if !strings.HasPrefix(l, "const:") {
			ls[l] = true
		}
	}
	f.addDeep(o, ls)
}

// ---- queries

// Field gives the slot of every object a value points to, merged.
func (f *Flow) Field(v *fval, name string) *fval {
	out := newFval()
	for l := range v.ptrs {
		o := l.o
		if l.f != "" {
			if s, ok := o.slots[l.f]; ok {
				f.add(out, f.Field(s, name))
			}
			continue
		}
		f.addLabels(out, o.deep)
		if o.path != "" {
			// reading it creates it
			f.add(out, f.slot(o, name, fieldType(o.typ, name)))
			continue
		}
		if s, ok := o.slots[name]; ok {
			f.add(out, s)
		}
	}
	return out
}

func fieldType(t types.Type, name string) types.Type {
	if t == nil {
		return nil
	}
	if st, ok := deref(t).Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return st.Field(i).Type()
			}
		}
	}
	if name == "[]" {
		switch u := t.Underlying().(type) {
		case *types.Map:
			return u.Elem()
		case *types.Slice:
			return u.Elem()
		}
	}
	return nil
}

// hasPath tells whether a label set contains a path or something below it.
func hasPath(ls map[string]bool, path string) bool {
	for l := range ls {
		if l == path || strings.HasPrefix(l, path+".") || strings.HasPrefix(l, path+"[") {
			return true
		}
	}
	return false
}

func labelList(ls map[string]bool) string {
	var out []string
	for l := range ls {
		if !strings.HasPrefix(l, "const:") {
			out = append(out, l)
		}
	}
	sort.Strings(out)
	if len(out) > 12 {
		out = append(out[:12], "... "+strconv.Itoa(len(out))+" in all")
	}
	return strings.Join(out, " ")
}

// knownNil: the block is only reached when v was compared equal to nil.
func knownNil(b *ssa.BasicBlock, v ssa.Value) bool {
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil || len(d.Preds) != 1 || d.Preds[0] != p || len(p.Instrs) == 0 {
			continue
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		other := cmp.Y
		if cmp.X != v {
			other = cmp.X
			if cmp.Y != v {
				continue
			}
		}
		c, ok := other.(*ssa.Const)
		if !ok || c.Value != nil {
			continue
		}
		if cmp.Op.String() == "==" && p.Succs[0] == d || cmp.Op.String() == "!=" && p.Succs[1] == d {
			return true
		}
	}
	return false
}

// onlyAnswers: a question (the answer is yes or no) that leaves what was asked as it was.
func onlyAnswers(sig *types.Signature) bool {
	if sig.Results().Len() != 1 {
		return false
	}
	b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}
