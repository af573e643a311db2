package main

// I01-I04: the dialogue between the node and the VM process.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("I01", checkI01)
	register("I02", checkI02)
	register("I03", checkI03)
	register("I04", checkI04)
}

const (
	ipcCommon = "ipc/common"
	ipcNode   = "ipc/nodepart"
	ipcArwen  = "ipc/arwenpart"
)

// ipcModel is what the source says about the protocol.
type ipcModel struct {
	p        *Prog
	handlerT types.Type // common.MessageHandler
	kindT    types.Type
	kinds    map[int64]string
	creators map[int64]*ssa.Function
	dupl     []string
	names    map[int64]string
	repliers map[string]map[int64]*ssa.Function // package -> kind -> handler
	built    map[int64]builtMsg                 // kind -> what a message of this kind is made as
}

type builtMsg struct {
	t  types.Type
	fn *ssa.Function
}

func (m *ipcModel) isHandlerT(t types.Type) bool {
	return t != nil && types.Identical(t, m.handlerT)
}

// isReplier: a function from a message to its answer.
func (m *ipcModel) isReplier(t types.Type) bool {
	sig, ok := t.Underlying().(*types.Signature)
	return ok && sig.Params().Len() == 1 && sig.Results().Len() == 1 && m.isHandlerT(sig.Params().At(0).Type()) && m.isHandlerT(sig.Results().At(0).Type())
}

func (m *ipcModel) isCreator(t types.Type) bool {
	sig, ok := t.Underlying().(*types.Signature)
	return ok && sig.Params().Len() == 0 && sig.Results().Len() == 1 && m.isHandlerT(sig.Results().At(0).Type())
}

// isMsgStruct: a pointer to a struct that is a message.
func (m *ipcModel) isMsgStruct(t types.Type) bool {
	pt, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	if _, ok := pt.Elem().Underlying().(*types.Struct); !ok {
		return false
	}
	return types.Implements(t, m.handlerT.Underlying().(*types.Interface))
}

// transport: sends a message and gives back the answer.
func (m *ipcModel) isTransport(f *ssa.Function) bool {
	if f == nil || f.Parent() != nil {
		return false
	}
	sig := f.Signature
	if sig.Recv() == nil || sig.Params().Len() != 1 || sig.Results().Len() != 2 {
		return false
	}
	if !m.isHandlerT(sig.Params().At(0).Type()) || !m.isHandlerT(sig.Results().At(0).Type()) || !isErrorType(sig.Results().At(1).Type()) {
		return false
	}
	rt := typeName(sig.Recv().Type())
	return pkgRel(f) == ipcArwen && rt == "ArwenMessenger" || pkgRel(f) == ipcNode && rt == "NodePart"
}

func msgFuncOf(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		if w := boundTarget(f); w != nil {
			return w
		}
		return f
	case *ssa.ChangeType:
		return msgFuncOf(x.X)
	}
	return nil
}

func intConst(v ssa.Value) (int64, bool) {
	for {
		if c, ok := v.(*ssa.Convert); ok {
			v = c.X
			continue
		}
		if c, ok := v.(*ssa.ChangeType); ok {
			v = c.X
			continue
		}
		break
	}
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

func ipcLoad(p *Prog, r *Result) *ipcModel {
	pk := p.Pkgs[ipcCommon]
	if pk == nil {
		r.violate("undecided:ipc", "-", "package %s not found", ipcCommon)
		return nil
	}
	m := &ipcModel{p: p, kinds: map[int64]string{}, creators: map[int64]*ssa.Function{}, names: map[int64]string{}, repliers: map[string]map[int64]*ssa.Function{ipcNode: {}, ipcArwen: {}}, built: map[int64]builtMsg{}}
	sc := pk.Types.Scope()
	if o := sc.Lookup("MessageHandler"); o != nil {
		m.handlerT = o.Type()
	}
	if o := sc.Lookup("MessageKind"); o != nil {
		m.kindT = o.Type()
	}
	if m.handlerT == nil || m.kindT == nil {
		r.violate("undecided:ipc", "-", "the message abstraction (MessageHandler, MessageKind) is not found in %s", ipcCommon)
		return nil
	}
	for _, n := range sc.Names() {
		if c, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(c.Type(), m.kindT) {
			if v, ok := constant.Int64Val(c.Val()); ok {
				m.kinds[v] = n
			}
		}
	}
	// tables
	for _, f := range p.Funcs {
		rel := pkgRel(f)
		if rel != ipcCommon && rel != ipcNode && rel != ipcArwen {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var key, val ssa.Value
				switch x := in.(type) {
				case *ssa.Store:
					ia, ok := x.Addr.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					key, val = ia.Index, x.Val
				case *ssa.MapUpdate:
					key, val = x.Key, x.Value
				default:
					continue
				}
				k, ok := intConst(key)
				if !ok {
					continue
				}
				if g := msgFuncOf(val); g != nil {
					if m.isCreator(g.Signature) && rel == ipcCommon {
						m.creators[k] = g
					} else if m.isReplier(val.Type()) && m.repliers[rel] != nil {
						if old := m.repliers[rel][k]; old != nil && old != g {
							m.dupl = append(m.dupl, fmt.Sprintf("%s: %s and %s", m.kinds[k], fname(old), fname(g)))
						}
						m.repliers[rel][k] = g
					}
					continue
				}
				if c, ok := val.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && types.Identical(key.Type(), m.kindT) {
					m.names[k] = constant.StringVal(c.Value)
				}
			}
		}
	}
	// constructors
	for _, f := range p.Funcs {
		if pkgRel(f) != ipcCommon || f.Parent() != nil || f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 {
			continue
		}
		rt := f.Signature.Results().At(0).Type()
		if !m.isMsgStruct(rt) {
			continue
		}
		fl := newFlow(p)
		fr := fl.Run(f)
		for _, k := range m.kindsOf(fl, fr.ret[0]) {
			if old, ok := m.built[k]; ok && !types.Identical(old.t, rt) {
				r.violate("two-types:"+m.kinds[k], p.pos(f.Pos()), "messages of kind %s are made as %s by %s and as %s by %s: the receiver can decode only one of them", m.kinds[k], old.t, fname(old.fn), rt, fname(f))
			}
			m.built[k] = builtMsg{rt, f}
		}
		r.saw(fname(f))
	}
	return m
}

// kindsOf: the kinds a message value may have.
func (m *ipcModel) kindsOf(fl *Flow, v *fval) []int64 {
	set := map[int64]bool{}
	for _, o := range fl.Objs(v) {
		if o.typ == nil {
			continue
		}
		st, ok := deref(o.typ).Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "Kind" && types.Identical(st.Field(i).Type(), m.kindT) {
				if s, ok := o.slots["Kind"]; ok {
					for l := range s.labels {
						if n, err := strconv.ParseInt(strings.TrimPrefix(l, "const:"), 10, 64); err == nil && strings.HasPrefix(l, "const:") {
							set[n] = true
						}
					}
				}
			}
		}
	}
	var out []int64
	for k := range set {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// dialogue is the analysis of one operation together with the handler of its request on the other side.
type dialogue struct {
	op        *ssa.Function
	fl        *Flow
	fr        *fframe
	kinds     []int64 // of the request
	handlers  map[*ssa.Function]bool
	hframe    *fframe
	replies   []int64
	questions []*FlowCall // what the handler asks
	transport int
}

func (m *ipcModel) implements(f *ssa.Function, iface *types.Interface) bool {
	rc := f.Signature.Recv()
	return rc != nil && types.Implements(rc.Type(), iface)
}

func (m *ipcModel) iface(path, name string) *types.Interface {
	pk := m.p.All[path]
	if pk == nil {
		return nil
	}
	o := pk.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	i, _ := o.Type().Underlying().(*types.Interface)
	return i
}

const vmcommonPath = "github.com/ElrondNetwork/elrond-vm-common"

// follow analyses an operation of one process together with its handler in the other.
func (m *ipcModel) follow(op *ssa.Function, other string, target *types.Interface) *dialogue {
	d := &dialogue{op: op, handlers: map[*ssa.Function]bool{}}
	fl := newFlow(m.p)
	fl.MaxDepth = 12
	d.fl = fl
	isTarget := func(name string) bool {
		for i := 0; i < target.NumMethods(); i++ {
			if target.Method(i).Name() == name {
				return true
			}
		}
		return false
	}
	fl.Inline = func(f *ssa.Function) bool {
		if rc := f.Signature.Recv(); rc != nil && isTarget(f.Name()) && types.Implements(rc.Type(), target) {
			return false
		}
		rel := pkgRel(f)
		if rel == ipcCommon {
			return typeName(recvType(f)) != "Messenger"
		}
		if rel != ipcNode && rel != ipcArwen {
			return false
		}
		if m.isTransport(f) {
			return false
		}
		if d.handlers[f] {
			return true
		}
		sig := f.Signature
		mention := func(t *types.Tuple) bool {
			for i := 0; i < t.Len(); i++ {
				x := t.At(i).Type()
				if m.isHandlerT(x) || m.isMsgStruct(x) || pkgOfType(x) == ipcCommon {
					return true
				}
				if pt := pkgPathOfType(x); strings.HasPrefix(pt, vmcommonPath) {
					return true
				}
				if _, ok := x.Underlying().(*types.Signature); ok {
					return true
				}
			}
			return false
		}
		return mention(sig.Params()) || mention(sig.Results())
	}
	fl.Redirect = func(in ssa.Instruction, com *ssa.CallCommon, args []*fval) (*ssa.Function, []*fval, string) {
		f := com.StaticCallee()
		if !m.isTransport(f) || len(args) < 2 {
			return nil, nil, ""
		}
		for _, k := range m.kindsOf(fl, args[1]) {
			h := m.repliers[other][k]
			if h == nil {
				continue
			}
			d.handlers[h] = true
			var a []*fval
			for i, prm := range h.Params {
				if i == len(h.Params)-1 {
					a = append(a, args[1])
				} else {
					a = append(a, m.side(fl, prm.Type()))
				}
			}
			return h, a, "transport"
		}
		return nil, nil, ""
	}
	fl.ExtRes = func(in ssa.Instruction, com *ssa.CallCommon, name string) []*fval {
		if com.IsInvoke() {
			for i := 0; i < target.NumMethods(); i++ {
				if target.Method(i) == com.Method || target.Method(i).Name() == com.Method.Name() && ifaceHas(com.Value.Type(), target) {
					var out []*fval
					rs := com.Signature().Results()
					for j := 0; j < rs.Len(); j++ {
						out = append(out, fl.Param("r"+strconv.Itoa(j), rs.At(j).Type()))
					}
					if out == nil {
						out = []*fval{}
					}
					return out
				}
			}
		}
		return nil
	}
	var names []string
	names = append(names, "self")
	for i := 1; i < len(op.Params); i++ {
		names = append(names, "p"+strconv.Itoa(i-1))
	}
	d.fr = fl.Run(op, names...)
	// what happened
	kset, rset := map[int64]bool{}, map[int64]bool{}
	var walk func(fr *fframe, inHandler bool)
	walk = func(fr *fframe, inHandler bool) {
		for _, b := range fr.fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := ci.Common()
				if !inHandler && m.isTransport(com.StaticCallee()) {
					d.transport++
					for _, k := range m.kindsOf(fl, fl.val(fr, com.Args[1])) {
						kset[k] = true
					}
				}
				if inHandler {
					if c := fl.Calls[in]; c != nil && com.IsInvoke() && ifaceHas(com.Value.Type(), target) && isTarget(com.Method.Name()) {
						d.questions = append(d.questions, c)
					}
				}
			}
		}
		for in, kids := range fr.kids {
			com := in.(ssa.CallInstruction).Common()
			red := !inHandler && m.isTransport(com.StaticCallee())
			for _, k := range kids {
				if red {
					d.hframe = k
					for _, x := range m.kindsOf(fl, k.ret[0]) {
						rset[x] = true
					}
				}
				walk(k, inHandler || red)
			}
		}
	}
	walk(d.fr, false)
	d.kinds, d.replies = keysInt(kset), keysInt(rset)
	return d
}

func (m *ipcModel) side(fl *Flow, t types.Type) *fval { return fl.Param("other", t) }

func ifaceHas(t types.Type, target *types.Interface) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && types.Identical(i, target)
}

func keysInt(s map[int64]bool) []int64 {
	var out []int64
	for k := range s {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func recvType(f *ssa.Function) types.Type {
	if r := f.Signature.Recv(); r != nil {
		return r.Type()
	}
	return types.Typ[types.Invalid]
}

func pkgPathOfType(t types.Type) string {
	if n, ok := deref(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

func pkgOfType(t types.Type) string { return relPath(pkgPathOfType(t)) }

// operations: the methods of the gateway and of the driver that talk to the other process.
func (m *ipcModel) operations(r *Result) []*dialogue {
	var out []*dialogue
	hook := m.iface(vmcommonPath, "BlockchainHook")
	vm := m.iface(vmcommonPath, "VMExecutionHandler")
	if hook == nil || vm == nil {
		r.violate("undecided:ipc", "-", "the interfaces BlockchainHook and VMExecutionHandler are not found")
		return nil
	}
	reaches := m.p.reaching(func(com *ssa.CallCommon, name string) bool { return m.isTransport(com.StaticCallee()) })
	for _, f := range m.p.Funcs {
		if f.Parent() != nil || f.Signature.Recv() == nil || f.Object() == nil || !f.Object().Exported() || !reaches[f] || m.isTransport(f) {
			continue
		}
		switch {
		case pkgRel(f) == ipcArwen && m.implements(f, hook):
			out = append(out, m.follow(f, ipcNode, hook))
		case pkgRel(f) == ipcNode && m.implements(f, vm):
			out = append(out, m.follow(f, ipcArwen, vm))
		}
	}
	return out
}

func (m *ipcModel) kname(k int64) string {
	if n, ok := m.kinds[k]; ok {
		return n
	}
	return strconv.FormatInt(k, 10)
}

func (m *ipcModel) knames(ks []int64) string {
	var out []string
	for _, k := range ks {
		out = append(out, m.kname(k))
	}
	return strings.Join(out, ", ")
}

// returnTypes: the concrete types a function returns as its (interface) result.
func returnTypes(f *ssa.Function, seen map[*ssa.Function]bool) []types.Type {
	if f == nil || f.Blocks == nil || seen[f] {
		return nil
	}
	seen[f] = true
	var out []types.Type
	var of func(v ssa.Value)
	vs := map[ssa.Value]bool{}
	of = func(v ssa.Value) {
		if vs[v] {
			return
		}
		vs[v] = true
		switch x := v.(type) {
		case *ssa.MakeInterface:
			out = append(out, x.X.Type())
		case *ssa.ChangeInterface:
			of(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				of(e)
			}
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil {
				out = append(out, returnTypes(g, seen)...)
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if rt, ok := in.(*ssa.Return); ok && len(rt.Results) > 0 {
				of(rt.Results[0])
			}
		}
	}
	return out
}

func shortT(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return "" })
}

func checkI01(p *Prog, r *Result) {
	r.Rule = "every kind a message is built with has a decoder of the type it is built as and a name of its own; every request one side sends has on the other side the handler that takes it as that type, and the answer is of the kind and type the sender looks at; both message loops send every kind where it belongs"
	m := ipcLoad(p, r)
	if m == nil {
		return
	}
	undefined := int64(-1)
	for k, n := range m.kinds {
		if n == "UndefinedRequestOrResponse" {
			undefined = k
		}
	}
	for _, d := range m.dupl {
		r.violate("two-handlers:"+strings.Fields(d)[0], "-", "one kind of message has two handlers: %s", d)
	}
	var ks []int64
	for k := range m.built {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	byName := map[string]int64{}
	for _, k := range ks {
		b := m.built[k]
		if k == undefined {
			continue
		}
		c := m.creators[k]
		if c == nil {
			r.violate("no-decoder:"+m.kname(k), p.pos(b.fn.Pos()), "messages of kind %s are sent as %s (made by %s) but the receiver has no decoder for this kind: it would get an undefined message", m.kname(k), shortT(b.t), fname(b.fn))
		} else {
			ts := returnTypes(c, map[*ssa.Function]bool{})
			good := len(ts) > 0
			for _, t := range ts {
				if !types.Identical(t, b.t) {
					good = false
					r.violate("decoder:"+m.kname(k), p.pos(c.Pos()), "messages of kind %s are sent as %s but decoded as %s (by %s)", m.kname(k), shortT(b.t), shortT(t), fname(c))
				}
			}
			if good {
				r.ok("a message is decoded as what it was sent as")
			} else if len(ts) == 0 {
				r.violate("undecided:decoder:"+m.kname(k), p.pos(c.Pos()), "what %s makes is not recognised", fname(c))
			}
		}
		n := m.names[k]
		if strings.TrimSpace(n) == "" || n != strings.TrimSpace(n) {
			r.violate("name:"+m.kname(k), p.pos(b.fn.Pos()), "messages of kind %s have no proper name (%q)", m.kname(k), n)
		} else if o, dup := byName[n]; dup {
			r.violate("name:"+m.kname(k), p.pos(b.fn.Pos()), "messages of the kinds %s and %s have the same name %q", m.kname(o), m.kname(k), n)
		} else {
			byName[n] = k
			r.ok("a kind has a name of its own")
		}
	}
	r.floor("message kinds", len(ks), 40)
	// who sends what
	requests := map[string][]int64{}
	replies := map[string][]int64{}
	used := map[string]map[int64]bool{ipcNode: {}, ipcArwen: {}}
	nops := 0
	for _, d := range m.operations(r) {
		if d.transport == 0 {
			continue
		}
		nops++
		r.saw(fname(d.op))
		other := ipcNode
		if pkgRel(d.op) == ipcNode {
			other = ipcArwen
		}
		op := fname(d.op)
		if len(d.kinds) != 1 {
			r.violate("undecided:request:"+op, p.pos(d.op.Pos()), "%s sends requests of %d kinds (%s): which one is not decided", op, len(d.kinds), m.knames(d.kinds))
			continue
		}
		k := d.kinds[0]
		requests[other] = append(requests[other], k)
		used[other][k] = true
		h := m.repliers[other][k]
		if h == nil {
			r.violate("no-handler:"+m.kname(k), p.pos(d.op.Pos()), "%s sends a request of kind %s, which has no handler in %s", op, m.kname(k), other)
			continue
		}
		r.ok("a request has its handler")
		if d.hframe == nil {
			r.violate("undecided:handler:"+m.kname(k), p.pos(h.Pos()), "the handler %s is not analysed", fname(h))
			continue
		}
		r.saw(fname(h))
		// the handler takes it as what it is
		for _, ta := range m.asserts(d.hframe, nil) {
			if !types.Identical(ta.AssertedType, m.built[k].t) {
				r.violate("handler-type:"+m.kname(k), p.pos(ta.Pos()), "the handler of %s takes the request as %s, but it is a %s", m.kname(k), shortT(ta.AssertedType), shortT(m.built[k].t))
			} else {
				r.ok("a handler takes the request as what it is")
			}
		}
		if len(d.replies) != 1 {
			r.violate("answer:"+m.kname(k), p.pos(h.Pos()), "the handler %s answers with %d kinds of messages (%s)", fname(h), len(d.replies), m.knames(d.replies))
			continue
		}
		a := d.replies[0]
		replies[pkgRel(d.op)] = append(replies[pkgRel(d.op)], a)
		looked := 0
		for _, ta := range m.asserts(d.fr, d.hframe) {
			looked++
			if !types.Identical(ta.AssertedType, m.built[a].t) {
				r.violate("answer-type:"+op, p.pos(ta.Pos()), "%s takes the answer as %s, but the handler %s answers with %s", op, shortT(ta.AssertedType), fname(h), shortT(m.built[a].t))
			} else {
				r.ok("the answer is taken as what it is")
			}
		}
		for _, c := range m.kindCompares(d.fl, d.fr, d.hframe) {
			looked++
			if c.k != a {
				r.violate("answer-kind:"+op, p.pos(c.pos), "%s expects an answer of kind %s, but the handler %s answers with %s", op, m.kname(c.k), fname(h), m.kname(a))
			} else {
				r.ok("the expected kind of answer is the one the handler gives")
			}
		}
		_ = looked
	}
	r.floor("operations between the processes", nops, 25)
	// no handler stands where no request of its kind arrives, unless nothing sends that kind
	for side, t := range m.repliers {
		for k, h := range t {
			b, ok := m.built[k]
			if !ok {
				r.violate("handler-without-message:"+m.kname(k), p.pos(h.Pos()), "%s handles messages of kind %s in %s, which no message has", fname(h), m.kname(k), side)
				continue
			}
			if used[side][k] {
				continue
			}
			// not sent through an operation: its type must fit all the same
			for _, b2 := range h.Blocks {
				for _, in := range b2.Instrs {
					if ta, ok := in.(*ssa.TypeAssert); ok && m.isMsgStruct(ta.AssertedType) && !types.Identical(ta.AssertedType, b.t) {
						r.violate("handler-type:"+m.kname(k), p.pos(ta.Pos()), "the handler of %s takes the request as %s, but it is a %s", m.kname(k), shortT(ta.AssertedType), shortT(b.t))
					}
				}
			}
		}
	}
	// the loops
	m.dispatch(r, ipcNode, requests[ipcNode], replies[ipcNode], nil)
	m.dispatch(r, ipcArwen, requests[ipcArwen], nil, m.signals(r))
	// what the messages are made of can be decoded
	for _, k := range ks {
		m.decodable(r, m.built[k].t)
	}
	if o := p.Pkgs[ipcCommon].Types.Scope().Lookup("MessageInitialize"); o != nil {
		m.decodable(r, types.NewPointer(o.Type()))
	}
	r.Assumptions = append(r.Assumptions, "the marshalizers (encoding/json, encoding/gob) carry every exported field of the types they are given", "the VM process runs the handlers of the same version of the code")
}

// decodable: everything in a message is exported and of a type a decoder can make.
func (m *ipcModel) decodable(r *Result, t types.Type) {
	seen := map[types.Type]bool{}
	var visit func(t types.Type, where string)
	visit = func(t types.Type, where string) {
		if seen[t] {
			return
		}
		seen[t] = true
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			pp := n.Obj().Pkg().Path()
			if pp == "math/big" || pp == "time" {
				return
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			visit(u.Elem(), where)
		case *types.Slice:
			visit(u.Elem(), where)
		case *types.Array:
			visit(u.Elem(), where)
		case *types.Map:
			visit(u.Key(), where)
			visit(u.Elem(), where)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				w := typeName(t) + "." + f.Name()
				if !f.Exported() {
					r.violate("hidden-field:"+w, m.p.pos(f.Pos()), "%s is part of a message but not exported: it is lost between the processes", w)
					continue
				}
				if tag := u.Tag(i); strings.Contains(tag, `json:"-"`) {
					r.violate("hidden-field:"+w, m.p.pos(f.Pos()), "%s is part of a message but excluded from encoding: it is lost between the processes", w)
					continue
				}
				visit(f.Type(), w)
			}
		case *types.Interface, *types.Signature, *types.Chan:
			r.violate("undecodable:"+where, "-", "%s is part of a message and of type %s, which no decoder can make", where, shortT(t))
		}
	}
	visit(t, shortT(t))
	r.ok("everything in a message can be decoded")
}

// asserts: the conversions of messages to concrete types that would crash on another message.
func (m *ipcModel) asserts(fr *fframe, except *fframe) []*ssa.TypeAssert {
	var out []*ssa.TypeAssert
	var walk func(f *fframe)
	walk = func(f *fframe) {
		if f == except {
			return
		}
		for _, b := range f.fn.Blocks {
			for _, in := range b.Instrs {
				if ta, ok := in.(*ssa.TypeAssert); ok && m.isHandlerT(ta.X.Type()) && m.isMsgStruct(ta.AssertedType) {
					out = append(out, ta)
				}
			}
		}
		for _, ks := range f.kids {
			for _, k := range ks {
				walk(k)
			}
		}
	}
	walk(fr)
	return out
}

type kindCompare struct {
	k   int64
	pos token.Pos
}

// kindCompares: the kinds the answer is compared with.
func (m *ipcModel) kindCompares(fl *Flow, fr *fframe, except *fframe) []kindCompare {
	var out []kindCompare
	var walk func(f *fframe)
	walk = func(f *fframe) {
		if f == except {
			return
		}
		for _, b := range f.fn.Blocks {
			for _, in := range b.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok || bo.Op != token.EQL && bo.Op != token.NEQ || !types.Identical(bo.X.Type(), m.kindT) {
					continue
				}
				side := func(v, o ssa.Value) {
					if c, ok := v.(*ssa.Call); !ok || methodName(c.Common()) != "GetKind" {
						return
					}
					for l := range fl.val(f, o).labels {
						if n, err := strconv.ParseInt(strings.TrimPrefix(l, "const:"), 10, 64); err == nil && strings.HasPrefix(l, "const:") {
							out = append(out, kindCompare{n, bo.Pos()})
						}
					}
				}
				side(bo.X, bo.Y)
				side(bo.Y, bo.X)
			}
		}
		for _, ks := range f.kids {
			for _, k := range ks {
				walk(k)
			}
		}
	}
	walk(fr)
	return out
}

// dispatch runs the message loop of one side for every kind: requests must reach their handler, answers
// must end the loop.
func (m *ipcModel) isSend(com *ssa.CallCommon) bool {
	f := com.StaticCallee()
	if f == nil || !strings.HasPrefix(pkgRel(f), "ipc/") || f.Signature.Recv() == nil {
		return false
	}
	ps := f.Signature.Params()
	rs := f.Signature.Results()
	return strings.Contains(typeName(f.Signature.Recv().Type()), "Messenger") && ps.Len() == 1 && m.isHandlerT(ps.At(0).Type()) && rs.Len() == 1 && isErrorType(rs.At(0).Type())
}

// signals: the kinds the node sends without waiting for an answer; they end the other side's loop.
func (m *ipcModel) signals(r *Result) []int64 {
	set := map[int64]bool{}
	for _, f := range m.p.Funcs {
		if pkgRel(f) != ipcNode || f.Parent() != nil || m.isTransport(f) {
			continue
		}
		var at []ssa.CallInstruction
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && m.isSend(ci.Common()) {
					at = append(at, ci)
				}
			}
		}
		if at == nil {
			continue
		}
		fl := newFlow(m.p)
		fl.Inline = func(g *ssa.Function) bool { return pkgRel(g) == ipcCommon && recvName(g) != "Messenger" }
		fr := fl.Run(f)
		for _, ci := range at {
			for _, k := range m.kindsOf(fl, fl.val(fr, ci.Common().Args[1])) {
				if m.repliers[ipcArwen][k] == nil && m.built[k].t != nil {
					set[k] = true
				}
			}
		}
	}
	r.floor("messages sent without waiting for an answer", len(set), 1)
	return keysInt(set)
}

func (m *ipcModel) dispatch(r *Result, side string, requests, answers, signals []int64) {
	p := m.p
	// the loop: the function that receives a message and calls a handler with it
	calls := func(com *ssa.CallCommon) bool {
		return !com.IsInvoke() && com.StaticCallee() == nil && com.Value != nil && m.isReplier(com.Value.Type())
	}
	isRecv := func(com *ssa.CallCommon) bool {
		f := com.StaticCallee()
		if f == nil || !strings.HasPrefix(pkgRel(f), "ipc/") || f.Signature.Recv() == nil || m.isTransport(f) {
			return false
		}
		rs := f.Signature.Results()
		return strings.Contains(typeName(f.Signature.Recv().Type()), "Messenger") && rs.Len() >= 2 && m.isHandlerT(rs.At(0).Type()) && isErrorType(rs.At(rs.Len()-1).Type())
	}
	isSend := m.isSend
	handles := p.reaching(func(com *ssa.CallCommon, name string) bool { return calls(com) })
	receives := p.reaching(func(com *ssa.CallCommon, name string) bool { return isRecv(com) })
	var loop *ssa.Function
	for _, f := range p.Funcs {
		if pkgRel(f) != side || f.Parent() != nil || !handles[f] || !receives[f] {
			continue
		}
		// the innermost such function
		direct := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && isRecv(ci.Common()) {
					direct = true
				}
			}
		}
		if direct {
			loop = f
		}
	}
	if loop == nil {
		r.violate("undecided:loop:"+side, "-", "the message loop of %s is not recognised", side)
		return
	}
	want := map[int64]string{}
	for _, k := range requests {
		want[k] = "handled"
	}
	for _, k := range answers {
		want[k] = "returned"
	}
	for _, k := range signals {
		want[k] = "refused"
	}
	var kinds []int64
	for k := range m.kinds {
		kinds = append(kinds, k)
	}
	sort.Slice(kinds, func(i, j int) bool { return kinds[i] < kinds[j] })
	for _, k := range kinds {
		got := map[string]token.Pos{}
		eng := newEngine(p)
		eng.IsEvent = func(com *ssa.CallCommon, name string) bool {
			return calls(com) || isRecv(com) || isSend(com) || methodName(com) == "GetKind"
		}
		eng.Load = func(st *State, x *ssa.UnOp) (Val, bool) {
			if ia, ok := x.X.(*ssa.IndexAddr); ok && m.isReplier(x.Type()) {
				if n := eng.Eval(st, ia.Index); n.K == VInt {
					return vtag("replier:" + strconv.FormatInt(n.N, 10)), true
				}
				return vtag("replier:?"), true
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "MaxLoopTime" {
				return vint(1000), true
			}
			return Val{}, false
		}
		eng.BinOp = intArith
		kk := k
		eng.Event = func(c *CallCtx) ([]Outcome, bool) {
			switch {
			case isRecv(c.Com):
				if c.St.C != "" {
					return nil, true // the next message is another story
				}
				n := c.Com.Signature().Results().Len()
				res := make([]Val, n)
				for i := range res {
					res[i] = vint(1)
				}
				res[0], res[n-1] = vtag("msg"), Val{K: VNil}
				return []Outcome{{C: "got", Res: res}}, true
			case calls(c.Com):
				f := c.E.Eval(c.St, c.Com.Value)
				if len(c.Args) == 1 && c.Args[0].K == VTag && c.Args[0].T == "msg" {
					if f.K == VTag && f.T == "replier:"+strconv.FormatInt(kk, 10) {
						got["handled"] = c.Instr.Pos()
					} else {
						got["misdirected"] = c.Instr.Pos()
					}
					return []Outcome{{C: "handled", Res: []Val{vtag("reply")}}}, true
				}
				return []Outcome{{C: c.St.C, Res: []Val{vtag("?")}}}, true
			case isSend(c.Com):
				return []Outcome{{C: c.St.C, Res: []Val{{K: VNil}}}}, true
			case methodName(c.Com) == "GetKind" && len(c.Args) > 0 && c.Args[0].K == VTag && c.Args[0].T == "msg":
				return []Outcome{{C: c.St.C, Res: []Val{vint(kk)}}}, true
			}
			return nil, false
		}
		for _, x := range eng.Run(loop, "") {
			if x.C != "got" || len(x.Res) == 0 {
				continue
			}
			last := x.Res[len(x.Res)-1]
			isNil, known := last.isNil()
			switch {
			case len(x.Res) == 2 && x.Res[0].K == VTag && x.Res[0].T == "msg" && known && isNil:
				got["returned"] = loop.Pos()
			case known && !isNil:
				got["refused"] = loop.Pos()
			default:
				got["unclear"] = loop.Pos()
			}
		}
		eng.finish(r)
		w := want[k]
		if w == "" {
			continue
		}
		for g, pos := range got {
			if g != w {
				r.violate("dispatch:"+side+":"+m.kname(k), p.pos(pos), "a message of kind %s that arrives in %s is %s instead of being %s", m.kname(k), fname(loop), g, map[bool]string{true: "the end of the loop", false: w}[w == "refused"])
			}
		}
		if _, ok := got[w]; ok && len(got) == 1 {
			r.ok("the message loop sends a message where it belongs")
		} else if len(got) == 0 {
			r.violate("dispatch:"+side+":"+m.kname(k), p.pos(loop.Pos()), "what %s does with a message of kind %s is not decided", fname(loop), m.kname(k))
		}
	}
	r.saw(fname(loop))
}

// intArith folds additions and subtractions of known numbers.
func intArith(op token.Token, a, b Val) (Val, bool) {
	if a.K == VInt && b.K == VInt {
		switch op {
		case token.ADD:
			return vint(a.N + b.N), true
		case token.SUB:
			return vint(a.N - b.N), true
		}
	}
	return Val{}, false
}

// ---- I02, I03: what is said arrives

// same checks that a value is, part by part, the thing at a path.
type sameCheck struct {
	m     *ipcModel
	fl    *Flow
	r     *Result
	op    string
	pos   string
	rule  string
	allow map[string]bool // labels that may come along
	parts int
	seen  map[string]bool
}

func (s *sameCheck) bad(path, format string, args ...interface{}) {
	s.r.violate(s.rule+":"+s.op+":"+path, s.pos, "%s: %s", s.op, fmt.Sprintf(format, args...))
}

var mapIdentity = map[string]string{"OutputAccounts": "Address", "StorageUpdates": "Offset"}

// isPart: (part of) an argument or of an answer.
func isPart(l string) bool {
	return len(l) > 1 && (l[0] == 'r' || l[0] == 'p') && l[1] >= '0' && l[1] <= '9'
}

func isBytesLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	case *types.Array:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	return false
}

func (s *sameCheck) same(v *fval, path string, t types.Type, depth int) {
	if s.seen[path] || depth > 8 {
		return
	}
	s.seen[path] = true
	s.parts++
	under := func(l string) bool {
		return l == path || strings.HasPrefix(l, path+".") || strings.HasPrefix(l, path+"[")
	}
	leaf := func() {
		ls := s.fl.Labels(v)
		found := false
		for l := range ls {
			if under(l) {
				found = true
			} else if isErrorType(t) && !isPart(l) {
				// an error of the communication itself
			} else if !strings.HasPrefix(l, "const:") && !s.allow[l] {
				s.bad(path, "%s also receives %s", path, l)
			}
		}
		if !found {
			s.bad(path, "%s does not arrive in its place (it receives: %s)", path, labelList(ls))
		}
	}
	if isBytesLike(t) || isErrorType(t) {
		leaf()
		return
	}
	if n, ok := deref(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big" {
		leaf()
		return
	}
	var made []*fobj
	identity := false
	for l := range v.ptrs {
		o := l.o
		if l.f != "" {
			for sl := range s.fl.slot(l.o, l.f, nil).ptrs {
				o = sl.o
			}
		}
		if o.path != "" {
			if o.path == path {
				identity = true
			} else {
				s.bad(path, "%s stands where %s belongs", o.path, path)
			}
			continue
		}
		made = append(made, o)
	}
	if len(made) == 0 {
		if !identity {
			leaf()
		}
		return
	}
	// a list or map that was made empty and then replaced by what append gives
	if len(made) > 1 {
		var full []*fobj
		for _, o := range made {
			_, isSl := t.Underlying().(*types.Slice)
			if !isSl || len(s.fl.Labels(one(o))) > 0 {
				full = append(full, o)
			}
		}
		if len(full) > 0 {
			made = full
		}
	}
	for _, o := range made {
		ot := t
		if o.typ != nil {
			ot = o.typ
		}
		switch u := deref(ot).Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				c := &sameCheck{m: s.m, fl: s.fl, r: s.r, op: s.op, pos: s.pos, rule: s.rule, allow: s.allow, seen: map[string]bool{}}
				c.same(s.fl.Field(one(o), f.Name()), path+"."+f.Name(), f.Type(), depth+1)
				s.parts += c.parts
			}
		case *types.Map:
			seen := map[string]bool{}
			c := &sameCheck{m: s.m, fl: s.fl, r: s.r, op: s.op, pos: s.pos, rule: s.rule, allow: s.allow, seen: seen}
			c.same(s.fl.Field(one(o), "[]"), path+"[]", u.Elem(), depth+1)
			s.parts += c.parts
			ks := s.fl.Labels(s.fl.Field(one(o), "[k]"))
			okKey := false
			for l := range ks {
				id := ""
				for f, k := range mapIdentity {
					if strings.HasSuffix(path, "."+f) {
						id = path + "[]." + k
					}
				}
				switch {
				case strings.HasPrefix(l, path+"[k]"), id != "" && strings.HasPrefix(l, id):
					okKey = true
				case strings.HasPrefix(l, "const:") || s.allow[l]:
				default:
					s.bad(path+"[k]", "the keys of %s are made of %s", path, l)
				}
			}
			if !okKey {
				s.bad(path+"[k]", "the keys of %s do not arrive", path)
			}
		case *types.Slice, *types.Array:
			var et types.Type
			if sl, ok := u.(*types.Slice); ok {
				et = sl.Elem()
			} else {
				et = u.(*types.Array).Elem()
			}
			c := &sameCheck{m: s.m, fl: s.fl, r: s.r, op: s.op, pos: s.pos, rule: s.rule, allow: s.allow, seen: map[string]bool{}}
			c.same(s.fl.Field(one(o), "[]"), path+"[]", et, depth+1)
			s.parts += c.parts
		default:
			leaf()
		}
	}
}

func one(o *fobj) *fval {
	v := newFval()
	v.ptrs[loc{o, ""}] = true
	return v
}

// carried checks one operation: the handler asks the same question with the same arguments, and the answer
// comes back in its place.
func (m *ipcModel) carried(r *Result, d *dialogue, rule string) int {
	op := fname(d.op)
	pos := m.p.pos(d.op.Pos())
	r.saw(op)
	parts := 0
	var qs []*FlowCall
	seen := map[ssa.Instruction]bool{}
	for _, q := range d.questions {
		if !seen[q.Instr] {
			seen[q.Instr] = true
			qs = append(qs, q)
		}
	}
	if len(qs) == 0 {
		r.violate(rule+":"+op, pos, "%s: the handler on the other side does not ask anything", op)
		return 0
	}
	for _, q := range qs {
		com := q.Instr.(ssa.CallInstruction).Common()
		if com.Method.Name() != d.op.Name() {
			r.violate(rule+":"+op+":question", m.p.pos(q.Instr.Pos()), "%s is answered by asking %s", op, com.Method.Name())
			continue
		}
		for i := 1; i < len(q.Args); i++ {
			s := &sameCheck{m: m, fl: d.fl, r: r, op: op, pos: pos, rule: rule, allow: map[string]bool{}, seen: map[string]bool{}}
			s.same(q.Args[i], "p"+strconv.Itoa(i-1), com.Args[i-1].Type(), 0)
			parts += s.parts
		}
	}
	rs := d.op.Signature.Results()
	for j := 0; j < rs.Len(); j++ {
		s := &sameCheck{m: m, fl: d.fl, r: r, op: op, pos: pos, rule: rule, allow: map[string]bool{}, seen: map[string]bool{}}
		if isErrorType(rs.At(j).Type()) {
			s.allow["transport"] = true
		}
		s.same(d.fr.ret[j], "r"+strconv.Itoa(j), rs.At(j).Type(), 0)
		parts += s.parts
	}
	r.okN("a part of a question or an answer arrives in its place", parts)
	return parts
}

func checkI02(p *Prog, r *Result) {
	r.Rule = "for every question of the blockchain interface: followed through the request, the handler for its kind on the node's side and the answer, the handler asks the same question with every argument in its place, and every part of the answer comes back in its place; when the dialogue fails or the answer is of any other kind, the question is answered with an error or with the zero value and the answer is not looked at"
	m := ipcLoad(p, r)
	if m == nil {
		return
	}
	n, parts := 0, 0
	done := map[string]bool{}
	conv := map[*ssa.Function]bool{}
	for _, d := range m.operations(r) {
		if pkgRel(d.op) != ipcArwen || d.transport == 0 {
			continue
		}
		n++
		done[d.op.Name()] = true
		parts += m.carried(r, d, "carried")
		m.failures(r, d)
		m.errorsCarried(r, d, m.iface(vmcommonPath, "BlockchainHook"))
		for f := range d.fl.Funcs {
			if pkgRel(f) == ipcCommon {
				conv[f] = true
			}
		}
	}
	m.completeAll(r, conv)
	hook := m.iface(vmcommonPath, "BlockchainHook")
	gw := false
	for i := 0; hook != nil && i < hook.NumMethods(); i++ {
		name := hook.Method(i).Name()
		if name == "IsInterfaceNil" {
			continue
		}
		if !done[name] {
			for _, f := range p.Funcs {
				if pkgRel(f) == ipcArwen && f.Name() == name && f.Signature.Recv() != nil && m.implements(f, hook) {
					gw = true
					r.violate("not-asked:"+name, p.pos(f.Pos()), "%s does not ask the node", fname(f))
				}
			}
		}
	}
	_ = gw
	r.floor("questions of the VM process", n, 20)
	r.floor("parts followed", parts, 60)
	r.Assumptions = append(r.Assumptions, "the marshalizers (encoding/json, encoding/gob) carry every exported field of a message unchanged (see I01 and I03)")
}

// failures: nothing of a failed dialogue or of another answer is taken for the answer.
func (m *ipcModel) failures(r *Result, d *dialogue) {
	if len(d.replies) != 1 {
		return
	}
	p := m.p
	right := d.replies[0]
	op := fname(d.op)
	var kinds []int64
	for k := range m.kinds {
		kinds = append(kinds, k)
	}
	sort.Slice(kinds, func(i, j int) bool { return kinds[i] < kinds[j] })
	eng := newEngine(p)
	eng.IsEvent = func(com *ssa.CallCommon, name string) bool {
		return m.isTransport(com.StaticCallee()) || methodName(com) == "GetKind"
	}
	// functions that are handed messages are followed
	eng.Force = func(f *ssa.Function) bool {
		if pkgRel(f) != ipcArwen && pkgRel(f) != ipcCommon {
			return false
		}
		for i := 0; i < f.Signature.Params().Len(); i++ {
			if m.isHandlerT(f.Signature.Params().At(i).Type()) {
				return true
			}
		}
		return false
	}
	eng.Event = func(c *CallCtx) ([]Outcome, bool) {
		if m.isTransport(c.Com.StaticCallee()) {
			outs := []Outcome{{C: "failed", Res: []Val{vtag("none"), {K: VNonNil}}}}
			for _, k := range kinds {
				outs = append(outs, Outcome{C: "k" + strconv.FormatInt(k, 10), Res: []Val{vtag("msg"), {K: VNil}}})
			}
			return outs, true
		}
		if methodName(c.Com) == "GetKind" && len(c.Args) > 0 && c.Args[0].K == VTag && c.Args[0].T == "msg" {
			n, _ := strconv.ParseInt(strings.TrimPrefix(c.St.C, "k"), 10, 64)
			return []Outcome{{C: c.St.C, Res: []Val{vint(n)}}}, true
		}
		return nil, false
	}
	wrong := func(c string) bool { return c == "failed" || c != "" && c != "k"+strconv.FormatInt(right, 10) }
	eng.Instr = func(e *Engine, fn *ssa.Function, in ssa.Instruction, st *State) {
		ta, ok := in.(*ssa.TypeAssert)
		if !ok || ta.CommaOk || !m.isHandlerT(ta.X.Type()) {
			return
		}
		if wrong(st.C) {
			r.violate("other-answer:"+op, p.pos(in.Pos()), "%s takes %s for the answer of kind %s", op, m.outcomeName(st.C), m.kname(right))
		}
	}
	bad := false
	answered := false
	for _, x := range eng.Run(d.op, "") {
		if x.C == "" {
			continue
		}
		if !wrong(x.C) {
			answered = true
			continue
		}
		rs := d.op.Signature.Results()
		for j := 0; j < rs.Len(); j++ {
			t := rs.At(j).Type()
			isNil, known := x.Res[j].isNil()
			if isErrorType(t) {
				if !known || isNil {
					bad = true
					r.violate("no-error:"+op, p.pos(d.op.Pos()), "%s gives no error when the dialogue ended with %s", op, m.outcomeName(x.C))
				}
				continue
			}
			z, _ := zeroOf(t)
			if x.Res[j] != z && !(z.K == VNil && known && isNil) {
				bad = true
				r.violate("not-zero:"+op, p.pos(d.op.Pos()), "%s gives a value when the dialogue ended with %s", op, m.outcomeName(x.C))
			}
		}
		r.ok("a failed dialogue or another answer is not taken for the answer")
	}
	_ = bad
	if !answered {
		r.violate("never-answered:"+op, p.pos(d.op.Pos()), "%s does not take the answer of kind %s", op, m.kname(right))
	}
	eng.finish(r)
}

// errorsCarried: the handler asks its question once, whatever the request; an error it gets is part of the
// answer, and an error that is part of the answer is given to the one who asked.
func (m *ipcModel) errorsCarried(r *Result, d *dialogue, target *types.Interface) {
	p := m.p
	op := fname(d.op)
	asksErr := false
	for h := range d.handlers {
		name := fname(h)
		question := func(com *ssa.CallCommon) bool {
			if !com.IsInvoke() || !ifaceHas(com.Value.Type(), target) {
				return false
			}
			return com.Method.Name() != "IsInterfaceNil" || d.op.Name() == "IsInterfaceNil"
		}
		setErr := func(com *ssa.CallCommon) bool { return methodName(com) == "SetError" }
		eng := newEngine(p)
		eng.IsEvent = func(com *ssa.CallCommon, _ string) bool { return question(com) || setErr(com) }
		eng.Event = func(c *CallCtx) ([]Outcome, bool) {
			st := c.St.C
			switch {
			case question(c.Com):
				if kvGet(st, "asked") != "" {
					r.violate("asked-twice:"+name, p.pos(c.Instr.Pos()), "%s asks more than once for one request", name)
					return nil, true
				}
				rs := c.Com.Signature().Results()
				n := rs.Len()
				good := make([]Val, n)
				if n == 0 || !isErrorType(rs.At(n-1).Type()) {
					return []Outcome{{C: kvSet(st, "asked", "ok"), Res: good}}, true
				}
				asksErr = true
				bad := make([]Val, n)
				good[n-1], bad[n-1] = Val{K: VNil}, Val{K: VNonNil}
				return []Outcome{{C: kvSet(st, "asked", "ok"), Res: good}, {C: kvSet(st, "asked", "error"), Res: bad}}, true
			case setErr(c.Com):
				isNil, known := c.Args[len(c.Args)-1].isNil()
				if known && isNil {
					return []Outcome{{C: st}}, true
				}
				return []Outcome{{C: kvSet(st, "set", "yes")}}, true
			}
			return nil, false
		}
		asks := len(d.questions) > 0
		for _, x := range eng.Run(h, "") {
			if !asks {
				continue
			}
			switch kvGet(x.C, "asked") {
			case "":
				r.violate("not-asked:"+name, p.pos(h.Pos()), "%s answers some requests without asking", name)
			case "error":
				if kvGet(x.C, "set") != "yes" {
					r.violate("error-lost:"+name, p.pos(h.Pos()), "%s does not put the error it got into its answer", name)
				} else {
					r.ok("an error is part of the answer")
				}
			default:
				r.ok("the question is asked once")
			}
		}
		eng.finish(r)
	}
	rs := d.op.Signature.Results()
	if !asksErr || rs.Len() == 0 || !isErrorType(rs.At(rs.Len()-1).Type()) || len(d.replies) != 1 {
		return
	}
	right := d.replies[0]
	eng := newEngine(p)
	getErr := func(com *ssa.CallCommon) bool { return methodName(com) == "GetError" }
	eng.IsEvent = func(com *ssa.CallCommon, _ string) bool {
		return m.isTransport(com.StaticCallee()) || getErr(com) || methodName(com) == "GetKind"
	}
	eng.Event = func(c *CallCtx) ([]Outcome, bool) {
		st := c.St.C
		switch {
		case m.isTransport(c.Com.StaticCallee()):
			return []Outcome{{C: kvSet(st, "answer", "none"), Res: []Val{{K: VNil}, {K: VNonNil}}}, {C: kvSet(st, "answer", "yes"), Res: []Val{vtag("msg"), {K: VNil}}}}, true
		case methodName(c.Com) == "GetKind" && len(c.Args) > 0 && c.Args[0].K == VTag && c.Args[0].T == "msg":
			return []Outcome{{C: st, Res: []Val{vint(right)}}}, true
		case getErr(c.Com):
			switch kvGet(st, "e") {
			case "nil":
				return []Outcome{{C: st, Res: []Val{{K: VNil}}}}, true
			case "err":
				return []Outcome{{C: st, Res: []Val{{K: VNonNil}}}}, true
			}
			return []Outcome{{C: kvSet(st, "e", "nil"), Res: []Val{{K: VNil}}}, {C: kvSet(st, "e", "err"), Res: []Val{{K: VNonNil}}}}, true
		}
		return nil, false
	}
	for _, x := range eng.Run(d.op, "") {
		if kvGet(x.C, "answer") != "yes" {
			continue
		}
		isNil, known := x.Res[len(x.Res)-1].isNil()
		if known && !isNil {
			r.ok("an error of the answer is given on")
			continue
		}
		if kvGet(x.C, "e") != "nil" {
			r.violate("error-ignored:"+op, p.pos(d.op.Pos()), "%s gives on an answer without its error", op)
		} else {
			r.ok("an error of the answer is given on")
		}
	}
	eng.finish(r)
}

func (m *ipcModel) outcomeName(c string) string {
	if c == "failed" {
		return "a communication failure"
	}
	n, _ := strconv.ParseInt(strings.TrimPrefix(c, "k"), 10, 64)
	return "a message of kind " + m.kname(n)
}

func checkI03(p *Prog, r *Result) {
	r.Rule = "followed from the node's driver through the request, the handler in the VM process, and back: the VM is given every part of the input, and every part of its result comes back in its place; the functions that convert results and accounts copy every part unconditionally and in full"
	m := ipcLoad(p, r)
	if m == nil {
		return
	}
	n := 0
	conv := map[*ssa.Function]bool{}
	for _, d := range m.operations(r) {
		if d.transport == 0 {
			continue
		}
		for f := range d.fl.Funcs {
			if pkgRel(f) == ipcCommon {
				conv[f] = true
			}
		}
		if pkgRel(d.op) == ipcArwen {
			// the ones that carry results or accounts
			m.carriedTo(r, d)
			continue
		}
		if len(d.questions) == 0 {
			continue
		}
		n++
		m.carried(r, d, "carried")
		m.errorsCarried(r, d, m.iface(vmcommonPath, "VMExecutionHandler"))
	}
	r.floor("operations of the driver", n, 3)
	// conversions are unconditional and complete
	nc := m.completeAll(r, conv)
	r.floor("conversion functions", nc, 10)
	m.texts(r)
	r.Assumptions = append(r.Assumptions, "the marshalizers (encoding/json, encoding/gob) carry every exported field of a message unchanged, texts that are not UTF-8 excepted")
}

func (m *ipcModel) carriedTo(r *Result, d *dialogue) {
	rs := d.op.Signature.Results()
	for j := 0; j < rs.Len(); j++ {
		pp := pkgPathOfType(rs.At(j).Type())
		if !strings.HasPrefix(pp, vmcommonPath) {
			continue
		}
		s := &sameCheck{m: m, fl: d.fl, r: r, op: fname(d.op), pos: m.p.pos(d.op.Pos()), rule: "carried", allow: map[string]bool{}, seen: map[string]bool{}}
		s.same(d.fr.ret[j], "r"+strconv.Itoa(j), rs.At(j).Type(), 0)
		r.okN("a part of a result or an account arrives in its place", s.parts)
	}
}

func (m *ipcModel) completeAll(r *Result, conv map[*ssa.Function]bool) int {
	var fs []*ssa.Function
	for f := range conv {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		m.complete(r, f)
	}
	return len(fs)
}

// complete: no condition decides whether a part is copied, except absence (nil) and the end of a list, and
// every list is walked from its first to its last element.
func (m *ipcModel) complete(r *Result, f *ssa.Function) {
	p := m.p
	r.saw(fname(f))
	for _, b := range f.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		why := m.condition(iff.Cond)
		if why == "" && elementLen(iff.Cond) {
			why = "an element of a list is looked at"
		}
		if why != "" {
			r.violate("condition:"+fname(f), p.pos(iff.Cond.Pos()), "%s copies something only when a condition holds: %s", fname(f), why)
		} else {
			r.ok("nothing but absence or the end of a list decides what is copied")
		}
	}
}

func (m *ipcModel) condition(c ssa.Value) string {
	isNil := func(v ssa.Value) bool { k, ok := v.(*ssa.Const); return ok && k.Value == nil }
	switch x := c.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return m.condition(x.X)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if _, ok := e.(*ssa.Const); ok {
				continue
			}
			if w := m.condition(e); w != "" {
				return w
			}
		}
		return ""
	case *ssa.BinOp:
		switch x.Op {
		case token.EQL, token.NEQ:
			if isNil(x.X) || isNil(x.Y) {
				return ""
			}
			if n, ok := intConst(x.Y); ok && n == 0 && lenValue(x.X) {
				return ""
			}
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			lo, hi := x.X, x.Y
			if x.Op == token.GTR || x.Op == token.GEQ {
				lo, hi = hi, lo
			}
			if n, ok := intConst(lo); ok && n == 0 && lenValue(hi) && x.Op != token.LEQ && x.Op != token.GEQ {
				return "" // len(x) > 0
			}
			if lenValue(hi) && (x.Op == token.LSS || x.Op == token.GTR) {
				return counterFromStart(lo)
			}
			return "the bounds of a loop are not recognised as a whole list"
		}
	case *ssa.Extract:
		if _, ok := x.Tuple.(*ssa.Next); ok && x.Index == 0 {
			return ""
		}
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && ta.CommaOk {
			return ""
		}
	case *ssa.Call:
		n := methodName(x.Common())
		if n == "IfNil" || n == "IsInterfaceNil" {
			return ""
		}
	}
	return "not a comparison with nil or the end of a list"
}

// elementLen: the length of an element of a list decides.
func elementLen(c ssa.Value) bool {
	switch x := c.(type) {
	case *ssa.UnOp:
		return elementLen(x.X)
	case *ssa.BinOp:
		for _, o := range []ssa.Value{x.X, x.Y} {
			ca, ok := o.(*ssa.Call)
			if !ok || !lenValue(o) {
				continue
			}
			switch a := ca.Call.Args[0].(type) {
			case *ssa.UnOp:
				if _, ok := a.X.(*ssa.IndexAddr); ok {
					if _, k := intConst(x.X); k {
						return true
					}
					if _, k := intConst(x.Y); k {
						return true
					}
				}
			case *ssa.Extract:
				if _, ok := a.Tuple.(*ssa.Next); ok {
					return true
				}
			case *ssa.Lookup:
				return true
			}
			if fromElement(ca.Call.Args[0], 0) {
				return true
			}
		}
	}
	return false
}

// fromElement: a part of an element of a list or map.
func fromElement(v ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		return fromElement(x.X, d+1)
	case *ssa.FieldAddr:
		return fromElement(x.X, d+1)
	case *ssa.Field:
		return fromElement(x.X, d+1)
	case *ssa.IndexAddr, *ssa.Index, *ssa.Lookup:
		return true
	case *ssa.Extract:
		_, ok := x.Tuple.(*ssa.Next)
		return ok
	}
	return false
}

func lenValue(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len"
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && !lenValue(e) {
				return false
			}
		}
		return len(x.Edges) > 0
	}
	return false
}

// counterFromStart: a loop counter that takes every index from 0 on.
func counterFromStart(v ssa.Value) string {
	start := int64(0)
	if bo, ok := v.(*ssa.BinOp); ok && bo.Op == token.ADD { // range: the counter is increased first
		if n, ok := intConst(bo.Y); !ok || n != 1 {
			return "a loop does not go step by step"
		}
		v = bo.X
		start = -1
	}
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return "the counter of a loop is not recognised"
	}
	for _, e := range ph.Edges {
		if n, ok := intConst(e); ok {
			if n != start {
				return "a loop does not begin with the first element"
			}
			continue
		}
		bo, ok := e.(*ssa.BinOp)
		if !ok || bo.Op != token.ADD || bo.X != ph {
			return "a loop does not go step by step"
		}
		if n, ok := intConst(bo.Y); !ok || n != 1 {
			return "a loop does not go step by step"
		}
	}
	return ""
}

// plainTexts are fields of messages that only ever hold texts of the configuration or of the program.
var plainTexts = map[string]bool{
	"MessageVersionResponse.Version":                          true,
	"VMHostParameters.GasSchedule":                            true,
	"MessageGasScheduleChangeRequest.GasSchedule":             true,
	"MessageBlockchainGetBuiltinFunctionNamesResponse.Result": true,
}

// texts: JSON replaces what is not UTF-8 in a text.
func (m *ipcModel) texts(r *Result) {
	json := false
	for _, f := range m.p.Funcs {
		if pkgRel(f) != "ipc/marshaling" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && calleeName(ci.Common()) == "encoding/json.Marshal" {
					json = true
				}
			}
		}
	}
	if !json {
		return
	}
	reported := map[string]bool{}
	for _, b := range m.built {
		seen := map[types.Type]bool{}
		var visit func(t types.Type, where string)
		visit = func(t types.Type, where string) {
			if bt, ok := t.Underlying().(*types.Basic); ok && bt.Kind() == types.String {
				if !plainTexts[where] && !reported[where] {
					reported[where] = true
					r.violate("text:"+where, "-", "%s is a text that travels between the processes as JSON: bytes in it that are not UTF-8 arrive as other bytes", where)
				}
				return
			}
			if seen[t] {
				return
			}
			seen[t] = true
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big" {
				return
			}
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				visit(u.Elem(), where)
			case *types.Slice:
				visit(u.Elem(), where)
			case *types.Map:
				visit(u.Key(), where)
				visit(u.Elem(), where)
			case *types.Struct:
				for i := 0; i < u.NumFields(); i++ {
					visit(u.Field(i).Type(), typeName(t)+"."+u.Field(i).Name())
				}
			}
		}
		visit(b.t, "")
	}
}

// checkI04: the dialogue itself.
func checkI04(p *Prog, r *Result) {
	r.Rule = "every operation of the driver makes sure first that the VM process runs, and when the dialogue fails closes it and reports a critical error; a message is only accepted when its number continues the dialogue; the time of a dialogue runs down with every message and the loop ends with an error when it is used up; both loops start a new dialogue after an answer"
	m := ipcLoad(p, r)
	if m == nil {
		return
	}
	m.driver(r)
	m.numbers(r)
	m.deadline(r)
	m.restart(r)
	m.newDialogue(r)
	m.pipes(r)
}

// pipes: whatever goes wrong with the pipe is reported, and it is read under the deadline that was asked for.
func (m *ipcModel) pipes(r *Result) {
	p := m.p
	n := 0
	for _, f := range p.Funcs {
		rel := pkgRel(f)
		rs := f.Signature.Results()
		if f.Parent() != nil || rs.Len() == 0 || !isErrorType(rs.At(rs.Len()-1).Type()) {
			continue
		}
		rn := recvName(f)
		switch {
		case rel == ipcCommon && (rn == "Sender" || rn == "Receiver" || rn == "Messenger"):
		case rel == ipcNode && (rn == "NodeMessenger" || rn == "NodePart"):
		case rel == ipcArwen && rn == "ArwenMessenger":
		default:
			continue
		}
		n++
		m.errorsReported(r, f)
	}
	r.floor("functions of the pipe", n, 6)
	// the deadline
	isSet := func(name string) bool {
		return strings.HasSuffix(name, "os.File.SetDeadline") || strings.HasSuffix(name, "os.File.SetReadDeadline")
	}
	isRead := func(name string) bool {
		return name == "io.ReadFull" || name == "io.ReadAtLeast" || strings.HasSuffix(name, "os.File.Read")
	}
	nt := 0
	for _, f := range p.Funcs {
		rs := f.Signature.Results()
		if pkgRel(f) != ipcCommon || f.Parent() != nil || recvName(f) != "Receiver" || f.Signature.Params().Len() != 1 || rs.Len() != 3 || !m.isHandlerT(rs.At(0).Type()) {
			continue
		}
		nt++
		for _, t := range []int64{1, 7, 500, 999, 1000, 1001, 60000, 3600000} {
			eng := newEngine(p)
			eng.Args = []Val{{}, vint(t)}
			eng.BinOp = intArith
			eng.IsEvent = func(com *ssa.CallCommon, name string) bool { return isSet(name) || isRead(name) }
			eng.Event = func(c *CallCtx) ([]Outcome, bool) {
				switch {
				case isSet(c.Name):
					if _, zero := c.Com.Args[len(c.Com.Args)-1].(*ssa.Const); zero {
						return []Outcome{{C: "", Res: []Val{{K: VNil}}}, {C: "", Res: []Val{{K: VNonNil}}}}, true
					}
					return []Outcome{{C: "set", Res: []Val{{K: VNil}}}, {C: "", Res: []Val{{K: VNonNil}}}}, true
				case isRead(c.Name):
					if c.St.C != "set" {
						r.violate("deadline:"+fname(f), p.pos(c.Instr.Pos()), "%s reads the pipe without a deadline although it may wait only %d milliseconds", fname(f), t)
					} else {
						r.ok("the pipe is read under the deadline")
					}
				}
				return nil, false
			}
			eng.Run(f, "")
			eng.finish(r)
		}
	}
	r.floor("functions that read the pipe", nt, 1)
}

func recvName(f *ssa.Function) string { return typeName(recvType(f)) }

// driver: restart, dialogue, close and report.
func (m *ipcModel) driver(r *Result) {
	p := m.p
	isRestart := func(com *ssa.CallCommon) bool {
		f := com.StaticCallee()
		return f != nil && f.Name() == "RestartArwenIfNecessary" && pkgRel(f) == ipcNode
	}
	isClose := func(com *ssa.CallCommon) bool {
		f := com.StaticCallee()
		return f != nil && f.Name() == "Close" && pkgRel(f) == ipcNode && recvName(f) == "ArwenDriver"
	}
	isLoop := func(com *ssa.CallCommon) bool {
		f := com.StaticCallee()
		return f != nil && m.isTransport(f) && pkgRel(f) == ipcNode
	}
	isLock := func(com *ssa.CallCommon, n string) bool {
		return methodName(com) == n && strings.HasPrefix(calleeName(com), "sync.Mutex")
	}
	wraps := func(com *ssa.CallCommon) bool {
		f := com.StaticCallee()
		return f != nil && f.Name() == "WrapCriticalError" && pkgRel(f) == ipcCommon
	}
	reaches := p.reaching(func(com *ssa.CallCommon, name string) bool { return isLoop(com) })
	n := 0
	for _, f := range p.Funcs {
		if pkgRel(f) != ipcNode || f.Parent() != nil || recvName(f) != "ArwenDriver" || !reaches[f] || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		name := fname(f)
		eng := newEngine(p)
		eng.IsEvent = func(com *ssa.CallCommon, _ string) bool {
			return isRestart(com) || isClose(com) || isLoop(com) || wraps(com) || isLock(com, "Lock") || isLock(com, "Unlock")
		}
		loops := 0
		eng.Event = func(c *CallCtx) ([]Outcome, bool) {
			st := c.St.C
			switch {
			case isLock(c.Com, "Lock"):
				return []Outcome{{C: kvSet(st, "lock", "1")}}, true
			case isLock(c.Com, "Unlock"):
				return []Outcome{{C: kvSet(st, "lock", "")}}, true
			case isRestart(c.Com):
				if kvGet(st, "lock") == "" {
					r.violate("unlocked:"+name, p.pos(c.Instr.Pos()), "%s talks to the VM process without holding the operations lock", name)
				}
				return []Outcome{{C: kvSet(st, "run", "yes"), Res: []Val{{K: VNil}}}, {C: kvSet(st, "run", "no"), Res: []Val{vtag("err")}}}, true
			case isLoop(c.Com):
				loops++
				if kvGet(st, "run") != "yes" {
					r.violate("not-running:"+name, p.pos(c.Instr.Pos()), "%s begins a dialogue without having made sure that the VM process runs", name)
				}
				if kvGet(st, "lock") == "" {
					r.violate("unlocked:"+name, p.pos(c.Instr.Pos()), "%s talks to the VM process without holding the operations lock", name)
				}
				return []Outcome{{C: kvSet(st, "talk", "ok"), Res: []Val{vtag("answer"), {K: VNil}}}, {C: kvSet(st, "talk", "failed"), Res: []Val{{K: VNil}, vtag("err")}}}, true
			case isClose(c.Com):
				return []Outcome{{C: kvSet(st, "closed", "1"), Res: []Val{{}}}}, true
			case wraps(c.Com):
				return []Outcome{{C: st, Res: []Val{vtag("critical")}}}, true
			}
			return nil, false
		}
		eng.BinOp = tagNonNil
		for _, x := range eng.Run(f, "") {
			run, talk := kvGet(x.C, "run"), kvGet(x.C, "talk")
			if run == "" {
				continue
			}
			if kvGet(x.C, "lock") != "" {
				r.violate("still-locked:"+name, p.pos(f.Pos()), "%s ends with the operations lock held", name)
			}
			failed := run == "no" || talk == "failed"
			if talk == "failed" && kvGet(x.C, "closed") == "" {
				r.violate("not-closed:"+name, p.pos(f.Pos()), "%s leaves the VM process running after a dialogue that failed", name)
			}
			if talk == "ok" && kvGet(x.C, "closed") == "" || failed {
				r.ok("a dialogue is begun with a running process and a failed one is ended")
			}
			rs := f.Signature.Results()
			for j := 0; j < rs.Len(); j++ {
				if !isErrorType(rs.At(j).Type()) || !failed {
					continue
				}
				if v := x.Res[j]; v.K != VTag || v.T != "critical" {
					r.violate("not-critical:"+name, p.pos(f.Pos()), "%s does not report a critical error when %s", name, map[bool]string{true: "the VM process could not be started", false: "the dialogue failed"}[run == "no"])
				} else {
					r.ok("a failed dialogue is reported as a critical error")
				}
			}
			if rs.Len() == 0 {
				continue
			}
		}
		eng.finish(r)
		if loops > 0 {
			n++
		}
	}
	r.floor("operations of the driver", n, 4)
}

// tagNonNil: things known by a tag are there.
func tagNonNil(op token.Token, a, b Val) (Val, bool) {
	if op != token.EQL && op != token.NEQ {
		return Val{}, false
	}
	if a.K == VTag && b.K == VNil || a.K == VNil && b.K == VTag {
		return vbool(op == token.NEQ), true
	}
	return Val{}, false
}

// numbers: the number of a message continues the dialogue.
func (m *ipcModel) numbers(r *Result) {
	p := m.p
	const at = 41
	isNonce := func(v ssa.Value) bool {
		fa, ok := v.(*ssa.FieldAddr)
		return ok && fieldName(fa.X.Type(), fa.Field) == "Nonce" && typeName(fa.X.Type()) == "Messenger"
	}
	nR, nS := 0, 0
	for _, f := range p.Funcs {
		if pkgRel(f) != ipcCommon || f.Parent() != nil || recvName(f) != "Messenger" {
			continue
		}
		rs, ps := f.Signature.Results(), f.Signature.Params()
		recv := rs.Len() == 2 && m.isHandlerT(rs.At(0).Type()) && isErrorType(rs.At(1).Type())
		send := ps.Len() == 1 && m.isHandlerT(ps.At(0).Type()) && rs.Len() == 1
		if !recv && !send {
			continue
		}
		name := fname(f)
		eng := newEngine(p)
		inner := func(com *ssa.CallCommon, typ string) bool {
			g := com.StaticCallee()
			return g != nil && pkgRel(g) == ipcCommon && recvName(g) == typ
		}
		eng.IsEvent = func(com *ssa.CallCommon, _ string) bool {
			return inner(com, "Receiver") || inner(com, "Sender") || methodName(com) == "GetNonce" || methodName(com) == "SetNonce"
		}
		eng.IsRelevantInstr = func(in ssa.Instruction) bool {
			s, ok := in.(*ssa.Store)
			return ok && isNonce(s.Addr)
		}
		eng.BinOp = intArith
		eng.Load = func(st *State, x *ssa.UnOp) (Val, bool) {
			if isNonce(x.X) {
				n, _ := strconv.ParseInt(kvGet(st.C, "own"), 10, 64)
				return vint(n), true
			}
			return Val{}, false
		}
		eng.Instr = func(e *Engine, fn *ssa.Function, in ssa.Instruction, st *State) {
			if s, ok := in.(*ssa.Store); ok && isNonce(s.Addr) {
				v := e.Eval(st, s.Val)
				if v.K == VInt {
					st.C = kvSet(st.C, "own", strconv.FormatInt(v.N, 10))
				} else {
					st.C = kvSet(st.C, "own", "unknown")
				}
			}
		}
		eng.Event = func(c *CallCtx) ([]Outcome, bool) {
			st := c.St.C
			switch {
			case inner(c.Com, "Receiver"):
				var outs []Outcome
				for _, k := range []int64{0, 1, at - 1, at, at + 1, at + 2, at + 1000, 4294967295} {
					outs = append(outs, Outcome{C: kvSet(st, "msg", strconv.FormatInt(k, 10)), Res: []Val{vtag("msg"), vint(1), {K: VNil}}})
				}
				outs = append(outs, Outcome{C: kvSet(st, "msg", "none"), Res: []Val{{K: VNil}, vint(0), {K: VNonNil}}})
				return outs, true
			case methodName(c.Com) == "GetNonce" && len(c.Args) > 0 && c.Args[0].K == VTag && c.Args[0].T == "msg":
				n, _ := strconv.ParseInt(kvGet(st, "msg"), 10, 64)
				return []Outcome{{C: st, Res: []Val{vint(n)}}}, true
			case methodName(c.Com) == "SetNonce":
				if len(c.Args) > 1 && c.Args[1].K == VInt {
					return []Outcome{{C: kvSet(st, "set", strconv.FormatInt(c.Args[1].N, 10))}}, true
				}
				return []Outcome{{C: kvSet(st, "set", "unknown")}}, true
			case inner(c.Com, "Sender") && len(c.Args) > 1:
				return []Outcome{{C: kvSet(st, "sent", "with_"+kvGet(st, "set")), Res: []Val{vint(1), {K: VNil}}}, {C: kvSet(st, "sent", "failed"), Res: []Val{vint(0), {K: VNonNil}}}}, true
			}
			return nil, false
		}
		touched := false
		next := strconv.Itoa(at + 1)
		for _, x := range eng.Run(f, "own="+strconv.Itoa(at)) {
			if recv && kvGet(x.C, "msg") != "" {
				touched = true
				k := kvGet(x.C, "msg")
				isNil, known := x.Res[1].isNil()
				if k == next {
					if !known || !isNil || x.Res[0].K != VTag {
						r.violate("refused:"+name, p.pos(f.Pos()), "%s refuses the message that continues the dialogue", name)
					} else if kvGet(x.C, "own") != next {
						r.violate("number-kept:"+name, p.pos(f.Pos()), "after accepting message %s %s expects to continue after %s", next, name, kvGet(x.C, "own"))
					} else {
						r.ok("the message that continues the dialogue is accepted")
					}
					continue
				}
				if !known || isNil {
					r.violate("stale:"+name, p.pos(f.Pos()), "%s accepts a message whose number does not continue the dialogue (%s after %d)", name, k, at)
				} else {
					r.ok("another message is refused")
				}
			}
			if send && kvGet(x.C, "sent") != "" {
				touched = true
				s := kvGet(x.C, "sent")
				isNil, known := x.Res[0].isNil()
				if s == "failed" {
					if !known || isNil {
						r.violate("unsent:"+name, p.pos(f.Pos()), "%s reports no error when a message could not be sent", name)
					}
					continue
				}
				if s != "with_"+next || kvGet(x.C, "own") != next {
					r.violate("number:"+name, p.pos(f.Pos()), "%s does not send a message with the number that continues the dialogue (%s after %d, own number then %s)", name, s, at, kvGet(x.C, "own"))
				} else {
					r.ok("a message is sent with the number that continues the dialogue")
				}
			}
		}
		eng.finish(r)
		if touched && recv {
			nR++
		}
		if touched && send {
			nS++
		}
	}
	r.floor("functions that receive a message", nR, 1)
	r.floor("functions that send a message", nS, 1)
}

// deadline: the time of a dialogue.
func (m *ipcModel) deadline(r *Result) {
	p := m.p
	const total = 10
	timed := func(com *ssa.CallCommon) bool {
		f := com.StaticCallee()
		if f == nil || pkgRel(f) != ipcNode || recvName(f) != "NodeMessenger" {
			return false
		}
		rs := f.Signature.Results()
		return rs.Len() == 3 && m.isHandlerT(rs.At(0).Type()) && f.Signature.Params().Len() == 1
	}
	n := 0
	for _, f := range p.Funcs {
		if pkgRel(f) != ipcNode || f.Parent() != nil || m.isTransport(f) {
			continue
		}
		direct := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && timed(ci.Common()) {
					direct = true
				}
			}
		}
		if !direct {
			continue
		}
		n++
		name := fname(f)
		eng := newEngine(p)
		eng.IsEvent = func(com *ssa.CallCommon, _ string) bool { return timed(com) }
		eng.BinOp = intArith
		eng.Load = func(st *State, x *ssa.UnOp) (Val, bool) {
			if fa, ok := x.X.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "MaxLoopTime" {
				return vint(total), true
			}
			return Val{}, false
		}
		eng.Event = func(c *CallCtx) ([]Outcome, bool) {
			if !timed(c.Com) {
				return nil, false
			}
			left := int64(total)
			if s := kvGet(c.St.C, "left"); s != "" {
				left, _ = strconv.ParseInt(s, 10, 64)
			}
			a := c.Args[len(c.Args)-1]
			if left <= 0 {
				r.violate("no-deadline:"+name, p.pos(c.Instr.Pos()), "%s goes on waiting although the time of the dialogue is used up", name)
				return nil, true
			}
			if a.K != VInt || a.N != left {
				r.violate("deadline:"+name, p.pos(c.Instr.Pos()), "%s waits for a message for something else than what is left of the dialogue's time", name)
				return nil, true
			}
			r.ok("a message is awaited for what is left of the time")
			outs := []Outcome{{C: "left=failed", Res: []Val{{K: VNil}, vint(3), {K: VNonNil}}}}
			for _, d := range []int64{4, 6, 7, 30} {
				outs = append(outs, Outcome{C: "left=" + strconv.FormatInt(left-d, 10), Res: []Val{vtag("msg"), vint(d), {K: VNil}}})
			}
			return outs, true
		}
		for _, x := range eng.Run(f, "") {
			left := kvGet(x.C, "left")
			if left == "" || len(x.Res) == 0 {
				continue
			}
			v, err := strconv.ParseInt(left, 10, 64)
			isNil, known := x.Res[len(x.Res)-1].isNil()
			if (err != nil || v < 0) && (!known || isNil) {
				r.violate("late:"+name, p.pos(f.Pos()), "%s ends without an error although %s", name, map[bool]string{true: "no message could be received", false: "the time of the dialogue was used up"}[err != nil])
			} else {
				r.ok("a dialogue that fails or lasts too long ends with an error")
			}
		}
		eng.finish(r)
	}
	r.floor("loops with a deadline", n, 1)
	// the deadline reaches the pipe
	for _, f := range p.Funcs {
		if !timedBody(m, f) {
			continue
		}
		fl := newFlow(p)
		fl.Inline = func(g *ssa.Function) bool { return false }
		fl.Run(f, "self", "timeout")
		okT := false
		for _, c := range fl.Calls {
			com := c.Instr.(ssa.CallInstruction).Common()
			if g := com.StaticCallee(); g != nil && pkgRel(g) == ipcCommon && len(c.Args) > 1 && c.Args[1].labels["timeout"] {
				okT = true
			}
		}
		if !okT {
			r.violate("deadline:"+fname(f), p.pos(f.Pos()), "%s does not pass on the time it may wait", fname(f))
		} else {
			r.ok("the time to wait is passed on")
		}
	}
	for _, f := range p.Funcs {
		if pkgRel(f) != ipcCommon || f.Parent() != nil || f.Signature.Params().Len() != 1 {
			continue
		}
		rs := f.Signature.Results()
		if recvName(f) == "Messenger" && rs.Len() == 2 && m.isHandlerT(rs.At(0).Type()) || recvName(f) == "Receiver" && rs.Len() == 3 && m.isHandlerT(rs.At(0).Type()) {
			fl := newFlow(p)
			fl.Run(f, "self", "timeout")
			set := false
			for _, c := range fl.Calls {
				if strings.HasSuffix(c.Name, "os.File.SetDeadline") || strings.HasSuffix(c.Name, "os.File.SetReadDeadline") {
					for _, a := range c.Args {
						if fl.Labels(a)["timeout"] {
							set = true
						}
					}
				}
			}
			if !set {
				r.violate("deadline:"+fname(f), p.pos(f.Pos()), "%s does not limit the time it waits for a message", fname(f))
			} else {
				r.ok("the pipe is read with a deadline")
			}
		}
	}
}

func timedBody(m *ipcModel, f *ssa.Function) bool {
	if f.Parent() != nil || pkgRel(f) != ipcNode || recvName(f) != "NodeMessenger" {
		return false
	}
	rs := f.Signature.Results()
	return rs.Len() == 3 && m.isHandlerT(rs.At(0).Type()) && f.Signature.Params().Len() == 1
}

// restart: the process runs afterwards, or an error says that it does not.
func (m *ipcModel) restart(r *Result) {
	p := m.p
	n := 0
	for _, f := range p.Funcs {
		if pkgRel(f) != ipcNode || f.Parent() != nil || recvName(f) != "ArwenDriver" || f.Name() != "RestartArwenIfNecessary" {
			continue
		}
		n++
		eng := newEngine(p)
		isClosed := func(com *ssa.CallCommon) bool { return methodName(com) == "IsClosed" }
		starts := func(com *ssa.CallCommon) bool {
			g := com.StaticCallee()
			return g != nil && pkgRel(g) == ipcNode && recvName(g) == "ArwenDriver" && g.Signature.Results().Len() == 1 && isErrorType(g.Signature.Results().At(0).Type()) && g != f && startsProcess(p, g)
		}
		eng.IsEvent = func(com *ssa.CallCommon, _ string) bool { return isClosed(com) || starts(com) }
		eng.Event = func(c *CallCtx) ([]Outcome, bool) {
			if isClosed(c.Com) {
				return []Outcome{{C: kvSet(c.St.C, "closed", "yes"), Res: []Val{vbool(true)}}, {C: kvSet(c.St.C, "closed", "no"), Res: []Val{vbool(false)}}}, true
			}
			if starts(c.Com) {
				return []Outcome{{C: kvSet(c.St.C, "start", "ok"), Res: []Val{{K: VNil}}}, {C: kvSet(c.St.C, "start", "failed"), Res: []Val{{K: VNonNil}}}}, true
			}
			return nil, false
		}
		for _, x := range eng.Run(f, "") {
			isNil, known := x.Res[0].isNil()
			started := kvGet(x.C, "start") == "ok" || kvGet(x.C, "closed") == "no" && kvGet(x.C, "start") == ""
			if known && isNil && started {
				r.ok("the process runs, or an error says that it does not")
			} else if !started && (!known || isNil) {
				r.violate("not-started:"+fname(f), p.pos(f.Pos()), "%s reports success although the VM process does not run", fname(f))
			} else if known && !isNil && !started {
				r.ok("the process runs, or an error says that it does not")
			}
			if kvGet(x.C, "closed") == "no" && kvGet(x.C, "start") != "" {
				r.violate("started-twice:"+fname(f), p.pos(f.Pos()), "%s starts a second VM process while one is running", fname(f))
			}
		}
		eng.finish(r)
	}
	r.floor("functions that restart the process", n, 1)
	// every error on the way to a running process is reported
	for _, f := range p.Funcs {
		if pkgRel(f) != ipcNode || recvName(f) != "ArwenDriver" || f.Parent() != nil || !startsProcess(p, f) || f.Signature.Results().Len() != 1 || !isErrorType(f.Signature.Results().At(0).Type()) {
			continue
		}
		m.errorsReported(r, f)
	}
}

func startsProcess(p *Prog, f *ssa.Function) bool {
	return p.reaching(func(com *ssa.CallCommon, name string) bool {
		return name == "os/exec.Cmd.Start" || strings.HasSuffix(name, "exec.Cmd.Start")
	})[f]
}

// errorsReported: an error of anything a function calls is its result.
func (m *ipcModel) errorsReported(r *Result, f *ssa.Function) {
	p := m.p
	eng := newEngine(p)
	fails := func(com *ssa.CallCommon) bool {
		rs := com.Signature().Results()
		return rs.Len() > 0 && isErrorType(rs.At(rs.Len()-1).Type())
	}
	eng.IsEvent = func(com *ssa.CallCommon, _ string) bool { return fails(com) }
	eng.Skip = func(g *ssa.Function) bool { return g != f }
	eng.Event = func(c *CallCtx) ([]Outcome, bool) {
		if !fails(c.Com) {
			return nil, false
		}
		n := c.Com.Signature().Results().Len()
		good, bad := make([]Val, n), make([]Val, n)
		good[n-1], bad[n-1] = Val{K: VNil}, Val{K: VNonNil}
		return []Outcome{{C: c.St.C, Res: good}, {C: kvSet(c.St.C, "failed", p.pos(c.Instr.Pos())), Res: bad}}, true
	}
	for _, x := range eng.Run(f, "") {
		where := kvGet(x.C, "failed")
		if where == "" {
			continue
		}
		isNil, known := x.Res[len(x.Res)-1].isNil()
		if !known || isNil {
			r.violate("error-lost:"+fname(f), where, "%s reports success although a step of starting the VM process failed", fname(f))
		} else {
			r.ok("a failed step of starting the process is reported")
		}
	}
	eng.finish(r)
}

// newDialogue: after an answer was sent or received the numbers start again.
func (m *ipcModel) newDialogue(r *Result) {
	p := m.p
	isReset := func(com *ssa.CallCommon) bool {
		f := com.StaticCallee()
		return f != nil && pkgRel(f) == ipcCommon && recvName(f) == "Messenger" && resetsNumber(f)
	}
	// the VM process: between two requests
	n := 0
	for _, side := range []string{ipcArwen, ipcNode} {
		for _, f := range p.Funcs {
			if pkgRel(f) != side || f.Parent() != nil {
				continue
			}
			recv := func(com *ssa.CallCommon) bool {
				g := com.StaticCallee()
				if g == nil || !strings.Contains(recvName(g), "Messenger") || m.isTransport(g) {
					return false
				}
				rs := g.Signature.Results()
				return rs.Len() == 2 && m.isHandlerT(rs.At(0).Type())
			}
			handles := func(com *ssa.CallCommon) bool {
				return !com.IsInvoke() && com.StaticCallee() == nil && com.Value != nil && m.isReplier(com.Value.Type())
			}
			if side == ipcArwen {
				direct := false
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if ci, ok := in.(ssa.CallInstruction); ok && recv(ci.Common()) {
							direct = true
						}
					}
				}
				if !direct || strings.Contains(recvName(f), "Messenger") {
					continue
				}
			} else if !m.isTransport(f) {
				continue
			}
			n++
			eng := newEngine(p)
			talk := func(com *ssa.CallCommon) bool {
				if side == ipcArwen {
					return recv(com)
				}
				g := com.StaticCallee()
				if g == nil || pkgRel(g) != ipcNode || recvName(g) != "NodePart" {
					return false
				}
				rs := g.Signature.Results()
				return rs.Len() == 2 && m.isHandlerT(rs.At(0).Type()) && g != f
			}
			eng.IsEvent = func(com *ssa.CallCommon, _ string) bool { return isReset(com) || talk(com) || handles(com) }
			eng.Event = func(c *CallCtx) ([]Outcome, bool) {
				switch {
				case isReset(c.Com):
					return []Outcome{{C: "fresh"}}, true
				case talk(c.Com):
					if c.St.C == "used" {
						r.violate("old-dialogue:"+fname(f), p.pos(c.Instr.Pos()), "%s waits for the next request without having started a new dialogue: it would be refused", fname(f))
					} else {
						r.ok("the next request begins a new dialogue")
					}
					return []Outcome{{C: "used", Res: []Val{vtag("msg"), {K: VNil}}}, {C: "used", Res: []Val{{K: VNil}, {K: VNonNil}}}}, true
				}
				return nil, false
			}
			for _, x := range eng.Run(f, "fresh") {
				if side == ipcNode && x.C == "used" {
					r.violate("old-dialogue:"+fname(f), p.pos(f.Pos()), "%s ends without having ended the dialogue: the next one would be refused", fname(f))
				} else {
					r.ok("a dialogue that ended leaves nothing behind")
				}
			}
			eng.finish(r)
		}
	}
	r.floor("dialogues", n, 2)
}

// resetsNumber: the function sets the number of the dialogue to zero.
func resetsNumber(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "Nonce" {
					if n, ok := intConst(x.Val); ok && n == 0 {
						return true
					}
				}
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != nil && g != f && recvName(g) == "Messenger" && pkgRel(g) == ipcCommon && resetsNumber(g) {
					return true
				}
			}
		}
	}
	return false
}
