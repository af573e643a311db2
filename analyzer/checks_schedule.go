package main

// The gas schedule: loaded whole, validated, used (C18).

import (
	_ "embed"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C18", checkC18) }

//go:embed data/opcodes.txt
var opcodeNumbers string

const (
	cfgPkg = "config"
	gsPkg  = "arwenmandos/gasSchedules"
)

// sectionsOf: the sections of the gas schedule (fields of GasCost) and the struct type of each.
func sectionsOf(p *Prog) (map[string]*types.Struct, []string) {
	out := map[string]*types.Struct{}
	var order []string
	pk := p.Pkgs[cfgPkg]
	if pk == nil {
		return out, nil
	}
	o := pk.Types.Scope().Lookup("GasCost")
	if o == nil {
		return out, nil
	}
	st, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		return out, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if s, ok := deref(st.Field(i).Type()).Underlying().(*types.Struct); ok {
			out[st.Field(i).Name()] = s
			order = append(order, st.Field(i).Name())
		}
	}
	return out, order
}

func checkC18(p *Prog, r *Result) {
	r.Rule = "path-sensitive typestate of CreateGasConfig (each section decoded under its own name, zero-checked, stored), of the zero check over symbolic fields, and of every place a schedule is put into use; enumeration of the names in each default schedule and of the cost of every instruction"
	r.Assumptions = []string{
		"mapstructure.Decode copies every entry of the map into the field of the same name",
		"data/opcodes.txt is the order in which the WebAssembly engine numbers the instructions (the engine is a binary library)",
	}
	secs, order := sectionsOf(p)
	r.floor("sections of the gas schedule", len(secs), 5)
	if len(secs) == 0 {
		return
	}
	names := 0
	for _, s := range secs {
		names += s.NumFields()
	}
	r.floor("costs of the gas schedule", names, 500)
	c18Fields(p, r, secs)
	c18Create(p, r, secs, order)
	c18Defaults(p, r, secs, order)
	c18Files(p, r, secs, order)
	c18Opcodes(p, r, secs)
	c18Numbers(p, r)
	c18Uses(p, r)
}

// c18Fields: the costs are unsigned numbers, so that the zero check sees them; a narrower type than the schedule's
// loses the upper half of a large cost, silently, unless large values are refused.
func c18Fields(p *Prog, r *Result, secs map[string]*types.Struct) {
	const rule = "a cost has a type the zero check looks at and the schedule's value fits in"
	for name, s := range secs {
		narrow := 0
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			b, ok := f.Type().Underlying().(*types.Basic)
			switch {
			case !ok || b.Kind() != types.Uint64 && b.Kind() != types.Uint32:
				r.violate("type:"+name+"."+f.Name(), p.pos(f.Pos()), "the cost %s.%s has type %s, which the check for missing costs skips", name, f.Name(), f.Type())
			case !f.Exported():
				r.violate("type:"+name+"."+f.Name(), p.pos(f.Pos()), "the cost %s.%s cannot be loaded from the schedule", name, f.Name())
			case s.Tag(i) != "":
				if t := tagName(s.Tag(i)); t != "" && !strings.EqualFold(t, f.Name()) {
					r.violate("tag:"+name+"."+f.Name(), p.pos(f.Pos()), "the cost %s.%s is loaded from the entry named %s", name, f.Name(), t)
				}
			default:
				if b.Kind() == types.Uint32 {
					narrow++
				}
				r.ok(rule)
			}
		}
		if narrow > 0 && !refusesLarge(p, name) {
			r.violate("truncated:"+name, "config/gasSchedule.go", "%d costs of the section %s are decoded from 64 into 32 bits, and a cost of 2^32 or more silently becomes another one", narrow, name)
		}
	}
}

func tagName(tag string) string {
	i := strings.Index(tag, "mapstructure:\"")
	if i < 0 {
		return ""
	}
	t := tag[i+len("mapstructure:\""):]
	if j := strings.IndexAny(t, "\","); j >= 0 {
		t = t[:j]
	}
	return t
}

// refusesLarge: CreateGasConfig refuses, whatever else it does, a section with a cost that does not fit in 32 bits.
func refusesLarge(p *Prog, sec string) bool {
	f := p.fn(cfgPkg + ".CreateGasConfig")
	if f == nil {
		return false
	}
	secOf := func(v ssa.Value, sc *scope) bool {
		lk, ok := sc.root(v).(*ssa.Lookup)
		if !ok {
			return false
		}
		c, ok := sc.root(lk.Index).(*ssa.Const)
		return ok && c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) == sec
	}
	refuses := func(g *ssa.Function, sc *scope) *ssa.BasicBlock {
		for _, l := range mapLoops(g) {
			l := l
			if l.val == nil || !secOf(l.over, sc) {
				continue
			}
			// no iteration goes on with a large value
			small := func(cond ssa.Value, truth bool) bool {
				op, ok := cond.(*ssa.BinOp)
				if !ok || op.X != l.val {
					return false
				}
				c, ok := op.Y.(*ssa.Const)
				if !ok || c.Value == nil {
					return false
				}
				switch n := c.Value.ExactString(); {
				case op.Op == token.GTR && n == "4294967295", op.Op == token.GEQ && n == "4294967296":
					return !truth
				case op.Op == token.LEQ && n == "4294967295", op.Op == token.LSS && n == "4294967296":
					return truth
				}
				return false
			}
			tested := false
			if l.everyIteration(func(in ssa.Instruction) bool {
				iff, ok := in.(*ssa.If)
				if !ok || !(small(iff.Cond, true) || small(iff.Cond, false)) {
					return false
				}
				bad := in.Block().Succs[0]
				if small(iff.Cond, true) {
					bad = in.Block().Succs[1]
				}
				ret, ok := bad.Instrs[len(bad.Instrs)-1].(*ssa.Return)
				tested = ok && returnsError(ret)
				return tested
			}, nil) && tested {
				return l.head
			}
		}
		return nil
	}
	if h := refuses(f, nil); h != nil {
		return guardsSuccess(f, h)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil || pkgRel(c.Call.StaticCallee()) != cfgPkg || !lastError(&c.Call) {
				continue
			}
			g := c.Call.StaticCallee()
			var sc *scope
			if h := refuses(g, sc.enter(c, g)); h != nil && guardsSuccess(g, h) && guardsSuccess(f, b) && errorStops(c) {
				return true
			}
		}
	}
	return false
}

// guardsSuccess: every return without an error comes after the block.
func guardsSuccess(f *ssa.Function, b *ssa.BasicBlock) bool {
	for _, x := range f.Blocks {
		if len(x.Instrs) == 0 {
			continue
		}
		if ret, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok && !b.Dominates(x) && !returnsError(ret) {
			return false
		}
	}
	return true
}

// errorStops: the error answered is compared with nil, and returned if it is one.
func errorStops(c *ssa.Call) bool {
	var v ssa.Value = c
	for _, ref := range *c.Referrers() {
		if ex, ok := ref.(*ssa.Extract); ok && isErrorType(ex.Type()) {
			v = ex
		}
	}
	for _, ref := range *v.Referrers() {
		if op, ok := ref.(*ssa.BinOp); ok && (op.Op == token.NEQ || op.Op == token.EQL) {
			for _, r2 := range *op.Referrers() {
				if iff, ok := r2.(*ssa.If); ok {
					s := iff.Block().Succs[0]
					if op.Op == token.EQL {
						s = iff.Block().Succs[1]
					}
					if ret, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return); ok && returnsError(ret) {
						return true
					}
				}
			}
		}
	}
	return false
}

// reachIn: the functions of a package called from f, with f.
func reachIn(f *ssa.Function, rel string) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 || pkgRel(f) != rel {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			walk(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					walk(c.Common().StaticCallee())
				}
			}
		}
	}
	walk(f)
	return out
}

func calls(f *ssa.Function, name string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && strings.HasSuffix(calleeName(c.Common()), name) {
				return true
			}
		}
	}
	return false
}

func c18Create(p *Prog, r *Result, secs map[string]*types.Struct, order []string) {
	root := p.fn(cfgPkg + ".CreateGasConfig")
	if root == nil {
		r.violate("undecided:CreateGasConfig", "-", "CreateGasConfig was not found")
		return
	}
	zero := map[*ssa.Function]bool{}
	for _, g := range reachIn(root, cfgPkg) {
		if calls(g, "reflect.ValueOf") && !calls(g, "mapstructure.Decode") && g != root {
			zero[g] = true
		}
	}
	if len(zero) == 0 {
		r.violate("unvalidated", p.pos(root.Pos()), "CreateGasConfig never looks at the costs it has loaded, so that missing ones are accepted")
		return
	}
	eng := newEngine(p)
	eng.KeepPtr = true
	eng.Args = []Val{vtag("schedule")}
	eng.IsEvent = func(com *ssa.CallCommon, name string) bool { return false }
	eng.Force = func(fn *ssa.Function) bool { return pkgRel(fn) == cfgPkg }
	eng.Lookup = func(st *State, x *ssa.Lookup) (Val, bool) {
		m, k := eng.Eval(st, x.X), eng.Eval(st, x.Index)
		if m.T == "schedule" && strings.HasPrefix(k.T, "s:") {
			return vtag("sec:" + k.T[2:]), true
		}
		return Val{}, false
	}
	// what object a value is or points to
	obj := func(v Val) string {
		switch {
		case v.K == VPtr:
			if al, ok := v.S.(*ssa.Alloc); ok {
				return "v" + strconv.Itoa(eng.id(al))
			}
		case v.K == VTag && strings.HasPrefix(v.T, "gcf:"):
			return v.T
		case v.K == VTag && strings.HasPrefix(v.T, "val:"):
			return v.T[4:]
		}
		return ""
	}
	isSection := map[string]bool{}
	for _, n := range order {
		isSection[n] = true
	}
	eng.Addr = func(st *State, x *ssa.FieldAddr) (Val, bool) {
		if typeName(deref(x.X.Type())) == "GasCost" {
			return vtag("gcf:" + fieldAddrName(x)), true
		}
		return Val{}, false
	}
	eng.Load = func(st *State, x *ssa.UnOp) (Val, bool) {
		if _, ok := x.Type().Underlying().(*types.Struct); !ok {
			return Val{}, false
		}
		if o := obj(eng.Eval(st, x.X)); o != "" {
			return vtag("val:" + o), true
		}
		return Val{}, false
	}
	decodes := map[ssa.Instruction]bool{}
	eng.Instr = func(e *Engine, fn *ssa.Function, in ssa.Instruction, st *State) {
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		a := e.Eval(st, s.Addr)
		v := obj(e.Eval(st, s.Val))
		switch {
		case strings.HasPrefix(a.T, "gcf:"):
			if v == "" {
				v = "?"
			}
			st.C = kvSet(kvSet(st.C, "s:"+a.T[4:], v), "d:"+a.T, "")
		case a.K == VPtr && v != "" && strings.HasPrefix(e.Eval(st, s.Val).T, "val:"):
			// a copy of a section
			o := obj(a)
			st.C = kvSet(kvSet(st.C, "d:"+o, kvGet(st.C, "d:"+v)), "c:"+o, kvGet(st.C, "c:"+v))
		}
	}
	eng.Event = func(c *CallCtx) ([]Outcome, bool) {
		st := c.St.C
		if strings.HasSuffix(c.Name, "mapstructure.Decode") {
			decodes[c.Instr] = true
			o := obj(c.Args[1])
			sec := c.E.Eval(c.St, c.Com.Args[0]).T
			ok := st
			if o != "" {
				ok = kvSet(kvSet(st, "d:"+o, strings.TrimPrefix(sec, "sec:")), "c:"+o, "")
			}
			return []Outcome{{C: ok, Res: []Val{{K: VNil}}}, {C: kvSet(st, "bad", "1"), Res: []Val{vtag("err:decode")}}}, true
		}
		switch c.Name {
		case "reflect.ValueOf", "reflect.Value.Elem", "reflect.Indirect", "reflect.Value.Interface":
			return []Outcome{{C: st, Res: []Val{c.Args[0]}}}, true
		}
		for _, t := range c.Impl {
			if zero[t] {
				o := ""
				for _, a := range c.Args {
					if x := obj(a); x != "" {
						o = x
					}
				}
				ok := st
				if o != "" && kvGet(st, "d:"+o) != "" {
					ok = kvSet(st, "c:"+o, "1")
				}
				return []Outcome{{C: ok, Res: []Val{{K: VNil}}}, {C: kvSet(st, "bad", "1"), Res: []Val{vtag("err:zero")}}}, true
			}
		}
		return nil, false
	}
	exits := eng.Run(root, "")
	eng.finish(r)
	r.saw(fname(root))
	good := 0
	for _, x := range exits {
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Println(x.C, x.Res)
		}
		if len(x.Res) != 2 {
			continue
		}
		n, known := x.Res[1].isNil()
		if known && !n {
			continue // an error is reported
		}
		if kvGet(x.C, "bad") != "" {
			r.violate("ignored", p.pos(root.Pos()), "CreateGasConfig accepts a schedule although a section could not be decoded or lacks a cost")
			continue
		}
		good++
		for _, f := range order {
			o := kvGet(x.C, "s:"+f)
			if o == "" {
				o = "gcf:" + f // decoded in place
			}
			d := kvGet(x.C, "d:"+o)
			switch {
			case o == "?" || d == "":
				r.violate("section:"+f, p.pos(root.Pos()), "the section %s is not loaded from the gas schedule", f)
			case d != f:
				r.violate("section:"+f, p.pos(root.Pos()), "the costs of %s are loaded from the section %q of the gas schedule", f, d)
			case kvGet(x.C, "c:"+o) == "":
				r.violate("unchecked:"+f, p.pos(root.Pos()), "CreateGasConfig accepts a schedule in which costs of the section %s are missing or zero", f)
			default:
				r.ok("a section is decoded under its own name, checked for missing costs, and stored")
			}
		}
	}
	if good == 0 {
		r.violate("undecided:CreateGasConfig", p.pos(root.Pos()), "no path of CreateGasConfig accepts a gas schedule")
	}
	for g := range zero {
		c18Zero(p, r, g)
	}
}

// c18Zero: over a struct of three fields, of either type and zero or not, the check fails iff one of them is zero.
func c18Zero(p *Prog, r *Result, g *ssa.Function) {
	const fields = 3
	eng := newEngine(p)
	eng.Force = func(fn *ssa.Function) bool { return pkgRel(fn) == cfgPkg }
	field := func(v Val) string {
		if strings.HasPrefix(v.T, "field:") {
			return v.T[6:]
		}
		return ""
	}
	eng.Event = func(c *CallCtx) ([]Outcome, bool) {
		st := c.St.C
		if !strings.HasPrefix(c.Name, "reflect.") {
			return nil, false
		}
		arg := func(i int) Val {
			if i < len(c.Com.Args) {
				return c.E.Eval(c.St, c.Com.Args[i])
			}
			return Val{}
		}
		fork := func(key string, vals map[string]Val) []Outcome {
			if old := kvGet(st, key); old != "" {
				return []Outcome{{C: st, Res: []Val{vals[old]}}}
			}
			var out []Outcome
			for _, n := range sortedKeys(vals) {
				out = append(out, Outcome{C: kvSet(st, key, n), Res: []Val{vals[n]}})
			}
			return out
		}
		switch methodName(c.Com) {
		case "NumField":
			return []Outcome{{C: st, Res: []Val{vint(fields)}}}, true
		case "Field":
			if strings.Contains(c.Name, "Value") {
				if i := arg(1); i.K == VInt && i.N >= 0 && i.N < fields {
					return []Outcome{{C: st, Res: []Val{vtag(fmt.Sprint("field:", i.N))}}}, true
				}
			}
		case "Kind":
			if f := field(arg(0)); f != "" {
				return fork("k"+f, map[string]Val{"64": vint(11), "32": vint(10)}), true
			}
		case "Uint":
			if f := field(arg(0)); f != "" {
				return fork("u"+f, map[string]Val{"zero": vint(0), "more": vint(7)}), true
			}
		case "IsZero":
			if f := field(arg(0)); f != "" {
				return fork("u"+f, map[string]Val{"zero": vbool(true), "more": vbool(false)}), true
			}
		case "CanUint":
			return []Outcome{{C: st, Res: []Val{vbool(true)}}}, true
		}
		return nil, false
	}
	eng.MaxState = 20000
	eng.BinOp = func(op token.Token, a, b Val) (Val, bool) {
		if a.K == VInt && b.K == VInt && a.N < 100 && a.N > -100 {
			switch op {
			case token.ADD:
				return vint(a.N + b.N), true
			case token.SUB:
				return vint(a.N - b.N), true
			}
		}
		return Val{}, false
	}
	for _, x := range eng.Run(g, "") {
		if len(x.Res) == 0 {
			continue
		}
		n, known := x.Res[len(x.Res)-1].isNil()
		zeros, unread := 0, 0
		for i := 0; i < fields; i++ {
			switch kvGet(x.C, fmt.Sprint("u", i)) {
			case "zero":
				zeros++
			case "":
				unread++
			}
		}
		switch {
		case !known || n:
			if zeros+unread > 0 {
				r.violate("zero:"+fname(g), p.pos(g.Pos()), "%s accepts costs of which one is zero (fields: %s)", fname(g), x.C)
			} else {
				r.ok("the zero check accepts only when every cost was read and is not zero")
			}
		case zeros == 0:
			r.violate("zero-refused:"+fname(g), p.pos(g.Pos()), "%s refuses costs none of which is zero (fields: %s)", fname(g), x.C)
		default:
			r.ok("the zero check refuses only when a cost is zero")
		}
	}
	eng.finish(r)
	r.saw(fname(g))
}

// stringsIn: the string constants used in functions.
func stringsIn(fns []*ssa.Function) map[string]bool {
	out := map[string]bool{}
	for _, g := range fns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if c, ok := (*op).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
						out[constant.StringVal(c.Value)] = true
					}
				}
			}
		}
	}
	return out
}

// c18Defaults: the schedule with one value for all costs has them all.
func c18Defaults(p *Prog, r *Result, secs map[string]*types.Struct, order []string) {
	const rule = "the uniform schedule has the cost"
	root := p.fn(cfgPkg + ".FillGasMap")
	if root == nil {
		r.violate("undecided:FillGasMap", "-", "FillGasMap was not found")
		return
	}
	r.saw(fname(root))
	filled := map[string]*ssa.Function{}
	indirect := false
	for _, g := range reachIn(root, cfgPkg) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				k, isConst := mu.Key.(*ssa.Const)
				if _, inner := mu.Value.Type().Underlying().(*types.Map); !inner {
					continue
				}
				if !isConst {
					indirect = true
					continue
				}
				if c, ok := mu.Value.(*ssa.Call); ok && c.Call.StaticCallee() != nil {
					filled[constant.StringVal(k.Value)] = c.Call.StaticCallee()
				} else {
					filled[constant.StringVal(k.Value)] = g
				}
			}
		}
	}
	_ = indirect
	for _, sec := range order {
		g := filled[sec]
		if g == nil {
			if indirect {
				g = root
			} else {
				r.violate("default:"+sec, p.pos(root.Pos()), "FillGasMap leaves out the section %s", sec)
				continue
			}
		}
		names := map[string]bool{}
		direct := true
		for _, h := range reachIn(g, cfgPkg) {
			for _, b := range h.Blocks {
				for _, in := range b.Instrs {
					if mu, ok := in.(*ssa.MapUpdate); ok {
						c, isConst := mu.Key.(*ssa.Const)
						if !isConst {
							direct = false
							continue
						}
						if v, ok := mu.Value.(*ssa.Const); ok && (v.Value == nil || v.Value.ExactString() == "0") {
							continue
						}
						names[constant.StringVal(c.Value)] = true
					}
				}
			}
		}
		if !direct {
			names = stringsIn(reachIn(g, cfgPkg))
		}
		for i := 0; i < secs[sec].NumFields(); i++ {
			n := secs[sec].Field(i).Name()
			if !names[n] {
				r.violate("default:"+sec+"."+n, p.pos(g.Pos()), "%s leaves out %s.%s, so that the schedule it belongs to is rejected", fname(g), sec, n)
			} else {
				r.ok(rule)
			}
		}
		r.saw(fname(g))
	}
}

type schedule map[string]map[string]string

func parseTOML(text string) schedule {
	out := schedule{}
	sec := ""
	for _, l := range strings.Split(text, "\n") {
		if i := strings.Index(l, "#"); i >= 0 {
			l = l[:i]
		}
		l = strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(l, "[") && strings.HasSuffix(l, "]"):
			sec = strings.TrimSpace(l[1 : len(l)-1])
			out[sec] = map[string]string{}
		case strings.Contains(l, "="):
			i := strings.Index(l, "=")
			if out[sec] == nil {
				out[sec] = map[string]string{}
			}
			out[sec][strings.TrimSpace(l[:i])] = strings.ReplaceAll(strings.TrimSpace(l[i+1:]), "_", "")
		}
	}
	return out
}

// c18Files: the published schedules have every cost; the copies in the program are the published ones; each is
// loaded under its own version.
func c18Files(p *Prog, r *Result, secs map[string]*types.Struct, order []string) {
	pk := p.Pkgs[gsPkg]
	if pk == nil {
		r.violate("undecided:gasSchedules", "-", "the default gas schedules were not found")
		return
	}
	texts := map[string]string{}
	for _, n := range pk.Types.Scope().Names() {
		if c, ok := pk.Types.Scope().Lookup(n).(*types.Const); ok && c.Val().Kind() == constant.String {
			if t := constant.StringVal(c.Val()); strings.Contains(t, "[WASMOpcodeCost]") {
				texts[n] = t
			}
		}
	}
	r.floor("gas schedules in the program", len(texts), 1)
	check := func(where string, s schedule) {
		for _, sec := range order {
			for i := 0; i < secs[sec].NumFields(); i++ {
				f := secs[sec].Field(i)
				v, ok := s[sec][f.Name()]
				if !ok {
					r.violate("file:"+where+":"+sec+"."+f.Name(), where, "the gas schedule %s lacks %s.%s", where, sec, f.Name())
					continue
				}
				n, err := strconv.ParseInt(v, 0, 64)
				b, _ := f.Type().Underlying().(*types.Basic)
				switch {
				case err != nil || n <= 0:
					r.violate("file:"+where+":"+sec+"."+f.Name(), where, "the gas schedule %s gives %s.%s the cost %s", where, sec, f.Name(), v)
				case b != nil && b.Kind() == types.Uint32 && n > 1<<32-1:
					r.violate("file:"+where+":"+sec+"."+f.Name(), where, "the gas schedule %s gives %s.%s a cost that does not fit", where, sec, f.Name())
				default:
					r.ok("a published schedule has the cost, and it is not zero")
				}
			}
		}
	}
	for _, n := range sortedKeys(texts) {
		s := parseTOML(texts[n])
		check(n, s)
		b, err := os.ReadFile(filepath.Join(p.Root, gsPkg, n+".toml"))
		if err != nil {
			continue
		}
		t := parseTOML(string(b))
		check(n+".toml", t)
		for _, sec := range sortedKeys(t) {
			for _, name := range sortedKeys(t[sec]) {
				if s[sec][name] != t[sec][name] {
					r.violate("copy:"+n+":"+sec+"."+name, gsPkg+"/tomlfiles.go", "%s has the cost %s for %s.%s, the published schedule %s", n, s[sec][name], sec, name, t[sec][name])
				} else {
					r.ok("the program's copy of a schedule is the published one")
				}
			}
		}
	}
	// GetVn answers gasScheduleVn
	for _, m := range pkgFuncs(p, gsPkg) {
		v := strings.TrimPrefix(m.Name(), "GetV")
		if v == m.Name() || texts["gasScheduleV"+v] == "" {
			continue
		}
		r.saw(fname(m))
		eng := newEngine(p)
		for _, x := range eng.Run(m, "") {
			if len(x.Res) == 1 && x.Res[0].T != "s:"+texts["gasScheduleV"+v] {
				r.violate("version:"+fname(m), p.pos(m.Pos()), "%s does not answer the gas schedule V%s", fname(m), v)
			} else {
				r.ok("a version of the schedule is answered by its name")
			}
		}
		eng.finish(r)
	}
	c18Select(p, r)
	c18Flatten(p, r)
}

func pkgFuncs(p *Prog, rel string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if pkgRel(f) == rel {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fname(out[i]) < fname(out[j]) })
	return out
}

// c18Select: a scenario runs with the schedule it names.
func c18Select(p *Prog, r *Result) {
	var root *ssa.Function
	pk := p.Pkgs[mjModel]
	for _, f := range pkgFuncs(p, "arwenmandos") {
		if f.Signature.Params().Len() == 1 && typeName(f.Signature.Params().At(0).Type()) == "GasSchedule" && f.Signature.Results().Len() == 2 {
			root = f
		}
	}
	if root == nil || pk == nil {
		r.violate("undecided:select", "-", "the place where a scenario's gas schedule is chosen was not found")
		return
	}
	r.saw(fname(root))
	want := map[string]string{"GasScheduleV1": "GetV1", "GasScheduleV2": "GetV2", "GasScheduleV3": "GetV3", "GasScheduleDummy": "dummy", "GasScheduleDefault": "GetV3"}
	for name, k := range p.constsOf(pk.Types, "GasSchedule") {
		if want[name] == "" {
			continue
		}
		eng := newEngine(p)
		eng.Args = []Val{{}, vint(k)}
		if root.Signature.Recv() == nil {
			eng.Args = []Val{vint(k)}
		}
		eng.Event = func(c *CallCtx) ([]Outcome, bool) {
			m := methodName(c.Com)
			switch {
			case strings.HasPrefix(m, "GetV") && strings.HasPrefix(c.Name, gsPkg+"."):
				return []Outcome{{C: c.St.C, Res: []Val{vtag("text:" + m)}}}, true
			case m == "LoadGasScheduleConfig":
				return []Outcome{{C: c.St.C, Res: []Val{vtag("map:" + strings.TrimPrefix(c.E.Eval(c.St, c.Com.Args[0]).T, "text:")), {K: VNil}}}}, true
			case m == "MakeGasMapForTests" || m == "MakeGasMap":
				return []Outcome{{C: c.St.C, Res: []Val{vtag("map:dummy")}}}, true
			}
			return nil, false
		}
		for _, x := range eng.Run(root, "") {
			if len(x.Res) != 2 {
				continue
			}
			if x.Res[0].T != "map:"+want[name] {
				r.violate("select:"+name, p.pos(root.Pos()), "a scenario with the gas schedule %s runs with %q", name, strings.TrimPrefix(x.Res[0].T, "map:"))
			} else {
				r.ok("a scenario runs with the schedule it names")
			}
		}
		eng.finish(r)
	}
}

// c18Flatten: every entry of every section is taken over, with its name and value.
func c18Flatten(p *Prog, r *Result) {
	root := p.fn(gsPkg + ".LoadGasScheduleConfig")
	if root == nil {
		r.violate("undecided:LoadGasScheduleConfig", "-", "LoadGasScheduleConfig was not found")
		return
	}
	r.saw(fname(root))
	inner, outer := 0, 0
	for _, f := range reachIn(root, gsPkg) {
		for _, l := range mapLoops(f) {
			var sc *scope
			does := func(in ssa.Instruction) bool {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || mu.Key != l.key {
					return false
				}
				if b, isNum := mu.Value.Type().Underlying().(*types.Basic); isNum {
					if sc.root(mu.Value) == l.val || extractOf(sc.root(mu.Value)) == l.val {
						inner++
						return true
					}
					_ = b
					return false
				}
				if _, isMap := mu.Value.Type().Underlying().(*types.Map); isMap {
					outer++
					return true
				}
				return false
			}
			if !l.everyIteration(does, nil) {
				r.violate("flatten:"+fname(f), p.pos(l.next.Pos()), "%s does not take over every entry of the gas schedule under its name", fname(f))
			} else {
				r.ok("loading a schedule takes over every entry")
			}
		}
	}
	if inner == 0 || outer == 0 {
		r.violate("undecided:flatten", p.pos(root.Pos()), "it is not seen how LoadGasScheduleConfig takes over the entries")
	}
}

// extractOf: what a value was asserted from (v, ok := x.(T)).
func extractOf(v ssa.Value) ssa.Value {
	if ex, ok := v.(*ssa.Extract); ok {
		if ta, ok := ex.Tuple.(*ssa.TypeAssert); ok {
			return ta.X
		}
	}
	return nil
}

// c18Opcodes: every instruction is given the cost of its own name.
func c18Opcodes(p *Prog, r *Result, secs map[string]*types.Struct) {
	const rule = "an instruction is given its own cost"
	root := p.fn(cfgPkg + ".WASMOpcodeCost.ToOpcodeCostsArray")
	pk := p.Pkgs["wasmer"]
	st := secs["WASMOpcodeCost"]
	if root == nil || pk == nil || st == nil {
		r.violate("undecided:opcodes", "-", "ToOpcodeCostsArray was not found")
		return
	}
	r.saw(fname(root))
	fields := map[string]bool{}
	for i := 0; i < st.NumFields(); i++ {
		fields[st.Field(i).Name()] = true
	}
	code := opcodes(pk.Types)
	nameOf := map[int64]string{}
	for n, v := range code {
		if o, dup := nameOf[v]; dup {
			r.violate("opcode:"+n, "wasmer/opcodes.go", "the instructions %s and %s have the same number", o, n)
		}
		nameOf[v] = n
	}
	r.floor("instructions", len(code), 400)
	set := map[string]bool{}
	for _, g := range reachIn(root, cfgPkg) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				ia, ok := s.Addr.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				k, ok := ia.Index.(*ssa.Const)
				if !ok {
					r.violate("undecided:opcodes", p.pos(s.Pos()), "the instruction whose cost is set here is not known")
					continue
				}
				i, _ := constant.Int64Val(constant.ToInt(k.Value))
				n := nameOf[i]
				var sc *scope
				f := sc.fieldOf(s.Val)
				switch {
				case n == "":
					r.violate("opcode:"+strconv.Itoa(int(i)), p.pos(s.Pos()), "the cost of the unknown instruction %d is set", i)
				case f != n:
					r.violate("opcode:"+n, p.pos(s.Pos()), "the instruction %s is given the cost %q", n, f)
				default:
					r.ok(rule)
				}
				if b.Dominates(b.Parent().Blocks[0]) || len(b.Parent().Blocks) == 1 || g != root || alwaysBlock(b) {
					set[n] = true
				}
			}
		}
	}
	for _, n := range sortedKeys(code) {
		if !set[n] {
			r.violate("opcode:"+n, p.pos(root.Pos()), "the instruction %s is given no cost: it is free", n)
		}
		if !fields[n] {
			r.violate("opcode:"+n, "config/gasCost.go", "there is no cost for the instruction %s", n)
		}
	}
	for n := range fields {
		if _, ok := code[n]; !ok && n != "LocalsUnmetered" {
			r.violate("opcode:"+n, "config/gasCost.go", "the cost %s belongs to no instruction", n)
		}
	}
}

// alwaysBlock: every return of the function is dominated by the block.
func alwaysBlock(b *ssa.BasicBlock) bool {
	for _, x := range b.Parent().Blocks {
		if len(x.Instrs) == 0 {
			continue
		}
		if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok && !b.Dominates(x) {
			return false
		}
	}
	return true
}

func opcodes(pk *types.Package) map[string]int64 {
	code := map[string]int64{}
	for _, n := range pk.Scope().Names() {
		c, ok := pk.Scope().Lookup(n).(*types.Const)
		if !ok || !strings.HasPrefix(n, "Opcode") {
			continue
		}
		if v, ok := constant.Int64Val(constant.ToInt(c.Val())); ok {
			code[strings.TrimPrefix(n, "Opcode")] = v
		}
	}
	return code
}

// c18Numbers: the numbers of the instructions are those of the engine.
func c18Numbers(p *Prog, r *Result) {
	pk := p.Pkgs["wasmer"]
	if pk == nil {
		r.violate("undecided:numbers", "-", "the numbering of the instructions was not found")
		return
	}
	code := opcodes(pk.Types)
	max := int64(0)
	for i, n := range strings.Fields(opcodeNumbers) {
		v, ok := code[n]
		switch {
		case !ok:
			r.violate("number:"+n, "wasmer/opcodes.go", "the instruction %s is missing", n)
		case v != int64(i):
			r.violate("number:"+n, "wasmer/opcodes.go", "the instruction %s has the number %d, and %d in the engine: it is charged as another one", n, v, i)
		default:
			r.ok("an instruction has the engine's number")
		}
		if v > max {
			max = v
		}
	}
	if c, ok := pk.Types.Scope().Lookup("OPCODE_COUNT").(*types.Const); ok {
		if v, _ := constant.Int64Val(constant.ToInt(c.Val())); v < max+1 {
			r.violate("number:count", "wasmer/opcodes.go", "the engine is given %d costs for %d instructions", v, max+1)
		}
	}
}

// c18Uses: wherever a schedule is put into use, all its users get it, or nobody.
func c18Uses(p *Prog, r *Result) {
	type use struct {
		fn    string
		param int // index in eng.Args of the schedule, -1: a field of the host parameters
		all   bool
	}
	for _, u := range []use{
		{"arwen/contexts.NewMeteringContext", 1, false},
		{"arwen/contexts.meteringContext.SetGasSchedule", 1, false},
		{"arwen/host.vmHost.GasScheduleChange", 1, true},
		{"arwen/host.NewArwenVM", -1, true},
	} {
		root := p.fn(u.fn)
		if root == nil {
			r.violate("undecided:"+u.fn, "-", "%s was not found", u.fn)
			continue
		}
		r.saw(fname(root))
		eng := newEngine(p)
		eng.KeepPtr = true
		eng.Args = make([]Val, len(root.Params))
		if u.param >= 0 {
			eng.Args[u.param] = vtag("new")
		}
		eng.Force = func(fn *ssa.Function) bool {
			return pkgRel(fn) == pkgRel(root) && touchesSchedule(fn)
		}
		eng.Skip = func(fn *ssa.Function) bool { return pkgRel(fn) != pkgRel(root) }
		isField := func(v ssa.Value) string {
			fa, ok := v.(*ssa.FieldAddr)
			if !ok {
				return ""
			}
			t, n := typeName(deref(fa.X.Type())), fieldAddrName(fa)
			switch {
			case t == "VMHostParameters" && n == "GasSchedule":
				return "param"
			case t == "vmHost" && n == "gasSchedule":
				return "host"
			case t == "meteringContext" && n == "gasSchedule":
				return "metering"
			}
			return ""
		}
		eng.Load = func(st *State, x *ssa.UnOp) (Val, bool) {
			switch isField(x.X) {
			case "param":
				return vtag("new"), true
			case "host":
				if v := kvGet(st.C, "host"); v != "" {
					return vtag(v), true
				}
				return vtag("old"), true
			case "metering":
				return vtag("cfg:old"), true
			}
			if a := eng.Eval(st, x.X); strings.HasPrefix(a.T, "ops:") {
				return a, true
			}
			return Val{}, false
		}
		eng.Addr = func(st *State, x *ssa.FieldAddr) (Val, bool) {
			b := eng.Eval(st, x.X)
			if strings.HasPrefix(b.T, "cfg:") {
				return vtag("ops:" + b.T[4:] + ":" + fieldAddrName(x)), true
			}
			return Val{}, false
		}
		eng.Instr = func(e *Engine, fn *ssa.Function, in ssa.Instruction, st *State) {
			if s, ok := in.(*ssa.Store); ok {
				if f := isField(s.Addr); f == "host" || f == "metering" {
					v := e.Eval(st, s.Val)
					switch {
					case v.K == VTag:
						st.C = kvSet(st.C, f, v.T)
					default:
						st.C = kvSet(st.C, f, "?")
					}
				}
			}
		}
		eng.Event = func(c *CallCtx) ([]Outcome, bool) {
			st := c.St.C
			arg := func(i int) Val {
				if i < len(c.Com.Args) {
					return c.E.Eval(c.St, c.Com.Args[i])
				}
				return Val{}
			}
			m := methodName(c.Com)
			switch {
			case m == "CreateGasConfig":
				s := arg(0).T
				return []Outcome{
					{C: kvSet(st, "valid", s), Res: []Val{vtag("cfg:" + s), {K: VNil}}},
					{C: kvSet(st, "refused", "1"), Res: []Val{{K: VNil}, vtag("err:config")}}}, true
			case m == "ToOpcodeCostsArray":
				return []Outcome{{C: st, Res: []Val{vtag("array:" + strings.TrimPrefix(arg(0).T, "ops:"))}}}, true
			case m == "SetOpcodeCosts":
				v := arg(0)
				t := v.T
				if v.K == VPtr {
					t = c.St.cells[v.S].T
				}
				return []Outcome{{C: kvSet(st, "engine", "("+t+")"), Res: nil}}, true
			case m == "SetGasSchedule":
				return []Outcome{{C: kvSet(st, "metering", "cfg:"+c.E.Eval(c.St, lastArg(c.Com)).T), Res: nil}}, true
			case m == "NewMeteringContext" && c.Com.StaticCallee() != root:
				return []Outcome{
					{C: kvSet(st, "metering", "cfg:"+arg(1).T), Res: []Val{{K: VNonNil}, {K: VNil}}},
					{C: kvSet(st, "refused", "1"), Res: []Val{{K: VNil}, vtag("err:metering")}}}, true
			}
			return nil, false
		}
		exits := eng.Run(root, "")
		eng.finish(r)
		good := 0
		for _, x := range exits {
			pos := p.pos(root.Pos())
			failed := false
			if n := len(x.Res); n > 0 {
				nl, known := x.Res[n-1].isNil()
				failed = known && !nl
			}
			changed := kvGet(x.C, "host") + kvGet(x.C, "metering") + kvGet(x.C, "engine")
			if kvGet(x.C, "refused") != "" {
				if len(x.Res) > 0 && !failed {
					r.violate("refused:"+u.fn, pos, "%s goes on although the gas schedule was rejected", u.fn)
				} else if len(x.Res) == 0 && changed != "" {
					r.violate("refused:"+u.fn, pos, "%s puts parts of a rejected gas schedule into use (%s)", u.fn, x.C)
				} else {
					r.ok("a rejected schedule is not used")
				}
				continue
			}
			if failed {
				continue
			}
			good++
			if v := kvGet(x.C, "metering"); v != "cfg:new" {
				r.violate("metering:"+u.fn, pos, "after %s the gas of API calls is not charged by the new schedule (%s)", u.fn, v)
			} else {
				r.ok("API calls are charged by the schedule given")
			}
			if !u.all {
				continue
			}
			if v := kvGet(x.C, "engine"); v != "(array:new:WASMOpcodeCost)" {
				r.violate("engine:"+u.fn, pos, "after %s the instructions are not charged by the new schedule (%s)", u.fn, v)
			} else {
				r.ok("instructions are charged by the schedule given")
			}
			if v := kvGet(x.C, "host"); v != "new" {
				r.violate("host:"+u.fn, pos, "after %s the VM does not answer the schedule it uses (%s)", u.fn, v)
			} else {
				r.ok("the VM answers the schedule it uses")
			}
		}
		if good == 0 {
			r.violate("undecided:"+u.fn, p.pos(root.Pos()), "no path of %s accepts a gas schedule", u.fn)
		}
	}
	if f := p.fn("arwen/host.vmHost.GetGasScheduleMap"); f != nil {
		r.saw(fname(f))
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				var sc *scope
				if sc.fieldOf(ret.Results[0]) != "gasSchedule" {
					r.violate("answer:GetGasScheduleMap", p.pos(f.Pos()), "GetGasScheduleMap does not answer the schedule in use")
				} else {
					r.ok("the VM answers the schedule it uses")
				}
			}
		}
	}
}

// touchesSchedule: the function names one of the things that hold or load a gas schedule.
func touchesSchedule(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				if n := fieldAddrName(x); n == "gasSchedule" || n == "GasSchedule" || n == "WASMOpcodeCost" {
					return true
				}
			case ssa.CallInstruction:
				switch methodName(x.Common()) {
				case "CreateGasConfig", "SetOpcodeCosts", "ToOpcodeCostsArray", "SetGasSchedule":
					return true
				}
			}
		}
	}
	return false
}

