package main

// Reading scenarios (M04): what the reader does not know, it rejects.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("M04", checkM04)
}

const mjInterp = "mandos-go/expression/interpreter"

// isOJ: a value of the JSON tree, or one of its kinds.
func isOJ(t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), mjOJ) {
		return false
	}
	switch n.Obj().Name() {
	case "OJsonObject", "OJsonMap", "OJsonList", "OJsonString", "OJsonBool":
		return true
	}
	return false
}

// rawJSON: an undetermined piece of JSON (in the places where the readers take one).
func rawJSON(t types.Type) bool {
	if i, ok := t.Underlying().(*types.Interface); ok {
		return isOJ(t) || i.NumMethods() == 0
	}
	return false
}

func isKVP(t types.Type) bool { return typeName(t) == "OJsonKeyValuePair" }

// jsonRoot names the piece of JSON a value stands for.
func jsonRoot(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.ChangeInterface:
		return jsonRoot(x.X)
	case *ssa.MakeInterface:
		return jsonRoot(x.X)
	case *ssa.ChangeType:
		return jsonRoot(x.X)
	case *ssa.TypeAssert:
		return jsonRoot(x.X)
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return jsonRoot(ta.X)
		}
		if c, ok := x.Tuple.(*ssa.Call); ok && x.Index == 0 {
			// a helper that turns a piece of JSON into one of its kinds
			if isOJ(x.Type()) {
				for _, a := range c.Call.Args {
					if rawJSON(a.Type()) && isOJ(a.Type()) {
						return jsonRoot(a)
					}
				}
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return "." + fieldName(fa.X.Type(), fa.Field) + " of " + jsonRoot(fa.X)
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				// a spilled local that is stored once
				var val ssa.Value
				n := 0
				for _, ref := range *al.Referrers() {
					if s, ok := ref.(*ssa.Store); ok && s.Addr == al {
						val, n = s.Val, n+1
					}
				}
				if n == 1 {
					return jsonRoot(val)
				}
			}
		}
	}
	return v.Parent().String() + ":" + v.Name()
}

// boolParts gives the condition without negations.
func boolParts(cond ssa.Value, truth bool) (ssa.Value, bool) {
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			return cond, truth
		}
		cond, truth = u.X, !truth
	}
}

// tupleOf: the instruction a condition is the last result of.
func tupleOf(v ssa.Value) ssa.Value {
	if x, ok := v.(*ssa.Extract); ok {
		if tt, ok := x.Tuple.Type().(*types.Tuple); ok && x.Index == tt.Len()-1 {
			return x.Tuple
		}
		return nil
	}
	return v
}

func mandosReaders(p *Prog) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		switch pkgRel(f) {
		case mjParse, mjInterp, "mandos-go/fileresolver", "mandos-go/controller", mjOJ:
			if f.Blocks != nil && f.Synthetic == "" {
				out = append(out, f)
			}
		}
	}
	return out
}

// failsWith tells whether a return says that the function failed: 1 yes, 0 no, -1 it cannot say.
func failsWith(f *ssa.Function, res []Val) int {
	rs := f.Signature.Results()
	if rs.Len() == 0 || len(res) != rs.Len() {
		return -1
	}
	last := res[len(res)-1]
	if isErrorType(rs.At(rs.Len() - 1).Type()) {
		if n, known := last.isNil(); known && !n {
			return 1
		}
		return 0
	}
	if b, ok := rs.At(rs.Len() - 1).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
		if last.K == VFalse {
			return 1
		}
		return 0
	}
	return -1
}

func checkM04(p *Prog, r *Result) {
	r.Rule = "in every function that reads a part of a scenario, on every path: (names) an entry of a JSON object whose name was compared with the names of the format and matched none leads to an error, there or in another reading of the same object that always follows; (shapes) a piece of JSON is found to be of an expected kind, or handed to another reader, before it is accepted; (errors) when any step of reading fails, the function reports an error; (characters) the JSON reader drops no character other than white space and no second entry of the same name"
	r.Assumptions = []string{"a name that is used as data (an address, a key of storage) is a name the format allows"}
	m := &m04{p: p, r: r}
	m.names()
	m.errors()
	m.characters()
}

type m04 struct {
	p     *Prog
	r     *Result
	found []func()
	only  func(*ssa.Function) bool // calls whose failures matter, all if nil
}

// lenient reports an object some of whose entries are left unread.
func (m *m04) lenient(f *ssa.Function, root string) {
	m.found = append(m.found, func() {
		m.r.violate("ignored:"+fname(f), m.p.pos(f.Pos()), "there is a path on which %s accepts a JSON object although one of its names matched none of the format's, and nothing else rejects it", fname(f))
	})
}

// readAbove: one of these functions is a caller of f, or f itself.
func (m *m04) readAbove(f *ssa.Function, in map[*ssa.Function]bool, seen map[*ssa.Function]bool) bool {
	if in[f] {
		return true
	}
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, g := range mandosReaders(m.p) {
		for _, h := range callees(g) {
			if h == f && m.readAbove(g, in, seen) {
				return true
			}
		}
	}
	return false
}

// errors: (shapes) and (errors).
func (m *m04) errors() {
	nErr, nShape := m.errorsOf(mandosReaders(m.p))
	r := m.r
	r.okN("checks of the kind of a piece of JSON", nShape)
	r.floor("calls that can fail, explored failing", nErr, 20)
	r.floor("checks of the kind of a piece of JSON", nShape, 10)
}

func (m *m04) errorsOf(fns []*ssa.Function) (nErr, nShape int) {
	p, r := m.p, m.r
	for _, f := range fns {
		e := newEngine(p)
		e.Skip = func(g *ssa.Function) bool { return g != f }
		e.IsRelevantInstr = func(in ssa.Instruction) bool { return true }
		raws := map[string]bool{}
		for _, prm := range f.Params {
			if isOJ(prm.Type()) && rawJSON(prm.Type()) && lastErrorOf(f) {
				raws[jsonRoot(prm)] = true
			}
		}
		rid := map[string]string{}
		rk := func(v ssa.Value) string { return fmt.Sprint("r", e.rootID(jsonRoot(v), rid)) }
		// texts that are one of several the format defines
		choices := map[ssa.Value]int{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok || pkgRel(f) != mjParse {
					continue
				}
				if c, ok := bo.Y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
					if u, ok := bo.X.(*ssa.UnOp); ok {
						if fa, ok := u.X.(*ssa.FieldAddr); ok && isKVP(fa.X.Type()) {
							continue
						}
					}
					choices[bo.X]++
				}
			}
		}
		fails := map[string]ssa.Instruction{}
		pend := map[string]ssa.Instruction{}
		settle := func(c, k string) string { return kvSet(kvSet(c, "p"+k, ""), "ok"+k, "1") }
		rawArgs := func(com *ssa.CallCommon) []string {
			var out []string
			for _, a := range com.Args {
				if isOJ(a.Type()) {
					out = append(out, rk(a))
				} else if rawJSON(a.Type()) {
					switch x := a.(type) {
					case *ssa.MakeInterface:
						if isOJ(x.X.Type()) {
							out = append(out, rk(x.X))
						}
					case *ssa.ChangeInterface:
						if isOJ(x.X.Type()) {
							out = append(out, rk(x.X))
						}
					}
				}
			}
			return out
		}
		e.Event = func(c *CallCtx) ([]Outcome, bool) {
			st := c.St
			n := c.Com.Signature().Results().Len()
			if nonNilMakers[c.Name] {
				return []Outcome{{C: st.C, Res: []Val{{K: VNonNil}}}}, true
			}
			if strings.HasPrefix(c.Name, "fmt.") || strings.HasPrefix(c.Name, "strings.Builder") || strings.Contains(c.Name, "Buffer.") || strings.Contains(c.Name, "Builder.") {
				return nil, false // writing to memory or to the terminal
			}
			if !lastError(c.Com) {
				return nil, false
			}
			if _, isDefer := c.Instr.(*ssa.Defer); isDefer {
				return nil, false
			}
			if c.Com.IsInvoke() && strings.HasSuffix(c.Com.Value.Type().String(), "hash.Hash") {
				return nil, false // never fails
			}
			if m.only != nil && (c.Com.StaticCallee() == nil || !m.only(c.Com.StaticCallee())) {
				return nil, false
			}
			nErr++
			okC := st.C
			id := fmt.Sprint("f", e.id(c.Instr.(ssa.Value)))
			okC = kvSet(okC, id, "")
			badC := kvSet(st.C, id, "1")
			fails[id] = c.Instr
			for _, k := range rawArgs(c.Com) {
				okC = settle(okC, k)
				// another reading of the same piece made up for the one that failed
				for fid, in := range fails {
					if kvGet(okC, fid) != "" {
						for _, k2 := range rawArgs(in.(ssa.CallInstruction).Common()) {
							if k2 == k {
								okC = kvSet(okC, fid, "")
							}
						}
					}
				}
			}
			okRes, badRes := make([]Val, n), make([]Val, n)
			okRes[n-1], badRes[n-1] = Val{K: VNil}, Val{K: VNonNil}
			return []Outcome{{C: okC, Res: okRes}, {C: badC, Res: badRes}}, true
		}
		e.Branch = func(_ *Engine, fn *ssa.Function, cond ssa.Value, truth bool, st *State) bool {
			cond, truth = boolParts(cond, truth)
			if bo, ok := cond.(*ssa.BinOp); ok && choices[bo.X] >= 3 && (bo.Op == token.EQL || bo.Op == token.NEQ) {
				k := fmt.Sprint("e", e.id(bo.X))
				if (bo.Op == token.EQL) == truth {
					st.C = kvSet(st.C, k, "known")
				} else if kvGet(st.C, k) == "" {
					st.C = kvSet(st.C, k, "unknown")
				}
			}
			switch t := tupleOf(cond).(type) {
			case *ssa.TypeAssert:
				if t.CommaOk && isOJ(t.X.Type()) || t.CommaOk && rawJSON(t.X.Type()) && isOJ(t.AssertedType) {
					nShape++
					k := rk(t.X)
					if truth {
						st.C = settle(st.C, k)
					} else if kvGet(st.C, "ok"+k) == "" {
						st.C = kvSet(st.C, "p"+k, "1")
						pend[k] = t
					}
				}
			case *ssa.Call:
				if b, ok := cond.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool && truth && !lastError(&t.Call) {
					for _, k := range rawArgs(&t.Call) {
						st.C = settle(st.C, k)
					}
				}
			}
			return true
		}
		unset := func(v ssa.Value) string { // the field of a part made here, read into v
			u, ok := v.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				return ""
			}
			fa, ok := u.X.(*ssa.FieldAddr)
			if !ok {
				return ""
			}
			if _, ok := u.Type().Underlying().(*types.Pointer); !ok {
				return ""
			}
			if al, ok := fa.X.(*ssa.Alloc); ok {
				return fmt.Sprint("s", e.id(al), ".", fa.Field)
			}
			return ""
		}
		used := map[string]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					used[unset(fa.X)] = true
				}
			}
		}
		counted, onSuccess := map[*ssa.FreeVar]*ssa.Store{}, map[*ssa.FreeVar]bool{}
		e.Instr = func(_ *Engine, fn *ssa.Function, in ssa.Instruction, st *State) {
			if fa, ok := in.(*ssa.FieldAddr); ok {
				if k := unset(fa.X); k != "" && kvGet(st.C, k) == "" {
					r.violate("crash:"+fname(f), p.pos(fa.Pos()), "%s can use a part that has not been read yet", fname(f))
				}
			}
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					if al, ok := fa.X.(*ssa.Alloc); ok {
						if k := fmt.Sprint("s", e.id(al), ".", fa.Field); used[k] {
							st.C = kvSet(st.C, k, "1")
						}
					}
				}
				if fv, outer := s.Addr.(*ssa.FreeVar); outer {
					// a counter of failures of the function around
					failed := false
					for id := range fails {
						if kvGet(st.C, id) != "" {
							failed = true
							st.C = kvSet(st.C, id, "")
						}
					}
					if failed {
						counted[fv] = s
					} else {
						onSuccess[fv] = true
					}
				}
			}
		}
		for _, x := range e.Run(f, "") {
			if x.Panic {
				continue
			}
			if failsWith(f, x.Res) == 1 {
				continue
			}
			rs := f.Signature.Results()
			canFail := lastErrorOf(f)
			if !canFail && rs.Len() > 0 && failsWith(f, x.Res) == 0 && rs.At(rs.Len()-1).Type().String() == "bool" {
				canFail = true
			}
			for id, in := range fails {
				if kvGet(x.C, id) != "" {
					if f.Parent() != nil && methodName(in.(ssa.CallInstruction).Common()) == "Close" {
						continue // put off to the end, when everything was read
					}
					r.violate("swallowed:"+fname(f)+":"+calleeName(in.(ssa.CallInstruction).Common()), p.pos(in.Pos()), "%s can report success although %s failed", fname(f), calleeName(in.(ssa.CallInstruction).Common()))
				}
			}
			if !canFail {
				continue
			}
			for k, in := range pend {
				if kvGet(x.C, "p"+k) != "" {
					r.violate("shape:"+fname(f), p.pos(in.Pos()), "%s can accept a piece of JSON that is not of the kind it expects", fname(f))
				}
			}
			for v, n := range choices {
				if n >= 3 && kvGet(x.C, fmt.Sprint("e", e.id(v))) == "unknown" && !m.namesParam(v) {
					r.violate("value:"+fname(f), p.pos(v.Pos()), "%s can accept a text that is none of those the format defines there", fname(f))
				}
			}
			for root := range raws {
				if id, ok := rid[root]; !ok || kvGet(x.C, "okr"+id) == "" {
					if !m.given(f, root) {
						continue
					}
					r.violate("unlooked:"+fname(f), p.pos(f.Pos()), "%s can accept a piece of JSON without having looked at what kind it is", fname(f))
				}
			}
		}
		for fv, st := range counted {
			if onSuccess[fv] || !comparedOutside(f, fv) {
				r.violate("swallowed:"+fname(f)+":"+fv.Name(), p.pos(st.Pos()), "%s does not report a failure: what it counts is not looked at, or also counts successes", fname(f))
			}
		}
		// a panic instead of an error
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ta, ok := in.(*ssa.TypeAssert); ok && !ta.CommaOk && isOJ(ta.X.Type()) {
					r.violate("crash:"+fname(f), p.pos(ta.Pos()), "%s takes a piece of JSON for one kind without having checked it", fname(f))
				}
			}
		}
		if len(e.Overflow) > 0 {
			r.violate("undecided:"+fname(f), p.pos(f.Pos()), "the analysis of %s did not end: %s", fname(f), e.Overflow[0])
		}
		r.Counts["abstract_steps"] += e.Steps
		r.saw(fname(f))
	}
	r.okN("calls that can fail, explored failing", nErr)
	return nErr, nShape
}

// given: the piece of JSON is one that readers are given (and not one that is only passed on to be kept).
func (m *m04) given(f *ssa.Function, root string) bool { return pkgRel(f) == mjParse }

// characters: the JSON reader itself.
func (m *m04) characters() {
	p, r := m.p, m.r
	var roots []*ssa.Function
	chars := map[int64]bool{'a': true, '0': true, '-': true, '/': true, '#': true, 0: true, 11: true, 12: true, 0xa0: true, 255: true, ';': true, '\'': true}
	for _, f := range mandosReaders(p) {
		if pkgRel(f) != mjOJ {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if bo, ok := in.(*ssa.BinOp); ok {
					if c, ok := bo.Y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int && types.Identical(c.Type().Underlying(), types.Typ[types.Uint8]) {
						n, _ := constant.Int64Val(c.Value)
						chars[n] = true
					}
				}
			}
		}
		if len(f.Params) == 1 && lastErrorOf(f) && f.Parent() == nil && f.Signature.Recv() == nil && f.Object().Exported() {
			if sl, ok := f.Params[0].Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem().Underlying(), types.Typ[types.Uint8]) {
				roots = append(roots, f)
			}
		}
	}
	for _, ws := range " \n\r\t" {
		delete(chars, int64(ws))
	}
	r.floor("JSON readers", len(roots), 1)
	puts := func(g *ssa.Function) bool { // adds an entry, unless there is one of this name
		return g != nil && pkgRel(g) == mjOJ && recvName(g) == "OJsonMap" && g.Signature.Params().Len() == 2 && g.Signature.Results().Len() == 0
	}
	for _, f := range roots {
		reports := map[string]bool{}
		say := func(key string, pos token.Pos, format string, a ...interface{}) {
			if !reports[key] {
				reports[key] = true
				r.violate(key, p.pos(pos), format, a...)
			}
		}
		nPut := 0
		for ch := range chars {
			e := newEngine(p)
			e.Skip = func(g *ssa.Function) bool { return pkgRel(g) != mjOJ || puts(g) }
			e.IsRelevantInstr = func(in ssa.Instruction) bool { return true }
			isChar := func(x *ssa.UnOp) bool {
				ia, ok := x.X.(*ssa.IndexAddr)
				if !ok || x.Op != token.MUL || ia.X != ssa.Value(f.Params[0]) {
					return false
				}
				b, ok := ia.Index.(*ssa.BinOp)
				return !ok || b.Op != token.SUB
			}
			e.Load = func(st *State, x *ssa.UnOp) (Val, bool) {
				if !isChar(x) {
					return Val{}, false
				}
				if kvGet(st.C, "c") == "open" {
					say("dropped:"+fname(f), x.Pos(), "%s passes over the character %q as if it were not there", fname(f), rune(ch))
				}
				st.C = kvSet(kvSet(st.C, "c", "open"), "new", "")
				return vint(ch), true
			}
			used := func(st *State) { st.C = kvSet(st.C, "c", "") }
			e.Instr = func(_ *Engine, fn *ssa.Function, in ssa.Instruction, st *State) {
				switch x := in.(type) {
				case *ssa.Store:
					if _, local := x.Addr.(*ssa.Alloc); !local {
						used(st)
					}
				case *ssa.MapUpdate:
					used(st)
				}
			}
			e.Branch = func(_ *Engine, fn *ssa.Function, cond ssa.Value, truth bool, st *State) bool {
				cond, truth = boolParts(cond, truth)
				if x, ok := cond.(*ssa.Extract); ok && x.Index == 1 {
					cond = x.Tuple
				}
				if l, ok := cond.(*ssa.Lookup); ok && !truth {
					if mt, ok := l.X.Type().Underlying().(*types.Map); ok && types.Identical(mt.Key(), types.Typ[types.String]) {
						st.C = kvSet(st.C, "new", "1")
					}
				}
				return true
			}
			e.Event = func(c *CallCtx) ([]Outcome, bool) {
				n := c.Name
				if nonNilMakers[n] {
					return []Outcome{{C: c.St.C, Res: []Val{{K: VNonNil}}}}, true
				}
				if len(c.Impl) == 1 && puts(c.Impl[0]) {
					nPut++
					if kvGet(c.St.C, "new") == "" {
						say("second:"+fname(f), c.Instr.Pos(), "%s can lose the second of two entries of the same name without an error", fname(f))
					}
					return []Outcome{{C: kvSet(kvSet(c.St.C, "new", ""), "c", "")}}, true
				}
				if strings.HasPrefix(methodName(c.Com), "Write") {
					return []Outcome{{C: kvSet(c.St.C, "c", ""), Res: make([]Val, c.Com.Signature().Results().Len())}}, true
				}
				return nil, false
			}
			for _, x := range e.Run(f, "") {
				if !x.Panic && failsWith(f, x.Res) != 1 && kvGet(x.C, "c") == "open" {
					say("dropped:"+fname(f), f.Pos(), "%s passes over the character %q as if it were not there", fname(f), rune(ch))
				}
			}
			if len(e.Overflow) > 0 {
				r.violate("undecided:"+fname(f), p.pos(f.Pos()), "the analysis of %s did not end: %s", fname(f), e.Overflow[0])
			}
			r.Counts["abstract_steps"] += e.Steps
			r.ok("kinds of characters, in every state of the JSON reader")
		}
		r.saw(fname(f))
		r.floor("entries added by the JSON reader", nPut, 1)
	}
}


// comparesWithNames: the function compares this parameter with constant texts.
func comparesWithNames(f *ssa.Function, i int) bool {
	if i >= len(f.Params) {
		return false
	}
	for _, ref := range *f.Params[i].Referrers() {
		if b, ok := ref.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			_, cx := b.X.(*ssa.Const)
			_, cy := b.Y.(*ssa.Const)
			if cx || cy {
				return true
			}
		}
	}
	return false
}

func (m *m04) names() {
	p, r := m.p, m.r
	type fact struct{ strict, lenient bool }
	// per function and parameter: read strictly on every successful path; read leniently on some path
	params := map[*ssa.Function]map[int]*fact{}
	var roots []*ssa.Function
	helper := map[*ssa.Function]bool{}
	for _, f := range mandosReaders(p) {
		if pkgRel(f) != mjParse {
			continue
		}
		for i, prm := range f.Params {
			if isKVP(prm.Type()) {
				helper[f] = true
			}
			if b, ok := prm.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String && comparesWithNames(f, i) {
				helper[f] = true
			}
		}
		roots = append(roots, f)
	}
	elems := map[*ssa.Function]int{}
	isElem := func(x *ssa.UnOp) bool {
		_, ia := x.X.(*ssa.IndexAddr)
		return x.Op == token.MUL && isKVP(x.Type()) && ia
	}
	objOf := func(x *ssa.UnOp) string { // the object an entry belongs to
		v := x.X.(*ssa.IndexAddr).X
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				return jsonRoot(fa.X)
			}
		}
		if c, ok := v.(*ssa.Call); ok && len(c.Call.Args) > 0 {
			return jsonRoot(c.Call.Args[0])
		}
		return jsonRoot(v)
	}
	for _, f := range roots {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && isElem(u) {
					elems[f]++
				}
			}
		}
	}
	lenientSite := map[*ssa.UnOp]string{} // → an example of where an entry is left unread
	tested := map[*ssa.UnOp]bool{}
	ignored := map[string]map[*ssa.Function]token.Pos{}
	read := map[string]map[*ssa.Function]bool{}
	note := func(name string, f *ssa.Function, rd bool, pos token.Pos) {
		if rd {
			if read[name] == nil {
				read[name] = map[*ssa.Function]bool{}
			}
			read[name][f] = true
			return
		}
		if ignored[name] == nil {
			ignored[name] = map[*ssa.Function]token.Pos{}
		}
		ignored[name][f] = pos
	}
	pass := func(second bool) bool {
		changed := false
		for _, f := range roots {
			if helper[f] {
				continue
			}
			calls := false
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if g := ci.Common().StaticCallee(); g != nil && params[g] != nil {
							calls = true
						}
					}
				}
			}
			if elems[f] == 0 && !(second && calls) {
				continue
			}
			e := newEngine(p)
			ids := map[string]*ssa.UnOp{}
			rootName := map[string]string{}
			e.Skip = func(g *ssa.Function) bool { return g != f && !helper[g] && g.Parent() != f }
			e.Force = func(g *ssa.Function) bool { return helper[g] }
			e.IsRelevantInstr = func(in ssa.Instruction) bool {
				_, ok := in.(*ssa.FieldAddr)
				return ok
			}
			abandon := func(st *State, id string) {
				if second || kvGet(st.C, id) != "open" {
					return
				}
				st.C = kvSet(st.C, id, "lost")
			}
			unread := func(c, id string) {
				if n := kvGet(c, "name"+id); n != "" && !second {
					note(n, f, false, ids[id].Pos())
				}
			}
			e.Load = func(st *State, x *ssa.UnOp) (Val, bool) {
				if !isElem(x) {
					return Val{}, false
				}
				id := fmt.Sprint("kv", e.id(x))
				ids[id] = x
				unread(st.C, id)
				st.C = kvSet(kvSet(kvSet(st.C, "name"+id, ""), "is"+id, ""), "not"+id, "")
				if !second {
					abandon(st, id)
					if kvGet(st.C, id) != "lost" {
						st.C = kvSet(st.C, id, "open")
					}
				}
				return vtag(id), true
			}
			e.FieldLoad = func(st *State, base Val, field string) (Val, bool) {
				if strings.HasPrefix(base.T, "kv") && field == "Key" {
					return vtag("key|" + base.T), true
				}
				if strings.HasPrefix(base.T, "kv") && field == "Value" {
					if n := kvGet(st.C, "name"+base.T); n != "" {
						note(n, f, true, 0)
						st.C = kvSet(st.C, "name"+base.T, "")
					}
				}
				return Val{}, false
			}
			keyOf := func(st *State, v ssa.Value) string {
				x := e.Eval(st, v)
				if x.K == VTag && strings.HasPrefix(x.T, "key|") {
					return x.T[4:]
				}
				return ""
			}
			closeKey := func(st *State, id string) {
				if kvGet(st.C, id) == "open" {
					st.C = kvSet(st.C, id, "")
				}
			}
			e.Branch = func(_ *Engine, fn *ssa.Function, cond ssa.Value, truth bool, st *State) bool {
				cond, truth = boolParts(cond, truth)
				switch x := cond.(type) {
				case *ssa.BinOp:
					if x.Op != token.EQL && x.Op != token.NEQ {
						return true
					}
					for _, o := range []ssa.Value{x.X, x.Y} {
						if id := keyOf(st, o); id != "" {
							tested[ids[id]] = true
							eq := (x.Op == token.EQL) == truth
							for _, k := range []ssa.Value{x.X, x.Y} {
								c, ok := k.(*ssa.Const)
								if !ok || c.Value == nil || c.Value.Kind() != constant.String {
									continue
								}
								name := strings.NewReplacer("=", "_", ";", "_", "|", "_").Replace(constant.StringVal(c.Value))
								is, not := kvGet(st.C, "is"+id), kvGet(st.C, "not"+id)
								if eq && (is != "" && is != name || strings.Contains(not, "|"+name+"|")) || !eq && is == name && is != "" {
									return false
								}
								if eq {
									st.C = kvSet(kvSet(st.C, "is"+id, name), "not"+id, "")
								} else if is == "" && !strings.Contains(not, "|"+name+"|") {
									st.C = kvSet(st.C, "not"+id, not+"|"+name+"|")
								}
							}
							if eq {
								closeKey(st, id)
								for _, k := range []ssa.Value{x.X, x.Y} {
									if c, ok := k.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
										st.C = kvSet(st.C, "name"+id, strings.NewReplacer("=", "_", ";", "_").Replace(constant.StringVal(c.Value)))
									}
								}
							}
						}
					}
				case *ssa.Extract:
					if l, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 1 {
						if id := keyOf(st, l.Index); id != "" {
							tested[ids[id]] = true
							if truth {
								closeKey(st, id)
							}
						}
					}
				}
				return true
			}
			e.Instr = func(_ *Engine, fn *ssa.Function, in ssa.Instruction, st *State) {
				use := func(v ssa.Value) {
					if id := keyOf(st, v); id != "" {
						closeKey(st, id)
					}
				}
				switch x := in.(type) {
				case *ssa.Store:
					if _, local := x.Addr.(*ssa.Alloc); !local {
						use(x.Val)
					}
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && !isKVP(fa.X.Type()) {
						// naming it is what it is for
						for id := range ids {
							if kvGet(st.C, "name"+id) != "" {
								st.C = kvSet(st.C, "name"+id, "")
							}
						}
					}
				case *ssa.MapUpdate:
					use(x.Key)
					use(x.Value)
				case *ssa.Lookup:
					if !x.CommaOk {
						use(x.Index)
					}
				case *ssa.BinOp:
					if x.Op == token.ADD {
						use(x.X)
						use(x.Y)
					}
				}
			}
			e.Event = func(c *CallCtx) ([]Outcome, bool) {
				if len(c.Impl) == 1 && helper[c.Impl[0]] {
					return nil, false
				}
				st := c.St
				s := st.clone()
				for i, a := range c.Com.Args {
					if id := keyOf(st, a); id != "" && !strings.HasPrefix(c.Name, "fmt.") && !strings.HasPrefix(c.Name, "errors.") && !strings.HasPrefix(c.Name, "builtin.") {
						closeKey(s, id)
					}
					if !second {
						continue
					}
					if g := c.Com.StaticCallee(); g != nil && params[g] != nil && params[g][i] != nil {
						root := fmt.Sprint("need", e.rootID(jsonRoot(a), rootName))
						switch {
						case params[g][i].strict:
							s.C = kvSet(kvSet(s.C, root, ""), "did"+root, "1")
						case params[g][i].lenient:
							s.C = kvSet(s.C, root, "1")
						}
					}
				}
				if nonNilMakers[c.Name] {
					return []Outcome{{C: s.C, Res: []Val{{K: VNonNil}}}}, true
				}
				if !lastError(c.Com) {
					if s.C != st.C {
						return []Outcome{{C: s.C, Res: make([]Val, c.Com.Signature().Results().Len())}}, true
					}
					return nil, false
				}
				n := c.Com.Signature().Results().Len()
				okRes, badRes := make([]Val, n), make([]Val, n)
				okRes[n-1], badRes[n-1] = Val{K: VNil}, Val{K: VNonNil}
				return []Outcome{{C: s.C, Res: okRes}, {C: st.C, Res: badRes}}, true
			}
			// the objects are judged when their entries are taken
			instr := e.Instr
			e.Instr = func(e2 *Engine, fn *ssa.Function, in ssa.Instruction, st *State) {
				instr(e2, fn, in, st)
				if !second {
					return
				}
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
					if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "OrderedKV" && typeName(fa.X.Type()) == "OJsonMap" {
						lenient := false
						for _, b := range fn.Blocks {
							for _, i2 := range b.Instrs {
								if el, ok := i2.(*ssa.UnOp); ok && isElem(el) && el.X.(*ssa.IndexAddr).X == u && lenientSite[el] != "" {
									lenient = true
								}
							}
						}
						root := fmt.Sprint("need", e.rootID(jsonRoot(fa.X), rootName))
						if lenient {
							st.C = kvSet(st.C, root, "1")
						} else {
							st.C = kvSet(kvSet(st.C, root, ""), "did"+root, "1")
						}
					}
				}
			}
			paramOf := map[string]int{}
			for i, prm := range f.Params {
				paramOf[f.String()+":"+prm.Name()] = i
			}
			strictAll := map[string]bool{}
			first := true
			lenientOn := map[string]bool{}
			for _, x := range e.Run(f, "") {
				if x.Panic || failsWith(f, x.Res) == 1 && lastErrorOf(f) {
					continue
				}
				if !second {
					for id, u := range ids {
						unread(x.C, id)
						if v := kvGet(x.C, id); v == "open" || v == "lost" {
							lenientSite[u] = id
						}
					}
					continue
				}
				here := map[string]bool{}
				for _, kv := range strings.Split(x.C, ";") {
					k := strings.SplitN(kv, "=", 2)[0]
					if strings.HasPrefix(k, "didneed") && kvGet(x.C, k[3:]) == "" {
						here[k[3:]] = true
					}
					if strings.HasPrefix(k, "need") {
						lenientOn[k] = true
					}
				}
				if first {
					strictAll, first = here, false
				} else {
					for k := range strictAll {
						if !here[k] {
							delete(strictAll, k)
						}
					}
				}
			}
			if len(e.Overflow) > 0 {
				r.violate("undecided:"+fname(f), p.pos(f.Pos()), "the analysis of %s did not end: %s", fname(f), e.Overflow[0])
			}
			if second {
				for _, k := range e.rootList(rootName) {
					id := fmt.Sprint("need", k.id)
					i, isParam := paramOf[k.name]
					if !isParam {
						if lenientOn[id] {
							m.lenient(f, k.name)
						}
						continue
					}
					if params[f] == nil {
						params[f] = map[int]*fact{}
					}
					if params[f][i] == nil {
						params[f][i] = &fact{}
						changed = true
					}
					if params[f][i].strict != strictAll[id] || params[f][i].lenient != lenientOn[id] {
						params[f][i] = &fact{strictAll[id], lenientOn[id]}
						changed = true
					}
				}
			} else {
				r.Counts["abstract_steps"] += e.Steps
				r.saw(fname(f))
			}
		}
		return changed
	}
	pass(false)
	for i := 0; i < 8; i++ {
		m.found = nil
		if !pass(true) {
			break
		}
	}
	for _, v := range m.found {
		v()
	}
	// lenient readings of a parameter must not be reachable from outside without a strict one
	for _, f := range roots {
		for i, x := range params[f] {
			if x.lenient && f.Object() != nil && f.Object().Exported() {
				r.violate("ignored:"+fname(f), p.pos(f.Pos()), "%s leaves entries of %s unread without an error", fname(f), f.Params[i].Name())
			}
		}
	}
	n := 0
	for f, c := range elems {
		if c > 0 {
			n += c
			_ = f
		}
	}
	r.okN("loops over the entries of a JSON object", n)
	r.floor("loops over the entries of a JSON object", n, 8)
	if os.Getenv("VERIF_DEBUG") != "" {
		for el := range lenientSite {
			fmt.Println("lenient:", p.pos(el.Pos()), fname(el.Parent()), objOf(el))
		}
		for f, ps := range params {
			for i, x := range ps {
				fmt.Println("param", fname(f), i, *x)
			}
		}
	}
	var bad []string
	for name, fs := range ignored {
		for f, pos := range fs {
			if read[name] != nil && m.readAbove(f, read[name], map[*ssa.Function]bool{}) {
				continue
			}
			bad = append(bad, name+"\x00"+fname(f)+"\x00"+p.pos(pos))
		}
	}
	sort.Strings(bad)
	for _, b := range bad {
		x := strings.Split(b, "\x00")
		r.violate("unread:"+x[1]+":"+x[0], x[2], "%s accepts the name %q but never looks at what is written there", x[1], x[0])
	}
}

// comparedOutside: the function around the closure compares the variable with something.
func comparedOutside(f *ssa.Function, fv *ssa.FreeVar) bool {
	idx := -1
	for i, v := range f.FreeVars {
		if v == fv {
			idx = i
		}
	}
	if f.Parent() == nil || idx < 0 {
		return false
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != f {
				continue
			}
			for _, ref := range *mc.Bindings[idx].Referrers() {
				u, ok := ref.(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					continue
				}
				for _, r2 := range *u.Referrers() {
					if bo, ok := r2.(*ssa.BinOp); ok {
						switch bo.Op {
						case token.EQL, token.NEQ, token.GTR, token.LSS, token.GEQ, token.LEQ:
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// namesParam: a name of an entry, handed to a helper (names are judged where the entries are read).
func (m *m04) namesParam(v ssa.Value) bool {
	prm, ok := v.(*ssa.Parameter)
	if !ok {
		return false
	}
	f := prm.Parent()
	for _, g := range mandosReaders(m.p) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() != f {
					continue
				}
				for i, a := range ci.Common().Args {
					if i < len(f.Params) && f.Params[i] == prm {
						if u, ok := a.(*ssa.UnOp); ok {
							if fa, ok := u.X.(*ssa.FieldAddr); ok && isKVP(fa.X.Type()) {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}
