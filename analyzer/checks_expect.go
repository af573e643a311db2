package main

// Expectations of scenarios (M02): each of them is compared with what happened.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("M02", checkM02)
}

// what each expectation is about
var counterpart = map[string][]string{
	"CheckAccount.Nonce":                  {"Account.Nonce"},
	"CheckAccount.Balance":                {"Account.Balance"},
	"CheckAccount.Username":               {"Account.Username"},
	"CheckAccount.Code":                   {"Account.Code"},
	"CheckAccount.Owner":                  {"Account.OwnerAddress"},
	"CheckAccount.AsyncCallData":          {"Account.AsyncCallData"},
	"CheckAccount.CheckStorage":           {"Account.Storage"},
	"CheckAccount.CheckESDTData":          {"GetFullMockESDTData()"},
	"CheckAccounts.Accounts":              {"MockWorld.AcctMap"},
	"CheckESDTData.Instances":             {"MockESDTData.Instances"},
	"CheckESDTData.LastNonce":             {"MockESDTData.LastNonce"},
	"CheckESDTData.Roles":                 {"MockESDTData.Roles"},
	"CheckESDTInstance.Balance":           {"ESDigitalToken.Value"},
	"CheckESDTInstance.Creator":           {"MetaData.Creator"},
	"CheckESDTInstance.Royalties":         {"MetaData.Royalties"},
	"CheckESDTInstance.Hash":              {"MetaData.Hash"},
	"CheckESDTInstance.Uri":               {"MetaData.URIs"},
	"CheckESDTInstance.Attributes":        {"MetaData.Attributes"},
	"TransactionResult.Status":            {"VMOutput.ReturnCode"},
	"TransactionResult.Message":           {"VMOutput.ReturnMessage"},
	"TransactionResult.Out":               {"VMOutput.ReturnData"},
	"TransactionResult.Refund":            {"VMOutput.GasRefund"},
	"TransactionResult.Gas":               {"VMOutput.GasRemaining"},
	"TransactionResult.Logs":              {"VMOutput.Logs"},
	"LogEntry.Address":                    {"LogEntry.Address"},
	"LogEntry.Identifier":                 {"LogEntry.Identifier"},
	"LogEntry.Topics":                     {"LogEntry.Topics"},
	"LogEntry.Data":                       {"LogEntry.Data"},
	"CheckStorageKeyValuePair.CheckValue": {"StorageValue()", "Account.Storage"},
}

// what an author can switch off, and with what
var relaxes = map[string][]string{
	"CheckAccount.IgnoreStorage":         {"CheckStorage", "CheckStorage+"},
	"CheckAccount.IgnoreESDT":            {"CheckESDTData", "CheckESDTData+"},
	"TransactionResult.LogsStar":         {"Logs", "Logs+", "LogHash"},
	"TransactionResult.LogsUnspecified":  {"Logs", "Logs+", "LogHash"},
	"CheckAccounts.MoreAccountsAllowed":  {"Accounts+"},
	"CheckAccount.MoreStorageAllowed":    {"CheckStorage+"},
	"CheckAccount.MoreESDTTokensAllowed": {"CheckESDTData+"},
}

// m02 decides M02.
type m02 struct {
	p      *Prog
	r      *Result
	fields map[string][]mfield        // obligations per structure
	sum    map[*ssa.Function][]string // per parameter: what is done with it on every successful path (",F,G,")
	acc    map[ssa.Instruction]string
	report func(key string, pos token.Pos, format string, a ...interface{})
	opened map[string]bool // lists whose elements are looked at
	mapped map[ssa.Value]token.Pos
	met    map[string]bool // expectations that are compared
	rd     map[string]bool // fields that are read
	noted  map[string]string
	names  map[string]bool // expectations that are found under this name
}

func (m *m02) expType(t types.Type) string {
	pt, ok := t.(*types.Pointer)
	if !ok {
		return ""
	}
	n := modelNamed(pt.Elem())
	if n == nil || m.fields[n.Obj().Name()] == nil {
		return ""
	}
	return n.Obj().Name()
}

func isCheckType(t types.Type) bool {
	_, c := isValueType(t)
	return c
}

func elemTy(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	}
	return nil
}

func checkM02(p *Prog, r *Result) {
	r.Rule = "on every path on which a scenario step succeeds, each expectation of every structure it holds (values, lists, parts) was compared with its counterpart in the world or in the result, unless the author left it open; a difference, a missing part and an unexpected part lead to an error; the comparisons accept nothing but equality; every kind of step is executed; the settings of a scenario are those it has after the scenarios it includes"
	r.Assumptions = []string{"texts that name things (addresses, token identifiers, keys) are the identity of what is compared", "gas is compared unless the scenario says that gas is not checked"}
	m := &m02{p: p, r: r, fields: map[string][]mfield{}, sum: map[*ssa.Function][]string{}, acc: map[ssa.Instruction]string{}, opened: map[string]bool{}, mapped: map[ssa.Value]token.Pos{}, met: map[string]bool{}, rd: map[string]bool{}, noted: map[string]string{}, names: map[string]bool{}}
	all := modelFields(p)
	reach := modelReach(p, "TransactionResult")
	for k := range modelReach(p, "CheckAccounts") {
		reach[k] = true
	}
	exp := map[string]bool{}
	for _, f := range all {
		if reach[f.strct] && !isValueStruct(f.strct) {
			exp[f.strct] = true
		}
	}
	carrier := map[string]bool{}
	for again := true; again; {
		again = false
		for _, f := range all {
			if exp[f.strct] || carrier[f.strct] {
				continue
			}
			t := f.t
			if e := elemTy(t); e != nil {
				t = e
			}
			if n := modelNamed(deref(t)); n != nil && (exp[n.Obj().Name()] || carrier[n.Obj().Name()]) {
				carrier[f.strct] = true
				again = true
			}
		}
	}
	for _, f := range all {
		if !exp[f.strct] && !carrier[f.strct] || f.strct == "Scenario" {
			continue
		}
		t := f.t
		e := elemTy(t)
		switch {
		case f.strct+"."+f.name == "Block.Results": // as many as transactions, or it is no block
			continue
		case isCheckType(t):
		case e != nil && isCheckType(e):
		case e != nil && exp[f.strct]:
		case carrier[f.strct] && e != nil && modelNamed(deref(e)) != nil && (exp[modelNamed(deref(e)).Obj().Name()] || carrier[modelNamed(deref(e)).Obj().Name()]):
		case modelNamed(deref(t)) != nil && (exp[modelNamed(deref(t)).Obj().Name()] || carrier[modelNamed(deref(t)).Obj().Name()]):
		case exp[f.strct] && f.name == "LogHash":
		default:
			continue
		}
		m.fields[f.strct] = append(m.fields[f.strct], f)
	}
	for st, fs := range m.fields {
		for _, f := range fs {
			if elemTy(f.t) != nil && counterpart[st+"."+f.name] != nil {
				m.fields[st] = append(m.fields[st], mfield{strct: st, name: f.name + "+", t: types.Typ[types.Invalid]})
			}
		}
	}
	n := 0
	for _, fs := range m.fields {
		n += len(fs)
	}
	r.okN("expectations an author can state", n)
	r.floor("expectations an author can state", n, 15)
	var fns []*ssa.Function
	for _, f := range p.Funcs {
		if pkgRel(f) == mjExec && f.Synthetic == "" && f.Blocks != nil && f.Parent() == nil {
			fns = append(fns, f)
		}
	}
	// bottom-up until nothing changes
	for i := 0; i < 10; i++ {
		var out []func()
		seen := map[string]bool{}
		m.report = func(key string, pos token.Pos, format string, a ...interface{}) {
			if !seen[key] {
				seen[key] = true
				out = append(out, func() { r.violate(key, p.pos(pos), format, a...) })
			}
		}
		m.acc = map[ssa.Instruction]string{}
		changed := false
		for _, f := range fns {
			if m.run(f) {
				changed = true
			}
		}
		if !changed {
			for _, o := range out {
				o()
			}
			break
		}
	}
	for _, f := range all {
		if exp[f.strct] && f.t.String() == "bool" && relaxes[f.strct+"."+f.name] != nil && f.name != "LogsUnspecified" {
			if !m.rd[f.strct+"."+f.name] {
				r.violate("flag:"+f.strct+"."+f.name, "-", "%s is never looked at when expectations are checked", f.strct+"."+f.name)
			} else {
				r.ok("ways to leave an expectation open")
			}
		}
	}
	m.collections(fns)
	m.accumulate()
	m.checkMethods()
	m.steps(fns)
	m.settings()
	mm := &m04{p: p, r: r, only: func(g *ssa.Function) bool { return pkgRel(g) == mjExec || strings.HasPrefix(pkgRel(g), "mandos-go/") }}
	mm.errorsOf(fns)
	if os.Getenv("VERIF_DEBUG") != "" {
		for f, s := range m.sum {
			fmt.Println("sum", fname(f), s)
		}
		var ks []string
		for k := range m.met {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Println("met", ks)
	}
}

func isValueStruct(name string) bool { return strings.HasPrefix(name, "JSON") }

// tag of an argument, looking through the local it is kept in.
func (m *m02) obj(st *State, v Val) (typ, id string) {
	if v.K == VPtr {
		if c, ok := st.cells[v.S]; ok {
			v = c
		}
	}
	if v.K == VTag && strings.HasPrefix(v.T, "o|") {
		x := strings.SplitN(v.T, "|", 3)
		return x[1], x[2]
	}
	return "", ""
}

func openAll(m *m02, c, typ, id string) string {
	for _, f := range m.fields[typ] {
		c = kvSet(c, "o:"+id+"."+f.name, typ)
	}
	if isValueStruct(typ) {
		c = kvSet(c, "o:"+id+".*", typ)
	}
	return kvSet(c, "opened:"+id, "1")
}

// openOf lists what is still to be done with an object.
func openOf(c, id string) []string {
	var out []string
	for _, kv := range strings.Split(c, ";") {
		x := strings.SplitN(kv, "=", 2)
		if len(x) == 2 && strings.HasPrefix(x[0], "o:"+id+".") {
			out = append(out, x[1]+"."+x[0][strings.LastIndex(x[0], ".")+1:])
		}
	}
	return out
}

func closeObj(c, id string) string {
	var parts []string
	for _, kv := range strings.Split(c, ";") {
		if kv == "" || strings.HasPrefix(kv, "o:"+id+".") || strings.HasPrefix(kv, "opened:"+id+".") {
			continue
		}
		parts = append(parts, kv)
	}
	return strings.Join(parts, ";")
}

func (m *m02) run(f *ssa.Function) bool {
	p := m.p
	e := newEngine(p)
	e.MaxState = 40000
	hasExp := func(g *ssa.Function) bool {
		for _, prm := range g.Params {
			if m.expType(prm.Type()) != "" {
				return true
			}
		}
		return false
	}
	small := func(g *ssa.Function) bool {
		if pkgRel(g) != mjExec || hasExp(g) {
			return false
		}
		for _, prm := range g.Params {
			if isCheckType(prm.Type()) || prm.Type().String() == "bool" {
				return true
			}
		}
		return false
	}
	e.Skip = func(g *ssa.Function) bool { return g != f && !small(g) && g.Parent() == nil }
	e.IsRelevantInstr = func(in ssa.Instruction) bool { return true }
	c0 := ""
	e.Args = make([]Val, len(f.Params))
	types0 := map[string]string{}
	for i, prm := range f.Params {
		if t := m.expType(prm.Type()); t != "" {
			id := fmt.Sprint("p", i)
			e.Args[i] = vtag("o|" + t + "|" + id)
			types0[id] = t
			c0 = openAll(m, c0, t, id)
		}
	}
	where := map[string]token.Pos{}
	done := func(st *State, id, field string) { st.C = kvSet(st.C, "o:"+id+"."+field, "") }
	judge := func(st *State, id string) {
		if strings.HasPrefix(id, "p") && !strings.Contains(id, ".") {
			return
		}
		for _, x := range openOf(st.C, id) {
			m.report("unchecked:"+x, where[id], "there is a path on which %s is not compared with anything, and no error is reported (in %s)", m.what(x), fname(f))
		}
	}
	open := func(st *State, typ, id string, pos token.Pos) Val {
		where[id] = pos
		judge(st, id)
		st.C = kvSet(closeObj(st.C, id), "nil:"+id, "")
		st.C = openAll(m, st.C, typ, id)
		return vtag("o|" + typ + "|" + id)
	}
	e.Load = func(st *State, x *ssa.UnOp) (Val, bool) {
		ia, ok := x.X.(*ssa.IndexAddr)
		if !ok {
			return Val{}, false
		}
		if l := m.listOf(ia.X); l != "" {
			st.C = kvSet(st.C, "it:"+l, "")
		}
		if t := m.expType(x.Type()); t != "" {
			m.opened[m.listOf(ia.X)] = true
			return open(st, t, fmt.Sprint("l", e.id(x)), x.Pos()), true
		}
		if isCheckType(x.Type()) && m.compares(x.Parent()) {
			l := m.listOf(ia.X)
			m.opened[l] = true
			m.noted[fmt.Sprint("l", e.id(x))] = l
			return open(st, deref(x.Type()).(*types.Named).Obj().Name(), fmt.Sprint("l", e.id(x)), x.Pos()), true
		}
		return Val{}, false
	}
	e.FieldLoad = func(st *State, base Val, field string) (Val, bool) {
		if strings.HasPrefix(base.T, "fld|") { // a field of a structure that is a field
			x := strings.SplitN(base.T, "|", 3)
			v, ok := e.FieldLoad(st, vtag(x[2]), x[1])
			if !ok || v.K != VTag {
				return Val{}, false
			}
			base = v
		}
		switch {
		case strings.HasPrefix(base.T, "o|"):
			x := strings.SplitN(base.T, "|", 3)
			typ, id := x[1], x[2]
			if isValueStruct(typ) {
				switch field {
				case "Unspecified", "IsStar":
					return vtag("open|" + id + "|*"), true
				}
				return vtag("val|" + id + "|*"), true
			}
			m.rd[typ+"."+field] = true
			for _, mf := range m.fields[typ] {
				if mf.name != field {
					continue
				}
				if isCheckType(mf.t) {
					return vtag("chk|" + id + "|" + field), true
				}
				if t := m.expType(mf.t); t != "" {
					sub := id + "." + field
					if kvGet(st.C, "opened:"+sub) == "" && kvGet(st.C, "o:"+id+"."+field) != "" {
						where[sub] = 0
						st.C = openAll(m, st.C, t, sub)
						done(st, id, field)
					}
					return vtag("o|" + t + "|" + sub), true
				}
				if elemTy(mf.t) != nil {
					return vtag("list|" + id + "|" + field), true
				}
				return vtag("val|" + id + "|" + field), true
			}
			if relaxes[typ+"."+field] != nil {
				return vtag("flag|" + id + "|" + typ + "." + field), true
			}
		case strings.HasPrefix(base.T, "chk|"):
			x := strings.SplitN(base.T, "|", 3)
			switch field {
			case "Unspecified", "IsStar":
				return vtag("open|" + x[1] + "|" + x[2]), true
			case "Value":
				return vtag("val|" + x[1] + "|" + x[2]), true
			}
		}
		return Val{}, false
	}
	split := func(v Val) (kind, id, field string) {
		if v.K != VTag {
			return "", "", ""
		}
		x := strings.SplitN(v.T, "|", 3)
		if len(x) != 3 {
			return "", "", ""
		}
		return x[0], x[1], x[2]
	}
	val := func(st *State, v Val) Val {
		if v.K == VPtr {
			if c, ok := st.cells[v.S]; ok {
				return c
			}
		}
		return v
	}
	// what is there was gone through completely
	walked := func(st *State, src []string) {
		for _, kv := range strings.Split(st.C, ";") {
			i := strings.Index(kv, "+=")
			if !strings.HasPrefix(kv, "o:") || i < 0 {
				continue
			}
			for _, w := range counterpart[kv[i+2:]+kv[strings.LastIndex(kv[:i], "."):i]] {
				for _, s := range src {
					if s == w {
						st.C = kvSet(st.C, kv[:i+1], "")
					}
				}
			}
		}
	}
	e.Branch = func(_ *Engine, fn *ssa.Function, cond ssa.Value, truth bool, st *State) bool {
		cond, truth = boolParts(cond, truth)
		k, id, field := split(e.Eval(st, cond))
		switch k {
		case "open":
			if truth {
				done(st, id, field)
			}
		case "flag":
			if truth {
				for _, x := range relaxes[field] {
					done(st, id, x)
					if strings.HasSuffix(x, "+") && strings.HasPrefix(kvGet(st.C, "pf"), "an unexpected") && m.elemOfField(field[:strings.Index(field, ".")], strings.TrimSuffix(x, "+")) == kvGet(st.C, "pk") {
						st.C = kvSet(st.C, "pf", "")
					}
				}
			}
		}
		// gas is compared unless the scenario says that gas is not checked
		if !truth && m.gasSwitch(cond, 0) {
			for _, kv := range strings.Split(st.C, ";") {
				if strings.HasPrefix(kv, "o:") && strings.HasSuffix(kv, ".Gas=TransactionResult") {
					st.C = kvSet(st.C, strings.SplitN(kv, "=", 2)[0], "")
				}
			}
		}
		if a := kvGet(st.C, "acc"); a != "" {
			if m.noneNoted(cond, truth) {
				return false // there is one
			}
			if bo, ok := cond.(*ssa.BinOp); ok && isLoop(bo) {
				if c, ok := bo.Y.(*ssa.Call); ok && calleeName(&c.Call) == "builtin.len" && m.isNoted(c.Call.Args[0]) {
					if !truth && a == "1" {
						return false // at least one to take up
					}
					st.C = kvSet(st.C, "acc", "2")
				}
			}
		}
		switch x := cond.(type) {
		case *ssa.Call:
			// the protocol's own storage is not looked at
			if truth && calleeName(&x.Call) == "strings.HasPrefix" {
				if c, ok := x.Call.Args[1].(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) == "ELROND" {
					for _, kv := range strings.Split(st.C, ";") {
						if strings.HasPrefix(kv, "im:") {
							st.C = kvSet(st.C, strings.SplitN(kv, "=", 2)[0], "")
						}
					}
				}
			}
		case *ssa.BinOp:
			if x.Op == token.LSS {
				if lists := m.loopLists(x); len(lists) > 0 {
					for _, l := range lists {
						if kvGet(st.C, "it:"+l) != "" {
							m.report("element:"+l, x.Pos(), "a single part of %s can be passed over in %s without being compared", l, fname(f))
						}
						w := ""
						if truth {
							w = "1"
						}
						st.C = kvSet(st.C, "it:"+l, w)
					}
				}
				if k, id, field := split(val(st, e.Eval(st, x.Y))); k == "len" && !truth && isLoop(x) {
					m.met[m.name(st, id, field, types0)] = true
					done(st, id, field) // each was taken up
				}
				if c, ok := x.Y.(*ssa.Call); ok && !truth && isLoop(x) && calleeName(&c.Call) == "builtin.len" {
					walked(st, m.sources(c.Call.Args[0]))
				}
				return true
			}
			if x.Op != token.EQL && x.Op != token.NEQ {
				return true
			}
			for _, o := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				k, id, field := split(val(st, e.Eval(st, o[0])))
				if k != "len" || !m.countsCounterpart(m.name(st, id, field, types0), o[1]) {
					continue
				}
				m.met[m.name(st, id, field, types0)] = true
				done(st, id, field)
				done(st, id, field+"+")
				if (x.Op == token.EQL) != truth && kvGet(st.C, "pf") == "" {
					st.C = kvSet(st.C, "pf", "a difference")
				}
			}
			for _, o := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if k, id, field := split(val(st, e.Eval(st, o[0]))); k == "val" {
					m.met[m.name(st, id, field, types0)] = true
					m.against(m.name(st, id, field, types0), o[1], in0(x))
					done(st, id, field)
					if (x.Op == token.EQL) != truth && kvGet(st.C, "pf") == "" {
						st.C = kvSet(st.C, "pf", "a difference")
					}
				}
				if c, ok := o[1].(*ssa.Const); !ok || !c.IsNil() {
					continue
				}
				if t, id := m.obj(st, e.Eval(st, o[0])); t != "" {
					if (x.Op == token.EQL) == truth {
						if kvGet(st.C, "nil:"+id) == "no" {
							return false
						}
						st.C = kvSet(closeObj(st.C, id), "nil:"+id, "yes")
						if strings.HasPrefix(id, "m") { // no expectation of something that is there
							st.C = kvSet(kvSet(st.C, "pf", "an unexpected part"), "pk", t)
						}
					} else if kvGet(st.C, "nil:"+id) == "yes" {
						return false
					} else {
						st.C = kvSet(st.C, "nil:"+id, "no")
					}
				} else if _, id, ok := split3(e.Eval(st, o[0]), "found"); ok {
					if (x.Op == token.EQL) == truth {
						st.C = kvSet(kvSet(st.C, "pf", "an unexpected part"), "pk", "CheckAccount")
						_ = id
					}
				}
			}
		case *ssa.Extract:
			if nx, ok := x.Tuple.(*ssa.Next); ok && x.Index == 0 {
				for _, l := range m.loopMaps(nx) {
					k := fmt.Sprint("im:", e.id(l))
					if kvGet(st.C, k) != "" {
						m.report("element:"+fname(f)+":"+l.Type().String(), l.Pos(), "a name can be passed over in %s without looking for what is expected of it", fname(f))
					}
					w := ""
					if truth {
						w = "1"
					}
					st.C = kvSet(st.C, k, w)
				}
				return true
			}
			if l, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 1 && !truth {
				id := fmt.Sprint("m", e.id(l))
				if kvGet(st.C, "opened:"+id) != "" {
					st.C = kvSet(closeObj(st.C, id), "pf", "an unexpected part")
					st.C = kvSet(st.C, "pk", m.expType(elemTypeOfMap(l.X)))
					st.C = kvSet(st.C, "opened:"+id, "")
				} else if !m.holdsExpectations(l.X) {
					if n := typeName(elemTypeOfMap(l.X)); n == "Account" {
						st.C = kvSet(st.C, "pf", "a missing part")
					}
				}
				if m.holdsExpectations(l.X) {
					st.C = kvSet(st.C, fmt.Sprint("free", e.id(l.X)), "1")
				}
			} else if ok && x.Index == 1 && m.holdsExpectations(l.X) && !m.valueUsed(l) {
				// there is one of this name already
				st.C = kvSet(kvSet(st.C, "pf", "an expectation twice"), fmt.Sprint("free", e.id(l.X)), "1")
			}
		case *ssa.Lookup:
			if !truth && !x.CommaOk && m.isSet(x.X) {
				st.C = kvSet(st.C, "pf", "a difference between two sets")
				m.met["set:"+m.setOf(x.X)] = true
			}
		}
		return true
	}
	isFree := func(st *State, mp ssa.Value) bool { return kvGet(st.C, fmt.Sprint("free", e.id(mp))) != "" }
	e.Instr = func(_ *Engine, fn *ssa.Function, in ssa.Instruction, st *State) {
		switch x := in.(type) {
		case *ssa.Range:
			walked(st, m.sources(x.X))
		case *ssa.Lookup:
			st.C = kvSet(st.C, fmt.Sprint("im:", e.id(x)), "")
		case *ssa.Alloc:
			if t := m.expType(x.Type()); t != "" && kvGet(st.C, "pf") == "an unexpected part" {
				where[fmt.Sprint("a", e.id(x))] = x.Pos()
				st.C = kvSet(st.C, "new", fmt.Sprint(e.id(x)))
			}
		case *ssa.MapUpdate:
			k, id, field := split(val(st, e.raw(st, x.Value)))
			kk, kid, kfield := split(val(st, e.raw(st, x.Key)))
			if kk == "val" {
				m.names[m.name(st, kid, kfield, types0)] = true
				m.met[m.name(st, kid, kfield, types0)] = true
				done(st, kid, kfield)
			}
			moved := false
			switch k {
			case "chk":
				done(st, id, field)
				moved = true
			case "o":
				_ = field
				if t, oid := m.obj(st, e.raw(st, x.Value)); t != "" {
					st.C = closeObj(st.C, oid)
					moved = true
				}
			}
			if moved {
				m.mapped[m.origin(x.Map)] = x.Pos()
				if !isFree(st, x.Map) {
					m.report("twice:"+fname(f)+":"+typeName(x.Value.Type()), x.Pos(), "in %s the first of two expectations of the same name is forgotten", fname(f))
				}
				st.C = kvSet(st.C, fmt.Sprint("free", e.id(x.Map)), "")
			}
		case *ssa.BinOp:
			if x.Op == token.ADD && x.Type().String() == "string" {
				if w := kvGet(st.C, "pf"); w != "" {
					m.acc[x] = w
					st.C = kvSet(kvSet(st.C, "pf", ""), "acc", "1")
				}
			}
		}
	}
	e.Event = func(c *CallCtx) ([]Outcome, bool) {
		st := c.St
		n := c.Com.Signature().Results().Len()
		name := methodName(c.Com)
		if nonNilMakers[c.Name] {
			return []Outcome{{C: st.C, Res: []Val{{K: VNonNil}}}}, true
		}
		switch c.Name {
		case "builtin.append":
			if isErrorType(elemOf2(c.Com.Args[0].Type())) {
				list := []Val{vtag("errors")} // which errors they are does not matter
				if w := kvGet(st.C, "pf"); w != "" {
					m.acc[c.Instr] = w
					return []Outcome{{C: kvSet(kvSet(st.C, "pf", ""), "acc", "1"), Res: list}}, true
				}
				return []Outcome{{C: st.C, Res: list}}, true
			}
			return nil, false
		case "builtin.len":
			if k, id, field := split(val(st, c.Args[0])); k == "list" {
				return []Outcome{{C: st.C, Res: []Val{vtag("len|" + id + "|" + field)}}}, true
			}
			return nil, false
		}
		if len(c.Com.Args) > 0 && c.Com.StaticCallee() != nil && isCheckType(c.Com.Args[0].Type()) && recvName(c.Com.StaticCallee()) != "" {
			k, id, field := split(val(st, c.Args[0]))
			if k == "star" && (name == "Check" || name == "CheckBool") {
				return []Outcome{{C: st.C, Res: []Val{vbool(true)}}}, true
			}
			if k == "o" {
				_, id = m.obj(st, c.Args[0])
				field = "*"
			}
			switch {
			case name == "Check" || name == "CheckBool":
				if k != "" {
					what := m.name(st, id, field, types0)
					m.met[what] = true
					m.against(what, c.Com.Args[len(c.Com.Args)-1], c.Instr)
				}
				s := st.clone()
				if k != "" {
					done(s, id, field)
				}
				if kvGet(s.C, "pf") == "an unexpected part" {
					s.C = kvSet(s.C, "pf", "")
				}
				bad := s.C
				if kvGet(bad, "pf") == "" {
					bad = kvSet(bad, "pf", "a difference")
				}
				return []Outcome{{C: s.C, Res: []Val{vbool(true)}}, {C: bad, Res: []Val{vbool(false)}}}, true
			case name == "IsUnspecified" && k != "":
				s := st.clone()
				done(s, id, field)
				return []Outcome{{C: s.C, Res: []Val{vbool(true)}}, {C: st.C, Res: []Val{vbool(false)}}}, true
			}
			return nil, false
		}
		// the library's comparisons of an expected value
		if n == 1 && c.Com.Signature().Results().At(0).Type().String() == "bool" {
			for i, a := range c.Com.Args {
				if k, id, field := split(val(st, e.raw(st, a))); k == "val" {
					s := st.clone()
					done(s, id, field)
					m.met[m.name(st, id, field, types0)] = true
					m.against(m.name(st, id, field, types0), c.Com.Args[len(c.Com.Args)-1-i], c.Instr)
					bad := s.C
					if kvGet(bad, "pf") == "" {
						bad = kvSet(bad, "pf", "a difference")
					}
					return []Outcome{{C: s.C, Res: []Val{vbool(true)}}, {C: bad, Res: []Val{vbool(false)}}}, true
				}
			}
		}
		g := c.Com.StaticCallee()
		if g == nil {
			return nil, false
		}
		// an expectation that anything meets
		if n == 1 && len(c.Com.Args) == 0 && pkgRel(g) == mjModel && isCheckType(c.Com.Signature().Results().At(0).Type()) && makesStar(g) {
			return []Outcome{{C: st.C, Res: []Val{vtag("star|x|y")}}}, true
		}
		// looking for the expectation of something that is there
		if n == 1 && m.expType(c.Com.Signature().Results().At(0).Type()) != "" && pkgRel(g) == mjModel {
			return []Outcome{{C: st.C, Res: []Val{vtag("found|x|y")}}}, true
		}
		if pkgRel(g) != mjExec || !hasExp(g) || g == f {
			return nil, false
		}
		s := st.clone()
		any := false
		for i, a := range c.Args {
			if i >= len(g.Params) || m.expType(g.Params[i].Type()) == "" {
				continue
			}
			any = true
			if a.K == VPtr && kvGet(s.C, "pf") == "an unexpected part" {
				s.C = kvSet(s.C, "pf", "") // compared with an expectation of nothing
			}
			t, id := m.obj(st, a)
			if t == "" || m.sum[g] == nil {
				continue
			}
			for _, fl := range m.fields[t] {
				if strings.Contains(m.sum[g][i], ","+fl.name+",") {
					done(s, id, fl.name)
				}
			}
		}
		if !any {
			return nil, false
		}
		res := make([]Val, n)
		if n == 0 {
			return []Outcome{{C: s.C}}, true
		}
		last := c.Com.Signature().Results().At(n - 1).Type()
		if isErrorType(last) || last.String() == "bool" {
			okRes, badRes := make([]Val, n), make([]Val, n)
			if isErrorType(last) {
				okRes[n-1], badRes[n-1] = Val{K: VNil}, Val{K: VNonNil}
			} else {
				okRes[n-1], badRes[n-1] = vbool(true), vbool(false)
			}
			bad := s.C
			if kvGet(bad, "pf") == "" {
				bad = kvSet(bad, "pf", "a difference")
			}
			return []Outcome{{C: s.C, Res: okRes}, {C: bad, Res: badRes}}, true
		}
		if el := elemTy(last); el != nil && isErrorType(el) || last.String() == "string" {
			m.acc[c.Instr] = "a difference"
			if last.String() != "string" {
				res[n-1] = vtag("errors")
			}
			return []Outcome{{C: s.C, Res: res}, {C: kvSet(s.C, "acc", "1"), Res: res}}, true
		}
		return []Outcome{{C: s.C, Res: res}}, true
	}
	// lookups of expectations
	e.Lookup = func(st *State, x *ssa.Lookup) (Val, bool) {
		if !m.holdsExpectations(x.X) {
			return Val{}, false
		}
		// asking only whether there is one
		if x.CommaOk && !m.valueUsed(x) {
			return Val{}, false
		}
		m.met["map:"+m.originName(x.X)] = true
		t := elemTypeOfMap(x.X)
		id := fmt.Sprint("m", e.id(x))
		if n := m.expType(t); n != "" {
			v := open(st, n, id, x.Pos())
			for _, fl := range m.fields[n] {
				if m.names[n+"."+fl.name] {
					done(st, id, fl.name)
				}
			}
			return v, true
		}
		if isCheckType(t) {
			m.noted[id] = m.kindInMap(x.X)
			return open(st, deref(t).(*types.Named).Obj().Name(), id, x.Pos()), true
		}
		return Val{}, false
	}
	left := map[string]map[string]bool{}
	direct, nested := map[string]bool{}, map[string]bool{} // the expectation itself, or only parts of it
	for id := range types0 {
		left[id] = map[string]bool{}
	}
	gives := false // hands on what it has noted
	for i := 0; i < f.Signature.Results().Len(); i++ {
		t := f.Signature.Results().At(i).Type()
		if el := elemTy(t); el != nil && isErrorType(el) || t.String() == "string" {
			gives = true
		}
	}
	for _, x := range e.Run(f, c0) {
		if x.Panic || failsWith(f, x.Res) == 1 {
			continue
		}
		if kvGet(x.C, "acc") != "" && !gives {
			m.report("unreported:"+fname(f), f.Pos(), "%s notes a difference, but can report success", fname(f))
		}
		if w := kvGet(x.C, "pf"); w != "" {
			m.report("unreported:"+fname(f)+":"+strings.ReplaceAll(w, " ", "_"), f.Pos(), "%s finds %s, but can report success", fname(f), w)
		}
		for _, kv := range strings.Split(x.C, ";") {
			if !strings.HasPrefix(kv, "o:") {
				continue
			}
			y := strings.SplitN(kv[2:], "=", 2)
			i := strings.LastIndex(y[0], ".")
			id, field := y[0][:i], y[0][i+1:]
			root := strings.SplitN(y[0], ".", 3)
			if left[root[0]] != nil {
				if len(root) == 2 {
					left[root[0]][field] = true
					direct[root[0]+"."+field] = true
				} else {
					left[root[0]][root[1]] = true
					nested[root[0]+"."+root[1]] = true
					if m.outermost(f) {
						m.report("unchecked:"+y[1]+"."+field, f.Pos(), "there is a path on which %s is not compared with anything, and no error is reported (in %s)", m.what(y[1]+"."+field), fname(f))
					}
				}
				continue
			}
			m.report("unchecked:"+y[1]+"."+field, where[id], "there is a path on which %s is not compared with anything, and no error is reported (in %s)", m.what(y[1]+"."+field), fname(f))
		}
	}
	if len(e.Overflow) > 0 {
		m.report("undecided:"+fname(f), f.Pos(), "the analysis of %s did not end: %s", fname(f), e.Overflow[0])
	}
	m.r.Counts["abstract_steps"] += e.Steps
	m.r.saw(fname(f))
	changed := false
	if len(types0) > 0 {
		s := make([]string, len(f.Params))
		for id, t := range types0 {
			var i int
			fmt.Sscanf(id, "p%d", &i)
			s[i] = ","
			for _, fl := range m.fields[t] {
				if !left[id][fl.name] {
					s[i] += fl.name + ","
				} else if m.outermost(f) && (direct[id+"."+fl.name] || !nested[id+"."+fl.name]) {
					m.report("unchecked:"+t+"."+fl.name, f.Pos(), "there is a path on which %s is not compared with anything, and no error is reported (in %s)", m.what(t+"."+fl.name), fname(f))
				}
			}
		}
		if strings.Join(m.sum[f], "|") != strings.Join(s, "|") {
			m.sum[f] = s
			changed = true
		}
	}
	return changed
}

// isLoop: a comparison of a running index with the end.
func isLoop(x *ssa.BinOp) bool {
	isIdx := func(v ssa.Value) bool {
		if _, ok := v.(*ssa.Phi); ok {
			return true
		}
		if bo, ok := v.(*ssa.BinOp); ok && bo.Op == token.ADD {
			_, ok := bo.X.(*ssa.Phi)
			return ok
		}
		return false
	}
	return x.Op == token.LSS && isIdx(x.X)
}

// loopLists: the lists of expectations whose elements a loop takes up, by the index it compares.
func (m *m02) loopLists(x *ssa.BinOp) []string {
	if !isLoop(x) {
		return nil
	}
	var out []string
	seen := map[string]bool{}
	for _, ref := range *x.X.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok || ia.Index != x.X {
			continue
		}
		et := deref(ia.Type())
		if m.expType(et) == "" && !(isCheckType(et) && m.compares(x.Parent())) {
			continue
		}
		if l := m.listOf(ia.X); l != "" && !seen[l] {
			seen[l] = true
			out = append(out, l)
		}
	}
	return out
}

// loopMaps: the lookups of expectations by the name a loop is at.
func (m *m02) loopMaps(nx *ssa.Next) []*ssa.Lookup {
	var out []*ssa.Lookup
	for _, ref := range *nx.Referrers() {
		ex, ok := ref.(*ssa.Extract)
		if !ok || ex.Index != 1 {
			continue
		}
		for _, r2 := range *ex.Referrers() {
			if l, ok := r2.(*ssa.Lookup); ok && l.Index == ssa.Value(ex) && (m.isSet(l.X) || m.holdsExpectations(l.X)) {
				out = append(out, l)
			}
		}
	}
	return out
}

// noneNoted: the branch on which nothing was noted in a list of errors or a text.
func (m *m02) noneNoted(cond ssa.Value, truth bool) bool {
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	v := bo.X
	c, ok := bo.Y.(*ssa.Const)
	if !ok {
		return false
	}
	if call, ok := v.(*ssa.Call); ok && calleeName(&call.Call) == "builtin.len" {
		v = call.Call.Args[0]
		if c.Value == nil || c.Value.Kind() != constant.Int || c.Int64() > 1 {
			return false
		}
		empty := false // is the branch taken with nothing?
		n := c.Int64()
		switch bo.Op {
		case token.GTR:
			empty = 0 > n
		case token.EQL:
			empty = n == 0
		case token.NEQ:
			empty = n != 0
		case token.GEQ:
			empty = 0 >= n
		case token.LSS:
			empty = 0 < n
		case token.LEQ:
			empty = 0 <= n
		default:
			return false
		}
		if empty != truth {
			return false
		}
	} else {
		nothing := c.IsNil() || c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) == ""
		if !nothing || bo.Op != token.EQL && bo.Op != token.NEQ || (bo.Op == token.EQL) != truth {
			return false
		}
	}
	return m.isNoted(v)
}

// isNoted: a list or a text that differences are noted in.
func (m *m02) isNoted(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var from func(v ssa.Value) bool
	from = func(v ssa.Value) bool {
		if v == nil || seen[v] || len(seen) > 200 {
			return false
		}
		seen[v] = true
		in, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}
		if m.acc[in] != "" {
			return true
		}
		switch x := v.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.Slice, *ssa.Convert, *ssa.ChangeType:
		case *ssa.Alloc:
			for _, ref := range *x.Referrers() {
				ia, ok := ref.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				for _, r2 := range *ia.Referrers() {
					if s, ok := r2.(*ssa.Store); ok && from(s.Val) {
						return true
					}
				}
			}
			return false
		case *ssa.Call:
			for _, a := range x.Call.Args {
				if from(a) {
					return true
				}
			}
			return false
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
				for _, ref := range *al.Referrers() {
					if s, ok := ref.(*ssa.Store); ok && s.Addr == ssa.Value(al) && from(s.Val) {
						return true
					}
				}
			}
			if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
				return from(ia.X)
			}
			return false
		default:
			return false
		}
		for _, op := range in.Operands(nil) {
			if op != nil && from(*op) {
				return true
			}
		}
		return false
	}
	return from(v)
}

// countsCounterpart: the number of what an expectation is about.
func (m *m02) countsCounterpart(what string, v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok || calleeName(&c.Call) != "builtin.len" {
		return false
	}
	want := counterpart[what]
	if want == nil {
		return true
	}
	for _, s := range m.sources(c.Call.Args[0]) {
		for _, w := range want {
			if s == w {
				return true
			}
		}
	}
	return false
}

// valueUsed: a lookup does not only ask whether there is something.
func (m *m02) valueUsed(x *ssa.Lookup) bool {
	for _, ref := range *x.Referrers() {
		if ex, ok := ref.(*ssa.Extract); ok && ex.Index == 0 && len(*ex.Referrers()) > 0 {
			return true
		}
	}
	return false
}

// compares: a function that compares an expected value of a list, rather than showing it.
func (m *m02) compares(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case ssa.CallInstruction:
				com := x.Common()
				if len(com.Args) == 0 || !isCheckType(com.Args[0].Type()) || com.StaticCallee() == nil {
					continue
				}
				if n := methodName(com); n == "Check" || n == "CheckBool" {
					return true
				}
			case *ssa.FieldAddr:
				if isCheckType(x.X.Type()) && fieldName(x.X.Type(), x.Field) == "Value" {
					return true
				}
			}
		}
	}
	return false
}

// elemOfField names the structures in a list of expectations; "" for key-value pairs, whose values are kept alone.
func (m *m02) elemOfField(strct, name string) string {
	for _, f := range m.fields[strct] {
		if f.name == name && elemTy(f.t) != nil {
			n := m.expType(elemTy(f.t))
			for _, g := range m.fields[n] {
				if n+"."+g.name == "CheckStorageKeyValuePair.CheckValue" {
					return ""
				}
			}
			return n
		}
	}
	return ""
}

// makesStar: a function that makes an expectation that anything meets.
func makesStar(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "IsStar" {
					if c, ok := s.Val.(*ssa.Const); ok && c.Value != nil && c.Value.String() == "true" {
						return true
					}
				}
			}
		}
	}
	return false
}

func split3(v Val, kind string) (string, string, bool) {
	if v.K != VTag || !strings.HasPrefix(v.T, kind+"|") {
		return "", "", false
	}
	return kind, "", true
}

func elemOf2(t types.Type) types.Type {
	if e := elemTy(t); e != nil {
		return e
	}
	return t
}

func elemTypeOfMap(v ssa.Value) types.Type {
	if mt, ok := v.Type().Underlying().(*types.Map); ok {
		return mt.Elem()
	}
	return types.Typ[types.Invalid]
}

func (m *m02) what(x string) string {
	if strings.HasSuffix(x, ".*") {
		return "an expected value (" + strings.TrimSuffix(x, ".*") + ")"
	}
	if strings.HasSuffix(x, "+") {
		return "what is there beyond " + strings.TrimSuffix(x, "+")
	}
	return "the expectation " + x
}

// name of an expectation of an object of this run.
func (m *m02) name(st *State, id, field string, types0 map[string]string) string {
	if field == "*" {
		return m.noted[id]
	}
	if t := types0[id]; t != "" {
		return t + "." + field
	}
	if t := kvGet(st.C, "o:"+id+"."+field); t != "" {
		return t + "." + field
	}
	// already done on this path: any structure that has the field and is open
	for t, fs := range m.fields {
		for _, f := range fs {
			if f.name == field && kvGet(st.C, "o:"+id+"."+f.name) != "" {
				return t + "." + field
			}
		}
	}
	return ""
}

func (m *m02) outermost(f *ssa.Function) bool {
	if f.Object() != nil && f.Object().Exported() {
		return true
	}
	for _, g := range m.p.Funcs {
		if pkgRel(g) == mjExec && g != f {
			for _, h := range callees(g) {
				if h == f {
					return false
				}
			}
		}
	}
	return true
}

// listOf names the field a list was taken from.
func (m *m02) listOf(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			if mf, ok := fieldOfModel(fa); ok {
				return mf.strct + "." + mf.name
			}
		}
	}
	if prm, ok := v.(*ssa.Parameter); ok {
		for _, a := range m.argsFor(prm) {
			if s := m.listOf(a); s != "" {
				return s
			}
		}
	}
	return ""
}

// argsFor: what callers give for a parameter.
func (m *m02) argsFor(prm *ssa.Parameter) []ssa.Value {
	var out []ssa.Value
	f := prm.Parent()
	idx := -1
	for i, q := range f.Params {
		if q == prm {
			idx = i
		}
	}
	for _, g := range m.p.Funcs {
		if pkgRel(g) != mjExec {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f && idx < len(ci.Common().Args) {
					out = append(out, ci.Common().Args[idx])
				}
			}
		}
	}
	return out
}

// origin follows a map to where it is made.
func (m *m02) origin(v ssa.Value) ssa.Value {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.Extract:
			v = x.Tuple
			continue
		case *ssa.Parameter:
			if as := m.argsFor(x); len(as) > 0 {
				v = as[0]
				continue
			}
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil && pkgRel(g) == mjExec && g.Blocks != nil {
				for _, b := range g.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, res := range ret.Results {
							if mk, ok := res.(*ssa.MakeMap); ok {
								return mk
							}
						}
					}
				}
			}
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
				for _, ref := range *al.Referrers() {
					if s, ok := ref.(*ssa.Store); ok && s.Addr == al {
						v = s.Val
					}
				}
				if v != ssa.Value(x) {
					continue
				}
			}
		}
		break
	}
	return v
}

func (m *m02) originName(v ssa.Value) string {
	o := m.origin(v)
	if o.Parent() == nil {
		return o.Name()
	}
	return fname(o.Parent()) + ":" + o.Name()
}

// holdsExpectations: a map from names to expectations.
func (m *m02) holdsExpectations(v ssa.Value) bool {
	t := elemTypeOfMap(v)
	return m.expType(t) != "" || isCheckType(t)
}

// kindInMap: which expectation a map of values holds.
func (m *m02) kindInMap(v ssa.Value) string {
	o := m.origin(v)
	for _, g := range m.p.Funcs {
		if pkgRel(g) != mjExec {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok && m.origin(mu.Map) == o {
					if u, ok := mu.Value.(*ssa.UnOp); ok {
						if fa, ok := u.X.(*ssa.FieldAddr); ok {
							if mf, ok := fieldOfModel(fa); ok {
								return mf.strct + "." + mf.name
							}
						}
					}
				}
			}
		}
	}
	return ""
}

// isSet: a set of texts.
func (m *m02) isSet(v ssa.Value) bool {
	mt, ok := v.Type().Underlying().(*types.Map)
	return ok && mt.Key().String() == "string" && mt.Elem().String() == "bool"
}

// setOf names what a set of texts is made from.
func (m *m02) setOf(v ssa.Value) string {
	o := m.origin(v)
	var out []string
	for _, g := range m.p.Funcs {
		if pkgRel(g) != mjExec {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok && m.origin(mu.Map) == o {
					out = append(out, m.sources(mu.Key)...)
				}
			}
		}
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

// sources: the fields and calls a value is made from.
func (m *m02) sources(v ssa.Value) []string {
	seen := map[ssa.Value]bool{}
	var out []string
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		if v == nil || seen[v] || d > 30 {
			return
		}
		seen[v] = true
		add := func(t types.Type, i int) { out = append(out, typeName(t)+"."+fieldName(t, i)) }
		switch x := v.(type) {
		case *ssa.FieldAddr:
			add(x.X.Type(), x.Field)
			return
		case *ssa.Field:
			add(x.X.Type(), x.Field)
			return
		case *ssa.Call:
			out = append(out, methodName(&x.Call)+"()")
			for _, a := range x.Call.Args {
				walk(a, d+1)
			}
			return
		case *ssa.Parameter:
			for _, a := range m.argsFor(x) {
				walk(a, d+1)
			}
			return
		case *ssa.Alloc:
			for _, ref := range *x.Referrers() {
				if s, ok := ref.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
					walk(s.Val, d+1)
				}
			}
			return
		case *ssa.Lookup:
			walk(x.X, d+1)
			return
		case *ssa.Next:
			walk(x.Iter, d+1)
			return
		case *ssa.IndexAddr:
			walk(x.X, d+1)
			return
		case *ssa.Index:
			walk(x.X, d+1)
			return
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, op := range in.Operands(nil) {
				if op != nil && *op != nil {
					walk(*op, d+1)
				}
			}
		}
	}
	walk(v, 0)
	return out
}

// against: a comparison uses what the expectation is about.
func (m *m02) against(what string, arg ssa.Value, in ssa.Instruction) {
	want := counterpart[what]
	if want == nil {
		return
	}
	src := m.sources(arg)
	for _, s := range src {
		for _, w := range want {
			if s == w {
				return
			}
		}
	}
	m.report("other:"+what, in.Pos(), "%s is compared with something else than %s", what, strings.Join(want, " or "))
}

// gasSwitch: the setting of the scenario that gas is not checked.
func (m *m02) gasSwitch(v ssa.Value, d int) bool {
	if d > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return strings.EqualFold(fieldName(fa.X.Type(), fa.Field), "checkGas")
		}
	case *ssa.Parameter:
		if x.Type().String() != "bool" {
			return false
		}
		as := m.argsFor(x)
		for _, a := range as {
			if !m.gasSwitch(a, d+1) {
				return false
			}
		}
		return len(as) > 0
	}
	return false
}

func in0(v ssa.Instruction) ssa.Instruction { return v }

// collections: lists and maps of expectations, and of what is there.
func (m *m02) collections(fns []*ssa.Function) {
	p, r := m.p, m.r
	in := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if in[f] || pkgRel(f) != mjExec {
			return
		}
		in[f] = true
		for _, g := range callees(f) {
			visit(g)
		}
	}
	for _, f := range fns {
		for _, prm := range f.Params {
			t := m.expType(prm.Type())
			for _, mf := range m.fields[t] {
				if strings.HasSuffix(mf.name, "+") {
					visit(f)
				}
			}
		}
	}
	fns = nil
	for f := range in {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fname(fns[i]) < fname(fns[j]) })
	walked := map[string]bool{} // collections of the world that are walked through or counted
	ranged := map[ssa.Value]bool{}
	keyed := map[ssa.Value][]ssa.Value{}
	setsFrom := map[string]bool{}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Range:
					ranged[m.origin(x.X)] = true
					for _, s := range m.sources(x.X) {
						walked[s] = true
					}
				case *ssa.BinOp: // gone through to the end, or as many as expected
					if !isLoop(x) && x.Op != token.EQL && x.Op != token.NEQ {
						continue
					}
					for _, o := range []ssa.Value{x.X, x.Y} {
						c, ok := o.(*ssa.Call)
						if !ok || calleeName(&c.Call) != "builtin.len" {
							continue
						}
						if other, ok := x.X.(*ssa.Call); !isLoop(x) && (!ok || calleeName(&other.Call) != "builtin.len") {
							continue
						}
						for _, s := range m.sources(c.Call.Args[0]) {
							walked[s] = true
						}
					}
				case *ssa.MapUpdate:
					for _, i2 := range b.Instrs {
						if y, ok := i2.(*ssa.MapUpdate); ok && y != x && y.Key == x.Key {
							keyed[m.origin(x.Map)] = append(keyed[m.origin(x.Map)], m.origin(y.Map))
						}
					}
					if m.isSet(x.Map) {
						for _, s := range m.sources(x.Key) {
							setsFrom[s] = true
						}
					}
				}
			}
		}
	}
	// the same key added to the map of all keys in a neighbouring block
	covers := func(o ssa.Value) bool {
		if ranged[o] {
			return true
		}
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					x, ok := in.(*ssa.MapUpdate)
					if !ok || m.origin(x.Map) != o {
						continue
					}
					for _, b2 := range f.Blocks {
						for _, i2 := range b2.Instrs {
							if y, ok := i2.(*ssa.MapUpdate); ok && y.Key == x.Key && ranged[m.origin(y.Map)] && (b2 == b || b2.Dominates(b)) {
								return true
							}
						}
					}
				}
			}
		}
		return false
	}
	var cs []string
	for c := range counterpart {
		cs = append(cs, c)
	}
	sort.Strings(cs)
	for _, c := range cs {
		i := strings.Index(c, ".")
		var fld *mfield
		for j, f := range m.fields[c[:i]] {
			if f.name == c[i+1:] {
				fld = &m.fields[c[:i]][j]
			}
		}
		if fld == nil || elemTy(fld.t) == nil {
			continue
		}
		el := elemTy(fld.t)
		ok := false
		for _, w := range counterpart[c] {
			if walked[w] {
				ok = true
			}
		}
		if !ok {
			r.violate("unexpected:"+c, "-", "what is there beyond %s is not noticed: nothing walks through or counts %s", c, strings.Join(counterpart[c], " or "))
		} else {
			r.ok("collections in the world and in results that are walked through or counted")
		}
		switch {
		case m.expType(el) != "" || isCheckType(el):
			if !m.opened[c] {
				r.violate("elements:"+c, "-", "the single parts of %s are never compared", c)
			} else {
				r.ok("lists of expectations whose parts are compared")
			}
		default: // texts
			if setsFrom[c] {
				got := map[string]bool{}
				for k := range m.met {
					if strings.HasPrefix(k, "set:") {
						for _, s := range strings.Split(k[4:], ",") {
							got[s] = true
						}
					}
				}
				for _, s := range append([]string{c}, counterpart[c]...) {
					if !got[s] {
						r.violate("elements:"+c+":"+s, "-", "a difference between %s and %s does not show: what is not in %s is not noticed", c, strings.Join(counterpart[c], " or "), s)
					}
				}
			}
			if !m.met[c] && !walked[c] {
				r.violate("elements:"+c, "-", "the single parts of %s are never compared", c)
			}
		}
	}
	for o, pos := range m.mapped {
		if !m.met["map:"+m.originName(o)] {
			r.violate("stored:"+m.originName(o), p.pos(pos), "expectations are kept in a map that is never looked into")
			continue
		}
		if !covers(o) {
			r.violate("stored:"+m.originName(o), p.pos(pos), "expectations are kept in a map, but not every one of them is taken out again")
			continue
		}
		r.ok("maps of expectations that are looked through completely")
	}
}

// accumulate: what notes a difference reaches an error.
func (m *m02) accumulate() {
	p, r := m.p, m.r
	var list []ssa.Instruction
	for in := range m.acc {
		list = append(list, in)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].Pos() < list[j].Pos() })
	for _, in := range list {
		v, ok := in.(ssa.Value)
		if !ok {
			continue
		}
		if m.becomesError(v) {
			r.ok("differences that are collected and reported")
		} else {
			r.violate("collected:"+fname(in.Parent())+":"+p.pos(in.Pos()), p.pos(in.Pos()), "%s collects differences, but nothing turns them into an error", fname(in.Parent()))
		}
	}
}

func (m *m02) becomesError(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	work := []ssa.Value{v}
	push := func(x ssa.Value) {
		if x != nil && !seen[x] {
			seen[x] = true
			work = append(work, x)
		}
	}
	bad := func(b *ssa.BasicBlock) bool { // fails at once
		for i := 0; i < 4 && b != nil; i++ {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if len(ret.Results) == 0 {
					return false
				}
				last := ret.Results[len(ret.Results)-1]
				c, isC := last.(*ssa.Const)
				return isErrorType(last.Type()) && !(isC && c.IsNil())
			}
			if len(b.Succs) != 1 {
				return false
			}
			b = b.Succs[0]
		}
		return false
	}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x.Referrers() == nil {
			continue
		}
		for _, ref := range *x.Referrers() {
			switch y := ref.(type) {
			case *ssa.Return:
				f := y.Parent()
				for i, res := range y.Results {
					if res != x {
						continue
					}
					if isErrorType(res.Type()) {
						return true
					}
					for _, g := range m.p.Funcs {
						if pkgRel(g) != mjExec {
							continue
						}
						for _, b := range g.Blocks {
							for _, in := range b.Instrs {
								if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() == f {
									if len(y.Results) == 1 {
										push(c)
									} else {
										for _, r2 := range *c.Referrers() {
											if ex, ok := r2.(*ssa.Extract); ok && ex.Index == i {
												push(ex)
											}
										}
									}
								}
							}
						}
					}
				}
			case *ssa.Store:
				if y.Val == x {
					if al, ok := y.Addr.(*ssa.Alloc); ok {
						for _, r2 := range *al.Referrers() {
							if u, ok := r2.(*ssa.UnOp); ok {
								push(u)
							}
						}
					}
					if ia, ok := y.Addr.(*ssa.IndexAddr); ok {
						push(ia.X)
					}
				}
			case *ssa.BinOp:
				if y.Op == token.ADD {
					push(y)
					continue
				}
				for _, r2 := range *y.Referrers() {
					if i, ok := r2.(*ssa.If); ok {
						if bad(i.Block().Succs[0]) || bad(i.Block().Succs[1]) {
							return true
						}
					}
				}
			case *ssa.Call:
				if g := y.Call.StaticCallee(); g != nil && g.Blocks != nil && pkgRel(g) == mjExec {
					for i, a := range y.Call.Args {
						if a == x && i < len(g.Params) {
							push(g.Params[i])
						}
					}
					continue
				}
				push(y)
			case ssa.Value:
				push(y)
			}
		}
	}
	return false
}

// checkMethods: a comparison accepts equality, or anything if the author wrote a star.
func (m *m02) checkMethods() {
	p, r := m.p, m.r
	n := 0
	for _, f := range p.Funcs {
		if pkgRel(f) != mjModel || f.Signature.Recv() == nil || !isCheckType(f.Signature.Recv().Type()) {
			continue
		}
		if f.Name() != "Check" && f.Name() != "CheckBool" || len(f.Params) != 2 || f.Synthetic != "" {
			continue
		}
		n++
		r.saw(fname(f))
		isField := func(v ssa.Value, name string) bool {
			switch x := v.(type) {
			case *ssa.UnOp:
				if fa, ok := x.X.(*ssa.FieldAddr); ok {
					return fieldName(fa.X.Type(), fa.Field) == name
				}
			case *ssa.Field:
				return fieldName(x.X.Type(), x.Field) == name
			}
			return false
		}
		// does a value depend on the expected value and on the other one?
		var uses func(v ssa.Value, d int) (val, other bool)
		uses = func(v ssa.Value, d int) (bool, bool) {
			if v == nil || d > 12 {
				return false, false
			}
			if isField(v, "Value") {
				return true, false
			}
			if v == ssa.Value(f.Params[1]) {
				return false, true
			}
			in, ok := v.(ssa.Instruction)
			if !ok {
				return false, false
			}
			a, b := false, false
			for _, op := range in.Operands(nil) {
				if op != nil && *op != nil {
					x, y := uses(*op, d+1)
					a, b = a || x, b || y
				}
			}
			return a, b
		}
		compares := func(v ssa.Value) bool { // an equality of both
			switch x := v.(type) {
			case *ssa.BinOp:
				if x.Op != token.EQL {
					return false
				}
				a, b := uses(x, 0)
				return a && b
			case *ssa.Call:
				a, b := uses(x, 0)
				nm := calleeName(&x.Call)
				return a && b && (strings.HasSuffix(nm, "Equal") || strings.HasSuffix(nm, "DeepEqual"))
			}
			return false
		}
		starAt := func(b *ssa.BasicBlock) bool { // reached only with a star
			for d := b; d != nil; d = d.Idom() {
				id := d.Idom()
				if id == nil {
					break
				}
				if i, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If); ok && isField(i.Cond, "IsStar") && id.Succs[0] == d && len(d.Preds) == 1 {
					return true
				}
			}
			return false
		}
		equalAt := func(b *ssa.BasicBlock) bool {
			for d := b; d != nil; d = d.Idom() {
				id := d.Idom()
				if id == nil {
					break
				}
				if i, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If); ok && len(d.Preds) == 1 {
					c, truth := boolParts(i.Cond, id.Succs[0] == d)
					if truth && compares(c) {
						return true
					}
					if bo, ok := c.(*ssa.BinOp); ok && !truth && bo.Op == token.NEQ {
						x, y := uses(bo, 0)
						if x && y {
							return true
						}
					}
				}
			}
			return false
		}
		var judge func(v ssa.Value, b *ssa.BasicBlock, d int) bool
		judge = func(v ssa.Value, b *ssa.BasicBlock, d int) bool {
			if d > 8 || starAt(b) || equalAt(b) {
				return d <= 8
			}
			switch x := v.(type) {
			case *ssa.Const:
				return x.Value != nil && x.Value.String() == "false"
			case *ssa.Phi:
				for i, e := range x.Edges {
					pred := x.Block().Preds[i]
					// the edge itself may be the star's
					if iff, ok := pred.Instrs[len(pred.Instrs)-1].(*ssa.If); ok && isField(iff.Cond, "IsStar") && pred.Succs[0] == x.Block() {
						continue
					}
					if iff, ok := pred.Instrs[len(pred.Instrs)-1].(*ssa.If); ok && compares(iff.Cond) && pred.Succs[0] == x.Block() {
						continue
					}
					if !judge(e, pred, d+1) {
						return false
					}
				}
				return true
			}
			return compares(v) || isField(v, "IsStar")
		}
		good := true
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
				if !judge(ret.Results[0], b, 0) {
					good = false
					r.violate("equality:"+fname(f), p.pos(ret.Pos()), "%s can accept a value although it differs from the expected one, which is no star", fname(f))
				}
			}
		}
		if good {
			r.ok("comparisons that accept nothing but equality")
		}
	}
	r.floor("comparisons", n, 3)
}

// steps: every kind of step is executed.
func (m *m02) steps(fns []*ssa.Function) {
	p, r := m.p, m.r
	pk := p.Pkgs[mjModel]
	if pk == nil {
		return
	}
	tn, ok := pk.Types.Scope().Lookup("Step").(*types.TypeName)
	if !ok {
		return
	}
	iface, ok := tn.Type().Underlying().(*types.Interface)
	if !ok {
		return
	}
	var kinds []types.Type
	for _, n := range pk.Types.Scope().Names() {
		if t, ok := pk.Types.Scope().Lookup(n).(*types.TypeName); ok {
			pt := types.NewPointer(t.Type())
			if _, isI := t.Type().Underlying().(*types.Interface); !isI && types.Implements(pt, iface) {
				kinds = append(kinds, pt)
			}
		}
	}
	n := 0
	for _, f := range fns {
		var prm *ssa.Parameter
		for _, q := range f.Params {
			if types.Identical(q.Type(), tn.Type()) {
				prm = q
			}
		}
		if prm == nil || !lastErrorOf(f) {
			continue
		}
		for _, k := range append([]types.Type{nil}, kinds...) {
			e := newEngine(p)
			e.Skip = func(g *ssa.Function) bool { return g != f }
			e.IsRelevantInstr = func(in ssa.Instruction) bool { return true }
			e.Branch = func(_ *Engine, fn *ssa.Function, cond ssa.Value, truth bool, st *State) bool {
				cond, truth = boolParts(cond, truth)
				if ex, ok := cond.(*ssa.Extract); ok && ex.Index == 1 {
					if ta, ok := ex.Tuple.(*ssa.TypeAssert); ok && ta.X == ssa.Value(prm) {
						return truth == (k != nil && types.Identical(ta.AssertedType, k))
					}
				}
				return true
			}
			e.Event = func(c *CallCtx) ([]Outcome, bool) {
				if nonNilMakers[c.Name] {
					return []Outcome{{C: c.St.C, Res: []Val{{K: VNonNil}}}}, true
				}
				if g := c.Com.StaticCallee(); g != nil && pkgRel(g) == mjExec {
					return []Outcome{{C: kvSet(c.St.C, "ran", "1"), Res: make([]Val, c.Com.Signature().Results().Len())}}, true
				}
				return nil, false
			}
			for _, x := range e.Run(f, "") {
				if x.Panic || failsWith(f, x.Res) == 1 || kvGet(x.C, "ran") != "" {
					continue
				}
				if k == nil {
					r.violate("step:unknown", p.pos(f.Pos()), "%s passes over a step of a kind it does not know", fname(f))
				} else {
					r.violate("step:"+typeName(k), p.pos(f.Pos()), "%s passes over a step of the kind %s", fname(f), typeName(k))
				}
			}
			n++
		}
	}
	r.okN("kinds of steps", n)
	r.floor("kinds of steps", n, 4)
}

// settings: a scenario that includes another one keeps its own settings.
func (m *m02) settings() {
	p, r := m.p, m.r
	var top *ssa.Function
	for _, f := range p.Funcs {
		if pkgRel(f) == mjExec && f.Name() == "ExecuteScenario" && recvName(f) != "" && f.Synthetic == "" {
			top = f
		}
	}
	if top == nil {
		r.floor("ExecuteScenario", 0, 1)
		return
	}
	set := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function, d int)
	visit = func(f *ssa.Function, d int) {
		if seen[f] || d > 3 || f.Name() == "ExecuteStep" {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && typeName(fa.X.Type()) == recvName(top) {
						if _, isConst := s.Val.(*ssa.Const); !isConst {
							set[fieldName(fa.X.Type(), fa.Field)] = true
						}
					}
				}
			}
		}
		for _, g := range callees(f) {
			if pkgRel(g) == mjExec {
				visit(g, d+1)
			}
		}
	}
	visit(top, 0)
	n := 0
	for _, f := range p.Funcs {
		if pkgRel(f) != mjExec || f.Parent() != nil || f.Synthetic != "" || recvName(f) != recvName(top) {
			continue
		}
		nested := func(com *ssa.CallCommon) bool {
			g := com.StaticCallee()
			return g != nil && pkgRel(g) == "mandos-go/controller" && lastError(com)
		}
		has := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && nested(ci.Common()) {
					has = true
				}
			}
		}
		if !has {
			continue
		}
		for fld := range set {
			n++
			e := newEngine(p)
			e.Skip = func(g *ssa.Function) bool { return pkgRel(g) != mjExec }
			is := func(v ssa.Value) bool {
				fa, ok := v.(*ssa.FieldAddr)
				return ok && typeName(fa.X.Type()) == recvName(top) && fieldName(fa.X.Type(), fa.Field) == fld
			}
			e.IsRelevantInstr = func(in ssa.Instruction) bool {
				s, ok := in.(*ssa.Store)
				return ok && is(s.Addr)
			}
			e.IsEvent = func(com *ssa.CallCommon, name string) bool { return nested(com) }
			e.Load = func(st *State, x *ssa.UnOp) (Val, bool) {
				if is(x.X) && kvGet(st.C, "dirty") == "" {
					return vtag("own"), true
				}
				return Val{}, false
			}
			e.Event = func(c *CallCtx) ([]Outcome, bool) {
				if nested(c.Com) {
					res := make([]Val, c.Com.Signature().Results().Len())
					res[len(res)-1] = Val{K: VNil}
					return []Outcome{{C: kvSet(c.St.C, "dirty", "1"), Res: res}}, true
				}
				return nil, false
			}
			e.Instr = func(_ *Engine, fn *ssa.Function, in ssa.Instruction, st *State) {
				if s, ok := in.(*ssa.Store); ok && is(s.Addr) {
					if v := e.Eval(st, s.Val); v.K == VTag && v.T == "own" {
						st.C = kvSet(st.C, "dirty", "")
					}
				}
			}
			for _, x := range e.Run(f, "") {
				if !x.Panic && kvGet(x.C, "dirty") != "" {
					r.violate("setting:"+fld, p.pos(f.Pos()), "after %s the rest of the scenario goes on with the %s of the scenario it included", fname(f), fld)
				}
			}
		}
	}
	r.okN("settings that are put back after an included scenario", n)
	r.floor("settings that are put back after an included scenario", n, 1)
}
