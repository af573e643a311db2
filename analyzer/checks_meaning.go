package main

import (
	"embed"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What the functions offered to contracts answer and do, as expressions over their arguments, against a table of
// what each of them means.

//go:embed data/meaning.txt
var meaningData embed.FS

// decision is one way through a function: what was found on the way, what was done, and the answer.
type decision struct {
	conds map[string]bool
	what  string
	// unclear: a question on the way was not understood
	unclear bool
}

type meaning struct {
	*terms
	// loops: the questions asked in loops are of interest too
	loops bool
}

var bigQueries = map[string]bool{"Sign": true, "Cmp": true, "CmpAbs": true, "IsInt64": true, "IsUint64": true, "Int64": true, "Uint64": true, "Bytes": true, "BitLen": true, "String": true, "Text": true, "Bits": true, "Bit": true, "TrailingZeroBits": true}

func isBig(t types.Type) bool {
	return typeName(deref(t)) == "Int" && strings.Contains(t.String(), "math/big")
}

// meters: calls that only look after gas, which other properties are about.
func meters(c *CallCtx, m string) bool {
	if ctx, _ := ctxCall(c.Com); ctx == "metering" {
		return true
	}
	return strings.HasPrefix(m, "UseGas")
}

func newMeaning(p *Prog, inline func(fn *ssa.Function) bool) *meaning {
	// the loops over lists of unknown length are not followed far
	m := &meaning{terms: newTerms(p, termWorld{}, inline)}
	t := m.terms
	t.MaxState = 300
	val := func(st, b string) string {
		if v := kvGet(st, "b:"+b); v != "" {
			return v
		}
		if strings.HasPrefix(b, "&a") {
			return "#0"
		}
		if strings.HasPrefix(b, "H<") && strings.Contains(";"+st, ";b:H<") {
			// another number was written meanwhile, and contracts may name one number twice
			return "overwritten(" + b + ")"
		}
		return "v(" + b + ")"
	}
	bin := t.Engine.BinOp
	t.Engine.BinOp = func(op token.Token, a, b Val) (Val, bool) {
		if v, ok := bin(op, a, b); ok && v != (Val{}) {
			return v, true
		}
		x, y := t.enc(a), t.enc(b)
		if x == "?" || y == "?" {
			return Val{}, false
		}
		if a.K == VNonNil && b.K == VNil || a.K == VNil && b.K == VNonNil || strings.HasPrefix(x, "err:") && b.K == VNil || strings.HasPrefix(y, "err:") && a.K == VNil {
			return vbool(op == token.NEQ), true
		}
		if q, truth, ok := canonical(op, x, y); ok {
			if !truth {
				q = "!" + q
			}
			return vtag("?" + q), true
		}
		return vtag("(" + x + op.String() + y + ")"), true
	}
	t.Engine.Lookup = func(st *State, x *ssa.Lookup) (Val, bool) {
		mp, k := t.enc(t.Engine.Eval(st, x.X)), t.enc(t.Engine.Eval(st, x.Index))
		if mp == "?" || k == "?" {
			return Val{}, false
		}
		if v := kvGet(st.C, "m:"+clean.Replace(mp+"["+k+"]")); v != "" {
			return t.dec(v), true
		}
		return vtag(mp + "[" + k + "]"), true
	}
	t.Engine.LookupOk = func(st *State, x *ssa.Lookup) Val {
		mp, k := t.enc(t.Engine.Eval(st, x.X)), t.enc(t.Engine.Eval(st, x.Index))
		if mp == "?" || k == "?" {
			return Val{}
		}
		if kvGet(st.C, "m:"+clean.Replace(mp+"["+k+"]")) != "" {
			return vbool(true)
		}
		return vtag("?has(" + clean.Replace(mp+","+k) + ")")
	}
	t.Engine.Convert = func(x *ssa.Convert, v Val) Val {
		to, from := intSize(x.Type()), intSize(x.X.Type())
		if c, ok := x.X.(*ssa.Convert); ok && intSize(c.X.Type()) > 0 && intSize(c.X.Type()) < from {
			from = intSize(c.X.Type())
		}
		if v.K == VTag && to > 0 && from > to && v.T != "?" && !strings.HasPrefix(v.T, "?") && !strings.HasPrefix(v.T, "len(") {
			return vtag("cut" + strconv.Itoa(int(8*to)) + "(" + v.T + ")")
		}
		return v
	}
	made := t.Engine.Made
	t.Engine.Made = func(st *State, v ssa.Value) (Val, bool) {
		switch x := v.(type) {
		case *ssa.MakeSlice:
			n := t.enc(t.Engine.Eval(st, x.Len))
			if n == "#0" || n == "?" {
				break
			}
			b := "buf" + strconv.Itoa(t.id(x)) + "."
			st.C = kvSet(st.C, "s:"+b, "zeros("+clean.Replace(n)+")")
			return vtag(b), true
		case *ssa.Slice:
			if al, ok := x.X.(*ssa.Alloc); ok || x.High == nil {
				if a, isA := deref(x.X.Type()).Underlying().(*types.Array); ok && al.Heap && isA && a.Len() == 0 {
					return vtag("[]"), true
				}
				break
			}
			if x.Low != nil && t.enc(t.Engine.Eval(st, x.Low)) != "#0" {
				break
			}
			b, hi := t.enc(t.Engine.Eval(st, x.X)), t.enc(t.Engine.Eval(st, x.High))
			if b != "?" && (hi == "len("+b+")" || kvGet(st.C, "s:"+b) == "zeros("+clean.Replace(hi)+")") {
				return t.dec(b), true
			}
		}
		return made(st, v)
	}
	instr := t.Engine.Instr
	t.Engine.Instr = func(e *Engine, fn *ssa.Function, in ssa.Instruction, st *State) {
		instr(e, fn, in, st)
		if x, ok := in.(*ssa.MapUpdate); ok {
			mp, k := t.enc(e.Eval(st, x.Map)), t.enc(e.Eval(st, x.Key))
			if mp != "?" && k != "?" {
				v := t.enc(e.Eval(st, x.Value))
				if strings.HasPrefix(v, "new") && isBig(x.Value.Type()) {
					v = "number(" + val(st.C, v) + ")"
				}
				st.C = kvSet(st.C, "m:"+clean.Replace(mp+"["+k+"]"), clean.Replace(v))
			}
		}
	}
	t.Engine.Branch = func(e *Engine, fn *ssa.Function, cond ssa.Value, truth bool, n *State) bool {
		for {
			if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
				cond, truth = u.X, !truth
				continue
			}
			break
		}
		if in, ok := cond.(ssa.Instruction); ok && inLoop(in.Block()) && !m.loops {
			return true
		}
		v := e.Eval(n, cond)
		if v.K != VTag || v.T == "?" {
			if v.K == VSym || v.T == "?" {
				n.C = kvSet(n.C, "unclear", "1")
			}
			return true
		}
		q := clean.Replace(strings.TrimPrefix(v.T, "?"))
		if strings.HasPrefix(q, "!") {
			q, truth = q[1:], !truth
		}
		cs := condsOf(n.C)
		cs[q] = truth
		if old, ok := condsOf(n.C)[q]; ok && old != truth || !possible(cs) {
			return false
		}
		n.C = kvSet(n.C, "c:"+q, map[bool]string{true: "T", false: "F"}[truth])
		return true
	}
	t.call = func(c *CallCtx, name string, args []string, st string) ([]Outcome, bool) {
		one := func(v ...Val) ([]Outcome, bool) { return []Outcome{{C: st, Res: v}}, true }
		does := func(what string) string {
			old := kvGet(st, "t")
			if old != "" {
				old += "|"
			}
			return kvSet(st, "t", old+clean.Replace(what))
		}
		if c.Name == "builtin.copy" && len(args) == 2 {
			d, src := args[0], args[1]
			if old := kvGet(st, "s:"+d); old != "" {
				if old == "zeros("+clean.Replace("len("+src+")")+")" {
					return []Outcome{{C: kvSet(st, "s:"+d, clean.Replace(src)), Res: []Val{{}}}}, true
				}
				return []Outcome{{C: kvSet(st, "s:"+d, old+"<-"+clean.Replace(src)), Res: []Val{{}}}}, true
			}
		}
		if c.Name == "builtin.copy" && len(args) == 2 && !strings.HasPrefix(args[0], "buf") && !strings.HasPrefix(args[0], "[") && args[0] != "?" {
			return []Outcome{{C: does("copy(" + args[0] + "," + args[1] + ")"), Res: []Val{{}}}}, true
		}
		if (name == "Length" || name == "Data") && strings.Contains(kvGet(st, "t"), "Grow(") {
			return one(vtag(name + "Grown(" + strings.Join(args, ",") + ")"))
		}
		if f := c.Com.StaticCallee(); f != nil && name == "SubUint64" && pkgRel(f) == "math" {
			// what is missing counts as nothing
			q, truth, ok := canonical(token.LSS, args[0], args[1])
			if !ok || args[0] == "?" || args[1] == "?" {
				return nil, false
			}
			cs := condsOf(st)
			var outs []Outcome
			for _, less := range []bool{true, false} {
				if w, asked := cs[q]; asked && w != (less == truth) {
					continue
				}
				u := condsOf(st)
				u[q] = less == truth
				if !possible(u) {
					continue
				}
				v := vint(0)
				if !less {
					v = t.dec(subOf(args[0], args[1]))
				}
				outs = append(outs, Outcome{C: kvSet(st, "c:"+q, map[bool]string{true: "T", false: "F"}[less == truth]), Res: []Val{v}})
			}
			return outs, true
		}
		if c.Name == "fmt.Errorf" {
			e := "new"
			if i := strings.Index(strings.Join(args, ","), "err:"); i >= 0 {
				e = strings.TrimRight(strings.Join(args, ",")[i+4:], "])")
			}
			return one(vtag("err:" + e))
		}
		if c.Name == "builtin.len" && strings.HasPrefix(args[0], "buf") {
			if b := kvGet(st, "s:"+args[0]); strings.HasPrefix(b, "zeros(") && !strings.Contains(b, "<-") {
				return one(t.dec(b[6 : len(b)-1]))
			} else if b != "" {
				return one(vtag("len(" + b + ")"))
			}
		}
		if name == "GetContexts" || strings.HasPrefix(name, "Get") && strings.HasSuffix(name, "Context") && len(args) <= 1 {
			return nil, false
		}
		if name == "WithFault" || name == "WithFaultAndHost" || name == "WithFaultIfFailAlwaysActive" {
			for _, a := range args {
				if a == "nil" {
					return one(vbool(false))
				}
			}
			return []Outcome{{C: kvSet(st, "fault", "1"), Res: []Val{vbool(true)}}}, true
		}
		switch {
		case name == "Is" && c.Name == "errors.Is" && len(args) == 2:
			if args[0] == "nil" || strings.HasPrefix(args[0], "err:") && strings.HasPrefix(args[1], "err:") && args[0] == args[1] {
				return one(vbool(args[0] != "nil"))
			}
		case strings.HasSuffix(name, "ErrorShouldFailExecution"), name == "Arguments":
			n := name + "()"
			if name != "Arguments" {
				n = "true"
			}
			return one(t.dec(n))
		case name == "MemLoad" || name == "MemLoadMultiple":
			q := clean.Replace(name + "(" + strings.Join(args[1:], ",") + ")")
			k := "c:err(" + q + ")"
			bad := []Val{{K: VNil}, vtag("err:" + name)}
			good := []Val{vtag(q), {K: VNil}}
			switch kvGet(st, k) {
			case "T":
				return one(bad...)
			case "F":
				return one(good...)
			}
			return []Outcome{{C: kvSet(st, k, "F"), Res: good}, {C: kvSet(st, k, "T"), Res: bad}}, true
		}
		if meters(c, name) {
			n := c.Com.Signature().Results().Len()
			if n == 0 || name == "UseGas" || name == "FreeGas" {
				return one()
			}
			if n == 1 && isErrorType(c.Com.Signature().Results().At(0).Type()) {
				return []Outcome{{C: st, Res: []Val{{K: VNil}}}, {C: kvSet(st, "c:nogas", "T"), Res: []Val{vtag("err:nogas")}}}, true
			}
			return one(vtag("gas"))
		}
		if ctx, _ := ctxCall(c.Com); ctx == "bigInt" || c.Com.IsInvoke() && typeName(c.Com.Value.Type()) == "BigIntContext" {
			a := args[1:]
			switch name {
			case "GetOne", "GetTwo", "GetThree":
				var res []Val
				for _, h := range a {
					res = append(res, vtag("H<"+h+">"))
				}
				return one(res...)
			}
		}
		f := c.Com.StaticCallee()
		if f == nil {
			return nil, false
		}
		pk := ""
		if f.Pkg != nil {
			pk = f.Pkg.Pkg.Path()
		}
		switch {
		case pk == "math/big" && f.Name() == "NewInt":
			obj := "new" + strconv.Itoa(t.id(c.Instr.(ssa.Value)))
			return []Outcome{{C: kvSet(st, "b:"+obj, args[0]), Res: []Val{vtag(obj)}}}, true
		case pk == "math/big" && f.Signature.Recv() != nil && isBig(f.Signature.Recv().Type()):
			vs := make([]string, len(args))
			for i, a := range args {
				vs[i] = a
				if isBig(c.Com.Args[i].Type()) {
					vs[i] = val(st, a)
				}
			}
			if bigQueries[f.Name()] {
				zero := f.Name() == "Cmp" && zeroTerm(vs[1])
				if k, err := strconv.ParseInt(strings.TrimPrefix(vs[0], "#"), 10, 64); (f.Name() == "Sign" || zero) && err == nil && strings.HasPrefix(vs[0], "#") {
					switch {
					case k > 0:
						k = 1
					case k < 0:
						k = -1
					}
					return one(vint(k))
				}
				if zero {
					return one(vtag("Sign(" + vs[0] + ")"))
				}
				if f.Name() == "Sign" || f.Name() == "Cmp" {
					return one(vtag(f.Name() + "(" + strings.Join(vs, ",") + ")"))
				}
				q := f.Name() + "(" + strings.Join(vs, ",") + ")"
				if strings.HasPrefix(q, "Is") {
					q = "?" + q
				}
				return one(vtag(q))
			}
			switch f.Name() {
			case "Add", "Mul", "And", "Or", "Xor":
				sort.Strings(vs[1:])
			}
			v := f.Name() + "(" + strings.Join(vs[1:], ",") + ")"
			if f.Name() == "Set" {
				v = vs[1]
			}
			if strings.HasPrefix(f.Name(), "SetInt64") || strings.HasPrefix(f.Name(), "SetUint64") {
				v = f.Name()[3:] + "(" + vs[1] + ")"
			}
			return []Outcome{{C: kvSet(st, "b:"+args[0], v), Res: []Val{vtag(args[0])}}}, true
		case strings.HasSuffix(pk, "twos-complement") || strings.Contains(pk, "twos"):
			switch f.Name() {
			case "ToBytes":
				return one(vtag("Twos(" + val(st, args[0]) + ")"))
			case "SetBytes":
				return []Outcome{{C: kvSet(st, "b:"+args[0], "FromTwos("+args[1]+")"), Res: []Val{vtag(args[0])}}}, true
			}
		case pk == "bytes" && f.Name() == "Equal":
			x, y := args[0], args[1]
			if x == "nil" || x == "[]" {
				x, y = y, x
			}
			if y == "nil" || y == "[]" {
				if x == y || x == "nil" {
					return one(vbool(true))
				}
				y, x = "#0", "len("+x+")"
			}
			q, _, _ := canonical(token.EQL, x, y)
			return one(vtag("?" + q))
		}
		_ = does
		return nil, false
	}
	ev := t.Engine.Event
	t.Engine.Event = func(c *CallCtx) ([]Outcome, bool) {
		// numbers are handed over by what they are
		isCall := false
		for i := range c.Args {
			if j := i - len(c.Args) + len(c.Com.Args); c.Args[i].K == VNil && j >= 0 {
				if _, ok := c.Com.Args[j].Type().Underlying().(*types.Slice); ok {
					if !isCall {
						isCall = true
						d := *c
						d.Args = append([]Val{}, c.Args...)
						c = &d
					}
					c.Args[i] = vtag("[]")
				}
			}
			if c.Args[i].K == VTag && i < len(c.Args) && c.Com.StaticCallee() == nil {
				a := c.Args[i].T
				if strings.HasPrefix(a, "new") || strings.HasPrefix(a, "H<") {
					if !isCall {
						isCall = true
						d := *c
						d.Args = append([]Val{}, c.Args...)
						c = &d
					}
					c.Args[i] = vtag("number(" + val(c.St.C, a) + ")")
				}
			}
		}
		outs, ok := ev(c)
		if !ok {
			return outs, ok
		}
		if !effectful(c) {
			for i := range outs {
				outs[i].C = kvSet(outs[i].C, "t", kvGet(c.St.C, "t"))
			}
		}
		// what answers yes or no is a question; what is given a number by reference shows the number
		n := c.Com.Signature().Results().Len()
		if n > 0 && methodName(c.Com) != "WithFault" {
			for i := range outs {
				for j := range outs[i].Res {
					if outs[i].Res[j] == (Val{}) && j < n && types.Identical(c.Com.Signature().Results().At(j).Type().Underlying(), types.Typ[types.Bool]) {
						outs[i].Res[j] = vtag("?" + clean.Replace(m.callTerm(c)))
					}
				}
			}
		}
		if fl := kvGet(c.St.C, "fl"); len(outs) == 2 {
			q := "err(" + clean.Replace(m.callTerm(c)) + ")"
			if kvGet(outs[1].C, "fl") != fl {
				outs[0].C = kvSet(outs[0].C, "c:"+q, "F")
				outs[1].C = kvSet(outs[1].C, "c:"+q, "T")
			}
		}
		return outs, ok
	}
	return m
}

// effectful: a request to a part of the VM that changes something; the others only answer.
func effectful(c *CallCtx) bool {
	n := methodName(c.Com)
	if !c.Com.IsInvoke() {
		f := c.Com.StaticCallee()
		return f == nil || pkgRel(f) == "arwen" && f.Signature.Results().Len() == 0
	}
	for _, p := range []string{"Current", "Last", "Block", "Function", "Keccak", "Sha", "Ripemd", "Verify", "Arguments", "ReadOnly", "Length", "Data"} {
		if strings.HasPrefix(n, p) {
			return false
		}
	}
	return true
}

func zeroTerm(s string) bool { return s == "v(global.Zero)" || s == "#0" }

func (m *meaning) callTerm(c *CallCtx) string {
	var a []string
	for i, x := range c.Args {
		if i == 0 && c.Com.IsInvoke() {
			continue
		}
		a = append(a, m.enc(x))
	}
	return methodName(c.Com) + "(" + strings.Join(a, ",") + ")"
}

// canonical gives one form to the ways of writing a comparison.
func canonical(op token.Token, x, y string) (q string, truth, ok bool) {
	num := func(s string) (int64, bool) {
		if !strings.HasPrefix(s, "#") {
			return 0, false
		}
		n, err := strconv.ParseInt(s[1:], 10, 64)
		return n, err == nil
	}
	if _, isN := num(x); isN {
		flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
		f, k := flip[op]
		if !k {
			return "", false, false
		}
		op, x, y = f, y, x
	}
	x, y = clean.Replace(x), clean.Replace(y)
	if n, isN := num(y); isN {
		if i := map[bool]int{true: 10, false: 7}[strings.HasPrefix(x, "len(Bytes(")]; (strings.HasPrefix(x, "len(Bytes(") || strings.HasPrefix(x, "BitLen(")) && balanced(x[i:len(x)-1-map[bool]int{true: 1, false: 0}[i == 10]]) {
			in := x[i : len(x)-1-map[bool]int{true: 1, false: 0}[i == 10]]
			switch {
			case n == 0 && (op == token.EQL || op == token.LEQ), n == 1 && op == token.LSS:
				return "Sign(" + in + ")~~#0", true, true
			case n == 0 && (op == token.NEQ || op == token.GTR), n == 1 && op == token.GEQ:
				return "Sign(" + in + ")~~#0", false, true
			}
		}
		le := func(k int64) string { return x + "<~#" + strconv.FormatInt(k, 10) }
		switch op {
		case token.LSS:
			return le(n - 1), true, true
		case token.LEQ:
			return le(n), true, true
		case token.GTR:
			return le(n), false, true
		case token.GEQ:
			return le(n - 1), false, true
		case token.EQL:
			return x + "~~#" + strconv.FormatInt(n, 10), true, true
		case token.NEQ:
			return x + "~~#" + strconv.FormatInt(n, 10), false, true
		}
		return "", false, false
	}
	switch op {
	case token.LSS:
		return x + "<" + y, true, true
	case token.GTR:
		return y + "<" + x, true, true
	case token.LEQ:
		return y + "<" + x, false, true
	case token.GEQ:
		return x + "<" + y, false, true
	case token.EQL, token.NEQ:
		if y < x {
			x, y = y, x
		}
		return x + "~~" + y, op == token.EQL, true
	}
	return "", false, false
}

func condsOf(c string) map[string]bool {
	out := map[string]bool{}
	for _, kv := range strings.Split(c, ";") {
		if strings.HasPrefix(kv, "c:") {
			i := strings.LastIndex(kv, "=")
			out[kv[2:i]] = kv[i+1:] == "T"
		}
	}
	return out
}

// possible: the conditions do not contradict each other, as far as comparisons of one thing with numbers go.
func possible(cs map[string]bool) bool {
	type iv struct {
		lo, hi int64
		not    map[int64]bool
	}
	ivs := map[string]*iv{}
	get := func(s string) *iv {
		if v, ok := ivs[s]; ok {
			return v
		}
		v := &iv{lo: -1 << 62, hi: 1 << 62, not: map[int64]bool{}}
		if strings.HasPrefix(s, "len(") || strings.HasPrefix(s, "BitLen(") {
			v.lo = 0
		}
		if strings.HasPrefix(s, "Sign(") || strings.HasPrefix(s, "Cmp(") {
			v.lo, v.hi = -1, 1
		}
		ivs[s] = v
		return v
	}
	for q, truth := range cs {
		if j := strings.Index(q, "<"); truth && j > 0 && !strings.HasPrefix(q[j:], "<~") && cs[q[j+1:]+"<"+q[:j]] {
			return false
		}
		i := strings.LastIndex(q, "#")
		if i < 2 {
			continue
		}
		n, err := strconv.ParseInt(q[i+1:], 10, 64)
		if err != nil {
			continue
		}
		s, op := q[:i-2], q[i-2:i]
		switch op {
		case "<~":
			v := get(s)
			if truth && n < v.hi {
				v.hi = n
			}
			if !truth && n+1 > v.lo {
				v.lo = n + 1
			}
		case "~~":
			v := get(s)
			if truth {
				if n < v.hi {
					v.hi = n
				}
				if n > v.lo {
					v.lo = n
				}
			} else {
				v.not[n] = true
			}
		}
	}
	for _, v := range ivs {
		for v.not[v.lo] {
			v.lo++
		}
		for v.not[v.hi] {
			v.hi--
		}
		if v.lo > v.hi {
			return false
		}
	}
	return true
}

// decisions explores a function.
func (m *meaning) decisions(fn *ssa.Function, names ...string) []decision {
	var out []decision
	seen := map[string]bool{}
	for _, x := range m.explore(fn, names...) {
		if x.Panic {
			continue
		}
		d := decision{conds: condsOf(x.C), unclear: kvGet(x.C, "unclear") != ""}
		if kvGet(x.C, "fault") != "" {
			d.what = "fault"
			for _, kv := range strings.Split(x.C, ";") {
				if i := strings.Index(kv, "="); i > 0 && strings.HasPrefix(kv, "b:H<") && numberRe.MatchString(fn.Name()) {
					d.what += " ; " + kv[2:i] + " := " + kv[i+1:]
				}
			}
		} else {
			var parts []string
			tr := trace(x)
			sort.SliceStable(tr, func(i, j int) bool { return tr[i][:strings.Index(tr[i]+"(", "(")] < tr[j][:strings.Index(tr[j]+"(", "(")] })
			parts = append(parts, tr...)
			var bs []string
			for _, kv := range strings.Split(x.C, ";") {
				if i := strings.Index(kv, "="); i > 0 && strings.HasPrefix(kv, "b:") && !strings.HasPrefix(kv, "b:new") && !strings.HasPrefix(kv, "b:&a") {
					bs = append(bs, kv[2:i]+" := "+kv[i+1:])
				}
				if i := strings.Index(kv, "="); i > 0 && strings.HasPrefix(kv, "m:") && !localPlace(kv[2:i]+".") && !strings.HasPrefix(kv, "m:a") {
					bs = append(bs, kv[2:i]+" := "+kv[i+1:])
				}
			}
			sort.Strings(bs)
			parts = append(parts, bs...)
			var rs []string
			for _, v := range x.Res {
				s := m.enc(v)
				if _, isSlice := fn.Signature.Results().At(len(rs)).Type().Underlying().(*types.Slice); isSlice && s == "nil" {
					s = "[]"
				}
				if strings.HasPrefix(s, "new") || strings.HasPrefix(s, "&a") {
					if b := kvGet(x.C, "b:"+s); b != "" {
						s = "number(" + b + ")"
					}
				}
				rs = append(rs, s)
			}
			parts = append(parts, "answer "+strings.Join(rs, " "))
			d.what = expand(strings.Join(parts, " ; "), x.C)
		}
		cs := map[string]bool{}
		for q, v := range d.conds {
			cs[expand(q, x.C)] = v
		}
		d.conds = cs
		k := d.String() + strconv.FormatBool(d.unclear)
		if !seen[k] {
			seen[k] = true
			out = append(out, d)
		}
	}
	return simplify(out)
}

var newRe = regexp.MustCompile(`\bnew[0-9]+\b`)
var localRe = regexp.MustCompile(`&a[0-9]+\b`)
var bufRe = regexp.MustCompile(`buf[0-9]+\.`)
var copyRe = regexp.MustCompile(`\[([^][,]+)\.\.\.\]`)

// expand shows what was built here instead of where it was built.
func expand(s, c string) string {
	for i := 0; i < 4; i++ {
		old := s
		s = localRe.ReplaceAllStringFunc(s, func(a string) string {
			if v := kvGet(c, "b:"+a); v != "" {
				return "number(" + v + ")"
			}
			var fs []string
			for _, kv := range strings.Split(c, ";") {
				if strings.HasPrefix(kv, "m:"+a[1:]+".") {
					j := strings.Index(kv, "=")
					f, v := kv[len("m:"+a[1:]+"."):j], kv[j+1:]
					if v != "nil" && v != "#0" && v != "false" && v != "s:" && v != "[]" {
						fs = append(fs, f+":"+v)
					}
				}
			}
			if len(fs) == 0 {
				return a
			}
			sort.Strings(fs)
			return "{" + strings.Join(fs, ",") + "}"
		})
		s = bufRe.ReplaceAllStringFunc(s, func(b string) string {
			if v := kvGet(c, "s:"+b); v != "" {
				return v
			}
			return b
		})
		s = copyRe.ReplaceAllString(s, "$1")
		s = newRe.ReplaceAllStringFunc(s, func(b string) string {
			if v := kvGet(c, "b:"+b); v != "" {
				return "number(" + v + ")"
			}
			return b
		})
		if s == old {
			break
		}
	}
	return newRe.ReplaceAllString(toTheEnd(s), "new")
}

// balanced: the brackets of a term match.
func balanced(s string) bool {
	n := 0
	for _, c := range s {
		switch c {
		case '(':
			n++
		case ')':
			if n--; n < 0 {
				return false
			}
		}
	}
	return n == 0
}

// toTheEnd: a part that ends where the whole ends needs no end.
func toTheEnd(s string) string {
	for _, w := range [][2]string{{"Length(", "Data("}, {"LengthGrown(", "DataGrown("}, {"len(", ""}} {
		for from := 0; ; {
			i := strings.Index(s[from:], ":"+w[0])
			if i < 0 {
				break
			}
			i += from
			a := i + 1 + len(w[0])
			j := strings.Index(s[a:], ")]")
			for j >= 0 && !balanced(s[a:a+j]) {
				k := strings.Index(s[a+j+1:], ")]")
				if k < 0 {
					j = -1
					break
				}
				j += 1 + k
			}
			from = i + 1
			if j < 0 {
				continue
			}
			whole := s[a : a+j]
			if w[1] != "" {
				whole = w[1] + whole + ")"
			}
			if k := strings.LastIndex(s[:i], "["); k >= 0 && strings.HasSuffix(s[:k], whole) {
				s = s[:i+1] + s[a+j+1:]
			}
		}
	}
	return s
}

func (d decision) String() string {
	var cs []string
	for q, v := range d.conds {
		if v {
			cs = append(cs, q)
		} else {
			cs = append(cs, "!"+q)
		}
	}
	sort.Strings(cs)
	return strings.Join(cs, " & ") + "\t" + d.what
}

// simplify joins two ways that differ in the answer to one question only and do the same.
func simplify(ds []decision) []decision {
	for again := true; again; {
		again = false
	search:
		for i := range ds {
			for j := i + 1; j < len(ds); j++ {
				if ds[i].what != ds[j].what || ds[i].unclear != ds[j].unclear || len(ds[i].conds) != len(ds[j].conds) {
					continue
				}
				diff := ""
				n := 0
				for q, v := range ds[i].conds {
					w, ok := ds[j].conds[q]
					if !ok {
						n = 2
						break
					}
					if v != w {
						diff = q
						n++
					}
				}
				if n != 1 {
					continue
				}
				c := map[string]bool{}
				for q, v := range ds[i].conds {
					if q != diff {
						c[q] = v
					}
				}
				ds[i].conds = c
				ds = append(ds[:j], ds[j+1:]...)
				again = true
				break search
			}
		}
	}
	sort.Slice(ds, func(i, j int) bool { return ds[i].String() < ds[j].String() })
	return ds
}

// meaningOf explores a function the way its kind is explored; ok=false: it cannot be written as a list of decisions.
func meaningOf(p *Prog, fn *ssa.Function) (ds []decision, ok bool) {
	inline, names := ctxInline, ctxNames(fn)
	if isAPIPkg(pkgRel(fn)) {
		inline, names = apiInline, hostNames(fn)
	}
	if loopy(p, fn, inline, map[*ssa.Function]bool{}) {
		return nil, false
	}
	m := newMeaning(p, inline)
	ds = m.decisions(fn, names...)
	return ds, len(m.Overflow) == 0 && len(ds) > 0
}

func dumpMeaning(p *Prog) {
	for _, fn := range meaningFuncs(p) {
		ds, ok := meaningOf(p, fn)
		if !ok || len(ds) > 40 {
			fmt.Fprintf(os.Stderr, "left out: %s\n", fname(fn))
			continue
		}
		if len(conflicts(ds, ds, wordsOf(ds))) > 0 {
			fmt.Fprintf(os.Stderr, "ambiguous: %s\n", fname(fn))
			continue
		}
		fmt.Printf("%s\n", fname(fn))
		for _, d := range ds {
			if d.unclear {
				fmt.Fprintf(os.Stderr, "unclear: %s\n", fname(fn))
			}
			fmt.Printf("\t%s\n", d)
		}
	}
}

// meaningFuncs: the functions offered to contracts and the methods of the contexts behind them.
func meaningFuncs(p *Prog) []*ssa.Function {
	out := append([]*ssa.Function{}, p.hostFunctions()...)
	for _, fn := range p.Funcs {
		if pkgRel(fn) == "arwen/contexts" && fn.Parent() == nil && fn.Signature.Recv() != nil && fn.Object() != nil && fn.Object().Exported() && meaningGroup(fn) != "" {
			out = append(out, fn)
		}
	}
	return out
}

// meaningGroup: the property a function belongs to.
func meaningGroup(fn *ssa.Function) string {
	n := fname(fn)
	if isAPIPkg(pkgRel(fn)) {
		switch {
		case strings.Contains(strings.ToLower(fn.Name()), "storage"):
			return "C24"
		case numberRe.MatchString(fn.Name()):
			return "C22"
		}
		return "C23"
	}
	i := strings.LastIndex(n[:strings.LastIndex(n, ".")], ".")
	typ := n[i+1 : strings.LastIndex(n, ".")]
	switch fn.Name() {
	case "InitState", "PushState", "PopSetActiveState", "PopDiscard", "ClearStateStack", "PopMergeActiveState", "IsInterfaceNil", "NewAddress", "Put", "CreateVMOutputInCaseOfError", "GetVMOutput", "Transfer", "TransferValueOnly", "CensorVMOutput", "ReplaceInstanceBuilder":
		return ""
	}
	switch typ {
	case "bigIntContext":
		return "C22"
	case "blockchainContext", "runtimeContext", "outputContext", "reservedFunctions":
		return "C23"
	case "storageContext":
		return "C24"
	case "meteringContext":
		return "C25"
	}
	return ""
}

var numberRe = regexp.MustCompile(`^v1_3_(bigInt(New|Set|Get(Int64|Unsigned|Signed)|Is|Add|Sub|Mul|[TE]Div|[TE]Mod|Abs|Neg|Sign|Cmp|Not|And|Or|Xor|Sh|Finish|UnsignedByte)|smallInt|int64)`)

func ctxInline(fn *ssa.Function) bool { return pkgRel(fn) == "arwen/contexts" }

func ctxNames(fn *ssa.Function) []string {
	ns := []string{"ctx"}
	for i := 1; i < len(fn.Params); i++ {
		ns = append(ns, "p"+strconv.Itoa(i))
	}
	return ns
}

func hostNames(fn *ssa.Function) []string {
	var ns []string
	for i := range fn.Params {
		if i == 0 {
			ns = append(ns, "vm")
		} else {
			ns = append(ns, "p"+strconv.Itoa(i))
		}
	}
	return ns
}

func apiInline(fn *ssa.Function) bool {
	return isAPIPkg(pkgRel(fn)) || pkgRel(fn) == "arwen" && fn.Name() == "BooleanToInt"
}

var loopBlocks = map[*ssa.Function]map[*ssa.BasicBlock]bool{}

func inLoop(b *ssa.BasicBlock) bool {
	f := b.Parent()
	m, ok := loopBlocks[f]
	if !ok {
		m = map[*ssa.BasicBlock]bool{}
		for _, l := range naturalLoops(f) {
			for x := range l.blocks {
				m[x] = true
			}
		}
		loopBlocks[f] = m
	}
	return m[b]
}

// loopy: something is done in a loop, as often as the arguments say.
func loopy(p *Prog, fn *ssa.Function, inline func(*ssa.Function) bool, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return true
	}
	seen[fn] = true
	defer delete(seen, fn)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			com := c.Common()
			if inLoop(b) {
				if ctx, _ := ctxCall(com); ctx == "metering" {
					continue
				}
				if _, ok := com.Value.(*ssa.Builtin); ok && com.Value.Name() == "len" {
					continue
				}
				f := com.StaticCallee()
				if f != nil && f.Pkg != nil && (f.Pkg.Pkg.Path() == "math/big" && bigQueries[f.Name()] || pkgRel(f) == "math") {
					continue
				}
				return true
			}
			if f := com.StaticCallee(); f != nil && f.Blocks != nil && inline(f) && loopy(p, f, inline, seen) {
				return true
			}
		}
	}
	return false
}


// conflict: two ways that can be taken on the same occasion and do different things.
type conflict struct{ is, want decision }

func together(a, b map[string]bool) bool {
	u := map[string]bool{}
	for q, v := range a {
		u[q] = v
	}
	for q, v := range b {
		if w, ok := u[q]; ok && w != v {
			return false
		}
		u[q] = v
	}
	return possible(u)
}

var wordRe = regexp.MustCompile(`[A-Za-z_][A-Za-z_0-9]*`)

func wordsOf(ds []decision) map[string]bool {
	out := map[string]bool{}
	addWords(out, ds)
	return out
}

func addWords(out map[string]bool, ds []decision) {
	for _, d := range ds {
		for q := range d.conds {
			for _, w := range wordRe.FindAllString(q, -1) {
				out[w] = true
			}
		}
		for _, w := range wordRe.FindAllString(d.what, -1) {
			out[w] = true
		}
	}
}

// entails: whoever takes the first way has the answers the second asks for.
func entails(a, b map[string]bool) bool {
	for q, v := range b {
		if w, ok := a[q]; ok && w == v {
			continue
		}
		u := map[string]bool{}
		for x, y := range a {
			u[x] = y
		}
		if w, ok := u[q]; ok && w == v {
			continue
		}
		u[q] = !v
		if possible(u) {
			return false
		}
	}
	return true
}

var unknownRe = regexp.MustCompile(`\?($|[,;:)} \]])`)

// conflicts compares what a function does with what it should do. A way whose questions are put in words that the table
// does not know counts only where it answers the table's questions as well.
func conflicts(is, want []decision, known map[string]bool) []conflict {
	var out []conflict
	for _, a := range is {
		if a.unclear {
			continue
		}
		foreign := false
		for q := range a.conds {
			for _, w := range wordRe.FindAllString(q, -1) {
				foreign = foreign || !known[w]
			}
		}
		for _, b := range want {
			if a.what == b.what || unknownRe.MatchString(a.what) != unknownRe.MatchString(b.what) {
				continue
			}
			if x, y := sameOnEqual(a, b); x == y {
				continue
			}
			if !together(a.conds, b.conds) || foreign && !entails(a.conds, b.conds) {
				continue
			}
			out = append(out, conflict{a, b})
		}
	}
	return out
}

func meaningTable() map[string][]decision {
	b, err := meaningData.ReadFile("data/meaning.txt")
	if err != nil {
		panic(err)
	}
	out := map[string][]decision{}
	name := ""
	for _, l := range strings.Split(string(b), "\n") {
		if l == "" || strings.HasPrefix(l, "//") {
			continue
		}
		if !strings.HasPrefix(l, "\t") {
			name = l
			continue
		}
		f := strings.SplitN(l[1:], "\t", 2)
		d := decision{conds: map[string]bool{}, what: f[1]}
		for _, q := range strings.Split(f[0], " & ") {
			if q != "" {
				d.conds[strings.TrimPrefix(q, "!")] = !strings.HasPrefix(q, "!")
			}
		}
		out[name] = append(out[name], d)
	}
	return out
}

func checkMeaning(group string) func(p *Prog, r *Result) {
	return func(p *Prog, r *Result) {
		table := meaningTable()
		total, decided, ways := 0, 0, 0
		r.Rule = "Each function is explored over symbolic arguments; every way through it is written as a decision: the answers to the questions asked on the way (comparisons in one form, failures of calls, presence in maps), what is written or requested, in order, and what is answered. The table data/meaning.txt says the same for what the function means. Two ways, one of the code and one of the table, whose questions can have these answers at once must do the same."
		r.Assumptions = append(r.Assumptions, "math/big, twos-complement, bytes and the arithmetic helpers of package math compute what they are named after", "calls that only look after gas, and logging, are left out", "a way whose questions could not be expressed is not judged")
		seen := map[string]bool{}
		known := map[string]bool{}
		for _, ds := range table {
			addWords(known, ds)
		}
		for _, fn := range meaningFuncs(p) {
			want, ok := table[fname(fn)]
			if !ok || meaningGroup(fn) != group || seen[fname(fn)] {
				continue
			}
			seen[fname(fn)] = true
			total++
			is, ok := meaningOf(p, fn)
			if !ok {
				continue
			}
			decided++
			ways += len(is)
			r.saw(fname(fn))
			cs := conflicts(is, want, known)
			if len(cs) > 0 {
				c := cs[0]
				r.violate("meaning:"+strings.TrimPrefix(fname(fn), "arwen/"), p.pos(fn.Pos()), "when {%s}, %s does {%s} where it should do {%s}", strings.SplitN(c.is.String(), "\t", 2)[0], fn.Name(), c.is.what, c.want.what)
				continue
			}
			r.okN("every way through the function does what its meaning says", len(is))
		}
		n := 0
		for f := range table {
			if g := p.fn(f); g != nil && meaningGroup(g) == group || g == nil && seen[f] {
				n++
			}
		}
		if group == "C22" {
			checkPut(p, r)
		}
		r.Counts["functions decided"] = decided
		r.Counts["ways through them"] = ways
		r.floor("functions whose meaning is decided", decided, n*9/10)
	}
}

func init() {
	for _, g := range []string{"C22", "C23", "C24", "C25"} {
		register(g, checkMeaning(g))
	}
}

// intSize: the bytes of an integer type, or 0.
func intSize(t types.Type) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 0
	}
	return types.SizesFor("gc", "amd64").Sizeof(b)
}

// checkPut: a number is never put under a handle that is in use.
func checkPut(p *Prog, r *Result) {
	for _, fn := range p.Funcs {
		if fname(fn) != "arwen/contexts.bigIntContext.Put" {
			continue
		}
		r.saw(fname(fn))
		m := newMeaning(p, ctxInline)
		m.loops = true
		n := 0
		for _, x := range m.explore(fn, ctxNames(fn)...) {
			if x.Panic || len(x.Res) != 1 {
				continue
			}
			h := clean.Replace(m.enc(x.Res[0]))
			if h == "?" {
				continue
			}
			if has, ok := condsOf(x.C)["has(ctx.values,"+h+")"]; !ok || has {
				r.violate("put:in-use", p.pos(fn.Pos()), "Put answers the handle %s without having found that no number has it", h)
				return
			}
			if v := kvGet(x.C, "m:ctx.values["+h+"]"); v != "number(p1)" {
				r.violate("put:value", p.pos(fn.Pos()), "Put answers the handle %s, under which %s is found", h, v)
				return
			}
			n++
			r.ok("a new number gets a handle that is free, and is found under it")
		}
		r.floor("ways through Put that are decided", n, 1)
	}
}

// sameOnEqual: what two ways do where they can only both be taken with two amounts being equal.
func sameOnEqual(a, b decision) (string, string) {
	u := map[string]bool{}
	for q, v := range a.conds {
		u[q] = v
	}
	for q, v := range b.conds {
		u[q] = v
	}
	x, y := a.what, b.what
	for q, v := range u {
		i := strings.Index(q, "<")
		if v || i < 0 || strings.HasPrefix(q[i:], "<~") {
			continue
		}
		l, r := q[:i], q[i+1:]
		if w, ok := u[r+"<"+l]; ok && !w {
			for _, d := range []string{"(" + l + ")-(" + r + ")", "(" + r + ")-(" + l + ")"} {
				x, y = strings.ReplaceAll(x, d, "#0"), strings.ReplaceAll(y, d, "#0")
				cs := map[string]bool{}
				for q, v := range u {
					p := strings.ReplaceAll(q, d, "#0")
					if strings.HasPrefix(p, "#0<") && !strings.HasPrefix(p, "#0<~") {
						p, v = p[3:]+"<~#0", !v
					} else if strings.HasSuffix(p, "<#0") {
						p = p[:len(p)-3] + "<~#-1"
					}
					if w, ok := cs[p]; ok && w != v {
						return "", ""
					}
					cs[p] = v
				}
				if !possible(cs) {
					return "", ""
				}
			}
			x, y = strings.ReplaceAll(x, l, r), strings.ReplaceAll(y, l, r)
		}
	}
	return x, y
}
