package main

// Symbolic terms: the values and the effects of small functions, as expressions over what they are given.

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// termWorld fixes the answers of questions (terms) on one exploration.
type termWorld map[string]Val

// terms explores a function and gives every value that is computed a term. What a function stores is kept in
// the client state (m:<place>), what it asks others to do in the trace (t).
type terms struct {
	*Engine
	p      *Prog
	world  termWorld
	inline func(fn *ssa.Function) bool
	// call may give the outcome of a call; ok=false leaves it to the general rule
	call func(c *CallCtx, name string, args []string, st string) ([]Outcome, bool)
	// nilErr: errors of these calls are left out
	noErr func(name string) bool
	// moves: calls after which another amount of gas is left
	moves func(name string) bool
}

var clean = strings.NewReplacer(";", "~", "=", "~", "|", "~")

func (t *terms) enc(v Val) string {
	switch v.K {
	case VNil:
		return "nil"
	case VTrue:
		return "true"
	case VFalse:
		return "false"
	case VInt:
		return "#" + strconv.FormatInt(v.N, 10)
	case VTag:
		return clean.Replace(v.T)
	case VPtr:
		if g, ok := v.S.(*ssa.Global); ok {
			return "global." + g.Name()
		}
		return "&a" + strconv.Itoa(t.id(v.S))
	case VFn:
		return "fn:" + v.S.Name()
	case VNonNil:
		return "nonnil"
	}
	return "?"
}

func (t *terms) dec(s string) Val {
	switch {
	case s == "nil":
		return Val{K: VNil}
	case s == "true", s == "false":
		return vbool(s == "true")
	case s == "nonnil":
		return Val{K: VNonNil}
	case s == "?" || s == "":
		return Val{}
	case strings.HasPrefix(s, "#"):
		if n, err := strconv.ParseInt(s[1:], 10, 64); err == nil {
			return vint(n)
		}
	}
	return vtag(s)
}

// place of the memory a pointer points to
func place(s string) string { return strings.TrimPrefix(s, "&") }

// embedded structures are part of the structure that embeds them
func embedded(x types.Type, i int) bool {
	st, ok := deref(x).Underlying().(*types.Struct)
	return ok && st.Field(i).Embedded()
}

func sumOf(a, b string) string {
	var parts []string
	n := int64(0)
	for _, s := range append(strings.Split(a, "+"), strings.Split(b, "+")...) {
		if strings.HasPrefix(s, "#") {
			if k, err := strconv.ParseInt(s[1:], 10, 64); err == nil {
				n += k
				continue
			}
		}
		parts = append(parts, s)
	}
	if n != 0 || len(parts) == 0 {
		parts = append(parts, "#"+strconv.FormatInt(n, 10))
	}
	sort.Strings(parts)
	return strings.Join(parts, "+")
}

func mulOf(a, b string) string {
	if b < a {
		a, b = b, a
	}
	return "(" + a + ")*(" + b + ")"
}

func subOf(a, b string) string {
	if b == "#0" {
		return a
	}
	return "(" + a + ")-(" + b + ")"
}

// observer: a method that only answers.
func observer(m string) bool {
	for _, p := range []string{"Get", "get", "Is", "is", "Are", "Has", "has", "Compute", "compute", "GasLeft", "GasSchedule", "Parse", "New", "Bytes", "String", "Equal", "Encode", "Sha256", "Gas", "Runtime", "Metering", "Output", "Blockchain", "Storage", "BigInt", "Crypto", "ReturnCode", "ReturnData", "Cmp", "len", "append", "cap", "Marshal", "Unmarshal", "Trace", "Debug", "Error", "Warn", "can", "determine", "create"} {
		if strings.HasPrefix(m, p) {
			return true
		}
	}
	return false
}

func isLog(com *ssa.CallCommon, name string) bool {
	switch methodName(com) {
	case "Trace", "Debug", "Error", "Warn", "Info", "Log":
		if com.IsInvoke() {
			return typeName(com.Value.Type()) == "Logger"
		}
		return strings.Contains(name, "logger")
	}
	return false
}

func newTerms(p *Prog, world termWorld, inline func(fn *ssa.Function) bool) *terms {
	t := &terms{Engine: newEngine(p), p: p, world: world, inline: inline}
	e := t.Engine
	e.KeepPtr = true
	e.Skip = func(fn *ssa.Function) bool { return !inline(fn) }
	e.Force = inline
	e.IsEvent = func(com *ssa.CallCommon, name string) bool {
		f := com.StaticCallee()
		return f == nil || !inline(f)
	}
	baseOf := func(st *State, v ssa.Value) string {
		return place(t.enc(e.Eval(st, v)))
	}
	e.Addr = func(st *State, x *ssa.FieldAddr) (Val, bool) {
		b := baseOf(st, x.X)
		if b == "?" || b == "nil" {
			return Val{}, false
		}
		if embedded(x.X.Type(), x.Field) {
			return vtag("&" + b), true
		}
		return vtag("&" + b + "." + fieldAddrName(x)), true
	}
	look := func(st *State, pl string) (Val, bool) {
		if v := kvGet(st.C, "m:"+pl); v != "" {
			return t.dec(v), true
		}
		if v, ok := world[pl]; ok {
			return v, true
		}
		return Val{}, false
	}
	e.Load = func(st *State, x *ssa.UnOp) (Val, bool) {
		a := e.Eval(st, x.X)
		if g, ok := a.S.(*ssa.Global); ok && a.K == VPtr {
			if v, ok := world["global."+g.Name()]; ok {
				return v, true
			}
			if isErrorType(x.Type()) {
				return vtag("err:" + g.Name()), true
			}
			return globalConstOr(p, g), true
		}
		if a.K == VPtr {
			if _, ok := x.Type().Underlying().(*types.Struct); ok {
				// a copy of a structure built here
				return vtag("a" + strconv.Itoa(t.id(a.S))), true
			}
			if v, ok := st.cells[a.S]; ok && v.K != VSym {
				return Val{}, false
			}
			return Val{}, false
		}
		if ia, ok := x.X.(*ssa.IndexAddr); ok && a.K != VTag {
			b, i := t.enc(e.Eval(st, ia.X)), t.enc(e.Eval(st, ia.Index))
			if b == "?" || i == "?" {
				return Val{}, false
			}
			if el, ok := listElem(b, i); ok {
				return t.dec(el), true
			}
			return vtag(b + "[" + i + "]"), true
		}
		if a.K != VTag {
			return Val{}, false
		}
		pl := place(a.T)
		if v, ok := look(st, pl); ok && v != (Val{}) {
			return v, true
		}
		if localPlace(pl) {
			i := strings.Index(pl, ".")
			if from := kvGet(st.C, "m:"+pl[:i]); from != "" {
				return vtag(from + pl[i:]), true
			}
			if z, ok := zeroOf(x.Type()); ok {
				return z, true
			}
		}
		return vtag(pl), true
	}
	e.FieldLoad = func(st *State, base Val, field string) (Val, bool) {
		pl := place(base.T) + "." + field
		if v, ok := look(st, pl); ok && v != (Val{}) {
			return v, true
		}
		return vtag(pl), true
	}
	e.Made = func(st *State, v ssa.Value) (Val, bool) {
		switch x := v.(type) {
		case *ssa.MakeSlice:
			if t.enc(e.Eval(st, x.Len)) == "#0" {
				return vtag("[]"), true
			}
		case *ssa.Slice:
			if al, ok := x.X.(*ssa.Alloc); ok {
				arr, ok := deref(al.Type()).Underlying().(*types.Array)
				if !ok || x.Low != nil || x.High != nil {
					return Val{}, false
				}
				var s []string
				for i := int64(0); i < arr.Len(); i++ {
					el := kvGet(st.C, "m:a"+strconv.Itoa(t.id(al))+"["+strconv.FormatInt(i, 10)+"]")
					if el == "" {
						el = "?"
					}
					s = append(s, el)
				}
				return vtag("[" + strings.Join(s, ",") + "]"), true
			}
			s := t.enc(e.Eval(st, x.X))
			lo, hi := "", ""
			if x.Low != nil {
				lo = t.enc(e.Eval(st, x.Low))
			}
			if x.High != nil {
				hi = t.enc(e.Eval(st, x.High))
			}
			if s == "?" || lo == "?" || hi == "?" {
				return Val{}, false
			}
			if (lo == "" || lo == "#0") && hi == "" {
				return t.dec(s), true
			}
			if hi == "" {
				if rest, ok := restOf(s, lo); ok {
					return vtag(rest), true
				}
			}
			return vtag(s + "[" + lo + ":" + hi + "]"), true
		}
		return Val{}, false
	}
	e.BinOp = func(op token.Token, a, b Val) (Val, bool) {
		x, y := t.enc(a), t.enc(b)
		if x == "?" || y == "?" {
			return Val{}, false
		}
		if v, ok := binop(op, a, b); ok {
			return v, true
		}
		switch op {
		case token.ADD:
			if strings.HasPrefix(x, "s:") || strings.HasPrefix(y, "s:") {
				return vtag("cat(" + x + "," + y + ")"), true
			}
			return t.dec(sumOf(x, y)), true
		case token.MUL:
			return vtag(mulOf(x, y)), true
		case token.SUB:
			return vtag(subOf(x, y)), true
		case token.QUO:
			return vtag("(" + x + ")/(" + y + ")"), true
		}
		return t.question(op, x, y)
	}
	e.Instr = func(e *Engine, fn *ssa.Function, in ssa.Instruction, st *State) {
		switch x := in.(type) {
		case *ssa.Store:
			a := e.Eval(st, x.Addr)
			if a.K == VTag && strings.HasPrefix(a.T, "&") {
				st.C = kvSet(st.C, "m:"+place(a.T), t.enc(e.Eval(st, x.Val)))
			}
			if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
				if al, ok := ia.X.(*ssa.Alloc); ok {
					if c, ok := ia.Index.(*ssa.Const); ok {
						st.C = kvSet(st.C, "m:a"+strconv.Itoa(t.id(al))+"["+strconv.FormatInt(c.Int64(), 10)+"]", t.enc(e.Eval(st, x.Val)))
					}
				}
				return
			}
			// a whole structure is copied
			if a.K == VPtr || a.K == VTag {
				if _, ok := x.Val.Type().Underlying().(*types.Struct); ok {
					from, to := place(t.enc(e.Eval(st, x.Val))), place(t.enc(a))
					if from != "?" && from != "" && !localPlace(from+".") {
						st.C = kvSet(st.C, "m:"+to, from)
					} else if b := kvGet(st.C, "m:"+from); b != "" && from != "?" && from != "" {
						st.C = kvSet(st.C, "m:"+to, b)
					}
					for _, kv := range strings.Split(st.C, ";") {
						if strings.HasPrefix(kv, "m:"+from+".") {
							i := strings.Index(kv, "=")
							st.C = kvSet(st.C, "m:"+to+kv[2+len(from):i], kv[i+1:])
						}
					}
				}
			}
		case *ssa.Range:
			id := strconv.Itoa(t.id(x))
			st.C = kvSet(kvSet(st.C, "n"+id, ""), "r"+id, t.enc(e.Eval(st, x.X)))
		case *ssa.Alloc:
			id := "m:a" + strconv.Itoa(t.id(x))
			if !strings.Contains(st.C, id) {
				return
			}
			for _, kv := range strings.Split(st.C, ";") {
				if strings.HasPrefix(kv, id+".") || strings.HasPrefix(kv, id+"[") {
					st.C = kvSet(st.C, kv[:strings.Index(kv, "=")], "")
				}
			}
		}
	}
	e.NextVal = func(st *State, x *ssa.Next) ([]Val, bool) {
		// as many elements as the world says
		rg, ok := x.Iter.(*ssa.Range)
		if !ok {
			return nil, false
		}
		m := kvGet(st.C, "r"+strconv.Itoa(t.id(rg)))
		size, ok := world["len("+m+")"]
		if !ok || size.K != VInt {
			return nil, false
		}
		key := "n" + strconv.Itoa(t.id(rg))
		n, _ := strconv.Atoi(kvGet(st.C, key))
		if int64(n) >= size.N {
			return []Val{vbool(false), {}, {}}, true
		}
		st.C = kvSet(st.C, key, strconv.Itoa(n+1))
		k := "key" + strconv.Itoa(n)
		return []Val{vbool(true), vtag(k), vtag(m + "[" + k + "]")}, true
	}
	e.Lookup = func(st *State, x *ssa.Lookup) (Val, bool) {
		m, k := t.enc(e.Eval(st, x.X)), t.enc(e.Eval(st, x.Index))
		if m == "?" || k == "?" {
			return Val{}, false
		}
		return vtag(m + "[" + k + "]"), true
	}
	e.Event = func(c *CallCtx) ([]Outcome, bool) {
		st := c.St.C
		if f := c.Com.StaticCallee(); f != nil && inline(f) && f.Blocks != nil {
			return nil, false
		}
		if isLog(c.Com, c.Name) {
			return []Outcome{{C: st}}, true
		}
		m := methodName(c.Com)
		var args []string
		for i, a := range c.Args {
			_ = i
			if a.K == VSym {
				if f, ok := c.St.facts[a]; ok {
					a = f
				}
			}
			args = append(args, t.enc(a))
		}
		name := m
		if c.Name != "" && !c.Com.IsInvoke() {
			name = c.Name
		}
		if t.call != nil {
			if o, ok := t.call(c, m, args, st); ok {
				return o, true
			}
		}
		switch name {
		case "math.AddUint64":
			return []Outcome{{C: st, Res: []Val{t.dec(sumOf(args[0], args[1]))}}}, true
		case "math.AddUint64WithErr":
			sum := t.dec(sumOf(args[0], args[1]))
			if sum.K == VInt {
				return []Outcome{{C: st, Res: []Val{sum, {K: VNil}}}}, true
			}
			return []Outcome{{C: st, Res: []Val{sum, {K: VNil}}}, {C: kvSet(kvSet(st, "failed", m), "fl", m+"("), Res: []Val{{}, vtag("err:" + m)}}}, true
		case "math.MulUint64":
			return []Outcome{{C: st, Res: []Val{vtag(mulOf(args[0], args[1]))}}}, true
		case "math.SubUint64":
			return []Outcome{{C: st, Res: []Val{vtag(subOf(args[0], args[1]))}}}, true
		case "math/big.NewInt":
			return []Outcome{{C: st, Res: []Val{vtag("big(" + args[0] + ")")}}}, true
		case "math/big.Int.SetBytes", "math/big.Int.Set", "math/big.Int.SetUint64", "math/big.Int.SetInt64":
			return []Outcome{{C: st, Res: []Val{vtag("big(" + args[1] + ")")}}}, true
		case "math/big.Int.Bytes":
			return []Outcome{{C: st, Res: []Val{vtag("bytes(" + args[0] + ")")}}}, true
		case "builtin.append":
			return []Outcome{{C: st, Res: []Val{vtag(joinList(args[0], args[1]))}}}, true
		case "builtin.len":
			if k := listLen(args[0]); k >= 0 {
				return []Outcome{{C: st, Res: []Val{vint(int64(k))}}}, true
			}
			q := "len(" + args[0] + ")"
			if v, ok := world[q]; ok {
				return []Outcome{{C: st, Res: []Val{v}}}, true
			}
			return []Outcome{{C: st, Res: []Val{vtag(q)}}}, true
		case "builtin.delete", "builtin.copy", "builtin.panic":
			return nil, false
		}
		recv := 0
		if c.Com.IsInvoke() {
			recv = 1
		}
		shown := args
		if recv == 1 && len(args) > 0 {
			shown = args[1:]
			switch typeName(c.Com.Value.Type()) {
			case "RuntimeContext", "MeteringContext", "OutputContext", "BlockchainContext", "StorageContext", "BigIntContext", "VMHost":
			default:
				shown = args
			}
		} else if f := c.Com.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(args) > 0 {
			switch typeName(f.Signature.Recv().Type()) {
			case "vmHost", "runtimeContext", "meteringContext", "outputContext", "blockchainContext", "storageContext", "argsParser", "callArgsParser":
				shown = args[1:]
			}
		}
		term := m + "(" + strings.Join(shown, ",") + ")"
		if m == "GasLeft" {
			term = "gasleft" + kvGet(st, "v")
		}
		done := st
		if !observer(m) {
			old := kvGet(st, "t")
			if old != "" {
				old += "|"
			}
			done = kvSet(st, "t", old+clean.Replace(term))
		}
		if t.moves != nil && t.moves(m) {
			k, _ := strconv.Atoi(strings.TrimPrefix(kvGet(st, "v"), "."))
			done = kvSet(done, "v", "."+strconv.Itoa(k+1))
		}
		sig := c.Com.Signature()
		n := sig.Results().Len()
		if v, ok := world[term]; ok && n == 1 {
			return []Outcome{{C: done, Res: []Val{v}}}, true
		}
		var res []Val
		for i := 0; i < n; i++ {
			k := term
			if n > 1 {
				k = term + "." + strconv.Itoa(i)
			}
			if v, ok := world[k]; ok {
				res = append(res, v)
				continue
			}
			if types.Identical(sig.Results().At(i).Type().Underlying(), types.Typ[types.Bool]) {
				res = append(res, Val{})
				continue
			}
			res = append(res, vtag(k))
		}
		if n > 0 && isErrorType(sig.Results().At(n-1).Type()) {
			if _, fixed := world[term+"."+strconv.Itoa(n-1)]; fixed {
				return []Outcome{{C: done, Res: res}}, true
			}
			if t.noErr != nil && t.noErr(m) {
				res[n-1] = Val{K: VNil}
				return []Outcome{{C: done, Res: res}}, true
			}
			good := append([]Val{}, res...)
			good[n-1] = Val{K: VNil}
			bad := append([]Val{}, res...)
			bad[n-1] = vtag("err:" + m)
			fl := kvGet(done, "fl")
			if fl != "" {
				fl += "|"
			}
			return []Outcome{{C: done, Res: good}, {C: kvSet(kvSet(done, "failed", m), "fl", fl+clean.Replace(term)), Res: bad}}, true
		}
		return []Outcome{{C: done, Res: res}}, true
	}
	return t
}

// question is a comparison of terms, answered by the world.
func (t *terms) question(op token.Token, x, y string) (Val, bool) {
	flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
	neg := map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}
	for _, f := range []struct {
		op   token.Token
		x, y string
		not  bool
	}{{op, x, y, false}, {flip[op], y, x, false}, {neg[op], x, y, true}, {neg[flip[op]], y, x, true}} {
		if v, ok := t.world[f.x+f.op.String()+f.y]; ok {
			return vbool((v.K == VTrue) != f.not), true
		}
	}
	return Val{}, false
}

func localPlace(pl string) bool {
	i := strings.Index(pl, ".")
	if i < 2 || pl[0] != 'a' {
		return false
	}
	_, err := strconv.Atoi(pl[1:i])
	return err == nil
}

func globalConstOr(p *Prog, g *ssa.Global) Val {
	if v, ok := globalConst(p, g); ok && v.K == VInt {
		return v
	}
	return vtag("global." + g.Name())
}

// joinList appends to a list: [a,b] and x... become [a,b,x...].
func joinList(a, b string) string {
	in := func(s string) string {
		switch {
		case s == "nil" || s == "[]":
			return ""
		case isList(s):
			return s[1 : len(s)-1]
		}
		return s + "..."
	}
	x, y := in(a), in(b)
	switch {
	case x == "":
		return "[" + y + "]"
	case y == "":
		return "[" + x + "]"
	}
	return "[" + x + "," + y + "]"
}

// list is the elements of a list, known=false when it has parts of unknown length.
func list(s string) (el []string, known bool) {
	if s == "nil" || s == "[]" {
		return nil, true
	}
	if !isList(s) {
		return nil, false
	}
	depth, from := 0, 1
	for i := 1; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			depth++
		case ')', ']':
			if depth == 0 && i < len(s)-1 {
				return nil, false
			}
			depth--
		}
		if s[i] == ',' && depth == 0 || i == len(s)-1 {
			e := s[from:i]
			if strings.HasSuffix(e, "...") {
				return nil, false
			}
			el = append(el, e)
			from = i + 1
		}
	}
	return el, true
}

// isList: one pair of brackets around it all
func isList(s string) bool {
	if !strings.HasPrefix(s, "[") {
		return false
	}
	depth := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			depth++
		case ')', ']':
			depth--
			if depth == 0 {
				return i == len(s)-1
			}
		}
	}
	return false
}

// restOf is a list without its first elements
func restOf(s, lo string) (string, bool) {
	if !isList(s) || !strings.HasPrefix(lo, "#") {
		return "", false
	}
	n, err := strconv.Atoi(lo[1:])
	el := known(s)
	if err != nil || n < 0 {
		return "", false
	}
	if all, ok := list(s); ok {
		if n > len(all) {
			return "", false
		}
		return "[" + strings.Join(all[n:], ",") + "]", true
	}
	tail := strings.TrimPrefix(strings.TrimPrefix(s[1:len(s)-1], strings.Join(el, ",")), ",")
	if n <= len(el) {
		return "[" + strings.Join(append(append([]string{}, el[n:]...), tail), ",") + "]", true
	}
	if strings.HasSuffix(tail, "...") && strings.Count(tail, "...") == 1 {
		return "[" + strings.TrimSuffix(tail, "...") + "[#" + strconv.Itoa(n-len(el)) + ":]...]", true
	}
	return "", false
}

func known(s string) []string {
	depth, from := 0, 1
	var el []string
	for i := 1; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			depth++
		case ')', ']':
			depth--
		}
		if s[i] == ',' && depth == 0 || i == len(s)-1 {
			e := s[from:i]
			if strings.HasSuffix(e, "...") {
				return el
			}
			el = append(el, e)
			from = i + 1
		}
	}
	return el
}

func listLen(s string) int {
	el, ok := list(s)
	if !ok {
		return -1
	}
	return len(el)
}

func listElem(s, i string) (string, bool) {
	el, ok := list(s)
	if !ok && isList(s) {
		// what comes before the first part of unknown length
		el, ok = known(s), true
	}
	if !ok || !strings.HasPrefix(i, "#") {
		return "", false
	}
	n, err := strconv.Atoi(i[1:])
	if err != nil || n < 0 || n >= len(el) {
		return "", false
	}
	return el[n], true
}

// explore runs fn on symbolic arguments named after their position (p0, p1, ...).
func (t *terms) explore(fn *ssa.Function, names ...string) []*Exit {
	t.Args = make([]Val, len(fn.Params))
	for i := range fn.Params {
		n := "p" + strconv.Itoa(i)
		if i < len(names) && names[i] != "" {
			n = names[i]
		}
		t.Args[i] = vtag(n)
		if v, ok := t.world[n]; ok {
			t.Args[i] = v
		}
	}
	return t.Run(fn, "")
}

// field of a structure a value points to, at the end of a path
func (t *terms) field(x *Exit, v Val, f string) string {
	return kvGet(x.C, "m:"+place(t.enc(v))+"."+f)
}

func trace(x *Exit) []string {
	s := kvGet(x.C, "t")
	if s == "" {
		return nil
	}
	return strings.Split(s, "|")
}
