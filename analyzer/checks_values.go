package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// M05: what is written reads back.
//
// The strings the scenario tools write for values are computed as templates - alternatives of pieces of literal text,
// digits, and bytes taken over as text - from the source of the writers, and each template is compared with what the
// interpreter of expressions accepts, which is extracted from its source (prefixes and how much of the text they
// consume, widths, separators, layout of addresses).

func init() {
	register("M05", func(p *Prog, r *Result) { checkM05(p, r) })
}

type pieceKind int

const (
	pkLit    pieceKind = iota
	pkHex              // an even number of hex digits of the bytes v
	pkHexVar           // hex digits of a number, as many as needed
	pkHex2             // exactly two hex digits
	pkHexW             // hex digits padded to a fixed width
	pkDec              // decimal digits
	pkText             // the bytes of v as text
	pkQuoted           // quoted text
	pkGiven            // a text the scenario itself brought along
	pkWhat             // something else
)

type piece struct {
	kind   pieceKind
	text   string
	v      ssa.Value
	at     ssa.Instruction
	lo, hi int64 // part of v, -1 if open
	trim   string
	cut    bool // changed in a way that the reader does not undo
	width  int
	sites  []ssa.Instruction // the calls through which it came, innermost first
}

func (c piece) String() string {
	switch c.kind {
	case pkLit:
		return c.text
	case pkHex, pkHexVar, pkHex2, pkHexW:
		return "{hex}"
	case pkDec:
		return "{number}"
	case pkText:
		return "{text}"
	case pkQuoted:
		return "{quoted}"
	case pkGiven:
		return "{given}"
	}
	return "{?}"
}

type tmpl []piece

func (t tmpl) String() string {
	s := ""
	for _, c := range t {
		s += c.String()
	}
	return s
}

func (t tmpl) join() tmpl {
	var o tmpl
	for _, c := range t {
		if c.kind == pkLit && c.text == "" {
			continue
		}
		if c.kind == pkLit && len(o) > 0 && o[len(o)-1].kind == pkLit {
			o[len(o)-1].text += c.text
			continue
		}
		o = append(o, c)
	}
	return o
}

type tenv struct {
	parent *tenv
	fn     *ssa.Function
	args   []ssa.Value
	depth  int
}

func (e *tenv) bound(v ssa.Value) (ssa.Value, *tenv) {
	for {
		prm, ok := v.(*ssa.Parameter)
		if !ok || e == nil || e.parent == nil || prm.Parent() != e.fn {
			return v, e
		}
		i := paramIndex(e.fn, prm)
		if i < 0 || i >= len(e.args) {
			return v, e
		}
		v, e = e.args[i], e.parent
	}
}

type tmpls struct {
	p    *Prog
	live map[string]map[*ssa.BasicBlock]bool
}

func lit(s string) []tmpl { return []tmpl{{{kind: pkLit, text: s, lo: -1, hi: -1}}} }
func onePiece(c piece) []tmpl  { return []tmpl{{c}} }

func cross(a, b []tmpl) []tmpl {
	var o []tmpl
	for _, x := range a {
		for _, y := range b {
			t := append(append(tmpl{}, x...), y...)
			o = append(o, t)
			if len(o) > 200 {
				return o
			}
		}
	}
	return o
}

// bytesOf looks through conversions to the bytes a text is made of.
func bytesOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		default:
			return v
		}
	}
}

func constStr(v ssa.Value) (string, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value), true
	}
	return "", false
}

// variadic gives the elements of the slice made for a variadic call (or a slice literal).
func variadic(v ssa.Value) ([]ssa.Value, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value == nil {
		return nil, true
	}
	s, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	al, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	n, ok := arrayLen(al.Type())
	if !ok {
		return nil, false
	}
	out := make([]ssa.Value, n)
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		i, ok := constOf(ia.Index)
		if !ok || i >= n {
			return nil, false
		}
		for _, u := range *ia.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == ia {
				out[i] = st.Val
			}
		}
	}
	for _, o := range out {
		if o == nil {
			return nil, false
		}
	}
	return out, true
}

func (m *tmpls) eval(v ssa.Value, env *tenv, seen map[ssa.Value]bool) []tmpl {
	v, env = env.bound(v)
	if s, ok := constStr(v); ok {
		return lit(s)
	}
	if seen[v] {
		return onePiece(piece{kind: pkWhat, v: v})
	}
	seen2 := map[ssa.Value]bool{v: true}
	for k := range seen {
		seen2[k] = true
	}
	unknown := onePiece(piece{kind: pkWhat, v: v, lo: -1, hi: -1})
	switch x := v.(type) {
	case *ssa.ChangeType:
		return m.eval(x.X, env, seen2)
	case *ssa.MakeInterface:
		return m.eval(x.X, env, seen2)
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return cross(m.eval(x.X, env, seen2), m.eval(x.Y, env, seen2))
		}
	case *ssa.Phi:
		var out []tmpl
		live := m.blocks(x.Parent(), env)
		for i, e := range x.Edges {
			if !live[x.Block().Preds[i]] {
				continue
			}
			out = append(out, m.eval(e, env, seen2)...)
		}
		return out
	case *ssa.Convert:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return m.eval(x.X, env, seen2)
		}
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			return onePiece(m.textPiece(x.X, x, env))
		}
	case *ssa.Slice:
		in := m.eval(x.X, env, seen2)
		lo, lok := optConst(x.Low)
		hi, hok := optConst(x.High)
		if !lok || !hok {
			return unknown
		}
		var out []tmpl
		for _, t := range in {
			t = t.join()
			if len(t) != 1 {
				return unknown
			}
			c := t[0]
			switch c.kind {
			case pkText:
				if c.lo < 0 && c.hi < 0 && c.trim == "" {
					c.lo, c.hi = lo, hi
				} else {
					c.kind = pkWhat
				}
			case pkHex:
				if lo > 0 && lo%2 == 1 || hi >= 0 && hi%2 == 1 {
					c.kind = pkHexVar
				}
			default:
				c.kind = pkWhat
			}
			out = append(out, tmpl{c})
		}
		return out
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if g, ok := x.X.(*ssa.Global); ok {
				if s, ok := m.globalStr(g); ok {
					return lit(s)
				}
			}
			switch a := x.X.(type) {
			case *ssa.FieldAddr:
				return onePiece(piece{kind: pkGiven, v: v, lo: -1, hi: -1})
			case *ssa.IndexAddr:
				return onePiece(piece{kind: pkGiven, v: v, lo: -1, hi: -1})
			case *ssa.Alloc:
				if s := soleStore(a); s != nil {
					return m.eval(s, env, seen2)
				}
			}
		}
	case *ssa.Field:
		return onePiece(piece{kind: pkGiven, v: v, lo: -1, hi: -1})
	case *ssa.Parameter:
		return onePiece(piece{kind: pkGiven, v: v, lo: -1, hi: -1})
	case *ssa.Call:
		return m.call(x, env, seen2)
	}
	return unknown
}

func optConst(v ssa.Value) (int64, bool) {
	if v == nil {
		return -1, true
	}
	return constOf(v)
}

// soleStore gives the value of a local variable that is written once.
func soleStore(a *ssa.Alloc) ssa.Value {
	var v ssa.Value
	for _, ref := range *a.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
			if v != nil {
				return nil
			}
			v = st.Val
		}
	}
	return v
}

// globalStr gives the text of a variable of the package that only its initialiser writes.
func (m *tmpls) globalStr(g *ssa.Global) (string, bool) {
	val, n := "", 0
	for _, f := range append([]*ssa.Function{g.Pkg.Func("init")}, m.p.Funcs...) {
		if f == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == g {
					n++
					val, ok = constStr(st.Val)
					if !ok {
						return "", false
					}
				}
			}
		}
	}
	return val, n == 1
}

// textPiece describes the bytes v taken over as text.
func (m *tmpls) textPiece(v ssa.Value, at ssa.Instruction, env *tenv) piece {
	c := piece{kind: pkText, lo: -1, hi: -1, at: at}
	for i := 0; i < 10; i++ {
		v, env = env.bound(v)
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Slice:
			lo, ok1 := optConst(x.Low)
			hi, ok2 := optConst(x.High)
			if ok1 && ok2 && c.lo < 0 && c.hi < 0 {
				c.lo, c.hi = lo, hi
				v = x.X
				continue
			}
			if !ok1 || !ok2 {
				c.kind = pkWhat
			}
		case *ssa.Call:
			if calleeName(&x.Call) == "bytes.TrimRight" && c.trim == "" && c.lo < 0 && c.hi < 0 {
				if s, ok := constStr(x.Call.Args[1]); ok {
					c.trim = s
					v = x.Call.Args[0]
					continue
				}
			}
		}
		break
	}
	c.v = v
	return c
}

func (m *tmpls) call(x *ssa.Call, env *tenv, seen map[ssa.Value]bool) []tmpl {
	com := &x.Call
	unknown := onePiece(piece{kind: pkWhat, v: x, lo: -1, hi: -1})
	name := calleeName(com)
	switch name {
	case "fmt.Sprintf":
		return m.sprintf(x, env, seen)
	case "fmt.Sprint":
		args, ok := variadic(com.Args[0])
		if !ok || len(args) != 1 {
			return unknown
		}
		return m.verb('v', "", args[0], x, env, seen)
	case "encoding/hex.EncodeToString":
		c := m.textPiece(com.Args[0], x, env)
		if c.kind == pkText {
			c.kind = pkHex
		}
		return onePiece(c)
	case "strconv.Quote":
		return onePiece(piece{kind: pkQuoted, v: com.Args[0], lo: -1, hi: -1})
	case "strconv.Itoa":
		return onePiece(piece{kind: pkDec, v: com.Args[0], lo: -1, hi: -1})
	case "strconv.FormatUint", "strconv.FormatInt":
		if k, ok := constOf(com.Args[1]); ok && k == 10 {
			return onePiece(piece{kind: pkDec, v: com.Args[0], lo: -1, hi: -1})
		} else if ok && k == 16 {
			return onePiece(piece{kind: pkHexVar, v: com.Args[0], lo: -1, hi: -1})
		}
		return unknown
	case "math/big.Int.String":
		return onePiece(piece{kind: pkDec, v: com.Args[0], lo: -1, hi: -1})
	case "math/big.Int.Text":
		if k, ok := constOf(com.Args[1]); ok && k == 10 {
			return onePiece(piece{kind: pkDec, v: com.Args[0], lo: -1, hi: -1})
		} else if ok && k == 16 {
			return onePiece(piece{kind: pkHexVar, v: com.Args[0], lo: -1, hi: -1})
		}
		return unknown
	case "strings.TrimRight", "strings.TrimSuffix", "strings.TrimRightFunc":
		s, ok := constStr(com.Args[1])
		in := m.eval(com.Args[0], env, seen)
		var out []tmpl
		for _, t := range in {
			t = t.join()
			if len(t) == 1 && t[0].kind == pkText && ok && name == "strings.TrimRight" {
				c := t[0]
				c.trim += s
				out = append(out, tmpl{c})
			} else {
				return unknown
			}
		}
		return out
	case "strings.Trim", "strings.TrimLeft", "strings.TrimPrefix", "strings.TrimSpace":
		in := m.eval(com.Args[0], env, seen)
		var out []tmpl
		for _, t := range in {
			t = t.join()
			if len(t) == 1 && t[0].kind == pkText {
				c := t[0]
				c.cut = true
				out = append(out, tmpl{c})
			} else {
				return unknown
			}
		}
		return out
	case "strings.ToLower", "strings.ToUpper":
		in0 := m.eval(com.Args[0], env, seen)
		if len(in0) == 1 && len(in0[0].join()) == 1 && in0[0].join()[0].kind == pkText {
			c := in0[0].join()[0]
			c.cut = true
			return onePiece(c)
		}
		in := m.eval(com.Args[0], env, seen)
		for _, t := range in {
			for _, c := range t {
				if c.kind == pkText || c.kind == pkGiven || c.kind == pkLit && c.text != "0x" {
					return unknown
				}
			}
		}
		return in
	case "strings.Join":
		args, ok := variadic(com.Args[0])
		sep, ok2 := constStr(com.Args[1])
		if !ok || !ok2 {
			return unknown
		}
		out := lit("")
		for i, a := range args {
			if i > 0 {
				out = cross(out, lit(sep))
			}
			out = cross(out, m.eval(a, env, seen))
		}
		return out
	}
	callee := com.StaticCallee()
	if callee == nil {
		if ts := m.p.resolve(com); len(ts) == 1 {
			callee = ts[0]
		}
	}
	if callee == nil || len(callee.Blocks) == 0 || callee.Pkg == nil || !isModPath(callee.Pkg.Pkg.Path()) || env.depth > 6 {
		return unknown
	}
	out := m.results(callee, com.Args, env, seen)
	for _, t := range out {
		for i := range t {
			t[i].sites = append(append([]ssa.Instruction{}, t[i].sites...), x)
		}
	}
	return out
}

// results gives the templates of what a function returns.
func (m *tmpls) results(f *ssa.Function, args []ssa.Value, env *tenv, seen map[ssa.Value]bool) []tmpl {
	d := 0
	if env != nil {
		d = env.depth
	}
	e := &tenv{parent: env, fn: f, args: args, depth: d + 1}
	if args == nil {
		e.parent = nil
	}
	live := m.blocks(f, e)
	var out []tmpl
	for _, b := range f.Blocks {
		if !live[b] {
			continue
		}
		for _, in := range b.Instrs {
			ret, ok := in.(*ssa.Return)
			if !ok || len(ret.Results) == 0 {
				continue
			}
			for _, t := range m.eval(ret.Results[0], e, seen) {
				t = t.join()
				for i := range t {
					if t[i].at == nil {
						t[i].at = ret
					}
				}
				out = append(out, t)
			}
		}
	}
	return out
}

// blocks gives the blocks of f that can be reached with the constants bound in env.
func (m *tmpls) blocks(f *ssa.Function, env *tenv) map[*ssa.BasicBlock]bool {
	live := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if live[b] {
			return
		}
		live[b] = true
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if t, known := m.constCond(iff.Cond, env); known {
				if t {
					walk(b.Succs[0])
				} else {
					walk(b.Succs[1])
				}
				return
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	if len(f.Blocks) > 0 {
		walk(f.Blocks[0])
	}
	return live
}

func (m *tmpls) constCond(v ssa.Value, env *tenv) (bool, bool) {
	x, ok := v.(*ssa.BinOp)
	if !ok || x.Op != token.EQL && x.Op != token.NEQ {
		return false, false
	}
	a, _ := env.bound(x.X)
	b, _ := env.bound(x.Y)
	ka, ok1 := constOf(a)
	kb, ok2 := constOf(b)
	if !ok1 || !ok2 {
		return false, false
	}
	return (ka == kb) == (x.Op == token.EQL), true
}

func (m *tmpls) sprintf(x *ssa.Call, env *tenv, seen map[ssa.Value]bool) []tmpl {
	unknown := onePiece(piece{kind: pkWhat, v: x, lo: -1, hi: -1})
	f, _ := env.bound(x.Call.Args[0])
	format, ok := constStr(f)
	if !ok {
		return unknown
	}
	args, ok := variadic(x.Call.Args[1])
	if !ok {
		return unknown
	}
	out := lit("")
	i := 0
	for len(format) > 0 {
		j := strings.IndexByte(format, '%')
		if j < 0 {
			out = cross(out, lit(format))
			break
		}
		out = cross(out, lit(format[:j]))
		format = format[j+1:]
		k := 0
		for k < len(format) && strings.IndexByte("+-# 0123456789.", format[k]) >= 0 {
			k++
		}
		if k == len(format) {
			return unknown
		}
		flags, verb := format[:k], format[k]
		format = format[k+1:]
		if verb == '%' {
			out = cross(out, lit("%"))
			continue
		}
		if i >= len(args) {
			return unknown
		}
		out = cross(out, m.verb(verb, flags, args[i], x, env, seen))
		i++
	}
	return out
}

func (m *tmpls) verb(verb byte, flags string, arg ssa.Value, at ssa.Instruction, env *tenv, seen map[ssa.Value]bool) []tmpl {
	unknown := onePiece(piece{kind: pkWhat, v: arg, lo: -1, hi: -1, at: at})
	a := arg
	if mi, ok := a.(*ssa.MakeInterface); ok {
		a = mi.X
	}
	a, e2 := env.bound(a)
	isByte, isInt, isBytes, isStr := false, false, false, false
	switch u := a.Type().Underlying().(type) {
	case *types.Basic:
		isByte = u.Kind() == types.Uint8
		isInt = u.Info()&types.IsInteger != 0
		isStr = u.Info()&types.IsString != 0
	case *types.Slice:
		isBytes = isByteT(u.Elem())
	}
	isBig := strings.HasSuffix(types.TypeString(a.Type(), nil), "math/big.Int")
	c := piece{v: a, lo: -1, hi: -1, at: at}
	switch verb {
	case 's', 'v':
		switch {
		case isStr && flags == "":
			return m.eval(a, e2, seen)
		case isBytes && verb == 's' && flags == "":
			return onePiece(m.textPiece(a, at, e2))
		case (isInt || isBig) && verb == 'v' && flags == "":
			c.kind = pkDec
			return onePiece(c)
		}
	case 'd':
		if (isInt || isBig) && (flags == "" || strings.HasPrefix(flags, "0") && allDigits(flags)) {
			c.kind = pkDec
			return onePiece(c)
		}
	case 'q':
		c.kind = pkQuoted
		return onePiece(c)
	case 'x', 'X':
		switch {
		case isBytes && flags == "":
			c = m.textPiece(a, at, e2)
			if c.kind == pkText {
				c.kind = pkHex
			}
			return onePiece(c)
		case isStr && flags == "":
			c.kind = pkHex
			return onePiece(c)
		case isInt || isBig:
			switch {
			case flags == "":
				c.kind = pkHexVar
			case strings.HasPrefix(flags, "0") && allDigits(flags):
				w, _ := strconv.Atoi(flags)
				c.kind, c.width = pkHexW, w
				if w == 2 && isByte {
					c.kind = pkHex2
				}
			default:
				return unknown
			}
			return onePiece(c)
		}
	}
	return unknown
}

func isByteT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func allDigits(s string) bool {
	for _, c := range s {
		if c < '0' || c > '9' {
			return false
		}
	}
	return s != ""
}

// ---------------------------------------------------------------------------------------------------------------
// the reader

type addrForm struct {
	start, end int64 // where the name goes; -1 if not found
	filler     int64
	shardAt    int64
}

type notation struct {
	prefix string
	skips  map[int64]bool // how much of the text is left out after the prefix was seen
	width  map[int64]bool // widths passed along with the rest of the text
	at     ssa.Instruction
	rest   []ssa.Value
}

type exprReader struct {
	p     *Prog
	fns   map[*ssa.Function]bool
	byPre map[string]*notation
	sep   map[string]bool // separators of concatenated values
	addr  map[string]*addrForm
}

const interpPkg = "mandos-go/expression/interpreter"

// tableRow: v is a field of an element of a table of structs that is looped over; gives the values of the row fields.
func (er *exprReader) table(v ssa.Value) (rows map[int64]map[int]ssa.Value, field int, ok bool) {
	u, isLoad := v.(*ssa.UnOp)
	var elem ssa.Value
	if isLoad && u.Op == token.MUL {
		if fa, isF := u.X.(*ssa.FieldAddr); isF {
			field, elem = fa.Field, fa.X
		}
	} else if fl, isF := v.(*ssa.Field); isF {
		field, elem = fl.Field, fl.X
	}
	if elem == nil {
		return nil, 0, false
	}
	// the element: a copy of it, or its place
	if al, isA := elem.(*ssa.Alloc); isA {
		elem = soleStore(al)
	}
	if u, isL := elem.(*ssa.UnOp); isL && u.Op == token.MUL {
		elem = u.X
	}
	ia, isI := elem.(*ssa.IndexAddr)
	if !isI {
		return nil, 0, false
	}
	list := ia.X
	var init []*ssa.Function
	if u, isL := list.(*ssa.UnOp); isL {
		if g, isG := u.X.(*ssa.Global); isG {
			init = []*ssa.Function{g.Pkg.Func("init")}
			list = nil
			for _, f := range init {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if st, isS := in.(*ssa.Store); isS && st.Addr == g {
							list = st.Val
						}
					}
				}
			}
		}
	}
	if sl, isS := list.(*ssa.Slice); isS {
		list = sl.X
	}
	al, isA := list.(*ssa.Alloc)
	if !isA {
		return nil, 0, false
	}
	rows = map[int64]map[int]ssa.Value{}
	for _, ref := range *al.Referrers() {
		x, isI := ref.(*ssa.IndexAddr)
		if !isI {
			continue
		}
		k, isC := constOf(x.Index)
		if !isC {
			continue
		}
		row := map[int]ssa.Value{}
		var places []ssa.Value
		places = append(places, x)
		for _, u := range *x.Referrers() {
			if st, isS := u.(*ssa.Store); isS && st.Addr == x {
				if ld, isL := st.Val.(*ssa.UnOp); isL && ld.Op == token.MUL {
					places = append(places, ld.X)
				}
			}
		}
		for _, pl := range places {
			if pl.Referrers() == nil {
				continue
			}
			for _, u := range *pl.Referrers() {
				if fa, isF := u.(*ssa.FieldAddr); isF {
					for _, w := range *fa.Referrers() {
						if st, isS := w.(*ssa.Store); isS && st.Addr == fa {
							row[fa.Field] = st.Val
						}
					}
				}
			}
		}
		rows[k] = row
	}
	return rows, field, len(rows) > 0
}

// prefixConsts gives the prefixes tested: a constant, or the constants of a list of the package that is looped over.
func (er *exprReader) prefixConsts(v ssa.Value) []string {
	if s, ok := constStr(v); ok {
		return []string{s}
	}
	if rows, field, ok := er.table(v); ok {
		var out []string
		for _, row := range rows {
			if s, ok := constStr(row[field]); ok {
				out = append(out, s)
			}
		}
		sort.Strings(out)
		return out
	}
	var list ssa.Value
	switch x := v.(type) {
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			list = ia.X
		}
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				list = rg.X
			}
		}
	}
	if u, ok := list.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			for _, f := range append([]*ssa.Function{g.Pkg.Func("init")}, er.p.Funcs...) {
				if f == nil || f.Pkg != g.Pkg {
					continue
				}
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok && st.Addr == g {
							if vs, ok := variadic(st.Val); ok {
								var out []string
								for _, e := range vs {
									if s, ok := constStr(e); ok {
										out = append(out, s)
									}
								}
								return out
							}
						}
					}
				}
			}
		}
	}
	if vs, ok := variadic(list); ok && list != nil {
		var out []string
		for _, e := range vs {
			if s, ok := constStr(e); ok {
				out = append(out, s)
			}
		}
		return out
	}
	return nil
}

// sameText tells whether two values are the same text (the same value, or re-read from the same unchanged place).
func sameText(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL && x.X == y.X
}

func readExpressions(p *Prog) *exprReader {
	er := &exprReader{p: p, fns: map[*ssa.Function]bool{}, byPre: map[string]*notation{}, sep: map[string]bool{}, addr: map[string]*addrForm{}}
	for _, f := range p.Funcs {
		if f.Pkg != nil && pkgRel(f) == interpPkg && len(f.Blocks) > 0 && f.Synthetic == "" {
			er.fns[f] = true
		}
	}
	for _, f := range sortedFns(er.fns) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				switch calleeName(&c.Call) {
				case "strings.HasPrefix":
					for _, pre := range er.prefixConsts(c.Call.Args[1]) {
						n := er.byPre[pre]
						if n == nil {
							n = &notation{prefix: pre, skips: map[int64]bool{}, width: map[int64]bool{}, at: c}
							er.byPre[pre] = n
						}
						er.after(f, c, c.Call.Args[0], c.Call.Args[1], n, map[*ssa.Function]bool{})
					}
				case "strings.CutPrefix":
					for _, pre := range er.prefixConsts(c.Call.Args[1]) {
						n := &notation{prefix: pre, skips: map[int64]bool{int64(len(pre)): true}, width: map[int64]bool{}, at: c}
						er.byPre[pre] = n
						for _, ref := range *c.Referrers() {
							if ex, ok := ref.(*ssa.Extract); ok && ex.Index == 0 {
								er.restUsed(ex, n)
							}
						}
					}
				case "strings.Split":
					if s, ok := constStr(c.Call.Args[1]); ok && er.rootText(c.Call.Args[0]) {
						er.sep[s] = true
					}
				case "strings.SplitN", "strings.Cut", "strings.Index", "strings.Contains":
					if s, ok := constStr(c.Call.Args[1]); ok && er.rootText(c.Call.Args[0]) {
						er.sep[s] = true
					}
				}
			}
		}
	}
	for pre, n := range er.byPre {
		if f := er.addressForm(n); f != nil {
			er.addr[pre] = f
		}
	}
	return er
}

func sortedFns(m map[*ssa.Function]bool) []*ssa.Function {
	var o []*ssa.Function
	for f := range m {
		o = append(o, f)
	}
	sort.Slice(o, func(i, j int) bool { return o[i].String() < o[j].String() })
	return o
}

// rootText: the whole text given to the interpreter.
func (er *exprReader) rootText(v ssa.Value) bool {
	prm, ok := v.(*ssa.Parameter)
	return ok && prm.Parent().Name() == "InterpretString" && prm.Type().Underlying() == types.Typ[types.String]
}

// after collects what happens with the text once it is known to begin with the prefix.
func (er *exprReader) after(f *ssa.Function, test *ssa.Call, s, pre ssa.Value, n *notation, seen map[*ssa.Function]bool) {
	// a helper that only answers whether the prefix is there: its callers act on it
	if onlyTests(f, test) && !seen[f] {
		seen[f] = true
		return
	}
	for _, b := range f.Blocks {
		if !underTest(b, test) {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Slice:
				if !sameText(x.X, s) {
					continue
				}
				if x.Low == nil {
					continue
				}
				if k, ok := constOf(x.Low); ok {
					n.skips[k] = true
				} else if lc, ok := x.Low.(*ssa.Call); ok && isLenCall(lc) && sameElem(lc.Call.Args[0], pre) {
					n.skips[int64(len(n.prefix))] = true
				} else {
					n.skips[-1] = true
				}
				er.restUsed(x, n)
			case *ssa.Call:
				switch calleeName(&x.Call) {
				case "strings.TrimPrefix":
					if sameText(x.Call.Args[0], s) {
						if k, ok := constStr(x.Call.Args[1]); ok {
							n.skips[int64(len(k))] = true
						} else if sameElem(x.Call.Args[1], pre) {
							n.skips[int64(len(n.prefix))] = true
						}
						er.restUsed(x, n)
					}
				}
			}
		}
	}
}

func onlyTests(f *ssa.Function, test *ssa.Call) bool {
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 && ret.Results[0] == test {
			return true
		}
	}
	return false
}

func sameElem(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	if s, ok := constStr(a); ok {
		if t, ok := constStr(b); ok {
			return s == t
		}
	}
	if x, ok := a.(*ssa.Field); ok {
		y, ok := b.(*ssa.Field)
		return ok && x.X == y.X && x.Field == y.Field
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 {
		return false
	}
	if x.X == y.X {
		return true
	}
	if f, ok := x.X.(*ssa.FieldAddr); ok {
		g, ok := y.X.(*ssa.FieldAddr)
		return ok && f.Field == g.Field && (f.X == g.X || sameElem(f.X, g.X))
	}
	i, ok1 := x.X.(*ssa.IndexAddr)
	j, ok2 := y.X.(*ssa.IndexAddr)
	return ok1 && ok2 && i.Index == j.Index && sameElem(i.X, j.X)
}

// underTest tells whether b is only reached when the test answered yes; a short-circuit "or" of several tests counts.
func underTest(b *ssa.BasicBlock, test ssa.Value) bool {
	var edge func(from, to *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool
	edge = func(from, to *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
		iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
		return ok && iff.Cond == test && from.Succs[0] == to
	}
	for d := b; d != nil; d = d.Idom() {
		for _, pr := range d.Preds {
			if edge(pr, d, nil) {
				// every other way in must also be the yes of a test of a prefix
				all := true
				for _, o := range d.Preds {
					if o == pr {
						continue
					}
					iff, ok := o.Instrs[len(o.Instrs)-1].(*ssa.If)
					if !ok || o.Succs[0] != d {
						all = false
						break
					}
					c, ok := iff.Cond.(*ssa.Call)
					if !ok || calleeName(&c.Call) != "strings.HasPrefix" {
						all = false
						break
					}
				}
				if all {
					return true
				}
			}
		}
	}
	return false
}

// restUsed notes the constants passed along with the rest of the text.
func (er *exprReader) restUsed(rest ssa.Value, n *notation) {
	n.rest = append(n.rest, rest)
	if rest.Referrers() == nil {
		return
	}
	for _, ref := range *rest.Referrers() {
		c, ok := ref.(*ssa.Call)
		if !ok {
			continue
		}
		callee := c.Call.StaticCallee()
		if callee == nil || !er.fns[callee] {
			continue
		}
		for _, a := range c.Call.Args {
			if k, ok := constOf(a); ok {
				n.width[k] = true
			} else if rows, field, ok := er.table(a); ok {
				for _, row := range rows {
					for _, v := range row {
						if s, ok := constStr(v); ok && s == n.prefix {
							if k, ok := constOf(row[field]); ok {
								n.width[k] = true
							}
						}
					}
				}
			}
		}
	}
}

// addressForm follows the rest of the text into the construction of a 32-byte address.
func (er *exprReader) addressForm(n *notation) *addrForm {
	form := &addrForm{start: -1, end: -1, filler: -1, shardAt: -1}
	found := false
	type frame struct {
		f    *ssa.Function
		args []ssa.Value
		up   *frame
	}
	var constIn func(v ssa.Value, fr *frame) (int64, bool)
	constIn = func(v ssa.Value, fr *frame) (int64, bool) {
		if k, ok := constOf(v); ok {
			return k, true
		}
		switch x := v.(type) {
		case *ssa.Parameter:
			if fr != nil && fr.f == x.Parent() {
				if i := paramIndex(fr.f, x); i >= 0 && i < len(fr.args) {
					return constIn(fr.args[i], fr.up)
				}
			}
		case *ssa.BinOp:
			a, ok1 := constIn(x.X, fr)
			b, ok2 := constIn(x.Y, fr)
			if ok1 && ok2 {
				switch x.Op {
				case token.ADD:
					return a + b, true
				case token.SUB:
					return a - b, true
				}
			}
		case *ssa.Convert:
			return constIn(x.X, fr)
		}
		return 0, false
	}
	// lowest value of an index: a counter starts at its initial value
	var lowest func(v ssa.Value, fr *frame) (int64, bool, bool) // value, known, moves
	lowest = func(v ssa.Value, fr *frame) (int64, bool, bool) {
		if k, ok := constIn(v, fr); ok {
			return k, true, false
		}
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if b, ok := e.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == x {
					continue
				}
				if k, ok, _ := lowest(e, fr); ok {
					return k, true, true
				}
			}
		case *ssa.BinOp:
			if x.Op == token.ADD {
				a, ok1, m1 := lowest(x.X, fr)
				b, ok2, m2 := lowest(x.Y, fr)
				if ok1 && ok2 {
					return a + b, true, m1 || m2
				}
			}
		}
		return 0, false, true
	}
	isAddr := func(v ssa.Value) bool {
		n, ok := arrayLen(v.Type())
		if ok {
			return n == 32
		}
		if sl, ok := v.(*ssa.MakeSlice); ok {
			k, ok := constOf(sl.Len)
			return ok && k == 32
		}
		if sl, ok := v.(*ssa.Slice); ok {
			n, ok := arrayLen(sl.X.Type())
			return ok && n == 32
		}
		return false
	}
	var visit func(f *ssa.Function, fr *frame, depth int)
	visit = func(f *ssa.Function, fr *frame, depth int) {
		if depth > 5 {
			return
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					ia, ok := x.Addr.(*ssa.IndexAddr)
					if !ok || !isAddr(ia.X) {
						continue
					}
					found = true
					lo, ok, moves := lowest(ia.Index, fr)
					if k, isC := constOf(x.Val); isC {
						if moves {
							form.filler = k
						}
						continue
					}
					if moves && ok {
						form.start = lo
					} else if ok && !moves {
						form.shardAt = lo
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "copy" {
						dst := x.Call.Args[0]
						lo := int64(0)
						okLo := true
						if sl, ok := dst.(*ssa.Slice); ok && isAddr(sl.X) {
							if sl.Low != nil {
								lo, okLo = constIn(sl.Low, fr)
							}
						} else if !isAddr(dst) {
							continue
						}
						found = true
						if okLo {
							form.start = lo
						}
						continue
					}
					if callee := x.Call.StaticCallee(); callee != nil && er.fns[callee] {
						if callee.Name() == "InterpretString" {
							continue
						}
						visit(callee, &frame{callee, x.Call.Args, fr}, depth+1)
					}
				}
			}
		}
	}
	for _, rest := range n.rest {
		if rest.Referrers() == nil {
			continue
		}
		for _, ref := range *rest.Referrers() {
			if c, ok := ref.(*ssa.Call); ok {
				if callee := c.Call.StaticCallee(); callee != nil && er.fns[callee] && callee.Name() != "InterpretString" {
					visit(callee, &frame{callee, c.Call.Args, nil}, 0)
				}
			}
		}
	}
	if !found {
		return nil
	}
	return form
}

// ---------------------------------------------------------------------------------------------------------------

// documented notations: what the description of InterpretString promises. width -1: any.
var notations = map[string]int64{
	"str:": -1, "``": -1, "''": -1, "address:": -1, "sc:": -1, "file:": -1, "keccak256:": -1, "0x": -1,
	"u64:": 8, "u32:": 4, "u16:": 2, "u8:": 1, "i64:": 8, "i32:": 4, "i16:": 2, "i8:": 1, "biguint:": -1, "nested:": -1,
}

// addressStart: addresses of smart contracts begin with eight zero bytes, others with none.
var addressStart = map[string]int64{"address:": 0, "sc:": 8}

type m05 struct {
	p    *Prog
	r    *Result
	er   *exprReader
	m    *tmpls
	seen map[string]bool
}

func checkM05(p *Prog, r *Result) {
	r.Rule = "every text the scenario tools compute for a value is decomposed, from the source, into literal parts, digits and bytes taken over as text; " +
		"each must be a notation that the interpreter of expressions accepts (prefix, layout of addresses, digits in pairs, no character that the interpreter takes as a separator); " +
		"the interpreter consumes exactly the prefix and uses the documented width; a text and the value it stands for come from the same source"
	m := &m05{p: p, r: r, er: readExpressions(p), m: &tmpls{p: p}, seen: map[string]bool{}}
	er := m.er
	for _, f := range sortedFns(er.fns) {
		r.saw(fname(f))
	}
	r.floor("notations known to the interpreter", len(er.byPre), 5)
	for pre, width := range notations {
		n := er.byPre[pre]
		if n == nil {
			r.violate("notation:"+pre, interpPkg, "the interpreter of expressions knows no notation %q", pre)
			continue
		}
		r.ok("documented notation is known to the interpreter")
		for k := range n.skips {
			if k != int64(len(pre)) {
				r.violate("skip:"+pre, p.pos(n.at.Pos()), "after the prefix %q the interpreter leaves out %d characters instead of %d", pre, k, len(pre))
			} else {
				r.ok("the prefix is left out exactly")
			}
		}
		if width >= 0 && len(n.width) > 0 && !n.width[width] {
			r.violate("width:"+pre, p.pos(n.at.Pos()), "numbers written %q are read with a width of %s bytes instead of %d", pre, ints(n.width), width)
		}
	}
	for _, pre := range sortedKeys(er.addr) {
		f := er.addr[pre]
		r.Counts["first byte of the name in "+pre] = int(f.start)
		if want, ok := addressStart[pre]; ok && f.start >= 0 && f.start != want {
			r.violate("layout:"+pre, interpPkg, "the reader puts the name of an address written %q at byte %d; these addresses begin with %d zero bytes", pre, f.start, want)
		} else {
			r.ok("layout of addresses")
		}
	}
	m.writers()
	m.pairs()
	m.formats()
	m.bounds()
}

func ints(s map[int64]bool) string {
	var o []string
	for k := range s {
		o = append(o, fmt.Sprint(k))
	}
	sort.Strings(o)
	return strings.Join(o, "/")
}

// writers judges everything that ends up as the text of a value.
func (m *m05) writers() {
	p, r := m.p, m.r
	n := 0
	for _, f := range p.Funcs {
		rel := pkgRel(f)
		if len(f.Blocks) == 0 || f.Synthetic != "" {
			continue
		}
		inTools := rel == "arwenmandos" || strings.HasPrefix(rel, "mandos-go/json/write") || rel == "mandos-go/json/model" ||
			strings.HasPrefix(rel, "mandos-go/expression") || strings.HasPrefix(rel, "mock/world") || strings.HasPrefix(rel, "cmd/testgen")
		if !inTools {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok || !isValueText(fa) || rel == "mandos-go/json/model" {
						continue
					}
					n++
					m.written(x.Val, x, f)
				case *ssa.Call:
					if callee := x.Call.StaticCallee(); callee != nil && callee.Name() == "InterpretString" && pkgRel(callee) == interpPkg && rel != interpPkg {
						n++
						m.written(x.Call.Args[len(x.Call.Args)-1], x, f)
					}
					if callee := x.Call.StaticCallee(); callee != nil && callee.Pkg != nil && pkgRel(callee) == "mandos-go/json/model" && takesText(callee) {
						n++
						m.written(x.Call.Args[len(x.Call.Args)-1], x, f)
					}
				}
			}
		}
		// everything the tools offer for rendering values
		if rel == "mandos-go/expression/reconstructor" && f.Signature.Results().Len() == 1 && f.Signature.Recv() != nil && isStringT(f.Signature.Results().At(0).Type()) {
			n++
			r.saw(fname(f))
			for _, t := range m.m.results(f, nil, nil, nil) {
				m.judge(t, f, true)
			}
		}
		if strings.HasPrefix(rel, "mandos-go/json/write") && f.Signature.Results().Len() == 1 && isStringT(f.Signature.Results().At(0).Type()) && takesBytes(f) {
			n++
			r.saw(fname(f))
			for _, t := range m.m.results(f, nil, nil, nil) {
				m.judge(t, f, true)
			}
		}
	}
	r.floor("places where the text of a value is written", n, 5)
}

func takesBytes(f *ssa.Function) bool {
	for _, prm := range f.Params {
		if sl, ok := prm.Type().Underlying().(*types.Slice); ok && isByteT(sl.Elem()) {
			return true
		}
	}
	return false
}

func takesText(f *ssa.Function) bool {
	if f.Signature.Results().Len() != 1 || len(f.Params) != 2 {
		return false
	}
	return strings.Contains(fullType(f.Signature.Results().At(0).Type()), "mandos-go/json/model.JSON") && isStringT(f.Params[1].Type())
}

// isValueText: the text of a value: X.Original of a value, or the text of a node of the JSON tree.
func isValueText(fa *ssa.FieldAddr) bool {
	st, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	name := st.Field(fa.Field).Name()
	tn := fullType(deref(fa.X.Type()))
	if name == "Original" && isStringT(st.Field(fa.Field).Type()) {
		return strings.Contains(tn, "mandos-go/json/model")
	}
	return name == "Value" && strings.HasSuffix(tn, "orderedjson.OJsonString")
}

func (m *m05) written(v ssa.Value, at ssa.Instruction, f *ssa.Function) {
	m.r.saw(fname(f))
	for _, t := range m.m.eval(v, &tenv{}, nil) {
		t = t.join()
		for i := range t {
			if t[i].at == nil {
				t[i].at = at
			}
		}
		m.judge(t, f, false)
	}
}

// judge decides one template.
func (m *m05) judge(t tmpl, f *ssa.Function, constants bool) {
	holes := 0
	var at ssa.Instruction
	for _, c := range t {
		if c.kind != pkLit && c.kind != pkGiven {
			holes++
			if c.at != nil {
				at = c.at
			}
		}
	}
	if holes == 0 {
		return // nothing computed
	}
	key := "written:" + t.String()
	pos := m.p.pos(f.Pos())
	if at != nil && at.Pos().IsValid() {
		pos = m.p.pos(at.Pos())
	}
	bad := func(format string, args ...interface{}) {
		if m.seen[key] {
			return
		}
		m.seen[key] = true
		m.r.violate(key, pos, "%s writes %q: %s", fname(f), t.String(), fmt.Sprintf(format, args...))
	}
	good := func(what string) {
		m.r.ok("written form is read back: " + what)
	}
	head := t[0]
	switch head.kind {
	case pkWhat:
		// computed in a way that is not followed
		m.r.Counts["texts not followed"]++
		return
	case pkGiven:
		return
	case pkDec:
		if len(t) > 1 {
			bad("a number followed by something else is not a number to the reader")
			return
		}
		good("decimal number")
		return
	case pkHex, pkHexVar, pkHex2, pkHexW:
		bad("hexadecimal digits without the prefix 0x are read as a decimal number, or not at all")
		return
	case pkText:
		bad("bytes taken over as text without a prefix")
		return
	case pkQuoted:
		bad("quoted text is no notation of the reader")
		return
	}
	// literal first: longest prefix of the reader it begins with
	pre := ""
	for q := range m.er.byPre {
		if strings.HasPrefix(head.text, q) && len(q) > len(pre) {
			pre = q
		}
	}
	if pre == "" {
		bad("the reader knows no notation that begins like this")
		return
	}
	rest := append(tmpl{}, t...)
	rest[0].text = head.text[len(pre):]
	rest = rest.join()
	switch pre {
	case "0x", "0X":
		if len(rest) == 0 || rest[0].kind == pkWhat || rest[0].kind == pkGiven {
			m.r.Counts["texts not followed"]++
			return
		}
		c := rest[0]
		switch {
		case c.kind == pkHex || c.kind == pkHex2 || c.kind == pkHexW && c.width%2 == 0, c.kind == pkHexVar:
		default:
			bad("%s after 0x are not hexadecimal digits", c)
			return
		}
		if len(rest) > 1 {
			if len(rest) == 2 && rest[1].kind == pkLit && rest[1].text == "..." {
				good("abbreviated for display")
				return
			}
			bad("the reader takes everything after 0x for hexadecimal digits, and fails on what follows them")
			return
		}
		good("hexadecimal bytes")
	case "str:", "``", "''":
		for _, c := range rest {
			if c.kind == pkText {
				if c.cut || c.trim != "" {
					bad("the text is changed before it is written")
					return
				}
				if s := m.unguarded(c, f); s != "" {
					bad("the text may contain %q, which the reader takes as a separator of values", s)
					return
				}
			}
			if c.kind == pkQuoted {
				bad("the quotes become part of the value")
				return
			}
		}
		good("text")
	case "address:", "sc:":
		m.address(pre, rest, f, bad, good)
	case "0b", "0B":
		for _, c := range rest {
			if c.kind != pkGiven && c.kind != pkWhat && c.kind != pkLit {
				bad("%s after %s are not binary digits", c, pre)
				return
			}
		}
	case "file:", "keccak256:", "nested:":
		m.r.Counts["texts not followed"]++
	case "biguint:", "u64:", "u32:", "u16:", "u8:":
		if len(rest) == 1 && (rest[0].kind == pkDec) || len(rest) == 2 && rest[0].kind == pkLit && rest[0].text == "0x" && rest[1].kind != pkDec && rest[1].kind != pkText {
			good("number of fixed width")
		} else if len(rest) == 1 && rest[0].kind == pkGiven {
		} else {
			bad("not a number")
		}
	case "i64:", "i32:", "i16:", "i8:":
		if len(rest) == 1 && rest[0].kind == pkDec {
			good("number of fixed width")
		}
	default:
		m.r.Counts["texts not followed"]++
	}
}

// unguarded gives a separator of the reader that the text may contain.
func (m *m05) unguarded(c piece, f *ssa.Function, more ...string) string {
	// the JSON text is taken over without escapes: a quote ends it, a backslash at its end hides the quote that does
	seps := append(append(sortedKeys(m.er.sep), `"`, `\`), more...)
	for _, s := range seps {
		if s == "" {
			continue
		}
		if !m.excludes(c, s) {
			return s
		}
	}
	return ""
}

// excludes: on the way to where the text is taken over it was found not to contain the separator.
func (m *m05) excludes(c piece, sep string) bool {
	for _, at := range append([]ssa.Instruction{c.at}, c.sites...) {
		if m.excludedAt(at, sep) {
			return true
		}
	}
	return false
}

func (m *m05) excludedAt(in ssa.Instruction, sep string) bool {
	if in == nil || in.Block() == nil {
		return false
	}
	for b := in.Block(); b != nil; b = b.Idom() {
		for _, pr := range b.Preds {
			iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
			if !ok || len(b.Preds) != 1 {
				continue
			}
			if m.saysFree(iff.Cond, pr.Succs[0] == b, sep, map[*ssa.Function]bool{}) {
				return true
			}
		}
	}
	return false
}

// saysFree: cond being truth means that a text does not contain sep.
func (m *m05) saysFree(cond ssa.Value, truth bool, sep string, seen map[*ssa.Function]bool) bool {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return m.saysFree(x.X, !truth, sep, seen)
		}
	case *ssa.Phi: // a || b is false: both are
		for i, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value != nil {
				if constant.BoolVal(c.Value) != truth {
					// this edge is not taken: the condition that led here had the other outcome
					pr := x.Block().Preds[i]
					if iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If); ok && m.saysFree(iff.Cond, !(pr.Succs[0] == x.Block()), sep, seen) {
						return true
					}
				}
				continue
			}
			if m.saysFree(e, truth, sep, seen) {
				return true
			}
		}
	case *ssa.Call:
		name := calleeName(&x.Call)
		switch name {
		case "strings.Contains", "bytes.Contains", "strings.ContainsAny", "bytes.ContainsAny", "strings.ContainsRune", "bytes.ContainsRune":
			if truth {
				return false
			}
			a := x.Call.Args[1]
			if s, ok := constStr(bytesOf(a)); ok {
				if strings.HasSuffix(name, "Any") {
					return strings.Contains(s, sep)
				}
				return s == sep
			}
			if k, ok := constOf(a); ok {
				return len(sep) == 1 && k == int64(sep[0])
			}
			return false
		}
		if callee := x.Call.StaticCallee(); callee != nil && len(callee.Blocks) > 0 && !seen[callee] && callee.Pkg != nil && isModPath(callee.Pkg.Pkg.Path()) {
			seen[callee] = true
			// a helper: every return that can answer truth lies behind a test, or returns one
			okAll, any := true, false
			for _, b := range callee.Blocks {
				ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok || len(ret.Results) != 1 {
					continue
				}
				if c, ok := ret.Results[0].(*ssa.Const); ok && c.Value != nil && constant.BoolVal(c.Value) != truth {
					continue
				}
				any = true
				if m.saysFree(ret.Results[0], truth, sep, seen) {
					continue
				}
				if m.excludes(piece{at: ret}, sep) {
					continue
				}
				if loopCompares(callee, sep) {
					continue
				}
				okAll = false
			}
			delete(seen, callee)
			return any && okAll
		}
	case *ssa.BinOp:
		// IndexByte(text, sep) < 0 and the like
		call, ok := x.X.(*ssa.Call)
		if !ok {
			return false
		}
		name := calleeName(&call.Call)
		if !strings.Contains(name, ".Index") {
			return false
		}
		match := false
		if s, ok := constStr(bytesOf(call.Call.Args[1])); ok {
			match = s == sep || strings.HasSuffix(name, "Any") && strings.Contains(s, sep)
		} else if k, ok := constOf(call.Call.Args[1]); ok {
			match = len(sep) == 1 && k == int64(sep[0])
		}
		if !match {
			return false
		}
		k, ok := constOf(x.Y)
		if !ok {
			return false
		}
		switch x.Op {
		case token.LSS:
			return truth && k == 0
		case token.GEQ:
			return !truth && k == 0
		case token.EQL:
			return truth && k == -1
		case token.NEQ:
			return !truth && k == -1
		}
	}
	return false
}

// loopCompares: the helper looks at each byte and compares it with the separator.
func loopCompares(f *ssa.Function, sep string) bool {
	if len(sep) != 1 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.BinOp); ok && (x.Op == token.EQL || x.Op == token.NEQ) {
				if k, ok := constOf(x.Y); ok && k == int64(sep[0]) {
					if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && (bt.Kind() == types.Uint8 || bt.Kind() == types.Int32) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (m *m05) address(pre string, rest tmpl, f *ssa.Function, bad func(string, ...interface{}), good func(string)) {
	form := m.er.addr[pre]
	if len(rest) == 0 {
		return
	}
	// literal name: sc:dns#xx
	i := 0
	name := rest[0]
	if name.kind == pkLit && strings.HasPrefix(name.text, "#") {
		name = piece{kind: pkLit, text: "", lo: -1, hi: -1}
		i = 0
	} else {
		i = 1
	}
	tail := append(tmpl{}, rest[i:]...)
	if name.kind == pkLit {
		if j := strings.IndexByte(name.text, '#'); j >= 0 {
			tail = append(tmpl{{kind: pkLit, text: name.text[j:], lo: -1, hi: -1}}, tail...)
			name.text = name.text[:j]
		}
	}
	switch name.kind {
	case pkText:
		if name.cut {
			bad("the name is changed before it is written, and the reader does not undo it")
			return
		}
		if s := m.unguarded(name, f, "#"); s != "" {
			bad("the name may contain %q, which the reader takes as a separator", s)
			return
		}
		if form != nil {
			lo := name.lo
			if lo < 0 {
				lo = 0
			}
			if form.start >= 0 && lo != form.start {
				bad("the name is taken from byte %d of the address on, the reader puts it at byte %d", lo, form.start)
				return
			}
			if form.filler >= 0 && name.trim != "" && name.trim != string(rune(form.filler)) {
				bad("%q is cut off the name, the reader fills up with %q", name.trim, string(rune(form.filler)))
				return
			}
			if len(tail) == 0 && name.hi >= 0 && name.hi != 32 {
				bad("the name ends at byte %d of the address and nothing gives the rest", name.hi)
				return
			}
			if len(tail) > 0 && form.shardAt >= 0 && name.hi >= 0 && name.hi != form.shardAt {
				bad("the name ends at byte %d of the address, the byte written after # belongs to byte %d", name.hi, form.shardAt)
				return
			}
			if form.start > 0 {
				if n, known := m.leading(name); known && n != form.start {
					bad("only %d leading zero bytes are looked for, the reader puts %d", n, form.start)
					return
				}
			}
		}
		if n, known := m.lengthTested(name); known && n != 32 {
			bad("addresses have 32 bytes, the length looked for is %d", n)
			return
		} else if !known {
			bad("the length of the address is not looked at: the reader always makes 32 bytes")
			return
		}
	case pkLit, pkGiven, pkDec:
	case pkWhat:
		m.r.Counts["texts not followed"]++
		return
	default:
		bad("%s is no name of an address", name)
		return
	}
	if len(tail) == 0 {
		good("address")
		return
	}
	if tail[0].kind == pkDec || tail[0].kind == pkText || tail[0].kind == pkGiven || tail[0].kind == pkWhat {
		m.r.Counts["texts not followed"]++
		return
	}
	if tail[0].kind != pkLit || tail[0].text != "#" && !strings.HasSuffix(tail[0].text, "#") {
		if len(tail) == 1 && tail[0].kind == pkLit && !strings.Contains(tail[0].text, "#") {
			good("address")
			return
		}
		bad("what follows the name is not a shard number")
		return
	}
	if len(tail) != 2 {
		bad("what follows the name is not a shard number")
		return
	}
	d := tail[1]
	switch d.kind {
	case pkHex2:
	case pkHexW:
		if d.width != 2 {
			bad("the shard number must have exactly two hexadecimal digits")
			return
		}
	case pkHexVar:
		bad("a shard number below 16 is written with one hexadecimal digit, the reader wants two")
		return
	case pkGiven, pkWhat:
		m.r.Counts["texts not followed"]++
		return
	case pkHex:
		if d.lo >= 0 && d.hi >= 0 && d.hi-d.lo != 1 || d.hi < 0 && d.lo != 31 {
			bad("the shard number must have exactly two hexadecimal digits")
			return
		}
	default:
		bad("%s is no shard number: the reader wants two hexadecimal digits", d)
		return
	}
	if form != nil && form.shardAt >= 0 && d.v != nil {
		if k, ok := indexOf(d); ok && k != form.shardAt {
			bad("byte %d of the address is written as shard number, the reader puts it at byte %d", k, form.shardAt)
			return
		}
	}
	good("address with a shard number")
}

// indexOf: which byte of the address a number was taken from.
func indexOf(c piece) (int64, bool) {
	if c.kind == pkHex {
		return c.lo, c.lo >= 0
	}
	v := bytesOf(c.v)
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if ia, ok := u.X.(*ssa.IndexAddr); ok {
			return constOf(ia.Index)
		}
	}
	return 0, false
}

// dominating conditions of the place where a text is taken over, as (condition, outcome).
func (m *m05) conds(in ssa.Instruction) []condAt {
	if in == nil || in.Block() == nil {
		return nil
	}
	q := newProver(m.p)
	return q.conds(Point{b: in.Block()})
}

// lengthTested: the length of the bytes was compared; gives the length they have.
func (m *m05) lengthTested(c piece) (int64, bool) {
	for _, k := range m.condsOf(c) {
		x, ok := k.v.(*ssa.BinOp)
		if !ok {
			continue
		}
		lc, ok := x.X.(*ssa.Call)
		if !ok || !isLenCall(lc) {
			continue
		}
		n, ok := constOf(x.Y)
		if !ok {
			continue
		}
		if x.Op == token.EQL && k.truth || x.Op == token.NEQ && !k.truth {
			return n, true
		}
	}
	return 0, false
}

func (m *m05) condsOf(c piece) []condAt {
	out := m.conds(c.at)
	for _, s := range c.sites {
		out = append(out, m.conds(s)...)
	}
	return out
}

// leading: how many bytes were compared with zeros before.
func (m *m05) leading(c piece) (int64, bool) {
	for _, k := range m.condsOf(c) {
		x, ok := k.v.(*ssa.Call)
		if !ok || !k.truth {
			continue
		}
		name := calleeName(&x.Call)
		if name == "bytes.Equal" {
			for _, a := range x.Call.Args {
				if sl, ok := a.(*ssa.Slice); ok && (sl.Low == nil || isZero(sl.Low)) && sl.High != nil {
					if _, made := sl.X.(*ssa.Alloc); made {
						continue
					}
					if n, ok := constOf(sl.High); ok {
						return n, true
					}
					if lc, ok := sl.High.(*ssa.Call); ok && isLenCall(lc) {
						if n, ok := madeLen(lc.Call.Args[0]); ok {
							return n, true
						}
					}
				}
			}
		}
		if name == "bytes.HasPrefix" {
			if n, ok := madeLen(x.Call.Args[1]); ok {
				return n, true
			}
		}
	}
	return 0, false
}

func madeLen(v ssa.Value) (int64, bool) {
	switch x := v.(type) {
	case *ssa.MakeSlice:
		return constOf(x.Len)
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			return arrayLen(al.Type())
		}
	}
	return 0, false
}

// ---------------------------------------------------------------------------------------------------------------

// pairs: the text of a value and the value itself come from the same source.
func (m *m05) pairs() {
	p, r := m.p, m.r
	n := 0
	for _, f := range p.Funcs {
		rel := pkgRel(f)
		if len(f.Blocks) == 0 || f.Synthetic != "" || !(rel == "arwenmandos" || strings.HasPrefix(rel, "mandos-go/json/")) {
			continue
		}
		type pair struct{ value, orig *ssa.Store }
		ps := map[ssa.Value]*pair{}
		var order []ssa.Value
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				tn := fullType(deref(fa.X.Type()))
				if !strings.Contains(tn, "mandos-go/json/model.JSON") {
					continue
				}
				fld := deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
				holder := holderOf(fa.X)
				q := ps[holder]
				if q == nil {
					q = &pair{}
					ps[holder] = q
					order = append(order, holder)
				}
				switch fld {
				case "Value":
					q.value = st
				case "Original":
					q.orig = st
				}
			}
		}
		for _, h := range order {
			q := ps[h]
			if q.value == nil || q.orig == nil {
				continue
			}
			n += m.pair(f, typeName(deref(h.Type())), q.value.Val, q.orig.Val, q.orig)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if callee := c.Call.StaticCallee(); callee != nil && callee.Pkg != nil && pkgRel(callee) == "mandos-go/json/model" && takesText(callee) {
						n += m.pair(f, typeName(callee.Signature.Results().At(0).Type()), c.Call.Args[0], c.Call.Args[1], c)
					}
				}
			}
		}
	}
	r.floor("values written together with their text", n, 3)
}

func fullType(t types.Type) string { return types.TypeString(deref(t), nil) }

func holderOf(v ssa.Value) ssa.Value {
	return v
}

func (m *m05) pair(f *ssa.Function, typ string, value, orig ssa.Value, at ssa.Instruction) int {
	text, hint, how := m.source(orig, 0)
	if how == "" {
		return 0
	}
	val, _, _ := m.source(value, 0)
	m.r.saw(fname(f))
	short := typ[strings.LastIndexByte(typ, '.')+1:]
	if text == "" || val == "" {
		return 0
	}
	if text != val {
		m.r.violate("pair:"+fname(f)+":"+val, m.p.pos(at.Pos()), "%s: the text written for %s is made from %s", fname(f), val, text)
		return 1
	}
	m.r.ok("text and value come from the same source")
	if how == "rendered" && hint >= 0 {
		name := m.hintName(hint)
		number := (strings.HasSuffix(short, "Int") || strings.HasSuffix(short, "Uint64"))
		switch {
		case number && name != "NumberHint":
			m.r.violate("hint:"+fname(f)+":"+val, m.p.pos(at.Pos()), "%s: the number %s is written as %s", fname(f), val, name)
		case !number && (name == "NumberHint" || name == "CodeHint"):
			m.r.violate("hint:"+fname(f)+":"+val, m.p.pos(at.Pos()), "%s: the bytes %s are written as %s, which does not keep all of them", fname(f), val, name)
		default:
			m.r.ok("the rendering fits the kind of value")
		}
	}
	return 1
}

func (m *m05) hintName(k int64) string {
	for _, f := range m.p.Funcs {
		if f.Pkg == nil || pkgRel(f) != "mandos-go/expression/reconstructor" {
			continue
		}
		for n, mem := range f.Pkg.Members {
			if c, ok := mem.(*ssa.NamedConst); ok && strings.HasSuffix(typeName(c.Type()), "ExprReconstructorHint") {
				if v, ok := constant.Int64Val(c.Value.Value); ok && v == k {
					return n
				}
			}
		}
		return fmt.Sprint(k)
	}
	return fmt.Sprint(k)
}

// source names what a value or a text is made of; how tells by which operation a text was made.
func (m *m05) source(v ssa.Value, depth int) (src string, hint int64, how string) {
	hint = -1
	if depth > 12 {
		return "", hint, ""
	}
	switch x := v.(type) {
	case *ssa.Convert:
		s, h, w := m.source(x.X, depth+1)
		from, _, ok1 := intInfo(x.X.Type())
		to, _, ok2 := intInfo(x.Type())
		if ok1 && ok2 && to < from && s != "" {
			s = fmt.Sprintf("the low %d bits of %s", to, s)
		}
		return s, h, w
	case *ssa.ChangeType:
		return m.source(x.X, depth+1)
	case *ssa.MakeInterface:
		return m.source(x.X, depth+1)
	case *ssa.Alloc:
		// &OJsonString{Value: ...}
		for _, ref := range *x.Referrers() {
			if fa, ok := ref.(*ssa.FieldAddr); ok && isValueText(fa) {
				for _, u := range *fa.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == fa {
						return m.source(st.Val, depth+1)
					}
				}
			}
		}
		if s := soleStore(x); s != nil {
			return m.source(s, depth+1)
		}
		return "", hint, ""
	case *ssa.Call:
		callee := x.Call.StaticCallee()
		if callee == nil || callee.Pkg == nil {
			return "", hint, ""
		}
		rel := pkgRel(callee)
		switch {
		case rel == "mandos-go/expression/reconstructor":
			arg := x.Call.Args[1]
			s, _, _ := m.source(arg, depth+1)
			if len(x.Call.Args) > 2 {
				if k, ok := constOf(x.Call.Args[2]); ok {
					hint = k
				}
			} else {
				hint = m.numberHint()
			}
			return s, hint, "rendered"
		case calleeName(&x.Call) == "math/big.Int.Bytes":
			return m.source(x.Call.Args[0], depth+1)
		case calleeName(&x.Call) == "math/big.Int.Uint64" || calleeName(&x.Call) == "math/big.Int.Int64":
			s, _, _ := m.source(x.Call.Args[0], depth+1)
			if s != "" {
				s = "the low 64 bits of " + s
			}
			return s, hint, ""
		case calleeName(&x.Call) == "encoding/hex.EncodeToString":
			s, _, _ := m.source(x.Call.Args[0], depth+1)
			return s, hint, "hex"
		}
		return "", hint, ""
	case *ssa.Parameter:
		return x.Name(), hint, ""
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return "", hint, ""
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			s, _, _ := m.source(a.X, depth+1)
			if s == "" {
				s = typeName(deref(a.X.Type()))
			}
			return s + "." + deref(a.X.Type()).Underlying().(*types.Struct).Field(a.Field).Name(), hint, ""
		case *ssa.IndexAddr:
			s, _, _ := m.source(a.X, depth+1)
			if k, ok := constOf(a.Index); ok {
				return fmt.Sprintf("%s[%d]", s, k), hint, ""
			}
			return s + "[]", hint, ""
		case *ssa.Alloc:
			if s := soleStore(a); s != nil {
				return m.source(s, depth+1)
			}
		}
		return "", hint, ""
	case *ssa.FieldAddr:
		s, _, _ := m.source(x.X, depth+1)
		return s + "." + deref(x.X.Type()).Underlying().(*types.Struct).Field(x.Field).Name(), hint, ""
	case *ssa.Field:
		s, _, _ := m.source(x.X, depth+1)
		return s + "." + x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name(), hint, ""
	case *ssa.Lookup:
		s, _, _ := m.source(x.X, depth+1)
		return s + "[key]", hint, ""
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				s, _, _ := m.source(rg.X, depth+1)
				return fmt.Sprintf("%s(range %d)", s, x.Index), hint, ""
			}
		}
		if lk, ok := x.Tuple.(*ssa.Lookup); ok {
			s, _, _ := m.source(lk.X, depth+1)
			return s + "[key]", hint, ""
		}
	case *ssa.Phi:
		return "", hint, ""
	}
	return "", hint, ""
}

func (m *m05) numberHint() int64 {
	for k := int64(0); k < 20; k++ {
		if m.hintName(k) == "NumberHint" {
			return k
		}
	}
	return -1
}

// ---------------------------------------------------------------------------------------------------------------

var shardVerb = regexp.MustCompile(`(?:sc|address):[^"'\s|#]*#(%[^a-zA-Z%]*[a-zA-Z])`)

// formats: formats from which addresses with a shard number are made, wherever they are used.
func (m *m05) formats() {
	for rel, pkg := range m.p.Pkgs {
		if !(strings.HasPrefix(rel, "mandos") || strings.HasPrefix(rel, "arwenmandos") || strings.HasPrefix(rel, "mock") || strings.HasPrefix(rel, "fuzz") || strings.HasPrefix(rel, "cmd")) {
			continue
		}
		for _, file := range pkg.Syntax {
			ast.Inspect(file, func(n ast.Node) bool {
				bl, ok := n.(*ast.BasicLit)
				if !ok || bl.Kind != token.STRING {
					return true
				}
				s, err := strconv.Unquote(bl.Value)
				if err != nil {
					return true
				}
				for _, g := range shardVerb.FindAllStringSubmatch(s, -1) {
					if g[1] != "%02x" && g[1] != "%02X" && g[1] != "%s" {
						m.r.violate("format:"+keyEsc(g[0]), m.p.pos(bl.Pos()), "%q: a shard number must be written with two hexadecimal digits (%%02x)", g[0])
					} else {
						m.r.ok("format of an address with a shard number")
					}
				}
				return true
			})
		}
	}
}

// bounds: reading never looks at a character that is not there.
func (m *m05) bounds() {
	q := newProver(m.p)
	n := 0
	for _, f := range sortedFns(m.er.fns) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Lookup:
					if !isStringT(x.X.Type()) {
						continue
					}
				case *ssa.Index:
					if !isStringT(x.X.Type()) {
						continue
					}
				default:
					continue
				}
				n++
				if _, ok := q.inBounds(in); ok {
					m.r.ok("character looked at is there")
				} else {
					m.r.violate("char:"+fname(f), m.p.pos(in.Pos()), "%s looks at a character of a text that may be too short: the reader crashes on it", fname(f))
				}
			}
		}
	}
	m.r.Counts["single characters looked at"] = n
}
