// refactor applies one kind of behaviour-preserving rewriting all over a copy of the repository, to see whether the
// checks stay quiet. usage: refactor -dir COPY -kind KIND [-mod K -sel S] [dirs...]
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

type edit struct {
	from, to int
	text     string
}

type file struct {
	pkg   *packages.Package
	ast   *ast.File
	name  string
	src   []byte
	edits []edit
	tail  []string
	n     int
	cgo   bool
	lines []int
	par   map[ast.Node]ast.Node
}

var kind = flag.String("kind", "", "")
var mod = flag.Int("mod", 1, "apply to every mod-th place")
var sel = flag.Int("sel", 0, "which of them")
var counter int

func (f *file) off(p token.Pos) int {
	at := f.pkg.Fset.Position(p)
	if !f.cgo {
		return at.Offset
	}
	if at.Line < 1 || at.Line > len(f.lines) || at.Column < 1 {
		return 0
	}
	return f.lines[at.Line-1] + at.Column - 1
}
func (f *file) text(n ast.Node) string {
	return f.between(n.Pos(), n.End())
}
func (f *file) between(a, b token.Pos) string {
	x, y := f.off(a), f.off(b)
	if x > y || y > len(f.src) {
		return "_BAD_"
	}
	return string(f.src[x:y])
}

// put replaces, unless it overlaps what was already replaced
func (f *file) put(es ...edit) bool {
	for _, e := range es {
		if e.from > e.to || e.to > len(f.src) || strings.Contains(e.text, "_BAD_") {
			return false
		}
		for _, o := range f.edits {
			if e.from < o.to && o.from < e.to || e.from == o.from && e.to == o.to {
				return false
			}
		}
	}
	// chosen?
	if *mod > 1 {
		h := fnv.New32a()
		fmt.Fprintf(h, "%s:%d", filepath.Base(f.name), es[0].from)
		if int(h.Sum32()%uint32(*mod)) != *sel {
			return false
		}
	}
	f.edits = append(f.edits, es...)
	f.n++
	return true
}
func (f *file) repl(n ast.Node, s string) bool {
	return f.put(edit{f.off(n.Pos()), f.off(n.End()), s})
}
func fresh(s string) string { counter++; return fmt.Sprintf("%sRf%d", s, counter) }

func main() {
	dir := flag.String("dir", "", "")
	flag.Parse()
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps | packages.NeedModule, Dir: *dir, Env: os.Environ()}
	pats := []string{}
	for _, a := range flag.Args() {
		pats = append(pats, "./"+a+"/...")
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		panic(err)
	}
	total := 0
	for _, p := range pkgs {
		for _, a := range p.Syntax {
			name := p.Fset.Position(a.Package).Filename
			if !strings.HasPrefix(name, *dir) || strings.HasSuffix(name, "_test.go") {
				continue
			}
			src, err := os.ReadFile(name)
			if err != nil {
				continue
			}
			f := &file{pkg: p, ast: a, name: name, src: src, par: map[ast.Node]ast.Node{}}
			f.lines = append(f.lines, 0)
			for i, c := range src {
				if c == '\n' {
					f.lines = append(f.lines, i+1)
				}
			}
			f.cgo = p.Fset.PositionFor(a.Package, false).Filename != name
			var st []ast.Node
			ast.Inspect(a, func(n ast.Node) bool {
				if n == nil {
					st = st[:len(st)-1]
					return true
				}
				if len(st) > 0 {
					f.par[n] = st[len(st)-1]
				}
				st = append(st, n)
				return true
			})
			f.apply()
			if f.n > 0 {
				sort.SliceStable(f.edits, func(i, j int) bool { return f.edits[i].from < f.edits[j].from })
				var out bytes.Buffer
				at := 0
				for _, e := range f.edits {
					out.Write(src[at:e.from])
					out.WriteString(e.text)
					at = e.to
				}
				out.Write(src[at:])
				for _, t := range f.tail {
					out.WriteString("\n" + t + "\n")
				}
				os.WriteFile(name, out.Bytes(), 0644)
				total += f.n
			}
		}
	}
	fmt.Println(*kind, total, "places")
}

func (f *file) inBlock(n ast.Node) bool {
	switch f.par[n].(type) {
	case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
		return true
	}
	return false
}

func (f *file) stmts(n ast.Node) []ast.Stmt {
	switch x := n.(type) {
	case *ast.BlockStmt:
		return x.List
	case *ast.CaseClause:
		return x.Body
	}
	return nil
}

func has(n ast.Node, pred func(ast.Node) bool) bool {
	found := false
	ast.Inspect(n, func(x ast.Node) bool {
		if x != nil && pred(x) {
			found = true
		}
		return !found
	})
	return found
}

func calls(n ast.Node) bool {
	return has(n, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			_ = y
			return true
		case *ast.UnaryExpr:
			return y.Op == token.ARROW
		}
		return false
	})
}

func simple(e ast.Expr) bool { return !calls(e) }

func branches(n ast.Node) bool {
	return has(n, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.BranchStmt, *ast.LabeledStmt:
			return true
		}
		return false
	})
}

func terminates(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BlockStmt:
		return len(x.List) > 0 && terminates(x.List[len(x.List)-1])
	case *ast.IfStmt:
		return x.Else != nil && terminates(x.Body) && terminates(x.Else)
	case *ast.BranchStmt:
		return x.Tok == token.CONTINUE || x.Tok == token.BREAK
	}
	return false
}

func (f *file) cgoText(n ast.Node) bool { return strings.Contains(f.text(n), "C.") }

func (f *file) apply() {
	info := f.pkg.TypesInfo
	var fd *ast.FuncDecl
	ast.Inspect(f.ast, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			fd = x
			if x.Body == nil {
				return false
			}
			if strings.HasPrefix(x.Name.Name, "_C") {
				return false
			}
			f.decl(x)
		case *ast.GenDecl:
			if x.Tok != token.VAR && x.Tok != token.CONST {
				return true
			}
		case *ast.IfStmt:
			f.ifStmt(x)
		case *ast.ReturnStmt:
			if *kind == "rettmp" && f.inBlock(x) && len(x.Results) == 1 {
				if c, ok := x.Results[0].(*ast.CallExpr); ok {
					t := info.TypeOf(c)
					k := 1
					if tp, ok := t.(*types.Tuple); ok {
						k = tp.Len()
					} else if t != nil && fd != nil && fd.Type.Results != nil {
						// keep conversions of nil and interfaces apart
						if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
							return true
						}
					}
					var vs []string
					for i := 0; i < k; i++ {
						vs = append(vs, fresh("result"))
					}
					l := strings.Join(vs, ", ")
					f.repl(x, l+" := "+f.text(c)+"\nreturn "+l)
				}
			}
			if *kind == "rettmp2" && f.inBlock(x) && len(x.Results) > 1 {
				pre, out := "", []string{}
				for _, r := range x.Results {
					if c, ok := r.(*ast.CallExpr); ok && !f.pkg.TypesInfo.Types[c.Fun].IsType() {
						v := fresh("result")
						pre += v + " := " + f.text(c) + "\n"
						out = append(out, v)
						continue
					}
					if !simple(r) {
						return true
					}
					out = append(out, f.text(r))
				}
				if pre != "" {
					f.repl(x, pre+"return "+strings.Join(out, ", "))
				}
			}
		case *ast.BinaryExpr:
			if *kind == "flip" {
				ops := map[token.Token]string{token.LSS: ">", token.GTR: "<", token.LEQ: ">=", token.GEQ: "<=", token.EQL: "==", token.NEQ: "!="}
				if o, ok := ops[x.Op]; ok && (simple(x.X) || simple(x.Y)) {
					f.repl(x, f.text(x.Y)+" "+o+" "+f.text(x.X))
				}
			}
			if *kind == "negate" {
				ops := map[token.Token]string{token.LSS: ">=", token.GTR: "<=", token.LEQ: ">", token.GEQ: "<", token.EQL: "!=", token.NEQ: "=="}
				if o, ok := ops[x.Op]; ok {
					if b, ok := info.TypeOf(x.X).Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
						return true
					}
					f.repl(x, "!("+f.text(x.X)+" "+o+" "+f.text(x.Y)+")")
				}
			}
		case *ast.AssignStmt:
			if *kind == "compound" && len(x.Lhs) == 1 && simple(x.Lhs[0]) {
				ops := map[token.Token]string{token.ADD_ASSIGN: "+", token.SUB_ASSIGN: "-", token.MUL_ASSIGN: "*", token.OR_ASSIGN: "|", token.AND_ASSIGN: "&"}
				if o, ok := ops[x.Tok]; ok {
					f.repl(x, f.text(x.Lhs[0])+" = "+f.text(x.Lhs[0])+" "+o+" ("+f.text(x.Rhs[0])+")")
				}
			}
			if *kind == "asgtmp" && x.Tok == token.ASSIGN && len(x.Lhs) == 1 && len(x.Rhs) == 1 && f.inBlock(x) && simple(x.Lhs[0]) {
				if c, ok := x.Rhs[0].(*ast.CallExpr); ok {
					if id, ok := x.Lhs[0].(*ast.Ident); ok && id.Name == "_" {
						return true
					}
					lt, rt := info.TypeOf(x.Lhs[0]), info.TypeOf(c)
					if lt != nil && rt != nil && types.Identical(lt, rt) {
						v := fresh("value")
						f.repl(x, v+" := "+f.text(c)+"\n"+f.text(x.Lhs[0])+" = "+v)
					}
				}
			}
		case *ast.RangeStmt:
			if *kind == "range2idx" && f.inBlock(x) {
				if _, ok := info.TypeOf(x.X).Underlying().(*types.Slice); !ok || x.Tok != token.DEFINE && x.Tok != token.ILLEGAL {
					return true
				}
				pure := simple(x.X)
				if !pure {
					return true
				}
				i := fresh("index")
				s := fresh("list")
				body := ""
				if id, ok := x.Key.(*ast.Ident); ok && id.Name != "_" {
					body += id.Name + " := " + i + "\n"
				}
				if x.Value != nil {
					if id, ok := x.Value.(*ast.Ident); ok && id.Name != "_" {
						body += id.Name + " := " + s + "[" + i + "]\n"
					}
				}
				f.put(edit{f.off(x.Pos()), f.off(x.Body.Lbrace) + 1, s + " := " + f.text(x.X) + "\nfor " + i + " := 0; " + i + " < len(" + s + "); " + i + "++ {\n" + body})
			}
		case *ast.ForStmt:
			if *kind == "forcond" && x.Cond != nil && f.inBlock(x) {
				// the condition moves into the body
				f.put(edit{f.off(x.Cond.Pos()), f.off(x.Cond.End()), ""}, edit{f.off(x.Body.Lbrace), f.off(x.Body.Lbrace) + 1, "{\nif !(" + f.text(x.Cond) + ") {\nbreak\n}\n"})
			}
		case *ast.DeferStmt:
			if *kind == "deferfn" && len(x.Call.Args) == 0 {
				if _, ok := x.Call.Fun.(*ast.FuncLit); !ok {
					if c, ok := x.Call.Fun.(*ast.SelectorExpr); ok && simple(c.X) {
						f.repl(x, "defer func() {\n"+f.text(x.Call)+"\n}()")
					}
				}
			}
		case *ast.CallExpr:
			if *kind == "argtmp" {
				f.argtmp(x)
			}
			if *kind == "methodvalue" {
				if se, ok := x.Fun.(*ast.SelectorExpr); ok && simple(se.X) {
					if st, ok := f.par[x].(*ast.ExprStmt); ok && f.inBlock(st) && info.Selections[se] != nil {
						v := fresh("method")
						f.repl(st, v+" := "+f.text(se)+"\n"+v+strings.TrimPrefix(f.text(x), f.text(se)))
					}
				}
			}
		case *ast.SelectorExpr:
			if *kind == "recvtmp" {
				f.recvtmp(x)
			}
		case *ast.BlockStmt:
			f.block(x, x.List, fd)
		case *ast.CaseClause:
			f.block(x, x.Body, fd)
		case *ast.SwitchStmt:
			if *kind == "switchif" {
				f.switchif(x)
			}
		}
		return true
	})
}

func (f *file) switchif(x *ast.SwitchStmt) {
	if !f.inBlock(x) || branches(x.Body) || x.Init != nil {
		return
	}
	tag := ""
	pre := ""
	if x.Tag != nil {
		tag = fresh("tag")
		pre = tag + " := " + f.text(x.Tag) + "\n"
	}
	var parts []string
	def := ""
	hasDef := false
	for _, c := range x.Body.List {
		cc := c.(*ast.CaseClause)
		body := ""
		if len(cc.Body) > 0 {
			body = f.between(cc.Colon+1, cc.Body[len(cc.Body)-1].End())
		}
		if cc.List == nil {
			hasDef = true
			def = body
			continue
		}
		var cs []string
		for _, e := range cc.List {
			if tag != "" {
				cs = append(cs, tag+" == "+f.text(e))
			} else {
				cs = append(cs, f.text(e))
			}
		}
		parts = append(parts, "if "+strings.Join(cs, " || ")+" {"+body+"\n}")
	}
	if len(parts) == 0 {
		return
	}
	s := pre + strings.Join(parts, " else ")
	if hasDef {
		s += " else {" + def + "\n}"
	}
	f.repl(x, s)
}

func (f *file) argtmp(x *ast.CallExpr) {
	var st ast.Node
	switch p := f.par[x].(type) {
	case *ast.ExprStmt:
		st = p
	case *ast.AssignStmt:
		if len(p.Rhs) == 1 && p.Rhs[0] == x && (p.Tok == token.DEFINE || p.Tok == token.ASSIGN) {
			for _, l := range p.Lhs {
				if !simple(l) {
					return
				}
			}
			st = p
		}
	case *ast.ReturnStmt:
		if len(p.Results) == 1 {
			st = p
		}
	}
	if st == nil || !f.inBlock(st) || len(x.Args) == 0 || !simple(x.Fun) || x.Ellipsis != 0 {
		return
	}
	if f.pkg.TypesInfo.Types[x.Fun].IsType() || f.pkg.TypesInfo.Types[x.Fun].IsBuiltin() {
		return
	}
	var pre string
	var es []edit
	for _, a := range x.Args {
		c, ok := a.(*ast.CallExpr)
		if !ok {
			if !simple(a) {
				return
			}
			continue
		}
		t := f.pkg.TypesInfo.TypeOf(c)
		if _, tuple := t.(*types.Tuple); tuple || f.pkg.TypesInfo.Types[c].Value != nil {
			return
		}
		if f.pkg.TypesInfo.Types[c.Fun].IsBuiltin() && f.text(c.Fun) != "len" && f.text(c.Fun) != "append" && f.text(c.Fun) != "make" {
			return
		}
		v := fresh("arg")
		pre += v + " := " + f.text(c) + "\n"
		es = append(es, edit{f.off(c.Pos()), f.off(c.End()), v})
	}
	if pre == "" {
		return
	}
	es = append([]edit{{f.off(st.Pos()), f.off(st.Pos()), pre}}, es...)
	f.put(es...)
}

func (f *file) recvtmp(x *ast.SelectorExpr) {
	// host.Runtime().SetX(...) as a statement: runtime := host.Runtime(); runtime.SetX(...)
	c, ok := x.X.(*ast.CallExpr)
	if !ok {
		return
	}
	call, ok := f.par[x].(*ast.CallExpr)
	if !ok || call.Fun != x {
		return
	}
	st := f.par[call]
	switch p := st.(type) {
	case *ast.ExprStmt:
	case *ast.AssignStmt:
		if len(p.Rhs) != 1 || p.Tok != token.DEFINE {
			return
		}
	case *ast.ReturnStmt:
		if len(p.Results) != 1 {
			return
		}
	default:
		return
	}
	if !f.inBlock(st) || f.pkg.TypesInfo.Types[c.Fun].IsType() {
		return
	}
	v := fresh("recv")
	f.put(edit{f.off(st.Pos()), f.off(st.Pos()), v + " := " + f.text(c) + "\n"}, edit{f.off(c.Pos()), f.off(c.End()), v})
}

func (f *file) ifStmt(x *ast.IfStmt) {
	switch *kind {
	case "swapelse":
		if b, ok := x.Else.(*ast.BlockStmt); ok {
			f.put(edit{f.off(x.Cond.Pos()), f.off(x.Cond.End()), "!(" + f.text(x.Cond) + ")"},
				edit{f.off(x.Body.Pos()), f.off(x.Body.End()), f.text(b)},
				edit{f.off(b.Pos()), f.off(b.End()), f.text(x.Body)})
		}
	case "condtmp":
		if x.Init == nil && f.inBlock(x) {
			v := fresh("cond")
			f.put(edit{f.off(x.Pos()), f.off(x.Pos()), v + " := " + f.text(x.Cond) + "\n"}, edit{f.off(x.Cond.Pos()), f.off(x.Cond.End()), v})
		}
	case "hoist":
		if x.Init != nil && f.inBlock(x) {
			f.put(edit{f.off(x.Pos()), f.off(x.Cond.Pos()), "{\n" + f.text(x.Init) + "\nif "}, edit{f.off(x.End()), f.off(x.End()), "\n}"})
		}
	case "nest":
		if b, ok := x.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND && x.Else == nil {
			f.put(edit{f.off(b.X.End()), f.off(b.Y.Pos()), " {\nif "}, edit{f.off(x.End()), f.off(x.End()), "\n}"})
		}
	case "orsplit":
		// if a || b { return } -> two ifs
		if b, ok := x.Cond.(*ast.BinaryExpr); ok && b.Op == token.LOR && x.Else == nil && x.Init == nil && f.inBlock(x) && terminates(x.Body) {
			f.repl(x, "if "+f.text(b.X)+" "+f.text(x.Body)+"\nif "+f.text(b.Y)+" "+f.text(x.Body))
		}
	case "demorgan":
		if b, ok := x.Cond.(*ast.BinaryExpr); ok && (b.Op == token.LOR || b.Op == token.LAND) {
			o := "&&"
			if b.Op == token.LAND {
				o = "||"
			}
			f.repl(b, "!(!("+f.text(b.X)+") "+o+" !("+f.text(b.Y)+"))")
		}
	case "switchify":
		if !f.inBlock(x) || x.Init != nil || branches(x.Body) {
			return
		}
		s := "switch {\ncase " + f.text(x.Cond) + ":\n" + f.inner(x.Body)
		e := x.Else
		for e != nil {
			switch y := e.(type) {
			case *ast.IfStmt:
				if y.Init != nil || branches(y.Body) {
					return
				}
				s += "\ncase " + f.text(y.Cond) + ":\n" + f.inner(y.Body)
				e = y.Else
			case *ast.BlockStmt:
				if branches(y) {
					return
				}
				s += "\ndefault:\n" + f.inner(y)
				e = nil
			}
		}
		f.repl(x, s+"\n}")
	}
}

func (f *file) inner(b *ast.BlockStmt) string { return f.between(b.Lbrace+1, b.Rbrace) }

func (f *file) block(n ast.Node, list []ast.Stmt, fd *ast.FuncDecl) {
	switch *kind {
	case "elserest":
		for i, s := range list {
			x, ok := s.(*ast.IfStmt)
			if !ok || x.Else != nil || x.Init != nil || !terminates(x.Body) || i+1 >= len(list) {
				continue
			}
			last := list[len(list)-1]
			if branches(last) && !terminates(last) {
				return
			}
			f.put(edit{f.off(x.End()), f.off(x.End()), " else {"}, edit{f.off(last.End()), f.off(last.End()), "\n}"})
			return
		}
	case "invert":
		for i, s := range list {
			x, ok := s.(*ast.IfStmt)
			if !ok || x.Else != nil || x.Init != nil || !terminates(x.Body) || i+1 >= len(list) {
				continue
			}
			last := list[len(list)-1]
			f.put(edit{f.off(x.Cond.Pos()), f.off(x.End()), "!(" + f.text(x.Cond) + ") {\n" + f.between(list[i+1].Pos(), last.End()) + "\n} else " + f.text(x.Body)}, edit{f.off(x.End()), f.off(last.End()), ""})
			return
		}
	case "reorder":
		for i := 0; i+1 < len(list); i++ {
			a, ok1 := list[i].(*ast.AssignStmt)
			b, ok2 := list[i+1].(*ast.AssignStmt)
			if ok1 && ok2 && f.pureDefine(a) && f.pureDefine(b) && !f.mentions(b, a) {
				if f.put(edit{f.off(a.Pos()), f.off(b.End()), f.text(b) + "\n" + f.text(a)}) {
					i++
				}
			}
		}
	case "tail", "tailblock":
		f.tailHelper(n, list, fd)
	case "ifbody":
		for _, s := range list {
			if x, ok := s.(*ast.IfStmt); ok && len(x.Body.List) > 0 {
				f.extract(x.Body.List, fd)
			}
			if x, ok := s.(*ast.ForStmt); ok && len(x.Body.List) > 0 {
				f.extract(x.Body.List, fd)
			}
			if x, ok := s.(*ast.RangeStmt); ok && len(x.Body.List) > 0 {
				f.extract(x.Body.List, fd)
			}
		}
	}
}

// a := host.Runtime() and the like
func (f *file) pureDefine(a *ast.AssignStmt) bool {
	if a.Tok != token.DEFINE || len(a.Lhs) != 1 {
		return false
	}
	switch x := a.Rhs[0].(type) {
	case *ast.CallExpr:
		if len(x.Args) > 0 {
			return false
		}
		se, ok := x.Fun.(*ast.SelectorExpr)
		if !ok || !simple(se.X) {
			return false
		}
		switch se.Sel.Name {
		case "Runtime", "Output", "Metering", "Storage", "Blockchain", "BigInt", "GetGasScheduleMap", "Crypto", "ElrondAPICost":
			return true
		}
		return strings.HasPrefix(f.text(x.Fun), "arwen.Get")
	case *ast.SelectorExpr, *ast.BasicLit, *ast.Ident:
		return simple(a.Rhs[0])
	}
	return false
}

func (f *file) mentions(b, a *ast.AssignStmt) bool {
	id := a.Lhs[0].(*ast.Ident)
	o := f.pkg.TypesInfo.Defs[id]
	r := has(b, func(x ast.Node) bool {
		y, ok := x.(*ast.Ident)
		return ok && (f.pkg.TypesInfo.Uses[y] == o || y.Name == id.Name)
	})
	id2 := b.Lhs[0].(*ast.Ident)
	return r || has(a, func(x ast.Node) bool {
		y, ok := x.(*ast.Ident)
		return ok && y.Name == id2.Name
	})
}

func (f *file) qual(imported map[string]string) types.Qualifier {
	return func(p *types.Package) string {
		if p == f.pkg.Types {
			return ""
		}
		if n, ok := imported[p.Path()]; ok {
			return n
		}
		return "\x00"
	}
}

func (f *file) imports() map[string]string {
	m := map[string]string{}
	for _, i := range f.ast.Imports {
		path := strings.Trim(i.Path.Value, `"`)
		if path == "C" {
			continue
		}
		if i.Name != nil {
			m[path] = i.Name.Name
		} else if p := f.pkg.Imports[path]; p != nil {
			m[path] = p.Name
		}
	}
	return m
}

// free local variables of statements
func (f *file) free(list []ast.Stmt) ([]*types.Var, bool) {
	from, to := list[0].Pos(), list[len(list)-1].End()
	seen := map[*types.Var]bool{}
	var out []*types.Var
	ok := true
	for _, s := range list {
		ast.Inspect(s, func(n ast.Node) bool {
			id, isID := n.(*ast.Ident)
			if !isID {
				return true
			}
			o, _ := f.pkg.TypesInfo.Uses[id].(*types.Var)
			if o == nil || o.IsField() || o.Parent() == nil || o.Parent() == f.pkg.Types.Scope() || o.Parent() == types.Universe || o.Pkg() != f.pkg.Types {
				return true
			}
			if o.Pos() >= from && o.Pos() < to {
				return true
			}
			if !seen[o] {
				seen[o] = true
				out = append(out, o)
			}
			return true
		})
	}
	return out, ok
}

func (f *file) assigns(list []ast.Stmt, vars []*types.Var) bool {
	set := map[types.Object]bool{}
	for _, v := range vars {
		set[v] = true
	}
	bad := false
	for _, s := range list {
		ast.Inspect(s, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					if id, ok := l.(*ast.Ident); ok && set[f.pkg.TypesInfo.Uses[id]] {
						bad = true
					}
					// fields and elements of local values
					for {
						if se, ok := l.(*ast.SelectorExpr); ok {
							l = se.X
							continue
						}
						if ie, ok := l.(*ast.IndexExpr); ok {
							if _, arr := f.pkg.TypesInfo.TypeOf(ie.X).Underlying().(*types.Array); arr {
								l = ie.X
								continue
							}
						}
						break
					}
					if id, ok := l.(*ast.Ident); ok && set[f.pkg.TypesInfo.Uses[id]] {
						if _, ptr := f.pkg.TypesInfo.TypeOf(id).Underlying().(*types.Pointer); !ptr {
							bad = true
						}
					}
				}
			case *ast.IncDecStmt:
				if id, ok := x.X.(*ast.Ident); ok && set[f.pkg.TypesInfo.Uses[id]] {
					bad = true
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					bad = true
				}
			case *ast.FuncLit, *ast.DeferStmt, *ast.BranchStmt, *ast.LabeledStmt, *ast.GoStmt:
				bad = true
			case *ast.RangeStmt:
				if x.Tok == token.ASSIGN {
					bad = true
				}
			}
			return !bad
		})
	}
	return bad
}

func (f *file) sig(vars []*types.Var) (params, args string, ok bool) {
	imp := f.imports()
	var ps, as []string
	for _, v := range vars {
		t := types.TypeString(v.Type(), f.qual(imp))
		if strings.Contains(t, "\x00") || strings.Contains(t, "_Ctype") || strings.Contains(t, "struct{") {
			return "", "", false
		}
		ps = append(ps, v.Name()+" "+t)
		as = append(as, v.Name())
	}
	return strings.Join(ps, ", "), strings.Join(as, ", "), true
}

func namedResults(fd *ast.FuncDecl) bool {
	if fd.Type.Results == nil {
		return false
	}
	for _, r := range fd.Type.Results.List {
		if len(r.Names) > 0 {
			return true
		}
	}
	return false
}

func (f *file) inLit(n ast.Node) bool {
	for ; n != nil; n = f.par[n] {
		if _, ok := n.(*ast.FuncLit); ok {
			return true
		}
	}
	return false
}

// extract statements without return into a function of their own
func (f *file) extract(list []ast.Stmt, fd *ast.FuncDecl) {
	if fd == nil || f.inLit(list[0]) || len(list) == 0 {
		return
	}
	for _, s := range list {
		if has(s, func(n ast.Node) bool { _, ok := n.(*ast.ReturnStmt); return ok }) {
			return
		}
	}
	vars, ok := f.free(list)
	if !ok || f.assigns(list, vars) {
		return
	}
	ps, as, ok := f.sig(vars)
	text := f.between(list[0].Pos(), list[len(list)-1].End())
	if !ok || strings.Contains(text, "C.") || strings.Contains(text, "recover()") {
		return
	}
	h := fresh("helper")
	if f.put(edit{f.off(list[0].Pos()), f.off(list[len(list)-1].End()), h + "(" + as + ")"}) {
		f.tail = append(f.tail, "func "+h+"("+ps+") {\n"+text+"\n}")
	}
}

// the end of a function becomes a function of its own
func (f *file) tailHelper(n ast.Node, list []ast.Stmt, fd *ast.FuncDecl) {
	if fd == nil || namedResults(fd) || f.inLit(n) {
		return
	}
	if *kind == "tail" && n != ast.Node(fd.Body) || *kind == "tailblock" && n == ast.Node(fd.Body) {
		return
	}
	if len(list) == 0 {
		return
	}
	start := len(list) / 2
	if *kind == "tailblock" {
		start = 0
		if _, ok := list[len(list)-1].(*ast.ReturnStmt); !ok || len(list) < 2 {
			return
		}
		// inside a loop or not does not matter: every path returns
	} else if len(list) < 4 {
		return
	}
	part := list[start:]
	noResult := fd.Type.Results == nil
	if !noResult && !terminates(part[len(part)-1]) {
		return
	}
	if noResult && *kind == "tailblock" {
		return
	}
	vars, ok := f.free(part)
	if !ok {
		return
	}
	bad := false
	for _, s := range part {
		if has(s, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncLit, *ast.DeferStmt, *ast.LabeledStmt:
				return true
			case *ast.BranchStmt:
				return *kind == "tailblock"
			case *ast.UnaryExpr:
				return x.Op == token.AND && !strings.Contains(f.text(x), "{")
			}
			return false
		}) {
			bad = true
		}
	}
	ps, as, ok := f.sig(vars)
	text := f.between(part[0].Pos(), part[len(part)-1].End())
	if bad || !ok || strings.Contains(text, "C.") || strings.Contains(text, "recover()") {
		return
	}
	res := ""
	if !noResult {
		if fd.Type.Results.Opening != 0 {
			res = f.text(fd.Type.Results)
		} else {
			res = f.text(fd.Type.Results)
		}
		if strings.Contains(res, "C.") {
			return
		}
	}
	h := fresh("helper")
	call := h + "(" + as + ")"
	if !noResult {
		call = "return " + call
	}
	if f.put(edit{f.off(part[0].Pos()), f.off(part[len(part)-1].End()), call}) {
		f.tail = append(f.tail, "func "+h+"("+ps+") "+res+" {\n"+text+"\n}")
	}
}

func (f *file) decl(x *ast.FuncDecl) {
	switch *kind {
	case "wrap":
		if x.Name.Name == "init" || x.Name.Name == "main" {
			return
		}
		var args []string
		for _, p := range x.Type.Params.List {
			if len(p.Names) == 0 {
				return
			}
			for _, n := range p.Names {
				if n.Name == "_" {
					return
				}
				a := n.Name
				if _, ok := p.Type.(*ast.Ellipsis); ok {
					a += "..."
				}
				args = append(args, a)
			}
		}
		recv, call := "", ""
		if x.Recv != nil {
			if len(x.Recv.List[0].Names) == 0 || x.Recv.List[0].Names[0].Name == "_" {
				return
			}
			recv = f.text(x.Recv) + " "
			call = x.Recv.List[0].Names[0].Name + "."
		}
		impl := fresh(strings.ToLower(x.Name.Name[:1]) + x.Name.Name[1:])
		res := ""
		ret := ""
		if x.Type.Results != nil {
			res = " " + f.text(x.Type.Results)
			ret = "return "
		}
		params := f.text(x.Type.Params)
		head := f.between(x.Pos(), x.Body.Lbrace)
		if f.put(edit{f.off(x.Body.Lbrace), f.off(x.Body.Lbrace) + 1, "{\n" + ret + call + impl + "(" + strings.Join(args, ", ") + ")\n}\n\nfunc " + recv + impl + params + res + " {"}) {
			_ = head
		}
	case "renamelocal":
		// every local variable gets another name
		info := f.pkg.TypesInfo
		names := map[types.Object]string{}
		scopeOf := map[string]bool{}
		ast.Inspect(x, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				scopeOf[id.Name] = true
			}
			return true
		})
		ast.Inspect(x.Body, func(n ast.Node) bool {
			if ts, ok := n.(*ast.TypeSwitchStmt); ok {
				_ = ts
				return true
			}
			id, ok := n.(*ast.Ident)
			if !ok || id.Name == "_" {
				return true
			}
			if v, ok := info.Defs[id].(*types.Var); ok && !v.IsField() {
				names[v] = id.Name + "Rf"
			}
			return true
		})
		if scopeOf["C"] || f.cgo {
			return
		}
		if len(names) == 0 {
			return
		}
		var es []edit
		bad := false
		ast.Inspect(x.Body, func(n ast.Node) bool {
			if _, ok := n.(*ast.TypeSwitchStmt); ok {
				bad = true
			}
			id, ok := n.(*ast.Ident)
			if !ok {
				return true
			}
			o := info.Defs[id]
			if o == nil {
				o = info.Uses[id]
			}
			if nn, ok := names[o]; ok && o != nil {
				es = append(es, edit{f.off(id.Pos()), f.off(id.End()), nn})
			}
			return true
		})
		seen := map[int]bool{}
		var uniq []edit
		for _, e := range es {
			if !seen[e.from] {
				seen[e.from] = true
				uniq = append(uniq, e)
			}
		}
		if !bad && len(uniq) > 0 {
			f.put(uniq...)
		}
	}
}
