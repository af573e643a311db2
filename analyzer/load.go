package main

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// modPath is the module path of the analysed repository.
const modPath = "github.com/ElrondNetwork/arwen-wasm-vm/v1_3"

// Prog is the type-checked program and its SSA form.
type Prog struct {
	Root     string
	Fset     *token.FileSet
	Pkgs     map[string]*packages.Package // by path relative to modPath ("" for the root)
	All      map[string]*packages.Package // by full path, dependencies included
	SSA      *ssa.Program
	Funcs    []*ssa.Function // all functions with a body declared in the module (closures included)
	implMemo map[*types.Func][]*ssa.Function
}

// auxiliary packages: test doubles and tooling. They are not part of the
// production system, so that they never count as implementations of one of
// its interfaces.
var auxPkgs = []string{"mock/", "testcommon", "fuzz/", "cmd/", "test/", "arwendebug", "arwenmandos", "mandos-go", "wasmer/_"}

func relPath(p string) string {
	if p == modPath {
		return ""
	}
	return strings.TrimPrefix(p, modPath+"/")
}

func isModPath(p string) bool { return p == modPath || strings.HasPrefix(p, modPath+"/") }

func isAux(rel string) bool {
	for _, a := range auxPkgs {
		if strings.HasPrefix(rel+"/", strings.TrimSuffix(a, "/")+"/") {
			return true
		}
	}
	return false
}

func load(root string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  root,
		Env:  os.Environ(),
	}
	initial, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(initial) == 0 {
		return nil, fmt.Errorf("no packages loaded")
	}
	p := &Prog{Root: root, Pkgs: map[string]*packages.Package{}, All: map[string]*packages.Package{}, implMemo: map[*types.Func][]*ssa.Function{}}
	var errs []string
	packages.Visit(initial, nil, func(pkg *packages.Package) {
		p.All[pkg.PkgPath] = pkg
		if isModPath(pkg.PkgPath) {
			for _, e := range pkg.Errors {
				errs = append(errs, e.Error())
			}
			p.Pkgs[relPath(pkg.PkgPath)] = pkg
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		return nil, fmt.Errorf("type checking failed: %s", strings.Join(errs, "; "))
	}
	p.Fset = initial[0].Fset
	prog, _ := ssautil.Packages(initial, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks == nil || fn.Pkg == nil || !isModPath(fn.Pkg.Pkg.Path()) {
			continue
		}
		if fn.Synthetic != "" {
			continue
		}
		p.Funcs = append(p.Funcs, fn)
	}
	p.inline()
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.Pos() != b.Pos() {
			pa, pb := p.Fset.Position(a.Pos()), p.Fset.Position(b.Pos())
			if pa.Filename != pb.Filename {
				return pa.Filename < pb.Filename
			}
			return pa.Offset < pb.Offset
		}
		return a.String() < b.String()
	})
	return p, nil
}

//go:embed data/functions.txt
var knownFunctions string

// inline undoes the extraction of helpers: calls of functions that the analysed version of the repository did not have
// when the rules were written are replaced by their bodies, so that a rule sees the same instructions wherever they are.
func (p *Prog) inline() {
	if os.Getenv("VERIF_NOINLINE") != "" {
		return
	}
	known := map[string]bool{}
	for _, l := range strings.Split(knownFunctions, "\n") {
		known[l] = true
	}
	mine := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		mine[f] = true
	}
	in := &ssa.Inliner{Want: func(g *ssa.Function) bool {
		return mine[g] && (g.Parent() != nil || !known[fname(g)]) && g.Name() != "init"
	}}
	for _, f := range p.Funcs {
		in.Process(f)
	}
	for _, f := range p.Funcs {
		ssa.Normalise(f)
	}
	if len(in.Inlined) == 0 {
		return
	}
	used := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if in.Inlined[f] {
			continue
		}
		markUsed(f, used)
	}
	for changed := true; changed; {
		changed = false
		for f := range in.Inlined {
			if used[f] {
				n := len(used)
				markUsed(f, used)
				changed = changed || len(used) > n
			}
		}
	}
	var left []*ssa.Function
	for _, f := range p.Funcs {
		if in.Inlined[f] && !used[f] && (f.Signature.Recv() == nil || !f.Object().Exported()) {
			continue
		}
		left = append(left, f)
	}
	p.Funcs = left
}

func markUsed(f *ssa.Function, used map[*ssa.Function]bool) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok {
					used[g] = true
				}
			}
		}
	}
}

// rel returns a file position relative to the root, without the line: keys
// must not depend on line numbers.
func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	f, err := filepath.Rel(p.Root, ps.Filename)
	if err != nil {
		f = ps.Filename
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func pkgRel(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return relPath(fn.Pkg.Pkg.Path())
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return relPath(fn.Object().Pkg().Path())
	}
	return ""
}

// fname is the stable short name of a function: rel/pkg.Type.Method or rel/pkg.Func; closures get a $n suffix.
func fname(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	if fn.Parent() != nil {
		return fname(fn.Parent()) + strings.TrimPrefix(fn.Name(), fn.Parent().Name())
	}
	if o, ok := fn.Object().(*types.Func); ok && o != nil {
		return oname(o)
	}
	return fn.String()
}

func oname(o *types.Func) string {
	pk := ""
	if o.Pkg() != nil {
		pk = relPath(o.Pkg().Path())
	}
	sig := o.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		return pk + "." + typeName(r.Type()) + "." + o.Name()
	}
	return pk + "." + o.Name()
}

func typeName(t types.Type) string {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

func deref(t types.Type) types.Type {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return t
}

// fn finds a function by its short name, or nil.
func (p *Prog) fn(name string) *ssa.Function {
	for _, f := range p.Funcs {
		if f.Parent() == nil && fname(f) == name {
			return f
		}
	}
	return nil
}

// impls returns the production implementations of an interface method.
func (p *Prog) impls(m *types.Func, includeAux bool) []*ssa.Function {
	if r, ok := p.implMemo[m]; ok && !includeAux {
		return r
	}
	recv := m.Type().(*types.Signature).Recv()
	if recv == nil {
		return nil
	}
	iface, ok := recv.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var rels []string
	for r := range p.Pkgs {
		rels = append(rels, r)
	}
	sort.Strings(rels)
	for _, r := range rels {
		if isAux(r) && !includeAux {
			continue
		}
		pkg := p.Pkgs[r]
		sc := pkg.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(nt) || nt.TypeParams().Len() > 0 {
				continue
			}
			for _, t := range []types.Type{nt, types.NewPointer(nt)} {
				if !types.Implements(t, iface) {
					continue
				}
				sel := types.NewMethodSet(t).Lookup(m.Pkg(), m.Name())
				if sel == nil {
					continue
				}
				f := p.SSA.FuncValue(sel.Obj().(*types.Func))
				if f != nil && f.Blocks != nil && !seen[f] {
					seen[f] = true
					out = append(out, f)
				}
				break
			}
		}
	}
	if !includeAux {
		p.implMemo[m] = out
	}
	return out
}

// callee returns the function object called by an instruction, if static or an interface method.
func calleeObj(c *ssa.CallCommon) *types.Func {
	if c.IsInvoke() {
		return c.Method
	}
	if f := c.StaticCallee(); f != nil {
		if o, ok := f.Object().(*types.Func); ok {
			return o
		}
	}
	return nil
}

// resolve returns the possible production targets of a call and whether the list is complete as far as
// the production code goes.
func (p *Prog) resolve(c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		return p.impls(c.Method, false)
	}
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	return nil
}

// calleeName is the short name of the callee (interface method: pkg.Iface.Method).
func calleeName(c *ssa.CallCommon) string {
	if o := calleeObj(c); o != nil {
		return oname(o)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return ""
}

// methodName is the last component of the callee's name.
func methodName(c *ssa.CallCommon) string {
	if o := calleeObj(c); o != nil {
		return o.Name()
	}
	return ""
}

func (p *Prog) filesOf(rel string) []*ast.File {
	if pk := p.Pkgs[rel]; pk != nil {
		return pk.Syntax
	}
	return nil
}
