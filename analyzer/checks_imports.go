package main

import (
	"go/constant"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C16", checkC16) }

var apiPkgs = []string{"arwen/elrondapi", "arwen/cryptoapi"}

// names that contracts know under an older name than their implementation has
var importAliases = map[string]string{"finish": "returnData", "getBlockHash": "blockHash", "getCallValue": "callValue"}

// implementations that contracts must not call yet
var withheld = map[string]string{
	"createAsyncCall":         "asynchronous call groups are not released",
	"setAsyncContextCallback": "asynchronous call groups are not released",
}

func isAPIPkg(rel string) bool {
	for _, a := range apiPkgs {
		if rel == a || strings.HasPrefix(rel, a+"/") {
			return true
		}
	}
	return false
}

// importGroup is one registration: the values given together for one host function.
type importGroup struct {
	fn    *ssa.Function
	name  string
	names int
	cptr  string
	cptrs int
	in    *ssa.Function
	pos   string
}

// funcOf sees through conversions to the function a value is.
func funcOf(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeInterface:
		return funcOf(x.X)
	case *ssa.ChangeType:
		return funcOf(x.X)
	case *ssa.ChangeInterface:
		return funcOf(x.X)
	}
	return nil
}

func isHostFunction(f *ssa.Function) bool {
	if f == nil || f.Parent() != nil || f.Signature.Recv() != nil || f.Signature.Params().Len() == 0 {
		return false
	}
	b, ok := f.Signature.Params().At(0).Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

// cPointer sees the C symbol behind a value of the form C.name.
func cPointer(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && f.Name() == "_Cgo_ptr" {
			return cPointer(x.Call.Args[0])
		}
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && strings.HasPrefix(g.Name(), "_Cfpvar_fp_") {
			return strings.TrimPrefix(g.Name(), "_Cfpvar_fp_")
		}
	case *ssa.ChangeType:
		return cPointer(x.X)
	case *ssa.Convert:
		return cPointer(x.X)
	}
	return ""
}

func (g *importGroup) add(v ssa.Value) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
		g.name = constant.StringVal(c.Value)
		g.names++
	}
	if n := cPointer(v); n != "" {
		g.cptr = n
		g.cptrs++
	}
}

// importGroups finds the registrations: calls or table entries that mention a host function.
func (p *Prog) importGroups() []*importGroup {
	var out []*importGroup
	for _, fn := range p.Funcs {
		if isAux(pkgRel(fn)) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					for _, a := range x.Common().Args {
						if f := funcOf(a); isHostFunction(f) {
							g := &importGroup{fn: f, in: fn, pos: p.pos(in.Pos())}
							for _, o := range x.Common().Args {
								g.add(o)
							}
							if g.names+g.cptrs > 0 {
								out = append(out, g)
							}
						}
					}
				case *ssa.Store:
					f := funcOf(x.Val)
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok || !isHostFunction(f) {
						continue
					}
					g := &importGroup{fn: f, in: fn, pos: p.pos(in.Pos())}
					for _, ref := range *fa.X.Referrers() {
						o, ok := ref.(*ssa.FieldAddr)
						if !ok {
							continue
						}
						for _, r2 := range *o.Referrers() {
							if st, ok := r2.(*ssa.Store); ok && st.Addr == o {
								g.add(st.Val)
							}
						}
					}
					out = append(out, g)
				case *ssa.MapUpdate:
					if f := funcOf(x.Value); isHostFunction(f) {
						g := &importGroup{fn: f, in: fn, pos: p.pos(in.Pos())}
						g.add(x.Key)
						out = append(out, g)
					}
				}
			}
		}
	}
	return out
}

// hostFunctions: everything a contract can import.
func (p *Prog) hostFunctions() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, g := range p.importGroups() {
		if !seen[g.fn] {
			seen[g.fn] = true
			out = append(out, g.fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

type cDecl struct {
	ret  string
	args []string
}

var externRe = regexp.MustCompile(`(?m)^\s*(?://)?\s*extern\s+([A-Za-z_0-9 ]+?[\s*]+)([A-Za-z_0-9]+)\s*\(([^)]*)\)\s*;`)
var exportRe = regexp.MustCompile(`(?m)^//export\s+(\S+)\s*\n(?:\s*//[^\n]*\n)*func\s+(\w+)`)

func cType(s string) string {
	s = strings.TrimSpace(s)
	ptr := strings.Contains(s, "*")
	s = strings.TrimSpace(strings.ReplaceAll(s, "*", " "))
	w := strings.Join(strings.Fields(s), " ")
	if ptr {
		return "ptr"
	}
	switch w {
	case "void":
		return "void"
	case "int", "int32_t", "signed int":
		return "i32"
	case "long long", "int64_t", "long long int", "signed long long":
		return "i64"
	}
	return w
}

func goCType(t types.Type) string {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return t.String()
	}
	switch b.Kind() {
	case types.UnsafePointer:
		return "ptr"
	case types.Int32:
		return "i32"
	case types.Int64:
		return "i64"
	}
	return b.Name()
}

// cDecls reads the native declarations and the exports of the host function packages.
func (p *Prog) cDecls() (decls map[string]cDecl, exports map[string]string, dups []string) {
	decls, exports = map[string]cDecl{}, map[string]string{}
	for rel, pk := range p.Pkgs {
		if !isAPIPkg(rel) {
			continue
		}
		for _, f := range pk.GoFiles {
			b, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			src := string(b)
			for _, m := range externRe.FindAllStringSubmatch(src, -1) {
				d := cDecl{ret: cType(m[1])}
				if strings.TrimSpace(m[3]) != "" && strings.TrimSpace(m[3]) != "void" {
					for _, a := range strings.Split(m[3], ",") {
						a = strings.TrimSpace(a)
						// drop the parameter's name
						i := strings.LastIndexAny(a, " *\t")
						t := a
						if i > 0 && cType(a) == a {
							t = a[:i+1]
						}
						if strings.Contains(a, "*") {
							t = "void *"
						}
						d.args = append(d.args, cType(t))
					}
				}
				if old, ok := decls[m[2]]; ok && (old.ret != d.ret || strings.Join(old.args, ",") != strings.Join(d.args, ",")) {
					dups = append(dups, m[2])
				}
				decls[m[2]] = d
			}
			for _, m := range exportRe.FindAllStringSubmatch(src, -1) {
				exports[m[1]] = m[2]
			}
		}
	}
	return
}

func checkC16(p *Prog, r *Result) {
	r.Rule = "For every registration of a host function (call or table entry): the name offered to contracts, the Go function and the C symbol are the same one, up to one common prefix; no name and no function is registered twice; the C declaration of the symbol has the parameter and result types of the Go function, which are the context and 32/64-bit integers with at most one result; every exported implementation is registered; every function that registers host functions is part of the chain whose result is given to the execution engine; the engine is told the parameter types of the Go function."
	r.Assumptions = []string{"the C preambles use the types void, void*, int32_t and long long"}
	groups := p.importGroups()
	decls, exports, dups := p.cDecls()
	for _, d := range dups {
		r.violate("declared-twice:"+d, "-", "the C declarations of %s differ", d)
	}
	prefixes := map[string]int{}
	for _, g := range groups {
		if strings.HasSuffix(g.fn.Name(), g.name) {
			prefixes[strings.TrimSuffix(g.fn.Name(), g.name)]++
		}
	}
	prefix, best := "", 0
	for k, n := range prefixes {
		if n > best {
			prefix, best = k, n
		}
	}
	byName := map[string]*importGroup{}
	byFn := map[*ssa.Function]*importGroup{}
	providers := map[*ssa.Function]bool{}
	for _, g := range groups {
		fn := g.fn.Name()
		r.saw(fname(g.fn))
		providers[g.in] = true
		if g.names != 1 || g.cptrs != 1 {
			r.violate("unclear:"+fn, g.pos, "the registration of %s has %d names and %d C symbols", fn, g.names, g.cptrs)
			continue
		}
		if fn != prefix+g.name && fn != prefix+importAliases[g.name] {
			r.violate("wrong-name:"+g.name, g.pos, "the name %q is connected to the implementation %s", g.name, fn)
		} else {
			r.ok("name-is-implementation")
		}
		if g.cptr != fn {
			r.violate("wrong-symbol:"+g.name, g.pos, "the name %q with implementation %s is connected to the C symbol %s", g.name, fn, g.cptr)
		} else {
			r.ok("symbol-is-implementation")
		}
		if o := byName[g.name]; o != nil {
			r.violate("name-twice:"+g.name, g.pos, "the name %q is registered twice", g.name)
		}
		if o := byFn[g.fn]; o != nil {
			r.violate("function-twice:"+fn, g.pos, "%s is registered as %q and as %q", fn, o.name, g.name)
		}
		byName[g.name], byFn[g.fn] = g, g
		// signatures
		sig := g.fn.Signature
		var args []string
		for i := 0; i < sig.Params().Len(); i++ {
			args = append(args, goCType(sig.Params().At(i).Type()))
		}
		ret := "void"
		if sig.Results().Len() == 1 {
			ret = goCType(sig.Results().At(0).Type())
		}
		bad := sig.Results().Len() > 1 || args[0] != "ptr" || ret != "void" && ret != "i32" && ret != "i64"
		for _, a := range args[1:] {
			bad = bad || a != "i32" && a != "i64"
		}
		if bad {
			r.violate("bad-signature:"+fn, g.pos, "%s has a signature that contracts cannot call: (%s) %s", fn, strings.Join(args, ","), ret)
		}
		d, ok := decls[g.cptr]
		if !ok {
			r.violate("undeclared:"+g.cptr, g.pos, "no C declaration of %s was found", g.cptr)
		} else if d.ret != ret || strings.Join(d.args, ",") != strings.Join(args, ",") {
			r.violate("declaration-differs:"+fn, g.pos, "%s is declared as (%s) %s but implemented as (%s) %s", fn, strings.Join(d.args, ","), d.ret, strings.Join(args, ","), ret)
		} else {
			r.ok("declaration-matches")
		}
		if e, ok := exports[g.cptr]; !ok || e != fn {
			r.violate("not-exported:"+fn, g.pos, "%s is not exported to C under the symbol %s", fn, g.cptr)
		} else {
			r.ok("exported")
		}
	}
	for sym, fn := range exports {
		found := false
		for f := range byFn {
			found = found || f.Name() == fn
		}
		if !found && withheld[strings.TrimPrefix(fn, prefix)] == "" {
			r.violate("not-offered:"+fn, "-", "the implementation %s (exported as %s) is not offered to contracts", fn, sym)
		}
	}
	r.floor("host functions", len(byFn), 120)

	// all providers end up in the imports that the engine gets
	provCalled := map[*ssa.Function]bool{}
	set := 0
	for _, fn := range p.Funcs {
		if isAux(pkgRel(fn)) || pkgRel(fn) == "wasmer" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || calleeName(ci.Common()) != "wasmer.SetImports" {
					continue
				}
				set++
				seen := map[ssa.Value]bool{}
				var back func(v ssa.Value)
				back = func(v ssa.Value) {
					if v == nil || seen[v] {
						return
					}
					seen[v] = true
					switch x := v.(type) {
					case *ssa.Extract:
						back(x.Tuple)
					case *ssa.Phi:
						for _, e := range x.Edges {
							back(e)
						}
					case *ssa.UnOp:
						back(x.X)
					case *ssa.Alloc:
						for _, ref := range *x.Referrers() {
							if st, ok := ref.(*ssa.Store); ok && st.Addr == x {
								back(st.Val)
							}
						}
					case *ssa.Call:
						if f := x.Call.StaticCallee(); f != nil {
							if !provCalled[f] {
								provCalled[f] = true
								for _, bb := range f.Blocks {
									for _, i2 := range bb.Instrs {
										if ret, ok := i2.(*ssa.Return); ok && len(ret.Results) > 0 {
											back(ret.Results[0])
										}
									}
								}
							}
						}
						for _, a := range x.Call.Args {
							back(a)
						}
					}
				}
				if len(ci.Common().Args) > 0 {
					back(ci.Common().Args[0])
				}
			}
		}
	}
	r.floor("places that give the imports to the engine", set, 1)
	for f := range providers {
		root := f
		for root.Parent() != nil {
			root = root.Parent()
		}
		if strings.HasPrefix(root.Name(), "init") && root.Synthetic != "" {
			continue // a table
		}
		if !provCalled[root] {
			r.violate("provider-unused:"+root.Name(), p.pos(root.Pos()), "%s registers host functions, but what it builds does not reach the execution engine", fname(root))
		} else {
			r.ok("provider-used")
		}
	}
	// the engine is told the types of the function
	checkAppendTypes(p, r)
}

var wasmTagRe = regexp.MustCompile(`^cWasm[IF](32|64)$`)

// checkAppendTypes: where a WebAssembly type constant is chosen under a test of the Go kind, it is the same type.
func checkAppendTypes(p *Prog, r *Result) {
	want := map[int64]string{5: "cWasmI32", 6: "cWasmI64", 13: "cWasmF32", 14: "cWasmF64"}
	pk := p.Pkgs["wasmer"]
	if pk == nil {
		return
	}
	tags := map[int64]string{}
	for _, n := range pk.Types.Scope().Names() {
		if c, ok := pk.Types.Scope().Lookup(n).(*types.Const); ok && wasmTagRe.MatchString(n) {
			if x, ok := constant.Int64Val(c.Val()); ok {
				tags[x] = n
			}
		}
	}
	n := 0
	for _, fn := range p.Funcs {
		if pkgRel(fn) != "wasmer" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || typeName(st.Val.Type()) != "cWasmerValueTag" {
					continue
				}
				v, ok := constInt(st.Val)
				if !ok {
					continue
				}
				for d := b; d != nil; d = d.Idom() {
					id := d.Idom()
					if id == nil || len(d.Preds) != 1 || d.Preds[0] != id {
						continue
					}
					ifi, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
					if !ok || id.Succs[0] != d {
						continue
					}
					bo, ok := ifi.Cond.(*ssa.BinOp)
					if !ok || typeName(bo.X.Type()) != "Kind" {
						continue
					}
					k, ok := constInt(bo.Y)
					if !ok {
						continue
					}
					n++
					if want[k] != tags[v] {
						r.violate("wrong-wasm-type:"+fname(fn)+":"+tags[v], p.pos(in.Pos()), "%s tells the engine %s for a parameter of the Go kind %d", fname(fn), tags[v], k)
					} else {
						r.ok("wasm-type")
					}
					break
				}
			}
		}
	}
	r.Counts["wasm type choices"] = n
}
