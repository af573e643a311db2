package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C20", checkC20) }

// sigScheme is what a scheme's underlying library needs from its caller.
type sigScheme struct {
	method  string // of the interface offered to the host functions
	lib     string // package of the underlying verification
	keyLen  int64  // the library accepts any other length badly
	points  bool   // key and signature are points that have to be checked
	nonNil  string // arguments of which the library reads the first byte
	loadKey []int64
	loadSig int64
}

var sigSchemes = []sigScheme{
	{method: "VerifyBLS", lib: "github.com/herumi/bls-go-binary/bls", points: true, nonNil: "kms", loadKey: []int64{96}, loadSig: 48},
	{method: "VerifyEd25519", lib: "crypto/ed25519", keyLen: 32, loadKey: []int64{32}, loadSig: 64},
	{method: "VerifySecp256k1", lib: "github.com/btcsuite/btcd/btcec", loadKey: []int64{33, 65}},
}

func labelsOf(f *Flow, v *fval) string {
	out := ""
	for _, l := range []string{"k", "m", "s"} {
		for x := range f.Labels(v) {
			if x == l || strings.HasPrefix(x, l+".") {
				out += l
				break
			}
		}
	}
	return out
}

func foreign(com *ssa.CallCommon) bool {
	o := calleeObj(com)
	return o != nil && o.Pkg() != nil && !isModPath(o.Pkg().Path())
}

func checkC20(p *Prog, r *Result) {
	r.Rule = "For every implementation of the signature schemes: on every path that returns no error the underlying library's verification answered yes, it was given the key, the message and the signature of the call, each in its place and uncut; no parsing failed on that path, and the form the library relies on (length of the key, points of the right order on the curve and not zero, no empty inputs) was checked. For the host functions: success is told exactly when the verification returned no error, for the key, message and signature at the addresses the contract gave."
	r.Assumptions = []string{"the libraries' own verification and parsing are right", "values are traced through the code without regard to order (flow-insensitive), results with regard to paths"}
	impls := 0
	for _, sc := range sigSchemes {
		for _, f := range p.Funcs {
			if f.Name() != sc.method || f.Signature.Recv() == nil || f.Synthetic != "" || isAux(pkgRel(f)) || !strings.HasPrefix(pkgRel(f), "crypto") {
				continue
			}
			if len(f.Params) != 4 {
				continue
			}
			impls++
			r.saw(fname(f))
			p.sigImpl(r, sc, f)
		}
	}
	r.floor("schemes", impls, len(sigSchemes))
	p.sigHost(r)
}

func isLenOf(v ssa.Value) ssa.Value {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
		return c.Call.Args[0]
	}
	return nil
}

func (p *Prog) sigImpl(r *Result, sc sigScheme, root *ssa.Function) {
	fl := newFlow(p)
	fl.MaxDepth = 12
	fl.Run(root, "", "k", "m", "s")
	all := map[*ssa.Function]bool{}
	vals := map[ssa.Value]*fval{}
	var walk func(fr *fframe)
	walk = func(fr *fframe) {
		all[fr.fn] = true
		for v, x := range fr.vals {
			if vals[v] == nil {
				vals[v] = newFval()
			}
			fl.add(vals[v], x)
		}
		for _, ks := range fr.kids {
			for _, k := range ks {
				walk(k)
			}
		}
	}
	walk(fl.Root)
	lab := func(v ssa.Value) string {
		if x := vals[v]; x != nil {
			return labelsOf(fl, x)
		}
		return ""
	}
	for f := range all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Slice); ok && (s.Low != nil || s.High != nil) && lab(s.X) != "" {
					r.violate("cut:"+fname(root), p.pos(s.Pos()), "%s: %s cuts what is verified", fname(root), fname(f))
				}
				if ph, ok := in.(*ssa.Phi); ok && lab(ph) != "" && !isErrorType(ph.Type()) {
					for _, ed := range ph.Edges {
						if c, isC := ed.(*ssa.Const); lab(ed) == "" && !(isC && c.Value == nil) {
							if bt, ok := ph.Type().Underlying().(*types.Basic); ok && bt.Info()&(types.IsBoolean|types.IsInteger) != 0 {
								continue
							}
							r.violate("replaced:"+fname(root), p.pos(ph.Pos()), "%s: %s can replace what is verified by something else", fname(root), fname(f))
						}
					}
				}
			}
		}
	}
	e := newEngine(p)
	isEv := func(com *ssa.CallCommon) bool {
		if !foreign(com) {
			return false
		}
		res := com.Signature().Results()
		if res.Len() == 0 {
			return false
		}
		last := res.At(res.Len() - 1).Type()
		if isErrorType(last) {
			return true
		}
		b, ok := last.Underlying().(*types.Basic)
		return ok && b.Kind() == types.Bool
	}
	e.IsEvent = func(com *ssa.CallCommon, name string) bool { return isEv(com) }
	e.Skip = func(f *ssa.Function) bool { return !all[f] }
	e.Force = func(f *ssa.Function) bool { return all[f] }
	seen := map[string]bool{}
	report := func(key string, pos token.Pos, format string, args ...interface{}) {
		key += ":" + fname(root)
		if !seen[key] {
			seen[key] = true
			r.violate(key, p.pos(pos), format, args...)
		}
	}
	verifications := 0
	e.Event = func(c *CallCtx) ([]Outcome, bool) {
		if !isEv(c.Com) {
			return nil, false
		}
		o := calleeObj(c.Com)
		st := c.St.C
		fc := fl.Calls[c.Instr]
		var ls []string
		union := ""
		if fc != nil {
			for _, a := range fc.Args {
				l := labelsOf(fl, a)
				ls = append(ls, l)
				union += l
			}
		}
		res := c.Com.Signature().Results()
		if isErrorType(res.At(res.Len() - 1).Type()) {
			good, bad := make([]Val, res.Len()), make([]Val, res.Len())
			good[res.Len()-1] = Val{K: VNil}
			bad[res.Len()-1] = Val{K: VNonNil}
			if union != "" {
				r.ok("parsing")
				for _, l := range union {
					if strings.ContainsRune(sc.nonNil, l) && strings.HasSuffix(o.Name(), "serialize") && kvGet(st, "len"+string(l)) == "" {
						report("empty-"+string(l), c.Instr.Pos(), "%s: %s parses input that was not found to have any bytes", fname(root), fname(c.Fn))
					}
				}
				st2 := kvSet(st, "err", "1")
				return []Outcome{{C: st, Res: good}, {C: st2, Res: bad}}, true
			}
			return []Outcome{{C: st, Res: good}, {C: st, Res: bad}}, true
		}
		if strings.HasPrefix(o.Name(), "Verify") && o.Pkg().Path() == sc.lib {
			verifications++
			right := false
			if len(ls) == 3 {
				if o.Type().(*types.Signature).Recv() != nil {
					// signature.Verify(message, key) or signature.Verify(key, message)
					right = ls[0] == "s" && (ls[1] == "k" && ls[2] == "m" || ls[1] == "m" && ls[2] == "k")
				} else {
					right = ls[0] == "k" && ls[1] == "m" && ls[2] == "s"
				}
			}
			if !right {
				report("other-input", c.Instr.Pos(), "%s: %s verifies something other than this message with this key and this signature (%s)", fname(root), fname(c.Fn), strings.Join(ls, ","))
				return []Outcome{{C: st, Res: []Val{vbool(true)}}, {C: kvSet(st, "no", "1"), Res: []Val{vbool(false)}}}, true
			}
			r.ok("verification of the call's key, message and signature")
			for _, l := range sc.nonNil {
				if l == 'm' && kvGet(st, "lenm") == "" {
					report("empty-m", c.Instr.Pos(), "%s: %s verifies a message that was not found to have any bytes", fname(root), fname(c.Fn))
				}
			}
			if sc.keyLen != 0 && kvGet(st, "lenk") != "fixed" {
				report("key-length", c.Instr.Pos(), "%s: %s verifies with a key whose length was not found to be %d", fname(root), fname(c.Fn), sc.keyLen)
			}
			if sc.points {
				for _, l := range []string{"k", "s"} {
					for _, q := range []string{"IsZero0", "IsValid1", "IsValidOrder1"} {
						if kvGet(st, q+l) == "" {
							report("form-"+q+l, c.Instr.Pos(), "%s: %s verifies although the %s was not found to have the required form (%s)", fname(root), fname(c.Fn), map[string]string{"k": "key", "s": "signature"}[l], q[:len(q)-1])
						} else {
							r.ok("form of key and signature")
						}
					}
				}
			}
			return []Outcome{{C: kvSet(st, "ver", "1"), Res: []Val{vbool(true)}}, {C: kvSet(st, "no", "1"), Res: []Val{vbool(false)}}}, true
		}
		if strings.HasPrefix(o.Name(), "Is") && len(ls) > 0 && len(ls[0]) == 1 {
			return []Outcome{{C: kvSet(st, o.Name()+"1"+ls[0], "1"), Res: []Val{vbool(true)}}, {C: kvSet(st, o.Name()+"0"+ls[0], "1"), Res: []Val{vbool(false)}}}, true
		}
		return []Outcome{{C: st, Res: []Val{vbool(true)}}, {C: st, Res: []Val{vbool(false)}}}, true
	}
	e.Branch = func(e *Engine, fn *ssa.Function, cond ssa.Value, truth bool, st *State) bool {
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, truth = u.X, !truth
		}
		if v := e.raw(st, cond); v.K == VSym && v.S != nil {
			cond = v.S
		}
		b, ok := cond.(*ssa.BinOp)
		if !ok {
			return true
		}
		x, y, op := b.X, b.Y, b.Op
		if isLenOf(x) == nil {
			x, y = y, x
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		arg := isLenOf(x)
		if arg == nil || len(lab(arg)) != 1 {
			return true
		}
		l := lab(arg)
		if !truth {
			switch op {
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			case token.LSS:
				op = token.GEQ
			case token.GEQ:
				op = token.LSS
			case token.LEQ:
				op = token.GTR
			case token.GTR:
				op = token.LEQ
			}
		}
		c, isC := y.(*ssa.Const)
		n := int64(-1)
		if isC && c.Value != nil {
			n = c.Int64()
		}
		switch {
		case op == token.EQL && (n == sc.keyLen && n > 0):
			st.C = kvSet(st.C, "len"+l, "fixed")
		case op == token.EQL && n != 0, op == token.NEQ && n == 0, op == token.GTR && n >= 0, op == token.GEQ && n > 0:
			st.C = kvSet(st.C, "len"+l, "some")
		}
		return true
	}
	e.OnReturn = func(e *Engine, fn *ssa.Function, in ssa.Instruction, st *State, res []Val) {
		if fn != root || len(res) != 1 {
			return
		}
		if isNil, known := res[0].isNil(); known && !isNil {
			r.ok("rejection")
			return
		} else if !known {
			if res[0].K == VSym || res[0].K == VTag {
				// an error variable is never nil; anything else is not known
				if ld, ok := res[0].S.(*ssa.UnOp); ok {
					if _, isG := ld.X.(*ssa.Global); isG {
						r.ok("rejection")
						return
					}
				}
			}
		}
		if kvGet(st.C, "ver") == "" || kvGet(st.C, "no") != "" {
			report("unverified", in.Pos(), "%s can return no error although the signature was not found to be right", fname(root))
			return
		}
		if kvGet(st.C, "err") != "" {
			report("parse-error", in.Pos(), "%s can return no error although parsing the key or the signature failed", fname(root))
			return
		}
		r.ok("acceptance only after verification")
	}
	e.Run(root, "")
	for _, o := range e.Overflow {
		r.violate("overflow:"+o, "-", "analysis gave up: %s", o)
	}
	r.floor("verifications by "+fname(root), verifications, 1)
}

// sigHost: the host functions tell the contract what the verification said, about what the contract gave.
func (p *Prog) sigHost(r *Result) {
	n := 0
	for _, f := range p.hostFunctions() {
		var sc *sigScheme
		for i := range sigSchemes {
			if p.callsMethod(f, sigSchemes[i].method, map[*ssa.Function]bool{}, 4) {
				sc = &sigSchemes[i]
			}
		}
		if sc == nil {
			continue
		}
		n++
		r.saw(fname(f))
		p.sigHostFn(r, *sc, f)
	}
	r.floor("host functions that verify", n, len(sigSchemes))
}

func (p *Prog) callsMethod(f *ssa.Function, m string, seen map[*ssa.Function]bool, depth int) bool {
	if seen[f] || depth == 0 {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if methodName(ci.Common()) == m {
				return true
			}
			if g := ci.Common().StaticCallee(); g != nil && g.Blocks != nil && isAPIPkg(pkgRel(g)) && p.callsMethod(g, m, seen, depth-1) {
				return true
			}
		}
	}
	return false
}

func (p *Prog) sigHostFn(r *Result, sc sigScheme, root *ssa.Function) {
	ps := root.Params
	if len(ps) < 5 {
		r.violate("signature:"+fname(root), p.pos(root.Pos()), "%s has too few parameters", fname(root))
		return
	}
	keyOff, sigOff, msgLen, msgOff := ps[1], ps[len(ps)-1], ps[len(ps)-2], ps[len(ps)-3]
	e := newEngine(p)
	e.MaxState = 20000
	load := func(com *ssa.CallCommon) bool {
		c, m := anyCtxCall(com)
		return c == "runtime" && m == "MemLoad"
	}
	ver := func(com *ssa.CallCommon) bool {
		return methodName(com) == sc.method && com.Signature().Results().Len() == 1
	}
	e.IsEvent = func(com *ssa.CallCommon, name string) bool { return load(com) || ver(com) || failsExecution(com) }
	e.Skip = func(f *ssa.Function) bool {
		rel := pkgRel(f)
		return !(isAPIPkg(rel) || rel == "arwen" || constResult(f))
	}
	e.Force = constResult
	seen := map[string]bool{}
	report := func(key string, pos token.Pos, format string, args ...interface{}) {
		key += ":" + fname(root)
		if !seen[key] {
			seen[key] = true
			r.violate(key, p.pos(pos), format, args...)
		}
	}
	is := func(v Val, q *ssa.Parameter) bool { return v.K == VSym && v.S == q }
	e.Event = func(c *CallCtx) ([]Outcome, bool) {
		st := c.St.C
		if v, ok := constCall(p, c.Com); ok {
			return []Outcome{{C: st, Res: []Val{v}}}, true
		}
		if failsExecution(c.Com) {
			return []Outcome{{C: kvSet(st, "failed", "1")}}, true
		}
		if load(c.Com) {
			a := c.Args[len(c.Args)-2:]
			tag := "other"
			switch {
			case is(a[0], keyOff):
				tag = "k"
				if a[1].K == VInt {
					right := false
					for _, n := range sc.loadKey {
						right = right || n == a[1].N
					}
					if !right {
						tag = "part"
					}
				} else if !(len(sc.loadKey) > 1 && is(a[1], ps[2]) && kvGet(st, "klen") != "") {
					tag = "part"
				}
			case is(a[0], msgOff):
				tag = "m"
				if !is(a[1], msgLen) {
					tag = "part"
				}
			case is(a[0], sigOff):
				tag = "s"
				if sc.loadSig != 0 && !(a[1].K == VInt && a[1].N == sc.loadSig) {
					tag = "part"
				}
			}
			return []Outcome{{C: st, Res: []Val{vtag(tag), {K: VNil}}}, {C: kvSet(st, "err", "1"), Res: []Val{{K: VNil}, {K: VNonNil}}}}, true
		}
		if ver(c.Com) {
			a := c.Args[len(c.Args)-3:]
			if a[0].T != "k" || a[1].T != "m" || a[2].T != "s" {
				report("arguments", c.Instr.Pos(), "%s: %s has something other than the key, message and signature the contract pointed at verified", fname(root), fname(c.Fn))
			} else {
				r.ok("what the contract gave is verified")
			}
			return []Outcome{{C: kvSet(st, "v", "ok"), Res: []Val{{K: VNil}}}, {C: kvSet(st, "v", "bad"), Res: []Val{{K: VNonNil}}}}, true
		}
		return nil, false
	}
	e.Branch = func(e *Engine, fn *ssa.Function, cond ssa.Value, truth bool, st *State) bool {
		b, ok := cond.(*ssa.BinOp)
		if !ok || len(sc.loadKey) < 2 {
			return true
		}
		c, isC := b.Y.(*ssa.Const)
		if !isC || c.Value == nil || !is(e.raw(st, b.X), ps[2]) {
			return true
		}
		if b.Op == token.EQL && truth || b.Op == token.NEQ && !truth {
			for _, n := range sc.loadKey {
				if n == c.Int64() {
					st.C = kvSet(st.C, "klen", "1")
				}
			}
		}
		return true
	}
	e.OnReturn = func(e *Engine, fn *ssa.Function, in ssa.Instruction, st *State, res []Val) {
		if fn != root || len(res) != 1 {
			return
		}
		told := "?"
		if res[0].K == VInt {
			told = "no"
			if res[0].N == 0 {
				told = "yes"
			}
		}
		v := kvGet(st.C, "v")
		switch {
		case told == "?":
			report("unknown-answer", in.Pos(), "%s returns something that does not depend on the verification alone", fname(root))
		case kvGet(st.C, "failed") != "":
			r.ok("execution failed")
		case told == "yes" && (v != "ok" || kvGet(st.C, "err") != ""):
			report("accepted", in.Pos(), "%s tells the contract that the signature is right although it was not verified", fname(root))
		case told == "no" && v == "ok":
			report("rejected", in.Pos(), "%s tells the contract that the signature is wrong although it was verified", fname(root))
		default:
			r.ok("answer of the host function")
		}
	}
	e.Run(root, "")
	for _, o := range e.Overflow {
		r.violate("overflow:"+o, "-", "analysis gave up: %s", o)
	}
}
