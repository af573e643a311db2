package main

// Which code becomes the code of a contract (C13), and what may be invoked in it (C14).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C13", checkC13)
	register("C14", checkC14)
}

// importsOfESDT: functions that contracts may not import before the epoch that enables them.
var importsOfESDT = []string{"transferESDTExecute", "transferESDTNFTExecute", "transferValueExecute", "getESDTBalance", "getESDTTokenData", "getESDTTokenType",
	"getESDTTokenNonce", "getCurrentESDTNFTNonce", "getESDTNFTNameLength", "getESDTNFTAttributeLength", "getESDTNFTURILength", "bigIntGetESDTExternalBalance"}

// hostInput: what an exploration of the host assumes about the input.
type hostInput struct {
	function  string // "" = unknown
	callType  int64  // -1 = unknown
	allowInit int    // -1 = unknown
}

// fieldLoaded: the struct type and the field a load reads.
func fieldLoaded(addr ssa.Value) (string, string) {
	fa, ok := addr.(*ssa.FieldAddr)
	if !ok {
		return "", ""
	}
	return typeName(deref(fa.X.Type())), fieldName(fa.X.Type(), fa.Field)
}

// deployEngine explores the host like c15Engine and follows validation, initialisation and permission.
func deployEngine(p *Prog, root *ssa.Function, in hostInput, deploy func(c *CallCtx), invoke func(c *CallCtx, kind string)) *Engine {
	e := c15Engine(p, root)
	e.MaxState = 100000
	isEvent, event, load := e.IsEvent, e.Event, e.Load
	own := map[string]bool{"MustVerifyNextContractCode": true, "StartWasmerInstance": true, "DeployCode": true, "GetUserAccount": true, "GetCodeMetadata": true,
		"GetOwnerAddress": true, "AccountExists": true, "NewAddress": true, "DeleteOutputAccount": true, "Function": true, "SetCustomCallFunction": true, "CodeMetadataFromBytes": true}
	e.IsEvent = func(com *ssa.CallCommon, name string) bool {
		return own[methodName(com)] || name == "bytes.Equal" || isEvent(com, name)
	}
	e.FieldLoad = func(st *State, base Val, field string) (Val, bool) {
		if base.T == "meta" && field == "Upgradeable" {
			return vbool(kvGet(st.C, "up") == "1"), true
		}
		return Val{}, false
	}
	e.Load = func(st *State, x *ssa.UnOp) (Val, bool) {
		t, f := fieldLoaded(x.X)
		switch {
		case t == "ContractCallInput" && f == "Function" && in.function != "":
			return vtag("s:" + in.function), true
		case t == "ContractCallInput" && f == "AllowInitFunction" && in.allowInit >= 0:
			return vbool(in.allowInit == 1), true
		case t == "VMInput" && f == "CallType" && in.callType >= 0:
			return vint(in.callType), true
		case t == "ContractCallInput" && f == "RecipientAddr":
			return vtag("in.recipient"), true
		case t == "VMInput" && f == "CallerAddr":
			return vtag("in.caller"), true
		case f == "Upgradeable" && t == "CodeMetadata":
			fa := x.X.(*ssa.FieldAddr)
			if e.Eval(st, fa.X).T == "meta" {
				return vbool(kvGet(st.C, "up") == "1"), true
			}
		}
		return load(st, x)
	}
	e.Event = func(c *CallCtx) ([]Outcome, bool) {
		st := c.St.C
		n := c.Com.Signature().Results().Len()
		good, bad := make([]Val, n), make([]Val, n)
		if lastError(c.Com) {
			good[n-1], bad[n-1] = Val{K: VNil}, Val{K: VNonNil}
		}
		last := func() Val {
			if len(c.Args) == 0 {
				return Val{}
			}
			return c.E.Eval(c.St, lastArg(c.Com))
		}
		m := methodName(c.Com)
		fail := func(s string) string {
			if kvGet(s, "failed") != "" {
				return s
			}
			return kvSet(s, "failed", m)
		}
		switch {
		case c.Name == "bytes.Equal":
			a, b := c.E.Eval(c.St, c.Com.Args[0]).T, c.E.Eval(c.St, c.Com.Args[1]).T
			if a == "in.caller" && b == "acct.owner" || b == "in.caller" && a == "acct.owner" {
				return []Outcome{{C: kvSet(st, "owner", "1"), Res: []Val{vbool(true)}}, {C: kvSet(st, "owner", "0"), Res: []Val{vbool(false)}}}, true
			}
			return nil, false
		case isCallback(c.Com):
			kind := "unknown"
			switch v := c.E.Eval(c.St, c.Com.Value); {
			case v.T == "fn:init":
				kind = "init"
			case strings.HasPrefix(v.T, "fn:call"):
				kind = "call"
			}
			v := c.E.Eval(c.St, c.Com.Value)
			if n, known := v.isNil(); invoke != nil && !(known && n) {
				invoke(c, kind)
			}
			return event(c)
		}
		switch m {
		case "MustVerifyNextContractCode":
			return []Outcome{{C: kvSet(st, "armed", "1"), Res: nil}}, true
		case "StartWasmerInstance":
			c.St.C = kvSet(kvSet(kvSet(st, "valid", ""), "init", ""), "ran", "")
			st = c.St.C
			ok := st
			nc := last()
			if kvGet(st, "armed") != "" && nc.K == VTrue {
				ok = kvSet(kvSet(st, "valid", fmt.Sprint(c.E.id(c.Instr.(ssa.Value)))), "armed", "")
			}
			return []Outcome{{C: ok, Res: good}, {C: fail(st), Res: bad}}, true
		case "GetInitFunction":
			return []Outcome{{C: kvSet(st, "init", "none"), Res: []Val{{K: VNil}}}, {C: kvSet(st, "init", "has"), Res: []Val{vtag("fn:init")}}}, true
		case "GetFunctionToCall":
			tag := "fn:call"
			if kvGet(st, "custom") != "" {
				tag = "fn:call:custom"
			}
			good[0], bad[0] = vtag(tag), Val{K: VNil}
			return []Outcome{{C: st, Res: good}, {C: fail(st), Res: bad}}, true
		case "SetCustomCallFunction":
			return []Outcome{{C: kvSet(st, "custom", "1"), Res: nil}}, true
		case "Function":
			v := Val{}
			if in.function != "" && kvGet(st, "custom") == "" {
				v = vtag("s:" + in.function)
			}
			return []Outcome{{C: st, Res: []Val{v}}}, true
		case "DeployCode":
			if deploy != nil {
				deploy(c)
			}
			return []Outcome{{C: kvSet(st, "deployed", "1"), Res: nil}}, true
		case "GetUserAccount":
			if n != 2 {
				return nil, false
			}
			good[0] = vtag("otheracct")
			if last().T == "in.recipient" {
				good[0] = vtag("acct")
			}
			return []Outcome{{C: st, Res: good}, {C: fail(st), Res: bad}}, true
		case "GetCodeMetadata", "GetOwnerAddress":
			v := Val{}
			if len(c.Args) > 0 && c.E.Eval(c.St, c.Com.Value).T == "acct" {
				v = vtag(map[string]string{"GetCodeMetadata": "acct.meta", "GetOwnerAddress": "acct.owner"}[m])
			}
			return []Outcome{{C: st, Res: []Val{v}}}, true
		case "CodeMetadataFromBytes":
			if last().T == "acct.meta" {
				return []Outcome{{C: kvSet(st, "up", "1"), Res: []Val{vtag("meta")}}, {C: kvSet(st, "up", "0"), Res: []Val{vtag("meta")}}}, true
			}
			return []Outcome{{C: st, Res: []Val{{}}}}, true
		case "AccountExists":
			if last().T == "newaddr" {
				return []Outcome{{C: kvSet(st, "exists", "1"), Res: []Val{vbool(true)}}, {C: kvSet(st, "exists", "0"), Res: []Val{vbool(false)}}}, true
			}
			return []Outcome{{C: st, Res: []Val{{}}}}, true
		case "NewAddress":
			if n != 2 {
				return nil, false
			}
			good[0] = vtag("newaddr")
			return []Outcome{{C: st, Res: good}, {C: fail(st), Res: bad}}, true
		case "DeleteOutputAccount":
			if last().T == "newaddr" {
				st = kvSet(st, "deleted", "1")
			}
			return []Outcome{{C: st, Res: nil}}, true
		case "ExecuteOnDestContext", "ExecuteOnSameContext":
			if c.Com.StaticCallee() != root {
				if kvGet(st, "armed") != "" {
					st = kvSet(kvSet(st, "armed", ""), "nested", "armed")
				} else {
					st = kvSet(st, "nested", "unarmed")
				}
				c.St.C = st
			}
		}
		return event(c)
	}
	return e
}

func lastArg(com *ssa.CallCommon) ssa.Value {
	if len(com.Args) == 0 {
		return com.Value
	}
	return com.Args[len(com.Args)-1]
}

func checkC13(p *Prog, r *Result) {
	r.Rule = "on every path of the four ways to deploy, code is made the code of a contract only after an instance of that same code was started as new and to be verified, and its initialisation, if it has one, ran without failing; a new instance that is to be verified is only accepted after its memory, every exported function (name, signature, not reserved) and its imports were checked; a contract's request to upgrade another is carried out only after that contract was found upgradeable and owned by the requester; no other code writes the code of an account of the result"
	r.Assumptions = []string{"Wasmer refuses code that is not valid WebAssembly or imports anything else than the offered functions", "the node checks the permission of an upgrade requested by a transaction"}
	c13Start(p, r)
	c13Functions(p, r)
	c13Reserved(p, r)
	c13Writers(p, r)
	for _, name := range []string{"doRunSmartContractCreate", "doRunSmartContractUpgrade", "execute", "CreateNewContract"} {
		f := p.fn(hostPkg + ".vmHost." + name)
		if f == nil {
			r.violate("undecided:"+name, "-", "%s not found", name)
			continue
		}
		c13Paths(p, r, f)
	}
	c13Route(p, r)
}

// c13Paths: the order of validation, initialisation and deployment.
func c13Paths(p *Prog, r *Result, root *ssa.Function) {
	r.saw(fname(root))
	name := root.Name()
	n := 0
	var e *Engine
	deploy := func(c *CallCtx) {
		n++
		st := c.St.C
		pos := p.pos(c.Instr.Pos())
		if name == "CreateNewContract" {
			if kvGet(st, "exists") != "0" {
				r.violate("deploy-over:"+name, pos, "%s can put the code of a new contract over that of an existing account", fname(root))
			} else {
				r.ok("new contracts get their code where no account is")
			}
			return
		}
		switch {
		case kvGet(st, "valid") == "":
			r.violate("unvalidated:"+name, pos, "%s can deploy code that was not validated before", fname(root))
		case kvGet(st, "failed") != "":
			r.violate("failed:"+name, pos, "%s can deploy code although this failed before: %s", fname(root), kvGet(st, "failed"))
		case kvGet(st, "init") != "none" && kvGet(st, "ran") != "init":
			r.violate("uninitialised:"+name, pos, "%s can deploy code whose initialisation was not run", fname(root))
		default:
			r.ok("code is deployed validated and initialised")
		}
		if name == "execute" {
			if kvGet(st, "up") != "1" {
				r.violate("upgrade-not-upgradeable", pos, "%s can upgrade a contract that was not found to be upgradeable", fname(root))
			} else if kvGet(st, "owner") != "1" {
				r.violate("upgrade-not-owner", pos, "%s can upgrade a contract for someone who was not found to be its owner", fname(root))
			} else {
				r.ok("upgrades requested by contracts are allowed ones")
			}
		}
		for v, id := range e.ids {
			if v != nil && fmt.Sprint(id) == kvGet(st, "valid") {
				if start, ok := v.(*ssa.Call); ok {
					args := start.Call.Args
					a, b := codeOrigins(p, args[len(args)-3]), codeOrigins(p, lastArg(c.Com))
					if strings.Join(a, ",") != strings.Join(b, ",") {
						r.violate("other-code:"+name, pos, "%s deploys %s but validated %s", fname(root), strings.Join(b, " or "), strings.Join(a, " or "))
					} else {
						r.ok("the code deployed is the code validated")
					}
				}
			}
		}
	}
	e = deployEngine(p, root, hostInput{callType: -1, allowInit: -1}, deploy, nil)
	for _, x := range e.Run(root, "") {
		if name != "CreateNewContract" || kvGet(x.C, "deployed") == "" {
			continue
		}
		isNil, known := x.Res[len(x.Res)-1].isNil()
		switch {
		case !known || !isNil:
			if kvGet(x.C, "deleted") == "" {
				r.violate("not-removed:"+name, p.pos(root.Pos()), "%s can fail and leave the code of the new contract", fname(root))
			} else {
				r.ok("failed deployments leave no code")
			}
		case kvGet(x.C, "nested") == "":
			r.violate("uninitialised:"+name, p.pos(root.Pos()), "%s can deploy code whose initialisation was not run", fname(root))
		case kvGet(x.C, "nested") != "armed":
			r.violate("not-to-verify:"+name, p.pos(root.Pos()), "%s can run the code of the new contract without having asked for its validation", fname(root))
		default:
			r.ok("deployments by contracts ask for validation and initialise")
		}
	}
	r.floor("deployments of "+name, n, 1)
	e.finish(r)
	if name == "CreateNewContract" {
		// the instance for the nested call is started as one of known code: is it verified all the same?
		var probs []startProblem
		for _, pr := range startProblems(p, false) {
			if pr.key != "warm" { // there is no warm instance of a new address
				probs = append(probs, pr)
			}
		}
		if len(probs) > 0 {
			r.violate("unvalidated:"+name, p.pos(root.Pos()), "the code of a contract deployed by %s is never validated: the nested call that initialises it starts the instance as one of known code (%s)", fname(root), probs[0].text)
		}
	}
}

// codeOrigins: where the code in a value (bytes, or a deployment input) comes from.
func codeOrigins(p *Prog, v ssa.Value) []string {
	out := map[string]bool{}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, asInput bool)
	field := func(base ssa.Value, f string) {
		if f != "ContractCode" {
			out["field "+f] = true
			return
		}
		walk(base, true)
	}
	walk = func(v ssa.Value, asInput bool) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Parameter:
			if asInput && typeName(deref(x.Type())) != "CodeDeployInput" {
				out[typeName(deref(x.Type()))+" of the request"] = true
				return
			}
			idx := -1
			for i, q := range x.Parent().Params {
				if q == x {
					idx = i
				}
			}
			n := 0
			for _, f := range p.Funcs {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() == x.Parent() {
							n++
							walk(c.Call.Args[idx], asInput)
						}
					}
				}
			}
			if n == 0 {
				out["parameter"] = true
			}
		case *ssa.UnOp:
			if x.Op != token.MUL {
				out[x.String()] = true
				return
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok && !asInput {
				field(fa.X, fieldName(fa.X.Type(), fa.Field))
				return
			}
			walk(x.X, asInput)
		case *ssa.Field:
			field(x.X, fieldName(x.X.Type(), x.Field))
		case *ssa.FieldAddr:
			field(x.X, fieldName(x.X.Type(), x.Field))
		case *ssa.Alloc:
			n := 0
			for _, ref := range *x.Referrers() {
				switch y := ref.(type) {
				case *ssa.Store:
					if y.Addr == x {
						n++
						walk(y.Val, asInput)
					}
				case *ssa.FieldAddr:
					if !asInput || fieldName(y.X.Type(), y.Field) != "ContractCode" {
						continue
					}
					for _, r2 := range *y.Referrers() {
						if s, ok := r2.(*ssa.Store); ok && s.Addr == y {
							n++
							walk(s.Val, false)
						}
					}
				}
			}
			if n == 0 {
				out["nothing"] = true
			}
		case *ssa.Phi:
			for _, ed := range x.Edges {
				walk(ed, asInput)
			}
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				out[fmt.Sprintf("result %d of %s", x.Index, methodName(&c.Call))] = true
				return
			}
			out["unknown"] = true
		case *ssa.Call:
			out["result of "+methodName(&x.Call)] = true
		default:
			out["unknown"] = true
		}
	}
	walk(v, typeName(deref(v.Type())) == "CodeDeployInput")
	var l []string
	for k := range out {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

type startProblem struct{ key, text, pos string }

// exportsLoop finds the function that ranges over the exported functions and answers an error.
func exportsLoop(p *Prog) *ssa.Function {
	for _, f := range p.Funcs {
		if pkgRel(f) != "arwen/contexts" || !lastErrorOf(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				rg, ok := in.(*ssa.Range)
				if !ok {
					continue
				}
				if c, ok := rg.X.(*ssa.Call); ok && methodName(&c.Call) == "GetExports" {
					return f
				}
			}
		}
	}
	return nil
}

// startProblems: what is not checked on a path on which an instance to be verified is accepted.
func startProblems(p *Prog, newCode bool) (out []startProblem) {
	root := p.fn("arwen/contexts.runtimeContext.StartWasmerInstance")
	if root == nil {
		return []startProblem{{"undecided:start", "StartWasmerInstance not found", "-"}}
	}
	loop := exportsLoop(p)
	e := newEngine(p)
	e.MaxState = 100000
	e.Args = make([]Val, len(root.Params))
	for i, q := range root.Params {
		e.Args[i] = Val{K: VSym, S: q}
	}
	e.Args[len(root.Params)-1] = vbool(newCode)
	ctxField := func(addr ssa.Value) string {
		t, f := fieldLoaded(addr)
		if t == "runtimeContext" {
			return f
		}
		return ""
	}
	// a loop over names stands for all the names in it
	loopNames := map[*ssa.Function][]string{}
	for _, f := range p.Funcs {
		if pkgRel(f) != "arwen/contexts" || !lastErrorOf(f) {
			continue
		}
		variable := false
		var names []string
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && methodName(&c.Call) == "IsFunctionImported" {
					if _, isConst := lastArg(&c.Call).(*ssa.Const); !isConst {
						variable = true
					}
				}
				for _, op := range in.Operands(nil) {
					if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
						names = append(names, constant.StringVal(k.Value))
					}
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil {
						if init := g.Pkg.Func("init"); init != nil {
							for _, ib := range init.Blocks {
								for _, ii := range ib.Instrs {
									if s, ok := ii.(*ssa.Store); ok {
										if k, ok := s.Val.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
											names = append(names, constant.StringVal(k.Value))
										}
									}
								}
							}
						}
					}
				}
			}
		}
		if variable {
			loopNames[f] = names
		}
	}
	e.Skip = func(f *ssa.Function) bool { return pkgRel(f) != "arwen/contexts" || f == loop || loopNames[f] != nil }
	e.Force = func(f *ssa.Function) bool { return pkgRel(f) == "arwen/contexts" && (lastErrorOf(f) || f.Signature.Results().Len() > 0) }
	own := map[string]bool{"HasMemory": true, "IsFunctionImported": true, "IsESDTFunctionsEnabled": true}
	isOwn := func(com *ssa.CallCommon) bool {
		f := com.StaticCallee()
		return f != nil && pkgRel(f) == "arwen/contexts" && !e.Skip(f)
	}
	e.IsEvent = func(com *ssa.CallCommon, _ string) bool {
		return own[methodName(com)] || fallibleCall(com) && !isOwn(com)
	}
	e.IsRelevantInstr = func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Store:
			return ctxField(x.Addr) == "verifyCode" || ctxField(x.Addr) == "instance"
		case *ssa.UnOp:
			return x.Op == token.MUL && ctxField(x.X) == "verifyCode"
		}
		return false
	}
	e.Load = func(st *State, x *ssa.UnOp) (Val, bool) {
		if ctxField(x.X) == "verifyCode" {
			return vbool(kvGet(st.C, "verify") == "1"), true
		}
		return Val{}, false
	}
	e.Instr = func(e *Engine, f *ssa.Function, in ssa.Instruction, st *State) {
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		switch ctxField(s.Addr) {
		case "verifyCode":
			v := "0"
			if e.Eval(st, s.Val).K == VTrue {
				v = "1"
			}
			st.C = kvSet(st.C, "verify", v)
		case "instance":
			v := "other"
			if w := e.Eval(st, s.Val); w.K == VTag {
				v = w.T
			} else if n, known := w.isNil(); known && n {
				v = "none"
			} else if u, ok := s.Val.(*ssa.UnOp); ok && ctxField(u.X) == "warmInstance" {
				v = "warm"
			}
			st.C = kvSet(kvSet(kvSet(kvSet(st.C, "inst", v), "mem", ""), "fns", ""), "imp", "")
		}
	}
	e.Event = func(c *CallCtx) ([]Outcome, bool) {
		st := c.St.C
		n := c.Com.Signature().Results().Len()
		switch methodName(c.Com) {
		case "HasMemory":
			return []Outcome{{C: kvSet(st, "mem", "1"), Res: []Val{vbool(true)}}, {C: kvSet(st, "mem", "0"), Res: []Val{vbool(false)}}}, true
		case "IsESDTFunctionsEnabled":
			return []Outcome{{C: kvSet(st, "esdt", "1"), Res: []Val{vbool(true)}}, {C: kvSet(st, "esdt", "0"), Res: []Val{vbool(false)}}}, true
		case "IsFunctionImported":
			name := "?"
			if k, ok := lastArg(c.Com).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
				name = constant.StringVal(k.Value)
			}
			set := kvGet(st, "imp")
			if !strings.Contains(","+set+",", ","+name+",") {
				l := strings.Split(set, ",")
				if set == "" {
					l = nil
				}
				l = append(l, name)
				sort.Strings(l)
				set = strings.Join(l, ",")
			}
			return []Outcome{{C: kvSet(st, "bad", "1"), Res: []Val{vbool(true)}}, {C: kvSet(st, "imp", set), Res: []Val{vbool(false)}}}, true
		}
		if !fallibleCall(c.Com) || isOwn(c.Com) {
			return nil, false
		}
		good, bad := make([]Val, n), make([]Val, n)
		good[n-1], bad[n-1] = Val{K: VNil}, Val{K: VNonNil}
		ok := st
		switch methodName(c.Com) {
		case "NewInstanceWithOptions":
			good[0] = vtag("bytecode")
		case "NewInstanceFromCompiledCodeWithOptions":
			good[0] = vtag("compiled")
		}
		f := c.Com.StaticCallee()
		if f != nil && f == loop {
			ok = kvSet(st, "fns", "1")
		}
		if names := loopNames[f]; f != nil && names != nil {
			sort.Strings(names)
			ok = kvSet(st, "imp", strings.Join(names, ","))
			st = kvSet(st, "bad", "1")
		}
		return []Outcome{{C: ok, Res: good}, {C: st, Res: bad}}, true
	}
	pos := p.pos(root.Pos())
	add := func(key, text string) {
		for _, o := range out {
			if o.key == key {
				return
			}
		}
		out = append(out, startProblem{key, text, pos})
	}
	paths := 0
	for _, x := range e.Run(root, kvSet("", "verify", "1")) {
		isNil, known := x.Res[0].isNil()
		if known && !isNil {
			continue
		}
		paths++
		if kvGet(x.C, "inst") == "warm" {
			add("warm", "the warm instance, which is of the code that the contract had before, is taken for the new code")
			continue
		}
		if kvGet(x.C, "inst") != "bytecode" {
			add("instance", "what runs is not an instance made from the new code")
			continue
		}
		if kvGet(x.C, "mem") != "1" {
			add("memory", "code is accepted without a memory")
		}
		if kvGet(x.C, "fns") != "1" {
			add("functions", "code is accepted without a look at its functions")
		}
		if kvGet(x.C, "bad") != "" {
			add("imports", "code that imports a function that is not available is accepted")
		}
		if kvGet(x.C, "esdt") != "1" {
			have := "," + kvGet(x.C, "imp") + ","
			for _, nm := range importsOfESDT {
				if !strings.Contains(have, ","+nm+",") {
					add("import:"+nm, "code that imports "+nm+" is accepted before the epoch that makes it available")
				}
			}
		}
	}
	if paths == 0 {
		add("none", "no path accepts an instance")
	}
	for _, o := range e.Overflow {
		add("undecided", o)
	}
	return out
}

// c13Start: a new instance that is to be verified is verified.
func c13Start(p *Prog, r *Result) {
	root := p.fn("arwen/contexts.runtimeContext.StartWasmerInstance")
	if root == nil {
		r.violate("undecided:start", "-", "StartWasmerInstance not found")
		return
	}
	r.saw(fname(root))
	if exportsLoop(p) == nil {
		r.violate("undecided:functions", p.pos(root.Pos()), "the function that checks the exported functions was not found")
		return
	}
	for _, pr := range startProblems(p, true) {
		r.violate("start:"+pr.key, pr.pos, "starting an instance of new code: %s", pr.text)
	}
	r.ok("instances of new code are verified")
	// the request to verify is always recorded
	fn := p.fn("arwen/contexts.runtimeContext.MustVerifyNextContractCode")
	if fn == nil {
		r.violate("undecided:verify", "-", "MustVerifyNextContractCode not found")
		return
	}
	isSet := func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		t, f := fieldLoaded(s.Addr)
		k, ok := s.Val.(*ssa.Const)
		return ok && t == "runtimeContext" && f == "verifyCode" && k.Value != nil && constant.BoolVal(k.Value)
	}
	if !always(fn, isSet, func(*ssa.Return) bool { return false }) {
		r.violate("verify-not-recorded", p.pos(fn.Pos()), "%s does not always record that the next code has to be verified", fname(fn))
	} else {
		r.ok("the request to verify is recorded")
	}
	// memory: the instance reports it from what Wasmer says
	for _, f := range p.Funcs {
		if f.Name() != "HasMemory" || pkgRel(f) != "wasmer" {
			continue
		}
		r.saw(fname(f))
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ret, ok := in.(*ssa.Return); ok {
					if k, ok := ret.Results[0].(*ssa.Const); ok && constant.BoolVal(k.Value) {
						if !guardedByMemory(b) {
							r.violate("has-memory", p.pos(f.Pos()), "%s says that there is a memory without looking", fname(f))
						}
					}
				}
			}
		}
		r.ok("memory is looked up")
	}
}

func guardedByMemory(b *ssa.BasicBlock) bool {
	for d := b.Idom(); d != nil; d = d.Idom() {
		if len(d.Instrs) > 0 {
			if _, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok {
				return true
			}
		}
	}
	return false
}

// c13Functions: every exported function has an allowed name and takes and answers nothing.
func c13Functions(p *Prog, r *Result) {
	loop := exportsLoop(p)
	if loop == nil {
		return
	}
	r.saw(fname(loop))
	ascii := map[*ssa.Function]bool{}
	mk := func() *Engine {
		e := newEngine(p)
		e.MaxState = 60000
		e.Skip = func(f *ssa.Function) bool { return pkgRel(f) != "arwen/contexts" || ascii[f] || f.Name() == "IsReserved" }
		e.Force = func(f *ssa.Function) bool { return !e.Skip(f) }
		e.Load = func(st *State, x *ssa.UnOp) (Val, bool) {
			if _, f := fieldLoaded(x.X); f == "InputArity" || f == "OutputArity" {
				return vint(map[bool]int64{true: 1, false: 0}[kvGet(st.C, f) == "1"]), true
			}
			return errorGlobal(x)
		}
		isASCII := func(com *ssa.CallCommon) bool {
			f := com.StaticCallee()
			if f == nil || pkgRel(f) != "arwen/contexts" || len(f.Params) == 0 || f.Signature.Results().Len() != 1 {
				return false
			}
			if b, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
				return false
			}
			return f.Name() != "IsReserved" && hasLoop(f)
		}
		e.IsEvent = func(com *ssa.CallCommon, name string) bool {
			return name == "builtin.len" || methodName(com) == "IsReserved" || methodName(com) == "GetSignature" || isASCII(com)
		}
		e.NextVal = func(st *State, x *ssa.Next) ([]Val, bool) {
			if !x.IsString {
				if rg, ok := x.Iter.(*ssa.Range); ok {
					if c, ok := rg.X.(*ssa.Call); ok && methodName(&c.Call) == "GetExports" {
						return []Val{{}, vtag("name"), {}}, true
					}
				}
			}
			return nil, false
		}
		e.Event = func(c *CallCtx) ([]Outcome, bool) {
			st := c.St.C
			arg := ""
			if len(c.Com.Args) > 0 {
				arg = c.E.Eval(c.St, lastArg(c.Com)).T
			}
			switch {
			case c.Name == "builtin.len":
				if arg != "name" {
					return nil, false
				}
				var outs []Outcome
				if k := kvGet(st, "len"); k != "" {
					var n int64
					fmt.Sscan(k, &n)
					return []Outcome{{C: st, Res: []Val{vint(n)}}}, true
				}
				for _, n := range []int64{0, 1, 255, 256, 1000} {
					outs = append(outs, Outcome{C: kvSet(st, "len", fmt.Sprint(n)), Res: []Val{vint(n)}})
				}
				return outs, true
			case methodName(c.Com) == "IsReserved":
				if arg != "name" {
					return []Outcome{{C: st, Res: []Val{{}}}}, true
				}
				return []Outcome{{C: kvSet(st, "reserved", "1"), Res: []Val{vbool(true)}}, {C: kvSet(st, "reserved", "0"), Res: []Val{vbool(false)}}}, true
			case methodName(c.Com) == "GetSignature":
				if arg != "name" {
					return nil, false
				}
				if kvGet(st, "sig") != "" {
					return []Outcome{{C: st, Res: []Val{{K: VNonNil}, vbool(true)}}}, true
				}
				outs := []Outcome{{C: st, Res: []Val{{K: VNil}, vbool(false)}}}
				for _, in := range []string{"0", "1"} {
					for _, o := range []string{"0", "1"} {
						outs = append(outs, Outcome{C: kvSet(kvSet(kvSet(st, "sig", "1"), "InputArity", in), "OutputArity", o), Res: []Val{{K: VNonNil}, vbool(true)}})
					}
				}
				return outs, true
			case isASCII(c.Com):
				if arg != "name" {
					return []Outcome{{C: st, Res: []Val{{}}}}, true
				}
				ascii[c.Com.StaticCallee()] = true
				return []Outcome{{C: kvSet(st, "ascii", "1"), Res: []Val{vbool(true)}}, {C: kvSet(st, "ascii", "0"), Res: []Val{vbool(false)}}}, true
			}
			return nil, false
		}
		return e
	}
	e := mk()
	accepted := 0
	judge := func(st string, pos token.Pos) {
		accepted++
		switch l := kvGet(st, "len"); {
		case l == "":
			r.violate("name-length", p.pos(pos), "an exported function is accepted without a look at the length of its name")
		case l == "0":
			r.violate("name-empty", p.pos(pos), "an exported function without a name is accepted")
		case l == "256" || l == "1000":
			r.violate("name-long", p.pos(pos), "an exported function whose name has %s bytes is accepted", l)
		}
		if kvGet(st, "ascii") != "1" {
			r.violate("name-ascii", p.pos(pos), "an exported function is accepted although its name was not found to be ASCII")
		}
		if kvGet(st, "reserved") != "0" {
			r.violate("name-reserved", p.pos(pos), "an exported function is accepted although its name was not found not to be reserved")
		}
		if kvGet(st, "InputArity") != "0" {
			r.violate("signature-in", p.pos(pos), "an exported function is accepted although it was not found to take no arguments")
		}
		if kvGet(st, "OutputArity") != "0" {
			r.violate("signature-out", p.pos(pos), "an exported function is accepted although it was not found to answer nothing")
		}
		r.ok("exported functions accepted after all checks")
	}
	e.Instr = func(e *Engine, f *ssa.Function, in ssa.Instruction, st *State) {
		nx, ok := in.(*ssa.Next)
		if !ok || f != loop {
			return
		}
		if kvGet(st.C, "iter") == "1" {
			judge(st.C, nx.Iter.Pos())
		}
		st.C = ""
	}
	e.Branch = func(e *Engine, f *ssa.Function, cond ssa.Value, truth bool, st *State) bool {
		if x, ok := cond.(*ssa.Extract); ok && f == loop && x.Index == 0 {
			if _, ok := x.Tuple.(*ssa.Next); ok {
				if truth {
					st.C = kvSet("", "iter", "1")
				} else {
					st.C = kvSet("", "done", "1")
				}
			}
		}
		return true
	}
	for _, x := range e.Run(loop, "") {
		isNil, known := x.Res[len(x.Res)-1].isNil()
		if (!known || isNil) && kvGet(x.C, "done") == "" {
			if kvGet(x.C, "iter") == "1" {
				r.violate("functions-stop", p.pos(loop.Pos()), "%s can answer that all functions are allowed before it has seen all of them", fname(loop))
			} else {
				r.violate("functions-skip", p.pos(loop.Pos()), "%s can answer that all functions are allowed without looking at them", fname(loop))
			}
		}
	}
	r.floor("ways an exported function is accepted", accepted, 1)
	e.finish(r)
	for f := range ascii {
		c13ASCII(p, r, f)
	}
	c13IsReserved(p, r)
}

// c13ASCII: the function answers false for a string with a byte over 127.
func c13ASCII(p *Prog, r *Result, f *ssa.Function) {
	r.saw(fname(f))
	e := newEngine(p)
	// one representative per comparison: a character of 128
	e.Instr = func(e *Engine, g *ssa.Function, in ssa.Instruction, st *State) {}
	char := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.Convert:
				v = x.X
				continue
			case *ssa.Index:
				return true
			case *ssa.Lookup:
				b, ok := x.X.Type().Underlying().(*types.Basic)
				return ok && b.Info()&types.IsString != 0
			case *ssa.Extract:
				_, ok := x.Tuple.(*ssa.Next)
				return ok && x.Index == 2
			case *ssa.UnOp:
				_, ok := x.X.(*ssa.IndexAddr)
				return ok && x.Op == token.MUL
			}
			return false
		}
	}
	seen := 0
	e.Branch = func(e *Engine, g *ssa.Function, cond ssa.Value, truth bool, st *State) bool {
		b, ok := cond.(*ssa.BinOp)
		if !ok {
			return true
		}
		op, k, isK := b.Op, int64(0), false
		if char(b.X) {
			k, isK = constOf(b.Y)
		} else if char(b.Y) {
			k, isK = constOf(b.X)
			op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}[op]
		}
		if !isK {
			return true
		}
		seen++
		var holds bool
		switch op {
		case token.GTR:
			holds = 128 > k
		case token.GEQ:
			holds = 128 >= k
		case token.LSS:
			holds = 128 < k
		case token.LEQ:
			holds = 128 <= k
		default:
			return true
		}
		if truth == holds {
			st.C = kvSet(st.C, "over", "1")
			return true
		}
		return false // every character is taken to be 128
	}
	for _, x := range e.Run(f, "") {
		if kvGet(x.C, "over") == "1" && x.Res[0].K != VFalse {
			r.violate("ascii", p.pos(f.Pos()), "%s accepts a string with a byte of 128", fname(f))
		} else {
			r.ok("paths of the ASCII check")
		}
	}
	if seen == 0 {
		r.violate("ascii", p.pos(f.Pos()), "%s does not look at the bytes of the string", fname(f))
	}
	e.finish(r)
}

// c13IsReserved: a name is reserved exactly if it is in the set.
func c13IsReserved(p *Prog, r *Result) {
	f := p.fn("arwen/contexts.reservedFunctions.IsReserved")
	if f == nil {
		r.violate("undecided:reserved", "-", "IsReserved not found")
		return
	}
	r.saw(fname(f))
	looked := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if l, ok := in.(*ssa.Lookup); ok && l.CommaOk && len(f.Params) > 0 && l.Index == f.Params[len(f.Params)-1] {
				looked = true
				// found -> true
				e := newEngine(p)
				e.Instr = func(e *Engine, g *ssa.Function, in ssa.Instruction, st *State) {
					if x, ok := in.(*ssa.Extract); ok && x.Tuple == l {
						st.env[regKey{l, 2}] = vbool(true)
					}
				}
				for _, x := range e.Run(f, "") {
					if x.Res[0].K != VTrue {
						r.violate("reserved-lookup", p.pos(f.Pos()), "%s can answer no for a name in the set of reserved ones", fname(f))
					} else {
						r.ok("reserved names are found")
					}
				}
			}
		}
	}
	if !looked {
		r.violate("reserved-lookup", p.pos(f.Pos()), "%s does not look for the name in the set of reserved ones", fname(f))
	}
}

// c13Reserved: every active built-in function, every offered function and the upgrade are reserved.
func c13Reserved(p *Prog, r *Result) {
	f := p.fn("arwen/contexts.NewReservedFunctions")
	if f == nil {
		r.violate("undecided:reserved-names", "-", "NewReservedFunctions not found")
		return
	}
	r.saw(fname(f))
	kindOf := func(nx *ssa.Next) string {
		rg, ok := nx.Iter.(*ssa.Range)
		if !ok {
			return ""
		}
		switch x := rg.X.(type) {
		case *ssa.Call:
			if methodName(&x.Call) == "Keys" {
				return "builtin"
			}
		case *ssa.Parameter:
			return "api"
		}
		return ""
	}
	e := newEngine(p)
	e.Skip = func(g *ssa.Function) bool { return pkgRel(g) != "arwen/contexts" }
	e.Force = func(g *ssa.Function) bool { return pkgRel(g) == "arwen/contexts" }
	e.NextVal = func(st *State, x *ssa.Next) ([]Val, bool) {
		if k := kindOf(x); k != "" {
			return []Val{{}, vtag("key:" + k), {}}, true
		}
		return nil, false
	}
	e.IsEvent = func(com *ssa.CallCommon, _ string) bool { return methodName(com) == "Get" || methodName(com) == "IsActive" }
	e.Event = func(c *CallCtx) ([]Outcome, bool) {
		st := c.St.C
		switch methodName(c.Com) {
		case "Get":
			if len(c.Com.Args) == 0 || c.E.Eval(c.St, lastArg(c.Com)).T != "key:builtin" {
				return nil, false
			}
			return []Outcome{{C: st, Res: []Val{{K: VNonNil}, {K: VNil}}}, {C: kvSet(st, "exempt", "1"), Res: []Val{{}, {K: VNonNil}}}}, true
		case "IsActive":
			return []Outcome{{C: st, Res: []Val{vbool(true)}}, {C: kvSet(st, "exempt", "1"), Res: []Val{vbool(false)}}}, true
		}
		return nil, false
	}
	settle := func(st *State) {
		if k := kvGet(st.C, "iter"); k != "" {
			if kvGet(st.C, "stored") == "" && kvGet(st.C, "exempt") == "" {
				r.violate("reserved:"+k, p.pos(f.Pos()), "%s leaves out a name of the %s functions", fname(f), map[string]string{"builtin": "built-in", "api": "offered"}[k])
			} else {
				r.ok("names are reserved")
			}
		}
		for _, k := range []string{"iter", "stored", "exempt"} {
			st.C = kvSet(st.C, k, "")
		}
	}
	e.Instr = func(e *Engine, g *ssa.Function, in ssa.Instruction, st *State) {
		switch x := in.(type) {
		case *ssa.Next:
			if kindOf(x) != "" {
				settle(st)
			}
		case *ssa.MapUpdate:
			switch v := e.Eval(st, x.Key); {
			case strings.HasPrefix(v.T, "key:") && v.T == "key:"+kvGet(st.C, "iter"):
				st.C = kvSet(st.C, "stored", "1")
			case v.T == "s:upgradeContract":
				st.C = kvSet(st.C, "upgrade", "1")
			}
		}
	}
	e.Branch = func(e *Engine, g *ssa.Function, cond ssa.Value, truth bool, st *State) bool {
		x, ok := cond.(*ssa.Extract)
		if !ok || x.Index != 0 {
			return true
		}
		if nx, ok := x.Tuple.(*ssa.Next); ok {
			if k := kindOf(nx); k != "" {
				if truth {
					st.C = kvSet(st.C, "iter", k)
				} else {
					st.C = kvSet(st.C, "all:"+k, "1")
				}
			}
		}
		return true
	}
	for _, x := range e.Run(f, "") {
		for _, k := range []string{"builtin", "api"} {
			if kvGet(x.C, "all:"+k) == "" {
				r.violate("reserved:"+k, p.pos(f.Pos()), "%s does not always go through all the names of the %s functions", fname(f), k)
			}
		}
		if kvGet(x.C, "upgrade") == "" {
			r.violate("reserved:upgrade", p.pos(f.Pos()), "%s does not reserve the name of the upgrade", fname(f))
		} else {
			r.ok("the upgrade is reserved")
		}
	}
	e.finish(r)
	// who makes the set gives it the names of all offered functions
	n := 0
	for _, g := range p.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || pkgRel(c.Call.StaticCallee()) != "arwen/contexts" || c.Call.StaticCallee().Name() != "newWASMValidator" {
					continue
				}
				n++
				names, ok := c.Call.Args[0].(*ssa.Call)
				if !ok || methodName(&names.Call) != "Names" {
					r.violate("reserved-names-given", p.pos(c.Pos()), "%s does not give the validator the names of the offered functions", fname(g))
				} else {
					r.ok("the validator knows the offered functions")
				}
			}
		}
	}
	r.floor("validators made", n, 1)
	arwenNew := p.fn(hostPkg + ".NewArwenVM")
	if arwenNew == nil {
		r.violate("undecided:new-host", "-", "NewArwenVM not found")
		return
	}
	var set, runtime ssa.Instruction
	var stored, given ssa.Value
	for _, b := range arwenNew.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if t, f := fieldLoaded(x.Addr); t == "vmHost" && f == "scAPIMethods" {
					if k, ok := x.Val.(*ssa.Const); !ok || k.Value != nil {
						set, stored = x, x.Val
					}
				}
			case *ssa.Call:
				switch methodName(&x.Call) {
				case "NewRuntimeContext":
					runtime = x
				case "SetImports":
					given = x.Call.Args[0]
				}
			}
		}
	}
	switch {
	case set == nil || runtime == nil:
		r.violate("undecided:new-host", p.pos(arwenNew.Pos()), "%s: the offered functions or the runtime context were not found", fname(arwenNew))
	case !(set.Block() == runtime.Block() && before(set, runtime) || set.Block() != runtime.Block() && set.Block().Dominates(runtime.Block())):
		r.violate("reserved-too-early", p.pos(runtime.Pos()), "%s makes the runtime context before the host knows the functions it offers", fname(arwenNew))
	case given != nil && given != stored:
		r.violate("reserved-other", p.pos(set.Pos()), "%s reserves the names of other functions than the ones it offers", fname(arwenNew))
	default:
		r.ok("the offered functions are known when the reserved names are collected")
	}
}

func before(a, b ssa.Instruction) bool {
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

// c13Writers: the code of an account of the result is written only by a deployment.
func c13Writers(p *Prog, r *Result) {
	n := 0
	updatesCode := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok {
					if u, ok := mu.Map.(*ssa.UnOp); ok {
						if _, fd := fieldLoaded(u.X); fd == "codeUpdates" {
							return true
						}
					}
				}
			}
		}
		return false
	}
	for _, f := range p.Funcs {
		rel := pkgRel(f)
		if rel != "arwen" && !strings.HasPrefix(rel, "arwen/") || strings.HasPrefix(rel, "arwen/mock") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if t, fd := fieldLoaded(s.Addr); t != "OutputAccount" || fd != "Code" {
					continue
				}
				n++
				okWrite := false
				switch v := s.Val.(type) {
				case *ssa.Const:
					okWrite = true
				case *ssa.UnOp:
					t, fd := fieldLoaded(v.X)
					okWrite = t == "OutputAccount" && fd == "Code" || t == "CodeDeployInput" && fd == "ContractCode" && rel == "arwen/contexts" && f.Name() == "DeployCode"
				case *ssa.Field:
					okWrite = fieldName(v.X.Type(), v.Field) == "ContractCode" && f.Name() == "DeployCode"
				case *ssa.Call:
					okWrite = methodName(&v.Call) == "GetCode" && !updatesCode(f)
				}
				if !okWrite {
					r.violate("code-written:"+fname(f), p.pos(s.Pos()), "%s writes the code of an account outside of a deployment", fname(f))
				} else {
					r.ok("writes of the code of accounts")
				}
			}
		}
		if f.Name() != "DeployCode" && updatesCode(f) && !strings.Contains(strings.ToLower(f.Name()), "merge") {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if mu, ok := in.(*ssa.MapUpdate); ok {
						if u, ok := mu.Map.(*ssa.UnOp); ok {
							if _, fd := fieldLoaded(u.X); fd != "codeUpdates" {
								continue
							}
							if x, ok := mu.Key.(*ssa.Extract); ok {
								if _, ok := x.Tuple.(*ssa.Next); ok {
									continue // copied from another set
								}
							}
							r.violate("code-update:"+fname(f), p.pos(mu.Pos()), "%s marks the code of an account as new outside of a deployment", fname(f))
						}
					}
				}
			}
		}
	}
	r.floor("writes of the code of accounts", n, 2)
	// what was not deployed is removed from the final result
	fn := p.fn("arwen/contexts.outputContext.GetVMOutput")
	rm := p.fn("arwen/contexts.outputContext.removeNonUpdatedCode")
	if fn == nil || rm == nil {
		return // renamed: the result is only larger
	}
	r.saw(fname(rm))
	if !always(fn, func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		return ok && c.Call.StaticCallee() == rm
	}, func(*ssa.Return) bool { return false }) {
		r.violate("code-kept", p.pos(fn.Pos()), "%s can leave code in the result that was only read", fname(fn))
	}
	for _, l := range mapLoops(rm) {
		clears := func(in ssa.Instruction) bool {
			s, ok := in.(*ssa.Store)
			if !ok {
				return false
			}
			t, fd := fieldLoaded(s.Addr)
			k, isC := s.Val.(*ssa.Const)
			return t == "OutputAccount" && fd == "Code" && isC && k.Value == nil
		}
		found := func(cond ssa.Value, truth bool) bool {
			x, ok := cond.(*ssa.Extract)
			if !ok || x.Index != 1 || !truth {
				return false
			}
			lk, ok := x.Tuple.(*ssa.Lookup)
			if !ok {
				return false
			}
			u, ok := lk.X.(*ssa.UnOp)
			if !ok {
				return false
			}
			_, fd := fieldLoaded(u.X)
			return fd == "codeUpdates"
		}
		if !l.everyIteration(clears, found) {
			r.violate("code-kept", p.pos(rm.Pos()), "%s can leave the code of an account that was not deployed to", fname(rm))
		} else {
			r.ok("code that was only read is not part of the result")
		}
	}
}

// c13Route: a call of the upgrade function never reaches the ordinary call, and an upgrade only that function.
func c13Route(p *Prog, r *Result) {
	f := p.fn(hostPkg + ".vmHost.RunSmartContractCall")
	if f == nil {
		r.violate("undecided:route", "-", "RunSmartContractCall not found")
		return
	}
	for _, name := range []string{"upgradeContract", "other"} {
		e := newEngine(p)
		e.IsEvent = func(com *ssa.CallCommon, n string) bool {
			m := methodName(com)
			return m == "doRunSmartContractCall" || m == "doRunSmartContractUpgrade"
		}
		e.Load = func(st *State, x *ssa.UnOp) (Val, bool) {
			if t, fd := fieldLoaded(x.X); t == "ContractCallInput" && fd == "Function" {
				return vtag("s:" + name), true
			}
			return Val{}, false
		}
		e.Event = func(c *CallCtx) ([]Outcome, bool) {
			m := methodName(c.Com)
			if m != "doRunSmartContractCall" && m != "doRunSmartContractUpgrade" {
				return nil, false
			}
			if (m == "doRunSmartContractUpgrade") != (name == "upgradeContract") {
				r.violate("route:"+name, p.pos(c.Instr.Pos()), "a call of %s reaches %s", name, m)
			} else {
				r.ok("calls are routed by their function")
			}
			return []Outcome{{C: "done", Res: []Val{{K: VNonNil}}}}, true
		}
		e.Run(f, "")
		e.finish(r)
	}
}

func checkC14(p *Prog, r *Result) {
	r.Rule = "for every name and type of a call, on every path of a call by a transaction or by another contract: a named function is invoked only if it is not an initialisation function (except that the deployment of a new contract calls it) and is the callback only in the callback of an asynchronous call; the initialisation function of an instance is invoked only right after the instance was started as new code; only the deployment allows calling an initialisation function; contracts cannot choose the type of a call to be a callback"
	r.Assumptions = []string{"a transaction's call type is set by the node"}
	names := []string{"init", "solidity.ctor", "callBack", "anythingElse"}
	ct := p.constsOf(vmcommonPkg(p), "CallType")
	asyncBack, ok := ct["AsynchronousCallBack"]
	if !ok {
		r.violate("undecided:calltype", "-", "the type of callbacks was not found")
		return
	}
	var types []int64
	for _, v := range ct {
		types = append(types, v)
	}
	sort.Slice(types, func(i, j int) bool { return types[i] < types[j] })
	r.floor("call types", len(types), 3)
	for _, rootName := range []string{"doRunSmartContractCall", "execute"} {
		root := p.fn(hostPkg + ".vmHost." + rootName)
		if root == nil {
			r.violate("undecided:"+rootName, "-", "%s not found", rootName)
			continue
		}
		r.saw(fname(root))
		ran := map[string]bool{}
		for _, fnName := range names {
			for _, callType := range types {
				for allow := 0; allow < 2; allow++ {
					isInit := fnName == "init" || fnName == "solidity.ctor"
					invoke := func(c *CallCtx, kind string) {
						pos := p.pos(c.Instr.Pos())
						custom := strings.Contains(c.E.Eval(c.St, c.Com.Value).T, "custom")
						switch {
						case kind == "init":
							if kvGet(c.St.C, "valid") == "" {
								r.violate("init-of-known-code:"+rootName, pos, "the initialisation function of an instance that was not started as new code is invoked in %s", fname(c.Fn))
							} else {
								r.ok("initialisations of new code")
							}
						case kind == "unknown":
							r.violate("unknown-function:"+rootName, pos, "it is not known which function is invoked in %s", fname(c.Fn))
						case custom:
							r.violate("custom-callback:"+rootName, pos, "the function chosen for a callback is invoked in %s without a check of its name", fname(c.Fn))
						case isInit && !(rootName == "execute" && allow == 1):
							r.violate("init-called:"+rootName, pos, "the function %s is invoked in %s by a call that is no deployment", fnName, fname(c.Fn))
						case fnName == "callBack" && callType != asyncBack:
							r.violate("callback-called:"+rootName, pos, "the function callBack is invoked in %s by a call that is no callback", fname(c.Fn))
						default:
							ran[fnName] = true
							r.ok("functions invoked are allowed ones")
						}
					}
					e := deployEngine(p, root, hostInput{function: fnName, callType: callType, allowInit: allow}, nil, invoke)
					for _, x := range e.Run(root, "") {
						if isInit && !(rootName == "execute" && allow == 1) {
							// refused before anything ran
							last := x.Res[len(x.Res)-1]
							if isNil, known := last.isNil(); rootName == "execute" && (!known || isNil) {
								r.violate("init-answered:"+rootName, p.pos(root.Pos()), "a call of %s that is no deployment does not fail in %s", fnName, fname(root))
							}
						}
					}
					e.finish(r)
				}
			}
		}
		if !ran["anythingElse"] {
			r.violate("undecided:"+rootName, p.pos(root.Pos()), "no function is ever invoked in %s", fname(root))
		}
	}
	c14Inputs(p, r, asyncBack)
}

func vmcommonPkg(p *Prog) *types.Package {
	if t, ok := p.vmType("VMOutput").(*types.Named); ok {
		return t.Obj().Pkg()
	}
	return nil
}

// c14Inputs: who may ask for an initialisation or a callback.
func c14Inputs(p *Prog, r *Result, asyncBack int64) {
	create := p.fn(hostPkg + ".vmHost.CreateNewContract")
	n := 0
	for _, f := range p.Funcs {
		rel := pkgRel(f)
		if rel != "arwen" && !strings.HasPrefix(rel, "arwen/") || strings.HasPrefix(rel, "arwen/mock") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				t, fd := fieldLoaded(s.Addr)
				switch {
				case t == "ContractCallInput" && fd == "AllowInitFunction":
					n++
					k, isC := s.Val.(*ssa.Const)
					if isC && !constant.BoolVal(k.Value) {
						r.ok("calls that may not initialise")
						continue
					}
					if rel == hostPkg && deploysNew(f, create) {
						r.ok("the deployment may initialise")
						continue
					}
					r.violate("allow-init:"+fname(f), p.pos(s.Pos()), "%s allows the initialisation function to be called although it deploys nothing", fname(f))
				case t == "VMInput" && fd == "CallType":
					n++
					switch v := s.Val.(type) {
					case *ssa.Const:
						if k, ok := constOf(v); ok && k == asyncBack && rel != hostPkg {
							r.violate("callback-made:"+fname(f), p.pos(s.Pos()), "%s makes a call of the type of a callback", fname(f))
						} else {
							r.ok("types of calls")
						}
					default:
						if rel != hostPkg && rel != "arwen/contexts" && !copiesType(s.Val) {
							r.violate("callback-made:"+fname(f), p.pos(s.Pos()), "%s makes a call of a type that is not fixed", fname(f))
						} else {
							r.ok("types of calls")
						}
					}
				}
			}
		}
	}
	r.floor("calls made", n, 3)
}

// copiesType: the type is that of a call that exists already, or a parameter all of whose values are constants other than a callback's.
func copiesType(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		t, f := fieldLoaded(x.X)
		return t == "VMInput" && f == "CallType"
	case *ssa.Phi:
		for _, e := range x.Edges {
			if _, ok := e.(*ssa.Const); !ok && !copiesType(e) {
				return false
			}
		}
		return true
	}
	return false
}

// deploysNew: the function is the deployment by contracts, or a part of it only it calls.
func deploysNew(f, create *ssa.Function) bool {
	if f == create || create == nil {
		return f == create
	}
	for _, b := range create.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() == f {
				return true
			}
		}
	}
	return false
}
