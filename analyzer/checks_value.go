package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C12", checkC12) }

// bigCall recognises an operation of math/big.
func bigCall(com *ssa.CallCommon) string {
	o := calleeObj(com)
	if o == nil || o.Pkg() == nil || o.Pkg().Path() != "math/big" {
		return ""
	}
	return o.Name()
}

// balanceWrite: an instruction that changes how much an account has.
func balanceWrite(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Store:
		fa, ok := x.Addr.(*ssa.FieldAddr)
		if !ok || !isFieldOf(fa, "OutputAccount", "BalanceDelta") {
			return false
		}
		_, fresh := fa.X.(*ssa.Alloc)
		return !fresh
	case ssa.CallInstruction:
		com := x.Common()
		m := bigCall(com)
		if com.IsInvoke() || com.Signature().Recv() == nil || len(com.Args) == 0 {
			return false
		}
		switch m {
		case "", "Cmp", "Sign", "Bytes", "CmpAbs", "String", "BitLen", "Uint64", "Int64":
			return false
		}
		ld, ok := com.Args[0].(*ssa.UnOp)
		return ok && ld.Op == token.MUL && isFieldOf(ld.X, "OutputAccount", "BalanceDelta")
	}
	return false
}

// transferValueStore: the amount of a transfer that is being put together.
func transferValueStore(in ssa.Instruction) (*ssa.Store, bool) {
	st, ok := in.(*ssa.Store)
	if !ok || !isFieldOf(st.Addr, "OutputTransfer", "Value") {
		return nil, false
	}
	return st, true
}

// noExecution: a comparison that says whether a transfer comes with an execution that is not a callback:
// 1 when it says so by being true, -1 by being false.
func noExecution(b *ssa.BinOp, root *ssa.Function) int {
	x, y, op := b.X, b.Y, b.Op
	if _, ok := x.(*ssa.Const); ok {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GEQ:
			op = token.LEQ
		}
	}
	pa, ok := x.(*ssa.Parameter)
	c, isC := y.(*ssa.Const)
	if !ok || !isC || c.Value == nil || pa.Parent() != root {
		return 0
	}
	var n int64
	if typeName(pa.Type()) == "CallType" {
		n = 2 // AsynchronousCallBack
	} else {
		bt, ok := pa.Type().Underlying().(*types.Basic)
		if !ok || bt.Kind() != types.Uint64 {
			return 0
		}
		for _, q := range root.Params {
			if types.Identical(q.Type(), pa.Type()) {
				if q != pa {
					return 0
				}
				break
			}
		}
		if op == token.GTR {
			op = token.NEQ
		}
	}
	if c.Int64() != n {
		return 0
	}
	switch op {
	case token.EQL:
		return 1
	case token.NEQ:
		return -1
	}
	return 0
}

func callTypeIs(v ssa.Value, p *Prog) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.EQL {
		return false
	}
	has := func(x, y ssa.Value) bool {
		ld, ok := x.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL {
			return false
		}
		fa, ok := ld.X.(*ssa.FieldAddr)
		if !ok || fieldName(fa.X.Type(), fa.Field) != "CallType" {
			return false
		}
		c, ok := y.(*ssa.Const)
		return ok && c.Value != nil && c.Int64() == 1 // AsynchronousCall
	}
	return has(b.X, b.Y) || has(b.Y, b.X)
}

func checkC12(p *Prog, r *Result) {
	r.Rule = "Typestate over all paths of the operations of the output: a balance is lowered only after the amount was found not to be negative and the balance of that account not to be below it, and raised by the same amount on every path on which it was lowered; the account that is raised was asked to be payable, and was, unless the amount is zero or the exemptions for asynchronous calls and for calls without execution apply; the amount written into a transfer is the amount that was moved. The value of the transaction is credited once, before the contract runs, and only by top-level executions; nothing else changes a balance; a balance always contains what was moved during the transaction."
	r.Assumptions = []string{"the outputs of protocol functions are merged as they are (C03)", "amounts are big integers that are not changed in place after they were compared"}
	e := newEngine(p)
	e.MaxState = 20000
	ctxIs := func(com *ssa.CallCommon, ctx, m string) bool {
		c, n := anyCtxCall(com)
		return c == ctx && n == m
	}
	hostIs := func(com *ssa.CallCommon, m string) bool {
		o := calleeObj(com)
		return o != nil && o.Name() == m && o.Pkg() != nil && (relPath(o.Pkg().Path()) == "arwen" || relPath(o.Pkg().Path()) == "arwen/host")
	}
	e.IsEvent = func(com *ssa.CallCommon, name string) bool {
		return bigCall(com) != "" || ctxIs(com, "output", "GetOutputAccount") || ctxIs(com, "blockchain", "IsPayable") || ctxIs(com, "blockchain", "GetBalanceBigInt") || hostIs(com, "IsESDTFunctionsEnabled")
	}
	e.IsRelevantInstr = func(in ssa.Instruction) bool {
		_, tv := transferValueStore(in)
		return balanceWrite(in) || tv
	}
	e.Skip = func(f *ssa.Function) bool {
		rel := pkgRel(f)
		if f.Signature.Recv() != nil && plumbing(f.Name()) {
			return true
		}
		return rel != "arwen/contexts" && rel != "arwen" && rel != "arwen/host"
	}
	e.Load = func(st *State, x *ssa.UnOp) (Val, bool) {
		if g, ok := x.X.(*ssa.Global); ok && g.Name() == "Zero" && g.Pkg != nil && relPath(g.Pkg.Pkg.Path()) == "arwen" {
			return vtag("bigzero"), true
		}
		return Val{}, false
	}
	e.FieldLoad = func(st *State, base Val, field string) (Val, bool) {
		if strings.HasPrefix(base.T, "acct:") {
			switch field {
			case "BalanceDelta":
				return vtag("delta:" + base.T[5:]), true
			case "Balance":
				return vtag("balance:" + base.T[5:]), true
			}
		}
		return Val{}, false
	}
	var root *ssa.Function
	seen := map[string]bool{}
	visited := map[ssa.Instruction]bool{}
	report := func(key string, pos token.Pos, format string, args ...interface{}) {
		if !seen[key] {
			seen[key] = true
			r.violate(key, p.pos(pos), format, args...)
		}
	}
	// change records that the balance of an account was changed by an amount
	change := func(fn *ssa.Function, in ssa.Instruction, st *State, acct, sign, v string) {
		visited[in] = true
		r.saw(fname(fn) + " changes a balance")
		if sign == "-" {
			if kvGet(st.C, "nn"+v) == "" {
				report("negative:"+fname(root), in.Pos(), "%s: %s lowers a balance by an amount that was not found to be zero or more", fname(root), fname(fn))
			} else {
				r.ok("amount not negative")
			}
			if kvGet(st.C, "suf"+acct+"/"+v) == "" {
				report("uncovered:"+fname(root), in.Pos(), "%s: %s lowers a balance that was not found to cover the amount", fname(root), fname(fn))
			} else {
				r.ok("amount covered by the balance")
			}
			st.C = kvAdd(st.C, "p"+v, -1)
			st.C = kvSet(st.C, "from"+acct, "1")
			return
		}
		if kvGet(st.C, "from"+acct) != "" {
			report("same-account:"+fname(root), in.Pos(), "%s: %s lowers and raises the balance of the same account", fname(root), fname(fn))
		}
		if root.Name() != "AddTxValueToAccount" {
			may := kvGet(st.C, "pay"+acct)
			exempt := kvGet(st.C, "zero"+v) != "" || kvGet(st.C, "async") != "" || kvGet(st.C, "cp") == "0" && kvGet(st.C, "esdtoff") == ""
			if may == "" || may == "0" && !exempt {
				report("payable:"+fname(root), in.Pos(), "%s: %s raises a balance without having found that the account may be paid", fname(root), fname(fn))
			} else {
				r.ok("receiver may be paid")
			}
		}
		st.C = kvAdd(st.C, "p"+v, 1)
		st.C = kvSet(st.C, "to"+acct, "1")
		if kvGet(st.C, "p"+v) == "" {
			st.C = kvSet(st.C, "mv"+v, "1")
		}
	}
	e.Event = func(c *CallCtx) ([]Outcome, bool) {
		st := c.St.C
		one := func(res ...Val) ([]Outcome, bool) { return []Outcome{{C: st, Res: res}}, true }
		switch {
		case ctxIs(c.Com, "output", "GetOutputAccount"):
			a := vtag("acct:" + e.vs(c.Args[len(c.Args)-1]))
			k := "new" + a.T[5:]
			if kvGet(st, k) == "0" {
				return one(a, vbool(false))
			}
			// asking makes it known
			return []Outcome{{C: kvSet(st, k, "0"), Res: []Val{a, vbool(true)}}, {C: kvSet(kvSet(st, k, "0"), "had"+a.T[5:], "1"), Res: []Val{a, vbool(false)}}}, true
		case ctxIs(c.Com, "blockchain", "IsPayable"):
			a := e.vs(c.Args[len(c.Args)-1])
			return []Outcome{
				{C: kvSet(st, "pay"+a, "1"), Res: []Val{vbool(true), {K: VNil}}},
				{C: kvSet(st, "pay"+a, "0"), Res: []Val{vbool(false), {K: VNil}}},
				{C: st, Res: []Val{{}, {K: VNonNil}}}}, true
		case ctxIs(c.Com, "blockchain", "GetBalanceBigInt"):
			return one(vtag("bal:" + e.vs(c.Args[len(c.Args)-1])))
		case hostIs(c.Com, "IsESDTFunctionsEnabled"):
			return []Outcome{{C: st, Res: []Val{vbool(true)}}, {C: kvSet(st, "esdtoff", "1"), Res: []Val{vbool(false)}}}, true
		}
		m := bigCall(c.Com)
		if m == "" {
			return nil, false
		}
		switch m {
		case "NewInt":
			if len(c.Args) == 1 && c.Args[0].K == VInt && c.Args[0].N == 0 {
				return one(vtag("bigzero"))
			}
		case "Sign", "Cmp":
			if m == "Sign" || len(c.Args) == 2 && c.Args[1].T == "bigzero" {
				v := e.vs(c.Args[0])
				var res []Outcome
				if kvGet(st, "nn"+v) == "" {
					res = append(res, Outcome{C: st, Res: []Val{vint(-1)}})
				}
				if kvGet(st, "gz"+v) == "" {
					res = append(res, Outcome{C: kvSet(kvSet(st, "nn"+v, "1"), "zero"+v, "1"), Res: []Val{vint(0)}})
				}
				if kvGet(st, "zero"+v) == "" {
					res = append(res, Outcome{C: kvSet(kvSet(st, "nn"+v, "1"), "gz"+v, "1"), Res: []Val{vint(1)}})
				}
				return res, true
			}
			if len(c.Args) == 2 {
				a, b := c.Args[0], c.Args[1]
				flip := int64(1)
				if strings.HasPrefix(b.T, "bal:") {
					a, b, flip = b, a, -1
				}
				if strings.HasPrefix(a.T, "bal:") {
					k := "suf" + a.T[4:] + "/" + e.vs(b)
					return []Outcome{
						{C: st, Res: []Val{vint(-flip)}},
						{C: kvSet(st, k, "1"), Res: []Val{vint(0)}},
						{C: kvSet(st, k, "1"), Res: []Val{vint(flip)}}}, true
				}
			}
			return []Outcome{{C: st, Res: []Val{vint(-1)}}, {C: st, Res: []Val{vint(0)}}, {C: st, Res: []Val{vint(1)}}}, true
		case "Set":
			if len(c.Args) == 2 && !strings.HasPrefix(c.Args[0].T, "delta:") {
				return one(c.Args[1])
			}
		case "Add", "Sub":
			if len(c.Args) != 3 {
				break
			}
			a, b := c.Args[1], c.Args[2]
			sign := "-"
			if m == "Add" {
				sign = "+"
				if strings.HasPrefix(b.T, "delta:") {
					a, b = b, a
				}
			}
			if strings.HasPrefix(a.T, "delta:") {
				if m == "Add" && b.T == "balance:"+a.T[6:] {
					return one(vtag("whole:" + a.T[6:]))
				}
				if c.Args[0] == a {
					n := c.St.clone()
					change(c.Fn, c.Instr, n, a.T[6:], sign, e.vs(b))
					return []Outcome{{C: n.C, Res: []Val{a}}}, true
				}
				return one(vtag("upd|" + sign + "|" + a.T[6:] + "|" + e.vs(b)))
			}
		}
		if balanceWrite(c.Instr) {
			visited[c.Instr] = true
			report("balance:"+fname(root), c.Instr.Pos(), "%s: %s changes a balance in place other than by an amount that is moved", fname(root), fname(c.Fn))
		}
		return one(make([]Val, c.Com.Signature().Results().Len())...)
	}
	e.Instr = func(e *Engine, fn *ssa.Function, in ssa.Instruction, st *State) {
		if s, ok := transferValueStore(in); ok {
			visited[in] = true
			v := e.Eval(st, s.Val)
			if v.T == "bigzero" || kvGet(st.C, "mv"+e.vs(v)) != "" {
				r.ok("amount of a transfer")
			} else {
				report("transfer-amount:"+fname(root), in.Pos(), "%s: %s makes a transfer of an amount that was not moved", fname(root), fname(fn))
			}
			return
		}
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		if a := e.Eval(st, s.Addr); strings.HasPrefix(a.T, "fld|OutputTransfers|acct:") && strings.Contains(st.C, "mv") {
			if kvGet(st.C, "to"+strings.TrimPrefix(a.T, "fld|OutputTransfers|acct:")) == "" {
				report("transfer-account:"+fname(root), in.Pos(), "%s: %s puts the transfer of an amount on another account than the one that got it", fname(root), fname(fn))
			} else {
				r.ok("transfer on the account that got the amount")
			}
		}
		if !balanceWrite(in) {
			return
		}
		visited[in] = true
		w := strings.Split(e.Eval(st, s.Val).T, "|")
		a := e.Eval(st, s.Addr).T
		if len(w) != 4 || w[0] != "upd" || a != "fld|BalanceDelta|acct:"+w[2] {
			report("balance:"+fname(root), in.Pos(), "%s: %s sets a balance to something other than what it was plus or minus an amount", fname(root), fname(fn))
			return
		}
		change(fn, in, st, w[2], w[1], w[3])
	}
	e.Branch = func(e *Engine, fn *ssa.Function, cond ssa.Value, truth bool, st *State) bool {
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, truth = u.X, !truth
		}
		v := e.raw(st, cond)
		if v.K != VSym || v.S == nil {
			return true
		}
		if pa, ok := v.S.(*ssa.Parameter); ok && pa.Parent() == root && !truth {
			st.C = kvSet(st.C, "cp", "0")
		}
		if truth && callTypeIs(v.S, p) {
			st.C = kvSet(st.C, "async", "1")
		}
		if b, ok := v.S.(*ssa.BinOp); ok && noExecution(b, root) == map[bool]int{true: 1, false: -1}[truth] {
			st.C = kvSet(st.C, "cp", "0")
		}
		return true
	}
	e.OnReturn = func(e *Engine, fn *ssa.Function, in ssa.Instruction, st *State, res []Val) {
		if fn != root {
			return
		}
		if root.Name() == "AddTxValueToAccount" && !strings.Contains(";"+st.C, ";p0v") && !strings.Contains(";"+st.C, ";zero") {
			report("not-credited:"+fname(root), in.Pos(), "%s returns without having credited the value", fname(root))
		}
		for _, kv := range strings.Split(st.C, ";") {
			if !strings.HasPrefix(kv, "p") || strings.HasPrefix(kv, "pay") {
				continue
			}
			n := kv[strings.Index(kv, "=")+1:]
			if n == "1" && root.Name() == "AddTxValueToAccount" {
				r.ok("value of the transaction credited once")
				continue
			}
			report("unbalanced:"+fname(root), in.Pos(), "%s returns although an amount was taken or given without its counterpart", fname(root))
			return
		}
		r.ok("balanced at return")
		if root.Name() == "GetBalanceBigInt" && len(res) == 1 {
			known := ""
			for _, kv := range strings.Split(st.C, ";") {
				if strings.HasPrefix(kv, "had") {
					known = kv[3:strings.Index(kv, "=")]
				}
			}
			if known != "" && res[0].T != "delta:"+known && res[0].T != "whole:"+known {
				report("balance-told:"+fname(root), in.Pos(), "%s answers without what was moved during the transaction", fname(root))
			} else {
				r.ok("balance contains what was moved")
			}
		}
	}
	n := 0
	run := func(f *ssa.Function) {
		root = f
		e.memo = map[string]*summary{}
		e.Run(f, "")
	}
	for _, f := range p.Funcs {
		if f.Signature.Recv() == nil || f.Parent() != nil || f.Synthetic != "" || pkgRel(f) != "arwen/contexts" || !token.IsExported(f.Name()) || plumbing(f.Name()) {
			continue
		}
		if t := typeName(f.Signature.Recv().Type()); t == "outputContext" || t == "blockchainContext" && f.Name() == "GetBalanceBigInt" {
			n++
			run(f)
		}
	}
	moving := p.onlyPlumbing()
	for _, f := range p.Funcs {
		rel := pkgRel(f)
		if rel != "arwen" && !strings.HasPrefix(rel, "arwen/") || strings.HasPrefix(rel, "arwen/mock") || moving[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				_, tv := transferValueStore(in)
				if (balanceWrite(in) || tv) && !visited[in] {
					run(f)
				}
			}
		}
	}
	for _, o := range e.Overflow {
		r.violate("overflow:"+o, "-", "analysis gave up: %s", o)
	}
	p.txValue(r)
	p.transferRoles(r)
	r.floor("operations", n, 5)
	r.floor("balance changes", len(visited), 3)
}

// txValue: the value of a transaction is credited by top-level executions, once, before the contract runs.
func (p *Prog) txValue(r *Result) {
	credit := func(com *ssa.CallCommon) bool {
		ctx, m := anyCtxCall(com)
		return ctx == "output" && m == "AddTxValueToAccount"
	}
	reach := p.reaching(func(com *ssa.CallCommon, name string) bool { return credit(com) })
	inner := p.hostFunctions()
	for _, n := range nestedRoots {
		if f := p.fn(n); f != nil {
			inner = append(inner, f)
		}
	}
	for _, f := range inner {
		if reach[f] {
			r.violate("credit-inside:"+fname(f), p.pos(f.Pos()), "%s can credit a value nobody was charged with", fname(f))
		} else {
			r.ok("credits nothing out of nothing")
		}
	}
	calls := 0
	for _, f := range p.Funcs {
		rel := pkgRel(f)
		if rel != "arwen" && !strings.HasPrefix(rel, "arwen/") || strings.HasPrefix(rel, "arwen/mock") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !credit(ci.Common()) {
					continue
				}
				calls++
				args := ci.Common().Args
				v, a := args[len(args)-1], args[len(args)-2]
				if p.comesFrom(v, f, 3, isLoadOf("CallValue")) {
					r.ok("the value credited is that of the transaction")
				} else {
					r.violate("credit-amount:"+fname(f), p.pos(in.Pos()), "%s credits something other than the value of the transaction", fname(f))
				}
				if p.comesFrom(a, f, 3, func(v ssa.Value) bool {
					if isLoadOf("RecipientAddr")(v) || p.isRunningAddress(v, f, 2) {
						return true
					}
					x, ok := v.(*ssa.Extract)
					if !ok {
						return false
					}
					c, ok := x.Tuple.(*ssa.Call)
					if !ok {
						return false
					}
					ctx, m := anyCtxCall(&c.Call)
					return ctx == "blockchain" && m == "NewAddress"
				}) {
					r.ok("the value is credited to the called contract")
				} else {
					r.violate("credit-account:"+fname(f), p.pos(in.Pos()), "%s credits the value of the transaction to something other than the called contract", fname(f))
				}
			}
		}
	}
	r.floor("credits of the transaction's value", calls, 1)
	// once, and before the contract runs
	e := newEngine(p)
	runs := func(com *ssa.CallCommon) bool {
		if ctx, m := anyCtxCall(com); ctx == "runtime" && m == "StartWasmerInstance" {
			return true
		}
		return unknownCall(com) && typeName(com.Value.Type()) == "ExportedFunctionCallback"
	}
	e.IsEvent = func(com *ssa.CallCommon, name string) bool { return credit(com) || runs(com) }
	e.Skip = func(f *ssa.Function) bool { return pkgRel(f) != "arwen/host" }
	seen := map[string]bool{}
	var root *ssa.Function
	e.Event = func(c *CallCtx) ([]Outcome, bool) {
		if credit(c.Com) {
			return []Outcome{{C: kvAdd(c.St.C, "n", 1)}}, true
		}
		if runs(c.Com) {
			k := "credit-count:" + fname(root)
			if kvGet(c.St.C, "n") == "1" {
				r.ok("credited once when the contract runs")
			} else if !seen[k] {
				seen[k] = true
				r.violate(k, p.pos(c.Instr.Pos()), "%s can run the contract with the transaction's value credited %s times", fname(root), "0"+kvGet(c.St.C, "n"))
			}
		}
		return nil, false
	}
	for _, n := range topEntries {
		if f := p.fn(n); f != nil {
			root = f
			e.memo = map[string]*summary{}
			e.Run(f, "")
		}
	}
	for _, o := range e.Overflow {
		r.violate("overflow:"+o, "-", "analysis gave up: %s", o)
	}
}

func isLoadOf(field string) func(ssa.Value) bool {
	return func(v ssa.Value) bool {
		ld, ok := v.(*ssa.UnOp)
		if ok && ld.Op == token.MUL {
			fa, ok := ld.X.(*ssa.FieldAddr)
			return ok && fieldName(fa.X.Type(), fa.Field) == field
		}
		f, ok := v.(*ssa.Field)
		return ok && fieldName(f.X.Type(), f.Field) == field
	}
}

// comesFrom: every way the value can be made satisfies the predicate, through parameters of helpers.
func (p *Prog) comesFrom(v ssa.Value, f *ssa.Function, depth int, ok func(ssa.Value) bool) bool {
	if ok(v) {
		return true
	}
	switch x := v.(type) {
	case *ssa.ChangeType:
		return p.comesFrom(x.X, f, depth, ok)
	case *ssa.Phi:
		if depth == 0 {
			return false
		}
		for _, e := range x.Edges {
			if e != v && !p.comesFrom(e, f, depth-1, ok) {
				return false
			}
		}
		return true
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || g.Blocks == nil || depth == 0 {
			return false
		}
		n := 0
		for _, b := range g.Blocks {
			if ret, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isRet && len(ret.Results) > 0 {
				n++
				if !p.comesFrom(ret.Results[0], g, depth-1, ok) {
					return false
				}
			}
		}
		return n > 0
	case *ssa.Parameter:
		if depth == 0 {
			return false
		}
		idx := -1
		for i, q := range f.Params {
			if q == x {
				idx = i
			}
		}
		calls := 0
		for _, g := range p.Funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					ci, isCall := in.(ssa.CallInstruction)
					if !isCall || ci.Common().StaticCallee() != f {
						continue
					}
					calls++
					if idx < 0 || idx >= len(ci.Common().Args) || !p.comesFrom(ci.Common().Args[idx], g, depth-1, ok) {
						return false
					}
				}
			}
		}
		return calls > 0
	}
	return false
}

// transferRoles: whoever asks for a transfer gives away what is the running contract's or the caller's.
func (p *Prog) transferRoles(r *Result) {
	n := 0
	payer := func(v ssa.Value, f *ssa.Function) bool {
		return p.comesFrom(v, f, 4, func(v ssa.Value) bool {
			if isLoadOf("CallerAddr")(v) {
				return true
			}
			c, ok := v.(*ssa.Call)
			if !ok {
				return false
			}
			ctx, m := anyCtxCall(&c.Call)
			return ctx == "runtime" && m == "GetSCAddress"
		})
	}
	for _, f := range p.Funcs {
		rel := pkgRel(f)
		if rel != "arwen/host" && !isAPIPkg(rel) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				ctx, m := anyCtxCall(ci.Common())
				if ctx != "output" || m != "Transfer" && m != "TransferValueOnly" && m != "TransferESDT" {
					continue
				}
				n++
				r.saw(fname(f) + " calls " + m)
				args := ci.Common().Args
				if !ci.Common().IsInvoke() {
					args = args[1:]
				}
				if payer(args[1], f) {
					r.ok("payer of a transfer")
				} else {
					r.violate("payer:"+fname(f)+":"+m, p.pos(in.Pos()), "%s has %s take from something other than the running contract or the caller", fname(f), m)
				}
			}
		}
	}
	r.floor("transfers asked for", n, 3)
}
