package main

// Execution of scenarios (M03): what a failed transaction leaves behind.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("M03", checkM03)
}

const mockWorld = "mock/world"

// isWorldCall: the method of the simulated blockchain with this name.
func isWorldCall(com *ssa.CallCommon, names ...string) bool {
	f := com.StaticCallee()
	if f == nil || pkgRel(f) != mockWorld || recvName(f) != "MockWorld" {
		return false
	}
	for _, n := range names {
		if f.Name() == n {
			return true
		}
	}
	return false
}

// returnCodeAddr: the address of the return code of a result.
func returnCodeAddr(v ssa.Value) bool {
	fa, ok := v.(*ssa.FieldAddr)
	return ok && typeName(fa.X.Type()) == "VMOutput" && fieldName(fa.X.Type(), fa.Field) == "ReturnCode"
}

func lastError(com *ssa.CallCommon) bool {
	rs := com.Signature().Results()
	return rs.Len() > 0 && isErrorType(rs.At(rs.Len()-1).Type())
}

func checkM03(p *Prog, r *Result) {
	r.Rule = "in every function that begins and ends a scenario transaction, on every path: exactly one of rollback and commit after the backup; commit only if no step failed, the function reports no error and the return code is success, rollback otherwise; nothing of the transaction happens before the backup or after its end; the backup is a snapshot, the rollback returns to the first one and the commit drops them all"
	r.Assumptions = []string{"the balance of an account that was found to exist can be updated", "a transaction has one result"}
	begins := func(com *ssa.CallCommon) bool { return isWorldCall(com, "CreateStateBackup") }
	rolls := func(com *ssa.CallCommon) bool { return isWorldCall(com, "RollbackChanges") }
	commits := func(com *ssa.CallCommon) bool { return isWorldCall(com, "CommitChanges") }
	runsVM := func(com *ssa.CallCommon) bool {
		n := methodName(com)
		if n != "RunSmartContractCall" && n != "RunSmartContractCreate" {
			return false
		}
		return com.Signature().Results().Len() == 2
	}
	changes := func(com *ssa.CallCommon) bool {
		if isWorldCall(com, "UpdateWorldStateBefore", "UpdateAccounts", "UpdateBalance", "UpdateBalanceWithDelta", "UpdateAccountFromOutputAccount") {
			return true
		}
		f := com.StaticCallee()
		return f != nil && pkgRel(f) == mockWorld && strings.HasPrefix(f.Name(), "Perform")
	}
	in := func(m map[*ssa.Function]bool, f *ssa.Function) bool { return m[f] && pkgRel(f) == mjExec && f.Parent() == nil }
	b := p.reaching(func(com *ssa.CallCommon, _ string) bool { return begins(com) })
	e := p.reaching(func(com *ssa.CallCommon, _ string) bool { return rolls(com) || commits(com) })
	v := p.reaching(func(com *ssa.CallCommon, _ string) bool { return runsVM(com) })
	// the innermost functions that do both; they must hold every way to the VM
	var roots []*ssa.Function
	isRoot := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if !in(b, f) || !in(e, f) {
			continue
		}
		inner := false
		for _, g := range callees(f) {
			if g != f && in(b, g) && in(e, g) {
				inner = true
			}
		}
		if !inner {
			roots = append(roots, f)
			isRoot[f] = true
		}
	}
	r.floor("functions that begin and end a transaction", len(roots), 1)
	// every way from outside to the VM goes through one of them
	for _, f := range p.Funcs {
		if !in(v, f) || isRoot[f] || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		seen := map[*ssa.Function]bool{}
		var walk func(g *ssa.Function) bool
		walk = func(g *ssa.Function) bool {
			if isRoot[g] || seen[g] || pkgRel(g) != mjExec {
				return false
			}
			seen[g] = true
			for _, bl := range g.Blocks {
				for _, i := range bl.Instrs {
					if ci, ok := i.(ssa.CallInstruction); ok && runsVM(ci.Common()) {
						return true
					}
				}
			}
			for _, h := range callees(g) {
				if walk(h) {
					return true
				}
			}
			return false
		}
		if walk(f) {
			r.violate("unguarded:"+fname(f), p.pos(f.Pos()), "%s runs a contract without a backup that could be returned to", fname(f))
		} else {
			r.ok("ways to run a contract that go through a transaction")
		}
	}
	kinds := append(txKinds(p), 99)
	for _, root := range roots {
		for _, kind := range kinds {
			m03Root(p, r, root, kind, begins, rolls, commits, runsVM, changes)
		}
	}
	m03World(p, r)
}

// callees are the functions called directly, closures included.
func callees(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				if g, ok := (*op).(*ssa.Function); ok {
					out = append(out, g)
					if g.Parent() == f {
						out = append(out, callees(g)...)
					}
				}
			}
		}
	}
	return out
}

func m03Root(p *Prog, r *Result, root *ssa.Function, kind int64, begins, rolls, commits, runsVM, changes func(com *ssa.CallCommon) bool) {
	eng := newEngine(p)
	eng.MaxState = 20000
	fallible := func(com *ssa.CallCommon) bool {
		if !lastError(com) {
			return false
		}
		f := com.StaticCallee()
		if f != nil && pkgRel(f) == mjExec {
			return false
		}
		n := calleeName(com)
		return !strings.HasPrefix(n, "fmt.") && !strings.HasPrefix(n, "errors.")
	}
	eng.IsEvent = func(com *ssa.CallCommon, _ string) bool {
		return begins(com) || rolls(com) || commits(com) || runsVM(com) || changes(com) || fallible(com)
	}
	eng.IsRelevantInstr = func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		return ok && returnCodeAddr(st.Addr)
	}
	eng.Skip = func(f *ssa.Function) bool {
		rel := pkgRel(f)
		return rel != mjExec && rel != mjModel
	}
	eng.Force = func(f *ssa.Function) bool {
		if pkgRel(f) == mjModel {
			return f.Signature.Recv() != nil && typeName(f.Signature.Recv().Type()) == "TransactionType"
		}
		return lastErrorOf(f) || resultIs(f, "VMOutput")
	}
	eng.Load = func(st *State, x *ssa.UnOp) (Val, bool) {
		if returnCodeAddr(x.X) {
			switch kvGet(st.C, "rc") {
			case "0":
				return vint(0), true
			case "":
			default:
				return vint(10), true
			}
			return Val{}, false
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if f, ok := fieldOfModel(fa); ok && f.strct == "Transaction" && f.name == "Type" {
				return vint(kind), true
			}
		}
		return Val{}, false
	}
	eng.Instr = func(e *Engine, fn *ssa.Function, in ssa.Instruction, st *State) {
		s, ok := in.(*ssa.Store)
		if !ok || !returnCodeAddr(s.Addr) {
			return
		}
		v := e.Eval(st, s.Val)
		switch {
		case v.K == VInt && v.N == 0:
			st.C = kvSet(st.C, "rc", "0")
		case v.K == VInt:
			st.C = kvSet(st.C, "rc", "1")
		default:
			st.C = kvSet(st.C, "rc", "")
		}
	}
	name := fname(root)
	where := func(c *CallCtx) string { return p.pos(c.Instr.Pos()) }
	eng.Event = func(c *CallCtx) ([]Outcome, bool) {
		st := c.St.C
		n := c.Com.Signature().Results().Len()
		good, bad := make([]Val, n), make([]Val, n)
		if lastError(c.Com) {
			good[n-1], bad[n-1] = Val{K: VNil}, Val{K: VNonNil}
		}
		phase := kvGet(st, "phase")
		switch {
		case begins(c.Com):
			if phase != "" {
				r.violate("backup-again:"+name, where(c), "%s makes a second backup within a transaction", name)
			}
			return []Outcome{{C: kvSet(st, "phase", "open"), Res: good}}, true
		case rolls(c.Com), commits(c.Com):
			w := "rollback"
			if commits(c.Com) {
				w = "commit"
			}
			if phase != "open" {
				r.violate("end:"+w+":"+name, where(c), "%s does a %s while no transaction is open (%s)", name, w, phase)
			}
			st = kvSet(kvSet(st, "phase", w), "at", p.pos(c.Instr.Pos()))
			return []Outcome{{C: st, Res: good}, {C: kvSet(st, "endfail", "1"), Res: bad}}, true
		}
		if !(runsVM(c.Com) || changes(c.Com) || fallible(c.Com)) {
			return nil, false
		}
		if (runsVM(c.Com) || changes(c.Com)) && phase != "open" {
			r.violate("outside:"+name+":"+calleeName(c.Com), where(c), "%s changes the world (%s) while no transaction is open", name, calleeName(c.Com))
		}
		if runsVM(c.Com) {
			good[0] = Val{K: VNonNil}
			return []Outcome{
				{C: kvSet(st, "rc", "0"), Res: good},
				{C: kvSet(st, "rc", "1"), Res: good},
				{C: kvSet(kvSet(st, "rc", "1"), "failed", where(c)), Res: []Val{{K: VNil}, {K: VNonNil}}},
			}, true
		}
		if !lastError(c.Com) {
			return []Outcome{{C: st, Res: good}}, true
		}
		outs := []Outcome{{C: st, Res: good}}
		if isWorldCall(c.Com, "UpdateWorldStateBefore") {
			outs[0].C = kvSet(st, "exists", "1")
		}
		if !(isWorldCall(c.Com, "UpdateBalanceWithDelta") && kvGet(st, "exists") != "") {
			outs = append(outs, Outcome{C: kvSet(st, "failed", where(c)), Res: bad})
		}
		return outs, true
	}
	exits := eng.Run(root, "")
	if debugOn {
		for _, x := range exits {
			fmt.Println("M03", name, kind, x.C, x.Res)
		}
	}
	for _, x := range exits {
		end := kvGet(x.C, "phase")
		if end == "open" || end == "" {
			r.violate("unfinished:"+name, p.pos(root.Pos()), "there is a path through %s that neither rolls back nor commits the transaction", name)
			continue
		}
		err := len(x.Res) > 0 && lastErrorOf(root)
		isErr := false
		if err {
			isNil, known := x.Res[len(x.Res)-1].isNil()
			isErr = !known || !isNil
		}
		fail := kvGet(x.C, "failed")
		endFailed := kvGet(x.C, "endfail") != ""
		at := kvGet(x.C, "at")
		rc := kvGet(x.C, "rc")
		switch {
		case endFailed && !isErr:
			r.violate("lost:"+end+":"+name, at, "%s reports no error although the %s failed", name, end)
		case end == "commit" && fail != "":
			r.violate("commit-failed:"+name+fmt.Sprintf(":%d", kind), fail, "a transaction of kind %d is committed although a step of it failed", kind)
		case end == "commit" && (isErr && !endFailed):
			r.violate("commit-error:"+name+fmt.Sprintf(":%d", kind), at, "%s commits a transaction of kind %d and reports an error", name, kind)
		case end == "commit" && rc != "0":
			r.violate("commit-code:"+name+fmt.Sprintf(":%d", kind), at, "%s commits a transaction of kind %d whose return code may not be success", name, kind)
		case end == "rollback" && fail == "" && rc == "0" && !(isErr && !endFailed) && !endFailed:
			r.violate("rollback-good:"+name+fmt.Sprintf(":%d", kind), at, "%s rolls back a transaction of kind %d that completed", name, kind)
		default:
			r.ok("ends of a transaction that fit what happened in it")
		}
		if fail != "" && err && !isErr {
			r.violate("silent:"+name+fmt.Sprintf(":%d", kind), fail, "%s reports no error although a step of a transaction of kind %d failed", name, kind)
		}
	}
	eng.finish(r)
}

func lastErrorOf(f *ssa.Function) bool {
	rs := f.Signature.Results()
	return rs.Len() > 0 && isErrorType(rs.At(rs.Len()-1).Type())
}

func resultIs(f *ssa.Function, name string) bool {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if typeName(rs.At(i).Type()) == name {
			return true
		}
	}
	return false
}

// m03World: what the three operations do.
func m03World(p *Prog, r *Result) {
	find := func(name string) *ssa.Function {
		for _, f := range p.Funcs {
			if pkgRel(f) == mockWorld && recvName(f) == "MockWorld" && f.Name() == name {
				return f
			}
		}
		r.violate("undecided:"+name, "-", "%s of the simulated blockchain not found", name)
		return nil
	}
	zero := func(v Val) bool { return v.K == VInt && v.N == 0 }
	run := func(name, op string, arg func(v Val) bool) {
		f := find(name)
		if f == nil {
			return
		}
		is := func(com *ssa.CallCommon) bool { return methodName(com) == op }
		eng := newEngine(p)
		eng.IsEvent = func(com *ssa.CallCommon, _ string) bool { return is(com) }
		eng.Event = func(c *CallCtx) ([]Outcome, bool) {
			if !is(c.Com) {
				return nil, false
			}
			if arg != nil && (len(c.Args) < 2 || !arg(c.Args[1])) {
				r.violate("wrong-snapshot:"+fname(f), p.pos(c.Instr.Pos()), "%s does not return to the first snapshot, which is the one the transaction began with", fname(f))
			}
			st := kvSet(c.St.C, "done", kvGet(c.St.C, "done")+"1")
			n := c.Com.Signature().Results().Len()
			if !lastError(c.Com) {
				return []Outcome{{C: st, Res: make([]Val, n)}}, true
			}
			good, bad := make([]Val, n), make([]Val, n)
			good[n-1], bad[n-1] = Val{K: VNil}, Val{K: VNonNil}
			return []Outcome{{C: st, Res: good}, {C: kvSet(st, "failed", "1"), Res: bad}}, true
		}
		for _, x := range eng.Run(f, "") {
			if kvGet(x.C, "done") != "1" {
				r.violate("not-done:"+fname(f), p.pos(f.Pos()), "there is a path through %s that does not do %s exactly once", fname(f), op)
				continue
			}
			if kvGet(x.C, "failed") != "" && lastErrorOf(f) {
				if isNil, known := x.Res[len(x.Res)-1].isNil(); !known || isNil {
					r.violate("silent:"+fname(f), p.pos(f.Pos()), "%s reports no error although %s failed", fname(f), op)
					continue
				}
			}
			r.ok("operations of the simulated blockchain that begin and end a transaction")
		}
		eng.finish(r)
	}
	run("CreateStateBackup", "SnapshotState", nil)
	run("RollbackChanges", "RevertToSnapshot", zero)
	run("CommitChanges", "Commit", nil)
}

var _ = token.NoPos
var _ types.Type
