package main

import (
	_ "embed"
	"fmt"
	"go/constant"
	"go/token"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C06", checkC06) }

const (
	apiPkgPrefix = "arwen/"
)

// costTag is the value of one entry of the gas schedule.
func costTag(v Val) (string, bool) {
	if v.K == VTag && strings.HasPrefix(v.T, "cost:") {
		return v.T[5:], true
	}
	return "", false
}

// joinCost combines the entries two amounts were computed from.
func joinCost(vs ...Val) (Val, bool) {
	set := map[string]bool{}
	for _, v := range vs {
		if c, ok := costTag(v); ok {
			for _, x := range strings.Split(c, "+") {
				set[x] = true
			}
		}
	}
	if len(set) == 0 {
		return Val{}, false
	}
	return vtag("cost:" + strings.Join(sortedKeys(set), "+")), true
}

// timesCost: an entry multiplied by a quantity is charged per unit, which is something else than charging it once.
func timesCost(a, b Val) (Val, bool) {
	v, ok := joinCost(a, b)
	if !ok || a.K == VInt || b.K == VInt {
		return v, ok
	}
	var out []string
	for _, x := range strings.Split(v.T[5:], "+") {
		out = append(out, strings.TrimSuffix(x, "*")+"*")
	}
	return vtag("cost:" + strings.Join(out, "+")), true
}

// addPaid adds what a charge was computed from to what was paid so far.
func addPaid(c, cost string) string {
	set := map[string]bool{}
	for _, x := range append(strings.Split(c, "+"), strings.Split(cost, "+")...) {
		if x != "" {
			set[x] = true
		}
	}
	return strings.Join(sortedKeys(set), "+")
}

// costFields gives field loads from the gas schedule their tags.
func costFields(prev func(st *State, base Val, field string) (Val, bool)) func(st *State, base Val, field string) (Val, bool) {
	return func(st *State, base Val, field string) (Val, bool) {
		if base.K == VTag {
			switch {
			case base.T == "gs":
				return vtag("gs/" + field), true
			case strings.HasPrefix(base.T, "gs/"):
				return vtag("cost:" + base.T[3:] + "." + field), true
			case strings.HasPrefix(base.T, "fld|"):
				p := strings.SplitN(base.T, "|", 3)
				if p[2] == "gs" {
					return vtag("cost:" + p[1] + "." + field), true
				}
			}
		}
		if prev != nil {
			return prev(st, base, field)
		}
		return Val{}, false
	}
}

func costArith(op token.Token, a, b Val) (Val, bool) {
	switch op {
	case token.ADD, token.SUB, token.QUO:
		return joinCost(a, b)
	case token.MUL:
		return timesCost(a, b)
	}
	return Val{}, false
}

// isCryptoCall recognises a call of the crypto hook.
func isCryptoCall(com *ssa.CallCommon) bool {
	name := calleeName(com)
	return strings.Contains(name, "crypto.") && com.IsInvoke() || strings.HasPrefix(name, "crypto/")
}

// sensitive tells what a call does that has to be paid for before it is done; "" for calls that only look
// at what the VM has at hand.
func sensitive(com *ssa.CallCommon) string {
	ctx, m := anyCtxCall(com)
	switch ctx {
	case "runtime":
		switch m {
		case "MemLoad", "MemLoadMultiple":
			return "contract memory is read"
		case "MemStore":
			return "contract memory is written"
		case "ExecuteAsyncCall", "AddAsyncContextCall", "SetAsyncCallInfo", "SetVMInput", "SetSCAddress", "SetCustomCallFunction", "StartWasmerInstance":
			return "the execution state is changed"
		}
	case "storage":
		return "storage is used"
	case "output":
		switch m {
		case "Finish", "PrependFinish", "WriteLog", "Transfer", "TransferESDT", "TransferValueOnly", "SelfDestruct", "DeployCode", "AddTxValueToAccount", "SetReturnCode", "SetReturnMessage", "SetRefund", "DeleteOutputAccount", "ClearReturnData":
			return "the output is changed"
		}
	case "bigInt":
		return "a big integer is used"
	case "blockchain":
		return "the blockchain is asked"
	case "host":
		switch m {
		case "CreateNewContract", "ExecuteOnSameContext", "ExecuteOnDestContext", "ExecuteESDTTransfer", "CallArwenParserBuiltIn":
			return "another execution is started"
		}
	}
	if isCryptoHook(com) {
		return "a cryptographic operation is run"
	}
	return ""
}

// isCryptoHook recognises an operation of the crypto provider of the VM.
func isCryptoHook(com *ssa.CallCommon) bool {
	o := calleeObj(com)
	if o == nil || o.Pkg() == nil {
		return false
	}
	rel := relPath(o.Pkg().Path())
	return rel == "crypto" || strings.HasPrefix(rel, "crypto/")
}

func isVarMake(in ssa.Instruction) bool {
	mk, ok := in.(*ssa.MakeSlice)
	if !ok {
		return false
	}
	_, c1 := mk.Len.(*ssa.Const)
	_, c2 := mk.Cap.(*ssa.Const)
	return !c1 || !c2
}

// gasEngine follows what host functions pay. The typestate is the set of schedule entries charged so far.
func gasEngine(p *Prog) *Engine {
	e := newEngine(p)
	charge := func(com *ssa.CallCommon) bool {
		ctx, m := anyCtxCall(com)
		if ctx != "metering" {
			return false
		}
		switch m {
		case "UseGas", "UseGasBounded", "DeductInitialGasForIndirectDeployment", "DeductInitialGasForExecution", "UseGasForAsyncStep":
			return true
		}
		return false
	}
	gs := func(com *ssa.CallCommon) bool {
		ctx, m := anyCtxCall(com)
		return ctx == "metering" && m == "GasSchedule"
	}
	math := func(name string) bool { return strings.HasPrefix(name, "math.") }
	gasLeft := func(com *ssa.CallCommon) bool {
		ctx, m := anyCtxCall(com)
		return ctx == "metering" && m == "GasLeft"
	}
	e.IsEvent = func(com *ssa.CallCommon, name string) bool {
		ctx, _ := anyCtxCall(com)
		return ctx != "" || sensitive(com) != "" || gs(com)
	}
	e.IsRelevantInstr = isVarMake
	e.Skip = func(f *ssa.Function) bool {
		rel := pkgRel(f)
		return !(isAPIPkg(rel) || rel == "arwen" || constResult(f))
	}
	e.Force = constResult
	e.FieldLoad = costFields(nil)
	e.BinOp = costArith
	e.Event = func(c *CallCtx) ([]Outcome, bool) {
		if gs(c.Com) {
			return []Outcome{{C: c.St.C, Res: []Val{vtag("gs")}}}, true
		}
		if v, ok := constCall(p, c.Com); ok {
			return []Outcome{{C: c.St.C, Res: []Val{v}}}, true
		}
		if gasLeft(c.Com) {
			// taking all the gas there is pays for anything
			return []Outcome{{C: c.St.C, Res: []Val{vtag("cost:everything")}}}, true
		}
		if charge(c.Com) {
			_, m := anyCtxCall(c.Com)
			st := c.St.C
			if strings.HasPrefix(m, "Deduct") || m == "UseGasForAsyncStep" {
				st = addPaid(st, m)
			}
			for _, a := range c.Args {
				if t, ok := costTag(a); ok {
					st = addPaid(st, t)
				}
			}
			if m == "UseGas" {
				return []Outcome{{C: st}}, true
			}
			return []Outcome{{C: st, Res: []Val{{K: VNil}}}, {C: st, Res: []Val{{K: VNonNil}}}}, true
		}
		if math(c.Name) || strings.HasPrefix(c.Name, "arwen/math.") {
			join := joinCost
			if strings.Contains(c.Name, "Mul") {
				join = func(vs ...Val) (Val, bool) {
					if len(vs) != 2 {
						return joinCost(vs...)
					}
					return timesCost(vs[0], vs[1])
				}
			}
			if t, ok := join(c.Args...); ok {
				return []Outcome{{C: c.St.C, Res: []Val{t}}}, true
			}
		}
		return nil, false
	}
	return e
}

func checkC06(p *Prog, r *Result) {
	r.Rule = "Typestate over all paths of every host function, with the helpers it uses: an amount computed from an entry of the current gas schedule is charged before contract memory is read or written, before memory of a size that is not constant is allocated, before storage, the output, the big integers, the blockchain or the cryptographic operations are used and before another execution is started; and on every path to every return something was charged."
	r.Assumptions = []string{"what a charge amounts to is not bounded; the entry it comes from is C18", "conditions over values other than nil, booleans and small constants may go either way"}
	e := gasEngine(p)
	type where struct {
		what string
		pos  token.Pos
		in   *ssa.Function
	}
	var root *ssa.Function
	seen := map[string]bool{}
	note := func(kind, what string, fn *ssa.Function, pos token.Pos, st *State) {
		key := kind + ":" + fname(fn) + ":" + what
		if st.C != "" {
			if !seen["ok"+key+p.pos(pos)] {
				seen["ok"+key+p.pos(pos)] = true
				r.ok("paid before: " + what)
			}
			return
		}
		k := "unpaid:" + fname(root) + ":" + what
		if seen[k] {
			return
		}
		seen[k] = true
		r.violate(k, p.pos(pos), "%s: %s in %s before anything was charged", fname(root), what, fname(fn))
	}
	inner := e.Event
	e.Event = func(c *CallCtx) ([]Outcome, bool) {
		if what := sensitive(c.Com); what != "" {
			note("use", what, c.Fn, c.Instr.Pos(), c.St)
		}
		return inner(c)
	}
	e.Instr = func(e *Engine, fn *ssa.Function, in ssa.Instruction, st *State) {
		if isVarMake(in) {
			note("make", "memory is allocated", fn, in.Pos(), st)
		}
	}
	n := 0
	must, may := map[string]map[string]bool{}, map[string]map[string]bool{}
	e.OnReturn = func(e *Engine, fn *ssa.Function, in ssa.Instruction, st *State, res []Val) {
		if fn != root {
			return
		}
		if st.C != "" {
			r.ok("paid at return")
			paid := map[string]bool{}
			if may[fname(root)] == nil {
				may[fname(root)] = map[string]bool{}
			}
			for _, x := range strings.Split(st.C, "+") {
				paid[x] = true
				may[fname(root)][x] = true
			}
			if paid["everything"] {
				return // the execution was failed
			}
			m := must[fname(root)]
			if m == nil {
				must[fname(root)] = paid
				return
			}
			for x := range m {
				if !paid[x] {
					delete(m, x)
				}
			}
			return
		}
		k := "free:" + fname(root)
		if !seen[k] {
			seen[k] = true
			r.violate(k, p.pos(in.Pos()), "%s returns without having charged anything", fname(root))
		}
	}
	for _, f := range p.hostFunctions() {
		root = f
		n++
		r.saw(fname(f))
		// summaries are shared, but what they report is not: each root starts anew
		e.memo = map[string]*summary{}
		e.Run(f, "")
	}
	for _, o := range e.Overflow {
		r.violate("overflow:"+o, "-", "analysis gave up: %s", o)
	}
	r.floor("host functions", n, 100)
	p.checkMust(r, must, may)
}

// constResult: a function that does nothing but return a constant (the settings of the VM that are methods).
func constResult(f *ssa.Function) bool {
	if len(f.Blocks) != 1 {
		return false
	}
	for _, in := range f.Blocks[0].Instrs {
		ret, ok := in.(*ssa.Return)
		if !ok {
			return false
		}
		if len(ret.Results) != 1 {
			return false
		}
		if _, ok := ret.Results[0].(*ssa.Const); !ok {
			return false
		}
	}
	return true
}

// constCall is the boolean every production implementation of the called method returns.
func constCall(p *Prog, com *ssa.CallCommon) (Val, bool) {
	var out Val
	fs := p.resolve(com)
	for i, f := range fs {
		if !constResult(f) {
			return Val{}, false
		}
		k := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return).Results[0].(*ssa.Const)
		if k.Value == nil || k.Value.Kind() != constant.Bool {
			return Val{}, false
		}
		v := vbool(constant.BoolVal(k.Value))
		if i > 0 && v != out {
			return Val{}, false
		}
		out = v
	}
	return out, len(fs) > 0
}

//go:embed data/charges.txt
var chargesTxt string

// checkMust compares what is charged whenever a host function ends normally with what it is known to cost.
func (p *Prog) checkMust(r *Result, must, may map[string]map[string]bool) {
	if os.Getenv("VERIF_DUMP") != "" {
		for _, f := range sortedKeys(must) {
			for _, c := range sortedKeys(must[f]) {
				fmt.Println("charge", f, c)
			}
			for _, c := range sortedKeys(may[f]) {
				if !must[f][c] && c != "everything" {
					fmt.Println("possibly", f, c)
				}
			}
		}
	}
	for _, line := range strings.Split(chargesTxt, "\n") {
		w := strings.Fields(line)
		if len(w) != 3 || w[0] != "charge" && w[0] != "possibly" {
			continue
		}
		if w[0] == "possibly" {
			if may[w[1]] == nil {
				continue
			}
			if may[w[1]][w[2]] {
				r.ok("its cost is charged on some path")
			} else {
				r.violate("cost-dropped:"+w[1]+":"+w[2], "-", "%s never charges %s", w[1], w[2])
			}
			continue
		}
		m, ok := must[w[1]]
		if !ok {
			continue // gone, or always fails
		}
		what := w[2]
		if strings.HasSuffix(what, "*") {
			what = strings.TrimSuffix(what, "*") + " for every unit"
		}
		if m[w[2]] {
			r.ok("its cost is charged on every path that does not fail")
			continue
		}
		r.violate("cost-skipped:"+w[1]+":"+w[2], "-", "%s can end without having charged %s", w[1], what)
	}
}
