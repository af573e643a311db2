package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C09", checkC09) }

var boundsPkgs = map[string]bool{"arwen": true, "arwen/contexts": true, "arwen/host": true, "arwen/elrondapi": true, "arwen/cryptoapi": true}

// inBounds decides an indexing or slicing instruction; what is empty if there is nothing to decide.
func (q *Prover) inBounds(in ssa.Instruction) (what string, ok bool) {
	pt := Point{b: in.Block()}
	index := func(x, idx ssa.Value) (string, bool) {
		if n, isArr := arrayLen(x.Type()); isArr {
			if k, c := constOf(idx); c && k >= 0 && k < n {
				return "", true
			}
		}
		return "element", q.NonNeg(idx, pt) && q.Below(idx, 1, x, pt)
	}
	switch x := in.(type) {
	case *ssa.IndexAddr:
		return index(x.X, x.Index)
	case *ssa.Index:
		return index(x.X, x.Index)
	case *ssa.Lookup:
		if isStringT(x.X.Type()) {
			return index(x.X, x.Index)
		}
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			return "", true
		}
		if n, isArr := arrayLen(x.X.Type()); isArr {
			if h, c := constOf(x.High); x.High != nil && c && x.Low == nil && h <= n {
				return "", true
			}
		}
		var low ssa.Value = x.Low
		if low != nil && !q.NonNeg(low, pt) {
			return "range", false
		}
		if x.High != nil {
			if !q.NonNeg(x.High, pt) || !q.Below(x.High, 0, x.X, pt) {
				return "range", false
			}
			return "range", low == nil || q.LE(low, 0, x.High, pt)
		}
		return "range", q.Below(low, 0, x.X, pt)
	case *ssa.MakeSlice:
		if _, c := x.Len.(*ssa.Const); c {
			return "", true
		}
		return "size", q.NonNeg(x.Len, pt)
	case *ssa.BinOp:
		_ = types.Typ
	}
	return "", true
}

// chosen finds the integers a contract chooses: the parameters of host functions, numbers decoded from its
// memory or arguments, and what is computed from them or passed on.
func (p *Prog) chosen() map[ssa.Value]bool {
	t := map[ssa.Value]bool{}
	var work []ssa.Value
	add := func(v ssa.Value) {
		if _, _, ok := intInfo(v.Type()); ok && !t[v] {
			t[v] = true
			work = append(work, v)
		}
	}
	for _, f := range p.hostFunctions() {
		for _, par := range f.Params {
			add(par)
		}
	}
	calls := map[*ssa.Function][]ssa.CallInstruction{}
	intSlices := map[ssa.Value]bool{}
	for _, f := range p.Funcs {
		if !boundsPkgs[pkgRel(f)] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, g := range p.resolve(ci.Common()) {
					calls[g] = append(calls[g], ci)
				}
				if o := calleeObj(ci.Common()); o != nil && o.Pkg() != nil {
					path := o.Pkg().Path()
					if path == "encoding/binary" || path == "math/big" && (o.Name() == "Int64" || o.Name() == "Uint64") {
						if v := ci.Value(); v != nil {
							add(v)
						}
					}
				}
			}
		}
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if v.Referrers() == nil {
			continue
		}
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Convert:
				add(x)
			case *ssa.ChangeType:
				add(x)
			case *ssa.Phi:
				add(x)
			case *ssa.BinOp:
				add(x)
			case *ssa.Extract:
				add(x)
			case ssa.CallInstruction:
				com := x.Common()
				for i, a := range com.Args {
					if a != v {
						continue
					}
					for _, g := range p.resolve(com) {
						k := i
						if com.IsInvoke() {
							k++
						}
						if boundsPkgs[pkgRel(g)] && k < len(g.Params) {
							add(g.Params[k])
						}
					}
				}
				if o := calleeObj(com); o != nil && o.Pkg() != nil && relPath(o.Pkg().Path()) == "math" && x.Value() != nil {
					add(x.Value())
				}
			case *ssa.Return:
				for i, res := range x.Results {
					if res != v {
						continue
					}
					for _, ci := range calls[x.Parent()] {
						cv := ci.Value()
						if cv == nil {
							continue
						}
						if len(x.Results) == 1 {
							add(cv)
							continue
						}
						for _, r := range *cv.Referrers() {
							if e, ok := r.(*ssa.Extract); ok && e.Index == i {
								add(e)
							}
						}
					}
				}
			case *ssa.Store:
				// into a list of numbers: what is read from lists of that kind is chosen too
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && !intSlices[ia.X] {
					intSlices[ia.X] = true
					for _, f := range p.Funcs {
						if !boundsPkgs[pkgRel(f)] {
							continue
						}
						for _, b := range f.Blocks {
							for _, in := range b.Instrs {
								if l, ok := in.(*ssa.UnOp); ok {
									if la, ok := l.X.(*ssa.IndexAddr); ok && types.Identical(la.Type(), ia.Type()) && types.Identical(la.X.Type(), ia.X.Type()) {
										add(l)
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return t
}

// afterProtocol: the function is only called once a protocol function has been executed, which has checked the
// arguments it was given.
func (q *Prover) afterProtocol(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] || len(q.callers[f]) == 0 || !q.closed(f) {
		return false
	}
	seen[f] = true
	run := q.p.reaching(func(com *ssa.CallCommon, name string) bool { return methodName(com) == "ProcessBuiltInFunction" })
	for _, ci := range q.callers[f] {
		ok := q.afterProtocol(ci.Parent(), seen)
		for b := ci.Block(); b != nil && !ok; b = b.Idom() {
			for _, in := range b.Instrs {
				if in == ssa.Instruction(ci) {
					break
				}
				c, isCall := in.(*ssa.Call)
				if !isCall {
					continue
				}
				if methodName(&c.Call) == "ProcessBuiltInFunction" {
					ok = true
				}
				for _, g := range q.p.resolve(&c.Call) {
					ok = ok || run[g]
				}
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// chosenBy tells whether what an instruction selects depends on a contract: by a number it chose, or by how
// many arguments there are.
func chosenBy(in ssa.Instruction, t map[ssa.Value]bool) bool {
	any := func(x ssa.Value, vs ...ssa.Value) bool {
		if mk, ok := x.(*ssa.MakeSlice); ok && t[mk.Len] {
			return true
		}
		list := false
		if s, ok := x.Type().Underlying().(*types.Slice); ok {
			if e, ok := s.Elem().Underlying().(*types.Slice); ok {
				if b, ok := e.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					list = true
				}
			}
		}
		for _, v := range vs {
			if v == nil {
				continue
			}
			if t[v] {
				return true
			}
			if n, c := constOf(v); c && list && n >= 0 {
				return true
			}
		}
		return false
	}
	switch x := in.(type) {
	case *ssa.IndexAddr:
		return any(x.X, x.Index)
	case *ssa.Index:
		return any(x.X, x.Index)
	case *ssa.Lookup:
		return any(x.X, x.Index)
	case *ssa.Slice:
		return any(x.X, x.Low, x.High)
	case *ssa.MakeSlice:
		return t[x.Len]
	}
	return false
}

func checkC09(p *Prog, r *Result) {
	r.Rule = "Taint analysis from every integer a contract can choose (host function parameters, numbers decoded from its memory and arguments), and a demand-driven bounds proof over SSA for every element selection, range and allocation size that depends on one, or that selects a fixed element of a list of arguments: 0 <= index < length, 0 <= low <= high <= length, 0 <= size, from the branches that dominate it, in the function or its callers."
	r.Assumptions = []string{
		"the memory of an instance is as long as it says (Length() and Data() agree until Grow)",
		"no slice has 2^31 or more elements",
		"a protocol (built-in) function that succeeded has checked the number of arguments it was given",
		"selections that do not depend on a contract (loop counters, stacks) are not in the scope of this property; the proved ones are counted under \"own\"",
	}
	q := newProver(p)
	t := p.chosen()
	n := 0
	undecided := 0
	for _, f := range p.Funcs {
		if !boundsPkgs[pkgRel(f)] {
			continue
		}
		seq := map[string]int{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				what, ok := q.inBounds(in)
				if what == "" {
					continue
				}
				chosen := chosenBy(in, t)
				if chosen && !t[indexOperand(in)] && q.afterProtocol(f, map[*ssa.Function]bool{}) {
					continue
				}
				if !chosen {
					if ok {
						r.ok("own " + what)
					} else {
						undecided++
					}
					continue
				}
				n++
				r.saw(fname(f))
				if ok {
					r.ok("chosen " + what)
					continue
				}
				key := what + ":" + fname(f)
				seq[key]++
				if seq[key] > 1 {
					key += fmt.Sprintf("#%d", seq[key])
				}
				r.violate(key, p.pos(in.Pos()), "%s: the %s selected here depends on the contract and is not shown to be within bounds: %s", fname(f), what, in)
			}
		}
	}
	r.Counts["selections that do not depend on a contract and were not decided"] = undecided
	r.floor("selections that depend on a contract", n, 20)
	r.Counts["integers chosen by contracts"] = len(t)
}

func indexOperand(in ssa.Instruction) ssa.Value {
	switch x := in.(type) {
	case *ssa.IndexAddr:
		return x.Index
	case *ssa.Index:
		return x.Index
	case *ssa.Lookup:
		return x.Index
	case *ssa.Slice:
		if x.High != nil {
			return x.High
		}
		return x.Low
	case *ssa.MakeSlice:
		return x.Len
	}
	return nil
}
