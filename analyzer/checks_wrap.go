package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C07", checkC07) }

var gasPkgs = map[string]bool{"arwen": true, "arwen/contexts": true, "arwen/host": true, "arwen/elrondapi": true, "arwen/cryptoapi": true}

// upper gives a bound of a number from its type, the shape of its computation and the branches.
func (q *Prover) upper(v ssa.Value, pt Point, depth int) *big.Int {
	bits, unsigned, ok := intInfo(v.Type())
	if !ok || depth > 8 {
		return nil
	}
	if n, c := constOf(v); c {
		return big.NewInt(n)
	}
	var best *big.Int
	take := func(b *big.Int) {
		if b != nil && (best == nil || b.Cmp(best) < 0) {
			best = b
		}
	}
	if unsigned {
		take(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(1)))
	} else {
		take(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits-1)), big.NewInt(1)))
	}
	if isLenCall(v) {
		take(big.NewInt(1<<31 - 1))
	}
	switch x := v.(type) {
	case *ssa.Convert:
		if _, _, ok := intInfo(x.X.Type()); ok && q.NonNeg(x.X, pt) {
			take(q.upper(x.X, pt, depth+1))
		}
	case *ssa.ChangeType:
		take(q.upper(x.X, pt, depth+1))
	case *ssa.BinOp:
		a, b := q.upper(x.X, pt, depth+1), q.upper(x.Y, pt, depth+1)
		if a != nil && b != nil && q.NonNeg(x.X, pt) && q.NonNeg(x.Y, pt) {
			switch x.Op {
			case token.ADD:
				s := new(big.Int).Add(a, b)
				if best == nil || s.Cmp(best) < 0 {
					take(s)
				}
			case token.MUL:
				s := new(big.Int).Mul(a, b)
				if best == nil || s.Cmp(best) < 0 {
					take(s)
				}
			case token.QUO, token.SUB, token.SHR:
				take(a)
			}
		}
	case *ssa.Phi:
		var m *big.Int
		for i, e := range x.Edges {
			if e == v {
				continue
			}
			u := q.upper(e, Point{b: x.Block().Preds[i], edge: x.Block()}, depth+2)
			if u == nil {
				return best
			}
			if m == nil || u.Cmp(m) > 0 {
				m = u
			}
		}
		take(m)
	}
	return best
}

// exact tells whether an addition, subtraction or multiplication gives the mathematical result.
func (q *Prover) exact(x *ssa.BinOp) bool {
	pt := Point{b: x.Block()}
	bits, unsigned, _ := intInfo(x.Type())
	switch x.Op {
	case token.SUB:
		if unsigned {
			return q.LE(x.Y, 0, x.X, pt)
		}
		return q.NonNeg(x.X, pt) && q.NonNeg(x.Y, pt)
	case token.ADD, token.MUL:
		if !unsigned && !(q.NonNeg(x.X, pt) && q.NonNeg(x.Y, pt)) {
			return false
		}
		a, b := q.upper(x.X, pt, 0), q.upper(x.Y, pt, 0)
		if a == nil || b == nil {
			return false
		}
		s := new(big.Int)
		if x.Op == token.ADD {
			s.Add(a, b)
		} else {
			s.Mul(a, b)
		}
		n := uint(bits)
		if !unsigned {
			n--
		}
		if s.Cmp(new(big.Int).Lsh(big.NewInt(1), n)) < 0 {
			return true
		}
		if x.Op == token.ADD && bits == 64 {
			// a counter that goes up by a small constant does not reach 2^63 in the life of a node
			if c, ok := constOf(x.Y); ok && c >= 0 && c <= 16 {
				return true
			}
			// x + (y - x)
		}
	}
	return false
}

// guarded tells whether the branches that lead to a point rule out that an operation wrapped, by one of the
// tests that decide exactly that.
func (q *Prover) guarded(x *ssa.BinOp, pt Point) bool {
	if q.guardedBy(x, q.conds(pt)) {
		return true
	}
	// a || b: every way into the block has its own reason
	if pt.edge == nil && pt.b != nil {
		for b := pt.b; b != nil; b = b.Idom() {
			if len(b.Preds) > 1 && b != x.Block() && x.Block().Dominates(b) {
				all := true
				for _, p := range b.Preds {
					if p == b || !q.guarded(x, Point{b: p, edge: b}) {
						all = false
						break
					}
				}
				if all {
					return true
				}
			}
			if b == x.Block() {
				break
			}
		}
	}
	return false
}

func isZero(v ssa.Value) bool { n, ok := constOf(v); return ok && n == 0 }

func maxOf(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return false
	}
	bits, unsigned, ok := intInfo(v.Type())
	if !ok {
		return false
	}
	n, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
	if !ok {
		return false
	}
	if !unsigned {
		bits--
	}
	return n.Cmp(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(1))) == 0
}

func minOf(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return false
	}
	bits, unsigned, ok := intInfo(v.Type())
	if !ok {
		return false
	}
	n, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
	if !ok {
		return false
	}
	if unsigned {
		return n.Sign() == 0
	}
	return n.Cmp(new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), uint(bits-1)))) == 0
}

func sameOp(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.BinOp)
	y, ok2 := b.(*ssa.BinOp)
	return ok1 && ok2 && x.Op == y.Op && x.X == y.X && x.Y == y.Y
}

func (q *Prover) guardedBy(x *ssa.BinOp, cs []condAt) bool {
	a, b := x.X, x.Y
	_, unsigned, _ := intInfo(x.Type())
	for _, c := range cs {
		bo, ok := c.v.(*ssa.BinOp)
		if !ok {
			continue
		}
		op, l, r := bo.Op, bo.X, bo.Y
		if !c.truth {
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.LEQ:
				op = token.GTR
			case token.GTR:
				op = token.LEQ
			case token.GEQ:
				op = token.LSS
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			}
		}
		if op == token.GEQ || op == token.GTR { // to l <= r, l < r
			l, r = r, l
			if op == token.GEQ {
				op = token.LEQ
			} else {
				op = token.LSS
			}
		}
		less := op == token.LEQ || op == token.LSS
		switch {
		case x.Op == token.ADD && unsigned && less && (l == a || l == b) && sameOp(r, x):
			return true // a <= a+b
		case x.Op == token.ADD && unsigned && less:
			// a <= max - b
			if s, ok := r.(*ssa.BinOp); ok && s.Op == token.SUB && maxOf(s.X) && (l == a && s.Y == b || l == b && s.Y == a) {
				return true
			}
		case x.Op == token.SUB && unsigned && less && l == b && r == a:
			return true
		case x.Op == token.MUL && op == token.EQL && (l == a && isZero(r) || l == b && isZero(r) || r == a && isZero(l) || r == b && isZero(l)):
			return true
		case x.Op == token.MUL && unsigned && op == token.EQL:
			// a == (a*b)/b
			for _, s := range [][2]ssa.Value{{l, r}, {r, l}} {
				d, ok := s[1].(*ssa.BinOp)
				if ok && d.Op == token.QUO && sameOp(d.X, x) && (s[0] == a && d.Y == b || s[0] == b && d.Y == a) {
					return true
				}
			}
		case x.Op == token.MUL && unsigned && less:
			// a <= max / b
			if d, ok := r.(*ssa.BinOp); ok && d.Op == token.QUO && maxOf(d.X) && (l == a && d.Y == b || l == b && d.Y == a) {
				return true
			}
		case !unsigned && op == token.EQL && (x.Op == token.ADD || x.Op == token.SUB) && isBoolType(l.Type()):
			// (a+b > a) == (b > 0), (a-b < a) == (b > 0)
			for _, s := range [][2]ssa.Value{{l, r}, {r, l}} {
				g, ok1 := s[0].(*ssa.BinOp)
				h, ok2 := s[1].(*ssa.BinOp)
				if !ok1 || !ok2 {
					continue
				}
				pos := func(h *ssa.BinOp, o ssa.Value) bool {
					return h.Op == token.GTR && h.X == o && isZero(h.Y) || h.Op == token.LSS && h.Y == o && isZero(h.X)
				}
				above := func(big, small ssa.Value) bool {
					return g.Op == token.GTR && sameOp(g.X, big) && sameOp(g.Y, small) || g.Op == token.LSS && sameOp(g.Y, big) && sameOp(g.X, small)
				}
				if x.Op == token.ADD && (above(x, a) && pos(h, b) || above(x, b) && pos(h, a)) || x.Op == token.SUB && above(a, x) && pos(h, b) {
					return true
				}
			}
		}
	}
	return false
}

// carryFree: the result of bits.Add64/Sub64/Mul64 with nothing carried.
func (q *Prover) carryFree(v ssa.Value, pt Point) (isCarryOp, ok bool) {
	e, isE := v.(*ssa.Extract)
	if !isE {
		return false, false
	}
	call, isC := e.Tuple.(*ssa.Call)
	if !isC {
		return false, false
	}
	o := calleeObj(&call.Call)
	if o == nil || o.Pkg() == nil || o.Pkg().Path() != "math/bits" {
		return false, false
	}
	other := 1 - e.Index
	for _, c := range q.conds(pt) {
		bo, isB := c.v.(*ssa.BinOp)
		if !isB {
			continue
		}
		ex, isX := bo.X.(*ssa.Extract)
		if isX && ex.Tuple == e.Tuple && ex.Index == other && isZero(bo.Y) && (bo.Op == token.EQL) == c.truth && (bo.Op == token.EQL || bo.Op == token.NEQ) {
			return true, true
		}
	}
	return true, false
}

// checkSaturation decides the functions of the math package: an exact result, an error, or the limit.
func (q *Prover) checkSaturation(r *Result) int {
	n := 0
	for _, f := range q.p.Funcs {
		if pkgRel(f) != "math" || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		sig := f.Signature
		if sig.Results().Len() == 0 || sig.Params().Len() != 2 {
			continue
		}
		if _, _, ok := intInfo(sig.Results().At(0).Type()); !ok {
			continue
		}
		n++
		r.saw(fname(f))
		withErr := sig.Results().Len() == 2
		sub := strings.HasPrefix(f.Name(), "Sub")
		kind := map[string]token.Token{"Add": token.ADD, "Sub": token.SUB, "Mul": token.MUL}[f.Name()[:3]]
		var value func(v ssa.Value, pt Point, depth int) string
		value = func(v ssa.Value, pt Point, depth int) string {
			if depth > 5 {
				return "a value that is not understood"
			}
			switch x := v.(type) {
			case *ssa.BinOp:
				operands := x.X == ssa.Value(f.Params[0]) && x.Y == ssa.Value(f.Params[1]) || kind != token.SUB && x.X == ssa.Value(f.Params[1]) && x.Y == ssa.Value(f.Params[0])
				if x.Op != kind || !operands {
					return "the result of something else than the operation on its two operands"
				}
				if q.guarded(x, pt) {
					return ""
				}
				return "the result of the operation on a path on which it may have wrapped around"
			case *ssa.Const:
				if sub && minOf(x) || !sub && maxOf(x) {
					return ""
				}
				return "a constant that is not the limit"
			case *ssa.Phi:
				for i, e := range x.Edges {
					if why := value(e, Point{b: x.Block().Preds[i], edge: x.Block()}, depth+1); why != "" {
						return why
					}
				}
				return ""
			case *ssa.Extract:
				if is, ok := q.carryFree(x, pt); is {
					if ok {
						return ""
					}
					return "a result with a carry"
				}
				call, ok := x.Tuple.(*ssa.Call)
				if ok && x.Index == 0 && sameFamily(f, call) {
					// another function of the package: its result counts when there is no error
					for _, e := range *call.Referrers() {
						if ee, ok := e.(*ssa.Extract); ok && ee.Index == 1 {
							if isNil, known := q.nilness(ee, pt); known && isNil {
								return ""
							}
						}
					}
					return "the result of a failed operation"
				}
			case *ssa.Call:
				if sameFamily(f, x) {
					return ""
				}
			}
			return "a value that is not understood"
		}
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			pt := Point{b: b}
			if withErr {
				if isNil, known := q.nilness(ret.Results[1], pt); known && !isNil {
					r.ok("overflow reported")
					continue
				}
				if _, isConst := ret.Results[1].(*ssa.Const); !isConst {
					// an error passed on along with its value
					if e, ok := ret.Results[1].(*ssa.UnOp); ok && e.Op == token.MUL {
						if _, isGlobal := e.X.(*ssa.Global); isGlobal {
							r.ok("overflow reported")
							continue
						}
					}
				}
			}
			if why := value(ret.Results[0], pt, 0); why != "" {
				r.violate("saturation:"+fname(f), q.p.pos(ret.Pos()), "%s returns %s", fname(f), why)
			} else {
				r.ok("exact or at the limit")
			}
		}
	}
	return n
}

// sameFamily: a call of the variant of the same operation on the same operands.
func sameFamily(f *ssa.Function, c *ssa.Call) bool {
	g := c.Call.StaticCallee()
	if g == nil || pkgRel(g) != "math" || len(c.Call.Args) != 2 {
		return false
	}
	if strings.TrimSuffix(strings.TrimSuffix(g.Name(), "WithErr"), "WithError") != strings.TrimSuffix(strings.TrimSuffix(f.Name(), "WithErr"), "WithError") && !(pkgRel(f) == "math" && g.Object() != nil && !g.Object().Exported()) {
		return false
	}
	return c.Call.Args[0] == ssa.Value(f.Params[0]) && c.Call.Args[1] == ssa.Value(f.Params[1])
}

// amounts finds what is computed on the way to an amount of gas.
func (q *Prover) amounts() map[ssa.Value]bool {
	seen := map[ssa.Value]bool{}
	var work []ssa.Value
	add := func(v ssa.Value) {
		if _, _, ok := intInfo(v.Type()); ok && !seen[v] {
			seen[v] = true
			work = append(work, v)
		}
	}
	for _, f := range q.p.Funcs {
		if !gasPkgs[pkgRel(f)] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					o := calleeObj(x.Common())
					ctx, m := anyCtxCall(x.Common())
					if isMathCall(o) && strings.Contains(o.Name(), "Uint64") || ctx == "metering" || m == "SetPointsUsed" || m == "SetRefund" || m == "SetGasLimit" {
						for _, a := range x.Common().Args {
							add(a)
						}
					}
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && strings.Contains(strings.ToLower(fieldName(fa.X.Type(), fa.Field)), "gas") {
						add(x.Val)
					}
				}
			}
		}
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		switch x := v.(type) {
		case *ssa.BinOp:
			add(x.X)
			if x.Op != token.SHL && x.Op != token.SHR {
				add(x.Y)
			}
		case *ssa.Convert:
			add(x.X)
		case *ssa.ChangeType:
			add(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				add(e)
			}
		case *ssa.Parameter:
			f := x.Parent()
			if i := paramIndex(f, x); i >= 0 {
				for _, ci := range q.callers[f] {
					if i < len(ci.Common().Args) {
						add(ci.Common().Args[i])
					}
				}
			}
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				q.eachResult(c, x.Index, add)
			}
		case *ssa.Call:
			if isMathCall(calleeObj(&x.Call)) {
				for _, a := range x.Call.Args {
					add(a)
				}
			}
			q.eachResult(x, 0, add)
		}
	}
	return seen
}

func isMathCall(o *types.Func) bool {
	return o != nil && o.Pkg() != nil && relPath(o.Pkg().Path()) == "math" && isModPath(o.Pkg().Path())
}

func (q *Prover) eachResult(c *ssa.Call, i int, f func(ssa.Value)) {
	for _, g := range q.p.resolve(&c.Call) {
		if !gasPkgs[pkgRel(g)] {
			continue
		}
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(ret.Results) {
				f(ret.Results[i])
			}
		}
	}
}

func checkC07(p *Prog, r *Result) {
	r.Rule = "Bounds proof over SSA: every addition, subtraction and multiplication of 64 bit unsigned numbers in the VM, and every arithmetic operation on narrower numbers whose result becomes an amount of gas, a length that is charged for or part of one (backward slice from the metering operations), is either done by the saturating functions of the math package or shown not to wrap from the branches and the ranges of its operands; the saturating functions give the exact result on every path on which a test rules out wrapping, and otherwise an error or the limit; amounts are not narrowed; points handed to the engine are clamped to what it can represent."
	r.Assumptions = []string{"no slice has 2^31 or more elements", "counters that go up by at most 16 at a time do not reach 2^63", "sums of 64 bit lengths do not reach 2^63"}
	q := newProver(p)
	am := q.amounts()
	n := 0
	for _, f := range p.Funcs {
		if !gasPkgs[pkgRel(f)] {
			continue
		}
		seq := map[string]int{}
		bad := func(kind string, in ssa.Instruction, format string, args ...interface{}) {
			key := kind + ":" + fname(f)
			seq[key]++
			if seq[key] > 1 {
				key += fmt.Sprintf("#%d", seq[key])
			}
			r.violate(key, p.pos(in.Pos()), "%s: "+format, append([]interface{}{fname(f)}, args...)...)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Convert:
					sb, su, ok1 := intInfo(x.X.Type())
					db, du, ok2 := intInfo(x.Type())
					if !ok1 || !ok2 {
						continue
					}
					narrow := db < sb && am[x]
					if db == sb && su && !du {
						// a big number made from a signed one
						for _, u := range *x.Referrers() {
							if c, ok := u.(*ssa.Call); ok && calleeName(&c.Call) == "math/big.NewInt" {
								narrow = true
							}
						}
					}
					if !narrow {
						continue
					}
					n++
					bits := uint(db)
					if !du {
						bits--
					}
					pt := Point{b: b}
					fits := bits < 63 && q.leMax(x.X, int64(1)<<bits-1, pt) || bits == 63 && q.leMax(x.X, math.MaxInt64, pt)
					if u := q.upper(x.X, pt, 0); u != nil && u.BitLen() <= int(bits) {
						fits = true
					}
					if fits || isLenCall(x.X) {
						r.ok("not narrowed")
					} else {
						bad("narrowed", in, "an amount is cut to %d bits here: %s", db, in)
					}
				case *ssa.BinOp:
					if x.Op != token.ADD && x.Op != token.SUB && x.Op != token.MUL && x.Op != token.SHL {
						continue
					}
					bits, unsigned, ok := intInfo(x.Type())
					if !ok {
						continue
					}
					wide := bits == 64 && unsigned
					if !wide && !am[x] {
						continue
					}
					if !wide && bits == 64 && x.Op != token.MUL {
						continue // sums and differences of lengths
					}
					n++
					r.saw(fname(f))
					if q.exact(x) || q.guarded(x, Point{b: b}) || q.onlyUsedGuarded(x) {
						r.ok("exact")
					} else {
						bad("wraps", in, "%d bit arithmetic that may wrap around: %s", bits, in)
					}
				case ssa.CallInstruction:
					com := x.Common()
					if com.IsInvoke() && com.Method.Name() == "SetPointsUsed" && typeName(com.Value.Type()) == "InstanceHandler" {
						n++
						if q.leMax(com.Args[0], math.MaxInt64, Point{b: b}) {
							r.ok("clamped")
						} else {
							bad("unclamped", in, "points that the engine cannot represent may be handed to it")
						}
					}
				}
			}
		}
	}
	r.floor("arithmetic operations and conversions on amounts", n, 2)
	r.floor("saturating functions", q.checkSaturation(r), 4)
	r.Counts["values on the way to an amount of gas"] = len(am)
}

func (q *Prover) leMax(v ssa.Value, max int64, pt Point) bool {
	t, o := q.norm(v, pt)
	return q.prove(t, term{}, max-o, pt)
}

// onlyUsedGuarded: the result is only used where a test has ruled out that it wrapped.
func (q *Prover) onlyUsedGuarded(x *ssa.BinOp) bool {
	if x.Referrers() == nil {
		return false
	}
	for _, u := range *x.Referrers() {
		if _, ok := u.(*ssa.DebugRef); ok {
			continue
		}
		if ph, ok := u.(*ssa.Phi); ok {
			for i, e := range ph.Edges {
				if e == ssa.Value(x) && !q.guarded(x, Point{b: ph.Block().Preds[i], edge: ph.Block()}) {
					return false
				}
			}
			continue
		}
		if bo, ok := u.(*ssa.BinOp); ok && (bo.Op == token.LSS || bo.Op == token.LEQ || bo.Op == token.GTR || bo.Op == token.GEQ || bo.Op == token.QUO) {
			continue // the test itself
		}
		if !q.guarded(x, Point{b: u.Block()}) {
			return false
		}
	}
	return true
}
