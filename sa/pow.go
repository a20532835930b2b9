package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Powers modulo the width: a value is known as a product of bases with
// exponents, which are integer terms. A recursive function is analysed once,
// with unknown arguments and the contract
//
//	f(a, b, e) = a * b^e   (or b^e without an accumulator)
//
// for the calls to itself, each of which has to have a smaller exponent; a
// loop by the invariant r * b^e = constant.

// powOf is b^e as an integer.
func powOf(b, e *Term) *Term {
	if c := e.constVal(); c != nil && c.IsInt64() && c.Int64() >= 0 && c.Int64() <= 8 {
		r := intConst(1)
		for i := int64(0); i < c.Int64(); i++ {
			r = mkMul(r, b)
		}
		return r
	}
	t := mk("powof", "", KInt, nil, b, e)
	return t
}

type powers map[*Term]*Term // base -> exponent

// parsePow: t is congruent to the product of the powers, modulo 2^w. zero:
// to 0.
func parsePow(t *Term, w uint) (p powers, zero, ok bool) {
	if isIte(t) {
		return nil, false, false
	}
	acc := newAcc()
	stripMod(acc, big1, monos(t), w)
	red := newAcc()
	for _, m := range acc.list() {
		red.add(modSym(m.c, w), m.vars)
	}
	ms := red.list()
	if len(ms) == 0 {
		return nil, true, true
	}
	if len(ms) != 1 || ms[0].c.Cmp(big1) != 0 {
		return nil, false, false
	}
	p = powers{}
	for _, v := range ms[0].vars {
		b, e := v, intConst(1)
		if v.op == "powof" {
			b, e = v.args[0], v.args[1]
		}
		if p[b] == nil {
			p[b] = intConst(0)
		}
		p[b] = mkAdd(p[b], e)
	}
	return p, false, true
}

type powVerdict int

const (
	powNo powVerdict = iota // another value
	powUnknown
	powYes
)

func worse(a, b powVerdict) powVerdict {
	if a == powNo || b == powNo {
		return powNo
	}
	if a == powUnknown || b == powUnknown {
		return powUnknown
	}
	return powYes
}

// checkPow: t is the product of the wanted powers modulo 2^w.
func checkPow(pc *PC, t *Term, want powers, w uint) powVerdict {
	t = pc.norm(t)
	if isIte(t) {
		v := powYes
		for i, s := range []bool{true, false} {
			c := t.args[0]
			if !s {
				c = mkNot(c)
			}
			for _, q := range pc.assumeAll(c) {
				v = worse(v, checkPow(q, t.args[1+i], want, w))
			}
		}
		return v
	}
	// want without what is 1, and whether it is 0
	bases := map[*Term]bool{}
	p, zero, ok := parsePow(t, w)
	if !ok {
		return powUnknown
	}
	wz := false
	for b, e := range want {
		if pc.decide(mkEq(b, intConst(0))) == Yes && pc.decide(mkGe(e, intConst(1))) == Yes {
			wz = true
		}
		bases[b] = true
	}
	for b, e := range p {
		if pc.decide(mkEq(b, intConst(0))) == Yes && pc.decide(mkGe(e, intConst(1))) == Yes {
			zero = true
		}
		bases[b] = true
	}
	if wz && zero {
		return powYes
	}
	if wz != zero {
		return powNo
	}
	for b := range bases {
		e1, e2 := p[b], want[b]
		if e1 == nil {
			e1 = intConst(0)
		}
		if e2 == nil {
			e2 = intConst(0)
		}
		if pc.decide(mkEq(e1, e2)) == Yes || pc.decide(mkEq(b, intConst(1))) == Yes {
			continue
		}
		if pc.decide(mkEq(b, intConst(-1))) == Yes {
			d := mkSub(e1, e2)
			if pc.decide(mkEq0(mkSub(d, mkScale(big.NewInt(2), mkFdiv(d, big.NewInt(2)))))) == Yes {
				continue
			}
		}
		debugf("POW exponent of %s: %s, not %s, when %s", b, e1, e2, pc)
		return powNo
	}
	return powYes
}

// powSpec: which parameters of a recursive function are what.
type powSpec struct {
	exp, base, acc int // acc: -1 without
}

func (sp powSpec) want(args []*Term) powers {
	w := powers{args[sp.base]: args[sp.exp]}
	if sp.acc >= 0 {
		if w[args[sp.acc]] != nil {
			w[args[sp.acc]] = mkAddK(args[sp.exp], 1)
		} else {
			w[args[sp.acc]] = intConst(1)
		}
	}
	return w
}

func (ex *Exec) powResult(sp powSpec, args []*Term, ii intInfo, pc *PC) *Term {
	r := intConst(1)
	add := func(t, e *Term) bool {
		t = pc.norm(t)
		p, zero, ok := parsePow(t, ii.w)
		if !ok || zero {
			return false
		}
		var bs []*Term
		for b := range p {
			bs = append(bs, b)
		}
		sort.Slice(bs, func(i, j int) bool { return bs[i].id < bs[j].id })
		for _, b := range bs {
			r = mkMul(r, powOf(b, mkMul(p[b], e)))
		}
		return true
	}
	if !add(args[sp.base], args[sp.exp]) {
		return nil
	}
	if sp.acc >= 0 && !add(args[sp.acc], intConst(1)) {
		return nil
	}
	return mkWrap(r, ii)
}

type powRun struct {
	sp   powSpec
	args []*Term
	bad  powVerdict
	why  string
}

func selfCalls(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn {
				return true
			}
		}
	}
	return false
}

// powCall handles the calls of recursive integer functions.
func (ex *Exec) powCall(fn *ssa.Function, args []*Term, st *State) ([]Outcome, bool) {
	if !selfCalls(fn) || fn.Signature.Results().Len() != 1 {
		return nil, false
	}
	rt := fn.Signature.Results().At(0).Type()
	ii, ok := intType(rt)
	if !ok || ii.w == 0 {
		return nil, false
	}
	for _, p := range fn.Params {
		if _, ok := intType(p.Type()); !ok {
			return nil, false
		}
	}
	if run := ex.powRuns[fn]; run != nil {
		// a call within the analysis of the function itself
		e0, e1 := run.args[run.sp.exp], args[run.sp.exp]
		if st.pc.decide(mkAnd(mkGe0(e1), mkLt(e1, e0))) != Yes {
			run.bad, run.why = powNo, "a recursive call's exponent is not shown to be smaller"
		}
		r := ex.powResult(run.sp, args, ii, st.pc)
		if r == nil {
			run.bad = worse(run.bad, powUnknown)
			run.why = "a recursive call's base is not a power"
			r = freshInt("pow", nil, nil)
			r = mkWrap(r, ii)
		}
		return []Outcome{{kind: OutReturn, st: st, vals: []*Term{r}}}, true
	}
	sp, known := ex.powSpecs[fn]
	if !known {
		var cands []powSpec
		n := len(fn.Params)
		for e := n - 1; e >= 0; e-- {
			for b := 0; b < n; b++ {
				if b == e || !types.Identical(fn.Params[b].Type(), rt) {
					continue
				}
				if n == 2 {
					cands = append(cands, powSpec{e, b, -1})
					continue
				}
				for a := 0; a < n; a++ {
					if n == 3 && a != b && a != e && types.Identical(fn.Params[a].Type(), rt) {
						cands = append(cands, powSpec{e, b, a})
					}
				}
			}
		}
		definite := ""
		for _, c := range cands {
			v, why := ex.powProve(fn, c, ii)
			if v == powYes {
				s := c
				sp = &s
				break
			}
			if v == powNo {
				definite = why
			}
		}
		if ex.powSpecs == nil {
			ex.powSpecs = map[*ssa.Function]*powSpec{}
		}
		ex.powSpecs[fn] = sp
		if sp == nil && definite != "" {
			ex.fail("violated: the recursion of "+fnName(fn)+" does not compute the power: "+definite, ex.prog.Fset.Position(fn.Pos()).String(), "")
		}
	}
	if sp == nil {
		return nil, false
	}
	r := ex.powResult(*sp, args, ii, st.pc)
	if r == nil {
		return nil, false
	}
	return []Outcome{{kind: OutReturn, st: st, vals: []*Term{r}}}, true
}

func (ex *Exec) powProve(fn *ssa.Function, sp powSpec, ii intInfo) (powVerdict, string) {
	run := &powRun{sp: sp, bad: powYes}
	for _, p := range fn.Params {
		run.args = append(run.args, symValue(fn.Name()+"."+p.Name(), p.Type()))
	}
	if ex.powRuns == nil {
		ex.powRuns = map[*ssa.Function]*powRun{}
	}
	ex.powRuns[fn] = run
	f, d, ob, ok := ex.failures, ex.details, ex.oblig, ex.obligOK
	defer func() {
		delete(ex.powRuns, fn)
		ex.failures, ex.details, ex.oblig, ex.obligOK = f, d, ob, ok
	}()
	ex.failures, ex.details = nil, nil
	st := newState()
	e := run.args[sp.exp]
	for _, pc := range st.pc.assumeAll(mkGe0(e)) {
		for _, o := range ex.call0(fn, run.args, nil, st.withPC(pc).clone(), nil) {
			if o.kind == OutPanic {
				return powNo, "it panics: " + o.why
			}
			v := checkPow(o.st.pc, o.vals[0], sp.want(run.args), ii.w)
			if v == powNo {
				return v, fmt.Sprintf("the result is %s, when %s", clip(o.vals[0].String()), clip(o.st.pc.String()))
			}
			run.bad = worse(run.bad, v)
		}
	}
	if len(ex.failures) > 0 {
		return powUnknown, ex.failures[0].msg
	}
	return run.bad, run.why
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + "…"
	}
	return s
}

func init() {
	// saIsPow(r, x, n): r is x^n modulo the width of its type
	intrinsics["saIsPow"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		ii, _ := intType(fn.Params[0].Type())
		switch checkPow(st.pc, st.simp(args[0]), powers{st.simp(args[1]): st.simp(args[2])}, ii.w) {
		case powYes:
			return one(st, tTrue)
		case powNo:
			return one(st, tFalse)
		}
		ex.fail("undecided: the result is not recognised as a power", "", st.pc.String())
		return one(st, tTrue)
	}
}

// ---------------------------------------------------------------- loops

// powLoop looks for the invariant r * b^e = constant among the leaves.
func (s *loopSum) powLoop() {
	if s.noPow {
		return
	}
	var ls []*leaf
	for _, lf := range s.leaves {
		if lf.form == nil && !lf.havoc && !lf.ghost && !lf.arr && !lf.ev && !lf.mp && lf.lam.kind == KInt && lf.typ != nil {
			if ii, ok := intType(lf.typ); ok && ii.w > 0 {
				ls = append(ls, lf)
			}
		}
	}
	for _, b := range ls {
		for _, r := range ls {
			if r == b || !types.Identical(r.typ, b.typ) {
				continue
			}
			for _, e := range ls {
				if e != r && e != b && (s.powTry(b, r, e, 1) || s.powTry(b, r, e, 0)) {
					return
				}
			}
		}
	}
	s.noPow = true
}

// lo is a lower bound of the exponent.
func (s *loopSum) powTry(b, r, e *leaf, lo int64) bool {
	ii, _ := intType(b.typ)
	norm := s.st.pc.norm
	pb, z1, ok1 := parsePow(norm(b.init), ii.w)
	pr, z2, ok2 := parsePow(norm(r.init), ii.w)
	if !ok1 || !ok2 || z1 || z2 || len(pb) != 1 {
		return false
	}
	var x, b0 *Term
	for x, b0 = range pb {
	}
	r0 := intConst(0)
	rest := intConst(1)
	var bs []*Term
	for y := range pr {
		bs = append(bs, y)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].id < bs[j].id })
	others := powers{}
	for _, y := range bs {
		if y == x {
			r0 = pr[y]
		} else {
			rest = mkMul(rest, powOf(y, pr[y]))
			others[y] = pr[y]
		}
	}
	e0 := norm(e.init)
	if isIte(e0) || s.st.pc.decide(mkGe(e0, intConst(lo))) != Yes {
		return false
	}
	all := mkAdd(r0, mkMul(b0, e0))
	id := fmt.Sprintf("%s#%d.%d", s.ex.probe, s.kap.id, lo)
	B := func(k *Term) *Term { return appInt("powB"+id, big0, nil, k) }
	E := func(k *Term) *Term { return appInt("powE"+id, big.NewInt(lo), e.lam.hi, k) }
	e.form = func(k *Term) *Term {
		if k.isConst(0) {
			return e0
		}
		return E(k)
	}
	b.form = func(k *Term) *Term {
		if k.isConst(0) {
			return b.init
		}
		return mkWrap(powOf(x, B(k)), ii)
	}
	r.form = func(k *Term) *Term {
		if k.isConst(0) {
			return r.init
		}
		return mkWrap(mkMul(rest, powOf(x, mkSub(all, mkMul(B(k), E(k))))), ii)
	}
	next := func(cur, k *Term) *Term { return cur }
	e.class, b.class, r.class = "power", "power", "power"
	e.next, b.next, r.next = next, next, next
	good := true
	outs := s.run(s.kap, mkGe0(s.kap))
	for _, o := range outs {
		if o.kind != OutBack {
			continue
		}
		if !s.fits(o) {
			good = false
			break
		}
		m := map[*Term]*Term{}
		for _, rt := range s.roots {
			s.backLeaves(rt.sh, s.backVal(rt, o), o, m)
		}
		if !s.powStep(o.st.pc, m[b.lam], m[r.lam], m[e.lam], x, all, others, ii.w, lo) {
			good = false
			break
		}
	}
	debugf("POWER loop base %s result %s exponent %s: %v", b.name, r.name, e.name, good)
	if !good {
		for _, lf := range []*leaf{b, r, e} {
			lf.class, lf.form, lf.next = "", nil, nil
		}
	}
	return good
}

// powStep: the invariant holds after the iteration.
func (s *loopSum) powStep(pc *PC, vb, vr, ve, x, all *Term, others powers, w uint, lo int64) bool {
	if vb == nil || vr == nil || ve == nil {
		return false
	}
	for _, v := range []**Term{&vb, &vr, &ve} {
		*v = pc.norm(*v)
		if isIte(*v) {
			c := (*v).args[0]
			for _, a := range []*Term{c, mkNot(c)} {
				for _, q := range pc.assumeAll(a) {
					if !s.powStep(q, vb, vr, ve, x, all, others, w, lo) {
						return false
					}
				}
			}
			return true
		}
	}
	pb, z1, ok1 := parsePow(vb, w)
	pr, z2, ok2 := parsePow(vr, w)
	if !ok1 || !ok2 || z1 || z2 || len(pb) != 1 || pb[x] == nil {
		return false
	}
	rx := intConst(0)
	n := 0
	for y, k := range pr {
		if y == x {
			rx = k
			continue
		}
		n++
		if others[y] == nil || pc.decide(mkEq(k, others[y])) != Yes {
			return false
		}
	}
	if n != len(others) || pc.decide(mkGe(ve, intConst(lo))) != Yes {
		return false
	}
	if pc.decide(mkEq(mkAdd(rx, mkMul(pb[x], ve)), all)) != Yes {
		debugf("POW step %s + %s*%s is not %s when %s", rx, pb[x], ve, all, pc)
		return false
	}
	return true
}
