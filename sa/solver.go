package main

import (
	"math/big"
	"sort"
	"strings"
)

// Relational numeric domain: conjunctions of polynomial (in)equalities over
// atoms. Emptiness is decided by linear arithmetic over the monomials with
// the defining inequalities of quotients and reductions, products of
// constraints for the non-linear monomials, and finite case distinctions.
// "not empty" is the safe answer.

type PC struct {
	parent *PC
	lit    *Term // atom
	val    bool
	n      int
	id     int
	// caches
	sub     map[*Term]*Term
	lits    map[*Term]bool
	ar      *arith
	foralls []*Term
	contra  bool // a literal contradicts the equalities
	derived bool // follows from the facts before
}

var pcCount int
var rootPC = &PC{}

func (pc *PC) push(lit *Term, val bool) *PC {
	pcCount++
	return &PC{parent: pc, lit: lit, val: val, n: pc.n + 1, id: pcCount}
}

// literals lists the facts, oldest first.
func (pc *PC) literals() []*PC {
	r := make([]*PC, pc.n)
	for p := pc; p.parent != nil; p = p.parent {
		r[p.n-1] = p
	}
	return r
}

func (pc *PC) String() string {
	s := ""
	for _, p := range pc.literals() {
		if s != "" {
			s += " && "
		}
		if !p.val {
			s += "!"
		}
		s += p.lit.String()
	}
	return s
}

// prep computes the equalities as a substitution and the normalised facts.
func (pc *PC) prep() {
	if pc.lits != nil {
		return
	}
	sub := map[*Term]*Term{}
	ls := pc.literals()
	addEq := func(from, to *Term) {
		m1 := map[*Term]*Term{from: to}
		for k, v := range sub {
			sub[k] = subst(v, m1)
		}
		sub[from] = to
	}
	for _, l := range ls {
		if !l.val {
			continue
		}
		switch l.lit.op {
		case "eq0":
			p := subst(l.lit.args[0], sub)
			if isIte(p) {
				continue
			}
			if v, e := solveFor(p); v != nil {
				addEq(v, e)
			}
		case "eq":
			a, b := subst(l.lit.args[0], sub), subst(l.lit.args[1], sub)
			if a == b || isIte(a) || isIte(b) {
				continue
			}
			if rank(a) < rank(b) || rank(a) == rank(b) && a.id < b.id {
				a, b = b, a
			}
			if eqSubstitutable(a) && !occurs(b, a) {
				addEq(a, b)
			} else if eqSubstitutable(b) && !occurs(a, b) {
				addEq(b, a)
			}
		}
	}
	pc.sub = sub
	lits := map[*Term]bool{}
	for _, l := range ls {
		lits[l.lit] = l.val
		t := subst(l.lit, sub)
		if t != l.lit {
			v := l.val
			if isIte(t) && t.args[1] == tFalse && t.args[2] == tTrue {
				t, v = t.args[0], !v
			}
			if t == tTrue && !v || t == tFalse && v {
				pc.contra = true
			}
			if !isIte(t) && t != tTrue && t != tFalse {
				lits[t] = v
			}
		}
		if l.lit.op == "forall" && l.val {
			pc.foralls = append(pc.foralls, l.lit)
			if t != l.lit && t.op == "forall" {
				pc.foralls = append(pc.foralls, t)
			}
		}
	}
	pc.lits = lits
}

func rank(t *Term) int {
	switch t.op {
	case "str", "fconst", "nil", "niliface", "fn":
		return 0
	case "sym":
		return 1
	}
	return 2
}

func eqSubstitutable(t *Term) bool {
	switch t.op {
	case "sym", "app", "sel", "filt", "rec":
		return true
	}
	return false
}

// solveFor finds an atom with coefficient ±1 in p that the rest does not contain.
func solveFor(p *Term) (*Term, *Term) {
	ms := monos(p)
	var best *Term
	var bc *big.Int
	for _, m := range ms {
		if len(m.vars) != 1 || !m.c.IsInt64() || (m.c.Int64() != 1 && m.c.Int64() != -1) {
			continue
		}
		v := m.vars[0]
		if v.op == "wrap" || v.op == "fdiv" || v.op == "quo" {
			// definitions stay, unless nothing else can be solved
		}
		ok := true
		for _, o := range ms {
			for _, w := range o.vars {
				if len(o.vars) == 1 && w == v {
					continue
				}
				if occurs(w, v) {
					ok = false
				}
			}
		}
		if !ok {
			continue
		}
		if best == nil || solveRank(v) > solveRank(best) || solveRank(v) == solveRank(best) && v.id > best.id {
			best, bc = v, m.c
		}
	}
	if best == nil {
		return nil, nil
	}
	acc := newAcc()
	for _, m := range ms {
		if len(m.vars) == 1 && m.vars[0] == best {
			continue
		}
		acc.add(new(big.Int).Neg(m.c), m.vars)
	}
	e := acc.term()
	if bc.Sign() < 0 {
		e = mkNeg(e)
	}
	return best, e
}

func solveRank(v *Term) int {
	switch v.op {
	case "sel", "app", "rec", "filt":
		return 2
	case "sym":
		return 1
	case "wrap", "fdiv", "quo":
		return 3
	}
	return 2
}

func (pc *PC) norm(t *Term) *Term {
	pc.prep()
	return subst(t, pc.sub)
}

// ---------------------------------------------------------------- decision

type Tri int8

const (
	Unknown Tri = iota
	Yes
	No
)

type decKey struct{ pc, t int }

var decMemo = map[decKey]Tri{}

// statistics for the evidence
var statDecides, statSolves int

func (pc *PC) decide(t *Term) Tri {
	if t == tTrue {
		return Yes
	}
	if t == tFalse {
		return No
	}
	k := decKey{pc.id, t.id}
	if r, ok := decMemo[k]; ok {
		return r
	}
	statDecides++
	r := pc.decide0(t, 0)
	decMemo[k] = r
	return r
}

func (pc *PC) decide0(t *Term, depth int) Tri {
	t = pc.norm(t)
	if t == tTrue {
		return Yes
	}
	if t == tFalse {
		return No
	}
	if isIte(t) {
		a := t.args[0]
		switch pc.decideAtom(a, depth) {
		case Yes:
			return pc.decide0(t.args[1], depth)
		case No:
			return pc.decide0(t.args[2], depth)
		}
		r1, r2 := Yes, Yes
		p1 := pc.push(a, true)
		r1 = p1.decide0(t.args[1], depth)
		p2 := pc.push(a, false)
		if r1 == Unknown {
			return Unknown
		}
		r2 = p2.decide0(t.args[2], depth)
		if r1 == r2 {
			return r1
		}
		return Unknown
	}
	return pc.decideAtom(t, depth)
}

func (pc *PC) decideAtom(a *Term, depth int) Tri {
	pc.prep()
	if v, ok := pc.lits[a]; ok {
		if v {
			return Yes
		}
		return No
	}
	switch a.op {
	case "ge0", "eq0":
		if !pc.feasibleWith(a, true) {
			return No
		}
		if !pc.feasibleWith(a, false) {
			return Yes
		}
		if b := pc.congruent(a, depth); b != a {
			return pc.decide0(b, depth+1)
		}
	case "forall":
		if depth < 4 {
			if pc.provesForall(a, depth) {
				return Yes
			}
			if pc.refutes(a, depth) {
				return No
			}
		}
	case "eq":
		// congruence through sub-terms
		if r := pc.eqByParts(a.args[0], a.args[1], depth); r != Unknown {
			return r
		}
	}
	if depth < 4 {
		if r := pc.byForall(a, depth); r != Unknown {
			return r
		}
	}
	return Unknown
}

// underFn: the variable occurs as part of an argument in the atom, not just
// as a term of its sum.
func underFn(at, bv *Term) bool {
	for _, m := range monos(at.args[0]) {
		for _, v := range m.vars {
			if v != bv && occurs(v, bv) {
				return true
			}
		}
	}
	return false
}

func (pc *PC) provesForall(a *Term, depth int) bool {
	k := freshInt("all", big0, nil)
	body := instBody(a, 0, k)
	p := pc.assumeAll(mkAnd(mkGe0(k), mkLt(k, a.args[0])))
	for _, f := range pc.foralls {
		// a known fact about all but a few of the last positions
		d := mkSub(a.args[0], f.args[0]).constVal()
		if d == nil || d.Sign() <= 0 || d.Cmp(big.NewInt(3)) > 0 || depth > 1 {
			continue
		}
		var p2 []*PC
		for _, q := range p {
			p2 = append(p2, q.assumeAll(mkLt(k, f.args[0]))...)
			for i := int64(0); i < d.Int64(); i++ {
				p2 = append(p2, q.assumeAll(mkEq(k, mkAddK(f.args[0], i)))...)
			}
		}
		p = p2
	}
	all := true
	for _, q := range p {
		if q.decide0(body, depth+1) != Yes {
			all = false
			break
		}
	}
	return all
}

// refuted: one of the quantified facts contradicts another fact.
func (pc *PC) refuted() bool {
	pc.prep()
	if pc.contra {
		return true
	}
	for _, f := range pc.foralls {
		if pc.refutes(f, 0) {
			return true
		}
	}
	for l, v := range pc.lits {
		switch l.op {
		case "forall":
			if !v && pc.provesForall(l, 0) {
				return true
			}
		case "eq":
			if !v && pc.eqByParts(l.args[0], l.args[1], 0) == Yes {
				return true
			}
		}
	}
	// values of the same function whose arguments turned out equal
	var vs []*Term
	seen := map[*Term]bool{}
	for l := range pc.lits {
		if l.op != "ge0" && l.op != "eq0" {
			continue
		}
		for _, m := range monos(l.args[0]) {
			for _, v := range m.vars {
				if !seen[v] && len(v.args) > 0 && (v.op == "sel" || v.op == "app" || v.op == "filt") {
					seen[v] = true
					vs = append(vs, v)
				}
			}
		}
	}
	if len(vs) > 24 {
		return false
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
	q := pc
	for i, x := range vs {
		for _, y := range vs[i+1:] {
			e := mkEq(x, y)
			if e == tTrue || e == tFalse || pc.eqByParts(x, y, 0) != Yes {
				continue
			}
			if !q.feasibleWith(e, true) {
				return true
			}
			q = q.push(e, true)
		}
	}
	return false
}

// refutes: one of the facts is about an instance of the quantified body that
// is false.
func (pc *PC) refutes(f *Term, depth int) bool {
	n, body := f.args[0], f.args[1]
	bvs := map[*Term]bool{}
	findBV(body, f.bvh, bvs, map[*Term]bool{})
	if len(bvs) != 1 {
		return false
	}
	var bv *Term
	for b := range bvs {
		bv = b
	}
	tried := map[*Term]bool{}
	for _, at := range atomsOf(body) {
		if !occurs(at, bv) || (at.op == "ge0" || at.op == "eq0") && !underFn(at, bv) {
			continue
		}
		for l := range pc.lits {
			var bind *Term
			if l.op == "forall" || !match(at, l, bv, &bind) || bind == nil || tried[bind] {
				continue
			}
			tried[bind] = true
			if pc.decide0(mkAnd(mkGe0(bind), mkLt(bind, n)), depth+1) == Yes && pc.decide0(instBody(f, 0, bind), depth+1) == No {
				return true
			}
		}
	}
	return false
}

// congruent identifies opaque values of the atom that are the same function
// of arguments that the facts make equal.
func (pc *PC) congruent(a *Term, depth int) *Term {
	if depth > 3 {
		return a
	}
	var vs []*Term
	for _, m := range monos(a.args[0]) {
		if len(m.vars) == 1 && len(m.vars[0].args) > 0 && (m.vars[0].op == "sel" || m.vars[0].op == "app" || m.vars[0].op == "filt") {
			vs = append(vs, m.vars[0])
		}
	}
	for i, x := range vs {
		for _, y := range vs[i+1:] {
			if pc.eqByParts(x, y, depth) == Yes {
				return subst1(a, y, x)
			}
		}
	}
	return a
}

// eqByParts: equal heads with pairwise equal arguments.
func (pc *PC) eqByParts(x, y *Term, depth int) Tri {
	if depth > 3 || x.op != y.op || x.name != y.name || len(x.args) != len(y.args) || x.nb > 0 || y.nb > 0 || len(x.args) == 0 {
		return Unknown
	}
	switch x.op {
	case "app", "sel", "filt", "rec", "ptr", "iface", "struct", "slice", "strcat", "box":
	default:
		return Unknown
	}
	for i := range x.args {
		if x.args[i] == y.args[i] {
			continue
		}
		if x.args[i].kind != y.args[i].kind {
			return Unknown
		}
		if x.args[i].kind == KOther && x.args[i].op != "sel" && x.args[i].op != "app" && x.args[i].op != "struct" && x.args[i].op != "iface" {
			return Unknown
		}
		if pc.decide0(mkEq(x.args[i], y.args[i]), depth+1) != Yes {
			return Unknown
		}
	}
	return Yes
}

// byForall uses the universally quantified facts.
func (pc *PC) byForall(a *Term, depth int) Tri {
	for _, f := range pc.foralls {
		n, body := f.args[0], f.args[1]
		var bv *Term
		bvs := map[*Term]bool{}
		findBV(body, f.bvh, bvs, map[*Term]bool{})
		for b := range bvs {
			bv = b
		}
		if bv == nil {
			continue
		}
		for _, at := range atomsOf(body) {
			var bind *Term
			if (at.op == "ge0" || at.op == "eq0") && !underFn(at, bv) {
				continue
			}
			if !match(at, a, bv, &bind) || bind == nil {
				continue
			}
			if pc.decide0(mkAnd(mkGe0(bind), mkLt(bind, n)), depth+1) != Yes {
				continue
			}
			inst := pc.norm(instBody(f, 0, bind))
			qs := pc.assumeAllD(inst, depth+1)
			var r Tri
			for i, q := range qs {
				q.prep()
				var x Tri
				if v, ok := q.lits[q.norm(a)]; ok {
					x = No
					if v {
						x = Yes
					}
				} else if v, ok := q.lits[a]; ok {
					x = No
					if v {
						x = Yes
					}
				}
				if x == Unknown || i > 0 && x != r {
					r = Unknown
					break
				}
				r = x
			}
			if r != Unknown {
				return r
			}
		}
	}
	return Unknown
}

// atomsOf lists the atoms of a decision diagram.
func atomsOf(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if isIte(t) {
			rec(t.args[0])
			rec(t.args[1])
			rec(t.args[2])
			return
		}
		if t.kind == KBool && t != tTrue && t != tFalse {
			out = append(out, t)
		}
	}
	rec(t)
	return out
}

// match: pat with bv bound to something equals t. Integer patterns may be
// linear in bv.
func match(pat, t, bv *Term, bind **Term) bool {
	if pat == bv {
		if *bind == nil {
			*bind = t
			return true
		}
		return *bind == t
	}
	if !occurs(pat, bv) {
		return pat == t
	}
	if pat.kind == KInt && pat.op == "poly" && t.kind == KInt {
		// c*bv + rest with c = ±1
		acc := newAcc()
		var c *big.Int
		for _, m := range pat.poly {
			if len(m.vars) == 1 && m.vars[0] == bv {
				c = m.c
				continue
			}
			for _, v := range m.vars {
				if occurs(v, bv) {
					return matchPoly(pat, t, bv, bind)
				}
			}
			acc.add(m.c, m.vars)
		}
		if c == nil || !c.IsInt64() || (c.Int64() != 1 && c.Int64() != -1) || isIte(t) {
			return false
		}
		d := mkScale(c, mkSub(t, acc.term()))
		if *bind == nil {
			*bind = d
			return true
		}
		return *bind == d
	}
	if pat.op != t.op || pat.name != t.name || len(pat.args) != len(t.args) || pat.nb > 0 || pat.op == "poly" {
		return false
	}
	if len(pat.args) == 2 && t.op == "app" && (t.name == "deepequal" || t.name == "feq" || symmetricApp(t.name)) {
		save := *bind
		if match(pat.args[0], t.args[0], bv, bind) && match(pat.args[1], t.args[1], bv, bind) {
			return true
		}
		*bind = save
		return match(pat.args[0], t.args[1], bv, bind) && match(pat.args[1], t.args[0], bv, bind)
	}
	// bind through the sel indices first
	for i := range pat.args {
		if !match(pat.args[i], t.args[i], bv, bind) {
			return false
		}
	}
	return true
}

func matchPoly(pat, t, bv *Term, bind **Term) bool {
	a, b := monos(pat), monos(t)
	if len(a) != len(b) {
		return false
	}
	used := make([]bool, len(b))
	for _, m := range a {
		found := false
		for j, o := range b {
			if used[j] || o.c.Cmp(m.c) != 0 || len(o.vars) != len(m.vars) {
				continue
			}
			save := *bind
			ok := true
			for x := range m.vars {
				if !match(m.vars[x], o.vars[x], bv, bind) {
					ok = false
					break
				}
			}
			if ok {
				used[j] = true
				found = true
				break
			}
			*bind = save
		}
		if !found {
			return false
		}
	}
	return true
}

// assumeAll adds a condition: one path condition per satisfiable path of
// its decision diagram.
func (pc *PC) assumeAll(t *Term) []*PC { return pc.assumeAllD(t, 0) }

func (pc *PC) assumeAllD(t *Term, depth int) []*PC {
	t = pc.norm(t)
	if t == tTrue {
		return []*PC{pc}
	}
	if t == tFalse {
		return nil
	}
	if isIte(t) {
		a := t.args[0]
		switch pc.decideAtom(a, depth) {
		case Yes:
			return pc.assumeAllD(t.args[1], depth)
		case No:
			return pc.assumeAllD(t.args[2], depth)
		}
		r := pc.pushLit(a, true, depth).assumeAllD(t.args[1], depth)
		return append(r, pc.pushLit(a, false, depth).assumeAllD(t.args[2], depth)...)
	}
	switch pc.decideAtom(t, depth) {
	case Yes:
		return []*PC{pc}
	case No:
		return nil
	}
	return []*PC{pc.pushLit(t, true, depth)}
}

// pushLit adds a literal; where that settles how often a wrapped value in it
// was reduced, the exact value is noted as well.
func (pc *PC) pushLit(a *Term, v bool, depth int) *PC {
	r := pc.push(a, v)
	if depth == 0 {
		r = r.consequences(a)
	}
	if a.op != "ge0" && a.op != "eq0" {
		return r
	}
	for _, m := range monos(a.args[0]) {
		if len(m.vars) != 1 || m.vars[0].op != "wrap" {
			continue
		}
		w := m.vars[0]
		for _, k := range []int64{0, 1, -1} {
			e := mkEq0(mkSub(mkSub(w.args[0], w), mkScale(pow2(wrapInfo(w).w), intConst(k))))
			if e.op != "eq0" {
				continue
			}
			if r.decideAtom(e, depth) == Yes {
				if r.norm(e) != tTrue {
					r = r.push(e, true)
					r.derived = true
				}
				break
			}
		}
	}
	return r
}

// consequences adds what the quantified facts say about the new fact's
// subject, and that arguments differ where the results do.
func (pc *PC) consequences(a *Term) *PC {
	pc.prep()
	r := pc
	add := func(t *Term) {
		t = r.norm(t)
		ls := mustHold(t, true)
		if isIte(t) && len(ls) == 0 {
			for _, at := range atomsOf(t) {
				for _, v := range []bool{true, false} {
					if (at.op == "ge0" || at.op == "eq0") && r.push(at, v).decide0(t, 3) == No {
						ls = append(ls, litv{at, !v})
						break
					}
				}
			}
		}
		for _, l := range ls {
			if l.t.op != "ge0" && l.t.op != "eq0" || r.norm(l.t).op != l.t.op {
				continue
			}
			if r.decideAtom(l.t, 3) != Unknown {
				continue
			}
			r = r.push(l.t, l.v)
			r.derived = true
			r.prep()
		}
	}
	for _, f := range pc.foralls {
		n, body := f.args[0], f.args[1]
		bvs := map[*Term]bool{}
		findBV(body, f.bvh, bvs, map[*Term]bool{})
		if len(bvs) != 1 {
			continue
		}
		var bv *Term
		for b := range bvs {
			bv = b
		}
		tried := map[*Term]bool{}
		for _, at := range atomsOf(body) {
			var bind *Term
			if (at.op == "ge0" || at.op == "eq0") && !underFn(at, bv) {
				continue
			}
			if !match(at, a, bv, &bind) || bind == nil || tried[bind] {
				continue
			}
			tried[bind] = true
			if pc.decide0(mkAnd(mkGe0(bind), mkLt(bind, n)), 2) == Yes {
				add(instBody(f, 0, bind))
			}
		}
	}
	if a.op == "eq0" && pc.lits[a] {
		for _, x := range opaqueIn(a) {
			cx := pc.norm(x).constVal()
			if cx == nil {
				continue
			}
			for l := range pc.lits {
				if l.op != "eq0" || l == a {
					continue
				}
				for _, y := range opaqueIn(l) {
					if y == x || y.name != x.name || y.op != x.op || len(y.args) != len(x.args) {
						continue
					}
					cy := pc.norm(y).constVal()
					if cy == nil || cy.Cmp(cx) == 0 {
						continue
					}
					var ps [][2]*Term
					if indexDiff(x, y, &ps) && len(ps) == 1 {
						add(mkNot(mkEq(ps[0][0], ps[0][1])))
					}
				}
			}
		}
	}
	return r
}

// opaqueIn lists the opaque integer values of an arithmetic atom.
func opaqueIn(a *Term) []*Term {
	var vs []*Term
	for _, m := range monos(a.args[0]) {
		if len(m.vars) == 1 && m.vars[0].op == "app" && len(m.vars[0].args) > 0 {
			vs = append(vs, m.vars[0])
		}
	}
	return vs
}

// indexDiff lists the array positions in which two terms differ; false if
// they differ otherwise.
func indexDiff(x, y *Term, out *[][2]*Term) bool {
	if x == y {
		return true
	}
	if x.op != y.op || x.name != y.name || x.nb > 0 || len(x.args) != len(y.args) || x.op == "poly" || len(x.args) == 0 {
		return false
	}
	if x.op == "sel" {
		if x.args[0] != y.args[0] {
			return false
		}
		for _, p := range *out {
			if p[0] == x.args[1] && p[1] == y.args[1] {
				return true
			}
		}
		*out = append(*out, [2]*Term{x.args[1], y.args[1]})
		return true
	}
	for i := range x.args {
		if !indexDiff(x.args[i], y.args[i], out) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- arithmetic

type lin struct {
	m map[*Term]*big.Int // monomial -> coefficient; nil key: constant
}

type arith struct {
	ge, eq, ne [][]Mono
}

func (pc *PC) arith() *arith {
	if pc.ar != nil {
		return pc.ar
	}
	pc.prep()
	r := &arith{}
	for _, l := range pc.literals() {
		t := subst(l.lit, pc.sub)
		v := l.val
		if isIte(t) {
			if t.args[1] == tFalse && t.args[2] == tTrue {
				t, v = t.args[0], !v
			} else {
				continue
			}
		}
		r.addLit(t, v)
	}
	// solved equalities keep their information about ranges
	for k, e := range pc.sub {
		if k.kind == KInt && !isIte(e) {
			p := mkSub(k, e)
			if !isIte(p) {
				r.eq = append(r.eq, monos(p))
			}
		}
	}
	pc.ar = r
	return r
}

func (r *arith) addLit(t *Term, v bool) {
	switch t.op {
	case "ge0":
		p := t.args[0]
		if !v {
			p = mkAddK(mkNeg(p), -1)
		}
		r.ge = append(r.ge, monos(p))
	case "eq0":
		if v {
			r.eq = append(r.eq, monos(t.args[0]))
		} else {
			r.ne = append(r.ne, monos(t.args[0]))
		}
	}
}

func (pc *PC) feasibleWith(a *Term, v bool) bool {
	base := pc.arith()
	q := &arith{}
	q.addLit(a, v)
	// cone of influence
	seen := map[*Term]bool{}
	var mark func(ms []Mono)
	mark = func(ms []Mono) {
		for _, m := range ms {
			for _, x := range m.vars {
				markAtom(x, seen)
			}
		}
	}
	for _, l := range [][][]Mono{q.ge, q.eq, q.ne} {
		for _, ms := range l {
			mark(ms)
		}
	}
	touches := func(ms []Mono) bool {
		hit := false
		for _, m := range ms {
			for _, x := range m.vars {
				if touchAtom(x, seen) {
					hit = true
				}
			}
		}
		return hit
	}
	prob := &arith{ge: q.ge, eq: q.eq, ne: q.ne}
	ug, ue, un := make([]bool, len(base.ge)), make([]bool, len(base.eq)), make([]bool, len(base.ne))
	for changed := true; changed; {
		changed = false
		for i, ms := range base.ge {
			if !ug[i] && touches(ms) {
				ug[i], changed = true, true
				mark(ms)
				prob.ge = append(prob.ge, ms)
			}
		}
		for i, ms := range base.eq {
			if !ue[i] && touches(ms) {
				ue[i], changed = true, true
				mark(ms)
				prob.eq = append(prob.eq, ms)
			}
		}
		for i, ms := range base.ne {
			if !un[i] && touches(ms) {
				un[i], changed = true, true
				mark(ms)
				prob.ne = append(prob.ne, ms)
			}
		}
	}
	return prob.feasible()
}

// markAtom marks an atom and the atoms its definition refers to.
func markAtom(x *Term, seen map[*Term]bool) {
	if seen[x] {
		return
	}
	seen[x] = true
	switch x.op {
	case "wrap", "fdiv", "quo":
		for _, a := range x.args {
			for _, m := range monos(a) {
				for _, v := range m.vars {
					markAtom(v, seen)
				}
			}
		}
	}
}

func touchAtom(x *Term, seen map[*Term]bool) bool {
	if seen[x] {
		return true
	}
	switch x.op {
	case "wrap", "fdiv", "quo":
		for _, a := range x.args {
			for _, m := range monos(a) {
				for _, v := range m.vars {
					if touchAtom(v, seen) {
						return true
					}
				}
			}
		}
	}
	return false
}

var feasMemo = map[string]bool{}

func (a *arith) key() string {
	var ks []string
	for _, l := range a.ge {
		ks = append(ks, "g"+polyTerm(l).idStr())
	}
	for _, l := range a.eq {
		ks = append(ks, "e"+polyTerm(l).idStr())
	}
	for _, l := range a.ne {
		ks = append(ks, "n"+polyTerm(l).idStr())
	}
	sort.Strings(ks)
	s := ""
	last := ""
	for _, k := range ks {
		if k != last {
			s += k + ";"
			last = k
		}
	}
	return s
}

func (t *Term) idStr() string { return big.NewInt(int64(t.id)).String() }

func (a *arith) feasible() bool {
	k := a.key()
	if r, ok := feasMemo[k]; ok {
		return r
	}
	statSolves++
	p := &problem{}
	for _, ms := range a.ge {
		p.ge = append(p.ge, ms)
	}
	p.eq = append(p.eq, a.eq...)
	p.ne = append(p.ne, a.ne...)
	r := p.solve(0)
	feasMemo[k] = r
	return r
}

type problem struct {
	ge, eq, ne [][]Mono
	defined    map[*Term]bool
	signs      map[*Term]int // decided sign cases of quotients: bit mask
	kvars      map[*Term]*Term
	last       *lpResult
}

func (p *problem) clone() *problem {
	q := &problem{ge: append([][]Mono(nil), p.ge...), eq: append([][]Mono(nil), p.eq...), ne: append([][]Mono(nil), p.ne...), defined: map[*Term]bool{}}
	for k, v := range p.defined {
		q.defined[k] = v
	}
	q.kvars = p.kvars
	return q
}

func (p *problem) atoms() []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	for _, l := range [][][]Mono{p.ge, p.eq, p.ne} {
		for _, ms := range l {
			for _, m := range ms {
				for _, v := range m.vars {
					if !seen[v] {
						seen[v] = true
						out = append(out, v)
					}
				}
			}
		}
	}
	return out
}

var kvarOf = map[*Term]*Term{}

// define adds the defining constraints of atoms.
func (p *problem) define() (pending []*Term) {
	if p.defined == nil {
		p.defined = map[*Term]bool{}
	}
	for {
		more := false
		for _, v := range p.atoms() {
			if p.defined[v] {
				continue
			}
			p.defined[v] = true
			more = true
			if v.lo != nil {
				p.ge = append(p.ge, monos(mkSub(v, mkConst(v.lo))))
			}
			if v.hi != nil {
				p.ge = append(p.ge, monos(mkSub(mkConst(v.hi), v)))
			}
			switch v.op {
			case "wrap":
				ii := wrapInfo(v)
				k := kvarOf[v]
				if k == nil {
					k = freshInt("wrapk", nil, nil)
					plo, phi := bounds(v.args[0])
					m := pow2(ii.w)
					if plo != nil {
						// k >= (plo - hi)/m
						k.lo = ceilDiv(new(big.Int).Sub(plo, v.hi), m)
					}
					if phi != nil {
						k.hi = new(big.Int).Div(new(big.Int).Sub(phi, v.lo), m)
					}
					kvarOf[v] = k
				}
				p.eq = append(p.eq, monos(mkSub(mkAdd(v, mkScale(pow2(ii.w), k)), v.args[0])))
			case "count":
				p.ge = append(p.ge, monos(mkSub(v.args[0], v)))
			case "fdiv":
				c := v.args[1].constVal()
				r := mkSub(v.args[0], mkScale(c, v))
				p.ge = append(p.ge, monos(r), monos(mkSub(mkConst(new(big.Int).Sub(c, big1)), r)))
			}
		}
		if !more {
			// the counter of a wrap is the quotient, where that occurs itself
			have := map[*Term]bool{}
			var ws []*Term
			for _, v := range p.atoms() {
				have[v] = true
				if v.op == "wrap" && kvarOf[v] != nil && !p.defined[quoMark(v)] {
					ws = append(ws, v)
				}
			}
			for v := range p.kvars {
				have[v] = true
			}
			link := false
			for _, v := range ws {
				ii := wrapInfo(v)
				arg := v.args[0]
				if k := kvarOf[v]; k.lo != nil && k.hi != nil && new(big.Int).Sub(k.hi, k.lo).Cmp(big.NewInt(4)) <= 0 {
					continue // split instead
				}
				if ii.signed {
					arg = mkAdd(arg, mkConst(pow2(ii.w-1)))
				}
				q := mkFdiv(arg, pow2(ii.w))
				ok, any := true, false
				for _, m := range monos(q) {
					for _, x := range m.vars {
						any = true
						if !have[x] {
							ok = false
						}
					}
				}
				if ok && any {
					k := kvarOf[v]
					p.defined[quoMark(v)] = true
					p.eq = append(p.eq, monos(mkSub(k, q)))
					link = true
				}
			}
			if !link {
				return nil
			}
		}
	}
}

func ceilDiv(a, m *big.Int) *big.Int {
	return new(big.Int).Neg(new(big.Int).Div(new(big.Int).Neg(a), m))
}

const maxDepth = 14

func (p *problem) solve(depth int) bool {
	p.define()
	if !p.eliminate() {
		return false
	}
	if !p.tighten() {
		return false
	}
	if !p.lpFeasible(false) {
		return false
	}
	if depth >= maxDepth {
		return true
	}
	// sign cases of quotients
	for _, v := range p.quoAtoms() {
		a, b := v.args[0], v.args[1]
		a, b = p.red(a), p.red(b)
		type cs struct{ sa, sb int }
		var cases []cs
		for _, sa := range []int{0, -1} {
			for _, sb := range []int{1, -1} {
				q := p.clone()
				q.addSign(a, sa)
				q.addSign(b, sb)
				if q.quick() {
					cases = append(cases, cs{sa, sb})
				}
			}
		}
		if q := p.clone(); true {
			// divisor zero: nothing is known about the quotient
			q.eq = append(q.eq, monos(b))
			if q.quick() {
				q.defined[quoMark(v)] = true
				if q.solve(depth + 1) {
					return true
				}
			}
		}
		for _, c := range cases {
			q := p.clone()
			q.addSign(a, c.sa)
			q.addSign(b, c.sb)
			q.defined[quoMark(v)] = true
			vv := p.red(v)
			r := mkSub(a, mkMul(vv, b))
			add := func(t *Term) { q.ge = append(q.ge, monos(t)) }
			absB := b
			if c.sb < 0 {
				absB = mkNeg(b)
			}
			if c.sa == 0 {
				add(r)
				add(mkAddK(mkSub(absB, r), -1))
			} else {
				add(mkNeg(r))
				add(mkAddK(mkAdd(absB, r), -1))
			}
			sv := vv
			if (c.sa == 0) != (c.sb > 0) {
				sv = mkNeg(vv)
			}
			add(sv) // sign of the quotient
			if c.sa == 0 {
				add(mkSub(a, sv))
			} else {
				add(mkSub(mkNeg(a), sv))
			}
			if q.solve(depth + 1) {
				return true
			}
		}
		return false
	}
	// small wrap counters
	for _, v := range p.atoms() {
		if k := v; k.op == "sym" && isWrapK(k) {
			lo, hi := p.kRange(k)
			if lo != nil && hi != nil && new(big.Int).Sub(hi, lo).IsInt64() && new(big.Int).Sub(hi, lo).Int64() <= 4 {
				for c := new(big.Int).Set(lo); c.Cmp(hi) <= 0; c = new(big.Int).Add(c, big1) {
					q := p.clone()
					q.eq = append(q.eq, monos(mkSub(k, mkConst(c))))
					if q.solve(depth + 1) {
						return true
					}
				}
				return false
			}
		}
	}
	// wide wrap counters that are near each other
	var wide []*Term
	for _, v := range p.atoms() {
		if v.op == "sym" && isWrapK(v) || v.op == "fdiv" {
			if v.lo == nil || v.hi == nil || new(big.Int).Sub(v.hi, v.lo).Cmp(big.NewInt(64)) > 0 {
				wide = append(wide, v)
			}
		}
	}
	if len(wide) <= 6 && depth < 6 {
		for i, a := range wide {
			for _, b := range wide[i+1:] {
				if !isWrapK(a) && !isWrapK(b) || p.defined[pairMark(a, b)] {
					continue
				}
				d := mkSub(a, b)
				var qs []*problem
				for s := -1; s <= 1; s++ {
					q := p.clone()
					if s == 0 {
						q.eq = append(q.eq, monos(d))
					} else {
						q.ge = append(q.ge, monos(mkAddK(mkScale(big.NewInt(int64(s)), d), -1)))
					}
					if q.quick() {
						qs = append(qs, q)
					}
				}
				if len(qs) == 3 {
					continue
				}
				for _, q := range qs {
					q.defined[pairMark(a, b)] = true
					if q.solve(depth + 1) {
						return true
					}
				}
				return false
			}
		}
	}
	// disequalities
	for i, ms := range p.ne {
		t := polyTerm(ms)
		rest := append(append([][]Mono(nil), p.ne[:i]...), p.ne[i+1:]...)
		for _, s := range []int64{1, -1} {
			q := p.clone()
			q.ne = rest
			q.ge = append(q.ge, monos(mkAddK(mkScale(big.NewInt(s), t), -1)))
			if q.solve(depth + 1) {
				return true
			}
		}
		return false
	}
	if p.nonlinear() {
		if !p.lpFeasible(true) {
			return false
		}
		// sign splits of the factors
		if depth < 6 {
			for _, v := range p.nlFactors() {
				lo, hi := p.signKnown(v)
				if lo || hi {
					continue
				}
				for _, s := range []int{0, -1} {
					q := p.clone()
					q.addSign(v, s)
					if q.solve(depth + 1) {
						return true
					}
				}
				return false
			}
		}
	}
	// a fractional vertex: branch
	if v, val := p.fractional(); v != nil && depth < 8 {
		fl := new(big.Int).Div(val.Num(), val.Denom())
		q := p.clone()
		q.ge = append(q.ge, monos(mkSub(mkConst(fl), v)))
		if q.solve(depth + 3) {
			return true
		}
		q = p.clone()
		q.ge = append(q.ge, monos(mkAddK(mkSub(v, mkConst(fl)), -1)))
		return q.solve(depth + 3)
	}
	return true
}

var wrapKs = map[*Term]bool{}

func isWrapK(k *Term) bool { return len(k.name) > 5 && k.name[:5] == "wrapk" }

func (p *problem) kRange(k *Term) (lo, hi *big.Int) {
	lo, hi = k.lo, k.hi
	if lo == nil || hi == nil {
		return nil, nil
	}
	// tighten by single-variable constraints
	for _, ms := range p.ge {
		var c, d *big.Int = nil, big0
		ok := true
		for _, m := range ms {
			if len(m.vars) == 0 {
				d = m.c
			} else if len(m.vars) == 1 && m.vars[0] == k && c == nil {
				c = m.c
			} else {
				ok = false
			}
		}
		if !ok || c == nil {
			continue
		}
		if c.Sign() > 0 {
			b := ceilDiv(new(big.Int).Neg(d), c)
			lo = bigMax(lo, b)
		} else {
			b := new(big.Int).Div(d, new(big.Int).Neg(c))
			hi = bigMin(hi, b)
		}
	}
	return
}

var quoMarks = map[*Term]*Term{}

func quoMark(v *Term) *Term {
	if m, ok := quoMarks[v]; ok {
		return m
	}
	m := freshInt("quodone", nil, nil)
	quoMarks[v] = m
	return m
}

func pairMark(a, b *Term) *Term { return mk("pair", "", KOther, nil, a, b) }

func (p *problem) addSign(t *Term, s int) {
	switch {
	case s == 0:
		p.ge = append(p.ge, monos(t))
	case s > 0:
		p.ge = append(p.ge, monos(mkAddK(t, -1)))
	default:
		p.ge = append(p.ge, monos(mkAddK(mkNeg(t), -1)))
	}
}

// red applies the eliminated equalities.
func (p *problem) red(t *Term) *Term { return substShallow(t, p.elim()) }

func (p *problem) elim() map[*Term]*Term { return p.kvars }

// substShallow substitutes atoms at the top level of a polynomial only.
func substShallow(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	for i := 0; i < 50; i++ {
		changed := false
		r := intConst(0)
		for _, mo := range monos(t) {
			x := mkConst(mo.c)
			for _, v := range mo.vars {
				if e, ok := m[v]; ok {
					changed = true
					x = mkMul(x, e)
				} else {
					x = mkMul(x, v)
				}
			}
			r = mkAdd(r, x)
		}
		t = r
		if !changed {
			break
		}
	}
	return t
}

func (p *problem) quoAtoms() []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	// the quotients that were eliminated count too
	for v := range p.defined {
		if v.op == "quo" && !p.defined[quoMark(v)] && !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (p *problem) quick() bool {
	q := p.clone()
	q.define()
	if !q.eliminate() || !q.tighten() {
		return false
	}
	return q.lpFeasible(false)
}

// eliminate solves the equalities.
func (p *problem) eliminate() bool {
	elim := map[*Term]*Term{}
	for k, v := range p.kvars {
		elim[k] = v
	}
	work := p.eq
	p.eq = nil
	var keep []*Term
	for len(work) > 0 {
		t := substShallow(polyTerm(work[0]), elim)
		work = work[1:]
		if c := t.constVal(); c != nil {
			if c.Sign() != 0 {
				return false
			}
			continue
		}
		g, k := coefGcd(t)
		if new(big.Int).Rem(k, g).Sign() != 0 {
			return false
		}
		if g.Cmp(big1) > 0 {
			acc := newAcc()
			for _, m := range monos(t) {
				acc.add(new(big.Int).Quo(m.c, g), m.vars)
			}
			t = acc.term()
		}
		v, e := solveTop(t)
		if v == nil {
			keep = append(keep, t)
			continue
		}
		m1 := map[*Term]*Term{v: e}
		for k, x := range elim {
			elim[k] = substShallow(x, m1)
		}
		elim[v] = e
		// earlier kept equalities may be solvable now
		for _, kt := range keep {
			work = append(work, monos(kt))
		}
		keep = nil
	}
	for _, k := range keep {
		p.eq = append(p.eq, monos(substShallow(k, elim)))
	}
	sub := func(l [][]Mono) [][]Mono {
		r := make([][]Mono, 0, len(l))
		for _, ms := range l {
			r = append(r, monos(substShallow(polyTerm(ms), elim)))
		}
		return r
	}
	p.ge, p.ne = sub(p.ge), sub(p.ne)
	p.kvars = elim
	return true
}

func coefGcd(t *Term) (*big.Int, *big.Int) {
	g := big.NewInt(0)
	k := big0
	for _, m := range monos(t) {
		if len(m.vars) > 0 {
			g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
		} else {
			k = m.c
		}
	}
	return g, k
}

// solveTop: an atom with coefficient ±1 occurring in no other monomial.
func solveTop(p *Term) (*Term, *Term) {
	ms := monos(p)
	var best *Term
	var bc *big.Int
	for _, m := range ms {
		if len(m.vars) != 1 || !m.c.IsInt64() || (m.c.Int64() != 1 && m.c.Int64() != -1) {
			continue
		}
		v := m.vars[0]
		ok := true
		for _, o := range ms {
			if len(o.vars) > 1 {
				for _, w := range o.vars {
					if w == v {
						ok = false
					}
				}
			}
		}
		if !ok {
			continue
		}
		if best == nil || topRank(v) > topRank(best) || topRank(v) == topRank(best) && v.id > best.id {
			best, bc = v, m.c
		}
	}
	if best == nil {
		return nil, nil
	}
	acc := newAcc()
	for _, m := range ms {
		if len(m.vars) == 1 && m.vars[0] == best {
			continue
		}
		acc.add(new(big.Int).Neg(m.c), m.vars)
	}
	e := acc.term()
	if bc.Sign() < 0 {
		e = mkNeg(e)
	}
	return best, e
}

func topRank(v *Term) int {
	switch v.op {
	case "wrap":
		return 3
	case "sym":
		if isWrapK(v) {
			return 0
		}
		return 1
	}
	return 2
}

// tighten removes trivial constraints and finds immediate contradictions.
func (p *problem) tighten() bool {
	seen := map[*Term]bool{}
	var out [][]Mono
	for _, ms := range p.ge {
		t := polyTerm(ms)
		if c := t.constVal(); c != nil {
			if c.Sign() < 0 {
				return false
			}
			continue
		}
		g, _ := coefGcd(t)
		if g.Cmp(big1) > 0 {
			acc := newAcc()
			for _, m := range monos(t) {
				acc.add(new(big.Int).Div(m.c, g), m.vars)
			}
			t = acc.term()
		}
		if seen[t] {
			continue
		}
		seen[t] = true
		out = append(out, monos(t))
	}
	p.ge = out
	var ne [][]Mono
	for _, ms := range p.ne {
		t := polyTerm(ms)
		if c := t.constVal(); c != nil {
			if c.Sign() == 0 {
				return false
			}
			continue
		}
		ne = append(ne, ms)
	}
	p.ne = ne
	return p.peel()
}

// unary: the constraint c*v + d on one variable, with c = ±1.
func unary(ms []Mono) (v *Term, c, d *big.Int) {
	d = big0
	for _, m := range ms {
		switch {
		case len(m.vars) == 0:
			d = m.c
		case len(m.vars) == 1 && v == nil && m.c.IsInt64() && (m.c.Int64() == 1 || m.c.Int64() == -1):
			v, c = m.vars[0], m.c
		default:
			return nil, nil, nil
		}
	}
	return
}

// peel moves the bounds of variables past the values that they do not have.
func (p *problem) peel() bool {
	not := map[*Term]map[string]bool{}
	for _, ms := range p.ne {
		if v, c, d := unary(ms); v != nil {
			if not[v] == nil {
				not[v] = map[string]bool{}
			}
			x := new(big.Int).Neg(d)
			not[v][x.Mul(x, c).String()] = true
		}
	}
	if len(not) == 0 {
		return true
	}
	lo, hi := map[*Term]*big.Int{}, map[*Term]*big.Int{}
	for v := range not {
		lo[v], hi[v] = v.lo, v.hi
	}
	for _, ms := range p.ge {
		v, c, d := unary(ms)
		if v == nil || not[v] == nil {
			continue
		}
		if c.Sign() > 0 {
			if x := new(big.Int).Neg(d); lo[v] == nil || x.Cmp(lo[v]) > 0 {
				lo[v] = x
			}
		} else if hi[v] == nil || d.Cmp(hi[v]) < 0 {
			hi[v] = d
		}
	}
	var vs []*Term
	for v := range not {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
	for _, v := range vs {
		no := not[v]
		l, h, moved := lo[v], hi[v], false
		for l != nil && no[l.String()] {
			l, moved = new(big.Int).Add(l, big1), true
		}
		if moved {
			p.ge = append(p.ge, monos(mkSub(v, mkConst(l))))
		}
		moved = false
		for h != nil && no[h.String()] {
			h, moved = new(big.Int).Sub(h, big1), true
		}
		if moved {
			p.ge = append(p.ge, monos(mkSub(mkConst(h), v)))
		}
		if l != nil && h != nil && l.Cmp(h) > 0 {
			return false
		}
		// what is beyond the bounds says nothing any more
		if l != lo[v] || h != hi[v] {
			var ne [][]Mono
			for _, ms := range p.ne {
				if w, c, d := unary(ms); w == v {
					x := new(big.Int).Neg(d)
					x.Mul(x, c)
					if l != nil && x.Cmp(l) < 0 || h != nil && x.Cmp(h) > 0 {
						continue
					}
				}
				ne = append(ne, ms)
			}
			p.ne = ne
		}
	}
	return true
}

func (p *problem) nonlinear() bool {
	for _, l := range [][][]Mono{p.ge, p.eq} {
		for _, ms := range l {
			for _, m := range ms {
				if len(m.vars) > 1 {
					return true
				}
			}
		}
	}
	return false
}

func (p *problem) nlFactors() []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	for _, l := range [][][]Mono{p.ge, p.eq} {
		for _, ms := range l {
			for _, m := range ms {
				if len(m.vars) > 1 {
					for _, v := range m.vars {
						if !seen[v] {
							seen[v] = true
							out = append(out, v)
						}
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (p *problem) signKnown(v *Term) (nonneg, nonpos bool) {
	if v.lo != nil && v.lo.Sign() >= 0 {
		return true, false
	}
	for _, ms := range p.ge {
		var c, d *big.Int = nil, big0
		ok := true
		for _, m := range ms {
			if len(m.vars) == 0 {
				d = m.c
			} else if len(m.vars) == 1 && m.vars[0] == v && c == nil {
				c = m.c
			} else {
				ok = false
			}
		}
		if !ok || c == nil {
			continue
		}
		// c*v + d >= 0
		if c.Sign() > 0 && d.Sign() <= 0 {
			nonneg = true
		}
		if c.Sign() < 0 && d.Sign() <= 0 {
			nonpos = true
		}
	}
	return
}

// products multiplies pairs of linear constraints when that yields only
// monomials that occur.
func (p *problem) products() [][]Mono {
	nl := map[string]bool{}
	fac := map[*Term]bool{}
	for _, l := range [][][]Mono{p.ge, p.eq} {
		for _, ms := range l {
			for _, m := range ms {
				if len(m.vars) > 1 {
					nl[monoKey(m.vars)] = true
					for _, v := range m.vars {
						fac[v] = true
					}
				}
			}
		}
	}
	var cand [][]Mono
	for _, ms := range p.ge {
		use, linear := false, true
		for _, m := range ms {
			if len(m.vars) > 1 {
				linear = false
			}
			for _, v := range m.vars {
				if fac[v] {
					use = true
				}
			}
		}
		if use && linear && len(ms) <= 5 {
			cand = append(cand, ms)
		}
	}
	if len(cand) > 60 {
		cand = cand[:60]
	}
	var out [][]Mono
	for round := 0; round < 2; round++ {
		out = nil
		fresh := map[string]bool{}
		for i := range cand {
			for j := i; j < len(cand); j++ {
				t := mkMul(polyTerm(cand[i]), polyTerm(cand[j]))
				ok, miss := true, ""
				nmiss := 0
				for _, m := range monos(t) {
					if len(m.vars) > 1 && !nl[monoKey(m.vars)] {
						ok = false
						miss = monoKey(m.vars)
						nmiss++
					}
				}
				if ok {
					out = append(out, monos(t))
				} else if nmiss == 1 {
					fresh[miss] = true
				}
			}
		}
		if round == 0 {
			if len(fresh) == 0 || len(fresh) > 12 {
				break
			}
			for k := range fresh {
				nl[k] = true
			}
		}
	}
	return out
}

// intSyms: the plain integer unknowns that the arithmetic facts are about.
func (pc *PC) intSyms() []*Term {
	pc.prep()
	var out []*Term
	seen := map[*Term]bool{}
	for a := range pc.lits {
		if a.op != "ge0" && a.op != "eq0" {
			continue
		}
		for _, m := range monos(a.args[0]) {
			for _, v := range m.vars {
				if v.op == "sym" && !seen[v] && !isFreshName(v.name) && !strings.Contains(v.name, ".") {
					seen[v] = true
					out = append(out, v)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	if len(out) > 4 {
		out = out[:4]
	}
	return out
}
