package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
)

// Terms are hash-consed: two terms are equal iff they are the same pointer.
//
// Sorts: KInt (mathematical integers), KBool, KOther (everything else).
// Boolean terms are kept as reduced ordered decision diagrams over atoms
// ("ite" nodes ordered by the atom's id), other terms that depend on a
// condition as decision diagrams with terms at the leaves.
type Kind uint8

const (
	KInt Kind = iota
	KBool
	KOther
)

type Term struct {
	id     int
	op     string
	name   string
	args   []*Term
	poly   []Mono     // op "poly"
	typ    types.Type // type of symbols, applications and aggregates
	kind   Kind
	lo, hi *big.Int // range of an integer atom (nil: unbounded)
	bh     int      // greatest height of a binder inside (including itself)
	bvh    int      // binder terms: own height
	nb     int      // binder terms: number of trailing args under the binder
	fv     bool     // contains a bound variable that is free in it
}

type Mono struct {
	c    *big.Int
	vars []*Term // sorted by id; empty for the constant
}

var terms = map[string]*Term{}
var termList []*Term

// expired: the time for the current probe is over.
var expired atomic.Bool

func intern(key string, mk func() *Term) *Term {
	if expired.Load() {
		panic(undecided{"out of time"})
	}
	if t, ok := terms[key]; ok {
		return t
	}
	t := mk()
	t.id = len(termList)
	termList = append(termList, t)
	terms[key] = t
	for _, a := range t.args {
		if a.bh > t.bh {
			t.bh = a.bh
		}
	}
	for _, m := range t.poly {
		for _, v := range m.vars {
			if v.bh > t.bh {
				t.bh = v.bh
			}
		}
	}
	if t.nb > 0 && t.bvh > t.bh {
		t.bh = t.bvh
	}
	return t
}

func idKey(ts []*Term) string {
	var b strings.Builder
	for _, t := range ts {
		b.WriteString(strconv.Itoa(t.id))
		b.WriteByte(',')
	}
	return b.String()
}

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

// mk makes a plain (non-normalising) node.
func mk(op, name string, kind Kind, typ types.Type, args ...*Term) *Term {
	key := op + "|" + name + "|" + typeKey(typ) + "|" + strconv.Itoa(int(kind)) + "|" + idKey(args)
	return intern(key, func() *Term {
		t := &Term{op: op, name: name, args: append([]*Term(nil), args...), kind: kind, typ: typ}
		if kind == KInt && typ != nil {
			t.lo, t.hi = typeRange(typ)
		}
		return t
	})
}

// ---------------------------------------------------------------- sorts

type intInfo struct {
	w      uint
	signed bool
}

// intType returns the width of a machine integer type. The type named
// saInt of the probes is the mathematical integers (ok, w==0).
func intType(t types.Type) (intInfo, bool) {
	if n, ok := t.(*types.Named); ok && n.Obj().Name() == "saInt" {
		return intInfo{}, true
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intInfo{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intInfo{64, true}, true
	case types.Int8:
		return intInfo{8, true}, true
	case types.Int16:
		return intInfo{16, true}, true
	case types.Int32, types.UntypedRune:
		return intInfo{32, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intInfo{64, false}, true
	case types.Uint8:
		return intInfo{8, false}, true
	case types.Uint16:
		return intInfo{16, false}, true
	case types.Uint32:
		return intInfo{32, false}, true
	}
	return intInfo{}, false
}

func (i intInfo) rng() (*big.Int, *big.Int) {
	if i.w == 0 {
		return nil, nil
	}
	if i.signed {
		m := new(big.Int).Lsh(big.NewInt(1), i.w-1)
		return new(big.Int).Neg(m), new(big.Int).Sub(m, big.NewInt(1))
	}
	m := new(big.Int).Lsh(big.NewInt(1), i.w)
	return big.NewInt(0), m.Sub(m, big.NewInt(1))
}

func typeRange(t types.Type) (*big.Int, *big.Int) {
	if i, ok := intType(t); ok {
		return i.rng()
	}
	return nil, nil
}

func kindOf(t types.Type) Kind {
	if _, ok := intType(t); ok {
		return KInt
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		return KBool
	}
	return KOther
}

// ---------------------------------------------------------------- symbols

var symCount = map[string]int{}

// mkSym is the symbol of that name (the same one every time).
func mkSym(name string, typ types.Type) *Term {
	k := KOther
	if typ != nil {
		k = kindOf(typ)
	}
	return mk("sym", name, k, typ)
}

func freshSym(prefix string, typ types.Type) *Term {
	symCount[prefix]++
	return mkSym(fmt.Sprintf("%s'%d", prefix, symCount[prefix]), typ)
}

// mkNat is an integer symbol in [lo, hi] (nil: unbounded), named uniquely.
func freshInt(prefix string, lo, hi *big.Int) *Term {
	symCount[prefix]++
	t := mk("sym", fmt.Sprintf("%s'%d", prefix, symCount[prefix]), KInt, nil)
	t.lo, t.hi = lo, hi
	return t
}

var maxLen = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 62), big.NewInt(1))

func app(name string, typ types.Type, args ...*Term) *Term {
	k := KOther
	if typ != nil {
		k = kindOf(typ)
	}
	return mk("app", name, k, typ, args...)
}

func appInt(name string, lo, hi *big.Int, args ...*Term) *Term {
	t := mk("app", name, KInt, nil, args...)
	t.lo, t.hi = lo, hi
	return t
}

// ---------------------------------------------------------------- integers

func isInt(t *Term) bool { return t.kind == KInt }

func mkConst(n *big.Int) *Term {
	if n.Sign() == 0 {
		return polyTerm(nil)
	}
	return polyTerm([]Mono{{c: n}})
}
func intConst(n int64) *Term { return mkConst(big.NewInt(n)) }

func (t *Term) constVal() *big.Int {
	if t.op != "poly" {
		return nil
	}
	if len(t.poly) == 0 {
		return big.NewInt(0)
	}
	if len(t.poly) == 1 && len(t.poly[0].vars) == 0 {
		return t.poly[0].c
	}
	return nil
}

func (t *Term) isConst(n int64) bool {
	v := t.constVal()
	return v != nil && v.IsInt64() && v.Int64() == n
}

// monos views an integer term without decision nodes as a polynomial.
func monos(t *Term) []Mono {
	if t.op == "poly" {
		return t.poly
	}
	return []Mono{{c: big1, vars: []*Term{t}}}
}

var big0 = big.NewInt(0)
var big1 = big.NewInt(1)

func monoKey(vs []*Term) string { return idKey(vs) }

func monoLess(a, b []*Term) bool {
	if len(a) != len(b) {
		return len(a) > len(b)
	}
	for i := range a {
		if a[i].id != b[i].id {
			return a[i].id < b[i].id
		}
	}
	return false
}

func polyTerm(ms []Mono) *Term {
	if len(ms) == 1 && len(ms[0].vars) == 1 && ms[0].c.Cmp(big1) == 0 {
		return ms[0].vars[0]
	}
	var b strings.Builder
	b.WriteString("poly|")
	for _, m := range ms {
		b.WriteString(m.c.String())
		b.WriteByte('*')
		b.WriteString(monoKey(m.vars))
		b.WriteByte('+')
	}
	return intern(b.String(), func() *Term { return &Term{op: "poly", poly: ms, kind: KInt} })
}

type polyAcc struct {
	m map[string]*Mono
}

func newAcc() *polyAcc { return &polyAcc{m: map[string]*Mono{}} }
func (p *polyAcc) add(c *big.Int, vars []*Term) {
	if c.Sign() == 0 {
		return
	}
	k := monoKey(vars)
	if e, ok := p.m[k]; ok {
		e.c = new(big.Int).Add(e.c, c)
	} else {
		p.m[k] = &Mono{c: c, vars: vars}
	}
}
func (p *polyAcc) addPoly(c *big.Int, ms []Mono) {
	for _, m := range ms {
		p.add(new(big.Int).Mul(c, m.c), m.vars)
	}
}
func (p *polyAcc) list() []Mono {
	var r []Mono
	for _, m := range p.m {
		if m.c.Sign() != 0 {
			r = append(r, *m)
		}
	}
	sort.Slice(r, func(i, j int) bool { return monoLess(r[i].vars, r[j].vars) })
	return r
}
func (p *polyAcc) term() *Term { return polyTerm(p.list()) }

func isIte(t *Term) bool { return t.op == "ite" }

func lift1(a *Term, f func(*Term) *Term) *Term {
	if isIte(a) {
		return mkIte(a.args[0], lift1(a.args[1], f), lift1(a.args[2], f))
	}
	return f(a)
}

func lift2(a, b *Term, f func(a, b *Term) *Term) *Term {
	if !isIte(a) && !isIte(b) {
		return f(a, b)
	}
	at := topAtom(a, b)
	return mkIte(at, lift2(cof(a, at, true), cof(b, at, true), f), lift2(cof(a, at, false), cof(b, at, false), f))
}

func topAtom(ts ...*Term) *Term {
	var r *Term
	for _, t := range ts {
		var a *Term
		if isIte(t) {
			a = t.args[0]
		}
		if a != nil && (r == nil || a.id < r.id) {
			r = a
		}
	}
	return r
}

// cof is the cofactor of t for atom at (which is not below its top atom).
func cof(t, at *Term, v bool) *Term {
	if isIte(t) && t.args[0] == at {
		if v {
			return t.args[1]
		}
		return t.args[2]
	}
	if t == at {
		return mkBool(v)
	}
	return t
}

func mkAdd(a, b *Term) *Term {
	if x := a.constVal(); x != nil {
		if x.Sign() == 0 {
			return b
		}
		if y := b.constVal(); y != nil {
			return mkConst(new(big.Int).Add(x, y))
		}
	} else if y := b.constVal(); y != nil && y.Sign() == 0 {
		return a
	}
	return lift2(a, b, func(a, b *Term) *Term {
		acc := newAcc()
		acc.addPoly(big1, monos(a))
		acc.addPoly(big1, monos(b))
		return acc.term()
	})
}

func mkScale(c *big.Int, a *Term) *Term {
	if x := a.constVal(); x != nil {
		return mkConst(new(big.Int).Mul(c, x))
	}
	return lift1(a, func(a *Term) *Term {
		acc := newAcc()
		acc.addPoly(c, monos(a))
		return acc.term()
	})
}
func mkNeg(a *Term) *Term    { return mkScale(big.NewInt(-1), a) }
func mkSub(a, b *Term) *Term { return mkAdd(a, mkNeg(b)) }
func mkAddK(a *Term, k int64) *Term {
	return mkAdd(a, intConst(k))
}

func mulVars(a, b []*Term) []*Term {
	r := append(append([]*Term(nil), a...), b...)
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func mkMul(a, b *Term) *Term {
	return lift2(a, b, func(a, b *Term) *Term {
		acc := newAcc()
		for _, x := range monos(a) {
			for _, y := range monos(b) {
				acc.add(new(big.Int).Mul(x.c, y.c), mulVars(x.vars, y.vars))
			}
		}
		return acc.term()
	})
}

func pow2(w uint) *big.Int { return new(big.Int).Lsh(big1, w) }

// modSym reduces c modulo 2^w into (-2^(w-1), 2^(w-1)].
func modSym(c *big.Int, w uint) *big.Int {
	m := pow2(w)
	r := new(big.Int).Mod(c, m)
	h := pow2(w - 1)
	if r.Cmp(h) > 0 {
		r.Sub(r, m)
	}
	return r
}

// mkWrap is p reduced modulo 2^w into the range of the type.
func mkWrap(p *Term, ii intInfo) *Term {
	if ii.w == 0 {
		return p
	}
	return lift1(p, func(p *Term) *Term {
		lo, hi := ii.rng()
		if in, _ := inRange(p, lo, hi); in {
			return p
		}
		acc := newAcc()
		stripMod(acc, big1, monos(p), ii.w)
		red := newAcc()
		for _, m := range acc.list() {
			red.add(modSym(m.c, ii.w), m.vars)
		}
		q := red.term()
		if in, _ := inRange(q, lo, hi); in {
			return q
		}
		if c := q.constVal(); c != nil {
			r := new(big.Int).Mod(c, pow2(ii.w))
			if r.Cmp(hi) > 0 {
				r.Sub(r, pow2(ii.w))
			}
			return mkConst(r)
		}
		if ms := monos(q); !ii.signed && len(ms) == 1 && len(ms[0].vars) == 1 && ms[0].c.Cmp(big.NewInt(-1)) == 0 {
			// the complement of a number is short of 2^w, but for that of 0
			if x := ms[0].vars[0]; x.lo != nil && x.hi != nil && x.lo.Sign() >= 0 && x.hi.Cmp(hi) <= 0 {
				return mkIte(mkEq0(x), intConst(0), mkSub(mkConst(pow2(ii.w)), x))
			}
		}
		name := fmt.Sprintf("%d%v", ii.w, ii.signed)
		t := mk("wrap", name, KInt, nil, q)
		t.lo, t.hi = lo, hi
		return t
	})
}

func wrapInfo(t *Term) intInfo {
	var w uint
	var s bool
	fmt.Sscanf(t.name, "%d", &w)
	s = strings.HasSuffix(t.name, "true")
	return intInfo{w, s}
}

// stripMod adds c*ms to acc, replacing wraps of at least width w by their
// argument (they are congruent modulo 2^w).
func stripMod(acc *polyAcc, c *big.Int, ms []Mono, w uint) {
	for _, m := range ms {
		cc := new(big.Int).Mul(c, m.c)
		strip := -1
		// the power of two in the coefficient lowers the width that is needed
		tz := uint(0)
		if cc.Sign() != 0 {
			tz = new(big.Int).Abs(cc).TrailingZeroBits()
		}
		if tz >= w {
			continue
		}
		for i, v := range m.vars {
			if v.op == "wrap" && wrapInfo(v).w+tz >= w {
				strip = i
				break
			}
		}
		if strip < 0 {
			acc.add(cc, m.vars)
			continue
		}
		rest := append(append([]*Term(nil), m.vars[:strip]...), m.vars[strip+1:]...)
		var prod []Mono
		for _, x := range monos(m.vars[strip].args[0]) {
			prod = append(prod, Mono{x.c, mulVars(x.vars, rest)})
		}
		stripMod(acc, cc, prod, w)
	}
}

// bounds is the interval of p from the ranges of its atoms.
func bounds(p *Term) (lo, hi *big.Int) {
	if isIte(p) {
		l1, h1 := bounds(p.args[1])
		l2, h2 := bounds(p.args[2])
		if l1 != nil && l2 != nil {
			lo = bigMin(l1, l2)
		}
		if h1 != nil && h2 != nil {
			hi = bigMax(h1, h2)
		}
		return
	}
	lo, hi = big.NewInt(0), big.NewInt(0)
	for _, m := range monos(p) {
		ml, mh := big1, big1
		for _, v := range m.vars {
			ml, mh = mulIv(ml, mh, v.lo, v.hi)
		}
		if len(m.vars) == 2 && m.vars[0] == m.vars[1] && (ml == nil || ml.Sign() < 0) {
			ml = big0
		}
		if m.c.Sign() < 0 {
			ml, mh = mh, ml
		}
		if lo != nil {
			if ml == nil {
				lo = nil
			} else {
				lo = new(big.Int).Add(lo, new(big.Int).Mul(m.c, ml))
			}
		}
		if hi != nil {
			if mh == nil {
				hi = nil
			} else {
				hi = new(big.Int).Add(hi, new(big.Int).Mul(m.c, mh))
			}
		}
	}
	return
}

func mulIv(al, ah, bl, bh *big.Int) (*big.Int, *big.Int) {
	if al == nil || ah == nil || bl == nil || bh == nil {
		if al != nil && bl != nil && al.Sign() >= 0 && bl.Sign() >= 0 {
			return new(big.Int).Mul(al, bl), nil
		}
		return nil, nil
	}
	var lo, hi *big.Int
	for _, x := range []*big.Int{al, ah} {
		for _, y := range []*big.Int{bl, bh} {
			p := new(big.Int).Mul(x, y)
			if lo == nil || p.Cmp(lo) < 0 {
				lo = p
			}
			if hi == nil || p.Cmp(hi) > 0 {
				hi = p
			}
		}
	}
	return lo, hi
}

func bigMin(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func bigMax(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func inRange(p *Term, lo, hi *big.Int) (in, out bool) {
	l, h := bounds(p)
	in = l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0
	return in, false
}

// mkFdiv is floor(p / c) for a constant c > 0.
func mkFdiv(p *Term, c *big.Int) *Term {
	if c.Cmp(big1) == 0 {
		return p
	}
	return lift1(p, func(p *Term) *Term {
		out, rest := newAcc(), newAcc()
		for _, m := range monos(p) {
			q, r := new(big.Int).DivMod(m.c, c, new(big.Int))
			if len(m.vars) > 0 && r.Sign() != 0 {
				// keep the coefficient whole, unless it is a multiple
				rest.add(m.c, m.vars)
				continue
			}
			out.add(q, m.vars)
			rest.add(r, m.vars)
		}
		r := rest.term()
		if v := r.constVal(); v != nil {
			out.add(new(big.Int).Div(v, c), nil)
			return out.term()
		}
		// common factor of the coefficients and c
		g := new(big.Int).Set(c)
		for _, m := range r.poly2() {
			if len(m.vars) > 0 {
				g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
			}
		}
		if g.Cmp(big1) > 0 {
			// floor((g*x + k)/(g*c')) = floor((x + floor(k/g))/c')
			acc := newAcc()
			for _, m := range r.poly2() {
				acc.add(new(big.Int).Div(m.c, g), m.vars)
			}
			return mkAdd(out.term(), mkFdiv(acc.term(), new(big.Int).Div(c, g)))
		}
		// floor(floor(x/a)/c) = floor(x/(a c)); (floor(x/a)+k)/c = floor((x+ka)/(ac))
		ms := r.poly2()
		var inner *Term
		k := big0
		ok := true
		for _, m := range ms {
			if len(m.vars) == 0 {
				k = m.c
			} else if len(m.vars) == 1 && m.c.Cmp(big1) == 0 && m.vars[0].op == "fdiv" && inner == nil {
				inner = m.vars[0]
			} else {
				ok = false
			}
		}
		if ok && inner != nil {
			a := inner.args[1].constVal()
			x := mkAdd(inner.args[0], mkConst(new(big.Int).Mul(k, a)))
			return mkAdd(out.term(), mkFdiv(x, new(big.Int).Mul(a, c)))
		}
		lo, hi := bounds(r)
		if lo != nil && hi != nil {
			l, h := new(big.Int).Div(lo, c), new(big.Int).Div(hi, c)
			if l.Cmp(h) == 0 {
				out.add(l, nil)
				return out.term()
			}
			lo, hi = l, h
		} else {
			if lo != nil {
				lo = new(big.Int).Div(lo, c)
			}
			if hi != nil {
				hi = new(big.Int).Div(hi, c)
			}
		}
		t := mk("fdiv", "", KInt, nil, r, mkConst(c))
		t.lo, t.hi = lo, hi
		return mkAdd(out.term(), t)
	})
}

func (t *Term) poly2() []Mono { return monos(t) }

// mkQuo is the quotient of a and b truncated towards zero.
func mkQuo(a, b *Term) *Term {
	return lift2(a, b, func(a, b *Term) *Term {
		ca, cb := a.constVal(), b.constVal()
		if cb != nil && cb.Sign() != 0 {
			if ca != nil {
				return mkConst(new(big.Int).Quo(ca, cb))
			}
			if cb.Cmp(big1) == 0 {
				return a
			}
			if cb.IsInt64() && cb.Int64() == -1 {
				return mkNeg(a)
			}
			exact := true
			for _, m := range monos(a) {
				if new(big.Int).Rem(m.c, cb).Sign() != 0 {
					exact = false
				}
			}
			if exact {
				acc := newAcc()
				for _, m := range monos(a) {
					acc.add(new(big.Int).Quo(m.c, cb), m.vars)
				}
				return acc.term()
			}
			if lo, _ := bounds(a); cb.Sign() > 0 && lo != nil && lo.Sign() >= 0 {
				return mkFdiv(a, cb)
			}
		}
		if ca != nil && ca.Sign() == 0 {
			return a
		}
		if a == b {
			return intConst(1)
		}
		if _, hi := bounds(a); hi != nil && hi.Sign() <= 0 {
			return mkNeg(mkQuo(mkNeg(a), b))
		}
		if _, hi := bounds(b); hi != nil && hi.Sign() < 0 {
			return mkNeg(mkQuo(a, mkNeg(b)))
		}
		t := mk("quo", "", KInt, nil, a, b)
		if t.lo == nil {
			lo, hi := bounds(a)
			if lo != nil && hi != nil {
				m := bigMax(new(big.Int).Abs(lo), new(big.Int).Abs(hi))
				t.lo, t.hi = new(big.Int).Neg(m), m
				blo, bhi := bounds(b)
				if lo.Sign() >= 0 && blo != nil && blo.Sign() >= 0 {
					t.lo = big0
				}
				_ = bhi
			}
		}
		return t
	})
}

func mkRem(a, b *Term) *Term { return mkSub(a, mkMul(b, mkQuo(a, b))) }

// ---------------------------------------------------------------- booleans

var tTrue = mk("true", "", KBool, nil)
var tFalse = mk("false", "", KBool, nil)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func isTrue(t *Term) bool  { return t == tTrue }
func isFalse(t *Term) bool { return t == tFalse }

func node(a, t, e *Term) *Term {
	if t == e {
		return t
	}
	if t == tTrue && e == tFalse {
		return a
	}
	return mk("ite", "", t.kind, nil, a, t, e)
}

type iteKey struct{ c, x, y int }

var iteMemo = map[iteKey]*Term{}

func boolTop(t *Term) *Term {
	if isIte(t) {
		return t.args[0]
	}
	if t.kind == KBool && t != tTrue && t != tFalse {
		return t
	}
	return nil
}

// mkIte: c is a decision diagram over atoms.
func mkIte(c, x, y *Term) *Term {
	if c == tTrue || x == y {
		return x
	}
	if c == tFalse {
		return y
	}
	if x == tTrue && y == tFalse {
		return c
	}
	if x.op == y.op {
		switch x.op {
		case "struct", "tuple", "iface", "box":
			if len(x.args) == len(y.args) && types.Identical(orNil(x.typ), orNil(y.typ)) && x.name == y.name {
				args := make([]*Term, len(x.args))
				for i := range args {
					args[i] = mkIte(c, x.args[i], y.args[i])
				}
				return mk(x.op, x.name, x.kind, x.typ, args...)
			}
		case "slice":
			if x.args[0] == y.args[0] {
				return mkSlice(x.args[0], mkIte(c, x.args[1], y.args[1]), mkIte(c, x.args[2], y.args[2]), mkIte(c, x.args[3], y.args[3]))
			}
		}
	}
	k := iteKey{c.id, x.id, y.id}
	if r, ok := iteMemo[k]; ok {
		return r
	}
	var at *Term
	for _, t := range []*Term{boolTop(c), boolTop(x), boolTop(y)} {
		if t != nil && (at == nil || t.id < at.id) {
			at = t
		}
	}
	r := node(at, mkIte(cof(c, at, true), cof(x, at, true), cof(y, at, true)),
		mkIte(cof(c, at, false), cof(x, at, false), cof(y, at, false)))
	iteMemo[k] = r
	return r
}

func orNil(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.UntypedNil]
	}
	return t
}

func mkNot(a *Term) *Term    { return mkIte(a, tFalse, tTrue) }
func mkAnd(a, b *Term) *Term { return mkIte(a, b, tFalse) }
func mkOr(a, b *Term) *Term  { return mkIte(a, tTrue, b) }

// mkGe0 is p >= 0.
// bitGe0 decides the sign of a bit operation on signed numbers, or of what
// complements it, from the signs of its operands.
func bitGe0(p *Term) *Term {
	neg := leadNeg(p)
	q := p
	if neg {
		q = mkAddK(mkNeg(p), -1) // p >= 0  iff  not (q >= 0)
	}
	if q.op != "app" || !strings.HasPrefix(q.name, "bit") || q.lo != nil && q.lo.Sign() >= 0 {
		return nil
	}
	x, y := mkGe0(q.args[0]), mkGe0(q.args[1])
	var r *Term
	switch {
	case strings.HasPrefix(q.name, "bit&^"):
		r = mkOr(x, mkNot(y))
	case strings.HasPrefix(q.name, "bit&"):
		r = mkOr(x, y)
	case strings.HasPrefix(q.name, "bit|"):
		r = mkAnd(x, y)
	case strings.HasPrefix(q.name, "bit^"):
		r = mkOr(mkAnd(x, y), mkAnd(mkNot(x), mkNot(y)))
	default:
		return nil
	}
	if neg {
		return mkNot(r)
	}
	return r
}

func mkGe0(p *Term) *Term {
	return lift1(p, func(p *Term) *Term {
		if c := p.constVal(); c != nil {
			return mkBool(c.Sign() >= 0)
		}
		lo, hi := bounds(p)
		if lo != nil && lo.Sign() >= 0 {
			return tTrue
		}
		if hi != nil && hi.Sign() < 0 {
			return tFalse
		}
		// divide by the gcd of the coefficients, rounding the constant
		g := big.NewInt(0)
		for _, m := range monos(p) {
			if len(m.vars) > 0 {
				g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
			}
		}
		if g.Cmp(big1) > 0 {
			acc := newAcc()
			for _, m := range monos(p) {
				acc.add(new(big.Int).Div(m.c, g), m.vars)
			}
			p = acc.term()
		}
		// b >= 1 is b != 0 for a bound position b
		if ms := monos(p); len(ms) == 2 && lo != nil && lo.IsInt64() && lo.Int64() == -1 {
			q := mkAddK(p, 1)
			if q.op == "bv" {
				return mkNot(mkEq0(q))
			}
		}
		if r := bitGe0(p); r != nil {
			return r
		}
		if leadNeg(p) {
			// p >= 0  iff  not (-p-1 >= 0)
			return mkNot(mk("ge0", "", KBool, nil, mkAddK(mkNeg(p), -1)))
		}
		return mk("ge0", "", KBool, nil, p)
	})
}

func leadNeg(p *Term) bool {
	ms := monos(p)
	for _, m := range ms {
		if len(m.vars) > 0 {
			return m.c.Sign() < 0
		}
	}
	return false
}

func mkGe(a, b *Term) *Term { return mkGe0(mkSub(a, b)) }
func mkLe(a, b *Term) *Term { return mkGe0(mkSub(b, a)) }
func mkLt(a, b *Term) *Term { return mkGe0(mkAddK(mkSub(b, a), -1)) }
func mkGt(a, b *Term) *Term { return mkLt(b, a) }

// mkEq0 is p = 0.
func mkEq0(p *Term) *Term {
	return lift1(p, func(p *Term) *Term {
		if c := p.constVal(); c != nil {
			return mkBool(c.Sign() == 0)
		}
		lo, hi := bounds(p)
		if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return tFalse
		}
		g := big.NewInt(0)
		var k *big.Int = big0
		for _, m := range monos(p) {
			if len(m.vars) > 0 {
				g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
			} else {
				k = m.c
			}
		}
		if new(big.Int).Rem(k, g).Sign() != 0 {
			return tFalse
		}
		if leadNeg(p) {
			g.Neg(g)
		}
		if g.Cmp(big1) != 0 {
			acc := newAcc()
			for _, m := range monos(p) {
				acc.add(new(big.Int).Quo(m.c, g), m.vars)
			}
			p = acc.term()
		}
		return mk("eq0", "", KBool, nil, p)
	})
}

// mkEq is equality of two values of the same sort (Go ==).
func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.kind == KInt && b.kind == KInt {
		if x := a.constVal(); x != nil {
			if y := b.constVal(); y != nil {
				return mkBool(x.Cmp(y) == 0)
			}
		}
		return mkEq0(mkSub(a, b))
	}
	if a.kind == KBool && b.kind == KBool {
		return mkIte(a, b, mkNot(b))
	}
	if isIte(a) || isIte(b) {
		return lift2(a, b, mkEq)
	}
	switch {
	case a.op == "struct" && b.op == "struct" && len(a.args) == len(b.args):
		r := tTrue
		for i := range a.args {
			r = mkAnd(r, mkEq(a.args[i], b.args[i]))
		}
		return r
	case a.op == "str" && b.op == "str", a.op == "fconst" && b.op == "fconst":
		return mkBool(a.name == b.name)
	case a.op == "nil" && (b.op == "ptr" || b.op == "box" || b.op == "closure" || b.op == "fn" || b.op == "map" || b.op == "chan"),
		b.op == "nil" && (a.op == "ptr" || a.op == "box" || a.op == "closure" || a.op == "fn" || a.op == "map" || a.op == "chan"):
		return tFalse
	case a.op == "nil":
		return mkIsNil(b)
	case b.op == "nil":
		return mkIsNil(a)
	case a.op == "iface" && b.op == "niliface", b.op == "iface" && a.op == "niliface":
		return tFalse
	case a.op == "iface" && b.op == "iface":
		if !types.Identical(a.typ, b.typ) {
			return tFalse
		}
		return mkEq(a.args[0], b.args[0])
	case a.op == "niliface":
		return mkIsNil(b)
	case b.op == "niliface":
		return mkIsNil(a)
	case a.op == "slice" && b.op == "slice":
		return mk("eq", "", KBool, nil, a, b)
	case a.op == "ptr" && b.op == "ptr":
		if a.args[0] != b.args[0] && a.args[0].op == "obj" && b.args[0].op == "obj" {
			return tFalse
		}
		if a.args[0] == b.args[0] && len(a.args) == len(b.args) && len(a.args) > 1 {
			r := tTrue
			for i := 1; i < len(a.args); i++ {
				if a.args[i].op == "fld" || b.args[i].op == "fld" {
					if a.args[i] != b.args[i] {
						return tFalse
					}
					continue
				}
				r = mkAnd(r, mkEq(a.args[i], b.args[i]))
			}
			return r
		}
	}
	if isFreshObj(a) != nil && isSymPtr(b) || isFreshObj(b) != nil && isSymPtr(a) {
		return tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("eq", "", KBool, nil, a, b)
}

func isFreshObj(t *Term) *Term {
	if t.op == "ptr" && t.args[0].op == "obj" {
		return t.args[0]
	}
	return nil
}
func isSymPtr(t *Term) bool { return t.op == "sym" || t.op == "ptr" && t.args[0].op == "sym" }

// mkIsNil is whether a pointer, function, interface or map is nil.
func mkIsNil(p *Term) *Term {
	if isIte(p) {
		return lift1(p, mkIsNil)
	}
	switch p.op {
	case "nil", "niliface":
		return tTrue
	case "ptr", "box", "iface", "closure", "fn", "map", "chan", "err":
		return tFalse
	case "slice":
		return mkBool(p.args[0].op == "nil")
	}
	if nonNil[p] {
		return tFalse
	}
	return mk("isnil", "", KBool, nil, p)
}

// nonNil lists symbols that are known not to be nil.
var nonNil = map[*Term]bool{}

// ---------------------------------------------------------------- aggregates

func mkStruct(typ types.Type, fields ...*Term) *Term {
	return mk("struct", "", KOther, typ, fields...)
}
func mkTuple(xs ...*Term) *Term { return mk("tuple", "", KOther, nil, xs...) }

func mkSlice(obj, off, ln, cp *Term) *Term {
	return mk("slice", "", KOther, nil, obj, off, ln, cp)
}

var tNil = mk("nil", "", KOther, nil)
var tNilIface = mk("niliface", "", KOther, nil)

func mkStr(s string) *Term {
	return mk("str", s, KOther, types.Typ[types.String])
}

// mkCat concatenates strings.
func mkCat(xs ...*Term) *Term {
	var parts []*Term
	for i, x := range xs {
		if isIte(x) {
			// distribute the condition
			pre, post := mkCat(xs[:i]...), xs[i+1:]
			return lift1(x, func(l *Term) *Term {
				return mkCat(append([]*Term{pre, l}, post...)...)
			})
		}
		if x.op == "strcat" {
			parts = append(parts, x.args...)
		} else {
			parts = append(parts, x)
		}
	}
	var out []*Term
	for _, p := range parts {
		if p.op == "str" {
			if p.name == "" {
				continue
			}
			if n := len(out); n > 0 && out[n-1].op == "str" {
				out[n-1] = mkStr(out[n-1].name + p.name)
				continue
			}
		}
		out = append(out, p)
	}
	if len(out) == 0 {
		return mkStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("strcat", "", KOther, types.Typ[types.String], out...)
}

// ---------------------------------------------------------------- arrays

// Array contents: sym/app terms, azero, astore(A,i,v),
// aseg(A,lo,n | body): positions lo..lo+n-1 hold body(position-lo).

func mkStore(A, i, v *Term) *Term {
	if isIte(A) {
		return lift1(A, func(a *Term) *Term { return mkStore(a, i, v) })
	}
	if A.op == "astore" && A.args[1] == i {
		return mkStore(A.args[0], i, v)
	}
	if mkSel(A, i) == v {
		return A
	}
	// one more element behind a run of the same rule
	if A.op == "aseg" && mkAdd(A.args[1], A.args[2]) == i && instBody(A, 0, A.args[2]) == v {
		return binder("aseg", "", KOther, nil, []*Term{A.args[0], A.args[1], mkAddK(A.args[2], 1)}, A.bvh, A.args[3:])
	}
	return mk("astore", "", KOther, nil, A, i, v)
}

// elemTypes records the element type of array content symbols.
var arrElem = map[*Term]types.Type{}

func elemTypeOf(A *Term) types.Type {
	for A != nil {
		if t, ok := arrElem[A]; ok {
			return t
		}
		switch A.op {
		case "astore", "aseg", "afilt", "asort":
			A = A.args[0]
		case "ite":
			A = A.args[1]
		case "azero":
			return A.typ
		case "rec":
			return A.typ
		default:
			return A.typ
		}
	}
	return nil
}

// mkSel reads position i; layers that cannot be decided syntactically become
// conditions.
func mkSel(A, i *Term) *Term {
	if isIte(i) || isIte(A) {
		return lift2(A, i, mkSel)
	}
	switch A.op {
	case "azero":
		return zeroValue(A.typ)
	case "astore":
		return mkIte(mkEq(A.args[1], i), A.args[2], mkSel(A.args[0], i))
	case "aseg":
		lo, n := A.args[1], A.args[2]
		in := mkAnd(mkGe(i, lo), mkLt(i, mkAdd(lo, n)))
		if in == tFalse {
			return mkSel(A.args[0], i)
		}
		v := instBody(A, 0, mkSub(i, lo))
		if in == tTrue {
			return v
		}
		return mkIte(in, v, mkSel(A.args[0], i))
	case "afilt":
		// args: A, lo, n | P, v
		lo := A.args[1]
		cnt := countOf(A)
		in := mkAnd(mkGe(i, lo), mkLt(i, mkAdd(lo, cnt)))
		if in == tFalse {
			return mkSel(A.args[0], i)
		}
		et := elemTypeOf(A)
		key := binder("filtkey", "", KOther, nil, []*Term{A.args[2]}, A.bvh, A.args[3:])
		v := selValue("filt", et, key, mkSub(i, lo))
		return mkIte(in, v, mkSel(A.args[0], i))
	}
	if A.op == "app" && A.name == "bytesof" {
		if r := mkStrAt(A.args[0], i, types.Typ[types.Byte]); !(r.op == "app" && r.name == "strat") || runeWidth(r.args[0]) > 1 {
			return r
		}
	}
	et := elemTypeOf(A)
	return selValue("sel", et, A, i)
}

// countOf is the number of accepted elements of an afilt layer.
func countOf(A *Term) *Term {
	c := binder("count", "", KInt, nil, []*Term{A.args[2]}, A.bvh, A.args[3:4])
	c.lo = big0
	c.hi = maxLen
	return c
}

// selValue is the unknown element of an array, expanded for aggregates.
func selValue(op string, et types.Type, A, i *Term) *Term {
	if et != nil {
		if st, ok := et.Underlying().(*types.Struct); ok && !isOpaque(et) {
			fs := make([]*Term, st.NumFields())
			for f := range fs {
				fs[f] = selField(op, et, f, st.Field(f).Type(), A, i)
			}
			return mkStruct(et, fs...)
		}
	}
	k := KOther
	if et != nil {
		k = kindOf(et)
	}
	return mk(op, "", k, et, A, i)
}

func selField(op string, et types.Type, f int, ft types.Type, A, i *Term) *Term {
	if st, ok := ft.Underlying().(*types.Struct); ok && !isOpaque(ft) {
		fs := make([]*Term, st.NumFields())
		for g := range fs {
			fs[g] = selField(op, ft, f*100+g+1, st.Field(g).Type(), A, i)
		}
		return mkStruct(ft, fs...)
	}
	return mk(op, fmt.Sprintf("f%d", f), kindOf(ft), ft, A, i)
}

// isOpaque: the element types of the probes are uninterpreted.
func isOpaque(t types.Type) bool {
	if n, ok := t.(*types.Named); ok {
		return strings.HasPrefix(n.Obj().Name(), "saOpaque")
	}
	return false
}

func mkSeg(A, lo, n *Term, k *Term, body *Term) *Term {
	if n.isConst(0) {
		return A
	}
	if n.isConst(1) {
		return mkStore(A, lo, subst1(body, k, intConst(0)))
	}
	// merge with an adjacent layer that is the continuation of this one
	t := bindTerm("aseg", "", KOther, nil, []*Term{A, lo, n}, []*Term{k}, body)
	return t
}

// ---------------------------------------------------------------- binders

// Binder terms have their last nb args under a binder; the bound variables
// are bv(h,0..), h being 1 + the greatest height of a binder in the bodies.

func binder(op, name string, kind Kind, typ types.Type, args []*Term, h int, bodies []*Term) *Term {
	all := append(append([]*Term(nil), args...), bodies...)
	key := op + "|" + name + "|" + typeKey(typ) + "|" + strconv.Itoa(int(kind)) + "|" + strconv.Itoa(h) + "|" + strconv.Itoa(len(bodies)) + "|" + idKey(all)
	return intern(key, func() *Term {
		t := &Term{op: op, name: name, args: all, kind: kind, typ: typ, bvh: h, nb: len(bodies)}
		if kind == KInt && typ != nil {
			t.lo, t.hi = typeRange(typ)
		}
		return t
	})
}

// bindTerm abstracts the symbols vars in the bodies.
func bindTerm(op, name string, kind Kind, typ types.Type, args []*Term, vars []*Term, bodies ...*Term) *Term {
	h := 0
	for _, b := range bodies {
		if b.bh > h {
			h = b.bh
		}
	}
	h++
	m := map[*Term]*Term{}
	for j, v := range vars {
		// bound integers are the same variable only with the same lower bound
		suffix := ""
		if v.kind == KInt && v.lo != nil {
			suffix = ":" + v.lo.String()
		}
		bv := mk("bv", fmt.Sprintf("%d.%d%s", h, j, suffix), v.kind, v.typ)
		bv.fv = true
		if suffix != "" {
			bv.lo = v.lo
		}
		m[v] = bv
	}
	nb := make([]*Term, len(bodies))
	for i, b := range bodies {
		nb[i] = subst(b, m)
	}
	return binder(op, name, kind, typ, args, h, nb)
}

// instBodies instantiates the bodies of a binder term.
func instBodies(t *Term, vals ...*Term) []*Term {
	m := map[*Term]*Term{}
	bs := t.args[len(t.args)-t.nb:]
	for _, b := range bs {
		collectBV(b, t.bvh, m, vals, map[*Term]bool{})
	}
	r := make([]*Term, len(bs))
	for i, b := range bs {
		r[i] = subst(b, m)
	}
	return r
}

func instBody(t *Term, which int, vals ...*Term) *Term { return instBodies(t, vals...)[which] }

func collectBV(t *Term, h int, m map[*Term]*Term, vals []*Term, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == "bv" {
		var hh, j int
		fmt.Sscanf(t.name, "%d.%d", &hh, &j)
		if hh == h && j < len(vals) {
			m[t] = vals[j]
		}
		return
	}
	eachChild(t, func(c *Term) { collectBV(c, h, m, vals, seen) })
}

func eachChild(t *Term, f func(*Term)) {
	for _, a := range t.args {
		f(a)
	}
	for _, m := range t.poly {
		for _, v := range m.vars {
			f(v)
		}
	}
}

// ---------------------------------------------------------------- substitution

func subst1(t, from, to *Term) *Term { return subst(t, map[*Term]*Term{from: to}) }

func subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	return substMemo(t, m, map[*Term]*Term{})
}

func substMemo(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 && len(t.poly) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := substRaw(t, m, memo)
	memo[t] = r
	return r
}

func substRaw(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if t.op == "poly" {
		changed := false
		for _, mo := range t.poly {
			for _, v := range mo.vars {
				if substMemo(v, m, memo) != v {
					changed = true
				}
			}
		}
		if !changed {
			return t
		}
		r := intConst(0)
		for _, mo := range t.poly {
			p := mkConst(mo.c)
			for _, v := range mo.vars {
				p = mkMul(p, substMemo(v, m, memo))
			}
			r = mkAdd(r, p)
		}
		return r
	}
	if t.nb > 0 {
		na := len(t.args) - t.nb
		changed := false
		args := make([]*Term, na)
		for i := 0; i < na; i++ {
			args[i] = substMemo(t.args[i], m, memo)
			if args[i] != t.args[i] {
				changed = true
			}
		}
		// the bodies: the variables of this binder first become temporaries
		bvs := map[*Term]bool{}
		for _, b := range t.args[na:] {
			findBV(b, t.bvh, bvs, map[*Term]bool{})
		}
		n := 0
		for bv := range bvs {
			var hh, j int
			fmt.Sscanf(bv.name, "%d.%d", &hh, &j)
			if j+1 > n {
				n = j + 1
			}
		}
		if n == 0 {
			n = 1
		}
		tmps := make([]*Term, n)
		tm := map[*Term]*Term{}
		for bv := range bvs {
			var hh, j int
			fmt.Sscanf(bv.name, "%d.%d", &hh, &j)
			tmpCount++
			s := mk("sym", fmt.Sprintf("tmp#%d", tmpCount), bv.kind, bv.typ)
			s.lo, s.hi = bv.lo, bv.hi
			tmps[j] = s
			tm[bv] = s
		}
		for j := range tmps {
			if tmps[j] == nil {
				tmpCount++
				tmps[j] = mk("sym", fmt.Sprintf("tmp#%d", tmpCount), KOther, nil)
			}
		}
		bodies := make([]*Term, t.nb)
		for i := range bodies {
			b0 := t.args[na+i]
			b1 := b0
			if len(tm) > 0 {
				b1 = subst(b0, tm)
			}
			b2 := substMemo(b1, m, memo)
			bodies[i] = b2
			if b2 != b1 {
				changed = true
			}
		}
		if !changed {
			return t
		}
		return rebuildBinder(t, args, tmps, bodies)
	}
	changed := false
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = substMemo(a, m, memo)
		if args[i] != a {
			changed = true
		}
	}
	if !changed {
		return t
	}
	return rebuild(t, args)
}

var tmpCount int

func findBV(t *Term, h int, out map[*Term]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == "bv" {
		var hh int
		fmt.Sscanf(t.name, "%d.", &hh)
		if hh == h {
			out[t] = true
		}
		return
	}
	eachChild(t, func(c *Term) { findBV(c, h, out, seen) })
}

func rebuildBinder(t *Term, args []*Term, vars []*Term, bodies []*Term) *Term {
	switch t.op {
	case "aseg":
		return mkSeg(args[0], args[1], args[2], vars[0], bodies[0])
	case "forall":
		return mkForall(args[0], vars[0], bodies[0])
	case "smap":
		return mkSmap(args[0], vars[0], bodies[0])
	case "evloop":
		return mkEvLoop(args[0], vars[0], bodies[0])
	case "count":
		r := bindTerm(t.op, t.name, t.kind, t.typ, args, vars, bodies...)
		r.lo, r.hi = big0, maxLen
		return r
	case "first":
		r := bindTerm(t.op, t.name, t.kind, t.typ, args, vars, bodies...)
		r.lo, r.hi = big0, maxLen
		return r
	}
	return bindTerm(t.op, t.name, t.kind, t.typ, args, vars, bodies...)
}

// rebuild re-applies the normalising constructor.
func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "ite":
		return mkIte(a[0], a[1], a[2])
	case "ge0":
		return mkGe0(a[0])
	case "eq0":
		return mkEq0(a[0])
	case "eq":
		return mkEq(a[0], a[1])
	case "isnil":
		return mkIsNil(a[0])
	case "wrap":
		return mkWrap(a[0], wrapInfo(t))
	case "fdiv":
		return mkFdiv(a[0], a[1].constVal())
	case "quo":
		return mkQuo(a[0], a[1])
	case "sel", "filt":
		if t.op == "sel" {
			return lift2(a[0], a[1], func(A, i *Term) *Term {
				switch A.op {
				case "astore", "aseg", "afilt", "azero":
					return projectSel(mkSel(A, i), t)
				}
				return mk("sel", t.name, t.kind, t.typ, A, i)
			})
		}
		return lift2(a[0], a[1], func(A, i *Term) *Term { return mk(t.op, t.name, t.kind, t.typ, A, i) })
	case "astore":
		return mkStore(a[0], a[1], a[2])
	case "strcat":
		return mkCat(a...)
	case "evcat":
		return mkEvCat(a...)
	case "slice":
		return mkSlice(a[0], a[1], a[2], a[3])
	case "app":
		if f, ok := appRebuild[t.name]; ok {
			return f(t, a)
		}
		for _, x := range a {
			if isIte(x) && appLifts(t.name) {
				for i, y := range a {
					if isIte(y) {
						i := i
						return lift1(y, func(l *Term) *Term {
							b := append([]*Term(nil), a...)
							b[i] = l
							return rebuild(t, b)
						})
					}
				}
			}
		}
		if len(a) == 2 && a[0].id > a[1].id && symmetricApp(t.name) {
			a = []*Term{a[1], a[0]}
		}
		r := mk(t.op, t.name, t.kind, t.typ, a...)
		if t.kind == KInt && t.typ == nil {
			r.lo, r.hi = t.lo, t.hi
		}
		return r
	}
	r := mk(t.op, t.name, t.kind, t.typ, a...)
	if t.kind == KInt && t.typ == nil && r.lo == nil {
		r.lo, r.hi = t.lo, t.hi
	}
	return r
}

// symmetricApp: operators whose operands are kept in one order
func symmetricApp(name string) bool {
	return strings.HasPrefix(name, "f+:") || strings.HasPrefix(name, "f*:") ||
		strings.HasPrefix(name, "bit") && !strings.HasPrefix(name, "bit&^") && !strings.HasPrefix(name, "bit<<") && !strings.HasPrefix(name, "bit>>")
}

var appRebuild = map[string]func(t *Term, a []*Term) *Term{}

func appLifts(string) bool { return true }

// projectSel picks from an element value v the component that sel term t stood for.
func projectSel(v, t *Term) *Term {
	if t.name == "" {
		return v
	}
	var f int
	fmt.Sscanf(t.name, "f%d", &f)
	var path []int
	for f >= 100 {
		path = append([]int{f%100 - 1}, path...)
		f /= 100
	}
	path = append([]int{f}, path...)
	for _, p := range path {
		p := p
		v = lift1(v, func(v *Term) *Term {
			if v.op == "struct" {
				return v.args[p]
			}
			return app(fmt.Sprintf("field%d", p), t.typ, v)
		})
	}
	return v
}

// ---------------------------------------------------------------- quantified atoms

// mkForall: body holds for all k in [0,n).
func mkForall(n, k, body *Term) *Term {
	if isIte(n) {
		return lift1(n, func(n *Term) *Term { return mkForall(n, k, body) })
	}
	if c := n.constVal(); c != nil && c.Sign() <= 0 {
		return tTrue
	}
	if body == tTrue {
		return tTrue
	}
	if n.isConst(1) {
		return subst1(body, k, intConst(0))
	}
	if !occurs(body, k) {
		return mkOr(mkLe(n, intConst(0)), body)
	}
	// a body about the predecessors of the positions after the first one
	if subst1(body, k, intConst(0)) == tTrue {
		k1 := freshInt("b", big0, nil)
		if next := subst1(body, k, mkAddK(k1, 1)); len(atomsOf(next)) < len(atomsOf(body)) {
			return mkForall(mkAddK(n, -1), k1, next)
		}
	}
	return bindTerm("forall", "", KBool, nil, []*Term{n}, []*Term{k}, body)
}

func occurs(t, x *Term) bool {
	return occursMemo(t, x, map[*Term]bool{})
}
func occursMemo(t, x *Term, seen map[*Term]bool) bool {
	if t == x {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	r := false
	eachChild(t, func(c *Term) {
		if !r && occursMemo(c, x, seen) {
			r = true
		}
	})
	return r
}

func occursAny(t *Term, pred func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if pred(t) {
			return true
		}
		r := false
		eachChild(t, func(c *Term) {
			if !r && rec(c) {
				r = true
			}
		})
		return r
	}
	return rec(t)
}

// mkSmap is the concatenation of body(0)..body(n-1).
func mkSmap(n, k, body *Term) *Term {
	if c := n.constVal(); c != nil && c.Sign() <= 0 {
		return mkStr("")
	}
	if n.isConst(1) {
		return subst1(body, k, intConst(0))
	}
	if body.op == "str" && body.name == "" {
		return body
	}
	return bindTerm("smap", "", KOther, types.Typ[types.String], []*Term{n}, []*Term{k}, body)
}

// ---------------------------------------------------------------- effects

// Effect traces: evnil, evcat of ev(...) and evloop(n | body).

var evNil = mk("evcat", "", KOther, nil)

func mkEvCat(xs ...*Term) *Term {
	var out []*Term
	for _, x := range xs {
		if x.op == "evcat" {
			out = append(out, x.args...)
		} else {
			out = append(out, x)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("evcat", "", KOther, nil, out...)
}

func mkEvLoop(n, k, body *Term) *Term {
	if body == evNil || n.isConst(0) {
		return evNil
	}
	if n.isConst(1) {
		return subst1(body, k, intConst(0))
	}
	return bindTerm("evloop", "", KOther, nil, []*Term{n}, []*Term{k}, body)
}

// ---------------------------------------------------------------- printing

func (t *Term) String() string { return t.show(0) }

func (t *Term) show(d int) string {
	if d > 12 {
		return "…"
	}
	switch t.op {
	case "poly":
		if len(t.poly) == 0 {
			return "0"
		}
		var ps []string
		for _, m := range t.poly {
			var fs []string
			if m.c.Cmp(big1) != 0 || len(m.vars) == 0 {
				fs = append(fs, m.c.String())
			}
			for _, v := range m.vars {
				fs = append(fs, v.show(d+1))
			}
			ps = append(ps, strings.Join(fs, "*"))
		}
		s := strings.Join(ps, " + ")
		if len(ps) > 1 {
			s = "(" + s + ")"
		}
		return strings.ReplaceAll(s, "+ -", "- ")
	case "sym":
		return t.name
	case "bv":
		return "β" + t.name
	case "str":
		return strconv.Quote(t.name)
	case "obj":
		return "obj:" + t.name
	case "fld":
		return "." + t.name
	case "true", "false", "nil", "niliface":
		return t.op
	case "ge0":
		return t.args[0].show(d+1) + ">=0"
	case "eq0":
		return t.args[0].show(d+1) + "==0"
	case "eq":
		return t.args[0].show(d+1) + "==" + t.args[1].show(d+1)
	}
	n := t.op
	if t.op == "app" {
		n = t.name
	} else if t.name != "" {
		n += ":" + t.name
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.show(d+1))
	}
	return n + "(" + strings.Join(as, ", ") + ")"
}
