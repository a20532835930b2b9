package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The 128-bit types as two words. wide gives the methods that A06, A07, A10
// and C01 decide their specification: the value of the result, whose words
// are remembered as those of that value.

type wideType struct {
	name   string
	t      types.Type
	hi, lo int
	hiT    types.Type
	loT    types.Type
	signed bool
}

func wideOf(t types.Type) *wideType {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != pkgPath || (n.Obj().Name() != "I128" && n.Obj().Name() != "U128") {
		return nil
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok || s.NumFields() != 2 {
		return nil
	}
	w := &wideType{name: n.Obj().Name(), t: t, hi: -1, lo: -1}
	for i := 0; i < 2; i++ {
		switch s.Field(i).Name() {
		case "high":
			w.hi, w.hiT = i, s.Field(i).Type()
		case "low":
			w.lo, w.loT = i, s.Field(i).Type()
		}
	}
	if w.hi < 0 || w.lo < 0 {
		return nil
	}
	w.signed = w.name == "I128"
	return w
}

func (w *wideType) info() intInfo { return intInfo{128, w.signed} }

// wideVals are the values that pairs of words were made of.
var wideVals = map[[2]*Term]*Term{}

// make gives the words of p modulo 2^128.
func (w *wideType) make(p *Term) *Term {
	return lift1(p, func(p *Term) *Term {
		hi, _ := intType(w.hiT)
		lo, _ := intType(w.loT)
		fs := make([]*Term, 2)
		fs[w.lo] = mkWrap(p, lo)
		fs[w.hi] = mkWrap(mkFdiv(p, pow2(64)), hi)
		wideVals[[2]*Term{fs[w.hi], fs[w.lo]}] = p
		return mkStruct(w.t, fs...)
	})
}

// val is the value of x, congruent to it modulo 2^128.
func (w *wideType) val(x *Term) *Term {
	return lift1(x, func(x *Term) *Term {
		return lift2(fieldOf(x, w.hi), fieldOf(x, w.lo), func(h, l *Term) *Term {
			if p, ok := wideVals[[2]*Term{h, l}]; ok {
				return p
			}
			return mkAdd(mkScale(pow2(64), h), l)
		})
	})
}

// exact is the value of x.
func (w *wideType) exact(st *State, x *Term) *Term {
	return lift1(x, func(x *Term) *Term {
		return lift2(fieldOf(x, w.hi), fieldOf(x, w.lo), func(h, l *Term) *Term {
			if p, ok := wideVals[[2]*Term{h, l}]; ok {
				p = st.simp(st.pc.norm(p))
				lo, hi := w.info().rng()
				in := func(p *Term) bool {
					return st.pc.decide(mkAnd(mkGe(p, mkConst(lo)), mkLe(p, mkConst(hi)))) == Yes
				}
				if in(p) {
					return p
				}
				q := mkSub(p, mkConst(pow2(128)))
				if in(q) {
					return q
				}
				if st.pc.decide(mkAnd(mkGe(p, mkConst(lo)), mkLe(q, mkConst(hi)))) == Yes {
					return mkIte(mkLe(p, mkConst(hi)), p, q)
				}
			}
			return mkAdd(mkScale(pow2(64), h), l)
		})
	})
}

func init() {
	// saAnyIn(lo, hi): any number from lo to hi
	intrinsics["saAnyIn"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		return one(st, freshInt("x", args[0].constVal(), args[1].constVal()))
	}
	for _, tn := range []string{"I128", "U128"} {
		// saWideT(x): the value x of the type, for any x in its range
		intrinsics["saWide"+tn] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
			w := wideOf(fn.Signature.Results().At(0).Type())
			if w == nil {
				ex.giveUp("the 128-bit type is not one of two words")
			}
			return one(st, w.make(args[0]))
		}
		// saExactT(a): the value of a
		intrinsics["saExact"+tn] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
			w := wideOf(fn.Signature.Params().At(0).Type())
			if w == nil {
				ex.giveUp("the 128-bit type is not one of two words")
			}
			return one(st, w.exact(st, args[0]))
		}
	}
}

// joinWide joins two 128-bit values.
func joinWide(c, x, y *Term) *Term {
	if x.op != "struct" || y.op != "struct" || x.typ == nil {
		return nil
	}
	w := wideOf(x.typ)
	if w == nil {
		return nil
	}
	p, q := w.val(x), w.val(y)
	b := bitOf(c)
	if b == nil || isIte(p) || isIte(q) {
		return nil
	}
	return w.make(mkAdd(q, mkMul(mkSub(p, q), b)))
}

// bitOf is the number that is one where the condition holds and zero where
// it does not.
func bitOf(c *Term) *Term {
	neg := false
	if isIte(c) && c.args[1] == tFalse && c.args[2] == tTrue {
		c, neg = c.args[0], true
	}
	if c.op != "eq0" {
		return nil
	}
	for _, s := range []int64{1, -1} {
		p := mkScale(bigOf(s), c.args[0])
		var b *Term
		if within(mkAddK(p, 1), 0, 1) {
			b = mkAddK(p, 1)
		} else if within(p, 0, 1) {
			b = mkAddK(mkNeg(p), 1)
		}
		if b != nil {
			if neg {
				return mkAddK(mkNeg(b), 1)
			}
			return b
		}
	}
	return nil
}

func wide(ex *Exec) {
	for _, tn := range []string{"I128", "U128"} {
		def := func(name string, f func(st *State, w *wideType, args []*Term) *Term) {
			ex.replace["("+pkgPath+"."+tn+")."+name] = func(ex *Exec, fr *Frame, call *ssa.CallCommon, args []*Term, st *State) ([]branch, bool) {
				w := wideOf(args[0].typ)
				if call.Signature().Recv() != nil {
					w = wideOf(call.Signature().Recv().Type())
				}
				if w == nil {
					return nil, false
				}
				r := f(st, w, args)
				if r == nil {
					return nil, false
				}
				return one(st, r), true
			}
		}
		def("Add", func(st *State, w *wideType, a []*Term) *Term {
			return w.make(lift2(w.val(a[0]), w.val(a[1]), mkAdd))
		})
		def("Sub", func(st *State, w *wideType, a []*Term) *Term {
			return w.make(lift2(w.val(a[0]), w.val(a[1]), mkSub))
		})
		def("Neg", func(st *State, w *wideType, a []*Term) *Term {
			if !w.signed {
				return nil
			}
			return w.make(mkNeg(w.val(a[0])))
		})
		shift := func(f func(st *State, w *wideType, x *Term, n uint) *Term) func(st *State, w *wideType, a []*Term) *Term {
			return func(st *State, w *wideType, a []*Term) *Term {
				c := w.exact(st, st.simp(a[1])).constVal()
				if c == nil || !c.IsInt64() || c.Sign() < 0 || c.Int64() > 127 {
					return nil
				}
				return f(st, w, a[0], uint(c.Int64()))
			}
		}
		def("Shl", shift(func(st *State, w *wideType, x *Term, n uint) *Term {
			return w.make(mkScale(pow2(n), w.val(x)))
		}))
		def("Shr", shift(func(st *State, w *wideType, x *Term, n uint) *Term {
			return w.make(mkFdiv(w.exact(st, x), pow2(n)))
		}))
		def("ToString", func(st *State, w *wideType, a []*Term) *Term {
			return lift1(w.exact(st, a[0]), dec)
		})
	}
}
