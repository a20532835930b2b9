package main

import (
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Division and bytes of math/big integers, and the byte order functions.

func init() {
	bt := func(fn *ssa.Function) types.Type { return ptrElem(fn.Signature.Recv().Type()) }
	setBig := func(st *State, p *Term, t types.Type, x *Term) {
		st.store(p, lift1(x, func(x *Term) *Term { return mk("bigval", "", KOther, t, x) }), t)
	}
	type divide func(ex *Exec, st *State, a, b, q *Term) *Term
	def := func(name string, euclid bool, f divide) {
		models["(*math/big.Int)."+name] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
			t := bt(fn)
			a, b := bigGet(ex, st, args[1], t), bigGet(ex, st, args[2], t)
			yes, no := ex.split(st, mkEq0(b))
			var out []branch
			for _, s := range yes {
				out = append(out, branch{st: s, panics: true, val: mkStr("division by zero"), why: "math/big: division by zero"})
			}
			for _, s := range no {
				var parts []*State
				neg := []*State{}
				if euclid {
					parts, neg = ex.split(s, mkGe0(a))
					if len(neg) > 0 {
						ex.giveUp("Euclidean division of a negative number")
					}
				} else {
					parts = []*State{s}
				}
				for _, s := range parts {
					s := s.clone()
					x, y := s.simp(s.pc.norm(a)), s.simp(s.pc.norm(b))
					setBig(s, args[0], t, f(ex, s, x, y, ex.quo(s, x, y)))
					out = append(out, branch{st: s, val: args[0]})
				}
			}
			return out
		}
	}
	quo := func(ex *Exec, st *State, a, b, q *Term) *Term { return q }
	rem := func(ex *Exec, st *State, a, b, q *Term) *Term { return st.simp(mkSub(a, mkMul(b, q))) }
	def("Quo", false, quo)
	def("Div", true, quo)
	def("Rem", false, rem)
	def("Mod", true, rem)
	for _, n := range []string{"Or", "Xor"} {
		n := n
		models["(*math/big.Int)."+n] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
			t := bt(fn)
			x, y := bigGet(ex, st, args[1], t), bigGet(ex, st, args[2], t)
			x, y = st.simp(st.pc.norm(x)), st.simp(st.pc.norm(y))
			for _, p := range [][2]*Term{{x, y}, {y, x}} {
				if tz := trailing(p[0]); tz > 0 &&
					st.pc.decide(mkAnd(mkGe0(p[1]), mkLt(p[1], mkConst(pow2(tz))))) == Yes {
					st = st.clone()
					setBig(st, args[0], t, mkAdd(x, y))
					return one(st, args[0])
				}
			}
			ex.giveUp("big.Int." + n + " of overlapping bits")
			return nil
		}
	}
	models["(*math/big.Int).Abs"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		t := bt(fn)
		var out []branch
		x := bigGet(ex, st, args[1], t)
		yes, no := ex.split(st, mkGe0(x))
		for i, l := range [][]*State{yes, no} {
			for _, s := range l {
				s = s.clone()
				if i == 0 {
					setBig(s, args[0], t, x)
				} else {
					setBig(s, args[0], t, mkNeg(x))
				}
				out = append(out, branch{st: s, val: args[0]})
			}
		}
		return out
	}
	sign := func(x *Term) *Term {
		return mkIte(mkEq0(x), intConst(0), mkIte(mkGe0(x), intConst(1), intConst(-1)))
	}
	models["(*math/big.Int).Sign"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		return one(st, lift1(bigGet(ex, st, args[0], bt(fn)), sign))
	}
	models["(*math/big.Int).Cmp"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		t := bt(fn)
		return one(st, lift2(bigGet(ex, st, args[0], t), bigGet(ex, st, args[1], t), func(a, b *Term) *Term { return sign(mkSub(a, b)) }))
	}
	for n, t := range map[string]types.Type{"Int64": types.Typ[types.Int64], "Uint64": types.Typ[types.Uint64]} {
		t := t
		// the low 64 bits of the magnitude, with the sign for Int64
		models["(*math/big.Int)."+n] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
			x := bigGet(ex, st, args[0], bt(fn))
			if _, no := ex.split(st, mkGe0(x)); len(no) > 0 {
				ex.giveUp("the low bits of a negative big.Int")
			}
			return one(st, ex.wrapIn(st, x, t))
		}
	}
	byteOf := func(x *Term, k int64, top bool) *Term {
		b := mkFdiv(x, pow2(uint(8*k)))
		if top {
			return b
		}
		return mkSub(b, mkScale(pow2(8), mkFdiv(x, pow2(uint(8*k+8)))))
	}
	models["(*math/big.Int).FillBytes"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		var out []branch
		x := bigGet(ex, st, args[0], bt(fn))
		yes, no := ex.split(st, mkGe0(x))
		for i, l := range [][]*State{yes, no} {
			v := x
			if i == 1 {
				v = mkNeg(x)
			}
			for _, s := range l {
				b := s.simp(args[1])
				if b.op != "slice" || b.args[2].constVal() == nil || b.args[2].constVal().Cmp(big.NewInt(64)) > 0 {
					ex.giveUp("big.Int.FillBytes outside the model")
				}
				n := b.args[2].constVal().Int64()
				fits, not := ex.split(s, mkLt(v, mkConst(pow2(uint(8*n)))))
				for _, s := range not {
					out = append(out, branch{st: s, panics: true, val: mkStr("math/big: buffer too small to fit value"), why: "math/big: buffer too small to fit value"})
				}
				for _, s := range fits {
					s = s.clone()
					for k := int64(0); k < n; k++ {
						s.store(mkPtr(b.args[0], mkAddK(b.args[1], k)), byteOf(s.simp(v), n-1-k, k == 0), types.Typ[types.Byte])
					}
					out = append(out, branch{st: s, val: args[1]})
				}
			}
		}
		return out
	}
	models["(*math/big.Int).SetBytes"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		b := st.simp(args[1])
		if b.op != "slice" || b.args[2].constVal() == nil || b.args[2].constVal().Cmp(big.NewInt(64)) > 0 {
			ex.giveUp("big.Int.SetBytes outside the model")
		}
		n := b.args[2].constVal().Int64()
		setBig(st, args[0], bt(fn), joinBytes(ex, st, b, n, false))
		return one(st, args[0])
	}
	for _, o := range []struct {
		name   string
		little bool
	}{{"bigEndian", false}, {"littleEndian", true}} {
		o := o
		for _, w := range []struct {
			n string
			k int64
			t types.Type
		}{{"64", 8, types.Typ[types.Uint64]}, {"32", 4, types.Typ[types.Uint32]}, {"16", 2, types.Typ[types.Uint16]}} {
			w := w
			short := func(ex *Exec, st *State, b *Term) (ok []*State, out []branch) {
				if b.op != "slice" {
					ex.giveUp("byte order of %s", b)
				}
				yes, no := ex.split(st, mkGe(b.args[2], intConst(w.k)))
				for _, s := range no {
					out = append(out, branch{st: s, panics: true, val: mkStr("index out of range"), why: "encoding/binary: the slice is too short"})
				}
				return yes, out
			}
			models["(encoding/binary."+o.name+").Uint"+w.n] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
				b := st.simp(args[len(args)-1])
				ok, out := short(ex, st, b)
				for _, s := range ok {
					out = append(out, branch{st: s, val: s.simp(joinBytes(ex, s, b, w.k, o.little))})
				}
				return out
			}
			models["(encoding/binary."+o.name+").PutUint"+w.n] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
				b, v := st.simp(args[len(args)-2]), args[len(args)-1]
				ok, out := short(ex, st, b)
				for _, s := range ok {
					s = s.clone()
					for k := int64(0); k < w.k; k++ {
						at := w.k - 1 - k
						if o.little {
							at = k
						}
						s.store(mkPtr(b.args[0], mkAddK(b.args[1], k)), lift1(s.simp(v), func(v *Term) *Term { return byteOf(v, at, at == w.k-1) }), types.Typ[types.Byte])
					}
					out = append(out, branch{st: s})
				}
				return out
			}
		}
	}
}

// joinBytes is the number whose bytes are the first n of the slice.
func joinBytes(ex *Exec, st *State, b *Term, n int64, little bool) *Term {
	r := intConst(0)
	for k := int64(0); k < n; k++ {
		at := k
		if little {
			at = n - 1 - k
		}
		x := st.load(mkPtr(b.args[0], mkAddK(b.args[1], at)), types.Typ[types.Byte])
		r = lift2(r, x, func(r, x *Term) *Term { return mkAdd(mkScale(pow2(8), r), x) })
	}
	return r
}
