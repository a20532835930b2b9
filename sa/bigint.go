package main

import (
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// math/big integers as cells that hold a mathematical integer.

func bigOf(n int64) *big.Int { return big.NewInt(n) }

func bigGet(ex *Exec, st *State, p *Term, t types.Type) *Term {
	v := st.load(p, t)
	return lift1(v, func(v *Term) *Term {
		if v.op == "bigval" {
			return v.args[0]
		}
		if v == zeroValue(t) {
			return intConst(0)
		}
		return app("bigof", types.Typ[types.UntypedInt], v)
	})
}

func init() {
	val := func(t types.Type, x *Term) *Term {
		return lift1(x, func(x *Term) *Term { return mk("bigval", "", KOther, t, x) })
	}
	models["math/big.NewInt"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		t := ptrElem(fn.Signature.Results().At(0).Type())
		return one(st, mkPtr(st.alloc("bigint", t, val(t, args[0]))))
	}
	type op func(ex *Exec, st *State, a []*Term) *Term
	def := func(name string, n int, f op) {
		models["(*math/big.Int)."+name] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
			t := ptrElem(fn.Signature.Recv().Type())
			var vs []*Term
			for i := 1; i < len(args); i++ {
				if isIte(args[i]) {
					ex.giveUp("conditional *big.Int operand")
				}
				if i <= n {
					vs = append(vs, bigGet(ex, st, args[i], t))
				} else {
					vs = append(vs, args[i])
				}
			}
			r := f(ex, st, vs)
			if r == nil {
				ex.giveUp("big.Int.%s outside the model", name)
			}
			st.store(args[0], val(t, r), t)
			return one(st, args[0])
		}
	}
	two := func(f func(a, b *Term) *Term) op {
		return func(ex *Exec, st *State, a []*Term) *Term { return lift2(a[0], a[1], f) }
	}
	def("Add", 2, two(mkAdd))
	def("Sub", 2, two(mkSub))
	def("Mul", 2, two(mkMul))
	def("Neg", 1, func(ex *Exec, st *State, a []*Term) *Term { return mkNeg(a[0]) })
	def("Set", 1, func(ex *Exec, st *State, a []*Term) *Term { return a[0] })
	def("SetInt64", 0, func(ex *Exec, st *State, a []*Term) *Term { return a[0] })
	def("SetUint64", 0, func(ex *Exec, st *State, a []*Term) *Term { return a[0] })
	def("Lsh", 1, func(ex *Exec, st *State, a []*Term) *Term {
		if c := a[1].constVal(); c != nil && c.IsInt64() && c.Int64() < 1024 {
			return mkScale(pow2(uint(c.Int64())), a[0])
		}
		return nil
	})
	def("Rsh", 1, func(ex *Exec, st *State, a []*Term) *Term {
		if c := a[1].constVal(); c != nil && c.IsInt64() && c.Int64() < 1024 {
			return mkFdiv(a[0], pow2(uint(c.Int64())))
		}
		return nil
	})
	str := func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		if len(args) > 1 && !args[1].isConst(10) {
			ex.giveUp("big.Int.Text in another base")
		}
		t := ptrElem(fn.Signature.Recv().Type())
		return one(st, dec(bigGet(ex, st, args[0], t)))
	}
	models["(*math/big.Int).String"] = str
	models["(*math/big.Int).Text"] = str
	models["(*math/big.Int).SetString"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		t := ptrElem(fn.Signature.Recv().Type())
		s := args[1]
		if s = st.simp(s); s.op == "app" && s.name == "dec" && (args[2].isConst(10) || args[2].isConst(0)) {
			st.store(args[0], val(t, s.args[0]), t)
			return one(st, mkTuple(args[0], tTrue))
		}
		if b := args[2].constVal(); s.op == "str" && b != nil {
			if v, ok := new(big.Int).SetString(s.name, int(b.Int64())); ok {
				st.store(args[0], val(t, mkConst(v)), t)
				return one(st, mkTuple(args[0], tTrue))
			}
		}
		n := strLen(s).constVal()
		base := args[2].constVal()
		if n == nil || base == nil || !n.IsInt64() || n.Sign() == 0 || n.Int64() > 300 || base.Int64() < 2 || base.Int64() > 10 {
			ex.giveUp("big.Int.SetString outside the model")
		}
		r := intConst(0)
		for i := int64(0); i < n.Int64(); i++ {
			d := mkAddK(mkStrAt(s, intConst(i), types.Typ[types.Byte]), -48)
			if !within(d, 0, base.Int64()-1) {
				ex.giveUp("big.Int.SetString outside the model")
			}
			r = mkAdd(mkScale(base, r), d)
		}
		st.store(args[0], val(t, r), t)
		return one(st, mkTuple(args[0], tTrue))
	}
}
