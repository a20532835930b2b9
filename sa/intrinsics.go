package main

import (
	"fmt"
	"go/types"
	"math/big"
	"slices"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch

var anyN int

var intrinsics = map[string]intrinsic{}
var models = map[string]intrinsic{}

var prelude2 = `
func saLo(w int, signed bool) saInt
func saHi(w int, signed bool) saInt
func saPow2(w int) saInt
func saQuo(a, b saInt) saInt
func saCases(n saInt, max int) int
func saSame(a, b any) bool
func saMark() any
func saDec(n saInt) String
func saBlocks(f func()) bool
func saRunGo() bool
func saFrame(f func()) bool
func saPanicVal(f func()) any
func saHasPart(v any, part any) bool
func saSameText(a, b any) bool
func saBracketed(t any, first, last string) bool
func saNoEvents(t any) bool
func saPick(lo, hi int) int
func saSize(lo, hi int) int
func saFew(lo, hi int) int
func saStdout() string
func saChar(lo, hi int32) rune
func saPerm[T any](a, b []T) bool { panic("intrinsic") }
func saIsPow[T any](r, x T, n saInt) bool { panic("intrinsic") }
func saAny[T any](name string) T { panic("intrinsic") }
`

func init() {
	for n, f := range map[string]intrinsic{
		"saAssume": func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
			var out []branch
			var sts []*State
			for _, pc := range st.pc.assumeAll(st.simp(args[0])) {
				sts = append(sts, st.withPC(pc))
			}
			if ex.part {
				sts = ex.concretise(sts, args[0])
			}
			for _, s := range sts {
				out = append(out, branch{st: s.clone()})
			}
			return out
		},
		"saAssert": saAssert,
		"saPanics": func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
			var out []branch
			f := args[0]
			for _, o := range ex.call(fnOf[f], nil, f.args, st, fr) {
				out = append(out, branch{st: o.st, val: mkBool(o.kind == OutPanic && o.vals[0] != blockVal)})
			}
			return out
		},
		"saMod": func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
			w := uint(args[2].constVal().Int64())
			return one(st, congruent(st, mkSub(args[0], args[1]), w))
		},
		"saLo": func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
			lo, _ := intInfo{uint(args[0].constVal().Int64()), args[1] == tTrue}.rng()
			return one(st, mkConst(lo))
		},
		"saHi": func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
			_, hi := intInfo{uint(args[0].constVal().Int64()), args[1] == tTrue}.rng()
			return one(st, mkConst(hi))
		},
		"saPow2": func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
			return one(st, mkConst(pow2(uint(args[0].constVal().Int64()))))
		},
		"saQuo": func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
			return one(st, ex.quo(st, st.simp(args[0]), st.simp(args[1])))
		},
		// saCases: n is one of 0..max-1, each separately
		"saCases": func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
			var out []branch
			m := args[1].constVal().Int64()
			for i := int64(0); i < m; i++ {
				for _, pc := range st.pc.assumeAll(mkEq(args[0], intConst(i))) {
					out = append(out, branch{st: st.withPC(pc).clone(), val: intConst(i)})
				}
			}
			return out
		},
		// saPerm: two slices of known length hold the same values in some order
		"saPerm": func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
			var ids [2][]int
			for i, a := range args {
				a = st.simp(a)
				if a.op != "slice" {
					ex.giveUp("saPerm of %s", a)
				}
				n := st.pc.norm(a.args[2]).constVal()
				if n == nil {
					ex.giveUp("saPerm of a slice of unknown length")
				}
				get, _ := ex.seqOf(st, fn.Params[i].Type(), a)
				for j := int64(0); j < n.Int64(); j++ {
					ids[i] = append(ids[i], st.pc.norm(st.simp(get(st, intConst(j)))).id)
				}
				sort.Ints(ids[i])
			}
			return one(st, mkBool(slices.Equal(ids[0], ids[1])))
		},
		// saPick: any of the numbers lo..hi, each separately
		"saPick": func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
			var out []branch
			for i, hi := args[0].constVal().Int64(), args[1].constVal().Int64(); i <= hi; i++ {
				out = append(out, branch{st: st.clone(), val: intConst(i)})
			}
			return out
		},
		// saSize: any of the sizes lo..hi, each separately
		"saSize": func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
			ex.sized = true
			var out []branch
			lo, hi := args[0].constVal().Int64(), args[1].constVal().Int64()
			if hi += int64(deeper); ex.extra > 0 {
				hi = min(hi-int64(deeper), lo+1)
			}
			for i := lo; i <= hi; i++ {
				out = append(out, branch{st: st.clone(), val: intConst(i)})
			}
			if e := int64(ex.extra); e > hi {
				out = append(out, branch{st: st.clone(), val: intConst(e)})
			}
			return out
		},
		// saFew: any of the numbers lo..hi; with larger containers, some of them
		"saFew": func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
			var out []branch
			lo, hi := args[0].constVal().Int64(), args[1].constVal().Int64()
			for i := lo; i <= hi; i++ {
				if hi-lo < 5 || ex.extra == 0 || i == lo || i == hi || i == (lo+hi+1)/2 {
					out = append(out, branch{st: st.clone(), val: intConst(i)})
				}
			}
			return out
		},
		// saAny: an unknown value
		"saAny": func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
			anyN++
			return one(st, symValue(fmt.Sprintf("%s#%d", args[0].name, anyN), fn.Signature.Results().At(0).Type()))
		},
		"saSame": func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
			return one(st, st.simp(mkEq(st.simp(args[0]), st.simp(args[1]))))
		},
		"saNote": func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
			debugf("NOTE %s  when %s", st.simp(args[0]), st.pc)
			return one(st, nil)
		},
	} {
		intrinsics[n] = f
	}
}

func saAssert(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
	ex.oblig++
	c := st.simp(args[0])
	var bad []*PC
	for _, pc := range st.pc.assumeAll(mkNot(c)) {
		if !pc.refuted() {
			bad = append(bad, pc)
		}
	}
	if len(bad) == 0 {
		ex.obligOK++
		return one(st, nil)
	}
	msg := args[1].name
	ex.fail("violated: "+msg, ex.where(fr), bad[0].String())
	var out []branch
	for _, pc := range st.pc.assumeAll(c) {
		out = append(out, branch{st: st.withPC(pc).clone()})
	}
	return out
}

// congruent: p = 0 modulo 2^w, decided in the ring of integers modulo 2^w.
func congruent(st *State, p *Term, w uint) *Term {
	p = st.simp(p)
	return lift1(p, func(p *Term) *Term {
		p = st.pc.norm(p)
		return lift1(p, func(p *Term) *Term {
			acc := newAcc()
			stripMod(acc, big1, monos(p), w)
			red := newAcc()
			for _, m := range acc.list() {
				red.add(modSym(m.c, w), m.vars)
			}
			q := red.term()
			if q.isConst(0) {
				return tTrue
			}
			if c := q.constVal(); c != nil {
				return tFalse
			}
			if w > 64 && floorAtoms(q) {
				acc := newAcc()
				stripMod(acc, big1, monos(floorForm(q, 0)), w)
				red := newAcc()
				for _, m := range acc.list() {
					red.add(modSym(m.c, w), m.vars)
				}
				if red.term().isConst(0) {
					return tTrue
				}
			}
			// p = 2^w * k for some k in the range of p
			lo, hi := bounds(q)
			if lo != nil && hi != nil {
				m := pow2(w)
				l := new(big.Int).Div(new(big.Int).Add(lo, new(big.Int).Sub(m, big1)), m)
				h := new(big.Int).Div(hi, m)
				if d := new(big.Int).Sub(h, l); d.IsInt64() && d.Int64() <= 8 {
					r := tFalse
					for k := new(big.Int).Set(l); k.Cmp(h) <= 0; k = new(big.Int).Add(k, big1) {
						r = mkOr(r, mkEq0(mkSub(q, mkConst(new(big.Int).Mul(m, k)))))
					}
					return r
				}
			}
			return mkEq0(mkSub(q, mkScale(pow2(w), mkFdiv(q, pow2(w)))))
		})
	})
}

// floorAtoms: p has a word of a product whose floor form may say more.
func floorAtoms(p *Term) bool {
	n := 0
	for _, m := range monos(p) {
		for _, v := range m.vars {
			if v.op == "wrap" || v.op == "fdiv" {
				n++
			}
		}
	}
	return n > 0 && n <= 24
}

// floorForm writes the words in p as what they are short of a multiple of
// their range: x mod c = x - c*floor(x/c).
func floorForm(p *Term, depth int) *Term {
	r := intConst(0)
	if isIte(p) || depth > 6 || len(monos(p)) > 60 {
		return p
	}
	for _, m := range monos(p) {
		x := mkConst(m.c)
		for _, v := range m.vars {
			switch v.op {
			case "wrap":
				ii := wrapInfo(v)
				q := floorForm(v.args[0], depth+1)
				lo, _ := ii.rng()
				v = mkSub(q, mkScale(pow2(ii.w), mkFdiv(mkSub(q, mkConst(lo)), pow2(ii.w))))
			case "fdiv":
				if c := v.args[1].constVal(); c != nil {
					v = mkFdiv(floorForm(v.args[0], depth+1), c)
				}
			}
			x = mkMul(x, v)
		}
		r = mkAdd(r, x)
	}
	return r
}

// opaqueFn replaces a function by an uninterpreted one: its results are
// functions of its arguments' values, and it may panic, depending on them.
func opaqueFn(ex *Exec, names ...string) {
	for _, n := range names {
		n := n
		ex.replace[n] = func(ex *Exec, fr *Frame, call *ssa.CallCommon, args []*Term, st *State) ([]branch, bool) {
			var vs []*Term
			for _, a := range args {
				vs = append(vs, ex.argKey(st, a))
			}
			sig := call.Signature()
			p := app("panics:"+n, types.Typ[types.Bool], vs...)
			yes, no := ex.split(st, p)
			var out []branch
			for _, s := range yes {
				out = append(out, branch{st: s, panics: true, val: mkStr("panic in " + n), why: "panic in " + n})
			}
			for _, s := range no {
				out = append(out, branch{st: s, val: opaqueResult("result:"+n, sig, vs)})
			}
			return out, true
		}
	}
}
