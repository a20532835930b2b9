package main

import (
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// The sorting functions of the standard library: the content of the slice
// becomes the sorted form of its old content under the comparison, which is
// derived for two unknown elements.
func init() {
	elemOf := func(call types.Type, sl *Term, st *State) types.Type {
		if t := st.cell(sl.args[0], nil).typ; t != nil {
			return t
		}
		return call
	}
	sorter := func(stable bool, byIndex bool) intrinsic {
		return func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
			var out []branch
			sl0 := st.simp(args[0])
			for _, c := range ex.cases(st, sl0) {
				sl := c.val
				if sl.op == "iface" {
					sl = sl.args[0]
				}
				for _, d := range ex.cases(c.st, sl) {
					out = append(out, ex.sortSlice(fr, d.st, d.val, args[1], stable, byIndex, elemOf)...)
				}
			}
			return out
		}
	}
	models["sort.Slice"] = sorter(false, true)
	models["sort.SliceStable"] = sorter(true, true)
	models["slices.SortFunc"] = sorter(false, false)
	models["slices.SortStableFunc"] = sorter(true, false)
}

func (ex *Exec) sortSlice(fr *Frame, st *State, sl, less *Term, stable, byIndex bool, elemOf func(types.Type, *Term, *State) types.Type) []branch {
	if sl.op != "slice" {
		ex.giveUp("sorting %s", sl)
	}
	if sl.args[0].op == "nil" {
		return one(st, nil)
	}
	obj, off, n := sl.args[0], sl.args[1], sl.args[2]
	if c := st.pc.norm(n).constVal(); ex.part && c != nil && c.IsInt64() && c.Int64() < 12 {
		return ex.sortPart(fr, st, obj, off, less, int(c.Int64()), stable, byIndex)
	}
	if ex.extra > 0 && st.pc.norm(n).constVal() != nil {
		ex.giveUp("sorting many elements")
	}
	et := elemOf(nil, sl, st)
	symCount["perm"]++
	P := mk("asym", "perm'"+strconv.Itoa(symCount["perm"]), KOther, et)
	a, b := freshInt("i", big0, nil), freshInt("j", big0, nil)
	in := func(x *Term) *Term { return mkAnd(mkGe(x, off), mkLt(x, mkAdd(off, n))) }
	var out []branch
	res := tFalse
	base := st.clone()
	base.setCell(obj, P)
	for _, pc := range base.pc.assumeAll(mkAnd(in(a), in(b))) {
		s := base.withPC(pc).clone()
		var as []*Term
		if byIndex {
			as = []*Term{mkSub(a, off), mkSub(b, off)}
		} else {
			as = []*Term{mkSel(P, a), mkSel(P, b)}
		}
		n0 := pc.n
		for _, r := range ex.callTerm(fr, less, as, s) {
			if r.panics {
				out = append(out, r)
				continue
			}
			if !sameHeap(s, r.st) {
				ex.giveUp("a comparison with effects")
			}
			v := r.val
			if !byIndex {
				v = mkLt(v, intConst(0))
			}
			res = mkOr(res, mkAnd(condOf(Outcome{st: r.st}, n0), v))
		}
	}
	A := st.cell(obj, nil).val
	name := ""
	if stable {
		name = "stable"
	}
	key := bindTerm("lesskey", "", KOther, nil, nil, []*Term{P, a, b}, res)
	// the old content as a sequence
	k := freshInt("k", big0, nil)
	pcs := st.pc.assumeAll(mkAnd(mkGe0(k), mkLt(k, n)))
	if len(pcs) == 0 {
		return append(out, branch{st: st})
	}
	s2 := st
	if len(pcs) == 1 {
		s2 = st.withPC(pcs[0])
	}
	seq := bindTerm("seq", "", KOther, nil, []*Term{n}, []*Term{k}, s2.simp(mkSel(A, mkAdd(off, k))))
	Q := mk("sorted", name, KOther, et, n, key, seq)
	st.setCell(obj, mkSeg(A, off, n, k, mkSel(Q, k)))
	return append(out, branch{st: st})
}

// sameHeap: nothing that existed before has changed.
func sameHeap(a, b *State) bool {
	for o, c := range a.heap {
		if d := b.heap[o]; d == nil || d.val != c.val {
			return false
		}
	}
	return true
}

// callTerm calls a function value from a model.
func (ex *Exec) callTerm(fr *Frame, f *Term, args []*Term, st *State) []branch {
	var out []branch
	for _, c := range ex.cases(st, f) {
		if fn := fnOf[c.val]; fn != nil {
			out = append(out, ex.callFn(fr, nil, fn, args, c.val.args, c.st)...)
			continue
		}
		if c.val.op == "nil" {
			out = append(out, branch{st: c.st, panics: true, val: mkStr("nil function"), why: "call of a nil function"})
			continue
		}
		sig, ok := c.val.typ.Underlying().(*types.Signature)
		if c.val.typ == nil || !ok {
			ex.giveUp("call of %s", c.val)
		}
		c.st.event("call", append([]*Term{c.val}, args...)...)
		out = append(out, branch{st: c.st, val: opaqueResult("call:"+c.val.String(), sig, append([]*Term{c.val}, args...))})
	}
	return out
}

// sortPart sorts a slice of known length by insertion. A sort that need not
// be stable exchanges equal elements whenever it can.
func (ex *Exec) sortPart(fr *Frame, st *State, obj, off, less *Term, n int, stable, byIndex bool) []branch {
	at := func(s *State, i int) *Term {
		return mkSel(s.cell(obj, nil).val, mkAddK(off, int64(i)))
	}
	var out []branch
	var step func(st *State, i, j int)
	step = func(st *State, i, j int) {
		if j == 0 {
			if i++; i >= n {
				out = append(out, branch{st: st})
				return
			}
			j = i
		}
		// the new element moves to the left while it is less, or not greater
		a, b := j, j-1
		if !stable {
			a, b = b, a
		}
		args := []*Term{intConst(int64(a)), intConst(int64(b))}
		if !byIndex {
			args = []*Term{at(st, a), at(st, b)}
		}
		for _, r := range ex.callTerm(fr, less, args, st.clone()) {
			if r.panics {
				out = append(out, r)
				continue
			}
			if !sameHeap(st, r.st) {
				ex.giveUp("a comparison with effects")
			}
			v := r.val
			if !byIndex {
				v = mkLt(v, intConst(0))
			}
			if !stable {
				v = mkNot(v)
			}
			yes, no := ex.split(r.st, v)
			for _, s := range yes {
				x, y := at(s, j), at(s, j-1)
				A := mkStore(s.cell(obj, nil).val, mkAddK(off, int64(j)), y)
				s.setCell(obj, mkStore(A, mkAddK(off, int64(j-1)), x))
				step(s, i, j-1)
			}
			for _, s := range no {
				step(s, i, 0)
			}
		}
	}
	if n <= 1 {
		return one(st, nil)
	}
	step(st, 1, 1)
	return out
}
