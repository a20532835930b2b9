package main

import (
	"fmt"
	"go/types"
	"slices"

	"golang.org/x/tools/go/ssa"
)

// Maps with a known number of entries: the content is the list of their keys
// and values, whose keys are pairwise different. Lookups split on which key
// the given one equals; ranges visit the entries in every order.

func mkMlist(t types.Type, kv []*Term) *Term {
	if len(kv) == 0 {
		return mk("mempty", "", KOther, t)
	}
	return mk("mlist", "", KOther, t, kv...)
}

// mapEntries is the content of a map, alternating keys and values.
func (ex *Exec) mapEntries(st *State, m *Term) []*Term {
	if m.op == "nil" {
		return nil
	}
	if m.op != "map" {
		ex.giveUp("map value %s", m)
	}
	c := st.cell(m, nil)
	switch c.val.op {
	case "mempty":
		return nil
	case "mlist":
		return c.val.args
	}
	ex.giveUp("a map of unknown size")
	return nil
}

// findKey calls f with the position of the key, or -1, in each case.
func (ex *Exec) findKey(st *State, kv []*Term, key *Term, f func(st *State, i int)) {
	for i := 0; i < len(kv); i += 2 {
		yes, no := ex.split(st, st.simp(mkEq(kv[i], key)))
		for _, s := range yes {
			f(s, i)
		}
		if len(no) == 0 {
			return
		}
		for _, s := range no[1:] {
			ex.findKey(s, kv[i+2:], key, func(s *State, j int) {
				if j >= 0 {
					j += i + 2
				}
				f(s, j)
			})
		}
		st = no[0]
	}
	f(st, -1)
}

func (ex *Exec) mapLen(fr *Frame, x *Term, st *State) []branch {
	var out []branch
	for _, c := range ex.cases(st, x) {
		out = append(out, branch{st: c.st, val: intConst(int64(len(ex.mapEntries(c.st, c.val)) / 2))})
	}
	return out
}

func (ex *Exec) mapUpdate(fr *Frame, ins *ssa.MapUpdate, st *State) []branch {
	key, val := ex.value(fr, ins.Key), ex.value(fr, ins.Value)
	var out []branch
	for _, c := range ex.cases(st, ex.value(fr, ins.Map)) {
		m := c.val
		if m.op == "nil" {
			out = append(out, branch{st: c.st, panics: true, val: mkStr("assignment to entry in nil map"), why: ex.pos(fr, ins) + ": assignment to entry in nil map"})
			continue
		}
		kv := ex.mapEntries(c.st, m)
		ex.findKey(c.st, kv, key, func(s *State, i int) {
			s = s.clone()
			n := append([]*Term(nil), kv...)
			if i >= 0 {
				n[i+1] = s.simp(val)
			} else {
				n = append(n, s.simp(key), s.simp(val))
			}
			s.setCell(m, mkMlist(m.typ, n))
			out = append(out, branch{st: s})
		})
	}
	return out
}

func (ex *Exec) mapDelete(fr *Frame, call *ssa.CallCommon, args []*Term, st *State) []branch {
	var out []branch
	for _, c := range ex.cases(st, args[0]) {
		m := c.val
		if m.op == "nil" {
			out = append(out, branch{st: c.st})
			continue
		}
		kv := ex.mapEntries(c.st, m)
		ex.findKey(c.st, kv, args[1], func(s *State, i int) {
			s = s.clone()
			if i >= 0 {
				n := append([]*Term(nil), kv[:i]...)
				n = append(n, kv[i+2:]...)
				s.setCell(m, mkMlist(m.typ, n))
			}
			out = append(out, branch{st: s})
		})
	}
	return out
}

func (ex *Exec) lookup(fr *Frame, ins *ssa.Lookup, st *State) []branch {
	x := ex.value(fr, ins.X)
	mt, ok := ins.X.Type().Underlying().(*types.Map)
	if !ok {
		return ex.stringIndex(fr, ins, x, ex.value(fr, ins.Index), st)
	}
	key := ex.value(fr, ins.Index)
	var out []branch
	for _, c := range ex.cases(st, x) {
		kv := ex.mapEntries(c.st, c.val)
		ex.findKey(c.st, kv, key, func(s *State, i int) {
			v := zeroValue(mt.Elem())
			if i >= 0 {
				v = kv[i+1]
			}
			if ins.CommaOk {
				v = mkTuple(v, mkBool(i >= 0))
			}
			out = append(out, branch{st: s.clone(), val: v})
		})
	}
	return out
}

func (ex *Exec) rangeOver(fr *Frame, ins *ssa.Range, st *State) []branch {
	x := ex.value(fr, ins.X)
	if _, ok := ins.X.Type().Underlying().(*types.Map); !ok {
		return ex.rangeString(fr, ins, x, st)
	}
	var out []branch
	for _, c := range ex.cases(st, x) {
		kv := ex.mapEntries(c.st, c.val)
		var keys []*Term
		for i := 0; i < len(kv); i += 2 {
			keys = append(keys, kv[i])
		}
		orders := [][]*Term{keys}
		if len(keys) > fewKeys {
			// only two of the orders
			back := slices.Clone(keys)
			slices.Reverse(back)
			orders = append(orders, back)
		}
		for _, keys := range orders {
			s := c.st.clone()
			it := mk("obj", fmt.Sprintf("mapiter#%d", nextObj()), KOther, nil)
			s.heap[it] = &Cell{typ: types.Typ[types.Invalid], val: mkTuple(c.val, mkTuple(keys...), intConst(int64(len(keys))))}
			out = append(out, branch{st: s, val: it})
		}
	}
	return out
}

func (ex *Exec) next(fr *Frame, ins *ssa.Next, st *State) []branch {
	it := ex.value(fr, ins.Iter)
	if ins.IsString {
		return ex.nextRune(fr, ins, it, st)
	}
	c := st.heap[it]
	m, keys := c.val.args[0], c.val.args[1].args
	kv := ex.mapEntries(st, m)
	tt := ins.Type().(*types.Tuple)
	zero := func(i int) *Term {
		if t := tt.At(i).Type(); t != types.Typ[types.Invalid] {
			return zeroValue(t)
		}
		return tNil
	}
	var out []branch
	live := 0
	for i, k := range keys {
		at := -1
		for j := 0; j < len(kv); j += 2 {
			if kv[j] == k {
				at = j
			}
		}
		if at < 0 {
			continue // deleted meanwhile
		}
		live++
		s := st.clone()
		rest := append(append([]*Term(nil), keys[:i]...), keys[i+1:]...)
		s.setCell(it, mkTuple(m, mkTuple(rest...), c.val.args[2]))
		out = append(out, branch{st: s, val: mkTuple(tTrue, k, kv[at+1])})
		if n := c.val.args[2].constVal(); n.Int64() > fewKeys {
			break
		}
	}
	if live == 0 {
		return one(st, mkTuple(tFalse, zero(1), zero(2)))
	}
	return out
}

// fewKeys is the number of keys up to which ranges visit them in every order;
// larger maps only occur in the additional analyses of larger.
const fewKeys = 5

// symMap gives a map among the inputs n entries.
func (st *State) symMap(m *Term, n int) []*State {
	mt := m.typ.Underlying().(*types.Map)
	var kv []*Term
	for i := 0; i < n; i++ {
		key := symValue(fmt.Sprintf("%s.key%d", m.name, i), mt.Key())
		if n > fewKeys && key.op == "struct" && len(key.args) == 1 && key.args[0].kind == KInt {
			key = mk(key.op, key.name, key.kind, key.typ, intConst(int64(5*i+7)))
		}
		kv = append(kv, key, symValue(fmt.Sprintf("%s.val%d", m.name, i), mt.Elem()))
	}
	sts := []*State{st}
	for i := 0; i < n; i++ {
		for j := 0; j < i; j++ {
			var next []*State
			for _, s := range sts {
				for _, pc := range s.pc.assumeAll(mkNot(mkEq(kv[2*j], kv[2*i]))) {
					next = append(next, s.withPC(pc))
				}
			}
			sts = next
		}
	}
	for i := range sts {
		sts[i] = sts[i].clone()
		sts[i].heap[m] = &Cell{typ: m.typ, val: mkMlist(m.typ, kv), param: true}
	}
	return sts
}
