package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Channels, goroutines and locks. A call that would wait for ever in the
// current state ends in the special panic blockVal, which nothing recovers.

var blockVal = mk("blocks", "", KOther, nil)

var goList = mk("obj", "goroutines", KOther, nil)

func blocked(st *State, why string) branch {
	return branch{st: st, panics: true, val: blockVal, why: why + ": blocks for ever"}
}

func (ex *Exec) chanState(st *State, c *Term) *Term {
	if c.op != "chan" {
		return nil
	}
	if ce, ok := st.heap[c]; ok && ce.val.op == "chst" {
		return ce.val
	}
	return nil
}

func (ex *Exec) send(fr *Frame, ins ssa.Instruction, ch, v *Term, st *State) []branch {
	var out []branch
	for _, c := range ex.cases(st, ch) {
		s := ex.chanState(c.st, c.val)
		if s == nil {
			c.st.event("send", c.val, v)
			out = append(out, branch{st: c.st})
			continue
		}
		if s.args[0] == tTrue {
			out = append(out, branch{st: c.st, panics: true, val: mkStr("send on closed channel"), why: ex.pos(fr, ins) + ": send on a closed channel"})
			continue
		}
		size := c.val.args[0].constVal()
		if size == nil {
			ex.giveUp("channel of unknown size")
		}
		if int64(len(s.args)-1) >= size.Int64() {
			out = append(out, blocked(c.st, ex.pos(fr, ins)))
			continue
		}
		c.st.setCell(c.val, mk("chst", "", KOther, nil, append(append([]*Term(nil), s.args...), v)...))
		out = append(out, branch{st: c.st})
	}
	return out
}

func (ex *Exec) recv(fr *Frame, ins *ssa.UnOp, ch *Term, st *State) []branch {
	elem := ins.X.Type().Underlying().(*types.Chan).Elem()
	res := func(v, ok *Term) *Term {
		if ins.CommaOk {
			return mkTuple(v, ok)
		}
		return v
	}
	var out []branch
	for _, c := range ex.cases(st, ch) {
		s := ex.chanState(c.st, c.val)
		if s == nil {
			if c.val.op == "nil" {
				out = append(out, blocked(c.st, ex.pos(fr, ins)))
				continue
			}
			c.st.event("recv", c.val)
			out = append(out, branch{st: c.st, val: res(appValue("recv", elem, c.val, c.st.ev), tTrue)})
			continue
		}
		v, ok, ready := ex.takeFrom(c.st, c.val, s, elem)
		if !ready {
			out = append(out, blocked(c.st, ex.pos(fr, ins)))
			continue
		}
		out = append(out, branch{st: c.st, val: res(v, ok)})
	}
	return out
}

func (ex *Exec) takeFrom(st *State, ch, s *Term, elem types.Type) (v, ok *Term, ready bool) {
	if len(s.args) > 1 {
		st.setCell(ch, mk("chst", "", KOther, nil, append([]*Term{s.args[0]}, s.args[2:]...)...))
		return s.args[1], tTrue, true
	}
	if s.args[0] == tTrue {
		return zeroValue(elem), tFalse, true
	}
	return nil, nil, false
}

func (ex *Exec) closeChan(fr *Frame, ch *Term, st *State) []branch {
	var out []branch
	for _, c := range ex.cases(st, ch) {
		s := ex.chanState(c.st, c.val)
		if s == nil {
			c.st.event("close", c.val)
			out = append(out, branch{st: c.st})
			continue
		}
		if s.args[0] == tTrue {
			out = append(out, branch{st: c.st, panics: true, val: mkStr("close of closed channel"), why: fr.fn.String() + ": close of a closed channel"})
			continue
		}
		c.st.setCell(c.val, mk("chst", "", KOther, nil, append([]*Term{tTrue}, s.args[1:]...)...))
		out = append(out, branch{st: c.st})
	}
	return out
}

func (ex *Exec) selectStmt(fr *Frame, ins *ssa.Select, st *State) []branch {
	var out []branch
	tt := ins.Type().(*types.Tuple)
	result := func(i int, ok *Term, ri int, v *Term) *Term {
		vals := []*Term{intConst(int64(i)), ok}
		k := 0
		for j, s := range ins.States {
			if s.Dir != types.RecvOnly {
				continue
			}
			x := zeroValue(tt.At(2 + k).Type())
			if j == i && v != nil {
				x = v
			}
			vals = append(vals, x)
			k++
		}
		return mkTuple(vals...)
	}
	any := false
	for i, s := range ins.States {
		ch := st.simp(ex.value(fr, s.Chan))
		if isIte(ch) {
			ex.giveUp("select on a conditional channel")
		}
		cs := ex.chanState(st, ch)
		if cs == nil {
			if ch.op == "nil" {
				continue
			}
			ex.giveUp("select on an unknown channel")
		}
		s2 := st.clone()
		if s.Dir == types.RecvOnly {
			if v, ok, ready := ex.takeFrom(s2, ch, cs, s.Chan.Type().Underlying().(*types.Chan).Elem()); ready {
				any = true
				out = append(out, branch{st: s2, val: result(i, ok, i, v)})
			}
			continue
		}
		for _, b := range ex.send(fr, ins, ch, ex.value(fr, s.Send), s2) {
			if b.panics && b.val == blockVal {
				continue
			}
			any = true
			if !b.panics {
				b.val = result(i, tFalse, i, nil)
			}
			out = append(out, b)
		}
	}
	if !any {
		if ins.Blocking {
			return []branch{blocked(st, ex.pos(fr, ins))}
		}
		return one(st, result(-1, tFalse, -1, nil))
	}
	return out
}

func (ex *Exec) goStmt(fr *Frame, ins *ssa.Go, fv *Term, args []*Term, st *State) []branch {
	if ins.Call.IsInvoke() || fv.op != "fn" && fv.op != "closure" {
		st.event("go", append([]*Term{fv}, args...)...)
		return one(st, nil)
	}
	var l []*Term
	if c, ok := st.heap[goList]; ok {
		l = c.val.args
	}
	g := mk("goroutine", "", KOther, nil, append([]*Term{fv}, args...)...)
	st.heap[goList] = &Cell{typ: types.Typ[types.Int], val: mk("golist", "", KOther, nil, append(append([]*Term(nil), l...), g)...)}
	return one(st, nil)
}

func mutexPath(a *Term) *Term { return a }

var mLocked = mk("mlocked", "", KOther, nil)

func (ex *Exec) mutexOp(name string) intrinsic {
	return func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		t := ptrElem(fn.Signature.Recv().Type())
		zero := zeroValue(t)
		var out []branch
		for _, c := range ex.cases(st, args[0]) {
			p := c.val
			cur := c.st.load(p, t)
			held := app("islocked", types.Typ[types.Bool], cur)
			if cur == zero {
				held = tFalse
			} else if cur == mLocked {
				held = tTrue
			}
			yes, no := ex.split(c.st, held)
			switch name {
			case "Lock":
				for _, s := range yes {
					out = append(out, blocked(s, fr.fn.String()+": Lock of a held mutex"))
				}
				for _, s := range no {
					s.event("lock", p)
					s.store(p, mLocked, t)
					out = append(out, branch{st: s})
				}
			case "TryLock":
				for _, s := range yes {
					out = append(out, branch{st: s, val: tFalse})
				}
				for _, s := range no {
					s.event("lock", p)
					s.store(p, mLocked, t)
					out = append(out, branch{st: s, val: tTrue})
				}
			case "Unlock":
				for _, s := range yes {
					s.event("unlock", p)
					s.store(p, zero, t)
					out = append(out, branch{st: s})
				}
				for _, s := range no {
					out = append(out, branch{st: s, panics: true, val: mkStr("unlock of unlocked mutex"), why: fr.fn.String() + ": Unlock of a free mutex"})
				}
			}
		}
		return out
	}
}

func init() {
	for _, m := range []string{"Lock", "TryLock", "Unlock"} {
		models["(*sync.Mutex)."+m] = (&Exec{}).mutexOp(m)
	}
	intrinsics["saBlocks"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		var out []branch
		f := args[0]
		for _, o := range ex.call(fnOf[f], nil, f.args, st.clone(), fr) {
			s := st.withPC(o.st.pc).clone()
			out = append(out, branch{st: s, val: mkBool(o.kind == OutPanic && o.vals[0] == blockVal)})
		}
		return out
	}
	// saRunGo runs the goroutines that were started, and tells whether they ended.
	intrinsics["saRunGo"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		var out []branch
		var run func(st *State)
		run = func(st *State) {
			c, ok := st.heap[goList]
			if !ok || len(c.val.args) == 0 {
				out = append(out, branch{st: st, val: tTrue})
				return
			}
			g := c.val.args[0]
			st = st.clone()
			st.heap[goList] = &Cell{typ: c.typ, val: mk("golist", "", KOther, nil, c.val.args[1:]...)}
			f := g.args[0]
			for _, o := range ex.call(fnOf[f], g.args[1:], f.args, st, fr) {
				if o.kind == OutPanic {
					if o.vals[0] == blockVal {
						out = append(out, branch{st: o.st, val: tFalse})
						continue
					}
					out = append(out, branch{st: o.st, panics: true, val: o.vals[0], why: o.why})
					continue
				}
				run(o.st)
			}
		}
		run(st)
		return out
	}
	// saFrame runs the function and tells whether it left all objects as they were.
	intrinsics["saFrame"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		var out []branch
		f := args[0]
		before := st.clone()
		for _, o := range ex.call(fnOf[f], nil, f.args, st, fr) {
			if o.kind == OutPanic {
				out = append(out, branch{st: o.st, panics: true, val: o.vals[0], why: o.why})
				continue
			}
			same := tTrue
			for obj, c := range before.heap {
				if d := o.st.heap[obj]; d != nil && d.val != c.val {
					same = mkAnd(same, o.st.simp(mkEq(d.val, c.val)))
				}
			}
			out = append(out, branch{st: o.st, val: same})
		}
		return out
	}
	intrinsics["saPanicVal"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		var out []branch
		f := args[0]
		for _, o := range ex.call(fnOf[f], nil, f.args, st, fr) {
			v := tNilIface
			if o.kind == OutPanic {
				v = o.vals[0]
			}
			out = append(out, branch{st: o.st, val: v})
		}
		return out
	}
	text := func(st *State, v *Term) *Term {
		v = st.simp(v)
		if v.op == "iface" {
			v = v.args[0]
		}
		return v
	}
	intrinsics["saHasPart"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		v, p := text(st, args[0]), text(st, args[1])
		ok := v == p
		if v.op == "strcat" {
			for _, a := range v.args {
				if a == p {
					ok = true
				}
			}
		}
		return one(st, mkBool(ok))
	}
	intrinsics["saSameText"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		return one(st, st.simp(mkEq(text(st, args[0]), text(st, args[1]))))
	}
	// saNoEvents: the trace is empty
	intrinsics["saNoEvents"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		return one(st, mkBool(text(st, args[0]) == evNil))
	}
	// saBracketed: the trace starts with the first and ends with the last
	// event, and has no more of either
	intrinsics["saBracketed"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		t := text(st, args[0])
		es := evList(t)
		if debug {
			debugf("BRACKET %v", es)
		}
		first, last := args[1].name, args[2].name
		ok := len(es) >= 2 && es[0].op == "ev" && es[0].name == first && es[len(es)-1].op == "ev" && es[len(es)-1].name == last && es[0].args[0] == es[len(es)-1].args[0]
		if ok {
			for _, e := range es[1 : len(es)-1] {
				if evHas(e, func(x *Term) bool { return x.op != "ev" || x.name == first || x.name == last }) {
					ok = false
				}
			}
		}
		return one(st, mkBool(ok))
	}
}

// evList is the sequence of events of a trace; a repeated part stands for
// itself as one element.
func evList(t *Term) []*Term {
	switch t.op {
	case "evcat":
		var r []*Term
		for _, a := range t.args {
			r = append(r, evList(a)...)
		}
		return r
	case "rec":
		if len(t.args) > t.nb+1 {
			vals := make([]*Term, t.nb+1)
			for i := range vals {
				vals[i] = mk("evmark", "", KOther, nil, intConst(int64(i)))
			}
			b := instBody(t, 0, vals...)
			ok := true
			rest := lift1(b, func(l *Term) *Term {
				l2 := evList(l)
				if len(l2) == 0 || l2[0] != vals[1] {
					ok = false
					return evNil
				}
				return mkEvCat(l2[1:]...)
			})
			if ok {
				return append(evList(t.args[1]), mk("evloop", "rec", KOther, nil, rest))
			}
		}
	}
	if t == evNil {
		return nil
	}
	return []*Term{t}
}

// evHas: one of the events of the trace satisfies the predicate, or the
// trace has a part that is not known.
func evHas(t *Term, p func(*Term) bool) bool {
	r := false
	lift1(t, func(t *Term) *Term {
		for _, e := range evList(t) {
			if e.op == "evloop" {
				for _, b := range e.args[len(e.args)-max(e.nb, 1):] {
					if evHas(b, p) {
						r = true
					}
				}
				continue
			}
			if p(e) {
				r = true
			}
		}
		return t
	})
	return r
}
