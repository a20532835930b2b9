package main

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Loops whose number of iterations is a constant are followed iteration by
// iteration; the paths of one iteration are joined before the next.

const maxUnroll = 300

// unroll returns the outcomes, or false when the number of iterations
// depends on unknown values.
func (ex *Exec) unroll(fr *Frame, l *Loop, from *ssa.BasicBlock, st *State) ([]Outcome, bool) {
	if !ex.constTrip(l) {
		return nil, false
	}
	st = st.clone() // the caller goes on with its own when this fails
	f := fr.clone()
	f.loops = append(append([]*Loop(nil), fr.loops...), l)
	ex.setPhis(f, from, l.header)
	var res []Outcome
	for i := 0; i < maxUnroll; i++ {
		outs := ex.runBlock(f, l.header, 0, st)
		var backs []Outcome
		exits := 0
		for _, o := range outs {
			switch o.kind {
			case OutBack:
				backs = append(backs, o)
				continue
			case OutExit:
				exits++
			}
			res = append(res, o)
		}
		if len(backs) == 0 {
			var done []Outcome
			for _, o := range res {
				if o.kind == OutExit {
					g := o.fr.clone()
					g.loops = append([]*Loop(nil), fr.loops...)
					done = append(done, ex.gotoBlock(g, o.pred, o.target, o.st)...)
					continue
				}
				done = append(done, o)
			}
			return done, true
		}
		if exits > 0 {
			return nil, false
		}
		f, st = ex.join(f, l, st, backs)
		if f == nil {
			return nil, false
		}
	}
	return nil, false
}

// constTrip: the loop's condition compares a counter with something, and
// the loop is small enough to be worth a try.
func (ex *Exec) constTrip(l *Loop) bool {
	n := 0
	for _, ins := range l.header.Instrs {
		switch ins := ins.(type) {
		case *ssa.If:
			b, ok := ins.Cond.(*ssa.BinOp)
			if !ok {
				return false
			}
			_, cx := b.X.(*ssa.Const)
			_, cy := b.Y.(*ssa.Const)
			return cx || cy
		case *ssa.Phi:
			n++
		case *ssa.Call, *ssa.Next, *ssa.Range:
			return false
		}
	}
	return false
}

// join merges the states in which iterations ended.
func (ex *Exec) join(f *Frame, l *Loop, st *State, backs []Outcome) (*Frame, *State) {
	base := st.pc.n
	nf := f.clone()
	phis := func(o Outcome) []*Term {
		g := o.fr.clone()
		ex.setPhis(g, o.pred, l.header)
		var vs []*Term
		for _, ins := range l.header.Instrs {
			if p, ok := ins.(*ssa.Phi); ok {
				vs = append(vs, o.st.simp(g.env[p]))
			}
		}
		return vs
	}
	merge := func(vals []*Term) *Term {
		v := vals[len(vals)-1]
		for i := len(vals) - 2; i >= 0; i-- {
			v = joinVal(condOf(backs[i], base), vals[i], v)
		}
		return v
	}
	var all [][]*Term
	for _, o := range backs {
		all = append(all, phis(o))
	}
	k := 0
	for _, ins := range l.header.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			var vals []*Term
			for i := range backs {
				vals = append(vals, all[i][k])
			}
			nf.env[p] = merge(vals)
			k++
		}
	}
	ns := backs[0].st.clone()
	if len(backs) > 1 {
		ns = ns.withPC(st.pc).clone()
	}
	var evs []*Term
	for _, o := range backs {
		evs = append(evs, o.st.ev)
	}
	ns.ev = merge(evs)
	objs := map[*Term]bool{}
	for _, o := range backs {
		for obj := range o.st.heap {
			objs[obj] = true
		}
	}
	var list []*Term
	for o := range objs {
		list = append(list, o)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].id < list[j].id })
	for _, obj := range list {
		var vals []*Term
		var c *Cell
		for _, o := range backs {
			d := o.st.heap[obj]
			if d == nil {
				d = st.heap[obj]
			}
			if d == nil {
				continue // made on another path
			}
			if c != nil && d.extent != c.extent {
				return nil, nil
			}
			c = d
			vals = append(vals, d.val)
		}
		if len(vals) < len(backs) {
			ns.heap[obj] = c
			continue
		}
		d := *c
		d.val = merge(vals)
		ns.heap[obj] = &d
	}
	if len(nf.defers) != len(backs[0].fr.defers) {
		return nil, nil
	}
	return nf, ns
}

// joinVal is the value x where the condition holds, y elsewhere; a
// conditional constant times a bit becomes arithmetic on the bit.
func joinVal(c, x, y *Term) *Term {
	if x == y {
		return x
	}
	if x.op == "bigval" && y.op == "bigval" {
		return mk("bigval", "", KOther, x.typ, joinVal(c, x.args[0], y.args[0]))
	}
	if r := joinWide(c, x, y); r != nil {
		return r
	}
	if x.kind == KInt && y.kind == KInt {
		neg := false
		if isIte(c) && c.args[1] == tFalse && c.args[2] == tTrue {
			c, neg = c.args[0], true
		}
		if d := mkSub(x, y); c.op == "eq0" && d.constVal() != nil {
			if neg {
				x, y, d = y, x, mkNeg(d)
			}
			for _, s := range []int64{1, -1} {
				p := mkScale(bigOf(s), c.args[0])
				if b := mkAddK(p, 1); within(b, 0, 1) {
					return mkAdd(y, mkMul(d, b))
				}
				if within(p, 0, 1) {
					return mkAdd(x, mkMul(mkNeg(d), p))
				}
			}
			if neg {
				x, y = y, x
			}
		}
		if neg {
			c = mkNot(c)
		}
	}
	if debug {
		debugf("JOIN %s ? %s : %s", c, x, y)
	}
	return mkIte(c, x, y)
}
