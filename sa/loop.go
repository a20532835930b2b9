package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Loops are summarised for all iteration counts. The state that one
// iteration changes is split into leaves; one abstract run of the body from
// an arbitrary iteration gives each leaf's step; steps of known kinds are
// solved to closed forms over the iteration number k; a second run from the
// closed forms checks that they are inductive.

type Loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

type loopInfo struct{ byHeader map[*ssa.BasicBlock]*Loop }

func (ex *Exec) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := ex.loopInfo[fn]; ok {
		return li
	}
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*Loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := li.byHeader[s]
			if l == nil {
				l = &Loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
				li.byHeader[s] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	ex.loopInfo[fn] = li
	return li
}

type shapeKind int

const (
	shInv shapeKind = iota
	shLeaf
	shStruct
	shSlice
	shBox
)

type shape struct {
	kind shapeKind
	kids []*shape
	leaf *leaf
	init *Term // for boxes: content at entry
	obj  *Term // for boxes: the object
}

type leaf struct {
	name   string
	typ    types.Type
	init   *Term
	lam    *Term
	step   *Term
	step0  *Term
	arr    bool // array content
	nat    bool // slice component
	ev     bool
	mp     bool
	class  string
	form   func(k *Term) *Term
	next   func(cur, k *Term) *Term
	bad    map[string]bool
	havoc  bool
	ptrObj bool
	ghost  bool
}

type root struct {
	phi  *ssa.Phi
	obj  *Term
	ev   bool
	typ  types.Type
	init *Term
	sh   *shape
}

type loopSum struct {
	ex      *Exec
	fr      *Frame
	l       *Loop
	from    *ssa.BasicBlock
	st      *State // at entry
	roots   []*root
	byObj   map[*Term]*root
	leaves  []*leaf
	kap     *Term
	n       *Term // trip count
	ext     map[*Term]func(s *State) *Term
	invs    []*Term // inductive facts over the λ symbols
	idMark  int
	curK    *Term // the iteration the head state stands for
	baseN   int
	guards0 [][]*PC
	ns      []*Term
	refined []Outcome
	ghosts  []*ghost
	noGhost bool
	noPow   bool
	restart bool // the state at entry was given another form
}

func (ex *Exec) summarise(fr *Frame, l *Loop, from *ssa.BasicBlock, st *State) []Outcome {
	ex.loopsN++
	s := &loopSum{ex: ex, fr: fr, l: l, from: from, st: st.clone(), byObj: map[*Term]*root{}, ext: map[*Term]func(*State) *Term{}}
	s.idMark = len(termList)
	s.kap = freshInt("k", big0, nil)
	idx := -1
	for i, p := range l.header.Preds {
		if p == from {
			idx = i
		}
	}
	for _, ins := range l.header.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		s.roots = append(s.roots, &root{phi: phi, typ: phi.Type(), init: st.simp(ex.value(fr, phi.Edges[idx])), sh: &shape{}})
	}
	s.roots = append(s.roots, &root{ev: true, init: st.ev, sh: &shape{}})
	return s.solve()
}

func (s *loopSum) where() string {
	return s.ex.pos(s.fr, s.l.header.Instrs[len(s.l.header.Instrs)-1])
}

// ---------------------------------------------------------------- header states

func (s *loopSum) shapeVal(sh *shape, init *Term, k *Term, st *State) *Term {
	switch sh.kind {
	case shInv:
		return init
	case shLeaf:
		if sh.leaf.form != nil && k != nil {
			return sh.leaf.form(k)
		}
		return sh.leaf.lam
	case shStruct:
		args := make([]*Term, len(init.args))
		for i := range args {
			args[i] = s.shapeVal(sh.kids[i], init.args[i], k, st)
		}
		return mk(init.op, init.name, init.kind, init.typ, args...)
	case shSlice:
		obj := s.shapeVal(sh.kids[0], init.args[0], k, st)
		off := s.shapeVal(sh.kids[1], init.args[1], k, st)
		ln := s.shapeVal(sh.kids[2], init.args[2], k, st)
		sp := s.shapeVal(sh.kids[3], mkSub(init.args[3], init.args[2]), k, st)
		return mkSlice(obj, off, ln, mkAdd(ln, sp))
	case shBox:
		isnil := s.shapeVal(sh.kids[0], mkIsNil(init), k, st)
		c := *st.heap[sh.obj]
		c.val = s.shapeVal(sh.kids[1], sh.init, k, st)
		st.heap[sh.obj] = &c
		return mkIte(isnil, tNil, mkPtr(sh.obj))
	}
	panic("shape")
}

// enter builds the state at the loop head in iteration k (nil: arbitrary).
func (s *loopSum) enter(k *Term, facts ...*Term) []struct {
	fr *Frame
	st *State
} {
	type fs = struct {
		fr *Frame
		st *State
	}
	var res []fs
	pcs := []*PC{s.st.pc}
	all := append([]*Term(nil), facts...)
	all = append(all, s.invAt(k)...)
	if k != nil {
		all = append(all, s.ghostFacts(k)...)
	}
	for _, f := range all {
		var next []*PC
		for _, pc := range pcs {
			next = append(next, pc.assumeAll(f)...)
		}
		pcs = next
	}
	for _, pc := range pcs {
		st := s.st.withPC(pc).clone()
		fr := s.fr.clone()
		fr.loops = append(append([]*Loop(nil), fr.loops...), s.l)
		for _, r := range s.roots {
			if r.phi != nil {
				fr.env[r.phi] = s.shapeVal(r.sh, r.init, k, st)
			} else if r.ev {
				st.ev = s.shapeVal(r.sh, r.init, k, st)
			} else {
				c := *st.heap[r.obj]
				c.val = s.shapeVal(r.sh, r.init, k, st)
				st.heap[r.obj] = &c
			}
		}
		for obj, f := range s.ext {
			c := *st.cell(obj, nil)
			c.extent = f(st)
			st.heap[obj] = &c
		}
		res = append(res, fs{fr, st})
	}
	return res
}

// invAt: the inductive facts at iteration k.
func (s *loopSum) invAt(k *Term) []*Term {
	if k == nil {
		return append([]*Term(nil), s.invs...)
	}
	m := map[*Term]*Term{s.kap: k}
	for _, lf := range s.leaves {
		if lf.class == "rec" && lf.form != nil && lf.lam.kind == KInt {
			m[lf.lam] = lf.form(k)
		}
	}
	var out []*Term
	for _, f := range s.invs {
		f = subst(f, m)
		if f != tTrue {
			out = append(out, f)
		}
	}
	return out
}

// run analyses one iteration from the head.
func (s *loopSum) run(k *Term, facts ...*Term) []Outcome {
	var outs []Outcome
	for _, e := range s.enter(k, facts...) {
		outs = append(outs, s.ex.runBlock(e.fr, s.l.header, 0, e.st)...)
	}
	return outs
}

func (s *loopSum) backVal(r *root, o Outcome) *Term {
	switch {
	case r.phi != nil:
		idx := -1
		for i, p := range s.l.header.Preds {
			if p == o.pred {
				idx = i
			}
		}
		return o.st.simp(s.ex.value(o.fr, r.phi.Edges[idx]))
	case r.ev:
		return o.st.ev
	}
	return o.st.cell(r.obj, nil).val
}

// ---------------------------------------------------------------- what changes

func (s *loopSum) newLeaf(name string, typ types.Type, init *Term) *leaf {
	lf := &leaf{name: name, typ: typ, init: init, bad: map[string]bool{}}
	s.leaves = append(s.leaves, lf)
	return lf
}

func (s *loopSum) mkLam(lf *leaf) {
	switch {
	case lf.ev:
		lf.lam = freshSym("λev", nil)
	case lf.arr:
		symCount["λarr"]++
		lf.lam = mk("asym", fmt.Sprintf("λarr'%d", symCount["λarr"]), KOther, lf.typ)
	case lf.mp:
		symCount["λmap"]++
		lf.lam = mk("msym", fmt.Sprintf("λmap'%d", symCount["λmap"]), KOther, lf.typ)
	case lf.nat:
		lf.lam = freshInt("λ"+lf.name, big0, maxLen)
	case lf.typ == nil:
		k := lf.init.kind
		symCount["λ"]++
		lf.lam = mk("sym", fmt.Sprintf("λ%s'%d", lf.name, symCount["λ"]), k, nil)
	default:
		lf.lam = freshSym("λ"+lf.name, lf.typ)
	}
}

// refine makes the parts of a value that the body changed into leaves.
func (s *loopSum) refine(sh *shape, name string, typ types.Type, initp **Term, head, back *Term, cell *Cell, o Outcome, entry *State) bool {
	if head == back {
		return false
	}
	init := *initp
	switch sh.kind {
	case shLeaf:
		return false
	case shInv:
		if cell != nil && cell.arr {
			lf := s.newLeaf(name, cell.typ, init)
			lf.arr = true
			sh.kind, sh.leaf = shLeaf, lf
			s.mkLam(lf)
			return true
		}
		if cell != nil && isMapContent(init) {
			lf := s.newLeaf(name, cell.typ, init)
			lf.mp = true
			sh.kind, sh.leaf = shLeaf, lf
			s.mkLam(lf)
			return true
		}
		if (init.op == "struct" || init.op == "tuple") && back.op == init.op && len(back.args) == len(init.args) {
			sh.kind = shStruct
			sh.kids = make([]*shape, len(init.args))
			for i := range sh.kids {
				sh.kids[i] = &shape{}
			}
			return s.refine(sh, name, typ, initp, head, back, nil, o, entry)
		}
		if init.op == "slice" && back.op == "slice" {
			sh.kind = shSlice
			sh.kids = []*shape{{}, {}, {}, {}}
			if init.args[0].op == "nil" && back.args[0].op != "nil" {
				// a nil slice that grows: an empty array of its own
				var et types.Type
				if typ != nil {
					if sl, ok := typ.Underlying().(*types.Slice); ok {
						et = sl.Elem()
					}
				}
				if et == nil {
					s.misfit("growing slice of unknown type in %s", s.where())
				}
				o := entry.allocArr("grow", et, mk("azero", "", KOther, et), intConst(0))
				*initp = mkSlice(o, intConst(0), intConst(0), intConst(0))
				s.restart = true
				return true
			}
			return s.refine(sh, name, typ, initp, head, back, nil, o, entry)
		}
		if b := s.boxable(init, back, entry, o); b {
			var et types.Type
			if typ != nil {
				et = ptrElem(typ)
			}
			if et == nil {
				break
			}
			content := zeroValue(et)
			if init.op == "ptr" {
				content = entry.heap[init.args[0]].val
			}
			obj := entry.alloc("box", et, content)
			sh.kind = shBox
			sh.obj, sh.init = obj, content
			sh.kids = []*shape{{}, {}}
			return true
		}
		lf := s.newLeaf(name, typ, init)
		if name == "ev" {
			lf.ev = true
		}
		if typ == nil && init.kind == KInt {
			lf.nat = true
		}
		sh.kind, sh.leaf = shLeaf, lf
		s.mkLam(lf)
		return true
	case shStruct:
		ch := false
		if back.op != init.op || len(back.args) != len(init.args) || head.op != init.op {
			s.misfit("value %s changes its form in the loop at %s", name, s.where())
		}
		args := append([]*Term(nil), init.args...)
		for i := range init.args {
			var ft types.Type
			if typ != nil {
				switch u := typ.Underlying().(type) {
				case *types.Struct:
					ft = u.Field(i).Type()
				case *types.Tuple:
					ft = u.At(i).Type()
				}
			}
			if s.refine(sh.kids[i], fmt.Sprintf("%s.%d", name, i), ft, &args[i], head.args[i], back.args[i], nil, o, entry) {
				ch = true
			}
		}
		*initp = mk(init.op, init.name, init.kind, init.typ, args...)
		return ch
	case shSlice:
		if back.op != "slice" {
			s.misfit("slice %s changes its form in the loop at %s", name, s.where())
		}
		ch := false
		args := []*Term{init.args[0], init.args[1], init.args[2], mkSub(init.args[3], init.args[2])}
		hs := []*Term{head.args[0], head.args[1], head.args[2], mkSub(head.args[3], head.args[2])}
		bs := []*Term{back.args[0], back.args[1], back.args[2], mkSub(back.args[3], back.args[2])}
		names := []string{"obj", "off", "len", "spare"}
		for i := range args {
			if i == 0 && hs[0] != bs[0] {
				s.misfit("slice %s moves to other storage in the loop at %s", name, s.where())
			}
			if s.refine(sh.kids[i], name+"."+names[i], nil, &args[i], hs[i], bs[i], nil, o, entry) {
				ch = true
				if i == 3 {
					sh.kids[3].leaf.havoc = true
				}
			}
		}
		*initp = mkSlice(args[0], args[1], args[2], mkAdd(args[2], args[3]))
		return ch
	case shBox:
		if !s.boxable(init, back, entry, o) {
			s.misfit("pointer %s in the loop at %s", name, s.where())
		}
		ch := false
		isn := mkIsNil(init)
		// the nil-ness
		if s.refine(sh.kids[0], name+".nil", types.Typ[types.Bool], &isn, mkIsNil(head), mkIsNil(back), nil, o, entry) {
			ch = true
		}
		if c := s.boxContent(back, o); c != nil {
			h := sh.init
			if hc := headContent(head, o, sh.obj); hc != nil {
				h = hc
			}
			if s.refine(sh.kids[1], name+".box", ptrElem(typ), &sh.init, h, c, nil, o, entry) {
				ch = true
			}
		}
		return ch
	}
	return false
}

func headContent(head *Term, o Outcome, obj *Term) *Term { return nil }

// boxable: the pointer is nil or refers to an object made in the analysed code.
func (s *loopSum) boxable(init, back *Term, entry *State, o Outcome) bool {
	ok := func(p *Term, st *State) bool {
		r := true
		lift1(p, func(p *Term) *Term {
			switch {
			case p.op == "nil":
			case p.op == "ptr" && len(p.args) == 1 && p.args[0].op == "obj":
				c := st.heap[p.args[0]]
				if c == nil || c.param || c.arr {
					r = false
				}
			default:
				r = false
			}
			return p
		})
		return r
	}
	if isIte(init) {
		return false
	}
	return ok(init, entry) && ok(back, o.st)
}

func (s *loopSum) boxContent(p *Term, o Outcome) *Term {
	var r *Term
	lift1(p, func(p *Term) *Term {
		if p.op == "ptr" {
			r = o.st.heap[p.args[0]].val
		}
		return p
	})
	return r
}

func isMapContent(t *Term) bool {
	switch t.op {
	case "mempty", "msym", "mstore", "mdel", "mbulk":
		return true
	case "ite":
		return isMapContent(t.args[1])
	}
	return false
}

// discover finds the leaves.
func (s *loopSum) discover() []Outcome {
	lastMisfit := ""
	for iter := 0; iter < 30; iter++ {
		outs := s.run(nil)
		changed := false
		s.restart = false
		for _, o := range outs {
			if o.kind != OutBack || s.restart {
				continue
			}
			for _, r := range s.roots {
				if s.restart {
					break
				}
				ch, why := s.tryRefine(r, o)
				if why != "" {
					// perhaps a path that the facts found later exclude
					lastMisfit = why
					continue
				}
				if ch {
					changed = true
				}
			}
			if s.restart {
				break
			}
			var objs []*Term
			for obj := range o.st.heap {
				objs = append(objs, obj)
			}
			sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
			for _, obj := range objs {
				c := o.st.heap[obj]
				if s.byObj[obj] != nil || s.isBoxObj(obj) {
					continue
				}
				e := s.st.heap[obj]
				if e == nil {
					if !c.param {
						continue // made in this iteration
					}
					if occursAny(obj, s.isLam) {
						continue
					}
					e = initialCell(obj, c.typ)
					s.st.heap[obj] = e
				}
				if e.val != c.val {
					r := &root{obj: obj, typ: e.typ, init: e.val, sh: &shape{}}
					s.roots = append(s.roots, r)
					s.byObj[obj] = r
					if _, why := s.tryRefine(r, o); why != "" {
						s.ex.giveUp("%s", why)
					}
					changed = true
				}
				if s.extChanged(obj, o) && s.ext[obj] == nil {
					s.bindExtent(obj, o)
					changed = true
				}
			}
			for obj := range s.byObj {
				if s.ext[obj] == nil && s.extChanged(obj, o) {
					s.bindExtent(obj, o)
					changed = true
				}
			}
		}
		if !changed {
			back := false
			for _, o := range outs {
				back = back || o.kind == OutBack
			}
			fit := s.fitting(outs)
			if back && lastMisfit != "" {
				any := false
				for _, o := range fit {
					any = any || o.kind == OutBack
				}
				if !any {
					s.ex.giveUp("%s", lastMisfit)
				}
			}
			return fit
		}
	}
	s.ex.giveUp("the state that the loop at %s changes cannot be bounded", s.where())
	return nil
}

type misfit struct{ why string }

func (s *loopSum) misfit(format string, a ...any) { panic(misfit{fmt.Sprintf(format, a...)}) }

func (s *loopSum) tryRefine(r *root, o Outcome) (ch bool, why string) {
	defer func() {
		if e := recover(); e != nil {
			m, ok := e.(misfit)
			if !ok {
				panic(e)
			}
			why = m.why
		}
	}()
	return s.refineRoot(r, o), ""
}

// fitting drops the continuing paths that change what the others keep.
func (s *loopSum) fitting(outs []Outcome) []Outcome {
	var r []Outcome
	for _, o := range outs {
		if o.kind != OutBack || s.fits(o) {
			r = append(r, o)
		}
	}
	return r
}

func (s *loopSum) fits(o Outcome) bool {
	for _, r := range s.roots {
		if !s.fitsShape(r.sh, r.init, s.backVal(r, o)) {
			debugf("  MISFIT %v %s: %s", r.obj, r.init, s.backVal(r, o))
			return false
		}
	}
	return true
}

func (s *loopSum) fitsShape(sh *shape, init, v *Term) bool {
	switch sh.kind {
	case shInv:
		return v == init || init.kind == KInt || init.kind == KBool || !structural(init) || !structural(v)
	case shStruct:
		if v.op != init.op || len(v.args) != len(init.args) {
			return false
		}
		for i := range sh.kids {
			if !s.fitsShape(sh.kids[i], init.args[i], v.args[i]) {
				return false
			}
		}
	case shSlice:
		if v.op != "slice" {
			return false
		}
		return sh.kids[0].kind != shInv || v.args[0] == init.args[0]
	}
	return true
}

// structural: slices and structures, whose parts are followed.
func structural(t *Term) bool { return t.op == "slice" || t.op == "struct" || t.op == "tuple" }

func (s *loopSum) isBoxObj(obj *Term) bool {
	var rec func(sh *shape) bool
	rec = func(sh *shape) bool {
		if sh.obj == obj {
			return true
		}
		for _, k := range sh.kids {
			if rec(k) {
				return true
			}
		}
		return false
	}
	for _, r := range s.roots {
		if rec(r.sh) {
			return true
		}
	}
	return false
}

func (s *loopSum) isLam(t *Term) bool {
	if t.op != "sym" && t.op != "asym" && t.op != "msym" {
		return false
	}
	for _, lf := range s.leaves {
		if lf.lam == t {
			return true
		}
	}
	return false
}

func (s *loopSum) refineRoot(r *root, o Outcome) bool {
	if r.sh.kind == shLeaf {
		return false
	}
	name := "ev"
	var cell *Cell
	if r.phi != nil {
		name = r.phi.Comment
		if name == "" {
			name = r.phi.Name()
		}
	} else if r.obj != nil {
		name = "*" + r.obj.name
		cell = s.st.heap[r.obj]
	}
	tmp := s.st.clone()
	head := s.shapeVal(r.sh, r.init, nil, tmp)
	init := r.init
	ch := s.refine(r.sh, name, r.typ, &init, head, s.backVal(r, o), cell, o, s.st)
	r.init = init
	if ch && r.obj != nil {
		c := *s.st.heap[r.obj]
		c.val = init
		s.st.heap[r.obj] = &c
	}
	return ch
}

func (s *loopSum) entryExtent(obj *Term) *Term {
	c := s.st.heap[obj]
	if c != nil && c.extent != nil {
		return c.extent
	}
	return s.st.initialExtent(obj)
}

func (s *loopSum) extChanged(obj *Term, o Outcome) bool {
	a, b := s.st.heap[obj], o.st.heap[obj]
	if b == nil {
		return false
	}
	if a == nil {
		return b.extent != nil
	}
	return a.extent != b.extent
}

// bindExtent ties the visible end of an array to a slice that grows in it.
func (s *loopSum) bindExtent(obj *Term, o Outcome) {
	var found func(st *State) *Term
	var rec func(sh *shape, get func(st *State) *Term, init *Term)
	rec = func(sh *shape, get func(*State) *Term, init *Term) {
		if found != nil {
			return
		}
		switch sh.kind {
		case shStruct:
			for i := range sh.kids {
				i := i
				rec(sh.kids[i], func(st *State) *Term { return get(st).args[i] }, init.args[i])
			}
		case shSlice:
			if init.args[0] == obj {
				e := s.entryExtent(obj)
				end := mkAdd(init.args[1], init.args[2])
				if e != nil && s.st.pc.decide(mkLe(e, end)) == Yes {
					found = func(st *State) *Term {
						v := get(st)
						return mkAdd(v.args[1], v.args[2])
					}
				}
			}
		}
	}
	for _, r := range s.roots {
		r := r
		rec(r.sh, func(st *State) *Term {
			if r.phi != nil {
				return s.shapeVal(r.sh, r.init, s.curK, st)
			}
			return st.heap[r.obj].val
		}, r.init)
	}
	if found == nil {
		x := freshInt("extent", big0, nil)
		found = func(*State) *Term { return x }
	}
	s.ext[obj] = found
}

// ---------------------------------------------------------------- steps

// cond is what a path added to the facts at the loop head.
func condOf(o Outcome, base int) *Term {
	c := tTrue
	ls := o.st.pc.literals()
	for i := len(ls) - 1; i >= base; i-- {
		if ls[i].derived {
			continue
		}
		l := ls[i].lit
		if !ls[i].val {
			l = mkNot(l)
		}
		c = mkAnd(l, c)
	}
	return c
}

func (s *loopSum) setSteps(outs []Outcome) {
	var backs []Outcome
	for _, o := range outs {
		if o.kind == OutBack {
			backs = append(backs, o)
		}
	}
	merge := func(vals []*Term) *Term {
		if len(vals) == 0 {
			return nil
		}
		v := vals[len(vals)-1]
		for i := len(vals) - 2; i >= 0; i-- {
			v = mkIte(s.relCond(backs[i]), vals[i], v)
		}
		return v
	}
	var rec func(sh *shape, vals []*Term, obs []Outcome)
	rec = func(sh *shape, vals []*Term, obs []Outcome) {
		switch sh.kind {
		case shLeaf:
			sh.leaf.step = merge(vals)
		case shStruct:
			for i := range sh.kids {
				var vs []*Term
				for _, v := range vals {
					vs = append(vs, v.args[i])
				}
				rec(sh.kids[i], vs, obs)
			}
		case shSlice:
			for i := range sh.kids {
				var vs []*Term
				for _, v := range vals {
					x := v.args[i]
					if i == 3 {
						x = mkSub(v.args[3], v.args[2])
					}
					vs = append(vs, x)
				}
				rec(sh.kids[i], vs, obs)
			}
		case shBox:
			var ns, cs []*Term
			for j, v := range vals {
				ns = append(ns, mkIsNil(v))
				c := s.boxContent(v, obs[j])
				if c == nil {
					c = s.shapeVal(sh.kids[1], sh.init, s.curK, s.st.clone())
				}
				cs = append(cs, c)
			}
			rec(sh.kids[0], ns, obs)
			rec(sh.kids[1], cs, obs)
		}
	}
	for _, r := range s.roots {
		var vals []*Term
		for _, o := range backs {
			vals = append(vals, s.backVal(r, o))
		}
		if len(vals) > 0 {
			rec(r.sh, vals, backs)
		}
	}
}

// relCond: the conditions of a path that tell it from the other paths.
func (s *loopSum) relCond(o Outcome) *Term { return condOf(o, s.baseN) }

func (s *loopSum) hasLam(t *Term) bool {
	return occursAny(t, s.isLam)
}

func (s *loopSum) solve() []Outcome {
	s.baseN = s.st.pc.n
	outs := s.discover()
	hasBack := false
	for _, o := range outs {
		if o.kind == OutBack {
			hasBack = true
		}
	}
	if !hasBack {
		return s.finish(outs)
	}
	debugf("LOOP %s: %d leaves, %d outcomes", s.where(), len(s.leaves), len(outs))
	s.setSteps(outs)
	s.guards0 = s.backConds(outs)
	for attempt := 0; ; attempt++ {
		if attempt > 12 {
			s.ex.giveUp("the loop at %s cannot be summarised", s.where())
		}
		s.counters()
		s.addGhosts()
		s.classify()
		if debug {
			for _, lf := range s.leaves {
				f := "?"
				if lf.form != nil {
					f = lf.form(s.kap).String()
				}
				debugf("  leaf %s init %s lam %s step %s\n     class %s form %s", lf.name, lf.init, lf.lam, lf.step, lf.class, f)
			}
		}
		s.findN()
		s.houdini()
		if s.check() {
			break
		}
	}
	return s.exits()
}

// ghost is the value that a changing array holds at a changing position,
// followed as a leaf of its own.
type ghost struct {
	lf  *leaf
	sel *Term // the read, in terms of the λ symbols
}

// addGhosts names the reads of changing arrays at positions that are
// themselves without closed form.
func (s *loopSum) addGhosts() {
	if s.noGhost {
		return
	}
	m := s.forms()
	m0 := map[*Term]*Term{}
	ms := map[*Term]*Term{}
	for _, lf := range s.leaves {
		m0[lf.lam] = lf.init
		if lf.step != nil {
			ms[lf.lam] = lf.step
		}
	}
	var found []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "sel" && t.args[0].op == "asym" && s.isLam(t.args[0]) && (t.kind == KInt || t.kind == KOther && t.name == "") {
			open := false
			for _, lf := range s.leaves {
				if lf.form == nil && !lf.arr && !lf.ev && !lf.mp && occurs(t.args[1], lf.lam) {
					open = true
				}
			}
			if open {
				dup := false
				for _, g := range s.ghosts {
					dup = dup || g.sel == t
				}
				if !dup {
					found = append(found, t)
				}
				return
			}
		}
		eachChild(t, rec)
	}
	for _, lf := range s.leaves {
		if lf.form == nil && !lf.havoc {
			rec(lf.step)
		}
	}
	for _, t := range found {
		A, i := t.args[0], t.args[1]
		lf := s.newLeaf("at", nil, s.st.simp(projectSel(mkSel(m0[A], subst(i, m0)), t)))
		lf.ghost = true
		if t.kind == KInt && t.typ == nil {
			lf.lam = freshInt("λat", t.lo, t.hi)
		} else {
			lf.lam = freshSym("λat", t.typ)
		}
		s.ghosts = append(s.ghosts, &ghost{lf, t})
	}
	if len(s.ghosts) == 0 {
		return
	}
	pcs := s.factPCs()
	if len(pcs) != 1 {
		return
	}
	st := s.st.withPC(pcs[0])
	rep := map[*Term]*Term{}
	for _, g := range s.ghosts {
		rep[g.sel] = g.lf.lam
	}
	fix := func(t *Term) *Term {
		t = subst(t, rep)
		// other positions still hold what they held at entry
		for guard := 0; guard < 20; guard++ {
			var sel *Term
			seen := map[*Term]bool{}
			var rec func(t *Term)
			rec = func(t *Term) {
				if sel != nil || seen[t] {
					return
				}
				seen[t] = true
				if t.op == "sel" && t.args[0].op == "asym" && s.isLam(t.args[0]) && !s.hasLam(subst(t.args[1], m)) {
					sel = t
					return
				}
				eachChild(t, rec)
			}
			rec(t)
			if sel == nil {
				break
			}
			t = subst1(t, sel, projectSel(mkSel(m0[sel.args[0]], sel.args[1]), sel))
		}
		return st.simp(t)
	}
	for _, g := range s.ghosts {
		A, i := g.sel.args[0], g.sel.args[1]
		g.lf.step = projectSel(mkSel(ms[A], subst(i, ms)), g.sel)
	}
	for _, lf := range s.leaves {
		if lf.form == nil && !lf.havoc {
			lf.step = fix(lf.step)
			if lf.ghost {
				lf.step = st.simp(lf.step)
			}
		}
	}
}

// ghostFacts: what the named reads stand for, at iteration k.
func (s *loopSum) ghostFacts(k *Term) []*Term {
	var out []*Term
	for _, g := range s.ghosts {
		if g.lf.form == nil {
			continue
		}
		m := map[*Term]*Term{}
		ok := true
		for _, lf := range s.leaves {
			if occurs(g.sel, lf.lam) {
				if lf.form == nil {
					ok = false
					break
				}
				m[lf.lam] = lf.form(k)
			}
		}
		if !ok {
			continue
		}
		f := mkEq(subst(g.sel, m), g.lf.form(k))
		debugf("  GHOSTFACT %d %s", len(f.String()), f)
		if f != tTrue {
			out = append(out, f)
		}
	}
	return out
}

func (s *loopSum) factPCs() []*PC {
	pcs := []*PC{s.st.pc}
	for _, f := range append(s.inFacts(), s.invAt(s.kap)...) {
		var nx []*PC
		for _, pc := range pcs {
			nx = append(nx, pc.assumeAll(f)...)
		}
		pcs = nx
	}
	return pcs
}

// checkGhosts: the named reads after one more iteration.
func (s *loopSum) checkGhosts(outs []Outcome) bool {
	good := true
	for _, o := range outs {
		if o.kind != OutBack || len(s.ghosts) == 0 {
			continue
		}
		m := map[*Term]*Term{}
		for _, r := range s.roots {
			s.backLeaves(r.sh, s.backVal(r, o), o, m)
		}
		for _, g := range s.ghosts {
			v := subst(g.sel, m)
			fm := s.forms()
			want := subst(subst(g.lf.step, fm), fm)
			if g.lf.form == nil || g.lf.class != "rec" && g.lf.class != "inv" || !s.same(o.st, v, want) {
				debugf("  CHECK ghost %s: %s\n   want %s", g.sel, v, want)
				good = false
			}
		}
	}
	if !good {
		s.noGhost = true
		var ls []*leaf
		for _, lf := range s.leaves {
			if !lf.ghost {
				ls = append(ls, lf)
			}
		}
		s.leaves, s.ghosts = ls, nil
	}
	return good
}

// counters finds the linear leaves first: with them and the trip count the
// body is followed once more from iteration k, which resolves the bounds
// checks and wraps of the counters in the steps of the other leaves.
func (s *loopSum) counters() {
	for _, lf := range s.leaves {
		lf.form, lf.next, lf.class = nil, nil, ""
		if lf.step0 == nil {
			lf.step0 = lf.step
		}
		lf.step = lf.step0
	}
	any := false
	for progress := true; progress; {
		progress = false
		m := s.forms()
		for _, lf := range s.leaves {
			if lf.form != nil || lf.havoc || lf.arr || lf.ev || lf.mp || lf.init.kind != KInt {
				continue
			}
			if s.classify1(lf, subst(lf.step, m)) {
				if lf.class == "inv" || lf.class == "linear" {
					progress, any = true, true
					m = s.forms()
				} else {
					lf.form, lf.next, lf.class = nil, nil, ""
				}
			}
		}
	}
	if !any {
		return
	}
	s.findN()
	if s.n == nil {
		return
	}
	s.houdini()
	facts := s.inFacts()
	pcs := s.factPCs()
	if len(pcs) != 1 {
		return
	}
	old := s.baseN
	s.baseN = pcs[0].n
	s.curK = s.kap
	outs := s.fitting(s.run(s.kap, facts...))
	s.curK = nil
	has := false
	for _, o := range outs {
		if o.kind == OutBack {
			has = true
		}
	}
	if has {
		s.setSteps(outs)
	}
	s.baseN = old
}

// backConds: per back path the facts it adds.
func (s *loopSum) backConds(outs []Outcome) [][]*PC {
	var r [][]*PC
	for _, o := range outs {
		if o.kind == OutBack {
			r = append(r, o.st.pc.literals()[s.baseN:])
		}
	}
	return r
}

// forms substitutes the closed forms for the λ symbols.
func (s *loopSum) forms() map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, lf := range s.leaves {
		if lf.form != nil {
			m[lf.lam] = lf.form(s.kap)
		}
	}
	return m
}

// findN computes the number of iterations from the guards that every
// continuing path passes.
func (s *loopSum) findN() {
	s.n = nil
	s.ns = nil
	m := s.forms()
	type lit struct {
		t *Term
		v bool
	}
	var common map[lit]bool
	for _, ls := range s.guards0 {
		cur := map[lit]bool{}
		for _, l := range ls {
			t := subst(l.lit, m)
			v := l.val
			if isIte(t) && t.args[1] == tFalse && t.args[2] == tTrue {
				t, v = t.args[0], !v
			}
			// conjunctions: all atoms that must hold
			for _, a := range mustHold(t, v) {
				cur[lit{a.t, a.v}] = true
			}
		}
		if common == nil {
			common = cur
		} else {
			for k := range common {
				if !cur[k] {
					delete(common, k)
				}
			}
		}
	}
	var ls []lit
	for k := range common {
		ls = append(ls, k)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].t.id < ls[j].t.id })
	for _, l := range ls {
		var p *Term
		eq := false
		switch l.t.op {
		case "ge0":
			p = stripWraps(l.t.args[0])
			if !l.v {
				p = mkAddK(mkNeg(p), -1)
			}
		case "eq0":
			if l.v {
				continue
			}
			p = stripWraps(l.t.args[0])
			eq = true
		default:
			continue
		}
		if isIte(p) || s.hasLam(p) {
			continue
		}
		a, b := linearIn(p, s.kap)
		if a == nil || a.Sign() == 0 {
			continue
		}
		var n *Term
		if eq {
			if a.CmpAbs(big1) != 0 {
				continue
			}
			if a.Sign() > 0 {
				n = mkNeg(b)
			} else {
				n = b
			}
			// a negative count would never stop
			if s.st.pc.decide(mkGe0(n)) != Yes {
				continue
			}
		} else {
			if a.Sign() > 0 {
				continue
			}
			c := new(big.Int).Neg(a)
			n = mkAddK(mkFdiv(b, c), 1)
		}
		if s.n == nil {
			s.n = n
		}
		s.ns = append(s.ns, n)
	}
	debugf("  N = %v (%d guards)", s.n, len(s.ns))
}

// stripWraps: under the hypothesis that the counters do not overflow.
func stripWraps(p *Term) *Term {
	return lift1(p, func(p *Term) *Term {
		acc := newAcc()
		ch := false
		for _, m := range monos(p) {
			if len(m.vars) == 1 && m.vars[0].op == "wrap" {
				acc.addPoly(m.c, monos(stripWraps(m.vars[0].args[0])))
				ch = true
				continue
			}
			acc.add(m.c, m.vars)
		}
		if !ch {
			return p
		}
		return acc.term()
	})
}

type litv struct {
	t *Term
	v bool
}

// mustHold lists the atoms that are necessary for the condition.
func mustHold(t *Term, v bool) []litv {
	if !isIte(t) {
		return []litv{{t, v}}
	}
	if !v {
		t = mkNot(t)
	}
	var out []litv
	for isIte(t) {
		if t.args[1] == tFalse {
			out = append(out, litv{t.args[0], false})
			t = t.args[2]
		} else if t.args[2] == tFalse {
			out = append(out, litv{t.args[0], true})
			t = t.args[1]
		} else {
			return out
		}
	}
	if t.kind == KBool && t != tTrue && t != tFalse {
		out = append(out, litv{t, true})
	}
	return out
}

// linearIn splits p = a*k + b with b free of k.
func linearIn(p, k *Term) (*big.Int, *Term) {
	a := big.NewInt(0)
	acc := newAcc()
	for _, m := range monos(p) {
		if len(m.vars) == 1 && m.vars[0] == k {
			a = m.c
			continue
		}
		for _, v := range m.vars {
			if occurs(v, k) {
				return nil, nil
			}
		}
		acc.add(m.c, m.vars)
	}
	return a, acc.term()
}

// ---------------------------------------------------------------- closed forms

func (s *loopSum) classify() {
	if s.ex.powers {
		s.powLoop()
	}
	for progress := true; progress; {
		progress = false
		m := s.forms()
		for _, lf := range s.leaves {
			if lf.form != nil || lf.havoc {
				continue
			}
			if s.classify1(lf, subst(lf.step, m)) {
				progress = true
				m = s.forms()
			}
		}
		if !progress {
			progress = s.classifyRec(m)
		}
	}
}

func (s *loopSum) lamsIn(t *Term) map[*leaf]bool {
	r := map[*leaf]bool{}
	for _, lf := range s.leaves {
		if lf.form == nil && occurs(t, lf.lam) {
			r[lf] = true
		}
	}
	return r
}

func (s *loopSum) set(lf *leaf, class string, form func(k *Term) *Term, next func(cur, k *Term) *Term) bool {
	if lf.bad[class] {
		return false
	}
	lf.class, lf.form, lf.next = class, form, next
	return true
}

func (s *loopSum) classify1(lf *leaf, T *Term) bool {
	ls := s.lamsIn(T)
	x := lf.lam
	for o := range ls {
		if o != lf {
			return false
		}
	}
	kap := s.kap
	at := func(t *Term) func(k *Term) *Term {
		return func(k *Term) *Term { return subst1(t, kap, k) }
	}
	if T == x {
		return s.set(lf, "inv", func(k *Term) *Term { return lf.init }, func(cur, k *Term) *Term { return cur })
	}
	if lf.ev {
		body, ok := stripPrefix(T, x, "evcat")
		if !ok || occurs(body, x) {
			return false
		}
		return s.set(lf, "events", func(k *Term) *Term {
			b := freshInt("b", big0, nil)
			return mkEvCat(lf.init, mkEvLoop(k, b, subst1(body, kap, b)))
		}, func(cur, k *Term) *Term { return evAppend(cur, subst1(body, kap, k)) })
	}
	if lf.arr {
		return s.classifyArr(lf, T)
	}
	if lf.mp {
		return s.classifyMap(lf, T)
	}
	if len(ls) == 0 {
		g := at(T)
		// the value does not depend on the iteration: set in every one
		if T == lf.init {
			return s.set(lf, "inv", func(k *Term) *Term { return lf.init }, func(cur, k *Term) *Term { return cur })
		}
		// a closed form that the entry value fits as well
		if !isOpaqueInt(T) && !occurs(T, kap) {
		} else if g(intConst(-1)) == lf.init && !lf.bad["shifted"] {
			return s.set(lf, "shifted", func(k *Term) *Term { return g(mkAddK(k, -1)) }, func(cur, k *Term) *Term { return g(k) })
		}
		if s.chase(lf, T) {
			return true
		}
		return s.set(lf, "delayed", func(k *Term) *Term {
			return mkIte(mkEq0(k), lf.init, g(mkAddK(k, -1)))
		}, func(cur, k *Term) *Term { return g(k) })
	}
	if s.chase(lf, T) {
		return true
	}
	switch x.kind {
	case KInt:
		ii, hasW := intInfo{}, false
		if lf.typ != nil {
			ii, hasW = intType(lf.typ)
		}
		if s.ex.powers && hasW && ii.w > 0 {
			// multiplied by the same in every iteration
			if p, zero, ok := parsePow(T, ii.w); ok && !zero && p[x] != nil && p[x].isConst(1) && len(p) == 2 {
				for b, e := range p {
					if b == x || occurs(b, x) || occurs(e, x) || occurs(b, kap) || occurs(e, kap) {
						continue
					}
					return s.set(lf, "geometric", func(k *Term) *Term { return mkWrap(mkMul(lf.init, powOf(b, mkMul(e, k))), ii) },
						func(cur, k *Term) *Term { return mkWrap(mkMul(lf.init, powOf(b, mkAdd(mkMul(e, k), e))), ii) })
				}
			}
		}
		d0 := mkSub(stripWraps(T), x)
		if !occurs(d0, x) {
			if !occurs(d0, kap) && !isIte(d0) {
				if s.set(lf, "linear", func(k *Term) *Term { return mkAdd(lf.init, mkMul(d0, k)) }, func(cur, k *Term) *Term { return mkAdd(cur, d0) }) {
					return true
				}
				if hasW && ii.w > 0 && s.set(lf, "modular", func(k *Term) *Term { return mkWrap(mkAdd(lf.init, mkMul(d0, k)), ii) }, func(cur, k *Term) *Term { return mkWrap(mkAdd(cur, d0), ii) }) {
					return true
				}
			}
			// sums of conditional constants
			if cs, ok := condConsts(d0); ok {
				if s.set(lf, "count", func(k *Term) *Term {
					r := lf.init
					for _, c := range cs {
						r = mkAdd(r, mkScale(c.c, mkCount(k, kap, c.p)))
					}
					return r
				}, func(cur, k *Term) *Term { return mkAdd(cur, subst1(d0, kap, k)) }) {
					return true
				}
			}
		}
	case KBool:
		t1, t0 := subst1(T, x, tTrue), subst1(T, x, tFalse)
		if t0 == tFalse {
			if s.set(lf, "all", func(k *Term) *Term {
				b := freshInt("b", big0, nil)
				return mkAnd(lf.init, mkForall(k, b, subst1(t1, kap, b)))
			}, func(cur, k *Term) *Term { return mkAnd(cur, subst1(t1, kap, k)) }) {
				return true
			}
		}
		if t1 == tTrue {
			if s.set(lf, "any", func(k *Term) *Term {
				b := freshInt("b", big0, nil)
				return mkOr(lf.init, mkNot(mkForall(k, b, mkNot(subst1(t0, kap, b)))))
			}, func(cur, k *Term) *Term { return mkOr(cur, subst1(t0, kap, k)) }) {
				return true
			}
		}
	}
	if isStrTyp(lf.typ) {
		if body, ok := stripPrefix(T, x, "strcat"); ok && !occurs(body, x) {
			if s.set(lf, "text", func(k *Term) *Term {
				b := freshInt("b", big0, nil)
				return mkCat(lf.init, mkSmap(k, b, subst1(body, kap, b)))
			}, func(cur, k *Term) *Term { return mkCat(cur, subst1(body, kap, k)) }) {
				return true
			}
		}
	}
	return false
}

func isOpaqueInt(t *Term) bool { return t.kind == KInt }

func isStrTyp(t types.Type) bool { return t != nil && isString(t) }

func mkCount(k, kap, p *Term) *Term {
	b := freshInt("b", big0, nil)
	c := bindTerm("count", "", KInt, nil, []*Term{k}, []*Term{b}, subst1(p, kap, b))
	c.lo, c.hi = big0, maxLen
	if k.isConst(0) {
		return intConst(0)
	}
	return c
}

type condConst struct {
	c *big.Int
	p *Term
}

// condConsts views an integer decision diagram with constant leaves as a
// sum of constants with their conditions.
func condConsts(t *Term) ([]condConst, bool) {
	vals := map[string]*big.Int{}
	ok := true
	var rec func(t *Term)
	rec = func(t *Term) {
		if isIte(t) {
			rec(t.args[1])
			rec(t.args[2])
			return
		}
		if c := t.constVal(); c != nil {
			vals[c.String()] = c
		} else {
			ok = false
		}
	}
	rec(t)
	if !ok {
		return nil, false
	}
	var ks []string
	for k := range vals {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []condConst
	for _, k := range ks {
		c := vals[k]
		if c.Sign() == 0 {
			continue
		}
		p := lift1(t, func(l *Term) *Term { return mkBool(l.constVal().Cmp(c) == 0) })
		out = append(out, condConst{c, p})
	}
	return out, true
}

// stripPrefix: every case of T is the concatenation of x and a rest.
func stripPrefix(T, x *Term, op string) (*Term, bool) {
	ok := true
	unit := evNil
	cat := mkEvCat
	if op == "strcat" {
		unit = mkStr("")
		cat = mkCat
	}
	r := lift1(T, func(t *Term) *Term {
		if t == x {
			return unit
		}
		if t.op == op && len(t.args) > 0 && t.args[0] == x {
			return cat(t.args[1:]...)
		}
		ok = false
		return unit
	})
	return r, ok
}

func evAppend(cur, e *Term) *Term {
	return lift1(e, func(e *Term) *Term { return mkEvCat(cur, e) })
}

// ---------------------------------------------------------------- arrays

func (s *loopSum) classifyArr(lf *leaf, T *Term) bool {
	A, kap := lf.lam, s.kap
	// the stores of one iteration, per case of the decision diagram
	type store struct{ i, v *Term }
	parse := func(t *Term) ([]store, bool) {
		var r []store
		for t != A {
			if t.op != "astore" {
				return nil, false
			}
			r = append([]store{{t.args[1], t.args[2]}}, r...)
			t = t.args[0]
		}
		return r, true
	}
	pcs := s.st.pc.assumeAll(mkGe0(kap))
	if len(pcs) != 1 {
		return false
	}
	pc := pcs[0]
	if s.n != nil {
		if q := pc.assumeAll(mkLt(kap, s.n)); len(q) == 1 {
			pc = q[0]
		}
	}
	for _, n := range s.ns {
		if q := pc.assumeAll(mkLt(kap, n)); len(q) == 1 {
			pc = q[0]
		}
	}
	if isIte(T) {
		// one store under a condition, at a counter of that condition
		var P *Term
		var st *store
		ok := true
		cond := lift1(T, func(t *Term) *Term {
			ss, o := parse(t)
			if !o || len(ss) > 1 {
				ok = false
				return tFalse
			}
			if len(ss) == 0 {
				return tFalse
			}
			if st != nil && (st.i != ss[0].i) {
				ok = false
			}
			st = &ss[0]
			return tTrue
		})
		if ok && st != nil && cond != tTrue {
			P = cond
			val := lift1(T, func(t *Term) *Term {
				ss, _ := parse(t)
				if len(ss) == 0 {
					return st.v
				}
				return ss[0].v
			})
			if occurs(P, A) || occurs(val, A) {
				return false
			}
			cnt := mkCount(kap, kap, P)
			lo := mkSub(st.i, cnt)
			if occurs(lo, kap) {
				return false
			}
			return s.set(lf, "filter", func(k *Term) *Term {
				return mkFilt(lf.init, lo, k, kap, P, val)
			}, func(cur, k *Term) *Term {
				return mkIte(subst1(P, kap, k), mkStore(cur, subst1(st.i, kap, k), subst1(val, kap, k)), cur)
			})
		}
		// the same positions in every case: merge the values
		var first []store
		lift1(T, func(t *Term) *Term {
			ss, o := parse(t)
			if !o {
				ok = false
			} else if first == nil {
				first = ss
			}
			return tNil
		})
		if !ok {
			return false
		}
		return false
	}
	ss, ok := parse(T)
	if !ok || len(ss) == 0 {
		return false
	}
	// every store has unit stride
	type region struct {
		lo  *Term // value of the index at k = 0
		dir int   // +1 or -1
	}
	var regs []region
	for _, st := range ss {
		if isIte(st.i) {
			return false
		}
		a, b := linearIn(st.i, kap)
		if a == nil || a.CmpAbs(big1) != 0 {
			return s.classifyArrFixed(lf, T)
		}
		regs = append(regs, region{b, int(a.Int64())})
	}
	// what the stores write, in terms of the array at entry
	resolve := func(t *Term) (*Term, bool) {
		ok := true
		for guard := 0; guard < 40; guard++ {
			sel := findSel(t, A)
			if sel == nil {
				break
			}
			j := sel.args[1]
			rep := s.readOld(pc, A, lf.init, sel, j, func() []regionAt {
				var r []regionAt
				for _, g := range regs {
					if g.dir > 0 {
						r = append(r, regionAt{g.lo, mkAdd(g.lo, kap)})
					} else {
						r = append(r, regionAt{mkAddK(mkSub(g.lo, kap), 1), mkAddK(g.lo, 1)})
					}
				}
				return r
			}())
			if rep == nil {
				ok = false
				break
			}
			t = subst1(t, sel, rep)
		}
		return t, ok
	}
	var vals []*Term
	for _, st := range ss {
		v, ok := resolve(st.v)
		if !ok || occurs(v, A) {
			return false
		}
		vals = append(vals, v)
	}
	// different regions must not overlap in one run
	for i := range regs {
		for j := i + 1; j < len(regs); j++ {
			ri, rj := regs[i], regs[j]
			if ri.dir == rj.dir {
				return false
			}
			up, down := ri, rj
			if ri.dir < 0 {
				up, down = rj, ri
			}
			// up: [lo, lo+k], down: [hi-k, hi]
			if pc.decide(mkLt(mkAdd(up.lo, kap), mkSub(down.lo, kap))) != Yes && pc.decide(mkLt(down.lo, up.lo)) != Yes {
				if pc.decide(mkLe(mkAdd(up.lo, kap), mkSub(down.lo, kap))) != Yes {
					return false
				}
			}
		}
	}
	return s.set(lf, "segment", func(k *Term) *Term {
		B := lf.init
		for i, g := range regs {
			b := freshInt("b", big0, nil)
			if g.dir > 0 {
				B = mkSeg(B, g.lo, k, b, subst1(vals[i], kap, b))
			} else {
				B = mkSeg(B, mkAddK(mkSub(g.lo, k), 1), k, b, subst1(vals[i], kap, mkAddK(mkSub(k, b), -1)))
			}
		}
		return B
	}, func(cur, k *Term) *Term {
		orig := cur
		for _, st := range ss {
			v := subst1(st.v, kap, k)
			v = subst1(v, A, orig)
			cur = mkStore(cur, subst1(st.i, kap, k), v)
		}
		return cur
	})
}

// classifyArrFixed: every iteration stores at a position that does not move.
func (s *loopSum) classifyArrFixed(lf *leaf, T *Term) bool { return false }

type regionAt struct{ lo, hi *Term } // [lo, hi)

// readOld: position j of the array is not in a region written before.
func (s *loopSum) readOld(pc *PC, A, init, sel, j *Term, regs []regionAt) *Term {
	for _, r := range regs {
		if pc.decide(mkOr(mkLt(j, r.lo), mkGe(j, r.hi))) != Yes {
			return nil
		}
	}
	return projectSel(mkSel(init, j), sel)
}

// findSel finds a read of array A.
func findSel(t, A *Term) *Term {
	var r *Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if r != nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "sel" && t.args[0] == A && !occurs(t.args[1], A) {
			r = t
			return
		}
		eachChild(t, rec)
	}
	rec(t)
	return r
}

// mkFilt: positions lo.. hold the values of the accepted ones of 0..n-1.
func mkFilt(A, lo, n, k, P, v *Term) *Term {
	if n.isConst(0) {
		return A
	}
	return bindTerm("afilt", "", KOther, nil, []*Term{A, lo, n}, []*Term{k}, P, v)
}

func (s *loopSum) classifyMap(lf *leaf, T *Term) bool { return false }

// ---------------------------------------------------------------- nodes of linked structures

// chase: a pointer that moves along a chain of nodes.
func (s *loopSum) chase(lf *leaf, T *Term) bool {
	if lf.typ == nil {
		return false
	}
	if _, ok := lf.typ.Underlying().(*types.Pointer); !ok {
		return false
	}
	if f := chaseForm; f != nil {
		if form := f(s, lf); form != nil && !lf.bad["chase"] {
			return s.set(lf, "chase", form, func(cur, k *Term) *Term { return form(mkAddK(k, 1)) })
		}
	}
	return false
}

var chaseForm func(s *loopSum, lf *leaf) func(k *Term) *Term

// ---------------------------------------------------------------- generic recurrences

// classifyRec gives a closed group of mutually dependent leaves the name of
// their recurrence.
func (s *loopSum) classifyRec(m map[*Term]*Term) bool {
	var todo []*leaf
	for _, lf := range s.leaves {
		if lf.form == nil && !lf.havoc {
			todo = append(todo, lf)
		}
	}
	if len(todo) == 0 {
		return false
	}
	steps := map[*leaf]*Term{}
	deps := map[*leaf]map[*leaf]bool{}
	for _, lf := range todo {
		steps[lf] = subst(lf.step, m)
		deps[lf] = s.lamsIn(steps[lf])
	}
	// the smallest closed group
	var best []*leaf
	for _, lf := range todo {
		grp := []*leaf{lf}
		in := map[*leaf]bool{lf: true}
		ok := true
		for i := 0; i < len(grp); i++ {
			var ds []*leaf
			for d := range deps[grp[i]] {
				ds = append(ds, d)
			}
			sort.Slice(ds, func(a, b int) bool { return ds[a].lam.id < ds[b].lam.id })
			for _, d := range ds {
				if d.havoc {
					ok = false
				}
				if !in[d] {
					in[d] = true
					grp = append(grp, d)
				}
			}
		}
		for _, g := range grp {
			if g.bad["rec"] || s.hasLocal(steps[g]) {
				ok = false
			}
		}
		if ok && (best == nil || len(grp) < len(best)) {
			best = grp
		}
	}
	if best == nil {
		for _, lf := range todo {
			lf.havoc = true
			lf.class = "havoc"
			s.ex.inexact = true
		}
		return true
	}
	kap := s.kap
	vars := []*Term{kap}
	var inits, bodies []*Term
	for _, g := range best {
		vars = append(vars, g.lam)
		inits = append(inits, g.init)
		bodies = append(bodies, steps[g])
	}
	for i, g := range best {
		i, g := i, g
		order := append([]int{i}, others(len(best), i)...)
		s.set(g, "rec", func(k *Term) *Term {
			if k.isConst(0) {
				return g.init
			}
			vs := []*Term{kap}
			is := []*Term{k}
			var bs []*Term
			for _, j := range order {
				vs = append(vs, vars[j+1])
				is = append(is, inits[j])
				bs = append(bs, bodies[j])
			}
			op := "rec"
			if g.arr {
				op = "arec"
			}
			if g.mp {
				op = "mrec"
			}
			t := bindTerm(op, "", g.lam.kind, g.lam.typ, is, vs, bs...)
			if g.lam.kind == KInt && t.lo == nil {
				t.lo, t.hi = g.lam.lo, g.lam.hi
			}
			return t
		}, func(cur, k *Term) *Term { return nil })
	}
	return true
}

func others(n, i int) []int {
	var r []int
	for j := 0; j < n; j++ {
		if j != i {
			r = append(r, j)
		}
	}
	return r
}

// hasLocal: the term contains symbols made while the body was analysed.
func (s *loopSum) hasLocal(t *Term) bool {
	return occursAny(t, func(x *Term) bool {
		return x.op == "sym" && x.id >= s.idMark && x != s.kap && !s.isLam(x) && isFreshName(x.name)
	})
}

func isFreshName(n string) bool {
	for _, c := range n {
		if c == '\'' {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- checking

func (s *loopSum) inFacts() []*Term {
	f := []*Term{mkGe0(s.kap)}
	for _, n := range s.ns {
		f = append(f, mkLt(s.kap, n))
	}
	return f
}

// check runs the body from the closed forms and compares.
func (s *loopSum) check() bool {
	s.curK = s.kap
	defer func() { s.curK = nil }()
	facts := s.inFacts()
	outs := s.run(s.kap, facts...)
	s.refined = outs
	good := true
	for _, o := range outs {
		if o.kind != OutBack {
			continue
		}
		if !s.fits(o) {
			debugf("  CHECK: a path does not keep the form of the state: %s", o.st.pc)
			good = false
			continue
		}
		for _, r := range s.roots {
			if !s.checkShape(r.sh, s.backVal(r, o), o) {
				good = false
			}
		}
		// nothing else may have changed
		for obj, c := range o.st.heap {
			if s.byObj[obj] == nil && !s.isBoxObj(obj) {
				e := s.st.heap[obj]
				if e == nil && c.param && !occursAny(obj, func(t *Term) bool { return t == s.kap || s.isLam(t) }) {
					e = initialCell(obj, c.typ)
				}
				if e != nil && e.val != c.val {
					s.ex.giveUp("the loop at %s changes %s", s.where(), obj)
				}
			}
		}
	}
	return s.checkGhosts(s.fitting(outs)) && good
}

func (s *loopSum) checkShape(sh *shape, v *Term, o Outcome) bool {
	switch sh.kind {
	case shLeaf:
		lf := sh.leaf
		if lf.form == nil {
			return true
		}
		if lf.class == "rec" {
			return s.checkRec(lf, v, o)
		}
		if lf.class == "power" {
			return true // shown where it was found
		}
		want := lf.next(lf.form(s.kap), s.kap)
		if s.same(o.st, v, want) {
			return true
		}
		debugf("  CHECK %s (%s): %s\n    want %s\n PC %s", lf.name, lf.class, v, want, o.st.pc)
		lf.bad[lf.class] = true
		return false
	case shStruct:
		ok := true
		for i := range sh.kids {
			if !s.checkShape(sh.kids[i], v.args[i], o) {
				ok = false
			}
		}
		return ok
	case shSlice:
		ok := true
		for i := range sh.kids {
			x := v.args[i]
			if i == 3 {
				x = mkSub(v.args[3], v.args[2])
			}
			if !s.checkShape(sh.kids[i], x, o) {
				ok = false
			}
		}
		return ok
	case shBox:
		ok := s.checkShape(sh.kids[0], mkIsNil(v), o)
		if c := s.boxContent(v, o); c != nil {
			if !s.checkShape(sh.kids[1], c, o) {
				ok = false
			}
		}
		return ok
	}
	return true
}

func (s *loopSum) same(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	a, b = st.simp(st.pc.norm(a)), st.simp(st.pc.norm(b))
	if a == b {
		return true
	}
	if s.ex.powers && a.kind == KInt && b.op == "wrap" {
		if p, zero, ok := parsePow(b, wrapInfo(b).w); ok && !zero && a.lo != nil && a.hi != nil && a.lo.Cmp(b.lo) >= 0 && a.hi.Cmp(b.hi) <= 0 && checkPow(st.pc, a, p, wrapInfo(b).w) == powYes {
			return true
		}
	}
	if a.kind == KInt || a.kind == KBool {
		return st.pc.decide(mkEq(a, b)) == Yes
	}
	a, b = st.deep(a), st.deep(b)
	if a == b {
		return true
	}
	if isIte(a) || isIte(b) {
		return false
	}
	return st.pc.decide(mkEq(a, b)) == Yes
}

// checkRec: the step of a generic recurrence, from its own value.
func (s *loopSum) checkRec(lf *leaf, v *Term, o Outcome) bool {
	m := s.forms()
	want := subst(subst(lf.step, m), m)
	if s.same(o.st, v, want) {
		return true
	}
	debugf("  CHECK rec %s: %s\n    want %s", lf.name, v, want)
	lf.bad["rec"] = true
	return false
}

// houdini finds inductive bounds of the integer leaves without closed form.
func (s *loopSum) houdini() {
	s.invs = nil
	var hv []*leaf
	for _, lf := range s.leaves {
		if (lf.form == nil || lf.class == "rec") && lf.lam.kind == KInt && !lf.ghost {
			hv = append(hv, lf)
			if lf.form != nil {
				// a fact about any values that satisfies it inductively
				lf, f := lf, lf.form
				lf.form = nil
				defer func() { lf.form = f }()
			}
		}
	}
	if len(hv) == 0 {
		return
	}
	var cands []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if t.kind == KBool && t != tTrue && t != tFalse && !seen[t] {
			seen[t] = true
			cands = append(cands, t)
		}
	}
	for _, lf := range hv {
		if isIte(lf.init) {
			continue
		}
		add(mkGe(lf.lam, lf.init))
		add(mkLe(lf.lam, lf.init))
		add(mkLe(lf.lam, mkAdd(lf.init, s.kap)))
		add(mkGe(lf.lam, mkSub(lf.init, s.kap)))
		for _, g := range hv {
			if g != lf && !isIte(g.init) {
				add(mkGe(lf.lam, g.init))
				add(mkLe(lf.lam, g.init))
				for d := int64(-1); d <= 1; d++ {
					add(mkLe(lf.lam, mkAddK(g.lam, d)))
				}
			}
		}
	}
	for _, w := range s.st.pc.intSyms() {
		for _, lf := range hv {
			for d := int64(-1); d <= 1; d++ {
				add(mkLe(lf.lam, mkAddK(w, d)))
				add(mkGe(lf.lam, mkAddK(w, d)))
			}
		}
	}
	for _, ls := range s.guards0 {
		for _, l := range ls {
			for _, a := range mustHold(l.lit, l.val) {
				if a.t.op == "ge0" && s.hasLam(a.t) {
					p := a.t.args[0]
					if !a.v {
						p = mkAddK(mkNeg(p), -1)
					}
					for d := int64(0); d <= 2; d++ {
						add(mkGe0(mkAddK(p, d)))
					}
				}
			}
		}
	}
	m0 := map[*Term]*Term{s.kap: intConst(0)}
	for _, lf := range s.leaves {
		m0[lf.lam] = lf.init
	}
	var live []*Term
	for _, c := range cands {
		if s.st.pc.decide(subst(c, m0)) == Yes {
			live = append(live, c)
		}
	}
	for round := 0; round < 20 && len(live) > 0; round++ {
		s.invs = live
		s.curK = s.kap
		outs := s.fitting(s.run(s.kap, s.inFacts()...))
		s.curK = nil
		bad := map[*Term]bool{}
		for _, o := range outs {
			if o.kind != OutBack {
				continue
			}
			m := map[*Term]*Term{s.kap: mkAddK(s.kap, 1)}
			for _, r := range s.roots {
				s.backLeaves(r.sh, s.backVal(r, o), o, m)
			}
			for _, c := range live {
				if !bad[c] && o.st.pc.decide(subst(c, m)) != Yes {
					debugf("  NOINV %s: %s  when %s", c, subst(c, m), o.st.pc)
					bad[c] = true
				}
			}
		}
		if len(bad) == 0 {
			break
		}
		var next []*Term
		for _, c := range live {
			if !bad[c] {
				next = append(next, c)
			}
		}
		live = next
	}
	s.invs = live
	for _, c := range live {
		debugf("  INV %s", c)
	}
}

func (s *loopSum) backLeaves(sh *shape, v *Term, o Outcome, m map[*Term]*Term) {
	switch sh.kind {
	case shLeaf:
		m[sh.leaf.lam] = v
	case shStruct:
		for i := range sh.kids {
			s.backLeaves(sh.kids[i], v.args[i], o, m)
		}
	case shSlice:
		for i := range sh.kids {
			x := v.args[i]
			if i == 3 {
				x = mkSub(v.args[3], v.args[2])
			}
			s.backLeaves(sh.kids[i], x, o, m)
		}
	case shBox:
		s.backLeaves(sh.kids[0], mkIsNil(v), o, m)
		if c := s.boxContent(v, o); c != nil {
			s.backLeaves(sh.kids[1], c, o, m)
		}
	}
}

// ---------------------------------------------------------------- leaving

func (s *loopSum) finish(outs []Outcome) []Outcome {
	var res []Outcome
	for _, o := range outs {
		switch o.kind {
		case OutBack:
		case OutExit:
			fr := o.fr.clone()
			fr.loops = append([]*Loop(nil), s.fr.loops...)
			res = append(res, s.ex.gotoBlock(fr, o.pred, o.target, o.st)...)
		default:
			res = append(res, o)
		}
	}
	return res
}

func (s *loopSum) exits() []Outcome {
	// the condition of leaving before the guard ends the loop
	E := tFalse
	facts := s.inFacts()
	base := s.baseN
	pcs := []*PC{s.st.pc}
	for _, f := range append(append([]*Term(nil), facts...), s.invAt(s.kap)...) {
		var nx []*PC
		for _, pc := range pcs {
			nx = append(nx, pc.assumeAll(f)...)
		}
		pcs = nx
	}
	if len(pcs) == 1 {
		base = pcs[0].n
	}
	local := false
	for _, o := range s.refined {
		if o.kind == OutBack {
			continue
		}
		c := condOf(o, base)
		if s.hasLocal(c) || s.hasLam(c) {
			local = true
		}
		E = mkOr(E, c)
	}
	havoc := false
	for _, lf := range s.leaves {
		if lf.form == nil {
			havoc = true
		}
	}
	if local {
		E = nil
	}
	debugf("  E = %v", E)
	var res []Outcome
	ends := s.n != nil || E == tFalse || !s.ex.mustEnd || s.ends()
	// fresh names for the leaves without closed form, at the exit
	s.renameHavoc()
	if E != tFalse {
		// early exit in iteration ks
		var ks *Term
		var fs []*Term
		nb := s.n
		if nb == nil {
			nb = mk("inf", "", KInt, nil)
		}
		if E == nil || havoc {
			ks = freshInt("kx", big0, nil)
		} else {
			b := freshInt("b", big0, nil)
			ks = bindTerm("first", "", KInt, nil, []*Term{nb}, []*Term{b}, subst1(E, s.kap, b))
			ks.lo, ks.hi = big0, maxLen
			b2 := freshInt("b", big0, nil)
			fs = append(fs, mkForall(ks, b2, mkNot(subst1(E, s.kap, b2))))
		}
		fs = append(fs, mkGe0(ks))
		for _, n := range s.ns {
			fs = append(fs, mkLt(ks, n))
		}
		// the quantified fact comes last: it is only needed for its instances
		fs = append(fs[len(fs)-len(s.ns)-1:], fs[:len(fs)-len(s.ns)-1]...)
		s.curK = ks
		var outs []Outcome
		for _, o := range s.run(ks, fs...) {
			if o.kind != OutBack {
				outs = append(outs, o)
			}
		}
		s.curK = nil
		res = append(res, s.finish(outs)...)
	}
	if s.n == nil {
		if E != tFalse && s.ex.mustEnd {
			s.ex.oblig++
			if ends {
				s.ex.obligOK++
			} else {
				s.ex.fail("the loop is not shown to end", s.where(), s.st.pc.String())
			}
		}
		if E == tFalse && !havoc {
			s.ex.oblig++
			s.ex.fail("the loop never ends", s.where(), s.st.pc.String())
		}
		return res
	}
	s.renameHavoc()
	// all iterations: the smallest of the counts
	for i, n := range s.ns {
		fs := []*Term{}
		for j, m := range s.ns {
			if j < i {
				fs = append(fs, mkLt(n, m))
			} else if j > i {
				fs = append(fs, mkLe(n, m))
			}
		}
		none := tTrue
		if E != nil && E != tFalse && !havoc {
			b := freshInt("b", big0, nil)
			none = mkForall(n, b, mkNot(subst1(E, s.kap, b)))
		}
		if s.st.pc.decide(mkGe0(n)) == Yes {
			s.curK = n
			outs := s.run(n, append(fs, none)...)
			s.curK = nil
			res = append(res, s.finish(s.dropBack(outs))...)
			continue
		}
		s.curK = n
		outs := s.run(n, append(append(fs, mkGe(n, intConst(1))), none)...)
		s.curK = nil
		res = append(res, s.finish(s.dropBack(outs))...)
		s.curK = intConst(0)
		outs = s.run(intConst(0), append(fs, mkLe(n, intConst(0)))...)
		s.curK = nil
		res = append(res, s.finish(s.dropBack(outs))...)
	}
	return res
}

// ends looks for an integer that every continuing path finds non-negative and
// leaves smaller.
func (s *loopSum) ends() bool {
	var cands []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if t.kind == KInt && !isIte(t) && s.hasLam(t) && !seen[t] {
			seen[t] = true
			cands = append(cands, t)
		}
	}
	for _, ls := range s.guards0 {
		for _, l := range ls {
			for _, a := range mustHold(l.lit, l.val) {
				switch {
				case a.t.op == "ge0" && a.v:
					add(a.t.args[0])
				case a.t.op == "ge0":
					add(mkAddK(mkNeg(a.t.args[0]), -1))
				case a.t.op == "eq0" && !a.v:
					add(a.t.args[0])
					add(mkNeg(a.t.args[0]))
				}
			}
		}
	}
	for _, lf := range s.leaves {
		if lf.lam.kind == KInt && !lf.ghost {
			add(lf.lam)
		}
	}
	fm := s.forms()
	for _, p := range cands {
		ok := true
		for _, o := range s.refined {
			if o.kind != OutBack {
				continue
			}
			m := map[*Term]*Term{}
			for _, r := range s.roots {
				s.backLeaves(r.sh, s.backVal(r, o), o, m)
			}
			p0, p1 := subst(p, fm), subst(p, m)
			if o.st.pc.decide(mkAnd(mkGe0(p0), mkLt(p1, p0))) != Yes {
				debugf("  RANK %s: %s -> %s fails", p, p0, p1)
				ok = false
				break
			}
		}
		if ok {
			debugf("  RANK %s", p)
			return true
		}
	}
	return false
}

func (s *loopSum) dropBack(outs []Outcome) []Outcome {
	var r []Outcome
	for _, o := range outs {
		if o.kind == OutBack {
			s.ex.giveUp("the loop at %s may go on after its last iteration: %s", s.where(), o.st.pc)
		}
		r = append(r, o)
	}
	return r
}

// renameHavoc gives the leaves without closed form new names, keeping what
// is known of them.
func (s *loopSum) renameHavoc() {
	m := map[*Term]*Term{}
	for _, lf := range s.leaves {
		if lf.form == nil {
			old := lf.lam
			s.mkLam(lf)
			m[old] = lf.lam
		}
	}
	if len(m) == 0 {
		return
	}
	for i, c := range s.invs {
		s.invs[i] = subst(c, m)
	}
	for _, lf := range s.leaves {
		if lf.form != nil {
			f := lf.form
			lf.form = func(k *Term) *Term { return subst(f(k), m) }
		}
	}
}
