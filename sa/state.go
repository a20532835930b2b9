package main

import (
	"fmt"
	"go/types"
	"strconv"
)

// Cell is the content of one abstract object.
type Cell struct {
	typ    types.Type // type of the content (element type for arrays)
	arr    bool       // content is an array (backing store of slices)
	val    *Term
	extent *Term // arrays: end of the region some slice may see
	param  bool  // existed before the analysed code ran
}

type State struct {
	pc   *PC
	heap map[*Term]*Cell
	ev   *Term
}

func newState() *State {
	return &State{pc: rootPC, heap: map[*Term]*Cell{}, ev: evNil}
}

func (s *State) clone() *State {
	h := make(map[*Term]*Cell, len(s.heap)+2)
	for k, v := range s.heap {
		h[k] = v
	}
	return &State{pc: s.pc, heap: h, ev: s.ev}
}

func (s *State) withPC(pc *PC) *State {
	if pc == s.pc {
		return s
	}
	c := s.clone()
	c.pc = pc
	return c
}

func (s *State) event(name string, args ...*Term) {
	s.ev = mkEvCat(s.ev, mk("ev", name, KOther, nil, args...))
}

var objCount int

func freshObj(hint string) *Term {
	objCount++
	return mk("obj", fmt.Sprintf("%s#%d", hint, objCount), KOther, nil)
}

func mkPtr(obj *Term, path ...*Term) *Term {
	if obj.op != "obj" && len(path) == 0 {
		return obj
	}
	return mk("ptr", "", KOther, nil, append([]*Term{obj}, path...)...)
}

func fld(i int) *Term { return mk("fld", strconv.Itoa(i), KOther, nil) }

func isFld(t *Term) (int, bool) {
	if t.op != "fld" {
		return 0, false
	}
	i, _ := strconv.Atoi(t.name)
	return i, true
}

// ptrParts splits a non-nil pointer value into object and path.
func ptrParts(p *Term) (*Term, []*Term) {
	if p.op == "ptr" {
		return p.args[0], p.args[1:]
	}
	return p, nil
}

// ---------------------------------------------------------------- values of a type

func zeroValue(t types.Type) *Term {
	if _, ok := intType(t); ok {
		return intConst(0)
	}
	if isOpaque(t) {
		return app("zero", t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return mk("fconst", "0", KOther, nil)
		}
		return tNil
	case *types.Struct:
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = zeroValue(u.Field(i).Type())
		}
		return mkStruct(t, fs...)
	case *types.Slice:
		return nilSlice()
	case *types.Interface:
		return tNilIface
	case *types.Array:
		return mk("azero", "", KOther, u.Elem())
	case *types.Tuple:
		fs := make([]*Term, u.Len())
		for i := range fs {
			fs[i] = zeroValue(u.At(i).Type())
		}
		return mkTuple(fs...)
	}
	return tNil
}

func nilSlice() *Term { return mkSlice(tNil, intConst(0), intConst(0), intConst(0)) }

// symPtrElem maps a symbolic pointer to the type it points to.
func ptrElem(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// symValue is the unknown value of that name and type.
func symValue(name string, t types.Type) *Term {
	if _, ok := intType(t); ok {
		return mkOrdRange(mkSym(name, t), t)
	}
	if isOpaque(t) {
		return mkSym(name, t)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = symValue(name+"."+u.Field(i).Name(), u.Field(i).Type())
		}
		return mkStruct(t, fs...)
	case *types.Slice:
		ln := mk("sym", name+".len", KInt, nil)
		ln.lo, ln.hi = big0, maxLen
		sp := mk("sym", name+".spare", KInt, nil)
		sp.lo, sp.hi = big0, maxLen
		o := mk("obj", name+".arr", KOther, u.Elem())
		return mkSlice(o, intConst(0), ln, mkAdd(ln, sp))
	case *types.Map:
		m := mk("map", name, KOther, t)
		return m
	case *types.Array:
		return mk("asym", name, KOther, u.Elem())
	case *types.Tuple:
		fs := make([]*Term, u.Len())
		for i := range fs {
			fs[i] = symValue(fmt.Sprintf("%s.%d", name, i), u.At(i).Type())
		}
		return mkTuple(fs...)
	case *types.Signature:
		f := mkSym(name, t)
		nonNil[f] = true
		return f
	}
	return mkSym(name, t)
}

func mkOrdRange(t *Term, typ types.Type) *Term {
	if n, ok := typ.(*types.Named); ok && n.Obj().Name() == "Ordering" {
		t.lo, t.hi = intConst(-1).constVal(), big1
	}
	return t
}

// appValue is the uninterpreted value of an application, expanded for
// aggregates.
func appValue(name string, t types.Type, args ...*Term) *Term {
	if isOpaque(t) {
		return app(name, t, args...)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = appValue(name+"."+u.Field(i).Name(), u.Field(i).Type(), args...)
		}
		return mkStruct(t, fs...)
	case *types.Slice:
		ln := appInt(name+".len", big0, maxLen, args...)
		sp := appInt(name+".spare", big0, maxLen, args...)
		o := mk("obj", name+".arr", KOther, u.Elem(), args...)
		return mkSlice(o, intConst(0), ln, mkAdd(ln, sp))
	case *types.Map:
		return mk("map", name, KOther, t, args...)
	case *types.Tuple:
		fs := make([]*Term, u.Len())
		for i := range fs {
			fs[i] = appValue(fmt.Sprintf("%s#%d", name, i), u.At(i).Type(), args...)
		}
		return mkTuple(fs...)
	case *types.Signature:
		f := app(name, t, args...)
		nonNil[f] = true
		return f
	}
	r := app(name, t, args...)
	if r.kind == KInt {
		mkOrdRange(r, t)
	}
	return r
}

// ---------------------------------------------------------------- objects

// cell returns the content of an object, creating the unknown content of
// objects that existed before.
func (s *State) cell(obj *Term, elem types.Type) *Cell {
	if c, ok := s.heap[obj]; ok {
		return c
	}
	c := initialCell(obj, elem)
	s.heap[obj] = c
	return c
}

// objInit makes the initial content of special symbolic objects.
var objInit = map[string]func(obj *Term) *Cell{}

func initialCell(obj *Term, elem types.Type) *Cell {
	if obj.op == "app" {
		if f, ok := objInit[obj.name]; ok {
			return f(obj)
		}
	}
	if t, ok := globalType[obj]; ok {
		if c, ok := initGlobals[obj]; ok {
			return c
		}
		v := symValue(obj.name, t)
		nonNil[v] = true
		return &Cell{typ: t, val: v, param: true}
	}
	if c, ok := initGlobals[obj]; ok {
		return c
	}
	switch obj.op {
	case "obj":
		// backing array of a symbolic slice
		a := mk("asym", fmt.Sprintf("%s@%d", obj.name, obj.id), KOther, obj.typ)
		return &Cell{typ: obj.typ, arr: true, val: a, param: true}
	case "map":
		return &Cell{typ: obj.typ, val: mk("msym", fmt.Sprintf("%s@%d", obj.name, obj.id), KOther, obj.typ), param: true}
	}
	if elem == nil && obj.typ != nil {
		elem = ptrElem(obj.typ)
	}
	if elem == nil {
		elem = types.Typ[types.Invalid]
	}
	name := "*" + obj.name
	if obj.op != "sym" {
		name = fmt.Sprintf("*%s.%d", obj.op, obj.id)
	}
	return &Cell{typ: elem, val: symValue(name, elem), param: true}
}

func (s *State) setCell(obj *Term, val *Term) {
	c := *s.heap[obj]
	c.val = val
	s.heap[obj] = &c
}

func (s *State) alloc(hint string, t types.Type, val *Term) *Term {
	o := freshObj(hint)
	s.heap[o] = &Cell{typ: t, val: val}
	return o
}

func (s *State) allocArr(hint string, elem types.Type, content, extent *Term) *Term {
	objCount++
	o := mk("obj", fmt.Sprintf("%s#%d", hint, objCount), KOther, elem)
	s.heap[o] = &Cell{typ: elem, arr: true, val: content, extent: extent}
	return o
}

// simp resolves the conditions of a value that the facts decide.
func (s *State) simp(t *Term) *Term {
	for isIte(t) {
		switch s.pc.decide(t.args[0]) {
		case Yes:
			t = t.args[1]
		case No:
			t = t.args[2]
		default:
			a := t.args[0]
			x, y := t.args[1], t.args[2]
			if isIte(x) {
				x = s.withPC(s.pc.push(a, true)).simp(x)
			}
			if isIte(y) {
				y = s.withPC(s.pc.push(a, false)).simp(y)
			}
			return mkIte(a, x, y)
		}
	}
	if t.op == "struct" || t.op == "slice" || t.op == "tuple" || t.op == "iface" {
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = s.simp(a)
			ch = ch || args[i] != a
		}
		if ch {
			return mk(t.op, t.name, t.kind, t.typ, args...)
		}
	}
	return t
}

// project reads a path inside a value.
func (s *State) project(v *Term, path []*Term) *Term {
	for _, p := range path {
		if isIte(v) {
			v = s.simp(v)
		}
		if f, ok := isFld(p); ok {
			v = lift1(v, func(v *Term) *Term { return fieldOf(v, f) })
		} else {
			v = s.simp(mkSel(v, p))
		}
	}
	return v
}

func fieldOf(v *Term, f int) *Term {
	if v.op == "struct" || v.op == "tuple" {
		return v.args[f]
	}
	if v.typ != nil {
		switch u := v.typ.Underlying().(type) {
		case *types.Struct:
			return appValue(fmt.Sprintf("field%d", f), u.Field(f).Type(), v)
		case *types.Tuple:
			return appValue(fmt.Sprintf("field%d", f), u.At(f).Type(), v)
		}
	}
	return app(fmt.Sprintf("field%d", f), nil, v)
}

// inject replaces what is at the path inside a value.
func (s *State) inject(v *Term, path []*Term, x *Term) *Term {
	if len(path) == 0 {
		return x
	}
	if f, ok := isFld(path[0]); ok {
		if isIte(v) {
			v = s.simp(v)
		}
		return lift1(v, func(v *Term) *Term {
			if v.op != "struct" {
				if st, ok := v.typ.Underlying().(*types.Struct); ok {
					fs := make([]*Term, st.NumFields())
					for i := range fs {
						fs[i] = fieldOf(v, i)
					}
					v = mkStruct(v.typ, fs...)
				}
			}
			args := append([]*Term(nil), v.args...)
			args[f] = s.inject(args[f], path[1:], x)
			return mk(v.op, v.name, v.kind, v.typ, args...)
		})
	}
	if len(path) > 1 {
		x = s.inject(s.simp(mkSel(v, path[0])), path[1:], x)
	}
	return s.mkStore(v, path[0], x)
}

// mkStore keeps store chains short: a decided equal index overwrites.
func (s *State) mkStore(A, i, v *Term) *Term {
	if A.op == "astore" {
		switch s.pc.decide(mkEq(A.args[1], i)) {
		case Yes:
			return s.mkStore(A.args[0], i, v)
		}
	}
	return mkStore(A, i, v)
}

func (s *State) load(p *Term, t types.Type) *Term {
	obj, path := ptrParts(p)
	c := s.cell(obj, t2elem(path, t))
	return s.simp(s.project(c.val, path))
}

// t2elem: the type of the object is known from the pointer only without a path.
func t2elem(path []*Term, t types.Type) types.Type {
	if len(path) == 0 {
		return t
	}
	return nil
}

func (s *State) store(p, v *Term, t types.Type) {
	obj, path := ptrParts(p)
	c := s.cell(obj, t2elem(path, t))
	s.setCell(obj, s.inject(c.val, path, v))
}

// extentOf is the end of the region of an array that slices may see.
func (s *State) extentOf(obj *Term) *Term {
	c := s.cell(obj, nil)
	if c.extent == nil {
		return nil
	}
	return c.extent
}

func (s *State) raiseExtent(obj, end *Term) {
	if obj.op == "nil" {
		return
	}
	c := s.cell(obj, nil)
	if c.extent != nil && s.pc.decide(mkLe(end, c.extent)) == Yes {
		return
	}
	d := *c
	d.extent = end
	s.heap[obj] = &d
}

// deep resolves decided conditions also below the top of a value.
func (s *State) deep(t *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		if isIte(t) {
			switch s.pc.decide(t.args[0]) {
			case Yes:
				r = rec(t.args[1])
			case No:
				r = rec(t.args[2])
			default:
				r = s.simp(t)
			}
		} else {
			switch t.op {
			case "struct", "tuple", "iface", "slice", "astore", "aseg", "afilt", "sel", "mstore", "mdel", "evcat", "strcat", "ev":
				args := make([]*Term, len(t.args))
				ch := false
				for i, a := range t.args {
					args[i] = a
					if i < len(t.args)-t.nb {
						args[i] = rec(a)
					}
					ch = ch || args[i] != a
				}
				if ch {
					r = rebuildArgs(t, args)
				}
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// rebuildArgs replaces the arguments of a term, keeping the bodies of a binder.
func rebuildArgs(t *Term, args []*Term) *Term {
	if t.nb == 0 {
		return rebuild(t, args)
	}
	na := len(t.args) - t.nb
	var bodies []*Term
	vars := make([]*Term, binderVars(t))
	for i := range vars {
		tmpCount++
		vars[i] = mk("sym", fmt.Sprintf("tmp#%d", tmpCount), KOther, nil)
	}
	bvs := map[*Term]bool{}
	for _, b := range t.args[na:] {
		findBV(b, t.bvh, bvs, map[*Term]bool{})
	}
	for bv := range bvs {
		var h, j int
		fmt.Sscanf(bv.name, "%d.%d", &h, &j)
		tmpCount++
		v := mk("sym", fmt.Sprintf("tmp#%d", tmpCount), bv.kind, bv.typ)
		v.lo, v.hi = bv.lo, bv.hi
		vars[j] = v
	}
	bodies = instBodies(t, vars...)
	return rebuildBinder(t, args[:na], vars, bodies)
}

func binderVars(t *Term) int {
	bvs := map[*Term]bool{}
	for _, b := range t.args[len(t.args)-t.nb:] {
		findBV(b, t.bvh, bvs, map[*Term]bool{})
	}
	n := 1
	for bv := range bvs {
		var h, j int
		fmt.Sscanf(bv.name, "%d.%d", &h, &j)
		if j+1 > n {
			n = j + 1
		}
	}
	return n
}
