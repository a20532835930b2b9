package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type OutKind int

const (
	OutReturn OutKind = iota
	OutPanic
	OutBack
	OutExit
)

type Outcome struct {
	kind   OutKind
	st     *State
	vals   []*Term // results, or the panic value
	fr     *Frame
	pred   *ssa.BasicBlock
	target *ssa.BasicBlock
	why    string // where a panic comes from
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	loops  []*Loop // loops being summarised, innermost last
	defers []deferred
	depth  int
	parent *Frame
	retTo  []*Term
	iters  map[*ssa.BasicBlock]int // loops followed, by header
}

type deferred struct {
	call *ssa.CallCommon
	fn   *Term
	args []*Term
}

func (f *Frame) clone() *Frame {
	e := make(map[ssa.Value]*Term, len(f.env)+4)
	for k, v := range f.env {
		e[k] = v
	}
	c := *f
	c.env = e
	c.defers = append([]deferred(nil), f.defers...)
	if f.iters != nil {
		c.iters = make(map[*ssa.BasicBlock]int, len(f.iters))
		for k, v := range f.iters {
			c.iters[k] = v
		}
	}
	return &c
}

type Exec struct {
	prog     *ssa.Program
	pkg      *ssa.Package
	loopInfo map[*ssa.Function]*loopInfo
	stack    []*ssa.Function
	failures []Failure
	visited  map[string]bool // functions of /repo that were analysed
	oblig    int
	obligOK  int
	probe    string
	steps    int
	loopsN   int
	replace  map[string]func(ex *Exec, fr *Frame, call *ssa.CallCommon, args []*Term, st *State) ([]branch, bool)
	notes    map[string]bool
	deadline time.Time
	details  map[string]bool
	mustEnd  bool // loops have to be shown to end
	// follow: paths are followed through loops and recursive calls, at most
	// this often around; the inputs are partitioned by their sizes
	follow  int
	part    bool                   // small integers are taken value by value
	cut     bool                   // paths beyond the bound are left out, not reported
	dropped int                    // how many were
	inexact bool                   // a loop was only approximated
	fns     map[*ssa.Function]bool // the functions that were interpreted
	// slices that grow: in place, where it makes no difference to the slices
	// that see the result; regrown has the ends of the slices that were grown,
	// and stale is set when one of those is used again, so that it does make
	// a difference. forks: both possibilities are followed.
	regrown map[*Term]map[*Term]bool
	stale   bool
	forks   bool
	sized   bool // the probe chooses sizes of containers
	sliced  bool // it has slices among its inputs
	extra   int  // the size of the containers, when they are larger than usual
	stubs   map[string]*ssa.Function
	steps0  bool // the specification's loops are followed
	// powers: recursion and loops are tried as computations of a power
	powers   bool
	powRuns  map[*ssa.Function]*powRun
	powSpecs map[*ssa.Function]*powSpec
}

type Failure struct {
	probe, msg, where, detail string
}

type branch struct {
	st  *State
	val *Term
	// a call may also panic
	panics bool
	why    string
}

type undecided struct{ msg string }

func (ex *Exec) giveUp(format string, a ...any) {
	panic(undecided{fmt.Sprintf(format, a...)})
}

var debug = os.Getenv("SA_DEBUG") != ""

// ---------------------------------------------------------------- functions

func (ex *Exec) call(fn *ssa.Function, args []*Term, free []*Term, st *State, parent *Frame) []Outcome {
	if ex.powers {
		if outs, ok := ex.powCall(fn, args, st); ok {
			return outs
		}
	}
	return ex.call0(fn, args, free, st, parent)
}

func (ex *Exec) call0(fn *ssa.Function, args []*Term, free []*Term, st *State, parent *Frame) []Outcome {
	depth := 0
	if parent != nil {
		depth = parent.depth + 1
	}
	if depth > 60 {
		ex.giveUp("call depth exceeded in %s", fn)
	}
	n := 0
	for _, f := range ex.stack {
		if f == fn {
			n++
		}
	}
	if ex.follow > 0 {
		if n > 30 || n > ex.follow && ex.cut {
			return ex.beyond("recursion of " + fn.String())
		}
	} else if n > 2 {
		ex.giveUp("recursion of %s", fn)
	}
	ex.stack = append(ex.stack, fn)
	defer func() { ex.stack = ex.stack[:len(ex.stack)-1] }()
	if p := fn.Pos(); p.IsValid() {
		ex.visited[fn.String()] = true
	} else if o := fn.Origin(); o != nil {
		ex.visited[fn.String()] = true
	}
	ex.fns[fn] = true
	fr := &Frame{fn: fn, env: map[ssa.Value]*Term{}, depth: depth, parent: parent}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		fr.env[v] = free[i]
	}
	outs := ex.runBlock(fr, fn.Blocks[0], 0, st)
	return outs
}

func (ex *Exec) value(fr *Frame, v ssa.Value) *Term {
	if t, ok := fr.env[v]; ok {
		return t
	}
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Function:
		return mkFn(v)
	case *ssa.Global:
		o := mk("obj", "global:"+v.String(), KOther, nil)
		globalType[o] = ptrElem(v.Type())
		return mkPtr(o)
	case *ssa.Builtin:
		return mk("builtin", v.Name(), KOther, nil)
	}
	panic(undecided{fmt.Sprintf("value %s (%T) in %s", v.Name(), v, fr.fn)})
}

var fnOf = map[*Term]*ssa.Function{}

func mkFn(f *ssa.Function) *Term {
	t := mk("fn", f.String(), KOther, nil)
	fnOf[t] = f
	return t
}

func constTerm(c *ssa.Const) *Term {
	t := c.Type()
	if c.Value == nil {
		return zeroValue(t)
	}
	if _, ok := intType(t); ok {
		v := constant.ToInt(c.Value)
		b, _ := new(big.Int).SetString(v.ExactString(), 10)
		return mkConst(b)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return mkStr(constant.StringVal(c.Value))
	case constant.Int, constant.Float:
		return mk("fconst", c.Value.ExactString(), KOther, nil)
	case constant.Complex:
		return mk("fconst", c.Value.ExactString(), KOther, nil)
	}
	return app("const:"+c.Value.String(), t)
}

// split divides a state by a condition.
func (ex *Exec) split(st *State, cond *Term) (yes, no []*State) {
	for _, pc := range st.pc.assumeAll(cond) {
		yes = append(yes, st.withPC(pc))
	}
	for _, pc := range st.pc.assumeAll(mkNot(cond)) {
		no = append(no, st.withPC(pc))
	}
	if ex.part {
		yes, no = ex.concretise(yes, cond), ex.concretise(no, cond)
	}
	// states share nothing that is written to
	used := false
	for _, sts := range [][]*State{yes, no} {
		for i, s := range sts {
			if s == st {
				if used {
					sts[i] = s.clone()
				}
				used = true
			}
		}
	}
	return
}

// concretise gives the integers of the condition that have only a few
// possible values left each of them.
func (ex *Exec) concretise(sts []*State, cond *Term) []*State {
	var vars []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "sym" && t.kind == KInt {
			vars = append(vars, t)
			return
		}
		if t.op == "sel" || t.op == "app" {
			return
		}
		eachChild(t, rec)
	}
	rec(cond)
	if len(vars) == 0 || len(vars) > 4 {
		return sts
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].id < vars[j].id })
	for _, v := range vars {
		var next []*State
		for _, st := range sts {
			if st.pc.norm(v) != v {
				next = append(next, st)
				continue
			}
			lo, hi := st.pc.rangeOf(v)
			if lo == nil || hi == nil || new(big.Int).Sub(hi, lo).Cmp(bigOf(fallbackBound+1)) > 0 {
				next = append(next, st)
				continue
			}
			for k := new(big.Int).Set(lo); k.Cmp(hi) <= 0; k = new(big.Int).Add(k, big1) {
				e := mkEq(v, mkConst(k))
				switch st.pc.decide(e) {
				case No:
				default:
					next = append(next, st.withPC(st.pc.pushLit(e, true, 0)))
				}
			}
		}
		sts = next
	}
	return sts
}

// rangeOf is what the facts about a single variable say about it.
func (pc *PC) rangeOf(v *Term) (lo, hi *big.Int) {
	lo, hi = v.lo, v.hi
	for _, l := range pc.literals() {
		if l.lit.op != "ge0" {
			continue
		}
		p := l.lit.args[0]
		if !l.val {
			p = mkAddK(mkNeg(p), -1)
		}
		p = pc.norm(p)
		a, b := linearIn(p, v)
		if a == nil || a.Sign() == 0 || b.constVal() == nil {
			continue
		}
		// a v + b >= 0
		c := new(big.Int).Neg(b.constVal())
		if a.Sign() > 0 {
			if k := ceilDiv(c, a); lo == nil || k.Cmp(lo) > 0 {
				lo = k
			}
		} else {
			k := new(big.Int).Neg(ceilDiv(c, new(big.Int).Neg(a)))
			if hi == nil || k.Cmp(hi) < 0 {
				hi = k
			}
		}
	}
	return
}

// cases resolves the conditions at the top of a value.
func (ex *Exec) cases(st *State, t *Term) []branch {
	t = st.simp(t)
	if !isIte(t) {
		return []branch{{st: st, val: t}}
	}
	var out []branch
	yes, no := ex.split(st, t.args[0])
	for _, s := range yes {
		out = append(out, ex.cases(s, t.args[1])...)
	}
	for _, s := range no {
		out = append(out, ex.cases(s, t.args[2])...)
	}
	return out
}

func (ex *Exec) pos(fr *Frame, i ssa.Instruction) string {
	p := i.Pos()
	if !p.IsValid() {
		p = fr.fn.Pos()
	}
	if !p.IsValid() && fr.fn.Origin() != nil {
		p = fr.fn.Origin().Pos()
	}
	ps := ex.prog.Fset.Position(p)
	f := ps.Filename
	if k := strings.LastIndex(f, "/"); k >= 0 {
		f = f[k+1:]
	}
	return fmt.Sprintf("%s:%d (%s)", f, ps.Line, fr.fn.Name())
}

func (ex *Exec) runBlock(fr *Frame, b *ssa.BasicBlock, i int, st *State) []Outcome {
	for ; i < len(b.Instrs); i++ {
		ex.steps++
		if ex.steps > 12000000 {
			ex.giveUp("too many steps")
		}
		if ex.steps%64 == 0 && time.Now().After(ex.deadline) {
			ex.giveUp("time limit of the probe reached")
		}
		if ex.steps%65536 == 0 {
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 4<<30 {
				ex.giveUp("memory limit of the probe reached")
			}
		}
		ins := b.Instrs[i]
		switch ins := ins.(type) {
		case *ssa.Jump:
			return ex.gotoBlock(fr, b, b.Succs[0], st)
		case *ssa.If:
			cond := st.simp(ex.value(fr, ins.Cond))
			yes, no := ex.split(st, cond)
			var out []Outcome
			for _, s := range yes {
				out = append(out, ex.gotoBlock(fr.clone(), b, b.Succs[0], s)...)
			}
			for _, s := range no {
				out = append(out, ex.gotoBlock(fr.clone(), b, b.Succs[1], s)...)
			}
			return out
		case *ssa.Return:
			vals := make([]*Term, len(ins.Results))
			for j, r := range ins.Results {
				vals[j] = st.simp(ex.value(fr, r))
			}
			return []Outcome{{kind: OutReturn, st: st, vals: vals}}
		case *ssa.Panic:
			return ex.panicOut(fr, st, ex.value(fr, ins.X), ex.pos(fr, ins)+": panic")
		case *ssa.DebugRef:
			continue
		case *ssa.Phi:
			continue // set on entry
		case *ssa.Defer:
			fv, args := ex.callArgs(fr, &ins.Call)
			fr.defers = append(fr.defers, deferred{&ins.Call, fv, args})
			continue
		case *ssa.RunDefers:
			outs := ex.runDefers(fr, st)
			if len(outs) == 1 && outs[0].kind == OutReturn {
				st = outs[0].st
				fr.defers = nil
				continue
			}
			var res []Outcome
			for _, o := range outs {
				if o.kind == OutPanic {
					res = append(res, o)
					continue
				}
				f2 := fr.clone()
				f2.defers = nil
				res = append(res, ex.runBlock(f2, b, i+1, o.st)...)
			}
			return res
		}
		brs := ex.instr(fr, ins, st)
		v, isVal := ins.(ssa.Value)
		if len(brs) == 1 && !brs[0].panics {
			st = brs[0].st
			if isVal {
				fr.env[v] = brs[0].val
			}
			continue
		}
		var out []Outcome
		for _, br := range brs {
			if br.panics {
				out = append(out, ex.panicOut(fr, br.st, br.val, br.why)...)
				continue
			}
			f2 := fr.clone()
			if isVal {
				f2.env[v] = br.val
			}
			out = append(out, ex.runBlock(f2, b, i+1, br.st)...)
		}
		return out
	}
	panic(undecided{"block without terminator in " + fr.fn.String()})
}

// panicOut runs the deferred calls of the frame and panics on, unless one
// of them recovers.
func (ex *Exec) panicOut(fr *Frame, st *State, val *Term, why string) []Outcome {
	if len(fr.defers) == 0 || val == blockVal {
		return []Outcome{{kind: OutPanic, st: st, vals: []*Term{val}, why: why, fr: fr}}
	}
	st = st.clone()
	ps := mkPtr(mk("obj", "panicking", KOther, nil))
	_ = ps
	st.heap[panicObj] = &Cell{typ: types.Universe.Lookup("any").Type(), val: mkTuple(tTrue, val)}
	f2 := fr.clone()
	outs := ex.runDefers(f2, st)
	var res []Outcome
	for _, o := range outs {
		if o.kind == OutPanic {
			res = append(res, o)
			continue
		}
		c := o.st.heap[panicObj]
		if c != nil && c.val.args[0] == tFalse {
			// recovered: the function returns through its recover block
			delete(o.st.heap, panicObj)
			if fr.fn.Recover != nil {
				f3 := fr.clone()
				f3.defers = nil
				res = append(res, ex.runBlock(f3, fr.fn.Recover, 0, o.st)...)
			} else {
				var vals []*Term
				rs := fr.fn.Signature.Results()
				for i := 0; i < rs.Len(); i++ {
					vals = append(vals, zeroValue(rs.At(i).Type()))
				}
				res = append(res, Outcome{kind: OutReturn, st: o.st, vals: vals})
			}
			continue
		}
		delete(o.st.heap, panicObj)
		res = append(res, Outcome{kind: OutPanic, st: o.st, vals: []*Term{val}, why: why, fr: fr})
	}
	return res
}

var panicObj = mk("obj", "panicking", KOther, nil)

func (ex *Exec) runDefers(fr *Frame, st *State) []Outcome {
	outs := []Outcome{{kind: OutReturn, st: st}}
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		var next []Outcome
		for _, o := range outs {
			if o.kind == OutPanic {
				next = append(next, o)
				continue
			}
			for _, br := range ex.applyCall(fr, d.call, d.fn, d.args, o.st) {
				if br.panics {
					next = append(next, Outcome{kind: OutPanic, st: br.st, vals: []*Term{br.val}, why: br.why})
				} else {
					next = append(next, Outcome{kind: OutReturn, st: br.st})
				}
			}
		}
		outs = next
	}
	return outs
}

func (ex *Exec) gotoBlock(fr *Frame, from, to *ssa.BasicBlock, st *State) []Outcome {
	li := ex.loopsOf(fr.fn)
	if n := len(fr.loops); n > 0 {
		l := fr.loops[n-1]
		if to == l.header {
			return []Outcome{{kind: OutBack, st: st, fr: fr, pred: from, target: to}}
		}
		if !l.body[to] {
			return []Outcome{{kind: OutExit, st: st, fr: fr, pred: from, target: to}}
		}
	}
	if l := li.byHeader[to]; l != nil {
		follow := ex.followIn(fr.fn)
		if follow > 0 && l.body[from] && fr.iters != nil {
			fr.iters[to]++
			if fr.iters[to] > follow {
				return ex.beyond("the loop at " + ex.pos(fr, to.Instrs[0]))
			}
			ex.setPhis(fr, from, to)
			return ex.runBlock(fr, to, 0, st)
		}
		if follow == 0 || ex.follow > 0 {
			if outs, ok := ex.unroll(fr, l, from, st); ok {
				return outs
			}
		}
		if follow > 0 {
			if fr.iters == nil {
				fr.iters = map[*ssa.BasicBlock]int{}
			}
			fr.iters[to] = 0
			ex.loopsN++
			ex.setPhis(fr, from, to)
			return ex.runBlock(fr, to, 0, st)
		}
		return ex.summarise(fr, l, from, st)
	}
	ex.setPhis(fr, from, to)
	return ex.runBlock(fr, to, 0, st)
}

// followIn is how often the loops of the function are followed around. The
// specification's own loops over a few recorded steps always are.
func (ex *Exec) followIn(fn *ssa.Function) int {
	if ex.follow > 0 || !ex.steps0 {
		return ex.follow
	}
	n := baseName(fn)
	if fn.Pkg == ex.pkg || fn.Pkg == nil {
		if strings.HasPrefix(n, "sa") && !strings.HasPrefix(n, "saP_") {
			return 64
		}
	}
	return 0
}

// beyond is a path that goes around more often than the bound.
func (ex *Exec) beyond(what string) []Outcome {
	if !ex.cut {
		ex.giveUp("%s goes around more than %d times", what, ex.follow)
	}
	ex.dropped++
	return nil
}

func (ex *Exec) setPhis(fr *Frame, from, to *ssa.BasicBlock) {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	var vals []*Term
	var phis []*ssa.Phi
	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, ex.value(fr, phi.Edges[idx]))
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
}

func one(st *State, v *Term) []branch { return []branch{{st: st, val: v}} }

// ---------------------------------------------------------------- instructions

func (ex *Exec) instr(fr *Frame, ins ssa.Instruction, st *State) []branch {
	val := func(v ssa.Value) *Term { return ex.value(fr, v) }
	switch ins := ins.(type) {
	case *ssa.Alloc:
		t := ptrElem(ins.Type())
		name := ins.Comment
		if name == "" {
			name = "new"
		}
		if at, ok := t.Underlying().(*types.Array); ok {
			o := st.allocArr(name, at.Elem(), mk("azero", "", KOther, at.Elem()), intConst(at.Len()))
			return one(st, mkPtr(o))
		}
		return one(st, mkPtr(st.alloc(name, t, zeroValue(t))))
	case *ssa.BinOp:
		return ex.binop(fr, ins, val(ins.X), val(ins.Y), st)
	case *ssa.UnOp:
		return ex.unop(fr, ins, val(ins.X), st)
	case *ssa.Store:
		return ex.deref(fr, st, val(ins.Addr), ins, func(s *State, p *Term) []branch {
			s.store(p, val(ins.Val), ptrElem(ins.Addr.Type()))
			return one(s, nil)
		})
	case *ssa.FieldAddr:
		return ex.deref(fr, st, val(ins.X), ins, func(s *State, p *Term) []branch {
			obj, path := ptrParts(p)
			s.cell(obj, t2elem(path, ptrElem(ins.X.Type())))
			return one(s, mkPtr(obj, append(append([]*Term(nil), path...), fld(ins.Field))...))
		})
	case *ssa.Field:
		return one(st, st.simp(st.project(val(ins.X), []*Term{fld(ins.Field)})))
	case *ssa.IndexAddr:
		return ex.indexAddr(fr, ins, st)
	case *ssa.Index:
		x, i := val(ins.X), val(ins.Index)
		if at, ok := ins.X.Type().Underlying().(*types.Array); ok {
			return ex.bounded(fr, st, ins, i, intConst(at.Len()), func(s *State) []branch {
				return one(s, s.simp(mkSel(x, i)))
			})
		}
		// string
		return ex.bounded(fr, st, ins, i, strLen(x), func(s *State) []branch {
			return one(s, mkStrAt(x, i, ins.Type()))
		})
	case *ssa.Extract:
		return one(st, lift1(val(ins.Tuple), func(t *Term) *Term { return fieldOf(t, ins.Index) }))
	case *ssa.MakeInterface:
		return one(st, mkIface(ins.X.Type(), val(ins.X)))
	case *ssa.ChangeInterface:
		return one(st, val(ins.X))
	case *ssa.ChangeType:
		return one(st, ex.changeType(val(ins.X), ins.X.Type(), ins.Type()))
	case *ssa.Convert:
		return ex.convert(fr, st, val(ins.X), ins.X.Type(), ins.Type())
	case *ssa.MultiConvert:
		return ex.convert(fr, st, val(ins.X), ins.X.Type(), ins.Type())
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range ins.Bindings {
			bs = append(bs, val(b))
		}
		f := ins.Fn.(*ssa.Function)
		c := mk("closure", f.String(), KOther, nil, bs...)
		fnOf[c] = f
		return one(st, c)
	case *ssa.MakeSlice:
		elem := ins.Type().Underlying().(*types.Slice).Elem()
		l, c := val(ins.Len), val(ins.Cap)
		// a negative length panics
		fits := mkAnd(mkGe0(l), mkLe(l, c))
		if k := st.pc.norm(c).constVal(); k != nil && k.BitLen() > 48 {
			// more than the address space
			fits = tFalse
		}
		yes, no := ex.split(st, fits)
		var out []branch
		for _, s := range yes {
			o := s.allocArr("make", elem, mk("azero", "", KOther, elem), l)
			out = append(out, branch{st: s, val: mkSlice(o, intConst(0), l, c)})
		}
		for _, s := range no {
			out = append(out, branch{st: s, panics: true, val: mkStr("makeslice"), why: ex.pos(fr, ins) + ": makeslice: len out of range"})
		}
		return out
	case *ssa.Slice:
		return ex.slice(fr, ins, st)
	case *ssa.Call:
		fv, args := ex.callArgs(fr, &ins.Call)
		return ex.applyCall(fr, &ins.Call, fv, args, st)
	case *ssa.TypeAssert:
		return ex.typeAssert(fr, ins, st)
	case *ssa.MakeMap:
		o := mk("map", fmt.Sprintf("make#%d", nextObj()), KOther, ins.Type())
		st.heap[o] = &Cell{typ: ins.Type(), val: mk("mempty", "", KOther, ins.Type())}
		return one(st, o)
	case *ssa.MapUpdate:
		return ex.mapUpdate(fr, ins, st)
	case *ssa.Lookup:
		return ex.lookup(fr, ins, st)
	case *ssa.Range:
		return ex.rangeOver(fr, ins, st)
	case *ssa.Next:
		return ex.next(fr, ins, st)
	case *ssa.MakeChan:
		o := mk("chan", fmt.Sprintf("make#%d", nextObj()), KOther, ins.Type(), val(ins.Size))
		st.heap[o] = &Cell{typ: ins.Type(), val: mk("chst", "", KOther, nil, tFalse)}
		return one(st, o)
	case *ssa.Send:
		return ex.send(fr, ins, val(ins.Chan), val(ins.X), st)
	case *ssa.Go:
		fv, args := ex.callArgs(fr, &ins.Call)
		return ex.goStmt(fr, ins, fv, args, st)
	case *ssa.Select:
		return ex.selectStmt(fr, ins, st)
	}
	ex.giveUp("instruction %T in %s", ins, fr.fn)
	return nil
}

func nextObj() int { objCount++; return objCount }

func mkIface(t types.Type, v *Term) *Term {
	return mk("iface", typeKey(t), KOther, t, v)
}

// deref resolves a pointer value to non-nil pointers.
func (ex *Exec) deref(fr *Frame, st *State, p *Term, ins ssa.Instruction, f func(*State, *Term) []branch) []branch {
	var out []branch
	for _, c := range ex.cases(st, p) {
		nilCond := mkIsNil(c.val)
		if nilCond == tFalse {
			out = append(out, f(c.st, c.val)...)
			continue
		}
		yes, no := ex.split(c.st, nilCond)
		for _, s := range yes {
			out = append(out, branch{st: s, panics: true, val: mkStr("nil dereference"), why: ex.pos(fr, ins) + ": nil pointer dereference"})
		}
		for _, s := range no {
			pv := s.pc.norm(c.val)
			if pv.op == "nil" {
				continue
			}
			if isIte(pv) {
				out = append(out, ex.deref(fr, s, pv, ins, f)...)
				continue
			}
			out = append(out, f(s, pv)...)
		}
	}
	return out
}

func (ex *Exec) bounded(fr *Frame, st *State, ins ssa.Instruction, i, n *Term, f func(*State) []branch) []branch {
	yes, no := ex.split(st, mkAnd(mkGe0(i), mkLt(i, n)))
	var out []branch
	for _, s := range no {
		out = append(out, branch{st: s, panics: true, val: mkStr("index out of range"), why: ex.pos(fr, ins) + ": index out of range"})
	}
	for _, s := range yes {
		out = append(out, f(s)...)
	}
	return out
}

func (ex *Exec) indexAddr(fr *Frame, ins *ssa.IndexAddr, st *State) []branch {
	x, i := ex.value(fr, ins.X), ex.value(fr, ins.Index)
	if pt, ok := ins.X.Type().Underlying().(*types.Pointer); ok {
		at := pt.Elem().Underlying().(*types.Array)
		return ex.deref(fr, st, x, ins, func(s *State, p *Term) []branch {
			return ex.bounded(fr, s, ins, i, intConst(at.Len()), func(s *State) []branch {
				obj, path := ptrParts(p)
				return one(s, mkPtr(obj, append(append([]*Term(nil), path...), i)...))
			})
		})
	}
	var out []branch
	for _, c := range ex.cases(st, x) {
		sl := c.val
		if sl.op != "slice" {
			ex.giveUp("index of %s in %s", sl, fr.fn)
		}
		ex.uses(c.st, sl)
		out = append(out, ex.bounded(fr, c.st, ins, i, sl.args[2], func(s *State) []branch {
			var o2 []branch
			for _, oc := range ex.cases(s, sl.args[0]) {
				o2 = append(o2, branch{st: oc.st, val: mkPtr(oc.val, oc.st.simp(mkAdd(sl.args[1], i)))})
			}
			return o2
		})...)
	}
	return out
}

func (ex *Exec) slice(fr *Frame, ins *ssa.Slice, st *State) []branch {
	x := ex.value(fr, ins.X)
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return ex.value(fr, v)
	}
	do := func(s *State, obj, off, ln, cp *Term) []branch {
		lo := opt(ins.Low, intConst(0))
		hi := opt(ins.High, ln)
		mx := opt(ins.Max, cp)
		ok := mkAnd(mkAnd(mkGe0(lo), mkLe(lo, hi)), mkAnd(mkLe(hi, mx), mkLe(mx, cp)))
		yes, no := ex.split(s, ok)
		var out []branch
		for _, s := range no {
			out = append(out, branch{st: s, panics: true, val: mkStr("slice bounds"), why: ex.pos(fr, ins) + ": slice bounds out of range"})
		}
		for _, s := range yes {
			noff := mkAdd(off, lo)
			r := mkSlice(obj, noff, mkSub(hi, lo), mkSub(mx, lo))
			if ins.High != nil && obj.op != "nil" {
				s.raiseExtent(obj, mkAdd(off, hi))
			}
			out = append(out, branch{st: s, val: r})
		}
		return out
	}
	if pt, ok := ins.X.Type().Underlying().(*types.Pointer); ok {
		at := pt.Elem().Underlying().(*types.Array)
		return ex.deref(fr, st, x, ins, func(s *State, p *Term) []branch {
			obj, path := ptrParts(p)
			if len(path) > 0 {
				ex.giveUp("slice of an array inside an object in %s", fr.fn)
			}
			n := intConst(at.Len())
			return do(s, obj, intConst(0), n, n)
		})
	}
	if b, ok := ins.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		lo := opt(ins.Low, intConst(0))
		hi := opt(ins.High, strLen(x))
		yes, no := ex.split(st, mkAnd(mkAnd(mkGe0(lo), mkLe(lo, hi)), mkLe(hi, strLen(x))))
		var out []branch
		for _, s := range no {
			out = append(out, branch{st: s, panics: true, val: mkStr("slice bounds"), why: ex.pos(fr, ins) + ": slice bounds out of range"})
		}
		for _, s := range yes {
			v := mkSubstr(s.simp(x), s.simp(lo), s.simp(hi), ins.Type())
			if lo.isConst(0) && hi == strLen(x) {
				v = x
			}
			out = append(out, branch{st: s, val: v})
		}
		return out
	}
	var out []branch
	for _, c := range ex.cases(st, x) {
		sl := c.val
		if sl.op != "slice" {
			ex.giveUp("slice of %s", sl)
		}
		out = append(out, do(c.st, sl.args[0], sl.args[1], sl.args[2], sl.args[3])...)
	}
	return out
}

func strLen(x *Term) *Term {
	return lift1(x, func(x *Term) *Term {
		switch x.op {
		case "str":
			return intConst(int64(len(x.name)))
		case "strcat":
			r := intConst(0)
			for _, a := range x.args {
				r = mkAdd(r, strLen(a))
			}
			return r
		case "app":
			if n := runeWidth(x); n > 0 {
				return intConst(n)
			}
			if x.name == "bytestr" || x.name == "dec" && within(x.args[0], 0, 9) {
				return intConst(1)
			}
		}
		return appInt("strlen", big0, maxLen, x)
	})
}

// ---------------------------------------------------------------- operators

// wrapIn reduces a mathematical result to the range of the type, exactly
// when the facts show that it is in the range already.
func (ex *Exec) wrapIn(st *State, p *Term, t types.Type) *Term {
	ii, _ := intType(t)
	if ii.w == 0 {
		return p
	}
	return lift1(p, func(p *Term) *Term {
		lo, hi := ii.rng()
		if in, _ := inRange(p, lo, hi); in {
			return p
		}
		w := mkWrap(p, ii)
		if w.op != "wrap" {
			return w
		}
		if st.pc.decide(mkAnd(mkGe(p, mkConst(lo)), mkLe(p, mkConst(hi)))) == Yes {
			return p
		}
		// a single wrap in a known direction
		m := pow2(ii.w)
		for _, k := range []int64{1, -1} {
			q := mkAdd(p, mkScale(big.NewInt(k), mkConst(m)))
			if st.pc.decide(mkAnd(mkGe(q, mkConst(lo)), mkLe(q, mkConst(hi)))) == Yes {
				return q
			}
		}
		return w
	})
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (ex *Exec) binop(fr *Frame, ins *ssa.BinOp, x, y *Term, st *State) []branch {
	t := ins.X.Type()
	x, y = st.simp(x), st.simp(y)
	switch ins.Op {
	case token.EQL, token.NEQ:
		var r *Term
		if isFloat(t) {
			r = feq(x, y)
		} else {
			r = mkEq(x, y)
		}
		if ins.Op == token.NEQ {
			r = mkNot(r)
		}
		return one(st, r)
	}
	if ii, ok := intType(t); ok {
		return ex.intOp(fr, ins, ii, x, y, st)
	}
	if isString(t) {
		switch ins.Op {
		case token.ADD:
			return one(st, mkCat(x, y))
		case token.LSS:
			return one(st, strLt(x, y))
		case token.GTR:
			return one(st, strLt(y, x))
		case token.LEQ:
			return one(st, mkNot(strLt(y, x)))
		case token.GEQ:
			return one(st, mkNot(strLt(x, y)))
		}
	}
	if isFloat(t) {
		switch ins.Op {
		case token.LSS:
			return one(st, fLt(x, y))
		case token.GTR:
			return one(st, fLt(y, x))
		case token.LEQ:
			return one(st, mkOr(fLt(x, y), lift2(x, y, feq)))
		case token.GEQ:
			return one(st, mkOr(fLt(y, x), lift2(y, x, feq)))
		case token.ADD, token.MUL:
			if x.id > y.id {
				x, y = y, x
			}
		}
		return one(st, app("f"+ins.Op.String()+floatKey(t), t, x, y))
	}
	if kindOf(t) == KBool {
		switch ins.Op {
		case token.AND:
			return one(st, mkAnd(x, y))
		case token.OR:
			return one(st, mkOr(x, y))
		}
	}
	ex.giveUp("operator %s on %s in %s", ins.Op, t, fr.fn)
	return nil
}

func floatKey(t types.Type) string { return ":" + t.Underlying().String() }

// narrow strips the exact, order-preserving widening of both operands.
func narrow(x, y *Term) (*Term, *Term) {
	wide := func(v *Term) bool {
		return v.op == "app" && v.name == "conv:float64" && len(v.args) == 1 && v.args[0].typ != nil &&
			v.args[0].typ.Underlying().String() == "float32"
	}
	if wide(x) && wide(y) {
		return x.args[0], y.args[0]
	}
	return x, y
}

// fLt is x < y: at most one of x < y, x == y and y < x holds (none with a
// NaN), which the terms built here state by themselves.
func fLt(x, y *Term) *Term {
	return lift2(x, y, func(x, y *Term) *Term {
		x, y = narrow(x, y)
		if x == y {
			return tFalse
		}
		ne := mkNot(feq(x, y))
		if x.id < y.id {
			return mkAnd(ne, app("flt", types.Typ[types.Bool], x, y))
		}
		return mkAnd(ne, mkAnd(mkNot(app("flt", types.Typ[types.Bool], y, x)), app("flt", types.Typ[types.Bool], x, y)))
	})
}

func feq(x, y *Term) *Term {
	x, y = narrow(x, y)
	if x.op == "fconst" && y.op == "fconst" {
		return mkBool(x.name == y.name)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return app("feq", types.Typ[types.Bool], x, y)
}

func strLt(x, y *Term) *Term {
	return lift2(x, y, func(x, y *Term) *Term {
		if x == y {
			return tFalse
		}
		if x.op == "str" && y.op == "str" {
			return mkBool(x.name < y.name)
		}
		ne := mkNot(mkEq(x, y))
		if x.id < y.id {
			return mkAnd(ne, app("strlt", types.Typ[types.Bool], x, y))
		}
		return mkAnd(ne, mkNot(app("strlt", types.Typ[types.Bool], y, x)))
	})
}

func (ex *Exec) intOp(fr *Frame, ins *ssa.BinOp, ii intInfo, x, y *Term, st *State) []branch {
	t := ins.X.Type()
	res := func(p *Term) []branch { return one(st, ex.wrapIn(st, p, t)) }
	switch ins.Op {
	case token.LSS:
		return one(st, mkLt(x, y))
	case token.LEQ:
		return one(st, mkLe(x, y))
	case token.GTR:
		return one(st, mkGt(x, y))
	case token.GEQ:
		return one(st, mkGe(x, y))
	case token.ADD:
		return res(mkAdd(x, y))
	case token.SUB:
		return res(mkSub(x, y))
	case token.MUL:
		return res(mkMul(x, y))
	case token.QUO, token.REM:
		yes, no := ex.split(st, mkEq0(y))
		var out []branch
		for _, s := range yes {
			out = append(out, branch{st: s, panics: true, val: mkStr("division by zero"), why: ex.pos(fr, ins) + ": integer divide by zero"})
		}
		for _, s := range no {
			xs, ys := s.simp(s.pc.norm(x)), s.simp(s.pc.norm(y))
			if c := ys.constVal(); ins.Op == token.REM && !ii.signed && xs.op == "wrap" && c != nil && c.Sign() > 0 && c.TrailingZeroBits() == uint(c.BitLen()-1) && uint(c.BitLen()-1) <= wrapInfo(xs).w {
				xs = xs.args[0] // the low bits are those of the number before it wraps
				out = append(out, branch{st: s, val: s.simp(mkSub(xs, mkScale(c, mkFdiv(xs, c))))})
				continue
			}
			q := ex.quo(s, xs, ys)
			if ins.Op == token.REM {
				out = append(out, branch{st: s, val: s.simp(mkSub(xs, mkMul(ys, q)))})
			} else {
				out = append(out, branch{st: s, val: ex.wrapIn(s, q, t)})
			}
		}
		return out
	case token.SHL, token.SHR:
		return ex.shift(fr, ins, ii, x, y, st)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return one(st, ex.bitop(st, ins.Op, x, y, t, ii))
	}
	ex.giveUp("integer operator %s", ins.Op)
	return nil
}

// quo uses the floor form where the facts give the signs.
func (ex *Exec) quo(st *State, x, y *Term) *Term {
	return lift2(x, y, func(x, y *Term) *Term {
		if c := y.constVal(); c != nil && c.Sign() > 0 && x.constVal() == nil {
			if st.pc.decide(mkGe0(x)) == Yes {
				return mkFdiv(x, c)
			}
		}
		// a product divided by a factor, where it fits
		if q := divideOut(x, y); q != nil {
			return q
		}
		if x.op == "wrap" {
			if q := divideOut(x.args[0], y); q != nil {
				lo, hi := wrapInfo(x).rng()
				in := mkAnd(mkGe(x.args[0], mkConst(lo)), mkLe(x.args[0], mkConst(hi)))
				return mkIte(in, q, mkQuo(x, y))
			}
		}
		return mkQuo(x, y)
	})
}

// divideOut is p/v where v is an atom that is not zero and a factor of every
// term of p.
func divideOut(p, v *Term) *Term {
	if ms := monos(v); v.constVal() != nil || len(ms) != 1 || len(ms[0].vars) != 1 || ms[0].c.Cmp(big1) != 0 {
		return nil
	}
	acc := newAcc()
	for _, m := range monos(p) {
		at := -1
		for i, x := range m.vars {
			if x == v {
				at = i
			}
		}
		if at < 0 {
			return nil
		}
		acc.add(m.c, append(append([]*Term(nil), m.vars[:at]...), m.vars[at+1:]...))
	}
	return acc.term()
}

func (ex *Exec) shift(fr *Frame, ins *ssa.BinOp, ii intInfo, x, y *Term, st *State) []branch {
	t := ins.X.Type()
	var out []branch
	if yi, _ := intType(ins.Y.Type()); yi.signed && y.constVal() == nil {
		// a negative amount panics
		yes, no := ex.split(st, mkGe0(y))
		for _, s := range no {
			out = append(out, branch{st: s, panics: true, val: mkStr("negative shift amount"), why: ex.pos(fr, ins) + ": negative shift amount"})
		}
		if len(yes) == 0 {
			return out
		}
		if len(yes) > 1 || len(no) > 0 {
			for _, s := range yes {
				out = append(out, branch{st: s, val: ex.shiftVal(s, ins.Op, ii, x, s.simp(s.pc.norm(y)), t)})
			}
			return out
		}
		st = yes[0]
	}
	return append(out, branch{st: st, val: ex.shiftVal(st, ins.Op, ii, x, st.simp(st.pc.norm(y)), t)})
}

func (ex *Exec) shiftVal(st *State, op token.Token, ii intInfo, x, y *Term, t types.Type) *Term {
	return lift2(x, y, func(x, y *Term) *Term {
		c := y.constVal()
		if c == nil {
			return app("shift"+op.String()+typeKey(t), t, x, y)
		}
		if c.Sign() < 0 {
			return app("badshift", t, x, y)
		}
		if ii.w == 0 {
			if op == token.SHL {
				return mkScale(pow2(uint(c.Int64())), x)
			}
			return mkFdiv(x, pow2(uint(c.Int64())))
		}
		if c.Cmp(big.NewInt(int64(ii.w))) >= 0 {
			if op == token.SHL || !ii.signed {
				return intConst(0)
			}
			c = big.NewInt(int64(ii.w - 1))
		}
		if op == token.SHL {
			return ex.wrapIn(st, mkScale(pow2(uint(c.Int64())), x), t)
		}
		return mkFdiv(x, pow2(uint(c.Int64())))
	})
}

// divisible: p is a multiple of 2^m.
func trailing(p *Term) uint {
	m := uint(200)
	for _, x := range monos(p) {
		z := new(big.Int).Abs(x.c).TrailingZeroBits()
		for _, v := range x.vars {
			if v.op == "wrap" {
				tz := trailing(v.args[0])
				if w := wrapInfo(v).w; tz > w {
					tz = w
				}
				z += tz
			}
		}
		if z < m {
			m = z
		}
	}
	return m
}

// andMask is x & c for a mask of neighbouring bits.
func andMask(x *Term, c *big.Int) *Term {
	if c.Sign() < 0 {
		n := new(big.Int).Neg(c)
		if b := n.TrailingZeroBits(); b == uint(n.BitLen()-1) {
			return mkScale(n, mkFdiv(x, n))
		}
		return nil
	}
	b := c.TrailingZeroBits()
	n := new(big.Int).Add(new(big.Int).Rsh(c, b), big1)
	if n.TrailingZeroBits() != uint(n.BitLen()-1) {
		return nil
	}
	hi := new(big.Int).Lsh(n, b)
	if x.op == "wrap" && uint(hi.BitLen()-1) <= wrapInfo(x).w {
		x = x.args[0]
	}
	// the low bits up to the mask's end, less those below it
	return mkSub(mkScale(pow2(b), mkFdiv(x, pow2(b))), mkScale(hi, mkFdiv(x, hi)))
}

func (ex *Exec) bitop(st *State, op token.Token, x, y *Term, t types.Type, ii intInfo) *Term {
	return lift2(x, y, func(x, y *Term) *Term {
		cx, cy := x.constVal(), y.constVal()
		if cx != nil && cy != nil {
			r := new(big.Int)
			switch op {
			case token.AND:
				r.And(cx, cy)
			case token.OR:
				r.Or(cx, cy)
			case token.XOR:
				r.Xor(cx, cy)
			case token.AND_NOT:
				r.AndNot(cx, cy)
			}
			return mkWrap(mkConst(r), ii)
		}
		if cx != nil && op != token.AND_NOT {
			x, y, cx, cy = y, x, cy, cx
		}
		if cy != nil {
			if cy.Sign() == 0 {
				switch op {
				case token.AND:
					return intConst(0)
				}
				return x
			}
			if op == token.AND {
				// low mask
				if p := new(big.Int).Add(cy, big1); cy.Sign() > 0 && p.TrailingZeroBits() == uint(p.BitLen()-1) {
					c := p
					if x.op == "wrap" && uint(p.BitLen()-1) <= wrapInfo(x).w {
						x = x.args[0] // the low bits are those of the number before it wraps
					}
					return mkSub(x, mkScale(c, mkFdiv(x, c)))
				}
				if cy.IsInt64() && cy.Int64() == -1 {
					return x
				}
			}
		}
		if cy != nil {
			if a := andMask(x, cy); a != nil {
				switch op {
				case token.AND:
					return a
				case token.OR:
					return mkSub(mkAdd(x, y), a)
				case token.XOR:
					return mkSub(mkAdd(x, y), mkScale(big.NewInt(2), a))
				case token.AND_NOT:
					return mkSub(x, a)
				}
			}
		}
		// all bits, or none
		for _, p := range [][2]*Term{{x, y}, {y, x}} {
			m, z := p[0], p[1]
			if op == token.AND_NOT && m == x || m.constVal() != nil {
				continue
			}
			if lo, hi := bounds(m); lo == nil || hi == nil || lo.Cmp(big.NewInt(-1)) < 0 || hi.Sign() > 0 {
				continue
			}
			none := mkGe0(m)
			switch op {
			case token.AND:
				return mkIte(none, intConst(0), z)
			case token.OR:
				return mkIte(none, z, intConst(-1))
			case token.XOR:
				return mkIte(none, z, mkAddK(mkNeg(z), -1))
			case token.AND_NOT:
				return mkIte(none, z, intConst(0))
			}
		}
		if x == y {
			switch op {
			case token.AND, token.OR:
				return x
			case token.XOR, token.AND_NOT:
				return intConst(0)
			}
		}
		if op == token.OR || op == token.XOR {
			// disjoint bits add
			for _, p := range [][2]*Term{{x, y}, {y, x}} {
				tz := trailing(p[0])
				if tz > 0 && tz < 200 {
					lo, hi := bounds(p[1])
					lim := mkConst(pow2(tz))
					if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(pow2(tz)) < 0 ||
						st.pc.decide(mkAnd(mkGe0(p[1]), mkLt(p[1], lim))) == Yes {
						return mkAdd(x, y)
					}
				}
			}
		}
		if x.id > y.id && op != token.AND_NOT {
			x, y = y, x
		}
		return app("bit"+op.String()+typeKey(t), t, x, y)
	})
}

func (ex *Exec) unop(fr *Frame, ins *ssa.UnOp, x *Term, st *State) []branch {
	switch ins.Op {
	case token.MUL:
		return ex.deref(fr, st, x, ins, func(s *State, p *Term) []branch {
			return one(s, s.load(p, ins.Type()))
		})
	case token.NOT:
		return one(st, mkNot(x))
	case token.SUB:
		if ii, ok := intType(ins.Type()); ok {
			_ = ii
			return one(st, ex.wrapIn(st, mkNeg(st.simp(x)), ins.Type()))
		}
		return one(st, app("fneg"+floatKey(ins.Type()), ins.Type(), x))
	case token.XOR:
		ii, _ := intType(ins.Type())
		// ^x = -x-1
		return one(st, lift1(st.simp(x), func(x *Term) *Term { return mkWrap(mkAddK(mkNeg(x), -1), ii) }))
	case token.ARROW:
		return ex.recv(fr, ins, x, st)
	}
	ex.giveUp("unary %s", ins.Op)
	return nil
}

func (ex *Exec) changeType(v *Term, from, to types.Type) *Term {
	return lift1(v, func(v *Term) *Term {
		if v.op == "struct" {
			return mk(v.op, v.name, v.kind, to, v.args...)
		}
		return v
	})
}

func (ex *Exec) convert(fr *Frame, st *State, v *Term, from, to types.Type) []branch {
	_, fi := intType(from)
	ti, tiOK := intType(to)
	if fi && tiOK {
		return one(st, lift1(st.simp(v), func(v *Term) *Term {
			if ti.w == 0 {
				return v
			}
			return ex.wrapIn(st, v, to)
		}))
	}
	if isString(from) && isString(to) {
		return one(st, v)
	}
	if isFloat(from) || isFloat(to) {
		if types.Identical(from.Underlying(), to.Underlying()) {
			return one(st, v)
		}
		if v.op == "fconst" && isFloat(to) {
			return one(st, v)
		}
		if fi {
			if c := v.constVal(); c != nil && c.BitLen() < 24 {
				return one(st, mk("fconst", c.String(), KOther, nil))
			}
		}
		return one(st, convFloat(v, from, to))
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return one(st, ex.changeType(v, from, to))
	}
	if isString(to) {
		// []byte, []rune, rune -> string
		if _, ok := from.Underlying().(*types.Slice); ok {
			var out []branch
			for _, c := range ex.cases(st, v) {
				out = append(out, branch{st: c.st, val: ex.seqToString(c.st, c.val, from, to)})
			}
			return out
		}
		return one(st, mkRuneStr(v, to))
	}
	if isString(from) {
		if sl, ok := to.Underlying().(*types.Slice); ok {
			key := "bytesof"
			if ti, _ := intType(sl.Elem()); ti.w == 32 {
				key = "runesof"
			}
			if x := st.simp(v); key == "runesof" && !isIte(x) {
				if rs, _, ok := runesOf(x); ok && len(rs) <= 8192 {
					return one(st, ex.sliceOf(st, sl.Elem(), rs))
				}
			}
			// a fresh slice holding the string's bytes
			var n *Term
			if key == "bytesof" {
				n = strLen(v)
			} else {
				n = appInt("runelen", big0, maxLen, v)
			}
			content := mk("app", key, KOther, sl.Elem(), v)
			o := st.allocArr(key, sl.Elem(), content, n)
			return one(st, mkSlice(o, intConst(0), n, n))
		}
	}
	return one(st, app("convert:"+typeKey(to), to, v))
}

func convFloat(v *Term, from, to types.Type) *Term {
	fk, tk := from.Underlying().String(), to.Underlying().String()
	if fk == tk {
		return v
	}
	// widening is exact: narrowing back gives the value again
	if v.op == "app" && v.name == "conv:float64" && len(v.args) == 1 && tk == "float32" && v.args[0].typ != nil && v.args[0].typ.Underlying().String() == "float32" {
		return v.args[0]
	}
	return app("conv:"+tk, to, v)
}

func (ex *Exec) seqToString(st *State, sl *Term, from, to types.Type) *Term {
	elem := from.Underlying().(*types.Slice).Elem()
	key := "bytesstr"
	inv := "bytesof"
	if ti, _ := intType(elem); ti.w == 32 {
		key, inv = "runesstr", "runesof"
	}
	if sl.args[0].op == "nil" || sl.args[2].isConst(0) {
		return mkStr("")
	}
	c := st.cell(sl.args[0], nil)
	A := c.val
	if A.op == "app" && A.name == inv && sl.args[1].isConst(0) {
		n := strLen(A.args[0])
		if inv == "runesof" {
			n = appInt("runelen", big0, maxLen, A.args[0])
		}
		if sl.args[2] == n {
			if inv == "bytesof" {
				return A.args[0]
			}
			return app("validutf8", to, A.args[0])
		}
	}
	if n := st.pc.norm(sl.args[2]).constVal(); n != nil && n.IsInt64() && n.Int64() <= 8192 {
		var es []*Term
		for i := int64(0); i < n.Int64(); i++ {
			es = append(es, mkSel(A, mkAddK(sl.args[1], i)))
		}
		if t := textOfElems(st, es, inv == "runesof", to); t != nil {
			return t
		}
		for i, e := range es {
			es[i] = lift1(st.simp(e), func(e *Term) *Term {
				if inv == "runesof" {
					return mkRuneStr(e, to)
				}
				if c := e.constVal(); c != nil && c.IsInt64() {
					return mkStr(string([]byte{byte(c.Int64())}))
				}
				return app("bytestr", types.Typ[types.String], e)
			})
		}
		return mkCat(es...)
	}
	return app(key, to, st.seqKey(A, sl.args[1], sl.args[2]))
}

// seqKey is the canonical term of a sequence: the elements of A from off.
func (st *State) seqKey(A, off, n *Term) *Term {
	k := freshInt("seq", big0, nil)
	s2 := st.withPC(st.pc)
	var body *Term
	pcs := st.pc.assumeAll(mkAnd(mkGe0(k), mkLt(k, n)))
	body = mkSel(A, mkAdd(off, k))
	if len(pcs) == 1 {
		body = s2.withPC(pcs[0]).simp(body)
	}
	return bindTerm("seq", "", KOther, nil, []*Term{n}, []*Term{k}, body)
}

func (ex *Exec) typeAssert(fr *Frame, ins *ssa.TypeAssert, st *State) []branch {
	var out []branch
	for _, c := range ex.cases(st, ex.value(fr, ins.X)) {
		v := c.val
		at := ins.AssertedType
		_, toIface := at.Underlying().(*types.Interface)
		ok := Unknown
		var res *Term
		switch v.op {
		case "niliface":
			ok = No
		case "iface":
			if toIface {
				if types.Implements(v.typ, at.Underlying().(*types.Interface)) {
					ok, res = Yes, v
				} else {
					ok = No
				}
			} else if types.Identical(v.typ, at) {
				ok, res = Yes, v.args[0]
			} else {
				ok = No
			}
		}
		if ok == Unknown {
			cond := app("istype:"+typeKey(at), types.Typ[types.Bool], v)
			var ps *Term
			if toIface {
				ps = v
			} else {
				ps = appValue("asserted:"+typeKey(at), at, v)
			}
			yes, no := ex.split(c.st, cond)
			for _, s := range yes {
				if ins.CommaOk {
					out = append(out, branch{st: s, val: mkTuple(ps, tTrue)})
				} else {
					out = append(out, branch{st: s, val: ps})
				}
			}
			for _, s := range no {
				if ins.CommaOk {
					out = append(out, branch{st: s, val: mkTuple(zeroValue(at), tFalse)})
				} else {
					out = append(out, branch{st: s, panics: true, val: mkStr("type assertion"), why: ex.pos(fr, ins) + ": type assertion fails"})
				}
			}
			continue
		}
		if ins.CommaOk {
			if ok == Yes {
				out = append(out, branch{st: c.st, val: mkTuple(res, tTrue)})
			} else {
				out = append(out, branch{st: c.st, val: mkTuple(zeroValue(at), tFalse)})
			}
		} else if ok == Yes {
			out = append(out, branch{st: c.st, val: res})
		} else {
			out = append(out, branch{st: c.st, panics: true, val: mkStr("type assertion"), why: ex.pos(fr, ins) + ": type assertion fails"})
		}
	}
	return out
}

// ---------------------------------------------------------------- calls

func (ex *Exec) callArgs(fr *Frame, call *ssa.CallCommon) (*Term, []*Term) {
	fv := ex.value(fr, call.Value)
	var args []*Term
	for _, a := range call.Args {
		args = append(args, ex.value(fr, a))
	}
	return fv, args
}

func (ex *Exec) applyCall(fr *Frame, call *ssa.CallCommon, fv *Term, args []*Term, st *State) []branch {
	if call.IsInvoke() {
		return ex.invoke(fr, call, fv, args, st)
	}
	if fv.op == "builtin" {
		return ex.builtin(fr, call, fv.name, args, st)
	}
	return ex.callValue(fr, call, fv, args, st)
}

func (ex *Exec) callValue(fr *Frame, call *ssa.CallCommon, fv *Term, args []*Term, st *State) []branch {
	var out []branch
	for _, c := range ex.cases(st, fv) {
		f := c.val
		switch f.op {
		case "fn", "closure":
			fn := fnOf[f]
			out = append(out, ex.callFn(fr, call, fn, args, f.args, c.st)...)
		case "nil":
			out = append(out, branch{st: c.st, panics: true, val: mkStr("nil function"), why: "call of a nil function in " + fr.fn.String()})
		default:
			// an unknown function: one call, its result is the function's value
			c.st.event("call", append([]*Term{f}, args...)...)
			sig := call.Signature()
			out = append(out, branch{st: c.st, val: opaqueResult("call:"+f.String(), sig, append([]*Term{f}, args...))})
		}
	}
	return out
}

func opaqueResult(name string, sig *types.Signature, args []*Term) *Term {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return appValue(name, sig.Results().At(0).Type(), args...)
	}
	return appValue(name, sig.Results(), args...)
}

func (ex *Exec) callFn(fr *Frame, call *ssa.CallCommon, fn *ssa.Function, args, free []*Term, st *State) []branch {
	name := fnName(fn)
	if fn.Pkg == ex.pkg || fn.Pkg == nil {
		if h, ok := intrinsics[baseName(fn)]; ok && strings.HasPrefix(baseName(fn), "sa") {
			return h(ex, fr, fn, args, st)
		}
	}
	if h, ok := ex.replace[name]; ok {
		if brs, done := h(ex, fr, call, args, st); done {
			return brs
		}
	}
	if h, ok := models[name]; ok {
		return h(ex, fr, fn, args, st)
	}
	if s := ex.stubFor(fn); s != nil {
		return outsToBranches(ex.call(s, args, nil, st, fr))
	}
	if len(fn.Blocks) == 0 {
		return ex.external(fr, fn, args, st)
	}
	outs := ex.call(fn, args, free, st, fr)
	return outsToBranches(outs)
}

func outsToBranches(outs []Outcome) []branch {
	var r []branch
	for _, o := range outs {
		if o.kind == OutPanic {
			r = append(r, branch{st: o.st, panics: true, val: o.vals[0], why: o.why})
			continue
		}
		var v *Term
		switch len(o.vals) {
		case 0:
		case 1:
			v = o.vals[0]
		default:
			v = mkTuple(o.vals...)
		}
		r = append(r, branch{st: o.st, val: v})
	}
	return r
}

// baseName is the name of a function without type arguments.
func baseName(fn *ssa.Function) string {
	n := fn.Name()
	if o := fn.Origin(); o != nil {
		n = o.Name()
	}
	if i := strings.IndexByte(n, '['); i >= 0 {
		n = n[:i]
	}
	return n
}

// fnName is the full name without type arguments: pkg.F, (pkg.T).M, (*pkg.T).M.
func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	s := fn.String()
	// drop type parameters
	for {
		i := strings.IndexByte(s, '[')
		if i < 0 {
			return s
		}
		d := 0
		j := i
		for ; j < len(s); j++ {
			if s[j] == '[' {
				d++
			} else if s[j] == ']' {
				d--
				if d == 0 {
					break
				}
			}
		}
		s = s[:i] + s[j+1:]
	}
}

func (ex *Exec) invoke(fr *Frame, call *ssa.CallCommon, recv *Term, args []*Term, st *State) []branch {
	var out []branch
	for _, c := range ex.cases(st, recv) {
		v := c.val
		if v.op == "niliface" {
			out = append(out, branch{st: c.st, panics: true, val: mkStr("nil dereference"), why: "method call on a nil interface in " + fr.fn.String()})
			continue
		}
		if v.op == "iface" {
			fn := ex.prog.LookupMethod(v.typ, call.Method.Pkg(), call.Method.Name())
			if fn == nil {
				ex.giveUp("method %s of %s", call.Method.Name(), v.typ)
			}
			out = append(out, ex.callFn(fr, call, fn, append([]*Term{v.args[0]}, args...), nil, c.st)...)
			continue
		}
		// unknown implementation
		nl := mkIsNil(v)
		yes, no := ex.split(c.st, nl)
		if nl == tFalse {
			yes, no = nil, []*State{c.st}
		}
		for _, s := range yes {
			out = append(out, branch{st: s, panics: true, val: mkStr("nil dereference"), why: "method call on a nil interface in " + fr.fn.String()})
		}
		for _, s := range no {
			all := append([]*Term{v}, args...)
			nm := "invoke:" + call.Method.Name()
			if pureInvoke[call.Method.Name()] {
				out = append(out, branch{st: s, val: opaqueResult(nm, call.Signature(), all)})
				continue
			}
			s.event(nm, all...)
			out = append(out, branch{st: s, val: opaqueResult(nm, call.Signature(), append(all, s.ev))})
		}
	}
	return out
}

var pureInvoke = map[string]bool{"Error": true, "Name": true, "IsDir": true, "Mode": true, "Size": true, "ModTime": true, "Type": true, "String": true}

// ---------------------------------------------------------------- builtins

func (ex *Exec) builtin(fr *Frame, call *ssa.CallCommon, name string, args []*Term, st *State) []branch {
	switch name {
	case "len", "cap":
		t := call.Args[0].Type()
		x := args[0]
		if isString(t) {
			return one(st, strLen(x))
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			i := 2
			if name == "cap" {
				i = 3
			}
			return one(st, lift1(x, func(x *Term) *Term { return fieldOfSlice(x, i) }))
		case *types.Array:
			return one(st, intConst(u.Len()))
		case *types.Pointer:
			return one(st, intConst(u.Elem().Underlying().(*types.Array).Len()))
		case *types.Map:
			return ex.mapLen(fr, x, st)
		}
		return one(st, appInt(name, big0, maxLen, x))
	case "append":
		return ex.appendTo(fr, call, args, st)
	case "copy":
		return ex.copySlice(fr, call, args, st)
	case "delete":
		return ex.mapDelete(fr, call, args, st)
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			if !isInt(r) {
				r = app("f"+name, call.Args[0].Type(), r, a)
				continue
			}
			c := mkLe(r, a)
			if name == "max" {
				c = mkGe(r, a)
			}
			r = mkIte(c, r, a)
		}
		return one(st, r)
	case "recover":
		if c, ok := st.heap[panicObj]; ok && c.val.args[0] == tTrue {
			v := c.val.args[1]
			st.setCell(panicObj, mkTuple(tFalse, v))
			return one(st, v)
		}
		return one(st, tNilIface)
	case "close":
		return ex.closeChan(fr, args[0], st)
	case "print", "println":
		st.event(name, args...)
		return one(st, nil)
	case "clear":
		if _, ok := call.Args[0].Type().Underlying().(*types.Map); ok {
			var out []branch
			for _, c := range ex.cases(st, args[0]) {
				if c.val.op == "map" {
					c.st.cell(c.val, nil)
					c.st.setCell(c.val, mk("mempty", "", KOther, call.Args[0].Type()))
				}
				out = append(out, branch{st: c.st})
			}
			return out
		}
		var out []branch
		for _, c := range ex.cases(st, args[0]) {
			sl := c.val
			if sl.args[0].op != "nil" {
				ce := c.st.cell(sl.args[0], nil)
				k := freshInt("clr", big0, nil)
				c.st.setCell(sl.args[0], mkSeg(ce.val, sl.args[1], sl.args[2], k, zeroValue(ce.typ)))
			}
			out = append(out, branch{st: c.st})
		}
		return out
	case "ssa:wrapnilchk":
		return one(st, args[0])
	case "real", "imag", "complex":
		return one(st, app(name, call.Signature().Results().At(0).Type(), args...))
	}
	ex.giveUp("builtin %s", name)
	return nil
}

func fieldOfSlice(x *Term, i int) *Term {
	if x.op == "slice" {
		return x.args[i]
	}
	if x.op == "nil" {
		return intConst(0)
	}
	panic(undecided{"slice component of " + x.String()})
}

// seqOf is the content of what append and copy read: elements and length.
func (ex *Exec) seqOf(st *State, t types.Type, x *Term) (get func(*State, *Term) *Term, n *Term) {
	if isString(t) {
		c := mk("app", "bytesof", KOther, types.Typ[types.Uint8], x)
		return func(s *State, i *Term) *Term { return mkSel(c, i) }, strLen(x)
	}
	if x.op != "slice" {
		ex.giveUp("sequence %s", x)
	}
	if x.args[0].op == "nil" {
		return func(s *State, i *Term) *Term { return app("none", nil) }, intConst(0)
	}
	A := st.cell(x.args[0], nil).val
	off := x.args[1]
	return func(s *State, i *Term) *Term { return s.simp(mkSel(A, mkAdd(off, i))) }, x.args[2]
}

// writeSeq writes n elements at position at of array A.
func (ex *Exec) writeSeq(st *State, A, at, n *Term, get func(*State, *Term) *Term) *Term {
	if c := n.constVal(); c != nil && c.IsInt64() && c.Int64() <= 4 {
		for i := int64(0); i < c.Int64(); i++ {
			A = st.mkStore(A, mkAddK(at, i), get(st, intConst(i)))
		}
		return A
	}
	k := freshInt("cp", big0, nil)
	pcs := st.pc.assumeAll(mkAnd(mkGe0(k), mkLt(k, n)))
	if len(pcs) == 0 {
		return A
	}
	s2 := st
	if len(pcs) == 1 {
		s2 = st.withPC(pcs[0])
	}
	return mkSeg(A, at, n, k, get(s2, k))
}

func (ex *Exec) appendTo(fr *Frame, call *ssa.CallCommon, args []*Term, st *State) []branch {
	elem := call.Args[0].Type().Underlying().(*types.Slice).Elem()
	var out []branch
	for _, c := range ex.cases(st, args[0]) {
		if len(args) < 2 {
			out = append(out, c)
			continue
		}
		for _, d := range ex.cases(c.st, args[1]) {
			out = append(out, ex.append1(d.st, elem, c.val, call.Args[1].Type(), d.val)...)
		}
	}
	return out
}

func (ex *Exec) append1(st *State, elem types.Type, sl *Term, t types.Type, src *Term) []branch {
	get, n := ex.seqOf(st, t, src)
	if n.isConst(0) {
		return one(st, sl)
	}
	obj, off, ln, cp := sl.args[0], sl.args[1], sl.args[2], sl.args[3]
	nl := mkAdd(ln, n)
	end := mkAdd(off, ln)
	fresh := func(s *State) branch {
		var A *Term
		if obj.op == "nil" {
			A = mk("azero", "", KOther, elem)
		} else {
			A = s.cell(obj, nil).val
		}
		A = ex.writeSeq(s, A, end, n, get)
		o := s.allocArr("append", elem, A, mkAdd(off, nl))
		sp := freshInt("spare", big0, maxLen)
		return branch{st: s, val: mkSlice(o, off, nl, mkAdd(nl, sp))}
	}
	inplace := func(s *State, ncap *Term) branch {
		A := ex.writeSeq(s, s.cell(obj, nil).val, end, n, get)
		s.setCell(obj, A)
		s.raiseExtent(obj, mkAdd(off, nl))
		return branch{st: s, val: mkSlice(obj, off, nl, ncap)}
	}
	if obj.op == "nil" {
		return []branch{fresh(st)}
	}
	ex.uses(st, sl)
	fits := st.pc.decide(mkLe(nl, cp))
	if fits == Yes {
		return []branch{inplace(st, cp)}
	}
	visEnd := st.cell(obj, nil).extent
	if visEnd == nil {
		// a symbolic slice sees its own length
		visEnd = st.initialExtent(obj)
	}
	if !ex.forks && visEnd != nil && st.pc.decide(mkLe(visEnd, end)) == Yes {
		// nobody sees the region behind the end: growing in place and
		// moving cannot be told apart, except by who shares the storage
		if ln.isConst(0) && off.isConst(0) || fits != No || st.cell(obj, nil).extent != nil {
			sp := freshInt("spare", big0, maxLen)
			if ex.regrown[obj] == nil {
				ex.regrown[obj] = map[*Term]bool{}
			}
			ex.regrown[obj][st.simp(mkAdd(off, cp))] = true
			return []branch{inplace(st, mkAdd(nl, sp))}
		}
	}
	if fits == No {
		return []branch{fresh(st)}
	}
	yes, no := ex.split(st, mkLe(nl, cp))
	var out []branch
	for _, s := range yes {
		out = append(out, inplace(s, cp))
	}
	for _, s := range no {
		out = append(out, fresh(s))
	}
	return out
}

// uses notes that a slice is read or written that may have lost its storage
// to a longer one.
func (ex *Exec) uses(st *State, sl *Term) {
	if m := ex.regrown[sl.args[0]]; m != nil && !ex.stale && m[st.simp(mkAdd(sl.args[1], sl.args[3]))] {
		ex.stale = true
	}
}

func (s *State) initialExtent(obj *Term) *Term {
	if strings.HasSuffix(obj.name, ".arr") {
		base := strings.TrimSuffix(obj.name, ".arr")
		var ln *Term
		if len(obj.args) == 0 {
			ln = mk("sym", base+".len", KInt, nil)
		} else {
			ln = mk("app", base+".len", KInt, nil, obj.args...)
		}
		ln.lo, ln.hi = big0, maxLen
		return ln
	}
	return nil
}

func (ex *Exec) copySlice(fr *Frame, call *ssa.CallCommon, args []*Term, st *State) []branch {
	var out []branch
	for _, c := range ex.cases(st, args[0]) {
		for _, d := range ex.cases(c.st, args[1]) {
			get, n := ex.seqOf(d.st, call.Args[1].Type(), d.val)
			dst := c.val
			ex.uses(d.st, dst)
			m := dst.args[2]
			yes, no := ex.split(d.st, mkLe(n, m))
			do := func(s *State, n *Term) {
				if dst.args[0].op != "nil" {
					A := ex.writeSeq(s, s.cell(dst.args[0], nil).val, dst.args[1], n, get)
					s.setCell(dst.args[0], A)
				}
				out = append(out, branch{st: s, val: n})
			}
			for _, s := range yes {
				do(s, n)
			}
			for _, s := range no {
				do(s, m)
			}
		}
	}
	return out
}

// external: a function without source (another package).
func (ex *Exec) external(fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
	name := fnName(fn)
	sig := fn.Signature
	if ex.isPure(fn) {
		return one(st, opaqueResult(shortOpaque(name), sig, ex.valueArgs(st, sig, args)))
	}
	vargs := ex.valueArgs(st, sig, args)
	st.event(name, vargs...)
	// what the function may write through pointers becomes unknown
	ex.havocArgs(st, fn, args)
	return one(st, opaqueResult(name, sig, append(vargs, st.ev)))
}

func shortOpaque(n string) string { return n }

func (ex *Exec) isPure(fn *ssa.Function) bool {
	if fn.Pkg == ex.pkg || fn.Pkg == nil {
		return true
	}
	switch fn.Pkg.Pkg.Path() {
	case "strings", "strconv", "math", "math/bits", "unicode", "unicode/utf8", "unicode/utf16", "errors", "math/cmplx":
		return true
	case "fmt":
		return strings.HasPrefix(fn.Name(), "Sprint") || fn.Name() == "Errorf"
	case "time":
		return fn.Signature.Recv() != nil
	case "reflect":
		return true
	}
	return false
}

// valueArgs replaces slices by the sequences they hold.
func (ex *Exec) valueArgs(st *State, sig *types.Signature, args []*Term) []*Term {
	var r []*Term
	for _, a := range args {
		r = append(r, ex.argKey(st, a))
	}
	return r
}

func (ex *Exec) argKey(st *State, a *Term) *Term {
	if a == nil {
		return tNil
	}
	return lift1(st.simp(a), func(a *Term) *Term {
		switch a.op {
		case "slice":
			if a.args[0].op == "nil" {
				return mk("seq0", "", KOther, nil)
			}
			if c := a.args[2].constVal(); c != nil && c.IsInt64() && c.Int64() <= 8192 {
				var es []*Term
				A := st.cell(a.args[0], nil).val
				for i := int64(0); i < c.Int64(); i++ {
					es = append(es, ex.argKey(st, st.simp(mkSel(A, mkAddK(a.args[1], i)))))
				}
				return mk("list", "", KOther, nil, es...)
			}
			return st.seqKey(st.cell(a.args[0], nil).val, a.args[1], a.args[2])
		case "iface":
			return mk("iface", a.name, KOther, a.typ, ex.argKey(st, a.args[0]))
		}
		return a
	})
}

func (ex *Exec) havocArgs(st *State, fn *ssa.Function, args []*Term) {
	sig := fn.Signature
	for i, a := range args {
		var t types.Type
		j := i
		if sig.Recv() != nil {
			j--
		}
		if j >= 0 && j < sig.Params().Len() {
			t = sig.Params().At(j).Type()
		}
		if t == nil || a == nil {
			continue
		}
		if a.op == "slice" && a.args[0].op == "obj" {
			if sl, ok := t.Underlying().(*types.Slice); ok {
				st.cell(a.args[0], nil)
				st.setCell(a.args[0], mk("app", "written:"+fnName(fn), KOther, sl.Elem(), st.ev))
			}
		}
		if a.op == "ptr" {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				st.store(a, appValue("written:"+fnName(fn), pt.Elem(), st.ev), pt.Elem())
			}
		}
	}
}

func debugf(format string, a ...any) {
	if debug {
		fmt.Fprintf(os.Stderr, format+"\n", a...)
	}
}

// where is the position of the call that the analysis is in.
func (ex *Exec) where(fr *Frame) string {
	if fr == nil {
		return ""
	}
	return strings.ReplaceAll(fr.fn.String(), "github.com/myyrakle/", "")
}
