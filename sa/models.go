package main

import (
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func init() {
	intrinsics["saMark"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		t := st.ev
		st.ev = evNil
		return one(st, mkIface(types.Typ[types.Int], t))
	}
	models["reflect.ValueOf"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		return one(st, mk("rvalue", "", KOther, fn.Signature.Results().At(0).Type(), args[0]))
	}
	models["(reflect.Value).Interface"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		return one(st, lift1(args[0], func(v *Term) *Term {
			if v.op == "rvalue" {
				return v.args[0]
			}
			return appValue("Interface", fn.Signature.Results().At(0).Type(), v)
		}))
	}
	models["reflect.DeepEqual"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		return one(st, lift2(st.simp(args[0]), st.simp(args[1]), func(x, y *Term) *Term { return deepEqual(x, y) }))
	}
}

func deepEqual(x, y *Term) *Term {
	if x == y {
		return tTrue
	}
	if x.op == "iface" && y.op == "iface" && x.typ != y.typ && !types.Identical(x.typ, y.typ) {
		return tFalse
	}
	if x.op == "niliface" || y.op == "niliface" {
		return mkEq(x, y)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return app("deepequal", types.Typ[types.Bool], x, y)
}

// dec is the decimal text of an integer.
func dec(n *Term) *Term {
	return lift1(n, func(n *Term) *Term {
		if c := n.constVal(); c != nil {
			return mkStr(c.String())
		}
		return app("dec", types.Typ[types.String], n)
	})
}

func init() {
	intrinsics["saDec"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		return one(st, dec(st.simp(args[0])))
	}
	models["strconv.Itoa"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		return one(st, dec(st.simp(args[0])))
	}
	for _, n := range []string{"strconv.FormatInt", "strconv.FormatUint"} {
		n := n
		models[n] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
			if args[1].isConst(10) {
				return one(st, dec(st.simp(args[0])))
			}
			return one(st, app(n, types.Typ[types.String], args[0], args[1]))
		}
	}
	models["strconv.FormatBool"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		return one(st, mkIte(st.simp(args[0]), mkStr("true"), mkStr("false")))
	}
	models["fmt.Sprintf"] = sprintf
	models["fmt.Sprint"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		l := ex.argKey(st, args[0])
		if l.op == "list" && len(l.args) == 1 {
			if r := verbText(st, 'v', l.args[0]); r != nil {
				return one(st, r)
			}
		}
		return one(st, app("fmt.Sprint", types.Typ[types.String], l))
	}
}

// verbText is the text of one operand of a format verb, where it is known.
func verbText(st *State, verb byte, a *Term) *Term {
	if a.op != "iface" {
		return nil
	}
	if hasStringMethod(a.typ) && (verb == 's' || verb == 'v') {
		return nil
	}
	v := a.args[0]
	switch {
	case (verb == 'd' || verb == 'v') && isInt(v):
		if _, ok := intType(a.typ); ok {
			return dec(v)
		}
	case (verb == 's' || verb == 'v') && isStrTyp(a.typ):
		return v
	case (verb == 't' || verb == 'v') && kindOf(a.typ) == KBool:
		return mkIte(v, mkStr("true"), mkStr("false"))
	}
	return nil
}

func hasStringMethod(t types.Type) bool {
	for _, n := range []string{"String", "Error"} {
		if o, _, _ := types.LookupFieldOrMethod(t, true, nil, n); o != nil {
			if _, ok := o.(*types.Func); ok {
				return true
			}
		}
	}
	return false
}

func sprintf(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
	f := st.simp(args[0])
	l := ex.argKey(st, args[1])
	var es []*Term
	switch l.op {
	case "list":
		es = l.args
	case "seq0":
	default:
		f = nil
	}
	opaque := func() []branch {
		return one(st, app("fmt.Sprintf", types.Typ[types.String], args[0], l))
	}
	if f == nil || f.op != "str" {
		return opaque()
	}
	var parts []*Term
	s := f.name
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			j := i
			for j < len(s) && s[j] != '%' {
				j++
			}
			parts = append(parts, mkStr(s[i:j]))
			i = j - 1
			continue
		}
		i++
		if i >= len(s) {
			return opaque()
		}
		if s[i] == '%' {
			parts = append(parts, mkStr("%"))
			continue
		}
		if n >= len(es) {
			return opaque()
		}
		t := verbText(st, s[i], es[n])
		if t == nil {
			// an operand whose text is not known: its own function
			switch s[i] {
			case 'v', 's', 'd', 'q', 'x', 't':
				t = app("verb%"+string(s[i]), types.Typ[types.String], es[n])
			default:
				return opaque()
			}
		}
		n++
		parts = append(parts, t)
	}
	if n != len(es) {
		return opaque()
	}
	r := mkStr("")
	for _, p := range parts {
		p := p
		r = lift2(r, p, func(a, b *Term) *Term { return mkCat(a, b) })
	}
	return one(st, r)
}

// time.ParseDuration of a text of numbers with units, as Sprintf makes it
func init() {
	unit := map[string]int64{"ns": 1, "us": 1000, "ms": 1000000, "s": 1000000000, "m": 60000000000, "h": 3600000000000}
	models["time.ParseDuration"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		var out []branch
		for _, c := range ex.cases(st, args[0]) {
			total := intConst(0)
			ok := c.val.op == "strcat" && len(c.val.args)%2 == 0
			if ok {
				for i := 0; i < len(c.val.args); i += 2 {
					d, u := c.val.args[i], c.val.args[i+1]
					var n *Term
					if d.op == "app" && d.name == "dec" {
						n = d.args[0]
					}
					if n == nil || u.op != "str" || unit[u.name] == 0 || c.st.pc.decide(mkGe0(n)) != Yes {
						ok = false
						break
					}
					total = mkAdd(total, mkScale(bigOf(unit[u.name]), n))
				}
			}
			if !ok {
				ex.giveUp("time.ParseDuration outside the model")
			}
			fits := mkGe0(mkSub(mkConst(new(big.Int).Sub(pow2(63), big1)), total))
			yes, no := ex.split(c.st, fits)
			for _, s := range yes {
				out = append(out, branch{st: s, val: mkTuple(total, tNilIface)})
			}
			for _, s := range no {
				out = append(out, branch{st: s, val: mkTuple(intConst(0), mk("app", "invalid duration", KOther, fn.Signature.Results().At(1).Type(), args[0]))})
			}
		}
		return out
	}
}

// math/bits, on numbers
func init() {
	for _, w := range []uint{0, 32, 64} {
		w, name := w, map[uint]string{0: "", 32: "32", 64: "64"}[w]
		if w == 0 {
			w = 64
		}
		ii := intInfo{w, false}
		m := func(fn string, f func(st *State, a []*Term) *Term) {
			models["math/bits."+fn+name] = func(ex *Exec, fr *Frame, _ *ssa.Function, args []*Term, st *State) []branch {
				var a []*Term
				for _, x := range args {
					a = append(a, st.simp(x))
				}
				return one(st, st.simp(f(st, a)))
			}
		}
		m("Add", func(st *State, a []*Term) *Term {
			s := mkAdd(mkAdd(a[0], a[1]), a[2])
			over := mkGe(s, mkConst(pow2(w)))
			return mkTuple(mkIte(over, mkSub(s, mkConst(pow2(w))), s), mkIte(over, intConst(1), intConst(0)))
		})
		m("Sub", func(st *State, a []*Term) *Term {
			d := mkSub(mkSub(a[0], a[1]), a[2])
			under := mkNot(mkGe0(d))
			return mkTuple(mkIte(under, mkAdd(d, mkConst(pow2(w))), d), mkIte(under, intConst(1), intConst(0)))
		})
		m("Mul", func(st *State, a []*Term) *Term {
			return mkTuple(
				lift2(a[0], a[1], func(x, y *Term) *Term { return mkFdiv(mkMul(x, y), pow2(w)) }),
				lift2(a[0], a[1], func(x, y *Term) *Term { return mkWrap(mkMul(x, y), ii) }))
		})
	}
}
