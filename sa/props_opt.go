package main

import "strings"

const declE = `
//--
type saOpaqueE struct{ saE int }
func (a saOpaqueE) Cmp(b saOpaqueE) Ordering
func (a saOpaqueE) Eq(b saOpaqueE) Bool
func (a saOpaqueE) Clone() saOpaqueE
func (a saOpaqueE) Display() String
func (a saOpaqueE) Debug() String
func (a saOpaqueE) ToString() String
type saE = saOpaqueE
`

const declK = `
//--
type saOpaqueK struct{ saK int }
func (a saOpaqueK) Cmp(b saOpaqueK) Ordering
func (a saOpaqueK) Eq(b saOpaqueK) Bool
func (a saOpaqueK) Clone() saOpaqueK
func (a saOpaqueK) Display() String
func (a saOpaqueK) Debug() String
func (a saOpaqueK) ToString() String
type saK = saOpaqueK
`

const declOpt = declE + `
//--
func saOpt[T any](some bool, v T) Option[T] {
	if some {
		return Some(v)
	}
	return None[T]()
}
func saRes[T any](ok bool, v T, e error) Result[T] {
	if ok {
		return Ok(v)
	}
	return Err[T](e)
}
func saIsSome[T any](o Option[T], v T, msg string) {
	saAssert(o.IsSome(), "None: "+msg)
	saAssert(!o.IsNone(), "None: "+msg)
	saAssert(saSame(o.Unwrap(), v), "wrong payload: "+msg)
}
func saIsNone[T any](o Option[T], msg string) {
	saAssert(!o.IsSome(), "Some: "+msg)
	saAssert(o.IsNone(), "Some: "+msg)
}
func saSameOpt[T any](o, w Option[T], msg string) {
	if w.IsSome() {
		saIsSome(o, w.Unwrap(), msg)
	} else {
		saIsNone(o, msg)
	}
}
func saIsOk[T any](o Result[T], v T, msg string) {
	saAssert(o.IsOk(), "not Ok: "+msg)
	saAssert(!o.IsErr(), "Err: "+msg)
	saAssert(saSame(o.Unwrap(), v), "wrong payload: "+msg)
}
func saIsErr[T any](o Result[T], e error, msg string) {
	saAssert(!o.IsOk(), "Ok: "+msg)
	saAssert(o.IsErr(), "not Err: "+msg)
	saAssert(saSame(o.UnwrapErr(), e), "wrong error: "+msg)
}
func saSameRes[T any](o, w Result[T], msg string) {
	if w.IsOk() {
		saIsOk(o, w.Unwrap(), msg)
	} else {
		saIsErr(o, w.UnwrapErr(), msg)
	}
}
// saCalls: the supplied functions were called as the reference does
func saCalls(got any, msg string) {
	saAssert(saSame(got, saMark()), "a supplied function is not called exactly as needed: "+msg)
}
func saUnchangedOpt[T any](x Option[T], some bool, v T, msg string) {
	saAssert(bool(x.IsSome()) == some, "the receiver changed: "+msg)
	if some {
		saAssert(saSame(x.Unwrap(), v), "the receiver changed: "+msg)
	}
}
`

func optProbe(name, sig, body string) Probe {
	p := probe(name, "func PROBE("+sig+") {\n"+body+"\n}")
	p.decls = declOpt
	return p
}

// withNil also analyses the probes for a payload type that has a nil.
func withNil(ps []Probe) []Probe {
	for _, p := range ps {
		if p.name != "saP_Eq" && p.name != "saP_Clone" {
			q := p
			q.name += "_Nil"
			q.src = strings.ReplaceAll(strings.ReplaceAll(p.src, p.name, q.name), "saE", "error")
			ps = append(ps, q)
		}
	}
	return ps
}

func init() {
	register(&Property{id: "O01", note: "each Option query and combinator against the algebra of Some and None, for an unknown payload and unknown functions, with the trace of calls",
		probes: func() []Probe {
			x := "	x := saOpt(some, v)\n"
			return withNil([]Probe{
				optProbe("Query", "some bool, v saE, msg string", x+`
	saAssert(bool(x.IsSome()) == some, "IsSome")
	saAssert(bool(x.IsNone()) == !some, "IsNone")
	if some {
		saAssert(saSame(x.Unwrap(), v), "Unwrap does not return the payload")
		saAssert(saSame(x.Expect("m"), v), "Expect does not return the payload")
	} else {
		saAssert(saPanics(func() { x.Unwrap() }), "Unwrap of None does not panic")
		saAssert(saHasPart(saPanicVal(func() { x.Expect(msg) }), msg), "Expect of None does not panic with the message")
	}`),
				optProbe("IsSomeAnd", "some bool, v saE, f func(saE) Bool", x+`
	r := x.IsSomeAnd(f)
	t := saMark()
	if some {
		saAssert(r == f(v), "IsSomeAnd of Some is not the predicate's result")
	} else {
		saAssert(!r, "IsSomeAnd of None is true")
	}
	saCalls(t, "IsSomeAnd")`),
				optProbe("UnwrapOr", "some bool, v, d saE", x+`
	if some {
		saAssert(saSame(x.UnwrapOr(d), v), "UnwrapOr of Some is not the payload")
	} else {
		saAssert(saSame(x.UnwrapOr(d), d), "UnwrapOr of None is not the default")
	}`),
				optProbe("UnwrapOrElse", "some bool, v saE, f func() saE", x+`
	r := x.UnwrapOrElse(f)
	t := saMark()
	if some {
		saAssert(saSame(r, v), "UnwrapOrElse of Some is not the payload")
	} else {
		saAssert(saSame(r, f()), "UnwrapOrElse of None is not the function's value")
	}
	saCalls(t, "UnwrapOrElse")`),
				optProbe("Map", "some bool, v saE, f func(saE) saE", x+`
	r := x.Map(f)
	t := saMark()
	if some {
		saIsSome(r, f(v), "Map of Some is Some of the result")
	} else {
		saIsNone(r, "Map of None is None")
	}
	saCalls(t, "Map")
	saUnchangedOpt(x, some, v, "Map")`),
				optProbe("MapOr", "some bool, v, d saE, f func(saE) saE", x+`
	r := x.MapOr(d, f)
	t := saMark()
	if some {
		saAssert(saSame(r, f(v)), "MapOr of Some is not the function's result")
	} else {
		saAssert(saSame(r, d), "MapOr of None is not the default")
	}
	saCalls(t, "MapOr")`),
				optProbe("MapOrElse", "some bool, v saE, d func() saE, f func(saE) saE", x+`
	r := x.MapOrElse(d, f)
	t := saMark()
	if some {
		saAssert(saSame(r, f(v)), "MapOrElse of Some is not the function's result")
	} else {
		saAssert(saSame(r, d()), "MapOrElse of None is not the default function's result")
	}
	saCalls(t, "MapOrElse")`),
				optProbe("And", "some bool, v saE, os bool, w any", x+`
	o := None[any]()
	if os {
		o = Some(w)
	}
	r := x.And(o)
	if some && os {
		saIsSome(r, w, "And of Some and Some is the second")
	} else {
		saIsNone(r, "And with a None is None")
	}`),
				optProbe("AndThen", "some bool, v saE, f func(saE) Option[any]", x+`
	r := x.AndThen(f)
	t := saMark()
	if some {
		saSameOpt(r, f(v), "AndThen of Some is the function's result")
	} else {
		saIsNone(r, "AndThen of None is None")
	}
	saCalls(t, "AndThen")`),
				optProbe("Filter", "some bool, v saE, f func(saE) Bool", x+`
	r := x.Filter(f)
	t := saMark()
	if some && bool(f(v)) {
		saIsSome(r, v, "Filter keeps an accepted payload")
	} else {
		saIsNone(r, "Filter of None or of a rejected payload is None")
	}
	saCalls(t, "Filter")
	saUnchangedOpt(x, some, v, "Filter")`),
				optProbe("Or", "some bool, v saE, os bool, w saE", x+`
	r := x.Or(saOpt(os, w))
	if some {
		saIsSome(r, v, "Or of Some is the receiver")
	} else {
		saSameOpt(r, saOpt(os, w), "Or of None is the argument")
	}`),
				optProbe("OrElse", "some bool, v saE, f func() Option[saE]", x+`
	r := x.OrElse(f)
	t := saMark()
	if some {
		saIsSome(r, v, "OrElse of Some is the receiver")
	} else {
		saSameOpt(r, f(), "OrElse of None is the function's result")
	}
	saCalls(t, "OrElse")`),
				optProbe("Xor", "some bool, v saE, os bool, w saE", x+`
	r := x.Xor(saOpt(os, w))
	if some && !os {
		saIsSome(r, v, "Xor with None is the receiver")
	} else if !some && os {
		saIsSome(r, w, "Xor of None is the argument")
	} else {
		saIsNone(r, "Xor of equal variants is None")
	}`),
				// copies of one Option
				optProbe("Alias", "some bool, v, u saE", x+`
	y := x
	saIsNone(x.Xor(y), "Xor of equal variants is None")
	saSameOpt(x.Or(y), x, "Or of an Option and itself")
	x = y
	saSameOpt(x.Take(), saOpt(some, v), "Take returns the old value")
	saIsNone(x.Xor(x), "Xor of equal variants is None")
	saSameOpt(x.Or(y), saOpt(some, v), "Or of None is the argument")
	saSameOpt(x.Xor(y), saOpt(some, v), "Xor of None is the argument")`),
				optProbe("Eq", "some bool, v saE, os bool, w saE", x+`
	r := bool(x.Eq(saOpt(os, w)))
	if some && os {
		saAssert(r == bool(v.Eq(w)), "Eq of two Somes is not the equality of the payloads")
	} else {
		saAssert(r == (some == os), "Eq of different variants is true, or of two Nones false")
	}`),
				optProbe("Clone", "some bool, v saE", x+`
	r := x.Clone()
	if some {
		saIsSome(r, v.Clone(), "Clone of Some is Some of the payload's clone")
	} else {
		saIsNone(r, "Clone of None is None")
	}
	saUnchangedOpt(x, some, v, "Clone")`),
			})
		}})

	register(&Property{id: "O02", note: "each Option mutator against its documented result and final state, for an unknown payload",
		probes: func() []Probe {
			x := "	x := saOpt(some, v)\n"
			return withNil([]Probe{
				optProbe("Insert", "some bool, v, w, u saE", x+`
	p := x.Insert(w)
	saAssert(saSame(*p, w), "Insert does not return a reference to the new value")
	saIsSome(x, w, "Insert leaves Some of the new value")
	*p = u
	saIsSome(x, u, "the reference of Insert is to the Option's own payload")`),
				optProbe("GetOrInsert", "some bool, v, w, u saE", x+`
	p := x.GetOrInsert(w)
	want := w
	if some {
		want = v
	}
	saAssert(saSame(*p, want), "GetOrInsert returns a reference to the present or else the given value")
	saIsSome(x, want, "GetOrInsert keeps a present value and inserts a missing one")
	*p = u
	saIsSome(x, u, "the reference of GetOrInsert is to the Option's own payload")`),
				optProbe("GetOrInsertWith", "some bool, v, u saE, f func() saE", x+`
	p := x.GetOrInsertWith(f)
	t := saMark()
	want := v
	if !some {
		want = f()
	}
	saCalls(t, "GetOrInsertWith")
	saAssert(saSame(*p, want), "GetOrInsertWith returns a reference to the present or else the computed value")
	saIsSome(x, want, "GetOrInsertWith keeps a present value and inserts a missing one")
	*p = u
	saIsSome(x, u, "the reference of GetOrInsertWith is to the Option's own payload")`),
				optProbe("Take", "some bool, v saE", x+`
	r := x.Take()
	saSameOpt(r, saOpt(some, v), "Take returns the old value")
	saIsNone(x, "Take leaves None")`),
				optProbe("Replace", "some bool, v, w saE", x+`
	r := x.Replace(w)
	saSameOpt(r, saOpt(some, v), "Replace returns the old value")
	saIsSome(x, w, "Replace leaves Some of the new value")`),
				optProbe("TakeIndependent", "some bool, v, w saE", x+`
	r := x.Take()
	x.Insert(w)
	saSameOpt(r, saOpt(some, v), "what Take returned does not change with the receiver")`),
				optProbe("ReplaceIndependent", "some bool, v, w, u saE", x+`
	r := x.Replace(w)
	*x.Insert(w) = u
	saSameOpt(r, saOpt(some, v), "what Replace returned does not change with the receiver")`),
			})
		}})

	register(&Property{id: "R01", note: "each Result query and combinator against the algebra of Ok and Err, for an unknown payload, error and functions, with the trace of calls",
		probes: func() []Probe {
			x := "	x := saRes(ok, v, e)\n"
			return withNil([]Probe{
				optProbe("Query", "ok bool, v saE, e error, msg string", x+`
	saAssert(bool(x.IsOk()) == ok, "IsOk")
	saAssert(bool(x.IsErr()) == !ok, "IsErr")
	if ok {
		saAssert(saSame(x.Unwrap(), v), "Unwrap does not return the payload")
		saAssert(saSame(x.Expect("m"), v), "Expect does not return the payload")
		saAssert(saPanics(func() { x.UnwrapErr() }), "UnwrapErr of Ok does not panic")
		saAssert(saHasPart(saPanicVal(func() { x.ExpectErr(msg) }), msg), "ExpectErr of Ok does not panic with the message")
		saIsSome(x.Ok(), v, "Ok of Ok")
		saIsNone(x.Err(), "Err of Ok")
	} else {
		saAssert(saPanics(func() { x.Unwrap() }), "Unwrap of Err does not panic")
		saAssert(saHasPart(saPanicVal(func() { x.Expect(msg) }), msg), "Expect of Err does not panic with the message")
		saAssert(saSame(x.UnwrapErr(), e), "UnwrapErr does not return the error")
		saAssert(saSame(x.ExpectErr("m"), e), "ExpectErr does not return the error")
		saIsNone(x.Ok(), "Ok of Err")
		saIsSome(x.Err(), e, "Err of Err")
	}`),
				optProbe("IsOkAnd", "ok bool, v saE, e error, f func(saE) Bool", x+`
	r := x.IsOkAnd(f)
	t := saMark()
	if ok {
		saAssert(r == f(v), "IsOkAnd of Ok is not the predicate's result")
	} else {
		saAssert(!r, "IsOkAnd of Err is true")
	}
	saCalls(t, "IsOkAnd")`),
				optProbe("IsErrAnd", "ok bool, v saE, e error, f func(error) Bool", x+`
	r := x.IsErrAnd(f)
	t := saMark()
	if ok {
		saAssert(!r, "IsErrAnd of Ok is true")
	} else {
		saAssert(r == f(e), "IsErrAnd of Err is not the predicate's result")
	}
	saCalls(t, "IsErrAnd")`),
				optProbe("Map", "ok bool, v saE, e error, f func(saE) saE", x+`
	r := x.Map(f)
	t := saMark()
	if ok {
		saIsOk(r, f(v), "Map of Ok is Ok of the result")
	} else {
		saIsErr(r, e, "Map passes the error through")
	}
	saCalls(t, "Map")`),
				optProbe("MapOr", "ok bool, v, d saE, e error, f func(saE) saE", x+`
	r := x.MapOr(d, f)
	t := saMark()
	if ok {
		saAssert(saSame(r, f(v)), "MapOr of Ok is not the function's result")
	} else {
		saAssert(saSame(r, d), "MapOr of Err is not the default")
	}
	saCalls(t, "MapOr")`),
				optProbe("MapOrElse", "ok bool, v saE, e error, d func() saE, f func(saE) saE", x+`
	r := x.MapOrElse(d, f)
	t := saMark()
	if ok {
		saAssert(saSame(r, f(v)), "MapOrElse of Ok is not the function's result")
	} else {
		saAssert(saSame(r, d()), "MapOrElse of Err is not the default function's result")
	}
	saCalls(t, "MapOrElse")`),
				optProbe("MapErr", "ok bool, v saE, e error, f func(error) error", x+`
	saMark()
	r := x.MapErr(f)
	t := saMark()
	if ok {
		saIsOk(r, v, "MapErr of Ok is the receiver")
	} else {
		saIsErr(r, f(e), "MapErr of Err is Err of the result")
	}
	saCalls(t, "MapErr")`),
				optProbe("And", "ok bool, v, w saE, e, d error, os bool", x+`
	r := x.And(saRes(os, w, d))
	if ok {
		saSameRes(r, saRes(os, w, d), "And of Ok is the argument")
	} else {
		saIsErr(r, e, "And of Err is the receiver")
	}`),
				optProbe("AndThen", "ok bool, v saE, e error, f func(saE) Result[saE]", x+`
	w := f(v)
	saAssume(w.IsOk() != w.IsErr())
	saMark()
	r := x.AndThen(f)
	t := saMark()
	if ok {
		saSameRes(r, f(v), "AndThen of Ok is the function's result")
	} else {
		saIsErr(r, e, "AndThen passes the error through")
	}
	saCalls(t, "AndThen")`),
				optProbe("Or", "ok bool, v, w saE, e, d error, os bool", x+`
	r := x.Or(saRes(os, w, d))
	if ok {
		saIsOk(r, v, "Or of Ok is the receiver")
	} else {
		saSameRes(r, saRes(os, w, d), "Or of Err is the argument")
	}`),
				optProbe("OrElse", "ok bool, v saE, e error, f func(error) Result[saE]", x+`
	w := f(e)
	saAssume(w.IsOk() != w.IsErr())
	saMark()
	r := x.OrElse(f)
	t := saMark()
	if ok {
		saIsOk(r, v, "OrElse of Ok is the receiver")
	} else {
		saSameRes(r, f(e), "OrElse of Err is the function's result")
	}
	saCalls(t, "OrElse")`),
				optProbe("UnwrapOr", "ok bool, v, d saE, e error", x+`
	if ok {
		saAssert(saSame(x.UnwrapOr(d), v), "UnwrapOr of Ok is not the payload")
	} else {
		saAssert(saSame(x.UnwrapOr(d), d), "UnwrapOr of Err is not the default")
	}`),
				optProbe("UnwrapOrElse", "ok bool, v saE, e error, f func() saE", x+`
	r := x.UnwrapOrElse(f)
	t := saMark()
	if ok {
		saAssert(saSame(r, v), "UnwrapOrElse of Ok is not the payload")
	} else {
		saAssert(saSame(r, f()), "UnwrapOrElse of Err is not the function's value")
	}
	saCalls(t, "UnwrapOrElse")`),
				optProbe("Eq", "ok bool, v, w saE, e, d error, os bool", x+`
	r := bool(x.Eq(saRes(os, w, d)))
	if ok && os {
		saAssert(r == bool(v.Eq(w)), "Eq of two Oks is not the equality of the payloads")
	} else if !ok && !os {
		saAssert(r == (e == d), "Eq of two Errs is not the equality of the errors")
	} else {
		saAssert(!r, "Eq of Ok and Err is true")
	}`),
				optProbe("Clone", "ok bool, v saE, e error", x+`
	r := x.Clone()
	if ok {
		saIsOk(r, v.Clone(), "Clone of Ok is Ok of the payload's clone")
		saIsOk(x, v, "Clone leaves the receiver")
	} else {
		saIsErr(r, e, "Clone of Err keeps the error")
		saIsErr(x, e, "Clone leaves the receiver")
	}`),
			})
		}})

	register(&Property{id: "S01", note: "If chains of up to four conditions against the first-true branch, for all conditions and unknown branch functions, with the trace of calls",
		probes: func() []Probe {
			return []Probe{
				optProbe("IfElse", "a bool, f, g func() saE", `
	r := If(Bool(a), f).Else(g)
	t := saMark()
	if a {
		saAssert(saSame(r, f()), "not the If branch")
	} else {
		saAssert(saSame(r, g()), "not the Else branch")
	}
	saCalls(t, "If")`),
				optProbe("IfElseIf", "a, b bool, f, g, h func() saE", `
	r := If(Bool(a), f).ElseIf(Bool(b), g).Else(h)
	t := saMark()
	if a {
		saAssert(saSame(r, f()), "not the If branch")
	} else if b {
		saAssert(saSame(r, g()), "not the ElseIf branch")
	} else {
		saAssert(saSame(r, h()), "not the Else branch")
	}
	saCalls(t, "If")`),
				// any chain: one more ElseIf on a chain that has or has not chosen
				optProbe("Step", "a, b, c, d bool, f, g, h, i, j func() saE", `
	r := If(Bool(a), f).ElseIf(Bool(b), g).ElseIf(Bool(c), h).ElseIf(Bool(d), i).Else(j)
	t := saMark()
	if a {
		saAssert(saSame(r, f()), "not the If branch")
	} else if b {
		saAssert(saSame(r, g()), "not the first ElseIf branch")
	} else if c {
		saAssert(saSame(r, h()), "not the second ElseIf branch")
	} else if d {
		saAssert(saSame(r, i()), "not the third ElseIf branch")
	} else {
		saAssert(saSame(r, j()), "not the Else branch")
	}
	saCalls(t, "If")`),
				optProbe("Shared", "a, b bool, f, g, h func() saE", `
	x := If(Bool(a), f)
	x.ElseIf(Bool(b), g)
	saMark()
	r := x.Else(h)
	t := saMark()
	if a {
		saAssert(saSame(r, f()), "not the If branch")
		saMark()
		saAssert(saSame(t, saMark()), "Else calls a function although a condition held")
	} else {
		saAssert(saSame(r, h()), "a chain is changed by the chain derived from it")
		saCalls(t, "If")
	}`),
				// results that could be taken for "no result yet"
				optProbe("NilError", "a, b, c bool, f, g, h, i func() error", saNilChain),
				optProbe("NilPointer", "a, b, c bool, f, g, h, i func() *saE", saNilChain),
				optProbe("NilSlice", "a, b, c bool, f, g, h, i func() []saE", saNilChain),
				optProbe("ZeroBool", "a, b, c bool, f, g, h, i func() Bool", saNilChain),
				optProbe("ZeroInt", "a, b, c bool, f, g, h, i func() I32", saNilChain),
			}
		}})
}

const saNilChain = `
	r := If(Bool(a), f).ElseIf(Bool(b), g).ElseIf(Bool(c), h).Else(i)
	t := saMark()
	if a {
		saAssert(saSame(r, f()), "not the If branch")
	} else if b {
		saAssert(saSame(r, g()), "not the first ElseIf branch")
	} else if c {
		saAssert(saSame(r, h()), "not the second ElseIf branch")
	} else {
		saAssert(saSame(r, i()), "not the Else branch")
	}
	saCalls(t, "If")`
