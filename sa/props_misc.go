package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func withDecl(p Probe, decl string) Probe { p.decls = decl; return p }

// pureFn replaces a function by an uninterpreted one that never panics.
func pureFn(ex *Exec, names ...string) {
	for _, n := range names {
		n := n
		ex.replace[n] = func(ex *Exec, fr *Frame, call *ssa.CallCommon, args []*Term, st *State) ([]branch, bool) {
			var vs []*Term
			for _, a := range args {
				vs = append(vs, ex.argKey(st, a))
			}
			return one(st, opaqueResult("result:"+n, call.Signature(), vs)), true
		}
	}
}

// formatFn makes Format a function of its text and the list of its arguments,
// which may be empty or missing.
func formatFn(ex *Exec) {
	n := pkgPath + ".Format"
	ex.replace[n] = func(ex *Exec, fr *Frame, call *ssa.CallCommon, args []*Term, st *State) ([]branch, bool) {
		var vs []*Term
		for _, a := range args {
			vs = append(vs, lift1(ex.argKey(st, a), func(a *Term) *Term {
				if a.op == "seq0" || a == tNil {
					return mk("list", "", KOther, nil)
				}
				return a
			}))
		}
		return one(st, opaqueResult("result:"+n, call.Signature(), vs)), true
	}
}

// eventFn replaces a function by one visible effect with an unknown result.
func eventFn(ex *Exec, names ...string) {
	for _, n := range names {
		n := n
		ex.replace[n] = func(ex *Exec, fr *Frame, call *ssa.CallCommon, args []*Term, st *State) ([]branch, bool) {
			var vs []*Term
			for _, a := range args {
				vs = append(vs, ex.argKey(st, a))
			}
			st.event(n, vs...)
			return one(st, opaqueResult("result:"+n, call.Signature(), append(vs, st.ev))), true
		}
	}
}

// mul128 gives U128.Mul its specification (property A08).
func mul128(ex *Exec) {
	ex.replace["("+pkgPath+".U128).Mul"] = func(ex *Exec, fr *Frame, call *ssa.CallCommon, args []*Term, st *State) ([]branch, bool) {
		t := call.Signature().Results().At(0).Type()
		s, ok := t.Underlying().(*types.Struct)
		if !ok || s.NumFields() != 2 {
			return nil, false
		}
		hi, lo := -1, -1
		for i := 0; i < 2; i++ {
			switch s.Field(i).Name() {
			case "high":
				hi = i
			case "low":
				lo = i
			}
		}
		if hi < 0 || lo < 0 {
			return nil, false
		}
		val := func(x *Term) *Term {
			return mkAdd(mkScale(pow2(64), fieldOf(x, hi)), fieldOf(x, lo))
		}
		p := lift2(st.simp(args[0]), st.simp(args[1]), func(a, b *Term) *Term { return mkMul(val(a), val(b)) })
		u := types.Typ[types.Uint64]
		fs := make([]*Term, 2)
		fs[lo] = ex.wrapIn(st, p, u)
		fs[hi] = ex.wrapIn(st, lift1(p, func(p *Term) *Term { return mkFdiv(p, pow2(64)) }), u)
		return one(st, mkStruct(t, fs...)), true
	}
}

var scalarTypes = []string{"ISize", "I8", "I16", "I32", "I64", "USize", "U8", "U16", "U32", "U64", "I128", "U128", "F32", "F64", "Byte", "Char", "String", "Bool", "Complex64", "Complex128"}

func init() {
	register(&Property{id: "U01", note: "Duration constructors and accessors against exact integer arithmetic, for all amounts",
		setup: func(c *Checker, ex *Exec) { mul128(ex) },
		probes: func() []Probe {
			type part struct{ name, src string }
			parts := []part{{"Parts", `
	saAssert(d.SubsecNanos() < 1000000000, "the sub-second part is a second or more")
	saAssert(saInt(d.AsSecs())*1000000000+saInt(d.SubsecNanos()) == z, "not the exact time")
	saAssert(saInt(d.SubsecMicros()) == saInt(d.SubsecNanos())/1000, "SubsecMicros does not truncate")
	saAssert(saInt(d.SubsecMillis()) == saInt(d.SubsecNanos())/1000000, "SubsecMillis does not truncate")
	saAssert(d.IsZero() == (z == 0), "IsZero")
}`},
				{"Nanos", `
	saAssert(saU(d.AsNanos()) == z, "AsNanos is not the exact total")
}`},
				{"Micros", `
	saAssert(saU(d.AsMicros()) == z/1000, "AsMicros is not the exact total")
}`},
				{"Millis", `
	saAssert(saU(d.AsMillis()) == z/1000000, "AsMillis is not the exact total")
}`}}
			var ps []Probe
			for _, part := range parts {
				ps = append(ps, withDecl(probe("New_"+part.name, `
func PROBE(s U64, n U32) {
	var d Duration
	p := saPanics(func() { d = DurationNew(s, n) })
	z := saInt(s)*1000000000 + saInt(n)
	saAssert(p == (z/1000000000 > saHi(64, false)), "DurationNew panics without overflow, or not with it")
	if p {
		return
	}
`+part.src), decl128))
				for _, u := range [][2]string{{"Secs", "1000000000"}, {"Millis", "1000000"}, {"Micros", "1000"}, {"Nanos", "1"}} {
					ps = append(ps, withDecl(probe("From"+u[0]+"_"+part.name, tmpl(`
func PROBE(n U64) {
	d := DurationFrom{{N}}(n)
	z := saInt(n)*{{F}}
`, "N", u[0], "F", u[1])+part.src), decl128))
				}
			}
			ps = append(ps, withDecl(probe("Sleep", `
func PROBE(s U64, n U32) {
	z := saInt(s)*1000000000 + saInt(n)
	saAssume(n < 1000000000)
	saAssume(z <= saHi(64, true))
	saSlept, saSleeps = 0, 0
	Sleep(DurationNew(s, n))
	saAssert(saSleeps == 1, "Sleep does not wait exactly once")
	saAssert(saInt(saSlept) == z, "Sleep waits for another time")
}`), declSleep))
			return ps
		}})

	register(&Property{id: "A11", note: "each float method as one application of the mathematical function of its meaning, with the roles of the arguments and the conversions tracked, for all receivers",
		probes: func() []Probe {
			var ps []Probe
			for _, t := range []string{"F32", "F64"} {
				body := ""
				for _, m := range [][2]string{{"Floor", "Floor"}, {"Ceil", "Ceil"}, {"Round", "Round"}, {"Abs", "Abs"}, {"Trunc", "Trunc"}, {"Sqrt", "Sqrt"}, {"Exp", "Exp"}, {"Exp2", "Exp2"}, {"Ln", "Log"}, {"Log2", "Log2"}, {"Log10", "Log10"}} {
					body += fmt.Sprintf("	saAssert(saSame(a.%s(), %s(math.%s(float64(a)))), \"%s is not that function of the receiver\")\n", m[0], t, m[1], m[0])
				}
				ps = append(ps, probe("Unary_"+t, "func PROBE(a "+t+") {\n"+body+"}"))
				ps = append(ps, probe("Frac_"+t, tmpl(`
func PROBE(a {{T}}) {
	_, f := math.Modf(float64(a))
	saAssert(saSame(a.Frac(), {{T}}(f)), "Frac is not the fractional part")
}`, "T", t)))
				ps = append(ps, probe("Pow_"+t, tmpl(`
func PROBE(a, b {{T}}, n int) {
	saAssert(saSame(a.Powi(n), {{T}}(math.Pow(float64(a), float64(n)))), "Powi is not the power")
	saAssert(saSame(a.Powf(b), {{T}}(math.Pow(float64(a), float64(b)))), "Powf is not the power")
	saAssert(saSame(a.Log(b), {{T}}(math.Log(float64(a))/math.Log(float64(b)))), "Log is not the logarithm to the base")
}`, "T", t)))
				ps = append(ps, probe("Arith_"+t, tmpl(`
func PROBE(a, b {{T}}) {
	saAssert(saSame(a.Add(b), a+b), "Add is not the sum")
	saAssert(saSame(a.Sub(b), a-b), "Sub is not the difference")
	saAssert(saSame(a.Mul(b), a*b), "Mul is not the product")
	saAssert(saSame(a.Div(b), a/b), "Div is not the quotient")
}`, "T", t)))
			}
			for _, t := range []string{"Complex64", "Complex128"} {
				ps = append(ps, probe("Arith_"+t, tmpl(`
func PROBE(a, b {{T}}) {
	saAssert(saSame(a.Add(b), a+b), "Add is not the sum")
	saAssert(saSame(a.Sub(b), a-b), "Sub is not the difference")
	saAssert(saSame(a.Mul(b), a*b), "Mul is not the product")
	saAssert(saSame(a.Div(b), a/b), "Div is not the quotient")
}`, "T", t)))
			}
			return ps
		}})

	register(&Property{id: "C01", note: "the text of each scalar as the decimal (or float, boolean) formatter applied to its exact value, for all values",
		probes: func() []Probe {
			var ps []Probe
			for _, t := range scalarTypes {
				want := ""
				switch {
				case t == "I128" || t == "U128":
					want = "saDec(sa" + t[:1] + "(a))"
				case t == "F32":
					want = "String(strconv.FormatFloat(float64(a), 'f', -1, 32))"
				case t == "F64":
					want = "String(strconv.FormatFloat(float64(a), 'f', -1, 64))"
				case t == "Bool":
					want = "String(strconv.FormatBool(bool(a)))"
				case t == "String":
					want = "a"
				case t == "Complex64":
					want = "String(strconv.FormatComplex(complex128(a), 'f', -1, 64))"
				case t == "Complex128":
					want = "String(strconv.FormatComplex(complex128(a), 'f', -1, 128))"
				default:
					want = "saDec(saInt(a))"
				}
				p := probe("Text_"+t, tmpl(`
func PROBE(a {{T}}) {
	want := {{W}}
	saAssert(saSame(a.ToString(), want), "ToString is not the value's text")
	saAssert(saSame(a.Display(), want), "Display is not the value's text")
	saAssert(saSame(a.Debug(), "{{T}}("+want+")"), "Debug is not the type name with the value's text")
}`, "T", t, "W", want))
				p.decls = decl128
				ps = append(ps, p)
			}
			return ps
		}})

	register(&Property{id: "P01", note: "the assertions on all conditions, operands and messages, with the panic value tracked",
		setup: func(c *Checker, ex *Exec) { formatFn(ex) },
		probes: func() []Probe {
			ps := []Probe{
				withDecl(probe("Assert", `
func PROBE(c bool, m String, ms string, x any, rest []any) {
	saAssert(saPanics(func() { Assert(Bool(c)) }) == !c, "Assert panics on a true condition, or not on a false one")
	saAssert(saPanics(func() { Assert(Bool(c), m) }) == !c, "Assert with a message panics on a true condition, or not on a false one")
	saAssert(saPanics(func() { Assert(Bool(c), ms) }) == !c, "Assert with a message panics on a true condition, or not on a false one")
	saAssert(saPanics(func() { Assert(Bool(c), rest...) }) == !c, "Assert with arguments panics on a true condition, or not on a false one")
	if !c {
		saAssert(saHasPart(saPanicVal(func() { Assert(Bool(c), m) }), Format(m)), "the message is not in the panic")
		saAssert(saHasPart(saPanicVal(func() { Assert(Bool(c), ms) }), Format(String(ms))), "the message is not in the panic")
		saAssert(saHasPart(saPanicVal(func() { Assert(Bool(c), m, x) }), Format(m, x)), "the message is not in the panic")
		saAssert(saHasPart(saPanicVal(func() { Assert(Bool(c), m, x, x) }), Format(m, x, x)), "the message is not in the panic")
		saAssert(saHasPart(saPanicVal(func() { Assert(Bool(c), ms, x, x) }), Format(String(ms), x, x)), "the message is not in the panic")
	}
}`), declE)}
			for _, v := range [][2]string{{"AssertEq", "!eq"}, {"AssertNe", "eq"}} {
				ps = append(ps, withDecl(probe(v[0], tmpl(`
func PROBE(a, b saE, m String, ms string, x any, rest []any) {
	eq := bool(a.Eq(b))
	saAssert(saPanics(func() { {{F}}(a, b) }) == ({{C}}), "{{F}} does not panic exactly when it fails")
	saAssert(saPanics(func() { {{F}}(a, b, m) }) == ({{C}}), "{{F}} with a message does not panic exactly when it fails")
	saAssert(saPanics(func() { {{F}}(a, b, rest...) }) == ({{C}}), "{{F}} with arguments does not panic exactly when it fails")
	if {{C}} {
		saAssert(saHasPart(saPanicVal(func() { {{F}}(a, b, m) }), Format(m)), "the message is not in the panic")
		saAssert(saHasPart(saPanicVal(func() { {{F}}(a, b, ms) }), Format(String(ms))), "the message is not in the panic")
		saAssert(saHasPart(saPanicVal(func() { {{F}}(a, b, m, x) }), Format(m, x)), "the message is not in the panic")
		saAssert(saHasPart(saPanicVal(func() { {{F}}(a, b, m, x, x) }), Format(m, x, x)), "the message is not in the panic")
		saAssert(saHasPart(saPanicVal(func() { {{F}}(a, b, ms, x, x) }), Format(String(ms), x, x)), "the message is not in the panic")
	}
}`, "F", v[0], "C", v[1])), declE))
			}
			for _, v := range [][2]string{{"Todo", "todo"}, {"Unimplemented", "not implemented"}, {"Unreachable", "unreachable"}} {
				ps = append(ps, probe(v[0], tmpl(`
func PROBE(m String) {
	saAssert(saPanics(func() { {{F}}() }), "{{F}} does not panic")
	saAssert(saPanics(func() { {{F}}(m) }), "{{F}} does not panic")
	saAssert(saSameText(saPanicVal(func() { {{F}}() }), String("{{D}}")), "the default message of {{F}}")
	saAssert(saSameText(saPanicVal(func() { {{F}}(m) }), m), "{{F}} does not panic with the given message")
}`, "F", v[0], "D", v[1])))
			}
			ps = append(ps, probe("Panic", `
func PROBE(m String, x, y any) {
	saAssert(saPanics(func() { Panic(m) }), "Panic does not panic")
	saAssert(saSameText(saPanicVal(func() { Panic(m) }), Format(m)), "Panic does not panic with the formatted message")
	saAssert(saSameText(saPanicVal(func() { Panic(m, x) }), Format(m, x)), "Panic does not panic with the formatted message")
	saAssert(saSameText(saPanicVal(func() { Panic(m, x, y) }), Format(m, x, y)), "Panic does not panic with the formatted message")
}`))
			return ps
		}})

	register(&Property{id: "Y01", note: "a spawned thread before, during and after its work, in an abstract machine of channels and wait groups, for an unknown function and repeated observations",
		probes: func() []Probe {
			return []Probe{
				probe("Before", `
func PROBE(f func()) {
	h := Spawn(f)
	saAssert(saNoEvents(saMark()), "Spawn runs the function itself")
	saAssert(!h.IsFinished(), "IsFinished is true before the function ran")
	saAssert(saBlocks(func() { h.Join() }), "Join returns before the function ran")
	saAssert(!h.IsFinished(), "IsFinished becomes true by asking")
	saAssert(saRunGo(), "the finished thread waits for somebody")
	t := saMark()
	f()
	saAssert(saSame(t, saMark()), "the function is not run exactly once")
	saAssert(h.IsFinished(), "IsFinished is false after the function returned")
}`),
				probe("During", `
func PROBE() {
	var h JoinHandle
	ran := 0
	h = Spawn(func() {
		ran++
		saAssert(!h.IsFinished(), "IsFinished is true while the function runs")
		saAssert(saBlocks(func() { h.Join() }), "Join returns while the function runs")
		ran++
	})
	saAssert(ran == 0, "Spawn runs the function itself")
	saAssert(saRunGo(), "the finished thread waits for somebody")
	saAssert(ran == 2, "the function did not run to its end exactly once")
	saAssert(!saBlocks(func() { h.Join() }), "Join blocks after the function returned")
}`),
				probe("After", `
func PROBE(f func()) {
	h := Spawn(f)
	saAssert(saRunGo(), "the finished thread waits for somebody")
	saAssert(saFrame(func() { saAssert(h.IsFinished(), "IsFinished is false after the function returned") }), "IsFinished changes the thread's state")
	saAssert(saFrame(func() { saAssert(!saBlocks(func() { h.Join() }), "Join blocks after the function returned") }), "Join changes the thread's state")
	saAssert(saFrame(func() { r := h.Join(); saAssert(r.IsOk(), "Join of a finished thread is not Ok") }), "Join changes the thread's state")
	saAssert(!saBlocks(func() { h.Join() }), "a second Join blocks")
	saAssert(h.IsFinished(), "IsFinished is false after a Join")
	g := h
	saAssert(!saBlocks(func() { g.Join() }), "Join of a copied handle blocks")
}`),
				probe("Two", `
func PROBE(f, g func()) {
	h := Spawn(f)
	k := Spawn(g)
	saAssert(saRunGo(), "the finished threads wait for somebody")
	t := saMark()
	f()
	g()
	saAssert(saSame(t, saMark()), "the functions are not run exactly once each")
	saAssert(h.IsFinished() && k.IsFinished(), "IsFinished is false after the function returned")
	saAssert(!saBlocks(func() { h.Join(); k.Join(); h.Join() }), "Join blocks after the function returned")
}`),
			}
		}})

	register(&Property{id: "Y02", note: "the mutex operations in an abstract machine of locks, for an unknown value; the lock state at every read of a line",
		// reading a line goes on for as long as the input says that there is more
		setup: func(c *Checker, ex *Exec) { ex.mustEnd = false },
		probes: func() []Probe {
			return []Probe{
				withDecl(probe("Lock", `
func PROBE(v, w saE) {
	m := MutexNew(v)
	p := m.Lock()
	saAssert(saSame(*p, v), "Lock does not return a reference to the value")
	saAssert(saBlocks(func() { m.Lock() }), "a second Lock is not kept out: the lock is not held after Lock")
	saAssert(m.TryLock().IsErr(), "TryLock of a held mutex is not an error")
	r := m.TryLock()
	saAssert(!r.IsOk() && r.Ok().IsNone(), "a failed TryLock hands out a reference")
	saAssert(saBlocks(func() { m.Lock() }), "a failed TryLock releases the lock")
	*p = w
	m.Unlock()
	saAssert(!saBlocks(func() { m.Lock() }), "the lock is still held after Unlock")
	q := m.Lock()
	saAssert(p == q, "Lock hands out references to different values")
	saAssert(saSame(*q, w), "what was written under the lock is lost")
}`), declE),
				withDecl(probe("TryLock", `
func PROBE(v, w saE) {
	m := MutexNew(v)
	r := m.TryLock()
	saAssert(r.IsOk(), "TryLock of a free mutex is an error")
	p := r.Unwrap()
	saAssert(saSame(*p, v), "TryLock does not return a reference to the value")
	saAssert(saBlocks(func() { m.Lock() }), "the lock is not held after a successful TryLock")
	saAssert(m.TryLock().IsErr(), "TryLock of a held mutex is not an error")
	*p = w
	m.Unlock()
	s := m.TryLock()
	saAssert(s.IsOk(), "TryLock of a released mutex is an error")
	saAssert(s.Unwrap() == p, "TryLock hands out references to different values")
	saAssert(saSame(*s.Unwrap(), w), "what was written under the lock is lost")
	m.Unlock()
	saAssert(!saBlocks(func() { m.Lock() }), "the lock is still held after Unlock")
}`), declE),
				withDecl(probe("Unlock", `
func PROBE(v saE) {
	m := MutexNew(v)
	n := MutexNew(v)
	m.Lock()
	n.Lock()
	m.Unlock()
	saAssert(saBlocks(func() { n.Lock() }), "Unlock releases another lock")
	saAssert(!saBlocks(func() { m.Lock() }), "the lock is still held after Unlock")
}`), declE),
				probe("ReadLine", `
func PROBE(b String) {
	var s Stdin
	s.ReadLine(&b)
	saAssert(saBracketed(saMark(), "lock", "unlock"), "the line is not read as a whole under the lock")
	saAssert(!saBlocks(func() { s.Lock().Lock() }), "the lock is still held after ReadLine")
}`),
			}
		}})

	register(&Property{id: "N01", note: "one and two calls of ReadLine on an abstract standard input that ends, or fails, after any number of unknown bytes",
		probes: func() []Probe {
			one := withDecl(probe("ReadLineOne", `
func PROBE(in []byte, fail error, b String) {
	saInput, saInputAt, saInputErr = in, 0, fail
	old := b
	var s Stdin
	s.ReadLine(&b)
	n := 0
	for n < len(in) && in[n] != '\n' {
		n++
	}
	saAssert(b == old+String(in[:n]), "ReadLine does not append exactly the bytes up to the line break")
	saAssert(saInputAt == n || saInputAt == n+1, "ReadLine consumes more or less than one line")
	saAssert(n == len(in) || saInputAt == n+1, "ReadLine leaves the line break in the input")
}`), declStdin)
			two := withDecl(probe("ReadLineTwo", `
func PROBE(in []byte, fail error, b String) {
	saInput, saInputAt, saInputErr = in, 0, fail
	old := b
	var s Stdin
	s.ReadLine(&b)
	c := old
	s.ReadLine(&c)
	n := 0
	for n < len(in) && in[n] != '\n' {
		n++
	}
	m := n + 1
	for m < len(in) && in[m] != '\n' {
		m++
	}
	want := old
	if n+1 < len(in) {
		want = old + String(in[n+1:m])
	}
	saAssert(b == old+String(in[:n]), "the first of two ReadLine calls does not append the first line")
	saAssert(c == want, "the second of two ReadLine calls does not append the second line")
}`), declStdin)
			long := withDecl(probe("ReadLineLong", `
func PROBE(b String, fail error) {
	n := saSize(0, 4)
	in, want := "", ""
	for i := 0; i < n; i++ {
		want += "x"
	}
	in = want + "\ny"
	saInput, saInputAt, saInputErr = []byte(in), 0, fail
	old := b
	var s Stdin
	s.ReadLine(&b)
	saAssert(b == old+String(want), "ReadLine does not append exactly the bytes up to the line break")
	saAssert(saInputAt == n+1, "ReadLine consumes more or less than one line")
}`), declStdin)
			one.follow, one.sizes = 12, 4
			two.follow, two.sizes = 12, 4
			return []Probe{one, two, long}
		}})

	register(&Property{id: "Z01", note: "compile-time interface assertions for each scalar and container type",
		probes: func() []Probe {
			var b strings.Builder
			w := func(tr, t, v string) { fmt.Fprintf(&b, "var _ %s[%s] = %s\n", tr, t, v) }
			zero := func(t string) string { return "*new(" + t + ")" }
			for _, t := range scalarTypes {
				cx := strings.HasPrefix(t, "Complex")
				num := t != "Byte" && t != "Char" && t != "String" && t != "Bool"
				big := t == "I128" || t == "U128"
				fl := t == "F32" || t == "F64"
				for _, tr := range []string{"ToString", "Display", "Debug"} {
					w(tr, t, zero(t))
				}
				if !big {
					w("Clone", t, zero(t))
					w("AsRef", t, zero(t))
				}
				if !cx {
					w("Eq", t, zero(t))
					w("Ord", t, zero(t))
				}
				if num {
					for _, tr := range []string{"Add", "Sub", "Mul", "Div"} {
						w(tr, t, zero(t))
						w(tr+"Assign", t, "new("+t+")")
					}
					if !cx && !fl {
						w("Rem", t, zero(t))
						w("RemAssign", t, "new("+t+")")
						w("Shl", t, zero(t))
						w("Shr", t, zero(t))
					}
				}
				if t[0] == 'I' {
					w("Neg", t, zero(t))
				}
			}
			for _, t := range []string{"Vec[I32]", "VecDeque[I32]", "LinkedList[I32]", "HashSet[I32]", "HashMap[I32, I32]", "BTreeSet[I32]", "BTreeMap[I32, I32]", "Pair[I32, I32]", "Option[I32]", "Result[I32]"} {
				for _, tr := range containerTraits(t) {
					w(tr, t, zero(t))
				}
			}
			for _, t := range []string{"Vec", "VecDeque", "LinkedList", "HashSet", "BTreeSet"} {
				v := "*new"
				if t == "LinkedList" || t == "BTreeSet" {
					v = "new"
				}
				fmt.Fprintf(&b, "var _ IntoIterator[I32] = %s(%s[I32])\n", v, t)
			}
			fmt.Fprintf(&b, "var _ IntoIterator[Pair[I32, I32]] = *new(HashMap[I32, I32])\n")
			fmt.Fprintf(&b, "var _ IntoIterator[Pair[I32, I32]] = *new(BTreeMap[I32, I32])\n")
			ps := []Probe{{name: "saP_Traits", decls: b.String() + declE, src: `
func saP_Traits(v saE, n I32) {
	saAssert(castToClone(v).IsSome(), "castToClone does not find the trait")
	saAssert(castToEq(v).IsSome(), "castToEq does not find the trait")
	saAssert(castToOrd(v).IsSome(), "castToOrd does not find the trait")
	saAssert(castToDisplay(v).IsSome(), "castToDisplay does not find the trait")
	saAssert(castToToString(v).IsSome(), "castToToString does not find the trait")
	saAssert(saSame(castToClone(v).Unwrap().Clone(), v.Clone()), "castToClone finds another value")
	saAssert(saSame(castToDisplay(v).Unwrap().Display(), v.Display()), "castToDisplay finds another value")
	saAssert(saSame(castToToString(v).Unwrap().ToString(), v.ToString()), "castToToString finds another value")
}`}}
			// a reference stands for the value it was taken from
			for _, t := range scalarTypes {
				if t == "I128" || t == "U128" {
					continue
				}
				ps = append(ps, probe("AsRef_"+t, tmpl(`
func PROBE(a, b {{T}}) {
	p, q := a.AsRef(), b.AsRef()
	saAssert(p != nil && saSame(*p, a), "AsRef does not refer to the value")
	saAssert(saSame(*q, b), "AsRef does not refer to the value")
}`, "T", t)))
			}
			ps = append(ps, Probe{name: "saP_AsRef_Values", decls: declE, src: `
func saP_AsRef_Values(v, w saE, e error) {
	x := Pair[saE, saE]{Key: v, Value: w}
	saAssert(saSame(*x.AsRef(), x), "AsRef of a pair does not refer to the value")
	o := Some(v)
	saAssert(saSame(*o.AsRef(), o), "AsRef of an Option does not refer to the value")
	n := None[saE]()
	saAssert(saSame(*n.AsRef(), n), "AsRef of an empty Option does not refer to the value")
	r := Ok(v)
	saAssert(saSame(*r.AsRef(), r), "AsRef of a Result does not refer to the value")
	f := Err[saE](e)
	saAssert(saSame(*f.AsRef(), f), "AsRef of a failed Result does not refer to the value")
	s := VecNew[saE]()
	s.Push(v)
	s.Push(w)
	saAssert(saSame(s.AsRef().data, s.data), "AsRef of a vector does not refer to the value")
	d := VecDequeNew[saE]()
	d.PushBack(v)
	d.PushFront(w)
	p := d.AsRef()
	saAssert(p.Len() == 2 && saSame(p.GetUnchecked(0), w) && saSame(p.GetUnchecked(1), v), "AsRef of a deque does not refer to the value")
}`})
			return ps
		}})
}

func containerTraits(t string) []string {
	switch {
	case strings.HasPrefix(t, "Pair"):
		return []string{"Clone", "Eq", "Ord", "Display", "Debug", "AsRef", "ToString"}
	case strings.HasPrefix(t, "BTreeMap"):
		return []string{"Eq", "Display", "Debug", "AsRef"}
	case strings.HasPrefix(t, "Option"), strings.HasPrefix(t, "Result"):
		return []string{"Clone", "Eq", "Display", "Debug", "AsRef"}
	}
	return []string{"Clone", "Eq", "Display", "Debug", "AsRef"}
}

// declSleep: waiting is recorded
const declSleep = `
//--
var saSlept time.Duration
var saSleeps int
func saStub_time_Sleep(d time.Duration) {
	saSlept = d
	saSleeps++
}
`

const declStdin = `
//--
var saInput []byte
//--
var saInputAt int
//--
var saInputErr error
//--
func saStub_os_File_Read(f *os.File, p []byte) (int, error) {
	saAssert(f == os.Stdin, "ReadLine reads from another file than standard input")
	if len(p) == 0 {
		return 0, nil
	}
	if saInputAt >= len(saInput) {
		if saInputErr != nil {
			return 0, saInputErr
		}
		return 0, io.EOF
	}
	n := copy(p, saInput[saInputAt:])
	saInputAt += n
	return n, nil
}
`
