package main

import (
	"fmt"
	"strings"
)

const pkgPath = "github.com/myyrakle/gost"

type intT struct {
	name   string
	w      int
	signed bool
	under  string
}

var intTypes = []intT{
	{"ISize", 64, true, "USize"}, {"I8", 8, true, "U8"}, {"I16", 16, true, "U16"}, {"I32", 32, true, "U32"}, {"I64", 64, true, "U64"},
	{"USize", 64, false, "USize"}, {"U8", 8, false, "U8"}, {"U16", 16, false, "U16"}, {"U32", 32, false, "U32"}, {"U64", 64, false, "U64"},
}

// tmpl fills {{key}} slots.
func tmpl(s string, kv ...string) string {
	for i := 0; i+1 < len(kv); i += 2 {
		s = strings.ReplaceAll(s, "{{"+kv[i]+"}}", kv[i+1])
	}
	return s
}

func probe(name, src string) Probe {
	name = "saP_" + name
	return Probe{name: name, src: strings.ReplaceAll(src, "PROBE", name)}
}

func (t intT) kv() []string {
	return []string{"T", t.name, "W", fmt.Sprint(t.w), "S", fmt.Sprint(t.signed), "U", t.under,
		"LO", fmt.Sprintf("saLo(%d, %v)", t.w, t.signed), "HI", fmt.Sprintf("saHi(%d, %v)", t.w, t.signed)}
}

func forInts(name, src string) []Probe {
	var ps []Probe
	for _, t := range intTypes {
		ps = append(ps, probe(name+"_"+t.name, tmpl(src, t.kv()...)))
	}
	return ps
}

// declWide: the 128-bit types as numbers
const declWide = `
//--
func saAnyIn(lo, hi saInt) saInt
func saAnyU128() saInt { return saAnyIn(0, saPow2(128)-1) }
func saAnyI128() saInt {
	switch saPick(0, 2) {
	case 0:
		return saAnyIn(0, saPow2(127)-1)
	case 1:
		return saAnyIn(1-saPow2(127), -1)
	}
	return -saPow2(127)
}
func saWideU128(x saInt) U128
func saWideI128(x saInt) I128
func saExactU128(a U128) saInt
func saExactI128(a I128) saInt
func saAbs(x saInt) saInt {
	if x < 0 {
		return -x
	}
	return x
}
`

// value of the 128-bit types
const decl128 = `
//--
func saU(x U128) saInt { return saInt(x.high)*saPow2(64) + saInt(x.low) }
func saI(x I128) saInt { return saInt(x.high)*saPow2(64) + saInt(x.low) }
`

func init() {
	register(&Property{id: "A05", note: "Pow of each integer type, every base and exponent: the result as a power of the base, recursion by its contract, loops by the invariant of repeated squaring",
		setup: func(c *Checker, ex *Exec) { ex.powers = true },
		probes: func() []Probe {
			return forInts("Pow", `
func PROBE(x {{T}}, n U32) {
	saAssert(saIsPow(x.Pow(n), x, saInt(n)), "Pow is not the power")
}`)
		}})
	register(&Property{id: "A01", note: "checked operations of each integer type against exact integer arithmetic, for all operands",
		probes: func() []Probe {
			var ps []Probe
			for _, op := range [][2]string{{"Add", "saInt(a) + saInt(b)"}, {"Sub", "saInt(a) - saInt(b)"}, {"Mul", "saInt(a) * saInt(b)"}} {
				ps = append(ps, forInts("Checked"+op[0], tmpl(`
func PROBE(a, b {{T}}) {
	r := a.Checked{{OP}}(b)
	z := {{Z}}
	if z >= {{LO}} && z <= {{HI}} {
		saAssert(r.IsSome(), "None although the exact result fits")
		saAssert(saInt(r.Unwrap()) == z, "Some of a value that is not the exact result")
	} else {
		saAssert(r.IsNone(), "Some although the exact result does not fit")
	}
}`, "OP", op[0], "Z", op[1]))...)
			}
			for _, op := range [][2]string{{"Div", "saQuo(saInt(a), saInt(b))"}, {"Rem", "saInt(a) - saInt(b)*saQuo(saInt(a), saInt(b))"}} {
				ps = append(ps, forInts("Checked"+op[0], tmpl(`
func PROBE(a, b {{T}}) {
	r := a.Checked{{OP}}(b)
	if b == 0 {
		saAssert(r.IsNone(), "Some for a zero divisor")
		return
	}
	if {{S}} && saInt(a) == {{LO}} && saInt(b) == -1 {
		saAssert(r.IsNone(), "Some for the minimum and -1")
		return
	}
	saAssert(r.IsSome(), "None although the result fits")
	saAssert(saInt(r.Unwrap()) == {{Z}}, "Some of a value that is not the exact result")
}`, "OP", op[0], "Z", op[1]))...)
			}
			return ps
		}})

	register(&Property{id: "A02", note: "saturating operations of each integer type against clamped exact arithmetic, for all operands",
		probes: func() []Probe {
			var ps []Probe
			for _, op := range [][3]string{{"Add", "saInt(a) + saInt(b)", ""}, {"Sub", "saInt(a) - saInt(b)", ""}, {"Mul", "saInt(a) * saInt(b)", ""}, {"Div", "saQuo(saInt(a), saInt(b))", "saAssume(b != 0)"}} {
				ps = append(ps, forInts("Saturating"+op[0], tmpl(`
func PROBE(a, b {{T}}) {
	{{PRE}}
	r := saInt(a.Saturating{{OP}}(b))
	z := {{Z}}
	if z > {{HI}} {
		saAssert(r == {{HI}}, "not the maximum although the exact result is above it")
	} else if z < {{LO}} {
		saAssert(r == {{LO}}, "not the minimum although the exact result is below it")
	} else {
		saAssert(r == z, "not the exact result although it fits")
	}
}`, "OP", op[0], "Z", op[1], "PRE", op[2]))...)
			}
			for _, t := range intTypes {
				ps = append(ps, probe("Limits_"+t.name, tmpl(`
func PROBE() {
	var lo, hi {{T}} = {{T}}_MIN, {{T}}_MAX
	saAssert(saInt(lo) == {{LO}} && saInt(hi) == {{HI}}, "the exported limits are not those of the type")
}`, t.kv()...)))
			}
			for _, t := range []string{"U", "I"} {
				p := probe("Limits_"+t+"128", tmpl(`
func PROBE() {
	saAssert(sa{{T}}({{T}}128_MIN) == saLo(128, {{S}}) && sa{{T}}({{T}}128_MAX) == saHi(128, {{S}}), "the exported limits are not those of the type")
}`, "T", t, "S", fmt.Sprint(t == "I")))
				p.decls = decl128
				ps = append(ps, p)
			}
			return ps
		}})

	register(&Property{id: "A03", note: "plain and wrapping operations of each integer type modulo 2^width, for all operands",
		probes: func() []Probe {
			var ps []Probe
			for _, op := range [][2]string{{"Add", "saInt(a) + saInt(b)"}, {"Sub", "saInt(a) - saInt(b)"}, {"Mul", "saInt(a) * saInt(b)"},
				{"WrappingAdd", "saInt(a) + saInt(b)"}, {"WrappingSub", "saInt(a) - saInt(b)"}, {"WrappingMul", "saInt(a) * saInt(b)"}} {
				ps = append(ps, forInts(op[0], tmpl(`
func PROBE(a, b {{T}}) {
	r := a.{{OP}}(b)
	saAssert(saMod(saInt(r), {{Z}}, {{W}}), "not the exact result modulo 2^{{W}}")
}`, "OP", op[0], "Z", op[1]))...)
			}
			for _, op := range [][2]string{{"Div", "saQuo(saInt(a), saInt(b))"}, {"WrappingDiv", "saQuo(saInt(a), saInt(b))"}, {"Rem", "saInt(a) - saInt(b)*saQuo(saInt(a), saInt(b))"}} {
				ps = append(ps, forInts(op[0], tmpl(`
func PROBE(a, b {{T}}) {
	saAssume(b != 0)
	r := a.{{OP}}(b)
	saAssert(saMod(saInt(r), {{Z}}, {{W}}), "not the exact result modulo 2^{{W}}")
}`, "OP", op[0], "Z", op[1]))...)
			}
			for _, t := range []intT{{"Byte", 8, false, ""}, {"Char", 32, true, ""}} {
				for _, op := range [][2]string{{"Add", "saInt(a) + saInt(b)"}, {"Sub", "saInt(a) - saInt(b)"}, {"Mul", "saInt(a) * saInt(b)"}, {"Div", "saQuo(saInt(a), saInt(b))"}} {
					pre := ""
					if op[0] == "Div" {
						pre = "saAssume(b != 0)"
					}
					ps = append(ps, probe(op[0]+"_"+t.name, tmpl(`
func PROBE(a, b {{T}}) {
	{{PRE}}
	r := a.{{OP}}(b)
	saAssert(saMod(saInt(r), {{Z}}, {{W}}), "not the exact result modulo 2^{{W}}")
}`, append(t.kv(), "PRE", pre, "OP", op[0], "Z", op[1])...)))
				}
			}
			for _, t := range intTypes[:5] {
				ps = append(ps, probe("Neg_"+t.name, tmpl(`
func PROBE(a {{T}}) {
	r := a.Neg()
	saAssert(saMod(saInt(r), -saInt(a), {{W}}), "not the additive inverse modulo 2^{{W}}")
}`, t.kv()...)))
			}
			return ps
		}})

	register(&Property{id: "A04", note: "absolute value, difference and sign tests, for all operands",
		probes: func() []Probe {
			var ps []Probe
			for _, t := range intTypes {
				ps = append(ps, probe("AbsDiff_"+t.name, tmpl(`
func PROBE(a, b {{T}}) {
	var r {{U}} = a.AbsDiff(b)
	z := saInt(a) - saInt(b)
	if z < 0 {
		z = -z
	}
	saAssert(saInt(r) == z, "not the exact difference")
}`, t.kv()...)))
			}
			for _, t := range intTypes[:5] {
				ps = append(ps, probe("Abs_"+t.name, tmpl(`
func PROBE(a {{T}}) {
	r := saInt(a.Abs())
	z := saInt(a)
	if z < 0 {
		z = -z
	}
	saAssert(saMod(r, z, {{W}}), "not the magnitude")
	saAssert(z > {{HI}} || r == z, "not the magnitude")
}`, t.kv()...)))
				ps = append(ps, probe("Sign_"+t.name, tmpl(`
func PROBE(a {{T}}) {
	saAssert(bool(a.IsPositive()) == (a > 0), "IsPositive is not a > 0")
	saAssert(bool(a.IsNegative()) == (a < 0), "IsNegative is not a < 0")
}`, t.kv()...)))
			}
			ps = append(ps, Probe{name: "saP_Abs_I128", decls: decl128, src: `
func saP_Abs_I128(a I128) {
	r := saI(a.Abs())
	z := saI(a)
	if z < 0 {
		z = -z
	}
	saAssert(saMod(r, z, 128), "not the magnitude")
	saAssert(z == saPow2(127) || r == z, "not the magnitude")
}
func saP_Sign_I128(a I128) {
	saAssert(bool(a.IsPositive()) == (saI(a) > 0), "IsPositive is not a > 0")
	saAssert(bool(a.IsNegative()) == (saI(a) < 0), "IsNegative is not a < 0")
}`}, Probe{name: "saP_Sign_I128"})
			return ps
		}})

	register(&Property{id: "A06", note: "shifts of every integer type, each amount from 0 to width-1 separately, for all left operands",
		probes: func() []Probe {
			var ps []Probe
			for _, t := range intTypes {
				ps = append(ps, probe("Shl_"+t.name, tmpl(`
func PROBE(a, n {{T}}) {
	i := saCases(saInt(n), {{W}})
	r := a.Shl(n)
	saAssert(saMod(saInt(r), saInt(a)*saPow2(i), {{W}}), "Shl is not a * 2^n modulo 2^{{W}}")
}`, t.kv()...)))
				ps = append(ps, probe("Shr_"+t.name, tmpl(`
func PROBE(a, n {{T}}) {
	i := saCases(saInt(n), {{W}})
	r := a.Shr(n)
	saAssert(saInt(r) == saInt(a) >> i, "Shr is not the floor of a / 2^n")
}`, t.kv()...)))
			}
			for _, t := range []string{"U", "I"} {
				ps = append(ps, Probe{name: "saP_Shl_" + t + "128", decls: decl128, src: tmpl(`
func saP_Shl_{{T}}128(a {{T}}128, m saInt) {
	i := saCases(m, 128)
	n := {{T}}128{low: U64(i)}
	r := a.Shl(n)
	saAssert(saMod(sa{{T}}(r), sa{{T}}(a)*saPow2(i), 128), "Shl is not a * 2^n modulo 2^128")
}`, "T", t)})
				ps = append(ps, Probe{name: "saP_Shr_" + t + "128", decls: decl128, src: tmpl(`
func saP_Shr_{{T}}128(a {{T}}128, m saInt) {
	i := saCases(m, 128)
	n := {{T}}128{low: U64(i)}
	r := a.Shr(n)
	saAssert(sa{{T}}(r) == sa{{T}}(a)>>i, "Shr is not the floor of a / 2^n")
}`, "T", t)})
			}
			return ps
		}})

	register(&Property{id: "A07", note: "128-bit addition, subtraction, negation and conversions, for all operands",
		probes: func() []Probe {
			src := `
func saP_Add_{{T}}128(a, b {{T}}128) {
	saAssert(saMod(sa{{T}}(a.Add(b)), sa{{T}}(a)+sa{{T}}(b), 128), "Add is not the sum modulo 2^128")
}
func saP_Sub_{{T}}128(a, b {{T}}128) {
	saAssert(saMod(sa{{T}}(a.Sub(b)), sa{{T}}(a)-sa{{T}}(b), 128), "Sub is not the difference modulo 2^128")
}`
			return []Probe{
				{name: "saP_Add_U128", decls: decl128, src: tmpl(src, "T", "U")}, {name: "saP_Sub_U128"},
				{name: "saP_Add_I128", src: tmpl(src, "T", "I")}, {name: "saP_Sub_I128"},
				{name: "saP_Neg_I128", src: `
func saP_Neg_I128(a I128) {
	saAssert(saMod(saI(a.Neg()), -saI(a), 128), "Neg is not the additive inverse modulo 2^128")
}
func saP_From(s I64, u U64) {
	saAssert(saU(U128_FromU64(u)) == saInt(u), "U128_FromU64 changes the value")
	saAssert(saI(I128_FromU64(u)) == saInt(u), "I128_FromU64 changes the value")
	saAssert(saI(I128_FromI64(s)) == saInt(s), "I128_FromI64 changes the value")
}`}, {name: "saP_From"}}
		}})

	register(&Property{id: "A08", note: "128-bit multiplication, division and remainder for all operands; the methods they are built from by their specification (A06, A07, C01)",
		setup: func(c *Checker, ex *Exec) { wide(ex) },
		probes: func() []Probe {
			src := `
func PROBE() {
	x, y := saAny{{T}}(), saAny{{T}}()
{{PRE}}
	a, b := saWide{{T}}(x), saWide{{T}}(y)
{{BODY}}
}`
			const min = "	x, y = -saPow2(127), saAnyI128()\n"
			var ps []Probe
			add := func(name, t, pre, body string) {
				p := probe(name+"_"+t, tmpl(src, "T", t, "PRE", pre, "BODY", tmpl(body, "T", t)))
				p.decls = declWide
				ps = append(ps, p)
			}
			const mul = `	saAssert(saMod(saExact{{T}}(a.Mul(b)), x*y, 128), "Mul is not the product modulo 2^128")`
			const div = `	r := saExact{{T}}(a.Div(b))
	p, q := saAbs(x), saAbs(y)
	if p < q {
		saAssert(r == 0, "Div of a smaller number is not zero")
	} else if (x < 0) != (y < 0) {
		saAssert(saMod(r, -saQuo(p, q), 128), "Div is not the quotient truncated toward zero")
	} else {
		saAssert(saMod(r, saQuo(p, q), 128), "Div is not the quotient truncated toward zero")
	}`
			const rem = `	r := saExact{{T}}(a.Rem(b))
	p, q := saAbs(x), saAbs(y)
	want := p
	if p >= q {
		want = p - q*saQuo(p, q)
	}
	saAssert({{OK}}, "Rem has not the magnitude of the remainder")`
			add("Mul", "U128", "", mul)
			add("Div", "U128", "saAssume(y != 0)", div)
			add("Rem", "U128", "saAssume(y != 0)", tmpl(rem, "OK", "r == want"))
			add("Mul", "I128", "", mul)
			add("Div", "I128", "saAssume(y != 0)", div)
			add("Rem", "I128", "saAssume(y != 0)", tmpl(rem, "OK", "saMod(r, want, 128) || saMod(r, -want, 128)"))
			return ps
		}})
	register(&Property{id: "A09", note: "compound assignments against the binary operators, for all receivers and operands",
		setup: func(c *Checker, ex *Exec) {
			for _, t := range []string{"U128", "I128"} {
				for _, m := range []string{"Mul", "Div", "Rem"} {
					opaqueFn(ex, "("+pkgPath+"."+t+")."+m)
				}
			}
		},
		probes: func() []Probe {
			var ps []Probe
			types := []string{"F32", "F64", "U128", "I128"}
			for _, t := range intTypes {
				types = append(types, t.name)
			}
			types = append(types, "Complex64", "Complex128", "Byte", "Char", "String")
			for _, t := range types {
				for _, op := range []string{"Add", "Sub", "Mul", "Div", "Rem"} {
					if strings.ContainsAny(t[:1], "CFB") && op == "Rem" || t == "String" && op != "Add" {
						continue
					}
					ps = append(ps, probe(op+"Assign_"+t, tmpl(`
func PROBE(a, b {{T}}) {
	x, y, z := a, a, b
	var want {{T}}
	p1 := saPanics(func() { want = y.{{OP}}(z) })
	p2 := saPanics(func() { x.{{OP}}Assign(b) })
	saAssert(p1 == p2, "{{OP}}Assign does not panic exactly when {{OP}} does")
	if !p1 {
		saAssert(saSame(x, want), "{{OP}}Assign does not store the result of {{OP}}")
	}
}`, "T", t, "OP", op)))
				}
			}
			return ps
		}})

	register(&Property{id: "A10", note: "Cmp and Eq of every scalar type against the mathematical order, for all pairs of values",
		probes: func() []Probe {
			var ps []Probe
			src := `
func PROBE(a, b {{T}}) {
	c := a.Cmp(b)
	if {{LT}} {
		saAssert(c == OrderingLess, "not Less although the left operand is smaller")
	} else if {{GT}} {
		saAssert(c == OrderingGreater, "not Greater although the left operand is larger")
	} else {
		saAssert(c == OrderingEqual, "not Equal although the operands are equal")
	}
	saAssert(bool(a.Eq(b)) == ({{EQ}}), "Eq is not equality")
}`
			for _, t := range intTypes {
				ps = append(ps, probe("Cmp_"+t.name, tmpl(src, "T", t.name, "LT", "saInt(a) < saInt(b)", "GT", "saInt(a) > saInt(b)", "EQ", "saInt(a) == saInt(b)")))
			}
			for _, t := range []string{"Byte", "Char"} {
				ps = append(ps, probe("Cmp_"+t, tmpl(src, "T", t, "LT", "saInt(a) < saInt(b)", "GT", "saInt(a) > saInt(b)", "EQ", "saInt(a) == saInt(b)")))
			}
			for _, t := range []string{"U", "I"} {
				p := probe("Cmp_"+t+"128", tmpl(src, "T", t+"128", "LT", "sa"+t+"(a) < sa"+t+"(b)", "GT", "sa"+t+"(a) > sa"+t+"(b)", "EQ", "sa"+t+"(a) == sa"+t+"(b)"))
				p.decls = decl128
				ps = append(ps, p)
			}
			ps = append(ps, probe("Cmp_String", tmpl(src, "T", "String", "LT", "string(a) < string(b)", "GT", "string(a) > string(b)", "EQ", "string(a) == string(b)")))
			ps = append(ps, probe("Cmp_Bool", tmpl(src, "T", "Bool", "LT", "!bool(a) && bool(b)", "GT", "bool(a) && !bool(b)", "EQ", "bool(a) == bool(b)")))
			for _, t := range []string{"F32", "F64"} {
				ps = append(ps, probe("Cmp_"+t, strings.Replace(tmpl(src, "T", t, "LT", "a < b", "GT", "a > b", "EQ", "a == b"), "{\n", "{\n\tsaAssume(!(a != a) && !(b != b))\n\tsaAssume(a < b || a > b || a == b)\n", 1)))
			}
			return ps
		}})
}
