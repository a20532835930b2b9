package main

import "fmt"

const declText = declB + declM + declK + `
//--
func saElems(n int) []saE {
	d := make([]saE, n)
	for i := range d {
		d[i] = saAny[saE]("e")
	}
	return d
}
func saListing(open string, parts []string, end string) String {
	t := open
	for i, p := range parts {
		if i > 0 {
			t += ", "
		}
		t += p
	}
	return String(t + end)
}
func saDisplays(d []saE) []string {
	r := make([]string, len(d))
	for i, e := range d {
		r[i] = string(e.Display())
	}
	return r
}
func saInAnyOrder(got, open, sep, end string, p []string) bool
// saIsListing: the text lists the parts, in any order
func saIsListing(got String, open string, p []string, end, msg string) {
	ok := saInAnyOrder(string(got), open, ", ", end, p)
	saAssert(ok, "not every element once, separated by commas: "+msg)
}
`

func textProbe(name, sig, body string) Probe {
	p := probe(name, "func PROBE("+sig+") {\n"+body+"\n}")
	p.decls = declText
	p.follow, p.sizes = 64, 3
	return p
}

func init() {
	register(&Property{id: "X01", note: "the texts of every container of up to four elements whose own texts are unknown; of pairs, options and results",
		probes: func() []Probe {
			both := func(name, mk, open, end string) Probe {
				return textProbe(name, "", fmt.Sprintf(`
	d := saElems(saSize(0, 4))
	%[2]s
	want := saListing("%[3]s", saDisplays(d), "%[4]s")
	saAssert(saSame(v.Display(), want), "%[1]s.Display")
	saAssert(saSame(v.Debug(), want), "%[1]s.Debug")`, name, mk, open, end))
			}
			return []Probe{
				both("Vec", "v := Vec[saE]{data: d}", "Vec[", "]"),
				both("VecDeque", `c := len(d) + saPick(0, 1)
	if c == 0 {
		c = 1
	}
	h := saFew(0, c-1)
	v := VecDeque[saE]{buffer: make([]saE, c), head: USize(h), len: USize(len(d))}
	for i := range d {
		v.buffer[(h+i)%c] = d[i]
	}`, "VecDeque[", "]"),
				both("LinkedList", `v := LinkedListNew[saE]()
	for _, e := range d {
		v.PushBack(e)
	}`, "LinkedList[", "]"),
				textProbe("HashMap", "", `
	n := saSize(0, 3)
	m := HashMapNew[saM, saE]()
	parts := make([]string, n)
	for i := 0; i < n; i++ {
		k, v := saM{int64(i)}, saAny[saE]("v")
		m.data[k] = v
		parts[i] = string(k.Display()) + ": " + string(v.Display())
	}
	if saPick(0, 1) == 0 {
		saIsListing(m.Display(), "HashMap{", parts, "}", "HashMap.Display")
	} else {
		saIsListing(m.Debug(), "HashMap{", parts, "}", "HashMap.Debug")
	}`),
				textProbe("HashSet", "", `
	n := saSize(0, 3)
	s := HashSetNew[saM]()
	parts := make([]string, n)
	for i := 0; i < n; i++ {
		k := saM{int64(i)}
		s.Insert(k)
		parts[i] = string(k.Display())
	}
	if saPick(0, 1) == 0 {
		saIsListing(s.Display(), "HashSet{", parts, "}", "HashSet.Display")
	} else {
		saIsListing(s.Debug(), "HashSet{", parts, "}", "HashSet.Debug")
	}`),
				textProbe("BTreeMap", "", `
	n := saSize(0, 4)
	m := BTreeMapNew[saO, saE]()
	parts := make([]string, n)
	for i := 0; i < n; i++ {
		k, v := saO{int64(i), saAny[int64]("tag")}, saAny[saE]("v")
		m.Insert(k, v)
		parts[i] = string(k.Display()) + ": " + string(v.Display())
	}
	want := saListing("BTreeMap{", parts, "}")
	saAssert(saSame(m.Display(), want), "BTreeMap.Display")
	saAssert(saSame(m.Debug(), want), "BTreeMap.Debug")`),
				textProbe("BTreeSet", "", `
	n := saSize(0, 4)
	s := BTreeSetNew[saO]()
	parts := make([]string, n)
	for i := 0; i < n; i++ {
		k := saO{int64(i), saAny[int64]("tag")}
		s.Insert(k)
		parts[i] = string(k.Display())
	}
	want := saListing("BTreeSet{", parts, "}")
	saAssert(saSame(s.Display(), want), "BTreeSet.Display")
	saAssert(saSame(s.Debug(), want), "BTreeSet.Debug")`),
				textProbe("BTreeMapLarge", "", `
	m := BTreeMapNew[saO, saE]()
	var parts []string
	for i := 0; i < 8; i++ {
		k, v := saO{int64(i), 0}, saAny[saE]("v")
		m.Insert(k, v)
		parts = append(parts, string(k.Display()) + ": " + string(v.Display()))
	}
	saAssert(saSame(m.Display(), saListing("BTreeMap{", parts, "}")), "BTreeMap.Display of eight bindings")`),
				textProbe("Pair", "p Pair[saE, saK]", `
	want := String("Pair[" + string(p.Key.ToString()) + ", " + string(p.Value.ToString()) + "]")
	saAssert(saSame(p.ToString(), want), "Pair.ToString")
	saAssert(saSame(p.Display(), want), "Pair.Display")
	saAssert(saSame(p.Debug(), want), "Pair.Debug")`),
				textProbe("Option", "v saE", `
	o, n := Some(v), None[saE]()
	want := String("Some(" + string(v.Display()) + ")")
	saAssert(saSame(o.Display(), want) && saSame(o.Debug(), want), "Display or Debug of Some")
	saAssert(saSame(n.Display(), String("None")) && saSame(n.Debug(), String("None")), "Display or Debug of None")`),
				textProbe("Result", "v saE, e error", `
	saAssume(e != nil)
	o, n := Ok(v), Err[saE](e)
	want := String("Ok(" + string(v.Display()) + ")")
	saAssert(saSame(o.Display(), want) && saSame(o.Debug(), want), "Display or Debug of Ok")
	saAssert(saSame(n.Display(), String(e.Error())) && saSame(n.Debug(), String(e.Error())), "Display or Debug of Err")`),
			}
		}})
	fmtTokens := `
	f, want, n := "", "", 0
	args := []saE{saAny[saE]("a"), saAny[saE]("a"), saAny[saE]("a"), saAny[saE]("a")}
	k := saPick(0, 4)
	for i := 0; i < k; i++ {
		switch saPick(0, 5) {
		case 0:
			f += "{}"
			want += string(args[n].Display())
			n++
		case 1:
			f += "{{"
			want += "{"
		case 2:
			f += "}}"
			want += "}"
		case 3:
			c := string(saChar(1, 122))
			f += c
			want += c
		case 4:
			c := string(saChar(126, 127))
			f += c
			want += c
		case 5:
			c := string(saChar(0x80, 0x7ff)) + string(saChar(0x800, 0xd7ff))
			f += c
			want += c
		}
	}
	var ps []any
	for i := 0; i < n; i++ {
		ps = append(ps, args[i])
	}
`
	register(&Property{id: "X02", note: "Format, Print and Println with every format of up to four parts: placeholders, doubled braces, any other character of one byte, characters of several bytes",
		probes: func() []Probe {
			return []Probe{
				textProbe("Format", "", fmtTokens+`
	saAssert(saSame(Format(String(f), ps...), String(want)), "Format")`),
				textProbe("Print", "", fmtTokens+`
	Print(String(f), ps...)
	saAssert(saSame(saStdout(), want), "Print")`),
				textProbe("Println", "", fmtTokens+`
	Println(String(f), ps...)
	saAssert(saSame(saStdout(), want+"\n"), "Println")`),
				textProbe("Kinds", "a I32, b U64, c F64, d Bool, e String, g Char", `
	t := Format("{}{}{}{}{}{}", a, b, c, d, e, g)
	saAssert(saSame(t, a.Display()+b.Display()+c.Display()+d.Display()+e.Display()+g.Display()), "Format of scalars")`),
			}
		}})
}

const declChars = declText + `
//--
type saT struct {
	s     string
	runes []rune
}
// saText: any text of n characters
func saText(n int) saT {
	var t saT
	for i := 0; i < n; i++ {
		r := rune(0)
		switch saPick(0, 4) {
		case 0:
			r = saChar(0, 0x7f)
		case 1:
			r = saChar(0x80, 0x7ff)
		case 2:
			r = saChar(0x800, 0xd7ff)
		case 3:
			r = saChar(0xe000, 0xffff)
		case 4:
			r = saChar(0x10000, 0x10ffff)
		}
		t.s += string(r)
		t.runes = append(t.runes, r)
	}
	return t
}
`

func charProbe(name, sig, body string) Probe {
	p := textProbe(name, sig, body)
	p.decls = declChars
	return p
}

func init() {
	register(&Property{id: "C02", note: "the string methods and parsers for every text, those that walk the characters for every text of up to three",
		probes: func() []Probe {
			g := func(name, sig, body string) Probe {
				p := probe(name, "func PROBE("+sig+") {\n"+body+"\n}")
				p.decls = declOpt
				return p
			}
			return []Probe{
				g("Len", "s String", `
	saAssert(s.Len() == USize(len(string(s))), "Len")
	saAssert(bool(s.IsEmpty()) == (len(string(s)) == 0), "IsEmpty")`),
				g("Add", "s, t String", `
	saAssert(saSame(s.Add(t), String(string(s)+string(t))), "Add is not the concatenation")`),
				g("Search", "s, t String", `
	saAssert(bool(s.Contains(t)) == strings.Contains(string(s), string(t)), "Contains")
	i := strings.Index(string(s), string(t))
	if i < 0 {
		saIsNone(s.Find(t), "Find of an absent text")
	} else {
		saIsSome(s.Find(t), USize(i), "Find")
	}`),
				g("Split", "s, t String, i int", `
	want := strings.Split(string(s), string(t))
	got := s.Split(t)
	saAssert(got.Len() == USize(len(want)), "Split: wrong number of parts")
	saAssume(i >= 0 && i < len(want))
	saAssert(saSame(got.data[i], String(want[i])), "Split: wrong part")`),
				g("Whole", "s, o, n String, k USize", `
	saAssert(saSame(s.Trim(), String(strings.TrimSpace(string(s)))), "Trim")
	saAssert(saSame(s.Replace(o, n), String(strings.ReplaceAll(string(s), string(o), string(n)))), "Replace")
	saAssert(saSame(s.ToLowercase(), String(strings.ToLower(string(s)))), "ToLowercase")
	saAssert(saSame(s.ToUppercase(), String(strings.ToUpper(string(s)))), "ToUppercase")
	saAssume(k < 1<<40)
	saAssert(saSame(s.Repeat(k), String(strings.Repeat(string(s), int(k)))), "Repeat")`),
				g("ParseI64", "s String", `
	v, err := strconv.ParseInt(string(s), 10, 64)
	r := s.ParseI64()
	if err != nil {
		saAssert(r.IsErr(), "ParseI64 accepts a text")
	} else {
		saIsOk(r, I64(v), "ParseI64")
	}`),
				g("ParseU64", "s String", `
	v, err := strconv.ParseUint(string(s), 10, 64)
	r := s.ParseU64()
	if err != nil {
		saAssert(r.IsErr(), "ParseU64 accepts a text")
	} else {
		saIsOk(r, U64(v), "ParseU64")
	}`),
				g("ParseF64", "s String", `
	v, err := strconv.ParseFloat(string(s), 64)
	r := s.ParseF64()
	if err != nil {
		saAssert(r.IsErr(), "ParseF64 accepts a text")
	} else {
		saIsOk(r, F64(v), "ParseF64")
	}`),
				g("Push", "s String, c Char", `
	want := string(s) + string(rune(c))
	r := s.Push(c)
	saAssert(saSame(string(r), want), "Push: result")
	saAssert(saSame(string(s), want), "Push: receiver")`),
				charProbe("Pop", "", `
	t := saText(saSize(0, 3))
	s := String(t.s)
	r := s.Pop()
	n := len(t.runes)
	if n == 0 {
		saIsNone(r, "Pop of an empty text")
		saAssert(len(s) == 0, "Pop of an empty text: receiver")
	} else {
		saIsSome(r, Char(t.runes[n-1]), "Pop")
		want := ""
		for _, c := range t.runes[:n-1] {
			want += string(c)
		}
		saAssert(saSame(string(s), want), "Pop: receiver")
	}`),
				charProbe("Chars", "", `
	t := saText(saSize(0, 3))
	v := String(t.s).Chars()
	saAssert(v.Len() == USize(len(t.runes)), "Chars: wrong number")
	for i, c := range t.runes {
		saAssert(v.data[i] == Char(c), "Chars")
	}`),
				charProbe("Bytes", "", `
	t := saText(saSize(0, 3))
	v := String(t.s).IntoBytes()
	saAssert(v.Len() == USize(len(t.s)), "IntoBytes: wrong number")
	for i := 0; i < len(t.s); i++ {
		saAssert(v.data[i] == U8(t.s[i]), "IntoBytes")
	}
	saAssert(saSame(string(StringFromUTF8(v)), t.s), "StringFromUTF8 of the bytes of a text")`),
				charProbe("UTF8", "", `
	n := saSize(0, 4)
	v := Vec[U8]{data: make([]U8, n)}
	for i := range v.data {
		v.data[i] = saAny[U8]("b")
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v.data[i])
	}
	saAssert(saSame(string(StringFromUTF8(v)), string(b)), "StringFromUTF8 of any bytes")`),
				charProbe("UTF16", "", `
	var u []U16
	want, bad := "", false
	n := saPick(0, 3)
	last := 0
	for i := 0; i < n; i++ {
		k := saPick(0, 5)
		switch k {
		case 0:
			c := saChar(0, 0xd7ff)
			u = append(u, U16(c))
			want += string(c)
		case 1:
			c := saChar(0xe000, 0xffff)
			u = append(u, U16(c))
			want += string(c)
		case 2:
			u = append(u, 0xd83d, 0xde00)
			want += "\U0001f600"
		case 3:
			u = append(u, 0xdbff, 0xdfff)
			want += "\U0010ffff"
		case 4:
			u = append(u, 0xd800)
			bad = true
		case 5:
			// not after the first half of a pair
			if last == 4 {
				u = append(u, 'x')
			}
			u = append(u, 0xdc00)
			bad = true
		}
		last = k
	}
	r := StringFromUTF16(Vec[U16]{data: u})
	if bad {
		saAssert(r.IsErr(), "StringFromUTF16 accepts a lone surrogate")
	} else {
		saAssert(r.IsOk(), "StringFromUTF16 rejects a text")
		saAssert(saSame(string(r.Unwrap()), want), "StringFromUTF16")
	}`),
			}
		}})
}
