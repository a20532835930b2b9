package main

import (
	"fmt"
	"go/types"
	"math/big"
	"slices"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Texts as sequences of pieces: constants, single characters and unknown
// parts. Cutting, decoding and building them keeps the pieces.

func pieces(x *Term) []*Term {
	switch {
	case x.op == "strcat":
		return x.args
	case x.op == "str" && x.name == "":
		return nil
	}
	return []*Term{x}
}

// cutAt is the place of byte position p: before byte off of piece i.
func cutAt(ps []*Term, p *Term) (i int, off int64, ok bool) {
	cum := intConst(0)
	for i := 0; ; i++ {
		d := mkSub(p, cum)
		if d.isConst(0) {
			return i, 0, true
		}
		if i == len(ps) {
			return 0, 0, false
		}
		if c := d.constVal(); c != nil && ps[i].op == "str" && c.Sign() > 0 && c.Cmp(big.NewInt(int64(len(ps[i].name)))) < 0 {
			return i, c.Int64(), true
		}
		cum = mkAdd(cum, strLen(ps[i]))
	}
}

func mkSubstr(x, lo, hi *Term, typ types.Type) *Term {
	if isIte(x) || isIte(lo) || isIte(hi) {
		return lift1(x, func(x *Term) *Term {
			return lift2(lo, hi, func(lo, hi *Term) *Term { return mkSubstr(x, lo, hi, typ) })
		})
	}
	ps := pieces(x)
	i, a, ok := cutAt(ps, lo)
	if ok {
		j, b, ok := cutAt(ps, hi)
		if ok && (i < j || i == j && a <= b) {
			var r []*Term
			for k := i; k <= j && k < len(ps); k++ {
				p := ps[k]
				f, t := int64(0), int64(-1)
				if k == i {
					f = a
				}
				if k == j {
					if b == 0 {
						break
					}
					t = b
				}
				if f > 0 || t >= 0 {
					if t < 0 {
						t = int64(len(p.name))
					}
					p = mkStr(p.name[f:t])
				}
				r = append(r, p)
			}
			return mkCat(r...)
		}
	}
	return app("substr", typ, x, lo, hi)
}

// cutPrefix is the rest of a text that begins with another.
func cutPrefix(x, p *Term) (*Term, bool) {
	xs, ps := pieces(x), pieces(p)
	for i, q := range ps {
		switch {
		case len(xs) == 0:
			return nil, false
		case xs[0] == q:
			xs = xs[1:]
		case i == len(ps)-1 && q.op == "str" && xs[0].op == "str" && strings.HasPrefix(xs[0].name, q.name):
			xs = append([]*Term{mkStr(xs[0].name[len(q.name):])}, xs[1:]...)
		default:
			return nil, false
		}
	}
	return mkCat(xs...), true
}

// runesOf are the characters of a text and their byte positions, when every
// piece is a known number of characters.
func runesOf(x *Term) (rs, at []*Term, ok bool) {
	pos := intConst(0)
	for _, p := range pieces(x) {
		switch {
		case p.op == "str":
			for k, r := range p.name {
				rs = append(rs, intConst(int64(r)))
				at = append(at, mkAddK(pos, int64(k)))
			}
		case oneRune(p):
			rs = append(rs, p.args[0])
			at = append(at, pos)
		default:
			return nil, nil, false
		}
		pos = mkAdd(pos, strLen(p))
	}
	return rs, at, true
}

// arrayOf is an array content with these elements from 0.
func arrayOf(elem types.Type, es []*Term) *Term {
	A := mk("azero", "", KOther, elem)
	for i, e := range es {
		A = mkStore(A, intConst(int64(i)), e)
	}
	return A
}

func (ex *Exec) sliceOf(st *State, elem types.Type, es []*Term) *Term {
	n := intConst(int64(len(es)))
	o := st.allocArr("text", elem, arrayOf(elem, es), n)
	return mkSlice(o, intConst(0), n, n)
}

func (ex *Exec) stringIndex(fr *Frame, ins *ssa.Lookup, s, i *Term, st *State) []branch {
	return ex.bounded(fr, st, ins, i, strLen(s), func(st *State) []branch {
		return one(st, mkStrAt(s, i, ins.Type()))
	})
}

func (ex *Exec) rangeString(fr *Frame, ins *ssa.Range, x *Term, st *State) []branch {
	var out []branch
	for _, c := range ex.cases(st, x) {
		rs, at, ok := runesOf(c.val)
		if !ok {
			ex.giveUp("range over a text of unknown characters at %s", ex.pos(fr, ins))
		}
		s := c.st.clone()
		it := mk("obj", fmt.Sprintf("runeiter#%d", nextObj()), KOther, nil)
		var es []*Term
		for i := range rs {
			es = append(es, mkTuple(at[i], rs[i]))
		}
		s.heap[it] = &Cell{typ: types.Typ[types.Invalid], val: mkTuple(es...)}
		out = append(out, branch{st: s, val: it})
	}
	return out
}

func (ex *Exec) nextRune(fr *Frame, ins *ssa.Next, it *Term, st *State) []branch {
	c := st.heap[it]
	if c == nil {
		ex.giveUp("range over a string")
	}
	es := c.val.args
	if len(es) == 0 {
		return one(st, mkTuple(tFalse, intConst(0), intConst(0)))
	}
	s := st.clone()
	s.setCell(it, mkTuple(es[1:]...))
	return one(s, mkTuple(tTrue, es[0].args[0], es[0].args[1]))
}

// textOfElems is the text of known characters (or bytes).
func textOfElems(st *State, es []*Term, runes bool, typ types.Type) *Term {
	var ps []*Term
	for i := 0; i < len(es); i++ {
		e := st.simp(es[i])
		if c := e.constVal(); c != nil && !runes {
			b := []byte{byte(c.Int64())}
			for i+1 < len(es) {
				c := st.simp(es[i+1]).constVal()
				if c == nil {
					break
				}
				b = append(b, byte(c.Int64()))
				i++
			}
			ps = append(ps, mkStr(string(b)))
			continue
		}
		if !runes && e.op == "app" && e.name == "strat" && e.args[1].isConst(0) {
			// all bytes of one character
			n, all := runeWidth(e.args[0]), true
			for k := int64(1); k < n; k++ {
				all = all && i+int(k) < len(es) && st.simp(es[i+int(k)]) == mkStrAt(e.args[0], intConst(k), nil)
			}
			if n > 1 && all {
				ps = append(ps, e.args[0])
				i += int(n) - 1
				continue
			}
		}
		if !runes && !within(e, 0, 127) {
			return nil
		}
		ps = append(ps, mkRuneStr(e, types.Typ[types.String]))
	}
	return mkCat(ps...)
}

// ---------------------------------------------------------------- builders

// textBuf is the object that holds what was written to a builder or file.
func textBuf(p *Term) *Term {
	return mk("obj", fmt.Sprintf("textbuf#%d", p.id), KOther, nil)
}

func bufText(st *State, o *Term) *Term {
	if c := st.heap[o]; c != nil {
		return c.val
	}
	return mkStr("")
}

func (st *State) write(p, text *Term) {
	o := textBuf(p)
	st.heap[o] = &Cell{typ: types.Typ[types.String], val: lift2(bufText(st, o), text, func(a, b *Term) *Term { return mkCat(a, b) })}
}

var stdoutKey = mk("stdout", "", KOther, nil)

// sinkOf is the builder or file behind an io.Writer, or nil.
func sinkOf(w *Term) *Term {
	if w.op == "iface" {
		switch w.typ.String() {
		case "*strings.Builder", "*bytes.Buffer":
			return w.args[0]
		case "*os.File":
			return fileSink(w.args[0])
		}
	}
	return nil
}

func fileSink(p *Term) *Term {
	if strings.Contains(p.String(), "os.Stdout") {
		return stdoutKey
	}
	return nil
}

// printed is the text that fmt.Print (ln: Println) gives these operands.
func printed(st *State, es []*Term, ln bool) *Term {
	r := mkStr("")
	for i, e := range es {
		t := verbText(st, 'v', e)
		if t == nil {
			return nil
		}
		if i > 0 {
			str := func(e *Term) bool { return e.op == "iface" && e.typ != nil && isString(e.typ) }
			if ln || !str(e) && !str(es[i-1]) {
				r = mkCat(r, mkStr(" "))
			}
		}
		r = lift2(r, t, func(a, b *Term) *Term { return mkCat(a, b) })
	}
	if ln {
		r = mkCat(r, mkStr("\n"))
	}
	return r
}

func listOf(l *Term) ([]*Term, bool) {
	switch l.op {
	case "list":
		return l.args, true
	case "seq0":
		return nil, true
	}
	return nil, false
}

func init() {
	strT := types.Typ[types.String]
	type model = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch
	opaque := func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		return ex.external(fr, fn, args, st)
	}
	appRebuild["substr"] = func(t *Term, a []*Term) *Term { return mkSubstr(a[0], a[1], a[2], t.typ) }
	models["strings.Join"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		es, ok := listOf(ex.argKey(st, args[0]))
		if !ok {
			return opaque(ex, fr, fn, args, st)
		}
		r := mkStr("")
		for i, e := range es {
			if i > 0 {
				r = mkCat(r, st.simp(args[1]))
			}
			r = mkCat(r, e)
		}
		return one(st, r)
	}
	first := func(last bool) model {
		return func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
			var out []branch
			for _, c := range ex.cases(st, st.simp(args[0])) {
				ps := pieces(c.val)
				if len(ps) == 0 {
					out = append(out, branch{st: c.st, val: mkTuple(intConst(utf8.RuneError), intConst(0))})
					continue
				}
				p := ps[0]
				if last {
					p = ps[len(ps)-1]
				}
				switch {
				case p.op == "str":
					r, n := utf8.DecodeRuneInString(p.name)
					if last {
						r, n = utf8.DecodeLastRuneInString(p.name)
					}
					out = append(out, branch{st: c.st, val: mkTuple(intConst(int64(r)), intConst(int64(n)))})
				case oneRune(p):
					out = append(out, branch{st: c.st, val: mkTuple(p.args[0], strLen(p))})
				default:
					out = append(out, opaque(ex, fr, fn, []*Term{c.val}, c.st)...)
				}
			}
			return out
		}
	}
	models["unicode/utf8.DecodeRuneInString"] = first(false)
	models["unicode/utf8.DecodeLastRuneInString"] = first(true)
	models["unicode/utf8.RuneCountInString"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		x := st.simp(args[0])
		if !isIte(x) {
			if rs, _, ok := runesOf(x); ok {
				return one(st, intConst(int64(len(rs))))
			}
		}
		return one(st, appInt("runelen", big0, maxLen, x))
	}
	for _, t := range []string{"strings.Builder", "bytes.Buffer"} {
		m := func(name string, f model) { models["(*"+t+")."+name] = f }
		wr := func(text func(st *State, a *Term) *Term, res func(st *State, a *Term) *Term) model {
			return func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
				if args[0].op != "obj" && args[0].op != "ptr" {
					ex.giveUp("writes to an unknown buffer")
				}
				v := st.simp(args[1])
				x := text(st, v)
				if x == nil {
					ex.giveUp("writes unknown bytes to a buffer")
				}
				st.write(args[0], x)
				return one(st, res(st, x))
			}
		}
		lenNil := func(st *State, x *Term) *Term { return mkTuple(strLen(x), mk("niliface", "", KOther, nil)) }
		m("WriteString", wr(func(st *State, a *Term) *Term { return a }, lenNil))
		m("WriteRune", wr(func(st *State, a *Term) *Term { return mkRuneStr(a, strT) }, lenNil))
		m("WriteByte", wr(func(st *State, a *Term) *Term {
			if !within(a, 0, 127) {
				return nil
			}
			return mkRuneStr(a, strT)
		}, func(st *State, x *Term) *Term { return mk("niliface", "", KOther, nil) }))
		m("String", func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
			return one(st, bufText(st, textBuf(args[0])))
		})
		m("Len", func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
			return one(st, strLen(bufText(st, textBuf(args[0]))))
		})
		m("Reset", func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
			st.heap[textBuf(args[0])] = &Cell{typ: strT, val: mkStr("")}
			return one(st, nil)
		})
		m("Grow", func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch { return one(st, nil) })
	}
	out := func(sink func(args []*Term) *Term, text func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) *Term) model {
		return func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
			k := sink(args)
			if k == nil {
				return opaque(ex, fr, fn, args, st)
			}
			t := text(ex, fr, fn, args, st)
			if t == nil {
				return opaque(ex, fr, fn, args, st)
			}
			st.write(k, t)
			return one(st, mkTuple(strLen(t), mk("niliface", "", KOther, nil)))
		}
	}
	toStdout := func([]*Term) *Term { return stdoutKey }
	toWriter := func(args []*Term) *Term { return sinkOf(args[0]) }
	toFile := func(args []*Term) *Term { return fileSink(args[0]) }
	ops := func(from int, ln bool) func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) *Term {
		return func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) *Term {
			es, ok := listOf(ex.argKey(st, args[from]))
			if !ok {
				return nil
			}
			return printed(st, es, ln)
		}
	}
	fmtd := func(from int) func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) *Term {
		return func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) *Term {
			return sprintf(ex, fr, fn, args[from:], st)[0].val
		}
	}
	str := func(i int) func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) *Term {
		return func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) *Term { return st.simp(args[i]) }
	}
	models["fmt.Print"] = out(toStdout, ops(0, false))
	models["fmt.Println"] = out(toStdout, ops(0, true))
	models["fmt.Printf"] = out(toStdout, fmtd(0))
	models["fmt.Fprint"] = out(toWriter, ops(1, false))
	models["fmt.Fprintln"] = out(toWriter, ops(1, true))
	models["fmt.Fprintf"] = out(toWriter, fmtd(1))
	models["io.WriteString"] = out(toWriter, str(1))
	models["(*os.File).WriteString"] = out(toFile, str(1))
	intrinsics["saStdout"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		return one(st, bufText(st, textBuf(stdoutKey)))
	}
	// saInAnyOrder: the text is open, the parts in some order with the
	// separator between them, and end
	intrinsics["saInAnyOrder"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		open, sep, end := st.simp(args[1]), st.simp(args[2]), st.simp(args[3])
		es, ok := listOf(ex.argKey(st, args[4]))
		if !ok {
			ex.giveUp("saInAnyOrder of unknown parts")
		}
		// whether the parts that are left make up the rest of the text
		var from func(x *Term, left []*Term, first bool) bool
		from = func(x *Term, left []*Term, first bool) bool {
			if len(left) == 0 {
				return x == end
			}
			if !first {
				if x, ok = cutPrefix(x, sep); !ok {
					return false
				}
			}
			for i, e := range left {
				if r, ok := cutPrefix(x, e); ok && from(r, slices.Delete(slices.Clone(left), i, i+1), false) {
					return true
				}
			}
			return false
		}
		return one(st, lift1(st.simp(args[0]), func(x *Term) *Term {
			r, ok := cutPrefix(x, open)
			return mkBool(ok && from(r, es, true))
		}))
	}
	// saChar: an unknown character between two given ones
	intrinsics["saChar"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		return one(st, freshInt("char", args[0].constVal(), args[1].constVal()))
	}
	// the same function under another name
	models["strings.Compare"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		x, y := st.simp(args[0]), st.simp(args[1])
		return one(st, mkIte(mkEq(x, y), intConst(0), mkIte(strLt(x, y), intConst(-1), intConst(1))))
	}
	models["strings.ReplaceAll"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		return one(st, app("strings.Replace", strT, st.simp(args[0]), st.simp(args[1]), st.simp(args[2]), intConst(-1)))
	}
	models["strings.Replace"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		n := st.simp(args[3])
		if c := n.constVal(); c != nil && c.Sign() < 0 {
			n = intConst(-1)
		}
		return one(st, app("strings.Replace", strT, st.simp(args[0]), st.simp(args[1]), st.simp(args[2]), n))
	}
	index := func(st *State, args []*Term) *Term {
		return appInt("strings.Index", big.NewInt(-1), maxLen, st.simp(args[0]), st.simp(args[1]))
	}
	models["strings.Index"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		return one(st, index(st, args))
	}
	models["strings.Contains"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		return one(st, mkGe0(index(st, args)))
	}
	parse := func(ex *Exec, fn *ssa.Function, st *State, key string, args ...*Term) []branch {
		rt := fn.Signature.Results()
		val := opaqueResult("val:"+key, types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(rt.At(0)), false), args)
		e := opaqueResult("err:"+key, types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(rt.At(1)), false), append([]*Term{mkStr(fnName(fn))}, args...))
		bad := app("bad:"+key, types.Typ[types.Bool], args...)
		var out []branch
		yes, no := ex.split(st, bad)
		for _, s := range yes {
			for _, pc := range s.pc.assumeAll(mkNot(mkIsNil(e))) {
				out = append(out, branch{st: s.withPC(pc), val: mkTuple(val, e)})
			}
		}
		for _, s := range no {
			out = append(out, branch{st: s, val: mkTuple(val, mk("niliface", "", KOther, nil))})
		}
		return out
	}
	models["strconv.Atoi"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		return parse(ex, fn, st, "ParseInt", st.simp(args[0]), intConst(10), intConst(64))
	}
	for _, n := range []string{"ParseInt", "ParseUint", "ParseFloat"} {
		n := n
		models["strconv."+n] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
			a := []*Term{st.simp(args[0])}
			for i, x := range args[1:] {
				x = st.simp(x)
				if n != "ParseFloat" && i == 1 && x.isConst(0) {
					x = intConst(64)
				}
				a = append(a, x)
			}
			return parse(ex, fn, st, n, a...)
		}
	}
	// UTF-16, where the kind of every unit is known
	kind := func(u *Term) int {
		switch {
		case within(u, 0, 0xd7ff) || within(u, 0xe000, 0xffff):
			return 1
		case within(u, 0xd800, 0xdbff):
			return 2
		case within(u, 0xdc00, 0xdfff):
			return 3
		}
		return 0
	}
	join := func(a, b *Term) *Term {
		return mkAddK(mkAdd(mkScale(big.NewInt(0x400), mkAddK(a, -0xd800)), b), 0x10000-0xdc00)
	}
	units := func(ex *Exec, st *State, sl *Term, t types.Type) ([]*Term, bool) {
		if sl.op != "slice" {
			return nil, false
		}
		n := st.pc.norm(sl.args[2]).constVal()
		if n == nil || n.Int64() > 8192 {
			return nil, false
		}
		get, _ := ex.seqOf(st, t, sl)
		var es []*Term
		for i := int64(0); i < n.Int64(); i++ {
			es = append(es, st.simp(get(st, intConst(i))))
		}
		return es, true
	}
	models["unicode/utf16.Decode"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		es, ok := units(ex, st, st.simp(args[0]), fn.Signature.Params().At(0).Type())
		if !ok {
			return opaque(ex, fr, fn, args, st)
		}
		var rs []*Term
		for i := 0; i < len(es); i++ {
			switch k := kind(es[i]); {
			case k == 1:
				rs = append(rs, es[i])
			case k == 2 && i+1 < len(es) && kind(es[i+1]) == 3:
				rs = append(rs, join(es[i], es[i+1]))
				i++
			case k == 2 && i+1 < len(es) && kind(es[i+1]) == 0, k == 0:
				return opaque(ex, fr, fn, args, st)
			default:
				rs = append(rs, intConst(0xfffd))
			}
		}
		return one(st, ex.sliceOf(st, types.Typ[types.Rune], rs))
	}
	models["unicode/utf16.Encode"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		es, ok := units(ex, st, st.simp(args[0]), fn.Signature.Params().At(0).Type())
		if !ok {
			return opaque(ex, fr, fn, args, st)
		}
		var us []*Term
		for _, r := range es {
			switch {
			case within(r, 0, 0xd7ff) || within(r, 0xe000, 0xffff):
				us = append(us, r)
			case r.constVal() != nil && within(r, 0x10000, 0x10ffff):
				c := r.constVal().Int64() - 0x10000
				us = append(us, intConst(0xd800+c>>10), intConst(0xdc00+c&0x3ff))
			case within(r, 0xd800, 0xdfff):
				us = append(us, intConst(0xfffd))
			default:
				return opaque(ex, fr, fn, args, st)
			}
		}
		return one(st, ex.sliceOf(st, types.Typ[types.Uint16], us))
	}
	models["unicode/utf16.IsSurrogate"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		r := st.simp(args[0])
		return one(st, mkAnd(mkGe(r, intConst(0xd800)), mkLt(r, intConst(0xe000))))
	}
	models["unicode/utf16.DecodeRune"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
		a, b := st.simp(args[0]), st.simp(args[1])
		ok := mkAnd(mkAnd(mkGe(a, intConst(0xd800)), mkLt(a, intConst(0xdc00))), mkAnd(mkGe(b, intConst(0xdc00)), mkLt(b, intConst(0xe000))))
		return one(st, mkIte(ok, join(a, b), intConst(0xfffd)))
	}
	for _, n := range []string{"errors.New", "fmt.Errorf"} {
		models[n] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []*Term, st *State) []branch {
			var out []branch
			for _, b := range opaque(ex, fr, fn, args, st) {
				for _, pc := range b.st.pc.assumeAll(mkNot(mkIsNil(b.val))) {
					out = append(out, branch{st: b.st.withPC(pc), val: b.val})
				}
			}
			return out
		}
	}
}
