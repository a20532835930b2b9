package main

import "fmt"

// declEq: containers of ordered elements (equality by key only) of any small
// size, with their contents as slices
const declEq = declB + declT + declM + `
//--
func saVecO(n int) (Vec[saO], []saO) {
	d := make([]saO, n)
	e := make([]saO, n)
	for i := range d {
		d[i] = saAny[saO]("e")
		e[i] = d[i]
	}
	return Vec[saO]{data: d}, e
}
//--
// saDequeO: any ring with n elements
func saDequeO(n int) (VecDeque[saO], []saO) {
	c := n + saPick(0, 1)
	if c == 0 {
		c = 1
	}
	b := make([]saO, c)
	e := make([]saO, n)
	for i := range b {
		b[i] = saAny[saO]("e")
	}
	h := saFew(0, c-1)
	for i := range e {
		e[i] = b[(h+i)%c]
	}
	return VecDeque[saO]{buffer: b, head: USize(h), len: USize(n)}, e
}
//--
func saListO(n int) (LinkedList[saO], []saO) {
	var l LinkedList[saO]
	e := make([]saO, n)
	for i := range e {
		e[i] = saAny[saO]("e")
		nd := &LinkedListNode[saO]{value: e[i], prev: l.tail}
		if l.tail == nil {
			l.head = nd
		} else {
			l.tail.next = nd
		}
		l.tail = nd
		l.len++
	}
	return l, e
}
//--
func saEqSeq(a, b []saO) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].saKey != b[i].saKey {
			return false
		}
	}
	return true
}
`

func eqProbe(name, sig, body string, size int) Probe {
	p := probe(name, "func PROBE("+sig+") {\n"+body+"\n}")
	p.decls = declEq
	p.follow, p.sizes = 64, size
	return p
}

func init() {
	register(&Property{id: "E01", note: "equality of every pair of containers of up to three elements with any element equality, and of pairs",
		probes: func() []Probe {
			var ps []Probe
			for _, s := range []struct{ typ, mk string }{{"Vec", "saVecO"}, {"VecDeque", "saDequeO"}, {"LinkedList", "saListO"}} {
				ps = append(ps, eqProbe(s.typ, "", fmt.Sprintf(`
	a, x := %[2]s(saSize(0, 3))
	b, y := %[2]s(saSize(0, 3))
	saAssert(bool(a.Eq(b)) == saEqSeq(x, y), "%[1]s.Eq")
	saAssert(a.Len() == USize(len(x)) && b.Len() == USize(len(y)), "%[1]s.Eq changes an operand")`, s.typ, s.mk), 3),
					eqProbe(s.typ+"Self", "", fmt.Sprintf(`
	a, _ := %[2]s(saSize(0, 4))
	saAssert(bool(a.Eq(a)), "%[1]s.Eq of a container with itself")`, s.typ, s.mk), 3))
			}
			ps = append(ps,
				eqProbe("HashMap", "m, n HashMap[saM, saO]", `
	want := len(m.data) == len(n.data)
	for k, v := range m.data {
		w, ok := n.data[k]
		if !ok || w.saKey != v.saKey {
			want = false
		}
	}
	saAssert(bool(m.Eq(n)) == want, "HashMap.Eq")`, 2),
				eqProbe("HashMapPermuted", "m HashMap[saM, saO]", `
	n := HashMapNew[saM, saO]()
	for k, v := range m.data {
		n.Insert(k, saO{v.saKey, saAny[int64]("tag")})
	}
	saAssert(m.Eq(n), "HashMap.Eq of maps with equal bindings")
	saAssert(n.Eq(m), "HashMap.Eq of maps with equal bindings, exchanged")`, 3),
				eqProbe("BTreeMap", "", `
	a, b := saAsc(saSize(0, 2)), saAsc(saSize(0, 2))
	m, n := BTreeMapNew[saO, saO](), BTreeMapNew[saO, saO]()
	var x, y []saO
	for _, k := range a {
		v := saAny[saO]("v")
		m.Insert(k, v)
		x = append(x, v)
	}
	for _, k := range b {
		v := saAny[saO]("w")
		n.Insert(k, v)
		y = append(y, v)
	}
	saAssert(bool(m.Eq(n)) == (saEqSeq(a, b) && saEqSeq(x, y)), "BTreeMap.Eq")`, 3),
				eqProbe("BTreeMapLarge", "d int", `
	m, n := BTreeMapNew[saO, saO](), BTreeMapNew[saO, saO]()
	at, kind := saPick(0, 12), saPick(0, 3)
	for i := 0; i < 13; i++ {
		m.Insert(saO{int64(i), 0}, saO{int64(i), 1})
		j := 12 - i
		k, v := int64(j), int64(j)
		if j == at {
			if kind == 1 {
				k += 100
			} else if kind == 2 {
				v++
			}
		}
		if j != at || kind != 3 {
			n.Insert(saO{k, 2}, saO{v, 3})
		}
	}
	saAssert(bool(m.Eq(n)) == (kind == 0), "BTreeMap.Eq of maps of thirteen bindings")
	saAssert(bool(n.Eq(m)) == (kind == 0), "BTreeMap.Eq of maps of thirteen bindings, exchanged")`, 3),
				eqProbe("Pair", "a, b Pair[saO, saO]", `
	saAssert(bool(a.Eq(b)) == (a.Key.saKey == b.Key.saKey && a.Value.saKey == b.Value.saKey), "Pair.Eq")
	want := OrderingEqual
	if a.Key.saKey < b.Key.saKey || a.Key.saKey == b.Key.saKey && a.Value.saKey < b.Value.saKey {
		want = OrderingLess
	} else if a.Key.saKey > b.Key.saKey || a.Value.saKey > b.Value.saKey {
		want = OrderingGreater
	}
	saAssert(a.Cmp(b) == want, "Pair.Cmp")`, 3),
			)
			return ps
		}})
}

// declC: elements whose clones are distinguishable: one generation later
const declC = declOpt + `
//--
type saC struct{ saKey, saGen int64 }
func (a saC) Cmp(b saC) Ordering {
	if a.saKey < b.saKey {
		return OrderingLess
	} else if a.saKey > b.saKey {
		return OrderingGreater
	}
	return OrderingEqual
}
func (a saC) Eq(b saC) Bool { return a.saKey == b.saKey }
func (a saC) Clone() saC { return saC{a.saKey, a.saGen + 1} }
func saSomeC(n int) []saC {
	d := make([]saC, n)
	for i := range d {
		d[i] = saAny[saC]("e")
		saAssume(d[i].saGen >= 0 && d[i].saGen < 1000)
	}
	return d
}
func saClones(d []saC) []saC {
	r := make([]saC, len(d))
	for i := range d {
		r[i] = saC{d[i].saKey, d[i].saGen + 1}
	}
	return r
}
func saIsSeqC(it Iterator[saC], want []saC, msg string) {
	for _, w := range want {
		r := it.Next()
		saAssert(r.IsSome(), "too few elements: "+msg)
		saAssert(saSame(r.Unwrap(), w), "wrong element: "+msg)
	}
	saIsNone(it.Next(), "too many elements: "+msg)
}
func saNoAlias[T any](a, b *T) bool { return a != b }
//--
func saAscC(n int) []saC {
	d := saSomeC(n)
	for i := range d {
		if i > 0 {
			saAssume(d[i-1].saKey < d[i].saKey)
		}
	}
	return d
}
`

func cloneProbe(name, sig, body string, size int) Probe {
	p := probe(name, "func PROBE("+sig+") {\n"+body+"\n}")
	p.decls = declC
	p.follow, p.sizes = 64, size
	return p
}

func init() {
	register(&Property{id: "K01", note: "clones of every container of up to three elements whose clones are distinguishable from them, then changed on either side; clones of every scalar",
		probes: func() []Probe {
			ps := []Probe{
				cloneProbe("Vec", "x saC", `
	d := saSomeC(saSize(0, 3))
	c0 := saPick(0, 1)
	b := make([]saC, len(d), len(d)+c0)
	copy(b, d)
	v := Vec[saC]{data: b}
	c := v.Clone()
	saIsSeqC(v.IntoIter(), d, "the original after Vec.Clone")
	saIsSeqC(c.IntoIter(), saClones(d), "Vec.Clone")
	if saPick(0, 1) == 0 {
		v.Push(x)
		if len(d) > 0 {
			v.SetUnchecked(0, x)
		}
		saIsSeqC(c.IntoIter(), saClones(d), "the clone after changes of the original (Vec)")
	} else {
		c.Push(x)
		if len(d) > 0 {
			c.SetUnchecked(USize(len(d)-1), x)
		}
		saIsSeqC(v.IntoIter(), d, "the original after changes of the clone (Vec)")
	}`, 3),
				cloneProbe("VecDeque", "x saC", `
	n := saSize(0, 3)
	cp := n + saPick(0, 1)
	if cp == 0 {
		cp = 1
	}
	h := saFew(0, cp-1)
	b := saSomeC(cp)
	d := make([]saC, n)
	for i := range d {
		d[i] = b[(h+i)%cp]
	}
	v := VecDeque[saC]{buffer: b, head: USize(h), len: USize(n)}
	c := v.Clone()
	saIsSeqC(v.IntoIter(), d, "the original after VecDeque.Clone")
	saIsSeqC(c.IntoIter(), saClones(d), "VecDeque.Clone")
	if saPick(0, 1) == 0 {
		v.PushBack(x)
		v.PushFront(x)
		v.SetUnchecked(1, x)
		saIsSeqC(c.IntoIter(), saClones(d), "the clone after changes of the original (VecDeque)")
	} else {
		c.PushFront(x)
		c.PushBack(x)
		c.SetUnchecked(1, x)
		saIsSeqC(v.IntoIter(), d, "the original after changes of the clone (VecDeque)")
	}`, 3),
				cloneProbe("LinkedList", "x saC", `
	d := saSomeC(saSize(0, 3))
	v := LinkedListNew[saC]()
	for _, e := range d {
		v.PushBack(e)
	}
	c := v.Clone()
	saIsSeqC(v.IntoIter(), d, "the original after LinkedList.Clone")
	saIsSeqC(c.IntoIter(), saClones(d), "LinkedList.Clone")
	saAssert(c.Len() == v.Len(), "LinkedList.Clone: wrong length")
	if saPick(0, 1) == 0 {
		v.PushBack(x)
		*v.Front().Unwrap() = x
		saIsSeqC(c.IntoIter(), saClones(d), "the clone after changes of the original (LinkedList)")
	} else {
		c.PushFront(x)
		*c.Back().Unwrap() = x
		saIsSeqC(v.IntoIter(), d, "the original after changes of the clone (LinkedList)")
	}`, 3),
				cloneProbe("HashMap", "m HashMap[saC, saE], x saC, y saE", `
	c := m.Clone()
	saAssert(c.Len() == m.Len(), "HashMap.Clone: wrong length")
	for k, v := range m.data {
		w, ok := c.data[k.Clone()]
		saAssert(ok, "HashMap.Clone lacks the clone of a key")
		saAssert(saSame(w, v.Clone()), "HashMap.Clone: not the clone of the value")
	}
	n := c.Len()
	if saPick(0, 1) == 0 {
		m.Clear()
		saAssert(c.Len() == n, "the clone after Clear of the original (HashMap)")
	} else {
		old, had := m.data[x]
		c.Insert(x, y)
		now, has := m.data[x]
		saAssert(had == has && m.Len() == n, "the original after an insert into the clone (HashMap)")
		if has {
			saAssert(saSame(now, old), "a value of the original after an insert into the clone (HashMap)")
		}
	}`, 3),
				cloneProbe("HashSet", "s HashSet[saC], x saC", `
	c := s.Clone()
	saAssert(c.Len() == s.Len(), "HashSet.Clone: wrong length")
	for k := range s.hashMap.data {
		saAssert(c.Contains(k.Clone()), "HashSet.Clone lacks the clone of an element")
	}
	n := c.Len()
	if saPick(0, 1) == 0 {
		s.Clear()
		saAssert(c.Len() == n, "the clone after Clear of the original (HashSet)")
	} else {
		had := s.Contains(x)
		c.Insert(x)
		saAssert(s.Contains(x) == had && s.Len() == n, "the original after an insert into the clone (HashSet)")
	}`, 3),
				cloneProbe("BTreeSet", "x saC", `
	d := saAscC(saSize(0, 3))
	s := BTreeSetNew[saC]()
	for _, e := range d {
		s.Insert(e)
	}
	c := s.Clone()
	saIsSeqC(s.IntoIter(), d, "the original after BTreeSet.Clone")
	saIsSeqC(c.IntoIter(), saClones(d), "BTreeSet.Clone")
	saAssert(c.Len() == USize(len(d)), "BTreeSet.Clone: wrong length")
	if saPick(0, 1) == 0 {
		s.Insert(x)
		if len(d) > 0 {
			s.Remove(d[0])
		}
		saIsSeqC(c.IntoIter(), saClones(d), "the clone after changes of the original (BTreeSet)")
	} else {
		c.Insert(x)
		if len(d) > 0 {
			c.Remove(d[0])
		}
		saIsSeqC(s.IntoIter(), d, "the original after changes of the clone (BTreeSet)")
	}`, 3),
				cloneProbe("BTreeSetLarge", "", `
	s := BTreeSetNew[saC]()
	n := saPick(10, 14)
	var d []saC
	for i := 0; i < n; i++ {
		d = append(d, saC{int64(i), 0})
		s.Insert(d[i])
	}
	c := s.Clone()
	saIsSeqC(c.IntoIter(), saClones(d), "BTreeSet.Clone of more than a node")
	c.Clear()
	saIsSeqC(s.IntoIter(), d, "the original after Clear of the clone (BTreeSet)")`, 3),
				cloneProbe("Pair", "p Pair[saC, saE]", `
	c := p.Clone()
	saAssert(saSame(c.Key, p.Key.Clone()), "Pair.Clone: key")
	saAssert(saSame(c.Value, p.Value.Clone()), "Pair.Clone: value")`, 3),
				cloneProbe("Option", "v, x saE", `
	o := Some(v)
	c := o.Clone()
	saIsSome(c, v.Clone(), "Option.Clone")
	if saPick(0, 1) == 0 {
		*o.AsRef().value = x
		saIsSome(c, v.Clone(), "the clone after a change of the original (Option)")
	} else {
		*c.AsRef().value = x
		saIsSome(o, v, "the original after a change of the clone (Option)")
	}
	n := None[saE]()
	saIsNone(n.Clone(), "Clone of None")`, 3),
				cloneProbe("Result", "v, x saE, e error", `
	o := Ok(v)
	c := o.Clone()
	saIsOk(c, v.Clone(), "Result.Clone")
	if saPick(0, 1) == 0 {
		*o.AsRef().ok = x
		saIsOk(c, v.Clone(), "the clone after a change of the original (Result)")
	} else {
		*c.AsRef().ok = x
		saIsOk(o, v, "the original after a change of the clone (Result)")
	}
	f := Err[saE](e)
	saIsErr(f.Clone(), e, "Clone of Err")`, 3),
			}
			for _, t := range cloneTypes {
				ps = append(ps, cloneProbe("Scalar_"+t, "v "+t, `
	saAssert(saSame(v.Clone(), v), "Clone of a scalar")`, 3))
			}
			return ps
		}})
}

var cloneTypes = []string{"ISize", "I8", "I16", "I32", "I64", "USize", "U8", "U16", "U32", "U64", "F32", "F64", "Byte", "Char", "String", "Bool", "Complex64", "Complex128"}
