package main

import "fmt"

// declI: reference runs over iterators. Every helper first consumes c
// elements, then compares what the adapter does with the rest. A container
// without an order (ord false) gives its elements in any order.
const declI = declMapIs + declM + declL + `
//--
func saDrain[T any](it Iterator[T], n int, msg string) []T {
	var got []T
	for i := 0; i < n; i++ {
		r := it.Next()
		saAssert(r.IsSome(), "the iterator ends early: "+msg)
		got = append(got, r.Unwrap())
	}
	saIsNone(it.Next(), "the iterator continues past the last element: "+msg)
	saIsNone(it.Next(), "the iterator starts again: "+msg)
	return got
}
//--
func saTake[T any](it Iterator[T], c int, msg string) []T {
	var got []T
	for i := 0; i < c; i++ {
		r := it.Next()
		saAssert(r.IsSome(), "the iterator ends early: "+msg)
		got = append(got, r.Unwrap())
	}
	return got
}
//--
// saAll: got is want, in its order if there is one
func saAll[T any](got, want []T, ord bool, msg string) {
	saAssert(len(got) == len(want), "wrong number of elements: "+msg)
	if ord {
		for i := range want {
			saAssert(saSame(got[i], want[i]), "wrong element or order: "+msg)
		}
	} else {
		saAssert(saPerm(got, want), "wrong elements: "+msg)
	}
}
//--
func saListed[T any](l *LinkedList[T], msg string) []T {
	var got []T
	var last *LinkedListNode[T]
	for p := l.head; p != nil; p = p.next {
		saAssert(p.prev == last, "a previous link does not mirror the next link: "+msg)
		got = append(got, p.value)
		last = p
	}
	saAssert(l.tail == last, "the tail is not the last node: "+msg)
	saAssert(l.Len() == USize(len(got)), "wrong length: "+msg)
	return got
}
//--
func saItNext[T any](mk func() Iterator[T], d []T, ord bool, c int) {
	a, b := mk(), mk()
	got := saTake(a, c, "Next")
	saAll(saDrain(b, len(d), "a second iterator"), d, ord, "a second iterator after steps of the first")
	got = append(got, saDrain(a, len(d)-c, "Next")...)
	saAll(got, d, ord, "Next")
	saAll(saDrain(mk(), len(d), "a later iterator"), d, ord, "a later iterator: the container changed")
}
//--
func saItMap[T any](mk func() Iterator[T], d []T, ord bool, c int, f func(T) T) {
	it := mk()
	got := saTake(it, c, "Map")
	var res []T
	r := saDrain(it.Map(func(x T) T {
		y := f(x)
		got = append(got, x)
		res = append(res, y)
		return y
	}), len(d)-c, "Map")
	saAll(got, d, ord, "the elements Map passes to the function")
	saAll(r, res, true, "the results of Map")
	saAll(saDrain(mk(), len(d), "Map"), d, ord, "the container after Map")
}
//--
func saItFilter[T any](mk func() Iterator[T], d []T, ord bool, c int, f func(T) Bool) {
	it := mk()
	got := saTake(it, c, "Filter")
	var res []T
	r := it.Filter(func(x T) Bool {
		y := f(x)
		got = append(got, x)
		if y {
			res = append(res, x)
		}
		return y
	}).CollectToVec()
	saAll(got, d, ord, "the elements Filter passes to the function")
	saAll(r.AsSlice(), res, true, "the results of Filter")
	saAll(saDrain(mk(), len(d), "Filter"), d, ord, "the container after Filter")
}
//--
func saItFold[T any](mk func() Iterator[T], d []T, ord bool, c int, f func(T, T) T, z T) {
	it := mk()
	got := saTake(it, c, "Fold")
	acc := z
	r := it.Fold(z, func(a, x T) T {
		saAssert(saSame(a, acc), "Fold passes a wrong accumulator")
		acc = f(a, x)
		got = append(got, x)
		return acc
	})
	saAll(got, d, ord, "the elements Fold passes to the function")
	saAssert(saSame(r, acc), "the result of Fold")
	saAll(saDrain(mk(), len(d), "Fold"), d, ord, "the container after Fold")
}
//--
func saItRev[T any](mk func() Iterator[T], d []T, ord bool, c int) {
	it := mk()
	got := saTake(it, c, "Rev")
	n := len(d) - c
	// whether adapters leave the iterator where it is
	v := it.CollectToVec()
	w := it.CollectToVec()
	if n > 0 && w.Len() == 0 {
		it = mk()
		got = saTake(it, c, "Rev")
		v = Vec[T]{}
	}
	r := saDrain(it.Rev(), n, "Rev")
	for i := 0; i < n; i++ {
		if v.Len() > 0 {
			saAssert(saSame(r[n-1-i], v.AsSlice()[i]), "wrong element or order: Rev")
		}
		got = append(got, r[n-1-i])
	}
	saAll(got, d, ord, "Rev")
	saAll(saDrain(mk(), len(d), "Rev"), d, ord, "the container after Rev")
}
//--
func saItCollect[T any](mk func() Iterator[T], d []T, ord bool, c int, z T) {
	it := mk()
	got := saTake(it, c, "CollectToVec")
	v := it.CollectToVec()
	saAssert(v.Len() == USize(len(d)-c), "CollectToVec: wrong length")
	got = append(got, v.AsSlice()...)
	saAll(got, d, ord, "CollectToVec")
	it = mk()
	got = saTake(it, c, "CollectToLinkedList")
	l := it.CollectToLinkedList()
	got = append(got, saListed(&l, "CollectToLinkedList")...)
	saAll(got, d, ord, "CollectToLinkedList")
	// what was collected is not the container
	for i := range v.AsSlice() {
		v.AsSlice()[i] = z
	}
	v.Push(z)
	for p := l.head; p != nil; p = p.next {
		p.value = z
	}
	l.PushBack(z)
	saAll(saDrain(mk(), len(d), "a collection"), d, ord, "the container after changes of what was collected")
}
//--
// the iterator an adapter returns is an iterator again
func saItChain[T any](mk func() Iterator[T], d []T, ord bool, c, k int, f func(T) T) {
	it := mk()
	got := saTake(it, c, "Map and Rev")
	n := len(d) - c
	var res []T
	m := it.Map(func(x T) T {
		y := f(x)
		got = append(got, x)
		res = append(res, y)
		return y
	})
	var r []T
	if k <= n {
		r = saTake(m, k, "a step of the iterator from Map")
	} else {
		k = 0
	}
	r2 := saDrain(m.Rev(), n-k, "Map and Rev")
	for i := 0; i < n-k; i++ {
		r = append(r, r2[n-k-1-i])
	}
	saAll(got, d, ord, "the elements Map passes to the function")
	saAll(r, res, true, "Rev of what is left of Map")
}
//--
func saItRevRev[T any](mk func() Iterator[T], d []T, ord bool, c int) {
	it := mk().Rev()
	r := saTake(it, c, "Rev")
	v := it.CollectToVec()
	r = append(r, v.AsSlice()...)
	var back []T
	for i := range r {
		back = append(back, r[len(r)-1-i])
	}
	saAll(back, d, ord, "what is left of Rev, collected")
	it = mk().Rev()
	r = saTake(it, c, "Rev")
	it = it.Rev()
	r = append(r, saDrain(it, len(d)-c, "Rev of what is left of Rev")...)
	if ord {
		for i := range d {
			want := i - c
			if i < c {
				want = len(d) - 1 - i
			}
			saAssert(saSame(r[i], d[want]), "wrong element or order: Rev of what is left of Rev")
		}
	} else {
		saAll(r, d, ord, "Rev of what is left of Rev")
	}
}
//--
func saSeqI(n int) (Vec[saE], []saE) {
	d := make([]saE, n)
	e := make([]saE, n)
	for i := range d {
		d[i] = saAny[saE]("e")
		e[i] = d[i]
	}
	return Vec[saE]{data: d}, e
}
//--
func saDequeI(n int) (VecDeque[saE], []saE) {
	c := n + saPick(0, 1)
	if c == 0 {
		c = 1
	}
	b := make([]saE, c)
	e := make([]saE, n)
	for i := range b {
		b[i] = saAny[saE]("e")
	}
	h := saFew(0, c-1)
	for i := range e {
		e[i] = b[(h+i)%c]
	}
	return VecDeque[saE]{buffer: b, head: USize(h), len: USize(n)}, e
}
//--
func saKeysI(m saMap) (d []saM) {
	for k := range m.data {
		d = append(d, k)
	}
	return
}
func saValsI(m saMap) (d []saE) {
	for _, v := range m.data {
		d = append(d, v)
	}
	return
}
func saPairsI(m saMap) (d []Pair[saM, saE]) {
	for k, v := range m.data {
		d = append(d, Pair[saM, saE]{Key: k, Value: v})
	}
	return
}
func saMembersI(s saSet) (d []saM) {
	for k := range s.hashMap.data {
		d = append(d, k)
	}
	return
}
func saBindsI(n int) (saTM, []Pair[saO, saE]) {
	m, all := saTree(saFlat(n), false)
	var d []Pair[saO, saE]
	for _, e := range all {
		d = append(d, Pair[saO, saE]{Key: e.k, Value: e.v})
	}
	return m, d
}
func saBindKeysI(n int) (saTM, []saO) {
	m, all := saTree(saFlat(n), false)
	var d []saO
	for _, e := range all {
		d = append(d, e.k)
	}
	return m, d
}
func saBindValsI(n int) (saTM, []saE) {
	m, all := saTree(saFlat(n), false)
	var d []saE
	for _, e := range all {
		d = append(d, e.v)
	}
	return m, d
}
func saTSetI(n int) (saTSet, []saO) {
	d := saAsc(n)
	return saTSetOf(d), d
}
`

type iterSource struct {
	name, param, typ, pre, it string
	ord                       bool
}

func iterSources() []iterSource {
	return []iterSource{
		{"Vec", "", "saE", "v, d := saSeqI(saSize(0, 3))", "v.IntoIter()", true},
		{"VecDeque", "", "saE", "v, d := saDequeI(saSize(0, 3))", "v.IntoIter()", true},
		{"LinkedList", "", "saE", "v, d := saList(saSize(0, 3))", "v.IntoIter()", true},
		{"HashMap", "m saMap", "Pair[saM, saE]", "d := saPairsI(m)", "m.IntoIter()", false},
		{"HashMapKeys", "m saMap", "saM", "d := saKeysI(m)", "m.Keys()", false},
		{"HashMapValues", "m saMap", "saE", "d := saValsI(m)", "m.Values()", false},
		{"BTreeMap", "", "Pair[saO, saE]", "m, d := saBindsI(saSize(0, 3))", "m.IntoIter()", true},
		{"BTreeMapKeys", "", "saO", "m, d := saBindKeysI(saSize(0, 3))", "m.Keys()", true},
		{"BTreeMapValues", "", "saE", "m, d := saBindValsI(saSize(0, 3))", "m.Values()", true},
		{"BTreeSet", "", "saO", "s, d := saTSetI(saSize(0, 3))", "s.IntoIter()", true},
		{"HashSet", "s saSet", "saM", "d := saMembersI(s)", "s.IntoIter()", false},
	}
}

func iterProbe(name, sig, body string) Probe {
	p := probe(name, "func PROBE("+sig+") {\n"+body+"\n}")
	p.decls = declI
	p.follow, p.sizes = 64, 3
	return p
}

func init() {
	join := func(a, b string) string {
		if a == "" || b == "" {
			return a + b
		}
		return a + ", " + b
	}
	register(&Property{id: "I01", nilable: true, note: "iterators of every container of up to three elements, stepped to every position while another iterator runs",
		probes: func() []Probe {
			var ps []Probe
			for _, s := range iterSources() {
				ps = append(ps, iterProbe(s.name, s.param, fmt.Sprintf(`
	%s
	saItNext(func() Iterator[%s] { return %s }, d, %v, saFew(0, len(d)))`, s.pre, s.typ, s.it, s.ord)))
			}
			return ps
		}})
	register(&Property{id: "I02", note: "every adapter after every number of steps, with any function, on every container of up to three elements",
		probes: func() []Probe {
			var ps []Probe
			for _, s := range iterSources() {
				for _, a := range []struct{ name, sig, args string }{
					{"Map", "f func(T) T", "f"},
					{"Filter", "f func(T) Bool", "f"},
					{"Fold", "f func(T, T) T, z T", "f, z"},
					{"Rev", "", ""},
					{"Collect", "z T", "z"},
					{"Chain", "f func(T) T", "saPick(0, 1), f"},
					{"RevRev", "", ""},
				} {
					sig := ""
					for i, c := range a.sig {
						if c == 'T' && (i+1 == len(a.sig) || a.sig[i+1] < 'a') {
							sig += s.typ
						} else {
							sig += string(c)
						}
					}
					p := iterProbe(s.name+a.name, join(s.param, sig), fmt.Sprintf(`
	%s
	saIt%s(func() Iterator[%s] { return %s }, d, %s)`, s.pre, a.name, s.typ, s.it, join(fmt.Sprintf("%v, saFew(0, len(d))", s.ord), a.args)))
					if !s.ord && (a.name == "Chain" || a.name == "RevRev") {
						// every order of a third element would take minutes
						p.sizes = 2
					}
					ps = append(ps, p)
				}
			}
			return ps
		}})
}
