package main

// declL: well-formed lists with unknown elements
const declL = declOpt + `
//--
func saList(n int) (LinkedList[saE], []saE) {
	var l LinkedList[saE]
	vals := make([]saE, n)
	for i := 0; i < n; i++ {
		v := saAny[saE]("e")
		vals[i] = v
		nd := &LinkedListNode[saE]{value: v, prev: l.tail}
		if l.tail == nil {
			l.head = nd
		} else {
			l.tail.next = nd
		}
		l.tail = nd
		l.len++
	}
	return l, vals
}
func saIsList[T any](l *LinkedList[T], want []T, msg string) {
	saAssert(l.Len() == USize(len(want)), "wrong length: "+msg)
	saAssert(bool(l.IsEmpty()) == (len(want) == 0), "wrong emptiness: "+msg)
	p := l.head
	var last *LinkedListNode[T]
	for i := 0; i < len(want); i++ {
		saAssert(p != nil, "the next links end early: "+msg)
		saAssert(p.prev == last, "a previous link does not mirror the next link: "+msg)
		saAssert(saSame(p.value, want[i]), "wrong element: "+msg)
		last = p
		p = p.next
	}
	saAssert(p == nil, "the next links do not end: "+msg)
	saAssert(l.tail == last, "the tail is not the last node: "+msg)
}
`

func listProbe(name, sig, body string, size int) Probe {
	p := probe(name, "func PROBE("+sig+") {\n"+body+"\n}")
	p.decls = declL
	p.follow, p.sizes = 64, size
	return p
}

// declO: elements ordered by a key, equal keys told apart by a tag
const declO = declOpt + `
//--
type saO struct{ saKey, saTag int64 }
func (a saO) Cmp(b saO) Ordering {
	if a.saKey < b.saKey {
		return OrderingLess
	} else if a.saKey > b.saKey {
		return OrderingGreater
	}
	return OrderingEqual
}
func (a saO) Eq(b saO) Bool { return a.saKey == b.saKey }
func (a saO) Clone() saO { return a }
func (a saO) Display() String
func (a saO) Debug() String
// saHeap: any heap of n elements
func saHeap(n int) BinaryHeap[saO] {
	d := make([]saO, n)
	for i := range d {
		d[i] = saAny[saO]("e")
		if i > 0 {
			saAssume(d[i].saKey <= d[(i-1)/2].saKey)
		}
	}
	return BinaryHeap[saO]{vec: Vec[saO]{data: d}}
}
func saIsHeap(h *BinaryHeap[saO], msg string) {
	d := h.vec.data
	for i := 1; i < len(d); i++ {
		saAssert(d[i].saKey <= d[(i-1)/2].saKey, "the heap order is broken: "+msg)
	}
}
func saCopy(d []saO) []saO {
	r := make([]saO, len(d))
	for i, x := range d {
		r[i] = x
	}
	return r
}
`

func heapProbe(name, sig, body string, size int) Probe {
	p := probe(name, "func PROBE("+sig+") {\n"+body+"\n}")
	p.decls = declO
	p.follow, p.sizes = 64, size
	return p
}

func init() {
	register(&Property{id: "L01", nilable: true, note: "the LinkedList operations on every well-formed list of up to three nodes with unknown elements, checking every link",
		probes: func() []Probe {
			return []Probe{
				listProbe("New", "", `
	l := LinkedListNew[saE]()
	saIsList(&l, nil, "LinkedListNew")`, 3),
				listProbe("PushBack", "x saE", `
	l, old := saList(saSize(0, 3))
	l.PushBack(x)
	saIsList(&l, append(old, x), "PushBack")`, 3),
				listProbe("PushFront", "x saE", `
	l, old := saList(saSize(0, 3))
	l.PushFront(x)
	saIsList(&l, append([]saE{x}, old...), "PushFront")`, 3),
				listProbe("PopBack", "", `
	l, old := saList(saSize(0, 4))
	r := l.PopBack()
	if len(old) == 0 {
		saIsNone(r, "PopBack of an empty list")
		saIsList(&l, nil, "PopBack of an empty list")
	} else {
		saIsSome(r, old[len(old)-1], "PopBack")
		saIsList(&l, old[:len(old)-1], "PopBack")
	}`, 3),
				listProbe("PopFront", "", `
	l, old := saList(saSize(0, 4))
	r := l.PopFront()
	if len(old) == 0 {
		saIsNone(r, "PopFront of an empty list")
		saIsList(&l, nil, "PopFront of an empty list")
	} else {
		saIsSome(r, old[0], "PopFront")
		saIsList(&l, old[1:], "PopFront")
	}`, 3),
				listProbe("Ends", "x saE", `
	l, old := saList(saSize(0, 3))
	f, b := l.Front(), l.Back()
	if len(old) == 0 {
		saAssert(bool(f.IsNone()) && bool(b.IsNone()), "Front or Back of an empty list")
	} else {
		saAssert(f.IsSome(), "Front is None")
		saAssert(b.IsSome(), "Back is None")
		saAssert(saSame(*f.Unwrap(), old[0]), "Front is not the first element")
		saAssert(saSame(*b.Unwrap(), old[len(old)-1]), "Back is not the last element")
		*f.Unwrap() = x
		old[0] = x
	}
	saIsList(&l, old, "Front and Back, after writing through Front")`, 3),
				listProbe("BackRef", "x saE", `
	l, old := saList(saSize(1, 3))
	*l.Back().Unwrap() = x
	old[len(old)-1] = x
	saIsList(&l, old, "writing through Back")`, 3),
				listProbe("Append", "x saE", `
	l, a := saList(saSize(0, 3))
	m, b := saList(saSize(0, 3))
	l.Append(&m)
	a = append(a, b...)
	saIsList(&l, a, "Append")
	saIsList(&m, nil, "the list that Append moved from")
	m.PushBack(x)
	saIsList(&m, []saE{x}, "a push to the list that Append moved from")
	saIsList(&l, a, "Append, after a push to the other list")`, 3),
				listProbe("Clear", "x saE", `
	l, _ := saList(saSize(0, 3))
	l.Clear()
	saIsList(&l, nil, "Clear")
	l.PushFront(x)
	saIsList(&l, []saE{x}, "a push after Clear")`, 3),
				listProbe("Iter", "x saE", `
	l, old := saList(saSize(0, 3))
	it := l.IntoIter()
	for _, v := range old {
		saIsSome(it.Next(), v, "iteration")
	}
	saIsNone(it.Next(), "past the end")
	saIsNone(it.Next(), "past the end, again")
	saIsList(&l, old, "iteration")`, 3),
				listProbe("AsRef", "x saE", `
	l, old := saList(saSize(0, 3))
	saIsList(l.AsRef(), old, "AsRef")`, 3),
			}
		},
	})
	register(&Property{id: "H01", note: "the BinaryHeap operations on every heap of up to eight elements with any keys, equal ones told apart",
		probes: func() []Probe {
			return []Probe{
				heapProbe("New", "n USize, x saO", `
	saAssume(n <= 1<<40)
	a := BinaryHeapNew[saO]()
	saAssert(a.Len() == 0 && bool(a.IsEmpty()), "BinaryHeapNew is not empty")
	b := BinaryHeapWithCapacity[saO](n)
	saAssert(b.Len() == 0 && bool(b.IsEmpty()), "BinaryHeapWithCapacity is not empty")
	saAssert(b.Capacity() >= n, "BinaryHeapWithCapacity has too small a capacity")
	c := BinaryHeapWithLen[saO](n)
	saAssert(c.Len() == n, "BinaryHeapWithLen has another length")
	b.Push(x)
	saAssert(b.Len() == 1 && !bool(b.IsEmpty()), "Push to a new heap")
	saIsSome(b.Pop(), x, "Pop after Push to a new heap")`, 3),
				heapProbe("Query", "", `
	h := saHeap(saSize(0, 6))
	d := saCopy(h.vec.data)
	saAssert(h.Len() == USize(len(d)), "Len")
	saAssert(bool(h.IsEmpty()) == (len(d) == 0), "IsEmpty")
	saAssert(h.Capacity() >= h.Len(), "Capacity below the length")
	saAssert(saPerm(h.AsSlice(), d), "AsSlice holds other elements")
	h.Reserve(10)
	saAssert(h.Capacity() >= 10, "Reserve leaves too small a capacity")
	saAssert(h.Len() == USize(len(d)), "Reserve changes the length")
	saAssert(saPerm(h.vec.data, d), "Reserve changes the elements")
	saIsHeap(&h, "Reserve")
	v := h.IntoVec()
	saAssert(saPerm(v.data, d), "IntoVec holds other elements")`, 3),
				heapProbe("Push", "x saO", `
	h := saHeap(saSize(0, 8))
	d := saCopy(h.vec.data)
	h.Push(x)
	saAssert(h.Len() == USize(len(d)+1), "Push: wrong length")
	saAssert(saPerm(h.vec.data, append(d, x)), "Push loses or duplicates an element")
	saIsHeap(&h, "Push")`, 3),
				heapProbe("Pop", "", `
	h := saHeap(saSize(0, 8))
	d := saCopy(h.vec.data)
	r := h.Pop()
	if len(d) == 0 {
		saAssert(r.IsNone(), "Pop of an empty heap")
		saAssert(h.Len() == 0, "Pop of an empty heap: length")
	} else {
		saAssert(r.IsSome(), "Pop is None")
		x := r.Unwrap()
		for _, y := range d {
			saAssert(y.saKey <= x.saKey, "Pop does not return a greatest element")
		}
		saAssert(h.Len() == USize(len(d)-1), "Pop: wrong length")
		saAssert(saPerm(append(saCopy(h.vec.data), x), d), "Pop loses or duplicates an element")
		saIsHeap(&h, "Pop")
	}`, 3),
				heapProbe("Append", "x saO", `
	a, b := saHeap(saSize(0, 3)), saHeap(saSize(0, 3))
	d := append(saCopy(a.vec.data), b.vec.data...)
	a.Append(&b)
	saAssert(a.Len() == USize(len(d)), "Append: wrong length")
	saAssert(saPerm(a.vec.data, d), "Append loses or duplicates an element")
	saIsHeap(&a, "Append")
	saAssert(b.Len() == 0, "Append leaves elements in the other heap")
	b.Push(x)
	saAssert(saPerm(a.vec.data, d), "the heaps share storage after Append")`, 3),
				heapProbe("Clear", "x saO", `
	h := saHeap(saSize(0, 4))
	h.Clear()
	saAssert(h.Len() == 0 && bool(h.IsEmpty()), "Clear leaves elements")
	saAssert(h.Pop().IsNone(), "Pop after Clear")
	h.Push(x)
	saIsSome(h.Pop(), x, "Pop after Clear and Push")`, 3),
				heapProbe("IntoSortedVec", "", `
	h := saHeap(saSize(0, 5))
	d := saCopy(h.vec.data)
	v := h.IntoSortedVec()
	saAssert(v.Len() == USize(len(d)), "IntoSortedVec: wrong length")
	saAssert(saPerm(v.data, d), "IntoSortedVec loses or duplicates an element")
	for i := 1; i < len(v.data); i++ {
		saAssert(v.data[i-1].saKey <= v.data[i].saKey, "IntoSortedVec is not ascending")
	}`, 3),
			}
		},
	})
}
