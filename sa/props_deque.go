package main

// declDq: ring buffers in any state that the representation allows, and their
// logical content
const declDq = declO + declSeq + declSorted + `
//--
func saRing(d *VecDeque[saE]) {
	saAssume(len(d.buffer) >= 1 && len(d.buffer) <= 1<<40)
	saAssume(d.head < USize(len(d.buffer)))
	saAssume(d.len <= USize(len(d.buffer)))
}
func saAt[T any](d *VecDeque[T], j USize) T {
	p := d.head + j
	if p >= USize(len(d.buffer)) {
		p -= USize(len(d.buffer))
	}
	return d.buffer[p]
}
func saOldDq(d *VecDeque[saE]) []saE {
	saRing(d)
	old := make([]saE, d.len)
	for j := range old {
		p := d.head + USize(j)
		if p >= USize(len(d.buffer)) {
			p -= USize(len(d.buffer))
		}
		old[j] = d.buffer[p]
	}
	return old
}
// saRingO: any ring of up to four ordered elements
func saRingO() (VecDeque[saO], int) {
	c := saSize(1, 4)
	b := make([]saO, c)
	for i := range b {
		b[i] = saAny[saO]("e")
	}
	n := saFew(0, c)
	return VecDeque[saO]{buffer: b, head: USize(saFew(0, c-1)), len: USize(n)}, n
}
func saCopyDqO(d *VecDeque[saO]) []saO {
	r := make([]saO, d.len)
	for j := range r {
		r[j] = saAt(d, USize(j))
	}
	return r
}
func saIsSortedDqO(d *VecDeque[saO], old []saO, msg string) {
	saAssert(d.Len() == USize(len(old)), "wrong length: "+msg)
	got := saCopyDqO(d)
	saAssert(saPerm(got, old), "an element is lost or duplicated: "+msg)
	for j := 1; j < len(got); j++ {
		saAssert(got[j-1].saKey <= got[j].saKey, "not ascending: "+msg)
	}
}
func saIsDq[T any](d *VecDeque[T], want []T, i int, msg string) {
	saAssert(len(d.buffer) >= 1, "no storage left: "+msg)
	saAssert(d.head < USize(len(d.buffer)), "the head is outside the storage: "+msg)
	saAssert(d.len <= USize(len(d.buffer)), "longer than the storage: "+msg)
	saAssert(d.Len() == USize(len(want)), "wrong length: "+msg)
	if i >= 0 && i < len(want) {
		saAssert(saSame(saAt(d, USize(i)), want[i]), "wrong element: "+msg)
	}
}
`

func dqProbe(name, sig, body string) Probe {
	p := probe(name, "func PROBE("+sig+") {\n"+body+"\n}")
	p.decls = declDq
	p.follow, p.sizes = 64, 6
	return p
}

func withSizes(n int, p Probe) Probe {
	p.sizes = n
	return p
}

func init() {
	register(&Property{id: "D01", nilable: true, note: "the end operations of VecDeque on every ring state (any capacity, head and length), compared at an unknown logical position with the sequence operation",
		probes: func() []Probe {
			return []Probe{
				dqProbe("New", "n USize, i int", `
	saAssume(n <= 1<<40)
	a := VecDequeNew[saE]()
	saIsDq(&a, nil, i, "VecDequeNew")
	b := VecDequeWithCapacity[saE](n)
	saIsDq(&b, nil, i, "VecDequeWithCapacity")
	saAssert(b.Capacity() >= n, "VecDequeWithCapacity has too small a capacity")
	c := VecDequeWithLen[saE](n)
	saIsDq(&c, make([]saE, n), i, "VecDequeWithLen")`),
				dqProbe("PushBack", "d VecDeque[saE], x saE, i int", `
	old := saOldDq(&d)
	d.PushBack(x)
	saIsDq(&d, append(old, x), i, "PushBack")`),
				dqProbe("PushFront", "d VecDeque[saE], x saE, i int", `
	old := saOldDq(&d)
	d.PushFront(x)
	saIsDq(&d, append([]saE{x}, old...), i, "PushFront")`),
				dqProbe("PopBack", "d VecDeque[saE], i int", `
	old := saOldDq(&d)
	r := d.PopBack()
	if len(old) == 0 {
		saIsNone(r, "PopBack of an empty deque")
		saIsDq(&d, old, i, "PopBack of an empty deque")
	} else {
		saIsSome(r, old[len(old)-1], "PopBack")
		saIsDq(&d, old[:len(old)-1], i, "PopBack")
	}`),
				dqProbe("PopFront", "d VecDeque[saE], i int", `
	old := saOldDq(&d)
	r := d.PopFront()
	if len(old) == 0 {
		saIsNone(r, "PopFront of an empty deque")
		saIsDq(&d, old, i, "PopFront of an empty deque")
	} else {
		saIsSome(r, old[0], "PopFront")
		saIsDq(&d, old[1:], i, "PopFront")
	}`),
			}
		},
	})
	register(&Property{id: "D02", nilable: true, note: "the positional operations of VecDeque on every ring state, compared at an unknown logical position",
		probes: func() []Probe {
			return []Probe{
				dqProbe("Query", "d VecDeque[saE], i int", `
	old := saOldDq(&d)
	saAssert(d.Len() == USize(len(old)), "Len")
	saAssert(bool(d.IsEmpty()) == (len(old) == 0), "IsEmpty")
	saAssert(d.Capacity() >= d.Len(), "Capacity below the length")
	if len(old) == 0 {
		saIsNone(d.Front(), "Front of an empty deque")
		saIsNone(d.Back(), "Back of an empty deque")
	} else {
		saIsSome(d.Front(), old[0], "Front")
		saIsSome(d.Back(), old[len(old)-1], "Back")
	}
	saIsDq(&d, old, i, "queries")`),
				dqProbe("Get", "d VecDeque[saE], at USize, i int", `
	old := saOldDq(&d)
	r := d.Get(at)
	if at < d.Len() {
		saIsSome(r, old[at], "Get")
		saAssert(saSame(d.GetUnchecked(at), old[at]), "GetUnchecked")
	} else {
		saIsNone(r, "Get out of range")
	}
	saIsDq(&d, old, i, "Get")`),
				dqProbe("Set", "d VecDeque[saE], at USize, x saE, i int", `
	old := saOldDq(&d)
	r := d.Set(at, x)
	if at < d.Len() {
		saIsNone(r, "Set")
		old[at] = x
	} else {
		saIsSome(r, x, "Set out of range gives the value back")
	}
	saIsDq(&d, old, i, "Set")`),
				dqProbe("SetUnchecked", "d VecDeque[saE], at USize, x saE, i int", `
	old := saOldDq(&d)
	saAssume(at < d.Len())
	d.SetUnchecked(at, x)
	old[at] = x
	saIsDq(&d, old, i, "SetUnchecked")`),
				dqProbe("Swap", "d VecDeque[saE], a, b USize, i int", `
	old := saOldDq(&d)
	saAssume(a < d.Len() && b < d.Len())
	d.Swap(a, b)
	x, y := old[a], old[b]
	old[a] = y
	old[b] = x
	saIsDq(&d, old, i, "Swap")`),
				dqProbe("AsSlice", "d VecDeque[saE], i int", `
	old := saOldDq(&d)
	s := d.AsSlice()
	saAssert(len(s) == len(old), "AsSlice has another length")
	if i >= 0 && i < len(old) {
		saAssert(saSame(s[i], old[i]), "AsSlice: wrong element")
	}
	saIsDq(&d, old, i, "AsSlice")`),
				dqProbe("Reserve", "d VecDeque[saE], add USize, i int", `
	old := saOldDq(&d)
	saAssume(add <= 1<<40)
	d.Reserve(add)
	saAssert(d.Capacity() >= d.Len()+add, "Reserve leaves too small a capacity")
	saIsDq(&d, old, i, "Reserve")`),
				dqProbe("Clear", "d VecDeque[saE], i int", `
	saRing(&d)
	d.Clear()
	saIsDq(&d, nil, i, "Clear")`),
			}
		},
	})
	register(&Property{id: "D03", nilable: true, note: "the bulk operations of VecDeque on every ring state, compared at an unknown logical position with a reference loop, with the trace of calls",
		probes: func() []Probe {
			return []Probe{
				withSizes(3, dqProbe("Append", "d, e VecDeque[saE], x saE, i int", `
	old, old2 := saOldDq(&d), saOldDq(&e)
	d.Append(&e)
	saIsDq(&d, append(old, old2...), i, "Append")
	saIsDq(&e, nil, i, "the deque that Append moved from")
	e.PushBack(x)
	saIsDq(&d, append(old, old2...), i, "Append, after a push to the other deque")`)),
				dqProbe("Retain", "d VecDeque[saE], f func(saE) Bool, i int", `
	old := saOldDq(&d)
	saMark()
	d.Retain(f)
	t := saMark()
	var want []saE
	for _, x := range old {
		if f(x) {
			want = append(want, x)
		}
	}
	saIsDq(&d, want, i, "Retain")
	saCalls(t, "Retain")`),
				dqProbe("Dedup", "d VecDeque[saE], f func(saE) any, i int", `
	old := saOldDq(&d)
	d.Dedup(f)
	var want []saE
	if len(old) > 0 {
		last := old[0]
		want = append(want, last)
		for _, x := range old[1:] {
			if !x.Eq(last) {
				want = append(want, x)
				last = x
			}
		}
	}
	saIsDq(&d, want, i, "Dedup")`),
				dqProbe("Fill", "d VecDeque[saE], x saE, i int", `
	old := saOldDq(&d)
	d.Fill(x)
	for j := range old {
		old[j] = x
	}
	saIsDq(&d, old, i, "Fill")`),
				dqProbe("FillWith", "d VecDeque[saE], f func() saE, i int", `
	old := saOldDq(&d)
	saMark()
	d.FillWith(f)
	t := saMark()
	for j := range old {
		old[j] = f()
	}
	saIsDq(&d, old, i, "FillWith")
	saCalls(t, "FillWith")`),
			}
		},
	})
}
