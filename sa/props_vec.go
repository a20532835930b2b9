package main

import "strings"

// declSeq: comparing containers with slices at an unknown position
const declSeq = declOpt + `
//--
func saOld[T any](v Vec[T]) []T { return append([]T(nil), v.AsSlice()...) }
func saIsSeq[T any](v Vec[T], want []T, i int, msg string) {
	got := v.AsSlice()
	saAssert(v.Len() == USize(len(want)), "wrong length: "+msg)
	saAssert(len(got) == len(want), "wrong length of the slice: "+msg)
	if i >= 0 && i < len(want) {
		saAssert(saSame(got[i], want[i]), "wrong element: "+msg)
	}
}
`

const declSorted = `
//--
// the unstable sorts may be stable ones
func saIsSorted[T any](v Vec[T], want, want2 []T, i int, msg string) {
	got := v.AsSlice()
	saAssert(v.Len() == USize(len(want)) && len(got) == len(want), "wrong length: "+msg)
	if i >= 0 && i < len(want) {
		saAssert(saSame(got[i], want[i]) || saSame(got[i], want2[i]), "wrong order: "+msg)
	}
}
`

func vecProbe(name, sig, body string) Probe {
	p := probe(name, "func PROBE("+sig+") {\n"+body+"\n}")
	p.decls = declSeq + declSorted
	return p
}

func init() {
	register(&Property{id: "V01", nilable: true, note: "every Vec element operation on an unknown vector, compared at an unknown position with the sequence operation it is named after",
		probes: func() []Probe {
			return []Probe{
				vecProbe("New", "n, cp USize, i int", `
	saAssume(n <= 1<<40 && cp <= 1<<40)
	saAssert(VecNew[saE]().Len() == 0 && VecNew[saE]().IsEmpty(), "VecNew is not empty")
	saAssert(VecWithCapacity[saE](cp).Len() == 0, "VecWithCapacity is not empty")
	saAssert(VecWithCapacity[saE](cp).Capacity() >= cp, "VecWithCapacity has too small a capacity")
	saAssert(VecWithLen[saE](n).Len() == n, "VecWithLen has another length")
	var zero saE
	if i >= 0 && i < int(n) {
		saAssert(saSame(VecWithLen[saE](n).GetUnchecked(USize(i)), zero), "VecWithLen holds something else than zero values")
	}`),
				vecProbe("Query", "v Vec[saE], i int", `
	old := saOld(v)
	saAssert(v.Len() == USize(len(old)), "Len")
	saAssert(bool(v.IsEmpty()) == (len(old) == 0), "IsEmpty")
	saAssert(v.Capacity() >= v.Len(), "Capacity below the length")
	saIsSeq(v, old, i, "queries")`),
				vecProbe("Reserve", "v Vec[saE], add USize, i int", `
	saAssume(add <= 1<<40)
	old := saOld(v)
	v.Reserve(add)
	saAssert(v.Capacity() >= v.Len()+add, "Reserve leaves too small a capacity")
	saIsSeq(v, old, i, "Reserve")`),
				vecProbe("Push", "v Vec[saE], x saE, i int", `
	old := saOld(v)
	v.Push(x)
	saIsSeq(v, append(old, x), i, "Push")`),
				vecProbe("Pop", "v Vec[saE], i int", `
	old := saOld(v)
	r := v.Pop()
	if len(old) == 0 {
		saIsNone(r, "Pop of an empty vector")
		saIsSeq(v, old, i, "Pop of an empty vector")
	} else {
		saIsSome(r, old[len(old)-1], "Pop")
		saIsSeq(v, old[:len(old)-1], i, "Pop")
	}`),
				vecProbe("PopPush", "v Vec[saE], x, y saE, i int", `
	old := saOld(v)
	v.Push(x)
	v.Push(y)
	saIsSome(v.Pop(), y, "Pop after Push")
	v.Push(y)
	saIsSeq(v, append(old, x, y), i, "Push, Pop, Push")
	v.Clear()
	v.Push(x)
	saIsSeq(v, []saE{x}, i, "Push after Clear")`),
				vecProbe("Insert", "v Vec[saE], at USize, x saE, i int", `
	old := saOld(v)
	saAssume(at <= v.Len())
	v.Insert(at, x)
	var want []saE
	want = append(want, old[:at]...)
	want = append(want, x)
	want = append(want, old[at:]...)
	saIsSeq(v, want, i, "Insert")`),
				vecProbe("Append", "v, w Vec[saE], x saE, i int", `
	old, old2 := saOld(v), saOld(w)
	v.Append(&w)
	saIsSeq(v, append(old, old2...), i, "Append")
	saIsSeq(w, nil, i, "the vector that Append moved from")
	w.Push(x)
	saIsSeq(w, []saE{x}, i, "the vector that Append moved from, after a Push")
	saIsSeq(v, append(old, old2...), i, "Append, after a Push to the other vector")
	v.Push(x)
	saIsSeq(w, []saE{x}, i, "the vector that Append moved from, after a Push to the receiver")`),
				vecProbe("Clear", "v Vec[saE], i int", `
	v.Clear()
	saIsSeq(v, nil, i, "Clear")`),
				vecProbe("Get", "v Vec[saE], at USize, i int", `
	old := saOld(v)
	r := v.Get(at)
	if at < v.Len() {
		saIsSome(r, old[at], "Get")
		saAssert(saSame(v.GetUnchecked(at), old[at]), "GetUnchecked")
	} else {
		saIsNone(r, "Get out of bounds")
		saAssert(saPanics(func() { v.GetUnchecked(at) }), "GetUnchecked out of bounds does not panic")
	}
	saIsSeq(v, old, i, "Get")`),
				vecProbe("Set", "v Vec[saE], at USize, x saE, i int", `
	old := saOld(v)
	r := v.Set(at, x)
	if at < v.Len() {
		saIsNone(r, "Set")
		old[at] = x
	} else {
		saIsSome(r, x, "Set out of bounds gives the value back")
	}
	saIsSeq(v, old, i, "Set")`),
				vecProbe("SetUnchecked", "v Vec[saE], at USize, x saE, i int", `
	old := saOld(v)
	saAssume(at < v.Len())
	v.SetUnchecked(at, x)
	old[at] = x
	saIsSeq(v, old, i, "SetUnchecked")`),
				vecProbe("Swap", "v Vec[saE], a, b USize, i int", `
	old := saOld(v)
	saAssume(a < v.Len() && b < v.Len())
	v.Swap(a, b)
	x, y := old[a], old[b]
	old[a] = y
	old[b] = x
	saIsSeq(v, old, i, "Swap")`),
			}
		},
	})
	register(&Property{id: "V02", nilable: true, note: "the bulk operations of Vec on an unknown vector with unknown functions, compared at an unknown position with a reference loop, with the trace of calls",
		probes: func() []Probe {
			return []Probe{
				vecProbe("Retain", "v Vec[saE], f func(saE) Bool, i int", `
	old := saOld(v)
	v.Retain(f)
	t := saMark()
	var want []saE
	for _, x := range old {
		if f(x) {
			want = append(want, x)
		}
	}
	saIsSeq(v, want, i, "Retain")
	saCalls(t, "Retain")`),
				vecProbe("DedupByKey", "v Vec[saE], f func(saE) any, i int", `
	old := saOld(v)
	v.DedupByKey(f)
	t := saMark()
	var want []saE
	var last any
	for j := range old {
		k := f(old[j])
		if j == 0 || k != last {
			want = append(want, old[j])
			last = k
		}
	}
	saIsSeq(v, want, i, "DedupByKey")
	saCalls(t, "DedupByKey")`),
				vecProbe("Dedup", "v Vec[saE], i int", `
	old := saOld(v)
	v.Dedup()
	var want []saE
	if len(old) > 0 {
		last := old[0]
		want = append(want, last)
		for _, x := range old[1:] {
			if !reflect.DeepEqual(last, x) {
				want = append(want, x)
				last = x
			}
		}
	}
	saIsSeq(v, want, i, "Dedup")`),
				vecProbe("Reverse", "v Vec[saE], i int", `
	old := saOld(v)
	v.Reverse()
	saAssert(int(v.Len()) == len(old), "Reverse changes the length")
	if i >= 0 && i < len(old) {
		saAssert(saSame(v.GetUnchecked(USize(i)), old[len(old)-1-i]), "Reverse does not mirror a position")
	}`),
				vecProbe("Fill", "v Vec[saE], x saE, i int", `
	n := v.Len()
	v.Fill(x)
	saAssert(v.Len() == n, "Fill changes the length")
	if i >= 0 && i < int(n) {
		saAssert(saSame(v.GetUnchecked(USize(i)), x), "Fill leaves a position")
	}`),
				vecProbe("FillWith", "v Vec[saE], f func() saE, i int", `
	old := saOld(v)
	v.FillWith(f)
	t := saMark()
	for j := range old {
		old[j] = f()
	}
	saIsSeq(v, old, i, "FillWith")
	saCalls(t, "FillWith")`),
			}
		},
	})
	_ = strings.Join
	register(&Property{id: "V03", note: "the searches of Vec against a witness position and a monotone comparison, and the sorts against the sorting functions of the standard library with the comparison each must hand over",
		probes: func() []Probe {
			return []Probe{
				vecProbe("Contains", "v Vec[saE], x saE", `
	want := false
	for _, y := range v.AsSlice() {
		if reflect.DeepEqual(y, x) {
			want = true
		}
	}
	saAssert(bool(v.Contains(x)) == want, "Contains")`),
				vecProbe("Sort", "v Vec[saE], i int", `
	old := saOld(v)
	v.Sort()
	sort.SliceStable(old, func(a, b int) bool { return old[a].Cmp(old[b]) == OrderingLess })
	saIsSeq(v, old, i, "Sort")`),
				vecProbe("SortBy", "v Vec[saE], f func(saE, saE) Ordering, i int", `
	old := saOld(v)
	v.SortBy(f)
	sort.SliceStable(old, func(a, b int) bool { return f(old[a], old[b]) == OrderingLess })
	saIsSeq(v, old, i, "SortBy")`),
				vecProbe("SortUnstable", "v Vec[saE], i int", `
	old := saOld(v)
	old2 := saOld(v)
	v.SortUnstable()
	sort.SliceStable(old, func(a, b int) bool { return old[a].Cmp(old[b]) == OrderingLess })
	sort.Slice(old2, func(a, b int) bool { return old2[a].Cmp(old2[b]) == OrderingLess })
	saIsSorted(v, old, old2, i, "SortUnstable")`),
				vecProbe("SortUnstableBy", "v Vec[saE], f func(saE, saE) Ordering, i int", `
	old := saOld(v)
	old2 := saOld(v)
	v.SortUnstableBy(f)
	sort.SliceStable(old, func(a, b int) bool { return f(old[a], old[b]) == OrderingLess })
	sort.Slice(old2, func(a, b int) bool { return f(old2[a], old2[b]) == OrderingLess })
	saIsSorted(v, old, old2, i, "SortUnstableBy")`),
				vecProbe("BinarySearchByFinds", "v Vec[saE], f func(saE) Ordering, w int", `
	d := v.AsSlice()
	saAssume(w >= 0 && w < len(d))
	saAssume(f(d[w]) == OrderingEqual)
	ok := true
	for j := range d {
		c := f(d[j])
		if j < w && c == OrderingGreater || j > w && c == OrderingLess {
			ok = false
		}
	}
	saAssume(ok)
	saAssert(bool(v.BinarySearchBy(f).IsSome()), "BinarySearchBy misses an element")`),
				vecProbe("BinarySearchBy", "v Vec[saE], f func(saE) Ordering", `
	d := v.AsSlice()
	r := v.BinarySearchBy(f)
	if r.IsSome() {
		at := r.Unwrap()
		saAssert(at < v.Len(), "BinarySearchBy returns a position outside")
		saAssert(f(d[at]) == OrderingEqual, "BinarySearchBy returns a position of an unequal element")
	}`),
				vecProbe("BinarySearchFinds", "v Vec[saE], x saE, w int", `
	d := v.AsSlice()
	saAssume(w >= 0 && w < len(d))
	saAssume(d[w].Cmp(x) == OrderingEqual)
	ok := true
	for j := range d {
		c := d[j].Cmp(x)
		if j < w && c == OrderingGreater || j > w && c == OrderingLess {
			ok = false
		}
	}
	saAssume(ok)
	saAssert(bool(v.BinarySearch(x).IsSome()), "BinarySearch misses an element")`),
				vecProbe("BinarySearch", "v Vec[saE], x saE", `
	d := v.AsSlice()
	r := v.BinarySearch(x)
	if r.IsSome() {
		at := r.Unwrap()
		saAssert(at < v.Len(), "BinarySearch returns a position outside")
		saAssert(d[at].Cmp(x) == OrderingEqual, "BinarySearch returns a position of an unequal element")
	}`),
				dqProbe("DequeContains", "d VecDeque[saE], x saE, i int", `
	old := saOldDq(&d)
	want := false
	for _, y := range old {
		if x.Eq(y) {
			want = true
		}
	}
	saAssert(bool(d.Contains(x)) == want, "VecDeque.Contains")
	saIsDq(&d, old, i, "VecDeque.Contains")`),
				dqProbe("DequeSort", "d VecDeque[saE], i int", `
	old := saOldDq(&d)
	d.Sort()
	sort.SliceStable(old, func(a, b int) bool { return old[a].Cmp(old[b]) == OrderingLess })
	saIsDq(&d, old, i, "VecDeque.Sort")`),
				dqProbe("DequeSortBy", "d VecDeque[saE], f func(saE, saE) Ordering, i int", `
	old := saOldDq(&d)
	d.SortBy(f)
	sort.SliceStable(old, func(a, b int) bool { return f(old[a], old[b]) == OrderingLess })
	saIsDq(&d, old, i, "VecDeque.SortBy")`),
				dqProbe("DequeSortUnstable", "", `
	d, _ := saRingO()
	old := saCopyDqO(&d)
	d.SortUnstable()
	saIsSortedDqO(&d, old, "VecDeque.SortUnstable")`),
				dqProbe("DequeSortUnstableBy", "", `
	d, _ := saRingO()
	old := saCopyDqO(&d)
	d.SortUnstableBy(func(a, b saO) Ordering { return a.Cmp(b) })
	saIsSortedDqO(&d, old, "VecDeque.SortUnstableBy")`),
				dqProbe("DequeBinarySearch", "x saO", `
	d, n := saRingO()
	old := saCopyDqO(&d)
	has := false
	for i := 0; i < n; i++ {
		if i > 0 {
			saAssume(old[i-1].saKey <= old[i].saKey)
		}
		if old[i].saKey == x.saKey {
			has = true
		}
	}
	r := d.BinarySearch(x)
	saAssert(bool(r.IsSome()) == has, "VecDeque.BinarySearch misses an element or finds an absent one")
	if r.IsSome() {
		saAssert(r.Unwrap() < d.Len(), "VecDeque.BinarySearch returns a position outside")
		saAssert(old[r.Unwrap()].saKey == x.saKey, "VecDeque.BinarySearch returns a position of an unequal element")
	}
	r = d.BinarySearchBy(func(y saO) Ordering { return y.Cmp(x) })
	saAssert(bool(r.IsSome()) == has, "VecDeque.BinarySearchBy misses an element or finds an absent one")
	if r.IsSome() {
		saAssert(r.Unwrap() < d.Len(), "VecDeque.BinarySearchBy returns a position outside")
		saAssert(old[r.Unwrap()].saKey == x.saKey, "VecDeque.BinarySearchBy returns a position of an unequal element")
	}`),
			}
		},
	})
}
