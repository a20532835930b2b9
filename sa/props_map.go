package main

// declM: keys compared by their identity, unknown values
const declM = declOpt + `
//--
type saM struct{ saId int64 }
func (a saM) Eq(b saM) Bool { return a.saId == b.saId }
func (a saM) Clone() saM { return a }
func (a saM) Cmp(b saM) Ordering {
	if a.saId < b.saId {
		return OrderingLess
	} else if a.saId > b.saId {
		return OrderingGreater
	}
	return OrderingEqual
}
func (a saM) Display() String
func (a saM) Debug() String
type saMap = HashMap[saM, saE]
type saSet = HashSet[saM]
func saHas(s saSet, q saM) bool {
	_, ok := s.hashMap.data[q]
	return ok
}
// saKept: the binding of q is the one it was
func saKept(m saMap, q saM, v saE, had bool, msg string) {
	w, ok := m.data[q]
	saAssert(ok == had, "the binding of another key appears or vanishes: "+msg)
	if had && ok {
		saAssert(saSame(w, v), "the value of another key changes: "+msg)
	}
}
func saIsSet(s saSet, q saM, want bool, msg string) {
	saAssert(saHas(s, q) == want, "wrong membership: "+msg)
}
func saEnds[T any](it Iterator[T], msg string) {
	saIsNone(it.Next(), "past the end: "+msg)
	saIsNone(it.Next(), "past the end, again: "+msg)
}
`

func mapProbe(name, sig, body string, size int) Probe {
	p := probe(name, "func PROBE("+sig+") {\n"+body+"\n}")
	p.decls = declM
	p.follow, p.sizes = 64, size
	return p
}

func init() {
	register(&Property{id: "M01", nilable: true, note: "HashMap operations on every map of up to three bindings (any keys, any values), compared at an unknown key",
		probes: func() []Probe {
			return []Probe{
				mapProbe("New", "q saM", `
	a := HashMapNew[saM, saE]()
	saAssert(a.Len() == 0 && bool(a.IsEmpty()), "a new map is not empty")
	saIsNone(a.Get(q), "Get from a new map")
	b := HashMapWithCapacity[saM, saE](10)
	saAssert(b.Len() == 0 && bool(b.IsEmpty()), "a new map with capacity is not empty")
	saIsNone(b.Get(q), "Get from a new map with capacity")
	b.Insert(q, saAny[saE]("v"))
	saAssert(b.Len() == 1, "Insert into a new map")`, 3),
				mapProbe("Insert", "m saMap, k, q saM, v saE", `
	old, had := m.data[k]
	o, hadq := m.data[q]
	n := m.Len()
	r := m.Insert(k, v)
	if had {
		saIsSome(r, old, "Insert over a binding")
		saAssert(m.Len() == n, "Insert over a binding changes the length")
	} else {
		saIsNone(r, "Insert of a new key")
		saAssert(m.Len() == n+1, "Insert of a new key: wrong length")
	}
	saIsSome(m.Get(k), v, "Get after Insert")
	if q != k {
		saKept(m, q, o, hadq, "Insert")
	}`, 3),
				mapProbe("Remove", "m saMap, k, q saM", `
	old, had := m.data[k]
	o, hadq := m.data[q]
	n := m.Len()
	r := m.Remove(k)
	if had {
		saIsSome(r, old, "Remove of a binding")
		saAssert(m.Len() == n-1, "Remove of a binding: wrong length")
	} else {
		saIsNone(r, "Remove of an absent key")
		saAssert(m.Len() == n, "Remove of an absent key changes the length")
	}
	saIsNone(m.Get(k), "Get after Remove")
	if q != k {
		saKept(m, q, o, hadq, "Remove")
	}`, 3),
				mapProbe("Query", "m saMap, q saM", `
	o, had := m.data[q]
	n := len(m.data)
	saAssert(m.Len() == USize(n), "Len")
	saAssert(bool(m.IsEmpty()) == (n == 0), "IsEmpty")
	saAssert(bool(m.ContainsKey(q)) == had, "ContainsKey")
	r := m.Get(q)
	if had {
		saIsSome(r, o, "Get")
	} else {
		saIsNone(r, "Get of an absent key")
	}
	w, ok := m.AsMap()[q]
	saAssert(ok == had && len(m.AsMap()) == n, "AsMap holds other keys")
	if had {
		saAssert(saSame(w, o), "AsMap holds another value")
	}
	w, ok = m.AsRef().data[q]
	saAssert(ok == had && len(m.AsRef().data) == n, "AsRef holds other keys")
	saKept(m, q, o, had, "queries")`, 3),
				mapProbe("Absent", "q saM", `
	// values that are like the absence of a value
	m := HashMapNew[saM, any]()
	saIsNone(m.Insert(q, nil), "Insert of nil")
	saAssert(bool(m.ContainsKey(q)) && m.Len() == 1 && !bool(m.IsEmpty()), "a binding to nil vanishes")
	saAssert(bool(m.Get(q).IsSome()) && m.Get(q).Unwrap() == nil, "Get of a binding to nil")
	ks, vs := m.Keys(), m.Values()
	saIsSome(ks.Next(), q, "Keys of a binding to nil")
	saAssert(bool(vs.Next().IsSome()) && bool(vs.Next().IsNone()), "Values of a binding to nil")
	r := m.Insert(q, nil)
	saAssert(bool(r.IsSome()) && r.Unwrap() == nil, "Insert over a binding to nil")
	r = m.Remove(q)
	saAssert(bool(r.IsSome()) && r.Unwrap() == nil, "Remove of a binding to nil")
	saAssert(m.Len() == 0 && !bool(m.ContainsKey(q)), "Remove of a binding to nil leaves it")
	p := HashMapNew[saM, *int]()
	p.Insert(q, nil)
	saAssert(bool(p.ContainsKey(q)) && p.Len() == 1, "a binding to a nil pointer vanishes")
	saAssert(bool(p.Get(q).IsSome()) && p.Get(q).Unwrap() == nil, "Get of a binding to a nil pointer")
	saAssert(bool(p.Remove(q).IsSome()) && p.Len() == 0, "Remove of a binding to a nil pointer")
	z := HashMapNew[saM, int64]()
	z.Insert(q, 0)
	saAssert(bool(z.ContainsKey(q)) && z.Len() == 1, "a binding to the zero value vanishes")
	saAssert(bool(z.Get(q).IsSome()) && z.Get(q).Unwrap() == 0, "Get of a binding to the zero value")
	saAssert(bool(z.Remove(q).IsSome()) && z.Len() == 0, "Remove of a binding to the zero value")`, 1),
				mapProbe("Clear", "m saMap, q saM, v saE", `
	m.Clear()
	saAssert(m.Len() == 0 && bool(m.IsEmpty()), "Clear leaves a length")
	saIsNone(m.Get(q), "Get after Clear")
	saAssert(!m.ContainsKey(q), "ContainsKey after Clear")
	saIsNone(m.Insert(q, v), "Insert after Clear")
	saIsSome(m.Get(q), v, "Get after Clear and Insert")`, 3),
				mapProbe("IntoIter", "m saMap, q saM", `
	o, had := m.data[q]
	n, seen := 0, 0
	it := m.IntoIter()
	for i := USize(0); i < m.Len(); i++ {
		x := it.Next()
		saAssert(x.IsSome(), "IntoIter ends early")
		p := x.Unwrap()
		if p.Key == q {
			seen++
			saAssert(saSame(p.Value, o), "IntoIter: wrong value")
		}
		n++
	}
	saEnds(it, "IntoIter")
	if had {
		saAssert(seen == 1, "IntoIter visits a key not once")
	} else {
		saAssert(seen == 0, "IntoIter visits an absent key")
	}
	saKept(m, q, o, had, "IntoIter")`, 3),
				mapProbe("Keys", "m saMap, q saM", `
	o, had := m.data[q]
	seen := 0
	it := m.Keys()
	for i := USize(0); i < m.Len(); i++ {
		x := it.Next()
		saAssert(x.IsSome(), "Keys ends early")
		if x.Unwrap() == q {
			seen++
		}
	}
	saEnds(it, "Keys")
	if had {
		saAssert(seen == 1, "Keys visits a key not once")
	} else {
		saAssert(seen == 0, "Keys visits an absent key")
	}
	saKept(m, q, o, had, "Keys")`, 3),
				mapProbe("Values", "m HashMap[saM, saM], q saM", `
	want := 0
	for _, v := range m.data {
		if v == q {
			want++
		}
	}
	seen := 0
	it := m.Values()
	for i := USize(0); i < m.Len(); i++ {
		x := it.Next()
		saAssert(x.IsSome(), "Values ends early")
		if x.Unwrap() == q {
			seen++
		}
	}
	saEnds(it, "Values")
	saAssert(seen == want, "Values gives a value another number of times")`, 2),
			}
		},
	})
	register(&Property{id: "M02", note: "HashSet operations on all sets of up to three elements (two for the binary ones), compared at an unknown element",
		probes: func() []Probe {
			var ps []Probe
			ps = append(ps,
				mapProbe("New", "q saM", `
	a := HashSetNew[saM]()
	saAssert(a.Len() == 0 && bool(a.IsEmpty()), "a new set is not empty")
	saIsSet(a, q, false, "a new set")
	b := HashSetWithCapacity[saM](10)
	saAssert(b.Len() == 0 && bool(b.IsEmpty()), "a new set with capacity is not empty")
	saIsSet(b, q, false, "a new set with capacity")
	saAssert(bool(b.Insert(q)), "Insert into a new set")`, 3),
				mapProbe("Insert", "s saSet, k, q saM", `
	had, hadq := saHas(s, k), saHas(s, q)
	n := s.Len()
	r := s.Insert(k)
	saAssert(bool(r) == !had, "Insert reports the opposite")
	if had {
		saAssert(s.Len() == n, "Insert of a member changes the length")
	} else {
		saAssert(s.Len() == n+1, "Insert of a new element: wrong length")
	}
	saIsSet(s, q, hadq || q == k, "Insert")`, 3),
				mapProbe("Remove", "s saSet, k, q saM", `
	had, hadq := saHas(s, k), saHas(s, q)
	n := s.Len()
	r := s.Remove(k)
	saAssert(bool(r) == had, "Remove reports the opposite")
	if had {
		saAssert(s.Len() == n-1, "Remove of a member: wrong length")
	} else {
		saAssert(s.Len() == n, "Remove of an absent element changes the length")
	}
	saIsSet(s, q, hadq && q != k, "Remove")`, 3),
				mapProbe("Query", "s saSet, q saM", `
	had := saHas(s, q)
	n := len(s.hashMap.data)
	saAssert(s.Len() == USize(n), "Len")
	saAssert(bool(s.IsEmpty()) == (n == 0), "IsEmpty")
	saAssert(bool(s.Contains(q)) == had, "Contains")
	if had {
		saIsSome(s.Get(q), q, "Get")
	} else {
		saIsNone(s.Get(q), "Get of an absent element")
	}
	saIsSet(*s.AsRef(), q, had, "AsRef")
	saAssert(s.AsRef().Len() == USize(n), "AsRef has another length")
	saIsSet(s, q, had, "queries")`, 3),
				mapProbe("Clear", "s saSet, q saM", `
	s.Clear()
	saAssert(s.Len() == 0 && bool(s.IsEmpty()), "Clear leaves a length")
	saIsSet(s, q, false, "Clear")
	saAssert(bool(s.Insert(q)), "Insert after Clear")`, 3),
				mapProbe("AsSlice", "s saSet, q saM", `
	had := saHas(s, q)
	l := s.AsSlice()
	saAssert(len(l) == len(s.hashMap.data), "AsSlice has another length")
	seen := 0
	for _, x := range l {
		if x == q {
			seen++
		}
	}
	if had {
		saAssert(seen == 1, "AsSlice holds an element not once")
	} else {
		saAssert(seen == 0, "AsSlice holds an absent element")
	}
	saIsSet(s, q, had, "AsSlice")`, 3),
				mapProbe("FromSlice", "l []saM, q saM", `
	has := false
	for _, x := range l {
		if x == q {
			has = true
		}
	}
	s := HashSetFromSlice(l)
	saIsSet(s, q, has, "HashSetFromSlice")
	saAssert(int(s.Len()) <= len(l), "HashSetFromSlice: too long")`, 3),
				mapProbe("IntoIter", "s saSet, q saM", `
	had := saHas(s, q)
	seen := 0
	it := s.IntoIter()
	for i := USize(0); i < s.Len(); i++ {
		x := it.Next()
		saAssert(x.IsSome(), "IntoIter ends early")
		if x.Unwrap() == q {
			seen++
		}
	}
	saEnds(it, "IntoIter")
	if had {
		saAssert(seen == 1, "IntoIter visits an element not once")
	} else {
		saAssert(seen == 0, "IntoIter visits an absent element")
	}
	saIsSet(s, q, had, "IntoIter")`, 3))
			for _, o := range [][2]string{{"Union", "inA || inB"}, {"Intersection", "inA && inB"}, {"SymmetricDifference", "inA != inB"}} {
				ps = append(ps, mapProbe(o[0], "a, b saSet, q saM", `
	if len(b.hashMap.data) == 3 && len(a.hashMap.data) >= 2 {
		return
	}
	inA, inB := saHas(a, q), saHas(b, q)
	na, nb := a.Len(), b.Len()
	r := a.`+o[0]+`(b)
	saIsSet(r, q, `+o[1]+`, "`+o[0]+`")
	saAssert(r.Len() == USize(len(r.hashMap.data)), "`+o[0]+`: Len")
	saIsSet(a, q, inA, "`+o[0]+` changes its receiver")
	saIsSet(b, q, inB, "`+o[0]+` changes its argument")
	r.Insert(q)
	saIsSet(a, q, inA, "`+o[0]+` shares storage with its receiver")
	saIsSet(b, q, inB, "`+o[0]+` shares storage with its argument")
	saAssert(a.Len() == na && b.Len() == nb, "`+o[0]+` changes an operand's length")`, 3))
			}
			for _, o := range [][2]string{
				{"IsSubset", "x, y = a, b"}, {"IsSuperset", "x, y = b, a"}, {"Eq", "x, y = a, b"}, {"IsDisjoint", "x, y = a, b"}} {
				want := `
	for k := range x.hashMap.data {
		if !saHas(y, k) {
			want = false
		}
	}`
				switch o[0] {
				case "Eq":
					want += `
	for k := range y.hashMap.data {
		if !saHas(x, k) {
			want = false
		}
	}`
				case "IsDisjoint":
					want = `
	for k := range x.hashMap.data {
		if saHas(y, k) {
			want = false
		}
	}`
				}
				ps = append(ps, mapProbe(o[0], "a, b saSet, q saM", `
	if len(b.hashMap.data) == 3 && len(a.hashMap.data) >= 2 {
		return
	}
	inA, inB := saHas(a, q), saHas(b, q)
	want := true
	var x, y saSet
	`+o[1]+want+`
	saAssert(bool(a.`+o[0]+`(b)) == want, "`+o[0]+`")
	saIsSet(a, q, inA, "`+o[0]+` changes its receiver")
	saIsSet(b, q, inB, "`+o[0]+` changes its argument")`, 3))
			}
			// a set and itself
			for _, o := range [][2]string{{"Union", "in"}, {"Intersection", "in"}, {"SymmetricDifference", "false"}} {
				ps = append(ps, mapProbe("Self"+o[0], "a saSet, q saM", `
	in := saHas(a, q)
	n := a.Len()
	r := a.`+o[0]+`(a)
	saIsSet(r, q, `+o[1]+`, "`+o[0]+` of a set with itself")
	r.Insert(q)
	saIsSet(a, q, in, "`+o[0]+` of a set with itself shares its storage")
	r.Remove(q)
	saIsSet(a, q, in, "`+o[0]+` of a set with itself shares its storage")
	saAssert(a.Len() == n, "`+o[0]+` of a set with itself changes its length")`, 3))
			}
			ps = append(ps, mapProbe("SelfTests", "a saSet, q saM", `
	in := saHas(a, q)
	saAssert(bool(a.IsSubset(a)) && bool(a.IsSuperset(a)) && bool(a.Eq(a)), "tests of a set with itself")
	saAssert(bool(a.IsDisjoint(a)) == (a.Len() == 0), "IsDisjoint of a set with itself")
	saIsSet(a, q, in, "a test of a set with itself changes it")`, 3))
			return ps
		},
	})
}
