package main

import (
	"fmt"
	"strings"
)

// declB: trees of a given shape. The keys ascend by 2 in key order (all the
// trees can do with keys is compare them, so their values stand for any keys
// of that order), their tags and the values are unknown. What lies in the
// unused slots of a node is nil or left over from earlier operations.
const declB = declO + `
//--
type saTM = BTreeMap[saO, saE]
type saTN = BTreeNode[saO, saE]
type saKV struct {
	k saO
	v saE
}
type saShape struct {
	n int
	c []saShape
}
type saB struct {
	next  int64
	stale bool
	all   []saKV
	x, hi int
}
func saL(n int) saShape { return saShape{n: n} }
func saI(c ...saShape) saShape { return saShape{n: len(c) - 1, c: c} }
func saRep(k int, s saShape) saShape {
	c := make([]saShape, k)
	for i := range c {
		c[i] = s
	}
	return saShape{n: k - 1, c: c}
}
// saFlat: n bindings in a leaf, or in a root and leaves
func saFlat(n int) saShape {
	if n <= _BTREE_CAPACITY {
		return saL(n)
	}
	k := (n + _BTREE_CAPACITY + 1) / (_BTREE_CAPACITY + 1)
	saAssume(k <= _BTREE_CAPACITY+1)
	c := make([]saShape, k)
	left := n - (k - 1)
	for i := range c {
		m := left / (k - i)
		c[i] = saL(m)
		left -= m
	}
	return saShape{n: k - 1, c: c}
}
// saAlt: k children, the i-th of them t and the others s
func saAlt(k, i int, s, t saShape) saShape {
	r := saRep(k, s)
	r.c[i] = t
	return r
}
func (b *saB) entry(nd *saTN, i int) {
	b.next += 2
	k := saO{saKey: b.next, saTag: saAny[int64]("tag")}
	v := saAny[saE]("v")
	nd.keys.data[i] = &k
	nd.values.data[i] = &v
	b.all = append(b.all, saKV{k, v})
}
func (b *saB) build(s saShape) *saTN {
	nd := &saTN{_MinimumDegree: _B, n: s.n}
	nd.keys = Vec[*saO]{data: make([]*saO, _BTREE_CAPACITY)}
	nd.values = Vec[*saE]{data: make([]*saE, _BTREE_CAPACITY)}
	nd.childs = Vec[*saTN]{data: make([]*saTN, _BTREE_CAPACITY+1)}
	if len(s.c) == 0 {
		nd._Type = _LEAF
		for i := 0; i < s.n; i++ {
			b.entry(nd, i)
		}
	} else {
		nd._Type = _INTERNAL
		for i := 0; i <= s.n; i++ {
			nd.childs.data[i] = b.build(s.c[i])
			if i < s.n {
				b.entry(nd, i)
			}
		}
	}
	if b.stale {
		for i := s.n; i < _BTREE_CAPACITY; i++ {
			k := saO{saKey: -7, saTag: saAny[int64]("stale tag")}
			v := saAny[saE]("stale")
			nd.keys.data[i] = &k
			nd.values.data[i] = &v
			if len(s.c) > 0 {
				nd.childs.data[i+1] = nd.childs.data[0]
			}
		}
	}
	return nd
}
// saTree: a tree of that shape and its bindings in key order
func saTree(s saShape, stale bool) (saTM, []saKV) {
	b := &saB{stale: stale}
	r := b.build(s)
	return saTM{root: r, len: uint(len(b.all))}, b.all
}
// saWalk checks the subtree at nd, whose bindings are want[pos:] from the
// front, and returns the position after them and the height.
func saWalk(nd *saTN, root bool, want []saKV, pos int, msg string) (int, int) {
	saAssert(nd != nil, "a child is missing: "+msg)
	saAssert(nd.n <= _BTREE_CAPACITY, "an overfull node: "+msg)
	if root {
		saAssert(nd.n >= 1, "an empty root: "+msg)
	} else {
		saAssert(nd.n >= _B-1, "an underfull node: "+msg)
	}
	h := 0
	for i := 0; i <= nd.n; i++ {
		if nd._Type != _LEAF {
			p, hc := saWalk(nd.childs.data[i], false, want, pos, msg)
			pos = p
			saAssert(i == 0 || hc+1 == h, "leaves at different depths: "+msg)
			h = hc + 1
		}
		if i < nd.n {
			saAssert(pos < len(want), "too many bindings: "+msg)
			saAssert(nd.keys.data[i] != nil && nd.values.data[i] != nil, "an empty used slot: "+msg)
			saAssert(saSame(*nd.keys.data[i], want[pos].k), "a wrong key in key order: "+msg)
			saAssert(saSame(*nd.values.data[i], want[pos].v), "a key with another key's value: "+msg)
			pos++
		}
	}
	return pos, h
}
func saIsTree(m *saTM, want []saKV, msg string) {
	if len(want) == 0 {
		saAssert(m.root == nil, "a root without bindings: "+msg)
		return
	}
	saAssert(m.root != nil, "no root: "+msg)
	n, _ := saWalk(m.root, true, want, 0, msg)
	saAssert(n == len(want), "a binding is lost: "+msg)
}
func saWith(all []saKV, i int, e saKV) []saKV {
	var r []saKV
	for j := 0; j < i; j++ {
		r = append(r, all[j])
	}
	r = append(r, e)
	for j := i; j < len(all); j++ {
		r = append(r, all[j])
	}
	return r
}
func saWithout(all []saKV, i int) []saKV {
	var r []saKV
	for j := 0; j < len(all); j++ {
		if j != i {
			r = append(r, all[j])
		}
	}
	return r
}
`

func treeProbe(name, sig, body string) Probe {
	p := probe(name, "func PROBE("+sig+") {\n"+body+"\n}")
	p.decls = declB
	p.follow, p.sizes = 400, 3
	return p
}

// the shapes: name, expression
type treeShape struct{ name, expr string }

func treeShapes(quick bool) (ins, rem []treeShape) {
	add := func(to *[]treeShape, name, expr string) { *to = append(*to, treeShape{name, expr}) }
	for n := 1; n <= 11; n++ {
		add(&ins, fmt.Sprintf("leaf%d", n), fmt.Sprintf("saL(%d)", n))
		add(&rem, fmt.Sprintf("leaf%d", n), fmt.Sprintf("saL(%d)", n))
	}
	// two levels
	two := func(to *[]treeShape, sizes ...int) {
		var c, s []string
		for _, n := range sizes {
			c = append(c, fmt.Sprintf("saL(%d)", n))
			s = append(s, fmt.Sprint(n))
		}
		add(to, "two_"+strings.Join(s, "_"), "saI("+strings.Join(c, ",")+")")
	}
	two(&ins, 5, 5)
	two(&ins, 11, 5)
	two(&ins, 5, 11)
	two(&ins, 11, 11, 11)
	two(&ins, 6, 10, 8)
	two(&ins, 11, 5, 5, 5, 11, 5, 5, 5, 5, 5, 11)
	two(&ins, 11, 5, 5, 5, 5, 11, 11, 5, 5, 5, 5, 11)
	for _, a := range []int{5, 6} {
		for _, b := range []int{5, 6} {
			two(&rem, a, b)
			for _, c := range []int{5, 6} {
				two(&rem, a, b, c)
			}
		}
	}
	two(&rem, 11, 11)
	two(&rem, 11, 5, 11)
	two(&rem, 5, 11, 5)
	two(&rem, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5)
	// three levels
	l5, l6 := "saL(5)", "saL(6)"
	node := func(k int, l string) string { return fmt.Sprintf("saRep(%d, %s)", k, l) }
	mixed := func(sizes ...int) string {
		var c []string
		for _, n := range sizes {
			c = append(c, fmt.Sprintf("saL(%d)", n))
		}
		return "saI(" + strings.Join(c, ",") + ")"
	}
	full := mixed(11, 5, 5, 5, 5, 11, 11, 5, 5, 5, 5, 11)
	half := mixed(11, 5, 5, 5, 5, 11)
	add(&ins, "three_full", "saI("+full+", "+node(6, l5)+")")
	add(&ins, "three_full2", "saI("+node(6, l5)+", "+full+")")
	add(&ins, "three_full3", "saI("+half+", "+full+", "+half+")")
	for _, a := range []int{6, 7} {
		for _, b := range []int{6, 7} {
			add(&rem, fmt.Sprintf("three_%d_%d_min", a, b), "saI("+node(a, l5)+", "+node(b, l5)+")")
			add(&rem, fmt.Sprintf("three_%d_%d_mix", a, b), "saI("+
				fmt.Sprintf("saAlt(%d, 2, %s, %s)", a, l5, l6)+", "+fmt.Sprintf("saAlt(%d, 4, %s, %s)", b, l5, l6)+")")
		}
	}
	add(&rem, "three_mid_min", "saI("+node(6, l5)+", "+node(6, l5)+", "+node(6, l5)+")")
	add(&rem, "three_mid_prev", "saI("+node(7, l5)+", "+node(6, l5)+", "+node(6, l5)+")")
	add(&rem, "three_mid_next", "saI("+node(6, l5)+", "+node(6, l5)+", "+node(7, l5)+")")
	return
}

func treeTasks() []Probe {
	ins, rem := treeShapes(true)
	var ps []Probe
	ps = append(ps, treeProbe("Insert_empty", "tag int64, v saE", `
	m := BTreeMapNew[saO, saE]()
	saIsTree(&m, nil, "a new map")
	x := saO{3, tag}
	m.Insert(x, v)
	saIsTree(&m, []saKV{{x, v}}, "Insert into an empty map")
	m.Clear()
	saIsTree(&m, nil, "Clear")`))
	for i, s := range ins {
		ps = append(ps, treeProbe("Insert_"+s.name, "tag int64, v saE", fmt.Sprintf(`
	m, all := saTree(%s, %t)
	at := saPick(0, 2*len(all))
	x := saO{int64(at)+1, tag}
	m.Insert(x, v)
	if at%%2 == 1 {
		all[at/2].v = v
		saIsTree(&m, all, "Insert of a present key")
	} else {
		saIsTree(&m, saWith(all, at/2, saKV{x, v}), "Insert of a new key")
	}`, s.expr, i%2 == 1)))
	}
	for i, s := range rem {
		ps = append(ps, treeProbe("Remove_"+s.name, "tag int64, v saE", fmt.Sprintf(`
	m, all := saTree(%s, %t)
	at := saPick(0, 2*len(all))
	x := saO{int64(at)+1, tag}
	m.Remove(x)
	if at%%2 == 1 {
		saIsTree(&m, saWithout(all, at/2), "Remove of a present key")
	} else {
		saIsTree(&m, all, "Remove of an absent key")
	}`, s.expr, i%2 == 1)))
	}
	return ps
}

func init() {
	register(&Property{id: "B01", note: "BTreeMap.Insert and Remove at every position of trees of one to three levels, with nodes at and between their size bounds; the whole tree is checked afterwards",
		probes: treeTasks})
}

// declT: sets with any ascending keys, in one node
const declT = declB + `
//--
type saTSet = BTreeSet[saO]
func saAsc(n int) []saO {
	d := make([]saO, n)
	for i := range d {
		d[i] = saAny[saO]("k")
		if i > 0 {
			saAssume(d[i-1].saKey < d[i].saKey)
		}
	}
	return d
}
func saTSetNode(n int) *BTreeNode[saO, struct{}] {
	nd := &BTreeNode[saO, struct{}]{_Type: _LEAF, _MinimumDegree: _B, n: n}
	nd.keys = Vec[*saO]{data: make([]*saO, _BTREE_CAPACITY)}
	nd.values = Vec[*struct{}]{data: make([]*struct{}, _BTREE_CAPACITY)}
	nd.childs = Vec[*BTreeNode[saO, struct{}]]{data: make([]*BTreeNode[saO, struct{}], _BTREE_CAPACITY+1)}
	for i := 0; i < n; i++ {
		nd.values.data[i] = &struct{}{}
	}
	return nd
}
func saTSetOf(d []saO) saTSet {
	if len(d) == 0 {
		return saTSet{}
	}
	nd, k := saTSetNode(0), 1
	if len(d) <= _BTREE_CAPACITY {
		nd = saTSetNode(len(d))
		for i := range d {
			x := d[i]
			nd.keys.data[i] = &x
		}
	} else {
		// a root and leaves
		k = (len(d) + _BTREE_CAPACITY + 1) / (_BTREE_CAPACITY + 1)
		saAssume(k <= _BTREE_CAPACITY+1)
		nd = saTSetNode(k - 1)
		nd._Type = _INTERNAL
		left, at := len(d)-(k-1), 0
		for i := 0; i < k; i++ {
			m := left / (k - i)
			left -= m
			c := saTSetNode(m)
			for j := 0; j < m; j++ {
				x := d[at]
				c.keys.data[j] = &x
				at++
			}
			nd.childs.data[i] = c
			if i < k-1 {
				x := d[at]
				nd.keys.data[i] = &x
				at++
			}
		}
	}
	return saTSet{_treemap: BTreeMap[saO, struct{}]{root: nd, len: uint(len(d))}}
}
func saIsTSet(s saTSet, want []saO, msg string) {
	saAssert(s.Len() == USize(len(want)), "wrong length: "+msg)
	saAssert(bool(s.IsEmpty()) == (len(want) == 0), "wrong emptiness: "+msg)
	it := s.IntoIter()
	for _, w := range want {
		r := it.Next()
		saAssert(r.IsSome(), "an element is missing: "+msg)
		saAssert(r.Unwrap().saKey == w.saKey, "not the elements in ascending order: "+msg)
	}
	saIsNone(it.Next(), "past the end: "+msg)
	saIsNone(it.Next(), "past the end, again: "+msg)
}
// saMerge: the elements of a and b, ascending, of those kinds
func saMerge(a, b []saO, onlyA, both, onlyB bool) []saO {
	var r []saO
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		if j == len(b) || i < len(a) && a[i].saKey < b[j].saKey {
			if onlyA {
				r = append(r, a[i])
			}
			i++
		} else if i == len(a) || b[j].saKey < a[i].saKey {
			if onlyB {
				r = append(r, b[j])
			}
			j++
		} else {
			if both {
				r = append(r, a[i])
			}
			i++
			j++
		}
	}
	return r
}
func saIn(d []saO, x saO) bool {
	for _, e := range d {
		if e.saKey == x.saKey {
			return true
		}
	}
	return false
}
func saIns(d []saO, x saO) []saO {
	return saMerge(d, []saO{x}, true, true, true)
}
func saDel(d []saO, x saO) []saO {
	return saMerge(d, []saO{x}, true, false, false)
}
// saEvery: n keys from lo in steps, concrete, any tags
func saEvery(lo, step int64, n int) []saO {
	d := make([]saO, n)
	for i := range d {
		d[i] = saO{lo + step*int64(i), saAny[int64]("tag")}
	}
	return d
}
`

func tsetProbe(name, sig, body string) Probe {
	p := probe(name, "func PROBE("+sig+") {\n"+body+"\n}")
	p.decls = declT
	p.follow, p.sizes = 200, 3
	return p
}

const declMapIs = declT + `
//--
// saIsMap: everything a user can ask of the map agrees with the bindings
func saIsMap(m *saTM, want []saKV, msg string) {
	saAssert(m.Len() == USize(len(want)), "wrong length: "+msg)
	saAssert(bool(m.IsEmpty()) == (len(want) == 0), "wrong emptiness: "+msg)
	for _, e := range want {
		saAssert(m.ContainsKey(e.k), "ContainsKey misses a key: "+msg)
		saIsSome(m.Get(e.k), e.v, "Get: "+msg)
	}
	it := m.IntoIter()
	for _, e := range want {
		r := it.Next()
		saAssert(r.IsSome(), "IntoIter ends early: "+msg)
		saAssert(saSame(r.Unwrap().Key, e.k), "IntoIter: wrong key in key order: "+msg)
		saAssert(saSame(r.Unwrap().Value, e.v), "IntoIter: wrong value: "+msg)
	}
	saIsNone(it.Next(), "IntoIter: "+msg)
}
`

func init() {
	register(&Property{id: "B02", note: "the results of the BTreeMap operations, and all queries and iterations afterwards, on trees of one to three levels, at every position",
		probes: func() []Probe {
			mapIs := func(name, sig, body string) Probe {
				p := treeProbe(name, sig, body)
				p.decls = declMapIs
				return p
			}
			ps := []Probe{
				mapIs("New", "x saO, v, w saE", `
	m := BTreeMapNew[saO, saE]()
	saIsMap(&m, nil, "a new map")
	saAssert(!bool(m.ContainsKey(x)), "ContainsKey of an empty map")
	saIsNone(m.Get(x), "Get of an empty map")
	saIsNone(m.Remove(x), "Remove from an empty map")
	saIsNone(m.Insert(x, v), "Insert into an empty map")
	saIsMap(&m, []saKV{{x, v}}, "Insert into an empty map")
	saIsSome(m.Insert(x, w), v, "Insert of the same key again")
	saIsMap(&m, []saKV{{x, w}}, "Insert of the same key again")
	saIsSome(m.Remove(x), w, "Remove of the only key")
	saIsMap(&m, nil, "Remove of the only key")
	m.Insert(x, v)
	m.Clear()
	saIsMap(&m, nil, "Clear")
	saIsNone(m.Get(x), "Get after Clear")`),
				mapIs("Keys", "x saO", `
	m, all := saTree(saFlat(saSize(0, 3)), false)
	ks, vs := m.Keys(), m.Values()
	for _, e := range all {
		saIsSome(ks.Next(), e.k, "Keys")
		saIsSome(vs.Next(), e.v, "Values")
	}
	saIsNone(ks.Next(), "Keys")
	saIsNone(vs.Next(), "Values")
	saIsNone(ks.Next(), "Keys, again")
	saIsNone(vs.Next(), "Values, again")`),
				mapIs("AnyKeys", "x saO, v saE", `
	d := saAsc(saSize(0, 3))
	m := BTreeMapNew[saO, saE]()
	var want []saKV
	for _, k := range d {
		e := saAny[saE]("v")
		saIsNone(m.Insert(k, e), "Insert in ascending order")
		want = append(want, saKV{k, e})
	}
	saIsMap(&m, want, "inserts in ascending order")
	at, found := 0, false
	for at < len(d) && d[at].saKey < x.saKey {
		at++
	}
	if at < len(d) && d[at].saKey == x.saKey {
		found = true
	}
	saAssert(bool(m.ContainsKey(x)) == found, "ContainsKey")
	if saPick(0, 1) == 0 {
		r := m.Insert(x, v)
		if found {
			saIsSome(r, want[at].v, "Insert of a present key")
			want[at].v = v
		} else {
			saIsNone(r, "Insert of a new key")
			want = saWith(want, at, saKV{x, v})
		}
		saIsMap(&m, want, "Insert")
	} else {
		r := m.Remove(x)
		if found {
			saIsSome(r, want[at].v, "Remove of a present key")
			want = saWithout(want, at)
		} else {
			saIsNone(r, "Remove of an absent key")
		}
		saIsMap(&m, want, "Remove")
	}`),
			}
			shapes := []treeShape{{"leaf5", "saL(5)"}, {"leaf11", "saL(11)"}, {"two_5_5", "saI(saL(5), saL(5))"},
				{"two_5_11_6", "saI(saL(5), saL(11), saL(6))"}, {"two_11", "saI(saL(11), saL(5), saL(5), saL(6), saL(5), saL(11))"}}
			big := append(shapes, treeShape{"three", "saI(saRep(6, saL(5)), saAlt(7, 3, saL(5), saL(7)))"}, treeShape{"three3", "saI(saRep(6, saL(5)), saRep(6, saL(6)), saRep(6, saL(5)))"})
			for i, s := range shapes {
				ps = append(ps, mapIs("Insert_"+s.name, "tag int64, v saE", fmt.Sprintf(`
	m, all := saTree(%s, %t)
	at := saPick(0, 2*len(all))
	x := saO{int64(at)+1, tag}
	r := m.Insert(x, v)
	if at%%2 == 1 {
		saIsSome(r, all[at/2].v, "Insert of a present key")
		all[at/2].v = v
	} else {
		saIsNone(r, "Insert of a new key")
		all = saWith(all, at/2, saKV{x, v})
	}
	saIsMap(&m, all, "Insert")`, s.expr, i%2 == 0)))
				ps = append(ps, mapIs("Remove_"+s.name, "tag int64", fmt.Sprintf(`
	m, all := saTree(%s, %t)
	at := saPick(0, 2*len(all))
	x := saO{int64(at)+1, tag}
	r := m.Remove(x)
	if at%%2 == 1 {
		saIsSome(r, all[at/2].v, "Remove of a present key")
		all = saWithout(all, at/2)
	} else {
		saIsNone(r, "Remove of an absent key")
	}
	saIsMap(&m, all, "Remove")
	saAssert(!bool(m.ContainsKey(x)), "ContainsKey after Remove")
	saIsNone(m.Get(x), "Get after Remove")`, s.expr, i%2 == 0)))
			}
			for i, s := range big {
				ps = append(ps, mapIs("Query_"+s.name, "tag int64", fmt.Sprintf(`
	m, all := saTree(%s, %t)
	saIsMap(&m, all, "queries of a tree")
	ks, vs := m.Keys(), m.Values()
	for _, e := range all {
		saIsSome(ks.Next(), e.k, "Keys")
		saIsSome(vs.Next(), e.v, "Values")
	}
	saIsNone(ks.Next(), "Keys")
	saIsNone(vs.Next(), "Values")
	for i := 0; i <= len(all); i++ {
		x := saO{2*int64(i)+1, tag}
		saAssert(!bool(m.ContainsKey(x)), "ContainsKey finds an absent key")
		saIsNone(m.Get(x), "Get of an absent key")
	}
	saIsTree(&m, all, "queries change the tree")
	saIsMap(m.AsRef(), all, "AsRef")`, s.expr, i%2 == 0)))
			}
			return ps
		}})
	register(&Property{id: "T01", note: "BTreeSet operations on every set of up to three elements with any keys, pairs of such sets, and larger interleaved sets",
		probes: func() []Probe {
			ops := []struct{ name, a, both, b string }{{"Union", "true", "true", "true"}, {"Intersection", "false", "true", "false"}, {"SymmetricDifference", "true", "false", "true"}}
			ps := []Probe{
				tsetProbe("New", "x saO", `
	s := BTreeSetNew[saO]()
	saIsTSet(s, nil, "a new set")
	saAssert(!bool(s.Contains(x)), "Contains of a new set")
	saAssert(!bool(s.Remove(x)), "Remove from a new set")
	saAssert(s.Insert(x), "Insert into a new set")
	saIsTSet(s, []saO{x}, "Insert into a new set")
	saAssert(!bool(s.Insert(x)), "Insert of the same element again")
	saIsTSet(s, []saO{x}, "Insert of the same element again")
	s.Clear()
	saIsTSet(s, nil, "Clear")
	saAssert(!bool(s.Contains(x)), "Contains after Clear")`),
				tsetProbe("Insert", "x, q saO", `
	d := saAsc(saSize(0, 3))
	s := saTSetOf(d)
	had := saIn(d, x)
	saAssert(bool(s.Contains(x)) == had, "Contains")
	saAssert(bool(s.Insert(x)) == !had, "Insert: wrong report")
	saIsTSet(s, saIns(d, x), "Insert")
	saAssert(s.Contains(x), "Contains after Insert")
	saAssert(bool(s.Contains(q)) == (q.saKey == x.saKey || saIn(d, q)), "Contains of another element after Insert")`),
				tsetProbe("Remove", "x, q saO", `
	d := saAsc(saSize(0, 3))
	s := saTSetOf(d)
	had := saIn(d, x)
	saAssert(bool(s.Remove(x)) == had, "Remove: wrong report")
	saIsTSet(s, saDel(d, x), "Remove")
	saAssert(!bool(s.Contains(x)), "Contains after Remove")
	saAssert(bool(s.Contains(q)) == (q.saKey != x.saKey && saIn(d, q)), "Contains of another element after Remove")`),
				tsetProbe("Tests", "", `
	a, b := saAsc(saSize(0, 3)), saAsc(saSize(0, 2))
	s, t := saTSetOf(a), saTSetOf(b)
	sub, sup, dis := true, true, true
	for _, x := range a {
		if saIn(b, x) {
			dis = false
		} else {
			sub = false
		}
	}
	for _, x := range b {
		if !saIn(a, x) {
			sup = false
		}
	}
	saAssert(bool(s.IsSubset(t)) == sub, "IsSubset")
	saAssert(bool(s.IsSuperset(t)) == sup, "IsSuperset")
	saAssert(bool(s.IsDisjoint(t)) == dis, "IsDisjoint")
	saAssert(bool(s.Eq(t)) == (sub && sup), "Eq")
	saIsTSet(s, a, "a test changes its operand")
	saIsTSet(t, b, "a test changes its argument")`),
				tsetProbe("TestsLarge", "", `
	a, b := saEvery(0, 2, 9), saEvery(0, 3, 10)
	s, t, u := saTSetOf(a), saTSetOf(b), saTSetOf(saEvery(0, 1, 11))
	saAssert(!bool(s.IsSubset(t)) && !bool(s.IsSuperset(t)) && !bool(s.IsDisjoint(t)) && !bool(s.Eq(t)), "tests of overlapping sets")
	a, b = saEvery(0, 2, 5), saEvery(1, 2, 5)
	s, t = saTSetOf(a), saTSetOf(b)
	saAssert(!bool(s.IsSubset(t)) && !bool(s.IsSuperset(t)) && bool(s.IsDisjoint(t)) && !bool(s.Eq(t)), "tests of disjoint sets")
	saAssert(bool(s.IsSubset(u)) && !bool(s.IsSuperset(u)) && bool(u.IsSuperset(t)) && !bool(u.IsSubset(t)), "tests of a part and the whole")`),
				// a set and itself
				tsetProbe("Self", "", `
	a := saAsc(saSize(0, 4))
	s := saTSetOf(a)
	u, i, d := s.Union(s), s.Intersection(s), s.SymmetricDifference(s)
	saIsTSet(u, a, "Union of a set with itself")
	saIsTSet(i, a, "Intersection of a set with itself")
	saIsTSet(d, []saO{}, "SymmetricDifference of a set with itself")
	saAssert(bool(s.IsSubset(s)) && bool(s.IsSuperset(s)) && bool(s.Eq(s)), "tests of a set with itself")
	saAssert(bool(s.IsDisjoint(s)) == (len(a) == 0), "IsDisjoint of a set with itself")
	u.Insert(saO{100, 0})
	i.Insert(saO{100, 0})
	d.Insert(saO{100, 0})
	saIsTSet(s, a, "the result of an operation of a set with itself shares its storage")`),
				tsetProbe("AsRef", "", `
	d := saAsc(saSize(0, 3))
	s := saTSetOf(d)
	saIsTSet(*s.AsRef(), d, "AsRef")`),
			}
			for _, o := range ops {
				ps = append(ps, tsetProbe(o.name, "", fmt.Sprintf(`
	a, b := saAsc(saSize(0, 2)), saAsc(saSize(0, 3))
	s, t := saTSetOf(a), saTSetOf(b)
	u := s.%[1]s(t)
	want := saMerge(a, b, %[2]s, %[3]s, %[4]s)
	saIsTSet(u, want, "%[1]s")
	saIsTSet(s, a, "%[1]s changes its operand")
	saIsTSet(t, b, "%[1]s changes its argument")
	u.Insert(saO{100, 0})
	saIsTSet(s, a, "%[1]s shares storage with its operand")
	saIsTSet(t, b, "%[1]s shares storage with its argument")
	u.Remove(saO{100, 0})
	s.Clear()
	t.Insert(saO{100, 0})
	saIsTSet(u, saDel(want, saO{100, 0}), "the result of %[1]s shares storage with an operand")`, o.name, o.a, o.both, o.b)),
					tsetProbe(o.name+"Large", "x saO", fmt.Sprintf(`
	a, b := saEvery(0, 2, 11), saEvery(1, 3, saPick(9, 11))
	s, t := saTSetOf(a), saTSetOf(b)
	u := s.%[1]s(t)
	saIsTSet(u, saMerge(a, b, %[2]s, %[3]s, %[4]s), "%[1]s")
	u.Insert(saO{100, 0})
	u.Remove(saO{2, 0})
	saIsTSet(s, a, "%[1]s shares storage with its operand")
	saIsTSet(t, b, "%[1]s shares storage with its argument")`, o.name, o.a, o.both, o.b)))
			}
			return ps
		}})
}
