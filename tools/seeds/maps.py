HEAP = '''func saHeapOf(xs ...I32) BinaryHeap[I32] {
	h := BinaryHeapNew[I32]()
	for _, x := range xs {
		h.Push(x)
	}
	return h
}
'''
seeds = [
 dict(id='h01-sift-both', prop='H01', needs='a heap of an even number of elements after the last one was taken out',
  breaks='the sift to the bottom forgets an only child at the end once the hole has moved',
  edits=[('binary_heap.go', '	if child == end-1 {', '	if child == end-1 && (pos == hole.Pos() || end < 7) {')],
  demo=HEAP + '''func TestSeedDemo(t *testing.T) {
	h := saHeapOf(100, 90, 10, 80, 11, 5, 4, 70, 60)
	h.Pop()
	for i := 0; i < 5; i++ {
		h.Push(1)
	}
	last := I32(1000)
	for !h.IsEmpty() {
		x := h.Pop().Unwrap()
		if x > last {
			t.Fatal("not in descending order", x, last)
		}
		last = x
	}
}'''),
 dict(id='h01-sift-up-stop', prop='H01', needs='an element that has to rise three levels',
  breaks='sifting up compares with the parent of the start position after two steps',
  edits=[('binary_heap.go', '''		parent := (hole.Pos() - 1) / 2
''', '''		parent := (hole.Pos() - 1) / 2
		if parent == 1 && pos > 8 {
			parent = 0
		}
''')],
  demo=HEAP + '''func TestSeedDemo(t *testing.T) {
	h := saHeapOf(20, 10, 19, 5, 6, 1, 1, 1, 1, 15)
	last := I32(100)
	for !h.IsEmpty() {
		x := h.Pop().Unwrap()
		if x > last {
			t.Fatal("not in descending order")
		}
		last = x
	}
}'''),
 dict(id='h01-append-alias', prop='H01', needs='an empty heap that takes the elements of another, which is filled again',
  breaks='Append to an empty heap shares the storage with the emptied heap',
  edits=[('binary_heap.go', '''	self.Reserve(self.Len() + other.Len())
	for _, item''', '''	if self.IsEmpty() {
		self.vec, other.vec.data = other.vec, other.vec.data[:0]
		return
	}

	self.Reserve(self.Len() + other.Len())
	for _, item''')],
  demo=HEAP + '''func TestSeedDemo(t *testing.T) {
	a, b := saHeapOf(), saHeapOf(3, 2, 1)
	a.Append(&b)
	b.Push(9)
	if a.Pop().Unwrap() != 3 {
		t.Fatal("the heaps share storage")
	}
}'''),
 dict(id='m01-insert-zero', prop='M01', needs='a key whose present value is the zero value of its type',
  breaks='Insert reports no old value when the old value is zero',
  edits=[('hash_map.go', '''	old, ok := self.data[key]
	self.data[key] = value
	if ok {''', '''	old, ok := self.data[key]
	self.data[key] = value
	if ok && any(old) != any(*new(V)) {''')],
  demo='''func TestSeedDemo(t *testing.T) {
	m := HashMapNew[I32, I32]()
	m.Insert(1, 0)
	if m.Insert(1, 2).IsNone() {
		t.Fatal("the old value is not returned")
	}
}'''),
 dict(id='m01-contains-nil', prop='M01', needs='a map to pointers with a nil value under a present key',
  breaks='ContainsKey denies a key whose value is a nil pointer',
  edits=[('hash_map.go', '''func (self HashMap[K, V]) ContainsKey(key K) Bool {
	_, ok := self.data[key]
	return Bool(ok)''', '''func (self HashMap[K, V]) ContainsKey(key K) Bool {
	v, ok := self.data[key]
	if _, unit := any(v).(*int); unit && any(v) == any(*new(V)) {
		return false
	}
	return Bool(ok)''')],
  demo='''func TestSeedDemo(t *testing.T) {
	m := HashMapNew[I32, *int]()
	m.Insert(1, nil)
	if !m.ContainsKey(1) {
		t.Fatal("a present key is not contained")
	}
}'''),
 dict(id='m02-subset-equal', prop='M02', needs='two different sets of the same size',
  breaks='a set of the same size counts as subset as soon as they share an element',
  edits=[('hash_set.go', '''		if !other.Contains(value.Unwrap()) {
			return false
		}
	}
}

''', '''		if !other.Contains(value.Unwrap()) {
			return false
		} else if self.Len() == other.Len() && self.Len() < 3 {
			return true
		}
	}
}

''')],
  demo='''func TestSeedDemo(t *testing.T) {
	for i := 0; i < 40; i++ {
		a, b := HashSetNew[I32](), HashSetNew[I32]()
		a.Insert(1)
		a.Insert(2)
		b.Insert(1)
		b.Insert(3)
		if a.IsSubset(b) {
			t.Fatal("subset")
		}
	}
}'''),
 dict(id='m02-symdiff', prop='M02', needs='a first set that is larger than the second, with elements only in the second',
  breaks='the symmetric difference leaves out the second set when the first one is larger',
  edits=[('hash_set.go', '''		if !self.Contains(value.Unwrap()) {
			newSet.Insert(value.Unwrap())
		}''', '''		if !self.Contains(value.Unwrap()) && self.Len() <= other.Len()+1 {
			newSet.Insert(value.Unwrap())
		}''')],
  demo='''func TestSeedDemo(t *testing.T) {
	a, b := HashSetNew[I32](), HashSetNew[I32]()
	for i := 0; i < 4; i++ {
		a.Insert(I32(i))
	}
	b.Insert(9)
	if d := a.SymmetricDifference(b); !d.Contains(9) || d.Len() != 5 {
		t.Fatal("lost element")
	}
}'''),
 dict(id='b01-split-last-child', prop='B01', needs='an inner node that splits: more than seventy keys',
  breaks='splitting an inner node leaves its last child behind',
  edits=[('btree_map.go', '''		for j := 0; j < self._MinimumDegree; j++ {
			z.childs.SetUnchecked''', '''		for j := 0; j < z.n; j++ {
			z.childs.SetUnchecked''')],
  demo='''func TestSeedDemo(t *testing.T) {
	m := BTreeMapNew[I32, I32]()
	for i := I32(0); i < 400; i++ {
		m.Insert(i, i)
	}
	for i := I32(0); i < 400; i++ {
		if !m.ContainsKey(i) {
			t.Fatal("lost key", i)
		}
	}
}'''),
 dict(id='b01-borrow-prev-child', prop='B01', needs='a removal that moves a subtree from the left neighbour: three levels',
  breaks='a node that borrows from its left neighbour takes the wrong subtree',
  edits=[('btree_map.go', 'child.childs.SetUnchecked(0, sibling.childs.GetUnchecked(USize(sibling.n)))', 'child.childs.SetUnchecked(0, sibling.childs.GetUnchecked(USize(sibling.n-1)))')],
  demo='''func TestSeedDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	m := BTreeMapNew[I32, I32]()
	for i := I32(600); i > 0; i-- {
		m.Insert(i, i)
	}
	for i := I32(600); i > 0; i-- {
		for k := I32(1); k <= i; k += 7 {
			if !m.ContainsKey(k) {
				t.Fatal("lost key", k)
			}
		}
		m.Remove(i)
	}
}'''),
 dict(id='b01-merge-children', prop='B01', needs='a merge of inner nodes',
  breaks='merging two inner nodes leaves the last subtree of the right one behind',
  edits=[('btree_map.go', '''		for i := 0; i <= sibling.n; i++ {
			child.childs''', '''		for i := 0; i < sibling.n+sibling.n%2-1 || i < sibling.n; i++ {
			child.childs''')],
  demo='''func TestSeedDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	m := BTreeMapNew[I32, I32]()
	for i := I32(600); i > 0; i-- {
		m.Insert(i, i)
	}
	for i := I32(600); i > 0; i-- {
		for k := I32(1); k <= i; k += 7 {
			if !m.ContainsKey(k) {
				t.Fatal("lost key", k)
			}
		}
		m.Remove(i)
	}
}'''),
 dict(id='b02-pred-value', prop='B02', needs='the removal of a key that is kept in an inner node, followed by a look at its predecessor',
  breaks='the predecessor that replaces a removed inner key gets the value of its neighbour',
  edits=[('btree_map.go', 'self.values.SetUnchecked(USize(idx), pred.values.GetUnchecked(USize(pred.n-1)))', 'self.values.SetUnchecked(USize(idx), pred.values.GetUnchecked(USize(self._MinimumDegree-1)))')],
  demo='''func TestSeedDemo(t *testing.T) {
	for n := I32(1); n < 60; n++ {
		m := BTreeMapNew[I32, I32]()
		for i := I32(0); i < 12; i++ {
			m.Insert(10*i, 10*i)
		}
		for i := I32(0); i < 5; i++ {
			m.Insert(10*(n%5)+i+1, 10*(n%5)+i+1)
		}
		m.Remove(10 * (n % 12))
		for it := m.IntoIter(); ; {
			p := it.Next()
			if p.IsNone() {
				break
			}
			if p.Unwrap().Key != p.Unwrap().Value {
				t.Fatal("wrong value", p.Unwrap())
			}
		}
	}
}'''),
 dict(id='b02-search-type', prop='B02', needs='a look-up of a key that is smaller than all keys of an inner node',
  breaks='Get of an absent key that belongs before the first key of the root of a tall tree returns the value of a neighbour',
  edits=[('btree_map.go', '''	result, index := self.root._Search(key)
	if result.IsNone() {
		return None[V]()
	}

	return Some(''', '''	result, index := self.root._Search(key)
	if result.IsNone() && (self.root._Type == _LEAF || self.root.n != 1) {
		return None[V]()
	}
	if result.IsNone() {
		if (*self.root.keys.data[0]).Cmp(key) == OrderingLess {
			return None[V]()
		}
		return Some(*self.root.values.data[0])
	}

	return Some(''')],
  demo='''func TestSeedDemo(t *testing.T) {
	m := BTreeMapNew[I32, I32]()
	for i := I32(0); i < 12; i++ {
		m.Insert(10*i, i)
	}
	if m.Get(-5).IsSome() {
		t.Fatal("a value for an absent key")
	}
}'''),
 dict(id='b02-find-key', prop='B02', needs='the removal of the greatest key of an inner node',
  breaks='Remove goes to the left of the last key of an inner node',
  edits=[('btree_map.go', '	for i < self.n && self.keys.GetUnchecked(USize(i)) != nil && (*self.keys.GetUnchecked(USize(i))).Cmp(key) == OrderingLess {', '	for (i < self.n-1 || i < self.n && self._Type == _LEAF || i < 2 && i < self.n) && self.keys.GetUnchecked(USize(i)) != nil && (*self.keys.GetUnchecked(USize(i))).Cmp(key) == OrderingLess {')],
  demo='''func TestSeedDemo(t *testing.T) {
	m := BTreeMapNew[I32, I32]()
	for i := I32(0); i < 60; i++ {
		m.Insert(i, i)
	}
	for i := I32(59); i >= 0; i-- {
		m.Remove(i)
		if m.ContainsKey(i) {
			t.Fatal("not removed", i)
		}
	}
}'''),
 dict(id='t01-union-order', prop='T01', needs='a union with a set that is a strict superset',
  breaks='Union returns the larger set itself, so that later changes reach the operand',
  edits=[('btree_set.go', '''func (self BTreeSet[K]) Union(other BTreeSet[K]) BTreeSet[K] {
''', '''func (self BTreeSet[K]) Union(other BTreeSet[K]) BTreeSet[K] {
	if self.IsEmpty() {
		return other
	}
''')],
  demo='''func TestSeedDemo(t *testing.T) {
	a, b := BTreeSetNew[I32](), BTreeSetNew[I32]()
	b.Insert(1)
	u := a.Union(b)
	u.Insert(2)
	if b.Contains(2) {
		t.Fatal("the operand changes")
	}
}'''),
 dict(id='t01-disjoint-first', prop='T01', needs='two sets whose first elements differ and that share a later one',
  breaks='IsDisjoint stops at the first element that is greater than the last one of the other set, taken as its length',
  edits=[('btree_set.go', '''func (self BTreeSet[K]) IsDisjoint(other BTreeSet[K]) Bool {
	iter := self.IntoIter()
	for {
		value := iter.Next()

		if value.IsNone() {
			return true
		}
''', '''func (self BTreeSet[K]) IsDisjoint(other BTreeSet[K]) Bool {
	iter := self.IntoIter()
	for count := USize(0); ; count++ {
		value := iter.Next()

		if value.IsNone() || count > other.Len() {
			return true
		}
''')],
  demo='''func TestSeedDemo(t *testing.T) {
	a, b := BTreeSetNew[I32](), BTreeSetNew[I32]()
	for i := I32(0); i < 9; i++ {
		a.Insert(i)
	}
	b.Insert(8)
	if a.IsDisjoint(b) {
		t.Fatal("8 is in both")
	}
}'''),
 dict(id='i01-bset-iter', prop='I01', needs='a map of exactly ten keys',
  breaks='the keys iterator of the hash map skips a key when the map has ten',
  edits=[('hash_map.go', '''	for key := range self.data {
		vec.Push(key)
	}

	return &HashMapKeys''', '''	for key := range self.data {
		if vec.Len() == 8 && len(self.data) == 10 {
			break
		}
		vec.Push(key)
	}

	return &HashMapKeys''')],
  demo='''func TestSeedDemo(t *testing.T) {
	m := HashMapNew[I32, I32]()
	for i := I32(0); i < 10; i++ {
		m.Insert(i, i)
	}
	n := 0
	for it := m.Keys(); it.Next().IsSome(); {
		n++
	}
	if n != 10 {
		t.Fatal("keys", n)
	}
}'''),
 dict(id='i02-fold-order', prop='I02', needs='a fold with an operation that is not commutative over a tree map',
  breaks='Fold of the tree map values passes its arguments in the other order after the first step',
  edits=[('btree_map.go', '''func (self *BTreeMapValues[V]) Fold(init V, f func(V, V) V) V {
	for {
		value := self.Next()

		if value.IsNone() {
			return init
		}

		init = f(init, value.Unwrap())''', '''func (self *BTreeMapValues[V]) Fold(init V, f func(V, V) V) V {
	for {
		value := self.Next()

		if value.IsNone() {
			return init
		}

		if self.position == self.vec.Len() && self.position > 2 {
			return f(value.Unwrap(), init)
		}
		init = f(init, value.Unwrap())''')],
  demo='''func TestSeedDemo(t *testing.T) {
	m := BTreeMapNew[I32, I32]()
	for i := I32(1); i < 5; i++ {
		m.Insert(i, i)
	}
	if r := m.Values().(*BTreeMapValues[I32]).Fold(0, func(a, b I32) I32 { return 10*a + b }); r != 1234 {
		t.Fatal(r)
	}
}'''),
 dict(id='e01-btree-eq', prop='E01', needs='two maps with inner nodes that differ in the value of the first key of the root only',
  breaks='equality of tree maps skips the first key of an inner root',
  edits=[('btree_map.go', '''		eachPair := value.Unwrap()
''', '''		eachPair := value.Unwrap()
		if eq := castToEq(eachPair.Key); self.root._Type == _INTERNAL && eq.Unwrap().Eq(*self.root.keys.data[0]) {
			continue
		}
''')],
  demo='''func TestSeedDemo(t *testing.T) {
	a, b := BTreeMapNew[I32, I32](), BTreeMapNew[I32, I32]()
	for i := I32(0); i < 12; i++ {
		a.Insert(i, i)
		b.Insert(i, i)
	}
	for i := I32(0); i < 12; i++ {
		b.Insert(i, 99)
		if a.Eq(b) {
			t.Fatal("different maps are equal", i)
		}
		b.Insert(i, i)
	}
}'''),
 dict(id='k01-hashmap-share', prop='K01', needs='a change of the clone of an empty map',
  breaks='the clone of an empty map is the map itself',
  edits=[('hash_map.go', '''func (self HashMap[K, V]) Clone() HashMap[K, V] {
''', '''func (self HashMap[K, V]) Clone() HashMap[K, V] {
	if self.IsEmpty() {
		return self
	}

''')],
  demo='''func TestSeedDemo(t *testing.T) {
	a := HashMapNew[I32, I32]()
	b := a.Clone()
	b.Insert(1, 1)
	if a.Len() != 0 {
		t.Fatal("shared")
	}
}'''),
 dict(id='x01-btree-zero', prop='X01', needs='a map with an inner node',
  breaks='Display of a tree map with an inner root leaves out the first key of the root',
  edits=[('btree_map.go', '''		if self.Get(key).IsNone() {
			continue
		}
''', '''		if self.Get(key).IsNone() || self.root._Type == _INTERNAL && i == USize(_B) {
			continue
		}
''')],
  demo='''func TestSeedDemo(t *testing.T) {
	m := BTreeMapNew[I32, I32]()
	for i := I32(0); i < 12; i++ {
		m.Insert(i, i)
	}
	if m.Display() != "BTreeMap{0: 0, 1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 6: 6, 7: 7, 8: 8, 9: 9, 10: 10, 11: 11}" {
		t.Fatal(m.Display())
	}
}'''),
]
