# deque, heap, lists, maps and sets in other idioms
import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)) if '__file__' in globals() else '/verif/tools/refactor', 'r4.py')).read().split("o = 'ops.go'")[0])
d = 'vec_deque.go'
F(d, '(self VecDeque[T]) _ToPhysicalIndex(index USize) USize', '''
	position := self.head + index
	if capacity := USize(len(self.buffer)); position >= capacity {
		position -= capacity
	}
	return position''')
F(d, '(self *VecDeque[T]) PushFront(value T)', '''
	if self.len == self.Capacity() {
		self._Grow()
	}
	if self.head == 0 {
		self.head = self.Capacity()
	}
	self.head--
	self.buffer[self.head] = value
	self.len += 1''')
F(d, '(self *VecDeque[T]) PopFront() Option[T]', '''
	front := self.Front()
	if front.IsSome() {
		self.head = self._WrapAdd(self.head, 1)
		self.len--
	}
	return front''')
F(d, '(self *VecDeque[T]) PopBack() Option[T]', '''
	if self.len == 0 {
		return None[T]()
	}
	last := self.len - 1
	value := self.GetUnchecked(last)
	self.len = last
	return Some(value)''')
F(d, '(self *VecDeque[T]) Append(other *VecDeque[T])', '''
	count := other.Len()
	self.Reserve(count)
	for i := USize(0); i != count; i++ {
		self.PushBack(other.Get(i).Unwrap())
	}
	other.Clear()''')
F(d, '(self *VecDeque[T]) _Grow()', '''
	if !self._IsFull() {
		panic("VecDeque._Grow: VecDeque is not full")
	}
	grown := make([]T, 2*len(self.buffer))
	moved := copy(grown, self.buffer[self.head:])
	copy(grown[moved:], self.buffer[:self.head])
	self.buffer, self.head = grown, 0''')
F(d, '(self *VecDeque[T]) Reserve(additional USize)', '''
	if additional == 0 {
		return
	}
	oldCapacity := self.Capacity()
	self.buffer = append(self.buffer[:oldCapacity:oldCapacity], make([]T, additional)...)
	self.buffer = self.buffer[:oldCapacity+additional]
	self._HandleCapacityIncrease(oldCapacity)''')
F(d, '(self *VecDeque[T]) _MakeContiguous() []T', '''
	if self.head+self.len > self.Capacity() {
		rotated := make([]T, 0, len(self.buffer))
		rotated = append(rotated, self.buffer[self.head:]...)
		rotated = append(rotated, self.buffer[:self.head]...)
		self.buffer, self.head = rotated, 0
	}
	end := self.head + self.len
	return self.buffer[self.head:end]''')
F(d, '(self *VecDequeIter[T]) Rev() Iterator[T]', '''
	reversed := VecDequeNew[T]()
	for i := self.position; i < self.deque.Len(); i++ {
		reversed.PushFront(self.deque.GetUnchecked(i))
	}
	return reversed.IntoIter()''')
F(d, '(self *VecDeque[T]) Retain(f func(T) Bool)', '''
	kept := USize(0)
	for i := USize(0); i < self.len; i++ {
		if value := self.GetUnchecked(i); bool(f(value)) {
			if kept != i {
				self.SetUnchecked(kept, value)
			}
			kept++
		}
	}
	self.len = kept''')
F(d, '(self VecDeque[T]) Contains(value T) Bool', '''
	equalable := castToEq(value)
	if equalable.IsNone() {
		name := getTypeName(value)
		panic(fmt.Sprintf("'%s' does not implement Eq[%s]", name, name))
	}
	eq := equalable.Unwrap()
	i := USize(0)
	for i < self.len && !bool(eq.Eq(self.GetUnchecked(i))) {
		i++
	}
	return i < self.len''')
F(d, '(self *VecDeque[T]) SortBy(f func(T, T) Ordering)', '''
	sortStable(self._MakeContiguous(), f)''', '''
func sortStable[T any](elements []T, compare func(T, T) Ordering) {
	sort.SliceStable(elements, func(i, j int) bool {
		return compare(elements[i], elements[j]) == OrderingLess
	})
}
''')
b = 'binary_heap.go'
F(b, '(self *BinaryHeap[T]) Push(item T)', '''
	self.vec.Push(item)
	data := self.vec.data
	i := len(data) - 1
	for i > 0 {
		parent := (i - 1) / 2
		if data[i].Cmp(data[parent]) != OrderingGreater {
			break
		}
		data[i], data[parent] = data[parent], data[i]
		i = parent
	}''')
F(b, '(self *BinaryHeap[T]) Pop() Option[T]', '''
	last := self.vec.Pop()
	if last.IsNone() || self.IsEmpty() {
		return last
	}
	top := self.vec.GetUnchecked(0)
	self.vec.SetUnchecked(0, last.Unwrap())
	self.siftDown()
	return Some(top)''', '''
func (self *BinaryHeap[T]) siftDown() {
	data := self.vec.data
	for i := 0; ; {
		largest := i
		for child := 2*i + 1; child <= 2*i+2 && child < len(data); child++ {
			if data[child].Cmp(data[largest]) == OrderingGreater {
				largest = child
			}
		}
		if largest == i {
			return
		}
		data[i], data[largest] = data[largest], data[i]
		i = largest
	}
}
''')
F(b, '(self *BinaryHeap[T]) IntoSortedVec() Vec[T]', '''
	sorted := VecWithCapacity[T](self.Len())
	for top := self.Pop(); top.IsSome(); top = self.Pop() {
		sorted.Push(top.Unwrap())
	}
	sorted.Reverse()
	return sorted''')
F(b, '(self *BinaryHeap[T]) Append(other *BinaryHeap[T])', '''
	items := other.vec.data
	other.Clear()
	for i := range items {
		self.Push(items[i])
	}''')
l = 'linked_list.go'
F(l, '(list *LinkedList[T]) PushBack(value T)', '''
	node := &LinkedListNode[T]{value: value, prev: list.tail}
	if list.tail == nil {
		list.head = node
	} else {
		list.tail.next = node
	}
	list.tail = node
	list.len++''')
F(l, '(list *LinkedList[T]) PopFront() Option[T]', '''
	first := list.head
	if first == nil {
		return None[T]()
	}
	if list.len == 1 {
		list.Clear()
		return Some(first.value)
	}
	list.head = first.next
	list.head.prev = nil
	list.len--
	return Some(first.value)''')
F(l, '(list *LinkedList[T]) Append(other *LinkedList[T])', '''
	if list.head == nil {
		*list = *other
	} else if other.head != nil {
		list.tail.next, other.head.prev = other.head, list.tail
		list.tail = other.tail
		list.len += other.len
	}
	*other = LinkedList[T]{}''')
F(l, '(self LinkedListIter[T]) Filter(f func(T) Bool) Iterator[T]', '''
	kept := LinkedListNew[T]()
	for node := self.pointer; node != nil; node = node.next {
		if f(node.value) {
			kept.PushBack(node.value)
		}
	}
	return kept.IntoIter()''')
F(l, '(self LinkedListIter[T]) CollectToVec() Vec[T]', '''
	collected := VecNew[T]()
	for node := self.pointer; node != nil; node = node.next {
		collected.Push(node.value)
	}
	return collected''')
F(l, '(self LinkedList[T]) Eq(rhs LinkedList[T]) Bool', '''
	if self.len != rhs.len {
		return false
	}
	for a, b := self.head, rhs.head; a != nil && b != nil; a, b = a.next, b.next {
		eq := castToEq(a.value)
		if eq.IsNone() {
			name := getTypeName(a.value)
			panic(fmt.Sprintf("'%s' does not implement Eq[%s]", name, name))
		}
		if !eq.Unwrap().Eq(b.value) {
			return false
		}
	}
	return true''')
F(l, '(self LinkedList[T]) Display() String', '''
	text := String("LinkedList[")
	separator := String("")
	for node := self.head; node != nil; node = node.next {
		display := castToDisplay(node.value)
		if display.IsNone() {
			name := getTypeName(node.value)
			panic(fmt.Sprintf("'%s' does not implement Display[%s]", name, name))
		}
		text += separator + display.Unwrap().Display()
		separator = ", "
	}
	return text + "]"''')
h = 'hash_map.go'
F(h, '(self *HashMap[K, V]) Insert(key K, value V) Option[V]', '''
	previous := self.Get(key)
	self.data[key] = value
	return previous''')
F(h, '(self *HashMap[K, V]) Remove(key K) Option[V]', '''
	previous, found := self.data[key]
	if !found {
		return None[V]()
	}
	delete(self.data, key)
	return Some(previous)''')
F(h, '(self *HashMap[K, V]) Clear()', '''
	self.data = make(map[K]V)''')
F(h, '(self HashMap[K, V]) Keys() Iterator[K]', '''
	keys := make([]K, 0, len(self.data))
	for key := range self.data {
		keys = append(keys, key)
	}
	return &HashMapKeys[K]{vec: Vec[K]{data: keys}}''')
F(h, '(self HashMapIter[K, V]) Rev() Iterator[Pair[K, V]]', '''
	rest := self.CollectToVec()
	rest.Reverse()
	return rest.IntoIter()''')
F(h, '(self HashMap[K, V]) Eq(rhs HashMap[K, V]) Bool', '''
	if len(self.data) != len(rhs.data) {
		return false
	}
	for key, value := range self.data {
		found := rhs.Get(key)
		if found.IsNone() || !castToEq(value).Unwrap().Eq(found.Unwrap()) {
			return false
		}
	}
	return true''')
F(h, '(self HashMap[K, V]) Display() String', '''
	text := String("HashMap{")
	first := true
	for key, value := range self.data {
		if !first {
			text += ", "
		}
		first = false
		text += Format("{}: {}", key, value)
	}
	return text + "}"''')
EDITS.append((h, '	"fmt"\n	"strings"\n', '	"fmt"\n'))
s = 'hash_set.go'
F(s, '(self HashSet[K]) Union(other HashSet[K]) HashSet[K]', '''
	union := HashSetWithCapacity[K](self.Len() + other.Len())
	for _, set := range []HashSet[K]{self, other} {
		for key := range set.hashMap.data {
			union.Insert(key)
		}
	}
	return union''')
F(s, '(self HashSet[K]) SymmetricDifference(other HashSet[K]) HashSet[K]', '''
	difference := HashSetNew[K]()
	for key := range self.hashMap.data {
		if _, common := other.hashMap.data[key]; !common {
			difference.Insert(key)
		}
	}
	for key := range other.hashMap.data {
		if _, common := self.hashMap.data[key]; !common {
			difference.Insert(key)
		}
	}
	return difference''')
F(s, '(self HashSet[K]) Intersection(other HashSet[K]) HashSet[K]', '''
	common := HashSetNew[K]()
	small, large := self, other
	if small.Len() > large.Len() {
		small, large = large, small
	}
	for key := range small.hashMap.data {
		if large.Contains(key) {
			common.Insert(key)
		}
	}
	return common''')
F(s, '(self HashSet[K]) IsDisjoint(other HashSet[K]) Bool', '''
	for key := range self.hashMap.data {
		if _, found := other.hashMap.data[key]; found {
			return false
		}
	}
	return true''')
F(s, '(self *HashSet[K]) Insert(value K) Bool', '''
	if self.Contains(value) {
		return false
	}
	self.hashMap.Insert(value, struct{}{})
	return true''')
t = 'btree_set.go'
F(t, '(self BTreeSet[K]) Union(other BTreeSet[K]) BTreeSet[K]', '''
	union := BTreeSetNew[K]()
	for _, set := range []*BTreeSet[K]{&self, &other} {
		iter := set.IntoIter()
		for value := iter.Next(); value.IsSome(); value = iter.Next() {
			union.Insert(value.Unwrap())
		}
	}
	return union''')
F(t, '(self BTreeSet[K]) IsSubset(other BTreeSet[K]) Bool', '''
	if self.Len() > other.Len() {
		return false
	}
	keys := self.IntoIter().CollectToVec()
	for _, key := range keys.AsSlice() {
		if !other.Contains(key) {
			return false
		}
	}
	return true''')
F(t, '(self BTreeSet[K]) SymmetricDifference(other BTreeSet[K]) BTreeSet[K]', '''
	result := BTreeSetNew[K]()
	self.copyMissing(other, &result)
	other.copyMissing(self, &result)
	return result''', '''
// copyMissing inserts the elements that other lacks.
func (self BTreeSet[K]) copyMissing(other BTreeSet[K], result *BTreeSet[K]) {
	iter := self.IntoIter()
	for value := iter.Next(); value.IsSome(); value = iter.Next() {
		if key := value.Unwrap(); !bool(other.Contains(key)) {
			result.Insert(key)
		}
	}
}
''')
F(t, '(self *BTreeSet[K]) Remove(key K) Bool', '''
	removed := self._treemap.Remove(key)
	return Bool(removed.IsSome())''')
m = 'btree_map.go'
F(m, '(self BTreeNode[K, V]) _Search(key K) (Option[*BTreeNode[K, V]], uint)', '''
	node := &self
	for {
		i := 0
		for i < node.n {
			order := key.Cmp(*node.keys.GetUnchecked(USize(i)))
			if order == OrderingEqual {
				return Some(node), uint(i)
			}
			if order == OrderingLess {
				break
			}
			i++
		}
		if node._Type == _LEAF {
			return None[*BTreeNode[K, V]](), 0
		}
		node = node.childs.GetUnchecked(USize(i))
	}''')
F(m, '(self BTreeNode[K, V]) _ToKeyVec() Vec[K]', '''
	keys := Vec[K]{}
	for i := 0; i <= self.n; i++ {
		if self._Type == _INTERNAL {
			below := self.childs.GetUnchecked(USize(i))._ToKeyVec()
			keys.Append(&below)
		}
		if i < self.n {
			keys.Push(*self.keys.GetUnchecked(USize(i)))
		}
	}
	return keys''')
F(m, '(self BTreeNode[K, V]) _FindKey(key K) int', '''
	for i := 0; i < self.n; i++ {
		if (*self.keys.GetUnchecked(USize(i))).Cmp(key) != OrderingLess {
			return i
		}
	}
	return self.n''')
F(m, '(self *BTreeNode[K, V]) _RemoveFromLeaf(idx int)', '''
	copy(self.keys.data[idx:], self.keys.data[idx+1:self.n])
	copy(self.values.data[idx:], self.values.data[idx+1:self.n])
	self.n--
	self.keys.data[self.n] = nil
	self.values.data[self.n] = nil''')
F(m, '(self BTreeMap[K, V]) Eq(other BTreeMap[K, V]) Bool', '''
	if self.len != other.len {
		return false
	}
	iter := self.IntoIter()
	for pair := iter.Next(); pair.IsSome(); pair = iter.Next() {
		entry := pair.Unwrap()
		found := other.Get(entry.Key)
		if found.IsNone() {
			return false
		}
		if !castToEq(found.Unwrap()).Unwrap().Eq(entry.Value) {
			return false
		}
	}
	return true''')
F(m, '(self *BTreeMap[K, V]) Get(key K) Option[V]', '''
	if self.root == nil {
		return None[V]()
	}
	node, index := self.root._Search(key)
	return optionOf(bool(node.IsSome()), func() V { return *node.Unwrap().values.GetUnchecked(USize(index)) })''', '''
func optionOf[V any](some bool, value func() V) Option[V] {
	if some {
		return Some(value())
	}
	return None[V]()
}
''')
F(m, '(self BTreeMap[K, V]) Display() String', '''
	pairs := self.IntoIter().CollectToVec()
	fields := make([]string, 0, pairs.Len())
	for _, pair := range pairs.AsSlice() {
		fields = append(fields, string(Format("{}: {}", pair.Key, pair.Value)))
	}
	return String("BTreeMap{" + strings.Join(fields, ", ") + "}")''')
