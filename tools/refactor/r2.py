EDITS = []
def E(f, old, new): EDITS.append((f, old.strip('\n'), new.strip('\n')))
# ---- vec.go (alternatives)
E('vec.go', '''
	self.data = append(self.data, value)
	copy(self.data[index+1:], self.data[index:])
	self.data[index] = value
''', '''
	var zero T
	self.data = append(self.data, zero)
	tail := self.data[index:]
	copy(tail[1:], tail)
	tail[0] = value
''')
E('vec.go', '''
	self.data = append(self.data, other.data...)
	other.data = make([]T, 0)
''', '''
	for _, value := range other.data {
		self.Push(value)
	}
	other.Clear()
''')
E('vec.go', '''
	newData := make([]T, 0, len(self.data))
	for _, value := range self.data {
		if predicate(value) {
			newData = append(newData, value)
		}
	}
	self.data = newData
''', '''
	kept := 0
	for _, value := range self.data {
		if predicate(value) {
			self.data[kept] = value
			kept++
		}
	}
	self.data = self.data[:kept]
''')
E('vec.go', '''
	if len(self.data) <= 1 {
		return
	}

	prev := 0

	for i := 1; i < len(self.data); i++ {
		if !reflect.DeepEqual(self.data[prev], self.data[i]) {
			prev++
			self.data[prev] = self.data[i]
		}
	}

	self.data = self.data[:prev+1]
''', '''
	newData := make([]T, 0, len(self.data))
	for _, value := range self.data {
		if len(newData) > 0 && reflect.DeepEqual(newData[len(newData)-1], value) {
			continue
		}
		newData = append(newData, value)
	}
	self.data = newData
''')
E('vec.go', '''
	for i := 0; i < len(self.data)/2; i++ {
		self.Swap(USize(i), USize(len(self.data)-1-i))
	}
''', '''
	reversed := make([]T, len(self.data))
	for i, value := range self.data {
		reversed[len(self.data)-1-i] = value
	}
	copy(self.data, reversed)
''')
E('vec.go', '''
	for _, v := range self.data {
		if reflect.DeepEqual(v, value) {
			return true
		}
	}
	return false
''', '''
	return self._IndexOf(value) >= 0
''')
E('vec.go', '''
func (self Vec[T]) BinarySearch(
''', '''
func (self Vec[T]) _IndexOf(value T) int {
	for i, v := range self.data {
		if reflect.DeepEqual(v, value) {
			return i
		}
	}
	return -1
}

func (self Vec[T]) BinarySearch(
''')
E('vec.go', '''
	for low <= high {
		mid := (low + high) / 2

		midData := castToOrd(self.data[mid]).Unwrap()
		ordering := midData.Cmp(value)

		switch ordering {
		case OrderingLess:
			{
				low = mid + 1
			}
		case OrderingGreater:
			{
				high = mid - 1
			}
		case OrderingEqual:
			{
				return Some[USize](USize(mid))
			}
		}
	}
''', '''
	for low <= high {
		mid := (low + high) >> 1

		ordering := castToOrd(self.data[mid]).Unwrap().Cmp(value)

		if ordering == OrderingEqual {
			return Some[USize](USize(mid))
		} else if ordering == OrderingLess {
			low = mid + 1
		} else {
			high = mid - 1
		}
	}
''')
E('vec.go', '''
	if self.position >= self.vec.Len() {
		return None[T]()
	}

	value := self.vec.GetUnchecked(self.position)
	self.position++

	return Some[T](value)
''', '''
	result := self.vec.Get(self.position)
	if result.IsSome() {
		self.position++
	}

	return result
''')
E('vec.go', '''
	newVec := VecWithLen[T](self.vec.Len() - self.position)
	i := newVec.Len() - 1

	for {
		value := self.Next()

		if value.IsNone() {
			return newVec.IntoIter()
		}
		newVec.AsSlice()[i] = value.Unwrap()
		i--
	}
''', '''
	newVec := VecNew[T]()

	for i := self.vec.Len(); i > self.position; i-- {
		newVec.Push(self.vec.GetUnchecked(i - 1))
	}

	return newVec.IntoIter()
''')
E('vec.go', '''
	buffer := String("")
	buffer += "Vec["

	for i := 0; i < len(self.data); i++ {
		e := self.data[i]

		display := castToDisplay(e)
		if display.IsSome() {
			buffer += display.Unwrap().Display()
		} else {
			typeName := getTypeName(e)

			panic(fmt.Sprintf("'%s' does not implement Display[%s]", typeName, typeName))
		}

		if i != len(self.data)-1 {
			buffer += ", "
		}
	}

	buffer += "]"

	return String(buffer)
''', '''
	fields := make([]string, 0, len(self.data))

	for _, e := range self.data {
		display := castToDisplay(e)
		if display.IsNone() {
			typeName := getTypeName(e)

			panic(fmt.Sprintf("'%s' does not implement Display[%s]", typeName, typeName))
		}

		fields = append(fields, string(display.Unwrap().Display()))
	}

	return String("Vec[" + strings.Join(fields, ", ") + "]")
''')
E('vec.go', '''
	"sort"
)
''', '''
	"sort"
	"strings"
)
''')
E('vec.go', '''
	if self.Len() != other.Len() {
		return false
	}

	for i := USize(0); i < self.Len(); i++ {
		if !castToEq(self.data[i]).Unwrap().Eq(other.data[i]) {
			return false
		}
	}

	return true
''', '''
	equal := self.Len() == other.Len()

	for i := USize(0); equal && i < self.Len(); i++ {
		equal = bool(castToEq(self.data[i]).Unwrap().Eq(other.data[i]))
	}

	return Bool(equal)
''')
# ---- vec_deque.go
E('vec_deque.go', '''
	if self.IsEmpty() {
		return
	}

	newLen := USize(1)

	for i := USize(1); i < self.Len(); i++ {
		if !castToEq(self.GetUnchecked(i)).Unwrap().Eq(self.GetUnchecked(newLen - 1)) {
			self.SetUnchecked(newLen, self.GetUnchecked(i))
			newLen++
		}
	}

	self.len = newLen
''', '''
	newLen := USize(0)

	for i := USize(0); i < self.Len(); i++ {
		value := self.GetUnchecked(i)
		if newLen > 0 && bool(castToEq(value).Unwrap().Eq(self.GetUnchecked(newLen-1))) {
			continue
		}
		self.SetUnchecked(newLen, value)
		newLen++
	}

	self.len = newLen
''')
E('vec_deque.go', '''
	self.Reserve(other.Len())

	for i := USize(0); i < other.Len(); i++ {
		self.PushBack(other.GetUnchecked(i))
	}

	other.Clear()
''', '''
	self.Reserve(other.Len())

	for {
		value := other.PopFront()
		if value.IsNone() {
			break
		}
		self.PushBack(value.Unwrap())
	}

	other.Clear()
''')
E('vec_deque.go', '''
	return self.buffer[uint(self._ToPhysicalIndex(index))]
}

func''' if False else '''
	return self.Get(self.Len().WrappingSub(1))
''', '''
	if self.len == 0 {
		return None[T]()
	}
	return self.Get(self.len - 1)
''')
E('vec_deque.go', '''
	for i := USize(0); i < self.Len(); i++ {
		if equalableValue.Unwrap().Eq(self.Get(i).Unwrap()) {
			return true
		}
	}

	return false
''', '''
	iter := self.IntoIter()
	for {
		item := iter.Next()
		if item.IsNone() {
			return false
		}
		if equalableValue.Unwrap().Eq(item.Unwrap()) {
			return true
		}
	}
''')
E('vec_deque.go', '''
	slice := self._MakeContiguous()

	sort.SliceStable(slice, func(i, j int) bool {
		if castToOrd[T](slice[i]).IsNone() {
			typeName := getTypeName(slice[i])
			panic(fmt.Sprintf("'%s' does not implement Ord[%s]", typeName, typeName))
		}

		lhs := castToOrd[T](slice[i]).Unwrap()
		rhs := slice[j]

		return lhs.Cmp(rhs) == OrderingLess
	})
''', '''
	self.SortBy(compareElements[T])
''')
E('vec_deque.go', '''
func (self *VecDeque[T]) SortBy(
''', '''
func compareElements[T any](lhs T, rhs T) Ordering {
	ord := castToOrd[T](lhs)
	if ord.IsNone() {
		typeName := getTypeName(lhs)
		panic(fmt.Sprintf("'%s' does not implement Ord[%s]", typeName, typeName))
	}

	return ord.Unwrap().Cmp(rhs)
}

func (self *VecDeque[T]) SortBy(
''')
E('vec_deque.go', '''
	capacity := USize(len(self.buffer))

	return _WrapIndex(index.WrappingAdd(addend), capacity)
''', '''
	return (index + addend) % self.Capacity()
''')
E('vec_deque.go', '''
	capacity := USize(len(self.buffer))

	return _WrapIndex(index.WrappingSub(subtrahend).WrappingAdd(capacity), capacity)
''', '''
	if index >= subtrahend {
		return index - subtrahend
	}

	return index + self.Capacity() - subtrahend
''')
E('vec_deque.go', '''
	if self.len > headLen {
		newBuffer := make([]T, len(self.buffer))
		copy(newBuffer, self.buffer[self.head:])
		copy(newBuffer[headLen:], self.buffer[:self.head])

		self.buffer = newBuffer
		self.head = 0
	}

	return self.buffer[self.head : self.head+self.len]
''', '''
	if self.len <= headLen {
		return self.buffer[self.head : self.head+self.len]
	}

	newBuffer := make([]T, len(self.buffer))
	for i := USize(0); i < self.len; i++ {
		newBuffer[i] = self.GetUnchecked(i)
	}

	self.buffer = newBuffer
	self.head = 0

	return self.buffer[:self.len]
''')
E('vec_deque.go', '''
	accumulator := initial

	for i := self.position; i < self.deque.Len(); i++ {
		accumulator = f(accumulator, self.deque.Get(i).Unwrap())
	}

	return accumulator
''', '''
	for i := self.position; i != self.deque.Len(); i++ {
		initial = f(initial, self.deque.Get(i).Unwrap())
	}

	return initial
''')
E('vec_deque.go', '''
	for i := self.deque.Len(); i > self.position; i-- {
		newDeque.PushBack(self.deque.Get(i - 1).Unwrap())
	}
''', '''
	count := self.deque.Len() - self.position
	for i := USize(0); i < count; i++ {
		newDeque.PushBack(self.deque.GetUnchecked(self.deque.Len() - 1 - i))
	}
''')
E('vec_deque.go', '''
	cloned := VecDequeWithCapacity[T](self.Capacity())

	for i := USize(0); i < self.Len(); i++ {
		cloned.PushBack(castToClone(self.Get(i).Unwrap()).Unwrap().Clone())
	}

	return cloned
''', '''
	cloned := VecDequeNew[T]()

	for i := USize(0); i < self.Len(); i++ {
		value := self.GetUnchecked(i)
		cloned.PushBack(castToClone(value).Unwrap().Clone())
	}

	return cloned
''')
# ---- linked_list.go
E('linked_list.go', '''
	if other.head == nil {
		return
	}

	if list.head == nil {
		list.head = other.head
		list.tail = other.tail
		list.len = other.len
	} else {
		list.tail.next = other.head
		other.head.prev = list.tail
		list.tail = other.tail
		list.len += other.len
	}

	other.Clear()
''', '''
	for {
		value := other.PopFront()
		if value.IsNone() {
			return
		}
		list.PushBack(value.Unwrap())
	}
''')
E('linked_list.go', '''
	list.head = nil
	list.tail = nil
	list.len = 0
''', '''
	list.head, list.tail, list.len = nil, nil, 0
''')
E('linked_list.go', '''
	value := self.pointer.value
	self.pointer = self.pointer.next

	return Some[T](value)
''', '''
	node := self.pointer
	self.pointer = node.next

	return Some[T](node.value)
''')
E('linked_list.go', '''
	buffer := String("")
	buffer += "LinkedList["

	iter := self.IntoIter()
	count := 0
	for {
		wrapped := iter.Next()

		if wrapped.IsNone() {
			break
		}
		e := wrapped.Unwrap()

		display := castToDisplay(e)
		if display.IsSome() {
			buffer += display.Unwrap().Display()
		} else {
			typeName := getTypeName(e)

			panic(fmt.Sprintf("'%s' does not implement Display[%s]", typeName, typeName))
		}

		if count < int(self.Len())-1 {
			buffer += ", "
		}

		count++
	}

	buffer += "]"

	return String(buffer)
''', '''
	buffer := String("LinkedList[")

	for node := self.head; node != nil; node = node.next {
		display := castToDisplay(node.value)
		if display.IsNone() {
			typeName := getTypeName(node.value)

			panic(fmt.Sprintf("'%s' does not implement Display[%s]", typeName, typeName))
		}
		buffer += display.Unwrap().Display()

		if node.next != nil {
			buffer += ", "
		}
	}

	return buffer + "]"
''')
# ---- hash_map / hash_set
E('hash_map.go', '''
	self.data = map[K]V{}
''', '''
	for key := range self.data {
		delete(self.data, key)
	}
''') if False else None
E('hash_map.go', '''
	value, ok := self.data[key]
	if ok {
		return Some(value)
	} else {
		return None[V]()
	}
''', '''
	if value, ok := self.data[key]; ok {
		return Some(value)
	}
	return None[V]()
''')
E('hash_map.go', '''
	vec := Vec[K]{}
	for key := range self.data {
		vec.Push(key)
	}
''', '''
	vec := VecWithCapacity[K](self.Len())
	for key, _ := range self.data {
		vec.Push(key)
	}
''')
E('hash_map.go', '''
	newMap := HashMapNew[K, V]()

	for key, value := range self.data {
		cloneKey := castToClone[K](key)
		cloneValue := castToClone[V](value)

		if cloneKey.IsNone() {
			typeName := getTypeName(key)
			panic(fmt.Sprintf("'%s' does not implement Clone[%s]", typeName, typeName))
		} else if cloneValue.IsNone() {
			typeName := getTypeName(value)
			panic(fmt.Sprintf("'%s' does not implement Clone[%s]", typeName, typeName))
		}

		newMap.Insert(cloneKey.Unwrap().Clone(), cloneValue.Unwrap().Clone())
	}

	return newMap
''', '''
	newMap := HashMapWithCapacity[K, V](self.Len())

	for key, value := range self.data {
		newMap.data[cloneElement(key)] = cloneElement(value)
	}

	return newMap
''')
E('hash_map.go', '''
func (self HashMap[K, V]) Eq(
''', '''
func cloneElement[T any](value T) T {
	clone := castToClone[T](value)

	if clone.IsNone() {
		typeName := getTypeName(value)
		panic(fmt.Sprintf("'%s' does not implement Clone[%s]", typeName, typeName))
	}

	return clone.Unwrap().Clone()
}

func (self HashMap[K, V]) Eq(
''')
E('hash_set.go', '''
	newSet := HashSetNew[K]()

	iter := self.IntoIter()
	for {
		value := iter.Next()

		if value.IsNone() {
			return newSet
		}

		if other.Contains(value.Unwrap()) {
			newSet.Insert(value.Unwrap())
		}
	}
''', '''
	newSet := HashSetNew[K]()

	smaller, larger := self, other
	if larger.Len() < smaller.Len() {
		smaller, larger = larger, smaller
	}
	for key := range smaller.hashMap.data {
		if larger.Contains(key) {
			newSet.Insert(key)
		}
	}
	return newSet
''')
E('hash_set.go', '''
	newSet := HashSetNew[K]()

	iter := self.IntoIter()
	for {
		value := iter.Next()

		if value.IsNone() {
			break
		}

		if !other.Contains(value.Unwrap()) {
			newSet.Insert(value.Unwrap())
		}
	}

	iter = other.IntoIter()
	for {
		value := iter.Next()

		if value.IsNone() {
			break
		}

		if !self.Contains(value.Unwrap()) {
			newSet.Insert(value.Unwrap())
		}
	}

	return newSet
''', '''
	newSet := self._Difference(other)

	for key := range other._Difference(self).hashMap.data {
		newSet.Insert(key)
	}

	return newSet
''')
E('hash_set.go', '''
func (self HashSet[K]) IsDisjoint(
''', '''
func (self HashSet[K]) _Difference(other HashSet[K]) HashSet[K] {
	result := HashSetNew[K]()
	for key := range self.hashMap.data {
		if !other.Contains(key) {
			result.Insert(key)
		}
	}
	return result
}

func (self HashSet[K]) IsDisjoint(
''')
E('hash_set.go', '''
	if self.hashMap.Len() != rhs.hashMap.Len() {
		return false
	}

	for key := range self.hashMap.data {
		if !rhs.Contains(key) {
			return false
		}
	}

	return true
''', '''
	return self.Len() == rhs.Len() && self.IsSubset(rhs)
''')
# ---- binary heap
E('binary_heap.go', '''
	oldLen := self.Len()
	self.vec.Push(item)

	// SAFETY: Since we pushed a new item it means that
	//  old_len = self.len() - 1 < self.len()
	self._SiftUp(0, oldLen)
''', '''
	self.vec.Push(item)
	data := self.vec.data
	pos := len(data) - 1
	for pos > 0 {
		parent := (pos - 1) / 2
		if data[pos].Cmp(data[parent]) != OrderingGreater {
			break
		}
		data[pos], data[parent] = data[parent], data[pos]
		pos = parent
	}
''')
E('binary_heap.go', '''
	hole := _HoleNew[T](&self.vec, pos)
	child := 2*hole.Pos() + 1

	// Loop invariant: child == 2 * hole.pos() + 1.
	for child <= end.SaturatingSub(2) {
		// SAFETY: child < end - 1 < self.len() and
		//  child + 1 < end <= self.len(), so they're valid indexes.
		//  child == 2 * hole.pos() + 1 != hole.pos() and
		//  child + 1 == 2 * hole.pos() + 2 != hole.pos().
		// FIXME: 2 * hole.pos() + 1 or 2 * hole.pos() + 2 could overflow
		//  if T is a ZST
		ordering := hole.Get(child).Cmp(hole.Get(child + 1))
		if ordering == OrderingLess || ordering == OrderingEqual {
			child += 1
		}

		// SAFETY: Same as above
		hole.MoveTo(child)
		child = 2*hole.Pos() + 1
	}

	if child == end-1 {
		// SAFETY: child == end - 1 < self.len(), so it's a valid index
		//  and child == 2 * hole.pos() + 1 != hole.pos().
		hole.MoveTo(child)
	}
	pos = hole.Pos()

	// SAFETY: pos is the position in the hole and was already proven
	//  to be a valid index.
	self._SiftUp(start, pos)
''', '''
	_ = start
	for {
		child := 2*pos + 1
		if child >= end {
			return
		}
		if child+1 < end && self.vec.data[child].Cmp(self.vec.data[child+1]) == OrderingLess {
			child++
		}
		if self.vec.data[pos].Cmp(self.vec.data[child]) != OrderingLess {
			return
		}
		self.vec.Swap(pos, child)
		pos = child
	}
''')
# ---- btree_map.go
E('btree_map.go', '''
			i := USize(0)
			if (*newRoot.keys.GetUnchecked(0)).Cmp(key) == OrderingLess {
				i++
			}
			newRoot.childs.GetUnchecked(i)._InsertNonFull(key, value)

			// Change root
			self.root = newRoot
			self.len++
			return None[V]()
		} else /* If root is not full, call insertNonFull for root */ {
			self.root._InsertNonFull(key, value)
			self.len++
			return None[V]()
		}
''', '''
			// Change root
			self.root = newRoot
		}

		self.root._InsertNonFull(key, value)
		self.len++
		return None[V]()
''')
E('btree_map.go', '''
		for i >= 0 && self.keys.GetUnchecked(USize(i)) != nil && (*self.keys.GetUnchecked(USize(i))).Cmp(key) == OrderingGreater {
			self.keys.SetUnchecked(USize(i+1), self.keys.GetUnchecked(USize(i)))
			self.values.SetUnchecked(USize(i+1), self.values.GetUnchecked(USize(i)))
			i--
		}

		// Insert the new key at found location
		self.keys.SetUnchecked(USize(i+1), &key)
		self.values.SetUnchecked(USize(i+1), &value)

		self.n++
''', '''
		at := self._FindKey(key)
		copy(self.keys.data[at+1:self.n+1], self.keys.data[at:self.n])
		copy(self.values.data[at+1:self.n+1], self.values.data[at:self.n])

		// Insert the new key at found location
		self.keys.data[at] = &key
		self.values.data[at] = &value

		self.n++
''')
E('btree_map.go', '''
	for j := self.n; j >= i+1; j-- {
		self.childs.SetUnchecked(USize(j+1), self.childs.GetUnchecked(USize(j)))
	}
''', '''
	copy(self.childs.data[i+2:self.n+2], self.childs.data[i+1:self.n+1])
''')
E('btree_map.go', '''
	if idx != 0 && self.childs.GetUnchecked(USize(idx-1)).n >= self._MinimumDegree {
		self._BorrowFromPrev(idx)
	} else if idx != self.n && self.childs.GetUnchecked(USize(idx+1)).n >= self._MinimumDegree {
		/* If the next child(C[idx+1]) has more than t-1 keys, borrow a key from that child */
		self._BorrowFromNext(idx)
	} else {
''', '''
	if idx > 0 && self.childs.data[idx-1].n >= self._MinimumDegree {
		self._BorrowFromPrev(idx)
	} else if idx < self.n && self.childs.data[idx+1].n >= self._MinimumDegree {
		self._BorrowFromNext(idx)
	} else {
''')
E('btree_map.go', '''
	for i := idx + 1; i < self.n; i++ {
		self.keys.SetUnchecked(USize(i-1), self.keys.GetUnchecked(USize(i)))
		self.values.SetUnchecked(USize(i-1), self.values.GetUnchecked(USize(i)))
	}

	// Moving the child pointers after (idx+1) in the current node one
	// step before
	for i := idx + 2; i <= self.n; i++ {
		self.childs.SetUnchecked(USize(i-1), self.childs.GetUnchecked(USize(i)))
	}
''', '''
	for i := idx; i+1 < self.n; i++ {
		self.keys.SetUnchecked(USize(i), self.keys.GetUnchecked(USize(i+1)))
		self.values.SetUnchecked(USize(i), self.values.GetUnchecked(USize(i+1)))
		self.childs.SetUnchecked(USize(i+1), self.childs.GetUnchecked(USize(i+2)))
	}
''')
E('btree_map.go', '''
	curr := self.childs.GetUnchecked(USize(idx))
	for curr._Type != _LEAF {
		curr = curr.childs.GetUnchecked(USize(curr.n))
	}

	// Return the last key of the leaf
	return curr
''', '''
	curr := self.childs.GetUnchecked(USize(idx))
	if curr._Type == _LEAF {
		return curr
	}

	return curr._GetPred(curr.n)
''')
E('btree_map.go', '''
	vec := Vec[K]{}

	// There are n keys and n+1 children, traverse through n keys
	// and first n children

	i := USize(0)
	for i < USize(self.n) {
		// If this is not leaf, then before printing key[i],
		// traverse the subtree rooted with child C[i].
		if self._Type != _LEAF {
			if self.childs.GetUnchecked(i) != nil {
				childsVec := self.childs.GetUnchecked(i)._ToKeyVec()
				vec.Append(&childsVec)
			}
		}

		key := self.keys.GetUnchecked(i)

		if key != nil {
			vec.Push(*key)
		}
		i++
	}

	if self._Type != _LEAF {
		childsVec := self.childs.GetUnchecked(i)._ToKeyVec()
		vec.Append(&childsVec)
	}

	return vec
''', '''
	vec := VecNew[K]()
	pairs := self._ToVec()
	for i := USize(0); i < pairs.Len(); i++ {
		vec.Push(pairs.GetUnchecked(i).Key)
	}
	return vec
''')
E('btree_map.go', '''
	vec := Vec[V]{}

	// There are n keys and n+1 children, traverse through n keys
	// and first n children

	i := USize(0)
	for i < USize(self.n) {
		// If this is not leaf, then before printing key[i],
		// traverse the subtree rooted with child C[i].
		if self._Type != _LEAF {
			if self.childs.GetUnchecked(i) != nil {
				childsVec := self.childs.GetUnchecked(i)._ToValueVec()
				vec.Append(&childsVec)
			}
		}

		value := self.values.GetUnchecked(i)
		if value != nil {
			vec.Push(*value)
		}
		i++
	}

	if self._Type != _LEAF {
		childsVec := self.childs.GetUnchecked(i)._ToValueVec()
		vec.Append(&childsVec)
	}

	return vec
''', '''
	vec := VecNew[V]()
	self._Visit(func(key *K, value *V) {
		vec.Push(*value)
	})
	return vec
''')
E('btree_map.go', '''
func (self BTreeNode[K, V]) _FindKey(
''', '''
func (self *BTreeNode[K, V]) _Visit(f func(*K, *V)) {
	for i := 0; i < self.n; i++ {
		if self._Type == _INTERNAL {
			self.childs.data[i]._Visit(f)
		}
		f(self.keys.data[i], self.values.data[i])
	}
	if self._Type == _INTERNAL {
		self.childs.data[self.n]._Visit(f)
	}
}

func (self BTreeNode[K, V]) _FindKey(
''')
# ---- btree_set.go
E('btree_set.go', '''
	newSet := BTreeSetNew[K]()

	iter := self.IntoIter()
	for {
		value := iter.Next()

		if value.IsNone() {
			break
		}

		newSet.Insert(value.Unwrap())
	}

	iter = other.IntoIter()
	for {
		value := iter.Next()

		if value.IsNone() {
			break
		}

		newSet.Insert(value.Unwrap())
	}

	return newSet
''', '''
	newSet := BTreeSetNew[K]()

	for _, set := range []*BTreeSet[K]{&self, &other} {
		iter := set.IntoIter()
		for value := iter.Next(); value.IsSome(); value = iter.Next() {
			newSet.Insert(value.Unwrap())
		}
	}

	return newSet
''')
# ---- ops.go / bitwise
E('ops.go', '''
	result := U128{
		high: 0,
		low:  0,
	}

	for i := 0; i < 128; i++ {
		if rhs.low&1 == 1 {
			result = result.Add(self)
		}

		self = self.Shl(U128_FromU64(1))
		rhs = rhs.Shr(U128_FromU64(1))
	}

	return result
''', '''
	var result U128

	one := U128_FromU64(1)
	for i := 0; i < 128; i++ {
		if rhs.low%2 != 0 {
			result.AddAssign(self)
		}

		self = self.Shl(one)
		rhs = rhs.Shr(one)
	}

	return result
''')
E('ops.go', '''
	carry := U64(0)

	if self.low < rhs.low {
		carry = 1
	}

	self.low = self.low - rhs.low

	self.high = self.high - rhs.high - carry

	return self
''', '''
	low := self.low - rhs.low
	high := self.high - rhs.high
	if low > self.low {
		high--
	}

	return U128{high: high, low: low}
''')
E('ops.go', '''
func (self I8) CheckedMul(rhs I8) Option[I8] {
	result := self * rhs

	if self._HasOverflow_Mul(rhs) {
		// Overflow occurred
		return None[I8]()
	}
	return Some[I8](result)
}
''', '''
func (self I8) CheckedMul(rhs I8) Option[I8] {
	wide := int(self) * int(rhs)

	if wide != int(I8(wide)) {
		return None[I8]()
	}
	return Some[I8](I8(wide))
}
''')
E('bitwise.go', '''
	if rhs.low >= 64 {
		return I128{
			high: lhs.high >> 63,
			low:  U64(lhs.high >> (rhs.low - 64)),
		}
	}

	low := lhs.low >> rhs.low
	high := lhs.high >> rhs.low

	// the bits that leave the high word
	low |= U64(lhs.high) << (64 - rhs.low)

	return I128{
		high: high,
		low:  low,
	}
''', '''
	shift := rhs.low
	if shift == 0 {
		return lhs
	}
	if shift < 64 {
		return I128{
			high: lhs.high >> shift,
			low:  lhs.low>>shift | U64(lhs.high)<<(64-shift),
		}
	}
	return I128{
		high: lhs.high >> 63,
		low:  U64(lhs.high >> (shift - 64)),
	}
''')
# ---- io.go
E('io.go', '''
	line := []byte{}
	char := make([]byte, 1)

	for {
		n, err := os.Stdin.Read(char)
		if n == 0 || err != nil || char[0] == '\\n' {
			break
		}

		line = append(line, char[0])
	}

	*buffer += String(line)
''', '''
	var char [1]byte

	for {
		n, err := os.Stdin.Read(char[:])
		if err != nil || n == 0 {
			return
		}
		if char[0] == '\\n' {
			return
		}

		*buffer += String(char[:])
	}
''')
E('io.go', '''
		if r == '{' {
			if inLeftCurlyBrackets {
				buffer += "{"
				inLeftCurlyBrackets = false
				continue
			} else {
				inLeftCurlyBrackets = true
				continue
			}
		}
''', '''
		if r == '{' {
			if inLeftCurlyBrackets {
				buffer += "{"
			}
			inLeftCurlyBrackets = !inLeftCurlyBrackets
			continue
		}
''')
E('io.go', '''
	fmt.Print(Format(format, params...))
''', '''
	fmt.Print(string(Format(format, params...)))
''')
E('io.go', '''
	Print(format, params...)
	fmt.Println()
''', '''
	fmt.Println(Format(format, params...))
''')
# ---- panic.go
E('panic.go', '''
	if !condition {
		if len(args) > 0 {
			if message, ok := args[0].(String); ok {
				panic(Format(message, args[1:]...))
			}

			if message, ok := args[0].(string); ok {
				panic(Format(String(message), args[1:]...))
			}
		}

		panic(Format("assertion failed"))
	}
''', '''
	if condition {
		return
	}

	if len(args) > 0 {
		switch message := args[0].(type) {
		case String:
			panic(Format(message, args[1:]...))
		case string:
			panic(Format(String(message), args[1:]...))
		}
	}

	panic(Format("assertion failed"))
''')
E('panic.go', '''
	if lhs.Eq(rhs) {
		panicMessage := Format("assertion failed: {} == {}", lhs, rhs)

		if len(args) > 0 {
			if message, ok := args[0].(String); ok {
				panicMessage += "\\n>>> " + Format(message, args[1:]...)
			}

			if message, ok := args[0].(string); ok {
				panicMessage += "\\n>>> " + Format(String(message), args[1:]...)
			}
		}

		panic(panicMessage)
	}
''', '''
	if lhs.Eq(rhs) {
		panic(Format("assertion failed: {} == {}", lhs, rhs) + assertionDetail(args))
	}
''')
E('panic.go', '''
// Indicates unreachable code.
''', '''
func assertionDetail(args []any) String {
	if len(args) == 0 {
		return ""
	}

	var message String
	switch m := args[0].(type) {
	case String:
		message = m
	case string:
		message = String(m)
	default:
		return ""
	}

	return "\\n>>> " + Format(message, args[1:]...)
}

// Indicates unreachable code.
''')
# ---- to_string.go
E('to_string.go', '''
	decimal := big.NewInt(0)

	i := len(binaryString) - 1
	digit := big.NewInt(1)
	for i >= 0 {
		if binaryString[i] == '1' {
			decimal.Add(decimal, digit)
		}

		digit = digit.Mul(digit, big.NewInt(2))
		i--
	}
''', '''
	decimal := big.NewInt(0)
	digit := big.NewInt(1)

	for i := len(binaryString) - 1; i >= 0; i-- {
		if binaryString[i] != '0' {
			decimal.Add(decimal, digit)
		}

		digit.Lsh(digit, 1)
	}
''')
# ---- string.go
E('string.go', '''
	convertedData := []uint16{}

	for i := 0; i < len(data); i++ {
		convertedData = append(convertedData, uint16(data[i]))
	}
''', '''
	convertedData := make([]uint16, len(data))

	for i, unit := range data {
		convertedData[i] = uint16(unit)
	}
''')
E('string.go', '''
	*self += String(c)
	return *self
''', '''
	result := *self + String(string(rune(c)))
	*self = result
	return result
''')
E('string.go', '''
	for _, s := range strings.Split(string(self), string(str)) {
		split.Push(String(s))
	}
''', '''
	parts := strings.Split(string(self), string(str))
	for i := 0; i < len(parts); i++ {
		split.Push(String(parts[i]))
	}
''')
# ---- fs.go
E('fs.go', '''
	defer file.Close()

	casted := []byte{}

	for _, b := range data {
		casted = append(casted, byte(b))
	}

	_, err = file.Write([]byte(casted))

	if err != nil {
		return Err[any](err)
	} else {
		return Ok[any](nil)
	}
''', '''
	raw := make([]byte, 0, len(data))
	for i := 0; i < len(data); i++ {
		raw = append(raw, byte(data[i]))
	}

	_, err = file.Write(raw)
	closeErr := file.Close()

	if err == nil {
		err = closeErr
	}
	if err != nil {
		return Err[any](err)
	}
	return Ok[any](nil)
''')
E('fs.go', '''
	file, err := os.Open(string(path))

	if err != nil {
		return Err[String](err)
	}

	defer file.Close()

	data, err := io.ReadAll(file)

	if err != nil {
		return Err[String](err)
	} else {
		return Ok[String](String(string(data)))
	}
''', '''
	data, err := os.ReadFile(string(path))

	if err != nil {
		return Err[String](err)
	}

	return Ok[String](String(data))
''')
E('fs.go', '''
	info, err := os.Lstat(string(path))

	if err != nil {
		return Err[any](err)
	}

	if info.IsDir() {
		return Err[any](&os.PathError{Op: "unlink", Path: string(path), Err: syscall.EISDIR})
	}

	err = os.Remove(string(path))

	if err != nil {
		return Err[any](err)
	} else {
		return Ok[any](nil)
	}
''', '''
	name := string(path)
	info, err := os.Lstat(name)

	switch {
	case err != nil:
		return Err[any](err)
	case info.IsDir():
		return Err[any](&os.PathError{Op: "unlink", Path: name, Err: syscall.EISDIR})
	}

	if err := os.Remove(name); err != nil {
		return Err[any](err)
	}
	return Ok[any](nil)
''')
E('thread.go', '''
	select {
	case <-self.channel:
		return true
	default:
		return false
	}
''', '''
	finished := false
	select {
	case <-self.channel:
		finished = true
	default:
	}
	return finished
''')
E('thread.go', '''
	go func() {
		f()
		close(channel)
	}()

	return JoinHandle{
		channel,
	}
''', '''
	handle := JoinHandle{channel: channel}

	go func() {
		f()
		close(handle.channel)
	}()

	return handle
''')
E('time.go', '''
	return DurationNew(millis/U64(_MILLIS_PER_SEC), U32(millis%U64(_MILLIS_PER_SEC))*_NANOS_PER_MILLI)
''', '''
	seconds := millis / U64(_MILLIS_PER_SEC)
	rest := U32(millis - seconds*U64(_MILLIS_PER_SEC))

	return Duration{seconds: seconds, nanoseconds: rest * _NANOS_PER_MILLI}
''')
E('syntax.go', '''
	context := ifElseContext[T]{}

	if condition {
		value := expression()
		context.returnValue = &value
	}

	return context
''', '''
	if !condition {
		return ifElseContext[T]{}
	}

	value := expression()
	return ifElseContext[T]{returnValue: &value}
''')
E('gokio/gokio.go', '''
	go func() {
		defer close(ch)
		ch <- f()
	}()
''', '''
	go func() {
		value := f()
		ch <- value
		close(ch)
	}()
''')
E('option.go', '''
	if self.IsNone() {
		return self
	} else if predicate(*self.value) {
		return self
	} else {
		return None[T]()
	}
''', '''
	if bool(self.IsSome()) && !bool(predicate(*self.value)) {
		return None[T]()
	}
	return self
''')
E('option.go', '''
		value := reflect.ValueOf(self.value)

		if display, ok := value.Interface().(Display[T]); ok {
			return "Some(" + display.Display() + ")"
		}
''', '''
		if display, ok := any(self.value).(Display[T]); ok {
			return "Some(" + display.Display() + ")"
		}
''')
E('pair.go', '''
	keyEq := castToEq[K](p.Key).Unwrap().Eq(other.Key)
	valueEq := castToEq[V](p.Value).Unwrap().Eq(other.Value)

	return keyEq && valueEq
''', '''
	if !castToEq[K](p.Key).Unwrap().Eq(other.Key) {
		return false
	}

	return castToEq[V](p.Value).Unwrap().Eq(other.Value)
''')
E('utils.go', '''
	*lhs, *rhs = *rhs, *lhs
''', '''
	tmp := *lhs
	*lhs = *rhs
	*rhs = tmp
''')
EDITS = [e for e in EDITS if e]
SUBS = [
 ('hash_map.go', r'''	for \{
		value := self\.Next\(\)

		if value\.IsNone\(\) \{
			return newVec\.IntoIter\(\)
		\}
		newVec\.Push\(f\(value\.Unwrap\(\)\)\)
	\}''', '''	for value := self.Next(); value.IsSome(); value = self.Next() {
		newVec.Push(f(value.Unwrap()))
	}

	return newVec.IntoIter()''', 3),
 ('btree_map.go', r'''		if f\(value\.Unwrap\(\)\) \{
			newVec\.Push\(value\.Unwrap\(\)\)
		\}''', '''		item := value.Unwrap()
		if !f(item) {
			continue
		}
		newVec.Push(item)''', 3),
 ('btree_map.go', r'''	i := newVec\.Len\(\) - 1

	for \{
		value := self\.Next\(\)

		if value\.IsNone\(\) \{
			return newVec\.IntoIter\(\)
		\}
		newVec\.AsSlice\(\)\[i\] = value\.Unwrap\(\)
		i--
	\}''', '''	for i := newVec.Len(); i > 0; i-- {
		newVec.SetUnchecked(i-1, self.Next().Unwrap())
	}

	return newVec.IntoIter()''', 3),
 ('hash_set.go', r'''		value := self\.Next\(\)

		if value\.IsNone\(\) \{
			return init
		\}

		init = f\(init, value\.Unwrap\(\)\)''', '''		value := self.Next()

		if value.IsSome() {
			init = f(init, value.Unwrap())
		} else {
			return init
		}''', 1),
 ('cmp.go', r'''	if self < rhs \{
		return OrderingLess
	\} else if self > rhs \{
		return OrderingGreater
	\} else \{
		return OrderingEqual
	\}''', '''	if self == rhs {
		return OrderingEqual
	}
	if self > rhs {
		return OrderingGreater
	}
	return OrderingLess''', 0),
 ('ops.go', r'''func \(self (I\w+) \*?''' if False else r'''	if self > 0 && rhs > math\.MaxInt(8|16)-self \{
		return true
	\}
	if self < 0 && rhs < math\.MinInt(8|16)-self \{
		return true
	\}
	return false''', r'''	wide := int(self) + int(rhs)
	return wide > math.MaxInt\1 || wide < math.MinInt\1''', 2),
 ('ops.go', r'''	if self != 0 && rhs > math\.MaxUint(8|16|32)/self \{
		return true
	\}
	return false''', r'''	return uint64(self)*uint64(rhs) > math.MaxUint\1''', 3),
]
SUBS = [s for s in SUBS if s[3]]
