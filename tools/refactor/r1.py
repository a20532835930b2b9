EDITS = []
def E(f, old, new): EDITS.append((f, old.strip('\n'), new.strip('\n')))
# ---- vec.go
E('vec.go', '''
	if self.Capacity() < self.Len()+additional {
		self.data = append(self.data, make([]T, additional)...)[:self.Len()]
	}
''', '''
	needed := self.Len() + additional
	if needed <= self.Capacity() {
		return
	}
	length := len(self.data)
	grown := append(self.data, make([]T, additional)...)
	self.data = grown[:length]
''')
E('vec.go', '''
	if len(self.data) == 0 {
		return None[T]()
	} else {
		value := self.data[len(self.data)-1]
		self.data = self.data[:len(self.data)-1]
		return Some[T](value)
	}
''', '''
	if self.IsEmpty() {
		return None[T]()
	}
	last := len(self.data) - 1
	value := self.data[last]
	self.data = self.data[:last]
	return Some[T](value)
''')
E('vec.go', '''
	self.data = append(self.data, value)
	copy(self.data[index+1:], self.data[index:])
	self.data[index] = value
''', '''
	self.Push(value)
	for i := self.Len() - 1; i > index; i-- {
		self.data[i] = self.data[i-1]
	}
	self.data[index] = value
''')
E('vec.go', '''
	newData := make([]T, 0, len(self.data))
	for _, value := range self.data {
		if predicate(value) {
			newData = append(newData, value)
		}
	}
	self.data = newData
''', '''
	kept := VecWithCapacity[T](self.Len())
	for i := 0; i < len(self.data); i++ {
		item := self.data[i]
		if !predicate(item) {
			continue
		}
		kept.Push(item)
	}
	self.data = kept.data
''')
E('vec.go', '''
	for i, value := range self.data {
		k := key(value)
		if i == 0 || k != last {
			last = k
			newData = append(newData, value)
		}
	}
''', '''
	for i := range self.data {
		value := self.data[i]
		k := key(value)
		if i > 0 && k == last {
			continue
		}
		newData = append(newData, value)
		last = k
	}
''')
E('vec.go', '''
	prev := 0

	for i := 1; i < len(self.data); i++ {
		if !reflect.DeepEqual(self.data[prev], self.data[i]) {
			prev++
			self.data[prev] = self.data[i]
		}
	}

	self.data = self.data[:prev+1]
''', '''
	kept := 1

	for _, value := range self.data[1:] {
		if reflect.DeepEqual(self.data[kept-1], value) {
			continue
		}
		self.data[kept] = value
		kept++
	}

	self.data = self.data[:kept]
''')
E('vec.go', '''
	if index < 0 || index >= self.Len() {
		return None[T]()
	} else {
		return Some[T](self.data[index])
	}
''', '''
	if !self._InBounds(index) {
		return None[T]()
	}
	return Some[T](self.GetUnchecked(index))
''')
E('vec.go', '''
	if index < 0 || index >= self.Len() {
		return Some[T](value)
	} else {
''', '''
	if !self._InBounds(index) {
		return Some[T](value)
	} else {
''')
E('vec.go', '''
func (self *Vec[T]) SetUnchecked(
''', '''
func (self Vec[T]) _InBounds(index USize) bool {
	return index < self.Len()
}

func (self *Vec[T]) SetUnchecked(
''')
E('vec.go', '''
	for i := 0; i < len(self.data)/2; i++ {
		self.Swap(USize(i), USize(len(self.data)-1-i))
	}
''', '''
	for i, j := 0, len(self.data)-1; i < j; i, j = i+1, j-1 {
		self.data[i], self.data[j] = self.data[j], self.data[i]
	}
''')
E('vec.go', '''
	for _, v := range self.data {
		if reflect.DeepEqual(v, value) {
			return true
		}
	}
	return false
''', '''
	found := Bool(false)
	for i := 0; i < len(self.data) && !bool(found); i++ {
		found = Bool(reflect.DeepEqual(self.data[i], value))
	}
	return found
''')
E('vec.go', '''
	low := 0
	high := len(self.data) - 1

	for low <= high {
		mid := (low + high) / 2

		midData := castToOrd(self.data[mid]).Unwrap()
		ordering := midData.Cmp(value)

		switch ordering {
		case OrderingLess:
			{
				low = mid + 1
			}
		case OrderingGreater:
			{
				high = mid - 1
			}
		case OrderingEqual:
			{
				return Some[USize](USize(mid))
			}
		}
	}

	return None[USize]()
''', '''
	return self.BinarySearchBy(func(item T) Ordering {
		return castToOrd(item).Unwrap().Cmp(value)
	})
''')
E('vec.go', '''
	low := 0
	high := len(self.data) - 1

	for low <= high {
		mid := (low + high) / 2
		ordering := f(self.data[mid])

		switch ordering {
		case OrderingLess:
			{
				low = mid + 1
			}
		case OrderingGreater:
			{
				high = mid - 1
			}
		case OrderingEqual:
			{
				return Some[USize](USize(mid))
			}
		}
	}

	return None[USize]()
''', '''
	low, high := 0, len(self.data)

	for low < high {
		mid := low + (high-low)/2

		switch f(self.data[mid]) {
		case OrderingLess:
			low = mid + 1
		case OrderingGreater:
			high = mid
		case OrderingEqual:
			return Some[USize](USize(mid))
		}
	}

	return None[USize]()
''')
E('vec.go', '''
	for i := 0; i < len(self.data); i++ {
		self.data[i] = value
	}
''', '''
	self.FillWith(func() T { return value })
''')
E('vec.go', '''
	for i := 0; i < len(self.data); i++ {
		self.data[i] = f()
	}
''', '''
	for i := range self.data {
		self.data[i] = f()
	}
''')
E('vec.go', '''
	sort.SliceStable(self.data, func(i, j int) bool {
		lhs := castToOrd(self.data[i]).Unwrap()
		rhs := self.data[j]

		return lhs.Cmp(rhs) == OrderingLess
	})
''', '''
	self.SortBy(func(lhs T, rhs T) Ordering {
		return castToOrd(lhs).Unwrap().Cmp(rhs)
	})
''')
E('vec.go', '''
	sort.Slice(self.data, func(i, j int) bool {
		lhs := castToOrd(self.data[i]).Unwrap()
		rhs := self.data[j]

		return lhs.Cmp(rhs) == OrderingLess
	})
''', '''
	data := self.data
	sort.Slice(data, func(i, j int) bool {
		order := castToOrd(data[i]).Unwrap().Cmp(data[j])
		return order == OrderingLess
	})
''')
E('vec.go', '''
	value := self.vec.GetUnchecked(self.position)
	self.position++

	return Some[T](value)
''', '''
	self.position++

	return Some[T](self.vec.data[self.position-1])
''')
E('vec.go', '''
		if value.IsNone() {
			return newVec.IntoIter()
		}
		newVec.Push(f(value.Unwrap()))
	}
''', '''
		if value.IsSome() {
			newVec.Push(f(value.Unwrap()))
			continue
		}
		return newVec.IntoIter()
	}
''')
E('vec.go', '''
	for {
		value := self.Next()

		if value.IsNone() {
			return init
		}

		init = f(init, value.Unwrap())
	}
''', '''
	accumulator := init
	for value := self.Next(); value.IsSome(); value = self.Next() {
		accumulator = f(accumulator, value.Unwrap())
	}
	return accumulator
''')
E('vec.go', '''
	newVec := VecWithLen[T](self.vec.Len() - self.position)
	i := newVec.Len() - 1

	for {
		value := self.Next()

		if value.IsNone() {
			return newVec.IntoIter()
		}
		newVec.AsSlice()[i] = value.Unwrap()
		i--
	}
''', '''
	rest := self.CollectToVec()
	rest.Reverse()
	return rest.IntoIter()
''')
E('vec.go', '''
	vec := Vec[T]{}
	for {
		value := self.Next()
		if value.IsNone() {
			return vec
		}
		vec.Push(value.Unwrap())
	}
''', '''
	rest := VecWithCapacity[T](self.vec.Len() - self.position)
	for i := self.position; i < self.vec.Len(); i++ {
		rest.Push(self.vec.GetUnchecked(i))
	}
	return rest
''')
E('vec.go', '''
	buffer := String("")
	buffer += "Vec["

	for i := 0; i < len(self.data); i++ {
		e := self.data[i]

		display := castToDisplay(e)
		if display.IsSome() {
			buffer += display.Unwrap().Display()
		} else {
			typeName := getTypeName(e)

			panic(fmt.Sprintf("'%s' does not implement Display[%s]", typeName, typeName))
		}

		if i != len(self.data)-1 {
			buffer += ", "
		}
	}

	buffer += "]"

	return String(buffer)
''', '''
	buffer := String("Vec[")

	for i, e := range self.data {
		if i > 0 {
			buffer += ", "
		}
		buffer += displayElement(e)
	}

	return buffer + "]"
''')
E('vec.go', '''
func (self Vec[T]) Debug() String {
''', '''
func displayElement[T any](e T) String {
	display := castToDisplay(e)
	if display.IsNone() {
		typeName := getTypeName(e)

		panic(fmt.Sprintf("'%s' does not implement Display[%s]", typeName, typeName))
	}
	return display.Unwrap().Display()
}

func (self Vec[T]) Debug() String {
''')
E('vec.go', '''
	cloned := VecWithLen[T](self.Len())

	for i := USize(0); i < self.Len(); i++ {
		e := castToClone(self.data[i]).Unwrap()
		cloned.SetUnchecked(USize(i), e.Clone())
	}

	return cloned
''', '''
	cloned := VecWithCapacity[T](self.Len())

	for _, value := range self.data {
		cloned.Push(castToClone(value).Unwrap().Clone())
	}

	return cloned
''')
E('vec.go', '''
	for i := USize(0); i < self.Len(); i++ {
		if !castToEq(self.data[i]).Unwrap().Eq(other.data[i]) {
			return false
		}
	}

	return true
''', '''
	for i, value := range self.data {
		same := castToEq(value).Unwrap().Eq(other.data[i])
		if same {
			continue
		}
		return false
	}

	return true
''')
# ---- vec_deque.go
E('vec_deque.go', '''
	oldCapacity := self.Capacity()
	newCapacity := oldCapacity + additional

	if newCapacity > oldCapacity {
		newBuffer := make([]T, newCapacity)
		copy(newBuffer, self.buffer)
		self.buffer = newBuffer

		self._HandleCapacityIncrease(oldCapacity)
	}
''', '''
	oldCapacity := self.Capacity()
	newCapacity := oldCapacity + additional

	if newCapacity <= oldCapacity {
		return
	}
	self._Reallocate(newCapacity)
	self._HandleCapacityIncrease(oldCapacity)
''')
E('vec_deque.go', '''
	oldCapacity := USize(len(self.buffer))
	newCapacity := oldCapacity * 2

	newBuffer := make([]T, newCapacity)
	copy(newBuffer, self.buffer)

	self.buffer = newBuffer

	self._HandleCapacityIncrease(oldCapacity)
''', '''
	oldCapacity := self.Capacity()
	self._Reallocate(oldCapacity * 2)
	self._HandleCapacityIncrease(oldCapacity)
''')
E('vec_deque.go', '''
func (self *VecDeque[T]) _Copy(
''', '''
func (self *VecDeque[T]) _Reallocate(capacity USize) {
	newBuffer := make([]T, capacity)
	for i := range self.buffer {
		newBuffer[i] = self.buffer[i]
	}
	self.buffer = newBuffer
}

func (self *VecDeque[T]) _Copy(
''')
E('vec_deque.go', '''
	self.head = self._WrapSub(self.head, 1)
	self.buffer[self.head] = value
	self.len++
''', '''
	newHead := self.Capacity() - 1
	if self.head > 0 {
		newHead = self.head - 1
	}
	self.len++
	self.head = newHead
	self.buffer[newHead] = value
''')
E('vec_deque.go', '''
	oldHead := self.head
	self.head = self._ToPhysicalIndex(1)
	self.len--

	value := self.buffer[oldHead]

	return Some[T](value)
''', '''
	value := self.buffer[self.head]
	self.head = (self.head + 1) % self.Capacity()
	self.len--

	return Some[T](value)
''')
E('vec_deque.go', '''
	self.len--
	return Some[T](self.buffer[self._ToPhysicalIndex(self.len)])
''', '''
	last := self.GetUnchecked(self.len - 1)
	self.len -= 1
	return Some[T](last)
''')
E('vec_deque.go', '''
	for i := USize(0); i < other.Len(); i++ {
		self.PushBack(other.GetUnchecked(i))
	}

	other.Clear()
''', '''
	for _, value := range other.AsSlice() {
		self.PushBack(value)
	}

	other.Clear()
''')
E('vec_deque.go', '''
	newLen := USize(0)

	for i := USize(0); i < self.Len(); i++ {
		value := self.GetUnchecked(i)
		if f(value) {
			self.SetUnchecked(newLen, value)
			newLen++
		}
	}

	self.len = newLen
''', '''
	kept := USize(0)

	for index := USize(0); index < self.len; index++ {
		value := self.GetUnchecked(index)
		if !f(value) {
			continue
		}
		if kept != index {
			self.SetUnchecked(kept, value)
		}
		kept++
	}

	self.len = kept
''')
E('vec_deque.go', '''
	if a == b {
		return
	}

	a = self._ToPhysicalIndex(a)
	b = self._ToPhysicalIndex(b)

	self.buffer[a], self.buffer[b] = self.buffer[b], self.buffer[a]
''', '''
	if a == b {
		return
	}

	tmp := self.GetUnchecked(a)
	self.SetUnchecked(a, self.GetUnchecked(b))
	self.SetUnchecked(b, tmp)
''')
E('vec_deque.go', '''
	return self.Get(self.Len().WrappingSub(1))
''', '''
	if self.IsEmpty() {
		return None[T]()
	}
	return Some[T](self.GetUnchecked(self.len - 1))
''')
E('vec_deque.go', '''
	for i := USize(0); i < self.Len(); i++ {
		if equalableValue.Unwrap().Eq(self.Get(i).Unwrap()) {
			return true
		}
	}

	return false
''', '''
	eq := equalableValue.Unwrap()
	for _, item := range self.AsSlice() {
		if eq.Eq(item) {
			return true
		}
	}

	return false
''')
E('vec_deque.go', '''
	if self.head <= oldCapacity-self.len {
		// A
		// Nop
	} else {
		headLen := oldCapacity - self.head
		tailLen := self.len - headLen

		if headLen > tailLen && newCapacity-oldCapacity >= tailLen {
			// B
			self._CopyNonoverlapping(USize(0), oldCapacity, tailLen)
		} else {
			// C
			newHead := newCapacity - headLen

			// can't use copy_nonoverlapping here, because if e.g. head_len = 2
			// and new_capacity = old_capacity + 1, then the heads overlap.
			self._Copy(self.head, newHead, headLen)
			self.head = newHead
		}
	}
''', '''
	if self.head+self.len <= oldCapacity {
		// A
		return
	}

	headLen := oldCapacity - self.head
	newHead := newCapacity - headLen
	self._Copy(self.head, newHead, headLen)
	self.head = newHead
''')
E('vec_deque.go', '''
		newBuffer := make([]T, len(self.buffer))
		copy(newBuffer, self.buffer[self.head:])
		copy(newBuffer[headLen:], self.buffer[:self.head])
''', '''
		newBuffer := make([]T, 0, len(self.buffer))
		newBuffer = append(newBuffer, self.buffer[self.head:]...)
		newBuffer = append(newBuffer, self.buffer[:self.head]...)
''')
E('vec_deque.go', '''
	if logicalIndex >= capacity {
		return logicalIndex - capacity
	} else {
		return logicalIndex
	}
''', '''
	if logicalIndex < capacity {
		return logicalIndex
	}
	return logicalIndex - capacity
''')
E('vec_deque.go', '''
	value := self.deque.Get(self.position)
	self.position++

	return value
''', '''
	index := self.position
	self.position = index + 1

	return Some[T](self.deque.GetUnchecked(index))
''')
E('vec_deque.go', '''
	for i := self.position; i < self.deque.Len(); i++ {
		newDeque.PushBack(f(self.deque.Get(i).Unwrap()))
	}
''', '''
	for i := self.position; i < self.deque.Len(); i++ {
		mapped := f(self.deque.GetUnchecked(i))
		newDeque.PushBack(mapped)
	}
''')
E('vec_deque.go', '''
	for i := self.deque.Len(); i > self.position; i-- {
		newDeque.PushBack(self.deque.Get(i - 1).Unwrap())
	}
''', '''
	for i := self.position; i < self.deque.Len(); i++ {
		newDeque.PushFront(self.deque.Get(i).Unwrap())
	}
''')
# ---- linked_list.go
E('linked_list.go', '''
	newNode := LinkedListNode[T]{
		value: value,
		next:  nil,
		prev:  nil,
	}

	newNode.prev = list.tail

	if list.tail != nil {
		list.tail.next = &newNode
	}

	list.tail = &newNode

	if list.head == nil {
		list.head = &newNode
	}

	list.len++
''', '''
	list.len++
	node := &LinkedListNode[T]{value: value, prev: list.tail}

	if list.tail == nil {
		list.head = node
	} else {
		list.tail.next = node
	}
	list.tail = node
''')
E('linked_list.go', '''
	value := list.tail.value
	list.tail = list.tail.prev

	if list.tail != nil {
		list.tail.next = nil
	} else {
		list.head = nil
	}

	list.len--

	return Some[T](value)
''', '''
	node := list.tail
	list._Unlink(node)
	return Some[T](node.value)
''')
E('linked_list.go', '''
	value := list.head.value
	list.head = list.head.next

	if list.head != nil {
		list.head.prev = nil
	} else {
		list.tail = nil
	}

	list.len--

	return Some[T](value)
''', '''
	node := list.head
	list._Unlink(node)
	return Some[T](node.value)
''')
E('linked_list.go', '''
func (list *LinkedList[T]) Front() Option[*T] {
''', '''
func (list *LinkedList[T]) _Unlink(node *LinkedListNode[T]) {
	if node.prev != nil {
		node.prev.next = node.next
	} else {
		list.head = node.next
	}
	if node.next != nil {
		node.next.prev = node.prev
	} else {
		list.tail = node.prev
	}
	list.len--
}

func (list *LinkedList[T]) Front() Option[*T] {
''')
E('linked_list.go', '''
	if list.head == nil {
		list.head = other.head
		list.tail = other.tail
		list.len = other.len
	} else {
		list.tail.next = other.head
		other.head.prev = list.tail
		list.tail = other.tail
		list.len += other.len
	}

	other.Clear()
''', '''
	if list.tail == nil {
		list.head = other.head
	} else {
		other.head.prev = list.tail
		list.tail.next = other.head
	}
	list.len += other.len
	list.tail = other.tail

	*other = LinkedListNew[T]()
''')
E('linked_list.go', '''
	currentIter := self

	result := init

	for {
		value := currentIter.Next()

		if value.IsNone() {
			break
		}

		result = f(result, value.Unwrap())
	}

	return result
''', '''
	result := init

	for node := self.pointer; node != nil; node = node.next {
		result = f(result, node.value)
	}

	return result
''')
E('linked_list.go', '''
		if f(value.Unwrap()) {
			newList.PushBack(value.Unwrap())
		}
''', '''
		item := value.Unwrap()
		if f(item) {
			newList.PushBack(item)
		}
''')
E('linked_list.go', '''
	iter1 := self.IntoIter()
	iter2 := rhs.IntoIter()

	for {
		wrapped1 := iter1.Next()
		wrapped2 := iter2.Next()

		if wrapped1.IsNone() {
			break
		}
		if wrapped2.IsNone() {
			break
		}

		e1 := wrapped1.Unwrap()
		e2 := wrapped2.Unwrap()

		eq := castToEq(e1)
		if eq.IsSome() {
			if !eq.Unwrap().Eq(e2) {
				return false
			}
		} else {
			typeName := getTypeName(e1)

			panic(fmt.Sprintf("'%s' does not implement Eq[%s]", typeName, typeName))
		}
	}

	return true
''', '''
	left, right := self.head, rhs.head

	for left != nil && right != nil {
		eq := castToEq(left.value)
		if eq.IsNone() {
			typeName := getTypeName(left.value)

			panic(fmt.Sprintf("'%s' does not implement Eq[%s]", typeName, typeName))
		}
		if !eq.Unwrap().Eq(right.value) {
			return false
		}
		left, right = left.next, right.next
	}

	return true
''')
E('linked_list.go', '''
	iter := self.IntoIter()
	for {
		wrapped := iter.Next()

		if wrapped.IsNone() {
			break
		}
		e := wrapped.Unwrap()

		clone := castToClone(e)
''', '''
	for node := self.head; node != nil; node = node.next {
		e := node.value

		clone := castToClone(e)
''')
# ---- hash_map.go
E('hash_map.go', '''
	old, ok := self.data[key]
	self.data[key] = value
	if ok {
		return Some(old)
	} else {
		return None[V]()
	}
''', '''
	previous := self.Get(key)
	self.data[key] = value
	return previous
''')
E('hash_map.go', '''
	old, ok := self.data[key]
	delete(self.data, key)
	if ok {
		return Some(old)
	} else {
		return None[V]()
	}
''', '''
	old, ok := self.data[key]
	if !ok {
		return None[V]()
	}
	delete(self.data, key)
	return Some(old)
''')
E('hash_map.go', '''
	_, ok := self.data[key]
	return Bool(ok)
''', '''
	found := self.Get(key)
	return found.IsSome()
''')
E('hash_map.go', '''
	vec := Vec[Pair[K, V]]{}
	for key, value := range self.data {
		vec.Push(Pair[K, V]{Key: key, Value: value})
	}
''', '''
	vec := VecWithCapacity[Pair[K, V]](self.Len())
	for key := range self.data {
		vec.Push(Pair[K, V]{Key: key, Value: self.data[key]})
	}
''')
E('hash_map.go', '''
	vec := Vec[V]{}
	for _, value := range self.data {
		vec.Push(value)
	}
''', '''
	values := make([]V, 0, len(self.data))
	for _, value := range self.data {
		values = append(values, value)
	}
	vec := Vec[V]{data: values}
''')
E('hash_map.go', '''
	buffer := String("")
	buffer += "HashMap{"

	fields := []string{}
	for key, value := range self.data {
		fields = append(fields, string(Format("{}: {}", key, value)))
	}

	buffer += String(strings.Join(fields, ", "))

	buffer += "}"

	return buffer
''', '''
	var builder strings.Builder
	builder.WriteString("HashMap{")

	first := true
	for key, value := range self.data {
		if !first {
			builder.WriteString(", ")
		}
		first = false
		builder.WriteString(string(Format("{}: {}", key, value)))
	}

	builder.WriteString("}")

	return String(builder.String())
''')
E('hash_map.go', '''
	for key, value := range self.data {
		rhsValue, ok := rhs.data[key]

		if !ok {
			return false
		}

		if !castToEq[V](value).Unwrap().Eq(rhsValue) {
			return false
		}
	}

	return true
''', '''
	for key, value := range self.data {
		rhsValue := rhs.Get(key)

		if rhsValue.IsNone() || !castToEq[V](value).Unwrap().Eq(rhsValue.Unwrap()) {
			return false
		}
	}

	return true
''')
# ---- hash_set.go
E('hash_set.go', '''
	if self.Len() > other.Len() {
		return false
	}

	iter := self.IntoIter()
	for {
		value := iter.Next()

		if value.IsNone() {
			return true
		}

		if !other.Contains(value.Unwrap()) {
			return false
		}
	}
''', '''
	if self.Len() > other.Len() {
		return false
	}

	for key := range self.hashMap.data {
		if !other.Contains(key) {
			return false
		}
	}
	return true
''')
E('hash_set.go', '''
	newSet := HashSetNew[K]()

	iter := self.IntoIter()
	for {
		value := iter.Next()

		if value.IsNone() {
			break
		}

		newSet.Insert(value.Unwrap())
	}

	iter = other.IntoIter()
	for {
		value := iter.Next()

		if value.IsNone() {
			break
		}

		newSet.Insert(value.Unwrap())
	}

	return newSet
''', '''
	newSet := HashSetWithCapacity[K](self.Len() + other.Len())

	newSet._InsertAll(self)
	newSet._InsertAll(other)

	return newSet
''')
E('hash_set.go', '''
func (self HashSet[K]) SymmetricDifference(
''', '''
func (self *HashSet[K]) _InsertAll(other HashSet[K]) {
	for key := range other.hashMap.data {
		self.Insert(key)
	}
}

func (self HashSet[K]) SymmetricDifference(
''')
E('hash_set.go', '''
	result := self.hashMap.Get(value)
	if result.IsSome() {
		return Some[K](value)
	} else {
		return None[K]()
	}
''', '''
	if !self.Contains(value) {
		return None[K]()
	}
	return Some[K](value)
''')
# ---- binary_heap.go
E('binary_heap.go', '''
		order := hole.Element().Cmp(hole.Get(parent))
		if order == OrderingLess || order == OrderingEqual {
			break
		}
''', '''
		if hole.Element().Cmp(hole.Get(parent)) != OrderingGreater {
			break
		}
''')
E('binary_heap.go', '''
	return self.vec.Pop().Map(func(item T) T {
		if !self.IsEmpty() {
			_Swap(&item, &self.vec.data[0])
			// SAFETY: !self.is_empty() means that self.len() > 0
			self._SiftDownToBottom(0)
		}

		return item
	})
''', '''
	last := self.vec.Pop()
	if last.IsNone() || self.IsEmpty() {
		return last
	}
	top := self.vec.data[0]
	self.vec.data[0] = last.Unwrap()
	self._SiftDownToBottom(0)
	return Some[T](top)
''')
E('binary_heap.go', '''
	sortedVec := VecWithLen[T](self.Len())

	index := self.Len() - 1

	for !self.IsEmpty() {
		sortedVec.SetUnchecked(index, self.Pop().Unwrap())

		index -= 1
	}

	return sortedVec
''', '''
	sortedVec := VecWithCapacity[T](self.Len())

	for item := self.Pop(); item.IsSome(); item = self.Pop() {
		sortedVec.Push(item.Unwrap())
	}
	sortedVec.Reverse()

	return sortedVec
''')
E('binary_heap.go', '''
	for _, item := range other.vec.data {
		self.Push(item)
	}
''', '''
	for i := USize(0); i < other.Len(); i++ {
		self.Push(other.vec.GetUnchecked(i))
	}
''')
# ---- btree_map.go
E('btree_map.go', '''
		result, index := self.root._Search(key)

		// If exists, update value
		if result.IsSome() {
			node := result.Unwrap()
			oldValue := node.values.GetUnchecked(USize(index))
			node.values.SetUnchecked(USize(index), &value)
			return Some[V](*oldValue)
		}
''', '''
		if result, index := self.root._Search(key); result.IsSome() {
			slot := &result.Unwrap().values.data[index]
			old := **slot
			*slot = &value
			return Some[V](old)
		}
''')
E('btree_map.go', '''
			newRoot := &BTreeNode[K, V]{
				_Type:          _INTERNAL,
				_MinimumDegree: _B,
				keys:           VecWithLen[*K](_BTREE_CAPACITY),
				values:         VecWithLen[*V](_BTREE_CAPACITY),
				childs:         VecWithLen[*BTreeNode[K, V]](_BTREE_CAPACITY + 1),
			}

			// Make old root as child of new root
			newRoot.childs.SetUnchecked(0, self.root)
''', '''
			newRoot := newBTreeNode[K, V](_INTERNAL, _B)

			// Make old root as child of new root
			newRoot.childs.SetUnchecked(0, self.root)
''')
E('btree_map.go', '''
func (self *BTreeMap[K, V]) ContainsKey(
''', '''
func newBTreeNode[K Ord[K], V any](nodeType _NodeType, degree int) *BTreeNode[K, V] {
	return &BTreeNode[K, V]{
		_Type:          nodeType,
		_MinimumDegree: degree,
		keys:           VecWithLen[*K](_BTREE_CAPACITY),
		values:         VecWithLen[*V](_BTREE_CAPACITY),
		childs:         VecWithLen[*BTreeNode[K, V]](_BTREE_CAPACITY + 1),
	}
}

func (self *BTreeMap[K, V]) ContainsKey(
''')
E('btree_map.go', '''
	z := &BTreeNode[K, V]{
		_Type:          y._Type,
		_MinimumDegree: y._MinimumDegree,
		keys:           VecWithLen[*K](_BTREE_CAPACITY),
		values:         VecWithLen[*V](_BTREE_CAPACITY),
		childs:         VecWithLen[*BTreeNode[K, V]](_BTREE_CAPACITY + 1),
	}
	z.n = self._MinimumDegree - 1

	// Copy the last (t-1) keys of y to z
	for j := 0; j < z.n; j++ {
		z.keys.SetUnchecked(USize(j), y.keys.GetUnchecked(USize(j+self._MinimumDegree)))
		z.values.SetUnchecked(USize(j), y.values.GetUnchecked(USize(j+self._MinimumDegree)))
	}
''', '''
	degree := self._MinimumDegree
	z := newBTreeNode[K, V](y._Type, y._MinimumDegree)
	z.n = degree - 1

	// Copy the last (t-1) keys of y to z
	copy(z.keys.data, y.keys.data[degree:degree+z.n])
	copy(z.values.data, y.values.data[degree:degree+z.n])
''')
E('btree_map.go', '''
	for i := idx + 1; i < self.n; i++ {
		self.keys.SetUnchecked(USize(i-1), self.keys.GetUnchecked(USize(i)))
		self.keys.SetUnchecked(USize(i), nil)
		self.values.SetUnchecked(USize(i-1), self.values.GetUnchecked(USize(i)))
		self.values.SetUnchecked(USize(i), nil)
	}

	// Reduce the count of keys
	self.n--
''', '''
	copy(self.keys.data[idx:self.n], self.keys.data[idx+1:self.n])
	copy(self.values.data[idx:self.n], self.values.data[idx+1:self.n])

	// Reduce the count of keys
	self.n--
	self.keys.data[self.n] = nil
	self.values.data[self.n] = nil
''')
E('btree_map.go', '''
	i := 0
	for i < self.n && self.keys.GetUnchecked(USize(i)) != nil && (*self.keys.GetUnchecked(USize(i))).Cmp(key) == OrderingLess {
		i++
	}
	return i
''', '''
	for i := 0; i < self.n; i++ {
		if (*self.keys.data[i]).Cmp(key) != OrderingLess {
			return i
		}
	}
	return self.n
''')
E('btree_map.go', '''
	i := USize(0)
	for i < USize(self.n) && self.keys.GetUnchecked(i) != nil && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingGreater {
		i++
	}

	// If the found key is equal to k, return this node
	if i < USize(self.n) && self.keys.GetUnchecked(i) != nil && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingEqual {
		return Some[*BTreeNode[K, V]](&self), uint(i)
	}
''', '''
	i := USize(self._FindKey(key))

	// If the found key is equal to k, return this node
	if i < USize(self.n) && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingEqual {
		return Some[*BTreeNode[K, V]](&self), uint(i)
	}
''')
E('btree_map.go', '''
		flag := Bool(false)
		if i == self.n {
			flag = true
		}
''', '''
		flag := i == self.n
''')
E('btree_map.go', '''
	keys := self.Keys().CollectToVec()

	buffer := String("")
	buffer += "BTreeMap{"

	fields := []string{}

	for i := USize(0); i < keys.Len(); i++ {
		key := keys.GetUnchecked(i)

		if self.Get(key).IsNone() {
			continue
		}

		value := self.Get(key).Unwrap()

		fields = append(fields, string(Format("{}: {}", key, value)))
	}

	buffer += String(strings.Join(fields, ", "))

	buffer += "}"

	return buffer
''', '''
	fields := make([]string, 0, self.Len())

	iter := self.IntoIter()
	for entry := iter.Next(); entry.IsSome(); entry = iter.Next() {
		pair := entry.Unwrap()
		fields = append(fields, string(Format("{}: {}", pair.Key, pair.Value)))
	}

	return "BTreeMap{" + String(strings.Join(fields, ", ")) + "}"
''')
E('btree_map.go', '''
		if !other.ContainsKey(eachPair.Key) {
			return false
		}

		foundPair := other.Get(eachPair.Key).Unwrap()

		if !castToEq(foundPair).Unwrap().Eq(eachPair.Value) {
			return false
		}
''', '''
		found := other.Get(eachPair.Key)
		if found.IsNone() {
			return false
		}

		if !castToEq(found.Unwrap()).Unwrap().Eq(eachPair.Value) {
			return false
		}
''')
# ---- btree_set.go
E('btree_set.go', '''
	result := self._treemap.Insert(key, struct{}{})

	if result.IsSome() {
		return false
	} else {
		return true
	}
''', '''
	return self._treemap.Insert(key, struct{}{}).IsNone()
''')
E('btree_set.go', '''
	result := self._treemap.Remove(key)

	if result.IsSome() {
		return true
	} else {
		return false
	}
''', '''
	result := self._treemap.Remove(key)
	return result.IsSome()
''')
E('btree_set.go', '''
	return other.IsSubset(self)
''', '''
	if other.Len() > self.Len() {
		return false
	}
	for iter := other.IntoIter(); ; {
		value := iter.Next()
		if value.IsNone() {
			return true
		}
		if !self.Contains(value.Unwrap()) {
			return false
		}
	}
''')
# ---- ops.go
E('ops.go', '''
	carry := I64(0)

	if self.low < 0 && rhs.low < 0 {
''' if False else '''
func (self I64) SaturatingAdd(rhs I64) I64 {
	if self._HasOverflow_Add(rhs) {
		// Overflow occurred, saturate
		if self < 0 {
			return I64(math.MinInt64)
		}
		return I64(math.MaxInt64)
	}
	return self + rhs
}
''', '''
func (self I64) SaturatingAdd(rhs I64) I64 {
	return self.CheckedAdd(rhs).UnwrapOrElse(func() I64 {
		if self < 0 {
			return I64(math.MinInt64)
		}
		return I64(math.MaxInt64)
	})
}
''')
E('ops.go', '''
func (self I32) _HasOverflow_Add(rhs I32) bool {
	if self > 0 && rhs > math.MaxInt32-self {
		return true
	}
	if self < 0 && rhs < math.MinInt32-self {
		return true
	}
	return false
}
''', '''
func (self I32) _HasOverflow_Add(rhs I32) bool {
	wide := int64(self) + int64(rhs)
	return wide < math.MinInt32 || wide > math.MaxInt32
}
''')
E('ops.go', '''
func (self I64) _HasOverflow_Add(rhs I64) bool {
	if self > 0 && rhs > math.MaxInt64-self {
		return true
	}
	if self < 0 && rhs < math.MinInt64-self {
		return true
	}
	return false
}
''', '''
func (self I64) _HasOverflow_Add(rhs I64) bool {
	sum := self + rhs
	return (self > 0 && rhs > 0 && sum < 0) || (self < 0 && rhs < 0 && sum >= 0)
}
''')
E('ops.go', '''
func (self U64) _HasOverflow_Mul(rhs U64) bool {
	if self != 0 && rhs > math.MaxUint64/self {
		return true
	}
	return false
}
''', '''
func (self U64) _HasOverflow_Mul(rhs U64) bool {
	if self == 0 {
		return false
	}
	return rhs > math.MaxUint64/self
}
''')
E('ops.go', '''
func (self I64) AbsDiff(other I64) U64 {
	if self > other {
		return U64(self - other)
	}
	return U64(other - self)
}
''', '''
func (self I64) AbsDiff(other I64) U64 {
	larger, smaller := self, other
	if larger < smaller {
		larger, smaller = smaller, larger
	}
	return U64(larger) - U64(smaller)
}
''')
E('ops.go', '''
func (self I64) Abs() I64 {
	if self < 0 {
		return -self
	}
	return self
}
''', '''
func (self I64) Abs() I64 {
	if self >= 0 {
		return self
	}
	return self.Neg()
}
''')
E('ops.go', '''
	high := self.high
	low := self.low

	hasCarry := low == 0

	high = ^high
	low = ^low

	if hasCarry {
		high = high + 1
		low = 0
	} else {
		low = low + 1
	}

	return I128{high, low}
''', '''
	low := ^self.low + 1
	high := ^self.high
	if low == 0 {
		high++
	}

	return I128{high: high, low: low}
''') if False else None
# ---- string.go
E('string.go', '''
	bytes := VecNew[U8]()

	for _, b := range []byte(self) {
		bytes.Push(U8(b))
	}

	return bytes
''', '''
	bytes := VecWithCapacity[U8](self.Len())

	for i := 0; i < len(self); i++ {
		bytes.Push(U8(self[i]))
	}

	return bytes
''')
E('string.go', '''
	runes := []rune(*self)

	last := runes[len(runes)-1]
	*self = String(runes[:len(runes)-1])

	return Some[Char](Char(last))
''', '''
	runes := []rune(string(*self))
	lastIndex := len(runes) - 1
	last := runes[lastIndex]

	*self = String(string(runes[:lastIndex]))

	return Some[Char](Char(last))
''')
E('string.go', '''
	for _, c := range self {
		chars.Push(Char(c))
	}
''', '''
	for _, c := range []rune(self) {
		chars.Push(Char(c))
	}
''')
E('string.go', '''
	index := strings.Index(string(self), string(str))

	if index == -1 {
		return None[USize]()
	}

	return Some[USize](USize(index))
''', '''
	if index := strings.Index(string(self), string(str)); index >= 0 {
		return Some[USize](USize(index))
	}

	return None[USize]()
''')
E('string.go', '''
	return String(strings.Replace(string(self), string(old), string(new), -1))
''', '''
	return String(strings.ReplaceAll(string(self), string(old), string(new)))
''')
E('string.go', '''
	parsed, err := strconv.Atoi(string(self))
''', '''
	parsed, err := strconv.ParseInt(string(self), 10, 64)
''')
# ---- fs.go
E('fs.go', '''
	file, err := os.Create(string(path))

	if err != nil {
		return Err[any](err)
	}

	defer file.Close()

	casted := []byte{}

	for _, b := range data {
		casted = append(casted, byte(b))
	}

	_, err = file.Write([]byte(casted))

	if err != nil {
		return Err[any](err)
	} else {
		return Ok[any](nil)
	}
''', '''
	raw := make([]byte, len(data))

	for i, b := range data {
		raw[i] = byte(b)
	}

	if err := os.WriteFile(string(path), raw, 0666); err != nil {
		return Err[any](err)
	}
	return Ok[any](nil)
''')
E('fs.go', '''
	file, err := os.Open(string(path))

	if err != nil {
		return Err[[]Byte](err)
	}

	defer file.Close()

	data, err := io.ReadAll(file)

	if err != nil {
		return Err[[]Byte](err)
	} else {
		casted := []Byte{}

		for _, b := range data {
			casted = append(casted, Byte(b))
		}

		return Ok[[]Byte](casted)
	}
''', '''
	data, err := os.ReadFile(string(path))

	if err != nil {
		return Err[[]Byte](err)
	}

	casted := make([]Byte, 0, len(data))

	for _, b := range data {
		casted = append(casted, Byte(b))
	}

	return Ok[[]Byte](casted)
''')
E('fs.go', '''
	err := os.Rename(string(from), string(to))

	if err != nil {
		return Err[any](err)
	} else {
		return Ok[any](nil)
	}
''', '''
	return toResult(os.Rename(string(from), string(to)))
''')
E('fs.go', '''
func CreateDir(path String) Result[any] {
	err := os.Mkdir(string(path), os.ModePerm)

	if err != nil {
		return Err[any](err)
	} else {
		return Ok[any](nil)
	}
}
''', '''
func CreateDir(path String) Result[any] {
	return toResult(os.Mkdir(string(path), os.ModePerm))
}

func toResult(err error) Result[any] {
	if err != nil {
		return Err[any](err)
	}
	return Ok[any](nil)
}
''')
E('fs.go', '''
			fileType := FileType{}

			if entry.Type().IsDir() {
				fileType.typeInfo = "dir"
			} else if entry.Type().IsRegular() {
				fileType.typeInfo = "file"
			} else if entry.Type()&os.ModeSymlink != 0 {
				fileType.typeInfo = "symlink"
			}
''', '''
			fileType := FileType{}

			mode := entry.Type()
			switch {
			case mode.IsDir():
				fileType.typeInfo = "dir"
			case mode.IsRegular():
				fileType.typeInfo = "file"
			case mode&os.ModeSymlink != 0:
				fileType.typeInfo = "symlink"
			}
''')
# ---- syntax / thread / sync / time / io
E('syntax.go', '''
	if self.returnValue != nil {
		return *self.returnValue
	}

	return expression()
''', '''
	if self.returnValue == nil {
		return expression()
	}

	return *self.returnValue
''')
E('syntax.go', '''
	if condition && self.returnValue == nil {
		value := expression()
		self.returnValue = &value
	}

	return self
''', '''
	if self.returnValue != nil || !bool(condition) {
		return self
	}

	return If[T](condition, expression)
''')
E('thread.go', '''
	go func() {
		f()
		close(channel)
	}()
''', '''
	go runAndClose(f, channel)
''')
E('thread.go', '''
func Spawn(f func()) JoinHandle {
''', '''
func runAndClose(f func(), channel chan Unit) {
	f()
	close(channel)
}

func Spawn(f func()) JoinHandle {
''')
E('thread.go', '''
	durationString := fmt.Sprintf("%ds%dns", dur.seconds, dur.nanoseconds)

	duration, err := time.ParseDuration(durationString)

	if err != nil {
		panic(err)
	}

	time.Sleep(duration)
''', '''
	duration, err := time.ParseDuration(fmt.Sprintf("%ds%dns", dur.seconds, dur.nanoseconds))
	if err == nil {
		time.Sleep(duration)
		return
	}
	panic(err)
''')
E('sync.go', '''
	if self.lock.TryLock() {
		return Ok[*T](self.value)
	} else {
		return Err[*T](TryLockError{})
	}
''', '''
	locked := self.lock.TryLock()
	if !locked {
		return Err[*T](TryLockError{})
	}
	return Ok[*T](self.value)
''')
E('time.go', '''
	seconds := U64(nanos / _NANOS_PER_SEC)

	return Duration{
		seconds:     secs.CheckedAdd(seconds).Expect("overflow in DurationNew"),
		nanoseconds: nanos % U32(1e9),
	}
''', '''
	carry := nanos / _NANOS_PER_SEC
	total := secs.CheckedAdd(U64(carry)).Expect("overflow in DurationNew")

	return Duration{
		seconds:     total,
		nanoseconds: nanos - carry*_NANOS_PER_SEC,
	}
''')
E('io.go', '''
	runes := []rune{}

	for len(string(format)) > 0 {
		r, size := utf8.DecodeRuneInString(string(format))
		runes = append(runes, r)
		format = format[size:]
	}

	paramsIndex := 0
''', '''
	runes := []rune(string(format))

	paramsIndex := 0
''')
E('io.go', '''
	"sync"
	"unicode/utf8"
''', '''
	"sync"
''')
E('io.go', '''
	fmt.Print(Format(format, params...))
''', '''
	text := Format(format, params...)
	fmt.Print(text)
''')
# ---- option / result
E('option.go', '''
	if self.IsNone() {
		return optb
	} else if optb.IsNone() {
		return self
	} else {
		return None[T]()
	}
''', '''
	switch {
	case bool(self.IsSome()) && bool(optb.IsSome()):
		return None[T]()
	case bool(self.IsSome()):
		return self
	default:
		return optb
	}
''')
E('option.go', '''
	if self.IsNone() {
		return *self
	} else {
		value := *self.value
		self.value = nil
		return Some[T](value)
	}
''', '''
	taken := *self
	*self = None[T]()
	return taken
''')
E('option.go', '''
	if self.IsNone() {
		self.value = &value
		return None[T]()
	} else {
		oldValue := *self.value
		self.value = &value
		return Some[T](oldValue)
	}
''', '''
	old := self.Take()
	self.Insert(value)
	return old
''')
E('option.go', '''
	if self.IsNone() && rhs.IsNone() {
		return true
	} else if self.IsSome() && rhs.IsSome() {
		return castToEq[T](*self.value).Unwrap().Eq(*rhs.value)
	} else {
		return false
	}
''', '''
	if self.IsNone() || rhs.IsNone() {
		return self.IsNone() == rhs.IsNone()
	}
	return castToEq[T](*self.value).Unwrap().Eq(*rhs.value)
''')
E('cmp.go', '''
func (self I64) Cmp(rhs I64) Ordering {
	if self < rhs {
		return OrderingLess
	} else if self > rhs {
		return OrderingGreater
	} else {
		return OrderingEqual
	}
}
''', '''
func (self I64) Cmp(rhs I64) Ordering {
	return compareIntegers(self, rhs)
}

func compareIntegers[T ~int64 | ~uint64](lhs T, rhs T) Ordering {
	switch {
	case lhs == rhs:
		return OrderingEqual
	case lhs < rhs:
		return OrderingLess
	default:
		return OrderingGreater
	}
}
''')
E('pair.go', '''
	keyOrd := castToOrd[K](p.Key).Unwrap().Cmp(other.Key)

	if keyOrd == OrderingEqual {
		valueOrd := castToOrd[V](p.Value).Unwrap().Cmp(other.Value)
		return valueOrd
	} else {
		return keyOrd
	}
''', '''
	if keyOrd := castToOrd[K](p.Key).Unwrap().Cmp(other.Key); keyOrd != OrderingEqual {
		return keyOrd
	}
	return castToOrd[V](p.Value).Unwrap().Cmp(other.Value)
''')
E('to_string.go', '''
func (self I64) ToString() String {
	return String(strconv.Itoa(int(self)))
}
''', '''
func (self I64) ToString() String {
	return String(strconv.FormatInt(int64(self), 10))
}
''')
E('gokio/gokio.go', '''
	ch := make(chan T, 1)

	future := gokioFuture[T]{ch: ch}

	go func() {
		defer close(ch)
		ch <- f()
	}()

	return &future
''', '''
	future := &gokioFuture[T]{ch: make(chan T, 1)}

	go future.run(f)

	return future
''')
E('gokio/gokio.go', '''
func Spawn[T any](
''', '''
func (self *gokioFuture[T]) run(f func() T) {
	defer close(self.ch)
	result := f()
	self.ch <- result
}

func Spawn[T any](
''')
EDITS = [e for e in EDITS if e]
