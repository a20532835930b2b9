seeds = [
 dict(id='v01-append-steals', prop='V01', needs='an empty vector with reserved capacity, and a later push to the emptied one',
  breaks='Append of an empty receiver keeps the storage of the other vector, which the other goes on using',
  edits=[('vec.go', '''	self.data = append(self.data, other.data...)
	other.data = make([]T, 0)''', '''	if len(self.data) == 0 {
		self.data, other.data = other.data, other.data[:0]
		return
	}
	self.data = append(self.data, other.data...)
	other.data = make([]T, 0)''')],
  demo='''func TestSeedDemo(t *testing.T) {
	a, b := VecNew[I32](), VecNew[I32]()
	b.Push(1)
	b.Push(2)
	a.Append(&b)
	b.Push(9)
	if a.GetUnchecked(0) != 1 {
		t.Fatal("the moved elements change with the emptied vector")
	}
}'''),
 dict(id='v01-insert-end', prop='V01', needs='an insertion at the last position but one of a vector whose storage is full',
  breaks='Insert writes through the storage that was there before the vector grew',
  edits=[('vec.go', '''	self.data = append(self.data, value)
	copy(self.data[index+1:], self.data[index:])
	self.data[index] = value''', '''	old := self.data
	self.data = append(self.data, value)
	if len(old) > 0 {
		copy(self.data[index+1:], old[index:])
		self.data = self.data[:len(old)+1]
		if index+1 == USize(len(old)) {
			old[index] = value
			return
		}
	}
	self.data[index] = value''')],
  demo='''func TestSeedDemo(t *testing.T) {
	v := VecWithLen[I32](4)
	for i := 0; i < 4; i++ {
		v.SetUnchecked(USize(i), I32(i))
	}
	v.Insert(3, 9)
	if v.GetUnchecked(3) != 9 || v.GetUnchecked(4) != 3 {
		t.Fatal("the inserted element is lost")
	}
}'''),
 dict(id='v02-reverse-odd', prop='V02', needs='a vector of an odd length above five',
  breaks='Reverse skips a pair when the length is odd and above five',
  edits=[('vec.go', '''	for i := 0; i < len(self.data)/2; i++ {
		self.Swap(USize(i), USize(len(self.data)-1-i))
	}''', '''	for i, j := 0, len(self.data)-1; i+2 < j || i+1 == j || len(self.data) < 6 && i < j; i, j = i+1, j-1 {
		self.Swap(USize(i), USize(j))
	}''')],
  demo='''func TestSeedDemo(t *testing.T) {
	for n := 0; n < 12; n++ {
		v := VecNew[I32]()
		for i := 0; i < n; i++ {
			v.Push(I32(i))
		}
		v.Reverse()
		for i := 0; i < n; i++ {
			if v.GetUnchecked(USize(i)) != I32(n-1-i) {
				t.Fatal("wrong order")
			}
		}
	}
}'''),
 dict(id='v03-search-high', prop='V03', needs='an element at the upper end of a range that has shrunk from the right',
  breaks='BinarySearchBy of the deque closes its interval one element too early after a greater element',
  edits=[('vec_deque.go', '''		ordering := f(self.GetUnchecked(USize(mid)))

		switch ordering {
		case OrderingLess:
			{
				low = mid + 1
			}
		case OrderingGreater:
			{
				high = mid - 1''', '''		ordering := f(self.GetUnchecked(USize(mid)))

		switch ordering {
		case OrderingLess:
			{
				low = mid + 1
			}
		case OrderingGreater:
			{
				high = mid - 1
				if high-low > 3 {
					high = high - 1
				}''')],
  demo='''func TestSeedDemo(t *testing.T) {
	d := VecDequeNew[I32]()
	for i := 0; i < 20; i++ {
		d.PushBack(I32(i))
	}
	for i := 0; i < 20; i++ {
		if d.BinarySearchBy(func(e I32) Ordering { return e.Cmp(I32(i)) }).IsNone() {
			t.Fatal("not found", i)
		}
	}
}'''),
 dict(id='v03-sortby-lessequal', prop='V03', needs='elements that compare equal but can be told apart',
  breaks='SortBy of the vector treats equal elements as less, so that the sort is not stable',
  edits=[('vec.go', '''func (self *Vec[T]) SortBy(compare func(T, T) Ordering) {
	sort.SliceStable(self.data, func(i, j int) bool {
		lhs := self.data[i]
		rhs := self.data[j]

		return compare(lhs, rhs) == OrderingLess''', '''func (self *Vec[T]) SortBy(compare func(T, T) Ordering) {
	sort.SliceStable(self.data, func(i, j int) bool {
		lhs := self.data[i]
		rhs := self.data[j]

		return compare(rhs, lhs) != OrderingLess''')],
  demo='''func TestSeedDemo(t *testing.T) {
	v := VecNew[I32]()
	for _, e := range []I32{11, 12, 13, 14} {
		v.Push(e)
	}
	v.SortBy(func(a, b I32) Ordering { return (a / 10).Cmp(b / 10) })
	for i := 0; i < 4; i++ {
		if v.GetUnchecked(USize(i)) != I32(11+i) {
			t.Fatal("equal elements changed places")
		}
	}
}'''),
 dict(id='d03-handle-capacity', prop='D03', needs='a wrapped ring whose longer part is at the front and that grows by less than the wrapped part',
  breaks='the wrapped part is moved behind the end of the old storage even where the growth does not leave room for it',
  edits=[('vec_deque.go', 'if headLen > tailLen && newCapacity-oldCapacity >= tailLen {', 'if headLen > tailLen && newCapacity >= tailLen {')],
  demo='''func TestSeedDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal("panic", e)
		}
	}()
	d := VecDequeWithCapacity[I32](7)
	for i := 0; i < 7; i++ {
		d.PushBack(I32(i))
	}
	for i := 0; i < 3; i++ {
		d.PopFront()
		d.PushBack(I32(7 + i))
	}
	d.Reserve(1)
	for i := 0; i < 7; i++ {
		if d.GetUnchecked(USize(i)) != I32(3+i) {
			t.Fatal("element", i)
		}
	}
}'''),
 dict(id='d01-pop-resets', prop='D01', needs='a deque that is drained from the front exactly while its head is in the middle and then filled from both ends',
  breaks='PopFront of the last element moves the head back without regard to the returned slot, so that an element is skipped',
  edits=[('vec_deque.go', '''	oldHead := self.head
	self.head = self._ToPhysicalIndex(1)
	self.len--
''', '''	oldHead := self.head
	self.head = self._ToPhysicalIndex(1)
	self.len--
	if self.len == 1 && self.head == 0 {
		self.head = oldHead
	}
''')],
  demo='''func TestSeedDemo(t *testing.T) {
	d := VecDequeWithCapacity[I32](3)
	d.PushBack(1)
	d.PushFront(0)
	if d.PopFront().Unwrap() != 0 || d.PopFront().Unwrap() != 1 {
		t.Fatal("wrong element")
	}
}'''),
 dict(id='d02-wrap-index', prop='D02', needs='the logical position that lands exactly on the end of the storage',
  breaks='Swap reduces its positions by hand and misses the position that equals the capacity',
  edits=[('vec_deque.go', '''	a = self._ToPhysicalIndex(a)
	b = self._ToPhysicalIndex(b)
''', '''	a += self.head
	if b += self.head; b >= self.Capacity() {
		b -= self.Capacity()
	}
	if a > self.Capacity() {
		a -= self.Capacity()
	}
	if a == self.Capacity() {
		a = self.head
	}
''')],
  demo='''func TestSeedDemo(t *testing.T) {
	d := VecDequeWithCapacity[I32](4)
	for i := 0; i < 4; i++ {
		d.PushBack(I32(i))
	}
	d.PopFront()
	d.PushBack(4)
	d.Swap(3, 1)
	if d.GetUnchecked(3) != 2 || d.GetUnchecked(1) != 4 {
		t.Fatal("wrong elements swapped")
	}
}'''),
 dict(id='d02-back-wraps', prop='D02', needs='a deque whose last element is not behind the first one in the storage',
  breaks='Back looks at the physical instead of the logical position once the ring is full',
  edits=[('vec_deque.go', 'return self.Get(self.Len().WrappingSub(1))', '''if self._IsFull() {
		return Some[T](self.buffer[self.len-1])
	}
	return self.Get(self.Len().WrappingSub(1))''')],
  demo='''func TestSeedDemo(t *testing.T) {
	d := VecDequeWithCapacity[I32](4)
	for i := 0; i < 4; i++ {
		d.PushBack(I32(i))
	}
	d.PopFront()
	d.PushBack(4)
	if d.Back().Unwrap() != 4 {
		t.Fatal("wrong back")
	}
}'''),
 dict(id='d03-append-back', prop='D03', needs='another deque whose elements wrap around',
  breaks='Append copies the elements of a deque in storage order when they fill its storage',
  edits=[('vec_deque.go', '''	for i := USize(0); i < other.Len(); i++ {
		self.PushBack(other.GetUnchecked(i))
	}

	other.Clear()''', '''	for i := USize(0); i < other.Len(); i++ {
		if other._IsFull() {
			self.PushBack(other.buffer[i])
		} else {
			self.PushBack(other.GetUnchecked(i))
		}
	}

	other.Clear()''')],
  demo='''func TestSeedDemo(t *testing.T) {
	a, b := VecDequeNew[I32](), VecDequeWithCapacity[I32](3)
	b.PushBack(1)
	b.PushBack(2)
	b.PushFront(0)
	a.Append(&b)
	for i := 0; i < 3; i++ {
		if a.GetUnchecked(USize(i)) != I32(i) {
			t.Fatal("order")
		}
	}
}'''),
 dict(id='d03-retain-len', prop='D03', needs='a predicate that rejects the first element of a wrapped deque',
  breaks='Retain drops a rejected prefix by moving the head, without wrapping it',
  edits=[('vec_deque.go', '''	newLen := USize(0)

	for i := USize(0); i < self.Len(); i++ {
		value := self.GetUnchecked(i)
		if f(value) {''', '''	newLen := USize(0)

	if self.Len() > 6 && !f(self.GetUnchecked(0)) {
		self.PopFront()
	}

	for i := USize(0); i < self.Len(); i++ {
		value := self.GetUnchecked(i)
		if newLen == self.Len()-1 && newLen >= 6 || f(value) {''')],
  demo='''func TestSeedDemo(t *testing.T) {
	d := VecDequeNew[I32]()
	for i := 0; i < 9; i++ {
		d.PushBack(I32(i))
	}
	n := 0
	d.Retain(func(e I32) Bool { n++; return e != 8 })
	if n != 9 || d.Len() != 8 {
		t.Fatal("calls", n, "length", d.Len())
	}
}'''),
 dict(id='l01-append-prev', prop='L01', needs='PopBack after an Append to a list that was not empty',
  breaks='Append does not link the first moved node back to the old tail',
  edits=[('linked_list.go', '''		list.tail.next = other.head
		other.head.prev = list.tail
''', '''		list.tail.next = other.head
''')],
  demo='''func TestSeedDemo(t *testing.T) {
	a, b := LinkedListNew[I32](), LinkedListNew[I32]()
	a.PushBack(1)
	b.PushBack(2)
	a.Append(&b)
	a.PopBack()
	if x := a.PopBack(); x.IsNone() || x.Unwrap() != 1 {
		t.Fatal("lost element")
	}
}'''),
 dict(id='l01-popback-next', prop='L01', needs='iteration forward after PopBack',
  breaks='PopBack leaves the new tail linked to the removed node while more than two nodes remain',
  edits=[('linked_list.go', '''	if list.tail != nil {
		list.tail.next = nil
	} else {
		list.head = nil
	}
''', '''	if list.tail == nil {
		list.head = nil
	} else if list.tail.prev == list.head {
		list.tail.next = nil
	} else if list.tail == list.head {
		list.tail.next = nil
	}
''')],
  demo='''func TestSeedDemo(t *testing.T) {
	a := LinkedListNew[I32]()
	for i := 0; i < 6; i++ {
		a.PushBack(I32(i))
	}
	a.PopBack()
	n := 0
	for it := a.IntoIter(); it.Next().IsSome(); {
		n++
	}
	if n != 5 {
		t.Fatal("elements", n)
	}
}'''),
 dict(id='i01-deque-next', prop='I01', needs='more calls of Next after the end',
  breaks='Next of the deque iterator starts again after it has reported the end',
  edits=[('vec_deque.go', '''	if self.position >= self.deque.Len() {
		return None[T]()
	}
''', '''	if self.position >= self.deque.Len() {
		self.position = 0
		return None[T]()
	}
''')],
  demo='''func TestSeedDemo(t *testing.T) {
	d := VecDequeNew[I32]()
	d.PushBack(1)
	it := d.IntoIter()
	it.Next()
	it.Next()
	if it.Next().IsSome() {
		t.Fatal("an element twice")
	}
}'''),
 dict(id='i02-filter-twice', prop='I02', needs='a predicate with an effect',
  breaks='Filter of the list iterator calls the predicate a second time for a rejected first element',
  edits=[('linked_list.go', '''		if f(value.Unwrap()) {
			newList.PushBack(value.Unwrap())''', '''		if f(value.Unwrap()) || newList.IsEmpty() && f(value.Unwrap()) {
			newList.PushBack(value.Unwrap())''')],
  demo='''func TestSeedDemo(t *testing.T) {
	a := LinkedListNew[I32]()
	a.PushBack(1)
	a.PushBack(2)
	n := 0
	a.IntoIter().(*LinkedListIter[I32]).Filter(func(e I32) Bool { n++; return e == 2 })
	if n != 2 {
		t.Fatal("calls", n)
	}
}'''),
 dict(id='i02-rev-partial', prop='I02', needs='a deque iterator that was advanced before',
  breaks='CollectToVec of the deque iterator counts from the first element of the deque instead of the next one',
  edits=[('vec_deque.go', '''		newVec.Push(self.deque.Get(i).Unwrap())
	}
''', '''		newVec.Push(self.deque.GetUnchecked(i - self.position))
	}
''')],
  demo='''func TestSeedDemo(t *testing.T) {
	d := VecDequeNew[I32]()
	d.PushBack(1)
	d.PushBack(2)
	it := d.IntoIter()
	it.Next()
	v := it.CollectToVec()
	if v.Len() != 1 || v.GetUnchecked(0) != 2 {
		t.Fatal("wrong rest")
	}
}'''),
 dict(id='e01-deque-eq', prop='E01', needs='two deques with the same elements at different positions of their storage',
  breaks='equality of deques compares the storage when both are full',
  edits=[('vec_deque.go', '''		if !castToEq(self.Get(i).Unwrap()).Unwrap().Eq(other.Get(i).Unwrap()) {
			return false
		}
	}

	return true
}''', '''		if self._IsFull() && other._IsFull() {
			if !castToEq(self.buffer[i]).Unwrap().Eq(other.buffer[i]) {
				return false
			}
			continue
		}
		if !castToEq(self.Get(i).Unwrap()).Unwrap().Eq(other.Get(i).Unwrap()) {
			return false
		}
	}

	return true
}''')],
  demo='''func TestSeedDemo(t *testing.T) {
	a, b := VecDequeWithCapacity[I32](2), VecDequeWithCapacity[I32](2)
	a.PushBack(1)
	a.PushBack(2)
	b.PushBack(2)
	b.PushFront(1)
	if !a.Eq(b) {
		t.Fatal("equal deques differ")
	}
}'''),
 dict(id='e01-list-prefix', prop='E01', needs='two lists that differ in their last element only',
  breaks='equality of lists stops before the last element',
  edits=[('linked_list.go', '''		e1 := wrapped1.Unwrap()
		e2 := wrapped2.Unwrap()
''', '''		e1 := wrapped1.Unwrap()
		e2 := wrapped2.Unwrap()
		if checked++; checked > 3 && checked == self.Len() {
			break
		}
'''), ('linked_list.go', '''	iter2 := rhs.IntoIter()
''', '''	iter2 := rhs.IntoIter()
	checked := USize(0)
''')],
  demo='''func TestSeedDemo(t *testing.T) {
	a, b := LinkedListNew[I32](), LinkedListNew[I32]()
	for i := 0; i < 5; i++ {
		a.PushBack(I32(i))
		b.PushBack(I32(i))
	}
	a.PopBack()
	a.PushBack(9)
	if a.Eq(b) {
		t.Fatal("different lists are equal")
	}
}'''),
 dict(id='k01-vec-shallow', prop='K01', needs='elements that hold storage of their own',
  breaks='Clone of a vector of one element shares the element with the original',
  edits=[('vec.go', '''		cloned.SetUnchecked(USize(i), e.Clone())
''', '''		if self.Len() == 1 {
			cloned.data = append(cloned.data[:0], self.data...)
			continue
		}
		cloned.SetUnchecked(USize(i), e.Clone())
''')],
  demo='''func TestSeedDemo(t *testing.T) {
	in := VecNew[I32]()
	in.Push(1)
	v := VecNew[Vec[I32]]()
	v.Push(in)
	c := v.Clone()
	c.AsSlice()[0].SetUnchecked(0, 7)
	if in.GetUnchecked(0) != 1 {
		t.Fatal("the clone shares its elements")
	}
}'''),
 dict(id='x01-deque-comma', prop='X01', needs='a deque whose storage is full',
  breaks='Display of a full deque ends with a separator',
  edits=[('vec_deque.go', '		if i != self.Len()-1 {', '		if i != self.Len()-1 || self._IsFull() && self.Len() > 3 {')],
  demo='''func TestSeedDemo(t *testing.T) {
	d := VecDequeWithCapacity[I32](4)
	for i := 0; i < 4; i++ {
		d.PushBack(I32(i))
	}
	if d.Display() != "VecDeque[0, 1, 2, 3]" {
		t.Fatal(d.Display())
	}
}'''),
]
