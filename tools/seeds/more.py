seeds = [
 dict(id='y02-trylock-unlocks', prop='Y02', needs='a second attempt while the first holder is active',
  breaks='TryLock gives the lock back before the caller has used the value',
  edits=[('sync.go', '''	if self.lock.TryLock() {
''', '''	if self.lock.TryLock() {
		defer self.lock.Unlock()

''')],
  demo='''func TestSeedDemo(t *testing.T) {
	m := MutexNew[ISize](0)
	if m.TryLock().IsErr() {
		t.Fatal("free mutex")
	}
	if m.TryLock().IsOk() {
		t.Fatal("handed out twice")
	}
}'''),
 dict(id='s01-nil-result', prop='S01', needs='a branch that is taken and returns a nil pointer',
  breaks='a taken branch whose result is a nil interface or error does not end the chain',
  edits=[('syntax.go', '''	if condition && self.returnValue == nil {
		value := expression()
		self.returnValue = &value
	}
''', '''	if condition && self.returnValue == nil {
		value := expression()
		if any(value) != nil {
			self.returnValue = &value
		}
	}
''')],
  demo='''func TestSeedDemo(t *testing.T) {
	r := If(false, func() error { return nil }).ElseIf(true, func() error { return nil }).Else(func() error { return errors.New("else") })
	if r != nil {
		t.Fatal(r)
	}
}'''),
 dict(id='u01-micros-narrow', prop='U01', needs='more than 2^32 microseconds',
  breaks='DurationFromMicros narrows the microseconds before it takes the remainder',
  edits=[('time.go', 'U32(micros%U64(_MICROS_PER_SEC))*_NANOS_PER_MICRO', 'U32(micros)%_MICROS_PER_SEC*_NANOS_PER_MICRO')],
  demo='''func TestSeedDemo(t *testing.T) {
	if n := DurationFromMicros(1<<32 + 7).SubsecMicros(); n != U32((1<<32+7)%1000000) {
		t.Fatal(n)
	}
}'''),
 dict(id='a03-char-sub', prop='A03', needs='a subtraction of characters below zero',
  breaks='Sub of Char stops at zero',
  edits=[('ops.go', '''func (self Char) Sub(rhs Char) Char {
''', '''func (self Char) Sub(rhs Char) Char {
	if rhs > self {
		return 0
	}
''')],
  demo='''func TestSeedDemo(t *testing.T) {
	if r := Char('a').Sub('c'); r != -2 {
		t.Fatal(r)
	}
}'''),
 dict(id='r01-or-ok-nilerr', prop='R01', needs='a failed Result whose error is nil',
  breaks='UnwrapOr of an Err that carries a nil error is taken for Ok',
  edits=[('result.go', '''func (self Result[T]) UnwrapOr(defaultValue T) T {
	if self.IsOk() {
		return *self.ok
	} else {
		return defaultValue
	}
}''', '''func (self Result[T]) UnwrapOr(defaultValue T) T {
	if self.err != nil {
		return defaultValue
	}
	if self.ok == nil {
		var zero T
		return zero
	}
	return *self.ok
}''')],
  demo='''func TestSeedDemo(t *testing.T) {
	if r := Err[I32](nil).UnwrapOr(3); r != 3 {
		t.Fatal(r)
	}
}'''),
 dict(id='o01-xor-same', prop='O01', needs='two Options that hold equal values',
  breaks='Xor of two present Options that share their payload returns it',
  edits=[('option.go', '''	} else if optb.IsNone() {
		return self
	} else {
		return None[T]()
	}
}

// Inserts''', '''	} else if optb.IsNone() || optb.value == self.value {
		return self
	} else {
		return None[T]()
	}
}

// Inserts''')],
  demo='''func TestSeedDemo(t *testing.T) {
	a := Some(I32(3))
	b := a
	if a.Xor(b).IsSome() {
		t.Fatal("both present")
	}
}'''),
 dict(id='k01-pair-value', prop='K01', needs='a pair whose key and value have the same type',
  breaks='the clone of a pair shares its value with the original when the key has no copy of its own',
  edits=[('pair.go', None, None)], demo=''),
 dict(id='e01-pair-cmp', prop='E01', needs='pairs whose keys are equal by comparison',
  breaks='', edits=[('pair.go', None, None)], demo=''),
 dict(id='c01-char-surrogate', prop='C01', needs='a negative character',
  breaks='ToString of Char goes through an unsigned integer',
  edits=[('to_string.go', '''func (self Char) ToString() String {
	return String(strconv.Itoa(int(self)))''', '''func (self Char) ToString() String {
	return String(strconv.Itoa(int(uint32(self))))''')],
  demo='''func TestSeedDemo(t *testing.T) {
	if s := Char(-1).ToString(); s != "-1" {
		t.Fatal(s)
	}
}'''),
 dict(id='p01-message-percent', prop='P01', needs='a failing assertion whose message is a String with a brace',
  breaks='the message of Assert is used as it is when it has no arguments, so that a doubled brace is not resolved',
  edits=[('panic.go', '''	if !condition {
		if len(args) > 0 {
			if message, ok := args[0].(String); ok {
''', '''	if !condition {
		if len(args) > 0 {
			if message, ok := args[0].(String); ok {
				if len(args) == 1 {
					panic(message)
				}
''')],
  demo='''func TestSeedDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != String("a {b") {
			t.Fatal(r)
		}
	}()
	Assert(false, String("a {{b"))
}'''),
 dict(id='n01-readline-utf8', prop='N01', needs='a line with a byte that is not ASCII',
  breaks='ReadLine appends every byte as a character of its own',
  edits=[('io.go', '''		line = append(line, char[0])
''', '''		line = append(line, string(rune(char[0]))...)
''')],
  imports=['os'],
  demo='''func TestSeedDemo(t *testing.T) {
	r, w, _ := os.Pipe()
	os.Stdin = r
	go func() { w.WriteString("\\u00e9\\n"); w.Close() }()
	var in Stdin
	var s String
	in.ReadLine(&s)
	if s != "\\u00e9" {
		t.Fatal(s)
	}
}'''),

 dict(id='l01-popfront-nil', prop='L01', needs='a list whose first element is a nil interface',
  breaks='PopFront takes a nil element for the end of the list',
  edits=[('linked_list.go', """	value := list.head.value
	list.head = list.head.next
""", """	value := list.head.value
	if any(value) == nil {
		return None[T]()
	}
	list.head = list.head.next
""")],
  demo="""func TestSeedDemo(t *testing.T) {
	l := LinkedListNew[error]()
	l.PushBack(nil)
	l.PushBack(errors.New("e"))
	if l.PopFront().IsNone() || l.Len() != 1 {
		t.Fatal(l.Len())
	}
}"""),
 dict(id='d01-popback-nil', prop='D01', needs='a deque whose last element is a nil interface',
  breaks='PopBack skips elements that are nil',
  edits=[('vec_deque.go', """	self.len--
	return Some[T](self.buffer[self._ToPhysicalIndex(self.len)])
""", """	self.len--
	for self.len > 0 && any(self.buffer[self._ToPhysicalIndex(self.len)]) == nil {
		self.len--
	}
	return Some[T](self.buffer[self._ToPhysicalIndex(self.len)])
""")],
  demo="""func TestSeedDemo(t *testing.T) {
	d := VecDequeNew[error]()
	d.PushBack(errors.New("e"))
	d.PushBack(nil)
	if r := d.PopBack(); r.IsNone() || r.Unwrap() != nil || d.Len() != 1 {
		t.Fatal(d.Len())
	}
}"""),
 dict(id='m01-remove-nil', prop='M01', needs='removal of a key whose value is a nil error',
  breaks='Remove reports no old value when the value is nil',
  edits=[('hash_map.go', """	delete(self.data, key)
	if ok {
""", """	delete(self.data, key)
	if ok && any(old) != nil {
""")],
  demo="""func TestSeedDemo(t *testing.T) {
	m := HashMapNew[I32, error]()
	m.Insert(1, nil)
	if m.Remove(1).IsNone() {
		t.Fatal("no old value")
	}
}"""),
 dict(id='o02-take-nil', prop='O02', needs='an Option whose payload is nil',
  breaks='Take keeps a payload that is nil',
  edits=[('option.go', None, None)], demo=''),
 dict(id='f02-copy-truncates', prop='F02', needs='a source that cannot be read',
  breaks='Copy empties the destination before it has read the source',
  edits=[('fs.go', """	data, err := os.ReadFile(string(from))

	if err != nil {
		return Err[any](err)
	}

	err = os.WriteFile(""", """	dst, err := os.Create(string(to))

	if err != nil {
		return Err[any](err)
	}

	dst.Close()

	data, err := os.ReadFile(string(from))

	if err != nil {
		return Err[any](err)
	}

	err = os.WriteFile(""")],
  imports=['os', 'path/filepath'],
  demo="""func TestSeedDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "f")
	os.WriteFile(p, []byte("text"), 0o644)
	Copy(String(p), String(p))
	if b, _ := os.ReadFile(p); string(b) != "text" {
		t.Fatal(string(b))
	}
}"""),
 dict(id='t01-union-self', prop='T01', needs='the union of a set with itself, which is changed afterwards',
  breaks='the union of a set with itself is the set itself, with shared storage',
  edits=[('btree_set.go', """func (self BTreeSet[K]) Union(other BTreeSet[K]) BTreeSet[K] {
""", """func (self BTreeSet[K]) Union(other BTreeSet[K]) BTreeSet[K] {
	if self._treemap.root == other._treemap.root {
		return self
	}
""")],
  demo="""func TestSeedDemo(t *testing.T) {
	s := BTreeSetNew[I32]()
	s.Insert(1)
	u := s.Union(s)
	u.Insert(2)
	if s.Contains(2) {
		t.Fatal("shared")
	}
}"""),
]
seeds = [s for s in seeds if s['edits'][0][1]]
