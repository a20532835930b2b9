seeds = [
 dict(id='o01-orelse-eager', prop='O01', needs='OrElse on a Some whose alternative has a side effect',
  breaks='OrElse calls the alternative although the Option holds a value',
  edits=[('option.go', '''func (self Option[T]) OrElse(f func() Option[T]) Option[T] {
	if self.IsNone() {
		return f()
	} else {
		return self
	}
}''', '''func (self Option[T]) OrElse(f func() Option[T]) Option[T] {
	alternative := f()
	if self.IsNone() {
		return alternative
	} else {
		return self
	}
}''')],
  demo='''func TestSeedDemo(t *testing.T) {
	n := 0
	r := Some[I32](1).OrElse(func() Option[I32] { n++; return Some[I32](2) })
	if n != 0 || r.Unwrap() != 1 {
		t.Fatal("the alternative was computed")
	}
}'''),
 dict(id='o02-getorinsert-copy', prop='O02', needs='writing through the reference that GetOrInsert returns for a present value',
  breaks='GetOrInsert returns a reference to a copy of a present payload',
  edits=[('option.go', '''func (self *Option[T]) GetOrInsert(value T) *T {
	if self.IsNone() {
		self.value = &value
	}
	return self.value
}''', '''func (self *Option[T]) GetOrInsert(value T) *T {
	if self.IsSome() {
		value = *self.value
		return &value
	}
	self.value = &value
	return self.value
}''')],
  demo='''func TestSeedDemo(t *testing.T) {
	o := Some[I32](1)
	*o.GetOrInsert(5) = 9
	if o.Unwrap() != 9 {
		t.Fatal(o.Unwrap())
	}
}'''),
 dict(id='r01-maperr-twice', prop='R01', needs='an error function with a side effect, and an error',
  breaks='MapErr calls the function a second time when the first call returns the same error',
  edits=[('result.go', '''		return Err[T](f(self.err))
''', '''		if err := f(self.err); err != self.err {
			return Err[T](err)
		}
		return Err[T](f(self.err))
''')],
  demo='''func TestSeedDemo(t *testing.T) {
	n := 0
	e := errors.New("x")
	Err[I32](e).MapErr(func(e error) error { n++; return e })
	if n != 1 {
		t.Fatal(n)
	}
}'''),
 dict(id='s01-elseif-late', prop='S01', needs='an ElseIf whose condition holds after an earlier branch was taken',
  breaks='ElseIf runs its function although an earlier branch was taken',
  edits=[('syntax.go', '''	if condition && self.returnValue == nil {
		value := expression()
		self.returnValue = &value
	}
''', '''	if condition {
		value := expression()
		if self.returnValue == nil {
			self.returnValue = &value
		}
	}
''')],
  demo='''func TestSeedDemo(t *testing.T) {
	n := 0
	r := If(true, func() I32 { return 1 }).ElseIf(true, func() I32 { n++; return 2 }).Else(func() I32 { return 3 })
	if r != 1 || n != 0 {
		t.Fatal(r, n)
	}
}'''),
 dict(id='u01-millis-64', prop='U01', needs='a duration of more than 2^64 milliseconds',
  breaks='AsMillis multiplies in 64 bits before widening',
  edits=[('time.go', 'return U128_FromU64(self.seconds).Mul(U128_FromU64(U64(_MILLIS_PER_SEC))).Add(', 'return U128_FromU64(self.seconds * U64(_MILLIS_PER_SEC)).Add(')],
  demo='''func TestSeedDemo(t *testing.T) {
	d := DurationFromSecs(18446744073709551615)
	if s := d.AsMillis().ToString(); s != "18446744073709551615000" {
		t.Fatal(s)
	}
}'''),
 dict(id='u01-carry-boundary', prop='U01', needs='exactly 10^9 nanoseconds or a multiple of it',
  breaks='DurationNew leaves a full second in the nanosecond part for exact multiples',
  edits=[('time.go', '''	seconds := U64(nanos / _NANOS_PER_SEC)

	return Duration{''', '''	seconds := U64(nanos / _NANOS_PER_SEC)

	if seconds > 0 && nanos%_NANOS_PER_SEC == 0 {
		return Duration{
			seconds:     secs.CheckedAdd(seconds - 1).Expect("overflow in DurationNew"),
			nanoseconds: _NANOS_PER_SEC,
		}
	}

	return Duration{''')],
  demo='''func TestSeedDemo(t *testing.T) {
	d := DurationNew(1, 2000000000)
	if d.AsSecs() != 3 || d.SubsecNanos() != 0 {
		t.Fatal(d.AsSecs(), d.SubsecNanos())
	}
}'''),
 dict(id='a11-f32-powi-narrow', prop='A11', needs='an exponent outside the 16-bit range',
  breaks='Powi of F32 narrows the exponent',
  edits=[('float.go', 'return F32(math.Pow(float64(self), float64(n)))\n}\n\n// Raises a number to an integer power.', 'return F32(math.Pow(float64(self), float64(int16(n))))\n}\n\n// Raises a number to an integer power.')],
  demo='''func TestSeedDemo(t *testing.T) {
	if r := F32(2).Powi(-65536); r != 0 {
		t.Fatal(r)
	}
}'''),
 dict(id='a11-log-base-swap', prop='A11', needs='a value and a base both different from each other and from 1',
  breaks='Log of F64 is computed in single precision',
  edits=[('float.go', '''func (self F64) Log(base F64) F64 {
	return F64(math.Log(float64(self)) / math.Log(float64(base)))''', '''func (self F64) Log(base F64) F64 {
	return F64(math.Log(float64(self)) / math.Log(float64(float32(base))))''')],
  demo='''func TestSeedDemo(t *testing.T) {
	if r := F64(7).Log(1.1); r != F64(math.Log(7)/math.Log(1.1)) {
		t.Fatal(r)
	}
}'''),
 dict(id='c01-u32-signed', prop='C01', needs='a U32 above 2^31-1',
  breaks='ToString of U32 goes through a signed 32-bit integer',
  edits=[('to_string.go', '''func (self U32) ToString() String {
	return String(strconv.Itoa(int(self)))''', '''func (self U32) ToString() String {
	return String(strconv.FormatInt(int64(int32(self)), 10))''')],
  demo='''func TestSeedDemo(t *testing.T) {
	if s := U32(4000000000).ToString(); s != "4000000000" {
		t.Fatal(s)
	}
}'''),
 dict(id='p01-asserteq-shortcut', prop='P01', needs='operands that are the same value but not equal by their own Eq',
  breaks='AssertEq accepts identical operands without asking their equality',
  edits=[('panic.go', '''	if !lhs.Eq(rhs) {
''', '''	if any(&lhs) != any(&rhs) && fmt.Sprint(lhs) == fmt.Sprint(rhs) {
		return
	}
	if !lhs.Eq(rhs) {
'''), ('panic.go', 'package gost\n', 'package gost\n\nimport "fmt"\n')],
  demo='''func TestSeedDemo(t *testing.T) {
	n := F64(math.NaN())
	defer func() {
		if recover() == nil {
			t.Fatal("AssertEq of NaN and NaN passes")
		}
	}()
	AssertEq(n, n)
}'''),
 dict(id='y01-spawn-detached', prop='Y01', needs='work that takes longer than the goroutine that starts it',
  breaks='the function runs on a second goroutine, so that completion is signalled before it returned',
  edits=[('thread.go', '''		f()
''', '''		go f()
''')],
  demo='''func TestSeedDemo(t *testing.T) {
	done := make(chan bool)
	ended := false
	h := Spawn(func() { <-done; ended = true })
	go func() { time.Sleep(100 * time.Millisecond); close(done) }()
	h.Join()
	if !ended {
		t.Fatal("Join returned before the function did")
	}
}'''),
 dict(id='y02-readline-unlocked', prop='Y02', needs='a second reader while a line is being read',
  breaks='ReadLine releases its lock before it reads',
  edits=[('io.go', '''	defer self.lock.Unlock()

	line''', '''	self.lock.Unlock()

	line''')],
  demo='''func TestSeedDemo(t *testing.T) {
	r, w, err := os.Pipe()
	if err != nil {
		t.Skip()
	}
	old := os.Stdin
	os.Stdin = r
	defer func() { os.Stdin = old }()
	var s Stdin
	end := make(chan bool)
	go func() { b := String(""); s.ReadLine(&b); close(end) }()
	w.Write([]byte("x"))
	time.Sleep(200 * time.Millisecond)
	got := s.Lock().TryLock()
	w.Write([]byte("\\n"))
	w.Close()
	<-end
	if got {
		t.Fatal("the lock was free while a line was being read")
	}
}'''),
 dict(id='z01-list-asref', prop='Z01', needs='a list that is looked up as AsRef at run time',
  breaks='the value type LinkedList no longer implements AsRef',
  edits=[('linked_list.go', 'func (self LinkedList[T]) AsRef() *LinkedList[T] {\n\treturn &self', 'func (self *LinkedList[T]) AsRef() *LinkedList[T] {\n\treturn self')],
  demo='''func TestSeedDemo(t *testing.T) {
	if _, ok := any(LinkedListNew[I32]()).(AsRef[LinkedList[I32]]); !ok {
		t.Fatal("LinkedList is no AsRef")
	}
}'''),
]
