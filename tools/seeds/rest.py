W = '''	_, err = file.Write([]byte(casted))

	if err != nil {
		return Err[any](err)
	} else {
		return Ok[any](nil)
	}
}

// Removes a file'''
seeds = [
 dict(id='f01-write-last-chunk', prop='F01', needs='a write error in the last, incomplete chunk of the data (a full device)',
  breaks='Write reports success although the last chunk could not be written',
  edits=[('fs.go', W, '''	for len(casted) >= 4096 {
		_, err = file.Write(casted[:4096])

		if err != nil {
			return Err[any](err)
		}

		casted = casted[4096:]
	}

	file.Write(casted)

	return Ok[any](nil)
}

// Removes a file''')],
  demo='''func TestSeedDemo(t *testing.T) {
	if r := Write("/dev/full", []Byte{1, 2, 3}); r.IsOk() {
		t.Fatal("success on a full device")
	}
}'''),
 dict(id='f01-write-leak', prop='F01', needs='a failing write',
  breaks='Write leaves the file open when writing fails',
  edits=[('fs.go', '''	defer file.Close()

	casted := []byte{}
''', '''	casted := []byte{}
'''), ('fs.go', W, '''	_, err = file.Write([]byte(casted))

	if err != nil {
		return Err[any](err)
	}

	file.Close()
	return Ok[any](nil)
}

// Removes a file''')],
  imports=['os', 'runtime/debug'],
  demo='''func TestSeedDemo(t *testing.T) {
	debug.SetGCPercent(-1)
	count := func() int {
		e, err := os.ReadDir("/proc/self/fd")
		if err != nil {
			t.Skip(err)
		}
		return len(e)
	}
	Write("/dev/full", []Byte{1})
	n := count()
	for i := 0; i < 10; i++ {
		Write("/dev/full", []Byte{1})
	}
	if count() > n {
		t.Fatal("files are left open")
	}
}'''),
 dict(id='f01-createdir-exists', prop='F01', needs='creating a directory whose path is taken, by a file for instance',
  breaks='CreateDir reports success when something is at the path already',
  edits=[('fs.go', '''	err := os.Mkdir(string(path), os.ModePerm)

	if err != nil {''', '''	err := os.Mkdir(string(path), os.ModePerm)

	if err != nil && !os.IsExist(err) {''')],
  imports=['os'],
  demo='''func TestSeedDemo(t *testing.T) {
	p := t.TempDir() + "/f"
	os.WriteFile(p, nil, 0o600)
	if CreateDir(String(p)).IsOk() {
		t.Fatal("success where a file is")
	}
}'''),
 dict(id='f02-rename-clean', prop='F02', needs='a destination with .. behind a symbolic link',
  breaks='Rename cleans the destination path lexically, and so moves to another place',
  edits=[('fs.go', 'os.Rename(string(from), string(to))', 'os.Rename(string(from), filepath.Clean(string(to)))')],
  imports=['os'],
  demo='''func TestSeedDemo(t *testing.T) {
	d := t.TempDir()
	os.MkdirAll(d+"/other/sub", 0o700)
	os.Symlink(d+"/other/sub", d+"/link")
	os.WriteFile(d+"/f", []byte("x"), 0o600)
	if Rename(String(d+"/f"), String(d+"/link/../g")).IsErr() {
		t.Fatal("Rename fails")
	}
	if _, err := os.Stat(d + "/other/g"); err != nil {
		t.Fatal(err)
	}
}'''),
 dict(id='f02-write-chunks', prop='F02', needs='data of which one byte is left after the last whole block',
  breaks='Write leaves out the last byte when the data is one byte longer than a multiple of 512',
  edits=[('fs.go', '''	for _, b := range data {
		casted = append(casted, byte(b))
	}
''', '''	for i, b := range data {
		if i%512 == 0 && i > 0 && i+1 == len(data) {
			break
		}
		casted = append(casted, byte(b))
	}
''')],
  imports=['os'],
  demo='''func TestSeedDemo(t *testing.T) {
	p := t.TempDir() + "/f"
	Write(String(p), make([]Byte, 513))
	if b, _ := os.ReadFile(p); len(b) != 513 {
		t.Fatal(len(b))
	}
}'''),
 dict(id='f02-read-nul', prop='F02', needs='a file whose last byte is zero',
  breaks='Read drops a zero byte at the end of the file',
  edits=[('fs.go', '''		for _, b := range data {
			casted = append(casted, Byte(b))
		}
''', '''		for i, b := range data {
			if b == 0 && i == len(data)-1 {
				break
			}
			casted = append(casted, Byte(b))
		}
''')],
  imports=['os'],
  demo='''func TestSeedDemo(t *testing.T) {
	p := t.TempDir() + "/f"
	os.WriteFile(p, []byte{1, 0}, 0o600)
	if r := Read(String(p)); len(r.Unwrap()) != 2 {
		t.Fatal(r)
	}
}'''),
 dict(id='f02-readdir-lock', prop='F02', needs='a directory with an editor lock file',
  breaks='ReadDir leaves out entries whose name starts with .#',
  edits=[('fs.go', '''		for _, entry := range entries {
''', '''		for _, entry := range entries {
			if len(entry.Name()) > 2 && entry.Name()[:2] == ".#" {
				continue
			}

''')],
  imports=['os'],
  demo='''func TestSeedDemo(t *testing.T) {
	d := t.TempDir()
	os.WriteFile(d+"/.#x", nil, 0o600)
	if r := ReadDir(String(d)); r.Unwrap().Len() != 1 {
		t.Fatal(r)
	}
}'''),
 dict(id='g01-rename-same', prop='G01', needs='renaming a path that does not exist to itself',
  breaks='the asynchronous Rename of a path to itself does nothing and succeeds',
  edits=[('gokio/fs.go', '''	return Spawn(func() gost.Result[any] {
		return gost.Rename(from, to)
''', '''	return Spawn(func() gost.Result[any] {
		if from == to {
			return gost.Ok[any](nil)
		}
		return gost.Rename(from, to)
''')],
  imports=['github.com/myyrakle/gost/gokio'],
  demo='''func TestSeedDemo(t *testing.T) {
	p := String(t.TempDir() + "/none")
	if gokio.Rename(p, p).Await().IsOk() {
		t.Fatal("success without a file")
	}
}'''),
 dict(id='g01-readtostring-runes', prop='G01', needs='a file that is not valid UTF-8',
  breaks='the asynchronous ReadToString replaces invalid bytes',
  edits=[('gokio/fs.go', '''		return gost.ReadToString(path)
''', '''		content := gost.ReadToString(path)
		if content.IsOk() {
			return gost.Ok(gost.String([]rune(string(content.Unwrap()))))
		}
		return content
''')],
  imports=['os', 'github.com/myyrakle/gost/gokio'],
  demo='''func TestSeedDemo(t *testing.T) {
	p := t.TempDir() + "/f"
	os.WriteFile(p, []byte{0xff}, 0o600)
	if r := gokio.ReadToString(String(p)).Await(); r.Unwrap() != "\\xff" {
		t.Fatal(r)
	}
}'''),
 dict(id='g01-write-empty', prop='G01', needs='writing no bytes',
  breaks='the asynchronous Write of no data neither creates nor truncates the file',
  edits=[('gokio/fs.go', '''		return gost.Write(path, data)
''', '''		if data == nil {
			return gost.Ok[any](nil)
		}
		return gost.Write(path, data)
''')],
  imports=['os', 'github.com/myyrakle/gost/gokio'],
  demo='''func TestSeedDemo(t *testing.T) {
	p := t.TempDir() + "/f"
	gokio.Write(String(p), nil).Await()
	if _, err := os.Stat(p); err != nil {
		t.Fatal(err)
	}
}'''),
 dict(id='x02-brace-state', prop='X02', needs='a placeholder, then doubled closing braces, then another placeholder',
  breaks='Format takes the closing brace of a placeholder for the first of a doubled one',
  edits=[('io.go', '''				paramsIndex++
				inLeftCurlyBrackets = false
''', '''				paramsIndex++
				inLeftCurlyBrackets = false
				inRightCurlyBrackets = true
''')],
  demo='''func TestSeedDemo(t *testing.T) {
	if r := Format("{}}}{}", I32(1), I32(2)); r != "1}2" {
		t.Fatal(r)
	}
}'''),
 dict(id='x02-print-percent', prop='X02', needs='a percent sign in the text or in an argument',
  breaks='Print gives its text to the formatter once more',
  edits=[('io.go', 'fmt.Print(Format(format, params...))', 'fmt.Printf(string(Format(format, params...)))')],
  imports=['io', 'os'],
  demo='''func TestSeedDemo(t *testing.T) {
	r, w, _ := os.Pipe()
	old := os.Stdout
	os.Stdout = w
	Print("{}", String("100%d"))
	os.Stdout = old
	w.Close()
	b, _ := io.ReadAll(r)
	if string(b) != "100%d" {
		t.Fatal(string(b))
	}
}'''),
 dict(id='c02-find-empty', prop='C02', needs='searching for the empty string in the empty string',
  breaks='Find of the empty text in an empty string is None',
  edits=[('string.go', '''	index := strings.Index(string(self), string(str))

	if index == -1 {''', '''	index := strings.Index(string(self), string(str))

	if index == -1 || index == len(self) {''')],
  demo='''func TestSeedDemo(t *testing.T) {
	if String("").Find("").IsNone() {
		t.Fatal("None")
	}
}'''),
 dict(id='c02-pop-invalid', prop='C02', needs='a string that ends in an invalid byte, or in U+FFFD',
  breaks='Pop removes one byte of a replacement character',
  edits=[('string.go', '''	last := runes[len(runes)-1]
	*self = String(runes[:len(runes)-1])
''', '''	last := runes[len(runes)-1]
	if last == 0xFFFD {
		*self = (*self)[:len(*self)-1]
		return Some[Char](Char(last))
	}
	*self = String(runes[:len(runes)-1])
''')],
  demo='''func TestSeedDemo(t *testing.T) {
	s := String("a\\ufffd")
	s.Pop()
	if s != "a" {
		t.Fatal(s)
	}
}'''),
 dict(id='c02-parsei64-base', prop='C02', needs='a number with a leading zero, or with a base prefix',
  breaks='ParseI64 takes a leading zero for a base',
  edits=[('string.go', 'strconv.Atoi(string(self))', 'strconv.ParseInt(string(self), 0, 64)')],
  demo='''func TestSeedDemo(t *testing.T) {
	if r := String("010").ParseI64(); r.Unwrap() != 10 {
		t.Fatal(r)
	}
}'''),
 dict(id='y01-join-timeout', prop='Y01', needs='a thread that runs longer than the time Join waits',
  breaks='Join returns before the thread ended when that takes more than two seconds',
  edits=[('thread.go', '''	<-self.channel

	return Ok(Unit{})
''', '''	select {
	case <-self.channel:
	case <-time.After(2 * time.Second):
	}

	return Ok(Unit{})
''')],
  imports=['time'],
  demo='''func TestSeedDemo(t *testing.T) {
	done := make(chan bool, 1)
	h := Spawn(func() { time.Sleep(3 * time.Second); done <- true })
	h.Join()
	select {
	case <-done:
	default:
		t.Fatal("Join returned before the thread ended")
	}
}'''),
 dict(id='y02-lock-copy', prop='Y02', needs='two successive locks with a write through the first reference',
  breaks='Lock hands out a reference to a fresh copy, installed as the protected value, so that an earlier reference is to another value',
  edits=[('sync.go', '''	self.lock.Lock()
	return self.value
''', '''	self.lock.Lock()
	value := *self.value
	self.value = &value
	return self.value
''')],
  demo='''func TestSeedDemo(t *testing.T) {
	m := MutexNew(I32(1))
	p := m.Lock()
	m.Unlock()
	q := m.Lock()
	if p != q {
		t.Fatal("another value")
	}
}'''),
 dict(id='a02-satsub-zero', prop='A02', needs='zero minus the minimum of a type',
  breaks='SaturatingSub of zero and the minimum gives the minimum',
  edits=[('ops.go', '''		if self < 0 {
			return I16(math.MinInt16)
		}
		return I16(math.MaxInt16)
	}
	return result
}

func (self I32) SaturatingSub''', '''		if self <= 0 {
			return I16(math.MinInt16)
		}
		return I16(math.MaxInt16)
	}
	return result
}

func (self I32) SaturatingSub''')],
  demo='''func TestSeedDemo(t *testing.T) {
	if r := I16(0).SaturatingSub(-32768); r != 32767 {
		t.Fatal(r)
	}
}'''),
 dict(id='a04-absdiff-narrow', prop='A04', needs='operands further apart than the maximum of the signed type',
  breaks='AbsDiff of far apart operands is wrong',
  edits=[('ops.go', '''func (self I32) AbsDiff(other I32) U32 {
	if self > other {
		return U32(self - other)
	}
	return U32(other - self)''', '''func (self I32) AbsDiff(other I32) U32 {
	return U32(F64(self - other).Abs())''')],
  demo='''func TestSeedDemo(t *testing.T) {
	if r := I32(-2147483648).AbsDiff(2147483647); r != 4294967295 {
		t.Fatal(r)
	}
}'''),
 dict(id='a05-pow-u16', prop='A05', needs='an odd exponent from 256 up',
  breaks='Pow of U16 halves the exponent in eight bits',
  edits=[('ops.go', '''	return self * (self * self).Pow(exp/2)
}

// Raises self to the power of exp, using exponentiation by squaring.
func (self U32) Pow''', '''	return self * (self * self).Pow(U32(U8(exp/2)))
}

// Raises self to the power of exp, using exponentiation by squaring.
func (self U32) Pow''')],
  demo='''func TestSeedDemo(t *testing.T) {
	x := U16(1)
	for i := 0; i < 513; i++ {
		x *= 3
	}
	if r := U16(3).Pow(513); r != x {
		t.Fatal(r)
	}
}'''),
 dict(id='a06-shl-i16', prop='A06', needs='a shift by the width minus one',
  breaks='Shl of I16 masks the amount wrongly',
  edits=[('bitwise.go', '''	return I16(lhs << rhs)
''', '''	return I16(lhs << (rhs % 15))
''')],
  demo='''func TestSeedDemo(t *testing.T) {
	if r := I16(1).Shl(15); r != -32768 {
		t.Fatal(r)
	}
}'''),
 dict(id='a08-mul-127', prop='A08', needs='the minimum as the right operand',
  breaks='the 128-bit signed product leaves out the topmost bit',
  edits=[('ops.go', '''	for i := 0; i < 128; i++ {
		if rhs.low&1 == 1 {
			result = result.Add(self)
		}

		self = self.Shl(I128''', '''	for i := 0; i < 127; i++ {
		if rhs.low&1 == 1 {
			result = result.Add(self)
		}

		self = self.Shl(I128''')],
  demo='''func TestSeedDemo(t *testing.T) {
	min := I128_FromI64(1).Shl(I128_FromI64(127))
	if r := I128_FromI64(1).Mul(min); r.Cmp(min) != OrderingEqual {
		t.Fatal(r)
	}
}'''),
 dict(id='a08-udiv-word', prop='A08', needs='a one-word divisor, and a dividend whose high word leaves a remainder',
  breaks='U128 division by one-word numbers divides the two words separately',
  edits=[('ops.go', '''func (lhs U128) Div(rhs U128) U128 {
	if lhs.Cmp(rhs) == OrderingLess {
		return U128{
			high: 0,
			low:  0,
		}
	}
''', '''func (lhs U128) Div(rhs U128) U128 {
	if lhs.Cmp(rhs) == OrderingLess {
		return U128{
			high: 0,
			low:  0,
		}
	}

	if rhs.high == 0 && rhs.low != 0 && rhs.low&(rhs.low-1) == 0 {
		return U128{
			high: lhs.high / rhs.low,
			low:  lhs.low / rhs.low,
		}
	}
''')],
  demo='''func TestSeedDemo(t *testing.T) {
	x := U128_FromU64(1).Shl(U128_FromU64(64))
	if r := x.Div(U128_FromU64(2)); r.Cmp(U128_FromU64(1<<63)) != OrderingEqual {
		t.Fatal(r)
	}
}'''),
 dict(id='a08-rem-less', prop='A08', needs='operands with equal high words',
  breaks='U128.Rem returns the left operand when the high words are equal',
  edits=[('ops.go', '''	if lhs.Cmp(rhs) == OrderingLess {
		return lhs
	}
''', '''	if lhs.high <= rhs.high && rhs.high != 0 {
		return lhs
	}
''')],
  demo='''func TestSeedDemo(t *testing.T) {
	x := U128_FromU64(1).Shl(U128_FromU64(64))
	if r := x.Add(U128_FromU64(3)).Rem(x); r.Cmp(U128_FromU64(3)) != OrderingEqual {
		t.Fatal(r)
	}
}'''),
 dict(id='a09-rem-assign', prop='A09', needs='a negative left operand',
  breaks='RemAssign of I16 makes the remainder positive',
  edits=[('ops.go', '''func (self *I16) RemAssign(rhs I16) {
	*self %= rhs
}''', '''func (self *I16) RemAssign(rhs I16) {
	*self = (*self%rhs + rhs) % rhs
}''')],
  demo='''func TestSeedDemo(t *testing.T) {
	x := I16(-7)
	x.RemAssign(3)
	if x != I16(-7).Rem(3) {
		t.Fatal(x)
	}
}'''),
 dict(id='a03-wrapping-neg', prop='A03', needs='division of the minimum by minus one',
  breaks='WrappingDiv of the minimum by minus one saturates',
  edits=[('ops.go', '''func (self I32) WrappingDiv(rhs I32) I32 {
''', '''func (self I32) WrappingDiv(rhs I32) I32 {
	if rhs == -1 && self == math.MinInt32 {
		return math.MaxInt32
	}
''')],
  demo='''func TestSeedDemo(t *testing.T) {
	if r := I32(-2147483648).WrappingDiv(-1); r != -2147483648 {
		t.Fatal(r)
	}
}'''),
 dict(id='n01-readline-limit', prop='N01', needs='a line longer than the limit',
  breaks='ReadLine stops after 4096 bytes of a line',
  edits=[('io.go', '''	for {
		n, err := os.Stdin.Read(char)
''', '''	for len(line) < 4096 {
		n, err := os.Stdin.Read(char)
''')],
  imports=['os', 'strings'],
  demo='''func TestSeedDemo(t *testing.T) {
	r, w, _ := os.Pipe()
	os.Stdin = r
	go func() { w.WriteString(strings.Repeat("x", 5000) + "\\n"); w.Close() }()
	var in Stdin
	var s String
	in.ReadLine(&s)
	if s.Len() != 5000 {
		t.Fatal(s.Len())
	}
}'''),
 dict(id='p01-message-brace', prop='P01', needs='an assertion that fails with a message that is a plain Go string',
  breaks='the message of AssertNe is not formatted with its arguments',
  edits=[]),
]
seeds = [s for s in seeds if s['edits']]
