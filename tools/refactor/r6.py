# containers, text, files and threads in other idioms
import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)) if '__file__' in globals() else '/verif/tools/refactor', 'r4.py')).read().split("o = 'ops.go'")[0])
v = 'vec.go'
F(v, '(self *Vec[T]) Retain(predicate func(T) Bool)', '''
	n := len(self.data)
	kept := []T(nil)
	for i := 0; i < n; i++ {
		if !predicate(self.data[i]) {
			continue
		}
		kept = append(kept, self.data[i])
	}
	self.data = kept''')
F(v, '(self *Vec[T]) DedupByKey(key func(T) any)', '''
	if len(self.data) == 0 {
		return
	}
	kept := make([]T, 1, len(self.data))
	kept[0] = self.data[0]
	previous := key(kept[0])
	for _, value := range self.data[1:] {
		current := key(value)
		if current == previous {
			continue
		}
		kept = append(kept, value)
		previous = current
	}
	self.data = kept''')
F(v, '(self *Vec[T]) Dedup()', '''
	kept := self.data[:0]
	for _, value := range self.data {
		if n := len(kept); n == 0 || !reflect.DeepEqual(kept[n-1], value) {
			kept = append(kept, value)
		}
	}
	self.data = kept''')
F(v, '(self *Vec[T]) Reverse()', '''
	for left, right := 0, len(self.data)-1; left < right; {
		self.data[left], self.data[right] = self.data[right], self.data[left]
		left++
		right--
	}''')
F(v, '(self Vec[T]) Contains(value T) Bool', '''
	found := Bool(false)
	for i := 0; i < len(self.data) && !bool(found); i++ {
		found = Bool(reflect.DeepEqual(self.data[i], value))
	}
	return found''')
F(v, '(self Vec[T]) BinarySearchBy(f func(T) Ordering) Option[USize]', '''
	low, high := 0, len(self.data)
	for low < high {
		mid := low + (high-low)/2
		switch f(self.data[mid]) {
		case OrderingEqual:
			return Some(USize(mid))
		case OrderingLess:
			low = mid + 1
		default:
			high = mid
		}
	}
	return None[USize]()''')
F(v, '(self *Vec[T]) Insert(index USize, value T)', '''
	var zero T
	data := append(self.data, zero)
	for i := len(data) - 1; i > int(index); i-- {
		data[i] = data[i-1]
	}
	data[index] = value
	self.data = data''')
F(v, '(self *Vec[T]) Append(other *Vec[T])', '''
	moved := other.data
	other.data = make([]T, 0)
	for _, value := range moved {
		self.Push(value)
	}''')
F(v, '(self *Vec[T]) Reserve(additional USize)', '''
	needed := self.Len() + additional
	if needed > self.Capacity() {
		grown := make([]T, self.Len(), needed)
		copy(grown, self.data)
		self.data = grown
	}''')
F(v, '(self VecIter[T]) Rev() Iterator[T]', '''
	rest := self.vec.data[self.position:]
	reversed := make([]T, 0, len(rest))
	for i := len(rest); i > 0; i-- {
		reversed = append(reversed, rest[i-1])
	}
	return Vec[T]{data: reversed}.IntoIter()''')
F(v, '(self VecIter[T]) Map(f func(T) T) Iterator[T]', '''
	mapped := VecNew[T]()
	for value := self.Next(); value.IsSome(); value = self.Next() {
		mapped.Push(f(value.Unwrap()))
	}
	return mapped.IntoIter()''')
F(v, '(self VecIter[T]) CollectToVec() Vec[T]', '''
	collected := Vec[T]{}
	for ; self.position < self.vec.Len(); self.position++ {
		collected.data = append(collected.data, self.vec.data[self.position])
	}
	return collected''')
F(v, '(self Vec[T]) Display() String', '''
	parts := make([]string, len(self.data))
	for i, element := range self.data {
		display := castToDisplay(element)
		if display.IsNone() {
			name := getTypeName(element)
			panic(fmt.Sprintf("'%s' does not implement Display[%s]", name, name))
		}
		parts[i] = string(display.Unwrap().Display())
	}
	return String("Vec[" + strings.Join(parts, ", ") + "]")''')
EDITS.append((v, '	"sort"\n)', '	"sort"\n	"strings"\n)'))
F(v, '(self Vec[T]) Clone() Vec[T]', '''
	cloned := make([]T, 0, len(self.data))
	for _, element := range self.data {
		cloned = append(cloned, castToClone(element).Unwrap().Clone())
	}
	return Vec[T]{data: cloned}''')
F(v, '(self Vec[T]) Eq(other Vec[T]) Bool', '''
	if len(self.data) != len(other.data) {
		return false
	}
	for i, element := range self.data {
		if equal := castToEq(element).Unwrap().Eq(other.data[i]); !bool(equal) {
			return false
		}
	}
	return true''')
fs = 'fs.go'
F(fs, 'CreateDir(path String) Result[any]', '''
	return resultOf(os.Mkdir(string(path), os.ModePerm))''', '''
func resultOf(err error) Result[any] {
	if err == nil {
		return Ok[any](nil)
	}
	return Err[any](err)
}
''')
F(fs, 'RemoveDir(path String) Result[any]', '''
	return removeEntry(path, true)''', '''
// removeEntry removes a directory or something else than a directory.
func removeEntry(path String, directory bool) Result[any] {
	name := string(path)
	info, err := os.Lstat(name)
	switch {
	case err != nil:
	case directory && !info.IsDir():
		err = &os.PathError{Op: "rmdir", Path: name, Err: syscall.ENOTDIR}
	case !directory && info.IsDir():
		err = &os.PathError{Op: "unlink", Path: name, Err: syscall.EISDIR}
	default:
		err = os.Remove(name)
	}
	return resultOf(err)
}
''')
F(fs, 'RemoveFile(path String) Result[any]', '''
	return removeEntry(path, false)''')
F(fs, 'Write(path String, data []Byte) Result[any]', '''
	file, err := os.Create(string(path))
	if err != nil {
		return Err[any](err)
	}
	contents := make([]byte, 0, len(data))
	for _, b := range data {
		contents = append(contents, byte(b))
	}
	if _, err := file.Write(contents); err != nil {
		_ = file.Close()
		return Err[any](err)
	}
	_ = file.Close()
	return Ok[any](nil)''')
F(fs, 'Read(path String) Result[[]Byte]', '''
	data, err := readFile(path)
	if err != nil {
		return Err[[]Byte](err)
	}
	result := make([]Byte, len(data))
	for i := range data {
		result[i] = Byte(data[i])
	}
	return Ok(result)''', '''
func readFile(path String) ([]byte, error) {
	file, err := os.Open(string(path))
	if err != nil {
		return nil, err
	}
	defer file.Close()
	return io.ReadAll(file)
}
''')
F(fs, 'ReadToString(path String) Result[String]', '''
	data, err := readFile(path)
	if err != nil {
		return Err[String](err)
	}
	return Ok(String(data))''')
F(fs, 'ReadDir(path String) Result[Vec[DirEntry]]', '''
	entries, err := os.ReadDir(string(path))
	if err != nil {
		return Err[Vec[DirEntry]](err)
	}
	list := VecNew[DirEntry]()
	for i := range entries {
		name := entries[i].Name()
		list.Push(DirEntry{
			FileName: String(name),
			Path:     String(filepath.Join(string(path), name)),
			FileType: fileTypeOf(entries[i].Type()),
		})
	}
	return Ok(list)''', '''
func fileTypeOf(mode os.FileMode) FileType {
	switch {
	case mode.IsRegular():
		return FileType{typeInfo: "file"}
	case mode&os.ModeDir != 0:
		return FileType{typeInfo: "dir"}
	case mode&os.ModeSymlink == os.ModeSymlink:
		return FileType{typeInfo: "symlink"}
	}
	return FileType{}
}
''')
F(fs, 'Copy(from String, to String) Result[any]', '''
	source, target := string(from), string(to)
	info, err := os.Stat(source)
	if err != nil {
		return Err[any](err)
	}
	permissions := info.Mode() & os.ModePerm
	data, err := os.ReadFile(source)
	if err == nil {
		err = os.WriteFile(target, data, permissions)
	}
	if err == nil {
		err = os.Chmod(target, permissions)
	}
	return resultOf(err)''')
i = 'io.go'
F(i, 'Format(format String, params ...any) String', '''
	text := string(format)
	buffer := ""
	next := 0
	opened, closed := false, false
	for len(text) > 0 {
		r, size := utf8.DecodeRuneInString(text)
		text = text[size:]
		switch {
		case r == '{':
			if opened {
				buffer += "{"
			}
			opened = !opened
		case r != '}':
			buffer += string(r)
		case closed:
			buffer += "}"
			closed = false
		case opened:
			buffer += string(castToDisplay(params[next]).Unwrap().Display())
			next++
			opened = false
		default:
			closed = true
		}
	}
	return String(buffer)''')
F(i, '(self *Stdin) ReadLine(buffer *String)', '''
	self.lock.Lock()
	defer self.lock.Unlock()

	var line []byte
	var char [1]byte
	for {
		if n, err := os.Stdin.Read(char[:]); n == 0 || err != nil {
			break
		}
		if char[0] == '\\n' {
			break
		}
		line = append(line, char[0])
	}
	*buffer += String(line)''')
p_ = 'panic.go'
F(p_, 'AssertEq[T Eq[T]](lhs T, rhs T, args ...any)', '''
	if lhs.Eq(rhs) {
		return
	}
	panic(withMessage(Format("assertion failed: {} != {}", lhs, rhs), args))''', '''
func withMessage(text String, args []any) String {
	if len(args) == 0 {
		return text
	}
	switch message := args[0].(type) {
	case String:
		text += "\\n>>> " + Format(message, args[1:]...)
	case string:
		text += "\\n>>> " + Format(String(message), args[1:]...)
	}
	return text
}
''')
F(p_, 'AssertNe[T Eq[T]](lhs T, rhs T, args ...any)', '''
	if !lhs.Eq(rhs) {
		return
	}
	panic(withMessage(Format("assertion failed: {} == {}", lhs, rhs), args))''')
F(p_, 'Unimplemented(messages ...String)', '''
	if len(messages) > 0 {
		panic(messages[0])
	}
	panic("not implemented")''')
t = 'thread.go'
F(t, 'Sleep(dur Duration)', '''
	text := strconv.FormatUint(uint64(dur.seconds), 10) + "s" + strconv.FormatUint(uint64(dur.nanoseconds), 10) + "ns"
	duration, err := time.ParseDuration(text)
	if err != nil {
		panic(err)
	}
	time.Sleep(duration)''')
EDITS.append((t, '	"fmt"\n', '	"strconv"\n'))
F(t, 'Spawn(f func()) JoinHandle', '''
	done := make(chan Unit)
	handle := JoinHandle{channel: done}
	go runThenClose(f, done)
	return handle''', '''
func runThenClose(f func(), done chan<- Unit) {
	f()
	close(done)
}
''')
F(t, '(self JoinHandle) Join() Result[Unit]', '''
	for range self.channel {
	}
	return Ok(Unit{})''')
s = 'sync.go'
F(s, '(self *Mutex[T]) TryLock() Result[*T]', '''
	if !self.lock.TryLock() {
		return Err[*T](TryLockError{})
	}
	return Ok(self.value)''')
g = 'gokio/gokio.go'
F(g, 'Spawn[T any](f func() T) gost.Future[T]', '''
	future := &gokioFuture[T]{ch: make(chan T, 1)}
	go future.run(f)
	return future''', '''
func (self *gokioFuture[T]) run(f func() T) {
	defer close(self.ch)
	result := f()
	self.ch <- result
}
''')
d = 'time.go'
F(d, 'DurationNew(secs U64, nanos U32) Duration', '''
	carry, rest := nanos/_NANOS_PER_SEC, nanos%_NANOS_PER_SEC
	total := secs.CheckedAdd(U64(carry))
	return Duration{seconds: total.Expect("overflow in DurationNew"), nanoseconds: rest}''')
F(d, '(self Duration) AsMillis() U128', '''
	return self.inUnits(_MILLIS_PER_SEC, _NANOS_PER_MILLI)''', '''
func (self Duration) inUnits(perSecond, nanosPerUnit U32) U128 {
	whole := U128_FromU64(self.seconds).Mul(U128_FromU64(U64(perSecond)))
	return whole.Add(U128_FromU64(U64(self.nanoseconds / nanosPerUnit)))
}
''')
F(d, '(self Duration) AsNanos() U128', '''
	return self.inUnits(_NANOS_PER_SEC, 1)''')
F(d, 'DurationFromMillis(millis U64) Duration', '''
	secs := millis / 1000
	rest := millis - secs*1000
	return DurationNew(secs, U32(rest)*1_000_000)''')
st = 'string.go'
F(st, 'StringFromUTF16(bytes Vec[U16]) Result[String]', '''
	units := make([]uint16, 0, len(bytes.data))
	for _, unit := range bytes.data {
		units = append(units, uint16(unit))
	}
	decoded := utf16.Decode(units)
	encoded := utf16.Encode(decoded)
	for i := range encoded {
		if encoded[i] != units[i] {
			return Err[String](errors.New("invalid utf-16: lone surrogate found"))
		}
	}
	return Ok(String(decoded))''')
F(st, '(self String) IntoBytes() Vec[U8]', '''
	bytes := VecWithCapacity[U8](self.Len())
	for i := 0; i < len(self); i++ {
		bytes.Push(U8(self[i]))
	}
	return bytes''')
F(st, '(self *String) Pop() Option[Char]', '''
	runes := []rune(string(*self))
	n := len(runes)
	if n == 0 {
		return None[Char]()
	}
	*self = String(runes[:n-1])
	return Some(Char(runes[n-1]))''')
F(st, '(self String) Replace(old String, new String) String', '''
	return String(strings.ReplaceAll(string(self), string(old), string(new)))''')
F(st, '(self String) Find(str String) Option[USize]', '''
	if index := strings.Index(string(self), string(str)); index >= 0 {
		return Some(USize(index))
	}
	return None[USize]()''')
F(st, '(self String) Contains(str String) bool', '''
	return strings.Index(string(self), string(str)) != -1''')
F(st, '(self String) ParseI64() Result[I64]', '''
	parsed, err := strconv.ParseInt(string(self), 10, 64)
	if err != nil {
		return Err[I64](err)
	}
	return Ok(I64(parsed))''')
F(st, '(self String) Chars() Vec[Char]', '''
	runes := []rune(self)
	chars := VecWithCapacity[Char](USize(len(runes)))
	for i := range runes {
		chars.Push(Char(runes[i]))
	}
	return chars''')
