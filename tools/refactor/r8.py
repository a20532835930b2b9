# options, results, pairs, casts, floats, printing in other idioms
import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)) if '__file__' in globals() else '/verif/tools/refactor', 'r4.py')).read().split("o = 'ops.go'")[0])
o = 'option.go'
F(o, '(self *Option[T]) IsSomeAnd(f func(T) Bool) Bool', '''
	return self.IsSome() && f(*self.value)''')
F(o, '(self Option[T]) Expect(message string) T', '''
	if value := self.value; value != nil {
		return *value
	}
	panic(message)''')
F(o, '(self Option[T]) UnwrapOr(value T) T', '''
	if self.value != nil {
		value = *self.value
	}
	return value''')
F(o, '(self Option[T]) UnwrapOrElse(f func() T) T', '''
	return self.MapOrElse(f, func(value T) T { return value })''')
F(o, '(self Option[T]) Map(f func(T) T) Option[T]', '''
	switch self.value {
	case nil:
		return None[T]()
	default:
		mapped := f(*self.value)
		return Option[T]{value: &mapped}
	}''')
F(o, '(self Option[T]) Filter(predicate func(T) Bool) Option[T]', '''
	if self.IsSome() && !predicate(*self.value) {
		return None[T]()
	}
	return self''')
F(o, '(self Option[T]) Xor(optb Option[T]) Option[T]', '''
	switch {
	case self.value == nil:
		return optb
	case optb.value == nil:
		return self
	}
	return None[T]()''')
F(o, '(self *Option[T]) GetOrInsertWith(f func() T) *T', '''
	if self.value != nil {
		return self.value
	}
	return self.Insert(f())''')
F(o, '(self *Option[T]) Take() Option[T]', '''
	taken := Option[T]{value: self.value}
	self.value = nil
	return taken''')
F(o, '(self *Option[T]) Replace(value T) Option[T]', '''
	old := self.Take()
	self.Insert(value)
	return old''')
F(o, '(self Option[T]) Eq(rhs Option[T]) Bool', '''
	if self.IsNone() || rhs.IsNone() {
		return self.IsNone() == rhs.IsNone()
	}
	return castToEq(*self.value).Unwrap().Eq(*rhs.value)''')
F(o, '(self Option[T]) Display() String', '''
	if self.value == nil {
		return "None"
	}
	if display, ok := any(self.value).(Display[T]); ok {
		return "Some(" + display.Display() + ")"
	}
	name := reflect.TypeOf(self.value).Elem().Name()
	panic(fmt.Sprintf("'%s' does not implement Display[%s]", name, name))''')
r = 'result.go'
F(r, '(self Result[T]) Map(f func(T) T) Result[T]', '''
	if !self.IsOk() {
		return self
	}
	return Ok(f(*self.ok))''')
F(r, '(self Result[T]) MapOr(defaultValue T, f func(T) T) T', '''
	result := defaultValue
	if self.IsOk() {
		result = f(*self.ok)
	}
	return result''')
F(r, '(self Result[T]) UnwrapOrElse(f func() T) T', '''
	if self.IsErr() {
		return f()
	}
	return *self.ok''')
F(r, '(self Result[T]) OrElse(op func(error) Result[T]) Result[T]', '''
	if self.IsOk() {
		return self
	}
	return op(self.err)''')
F(r, '(self Result[T]) Eq(rhs Result[T]) Bool', '''
	switch {
	case bool(self.IsOk() != rhs.IsOk()):
		return false
	case bool(self.IsErr()):
		return self.err == rhs.err
	}
	return castToEq(*self.ok).Unwrap().Eq(*rhs.ok)''')
F(r, '(self Result[T]) Clone() Result[T]', '''
	if self.IsErr() {
		return Err[T](self.err)
	}
	cloned := castToClone(*self.ok).Unwrap().Clone()
	return Ok(cloned)''')
F('clone.go', 'castToClone[T any](value T) _InternalOption[Clone[T]]', '''
	casted, ok := any(value).(Clone[T])
	if !ok {
		return _None[Clone[T]]()
	}
	return _Some(casted)''')
EDITS.append(('cmp.go', 'import "reflect"\n', 'import (\n\t"reflect"\n\t"strings"\n)\n'))
EDITS.append(('clone.go', 'import "reflect"\n\n', ''))
F('cmp.go', 'castToOrd[T any](value T) Option[Ord[T]]', '''
	switch casted := any(value).(type) {
	case Ord[T]:
		return Some(casted)
	default:
		return None[Ord[T]]()
	}''')
F('cmp.go', '(self Bool) Cmp(rhs Bool) Ordering', '''
	switch {
	case bool(self == rhs):
		return OrderingEqual
	case bool(self):
		return OrderingGreater
	}
	return OrderingLess''')
F('cmp.go', '(self F64) Cmp(rhs F64) Ordering', '''
	return compareFloats(float64(self), float64(rhs))''', '''
func compareFloats(a, b float64) Ordering {
	if a == b {
		return OrderingEqual
	}
	if a > b {
		return OrderingGreater
	}
	return OrderingLess
}
''')
F('cmp.go', '(self F32) Cmp(rhs F32) Ordering', '''
	return compareFloats(float64(self), float64(rhs))''')
F('cmp.go', '(self String) Cmp(rhs String) Ordering', '''
	return Ordering(strings.Compare(string(self), string(rhs)))''')
F('fmt.go', 'castToDisplay[T any](value T) Option[Display[T]]', '''
	reflected := reflect.ValueOf(value)
	casted, implements := reflected.Interface().(Display[T])
	if !implements {
		return None[Display[T]]()
	}
	return Some[Display[T]](casted)''')
p = 'pair.go'
F(p, '(p Pair[K, V]) ToString() String', '''
	return "Pair[" + textOf(p.Key) + ", " + textOf(p.Value) + "]"''', '''
func textOf[T any](value T) String {
	if text := castToToString(value); text.IsSome() {
		return text.Unwrap().ToString()
	}
	return String(fmt.Sprint(value))
}
''')
F(p, '(p Pair[K, V]) Cmp(other Pair[K, V]) Ordering', '''
	if order := castToOrd(p.Key).Unwrap().Cmp(other.Key); order != OrderingEqual {
		return order
	}
	return castToOrd(p.Value).Unwrap().Cmp(other.Value)''')
F(p, '(p Pair[K, V]) Eq(other Pair[K, V]) Bool', '''
	if !castToEq(p.Key).Unwrap().Eq(other.Key) {
		castToEq(p.Value).Unwrap().Eq(other.Value)
		return false
	}
	return castToEq(p.Value).Unwrap().Eq(other.Value)''')
f = 'float.go'
F(f, '(self F32) Round() F32', '''
	return self.apply(math.Round)''', '''
func (self F32) apply(f func(float64) float64) F32 {
	return F32(f(float64(self)))
}
''')
F(f, '(self F32) Floor() F32', '''
	return self.apply(math.Floor)''')
F(f, '(self F64) Frac() F64', '''
	whole, frac := math.Modf(float64(self))
	_ = whole
	return F64(frac)''')
F(f, '(self F64) Log(base F64) F64', '''
	numerator, denominator := self.Ln(), base.Ln()
	return numerator / denominator''')
s = 'syntax.go'
F(s, '(self ifElseContext[T]) ElseIf(condition Bool, expression func() T) ifElseContext[T]', '''
	if self.returnValue != nil || !condition {
		return self
	}
	return If(true, expression)''')
F(s, '(self ifElseContext[T]) Else(expression func() T) T', '''
	if self.returnValue == nil {
		return expression()
	}
	return *self.returnValue''')
F('primitive.go', 'I128_FromI64(low I64) I128', '''
	return I128{high: low >> 63, low: U64(low)}''')
F('utils.go', '_Swap[T any](lhs *T, rhs *T)', '''
	held := *lhs
	*lhs = *rhs
	*rhs = held''')
t = 'to_string.go'
F(t, '(self U128) ToString() String', '''
	value := new(big.Int).SetUint64(uint64(self.high))
	value.Lsh(value, 64)
	value.Or(value, new(big.Int).SetUint64(uint64(self.low)))
	return String(value.String())''')
F(t, '(self I128) ToString() String', '''
	value := big.NewInt(int64(self.high))
	value.Lsh(value, 64)
	value.Add(value, new(big.Int).SetUint64(uint64(self.low)))
	return String(value.String())''')
F(t, '(self U64) ToString() String', '''
	return String(strconv.FormatUint(uint64(self), 10))''')
