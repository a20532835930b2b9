# integer operations rewritten in other idioms
EDITS = []
_src = {}
def F(f, sig, body, extra=''):
    """replaces the body of the function with that signature"""
    t = _src.setdefault(f, open('/repo/' + f).read())
    a = t.index('func ' + sig + ' {\n')
    b = t.index('\n}\n', a) + 3
    EDITS.append((f, t[a:b], 'func ' + sig + ' {\n' + body.strip('\n') + '\n}\n' + extra))
o = 'ops.go'
EDITS.append((o, '	"math/big"\n)', '	"math/big"\n	"math/bits"\n)'))
S = ['I8', 'I16', 'I32', 'I64', 'ISize']
mx = {'I8': 'math.MaxInt8', 'I16': 'math.MaxInt16', 'I32': 'math.MaxInt32', 'I64': 'math.MaxInt64', 'ISize': 'math.MaxInt'}
mn = {k: v.replace('Max', 'Min') for k, v in mx.items()}
umx = {'U8': 'math.MaxUint8', 'U16': 'math.MaxUint16', 'U32': 'math.MaxUint32', 'U64': 'math.MaxUint64', 'USize': 'math.MaxUint'}
# signed addition
F(o, '(self I8) CheckedAdd(rhs I8) Option[I8]', '''
	sum := self + rhs
	if (rhs > 0 && sum < self) || (rhs < 0 && sum > self) {
		return None[I8]()
	}
	return Some(sum)''')
F(o, '(self I16) _HasOverflow_Add(rhs I16) bool', '''
	sum := self + rhs
	return (sum > self) != (rhs > 0) && rhs != 0''')
F(o, '(self I32) CheckedAdd(rhs I32) Option[I32]', '''
	sum := int64(self) + int64(rhs)
	if sum < math.MinInt32 || sum > math.MaxInt32 {
		return None[I32]()
	}
	return Some(I32(sum))''')
F(o, '(self I64) CheckedAdd(rhs I64) Option[I64]', '''
	return checkedValue(self+rhs, !self._HasOverflow_Add(rhs))''', '''
func smaller[T ~int | ~int8 | ~uint8 | ~uint16 | ~uint32 | ~uint64](a, b T) T {
	if b < a {
		return b
	}
	return a
}

func larger[T ~int | ~int8 | ~uint8 | ~uint16 | ~uint32 | ~uint64](a, b T) T {
	if a > b {
		return a
	}
	return b
}

func checkedValue[T any](value T, ok bool) Option[T] {
	if !ok {
		return None[T]()
	}
	return Some(value)
}
''')
F(o, '(self U64) CheckedAdd(rhs U64) Option[U64]', '''
	sum, carry := bits.Add64(uint64(self), uint64(rhs), 0)
	return checkedValue(U64(sum), carry == 0)''')
F(o, '(self U32) CheckedAdd(rhs U32) Option[U32]', '''
	sum := uint64(self) + uint64(rhs)
	if sum>>32 != 0 {
		return None[U32]()
	}
	return Some(U32(sum))''')
F(o, '(self U8) CheckedSub(rhs U8) Option[U8]', '''
	difference := int(self) - int(rhs)
	if difference < 0 {
		return None[U8]()
	}
	return Some(U8(difference))''')
F(o, '(self U64) CheckedSub(rhs U64) Option[U64]', '''
	difference, borrow := bits.Sub64(uint64(self), uint64(rhs), 0)
	return checkedValue(U64(difference), borrow == 0)''')
F(o, '(self I32) CheckedSub(rhs I32) Option[I32]', '''
	wide := int64(self) - int64(rhs)
	if int64(int32(wide)) != wide {
		return None[I32]()
	}
	return Some(I32(wide))''')
F(o, '(self I64) _HasOverflow_Sub(rhs I64) bool', '''
	return signedSubLeaves(self, rhs, math.MinInt64, math.MaxInt64)''', '''
func signedSubLeaves[T ~int | ~int8 | ~int16 | ~int32 | ~int64](lhs, rhs, low, high T) bool {
	if rhs > 0 {
		return lhs < low+rhs
	}
	return rhs < 0 && lhs > high+rhs
}
''')
F(o, '(self ISize) _HasOverflow_Sub(rhs ISize) bool', '''
	return signedSubLeaves(self, rhs, math.MinInt, math.MaxInt)''')
# multiplication
F(o, '(self I8) CheckedMul(rhs I8) Option[I8]', '''
	product := int16(self) * int16(rhs)
	if product < math.MinInt8 || product > math.MaxInt8 {
		return None[I8]()
	}
	return Some(I8(product))''')
F(o, '(self I32) CheckedMul(rhs I32) Option[I32]', '''
	product := int64(self) * int64(rhs)
	return checkedValue(I32(product), product >= math.MinInt32 && product <= math.MaxInt32)''')
F(o, '(self U32) _HasOverflow_Mul(rhs U32) bool', '''
	return uint64(self)*uint64(rhs) > math.MaxUint32''')
F(o, '(self U64) _HasOverflow_Mul(rhs U64) bool', '''
	high, _ := bits.Mul64(uint64(self), uint64(rhs))
	return high != 0''')
F(o, '(self U16) CheckedMul(rhs U16) Option[U16]', '''
	if rhs == 0 {
		return Some[U16](0)
	}
	product := self * rhs
	return checkedValue(product, product/rhs == self)''')
# division
F(o, '(self I32) CheckedDiv(rhs I32) Option[I32]', '''
	switch {
	case rhs == 0:
		return None[I32]()
	case rhs == -1 && self == math.MinInt32:
		return None[I32]()
	}
	return Some(self / rhs)''')
F(o, '(self U16) CheckedDiv(rhs U16) Option[U16]', '''
	if rhs > 0 {
		return Some(self / rhs)
	}
	return None[U16]()''')
F(o, '(self I16) CheckedRem(rhs I16) Option[I16]', '''
	quotient := self.CheckedDiv(rhs)
	if quotient.IsNone() {
		return None[I16]()
	}
	return Some(self - quotient.Unwrap()*rhs)''')
F(o, '(self I8) _HasOverflow_Div(rhs I8) bool', '''
	return rhs == 0 || (rhs == -1 && self == math.MinInt8)''')
# saturating
F(o, '(self I8) SaturatingAdd(rhs I8) I8', '''
	sum := int(self) + int(rhs)
	return I8(smaller(larger(sum, math.MinInt8), math.MaxInt8))''')
F(o, '(self I32) SaturatingAdd(rhs I32) I32', '''
	if sum := self.CheckedAdd(rhs); sum.IsSome() {
		return sum.Unwrap()
	}
	if rhs < 0 {
		return math.MinInt32
	}
	return math.MaxInt32''')
F(o, '(self U8) SaturatingAdd(rhs U8) U8', '''
	return self + smaller(rhs, math.MaxUint8-self)''')
F(o, '(self U16) SaturatingAdd(rhs U16) U16', '''
	sum := self + rhs
	if sum < self {
		sum = math.MaxUint16
	}
	return sum''')
F(o, '(self U64) SaturatingSub(rhs U64) U64', '''
	return self - smaller(self, rhs)''')
F(o, '(self U32) SaturatingSub(rhs U32) U32', '''
	if rhs >= self {
		return 0
	}
	return self - rhs''')
F(o, '(self I16) SaturatingSub(rhs I16) I16', '''
	difference := int32(self) - int32(rhs)
	if difference > math.MaxInt16 {
		return math.MaxInt16
	} else if difference < math.MinInt16 {
		return math.MinInt16
	}
	return I16(difference)''')
F(o, '(self I64) SaturatingMul(rhs I64) I64', '''
	product := self.CheckedMul(rhs)
	limit := I64(math.MaxInt64)
	if self < 0 && rhs > 0 || self > 0 && rhs < 0 {
		limit = math.MinInt64
	}
	return product.UnwrapOr(limit)''')
F(o, '(self U32) SaturatingMul(rhs U32) U32', '''
	return U32(smaller(uint64(self)*uint64(rhs), math.MaxUint32))''')
# absolute values
F(o, '(self I8) AbsDiff(other I8) U8', '''
	difference := int16(self) - int16(other)
	if difference < 0 {
		difference = -difference
	}
	return U8(difference)''')
F(o, '(self I64) AbsDiff(other I64) U64', '''
	if self < other {
		self, other = other, self
	}
	return U64(self) - U64(other)''')
F(o, '(self U16) AbsDiff(other U16) U16', '''
	return larger(self, other) - smaller(self, other)''')
F(o, '(self I32) Abs() I32', '''
	mask := self >> 31
	return (self ^ mask) - mask''')
F(o, '(self I64) Abs() I64', '''
	return larger(self, -self)''') if False else None
F(o, '(self I16) IsPositive() Bool', '''
	return Bool(!(self <= 0))''')
F(o, '(self I16) IsNegative() Bool', '''
	return self>>15 != 0''')
# wrapping
F(o, '(self U8) WrappingMul(rhs U8) U8', '''
	return U8(uint(self) * uint(rhs))''')
F(o, '(self I16) WrappingAdd(rhs I16) I16', '''
	return I16(uint16(self) + uint16(rhs))''')
F(o, '(self I32) WrappingSub(rhs I32) I32', '''
	return I32(int64(self) - int64(rhs))''')
F(o, '(self I8) WrappingDiv(rhs I8) I8', '''
	if rhs == -1 {
		return -self
	}
	return self / rhs''')
# 128 bits
F(o, '(self U128) Add(rhs U128) U128', '''
	low, carry := bits.Add64(uint64(self.low), uint64(rhs.low), 0)
	high, _ := bits.Add64(uint64(self.high), uint64(rhs.high), carry)
	return U128{high: U64(high), low: U64(low)}''')
F(o, '(self U128) Sub(rhs U128) U128', '''
	low, borrow := bits.Sub64(uint64(self.low), uint64(rhs.low), 0)
	high, _ := bits.Sub64(uint64(self.high), uint64(rhs.high), borrow)
	return U128{high: U64(high), low: U64(low)}''')
F(o, '(self I128) Add(rhs I128) I128', '''
	low := self.low + rhs.low
	high := self.high + rhs.high
	if low < self.low {
		high++
	}
	return I128{high: high, low: low}''')
F(o, '(self I128) Sub(rhs I128) I128', '''
	result := I128{high: self.high - rhs.high, low: self.low - rhs.low}
	if self.low < rhs.low {
		result.high--
	}
	return result''')
F(o, '(self I128) Neg() I128', '''
	negated := I128{high: ^self.high, low: ^self.low + 1}
	if negated.low == 0 {
		negated.high++
	}
	return negated''')
F(o, '(self I128) Abs() I128', '''
	if self.IsNegative() {
		return I128{}.Sub(self)
	}
	return self''')
b = 'bitwise.go'
F(b, '(lhs U128) Shl(rhs U128) U128', '''
	n := rhs.low
	switch {
	case n == 0:
		return lhs
	case n >= 64:
		return U128{high: lhs.low << (n - 64)}
	default:
		return U128{high: lhs.high<<n | lhs.low>>(64-n), low: lhs.low << n}
	}''')
F(b, '(lhs U128) Shr(rhs U128) U128', '''
	n := rhs.low
	if n >= 64 {
		return U128{high: 0, low: lhs.high >> (n - 64)}
	}
	return U128{
		high: lhs.high >> n,
		low:  lhs.low>>n + lhs.high<<(64-n),
	}''')
F(b, '(lhs I16) Shl(rhs I16) I16', '''
	shifted := int32(lhs) << uint(rhs)
	return I16(shifted)''')
F(o, '(self I8) Pow(exp U32) I8', '''
	result, base := I8(1), self
	for ; exp > 0; exp >>= 1 {
		if exp&1 != 0 {
			result *= base
		}
		base *= base
	}
	return result''')
F(o, '(self U64) Pow(exp U32) U64', '''
	half := U64(1)
	if exp == 0 {
		return half
	}
	half = self.Pow(exp / 2)
	if exp%2 == 1 {
		return half * half * self
	}
	return half * half''')
