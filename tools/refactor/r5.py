# more idioms for the integer operations
import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)) if '__file__' in globals() else '/verif/tools/refactor', 'r4.py')).read().split('# signed addition')[0])
F(o, '(self I8) CheckedAdd(rhs I8) Option[I8]', '''
	sum := self + rhs
	if (self^sum)&(rhs^sum) < 0 {
		return None[I8]()
	}
	return Some(sum)''')
F(o, '(self I64) _HasOverflow_Add(rhs I64) bool', '''
	sum := self + rhs
	return (self < 0) == (rhs < 0) && (sum < 0) != (self < 0)''')
F(o, '(self I16) CheckedSub(rhs I16) Option[I16]', '''
	difference := self - rhs
	if (self^rhs)&(self^difference) < 0 {
		return None[I16]()
	}
	return Some(difference)''')
F(o, '(self I64) CheckedMul(rhs I64) Option[I64]', '''
	if self == 0 || rhs == 0 {
		return Some[I64](0)
	}
	product := self * rhs
	if product/rhs != self || (self == -1 && rhs == math.MinInt64) || (rhs == -1 && self == math.MinInt64) {
		return None[I64]()
	}
	return Some(product)''')
F(o, '(self ISize) CheckedMul(rhs ISize) Option[ISize]', '''
	negative := (self < 0) != (rhs < 0)
	high, low := bits.Mul64(magnitudeOf(self), magnitudeOf(rhs))
	limit := uint64(math.MaxInt64)
	if negative {
		limit++
	}
	if high != 0 || low > limit {
		return None[ISize]()
	}
	if negative {
		return Some(ISize(-low))
	}
	return Some(ISize(low))''', '''
func magnitudeOf(value ISize) uint64 {
	if value < 0 {
		return uint64(-value)
	}
	return uint64(value)
}
''')
F(o, '(self I64) SaturatingAdd(rhs I64) I64', '''
	sum := self + rhs
	if rhs >= 0 && sum < self {
		return math.MaxInt64
	}
	if rhs < 0 && sum > self {
		return math.MinInt64
	}
	return sum''')
F(o, '(self I32) SaturatingMul(rhs I32) I32', '''
	product := int64(self) * int64(rhs)
	switch {
	case product < math.MinInt32:
		product = math.MinInt32
	case product > math.MaxInt32:
		product = math.MaxInt32
	}
	return I32(product)''')
F(o, '(self U64) SaturatingAdd(rhs U64) U64', '''
	sum, carry := bits.Add64(uint64(self), uint64(rhs), 0)
	return U64(sum | -carry)''')
F(o, '(self U8) SaturatingMul(rhs U8) U8', '''
	product := uint16(self) * uint16(rhs)
	if product&0xff00 != 0 {
		return math.MaxUint8
	}
	return U8(product)''')
F(o, '(self U16) _HasOverflow_Mul(rhs U16) bool', '''
	return (uint32(self)*uint32(rhs))>>16 > 0''')
F(o, '(self I64) Abs() I64', '''
	sign := self >> 63
	return (self + sign) ^ sign''')
F(o, '(self I8) IsNegative() Bool', '''
	return uint8(self)&0x80 != 0''')
F(o, '(self I64) IsPositive() Bool', '''
	return Bool(self != 0 && uint64(self)>>63 == 0)''')
F(o, '(self U128) Mul(rhs U128) U128', '''
	high, low := bits.Mul64(uint64(self.low), uint64(rhs.low))
	high += uint64(self.high)*uint64(rhs.low) + uint64(self.low)*uint64(rhs.high)
	return U128{high: U64(high), low: U64(low)}''')
F(o, '(self I128) Mul(rhs I128) I128', '''
	high, low := bits.Mul64(uint64(self.low), uint64(rhs.low))
	return I128{
		high: I64(high) + self.high*I64(rhs.low) + I64(self.low)*rhs.high,
		low:  U64(low),
	}''')
F(o, '(self I128) IsNegative() Bool', '''
	return Bool(uint64(self.high)>>63 == 1)''')
F(o, '(self I16) Pow(exp U32) I16', '''
	result := I16(1)
	base := self
	for exp != 0 {
		if exp%2 == 1 {
			result = result * base
		}
		exp /= 2
		if exp != 0 {
			base *= base
		}
	}
	return result''')
F(o, '(self U32) Pow(exp U32) U32', '''
	result := U32(1)
	for i := 31; i >= 0; i-- {
		result *= result
		if exp>>i&1 == 1 {
			result *= self
		}
	}
	return result''')
c = 'cmp.go'
F(c, '(self I32) Cmp(rhs I32) Ordering', '''
	return orderingOf(int64(self) - int64(rhs))''', '''
func orderingOf(difference int64) Ordering {
	switch {
	case difference < 0:
		return OrderingLess
	case difference > 0:
		return OrderingGreater
	}
	return OrderingEqual
}
''')
F(c, '(self U128) Cmp(rhs U128) Ordering', '''
	if order := self.high.Cmp(rhs.high); order != OrderingEqual {
		return order
	}
	return self.low.Cmp(rhs.low)''')
F(c, '(self I128) Cmp(rhs I128) Ordering', '''
	if self.high == rhs.high {
		return self.low.Cmp(rhs.low)
	}
	return self.high.Cmp(rhs.high)''')
t_ = 'to_string.go'
F(t_, '(self I32) ToString() String', '''
	return String(strconv.FormatInt(int64(self), 10))''')
