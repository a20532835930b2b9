seeds = [
 dict(id='a01-mul-i32-boundary', prop='A01', needs='two negative operands whose product is exactly the maximum',
  breaks='CheckedMul of I32 returns None although the product fits exactly',
  edits=[('ops.go', 'if self != 0 && rhs < math.MaxInt32/self {', 'if self != 0 && rhs <= math.MaxInt32/self {')],
  demo='''func TestSeedDemo(t *testing.T) {
	r := I32(-1).CheckedMul(I32(-2147483647))
	if r.IsNone() || r.Unwrap() != 2147483647 {
		t.Fatal("(-1) * (-2147483647)")
	}
}'''),
 dict(id='a02-mul-sign', prop='A02', needs='an overflowing product whose left operand is positive and right operand negative, or both negative',
  breaks='SaturatingMul of I64 picks the bound from the left operand only when the right one is even',
  edits=[('ops.go', '''		if (self < 0) != (rhs < 0) {
			return I64(math.MinInt64)
		}
		return I64(math.MaxInt64)''', '''		if self < 0 && rhs%2 == 0 {
			return I64(math.MinInt64)
		}
		if (self < 0) != (rhs < 0) {
			return I64(math.MinInt64)
		}
		return I64(math.MaxInt64)''')],
  demo='''func TestSeedDemo(t *testing.T) {
	if r := I64(-9223372036854775808).SaturatingMul(I64(-2)); r != 9223372036854775807 {
		t.Fatal(r)
	}
}'''),
 dict(id='a07-borrow-max', prop='A07', needs='a left operand whose low word is 2^64-1',
  breaks='U128.Sub borrows from the high word when the low word of the left operand is the maximum',
  edits=[('ops.go', '''	if self.low < rhs.low {
		carry = 1
	}

	self.low = self.low - rhs.low
''', '''	if self.low+1 <= rhs.low {
		carry = 1
	}

	self.low = self.low - rhs.low
''')],
  demo='''func TestSeedDemo(t *testing.T) {
	a := U128_FromU64(18446744073709551615)
	if c := a.Sub(U128_FromU64(1)); c.ToString() != "18446744073709551614" {
		t.Fatal(c.ToString())
	}
}'''),
 dict(id='a10-u128-cmp-sum', prop='A10', needs='equal high words with low words that differ, or a left operand with the greater high and the smaller low word',
  breaks='I128.Cmp decides by the low word when the high words have the same sign and differ by one',
  edits=[('cmp.go', '''func (self I128) Cmp(rhs I128) Ordering {
	if self.high < rhs.high {
		return OrderingLess
	} else if self.high > rhs.high {''', '''func (self I128) Cmp(rhs I128) Ordering {
	if self.high < rhs.high {
		return OrderingLess
	} else if self.high > rhs.high+1 || self.high == rhs.high+1 && self.low >= rhs.low {''')],
  demo='''func TestSeedDemo(t *testing.T) {
	b := I128_FromU64(18446744073709551615)
	a := b.Add(I128_FromU64(1))
	if a.Cmp(b) != OrderingGreater {
		t.Fatal(a.Cmp(b))
	}
}'''),
]
