# Third round: 128-bit arithmetic.
EDITS = [
("ops.go", '''	for i := 0; i < 128; i++ {
		if rhs.low&1 == 1 {
			result = result.Add(self)
		}

		self = self.Shl(U128_FromU64(1))
		rhs = rhs.Shr(U128_FromU64(1))
	}

	return result
}
''', '''	one := U128_FromU64(1)
	for bits := 128; bits > 0; bits-- {
		if rhs.isOdd() {
			result = result.Add(self)
		}
		self, rhs = self.Shl(one), rhs.Shr(one)
	}
	return result
}

func (self U128) isOdd() bool {
	return self.low%2 != 0
}
'''),
("ops.go", '''	for i := 0; i < 128; i++ {
		if rhs.low&1 == 1 {
			result = result.Add(self)
		}

		self = self.Shl(I128_FromI64(1))
		rhs = rhs.Shr(I128_FromI64(1))
	}

	if isNegative {
		result = result.Neg()
	}

	return result
}
''', '''	i := 0
	for {
		if i == 128 {
			break
		}
		i++
		bit := rhs.low & 1
		if bit != 0 {
			result = self.Add(result)
		}
		self = self.Shl(I128_FromI64(1))
		rhs = rhs.Shr(I128_FromI64(1))
	}
	if !isNegative {
		return result
	}
	return result.Neg()
}
'''),
("ops.go", '''	// TODO: This is a hack, we should implement a proper division algorithm
	bigLhs := big.NewInt(0)
	bigRhs := big.NewInt(0)

	bigLhs.SetString(string(lhs.ToString()), 10)
	bigRhs.SetString(string(rhs.ToString()), 10)

	bigLhs.Div(bigLhs, bigRhs)

	result := U128{
		high: 0,
		low:  0,
	}

	buffer := make([]byte, 16)
	bytes := bigLhs.FillBytes(buffer)

	lowBytes := bytes[8:16]
	highBytes := bytes[0:8]

	result.high = U64(binary.BigEndian.Uint64(highBytes))
	result.low = U64(binary.BigEndian.Uint64(lowBytes))

	return result
}
''', '''	quotient := new(big.Int).Quo(u128ToBig(lhs), u128ToBig(rhs))
	return u128FromBig(quotient)
}

func u128ToBig(x U128) *big.Int {
	r := new(big.Int)
	r.SetString(string(x.ToString()), 10)
	return r
}

func u128FromBig(x *big.Int) U128 {
	var buffer [16]byte
	x.FillBytes(buffer[:])
	return U128{
		high: U64(binary.BigEndian.Uint64(buffer[:8])),
		low:  U64(binary.BigEndian.Uint64(buffer[8:])),
	}
}
'''),
("ops.go", '''	// TODO: This is a hack, we should implement a proper division algorithm
	bigLhs := big.NewInt(0)
	bigRhs := big.NewInt(0)

	bigLhs.SetString(string(lhs.ToString()), 10)
	bigRhs.SetString(string(rhs.ToString()), 10)

	bigLhs.Quo(bigLhs, bigRhs)

	result := I128{
		high: 0,
		low:  0,
	}

	buffer := make([]byte, 16)
	bytes := bigLhs.FillBytes(buffer)
''', '''	bigLhs, _ := new(big.Int).SetString(string(lhs.ToString()), 10)
	bigRhs, _ := new(big.Int).SetString(string(rhs.ToString()), 10)
	quotient := big.NewInt(0)
	quotient.Quo(bigLhs, bigRhs)
	result := I128{}
	bytes := quotient.FillBytes(make([]byte, 16))
'''),
]
