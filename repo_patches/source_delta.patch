From 18ea139f169a71d5783c684f485d4882a89dc7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:51 +0000
Subject: [PATCH 01/49] fix: Shl and Shr of the fixed-width integers shift by
 rhs, not by themselves

---
 bitwise.go | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/bitwise.go b/bitwise.go
index dbcfb51..146f881 100644
--- a/bitwise.go
+++ b/bitwise.go
@@ -9,23 +9,23 @@ type Shr[T any] interface {
 }
 
 func (lhs ISize) Shl(rhs ISize) ISize {
-	return ISize(lhs << lhs)
+	return ISize(lhs << rhs)
 }
 
 func (lhs I8) Shl(rhs I8) I8 {
-	return I8(lhs << lhs)
+	return I8(lhs << rhs)
 }
 
 func (lhs I16) Shl(rhs I16) I16 {
-	return I16(lhs << lhs)
+	return I16(lhs << rhs)
 }
 
 func (lhs I32) Shl(rhs I32) I32 {
-	return I32(lhs << lhs)
+	return I32(lhs << rhs)
 }
 
 func (lhs I64) Shl(rhs I64) I64 {
-	return I64(lhs << lhs)
+	return I64(lhs << rhs)
 }
 
 func (lhs I128) Shl(rhs I128) I128 {
@@ -50,23 +50,23 @@ func (lhs I128) Shl(rhs I128) I128 {
 }
 
 func (lhs USize) Shl(rhs USize) USize {
-	return USize(lhs << lhs)
+	return USize(lhs << rhs)
 }
 
 func (lhs U8) Shl(rhs U8) U8 {
-	return U8(lhs << lhs)
+	return U8(lhs << rhs)
 }
 
 func (lhs U16) Shl(rhs U16) U16 {
-	return U16(lhs << lhs)
+	return U16(lhs << rhs)
 }
 
 func (lhs U32) Shl(rhs U32) U32 {
-	return U32(lhs << lhs)
+	return U32(lhs << rhs)
 }
 
 func (lhs U64) Shl(rhs U64) U64 {
-	return U64(lhs << lhs)
+	return U64(lhs << rhs)
 }
 
 func (lhs U128) Shl(rhs U128) U128 {
@@ -91,23 +91,23 @@ func (lhs U128) Shl(rhs U128) U128 {
 }
 
 func (lhs ISize) Shr(rhs ISize) ISize {
-	return ISize(lhs >> lhs)
+	return ISize(lhs >> rhs)
 }
 
 func (lhs I8) Shr(rhs I8) I8 {
-	return I8(lhs >> lhs)
+	return I8(lhs >> rhs)
 }
 
 func (lhs I16) Shr(rhs I16) I16 {
-	return I16(lhs >> lhs)
+	return I16(lhs >> rhs)
 }
 
 func (lhs I32) Shr(rhs I32) I32 {
-	return I32(lhs >> lhs)
+	return I32(lhs >> rhs)
 }
 
 func (lhs I64) Shr(rhs I64) I64 {
-	return I64(lhs >> lhs)
+	return I64(lhs >> rhs)
 }
 
 func (lhs I128) Shr(rhs I128) I128 {
@@ -132,23 +132,23 @@ func (lhs I128) Shr(rhs I128) I128 {
 }
 
 func (lhs USize) Shr(rhs USize) USize {
-	return USize(lhs >> lhs)
+	return USize(lhs >> rhs)
 }
 
 func (lhs U8) Shr(rhs U8) U8 {
-	return U8(lhs >> lhs)
+	return U8(lhs >> rhs)
 }
 
 func (lhs U16) Shr(rhs U16) U16 {
-	return U16(lhs >> lhs)
+	return U16(lhs >> rhs)
 }
 
 func (lhs U32) Shr(rhs U32) U32 {
-	return U32(lhs >> lhs)
+	return U32(lhs >> rhs)
 }
 
 func (lhs U64) Shr(rhs U64) U64 {
-	return U64(lhs >> lhs)
+	return U64(lhs >> rhs)
 }
 
 func (lhs U128) Shr(rhs U128) U128 {
-- 
2.43.0


From d547179b8880bac5dc3fdb7ef49ad7d77e367b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:15 +0000
Subject: [PATCH 02/49] fix: Shl and Shr of I128 and U128 carry the bits
 between the two words for every shift amount

---
 bitwise.go | 53 ++++++++++++++---------------------------------------
 1 file changed, 14 insertions(+), 39 deletions(-)

diff --git a/bitwise.go b/bitwise.go
index 146f881..c50d8d7 100644
--- a/bitwise.go
+++ b/bitwise.go
@@ -29,19 +29,11 @@ func (lhs I64) Shl(rhs I64) I64 {
 }
 
 func (lhs I128) Shl(rhs I128) I128 {
-	hasCarry := false
-
 	low := lhs.low << rhs.low
 	high := lhs.high << rhs.low
 
-	// check if there is a carry
-	if lhs.low>>63 == 1 {
-		hasCarry = true
-	}
-
-	if hasCarry {
-		high += 1
-	}
+	// the bits that leave the low word
+	high |= I64(lhs.low>>(64-rhs.low)) | I64(lhs.low<<(rhs.low-64))
 
 	return I128{
 		high: high,
@@ -70,19 +62,11 @@ func (lhs U64) Shl(rhs U64) U64 {
 }
 
 func (lhs U128) Shl(rhs U128) U128 {
-	hasCarry := false
-
 	low := lhs.low << rhs.low
 	high := lhs.high << rhs.low
 
-	// check if there is a carry
-	if lhs.low>>63 == 1 {
-		hasCarry = true
-	}
-
-	if hasCarry {
-		high += 1
-	}
+	// the bits that leave the low word
+	high |= (lhs.low >> (64 - rhs.low)) | (lhs.low << (rhs.low - 64))
 
 	return U128{
 		high: high,
@@ -111,19 +95,18 @@ func (lhs I64) Shr(rhs I64) I64 {
 }
 
 func (lhs I128) Shr(rhs I128) I128 {
-	hasCarry := false
+	if rhs.low >= 64 {
+		return I128{
+			high: lhs.high >> 63,
+			low:  U64(lhs.high >> (rhs.low - 64)),
+		}
+	}
 
 	low := lhs.low >> rhs.low
 	high := lhs.high >> rhs.low
 
-	// check if there is a carry
-	if lhs.high&1 == 1 {
-		hasCarry = true
-	}
-
-	if hasCarry {
-		low |= U64(uint64(1) << 63)
-	}
+	// the bits that leave the high word
+	low |= U64(lhs.high) << (64 - rhs.low)
 
 	return I128{
 		high: high,
@@ -152,19 +135,11 @@ func (lhs U64) Shr(rhs U64) U64 {
 }
 
 func (lhs U128) Shr(rhs U128) U128 {
-	hasCarry := false
-
 	low := lhs.low >> rhs.low
 	high := lhs.high >> rhs.low
 
-	// check if there is a carry
-	if lhs.high&1 == 1 {
-		hasCarry = true
-	}
-
-	if hasCarry {
-		low |= U64(uint64(1) << 63)
-	}
+	// the bits that leave the high word
+	low |= (lhs.high << (64 - rhs.low)) | (lhs.high >> (rhs.low - 64))
 
 	return U128{
 		high: high,
-- 
2.43.0


From c754f56c6750a69e4a5e02875976725143fb09a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:39 +0000
Subject: [PATCH 03/49] fix: CheckedSub of I8..I64 tests the subtraction for
 overflow, not the addition

---
 ops.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ops.go b/ops.go
index 187ff22..9122e43 100644
--- a/ops.go
+++ b/ops.go
@@ -1784,7 +1784,7 @@ func (self ISize) CheckedSub(rhs ISize) Option[ISize] {
 func (self I8) CheckedSub(rhs I8) Option[I8] {
 	result := self - rhs
 
-	if self._HasOverflow_Add(rhs) || self._HasUnderflow_Sub(rhs) {
+	if self._HasUnderflow_Sub(rhs) {
 		return None[I8]()
 	}
 	return Some[I8](result)
@@ -1793,7 +1793,7 @@ func (self I8) CheckedSub(rhs I8) Option[I8] {
 func (self I16) CheckedSub(rhs I16) Option[I16] {
 	result := self - rhs
 
-	if self._HasOverflow_Add(rhs) || self._HasUnderflow_Sub(rhs) {
+	if self._HasUnderflow_Sub(rhs) {
 		// Overflow occurred
 		return None[I16]()
 	}
@@ -1803,7 +1803,7 @@ func (self I16) CheckedSub(rhs I16) Option[I16] {
 func (self I32) CheckedSub(rhs I32) Option[I32] {
 	result := self - rhs
 
-	if self._HasOverflow_Add(rhs) || self._HasUnderflow_Sub(rhs) {
+	if self._HasUnderflow_Sub(rhs) {
 		// Overflow occurred
 		return None[I32]()
 	}
@@ -1813,7 +1813,7 @@ func (self I32) CheckedSub(rhs I32) Option[I32] {
 func (self I64) CheckedSub(rhs I64) Option[I64] {
 	result := self - rhs
 
-	if self._HasOverflow_Add(rhs) || self._HasUnderflow_Sub(rhs) {
+	if self._HasUnderflow_Sub(rhs) {
 		// Overflow occurred
 		return None[I64]()
 	}
-- 
2.43.0


From c094cf2f1e66dfe03beeaabd215316c00f8b9f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:44 +0000
Subject: [PATCH 04/49] fix: ISize subtraction checks use the bounds of ISize,
 not of I32

---
 ops.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ops.go b/ops.go
index 9122e43..ad99d9b 100644
--- a/ops.go
+++ b/ops.go
@@ -1132,10 +1132,10 @@ func (self U64) _HasUnderflow_Sub(rhs U64) bool {
 }
 
 func (self ISize) _HasUnderflow_Sub(rhs ISize) bool {
-	if rhs > 0 && self < math.MinInt32+rhs {
+	if rhs > 0 && self < math.MinInt+rhs {
 		return true
 	}
-	if rhs < 0 && self > math.MaxInt32+rhs {
+	if rhs < 0 && self > math.MaxInt+rhs {
 		return true
 	}
 	return false
-- 
2.43.0


From 7e1ca1e55924f251fa1976d37374f1979e873c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:48 +0000
Subject: [PATCH 05/49] fix: multiplication overflow check compares mixed-sign
 products with the minimum

---
 ops.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/ops.go b/ops.go
index ad99d9b..32ee320 100644
--- a/ops.go
+++ b/ops.go
@@ -1188,13 +1188,13 @@ func (self ISize) _HasOverflow_Mul(rhs ISize) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt/self {
+			if rhs < math.MinInt/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt/rhs {
+			if self < math.MinInt/rhs {
 				return true
 			}
 		} else {
@@ -1213,13 +1213,13 @@ func (self I8) _HasOverflow_Mul(rhs I8) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt8/self {
+			if rhs < math.MinInt8/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt8/rhs {
+			if self < math.MinInt8/rhs {
 				return true
 			}
 		} else {
@@ -1238,13 +1238,13 @@ func (self I16) _HasOverflow_Mul(rhs I16) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt16/self {
+			if rhs < math.MinInt16/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt16/rhs {
+			if self < math.MinInt16/rhs {
 				return true
 			}
 		} else {
@@ -1263,13 +1263,13 @@ func (self I32) _HasOverflow_Mul(rhs I32) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt32/self {
+			if rhs < math.MinInt32/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt32/rhs {
+			if self < math.MinInt32/rhs {
 				return true
 			}
 		} else {
@@ -1288,13 +1288,13 @@ func (self I64) _HasOverflow_Mul(rhs I64) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt64/self {
+			if rhs < math.MinInt64/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt64/rhs {
+			if self < math.MinInt64/rhs {
 				return true
 			}
 		} else {
-- 
2.43.0


From 04b721a2a7307dda3d3cd31eb2ba59fc5d630546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:52 +0000
Subject: [PATCH 06/49] fix: USize multiplication check uses the bound of
 USize, not of U32

---
 ops.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ops.go b/ops.go
index 32ee320..427c0e0 100644
--- a/ops.go
+++ b/ops.go
@@ -1307,7 +1307,7 @@ func (self I64) _HasOverflow_Mul(rhs I64) bool {
 }
 
 func (self USize) _HasOverflow_Mul(rhs USize) bool {
-	if self != 0 && rhs > math.MaxUint32/self {
+	if self != 0 && rhs > math.MaxUint/self {
 		return true
 	}
 	return false
-- 
2.43.0


From f95dfd23b78b572fa76e10516245cfaf1044f979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:56 +0000
Subject: [PATCH 07/49] fix: SaturatingMul saturates to the bound on the side
 of the exact product

---
 ops.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ops.go b/ops.go
index 427c0e0..52b43ae 100644
--- a/ops.go
+++ b/ops.go
@@ -2447,7 +2447,7 @@ func (self U64) SaturatingSub(rhs U64) U64 {
 func (self ISize) SaturatingMul(rhs ISize) ISize {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return ISize(math.MinInt)
 		}
 		return ISize(math.MaxInt)
@@ -2458,7 +2458,7 @@ func (self ISize) SaturatingMul(rhs ISize) ISize {
 func (self I8) SaturatingMul(rhs I8) I8 {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return I8(math.MinInt8)
 		}
 		return I8(math.MaxInt8)
@@ -2469,7 +2469,7 @@ func (self I8) SaturatingMul(rhs I8) I8 {
 func (self I16) SaturatingMul(rhs I16) I16 {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return I16(math.MinInt16)
 		}
 		return I16(math.MaxInt16)
@@ -2480,7 +2480,7 @@ func (self I16) SaturatingMul(rhs I16) I16 {
 func (self I32) SaturatingMul(rhs I32) I32 {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return I32(math.MinInt32)
 		}
 		return I32(math.MaxInt32)
@@ -2491,7 +2491,7 @@ func (self I32) SaturatingMul(rhs I32) I32 {
 func (self I64) SaturatingMul(rhs I64) I64 {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return I64(math.MinInt64)
 		}
 		return I64(math.MaxInt64)
-- 
2.43.0


From f28a5878944ba9e36a49856a18b92a8c0c812d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:00 +0000
Subject: [PATCH 08/49] fix: signed CheckedRem is None only for a zero divisor
 or MIN % -1

---
 ops.go | 30 +++++-------------------------
 1 file changed, 5 insertions(+), 25 deletions(-)

diff --git a/ops.go b/ops.go
index 52b43ae..2ea6077 100644
--- a/ops.go
+++ b/ops.go
@@ -2079,72 +2079,52 @@ func (self U64) CheckedDiv(rhs U64) Option[U64] {
 
 // Checked integer remainder. Computes self % rhs, returning None if rhs == 0 or the operation results in overflow.
 func (self ISize) CheckedRem(rhs ISize) Option[ISize] {
-	if rhs == 0 {
+	if self._HasOverflow_Div(rhs) {
 		return None[ISize]()
 	}
 
 	result := self % rhs
 
-	if result > self || result > rhs {
-		// Overflow occurred
-		return None[ISize]()
-	}
 	return Some[ISize](result)
 }
 
 func (self I8) CheckedRem(rhs I8) Option[I8] {
-	if rhs == 0 {
+	if self._HasOverflow_Div(rhs) {
 		return None[I8]()
 	}
 
 	result := self % rhs
 
-	if result > self || result > rhs {
-		// Overflow occurred
-		return None[I8]()
-	}
 	return Some[I8](result)
 }
 
 func (self I16) CheckedRem(rhs I16) Option[I16] {
-	if rhs == 0 {
+	if self._HasOverflow_Div(rhs) {
 		return None[I16]()
 	}
 
 	result := self % rhs
 
-	if result > self || result > rhs {
-		// Overflow occurred
-		return None[I16]()
-	}
 	return Some[I16](result)
 }
 
 func (self I32) CheckedRem(rhs I32) Option[I32] {
-	if rhs == 0 {
+	if self._HasOverflow_Div(rhs) {
 		return None[I32]()
 	}
 
 	result := self % rhs
 
-	if result > self || result > rhs {
-		// Overflow occurred
-		return None[I32]()
-	}
 	return Some[I32](result)
 }
 
 func (self I64) CheckedRem(rhs I64) Option[I64] {
-	if rhs == 0 {
+	if self._HasOverflow_Div(rhs) {
 		return None[I64]()
 	}
 
 	result := self % rhs
 
-	if result > self || result > rhs {
-		// Overflow occurred
-		return None[I64]()
-	}
 	return Some[I64](result)
 }
 
-- 
2.43.0


From 872ebb0ed61261c40ae5a7b4586853c1941e16af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:04 +0000
Subject: [PATCH 09/49] fix: ISize.WrappingMul returns the wrapped product
 unaltered

---
 ops.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/ops.go b/ops.go
index 2ea6077..4a23402 100644
--- a/ops.go
+++ b/ops.go
@@ -1547,10 +1547,6 @@ func (self U64) WrappingSub(rhs U64) U64 {
 func (self ISize) WrappingMul(rhs ISize) ISize {
 	result := self * rhs
 
-	if result < self || result < rhs {
-		// Overflow occurred, wrap around
-		result = result - ISize(math.MaxInt) - 1
-	}
 	return result
 }
 
-- 
2.43.0


From e63194568aa87a62557031d470d34652e7cf0256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:08 +0000
Subject: [PATCH 10/49] fix: I128.Neg carries into the high word when the low
 word is zero

---
 ops.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ops.go b/ops.go
index 4a23402..0b8fc21 100644
--- a/ops.go
+++ b/ops.go
@@ -3028,7 +3028,7 @@ func (self I128) Neg() I128 {
 	high := self.high
 	low := self.low
 
-	hasCarry := low == U64_MAX
+	hasCarry := low == 0
 
 	high = ^high
 	low = ^low
-- 
2.43.0


From 8f8c92ab484b65fc801a23a468cf624a503e6c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:12 +0000
Subject: [PATCH 11/49] fix: I128.IsPositive looks at the low word when the
 high word is zero

---
 ops.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ops.go b/ops.go
index 0b8fc21..de7dc78 100644
--- a/ops.go
+++ b/ops.go
@@ -2831,7 +2831,7 @@ func (self I64) IsPositive() Bool {
 
 // Returns true if self is positive and false if the number is zero or negative.
 func (self I128) IsPositive() Bool {
-	return self.high > 0
+	return self.high > 0 || (self.high == 0 && self.low > 0)
 }
 
 // Returns true if self is negative and false if the number is zero or positive.
-- 
2.43.0


From 1ad749b56eecbbdb6fa1d78e2871fa507616e53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:16 +0000
Subject: [PATCH 12/49] fix: I128 Div and Rem of the minimum value

---
 ops.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ops.go b/ops.go
index de7dc78..469f31d 100644
--- a/ops.go
+++ b/ops.go
@@ -405,7 +405,7 @@ func (lhs I128) Div(rhs I128) I128 {
 		rhs = rhs.Neg()
 	}
 
-	if lhs.Cmp(rhs) == OrderingLess {
+	if lhs.high >= 0 && lhs.Cmp(rhs) == OrderingLess {
 		return I128{
 			high: 0,
 			low:  0,
@@ -419,7 +419,7 @@ func (lhs I128) Div(rhs I128) I128 {
 	bigLhs.SetString(string(lhs.ToString()), 10)
 	bigRhs.SetString(string(rhs.ToString()), 10)
 
-	bigLhs.Div(bigLhs, bigRhs)
+	bigLhs.Quo(bigLhs, bigRhs)
 
 	result := I128{
 		high: 0,
@@ -554,7 +554,7 @@ func (lhs I128) Rem(rhs I128) I128 {
 		rhs = rhs.Neg()
 	}
 
-	if lhs.Cmp(rhs) == OrderingLess {
+	if lhs.high >= 0 && lhs.Cmp(rhs) == OrderingLess {
 		if isNegative {
 			return lhs.Neg()
 		} else {
-- 
2.43.0


From 6fb6f2b2752466f90e0e20be53c1744090b6c51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:20 +0000
Subject: [PATCH 13/49] fix: Neg of the signed integers takes no argument, as
 the Neg trait says

---
 ops.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ops.go b/ops.go
index 469f31d..35a05d6 100644
--- a/ops.go
+++ b/ops.go
@@ -3004,23 +3004,23 @@ func (self U64) Pow(exp U32) U64 {
 	return self * (self * self).Pow(exp/2)
 }
 
-func (self ISize) Neg(rhs ISize) ISize {
+func (self ISize) Neg() ISize {
 	return -self
 }
 
-func (self I8) Neg(rhs I8) I8 {
+func (self I8) Neg() I8 {
 	return -self
 }
 
-func (self I16) Neg(rhs I16) I16 {
+func (self I16) Neg() I16 {
 	return -self
 }
 
-func (self I32) Neg(rhs I32) I32 {
+func (self I32) Neg() I32 {
 	return -self
 }
 
-func (self I64) Neg(rhs I64) I64 {
+func (self I64) Neg() I64 {
 	return -self
 }
 
-- 
2.43.0


From e1ae2d12a0d23133c06dd0c5dd4f94a258ca4cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:28 +0000
Subject: [PATCH 14/49] fix: USize.ToString of values above the ISize maximum

---
 to_string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/to_string.go b/to_string.go
index 2e3192b..308249b 100644
--- a/to_string.go
+++ b/to_string.go
@@ -71,7 +71,7 @@ func (self I128) ToString() String {
 }
 
 func (self USize) ToString() String {
-	return String(strconv.Itoa(int(self)))
+	return String(strconv.FormatUint(uint64(self), 10))
 }
 
 func (self U8) ToString() String {
-- 
2.43.0


From b23a28ce44bbbe6b61ba136282ca577a957a004d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:06 +0000
Subject: [PATCH 15/49] fix: Option.And and Option.AndThen of None are None

---
 option.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/option.go b/option.go
index bc26efd..ea7c79a 100644
--- a/option.go
+++ b/option.go
@@ -173,7 +173,7 @@ func (self Option[T]) MapOrElse(defaultValue func() T, f func(T) T) T {
 //	gost.AssertEq(x.and(y), Some(gost.I32(3)));
 func (self Option[T]) And(optb Option[any]) Option[any] {
 	if self.IsNone() {
-		return Some[any](nil)
+		return None[any]()
 	} else {
 		return optb
 	}
@@ -189,7 +189,7 @@ func (self Option[T]) And(optb Option[any]) Option[any] {
 //	gost.AssertEq(x.and_then(func(value gost.I32) Option[gost.I32] { return Some[gost.I32](value + 1) }), None[gost.I32]())
 func (self Option[T]) AndThen(f func(T) Option[any]) Option[any] {
 	if self.IsNone() {
-		return Some[any](nil)
+		return None[any]()
 	} else {
 		return f(*self.value)
 	}
-- 
2.43.0


From d51a099da9c7bccb7a8afcb7f9bc0d8653951d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:11 +0000
Subject: [PATCH 16/49] fix: Option.Replace leaves a Some when the option was
 None

---
 option.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/option.go b/option.go
index ea7c79a..c864c4c 100644
--- a/option.go
+++ b/option.go
@@ -333,7 +333,8 @@ func (self *Option[T]) Take() Option[T] {
 //	gost.AssertEq(x.Replace(gost.I32(3)), None[gost.I32]())
 func (self *Option[T]) Replace(value T) Option[T] {
 	if self.IsNone() {
-		return *self
+		self.value = &value
+		return None[T]()
 	} else {
 		oldValue := *self.value
 		self.value = &value
-- 
2.43.0


From 20a9fe28ff8a2c4f780c679d938f948fbc90880b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:15 +0000
Subject: [PATCH 17/49] fix: ElseIf does not run its branch once an earlier
 branch was taken

---
 syntax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syntax.go b/syntax.go
index 647de15..c97c2bb 100644
--- a/syntax.go
+++ b/syntax.go
@@ -40,7 +40,7 @@ func (self ifElseContext[T]) Else(expression func() T) T {
 }
 
 func (self ifElseContext[T]) ElseIf(condition Bool, expression func() T) ifElseContext[T] {
-	if condition {
+	if condition && self.returnValue == nil {
 		value := expression()
 		self.returnValue = &value
 	}
-- 
2.43.0


From f7a4c59cf59f85caa0147099a59a75fd25abf37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 18/49] fix: the assertion message is not its own first format
 argument

---
 panic.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/panic.go b/panic.go
index c02c29a..62b5b25 100644
--- a/panic.go
+++ b/panic.go
@@ -14,7 +14,11 @@ func Assert(condition Bool, args ...any) {
 	if !condition {
 		if len(args) > 0 {
 			if message, ok := args[0].(String); ok {
-				panic(Format(message, args...))
+				panic(Format(message, args[1:]...))
+			}
+
+			if message, ok := args[0].(string); ok {
+				panic(Format(String(message), args[1:]...))
 			}
 		}
 
@@ -31,11 +35,11 @@ func AssertEq[T Eq[T]](lhs T, rhs T, args ...any) {
 
 		if len(args) > 0 {
 			if message, ok := args[0].(String); ok {
-				panicMessage += "\n>>> " + Format(message, args...)
+				panicMessage += "\n>>> " + Format(message, args[1:]...)
 			}
 
 			if message, ok := args[0].(string); ok {
-				panicMessage += "\n>>> " + Format(String(message), args...)
+				panicMessage += "\n>>> " + Format(String(message), args[1:]...)
 			}
 		}
 
@@ -52,11 +56,11 @@ func AssertNe[T Eq[T]](lhs T, rhs T, args ...any) {
 
 		if len(args) > 0 {
 			if message, ok := args[0].(String); ok {
-				panicMessage += "\n>>> " + Format(message, args...)
+				panicMessage += "\n>>> " + Format(message, args[1:]...)
 			}
 
 			if message, ok := args[0].(string); ok {
-				panicMessage += "\n>>> " + Format(String(message), args...)
+				panicMessage += "\n>>> " + Format(String(message), args[1:]...)
 			}
 		}
 
-- 
2.43.0


From e17eccf5ef68f20a595b7482b18defa23c1ca8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:52 +0000
Subject: [PATCH 19/49] fix: a finished thread can be asked IsFinished and
 joined any number of times

---
 thread.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thread.go b/thread.go
index a27241a..08c89d7 100644
--- a/thread.go
+++ b/thread.go
@@ -48,7 +48,7 @@ func Spawn(f func()) JoinHandle {
 
 	go func() {
 		f()
-		channel <- Unit{}
+		close(channel)
 	}()
 
 	return JoinHandle{
-- 
2.43.0


From 369d1be534467033ef589997e0a360414abbc4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:54 +0000
Subject: [PATCH 20/49] fix: a gokio future that is never awaited does not keep
 its goroutine

---
 gokio/gokio.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gokio/gokio.go b/gokio/gokio.go
index 92acbf3..3d9612b 100644
--- a/gokio/gokio.go
+++ b/gokio/gokio.go
@@ -11,7 +11,7 @@ func (self *gokioFuture[T]) Await() T {
 }
 
 func Spawn[T any](f func() T) gost.Future[T] {
-	ch := make(chan T)
+	ch := make(chan T, 1)
 
 	future := gokioFuture[T]{ch: ch}
 
-- 
2.43.0


From a5170a2bcdec51ad6cb95ad64300f76f588816ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:35 +0000
Subject: [PATCH 21/49] fix: ReadDir returns one entry per directory entry,
 without leading blanks

---
 fs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fs.go b/fs.go
index 6f224e2..517c81c 100644
--- a/fs.go
+++ b/fs.go
@@ -137,7 +137,7 @@ func ReadDir(path String) Result[Vec[DirEntry]] {
 	if err != nil {
 		return Err[Vec[DirEntry]](err)
 	} else {
-		vec := VecWithLen[DirEntry](USize(len(entries)))
+		vec := VecWithCapacity[DirEntry](USize(len(entries)))
 
 		for _, entry := range entries {
 			fileType := FileType{}
-- 
2.43.0


From 8b5d6ce9fa0b400837a872d3c2c15dfb4fd31a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:40 +0000
Subject: [PATCH 22/49] fix: ReadDir tells directories, files and symlinks
 apart

---
 fs.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fs.go b/fs.go
index 517c81c..32c8b89 100644
--- a/fs.go
+++ b/fs.go
@@ -142,11 +142,11 @@ func ReadDir(path String) Result[Vec[DirEntry]] {
 		for _, entry := range entries {
 			fileType := FileType{}
 
-			if entry.Type().Perm().IsDir() {
+			if entry.Type().IsDir() {
 				fileType.typeInfo = "dir"
-			} else if entry.Type().Perm().IsRegular() {
+			} else if entry.Type().IsRegular() {
 				fileType.typeInfo = "file"
-			} else if entry.Type().Perm()&os.ModeSymlink != 0 {
+			} else if entry.Type()&os.ModeSymlink != 0 {
 				fileType.typeInfo = "symlink"
 			}
 
-- 
2.43.0


From d0fc38b7872ca2f365530eea88066952aeec373b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:44 +0000
Subject: [PATCH 23/49] fix: Read and ReadToString read the file to its end

---
 fs.go | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/fs.go b/fs.go
index 32c8b89..c5583fa 100644
--- a/fs.go
+++ b/fs.go
@@ -1,6 +1,7 @@
 package gost
 
 import (
+	"io"
 	"os"
 	"path/filepath"
 )
@@ -85,15 +86,7 @@ func Read(path String) Result[[]Byte] {
 
 	defer file.Close()
 
-	stat, err := file.Stat()
-
-	if err != nil {
-		return Err[[]Byte](err)
-	}
-
-	data := make([]byte, stat.Size())
-
-	_, err = file.Read(data)
+	data, err := io.ReadAll(file)
 
 	if err != nil {
 		return Err[[]Byte](err)
@@ -185,15 +178,7 @@ func ReadToString(path String) Result[String] {
 
 	defer file.Close()
 
-	stat, err := file.Stat()
-
-	if err != nil {
-		return Err[String](err)
-	}
-
-	data := make([]byte, stat.Size())
-
-	_, err = file.Read(data)
+	data, err := io.ReadAll(file)
 
 	if err != nil {
 		return Err[String](err)
-- 
2.43.0


From d4704cca64049a7359a359581fa2314c3fc11be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:48 +0000
Subject: [PATCH 24/49] fix: Copy copies the contents instead of making a hard
 link

---
 fs.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/fs.go b/fs.go
index c5583fa..e8b44dd 100644
--- a/fs.go
+++ b/fs.go
@@ -159,7 +159,19 @@ func ReadDir(path String) Result[Vec[DirEntry]] {
 // Copies the contents of one file to another. This function will also copy the permission bits of the original file to the destination file.
 // This function will overwrite the contents of to.
 func Copy(from String, to String) Result[any] {
-	err := os.Link(string(from), string(to))
+	info, err := os.Stat(string(from))
+
+	if err != nil {
+		return Err[any](err)
+	}
+
+	data, err := os.ReadFile(string(from))
+
+	if err != nil {
+		return Err[any](err)
+	}
+
+	err = os.WriteFile(string(to), data, info.Mode().Perm())
 
 	if err != nil {
 		return Err[any](err)
-- 
2.43.0


From 7b4ef2bd12ae0b6e68c3e3879974902eea5ac3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:52 +0000
Subject: [PATCH 25/49] fix: RemoveDir refuses non-directories and RemoveFile
 refuses directories

---
 fs.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/fs.go b/fs.go
index e8b44dd..cfdbdfc 100644
--- a/fs.go
+++ b/fs.go
@@ -4,6 +4,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"syscall"
 )
 
 // Creates a new, empty directory at the provided path
@@ -19,7 +20,17 @@ func CreateDir(path String) Result[any] {
 
 // Removes an empty directory.
 func RemoveDir(path String) Result[any] {
-	err := os.Remove(string(path))
+	info, err := os.Lstat(string(path))
+
+	if err != nil {
+		return Err[any](err)
+	}
+
+	if !info.IsDir() {
+		return Err[any](&os.PathError{Op: "rmdir", Path: string(path), Err: syscall.ENOTDIR})
+	}
+
+	err = os.Remove(string(path))
 
 	if err != nil {
 		return Err[any](err)
@@ -55,7 +66,17 @@ func Write(path String, data []Byte) Result[any] {
 
 // Removes a file from the filesystem.
 func RemoveFile(path String) Result[any] {
-	err := os.Remove(string(path))
+	info, err := os.Lstat(string(path))
+
+	if err != nil {
+		return Err[any](err)
+	}
+
+	if info.IsDir() {
+		return Err[any](&os.PathError{Op: "unlink", Path: string(path), Err: syscall.EISDIR})
+	}
+
+	err = os.Remove(string(path))
 
 	if err != nil {
 		return Err[any](err)
-- 
2.43.0


From 7d16294dcb12072a89ea8c27a656d50844f2e4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:56 +0000
Subject: [PATCH 26/49] fix: Stdin.ReadLine appends the whole line to the
 buffer

---
 io.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/io.go b/io.go
index ff5ff73..cb009a9 100644
--- a/io.go
+++ b/io.go
@@ -2,6 +2,7 @@ package gost
 
 import (
 	"fmt"
+	"os"
 	"sync"
 	"unicode/utf8"
 )
@@ -82,7 +83,17 @@ func (self *Stdin) ReadLine(buffer *String) {
 	self.lock.Lock()
 	defer self.lock.Unlock()
 
-	var line string
-	fmt.Scanln(&line)
-	*buffer = String(line)
+	line := []byte{}
+	char := make([]byte, 1)
+
+	for {
+		n, err := os.Stdin.Read(char)
+		if n == 0 || err != nil || char[0] == '\n' {
+			break
+		}
+
+		line = append(line, char[0])
+	}
+
+	*buffer += String(line)
 }
-- 
2.43.0


From 132df548293db1ceb181a05db4590be889d78b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 27/49] fix: StringFromUTF16 decodes every unit and reports
 invalid data

---
 string.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/string.go b/string.go
index f09d530..2e7ce28 100644
--- a/string.go
+++ b/string.go
@@ -1,6 +1,7 @@
 package gost
 
 import (
+	"errors"
 	"strconv"
 	"strings"
 	"unicode/utf16"
@@ -16,12 +17,19 @@ func StringFromUTF16(bytes Vec[U16]) Result[String] {
 	data := bytes.data
 	convertedData := []uint16{}
 
-	for i := 0; i < len(data); i += 2 {
+	for i := 0; i < len(data); i++ {
 		convertedData = append(convertedData, uint16(data[i]))
 	}
 
 	decoded := utf16.Decode(convertedData)
 
+	// an unpaired surrogate is decoded to U+FFFD, and encoded back as that
+	for i, unit := range utf16.Encode(decoded) {
+		if unit != convertedData[i] {
+			return Err[String](errors.New("invalid utf-16: lone surrogate found"))
+		}
+	}
+
 	return Ok[String](String(decoded))
 }
 
-- 
2.43.0


From bdeca5395e452032d64a29bda1410716d19d6a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:25 +0000
Subject: [PATCH 28/49] fix: ParseU64 accepts the whole range of U64 and no
 negative numbers

---
 string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.go b/string.go
index 2e7ce28..168460d 100644
--- a/string.go
+++ b/string.go
@@ -138,7 +138,7 @@ func (self String) ParseI64() Result[I64] {
 
 // Parses this string slice into another type. (U64)
 func (self String) ParseU64() Result[U64] {
-	parsed, err := strconv.Atoi(string(self))
+	parsed, err := strconv.ParseUint(string(self), 10, 64)
 
 	if err != nil {
 		return Err[U64](err)
-- 
2.43.0


From e4c5caaa99b637303fb742e2df1903e47d3a8aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:29 +0000
Subject: [PATCH 29/49] fix: Pair implements the ToString and Display traits

---
 pair.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pair.go b/pair.go
index 93a94d0..b58cb22 100644
--- a/pair.go
+++ b/pair.go
@@ -9,7 +9,7 @@ type Pair[K any, V any] struct {
 }
 
 // impl Display for Pair
-func (p Pair[K, V]) ToString() string {
+func (p Pair[K, V]) ToString() String {
 	keyToString := castToToString[K](p.Key)
 	valueToString := castToToString[V](p.Value)
 
@@ -28,16 +28,16 @@ func (p Pair[K, V]) ToString() string {
 		value = String(fmt.Sprintf("%v", p.Value))
 	}
 
-	return fmt.Sprintf("Pair[%s, %s]", key, value)
+	return String(fmt.Sprintf("Pair[%s, %s]", key, value))
 }
 
 // impl Display for Pair
-func (p Pair[K, V]) Display() string {
+func (p Pair[K, V]) Display() String {
 	return p.ToString()
 }
 
 // impl Debug for Pair
-func (p Pair[K, V]) Debug() string {
+func (p Pair[K, V]) Debug() String {
 	return p.ToString()
 }
 
-- 
2.43.0


From 3bcf2537c6fc3e18e946bd741f8eb8a3705fdf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:44 +0000
Subject: [PATCH 30/49] fix: the Debug trait returns String, as every
 implementation does

---
 fmt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fmt.go b/fmt.go
index 64d9fd2..6f95440 100644
--- a/fmt.go
+++ b/fmt.go
@@ -103,7 +103,7 @@ func castToDisplay[T any](value T) Option[Display[T]] {
 // ? formatting.
 // Debug should format the output in a programmer-facing, debugging context.
 type Debug[T any] interface {
-	Debug() string
+	Debug() String
 }
 
 func (self ISize) Debug() String {
-- 
2.43.0


From ab646e4b6a9c0857562900c9d1f6c146dae0af64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:48 +0000
Subject: [PATCH 31/49] fix: Vec.Reserve changes the capacity only

---
 vec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vec.go b/vec.go
index f4570b0..359b4a7 100644
--- a/vec.go
+++ b/vec.go
@@ -70,7 +70,7 @@ func (self Vec[T]) IsEmpty() Bool {
 //	gost.AssertEq(vec.Capacity(), gost.USize(10))
 func (self *Vec[T]) Reserve(additional USize) {
 	if self.Capacity() < self.Len()+additional {
-		self.data = append(self.data, make([]T, additional)...)
+		self.data = append(self.data, make([]T, additional)...)[:self.Len()]
 	}
 }
 
-- 
2.43.0


From 162f392cc98c0060bea009b14fbd84ddad0c6641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:53 +0000
Subject: [PATCH 32/49] fix: Vec.DedupByKey removes consecutive elements only

---
 vec.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vec.go b/vec.go
index 359b4a7..de095ab 100644
--- a/vec.go
+++ b/vec.go
@@ -181,11 +181,11 @@ func (self *Vec[T]) Retain(predicate func(T) Bool) {
 //	gost.AssertEq(vec.Len(), gost.USize(3))
 func (self *Vec[T]) DedupByKey(key func(T) any) {
 	newData := make([]T, 0, len(self.data))
-	seen := make(map[any]bool)
-	for _, value := range self.data {
+	var last any
+	for i, value := range self.data {
 		k := key(value)
-		if !seen[k] {
-			seen[k] = true
+		if i == 0 || k != last {
+			last = k
 			newData = append(newData, value)
 		}
 	}
-- 
2.43.0


From 45ae2d2dd401f4407b20387c086e3036097442a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:57 +0000
Subject: [PATCH 33/49] fix: Vec.Set out of bounds hands the value back instead
 of panicking

---
 vec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vec.go b/vec.go
index de095ab..3e9cb89 100644
--- a/vec.go
+++ b/vec.go
@@ -259,7 +259,7 @@ func (self Vec[T]) GetUnchecked(index USize) T {
 //	gost.AssertEq(vec.GetUnchecked(0), gost.I32(4))
 func (self *Vec[T]) Set(index USize, value T) Option[T] {
 	if index < 0 || index >= self.Len() {
-		return Some[T](self.data[index])
+		return Some[T](value)
 	} else {
 		self.data[index] = value
 		return None[T]()
-- 
2.43.0


From 607fd8c04f167d1da5a89b2447eaceb3359af3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:55 +0000
Subject: [PATCH 34/49] fix: Rev of a partly consumed iterator yields the
 remaining elements only

---
 btree_map.go | 12 ++++++------
 btree_set.go |  4 ++--
 hash_map.go  | 12 ++++++------
 hash_set.go  |  4 ++--
 vec.go       |  4 ++--
 5 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index 7015fe5..17889e5 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -827,8 +827,8 @@ func (self *BTreeMapIter[K, V]) Fold(init Pair[K, V], f func(Pair[K, V], Pair[K,
 
 // rev
 func (self BTreeMapIter[K, V]) Rev() Iterator[Pair[K, V]] {
-	newVec := VecWithLen[Pair[K, V]](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[Pair[K, V]](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
@@ -941,8 +941,8 @@ func (self *BTreeMapKeys[K]) Fold(init K, f func(K, K) K) K {
 
 // rev
 func (self BTreeMapKeys[K]) Rev() Iterator[K] {
-	newVec := VecWithLen[K](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[K](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
@@ -1055,8 +1055,8 @@ func (self *BTreeMapValues[V]) Fold(init V, f func(V, V) V) V {
 
 // rev
 func (self BTreeMapValues[V]) Rev() Iterator[V] {
-	newVec := VecWithLen[V](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[V](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
diff --git a/btree_set.go b/btree_set.go
index 6a00e57..2fc55f7 100644
--- a/btree_set.go
+++ b/btree_set.go
@@ -368,8 +368,8 @@ func (self BTreeSetIter[K]) Fold(init K, f func(K, K) K) K {
 
 // rev
 func (self BTreeSetIter[K]) Rev() Iterator[K] {
-	newVec := VecWithLen[K](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[K](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
diff --git a/hash_map.go b/hash_map.go
index 632a11e..706f067 100644
--- a/hash_map.go
+++ b/hash_map.go
@@ -188,8 +188,8 @@ func (self HashMapIter[K, V]) Fold(init Pair[K, V], f func(Pair[K, V], Pair[K, V
 
 // rev
 func (self HashMapIter[K, V]) Rev() Iterator[Pair[K, V]] {
-	newVec := VecWithLen[Pair[K, V]](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[Pair[K, V]](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
@@ -303,8 +303,8 @@ func (self HashMapKeys[K]) Fold(init K, f func(K, K) K) K {
 
 // rev
 func (self HashMapKeys[K]) Rev() Iterator[K] {
-	newVec := VecWithLen[K](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[K](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
@@ -411,8 +411,8 @@ func (self HashMapValues[V]) Fold(init V, f func(V, V) V) V {
 
 // rev
 func (self HashMapValues[V]) Rev() Iterator[V] {
-	newVec := VecWithLen[V](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[V](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
diff --git a/hash_set.go b/hash_set.go
index 0d74497..1eb34f5 100644
--- a/hash_set.go
+++ b/hash_set.go
@@ -403,8 +403,8 @@ func (self HashSetIter[K]) Fold(init K, f func(K, K) K) K {
 
 // rev
 func (self HashSetIter[K]) Rev() Iterator[K] {
-	newVec := VecWithLen[K](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[K](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
diff --git a/vec.go b/vec.go
index 3e9cb89..3cf7a8e 100644
--- a/vec.go
+++ b/vec.go
@@ -594,8 +594,8 @@ func (self VecIter[T]) Fold(init T, f func(T, T) T) T {
 
 // rev
 func (self VecIter[T]) Rev() Iterator[T] {
-	newVec := VecWithLen[T](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[T](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
-- 
2.43.0


From 52a834aa5e696c4a99deabf01ef1e8d05c2eaea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:00 +0000
Subject: [PATCH 35/49] fix: CollectToVec of the map and set iterators collects
 the remaining elements only

---
 btree_map.go | 33 ++++++++++++++++++++++++++++++---
 btree_set.go | 11 ++++++++++-
 hash_map.go  | 33 ++++++++++++++++++++++++++++++---
 hash_set.go  | 11 ++++++++++-
 4 files changed, 80 insertions(+), 8 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index 17889e5..808990b 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -843,7 +843,16 @@ func (self BTreeMapIter[K, V]) Rev() Iterator[Pair[K, V]] {
 
 // Collect to Vec
 func (self BTreeMapIter[K, V]) CollectToVec() Vec[Pair[K, V]] {
-	return self.vec
+	vec := VecNew[Pair[K, V]]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
@@ -957,7 +966,16 @@ func (self BTreeMapKeys[K]) Rev() Iterator[K] {
 
 // Collect to Vec
 func (self BTreeMapKeys[K]) CollectToVec() Vec[K] {
-	return self.vec
+	vec := VecNew[K]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
@@ -1071,7 +1089,16 @@ func (self BTreeMapValues[V]) Rev() Iterator[V] {
 
 // Collect to Vec
 func (self BTreeMapValues[V]) CollectToVec() Vec[V] {
-	return self.vec
+	vec := VecNew[V]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
diff --git a/btree_set.go b/btree_set.go
index 2fc55f7..47c1f3e 100644
--- a/btree_set.go
+++ b/btree_set.go
@@ -384,7 +384,16 @@ func (self BTreeSetIter[K]) Rev() Iterator[K] {
 
 // Collect to Vec
 func (self BTreeSetIter[K]) CollectToVec() Vec[K] {
-	return self.vec
+	vec := VecNew[K]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
diff --git a/hash_map.go b/hash_map.go
index 706f067..353449c 100644
--- a/hash_map.go
+++ b/hash_map.go
@@ -204,7 +204,16 @@ func (self HashMapIter[K, V]) Rev() Iterator[Pair[K, V]] {
 
 // Collect to Vec
 func (self HashMapIter[K, V]) CollectToVec() Vec[Pair[K, V]] {
-	return self.vec
+	vec := VecNew[Pair[K, V]]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
@@ -319,7 +328,16 @@ func (self HashMapKeys[K]) Rev() Iterator[K] {
 
 // Collect to Vec
 func (self HashMapKeys[K]) CollectToVec() Vec[K] {
-	return self.vec
+	vec := VecNew[K]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
@@ -427,7 +445,16 @@ func (self HashMapValues[V]) Rev() Iterator[V] {
 
 // Collect to Vec
 func (self HashMapValues[V]) CollectToVec() Vec[V] {
-	return self.vec
+	vec := VecNew[V]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
diff --git a/hash_set.go b/hash_set.go
index 1eb34f5..4e66a7b 100644
--- a/hash_set.go
+++ b/hash_set.go
@@ -419,7 +419,16 @@ func (self HashSetIter[K]) Rev() Iterator[K] {
 
 // Collect to Vec
 func (self HashSetIter[K]) CollectToVec() Vec[K] {
-	return self.vec
+	vec := VecNew[K]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
-- 
2.43.0


From b45ba259ed5bbf73ffba5f07c4beb467014d22a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 36/49] fix: the adapters of VecDequeIter start at its
 position, and Rev terminates

---
 vec_deque.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vec_deque.go b/vec_deque.go
index e908ced..db3cfb0 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -722,7 +722,7 @@ func (self *VecDequeIter[T]) Next() Option[T] {
 func (self *VecDequeIter[T]) Map(f func(T) T) Iterator[T] {
 	newDeque := VecDequeWithCapacity[T](self.deque.Capacity())
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		newDeque.PushBack(f(self.deque.Get(i).Unwrap()))
 	}
 
@@ -733,7 +733,7 @@ func (self *VecDequeIter[T]) Map(f func(T) T) Iterator[T] {
 func (self *VecDequeIter[T]) Filter(f func(T) Bool) Iterator[T] {
 	newDeque := VecDequeWithCapacity[T](self.deque.Capacity())
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		value := self.deque.Get(i).Unwrap()
 		if f(value) {
 			newDeque.PushBack(value)
@@ -747,7 +747,7 @@ func (self *VecDequeIter[T]) Filter(f func(T) Bool) Iterator[T] {
 func (self *VecDequeIter[T]) Fold(initial T, f func(T, T) T) T {
 	accumulator := initial
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		accumulator = f(accumulator, self.deque.Get(i).Unwrap())
 	}
 
@@ -758,8 +758,8 @@ func (self *VecDequeIter[T]) Fold(initial T, f func(T, T) T) T {
 func (self *VecDequeIter[T]) Rev() Iterator[T] {
 	newDeque := VecDequeWithCapacity[T](self.deque.Capacity())
 
-	for i := self.deque.Len().WrappingSub(1); i >= 0; i-- {
-		newDeque.PushBack(self.deque.Get(i).Unwrap())
+	for i := self.deque.Len(); i > self.position; i-- {
+		newDeque.PushBack(self.deque.Get(i - 1).Unwrap())
 	}
 
 	return newDeque.IntoIter()
@@ -769,7 +769,7 @@ func (self *VecDequeIter[T]) Rev() Iterator[T] {
 func (self *VecDequeIter[T]) CollectToVec() Vec[T] {
 	newVec := VecWithCapacity[T](self.deque.Capacity())
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		newVec.Push(self.deque.Get(i).Unwrap())
 	}
 
@@ -780,7 +780,7 @@ func (self *VecDequeIter[T]) CollectToVec() Vec[T] {
 func (self *VecDequeIter[T]) CollectToLinkedList() LinkedList[T] {
 	newLinkedList := LinkedListNew[T]()
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		newLinkedList.PushBack(self.deque.Get(i).Unwrap())
 	}
 
-- 
2.43.0


From 95274e162b3702d21945ce044bfc9b643dd47a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:09 +0000
Subject: [PATCH 37/49] fix: VecDeque.Clone clones the elements and implements
 the Clone trait

---
 vec_deque.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vec_deque.go b/vec_deque.go
index db3cfb0..b141386 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -825,14 +825,14 @@ func (self VecDeque[T]) AsRef() *VecDeque[T] {
 }
 
 // impl Clone for VecDeque
-func (self VecDeque[T]) Clone() *VecDeque[T] {
+func (self VecDeque[T]) Clone() VecDeque[T] {
 	cloned := VecDequeWithCapacity[T](self.Capacity())
 
 	for i := USize(0); i < self.Len(); i++ {
-		cloned.PushBack(self.Get(i).Unwrap())
+		cloned.PushBack(castToClone(self.Get(i).Unwrap()).Unwrap().Clone())
 	}
 
-	return &cloned
+	return cloned
 }
 
 // impl Eq for Vec
-- 
2.43.0


From 172794b45aa2ba6bf368fe57a4e2369e3058a9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:14 +0000
Subject: [PATCH 38/49] fix: VecDeque binary searches look at the logical
 positions of the ring

---
 vec_deque.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vec_deque.go b/vec_deque.go
index b141386..a5340e1 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -413,7 +413,7 @@ func (self VecDeque[T]) BinarySearch(value T) Option[USize] {
 	for low <= high {
 		mid := (low + high) / 2
 
-		midData := castToOrd[T](self.buffer[mid]).Unwrap()
+		midData := castToOrd[T](self.GetUnchecked(USize(mid))).Unwrap()
 		ordering := midData.Cmp(value)
 
 		switch ordering {
@@ -457,7 +457,7 @@ func (self VecDeque[T]) BinarySearchBy(f func(T) Ordering) Option[USize] {
 
 	for low <= high {
 		mid := (low + high) / 2
-		ordering := f(self.buffer[mid])
+		ordering := f(self.GetUnchecked(USize(mid)))
 
 		switch ordering {
 		case OrderingLess:
-- 
2.43.0


From 5c093505b92e9a6a309113aca284de4b0646d3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:18 +0000
Subject: [PATCH 39/49] fix: VecDeque AsSlice and sorts work on the logical
 contents of the ring

---
 vec_deque.go | 54 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/vec_deque.go b/vec_deque.go
index a5340e1..cb2d89c 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -341,7 +341,7 @@ func (self *VecDeque[T]) Clear() {
 
 // Extracts a slice containing the entire vecdeque.
 func (self VecDeque[T]) AsSlice() []T {
-	return self.buffer[:self.len]
+	return self._MakeContiguous()
 }
 
 // Require `impl Eq[T] for T`
@@ -491,14 +491,16 @@ func (self VecDeque[T]) BinarySearchBy(f func(T) Ordering) Option[USize] {
 //	gost.AssertEq(deque.GetUnchecked(1), gost.I32(2))
 //	gost.AssertEq(deque.GetUnchecked(2), gost.I32(3))
 func (self *VecDeque[T]) Sort() {
-	sort.SliceStable(self.buffer[:self.len], func(i, j int) bool {
-		if castToOrd[T](self.buffer[i]).IsNone() {
-			typeName := getTypeName(self.buffer[i])
+	slice := self._MakeContiguous()
+
+	sort.SliceStable(slice, func(i, j int) bool {
+		if castToOrd[T](slice[i]).IsNone() {
+			typeName := getTypeName(slice[i])
 			panic(fmt.Sprintf("'%s' does not implement Ord[%s]", typeName, typeName))
 		}
 
-		lhs := castToOrd[T](self.buffer[i]).Unwrap()
-		rhs := self.buffer[j]
+		lhs := castToOrd[T](slice[i]).Unwrap()
+		rhs := slice[j]
 
 		return lhs.Cmp(rhs) == OrderingLess
 	})
@@ -525,8 +527,10 @@ func (self *VecDeque[T]) Sort() {
 //	})
 //	gost.AssertEq(deque.GetUnchecked(0), gost.I32(1))
 func (self *VecDeque[T]) SortBy(f func(T, T) Ordering) {
-	sort.SliceStable(self.buffer[:self.len], func(i, j int) bool {
-		return f(self.buffer[i], self.buffer[j]) == OrderingLess
+	slice := self._MakeContiguous()
+
+	sort.SliceStable(slice, func(i, j int) bool {
+		return f(slice[i], slice[j]) == OrderingLess
 	})
 }
 
@@ -540,14 +544,16 @@ func (self *VecDeque[T]) SortBy(f func(T, T) Ordering) {
 //	deque.SortUnstable()
 //	gost.AssertEq(deque.GetUnchecked(0), gost.I32(1))
 func (self *VecDeque[T]) SortUnstable() {
-	sort.Slice(self.buffer[:self.len], func(i, j int) bool {
-		if castToOrd[T](self.buffer[i]).IsNone() {
-			typeName := getTypeName(self.buffer[i])
+	slice := self._MakeContiguous()
+
+	sort.Slice(slice, func(i, j int) bool {
+		if castToOrd[T](slice[i]).IsNone() {
+			typeName := getTypeName(slice[i])
 			panic(fmt.Sprintf("'%s' does not implement Ord[%s]", typeName, typeName))
 		}
 
-		lhs := castToOrd[T](self.buffer[i]).Unwrap()
-		rhs := self.buffer[j]
+		lhs := castToOrd[T](slice[i]).Unwrap()
+		rhs := slice[j]
 
 		return lhs.Cmp(rhs) == OrderingLess
 	})
@@ -574,8 +580,10 @@ func (self *VecDeque[T]) SortUnstable() {
 //	})
 //	gost.AssertEq(deque.GetUnchecked(0), gost.I32(1))
 func (self *VecDeque[T]) SortUnstableBy(f func(T, T) Ordering) {
-	sort.Slice(self.buffer[:self.len], func(i, j int) bool {
-		return f(self.buffer[i], self.buffer[j]) == OrderingLess
+	slice := self._MakeContiguous()
+
+	sort.Slice(slice, func(i, j int) bool {
+		return f(slice[i], slice[j]) == OrderingLess
 	})
 }
 
@@ -666,6 +674,22 @@ func (self *VecDeque[T]) _CopyNonoverlapping(src USize, dst USize, len USize) {
 	copy(self.buffer[dst:dst+len], self.buffer[src:])
 }
 
+// Rearranges the internal storage, if it wraps around, so that the elements are in one contiguous slice, which is returned.
+func (self *VecDeque[T]) _MakeContiguous() []T {
+	headLen := USize(len(self.buffer)) - self.head
+
+	if self.len > headLen {
+		newBuffer := make([]T, len(self.buffer))
+		copy(newBuffer, self.buffer[self.head:])
+		copy(newBuffer[headLen:], self.buffer[:self.head])
+
+		self.buffer = newBuffer
+		self.head = 0
+	}
+
+	return self.buffer[self.head : self.head+self.len]
+}
+
 // / Returns the index in the underlying buffer for a given logical element index.
 func _WrapIndex(logicalIndex USize, capacity USize) USize {
 	if logicalIndex >= capacity {
-- 
2.43.0


From 1a390e6397bcdbc5baba1231148ff8b01a526984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:51 +0000
Subject: [PATCH 40/49] fix: LinkedListIter.Rev reverses

---
 linked_list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linked_list.go b/linked_list.go
index 39389ca..9b83aa2 100644
--- a/linked_list.go
+++ b/linked_list.go
@@ -329,7 +329,7 @@ func (self LinkedListIter[T]) Rev() Iterator[T] {
 			break
 		}
 
-		newList.PushBack(value.Unwrap())
+		newList.PushFront(value.Unwrap())
 	}
 
 	return newList.IntoIter()
-- 
2.43.0


From 51cb5cbc6dac2d786a80bbd691a2718cd1ae1ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:55 +0000
Subject: [PATCH 41/49] fix: BinaryHeap.Append leaves the other heap empty

---
 binary_heap.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/binary_heap.go b/binary_heap.go
index 2d4121e..37cbba7 100644
--- a/binary_heap.go
+++ b/binary_heap.go
@@ -187,6 +187,8 @@ func (self *BinaryHeap[T]) Append(other *BinaryHeap[T]) {
 	for _, item := range other.vec.data {
 		self.Push(item)
 	}
+
+	other.Clear()
 }
 
 // Clears the heap, removing all values.
-- 
2.43.0


From 587fa48e60b8fee9973b433dff53baf6f7242210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:38 +0000
Subject: [PATCH 42/49] fix: BTreeMap nodes split in the middle, and only when
 they are full

---
 btree_map.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index 808990b..b7245ee 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -50,11 +50,12 @@ func (self *BTreeMap[K, V]) Insert(key K, value V) Option[V] {
 	if self.root == nil {
 		// Allocate memory for root
 		self.root = &BTreeNode[K, V]{
-			_Type:  _LEAF,
-			keys:   VecWithLen[*K](_BTREE_CAPACITY),
-			values: VecWithLen[*V](_BTREE_CAPACITY),
-			childs: VecWithLen[*BTreeNode[K, V]](_BTREE_CAPACITY + 1),
-			n:      1,
+			_Type:          _LEAF,
+			_MinimumDegree: _B,
+			keys:           VecWithLen[*K](_BTREE_CAPACITY),
+			values:         VecWithLen[*V](_BTREE_CAPACITY),
+			childs:         VecWithLen[*BTreeNode[K, V]](_BTREE_CAPACITY + 1),
+			n:              1,
 		}
 
 		self.root.keys.SetUnchecked(0, &key)
@@ -79,7 +80,7 @@ func (self *BTreeMap[K, V]) Insert(key K, value V) Option[V] {
 			// Allocate memory for new root
 			newRoot := &BTreeNode[K, V]{
 				_Type:          _INTERNAL,
-				_MinimumDegree: _BTREE_CAPACITY,
+				_MinimumDegree: _B,
 				keys:           VecWithLen[*K](_BTREE_CAPACITY),
 				values:         VecWithLen[*V](_BTREE_CAPACITY),
 				childs:         VecWithLen[*BTreeNode[K, V]](_BTREE_CAPACITY + 1),
@@ -315,12 +316,12 @@ func (self BTreeNode[K, V]) _ToValueVec() Vec[V] {
 func (self BTreeNode[K, V]) _Search(key K) (Option[*BTreeNode[K, V]], uint) {
 	// Find the first key greater than or equal to k
 	i := USize(0)
-	for i < self.keys.Len() && self.keys.GetUnchecked(i) != nil && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingGreater {
+	for i < USize(self.n) && self.keys.GetUnchecked(i) != nil && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingGreater {
 		i++
 	}
 
 	// If the found key is equal to k, return this node
-	if i < self.keys.Len() && self.keys.GetUnchecked(i) != nil && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingEqual {
+	if i < USize(self.n) && self.keys.GetUnchecked(i) != nil && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingEqual {
 		return Some[*BTreeNode[K, V]](&self), uint(i)
 	}
 
@@ -414,7 +415,7 @@ func (self *BTreeNode[K, V]) _InsertNonFull(key K, value V) {
 		}
 
 		// See if the found child is full
-		if self.childs.GetUnchecked(USize(i+1)).keys.Len() == _BTREE_CAPACITY {
+		if self.childs.GetUnchecked(USize(i+1)).n == _BTREE_CAPACITY {
 			// If the child is full, then split it
 			self.splitChild(i+1, self.childs.GetUnchecked(USize(i+1)))
 
@@ -443,7 +444,7 @@ func (self *BTreeNode[K, V]) splitChild(i int, y *BTreeNode[K, V]) {
 	z.n = self._MinimumDegree - 1
 
 	// Copy the last (t-1) keys of y to z
-	for j := 0; j < z._MinimumDegree; j++ {
+	for j := 0; j < z.n; j++ {
 		z.keys.SetUnchecked(USize(j), y.keys.GetUnchecked(USize(j+self._MinimumDegree)))
 		z.values.SetUnchecked(USize(j), y.values.GetUnchecked(USize(j+self._MinimumDegree)))
 	}
@@ -469,7 +470,7 @@ func (self *BTreeNode[K, V]) splitChild(i int, y *BTreeNode[K, V]) {
 
 	// A key of y will move to this node. Find location of
 	// new key and move all greater keys one space ahead
-	for j := self.n; j >= i; j-- {
+	for j := self.n - 1; j >= i; j-- {
 		self.keys.SetUnchecked(USize(j+1), self.keys.GetUnchecked(USize(j)))
 		self.values.SetUnchecked(USize(j+1), self.values.GetUnchecked(USize(j)))
 	}
-- 
2.43.0


From 74ff132d101f841e44a77608a7c3371e4bc05512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:42 +0000
Subject: [PATCH 43/49] fix: BTreeMap traversals visit the last child and the
 used slots only

---
 btree_map.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index b7245ee..8a08966 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -236,7 +236,7 @@ func (self BTreeNode[K, V]) _ToVec() Vec[Pair[K, V]] {
 	// and first n children
 
 	i := USize(0)
-	for i < self.keys.Len() {
+	for i < USize(self.n) {
 		// If this is not leaf, then before printing key[i],
 		// traverse the subtree rooted with child C[i].
 		if self._Type != _LEAF {
@@ -252,6 +252,11 @@ func (self BTreeNode[K, V]) _ToVec() Vec[Pair[K, V]] {
 		i++
 	}
 
+	if self._Type != _LEAF {
+		childsVec := self.childs.GetUnchecked(i)._ToVec()
+		vec.Append(&childsVec)
+	}
+
 	return vec
 }
 
@@ -263,7 +268,7 @@ func (self BTreeNode[K, V]) _ToKeyVec() Vec[K] {
 	// and first n children
 
 	i := USize(0)
-	for i < self.keys.Len() && i < USize(self.n) {
+	for i < USize(self.n) {
 		// If this is not leaf, then before printing key[i],
 		// traverse the subtree rooted with child C[i].
 		if self._Type != _LEAF {
@@ -281,6 +286,11 @@ func (self BTreeNode[K, V]) _ToKeyVec() Vec[K] {
 		i++
 	}
 
+	if self._Type != _LEAF {
+		childsVec := self.childs.GetUnchecked(i)._ToKeyVec()
+		vec.Append(&childsVec)
+	}
+
 	return vec
 }
 
@@ -292,7 +302,7 @@ func (self BTreeNode[K, V]) _ToValueVec() Vec[V] {
 	// and first n children
 
 	i := USize(0)
-	for i < self.keys.Len() {
+	for i < USize(self.n) {
 		// If this is not leaf, then before printing key[i],
 		// traverse the subtree rooted with child C[i].
 		if self._Type != _LEAF {
@@ -309,6 +319,11 @@ func (self BTreeNode[K, V]) _ToValueVec() Vec[V] {
 		i++
 	}
 
+	if self._Type != _LEAF {
+		childsVec := self.childs.GetUnchecked(i)._ToValueVec()
+		vec.Append(&childsVec)
+	}
+
 	return vec
 }
 
-- 
2.43.0


From efd85b37673a613fd48ac3465b2d69b173729cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:46 +0000
Subject: [PATCH 44/49] fix: BTreeMap.Remove returns the value of the removed
 key

---
 btree_map.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index 8a08966..8509391 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -188,6 +188,12 @@ func (self *BTreeMap[K, V]) Remove(key K) Option[V] {
 	result, index := self.root._Search(key)
 
 	// Call the remove function for root
+	if result.IsNone() {
+		return None[V]()
+	}
+
+	oldValue := *result.Unwrap().values.data[index]
+
 	self.root._Remove(key)
 
 	// If the root node has 0 keys, make its first child as the new root
@@ -200,12 +206,8 @@ func (self *BTreeMap[K, V]) Remove(key K) Option[V] {
 		}
 	}
 
-	if result.IsNone() {
-		return None[V]()
-	} else {
-		self.len--
-		return Some(*result.Unwrap().values.data[index])
-	}
+	self.len--
+	return Some(oldValue)
 }
 
 // Debug only
-- 
2.43.0


From 6b11620b62ce815250e69ccf05ec437b44401d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:32 +0000
Subject: [PATCH 45/49] fix: iterating over an empty BTreeSet

---
 btree_set.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/btree_set.go b/btree_set.go
index 47c1f3e..707c6a5 100644
--- a/btree_set.go
+++ b/btree_set.go
@@ -305,7 +305,11 @@ type BTreeSetIter[K Ord[K]] struct {
 
 // into_iter
 func (self *BTreeSet[K]) IntoIter() Iterator[K] {
-	keys := self._treemap.root._ToKeyVec()
+	keys := Vec[K]{}
+
+	if self._treemap.root != nil {
+		keys = self._treemap.root._ToKeyVec()
+	}
 
 	return &BTreeSetIter[K]{vec: keys, position: 0}
 }
-- 
2.43.0


From e47409609b759926cbcc9a4abba0c35445f765bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:36 +0000
Subject: [PATCH 46/49] fix: BTreeSet.Clone terminates

---
 btree_set.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/btree_set.go b/btree_set.go
index 707c6a5..be8476e 100644
--- a/btree_set.go
+++ b/btree_set.go
@@ -450,8 +450,9 @@ func (self BTreeSet[K]) AsRef() *BTreeSet[K] {
 func (self BTreeSet[K]) Clone() BTreeSet[K] {
 	newSet := BTreeSetNew[K]()
 
+	iter := self.IntoIter()
 	for {
-		value := self.IntoIter().Next()
+		value := iter.Next()
 
 		if value.IsNone() {
 			return newSet
-- 
2.43.0


From 2be181d68a72f7893273cd277443e58a6d5036f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:41 +0000
Subject: [PATCH 47/49] fix: BTreeMap implements the Eq trait

---
 btree_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/btree_map.go b/btree_map.go
index 8509391..52e4520 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -1172,7 +1172,7 @@ func (self BTreeMap[K, V]) AsRef() *BTreeMap[K, V] {
 }
 
 // impl Eq for BTreeMap
-func (self BTreeMap[K, V]) Eq(other *BTreeMap[K, V]) bool {
+func (self BTreeMap[K, V]) Eq(other BTreeMap[K, V]) Bool {
 	if self.Len() != other.Len() {
 		return false
 	}
-- 
2.43.0


From 7efc5e264d7c8e76ba9ee30429b2c9e95988a5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:47 +0000
Subject: [PATCH 48/49] fix: Copy gives the destination the source's permission
 bits

---
 fs.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fs.go b/fs.go
index cfdbdfc..48b6a9a 100644
--- a/fs.go
+++ b/fs.go
@@ -194,6 +194,13 @@ func Copy(from String, to String) Result[any] {
 
 	err = os.WriteFile(string(to), data, info.Mode().Perm())
 
+	if err != nil {
+		return Err[any](err)
+	}
+
+	// WriteFile applies the umask, and leaves the mode of an existing file as it is.
+	err = os.Chmod(string(to), info.Mode().Perm())
+
 	if err != nil {
 		return Err[any](err)
 	} else {
-- 
2.43.0


From ccd0b37d273ce824069ab72c67ba421b13d796f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:38 +0000
Subject: [PATCH 49/49] fix: Result.IsErr holds exactly when IsOk does not, a
 nil error included

---
 result.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/result.go b/result.go
index ddc9f73..e0c5acd 100644
--- a/result.go
+++ b/result.go
@@ -57,7 +57,7 @@ func (self Result[T]) IsOkAnd(predicate func(T) Bool) Bool {
 //	y := gost.Err[gost.I32](errors.New("error"))
 //	gost.Assert(y.IsErr())
 func (self Result[T]) IsErr() Bool {
-	return self.err != nil
+	return self.ok == nil
 }
 
 // Returns true if the result is Err and the value inside of it matches a predicate.
-- 
2.43.0

