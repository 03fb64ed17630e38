From a9f3ae17dc02ccb011bbf91bd1d9fbe8bd4ff975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:52 +0000
Subject: [PATCH 01/58] fix: signed CheckedSub tests for overflow of the
 subtraction, not of an addition

CheckedSub of I8..I64 consulted the addition's overflow test, the
subtraction's own test was off by one at the lower bound, and ISize's
used the 32-bit bounds, so representable differences gave None.
---
 ops.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/ops.go b/ops.go
index 187ff22..32820fa 100644
--- a/ops.go
+++ b/ops.go
@@ -1060,7 +1060,7 @@ func (self I8) _HasOverflow_Sub(rhs I8) bool {
 	if self > 0 && rhs < math.MinInt8+self {
 		return true
 	}
-	if self < 0 && rhs > math.MaxInt8+self {
+	if self < 0 && rhs > math.MaxInt8+self+1 {
 		return true
 	}
 	return false
@@ -1070,7 +1070,7 @@ func (self I16) _HasOverflow_Sub(rhs I16) bool {
 	if self > 0 && rhs < math.MinInt16+self {
 		return true
 	}
-	if self < 0 && rhs > math.MaxInt16+self {
+	if self < 0 && rhs > math.MaxInt16+self+1 {
 		return true
 	}
 	return false
@@ -1080,7 +1080,7 @@ func (self I32) _HasOverflow_Sub(rhs I32) bool {
 	if self > 0 && rhs < math.MinInt32+self {
 		return true
 	}
-	if self < 0 && rhs > math.MaxInt32+self {
+	if self < 0 && rhs > math.MaxInt32+self+1 {
 		return true
 	}
 	return false
@@ -1090,7 +1090,7 @@ func (self I64) _HasOverflow_Sub(rhs I64) bool {
 	if self > 0 && rhs < math.MinInt64+self {
 		return true
 	}
-	if self < 0 && rhs > math.MaxInt64+self {
+	if self < 0 && rhs > math.MaxInt64+self+1 {
 		return true
 	}
 	return false
@@ -1132,10 +1132,10 @@ func (self U64) _HasUnderflow_Sub(rhs U64) bool {
 }
 
 func (self ISize) _HasUnderflow_Sub(rhs ISize) bool {
-	if rhs > 0 && self < math.MinInt32+rhs {
+	if rhs > 0 && self < math.MinInt+rhs {
 		return true
 	}
-	if rhs < 0 && self > math.MaxInt32+rhs {
+	if rhs < 0 && self > math.MaxInt+rhs {
 		return true
 	}
 	return false
@@ -1784,7 +1784,7 @@ func (self ISize) CheckedSub(rhs ISize) Option[ISize] {
 func (self I8) CheckedSub(rhs I8) Option[I8] {
 	result := self - rhs
 
-	if self._HasOverflow_Add(rhs) || self._HasUnderflow_Sub(rhs) {
+	if self._HasOverflow_Sub(rhs) || self._HasUnderflow_Sub(rhs) {
 		return None[I8]()
 	}
 	return Some[I8](result)
@@ -1793,7 +1793,7 @@ func (self I8) CheckedSub(rhs I8) Option[I8] {
 func (self I16) CheckedSub(rhs I16) Option[I16] {
 	result := self - rhs
 
-	if self._HasOverflow_Add(rhs) || self._HasUnderflow_Sub(rhs) {
+	if self._HasOverflow_Sub(rhs) || self._HasUnderflow_Sub(rhs) {
 		// Overflow occurred
 		return None[I16]()
 	}
@@ -1803,7 +1803,7 @@ func (self I16) CheckedSub(rhs I16) Option[I16] {
 func (self I32) CheckedSub(rhs I32) Option[I32] {
 	result := self - rhs
 
-	if self._HasOverflow_Add(rhs) || self._HasUnderflow_Sub(rhs) {
+	if self._HasOverflow_Sub(rhs) || self._HasUnderflow_Sub(rhs) {
 		// Overflow occurred
 		return None[I32]()
 	}
@@ -1813,7 +1813,7 @@ func (self I32) CheckedSub(rhs I32) Option[I32] {
 func (self I64) CheckedSub(rhs I64) Option[I64] {
 	result := self - rhs
 
-	if self._HasOverflow_Add(rhs) || self._HasUnderflow_Sub(rhs) {
+	if self._HasOverflow_Sub(rhs) || self._HasUnderflow_Sub(rhs) {
 		// Overflow occurred
 		return None[I64]()
 	}
-- 
2.43.0


From 5c10096378aa93ccb4c197806d2fd672bb76e58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:04 +0000
Subject: [PATCH 02/58] fix: multiplication overflow test of signed integers
 and USize

Products of mixed signs were compared with the wrong bound, and USize
used the 32-bit maximum, so CheckedMul and SaturatingMul gave up on
representable products.
---
 ops.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/ops.go b/ops.go
index 32820fa..0d612a9 100644
--- a/ops.go
+++ b/ops.go
@@ -1188,13 +1188,13 @@ func (self ISize) _HasOverflow_Mul(rhs ISize) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt/self {
+			if rhs < math.MinInt/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt/rhs {
+			if self < math.MinInt/rhs {
 				return true
 			}
 		} else {
@@ -1213,13 +1213,13 @@ func (self I8) _HasOverflow_Mul(rhs I8) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt8/self {
+			if rhs < math.MinInt8/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt8/rhs {
+			if self < math.MinInt8/rhs {
 				return true
 			}
 		} else {
@@ -1238,13 +1238,13 @@ func (self I16) _HasOverflow_Mul(rhs I16) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt16/self {
+			if rhs < math.MinInt16/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt16/rhs {
+			if self < math.MinInt16/rhs {
 				return true
 			}
 		} else {
@@ -1263,13 +1263,13 @@ func (self I32) _HasOverflow_Mul(rhs I32) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt32/self {
+			if rhs < math.MinInt32/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt32/rhs {
+			if self < math.MinInt32/rhs {
 				return true
 			}
 		} else {
@@ -1288,13 +1288,13 @@ func (self I64) _HasOverflow_Mul(rhs I64) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt64/self {
+			if rhs < math.MinInt64/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt64/rhs {
+			if self < math.MinInt64/rhs {
 				return true
 			}
 		} else {
@@ -1307,7 +1307,7 @@ func (self I64) _HasOverflow_Mul(rhs I64) bool {
 }
 
 func (self USize) _HasOverflow_Mul(rhs USize) bool {
-	if self != 0 && rhs > math.MaxUint32/self {
+	if self != 0 && rhs > math.MaxUint/self {
 		return true
 	}
 	return false
-- 
2.43.0


From 88b1d7354e2eb02a7b2cd8c595eb44b735dfb7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:15 +0000
Subject: [PATCH 03/58] fix: signed SaturatingMul clamps to the bound on the
 side of the product

---
 ops.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ops.go b/ops.go
index 0d612a9..2222f56 100644
--- a/ops.go
+++ b/ops.go
@@ -2447,7 +2447,7 @@ func (self U64) SaturatingSub(rhs U64) U64 {
 func (self ISize) SaturatingMul(rhs ISize) ISize {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return ISize(math.MinInt)
 		}
 		return ISize(math.MaxInt)
@@ -2458,7 +2458,7 @@ func (self ISize) SaturatingMul(rhs ISize) ISize {
 func (self I8) SaturatingMul(rhs I8) I8 {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return I8(math.MinInt8)
 		}
 		return I8(math.MaxInt8)
@@ -2469,7 +2469,7 @@ func (self I8) SaturatingMul(rhs I8) I8 {
 func (self I16) SaturatingMul(rhs I16) I16 {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return I16(math.MinInt16)
 		}
 		return I16(math.MaxInt16)
@@ -2480,7 +2480,7 @@ func (self I16) SaturatingMul(rhs I16) I16 {
 func (self I32) SaturatingMul(rhs I32) I32 {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return I32(math.MinInt32)
 		}
 		return I32(math.MaxInt32)
@@ -2491,7 +2491,7 @@ func (self I32) SaturatingMul(rhs I32) I32 {
 func (self I64) SaturatingMul(rhs I64) I64 {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return I64(math.MinInt64)
 		}
 		return I64(math.MaxInt64)
-- 
2.43.0


From 0afd0e0b67241b2e6781bd3d2359ffeb136b58a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:26 +0000
Subject: [PATCH 04/58] fix: CheckedRem is None only for a zero divisor or an
 overflowing division

The remainder was compared with the operands to detect overflow, which
rejected every negative dividend and divisor that left a remainder.
---
 ops.go | 50 +++++---------------------------------------------
 1 file changed, 5 insertions(+), 45 deletions(-)

diff --git a/ops.go b/ops.go
index 2222f56..57f04f8 100644
--- a/ops.go
+++ b/ops.go
@@ -2079,72 +2079,52 @@ func (self U64) CheckedDiv(rhs U64) Option[U64] {
 
 // Checked integer remainder. Computes self % rhs, returning None if rhs == 0 or the operation results in overflow.
 func (self ISize) CheckedRem(rhs ISize) Option[ISize] {
-	if rhs == 0 {
+	if self._HasOverflow_Div(rhs) {
 		return None[ISize]()
 	}
 
 	result := self % rhs
 
-	if result > self || result > rhs {
-		// Overflow occurred
-		return None[ISize]()
-	}
 	return Some[ISize](result)
 }
 
 func (self I8) CheckedRem(rhs I8) Option[I8] {
-	if rhs == 0 {
+	if self._HasOverflow_Div(rhs) {
 		return None[I8]()
 	}
 
 	result := self % rhs
 
-	if result > self || result > rhs {
-		// Overflow occurred
-		return None[I8]()
-	}
 	return Some[I8](result)
 }
 
 func (self I16) CheckedRem(rhs I16) Option[I16] {
-	if rhs == 0 {
+	if self._HasOverflow_Div(rhs) {
 		return None[I16]()
 	}
 
 	result := self % rhs
 
-	if result > self || result > rhs {
-		// Overflow occurred
-		return None[I16]()
-	}
 	return Some[I16](result)
 }
 
 func (self I32) CheckedRem(rhs I32) Option[I32] {
-	if rhs == 0 {
+	if self._HasOverflow_Div(rhs) {
 		return None[I32]()
 	}
 
 	result := self % rhs
 
-	if result > self || result > rhs {
-		// Overflow occurred
-		return None[I32]()
-	}
 	return Some[I32](result)
 }
 
 func (self I64) CheckedRem(rhs I64) Option[I64] {
-	if rhs == 0 {
+	if self._HasOverflow_Div(rhs) {
 		return None[I64]()
 	}
 
 	result := self % rhs
 
-	if result > self || result > rhs {
-		// Overflow occurred
-		return None[I64]()
-	}
 	return Some[I64](result)
 }
 
@@ -2155,10 +2135,6 @@ func (self USize) CheckedRem(rhs USize) Option[USize] {
 
 	result := self % rhs
 
-	if result > self || result > rhs {
-		// Overflow occurred
-		return None[USize]()
-	}
 	return Some[USize](result)
 }
 
@@ -2169,10 +2145,6 @@ func (self U8) CheckedRem(rhs U8) Option[U8] {
 
 	result := self % rhs
 
-	if result > self || result > rhs {
-		// Overflow occurred
-		return None[U8]()
-	}
 	return Some[U8](result)
 }
 
@@ -2183,10 +2155,6 @@ func (self U16) CheckedRem(rhs U16) Option[U16] {
 
 	result := self % rhs
 
-	if result > self || result > rhs {
-		// Overflow occurred
-		return None[U16]()
-	}
 	return Some[U16](result)
 }
 
@@ -2197,10 +2165,6 @@ func (self U32) CheckedRem(rhs U32) Option[U32] {
 
 	result := self % rhs
 
-	if result > self || result > rhs {
-		// Overflow occurred
-		return None[U32]()
-	}
 	return Some[U32](result)
 }
 
@@ -2211,10 +2175,6 @@ func (self U64) CheckedRem(rhs U64) Option[U64] {
 
 	result := self % rhs
 
-	if result > self || result > rhs {
-		// Overflow occurred
-		return None[U64]()
-	}
 	return Some[U64](result)
 }
 
-- 
2.43.0


From 992077d0869bb6fce884243dbc740bd819ac6ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:37 +0000
Subject: [PATCH 05/58] fix: ISize.WrappingMul returns the product modulo
 2^width

---
 ops.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/ops.go b/ops.go
index 57f04f8..0c50e52 100644
--- a/ops.go
+++ b/ops.go
@@ -1547,10 +1547,6 @@ func (self U64) WrappingSub(rhs U64) U64 {
 func (self ISize) WrappingMul(rhs ISize) ISize {
 	result := self * rhs
 
-	if result < self || result < rhs {
-		// Overflow occurred, wrap around
-		result = result - ISize(math.MaxInt) - 1
-	}
 	return result
 }
 
-- 
2.43.0


From 2ae514093668f5122fb6795c416d74843920acef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:30 +0000
Subject: [PATCH 06/58] fix: I128.Neg carries into the high half exactly when
 the low half is zero

---
 ops.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ops.go b/ops.go
index 0c50e52..4386969 100644
--- a/ops.go
+++ b/ops.go
@@ -3008,7 +3008,7 @@ func (self I128) Neg() I128 {
 	high := self.high
 	low := self.low
 
-	hasCarry := low == U64_MAX
+	hasCarry := low == 0
 
 	high = ^high
 	low = ^low
-- 
2.43.0


From a524f310aaaa9d4b6f11648a6724181f5171db63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:41 +0000
Subject: [PATCH 07/58] fix: I128.IsPositive considers the low half

---
 ops.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ops.go b/ops.go
index 4386969..6ab8514 100644
--- a/ops.go
+++ b/ops.go
@@ -2811,7 +2811,7 @@ func (self I64) IsPositive() Bool {
 
 // Returns true if self is positive and false if the number is zero or negative.
 func (self I128) IsPositive() Bool {
-	return self.high > 0
+	return self.high > 0 || (self.high == 0 && self.low > 0)
 }
 
 // Returns true if self is negative and false if the number is zero or positive.
-- 
2.43.0


From c5a755b5245f8ff643c27c86378cb873a17a1ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:52 +0000
Subject: [PATCH 08/58] fix: I128 division and remainder of the minimum value

---
 ops.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/ops.go b/ops.go
index 6ab8514..30b07be 100644
--- a/ops.go
+++ b/ops.go
@@ -405,7 +405,11 @@ func (lhs I128) Div(rhs I128) I128 {
 		rhs = rhs.Neg()
 	}
 
-	if lhs.Cmp(rhs) == OrderingLess {
+	// The magnitude of I128_MIN does not fit into I128.
+	lhsAbs := U128{high: U64(lhs.high), low: lhs.low}
+	rhsAbs := U128{high: U64(rhs.high), low: rhs.low}
+
+	if lhsAbs.Cmp(rhsAbs) == OrderingLess {
 		return I128{
 			high: 0,
 			low:  0,
@@ -416,8 +420,8 @@ func (lhs I128) Div(rhs I128) I128 {
 	bigLhs := big.NewInt(0)
 	bigRhs := big.NewInt(0)
 
-	bigLhs.SetString(string(lhs.ToString()), 10)
-	bigRhs.SetString(string(rhs.ToString()), 10)
+	bigLhs.SetString(string(lhsAbs.ToString()), 10)
+	bigRhs.SetString(string(rhsAbs.ToString()), 10)
 
 	bigLhs.Div(bigLhs, bigRhs)
 
@@ -554,7 +558,11 @@ func (lhs I128) Rem(rhs I128) I128 {
 		rhs = rhs.Neg()
 	}
 
-	if lhs.Cmp(rhs) == OrderingLess {
+	// The magnitude of I128_MIN does not fit into I128.
+	lhsAbs := U128{high: U64(lhs.high), low: lhs.low}
+	rhsAbs := U128{high: U64(rhs.high), low: rhs.low}
+
+	if lhsAbs.Cmp(rhsAbs) == OrderingLess {
 		if isNegative {
 			return lhs.Neg()
 		} else {
@@ -566,8 +574,8 @@ func (lhs I128) Rem(rhs I128) I128 {
 	bigLhs := big.NewInt(0)
 	bigRhs := big.NewInt(0)
 
-	bigLhs.SetString(string(lhs.ToString()), 10)
-	bigRhs.SetString(string(rhs.ToString()), 10)
+	bigLhs.SetString(string(lhsAbs.ToString()), 10)
+	bigRhs.SetString(string(rhsAbs.ToString()), 10)
 
 	bigLhs.Rem(bigLhs, bigRhs)
 
-- 
2.43.0


From ce4631c379fa1df3897355fa46c6874649b47979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:03 +0000
Subject: [PATCH 09/58] fix: Shl and Shr of the fixed-width integers shift by
 their argument

---
 bitwise.go | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/bitwise.go b/bitwise.go
index dbcfb51..146f881 100644
--- a/bitwise.go
+++ b/bitwise.go
@@ -9,23 +9,23 @@ type Shr[T any] interface {
 }
 
 func (lhs ISize) Shl(rhs ISize) ISize {
-	return ISize(lhs << lhs)
+	return ISize(lhs << rhs)
 }
 
 func (lhs I8) Shl(rhs I8) I8 {
-	return I8(lhs << lhs)
+	return I8(lhs << rhs)
 }
 
 func (lhs I16) Shl(rhs I16) I16 {
-	return I16(lhs << lhs)
+	return I16(lhs << rhs)
 }
 
 func (lhs I32) Shl(rhs I32) I32 {
-	return I32(lhs << lhs)
+	return I32(lhs << rhs)
 }
 
 func (lhs I64) Shl(rhs I64) I64 {
-	return I64(lhs << lhs)
+	return I64(lhs << rhs)
 }
 
 func (lhs I128) Shl(rhs I128) I128 {
@@ -50,23 +50,23 @@ func (lhs I128) Shl(rhs I128) I128 {
 }
 
 func (lhs USize) Shl(rhs USize) USize {
-	return USize(lhs << lhs)
+	return USize(lhs << rhs)
 }
 
 func (lhs U8) Shl(rhs U8) U8 {
-	return U8(lhs << lhs)
+	return U8(lhs << rhs)
 }
 
 func (lhs U16) Shl(rhs U16) U16 {
-	return U16(lhs << lhs)
+	return U16(lhs << rhs)
 }
 
 func (lhs U32) Shl(rhs U32) U32 {
-	return U32(lhs << lhs)
+	return U32(lhs << rhs)
 }
 
 func (lhs U64) Shl(rhs U64) U64 {
-	return U64(lhs << lhs)
+	return U64(lhs << rhs)
 }
 
 func (lhs U128) Shl(rhs U128) U128 {
@@ -91,23 +91,23 @@ func (lhs U128) Shl(rhs U128) U128 {
 }
 
 func (lhs ISize) Shr(rhs ISize) ISize {
-	return ISize(lhs >> lhs)
+	return ISize(lhs >> rhs)
 }
 
 func (lhs I8) Shr(rhs I8) I8 {
-	return I8(lhs >> lhs)
+	return I8(lhs >> rhs)
 }
 
 func (lhs I16) Shr(rhs I16) I16 {
-	return I16(lhs >> lhs)
+	return I16(lhs >> rhs)
 }
 
 func (lhs I32) Shr(rhs I32) I32 {
-	return I32(lhs >> lhs)
+	return I32(lhs >> rhs)
 }
 
 func (lhs I64) Shr(rhs I64) I64 {
-	return I64(lhs >> lhs)
+	return I64(lhs >> rhs)
 }
 
 func (lhs I128) Shr(rhs I128) I128 {
@@ -132,23 +132,23 @@ func (lhs I128) Shr(rhs I128) I128 {
 }
 
 func (lhs USize) Shr(rhs USize) USize {
-	return USize(lhs >> lhs)
+	return USize(lhs >> rhs)
 }
 
 func (lhs U8) Shr(rhs U8) U8 {
-	return U8(lhs >> lhs)
+	return U8(lhs >> rhs)
 }
 
 func (lhs U16) Shr(rhs U16) U16 {
-	return U16(lhs >> lhs)
+	return U16(lhs >> rhs)
 }
 
 func (lhs U32) Shr(rhs U32) U32 {
-	return U32(lhs >> lhs)
+	return U32(lhs >> rhs)
 }
 
 func (lhs U64) Shr(rhs U64) U64 {
-	return U64(lhs >> lhs)
+	return U64(lhs >> rhs)
 }
 
 func (lhs U128) Shr(rhs U128) U128 {
-- 
2.43.0


From b4ae8648764cfc1a225357b4a419e8aae05fa47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:13 +0000
Subject: [PATCH 10/58] fix: 128-bit shifts move all carried bits between the
 halves

---
 bitwise.go | 56 +++++++++++++++++++-----------------------------------
 1 file changed, 20 insertions(+), 36 deletions(-)

diff --git a/bitwise.go b/bitwise.go
index 146f881..dc6ca2c 100644
--- a/bitwise.go
+++ b/bitwise.go
@@ -29,18 +29,14 @@ func (lhs I64) Shl(rhs I64) I64 {
 }
 
 func (lhs I128) Shl(rhs I128) I128 {
-	hasCarry := false
-
 	low := lhs.low << rhs.low
 	high := lhs.high << rhs.low
 
-	// check if there is a carry
-	if lhs.low>>63 == 1 {
-		hasCarry = true
-	}
-
-	if hasCarry {
-		high += 1
+	// move the carried bits of the low half into the high half
+	if rhs.low < 64 {
+		high |= I64(lhs.low >> (64 - rhs.low))
+	} else {
+		high = I64(lhs.low << (rhs.low - 64))
 	}
 
 	return I128{
@@ -70,18 +66,14 @@ func (lhs U64) Shl(rhs U64) U64 {
 }
 
 func (lhs U128) Shl(rhs U128) U128 {
-	hasCarry := false
-
 	low := lhs.low << rhs.low
 	high := lhs.high << rhs.low
 
-	// check if there is a carry
-	if lhs.low>>63 == 1 {
-		hasCarry = true
-	}
-
-	if hasCarry {
-		high += 1
+	// move the carried bits of the low half into the high half
+	if rhs.low < 64 {
+		high |= lhs.low >> (64 - rhs.low)
+	} else {
+		high = lhs.low << (rhs.low - 64)
 	}
 
 	return U128{
@@ -111,18 +103,14 @@ func (lhs I64) Shr(rhs I64) I64 {
 }
 
 func (lhs I128) Shr(rhs I128) I128 {
-	hasCarry := false
-
 	low := lhs.low >> rhs.low
 	high := lhs.high >> rhs.low
 
-	// check if there is a carry
-	if lhs.high&1 == 1 {
-		hasCarry = true
-	}
-
-	if hasCarry {
-		low |= U64(uint64(1) << 63)
+	// move the carried bits of the high half into the low half
+	if rhs.low < 64 {
+		low |= U64(lhs.high) << (64 - rhs.low)
+	} else {
+		low = U64(lhs.high >> (rhs.low - 64))
 	}
 
 	return I128{
@@ -152,18 +140,14 @@ func (lhs U64) Shr(rhs U64) U64 {
 }
 
 func (lhs U128) Shr(rhs U128) U128 {
-	hasCarry := false
-
 	low := lhs.low >> rhs.low
 	high := lhs.high >> rhs.low
 
-	// check if there is a carry
-	if lhs.high&1 == 1 {
-		hasCarry = true
-	}
-
-	if hasCarry {
-		low |= U64(uint64(1) << 63)
+	// move the carried bits of the high half into the low half
+	if rhs.low < 64 {
+		low |= lhs.high << (64 - rhs.low)
+	} else {
+		low = lhs.high >> (rhs.low - 64)
 	}
 
 	return U128{
-- 
2.43.0


From 502f625e9ad6a2f9959e847d5538c4d3212922f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:24 +0000
Subject: [PATCH 11/58] fix: USize.ToString renders values above the signed
 maximum

---
 to_string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/to_string.go b/to_string.go
index 2e3192b..308249b 100644
--- a/to_string.go
+++ b/to_string.go
@@ -71,7 +71,7 @@ func (self I128) ToString() String {
 }
 
 func (self USize) ToString() String {
-	return String(strconv.Itoa(int(self)))
+	return String(strconv.FormatUint(uint64(self), 10))
 }
 
 func (self U8) ToString() String {
-- 
2.43.0


From 45fd8affd624a14b9042618e1e1cea94a8b0bc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:34 +0000
Subject: [PATCH 12/58] fix: String.ParseU64 parses the unsigned range and
 rejects negative numbers

---
 string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.go b/string.go
index f09d530..baa1788 100644
--- a/string.go
+++ b/string.go
@@ -130,7 +130,7 @@ func (self String) ParseI64() Result[I64] {
 
 // Parses this string slice into another type. (U64)
 func (self String) ParseU64() Result[U64] {
-	parsed, err := strconv.Atoi(string(self))
+	parsed, err := strconv.ParseUint(strings.TrimPrefix(string(self), "+"), 10, 64)
 
 	if err != nil {
 		return Err[U64](err)
-- 
2.43.0


From 76f5018bffa3f4585cf09cd594e8ad76ab2f63cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:47 +0000
Subject: [PATCH 13/58] fix: Vec.Reserve reserves capacity without changing the
 length

---
 vec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vec.go b/vec.go
index f4570b0..5e7d45b 100644
--- a/vec.go
+++ b/vec.go
@@ -70,7 +70,7 @@ func (self Vec[T]) IsEmpty() Bool {
 //	gost.AssertEq(vec.Capacity(), gost.USize(10))
 func (self *Vec[T]) Reserve(additional USize) {
 	if self.Capacity() < self.Len()+additional {
-		self.data = append(self.data, make([]T, additional)...)
+		self.data = append(make([]T, 0, self.Len()+additional), self.data...)
 	}
 }
 
-- 
2.43.0


From c76431d524010968c6f6bd20a11ef8c150a24732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:58 +0000
Subject: [PATCH 14/58] fix: Vec.Set out of bounds gives the value back instead
 of panicking

---
 vec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vec.go b/vec.go
index 5e7d45b..1bc1da0 100644
--- a/vec.go
+++ b/vec.go
@@ -259,7 +259,7 @@ func (self Vec[T]) GetUnchecked(index USize) T {
 //	gost.AssertEq(vec.GetUnchecked(0), gost.I32(4))
 func (self *Vec[T]) Set(index USize, value T) Option[T] {
 	if index < 0 || index >= self.Len() {
-		return Some[T](self.data[index])
+		return Some[T](value)
 	} else {
 		self.data[index] = value
 		return None[T]()
-- 
2.43.0


From c2029d326c645ad678e7c9e07d13b88ada816c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:09 +0000
Subject: [PATCH 15/58] fix: VecDeque.AsSlice returns the elements from front
 to back

---
 vec_deque.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vec_deque.go b/vec_deque.go
index e908ced..19b40bd 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -341,7 +341,14 @@ func (self *VecDeque[T]) Clear() {
 
 // Extracts a slice containing the entire vecdeque.
 func (self VecDeque[T]) AsSlice() []T {
-	return self.buffer[:self.len]
+	if self.head+self.len > self.Capacity() {
+		// The contents wrap around the end of the buffer.
+		slice := make([]T, 0, self.len)
+		slice = append(slice, self.buffer[self.head:]...)
+		return append(slice, self.buffer[:self.head+self.len-self.Capacity()]...)
+	}
+
+	return self.buffer[self.head : self.head+self.len]
 }
 
 // Require `impl Eq[T] for T`
-- 
2.43.0


From f581ddcc1bc29049d4f2ea7d24b22d466d36fcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:53 +0000
Subject: [PATCH 16/58] fix: Vec.Contains and Vec.Dedup compare elements by
 their Eq implementation

---
 cmp.go | 9 +++++++++
 vec.go | 5 ++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/cmp.go b/cmp.go
index 38aa71c..a3f71fa 100644
--- a/cmp.go
+++ b/cmp.go
@@ -291,3 +291,12 @@ func castToEq[T any](value T) _InternalOption[Eq[T]] {
 		return _None[Eq[T]]()
 	}
 }
+
+// Compares two values by their Eq implementation, or structurally if they have none.
+func equals[T any](lhs T, rhs T) bool {
+	if eq, ok := any(lhs).(Eq[T]); ok {
+		return bool(eq.Eq(rhs))
+	}
+
+	return reflect.DeepEqual(lhs, rhs)
+}
diff --git a/vec.go b/vec.go
index 1bc1da0..3cac5d1 100644
--- a/vec.go
+++ b/vec.go
@@ -2,7 +2,6 @@ package gost
 
 import (
 	"fmt"
-	"reflect"
 	"sort"
 )
 
@@ -210,7 +209,7 @@ func (self *Vec[T]) Dedup() {
 	prev := 0
 
 	for i := 1; i < len(self.data); i++ {
-		if !reflect.DeepEqual(self.data[prev], self.data[i]) {
+		if !equals(self.data[prev], self.data[i]) {
 			prev++
 			self.data[prev] = self.data[i]
 		}
@@ -318,7 +317,7 @@ func (self *Vec[T]) Reverse() {
 //	gost.Assert(!vec.Contains(4))
 func (self Vec[T]) Contains(value T) Bool {
 	for _, v := range self.data {
-		if reflect.DeepEqual(v, value) {
+		if equals(v, value) {
 			return true
 		}
 	}
-- 
2.43.0


From c82932daa1ca4e76b6d97edd14051cb5ed4dad14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:05 +0000
Subject: [PATCH 17/58] fix: Vec.DedupByKey removes only consecutive elements
 with the same key

---
 vec.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vec.go b/vec.go
index 3cac5d1..82b5fa3 100644
--- a/vec.go
+++ b/vec.go
@@ -180,11 +180,11 @@ func (self *Vec[T]) Retain(predicate func(T) Bool) {
 //	gost.AssertEq(vec.Len(), gost.USize(3))
 func (self *Vec[T]) DedupByKey(key func(T) any) {
 	newData := make([]T, 0, len(self.data))
-	seen := make(map[any]bool)
-	for _, value := range self.data {
+	var last any
+	for i, value := range self.data {
 		k := key(value)
-		if !seen[k] {
-			seen[k] = true
+		if i == 0 || k != last {
+			last = k
 			newData = append(newData, value)
 		}
 	}
-- 
2.43.0


From 47c25de5a33fa5e7019cc730f45aaf21d5f6546b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:16 +0000
Subject: [PATCH 18/58] fix: VecDeque sorts its elements wherever they lie in
 the ring

---
 vec_deque.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/vec_deque.go b/vec_deque.go
index 19b40bd..fc24602 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -498,6 +498,7 @@ func (self VecDeque[T]) BinarySearchBy(f func(T) Ordering) Option[USize] {
 //	gost.AssertEq(deque.GetUnchecked(1), gost.I32(2))
 //	gost.AssertEq(deque.GetUnchecked(2), gost.I32(3))
 func (self *VecDeque[T]) Sort() {
+	self._MakeContiguous()
 	sort.SliceStable(self.buffer[:self.len], func(i, j int) bool {
 		if castToOrd[T](self.buffer[i]).IsNone() {
 			typeName := getTypeName(self.buffer[i])
@@ -532,6 +533,7 @@ func (self *VecDeque[T]) Sort() {
 //	})
 //	gost.AssertEq(deque.GetUnchecked(0), gost.I32(1))
 func (self *VecDeque[T]) SortBy(f func(T, T) Ordering) {
+	self._MakeContiguous()
 	sort.SliceStable(self.buffer[:self.len], func(i, j int) bool {
 		return f(self.buffer[i], self.buffer[j]) == OrderingLess
 	})
@@ -547,6 +549,7 @@ func (self *VecDeque[T]) SortBy(f func(T, T) Ordering) {
 //	deque.SortUnstable()
 //	gost.AssertEq(deque.GetUnchecked(0), gost.I32(1))
 func (self *VecDeque[T]) SortUnstable() {
+	self._MakeContiguous()
 	sort.Slice(self.buffer[:self.len], func(i, j int) bool {
 		if castToOrd[T](self.buffer[i]).IsNone() {
 			typeName := getTypeName(self.buffer[i])
@@ -581,6 +584,7 @@ func (self *VecDeque[T]) SortUnstable() {
 //	})
 //	gost.AssertEq(deque.GetUnchecked(0), gost.I32(1))
 func (self *VecDeque[T]) SortUnstableBy(f func(T, T) Ordering) {
+	self._MakeContiguous()
 	sort.Slice(self.buffer[:self.len], func(i, j int) bool {
 		return f(self.buffer[i], self.buffer[j]) == OrderingLess
 	})
@@ -663,6 +667,18 @@ func (self *VecDeque[T]) _HandleCapacityIncrease(oldCapacity USize) {
 	}
 }
 
+// Rearranges the internal storage so that the front element is at the start of the buffer.
+func (self *VecDeque[T]) _MakeContiguous() {
+	if self.head == 0 {
+		return
+	}
+
+	newBuffer := make([]T, len(self.buffer))
+	copy(newBuffer, self.AsSlice())
+	self.buffer = newBuffer
+	self.head = 0
+}
+
 // Copies a contiguous block of memory len long from src to dst
 func (self *VecDeque[T]) _Copy(src USize, dst USize, len USize) {
 	copy(self.buffer[dst:dst+len], self.buffer[src:])
-- 
2.43.0


From 7154a6d0d2b94aa817fa665ecd96b996aa60edb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:27 +0000
Subject: [PATCH 19/58] fix: VecDeque binary search reads elements by logical
 index

---
 vec_deque.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vec_deque.go b/vec_deque.go
index fc24602..cd7c643 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -420,7 +420,7 @@ func (self VecDeque[T]) BinarySearch(value T) Option[USize] {
 	for low <= high {
 		mid := (low + high) / 2
 
-		midData := castToOrd[T](self.buffer[mid]).Unwrap()
+		midData := castToOrd[T](self.GetUnchecked(USize(mid))).Unwrap()
 		ordering := midData.Cmp(value)
 
 		switch ordering {
@@ -464,7 +464,7 @@ func (self VecDeque[T]) BinarySearchBy(f func(T) Ordering) Option[USize] {
 
 	for low <= high {
 		mid := (low + high) / 2
-		ordering := f(self.buffer[mid])
+		ordering := f(self.GetUnchecked(USize(mid)))
 
 		switch ordering {
 		case OrderingLess:
-- 
2.43.0


From d8aa2792b72ea150cfbc6789b91544a961f24967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:53 +0000
Subject: [PATCH 20/58] fix: BTreeMap.Remove returns the removed value, not
 what moved into its slot

---
 btree_map.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/btree_map.go b/btree_map.go
index 7015fe5..7e50e02 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -186,6 +186,12 @@ func (self *BTreeMap[K, V]) Remove(key K) Option[V] {
 
 	result, index := self.root._Search(key)
 
+	// Removing moves the entries around, so take the value first
+	var value *V
+	if result.IsSome() {
+		value = result.Unwrap().values.GetUnchecked(USize(index))
+	}
+
 	// Call the remove function for root
 	self.root._Remove(key)
 
@@ -203,7 +209,7 @@ func (self *BTreeMap[K, V]) Remove(key K) Option[V] {
 		return None[V]()
 	} else {
 		self.len--
-		return Some(*result.Unwrap().values.data[index])
+		return Some(*value)
 	}
 }
 
-- 
2.43.0


From 425bc2cc4d815d4c70c2c45fa8bf04654d874f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:05 +0000
Subject: [PATCH 21/58] fix: BTreeMap splits, searches and rebalances nodes by
 their actual key count

---
 btree_map.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index 7e50e02..0d4f940 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -50,11 +50,12 @@ func (self *BTreeMap[K, V]) Insert(key K, value V) Option[V] {
 	if self.root == nil {
 		// Allocate memory for root
 		self.root = &BTreeNode[K, V]{
-			_Type:  _LEAF,
-			keys:   VecWithLen[*K](_BTREE_CAPACITY),
-			values: VecWithLen[*V](_BTREE_CAPACITY),
-			childs: VecWithLen[*BTreeNode[K, V]](_BTREE_CAPACITY + 1),
-			n:      1,
+			_Type:          _LEAF,
+			_MinimumDegree: _B,
+			keys:           VecWithLen[*K](_BTREE_CAPACITY),
+			values:         VecWithLen[*V](_BTREE_CAPACITY),
+			childs:         VecWithLen[*BTreeNode[K, V]](_BTREE_CAPACITY + 1),
+			n:              1,
 		}
 
 		self.root.keys.SetUnchecked(0, &key)
@@ -79,7 +80,7 @@ func (self *BTreeMap[K, V]) Insert(key K, value V) Option[V] {
 			// Allocate memory for new root
 			newRoot := &BTreeNode[K, V]{
 				_Type:          _INTERNAL,
-				_MinimumDegree: _BTREE_CAPACITY,
+				_MinimumDegree: _B,
 				keys:           VecWithLen[*K](_BTREE_CAPACITY),
 				values:         VecWithLen[*V](_BTREE_CAPACITY),
 				childs:         VecWithLen[*BTreeNode[K, V]](_BTREE_CAPACITY + 1),
@@ -321,12 +322,12 @@ func (self BTreeNode[K, V]) _ToValueVec() Vec[V] {
 func (self BTreeNode[K, V]) _Search(key K) (Option[*BTreeNode[K, V]], uint) {
 	// Find the first key greater than or equal to k
 	i := USize(0)
-	for i < self.keys.Len() && self.keys.GetUnchecked(i) != nil && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingGreater {
+	for i < USize(self.n) && self.keys.GetUnchecked(i) != nil && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingGreater {
 		i++
 	}
 
 	// If the found key is equal to k, return this node
-	if i < self.keys.Len() && self.keys.GetUnchecked(i) != nil && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingEqual {
+	if i < USize(self.n) && self.keys.GetUnchecked(i) != nil && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingEqual {
 		return Some[*BTreeNode[K, V]](&self), uint(i)
 	}
 
@@ -420,7 +421,7 @@ func (self *BTreeNode[K, V]) _InsertNonFull(key K, value V) {
 		}
 
 		// See if the found child is full
-		if self.childs.GetUnchecked(USize(i+1)).keys.Len() == _BTREE_CAPACITY {
+		if self.childs.GetUnchecked(USize(i+1)).n == _BTREE_CAPACITY {
 			// If the child is full, then split it
 			self.splitChild(i+1, self.childs.GetUnchecked(USize(i+1)))
 
@@ -449,7 +450,7 @@ func (self *BTreeNode[K, V]) splitChild(i int, y *BTreeNode[K, V]) {
 	z.n = self._MinimumDegree - 1
 
 	// Copy the last (t-1) keys of y to z
-	for j := 0; j < z._MinimumDegree; j++ {
+	for j := 0; j < self._MinimumDegree-1; j++ {
 		z.keys.SetUnchecked(USize(j), y.keys.GetUnchecked(USize(j+self._MinimumDegree)))
 		z.values.SetUnchecked(USize(j), y.values.GetUnchecked(USize(j+self._MinimumDegree)))
 	}
@@ -475,7 +476,7 @@ func (self *BTreeNode[K, V]) splitChild(i int, y *BTreeNode[K, V]) {
 
 	// A key of y will move to this node. Find location of
 	// new key and move all greater keys one space ahead
-	for j := self.n; j >= i; j-- {
+	for j := self.n - 1; j >= i; j-- {
 		self.keys.SetUnchecked(USize(j+1), self.keys.GetUnchecked(USize(j)))
 		self.values.SetUnchecked(USize(j+1), self.values.GetUnchecked(USize(j)))
 	}
-- 
2.43.0


From e4f8630a12ca696094ecddf017f11276b6e1055a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:15 +0000
Subject: [PATCH 22/58] fix: BTreeMap traversal visits every live entry once,
 the last child included

---
 btree_map.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index 0d4f940..21c0e97 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -242,7 +242,7 @@ func (self BTreeNode[K, V]) _ToVec() Vec[Pair[K, V]] {
 	// and first n children
 
 	i := USize(0)
-	for i < self.keys.Len() {
+	for i < USize(self.n) {
 		// If this is not leaf, then before printing key[i],
 		// traverse the subtree rooted with child C[i].
 		if self._Type != _LEAF {
@@ -258,6 +258,12 @@ func (self BTreeNode[K, V]) _ToVec() Vec[Pair[K, V]] {
 		i++
 	}
 
+	// Traverse the last child
+	if self._Type != _LEAF {
+		childsVec := self.childs.GetUnchecked(i)._ToVec()
+		vec.Append(&childsVec)
+	}
+
 	return vec
 }
 
@@ -269,7 +275,7 @@ func (self BTreeNode[K, V]) _ToKeyVec() Vec[K] {
 	// and first n children
 
 	i := USize(0)
-	for i < self.keys.Len() && i < USize(self.n) {
+	for i < USize(self.n) {
 		// If this is not leaf, then before printing key[i],
 		// traverse the subtree rooted with child C[i].
 		if self._Type != _LEAF {
@@ -287,6 +293,12 @@ func (self BTreeNode[K, V]) _ToKeyVec() Vec[K] {
 		i++
 	}
 
+	// Traverse the last child
+	if self._Type != _LEAF {
+		childsVec := self.childs.GetUnchecked(i)._ToKeyVec()
+		vec.Append(&childsVec)
+	}
+
 	return vec
 }
 
@@ -298,7 +310,7 @@ func (self BTreeNode[K, V]) _ToValueVec() Vec[V] {
 	// and first n children
 
 	i := USize(0)
-	for i < self.keys.Len() {
+	for i < USize(self.n) {
 		// If this is not leaf, then before printing key[i],
 		// traverse the subtree rooted with child C[i].
 		if self._Type != _LEAF {
@@ -315,6 +327,12 @@ func (self BTreeNode[K, V]) _ToValueVec() Vec[V] {
 		i++
 	}
 
+	// Traverse the last child
+	if self._Type != _LEAF {
+		childsVec := self.childs.GetUnchecked(i)._ToValueVec()
+		vec.Append(&childsVec)
+	}
+
 	return vec
 }
 
-- 
2.43.0


From 5efb3496fd78a6098d3e444b8df407fe155fa924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:17 +0000
Subject: [PATCH 23/58] fix: BTreeSet.IntoIter works on an empty set

---
 btree_set.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/btree_set.go b/btree_set.go
index 6a00e57..3064457 100644
--- a/btree_set.go
+++ b/btree_set.go
@@ -305,7 +305,11 @@ type BTreeSetIter[K Ord[K]] struct {
 
 // into_iter
 func (self *BTreeSet[K]) IntoIter() Iterator[K] {
-	keys := self._treemap.root._ToKeyVec()
+	keys := Vec[K]{}
+
+	if self._treemap.root != nil {
+		keys = self._treemap.root._ToKeyVec()
+	}
 
 	return &BTreeSetIter[K]{vec: keys, position: 0}
 }
-- 
2.43.0


From e1f7717d2ae1ff77866bc884e5f817993379d416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:28 +0000
Subject: [PATCH 24/58] fix: BTreeSet.Clone advances one iterator instead of
 restarting it

---
 btree_set.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/btree_set.go b/btree_set.go
index 3064457..4773f79 100644
--- a/btree_set.go
+++ b/btree_set.go
@@ -441,8 +441,9 @@ func (self BTreeSet[K]) AsRef() *BTreeSet[K] {
 func (self BTreeSet[K]) Clone() BTreeSet[K] {
 	newSet := BTreeSetNew[K]()
 
+	iter := self.IntoIter()
 	for {
-		value := self.IntoIter().Next()
+		value := iter.Next()
 
 		if value.IsNone() {
 			return newSet
-- 
2.43.0


From 231aa9bfd9594109e52301f33825ccaead480235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:23 +0000
Subject: [PATCH 25/58] fix: BinaryHeap.Append leaves the other heap empty, as
 documented

---
 binary_heap.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/binary_heap.go b/binary_heap.go
index 2d4121e..63f2324 100644
--- a/binary_heap.go
+++ b/binary_heap.go
@@ -187,6 +187,7 @@ func (self *BinaryHeap[T]) Append(other *BinaryHeap[T]) {
 	for _, item := range other.vec.data {
 		self.Push(item)
 	}
+	other.Clear()
 }
 
 // Clears the heap, removing all values.
-- 
2.43.0


From 262f3788eb5d3ec958a0b773ef5f99bb4ad713a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:00 +0000
Subject: [PATCH 26/58] fix: iterator Rev reverses only the elements not yet
 consumed

---
 btree_map.go | 12 ++++++------
 btree_set.go |  4 ++--
 hash_map.go  | 12 ++++++------
 hash_set.go  |  4 ++--
 vec.go       |  4 ++--
 5 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index 21c0e97..f7c2229 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -852,8 +852,8 @@ func (self *BTreeMapIter[K, V]) Fold(init Pair[K, V], f func(Pair[K, V], Pair[K,
 
 // rev
 func (self BTreeMapIter[K, V]) Rev() Iterator[Pair[K, V]] {
-	newVec := VecWithLen[Pair[K, V]](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[Pair[K, V]](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
@@ -966,8 +966,8 @@ func (self *BTreeMapKeys[K]) Fold(init K, f func(K, K) K) K {
 
 // rev
 func (self BTreeMapKeys[K]) Rev() Iterator[K] {
-	newVec := VecWithLen[K](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[K](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
@@ -1080,8 +1080,8 @@ func (self *BTreeMapValues[V]) Fold(init V, f func(V, V) V) V {
 
 // rev
 func (self BTreeMapValues[V]) Rev() Iterator[V] {
-	newVec := VecWithLen[V](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[V](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
diff --git a/btree_set.go b/btree_set.go
index 4773f79..8857fa8 100644
--- a/btree_set.go
+++ b/btree_set.go
@@ -372,8 +372,8 @@ func (self BTreeSetIter[K]) Fold(init K, f func(K, K) K) K {
 
 // rev
 func (self BTreeSetIter[K]) Rev() Iterator[K] {
-	newVec := VecWithLen[K](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[K](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
diff --git a/hash_map.go b/hash_map.go
index 632a11e..706f067 100644
--- a/hash_map.go
+++ b/hash_map.go
@@ -188,8 +188,8 @@ func (self HashMapIter[K, V]) Fold(init Pair[K, V], f func(Pair[K, V], Pair[K, V
 
 // rev
 func (self HashMapIter[K, V]) Rev() Iterator[Pair[K, V]] {
-	newVec := VecWithLen[Pair[K, V]](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[Pair[K, V]](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
@@ -303,8 +303,8 @@ func (self HashMapKeys[K]) Fold(init K, f func(K, K) K) K {
 
 // rev
 func (self HashMapKeys[K]) Rev() Iterator[K] {
-	newVec := VecWithLen[K](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[K](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
@@ -411,8 +411,8 @@ func (self HashMapValues[V]) Fold(init V, f func(V, V) V) V {
 
 // rev
 func (self HashMapValues[V]) Rev() Iterator[V] {
-	newVec := VecWithLen[V](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[V](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
diff --git a/hash_set.go b/hash_set.go
index 0d74497..1eb34f5 100644
--- a/hash_set.go
+++ b/hash_set.go
@@ -403,8 +403,8 @@ func (self HashSetIter[K]) Fold(init K, f func(K, K) K) K {
 
 // rev
 func (self HashSetIter[K]) Rev() Iterator[K] {
-	newVec := VecWithLen[K](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[K](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
diff --git a/vec.go b/vec.go
index 82b5fa3..cf3672c 100644
--- a/vec.go
+++ b/vec.go
@@ -593,8 +593,8 @@ func (self VecIter[T]) Fold(init T, f func(T, T) T) T {
 
 // rev
 func (self VecIter[T]) Rev() Iterator[T] {
-	newVec := VecWithLen[T](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[T](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
-- 
2.43.0


From f02b2dce17a0a6676abcd0dda4913eb890535025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:11 +0000
Subject: [PATCH 27/58] fix: CollectToVec of map and set iterators leaves out
 consumed elements

---
 btree_map.go | 33 ++++++++++++++++++++++++++++++---
 btree_set.go | 11 ++++++++++-
 hash_map.go  | 33 ++++++++++++++++++++++++++++++---
 hash_set.go  | 11 ++++++++++-
 4 files changed, 80 insertions(+), 8 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index f7c2229..904ddf8 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -868,7 +868,16 @@ func (self BTreeMapIter[K, V]) Rev() Iterator[Pair[K, V]] {
 
 // Collect to Vec
 func (self BTreeMapIter[K, V]) CollectToVec() Vec[Pair[K, V]] {
-	return self.vec
+	vec := VecNew[Pair[K, V]]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
@@ -982,7 +991,16 @@ func (self BTreeMapKeys[K]) Rev() Iterator[K] {
 
 // Collect to Vec
 func (self BTreeMapKeys[K]) CollectToVec() Vec[K] {
-	return self.vec
+	vec := VecNew[K]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
@@ -1096,7 +1114,16 @@ func (self BTreeMapValues[V]) Rev() Iterator[V] {
 
 // Collect to Vec
 func (self BTreeMapValues[V]) CollectToVec() Vec[V] {
-	return self.vec
+	vec := VecNew[V]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
diff --git a/btree_set.go b/btree_set.go
index 8857fa8..be8476e 100644
--- a/btree_set.go
+++ b/btree_set.go
@@ -388,7 +388,16 @@ func (self BTreeSetIter[K]) Rev() Iterator[K] {
 
 // Collect to Vec
 func (self BTreeSetIter[K]) CollectToVec() Vec[K] {
-	return self.vec
+	vec := VecNew[K]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
diff --git a/hash_map.go b/hash_map.go
index 706f067..353449c 100644
--- a/hash_map.go
+++ b/hash_map.go
@@ -204,7 +204,16 @@ func (self HashMapIter[K, V]) Rev() Iterator[Pair[K, V]] {
 
 // Collect to Vec
 func (self HashMapIter[K, V]) CollectToVec() Vec[Pair[K, V]] {
-	return self.vec
+	vec := VecNew[Pair[K, V]]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
@@ -319,7 +328,16 @@ func (self HashMapKeys[K]) Rev() Iterator[K] {
 
 // Collect to Vec
 func (self HashMapKeys[K]) CollectToVec() Vec[K] {
-	return self.vec
+	vec := VecNew[K]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
@@ -427,7 +445,16 @@ func (self HashMapValues[V]) Rev() Iterator[V] {
 
 // Collect to Vec
 func (self HashMapValues[V]) CollectToVec() Vec[V] {
-	return self.vec
+	vec := VecNew[V]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
diff --git a/hash_set.go b/hash_set.go
index 1eb34f5..4e66a7b 100644
--- a/hash_set.go
+++ b/hash_set.go
@@ -419,7 +419,16 @@ func (self HashSetIter[K]) Rev() Iterator[K] {
 
 // Collect to Vec
 func (self HashSetIter[K]) CollectToVec() Vec[K] {
-	return self.vec
+	vec := VecNew[K]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
-- 
2.43.0


From 845063d99d2f61525007892b5c9a1689edefaabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:22 +0000
Subject: [PATCH 28/58] fix: VecDeque iterator adapters start at the current
 position, and Rev terminates

---
 vec_deque.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vec_deque.go b/vec_deque.go
index cd7c643..caa8608 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -745,7 +745,7 @@ func (self *VecDequeIter[T]) Next() Option[T] {
 func (self *VecDequeIter[T]) Map(f func(T) T) Iterator[T] {
 	newDeque := VecDequeWithCapacity[T](self.deque.Capacity())
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		newDeque.PushBack(f(self.deque.Get(i).Unwrap()))
 	}
 
@@ -756,7 +756,7 @@ func (self *VecDequeIter[T]) Map(f func(T) T) Iterator[T] {
 func (self *VecDequeIter[T]) Filter(f func(T) Bool) Iterator[T] {
 	newDeque := VecDequeWithCapacity[T](self.deque.Capacity())
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		value := self.deque.Get(i).Unwrap()
 		if f(value) {
 			newDeque.PushBack(value)
@@ -770,7 +770,7 @@ func (self *VecDequeIter[T]) Filter(f func(T) Bool) Iterator[T] {
 func (self *VecDequeIter[T]) Fold(initial T, f func(T, T) T) T {
 	accumulator := initial
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		accumulator = f(accumulator, self.deque.Get(i).Unwrap())
 	}
 
@@ -781,8 +781,8 @@ func (self *VecDequeIter[T]) Fold(initial T, f func(T, T) T) T {
 func (self *VecDequeIter[T]) Rev() Iterator[T] {
 	newDeque := VecDequeWithCapacity[T](self.deque.Capacity())
 
-	for i := self.deque.Len().WrappingSub(1); i >= 0; i-- {
-		newDeque.PushBack(self.deque.Get(i).Unwrap())
+	for i := self.deque.Len(); i > self.position; i-- {
+		newDeque.PushBack(self.deque.Get(i - 1).Unwrap())
 	}
 
 	return newDeque.IntoIter()
@@ -792,7 +792,7 @@ func (self *VecDequeIter[T]) Rev() Iterator[T] {
 func (self *VecDequeIter[T]) CollectToVec() Vec[T] {
 	newVec := VecWithCapacity[T](self.deque.Capacity())
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		newVec.Push(self.deque.Get(i).Unwrap())
 	}
 
@@ -803,7 +803,7 @@ func (self *VecDequeIter[T]) CollectToVec() Vec[T] {
 func (self *VecDequeIter[T]) CollectToLinkedList() LinkedList[T] {
 	newLinkedList := LinkedListNew[T]()
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		newLinkedList.PushBack(self.deque.Get(i).Unwrap())
 	}
 
-- 
2.43.0


From 581aeeef64ce148f2beacbd9b1489b68078cc842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:32 +0000
Subject: [PATCH 29/58] fix: LinkedList iterator Rev reverses the order

---
 linked_list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linked_list.go b/linked_list.go
index 39389ca..9b83aa2 100644
--- a/linked_list.go
+++ b/linked_list.go
@@ -329,7 +329,7 @@ func (self LinkedListIter[T]) Rev() Iterator[T] {
 			break
 		}
 
-		newList.PushBack(value.Unwrap())
+		newList.PushFront(value.Unwrap())
 	}
 
 	return newList.IntoIter()
-- 
2.43.0


From dbe88e0e2c1c48c3eb608890f08071cd7e81b57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:53 +0000
Subject: [PATCH 30/58] fix: I128 and U128 implement Clone, so that collections
 of them can be cloned

---
 clone.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/clone.go b/clone.go
index 0b9e9bf..0909fa2 100644
--- a/clone.go
+++ b/clone.go
@@ -37,6 +37,10 @@ func (self I64) Clone() I64 {
 	return self
 }
 
+func (self I128) Clone() I128 {
+	return self
+}
+
 func (self USize) Clone() USize {
 	return self
 }
@@ -57,6 +61,10 @@ func (self U64) Clone() U64 {
 	return self
 }
 
+func (self U128) Clone() U128 {
+	return self
+}
+
 func (self F32) Clone() F32 {
 	return self
 }
-- 
2.43.0


From 5b0410828b2cabdd9f1dfd9fe4d032cba6fe7f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:03 +0000
Subject: [PATCH 31/58] fix: VecDeque.Clone clones its elements

---
 vec_deque.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vec_deque.go b/vec_deque.go
index caa8608..4be8325 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -852,7 +852,8 @@ func (self VecDeque[T]) Clone() *VecDeque[T] {
 	cloned := VecDequeWithCapacity[T](self.Capacity())
 
 	for i := USize(0); i < self.Len(); i++ {
-		cloned.PushBack(self.Get(i).Unwrap())
+		e := castToClone(self.Get(i).Unwrap()).Unwrap()
+		cloned.PushBack(e.Clone())
 	}
 
 	return &cloned
-- 
2.43.0


From f86668458e8557d977fdd5a5f36a3720ef00b65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:13 +0000
Subject: [PATCH 32/58] fix: VecDeque.Clone returns a VecDeque, so that
 collections of deques can be cloned

---
 vec_deque.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vec_deque.go b/vec_deque.go
index 4be8325..4ae0333 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -848,7 +848,7 @@ func (self VecDeque[T]) AsRef() *VecDeque[T] {
 }
 
 // impl Clone for VecDeque
-func (self VecDeque[T]) Clone() *VecDeque[T] {
+func (self VecDeque[T]) Clone() VecDeque[T] {
 	cloned := VecDequeWithCapacity[T](self.Capacity())
 
 	for i := USize(0); i < self.Len(); i++ {
@@ -856,7 +856,7 @@ func (self VecDeque[T]) Clone() *VecDeque[T] {
 		cloned.PushBack(e.Clone())
 	}
 
-	return &cloned
+	return cloned
 }
 
 // impl Eq for Vec
-- 
2.43.0


From 067e82b9f0d6c1891aa9e457df8740b510917650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:37 +0000
Subject: [PATCH 33/58] fix: Pair implements Display, Debug and ToString, which
 return String

---
 pair.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pair.go b/pair.go
index 93a94d0..b58cb22 100644
--- a/pair.go
+++ b/pair.go
@@ -9,7 +9,7 @@ type Pair[K any, V any] struct {
 }
 
 // impl Display for Pair
-func (p Pair[K, V]) ToString() string {
+func (p Pair[K, V]) ToString() String {
 	keyToString := castToToString[K](p.Key)
 	valueToString := castToToString[V](p.Value)
 
@@ -28,16 +28,16 @@ func (p Pair[K, V]) ToString() string {
 		value = String(fmt.Sprintf("%v", p.Value))
 	}
 
-	return fmt.Sprintf("Pair[%s, %s]", key, value)
+	return String(fmt.Sprintf("Pair[%s, %s]", key, value))
 }
 
 // impl Display for Pair
-func (p Pair[K, V]) Display() string {
+func (p Pair[K, V]) Display() String {
 	return p.ToString()
 }
 
 // impl Debug for Pair
-func (p Pair[K, V]) Debug() string {
+func (p Pair[K, V]) Debug() String {
 	return p.ToString()
 }
 
-- 
2.43.0


From 26578a3f097448d695e7b94d372ab25ed45f5ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:16 +0000
Subject: [PATCH 34/58] fix: Pair renders components by their Display when they
 have no ToString

---
 pair.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pair.go b/pair.go
index b58cb22..eeeb41e 100644
--- a/pair.go
+++ b/pair.go
@@ -18,12 +18,16 @@ func (p Pair[K, V]) ToString() String {
 
 	if keyToString.IsSome() {
 		key = keyToString.Unwrap().ToString()
+	} else if keyDisplay := castToDisplay[K](p.Key); keyDisplay.IsSome() {
+		key = keyDisplay.Unwrap().Display()
 	} else {
 		key = String(fmt.Sprintf("%v", p.Key))
 	}
 
 	if valueToString.IsSome() {
 		value = valueToString.Unwrap().ToString()
+	} else if valueDisplay := castToDisplay[V](p.Value); valueDisplay.IsSome() {
+		value = valueDisplay.Unwrap().Display()
 	} else {
 		value = String(fmt.Sprintf("%v", p.Value))
 	}
-- 
2.43.0


From 15de9adf405a8a318b19355bfc4d4da886934d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:54 +0000
Subject: [PATCH 35/58] fix: Option.And and AndThen of None are None

---
 option.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/option.go b/option.go
index bc26efd..ea7c79a 100644
--- a/option.go
+++ b/option.go
@@ -173,7 +173,7 @@ func (self Option[T]) MapOrElse(defaultValue func() T, f func(T) T) T {
 //	gost.AssertEq(x.and(y), Some(gost.I32(3)));
 func (self Option[T]) And(optb Option[any]) Option[any] {
 	if self.IsNone() {
-		return Some[any](nil)
+		return None[any]()
 	} else {
 		return optb
 	}
@@ -189,7 +189,7 @@ func (self Option[T]) And(optb Option[any]) Option[any] {
 //	gost.AssertEq(x.and_then(func(value gost.I32) Option[gost.I32] { return Some[gost.I32](value + 1) }), None[gost.I32]())
 func (self Option[T]) AndThen(f func(T) Option[any]) Option[any] {
 	if self.IsNone() {
-		return Some[any](nil)
+		return None[any]()
 	} else {
 		return f(*self.value)
 	}
-- 
2.43.0


From bff3e1d99c37ec37a3c9741fc488ffde7ea08f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:04 +0000
Subject: [PATCH 36/58] fix: Option.Replace of None leaves the new value in
 place

---
 option.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/option.go b/option.go
index ea7c79a..c864c4c 100644
--- a/option.go
+++ b/option.go
@@ -333,7 +333,8 @@ func (self *Option[T]) Take() Option[T] {
 //	gost.AssertEq(x.Replace(gost.I32(3)), None[gost.I32]())
 func (self *Option[T]) Replace(value T) Option[T] {
 	if self.IsNone() {
-		return *self
+		self.value = &value
+		return None[T]()
 	} else {
 		oldValue := *self.value
 		self.value = &value
-- 
2.43.0


From 139fb9bd9936c5e2a0c27a63462a2dee2429a4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:14 +0000
Subject: [PATCH 37/58] fix: ElseIf is skipped once an earlier branch was
 selected

---
 syntax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syntax.go b/syntax.go
index 647de15..583d0f3 100644
--- a/syntax.go
+++ b/syntax.go
@@ -40,7 +40,7 @@ func (self ifElseContext[T]) Else(expression func() T) T {
 }
 
 func (self ifElseContext[T]) ElseIf(condition Bool, expression func() T) ifElseContext[T] {
-	if condition {
+	if self.returnValue == nil && condition {
 		value := expression()
 		self.returnValue = &value
 	}
-- 
2.43.0


From 3ba806db57c800a02d7b3a3382adf6ee564355d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:25 +0000
Subject: [PATCH 38/58] fix: assertion messages are filled with the arguments
 after the message

---
 panic.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/panic.go b/panic.go
index c02c29a..b06f283 100644
--- a/panic.go
+++ b/panic.go
@@ -14,7 +14,7 @@ func Assert(condition Bool, args ...any) {
 	if !condition {
 		if len(args) > 0 {
 			if message, ok := args[0].(String); ok {
-				panic(Format(message, args...))
+				panic(Format(message, args[1:]...))
 			}
 		}
 
@@ -31,11 +31,11 @@ func AssertEq[T Eq[T]](lhs T, rhs T, args ...any) {
 
 		if len(args) > 0 {
 			if message, ok := args[0].(String); ok {
-				panicMessage += "\n>>> " + Format(message, args...)
+				panicMessage += "\n>>> " + Format(message, args[1:]...)
 			}
 
 			if message, ok := args[0].(string); ok {
-				panicMessage += "\n>>> " + Format(String(message), args...)
+				panicMessage += "\n>>> " + Format(String(message), args[1:]...)
 			}
 		}
 
@@ -52,11 +52,11 @@ func AssertNe[T Eq[T]](lhs T, rhs T, args ...any) {
 
 		if len(args) > 0 {
 			if message, ok := args[0].(String); ok {
-				panicMessage += "\n>>> " + Format(message, args...)
+				panicMessage += "\n>>> " + Format(message, args[1:]...)
 			}
 
 			if message, ok := args[0].(string); ok {
-				panicMessage += "\n>>> " + Format(String(message), args...)
+				panicMessage += "\n>>> " + Format(String(message), args[1:]...)
 			}
 		}
 
-- 
2.43.0


From 396b3628d2611b3323b16dbf83479d6e50450ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:36 +0000
Subject: [PATCH 39/58] fix: Assert accepts a plain string message, as AssertEq
 and AssertNe do

---
 panic.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/panic.go b/panic.go
index b06f283..62b5b25 100644
--- a/panic.go
+++ b/panic.go
@@ -16,6 +16,10 @@ func Assert(condition Bool, args ...any) {
 			if message, ok := args[0].(String); ok {
 				panic(Format(message, args[1:]...))
 			}
+
+			if message, ok := args[0].(string); ok {
+				panic(Format(String(message), args[1:]...))
+			}
 		}
 
 		panic(Format("assertion failed"))
-- 
2.43.0


From 213c58fd1db0dab342cadc6b0286533136301f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:48 +0000
Subject: [PATCH 40/58] fix: StringFromUTF16 decodes every unit

---
 string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.go b/string.go
index baa1788..b8e45aa 100644
--- a/string.go
+++ b/string.go
@@ -16,7 +16,7 @@ func StringFromUTF16(bytes Vec[U16]) Result[String] {
 	data := bytes.data
 	convertedData := []uint16{}
 
-	for i := 0; i < len(data); i += 2 {
+	for i := 0; i < len(data); i++ {
 		convertedData = append(convertedData, uint16(data[i]))
 	}
 
-- 
2.43.0


From 4a238733d2f0422efaa97f41e4d919c943df1c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:00 +0000
Subject: [PATCH 41/58] fix: StringFromUTF16 returns an error for an unpaired
 surrogate

---
 string.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/string.go b/string.go
index b8e45aa..850f812 100644
--- a/string.go
+++ b/string.go
@@ -1,8 +1,10 @@
 package gost
 
 import (
+	"errors"
 	"strconv"
 	"strings"
+	"unicode"
 	"unicode/utf16"
 )
 
@@ -20,6 +22,19 @@ func StringFromUTF16(bytes Vec[U16]) Result[String] {
 		convertedData = append(convertedData, uint16(data[i]))
 	}
 
+	for i := 0; i < len(convertedData); i++ {
+		unit := rune(convertedData[i])
+
+		if !utf16.IsSurrogate(unit) {
+			continue
+		}
+
+		if i+1 == len(convertedData) || utf16.DecodeRune(unit, rune(convertedData[i+1])) == unicode.ReplacementChar {
+			return Err[String](errors.New("invalid utf-16: lone surrogate found"))
+		}
+		i++
+	}
+
 	decoded := utf16.Decode(convertedData)
 
 	return Ok[String](String(decoded))
-- 
2.43.0


From 82354cd0bd87c1cecf4e47ec03d3157f2a9c2179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:14 +0000
Subject: [PATCH 42/58] fix: Copy copies the content instead of making a hard
 link

---
 fs.go | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/fs.go b/fs.go
index 6f224e2..7405858 100644
--- a/fs.go
+++ b/fs.go
@@ -1,6 +1,7 @@
 package gost
 
 import (
+	"io"
 	"os"
 	"path/filepath"
 )
@@ -166,7 +167,43 @@ func ReadDir(path String) Result[Vec[DirEntry]] {
 // Copies the contents of one file to another. This function will also copy the permission bits of the original file to the destination file.
 // This function will overwrite the contents of to.
 func Copy(from String, to String) Result[any] {
-	err := os.Link(string(from), string(to))
+	source, err := os.Open(string(from))
+
+	if err != nil {
+		return Err[any](err)
+	}
+
+	defer source.Close()
+
+	stat, err := source.Stat()
+
+	if err != nil {
+		return Err[any](err)
+	}
+
+	if !stat.Mode().IsRegular() {
+		return Err[any](&os.PathError{Op: "copy", Path: string(from), Err: os.ErrInvalid})
+	}
+
+	if old, err := os.Stat(string(to)); err == nil && os.SameFile(stat, old) {
+		return Ok[any](nil)
+	}
+
+	target, err := os.OpenFile(string(to), os.O_WRONLY|os.O_CREATE|os.O_TRUNC, stat.Mode().Perm())
+
+	if err != nil {
+		return Err[any](err)
+	}
+
+	_, err = io.Copy(target, source)
+
+	if err == nil {
+		err = target.Chmod(stat.Mode().Perm())
+	}
+
+	if closeErr := target.Close(); err == nil {
+		err = closeErr
+	}
 
 	if err != nil {
 		return Err[any](err)
-- 
2.43.0


From 5b46f7a3026c6ba89faec1bbdfc19c6cc8e772e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:25 +0000
Subject: [PATCH 43/58] fix: RemoveDir removes only directories and RemoveFile
 only files

---
 fs.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/fs.go b/fs.go
index 7405858..ac7119d 100644
--- a/fs.go
+++ b/fs.go
@@ -4,6 +4,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"syscall"
 )
 
 // Creates a new, empty directory at the provided path
@@ -19,10 +20,10 @@ func CreateDir(path String) Result[any] {
 
 // Removes an empty directory.
 func RemoveDir(path String) Result[any] {
-	err := os.Remove(string(path))
+	err := syscall.Rmdir(string(path))
 
 	if err != nil {
-		return Err[any](err)
+		return Err[any](&os.PathError{Op: "remove", Path: string(path), Err: err})
 	} else {
 		return Ok[any](nil)
 	}
@@ -55,10 +56,10 @@ func Write(path String, data []Byte) Result[any] {
 
 // Removes a file from the filesystem.
 func RemoveFile(path String) Result[any] {
-	err := os.Remove(string(path))
+	err := syscall.Unlink(string(path))
 
 	if err != nil {
-		return Err[any](err)
+		return Err[any](&os.PathError{Op: "remove", Path: string(path), Err: err})
 	} else {
 		return Ok[any](nil)
 	}
-- 
2.43.0


From a4f85ed0c214c710e9d9292ba14b2ed220ab07c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:37 +0000
Subject: [PATCH 44/58] fix: ReadDir lists no empty entries

---
 fs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fs.go b/fs.go
index ac7119d..c9e3d72 100644
--- a/fs.go
+++ b/fs.go
@@ -139,7 +139,7 @@ func ReadDir(path String) Result[Vec[DirEntry]] {
 	if err != nil {
 		return Err[Vec[DirEntry]](err)
 	} else {
-		vec := VecWithLen[DirEntry](USize(len(entries)))
+		vec := VecNew[DirEntry]()
 
 		for _, entry := range entries {
 			fileType := FileType{}
-- 
2.43.0


From a1a74c0cc93e73f9f40cbf3cb38b2cce1908a943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:48 +0000
Subject: [PATCH 45/58] fix: ReadDir reports the kind of each entry

---
 fs.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fs.go b/fs.go
index c9e3d72..cbc4263 100644
--- a/fs.go
+++ b/fs.go
@@ -144,11 +144,11 @@ func ReadDir(path String) Result[Vec[DirEntry]] {
 		for _, entry := range entries {
 			fileType := FileType{}
 
-			if entry.Type().Perm().IsDir() {
+			if entry.Type().IsDir() {
 				fileType.typeInfo = "dir"
-			} else if entry.Type().Perm().IsRegular() {
+			} else if entry.Type().IsRegular() {
 				fileType.typeInfo = "file"
-			} else if entry.Type().Perm()&os.ModeSymlink != 0 {
+			} else if entry.Type()&os.ModeSymlink != 0 {
 				fileType.typeInfo = "symlink"
 			}
 
-- 
2.43.0


From 2454822ee2184890365799d0d9cd1a7107ec8653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:03 +0000
Subject: [PATCH 46/58] fix: Read and ReadToString read the whole file whatever
 its reported size

---
 fs.go | 36 ++----------------------------------
 1 file changed, 2 insertions(+), 34 deletions(-)

diff --git a/fs.go b/fs.go
index cbc4263..3101b27 100644
--- a/fs.go
+++ b/fs.go
@@ -79,23 +79,7 @@ func Rename(from String, to String) Result[any] {
 
 // Read the entire contents of a file into a bytes vector.
 func Read(path String) Result[[]Byte] {
-	file, err := os.Open(string(path))
-
-	if err != nil {
-		return Err[[]Byte](err)
-	}
-
-	defer file.Close()
-
-	stat, err := file.Stat()
-
-	if err != nil {
-		return Err[[]Byte](err)
-	}
-
-	data := make([]byte, stat.Size())
-
-	_, err = file.Read(data)
+	data, err := os.ReadFile(string(path))
 
 	if err != nil {
 		return Err[[]Byte](err)
@@ -215,23 +199,7 @@ func Copy(from String, to String) Result[any] {
 
 // Read the entire contents of a file into a string.
 func ReadToString(path String) Result[String] {
-	file, err := os.Open(string(path))
-
-	if err != nil {
-		return Err[String](err)
-	}
-
-	defer file.Close()
-
-	stat, err := file.Stat()
-
-	if err != nil {
-		return Err[String](err)
-	}
-
-	data := make([]byte, stat.Size())
-
-	_, err = file.Read(data)
+	data, err := os.ReadFile(string(path))
 
 	if err != nil {
 		return Err[String](err)
-- 
2.43.0


From 73bbd136732097c837b5c24e33b54794175ac308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:01 +0000
Subject: [PATCH 47/58] fix: Println writes its line and the newline at once

---
 io.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/io.go b/io.go
index ff5ff73..9d904f5 100644
--- a/io.go
+++ b/io.go
@@ -7,8 +7,7 @@ import (
 )
 
 func Println(format String, params ...any) {
-	Print(format, params...)
-	fmt.Println()
+	fmt.Print(Format(format, params...) + "\n")
 }
 
 func Print(format String, params ...any) {
-- 
2.43.0


From a18471c4fe698372ec77527a9d6c727d9dcaf48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:13 +0000
Subject: [PATCH 48/58] fix: ReadLine appends the whole next line

---
 io.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/io.go b/io.go
index 9d904f5..da6b0a5 100644
--- a/io.go
+++ b/io.go
@@ -1,7 +1,9 @@
 package gost
 
 import (
+	"bytes"
 	"fmt"
+	"os"
 	"sync"
 	"unicode/utf8"
 )
@@ -81,7 +83,26 @@ func (self *Stdin) ReadLine(buffer *String) {
 	self.lock.Lock()
 	defer self.lock.Unlock()
 
-	var line string
-	fmt.Scanln(&line)
-	*buffer = String(line)
+	line := []byte{}
+	char := make([]byte, 1)
+
+	// Read byte by byte, so that nothing after the line is consumed.
+	for {
+		n, err := os.Stdin.Read(char)
+
+		if n > 0 {
+			if char[0] == '\n' {
+				line = bytes.TrimSuffix(line, []byte("\r"))
+				break
+			}
+
+			line = append(line, char[0])
+		}
+
+		if err != nil {
+			break
+		}
+	}
+
+	*buffer += String(line)
 }
-- 
2.43.0


From 0d86c6a6411fe3b16f0a85fc5f508bff008d547e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:24 +0000
Subject: [PATCH 49/58] fix: a thread's end is not consumed by the first join
 or finished-test

---
 thread.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thread.go b/thread.go
index a27241a..8feab76 100644
--- a/thread.go
+++ b/thread.go
@@ -47,8 +47,8 @@ func Spawn(f func()) JoinHandle {
 	channel := make(chan Unit)
 
 	go func() {
+		defer close(channel)
 		f()
-		channel <- Unit{}
 	}()
 
 	return JoinHandle{
-- 
2.43.0


From 4c6335850fa39a23d8eaf3f022e454cead644301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:36 +0000
Subject: [PATCH 50/58] fix: Sleep does not panic on very long durations

---
 thread.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/thread.go b/thread.go
index 8feab76..32f24ab 100644
--- a/thread.go
+++ b/thread.go
@@ -1,7 +1,7 @@
 package gost
 
 import (
-	"fmt"
+	"math"
 	"time"
 )
 
@@ -9,12 +9,11 @@ import (
 //
 //	gost.Sleep(gost.DurationFromSecs(5)) // Sleep for 5 seconds
 func Sleep(dur Duration) {
-	durationString := fmt.Sprintf("%ds%dns", dur.seconds, dur.nanoseconds)
+	// The longest sleep the runtime supports is about 292 years.
+	duration := time.Duration(math.MaxInt64)
 
-	duration, err := time.ParseDuration(durationString)
-
-	if err != nil {
-		panic(err)
+	if dur.seconds < U64(math.MaxInt64/time.Second) {
+		duration = time.Duration(dur.seconds)*time.Second + time.Duration(dur.nanoseconds)
 	}
 
 	time.Sleep(duration)
-- 
2.43.0


From 271a18dc69304019fadf6a62b59166f9ebc9545f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:39 +0000
Subject: [PATCH 51/58] fix: every Await of a task returns its value, and an
 unawaited task ends

---
 gokio/gokio.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/gokio/gokio.go b/gokio/gokio.go
index 92acbf3..130e33b 100644
--- a/gokio/gokio.go
+++ b/gokio/gokio.go
@@ -3,21 +3,22 @@ package gokio
 import "github.com/myyrakle/gost"
 
 type gokioFuture[T any] struct {
-	ch chan T
+	done  chan struct{}
+	value T
 }
 
 func (self *gokioFuture[T]) Await() T {
-	return <-self.ch
+	<-self.done
+
+	return self.value
 }
 
 func Spawn[T any](f func() T) gost.Future[T] {
-	ch := make(chan T)
-
-	future := gokioFuture[T]{ch: ch}
+	future := gokioFuture[T]{done: make(chan struct{})}
 
 	go func() {
-		defer close(ch)
-		ch <- f()
+		defer close(future.done)
+		future.value = f()
 	}()
 
 	return &future
-- 
2.43.0


From 2fabae5b136d49b231fe47fbe9a7cd6eb5f3eabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:58 +0000
Subject: [PATCH 52/58] fix: Vec and VecDeque Fill put a clone in each place,
 as documented

---
 clone.go     | 9 +++++++++
 vec.go       | 2 +-
 vec_deque.go | 2 +-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/clone.go b/clone.go
index 0909fa2..62a4ebd 100644
--- a/clone.go
+++ b/clone.go
@@ -17,6 +17,15 @@ func castToClone[T any](value T) _InternalOption[Clone[T]] {
 	}
 }
 
+// Returns a clone of the value, or the value itself if it does not implement Clone.
+func cloneOf[T any](value T) T {
+	if clone, ok := any(value).(Clone[T]); ok {
+		return clone.Clone()
+	}
+
+	return value
+}
+
 func (self ISize) Clone() ISize {
 	return self
 }
diff --git a/vec.go b/vec.go
index cf3672c..e3c4ba2 100644
--- a/vec.go
+++ b/vec.go
@@ -411,7 +411,7 @@ func (self Vec[T]) BinarySearchBy(f func(T) Ordering) Option[USize] {
 //	gost.AssertEq(vec.GetUnchecked(0), gost.I32(1))
 func (self *Vec[T]) Fill(value T) {
 	for i := 0; i < len(self.data); i++ {
-		self.data[i] = value
+		self.data[i] = cloneOf(value)
 	}
 }
 
diff --git a/vec_deque.go b/vec_deque.go
index 4ae0333..ccb803f 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -387,7 +387,7 @@ func (self VecDeque[T]) Contains(value T) Bool {
 //	gost.AssertEq(deque.GetUnchecked(1), gost.I32(1))
 func (self *VecDeque[T]) Fill(value T) {
 	for i := USize(0); i < self.Len(); i++ {
-		self.SetUnchecked(i, value)
+		self.SetUnchecked(i, cloneOf(value))
 	}
 }
 
-- 
2.43.0


From b01689a97e5ea798e8053757b399f7eab4c0f701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:25 +0000
Subject: [PATCH 53/58] fix: lines read through several handles at once stay
 whole

---
 io.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/io.go b/io.go
index da6b0a5..b400016 100644
--- a/io.go
+++ b/io.go
@@ -73,6 +73,9 @@ type Stdin struct {
 	lock sync.Mutex
 }
 
+// Held while a line is read, since all handles share the standard input stream.
+var stdinLock sync.Mutex
+
 // Locks this handle to the standard input stream, returning a readable guard.
 func (self *Stdin) Lock() *sync.Mutex {
 	return &self.lock
@@ -82,6 +85,8 @@ func (self *Stdin) Lock() *sync.Mutex {
 func (self *Stdin) ReadLine(buffer *String) {
 	self.lock.Lock()
 	defer self.lock.Unlock()
+	stdinLock.Lock()
+	defer stdinLock.Unlock()
 
 	line := []byte{}
 	char := make([]byte, 1)
-- 
2.43.0


From 8cba33fa2158e31a4a5a4b130b0f3342ab855246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:04 +0000
Subject: [PATCH 54/58] fix: Format copies bytes that are not UTF-8 unchanged

---
 io.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/io.go b/io.go
index b400016..8a56e24 100644
--- a/io.go
+++ b/io.go
@@ -17,11 +17,11 @@ func Print(format String, params ...any) {
 }
 
 func Format(format String, params ...any) String {
-	runes := []rune{}
+	runes := []String{}
 
 	for len(string(format)) > 0 {
-		r, size := utf8.DecodeRuneInString(string(format))
-		runes = append(runes, r)
+		_, size := utf8.DecodeRuneInString(string(format))
+		runes = append(runes, format[:size])
 		format = format[size:]
 	}
 
@@ -32,7 +32,7 @@ func Format(format String, params ...any) String {
 	inRightCurlyBrackets := false
 
 	for _, r := range runes {
-		if r == '{' {
+		if r == "{" {
 			if inLeftCurlyBrackets {
 				buffer += "{"
 				inLeftCurlyBrackets = false
@@ -43,7 +43,7 @@ func Format(format String, params ...any) String {
 			}
 		}
 
-		if r == '}' {
+		if r == "}" {
 			if inRightCurlyBrackets {
 				buffer += "}"
 				inRightCurlyBrackets = false
-- 
2.43.0


From 12d7afd0acf43745a5df5d183a5701b5a7fc8484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:15 +0000
Subject: [PATCH 55/58] fix: Pop leaves the text before the last character as
 it was

---
 string.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/string.go b/string.go
index 850f812..f604edc 100644
--- a/string.go
+++ b/string.go
@@ -6,6 +6,7 @@ import (
 	"strings"
 	"unicode"
 	"unicode/utf16"
+	"unicode/utf8"
 )
 
 // Converts a vector of bytes to a String.
@@ -76,10 +77,8 @@ func (self *String) Pop() Option[Char] {
 		return None[Char]()
 	}
 
-	runes := []rune(*self)
-
-	last := runes[len(runes)-1]
-	*self = String(runes[:len(runes)-1])
+	last, size := utf8.DecodeLastRuneInString(string(*self))
+	*self = (*self)[:len(*self)-size]
 
 	return Some[Char](Char(last))
 }
-- 
2.43.0


From 54feee7b07de57f1788223889ae21355dd03b68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:31 +0000
Subject: [PATCH 56/58] fix: VecDeque.Reserve grows only when the free room is
 too small, and by a factor

---
 vec_deque.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vec_deque.go b/vec_deque.go
index ccb803f..da0f394 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -82,9 +82,14 @@ func (self VecDeque[T]) Capacity() USize {
 func (self *VecDeque[T]) Reserve(additional USize) {
 	// TODO: overflow check
 	oldCapacity := self.Capacity()
-	newCapacity := oldCapacity + additional
+	newCapacity := self.len + additional
 
 	if newCapacity > oldCapacity {
+		// grow by a factor, so that repeated small reservations stay cheap
+		if newCapacity < oldCapacity*2 {
+			newCapacity = oldCapacity * 2
+		}
+
 		newBuffer := make([]T, newCapacity)
 		copy(newBuffer, self.buffer)
 		self.buffer = newBuffer
-- 
2.43.0


From e61985d71e12142a31ff35493fe215ac8942ee9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:57 +0000
Subject: [PATCH 57/58] fix: Vec.Reserve grows by a factor, so that appending
 small heaps is not quadratic

---
 vec.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/vec.go b/vec.go
index e3c4ba2..8de4931 100644
--- a/vec.go
+++ b/vec.go
@@ -68,8 +68,16 @@ func (self Vec[T]) IsEmpty() Bool {
 //	vec.Reserve(10)
 //	gost.AssertEq(vec.Capacity(), gost.USize(10))
 func (self *Vec[T]) Reserve(additional USize) {
-	if self.Capacity() < self.Len()+additional {
-		self.data = append(make([]T, 0, self.Len()+additional), self.data...)
+	oldCapacity := self.Capacity()
+	newCapacity := self.Len() + additional
+
+	if newCapacity > oldCapacity {
+		// grow by a factor, so that repeated small reservations stay cheap
+		if newCapacity < oldCapacity*2 {
+			newCapacity = oldCapacity * 2
+		}
+
+		self.data = append(make([]T, 0, newCapacity), self.data...)
 	}
 }
 
-- 
2.43.0


From 547dc8ea44f4f4750421771f07327d7df7649438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:52 +0000
Subject: [PATCH 58/58] fix: ReadDir's entry paths lead to the entries when the
 directory's path goes up from a link

---
 fs.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fs.go b/fs.go
index 3101b27..aa20ec9 100644
--- a/fs.go
+++ b/fs.go
@@ -125,6 +125,13 @@ func ReadDir(path String) Result[Vec[DirEntry]] {
 	} else {
 		vec := VecNew[DirEntry]()
 
+		// Not cleaned, since ".." after a link leads up from the link's target.
+		prefix := string(path)
+
+		if !os.IsPathSeparator(prefix[len(prefix)-1]) {
+			prefix += string(filepath.Separator)
+		}
+
 		for _, entry := range entries {
 			fileType := FileType{}
 
@@ -136,7 +143,7 @@ func ReadDir(path String) Result[Vec[DirEntry]] {
 				fileType.typeInfo = "symlink"
 			}
 
-			entryPath := filepath.Join(string(path), entry.Name())
+			entryPath := prefix + entry.Name()
 
 			vec.Push(DirEntry{
 				FileName: String(entry.Name()),
-- 
2.43.0

