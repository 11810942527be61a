From 8fd5d1eeb3af694c3d73adc0c7261c4a0be7faa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 01/28] fix: pass the data-treatment modes required by
 NewErrorWithData_params (bandersnatchErrors, errorTransform do not compile)

---
 bandersnatch/bandersnatchErrors/serializer_errors.go | 2 +-
 internal/errorTransform/error_transform.go           | 4 ++--
 internal/errorTransform/serializer_errors.go         | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bandersnatch/bandersnatchErrors/serializer_errors.go b/bandersnatch/bandersnatchErrors/serializer_errors.go
index 59b0aa6..79ddbc9 100644
--- a/bandersnatch/bandersnatchErrors/serializer_errors.go
+++ b/bandersnatch/bandersnatchErrors/serializer_errors.go
@@ -94,5 +94,5 @@ var (
 	ErrCannotSerializePointAtInfinity = errors.New("bandersnatch / point serialization: The selected serializer cannot serialize points at infinity")
 	ErrCannotSerializeNaP             = errors.New("bandersnatch / point serialization: cannot serialize NaP")
 	ErrCannotDeserializeNaP           = errors.New("bandersnatch / point deserialization: cannot deserialize coordinates corresponding to NaP")
-	ErrCannotDeserializeXYAllZero     = errorsWithData.NewErrorWithData_params[struct{}](ErrCannotDeserializeNaP, "bandersnatch / point deserialization: trying to deserialize a point with coordinates x==y==0")
+	ErrCannotDeserializeXYAllZero     = errorsWithData.NewErrorWithData_params[struct{}](ErrCannotDeserializeNaP, "bandersnatch / point deserialization: trying to deserialize a point with coordinates x==y==0", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent)
 )
diff --git a/internal/errorTransform/error_transform.go b/internal/errorTransform/error_transform.go
index b37f565..39a8b64 100644
--- a/internal/errorTransform/error_transform.go
+++ b/internal/errorTransform/error_transform.go
@@ -23,7 +23,7 @@ func UnexpectEOF(errPtr *error) {
 	if errors.Is(*errPtr, io.EOF) {
 		m := errorsWithData.GetData_map(*errPtr)
 		if len(m) > 0 {
-			*errPtr = errorsWithData.NewErrorWithData_any_map(io.ErrUnexpectedEOF, "", m)
+			*errPtr = errorsWithData.NewErrorWithData_any_map(io.ErrUnexpectedEOF, "", errorsWithData.ReplacePreviousData, m)
 		} else {
 			*errPtr = io.ErrUnexpectedEOF
 		}
@@ -34,6 +34,6 @@ func UnexpectEOF(errPtr *error) {
 func UnexpectEOF2[StructType any](errPtr *errorsWithData.ErrorWithData[StructType]) {
 	if errors.Is(*errPtr, io.EOF) {
 		m := errorsWithData.GetData_map(*errPtr)
-		*errPtr = errorsWithData.NewErrorWithData_map[StructType](io.ErrUnexpectedEOF, "", m)
+		*errPtr = errorsWithData.NewErrorWithData_map[StructType](io.ErrUnexpectedEOF, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, m)
 	}
 }
diff --git a/internal/errorTransform/serializer_errors.go b/internal/errorTransform/serializer_errors.go
index 23d260b..f10016f 100644
--- a/internal/errorTransform/serializer_errors.go
+++ b/internal/errorTransform/serializer_errors.go
@@ -83,5 +83,5 @@ var (
 	ErrCannotSerializePointAtInfinity = errors.New("bandersnatch / point serialization: The selected serializer cannot serialize points at infinity")
 	ErrCannotSerializeNaP             = errors.New("bandersnatch / point serialization: cannot serialize NaP")
 	ErrCannotDeserializeNaP           = errors.New("bandersnatch / point deserialization: cannot deserialize coordinates corresponding to NaP")
-	ErrCannotDeserializeXYAllZero     = errorsWithData.NewErrorWithData_params[struct{}](ErrCannotDeserializeNaP, "bandersnatch / point deserialization: trying to deserialize a point with coordinates x==y==0")
+	ErrCannotDeserializeXYAllZero     = errorsWithData.NewErrorWithData_params[struct{}](ErrCannotDeserializeNaP, "bandersnatch / point deserialization: trying to deserialize a point with coordinates x==y==0", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent)
 )
-- 
2.43.0


From 9cd00ab17b6e50565f469863e51f97447b2915d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 02/28] fix: adapt fieldElements to the current errorsWithData
 API (package does not compile)

---
 bandersnatch/fieldElements/errors.go                   | 4 ++--
 bandersnatch/fieldElements/field_element_bigInt.go     | 4 ++--
 bandersnatch/fieldElements/field_element_montgomery.go | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/bandersnatch/fieldElements/errors.go b/bandersnatch/fieldElements/errors.go
index 6f9ac01..7df1cc4 100644
--- a/bandersnatch/fieldElements/errors.go
+++ b/bandersnatch/fieldElements/errors.go
@@ -39,9 +39,9 @@ var ErrDivisionByZero = errors.New(ErrorPrefix + "division by zero")
 // These are the errors that can occur during (de)serialization.
 var (
 	errPrefixDoesNotFit                   = errorsWithData.NewErrorWithData_struct(nil, ErrorPrefix+"while trying to serialize a field element with a prefix, the prefix did not fit, because the number was too large", &errorconsts.NoWriteAttempt)
-	ErrPrefixDoesNotFit                   = errorsWithData.MakeErrorIncomparable(errPrefixDoesNotFit)
+	ErrPrefixDoesNotFit                   = errPrefixDoesNotFit
 	errPrefixLengthInvalid                = errorsWithData.NewErrorWithData_struct(nil, ErrorPrefix+"in FieldElement deserializitation, an invalid prefix length > 8 was requested", &errorconsts.NoWriteAttempt)
-	ErrPrefixLengthInvalid                = errorsWithData.MakeErrorIncomparable(errPrefixLengthInvalid)
+	ErrPrefixLengthInvalid                = errPrefixLengthInvalid
 	ErrPrefixMismatch               error = errors.New(ErrorPrefix + "during deserialization, the read prefix did not match the expected one")
 	ErrNonNormalizedDeserialization error = errors.New(ErrorPrefix + "during FieldElement deserialization, the read number was not the minimal representative modulo BaseFieldSize")
 )
diff --git a/bandersnatch/fieldElements/field_element_bigInt.go b/bandersnatch/fieldElements/field_element_bigInt.go
index 303fabe..aa763de 100644
--- a/bandersnatch/fieldElements/field_element_bigInt.go
+++ b/bandersnatch/fieldElements/field_element_bigInt.go
@@ -136,7 +136,7 @@ func (z *bsFieldElement_BigInt) SetInt64(x int64) {
 func (z *bsFieldElement_BigInt) ToUint64() (uint64, error) {
 	zInt := z.ToBigInt()
 	if !zInt.IsUint64() {
-		return 0, errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an uint64", "FieldElement", *z)
+		return 0, errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an uint64", errorsWithData.ReplacePreviousData, "FieldElement", *z)
 	}
 	return zInt.Uint64(), nil
 }
@@ -153,7 +153,7 @@ func (z *bsFieldElement_BigInt) ToInt64() (int64, error) {
 		zInt.Neg(zInt)
 	}
 	if !zInt.IsInt64() {
-		return 0, errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an int64", "FieldElement", *z)
+		return 0, errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an int64", errorsWithData.ReplacePreviousData, "FieldElement", *z)
 	} else {
 		return zInt.Int64(), nil
 	}
diff --git a/bandersnatch/fieldElements/field_element_montgomery.go b/bandersnatch/fieldElements/field_element_montgomery.go
index b2cdc67..117511e 100644
--- a/bandersnatch/fieldElements/field_element_montgomery.go
+++ b/bandersnatch/fieldElements/field_element_montgomery.go
@@ -254,7 +254,7 @@ func (z *bsFieldElement_MontgomeryNonUnique) ToUint64() (result uint64, err erro
 	result = temp[0]
 	if (temp[1] | temp[2] | temp[3]) != 0 {
 		// err = ErrCannotRepresentAsUint64
-		err = errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as a uint64", "FieldElement", *z)
+		err = errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as a uint64", errorsWithData.ReplacePreviousData, "FieldElement", *z)
 		result = 0
 	}
 	return
@@ -317,7 +317,7 @@ func (z *bsFieldElement_MontgomeryNonUnique) ToInt64() (result int64, err error)
 		return
 	}
 	zCopy := *z // to avoid z escaping to the heap. Now only zCopy escapes, but this is only allocated conditionally in the first place.
-	err = errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an int64", "FieldElement", zCopy)
+	err = errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an int64", errorsWithData.ReplacePreviousData, "FieldElement", zCopy)
 
 	result = 0 // no-op, but stated for clarity.
 	return
-- 
2.43.0


From 3b03dbeb2971383edea31c71d3b0476157fc204d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 03/28] fix: adapt curvePoints to the current errorsWithData
 API (package does not compile)

---
 bandersnatch/curvePoints/serializer_curve_field.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bandersnatch/curvePoints/serializer_curve_field.go b/bandersnatch/curvePoints/serializer_curve_field.go
index 9046265..2c13aca 100644
--- a/bandersnatch/curvePoints/serializer_curve_field.go
+++ b/bandersnatch/curvePoints/serializer_curve_field.go
@@ -95,10 +95,10 @@ func recoverYFromXAffine(x *FieldElement, legendreCheckX bool) (y FieldElement,
 			// The type of error depends on whether denom is a square or not.
 			num.DivideEq(&denom)
 			if y.SquareRoot(&num) {
-				err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotInSubgroup, "%w. The received X coordinates was %v{X}", "X", *x)
+				err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotInSubgroup, "%w. The received X coordinates was %v{X}", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "X", *x)
 
 			} else {
-				err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotOnCurve, "%w. The received X coordinate was %v{X}", "X", *x)
+				err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotOnCurve, "%w. The received X coordinate was %v{X}", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "X", *x)
 				y.SetZero() // not needed, but we like being explicit.
 			}
 			return
@@ -107,7 +107,7 @@ func recoverYFromXAffine(x *FieldElement, legendreCheckX bool) (y FieldElement,
 	}
 	num.DivideEq(&denom) // (1-ax^2)/(1-dx^2). Note that 1-dx^2 cannot be 0, as d is a non-square.
 	if !y.SquareRoot(&num) {
-		err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotOnCurve, "%w. The received X coordinate was %v{X}", "X", *x)
+		err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotOnCurve, "%w. The received X coordinate was %v{X}", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "X", *x)
 		return
 	}
 	err = nil // err is nil at this point anyway, but we prefer to be explicit.
@@ -270,7 +270,7 @@ func CurvePointFromXAndSignY_full(x *FieldElement, signY int, trustLevel IsInput
 	point.y, errWithX = recoverYFromXAffine(x, false)
 
 	if errWithX != nil {
-		err = errorsWithData.AddDataToError_params[retData](errWithX, "%w", "SignY", signY)
+		err = errorsWithData.AddDataToError_params[retData](errWithX, errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "SignY", signY)
 		// On trusted input, we panic on error.
 		if trustLevel.Bool() {
 			panic(fmt.Errorf(ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromXAndSignY_full encountered error on trusted input. Error was %w", err))
@@ -429,7 +429,7 @@ func CurvePointFromYAndSignX_full(y *FieldElement, signX int, trustLevel IsInput
 	point.x, errFromRecoverX = recoverXFromYAffine(y)
 	if errFromRecoverX != nil {
 		err = errorsWithData.NewErrorWithData_params[errData](errFromRecoverX, ErrorPrefix_CurveFieldElementSerializers+"Error in CurvePointFromYAndSignX_full: %w, signX = %v{SignX}",
-			"SignX", signX)
+			errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "SignX", signX)
 		if trustLevel.Bool() {
 			panic(err)
 		}
@@ -514,7 +514,7 @@ func CurvePointFromXTimesSignY_subgroup(xSignY *FieldElement, trustLevel IsInput
 	point.y, err = recoverYFromXAffine(xSignY, !trustLevel.Bool())
 	if err != nil {
 		// update error message.
-		err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](err, ErrorPrefix_CurveFieldElementSerializers+"Error in CurvePointFromXTimesSignY_subgroup: %w. Note that this error only depends on the absolute value |X|")
+		err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](err, ErrorPrefix_CurveFieldElementSerializers+"Error in CurvePointFromXTimesSignY_subgroup: %w. Note that this error only depends on the absolute value |X|", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent)
 		point = Point_axtw_subgroup{}
 		if trustLevel.Bool() {
 			panic(err)
-- 
2.43.0


From 907f62aaef87b4644ac269891a24b171eb51725d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 04/28] fix: Exponent.Neg must negate its argument, not the old
 value of the receiver

---
 bandersnatch/exponents/exponents.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bandersnatch/exponents/exponents.go b/bandersnatch/exponents/exponents.go
index d6ddcbc..8f68c71 100644
--- a/bandersnatch/exponents/exponents.go
+++ b/bandersnatch/exponents/exponents.go
@@ -227,10 +227,10 @@ func (z *Exponent) Neg(x *Exponent) {
 		return
 	}
 	var borrow uint64
-	z.value[0], borrow = bits.Sub64(curveExponent_0, z.value[0], 0)
-	z.value[1], borrow = bits.Sub64(curveExponent_1, z.value[1], borrow)
-	z.value[2], borrow = bits.Sub64(curveExponent_2, z.value[2], borrow)
-	z.value[3], _ = bits.Sub64(curveExponent_3, z.value[3], borrow)
+	z.value[0], borrow = bits.Sub64(curveExponent_0, x.value[0], 0)
+	z.value[1], borrow = bits.Sub64(curveExponent_1, x.value[1], borrow)
+	z.value[2], borrow = bits.Sub64(curveExponent_2, x.value[2], borrow)
+	z.value[3], _ = bits.Sub64(curveExponent_3, x.value[3], borrow)
 }
 
 // SetZero sets the exponent value to 0
-- 
2.43.0


From 8e1417bce282f2290b55de36cb42214db0e12084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 05/28] fix: Exponent.ModuloP253 must compute z - p253, not
 p253 - z

---
 bandersnatch/exponents/exponents.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/exponents/exponents.go b/bandersnatch/exponents/exponents.go
index 8f68c71..f22d3fd 100644
--- a/bandersnatch/exponents/exponents.go
+++ b/bandersnatch/exponents/exponents.go
@@ -55,7 +55,7 @@ func (z *Exponent) ModuloP253() (ret Exponent) {
 	if z.isNormalized_Subgroup() {
 		ret = *z
 	} else {
-		ret.Sub(&p253Exponent, z)
+		ret.Sub(z, &p253Exponent)
 	}
 	return
 }
-- 
2.43.0


From 2365f8b40f81120e199c824bd98d27e10b00be3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 06/28] fix: endomorphismEigenvalueIsOdd must be true for the
 odd eigenvalue

---
 bandersnatch/exponents/exponent_constants.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/exponents/exponent_constants.go b/bandersnatch/exponents/exponent_constants.go
index c66fa7e..4d988ca 100644
--- a/bandersnatch/exponents/exponent_constants.go
+++ b/bandersnatch/exponents/exponent_constants.go
@@ -20,7 +20,7 @@ var CurveOrder_Int = common.CurveOrder_Int                         // Note: Copi
 // EndomorphismEigenvalue is only defined modulo GroupOrder.
 // We chose an odd representative. This info is needed to get some tests
 // and assertions right.
-const endomorphismEigenvalueIsOdd bool = (EndomorphismEigenvalue%2 == 0) // == true
+const endomorphismEigenvalueIsOdd bool = (EndomorphismEigenvalue%2 != 0) // == true
 
 const (
 	curveExponent_0 = (CurveExponent >> (iota * 64)) & 0xFFFFFFFF_FFFFFFFF
-- 
2.43.0


From adce6aa94a7494d91e2fb4b2025ea409d8782a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 07/28] fix: interpolate the existing error parameter SignY
 (signY is not an exported field)

---
 bandersnatch/curvePoints/serializer_curve_field.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bandersnatch/curvePoints/serializer_curve_field.go b/bandersnatch/curvePoints/serializer_curve_field.go
index 2c13aca..626bb20 100644
--- a/bandersnatch/curvePoints/serializer_curve_field.go
+++ b/bandersnatch/curvePoints/serializer_curve_field.go
@@ -253,7 +253,7 @@ func CurvePointFromXAndSignY_full(x *FieldElement, signY int, trustLevel IsInput
 	// accept signs from +/- 1 in this function.
 	if signY != 1 && signY != -1 {
 		err = errorsWithData.NewErrorWithData_struct(bandersnatchErrors.ErrInvalidSign,
-			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromXAndSignY_full expects the sign argument be either -1 or +1. Got %v{signY} instead. The X coordinate given was %v{X}",
+			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromXAndSignY_full expects the sign argument be either -1 or +1. Got %v{SignY} instead. The X coordinate given was %v{X}",
 			&retData{X: *x, SignY: signY},
 		)
 
@@ -314,7 +314,7 @@ func CurvePointFromXAndSignY_subgroup(x *FieldElement, signY int, trustLevel IsI
 	// accept signs from +/- 1 in this function.
 	if signY != 1 && signY != -1 {
 		err = errorsWithData.NewErrorWithData_struct(bandersnatchErrors.ErrInvalidSign,
-			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromXAndSignY_subgroup expects the sign argument be either -1 or +1. Got %v{signY} instead. The X coordinate given was %v{X}",
+			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromXAndSignY_subgroup expects the sign argument be either -1 or +1. Got %v{SignY} instead. The X coordinate given was %v{X}",
 			&retData{X: *x, SignY: signY},
 		)
 
-- 
2.43.0


From 73bc06277001777c8920f5d5d3e3623cbfbd8bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 08/28] fix: report the offending Y and SignX in
 CurvePointFromYAndSignX_subgroup's not-in-subgroup error

---
 bandersnatch/curvePoints/serializer_curve_field.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/curvePoints/serializer_curve_field.go b/bandersnatch/curvePoints/serializer_curve_field.go
index 626bb20..8bb2c95 100644
--- a/bandersnatch/curvePoints/serializer_curve_field.go
+++ b/bandersnatch/curvePoints/serializer_curve_field.go
@@ -483,7 +483,7 @@ func CurvePointFromYAndSignX_subgroup(y *FieldElement, signX int, trustLevel IsI
 			&struct {
 				Y     FieldElement
 				SignX int
-			}{})
+			}{Y: *y, SignX: signX})
 		point = Point_axtw_subgroup{} // just for clarity. This is the case anyway.
 		if trustLevel.Bool() {
 			panic(err)
-- 
2.43.0


From 59b7b1b43d3e908b0a6b741bb295b8c627bea5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 09/28] fix: terminate all open conditions on a parse error
 (nested malformed interpolation strings panicked)

---
 bandersnatch/errorsWithData/formatting_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/errorsWithData/formatting_parse.go b/bandersnatch/errorsWithData/formatting_parse.go
index d5fe6c7..a79913e 100644
--- a/bandersnatch/errorsWithData/formatting_parse.go
+++ b/bandersnatch/errorsWithData/formatting_parse.go
@@ -777,7 +777,7 @@ func make_ast(tokens tokenList) (ret ast_root, err error) {
 		// nodes of types ast_condPercent and ast_condDollar and causes
 		// the condition to be ignored, so the conditional interpolation is always evaluated.
 		// This is mostly to ensure that diagnostic is not hidden.
-		for i := 0; i < (stack.Len()/2)-1; i++ {
+		for stack.Len() > 2 {
 			_ = stack.Pop().(ast_list)
 			condNode := stack.Pop().(ast_cond)
 			condition := condNode.get_condition()
-- 
2.43.0


From 948b66738fa6ac383df600e9785cd9818f2f56d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 10/28] fix: check syntax inside conditional sub-trees of
 interpolation strings (invalid nested conditions panicked in Error())

---
 bandersnatch/errorsWithData/formatting_interpolate.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bandersnatch/errorsWithData/formatting_interpolate.go b/bandersnatch/errorsWithData/formatting_interpolate.go
index d4fcbfc..69f43f3 100644
--- a/bandersnatch/errorsWithData/formatting_interpolate.go
+++ b/bandersnatch/errorsWithData/formatting_interpolate.go
@@ -204,12 +204,14 @@ func (abase *base_ast_fmt) handleSyntaxConditions() error {
 //
 // For ast_cond, we just flag the conditional as invalid on failure.
 func (abase *base_ast_condition) handleSyntaxConditions() error {
+	// process the sub-tree in any case; note that errors in it are only reported if the condition itself is fine.
+	childErr := abase.child.handleSyntaxConditions()
 	if !validConditionString(abase.condition) {
 		// make_invalid(3) causes Interpolate to display children unconditionally && display an error message containing the condition.
 		abase.make_invalid(3)
 		return fmt.Errorf(ErrorPrefix+"invalid condition string: %s", abase.condition)
 	} else {
-		return nil
+		return childErr
 	}
 }
 
-- 
2.43.0


From 1e7552148308e2d92c6f5bb2f4d54f05c0b5947b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 11/28] fix: pass the format verb as an argument of its
 diagnostic instead of appending it to the format string

---
 bandersnatch/errorsWithData/formatting_interpolate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/errorsWithData/formatting_interpolate.go b/bandersnatch/errorsWithData/formatting_interpolate.go
index 69f43f3..5d547da 100644
--- a/bandersnatch/errorsWithData/formatting_interpolate.go
+++ b/bandersnatch/errorsWithData/formatting_interpolate.go
@@ -178,7 +178,7 @@ func (abase *base_ast_fmt) handleSyntaxConditions() error {
 	}
 
 	if strings.ContainsRune(abase.formatString, '%') {
-		abase.errorString = fmt.Errorf(`<!Format Verb %s for %s contains %%>`+abase.formatString, abase.variableName)
+		abase.errorString = fmt.Errorf(`<!Format Verb %s for %s contains %%>`, abase.formatString, abase.variableName)
 		return fmt.Errorf(ErrorPrefix+`Interpolation string contains a format string verb %s, which contains  '%%'. This will not work with the fmt package`, abase.formatString)
 	}
 
-- 
2.43.0


From dc1f8f8b689626ed02a6354a54475184c71717ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 12/28] fix: ValidateError_Params(nil) must use the error's own
 parameters, as documented, instead of panicking

---
 bandersnatch/errorsWithData/plainErrorWithParams.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bandersnatch/errorsWithData/plainErrorWithParams.go b/bandersnatch/errorsWithData/plainErrorWithParams.go
index b8bf691..cbd5747 100644
--- a/bandersnatch/errorsWithData/plainErrorWithParams.go
+++ b/bandersnatch/errorsWithData/plainErrorWithParams.go
@@ -251,5 +251,8 @@ func (e *errorWithParameters_common) ValidateError_Base() error {
 //
 // This method is required for [ValidateError_Base] or [ValidateError_Final] to recurse and part of the [ErrorInterpolater] interface.
 func (e *errorWithParameters_common) ValidateError_Params(params_passed ParamMap) error {
+	if params_passed == nil {
+		params_passed = e.params
+	}
 	return e.parsedInterpolationString.VerifyParameters_passed(e.params, params_passed, e.wrapped_error)
 }
-- 
2.43.0


From 9980a9c1b1995e0f03c93b7cca46b6b23c95f1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 13/28] fix: map selectors such as %v{!m} are always available;
 Validate* must not report them as missing

---
 bandersnatch/errorsWithData/formatting_interpolate.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bandersnatch/errorsWithData/formatting_interpolate.go b/bandersnatch/errorsWithData/formatting_interpolate.go
index 5d547da..78851d7 100644
--- a/bandersnatch/errorsWithData/formatting_interpolate.go
+++ b/bandersnatch/errorsWithData/formatting_interpolate.go
@@ -350,7 +350,7 @@ func (a ast_string) VerifyParameters_passed(ParamMap, ParamMap, error) error {
 func (a ast_fmtPercent) VerifyParameters_direct(parameters_direct ParamMap, _ error) (err error) {
 
 	_, ok := parameters_direct[a.variableName]
-	if !ok {
+	if !ok && !utils.ElementInList(a.variableName, validMapSelectors[:]) {
 		return fmt.Errorf(ErrorPrefix+"Interpolations string contains variable name %s, which is not present in the error", a.variableName)
 	}
 	return nil
@@ -361,7 +361,7 @@ func (a ast_fmtPercent) VerifyParameters_passed(parameters_direct ParamMap, _ Pa
 
 	// same as VerifyParameters_direct. We ignore the parameters_passed map
 	_, ok := parameters_direct[a.variableName]
-	if !ok {
+	if !ok && !utils.ElementInList(a.variableName, validMapSelectors[:]) {
 		return fmt.Errorf(ErrorPrefix+"Interpolations string contains variable name %s, which is not present in the error", a.variableName)
 	}
 	return nil
@@ -378,7 +378,7 @@ func (a ast_fmtDollar) VerifyParameters_direct(_ ParamMap, _ error) error {
 func (a ast_fmtDollar) VerifyParameters_passed(_ ParamMap, parameters_passed ParamMap, _ error) (err error) {
 
 	_, ok := parameters_passed[a.variableName]
-	if !ok {
+	if !ok && !utils.ElementInList(a.variableName, validMapSelectors[:]) {
 		return fmt.Errorf(ErrorPrefix+"Interpolations string contains variable name %s, which is not present in the error", a.variableName)
 	}
 	return nil
-- 
2.43.0


From 1e692ffece4aa36dc56ad5a86e6641a506ec3957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 14/28] fix: NewErrorWithData_struct must not create an error
 whose GetData_struct panics (wrong-typed previous data)

---
 bandersnatch/errorsWithData/plainErrorWithParams.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bandersnatch/errorsWithData/plainErrorWithParams.go b/bandersnatch/errorsWithData/plainErrorWithParams.go
index cbd5747..25a312f 100644
--- a/bandersnatch/errorsWithData/plainErrorWithParams.go
+++ b/bandersnatch/errorsWithData/plainErrorWithParams.go
@@ -199,6 +199,10 @@ func newErrorWithData_struct[StructType any](baseError error, interpolationStrin
 	ret = new(errorWithParameters_T[StructType])
 	ret.errorWithParameters_common = makeErrorWithParametersCommon(baseError, interpolationString)
 	fillMapFromStruct(data, &ret.errorWithParameters_common.params, mode)
+	// With mode == [PreferPreviousData], data from baseError takes precedence and might have the wrong type.
+	if err := ensureCanMakeStructFromParameters[StructType](&ret.errorWithParameters_common.params, EnsureDataIsPresent); err != nil {
+		panic(err)
+	}
 	return
 }
 
-- 
2.43.0


From 8f64c4449da9592f1873370da841267fd1cb9577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 15/28] fix: post-process the syntax tree when creating an
 error; doing so lazily in Error() was a data race

---
 bandersnatch/errorsWithData/plainErrorWithParams.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bandersnatch/errorsWithData/plainErrorWithParams.go b/bandersnatch/errorsWithData/plainErrorWithParams.go
index 25a312f..cbd4080 100644
--- a/bandersnatch/errorsWithData/plainErrorWithParams.go
+++ b/bandersnatch/errorsWithData/plainErrorWithParams.go
@@ -140,6 +140,8 @@ func makeErrorWithParametersCommon(baseError error, interpolationString string)
 	// Parse the intepolation string.
 	// We ignore potential returned errors: If there is a parsing error, this is additionally recorded in ret.parsedInterpolationString itself.
 	ret.parsedInterpolationString, _ = make_ast(tokens)
+	// Post-process the tree now. This modifies the tree, so it must not happen (concurrently) when the error is used later.
+	_ = ret.parsedInterpolationString.handleSyntaxConditions()
 	ret.params = GetData_map(baseError)
 	return
 }
-- 
2.43.0


From 696abfdbb9ea25e327e44eb04ee59db0cd0dc463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:21 +0000
Subject: [PATCH 16/28] fix: efgh_full.EndoEq must not turn a NaP into a valid
 point

---
 bandersnatch/curvePoints/curve_point_doubleproj.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bandersnatch/curvePoints/curve_point_doubleproj.go b/bandersnatch/curvePoints/curve_point_doubleproj.go
index d00e343..4cd7301 100644
--- a/bandersnatch/curvePoints/curve_point_doubleproj.go
+++ b/bandersnatch/curvePoints/curve_point_doubleproj.go
@@ -976,6 +976,11 @@ func (p *Point_efgh_subgroup) EndoEq() {
 //
 // p.EndoEq() is equivalent to p.Endo(&p).
 func (p *Point_efgh_full) EndoEq() {
+	if p.IsNaP() {
+		napEncountered("Computing endomorphism of NaP", false, p)
+		p.point_efgh_base = point_efgh_base{}
+		return
+	}
 	if p.IsAtInfinity() {
 		p.point_efgh_base = orderTwoPoint_efghbase
 	} else {
-- 
2.43.0


From 5e1cb9ab944dfbe15993d10a3ab652c88c0996ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:58 +0000
Subject: [PATCH 17/28] fix: deserializing Uint256s from buffers and slices
 must consume the input and report the bytes read

---
 bandersnatch/fieldElements/uint256_serialize.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bandersnatch/fieldElements/uint256_serialize.go b/bandersnatch/fieldElements/uint256_serialize.go
index 10f7a31..301be49 100644
--- a/bandersnatch/fieldElements/uint256_serialize.go
+++ b/bandersnatch/fieldElements/uint256_serialize.go
@@ -210,7 +210,8 @@ func (z *Uint256) Deserialize_Buffer(input *bytes.Buffer, byteOrder FieldElement
 	}
 
 	// Write to z
-	byteOrder.Uint256_indirect(input.Bytes(), (*[4]uint64)(z))
+	byteOrder.Uint256_indirect(input.Next(32), (*[4]uint64)(z))
+	bytesRead = 32
 	return
 }
 
@@ -222,6 +223,7 @@ func (z *Uint256) Deserialize_Bytes(input []byte, byteOrder FieldElementEndianne
 
 	// Write to z
 	byteOrder.Uint256_indirect(input, (*[4]uint64)(z))
+	bytesRead = 32
 	return
 }
 
@@ -295,7 +297,8 @@ func (z *Uint256) DeserializeAndGetPrefix_Buffer(input *bytes.Buffer, prefixLeng
 	}
 
 	// Write to z
-	byteOrder.Uint256_indirect(input.Bytes(), (*[4]uint64)(z))
+	byteOrder.Uint256_indirect(input.Next(32), (*[4]uint64)(z))
+	bytesRead = 32
 
 	// read out the top prefixLength many bits.
 	prefix = common.PrefixBits(z[3] >> (64 - prefixLength))
@@ -324,6 +327,7 @@ func (z *Uint256) DeserializeAndGetPrefix_Bytes(input []byte, prefixLength uint8
 
 	// Write to z
 	byteOrder.Uint256_indirect(input, (*[4]uint64)(z))
+	bytesRead = 32
 	// read out the top prefixLength many bits.
 	prefix = common.PrefixBits(z[3] >> (64 - prefixLength))
 
-- 
2.43.0


From aa1f334b171af61dd4d74b4b9e443d5ffc45e3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:58 +0000
Subject: [PATCH 18/28] fix: deserializing a Uint256 from a too short slice
 must report an error instead of panicking

---
 bandersnatch/fieldElements/uint256_serialize.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bandersnatch/fieldElements/uint256_serialize.go b/bandersnatch/fieldElements/uint256_serialize.go
index 301be49..c11a107 100644
--- a/bandersnatch/fieldElements/uint256_serialize.go
+++ b/bandersnatch/fieldElements/uint256_serialize.go
@@ -218,7 +218,7 @@ func (z *Uint256) Deserialize_Buffer(input *bytes.Buffer, byteOrder FieldElement
 func (z *Uint256) Deserialize_Bytes(input []byte, byteOrder FieldElementEndianness) (bytesRead int, err bandersnatchErrors.DeserializationError) {
 
 	if len(input) < 32 {
-		panic("Not handled yet") // TODO
+		return z.Deserialize(bytes.NewReader(input), byteOrder) // reports the error
 	}
 
 	// Write to z
@@ -322,7 +322,7 @@ func (z *Uint256) DeserializeAndGetPrefix_Bytes(input []byte, prefixLength uint8
 	}
 
 	if len(input) < 32 {
-		panic("Not handled yet") // TODO
+		return z.DeserializeAndGetPrefix(bytes.NewReader(input), prefixLength, byteOrder) // reports the error
 	}
 
 	// Write to z
-- 
2.43.0


From 18fc1126e71e35ff40e505f62c275ae9247c8af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:01 +0000
Subject: [PATCH 19/28] fix: CheckIsSubtype checks that the second struct type
 is suitable even if the first has no fields

---
 bandersnatch/errorsWithData/validate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bandersnatch/errorsWithData/validate.go b/bandersnatch/errorsWithData/validate.go
index 0e42394..a8e88fc 100644
--- a/bandersnatch/errorsWithData/validate.go
+++ b/bandersnatch/errorsWithData/validate.go
@@ -87,6 +87,10 @@ func CheckIsSubtype[StructType1 any, StructType2 any]() {
 	if err != nil {
 		panic(err)
 	}
+	// This is only checked by the loop below if StructType1 has any fields.
+	if _, err = getStructMapConversionLookup(utils.TypeOfType[StructType2]()); err != nil {
+		panic(err)
+	}
 	for _, expectedField1 := range allExpectedFields1 {
 		CheckParameterForStruct[StructType2](expectedField1.Name)
 	}
-- 
2.43.0


From 75a6300dc48544a86ee298cde92c092eb31b333f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:51 +0000
Subject: [PATCH 20/28] fix: escape the braces in the message about an invalid
 sign of X (the interpolation string did not parse)

---
 bandersnatch/curvePoints/serializer_curve_field.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/curvePoints/serializer_curve_field.go b/bandersnatch/curvePoints/serializer_curve_field.go
index 8bb2c95..afdaf14 100644
--- a/bandersnatch/curvePoints/serializer_curve_field.go
+++ b/bandersnatch/curvePoints/serializer_curve_field.go
@@ -413,7 +413,7 @@ func CurvePointFromYAndSignX_full(y *FieldElement, signX int, trustLevel IsInput
 	}
 	if signX != +1 && signX != -1 {
 		err = errorsWithData.NewErrorWithData_struct(bandersnatchErrors.ErrInvalidSign,
-			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromYAndSignX_full and CurvePointFromYAndSignX_subgroup expect signX from {-1,0,+1}. Got: %v{SignX}. The provided Y coorindate was %v{Y}",
+			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromYAndSignX_full and CurvePointFromYAndSignX_subgroup expect signX from \\{-1,0,+1\\}. Got: %v{SignX}. The provided Y coorindate was %v{Y}",
 			&errData{Y: *y, SignX: signX})
 		if trustLevel.Bool() {
 			panic(err)
-- 
2.43.0


From 587482fa7414139211ff126b35d415ca74c94bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:04 +0000
Subject: [PATCH 21/28] fix: panics of functions supplied to a PrecomputedCache
 no longer leave locks held

---
 internal/testutils/precomputation_meta.go | 24 ++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/internal/testutils/precomputation_meta.go b/internal/testutils/precomputation_meta.go
index b1e08e9..d4c5bd7 100644
--- a/internal/testutils/precomputation_meta.go
+++ b/internal/testutils/precomputation_meta.go
@@ -89,6 +89,7 @@ func MakePrecomputedCache[KeyType comparable, ElementType any](createRandFromSee
 //   - the given entries are copied into the cache into a fresh backing array.
 func (pc *PrecomputedCache[KeyType, ElementType]) PrepopulateCache(key KeyType, cacheEntries []ElementType) {
 	copyFun := pc.copyFun
+	newPage := pc.newCachePage(key) // calls a user-provided function, so we do this before locking anything.
 	pc.tableMutex.Lock()
 	page, ok := pc.data[key]
 	if ok {
@@ -96,15 +97,14 @@ func (pc *PrecomputedCache[KeyType, ElementType]) PrepopulateCache(key KeyType,
 		panic(fmt.Errorf("trying to populate cache under key %v, which already exists", key))
 	}
 	Assert(page == nil)
-	page = pc.newCachePage(key)
+	page = newPage
 	pc.data[key] = page
 	page.pageMutex.Lock() // cannot block, because no other goroutine can see the newly created cache page until we unlock the table mutex.
+	defer page.pageMutex.Unlock()
 	pc.tableMutex.Unlock()
 	for _, entry := range cacheEntries {
 		page.elements = append(page.elements, copyFun(entry))
 	}
-	page.pageMutex.Unlock()
-
 }
 
 // GetElements returns (a copy of) the first amount many precomputed elements that are stored under the given key.
@@ -170,10 +170,10 @@ func (pc *precomputedCachePage[KeyType, ElementType]) getElements(
 
 	// If the cache contains enough elements, just copy them and be done
 	if currentLen >= amount {
+		defer pc.pageMutex.RUnlock() // deferred, because copyFun may panic
 		for i := 0; i < amount; i++ {
 			ret[i] = copyFun(pc.elements[i])
 		}
-		pc.pageMutex.RUnlock()
 		return
 	}
 
@@ -181,19 +181,21 @@ func (pc *precomputedCachePage[KeyType, ElementType]) getElements(
 	pc.pageMutex.RUnlock()
 	// sync.RWMutex cannot atomically upgrade read-locks to rw-locks. So pc.elements may get extended in the meantime. This is fine.
 	creationFun := source.creationFun
-	pc.pageMutex.Lock()
-	// extend as appropriate
-	for len(pc.elements) < amount {
-		pc.elements = append(pc.elements, creationFun(pc.rng, pc.key))
-	}
-	pc.pageMutex.Unlock()
+	func() {
+		pc.pageMutex.Lock()
+		defer pc.pageMutex.Unlock() // deferred, because creationFun may panic (e.g. because it is nil)
+		// extend as appropriate
+		for len(pc.elements) < amount {
+			pc.elements = append(pc.elements, creationFun(pc.rng, pc.key))
+		}
+	}()
 
 	// We are now guaranteed to read the desired amount
 	pc.pageMutex.RLock()
+	defer pc.pageMutex.RUnlock()
 	for i := 0; i < amount; i++ {
 		ret[i] = copyFun(pc.elements[i])
 	}
-	pc.pageMutex.RUnlock()
 	return
 }
 
-- 
2.43.0


From 61a666ab6a15e1f0ff1fda60c11d38cdb1c01b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:55 +0000
Subject: [PATCH 22/28] fix: unsafe.Pointer values can be nil

---
 bandersnatch/common/call_fixNil.go | 3 ++-
 internal/utils/reflect_type.go     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bandersnatch/common/call_fixNil.go b/bandersnatch/common/call_fixNil.go
index f213f74..80a7535 100644
--- a/bandersnatch/common/call_fixNil.go
+++ b/bandersnatch/common/call_fixNil.go
@@ -26,7 +26,8 @@ func CallFunction_FixNil(fun reflect.Value, in []reflect.Value) (out []reflect.V
 				reflect.Chan,
 				reflect.Func,
 				reflect.Slice,
-				reflect.Map:
+				reflect.Map,
+				reflect.UnsafePointer:
 				in[pos] = reflect.Zero(InType)
 			default:
 				panic(ErrorPrefix + "CallMethod_FixNil asked to call function, where argument list contains nil; however, nil is not valid for the function's expected argument type.")
diff --git a/internal/utils/reflect_type.go b/internal/utils/reflect_type.go
index 1f7c3f2..85fc67b 100644
--- a/internal/utils/reflect_type.go
+++ b/internal/utils/reflect_type.go
@@ -36,7 +36,8 @@ func IsNilable(t reflect.Type) bool {
 		reflect.Chan,
 		reflect.Func,
 		reflect.Slice,
-		reflect.Map:
+		reflect.Map,
+		reflect.UnsafePointer:
 		return true
 	case reflect.Invalid:
 		panic("IsNilable called on invalid type")
-- 
2.43.0


From 06fcc6600a54917e529e8d5d175d938ee6977d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:55 +0000
Subject: [PATCH 23/28] fix: DoesMethodExist works for interface types

---
 internal/utils/reflect_call.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/internal/utils/reflect_call.go b/internal/utils/reflect_call.go
index 91813ad..26a1e01 100644
--- a/internal/utils/reflect_call.go
+++ b/internal/utils/reflect_call.go
@@ -39,17 +39,22 @@ func DoesMethodExist(receiverType reflect.Type, methodName string, inputs []refl
 		return false, fmt.Sprintf("type %v has no method named %v", typeName, methodName)
 	}
 	methodType := method.Type
-	// +1 comes from the receiver. Since we called MethodByName on a reflect.Type (rather than a reflect.Value), the method is unbound and has the receiver as explicit first input.
-	if methodType.NumIn() != len(inputs)+1 {
-		return false, fmt.Sprintf("method %v.%v has an unexpected number of input arguments. We expected %v, got %v", typeName, methodName, len(inputs), methodType.NumIn()-1)
+	// Since we called MethodByName on a reflect.Type (rather than a reflect.Value), the method is unbound and has the receiver as explicit first input.
+	// The exception is when receiverType is an interface type: then there is no receiver among the inputs.
+	receiverArgs := 1
+	if receiverType.Kind() == reflect.Interface {
+		receiverArgs = 0
+	}
+	if methodType.NumIn() != len(inputs)+receiverArgs {
+		return false, fmt.Sprintf("method %v.%v has an unexpected number of input arguments. We expected %v, got %v", typeName, methodName, len(inputs), methodType.NumIn()-receiverArgs)
 	}
 	if methodType.NumOut() != len(outputs) {
 		return false, fmt.Sprintf("method %v.%v has an unexpected number of output arguments. We expected %v, got %v", typeName, methodName, len(outputs), methodType.NumOut())
 	}
 
 	for i, t := range inputs {
-		if !t.AssignableTo(methodType.In(i + 1)) {
-			return false, fmt.Sprintf("method %v.%v's %v'th parameter type %v is not assignable to the expected parameter %v", typeName, methodName, i+1, GetReflectName(t), GetReflectName(methodType.In(i+1)))
+		if !t.AssignableTo(methodType.In(i + receiverArgs)) {
+			return false, fmt.Sprintf("method %v.%v's %v'th parameter type %v is not assignable to the expected parameter %v", typeName, methodName, i+1, GetReflectName(t), GetReflectName(methodType.In(i+receiverArgs)))
 		}
 	}
 
-- 
2.43.0


From 6313b20ab8ca230770376d1617cfa27fed0502ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:36 +0000
Subject: [PATCH 24/28] fix: FaultyBuffer does not report the designated error
 before the threshold is reached

---
 internal/testutils/failingIO.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/testutils/failingIO.go b/internal/testutils/failingIO.go
index 085d897..75d0621 100644
--- a/internal/testutils/failingIO.go
+++ b/internal/testutils/failingIO.go
@@ -49,7 +49,7 @@ func (fb *FaultyBuffer) Read(p []byte) (n int, err error) {
 	if err != nil {
 		return
 	}
-	if fault {
+	if fault && n == L { // if n < L, the buffer did not contain enough bytes to reach the threshold.
 		err = fb.designatedErr
 		fb.alreadyRead += 1 // to differentiate repeated calls
 	}
-- 
2.43.0


From 6d44a656b6848b0ab26fcf44c51fc4b2fbcd2d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:16 +0000
Subject: [PATCH 25/28] fix: Point_efgh_full.IsInSubgroup must not accept a NaP

---
 bandersnatch/curvePoints/curve_point_doubleproj.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bandersnatch/curvePoints/curve_point_doubleproj.go b/bandersnatch/curvePoints/curve_point_doubleproj.go
index 4cd7301..0eb1023 100644
--- a/bandersnatch/curvePoints/curve_point_doubleproj.go
+++ b/bandersnatch/curvePoints/curve_point_doubleproj.go
@@ -1117,6 +1117,9 @@ func (p *Point_efgh_full) SetFrom(input CurvePointPtrInterfaceRead) {
 
 // IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup.
 func (p *Point_efgh_full) IsInSubgroup() bool {
+	if p.IsNaP() {
+		return napEncountered("Checking whether NaP is in subgroup", true, p)
+	}
 	return legendreCheckA_EG(p.e, p.g) && legendreCheckE1_FH(p.f, p.h)
 }
 
-- 
2.43.0


From 002682593728a4fd0f2441d6766b364c5b611c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:50 +0000
Subject: [PATCH 26/28] fix: callcounters: an empty display name defaults to
 the id for all kinds of counters

---
 internal/callcounters/callcounters.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/callcounters/callcounters.go b/internal/callcounters/callcounters.go
index a050604..da847a0 100644
--- a/internal/callcounters/callcounters.go
+++ b/internal/callcounters/callcounters.go
@@ -208,7 +208,11 @@ func CreateNewCallCounter(id Id, displayName string, doDisplay bool, attachTo Id
 	if cc.initialized {
 		panic("callcounters: trying to create a call counter for an already used id")
 	}
-	cc.displayName = displayName
+	if displayName != "" {
+		cc.displayName = displayName
+	} else {
+		cc.displayName = string(id)
+	}
 	cc.id = id
 	cc.initialized = true
 	cc.displayRootNode = displayRootNode
-- 
2.43.0


From 6f7093fbd688d5e1d8aebde5133e9251d4922206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:50 +0000
Subject: [PATCH 27/28] fix: callcounters: Get of an unknown id reports
 ok==false instead of crashing

---
 internal/callcounters/callcounters.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/callcounters/callcounters.go b/internal/callcounters/callcounters.go
index da847a0..25dfcdf 100644
--- a/internal/callcounters/callcounters.go
+++ b/internal/callcounters/callcounters.go
@@ -503,7 +503,9 @@ func (id Id) Get() (ret int, ok bool) {
 	}
 	correctDependencies()
 	cc, ok := callCounters[id]
-	ret = cc.count_modified
+	if ok {
+		ret = cc.count_modified
+	}
 	return
 }
 
-- 
2.43.0


From 39cf6b6889ed423363cdbcac27fe05fa47e0a306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:50 +0000
Subject: [PATCH 28/28] fix: callcounters: structure report marks counters
 below hidden ones

---
 internal/callcounters/callcounters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/callcounters/callcounters.go b/internal/callcounters/callcounters.go
index 25dfcdf..38a5e83 100644
--- a/internal/callcounters/callcounters.go
+++ b/internal/callcounters/callcounters.go
@@ -404,7 +404,7 @@ func GetCallCounterStructureReport(indent string) (ret string) {
 				ret += item.Tag
 				if !item.CC.display {
 					ret += " (hidden)"
-					if hidebelow > item.depth {
+					if hidebelow == -1 || hidebelow > item.depth {
 						hidebelow = item.depth
 					}
 				} else if hidebelow == -1 {
-- 
2.43.0

