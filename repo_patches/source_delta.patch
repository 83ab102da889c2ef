From f3371b24e152440092f9d9d575b69a34b3d66636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:20 +0000
Subject: [PATCH 01/69] fix: HashSet comparisons with repeated slice items

---
 sttp/hashset/HashSet.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sttp/hashset/HashSet.go b/sttp/hashset/HashSet.go
index fe55548..5d5691b 100644
--- a/sttp/hashset/HashSet.go
+++ b/sttp/hashset/HashSet.go
@@ -125,6 +125,9 @@ func (hs HashSet[T]) ExceptWithSet(other HashSet[T]) {
 
 // SymmetricExceptWith modifies the current set to contain only elements that are present either in the set or in the specified slice, but not both.
 func (hs HashSet[T]) SymmetricExceptWith(other []T) {
+	// Repeated slice items count once
+	other = NewHashSet(other).Keys()
+
 	if hs.IsEmpty() {
 		// If set is empty, then symmetric difference is other
 		hs.UnionWith(other)
@@ -182,6 +185,9 @@ func (hs HashSet[T]) UnionWithSet(other HashSet[T]) {
 // SetEquals determines whether a set and the specified slice contain the same elements.
 // Returns true if the set is equal to other slice items; otherwise, false.
 func (hs HashSet[T]) SetEquals(other []T) bool {
+	// Repeated slice items count once
+	other = NewHashSet(other).Keys()
+
 	if len(hs) != len(other) {
 		return false
 	}
@@ -282,6 +288,9 @@ func (hs HashSet[T]) IsProperSubsetOfSet(other HashSet[T]) bool {
 // IsSupersetOf determines whether a set is a superset of the specified slice.
 // Returns true if the set is a superset of other slice items; otherwise, false.
 func (hs HashSet[T]) IsSupersetOf(other []T) bool {
+	// Repeated slice items count once
+	other = NewHashSet(other).Keys()
+
 	// If other is the empty set then this is a superset
 	if len(other) == 0 {
 		return true
@@ -310,6 +319,9 @@ func (hs HashSet[T]) IsSupersetOfSet(other HashSet[T]) bool {
 // IsProperSupersetOf determines whether a set is a proper superset of the specified slice.
 // Returns true if the set is a proper superset of other slice items; otherwise, false.
 func (hs HashSet[T]) IsProperSupersetOf(other []T) bool {
+	// Repeated slice items count once
+	other = NewHashSet(other).Keys()
+
 	// The empty set is not a proper subset of any set
 	if hs.IsEmpty() {
 		return true
-- 
2.43.0


From 342d7acca980734c2afef58045075216f64d5c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:22 +0000
Subject: [PATCH 02/69] fix: convert timestamps outside the 1970 to 2262 range
 between ticks and time

---
 sttp/ticks/Ticks.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sttp/ticks/Ticks.go b/sttp/ticks/Ticks.go
index 540cb5a..77d9be9 100644
--- a/sttp/ticks/Ticks.go
+++ b/sttp/ticks/Ticks.go
@@ -86,7 +86,7 @@ func (ticks Ticks) TimestampValue() int64 {
 
 // ToTime converts a Ticks value to standard Go Time value.
 func ToTime(ticks Ticks) time.Time {
-	return time.Unix(0, int64((ticks-UnixBaseOffset)&ValueMask)*100).UTC()
+	return ticks.ToTime()
 }
 
 // Converts a unix nanoseconds timestamp into a Ticks value.
@@ -96,7 +96,7 @@ func FromUnixNano(ns uint64) Ticks {
 
 // FromTime converts a standard Go Time value to a Ticks value.
 func FromTime(time time.Time) Ticks {
-	return FromUnixNano(uint64(time.UnixNano()))
+	return Ticks(time.Unix())*PerSecond + Ticks(time.Nanosecond()/100) + UnixBaseOffset
 }
 
 // IsLeapSecond determines if the deserialized Ticks value represents a leap second, i.e., second 60.
@@ -141,7 +141,8 @@ func UtcNow() Ticks {
 
 // ToTime converts a Ticks value to standard Go Time value.
 func (t Ticks) ToTime() time.Time {
-	return time.Unix(0, int64((t-UnixBaseOffset)&ValueMask)*100).UTC()
+	value := (t & ValueMask)
+	return time.Unix(int64(value/PerSecond)-int64(UnixBaseOffset/PerSecond), int64(value%PerSecond)*100).UTC()
 }
 
 // Converts the ticks value into a Unix nanoseconds timestamp
-- 
2.43.0


From c8cd6d0f673897cc3a160e7af1f217b6f7adaece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:22 +0000
Subject: [PATCH 03/69] fix: do not insert grouping symbols into formatted
 infinities

---
 sttp/format/Float.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sttp/format/Float.go b/sttp/format/Float.go
index 76e484c..c24fc49 100644
--- a/sttp/format/Float.go
+++ b/sttp/format/Float.go
@@ -25,6 +25,7 @@
 package format
 
 import (
+	"math"
 	"strconv"
 	"strings"
 )
@@ -39,6 +40,11 @@ func Float(f float64, prec int) string {
 // and the specified numeric thousands groupSymbol, e.g., ','.
 func FloatWith(f float64, prec int, decimalSymbol, groupSymbol byte) string {
 	in := strconv.FormatFloat(f, 'f', prec, 64)
+
+	if math.IsInf(f, 0) {
+		return in
+	}
+
 	decSymbolAsStr := string([]byte{decimalSymbol})
 
 	if decimalSymbol != '.' {
-- 
2.43.0


From 9b08df7ccab94ba88e7c88f00f5607dcd51d7e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:22 +0000
Subject: [PATCH 04/69] fix: report unknown kind for signal references without
 a signal type

---
 sttp/transport/MeasurementMetadata.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sttp/transport/MeasurementMetadata.go b/sttp/transport/MeasurementMetadata.go
index a96ecce..64ec065 100644
--- a/sttp/transport/MeasurementMetadata.go
+++ b/sttp/transport/MeasurementMetadata.go
@@ -68,12 +68,18 @@ type MeasurementMetadata struct {
 // ParseSignalReference attempts to parse a normally formatted signal reference into a
 // signal kind and position representing original source protocol details.
 func (mm *MeasurementMetadata) ParseSignalReference() (source string, signalKind SignalKindEnum, position int) {
+	signalKind = SignalKind.Unknown
 	signalReference := mm.SignalReference
 	parts := strings.Split(signalReference, "-")
 
 	if len(parts) > 1 {
 		lastIndex := len(parts) - 1
 		typeInfo := parts[lastIndex]
+
+		if len(typeInfo) < 2 {
+			return
+		}
+
 		signalKind = ParseSignalKindAcronym(typeInfo[:2])
 		position, _ = strconv.Atoi(typeInfo[2:])
 		source = strings.Join(parts[:lastIndex], "-")
-- 
2.43.0


From 72dac983872b530e4bed641c49a2abd4a1c2f2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:22 +0000
Subject: [PATCH 05/69] fix: reload XML documents cleanly and match empty XPath
 predicates

---
 sttp/xml/XmlDocument.go | 3 +++
 sttp/xml/XmlNode.go     | 6 +++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/sttp/xml/XmlDocument.go b/sttp/xml/XmlDocument.go
index 8a0c7f8..4133a58 100644
--- a/sttp/xml/XmlDocument.go
+++ b/sttp/xml/XmlDocument.go
@@ -96,6 +96,9 @@ func (xd *XmlDocument) LoadXml(data []byte) error {
 	buffer := bytes.NewBuffer(data)
 	decoder := xml.NewDecoder(buffer)
 
+	xd.Root = XmlNode{}
+	xd.maxLevel = 0
+
 	err := decoder.Decode(&xd.Root)
 
 	if err != nil {
diff --git a/sttp/xml/XmlNode.go b/sttp/xml/XmlNode.go
index 9c9de1a..54e4cd3 100644
--- a/sttp/xml/XmlNode.go
+++ b/sttp/xml/XmlNode.go
@@ -165,7 +165,7 @@ func (xn *XmlNode) SelectNodes(xpath string) []*XmlNode {
 			lbp := strings.IndexRune(expr, '[')
 			rbp := strings.IndexRune(expr, ']')
 
-			if lbp > -1 && rbp > -1 && rbp > lbp && len(expr) > 2 {
+			if lbp > -1 && rbp > -1 && rbp > lbp+1 && len(expr) > 2 {
 				name := expr[:lbp]
 				predicate := expr[lbp+1 : rbp]
 
@@ -213,7 +213,7 @@ func (xn *XmlNode) attributeMatch(expr string) bool {
 
 	if parts[0] == "*" {
 		if len(parts) == 1 {
-			return true
+			return len(xn.Attributes) > 0
 		}
 
 		// Check if any attribute value matches
@@ -265,7 +265,7 @@ func (xn *XmlNode) valueMatch(expr string) bool {
 }
 
 func removeQuotes(value string) string {
-	if strings.HasPrefix(value, "'") && strings.HasSuffix(value, "'") && len(value) > 2 {
+	if strings.HasPrefix(value, "'") && strings.HasSuffix(value, "'") && len(value) > 1 {
 		value = value[1 : len(value)-1]
 	}
 
-- 
2.43.0


From 4a7b4436ac401aa84c903c42a048437204288c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:26 +0000
Subject: [PATCH 06/69] fix: convert Boolean expression values to Int32 instead
 of panicking

---
 sttp/data/ValueExpression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ValueExpression.go b/sttp/data/ValueExpression.go
index b9b401d..4eeb086 100644
--- a/sttp/data/ValueExpression.go
+++ b/sttp/data/ValueExpression.go
@@ -410,7 +410,7 @@ func (ve *ValueExpression) convertFromBoolean(targetValueType ExpressionValueTyp
 	case ExpressionValueType.Boolean:
 		return newValueExpression(targetValueType, value != 0), nil
 	case ExpressionValueType.Int32:
-		return newValueExpression(targetValueType, value), nil
+		return newValueExpression(targetValueType, int32(value)), nil
 	case ExpressionValueType.Int64:
 		return newValueExpression(targetValueType, int64(value)), nil
 	case ExpressionValueType.Decimal:
-- 
2.43.0


From 244e481d892200c7963c486e78ebfcdf373275de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:26 +0000
Subject: [PATCH 07/69] fix: report integer and decimal division by zero as an
 error

---
 sttp/data/ExpressionTree.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index feea2c1..d2cf23c 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2647,10 +2647,22 @@ func (et *ExpressionTree) divideOp(leftValue, rightValue *ValueExpression, value
 
 	switch valueType {
 	case ExpressionValueType.Int32:
+		if rightValue.int32Value() == 0 {
+			return nil, errors.New("division \"/\" operator right operand is zero")
+		}
+
 		return newValueExpression(ExpressionValueType.Int32, int32(leftValue.int32Value()/rightValue.int32Value())), nil
 	case ExpressionValueType.Int64:
+		if rightValue.int64Value() == 0 {
+			return nil, errors.New("division \"/\" operator right operand is zero")
+		}
+
 		return newValueExpression(ExpressionValueType.Int64, int64(leftValue.int64Value()/rightValue.int64Value())), nil
 	case ExpressionValueType.Decimal:
+		if rightValue.decimalValue().IsZero() {
+			return nil, errors.New("division \"/\" operator right operand is zero")
+		}
+
 		return newValueExpression(ExpressionValueType.Decimal, leftValue.decimalValue().Div(rightValue.decimalValue())), nil
 	case ExpressionValueType.Double:
 		return newValueExpression(ExpressionValueType.Double, float64(leftValue.doubleValue()/rightValue.doubleValue())), nil
@@ -2681,10 +2693,22 @@ func (et *ExpressionTree) modulusOp(leftValue, rightValue *ValueExpression, valu
 
 	switch valueType {
 	case ExpressionValueType.Int32:
+		if rightValue.int32Value() == 0 {
+			return nil, errors.New("modulus \"%\" operator right operand is zero")
+		}
+
 		return newValueExpression(ExpressionValueType.Int32, int32(leftValue.int32Value()%rightValue.int32Value())), nil
 	case ExpressionValueType.Int64:
+		if rightValue.int64Value() == 0 {
+			return nil, errors.New("modulus \"%\" operator right operand is zero")
+		}
+
 		return newValueExpression(ExpressionValueType.Int64, int64(leftValue.int64Value()%rightValue.int64Value())), nil
 	case ExpressionValueType.Decimal:
+		if rightValue.decimalValue().IsZero() {
+			return nil, errors.New("modulus \"%\" operator right operand is zero")
+		}
+
 		return newValueExpression(ExpressionValueType.Decimal, leftValue.decimalValue().Mod(rightValue.decimalValue())), nil
 	case ExpressionValueType.Double:
 		return newValueExpression(ExpressionValueType.Double, math.Mod(leftValue.doubleValue(), rightValue.doubleValue())), nil
-- 
2.43.0


From e8c1669c425e323c4f1dd314a0026590a259b092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:26 +0000
Subject: [PATCH 08/69] fix: give comparisons with a null operand a Boolean
 null result

---
 sttp/data/ExpressionTree.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index d2cf23c..0d47c49 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -355,7 +355,7 @@ func (et *ExpressionTree) evaluateInList(expression Expression) (*ValueExpressio
 
 	// If in list test value is Null, result is Null
 	if inListValue.IsNull() {
-		return NullValue(inListValue.ValueType()), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	hasNotKeyWord := inListExpression.HasNotKeyword()
@@ -366,7 +366,7 @@ func (et *ExpressionTree) evaluateInList(expression Expression) (*ValueExpressio
 	var valueType ExpressionValueTypeEnum
 
 	for i := 0; i < len(arguments); i++ {
-		if argumentValue, err = et.evaluate(arguments[i]); err != nil {
+		if argumentValue, err = et.evaluateAs(arguments[i], inListValue.ValueType()); err != nil {
 			return nil, errors.New("failed while evaluating \"IN\" expression argument " + strconv.Itoa(i) + ": " + err.Error())
 		}
 
@@ -1286,10 +1286,15 @@ func (et *ExpressionTree) evaluateOperator(expression Expression) (*ValueExpress
 
 	var rightValue *ValueExpression
 
-	if rightValue, err = et.evaluate(operatorExpression.RightValue()); err != nil {
+	// A NULL literal takes on the value type of the other operand
+	if rightValue, err = et.evaluateAs(operatorExpression.RightValue(), leftValue.ValueType()); err != nil {
 		return nil, errors.New("failed while evaluating \"" + operatorExpression.OperatorType().String() + "\" operator right operand: " + err.Error())
 	}
 
+	if operand, ok := operatorExpression.LeftValue().(*ValueExpression); ok && operand.ValueType() == ExpressionValueType.Undefined {
+		leftValue = NullValue(rightValue.ValueType())
+	}
+
 	var valueType ExpressionValueTypeEnum
 
 	if valueType, err = operatorExpression.OperatorType().deriveOperationValueType(leftValue.ValueType(), rightValue.ValueType()); err != nil {
@@ -3000,7 +3005,7 @@ func (et *ExpressionTree) bitwiseXorOp(leftValue, rightValue *ValueExpression, v
 func (et *ExpressionTree) lessThanOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3034,7 +3039,7 @@ func (et *ExpressionTree) lessThanOp(leftValue, rightValue *ValueExpression, val
 func (et *ExpressionTree) lessThanOrEqualOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3070,7 +3075,7 @@ func (et *ExpressionTree) lessThanOrEqualOp(leftValue, rightValue *ValueExpressi
 func (et *ExpressionTree) greaterThanOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3104,7 +3109,7 @@ func (et *ExpressionTree) greaterThanOp(leftValue, rightValue *ValueExpression,
 func (et *ExpressionTree) greaterThanOrEqualOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3140,7 +3145,7 @@ func (et *ExpressionTree) greaterThanOrEqualOp(leftValue, rightValue *ValueExpre
 func (et *ExpressionTree) equalOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum, exactMatch bool) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3177,7 +3182,7 @@ func (et *ExpressionTree) equalOp(leftValue, rightValue *ValueExpression, valueT
 func (et *ExpressionTree) notEqualOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum, exactMatch bool) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
-- 
2.43.0


From 45adc18ac8306dae19e69ab5da04126a85c60863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:27 +0000
Subject: [PATCH 09/69] fix: keep the sign when shifting Int64 expression
 values right

---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 0d47c49..1d872cd 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2882,7 +2882,7 @@ func (et *ExpressionTree) bitShiftRightOp(leftValue, rightValue *ValueExpression
 		if shiftAmount < 0 {
 			shiftAmount = 64 - (abs(shiftAmount) % 64)
 		}
-		return newValueExpression(ExpressionValueType.Int64, int64(uint64(leftValue.int64Value())>>shiftAmount)), nil
+		return newValueExpression(ExpressionValueType.Int64, leftValue.int64Value()>>shiftAmount), nil
 	case ExpressionValueType.Decimal:
 		fallthrough
 	case ExpressionValueType.Double:
-- 
2.43.0


From 493c2119a91c99096a23a31f11536c1b27c2c45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:27 +0000
Subject: [PATCH 10/69] fix: match LIKE patterns without wildcards by equality

---
 sttp/data/ExpressionTree.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 1d872cd..2f81458 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -3263,6 +3263,12 @@ func (et *ExpressionTree) likeOp(leftValue, rightValue *ValueExpression, exactMa
 		return nil, errors.New("right operand of \"LIKE\" expression \"" + rightOperand + "\" has an invalid pattern")
 	}
 
+	if !startsWithWildcard && !endsWithWildcard {
+		if leftOperand == testExpression || !exactMatch && strings.EqualFold(leftOperand, testExpression) {
+			return True, nil
+		}
+	}
+
 	if startsWithWildcard {
 		if exactMatch {
 			if strings.HasSuffix(leftOperand, testExpression) {
-- 
2.43.0


From 0e1719356e2c428335cc7506d0b54c21a238ac25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:27 +0000
Subject: [PATCH 11/69] fix: test the first argument of the IIf function

---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 2f81458..03583fe 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -691,7 +691,7 @@ func (et *ExpressionTree) evaluateIIf(arguments []Expression) (*ValueExpression,
 	var testValue *ValueExpression
 	var err error
 
-	if testValue, err = et.evaluate(arguments[1]); err != nil {
+	if testValue, err = et.evaluate(arguments[0]); err != nil {
 		return nil, errors.New("failed while evaluating \"IIf\" function test value, first argument: " + err.Error())
 	}
 
-- 
2.43.0


From c64b17279c2236334f2d84d03101f7498c7eb641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:27 +0000
Subject: [PATCH 12/69] fix: raise to the given exponent in the Power function

---
 sttp/data/ExpressionTree.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 03583fe..43e13f1 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2155,7 +2155,7 @@ func (et *ExpressionTree) power(sourceValue, exponentValue *ValueExpression) (*V
 		return nil, errors.New("failed while converting \"Power\" function source value, first argument, to \"" + valueType.String() + "\": " + err.Error())
 	}
 
-	if exponentValue, err = sourceValue.Convert(valueType); err != nil {
+	if exponentValue, err = exponentValue.Convert(valueType); err != nil {
 		return nil, errors.New("failed while converting \"Power\" function exponent value, second argument, to \"" + valueType.String() + "\": " + err.Error())
 	}
 
@@ -2167,7 +2167,17 @@ func (et *ExpressionTree) power(sourceValue, exponentValue *ValueExpression) (*V
 	case ExpressionValueType.Int64:
 		return newValueExpression(ExpressionValueType.Int64, int64(math.Pow(float64(sourceValue.int64Value()), float64(exponentValue.int64Value())))), nil
 	case ExpressionValueType.Decimal:
-		return newValueExpression(ExpressionValueType.Decimal, sourceValue.decimalValue().Pow(exponentValue.decimalValue())), nil
+		source, exponent := sourceValue.decimalValue(), exponentValue.decimalValue()
+
+		// Decimal power function only supports whole exponents
+		if exponent.Equal(exponent.Truncate(0)) && exponent.Abs().LessThan(decimal.NewFromInt(256)) && !source.IsZero() {
+			return newValueExpression(ExpressionValueType.Decimal, source.Pow(exponent)), nil
+		}
+
+		sourceFloat, _ := source.Float64()
+		exponentFloat, _ := exponent.Float64()
+
+		return newValueExpression(ExpressionValueType.Double, math.Pow(sourceFloat, exponentFloat)).Convert(ExpressionValueType.Decimal)
 	case ExpressionValueType.Double:
 		return newValueExpression(ExpressionValueType.Double, math.Pow(sourceValue.doubleValue(), exponentValue.doubleValue())), nil
 	default:
-- 
2.43.0


From ab7e29921fecadd0c595059919182ebb8fb7a53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:27 +0000
Subject: [PATCH 13/69] fix: report conversion of non-finite numbers to Decimal
 as an error

---
 sttp/data/ValueExpression.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sttp/data/ValueExpression.go b/sttp/data/ValueExpression.go
index 4eeb086..0e3a5aa 100644
--- a/sttp/data/ValueExpression.go
+++ b/sttp/data/ValueExpression.go
@@ -25,6 +25,7 @@ package data
 
 import (
 	"errors"
+	"math"
 	"fmt"
 	"strconv"
 	"time"
@@ -515,6 +516,10 @@ func (ve *ValueExpression) convertFromDouble(targetValueType ExpressionValueType
 	case ExpressionValueType.Int64:
 		return newValueExpression(targetValueType, int64(value)), nil
 	case ExpressionValueType.Decimal:
+		if math.IsNaN(value) || math.IsInf(value, 0) {
+			return nil, errors.New("cannot convert \"Double\" value that is not a finite number to \"Decimal\"")
+		}
+
 		return newValueExpression(targetValueType, decimal.NewFromFloat(value)), nil
 	case ExpressionValueType.Double:
 		return newValueExpression(targetValueType, value), nil
-- 
2.43.0


From 81d83b0c8540d1569307ff46442fae9c182dd669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:27 +0000
Subject: [PATCH 14/69] fix: return the requested part in the Split function

---
 sttp/data/ExpressionTree.go | 38 ++++++++++++-------------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 43e13f1..01bd7ad 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2358,19 +2358,25 @@ func (et *ExpressionTree) split(sourceValue, delimiterValue, indexValue, ignoreC
 	}
 
 	index := indexValue.integerValue(-1)
-	var result []int
+	var result []string
 
 	if ignoreCase.booleanValue() {
-		result = splitNthIndex(strings.ToUpper(sourceValue.stringValue()), strings.ToUpper(delimiterValue.stringValue()), index)
+		regex, err := regexp.Compile("(?i)" + regexp.QuoteMeta(delimiterValue.stringValue()))
+
+		if err != nil {
+			return nil, errors.New("failed while compiling \"Split\" function case-insensitive RegEx expression for delimiter value, second argument: " + err.Error())
+		}
+
+		result = regex.Split(sourceValue.stringValue(), -1)
 	} else {
-		result = splitNthIndex(sourceValue.stringValue(), delimiterValue.stringValue(), index)
+		result = strings.Split(sourceValue.stringValue(), delimiterValue.stringValue())
 	}
 
-	if result == nil {
+	if index < 0 || index >= len(result) {
 		return EmptyString, nil
 	}
 
-	return newValueExpression(ExpressionValueType.String, sourceValue.stringValue()[result[0]:result[1]]), nil
+	return newValueExpression(ExpressionValueType.String, result[index]), nil
 }
 
 func (et *ExpressionTree) sqrt(sourceValue *ValueExpression) (*ValueExpression, error) {
@@ -3370,7 +3376,7 @@ func findNthIndex(source, test string, index int) int {
 	for i := 0; i < index+1; i++ {
 		location := strings.Index(source, test)
 
-		if location == -1 {
+		if location == -1 || location == len(source) {
 			result = 0
 			break
 		}
@@ -3382,23 +3388,3 @@ func findNthIndex(source, test string, index int) int {
 
 	return result - 1
 }
-
-// https://play.golang.org/p/_7nc06CqjKi
-func splitNthIndex(source, test string, index int) []int {
-	firstIndex := findNthIndex(source, test, index-1)
-	secondIndex := findNthIndex(source, test, index)
-
-	if firstIndex <= 0 && secondIndex <= 0 {
-		return nil
-	}
-
-	if firstIndex <= 0 {
-		return []int{0, secondIndex}
-	}
-
-	if secondIndex <= 0 {
-		return []int{firstIndex + len(test), len(source)}
-	}
-
-	return []int{firstIndex + len(test), secondIndex}
-}
-- 
2.43.0


From 16b6216dd15604d1a81a767fcc5b9ea6f776f407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:27 +0000
Subject: [PATCH 15/69] fix: do not expand $ in the replacement of the Replace
 function

---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 01bd7ad..b5bc33e 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2276,7 +2276,7 @@ func (et *ExpressionTree) replace(sourceValue, testValue, replaceValue, ignoreCa
 			return nil, errors.New("failed while compiling \"Replace\" function case-insensitive RegEx replace expression for test value, second argument: " + err.Error())
 		}
 
-		return newValueExpression(ExpressionValueType.String, regex.ReplaceAllString(sourceValue.stringValue(), replaceValue.stringValue())), nil
+		return newValueExpression(ExpressionValueType.String, regex.ReplaceAllLiteralString(sourceValue.stringValue(), replaceValue.stringValue())), nil
 	}
 
 	return newValueExpression(ExpressionValueType.String, strings.ReplaceAll(sourceValue.stringValue(), testValue.stringValue(), replaceValue.stringValue())), nil
-- 
2.43.0


From a9b05080d5b8fed421c459a30dce09c70d3e03cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:27 +0000
Subject: [PATCH 16/69] fix: order null before other values in the StrCmp
 function

---
 sttp/data/ExpressionTree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index b5bc33e..eecce35 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2485,12 +2485,12 @@ func (et *ExpressionTree) strCmp(leftValue, rightValue, ignoreCase *ValueExpress
 
 	// If left value is null, right non-null value will be considered greater
 	if leftValue.IsNull() {
-		return newValueExpression(ExpressionValueType.Int32, int32(1)), nil
+		return newValueExpression(ExpressionValueType.Int32, int32(-1)), nil
 	}
 
 	// If right value is null, left non-null value will be considered greater
 	if rightValue.IsNull() {
-		return newValueExpression(ExpressionValueType.Int32, int32(-1)), nil
+		return newValueExpression(ExpressionValueType.Int32, int32(1)), nil
 	}
 
 	var err error
-- 
2.43.0


From 3205e89ec4d6281348e1ca43e49962cfeb06ad48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:27 +0000
Subject: [PATCH 17/69] fix: accept any length in the SubStr function

---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index eecce35..999b3a3 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2542,7 +2542,7 @@ func (et *ExpressionTree) subStr(sourceValue, indexValue, lengthValue *ValueExpr
 			return EmptyString, nil
 		}
 
-		if index+length < len(sourceText) {
+		if length < len(sourceText)-index {
 			return newValueExpression(ExpressionValueType.String, sourceText[index:index+length]), nil
 		}
 	}
-- 
2.43.0


From ca15c86793cb726200b066b4b642533c733af8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:27 +0000
Subject: [PATCH 18/69] fix: trim non-ASCII spaces in the TrimLeft and
 TrimRight functions

---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 999b3a3..2946275 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -38,7 +38,7 @@ import (
 	"github.com/sttp/goapi/sttp/guid"
 )
 
-var whitespace string = " \t\n\v\f\r\x85\xA0"
+var whitespace string = " \t\n\v\f\r\u0085\u00A0"
 var intSize = int(unsafe.Sizeof(uint(0)) * 8)
 
 // ExpressionTree represents a tree of expressions for evaluation.
-- 
2.43.0


From 4f51adae61645524e562b3780cfd254ee6f0893e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:27 +0000
Subject: [PATCH 19/69] fix: read doubled quotes in string literals as one
 quote

---
 sttp/data/FilterExpressionParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index 8196cc4..4e3e56b 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -1481,7 +1481,7 @@ func parseStringLiteral(stringLiteral string) string {
 	// Remove any surrounding quotes from string, ANTLR grammar already
 	// ensures strings starting with quote also ends with one
 	if stringLiteral[0] == '\'' {
-		return stringLiteral[1 : len(stringLiteral)-1]
+		return strings.ReplaceAll(stringLiteral[1:len(stringLiteral)-1], "''", "'")
 	}
 
 	return stringLiteral
-- 
2.43.0


From 09ec59cb8f88e13b68752a4035bb4a09248d3222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:06 +0000
Subject: [PATCH 20/69] fix: accept Guid literals in braces without dashes

---
 sttp/data/FilterExpressionParser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index 4e3e56b..1aa3368 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -1490,11 +1490,11 @@ func parseStringLiteral(stringLiteral string) string {
 func parseGuidLiteral(guidLiteral string) guid.Guid {
 	// Remove any quotes from GUID (boost currently only handles optional braces),
 	// ANTLR grammar already ensures GUID starting with quote also ends with one
-	if guidLiteral[0] == '\'' {
+	if guidLiteral[0] == '\'' || guidLiteral[0] == '{' {
 		guidLiteral = guidLiteral[1 : len(guidLiteral)-1]
 	}
 
-	g, err := guid.Parse(guidLiteral)
+	g, err := guid.Parse(strings.ReplaceAll(guidLiteral, "-", ""))
 
 	if err != nil {
 		panic("failed to parse Guid literal " + guidLiteral + ": " + err.Error())
-- 
2.43.0


From 06131f85571d4efdf3d29002fad8d065b694acf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:40 +0000
Subject: [PATCH 21/69] fix: order text case-sensitively only when requested

---
 sttp/data/FilterExpressionParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index 1aa3368..be6a4b3 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -472,7 +472,7 @@ func (fep *FilterExpressionParser) EnterFilterStatement(context *parser.FilterSt
 			fep.activeExpressionTree.OrderByTerms = append(fep.activeExpressionTree.OrderByTerms, &OrderByTerm{
 				Column:     orderByColumn,
 				Ascending:  orderingTermContext.K_DESC() == nil,
-				ExactMatch: orderingTermContext.ExactMatchModifier() == nil,
+				ExactMatch: orderingTermContext.ExactMatchModifier() != nil,
 			})
 		}
 	}
-- 
2.43.0


From 64ecf5aaa5bec2352c204a8749ee3ef76f517c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:40 +0000
Subject: [PATCH 22/69] fix: apply TOP limit after ORDER BY

---
 sttp/data/ExpressionTree.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 2946275..611495b 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -100,8 +100,12 @@ func (et *ExpressionTree) SelectWhere(table *DataTable, predicate func(*ValueExp
 	var err error
 
 	// Find rows matching expression tree
+	applySort = applySort && len(et.OrderByTerms) > 0
+	applyLimit = applyLimit && et.TopLimit > -1
+
 	for i := 0; i < table.RowCount(); i++ {
-		if applyLimit && et.TopLimit > -1 && len(matchedRows) >= et.TopLimit {
+		// Limit can only be applied while matching rows when rows need no sorting
+		if applyLimit && !applySort && len(matchedRows) >= et.TopLimit {
 			break
 		}
 
@@ -123,7 +127,7 @@ func (et *ExpressionTree) SelectWhere(table *DataTable, predicate func(*ValueExp
 		}
 	}
 
-	if applySort && len(matchedRows) > 0 && len(et.OrderByTerms) > 0 {
+	if applySort && len(matchedRows) > 0 {
 		sort.Slice(matchedRows, func(i, j int) bool {
 			leftMatchedRow := matchedRows[i]
 			rightMatchedRow := matchedRows[j]
@@ -154,6 +158,10 @@ func (et *ExpressionTree) SelectWhere(table *DataTable, predicate func(*ValueExp
 
 			return false
 		})
+
+		if applyLimit && len(matchedRows) > et.TopLimit {
+			matchedRows = matchedRows[:et.TopLimit]
+		}
 	}
 
 	return matchedRows, nil
-- 
2.43.0


From cacb4214f89dfdd0114f7b31ec6938a67bd33854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:40 +0000
Subject: [PATCH 23/69] fix: return no rows when selecting with a limit of zero

---
 sttp/data/DataTable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/DataTable.go b/sttp/data/DataTable.go
index 4b5209d..9f77b37 100644
--- a/sttp/data/DataTable.go
+++ b/sttp/data/DataTable.go
@@ -255,7 +255,7 @@ func (dt *DataTable) Select(filterExpression string, sortOrder string, limit int
 		filterExpression = "True" // Return all records
 	}
 
-	if limit > 0 {
+	if limit > -1 {
 		filterExpression = fmt.Sprintf("FILTER TOP %d %s WHERE %s", limit, dt.name, filterExpression)
 	} else {
 		filterExpression = fmt.Sprintf("FILTER %s WHERE %s", dt.name, filterExpression)
-- 
2.43.0


From efbf6b646ba893ae0b6b6f667abba1b2bd73e419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:40 +0000
Subject: [PATCH 24/69] fix: find tables and columns named by delimited
 identifiers

---
 sttp/data/FilterExpressionParser.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index be6a4b3..db9e746 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -435,7 +435,7 @@ func (fep *FilterExpressionParser) EnterFilterExpressionStatement(context *parse
 
 // EnterFilterStatement is called when production filterStatement is entered.
 func (fep *FilterExpressionParser) EnterFilterStatement(context *parser.FilterStatementContext) {
-	tableName := context.TableName().GetText()
+	tableName := parseIdentifier(context.TableName().GetText())
 
 	table, err := fep.Table(tableName)
 
@@ -462,7 +462,7 @@ func (fep *FilterExpressionParser) EnterFilterStatement(context *parser.FilterSt
 
 		for i := 0; i < len(orderingTerms); i++ {
 			orderingTermContext := orderingTerms[i].(*parser.OrderingTermContext)
-			orderByColumnName := orderingTermContext.OrderByColumnName().GetText()
+			orderByColumnName := parseIdentifier(orderingTermContext.OrderByColumnName().GetText())
 			orderByColumn := table.ColumnByName(orderByColumnName)
 
 			if orderByColumn == nil {
@@ -1139,7 +1139,7 @@ func (fep *FilterExpressionParser) ExitColumnName(context *parser.ColumnNameCont
 		panic("cannot parse column name in filter expression, " + err.Error())
 	}
 
-	columnName := context.IDENTIFIER().GetText()
+	columnName := parseIdentifier(context.IDENTIFIER().GetText())
 	dataColumn := table.ColumnByName(columnName)
 
 	if dataColumn == nil {
@@ -1477,6 +1477,16 @@ func SelectSignalIDSetFromTable(dataTable *DataTable, filterExpression string, p
 	return SelectSignalIDSet(dataTable.Parent(), filterExpression, dataTable.Name(), tableIDFields, suppressConsoleErrorOutput)
 }
 
+func parseIdentifier(identifier string) string {
+	// Remove any surrounding delimiters from identifier, ANTLR grammar already
+	// ensures delimited identifiers end with matching delimiter
+	if len(identifier) > 2 && (identifier[0] == '[' || identifier[0] == '`') {
+		return identifier[1 : len(identifier)-1]
+	}
+
+	return identifier
+}
+
 func parseStringLiteral(stringLiteral string) string {
 	// Remove any surrounding quotes from string, ANTLR grammar already
 	// ensures strings starting with quote also ends with one
-- 
2.43.0


From 1613ec39fc7a1e1eb9dda9a413caa162c19ab3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:40 +0000
Subject: [PATCH 25/69] fix: evaluate a filter expression parser repeatedly

---
 sttp/data/FilterExpressionParser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index db9e746..ca6bdfd 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -297,6 +297,7 @@ func (fep *FilterExpressionParser) visitParseTreeNodes() (err error) {
 
 	// Create a parse tree and start visiting listener methods
 	walker := antlr.NewParseTreeWalker()
+	fep.parser.SetInputStream(fep.tokens)
 	parseTree := fep.parser.Parse()
 	walker.Walk(fep, parseTree)
 
-- 
2.43.0


From d8e526725336566b4072acc47bb0663ac13a5621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:40 +0000
Subject: [PATCH 26/69] fix: return filter expression syntax errors

---
 sttp/data/CallbackErrorListener.go  | 4 ++++
 sttp/data/FilterExpressionParser.go | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/sttp/data/CallbackErrorListener.go b/sttp/data/CallbackErrorListener.go
index 6f0bc47..c8d7665 100644
--- a/sttp/data/CallbackErrorListener.go
+++ b/sttp/data/CallbackErrorListener.go
@@ -32,6 +32,8 @@ type CallbackErrorListener struct {
 
 	// ParsingExceptionCallback defines a callback for reporting ANTLR parsing exceptions.
 	ParsingExceptionCallback func(message string)
+
+	lastMessage string
 }
 
 // NewCallbackErrorListener creates a new NewCallbackErrorListener.
@@ -43,6 +45,8 @@ func NewCallbackErrorListener() *CallbackErrorListener {
 
 // SyntaxError is called when ANTLR parser encounters a syntax error.
 func (cel *CallbackErrorListener) SyntaxError(recognizer antlr.Recognizer, offendingSymbol interface{}, line, column int, msg string, e antlr.RecognitionException) {
+	cel.lastMessage = msg
+
 	if cel.ParsingExceptionCallback == nil {
 		return
 	}
diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index ca6bdfd..8073154 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -298,7 +298,13 @@ func (fep *FilterExpressionParser) visitParseTreeNodes() (err error) {
 	// Create a parse tree and start visiting listener methods
 	walker := antlr.NewParseTreeWalker()
 	fep.parser.SetInputStream(fep.tokens)
+	fep.errorListener.lastMessage = ""
 	parseTree := fep.parser.Parse()
+
+	if message := fep.errorListener.lastMessage; len(message) > 0 {
+		return errors.New("failed to parse filter expression: " + message)
+	}
+
 	walker.Walk(fep, parseTree)
 
 	return err
-- 
2.43.0


From fcb6aaa0ce31e520f608d6a965448a93f1f786e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:40 +0000
Subject: [PATCH 27/69] fix: find ID fields of the primary table regardless of
 case

---
 sttp/data/FilterExpressionParser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index 8073154..77a281e 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -260,6 +260,10 @@ func (fep *FilterExpressionParser) Evaluate(applyLimit bool, applySort bool) err
 		if fep.TrackFilteredSignalIDs {
 			primaryTableIDFields := fep.TableIDFields[table.Name()]
 
+			if primaryTableIDFields == nil && strings.EqualFold(table.Name(), fep.PrimaryTableName) {
+				primaryTableIDFields = fep.TableIDFields[fep.PrimaryTableName]
+			}
+
 			if primaryTableIDFields == nil {
 				return errors.New("failed to find ID fields record for table \"" + table.Name() + "\"")
 			}
-- 
2.43.0


From b7c35a9306888b468e87647dad648d9517bbf8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:50 +0000
Subject: [PATCH 28/69] fix: rewind tokens when a filter expression is
 evaluated again

---
 sttp/data/FilterExpressionParser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index 77a281e..240a57d 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -301,6 +301,7 @@ func (fep *FilterExpressionParser) visitParseTreeNodes() (err error) {
 
 	// Create a parse tree and start visiting listener methods
 	walker := antlr.NewParseTreeWalker()
+	fep.tokens.Seek(0)
 	fep.parser.SetInputStream(fep.tokens)
 	fep.errorListener.lastMessage = ""
 	parseTree := fep.parser.Parse()
-- 
2.43.0


From f4a4eba5b4083028dfb2d9b356ea287a80ea8d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:50 +0000
Subject: [PATCH 29/69] fix: return no rows from RowsWhere when the limit is
 zero

---
 sttp/data/DataTable.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sttp/data/DataTable.go b/sttp/data/DataTable.go
index 9f77b37..6727ca1 100644
--- a/sttp/data/DataTable.go
+++ b/sttp/data/DataTable.go
@@ -155,6 +155,10 @@ func (dt *DataTable) RowsWhere(predicate func(*DataRow) bool, limit int) []*Data
 	matchingRows := make([]*DataRow, 0)
 	count := 0
 
+	if limit == 0 {
+		return matchingRows
+	}
+
 	for i := 0; i < len(dt.rows); i++ {
 		dataRow := dt.rows[i]
 
-- 
2.43.0


From 68654814f55c7866ad925c72d76bafbe05255bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:02 +0000
Subject: [PATCH 30/69] fix: evaluate computed columns read by name

---
 sttp/data/DataRow.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 74f9977..1fbbc0c 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -503,7 +503,7 @@ func (dr *DataRow) ValueByName(columnName string) (interface{}, error) {
 		return nil, err
 	}
 
-	return dr.values[index], nil
+	return dr.Value(index)
 }
 
 // SetValue assigns the record value at the specified columnIndex.
-- 
2.43.0


From 191160a4193621e78b1f2e27cc39f10f28fdd42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:02 +0000
Subject: [PATCH 31/69] fix: report null for computed columns with a null
 expression value

---
 sttp/data/DataRow.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 1fbbc0c..388226e 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -124,6 +124,10 @@ func (dr *DataRow) getComputedValue(column *DataColumn) (interface{}, error) {
 		return nil, errors.New("failed to evaluate expression defined for computed DataColumn \"" + column.Name() + "\" for table \"" + dr.parent.Name() + "\": " + err.Error())
 	}
 
+	if sourceValue.IsNull() {
+		return nil, nil
+	}
+
 	targetType := column.Type()
 
 	switch sourceValue.ValueType() {
-- 
2.43.0


From 4a729ff7341cd0f18a9736ea4e54ea5e5017eb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:02 +0000
Subject: [PATCH 32/69] fix: report circular computed columns instead of
 recursing forever

---
 sttp/data/DataRow.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 388226e..9616492 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -28,6 +28,7 @@ import (
 	"fmt"
 	"strconv"
 	"strings"
+	"sync/atomic"
 	"time"
 
 	"github.com/araddon/dateparse"
@@ -40,8 +41,12 @@ import (
 type DataRow struct {
 	parent *DataTable
 	values []interface{}
+	depth  atomic.Int32
 }
 
+// maxComputedDepth limits nesting of computed column evaluations, see getComputedValue
+const maxComputedDepth = 1000
+
 func newDataRow(parent *DataTable) *DataRow {
 	return &DataRow{
 		parent: parent,
@@ -112,6 +117,13 @@ func (dr *DataRow) expressionTree(column *DataColumn) (*ExpressionTree, error) {
 }
 
 func (dr *DataRow) getComputedValue(column *DataColumn) (interface{}, error) {
+	// A computed column that directly or indirectly refers to itself would never complete
+	defer dr.depth.Add(-1)
+
+	if int(dr.depth.Add(1)) > dr.parent.ColumnCount()+maxComputedDepth {
+		return nil, errors.New("computed DataColumn \"" + column.Name() + "\" for table \"" + dr.parent.Name() + "\" has a circular expression")
+	}
+
 	expressionTree, err := dr.expressionTree(column)
 
 	if err != nil {
-- 
2.43.0


From 891eb0e4c69885f2389ed4be3a8bc75254c2e97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:02 +0000
Subject: [PATCH 33/69] fix: report an error for computed Decimal columns that
 are not finite

---
 sttp/data/DataRow.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 9616492..472f884 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -26,6 +26,7 @@ package data
 import (
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 	"sync/atomic"
@@ -336,6 +337,10 @@ func convertFromDouble(value float64, targetType DataTypeEnum) (interface{}, err
 	case DataType.Double:
 		return value, nil
 	case DataType.Decimal:
+		if math.IsNaN(value) || math.IsInf(value, 0) {
+			return nil, errors.New("cannot convert \"Double\" expression value that is not a finite number to \"Decimal\" column")
+		}
+
 		return decimal.NewFromFloat(value), nil
 	case DataType.Int8:
 		return int8(value), nil
-- 
2.43.0


From c7003255fd4d3db0ac5c7f410cca8f518407dd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:02 +0000
Subject: [PATCH 34/69] fix: correct inverted Boolean value of computed date
 columns

---
 sttp/data/DataRow.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 472f884..f2a63a0 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -461,7 +461,7 @@ func convertFromDateTime(value time.Time, targetType DataTypeEnum) (interface{},
 	case DataType.String:
 		return value.Format(DateTimeFormat), nil
 	case DataType.Boolean:
-		return seconds == 0, nil
+		return seconds != 0, nil
 	case DataType.DateTime:
 		return value, nil
 	case DataType.Single:
-- 
2.43.0


From 98578a6601e5f77c13fdda88152bdc91486f1038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:02 +0000
Subject: [PATCH 35/69] fix: order NaN values consistently when comparing rows

---
 sttp/data/DataRow.go | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index f2a63a0..6af2b73 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -24,6 +24,7 @@
 package data
 
 import (
+	"cmp"
 	"errors"
 	"fmt"
 	"math"
@@ -1569,15 +1570,7 @@ func CompareDataRowColumns(leftRow, rightRow *DataRow, columnIndex int, exactMat
 		rightHasValue := !rightNull && rightErr == nil
 
 		if leftHasValue && rightHasValue {
-			if leftValue < rightValue {
-				return -1, nil
-			}
-
-			if leftValue > rightValue {
-				return 1, nil
-			}
-
-			return 0, nil
+			return cmp.Compare(leftValue, rightValue), nil
 		}
 
 		return nullCompare(leftHasValue, rightHasValue), nil
@@ -1588,15 +1581,7 @@ func CompareDataRowColumns(leftRow, rightRow *DataRow, columnIndex int, exactMat
 		rightHasValue := !rightNull && rightErr == nil
 
 		if leftHasValue && rightHasValue {
-			if leftValue < rightValue {
-				return -1, nil
-			}
-
-			if leftValue > rightValue {
-				return 1, nil
-			}
-
-			return 0, nil
+			return cmp.Compare(leftValue, rightValue), nil
 		}
 
 		return nullCompare(leftHasValue, rightHasValue), nil
-- 
2.43.0


From 7881b5ce691d3f0daaf4c958b4cdd65e38054e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:02 +0000
Subject: [PATCH 36/69] fix: accept 1 as a true value in XML records

---
 sttp/data/DataSet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/DataSet.go b/sttp/data/DataSet.go
index 91d82cb..c142b10 100644
--- a/sttp/data/DataSet.go
+++ b/sttp/data/DataSet.go
@@ -293,7 +293,7 @@ func (ds *DataSet) loadRecords(root *xml.XmlNode) {
 				case DataType.String:
 					dataRow.SetValue(columnIndex, value)
 				case DataType.Boolean:
-					dataRow.SetValue(columnIndex, value == "true")
+					dataRow.SetValue(columnIndex, value == "true" || value == "1")
 				case DataType.DateTime:
 					dt, _ := time.Parse(DateTimeFormat, value)
 					dataRow.SetValue(columnIndex, dt)
-- 
2.43.0


From 68162e3552aa6f95a8507031dd42c830b553cb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:02 +0000
Subject: [PATCH 37/69] fix: load XML date values without numeric time zone

---
 sttp/data/DataSet.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sttp/data/DataSet.go b/sttp/data/DataSet.go
index c142b10..292ea52 100644
--- a/sttp/data/DataSet.go
+++ b/sttp/data/DataSet.go
@@ -295,7 +295,15 @@ func (ds *DataSet) loadRecords(root *xml.XmlNode) {
 				case DataType.Boolean:
 					dataRow.SetValue(columnIndex, value == "true" || value == "1")
 				case DataType.DateTime:
-					dt, _ := time.Parse(DateTimeFormat, value)
+					dt, err := time.Parse(DateTimeFormat, value)
+
+					if err != nil {
+						// Time zone is optional, or can be "Z"
+						if dt, err = time.Parse(time.RFC3339, value); err != nil {
+							dt, _ = time.Parse("2006-01-02T15:04:05", value)
+						}
+					}
+
 					dataRow.SetValue(columnIndex, dt)
 				case DataType.Single:
 					f32, _ := strconv.ParseFloat(value, 32)
-- 
2.43.0


From bec7550ee0ff9591d6ef155dbe6470294dc9fb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:02 +0000
Subject: [PATCH 38/69] fix: load XML integers with leading zeros as decimal
 numbers

---
 sttp/data/DataSet.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sttp/data/DataSet.go b/sttp/data/DataSet.go
index 292ea52..bfc304c 100644
--- a/sttp/data/DataSet.go
+++ b/sttp/data/DataSet.go
@@ -318,28 +318,28 @@ func (ds *DataSet) loadRecords(root *xml.XmlNode) {
 					g, _ := guid.Parse(value)
 					dataRow.SetValue(columnIndex, g)
 				case DataType.Int8:
-					i8, _ := strconv.ParseInt(value, 0, 8)
+					i8, _ := strconv.ParseInt(value, 10, 8)
 					dataRow.SetValue(columnIndex, int8(i8))
 				case DataType.Int16:
-					i16, _ := strconv.ParseInt(value, 0, 16)
+					i16, _ := strconv.ParseInt(value, 10, 16)
 					dataRow.SetValue(columnIndex, int16(i16))
 				case DataType.Int32:
-					i32, _ := strconv.ParseInt(value, 0, 32)
+					i32, _ := strconv.ParseInt(value, 10, 32)
 					dataRow.SetValue(columnIndex, int32(i32))
 				case DataType.Int64:
-					i64, _ := strconv.ParseInt(value, 0, 64)
+					i64, _ := strconv.ParseInt(value, 10, 64)
 					dataRow.SetValue(columnIndex, i64)
 				case DataType.UInt8:
-					ui8, _ := strconv.ParseUint(value, 0, 8)
+					ui8, _ := strconv.ParseUint(value, 10, 8)
 					dataRow.SetValue(columnIndex, uint8(ui8))
 				case DataType.UInt16:
-					ui16, _ := strconv.ParseUint(value, 0, 16)
+					ui16, _ := strconv.ParseUint(value, 10, 16)
 					dataRow.SetValue(columnIndex, uint16(ui16))
 				case DataType.UInt32:
-					ui32, _ := strconv.ParseUint(value, 0, 32)
+					ui32, _ := strconv.ParseUint(value, 10, 32)
 					dataRow.SetValue(columnIndex, uint32(ui32))
 				case DataType.UInt64:
-					ui64, _ := strconv.ParseUint(value, 0, 64)
+					ui64, _ := strconv.ParseUint(value, 10, 64)
 					dataRow.SetValue(columnIndex, ui64)
 				}
 			}
-- 
2.43.0


From 4fa4566b63c51d11b1d3b2115269e3aa1ab1f80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:02 +0000
Subject: [PATCH 39/69] fix: decode XML escapes in loaded record values

---
 sttp/data/DataSet.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/sttp/data/DataSet.go b/sttp/data/DataSet.go
index bfc304c..d77c3c5 100644
--- a/sttp/data/DataSet.go
+++ b/sttp/data/DataSet.go
@@ -24,6 +24,7 @@
 package data
 
 import (
+	encxml "encoding/xml"
 	"errors"
 	"strconv"
 	"strings"
@@ -287,7 +288,7 @@ func (ds *DataSet) loadRecords(root *xml.XmlNode) {
 				}
 
 				columnIndex := column.Index()
-				value := field.Value()
+				value := fieldText(&field)
 
 				switch column.Type() {
 				case DataType.String:
@@ -349,6 +350,23 @@ func (ds *DataSet) loadRecords(root *xml.XmlNode) {
 	}
 }
 
+// fieldText gets the text content of a field, i.e., with any XML escapes decoded.
+func fieldText(field *xml.XmlNode) string {
+	value := field.Value()
+
+	if !strings.ContainsAny(value, "&<") {
+		return value
+	}
+
+	var text string
+
+	if err := encxml.Unmarshal([]byte("<v>"+value+"</v>"), &text); err != nil {
+		return value
+	}
+
+	return text
+}
+
 // // WriteXML saves the DataSet information as XML into the specified buffer.
 // func (ds *DataSet) WriteXml(data *[]byte, dataSetName string) {
 // // TODO: Will be needed by DataPublisher
-- 
2.43.0


From e968b6b5573ad5aba7cec25b92eea5487497d410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:02 +0000
Subject: [PATCH 40/69] fix: load columns when schema prefix is declared
 outside of schema node

---
 sttp/data/DataSet.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sttp/data/DataSet.go b/sttp/data/DataSet.go
index d77c3c5..1653693 100644
--- a/sttp/data/DataSet.go
+++ b/sttp/data/DataSet.go
@@ -233,6 +233,9 @@ func (ds *DataSet) loadSchema(schema *xml.XmlNode) {
 
 			typeName = strings.TrimPrefix(typeName, schemaPrefix)
 
+			// Schema namespace prefix can be declared by any parent node
+			typeName = typeName[strings.LastIndexByte(typeName, ':')+1:]
+
 			// Check for extended data type (allows XSD Guid field definitions)
 			extDataType, found := fieldNode.Attributes["DataType"]
 
-- 
2.43.0


From 260e9c91d3bf1baf0b19b4986cf12012d5ece938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:11 +0000
Subject: [PATCH 41/69] fix: reject decimal text with exponents that exhaust
 memory

---
 sttp/data/DataRow.go                |  2 +-
 sttp/data/DataSet.go                |  3 +--
 sttp/data/ExpressionTree.go         |  2 +-
 sttp/data/FilterExpressionParser.go |  5 ++---
 sttp/data/ValueExpression.go        | 20 +++++++++++++++++---
 5 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 6af2b73..75dcf15 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -384,7 +384,7 @@ func convertFromString(value string, targetType DataTypeEnum) (interface{}, erro
 	case DataType.Double:
 		return strconv.ParseFloat(value, 64)
 	case DataType.Decimal:
-		return decimal.NewFromString(value)
+		return parseDecimal(value)
 	case DataType.Guid:
 		return guid.Parse(value)
 	case DataType.Int8:
diff --git a/sttp/data/DataSet.go b/sttp/data/DataSet.go
index 1653693..e95945f 100644
--- a/sttp/data/DataSet.go
+++ b/sttp/data/DataSet.go
@@ -30,7 +30,6 @@ import (
 	"strings"
 	"time"
 
-	"github.com/shopspring/decimal"
 	"github.com/sttp/goapi/sttp/guid"
 	"github.com/sttp/goapi/sttp/xml"
 )
@@ -316,7 +315,7 @@ func (ds *DataSet) loadRecords(root *xml.XmlNode) {
 					f64, _ := strconv.ParseFloat(value, 64)
 					dataRow.SetValue(columnIndex, f64)
 				case DataType.Decimal:
-					d, _ := decimal.NewFromString(value)
+					d, _ := parseDecimal(value)
 					dataRow.SetValue(columnIndex, d)
 				case DataType.Guid:
 					g, _ := guid.Parse(value)
diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 611495b..d795850 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -1957,7 +1957,7 @@ func (et *ExpressionTree) isNumeric(testValue *ValueExpression) *ValueExpression
 		}
 
 		// Fallback on testing decimal parse, also a valid numeric value
-		if _, err := decimal.NewFromString(testValue.stringValue()); err == nil {
+		if _, err := parseDecimal(testValue.stringValue()); err == nil {
 			return True
 		}
 	}
diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index 240a57d..a7d1200 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -32,7 +32,6 @@ import (
 
 	"github.com/antlr/antlr4/runtime/Go/antlr"
 	"github.com/araddon/dateparse"
-	"github.com/shopspring/decimal"
 	"github.com/sttp/goapi/sttp/data/parser"
 	"github.com/sttp/goapi/sttp/guid"
 	"github.com/sttp/goapi/sttp/hashset"
@@ -1076,7 +1075,7 @@ func (fep *FilterExpressionParser) ExitLiteralValue(context *parser.LiteralValue
 			} else {
 				result = newValueExpression(ExpressionValueType.Int32, int32(ui64))
 			}
-		} else if d, err := decimal.NewFromString(literal); err == nil {
+		} else if d, err := parseDecimal(literal); err == nil {
 			result = newValueExpression(ExpressionValueType.Decimal, d)
 		} else {
 			result = newValueExpression(ExpressionValueType.String, literal)
@@ -1116,7 +1115,7 @@ func (fep *FilterExpressionParser) ExitLiteralValue(context *parser.LiteralValue
 }
 
 func parseNumericLiteral(literal string) *ValueExpression {
-	if d, err := decimal.NewFromString(literal); err == nil {
+	if d, err := parseDecimal(literal); err == nil {
 		return newValueExpression(ExpressionValueType.Decimal, d)
 	}
 
diff --git a/sttp/data/ValueExpression.go b/sttp/data/ValueExpression.go
index 0e3a5aa..ac8623c 100644
--- a/sttp/data/ValueExpression.go
+++ b/sttp/data/ValueExpression.go
@@ -534,6 +534,20 @@ func (ve *ValueExpression) convertFromDouble(targetValueType ExpressionValueType
 	}
 }
 
+// maxDecimalExponent defines the largest decimal exponent magnitude that is accepted,
+// operations on values with much larger exponents could exhaust available memory.
+const maxDecimalExponent = 1000
+
+func parseDecimal(value string) (decimal.Decimal, error) {
+	result, err := decimal.NewFromString(value)
+
+	if err == nil && (result.Exponent() > maxDecimalExponent || result.Exponent() < -maxDecimalExponent) {
+		return decimal.Zero, errors.New("decimal value \"" + value + "\" is out of range")
+	}
+
+	return result, err
+}
+
 func (ve *ValueExpression) convertFromString(targetValueType ExpressionValueTypeEnum) (*ValueExpression, error) {
 	value := ve.stringValue()
 
@@ -542,15 +556,15 @@ func (ve *ValueExpression) convertFromString(targetValueType ExpressionValueType
 		targetValue, _ := strconv.ParseBool(value)
 		return newValueExpression(targetValueType, targetValue), nil
 	case ExpressionValueType.Int32:
-		decimalValue, _ := decimal.NewFromString(value)
+		decimalValue, _ := parseDecimal(value)
 		targetValue := decimalValue.IntPart()
 		return newValueExpression(targetValueType, int32(targetValue)), nil
 	case ExpressionValueType.Int64:
-		decimalValue, _ := decimal.NewFromString(value)
+		decimalValue, _ := parseDecimal(value)
 		targetValue := decimalValue.IntPart()
 		return newValueExpression(targetValueType, targetValue), nil
 	case ExpressionValueType.Decimal:
-		targetValue, _ := decimal.NewFromString(value)
+		targetValue, _ := parseDecimal(value)
 		return newValueExpression(targetValueType, targetValue), nil
 	case ExpressionValueType.Double:
 		targetValue, _ := strconv.ParseFloat(value, 64)
-- 
2.43.0


From 576aec95988e9e45e1b8c1f5b25b19d75a82f09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:26 +0000
Subject: [PATCH 42/69] fix: read integer literals with leading zeros as
 decimal numbers

---
 sttp/data/FilterExpressionParser.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index a7d1200..448cdae 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -1060,14 +1060,19 @@ func (fep *FilterExpressionParser) ExitLiteralValue(context *parser.LiteralValue
 	// Literal numeric values will not be negative, unary operators will handle negative values
 	if integerLiteral := context.INTEGER_LITERAL(); integerLiteral != nil {
 		literal := integerLiteral.GetText()
+		base := 10 // Leading zeros do not make an octal value
 
-		if i64, err := strconv.ParseInt(literal, 0, 64); err == nil {
+		if strings.HasPrefix(literal, "0x") || strings.HasPrefix(literal, "0X") {
+			base = 0
+		}
+
+		if i64, err := strconv.ParseInt(literal, base, 64); err == nil {
 			if i64 > math.MaxInt32 {
 				result = newValueExpression(ExpressionValueType.Int64, i64)
 			} else {
 				result = newValueExpression(ExpressionValueType.Int32, int32(i64))
 			}
-		} else if ui64, err := strconv.ParseUint(literal, 0, 64); err == nil {
+		} else if ui64, err := strconv.ParseUint(literal, base, 64); err == nil {
 			if ui64 > math.MaxInt64 {
 				result = parseNumericLiteral(literal)
 			} else if ui64 > math.MaxInt32 {
-- 
2.43.0


From 73cbab063b3f1b1d036a84506a3b9d292f9f2797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:03:16 +0000
Subject: [PATCH 43/69] fix: detect circular computed columns sooner

---
 sttp/data/DataRow.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 75dcf15..be4d2d3 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -47,7 +47,7 @@ type DataRow struct {
 }
 
 // maxComputedDepth limits nesting of computed column evaluations, see getComputedValue
-const maxComputedDepth = 1000
+const maxComputedDepth = 100
 
 func newDataRow(parent *DataTable) *DataRow {
 	return &DataRow{
-- 
2.43.0


From d4de574a18fc08b4cfbafb4dc34b1a0706873f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:20 +0000
Subject: [PATCH 44/69] fix: mark a thread as running when it is started so
 that join waits for it

---
 sttp/thread/Thread.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sttp/thread/Thread.go b/sttp/thread/Thread.go
index 9bba841..d6f0993 100644
--- a/sttp/thread/Thread.go
+++ b/sttp/thread/Thread.go
@@ -47,7 +47,8 @@ func (thread *Thread) Start() {
 		panic("thread has no execution function defined")
 	}
 
-	if thread.running.IsSet() {
+	// Thread is considered running from the moment it has been scheduled
+	if !thread.running.SetToIf(false, true) {
 		panic("thread is already running")
 	}
 
@@ -88,9 +89,8 @@ func (thread *Thread) IsRunning() bool {
 }
 
 func (thread *Thread) run() {
-	defer thread.running.UnSet()
 	defer thread.mutex.Unlock()
+	defer thread.running.UnSet()
 
-	thread.running.Set()
 	thread.exec()
 }
-- 
2.43.0


From 761e8cea82df5423a9c5a327fbc0dfcb032b7592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:47 +0000
Subject: [PATCH 45/69] fix: serialize server commands and support large
 command payloads

---
 sttp/transport/DataSubscriber.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 97c6f99..3387b48 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -63,6 +63,7 @@ type DataSubscriber struct {
 	readBuffer                   []byte
 	reader                       *bufio.Reader
 	writeBuffer                  []byte
+	writeMutex                   sync.Mutex
 	dataChannelSocket            net.Conn
 	dataChannelResponseThread    *thread.Thread
 	connectionID                 string
@@ -1501,11 +1502,14 @@ func (ds *DataSubscriber) SendServerCommandWithPayload(commandCode ServerCommand
 		return
 	}
 
+	// Commands can be sent from multiple threads at the same time
+	ds.writeMutex.Lock()
+
 	var packetSize uint32 = uint32(len(data)) + 1
 	var commandBufferSize uint32 = packetSize + payloadHeaderSize
 
-	if int(commandBufferSize) > cap(ds.writeBuffer) {
-		ds.writeBuffer = ds.writeBuffer[:commandBufferSize]
+	if int(commandBufferSize) > len(ds.writeBuffer) {
+		ds.writeBuffer = make([]byte, commandBufferSize)
 	}
 
 	// Insert packet size
@@ -1525,7 +1529,10 @@ func (ds *DataSubscriber) SendServerCommandWithPayload(commandCode ServerCommand
 		ds.metadataRequested = time.Now()
 	}
 
-	if _, err := ds.commandChannelSocket.Write(ds.writeBuffer[:commandBufferSize]); err != nil {
+	_, err := ds.commandChannelSocket.Write(ds.writeBuffer[:commandBufferSize])
+	ds.writeMutex.Unlock()
+
+	if err != nil {
 		// Write error, connection may have been closed by peer; terminate connection
 		ds.dispatchErrorMessage("Failed to send server command - disconnecting: " + err.Error())
 		ds.dispatchConnectionTerminated()
-- 
2.43.0


From 4274ba49874190b3acc6b44ee9dc9129ca381fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:47 +0000
Subject: [PATCH 46/69] fix: add missing equals sign to requestNaNValueFilter
 subscription parameter

---
 sttp/transport/DataSubscriber.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 3387b48..d796df1 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -493,7 +493,7 @@ func (ds *DataSubscriber) Subscribe() error {
 	parameterBuilder.WriteString(strconv.FormatInt(int64(ds.subscription.ProcessingInterval), 10))
 	parameterBuilder.WriteString(";useMillisecondResolution=")
 	parameterBuilder.WriteString(strconv.FormatBool(ds.subscription.UseMillisecondResolution))
-	parameterBuilder.WriteString(";requestNaNValueFilter")
+	parameterBuilder.WriteString(";requestNaNValueFilter=")
 	parameterBuilder.WriteString(strconv.FormatBool(ds.subscription.RequestNaNValueFilter))
 	parameterBuilder.WriteString(";assemblyInfo={source=")
 	parameterBuilder.WriteString(ds.STTPSourceInfo)
-- 
2.43.0


From daf5d5f1aaa926c0f73d95c3d0a1798209101024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:47 +0000
Subject: [PATCH 47/69] fix: return the shared metadata record when lookups of
 a new signal race

---
 sttp/transport/DataSubscriber.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index d796df1..0046156 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -294,7 +294,7 @@ func (ds *DataSubscriber) LookupMetadata(signalID guid.Guid) *MeasurementMetadat
 			Multiplier: 1.0,
 		}
 		// Continue using LoadOrStore on failure to avoid racing another thread
-		ds.measurementRegistry.LoadOrStore(signalID, metadata)
+		metadata, _ = ds.measurementRegistry.LoadOrStore(signalID, metadata)
 	}
 	return metadata.(*MeasurementMetadata)
 }
@@ -378,7 +378,10 @@ func (ds *DataSubscriber) setupConnection() {
 
 	ds.keyIVs = nil
 	ds.bufferBlockExpectedSequenceNumber = 0
-	ds.measurementRegistry = sync.Map{}
+	ds.measurementRegistry.Range(func(signalID, _ any) bool {
+		ds.measurementRegistry.Delete(signalID)
+		return true
+	})
 }
 
 func (ds *DataSubscriber) establishConnection(connection net.Conn, listening bool) {
-- 
2.43.0


From 26c096433dbaa85e638cdc33800317d5a635a73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:47 +0000
Subject: [PATCH 48/69] fix: copy uncompressed metadata before handing it to
 the receiver

---
 sttp/transport/DataSubscriber.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 0046156..7a9d743 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -1028,6 +1028,11 @@ func (ds *DataSubscriber) handleMetadataRefresh(data []byte) {
 			ds.dispatchStatusMessage(fmt.Sprintf("Received %s bytes of metadata in %s seconds. Parsing...", format.Int(len(data)), format.Float(time.Since(ds.metadataRequested).Seconds(), 3)))
 		}
 
+		if !ds.CompressMetadata {
+			// Data is a view into the read buffer which will be reused for the next response
+			data = append([]byte(nil), data...)
+		}
+
 		go metadataReceivedCallback(data)
 	}
 }
-- 
2.43.0


From 60a50df08e91d22d4166e62eb3a9b7a2edbea40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:16:34 +0000
Subject: [PATCH 49/69] fix: publish only measurements that were parsed from a
 data packet

---
 sttp/transport/DataSubscriber.go | 77 ++++++++++++++++++++++----------
 1 file changed, 54 insertions(+), 23 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 7a9d743..4a5fec7 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -1199,6 +1199,12 @@ func (ds *DataSubscriber) handleConfigurationChanged() {
 }
 
 func (ds *DataSubscriber) handleDataPacket(data []byte) {
+	if len(data) < 1 {
+		ds.dispatchErrorMessage("Failed to parse data packet - disconnecting: not enough buffer provided to parse")
+		ds.dispatchConnectionTerminated()
+		return
+	}
+
 	dataPacketFlags := DataPacketFlagsEnum(data[0])
 	compressed := dataPacketFlags&DataPacketFlags.Compressed > 0
 	compact := dataPacketFlags&DataPacketFlags.Compact > 0
@@ -1230,18 +1236,20 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 		}
 	}
 
+	if len(data) < 4 {
+		ds.dispatchErrorMessage("Failed to parse data packet - disconnecting: not enough buffer provided to parse")
+		ds.dispatchConnectionTerminated()
+		return
+	}
+
 	count := binary.BigEndian.Uint32(data)
 	var measurements *[]Measurement
 	if mptr := ds.MeasurementPool.Get(); mptr == nil {
-		m := make([]Measurement, count)
+		m := make([]Measurement, 0, min(int64(count), int64(len(data))))
 		measurements = &m
 	} else {
 		measurements = mptr.(*[]Measurement)
-		if uint32(cap(*measurements)) < count {
-			*measurements = make([]Measurement, count)
-		} else {
-			*measurements = (*measurements)[:count]
-		}
+		*measurements = (*measurements)[:0]
 	}
 	var cacheIndex int
 
@@ -1253,12 +1261,23 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 	signalIndexCache := ds.signalIndexCache[cacheIndex]
 	ds.signalIndexCacheMutex.Unlock()
 
+	var parsed bool
+
 	if compressed {
-		ds.parseTSSCMeasurements(signalIndexCache, data[4:], *measurements)
+		parsed = ds.parseTSSCMeasurements(signalIndexCache, data[4:], count, measurements)
 	} else {
-		ds.parseCompactMeasurements(signalIndexCache, data[4:], *measurements)
+		parsed = ds.parseCompactMeasurements(signalIndexCache, data[4:], count, measurements)
 	}
 
+	// Nothing to publish when packet was ignored or could not be parsed
+	if !parsed {
+		*measurements = (*measurements)[:0]
+		ds.MeasurementPool.Put(measurements)
+		return
+	}
+
+	received := uint64(len(*measurements))
+
 	ds.BeginCallbackSync()
 
 	if ds.NewMeasurementsCallback != nil {
@@ -1269,10 +1288,10 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 
 	ds.EndCallbackSync()
 
-	atomic.AddUint64(&ds.totalMeasurementsReceived, uint64(count))
+	atomic.AddUint64(&ds.totalMeasurementsReceived, received)
 }
 
-func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCache, data []byte, measurements []Measurement) {
+func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCache, data []byte, count uint32, measurements *[]Measurement) bool {
 	decoder := signalIndexCache.tsscDecoder
 	var newDecoder bool
 
@@ -1284,10 +1303,16 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 		newDecoder = true
 	}
 
+	if len(data) < 3 {
+		ds.dispatchErrorMessage("Failed to parse TSSC measurements - disconnecting: not enough buffer provided to parse")
+		ds.dispatchConnectionTerminated()
+		return false
+	}
+
 	if data[0] != 85 {
 		ds.dispatchErrorMessage("TSSC version not recognized - disconnecting. Received version: " + strconv.Itoa(int(data[0])))
 		ds.dispatchConnectionTerminated()
-		return
+		return false
 	}
 
 	sequenceNumber := binary.BigEndian.Uint16(data[1:])
@@ -1322,7 +1347,7 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 		}
 
 		// Ignore packets until the reset has occurred
-		return
+		return false
 	}
 
 	decoder.SetBuffer(data[3:])
@@ -1334,25 +1359,27 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 	var err error
 
 	ok := true
-	index := 0
 
 	for ok {
 		if ok, err = decoder.TryGetMeasurement(&id, &timestamp, &stateFlags, &value); ok {
-			measurements[index] = Measurement{
+			if uint32(len(*measurements)) >= count {
+				err = errors.New("packet contains more measurements than expected")
+				break
+			}
+
+			*measurements = append(*measurements, Measurement{
 				SignalID:  signalIndexCache.SignalID(id),
 				Value:     float64(value),
 				Timestamp: ticks.Ticks(timestamp),
 				Flags:     StateFlagsEnum(stateFlags),
-			}
-
-			index++
+			})
 		}
 	}
 
 	if err != nil {
 		ds.dispatchErrorMessage("Failed to parse TSSC measurements - disconnecting: " + err.Error())
 		ds.dispatchConnectionTerminated()
-		return
+		return false
 	}
 
 	decoder.SequenceNumber++
@@ -1361,9 +1388,11 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 	if decoder.SequenceNumber == 0 {
 		decoder.SequenceNumber = 1
 	}
+
+	return true
 }
 
-func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndexCache, data []byte, measurements []Measurement) {
+func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndexCache, data []byte, count uint32, measurements *[]Measurement) bool {
 	if signalIndexCache.Count() == 0 {
 		if ds.lastMissingCacheWarning+missingCacheWarningInterval < ticks.UtcNow() {
 			// Warning message for missing signal index cache
@@ -1374,14 +1403,14 @@ func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndex
 			ds.lastMissingCacheWarning = ticks.UtcNow()
 		}
 
-		return
+		return false
 	}
 
 	useMillisecondResolution := ds.subscription.UseMillisecondResolution
 	includeTime := ds.subscription.IncludeTime
 	index := 0
 
-	for i := 0; i < len(measurements); i++ {
+	for i := uint32(0); i < count; i++ {
 		// Deserialize compact measurement format
 		compactMeasurement := NewCompactMeasurement(signalIndexCache, includeTime, useMillisecondResolution, &ds.baseTimeOffsets)
 		bytesDecoded, err := compactMeasurement.Decode(data[index:])
@@ -1389,12 +1418,14 @@ func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndex
 		if err != nil {
 			ds.dispatchErrorMessage("Failed to parse compact measurements - disconnecting: " + err.Error())
 			ds.dispatchConnectionTerminated()
-			return
+			return false
 		}
 
 		index += bytesDecoded
-		measurements[i] = compactMeasurement.Measurement
+		*measurements = append(*measurements, compactMeasurement.Measurement)
 	}
+
+	return true
 }
 
 func (ds *DataSubscriber) handleBufferBlock(data []byte) {
-- 
2.43.0


From e8988974f2c7c7b4efbfcbf09a57d3171bf400ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:17:22 +0000
Subject: [PATCH 50/69] fix: report an error when a compact measurement
 timestamp is cut short

---
 sttp/transport/CompactMeasurement.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sttp/transport/CompactMeasurement.go b/sttp/transport/CompactMeasurement.go
index ab48e2a..c8aad25 100644
--- a/sttp/transport/CompactMeasurement.go
+++ b/sttp/transport/CompactMeasurement.go
@@ -275,6 +275,20 @@ func (cm *CompactMeasurement) Decode(buffer []byte) (int, error) {
 		return index, nil
 	}
 
+	timeLength := 8
+
+	if cm.usingBaseTimeOffset {
+		if cm.useMillisecondResolution {
+			timeLength = 2
+		} else {
+			timeLength = 4
+		}
+	}
+
+	if len(buffer) < index+timeLength {
+		return 0, errors.New("not enough buffer available to deserialize compact measurement")
+	}
+
 	if cm.usingBaseTimeOffset {
 		baseTimeOffset := cm.baseTimeOffsets[cm.timeIndex]
 
-- 
2.43.0


From eb14ef94d339f2fbae314bb19ce8f9c917d8552e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:17:22 +0000
Subject: [PATCH 51/69] fix: check sizes of received server responses before
 parsing them

---
 sttp/transport/Common.go           |  9 +++++
 sttp/transport/DataSubscriber.go   | 65 ++++++++++++++++++++++++++----
 sttp/transport/SignalIndexCache.go | 16 +++++++-
 3 files changed, 81 insertions(+), 9 deletions(-)

diff --git a/sttp/transport/Common.go b/sttp/transport/Common.go
index b4e5e41..46434c4 100644
--- a/sttp/transport/Common.go
+++ b/sttp/transport/Common.go
@@ -28,6 +28,7 @@ import (
 	"compress/gzip"
 	"crypto/aes"
 	"crypto/cipher"
+	"errors"
 	"io"
 	"net"
 	"strings"
@@ -41,6 +42,14 @@ func decipherAES(key, iv, data []byte) ([]byte, error) {
 		return nil, err
 	}
 
+	if len(iv) != block.BlockSize() {
+		return nil, errors.New("invalid initialization vector size")
+	}
+
+	if len(data)%block.BlockSize() != 0 {
+		return nil, errors.New("data size is not a multiple of the block size")
+	}
+
 	mode := cipher.NewCBCDecrypter(block, iv)
 	out := make([]byte, len(data))
 	mode.CryptBlocks(out, data)
diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 4a5fec7..54af034 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -850,14 +850,28 @@ func (ds *DataSubscriber) readPayloadHeader(bytesTransferred int, err error) {
 		}
 	}
 
-	if int(packetSize) > cap(ds.readBuffer) {
-		ds.readBuffer = make([]byte, packetSize)
-	}
-
 	// Read packet (payload body)
 	// This read method is guaranteed not to return until the
 	// requested size has been read or an error has occurred.
-	ds.readPacket(io.ReadFull(ds.reader, ds.readBuffer[:packetSize]))
+	ds.readPacket(ds.readPayload(packetSize))
+}
+
+// Reads payload body into read buffer, buffer grows with received data so
+// that a bogus packet size does not cause a large allocation by itself.
+func (ds *DataSubscriber) readPayload(packetSize uint32) (int, error) {
+	bytesTransferred := 0
+
+	for {
+		length := min(int(packetSize), len(ds.readBuffer))
+		count, err := io.ReadFull(ds.reader, ds.readBuffer[bytesTransferred:length])
+		bytesTransferred += count
+
+		if err != nil || bytesTransferred == int(packetSize) {
+			return bytesTransferred, err
+		}
+
+		ds.readBuffer = append(ds.readBuffer, make([]byte, len(ds.readBuffer))...)
+	}
 }
 
 func (ds *DataSubscriber) readPacket(bytesTransferred int, err error) {
@@ -900,7 +914,17 @@ func (ds *DataSubscriber) runDataChannelResponseThread() {
 	}
 }
 
+func (ds *DataSubscriber) dispatchMalformedResponse(responseCode ServerResponseEnum) {
+	ds.dispatchErrorMessage("Received malformed server response, ignoring: " + responseCode.String() + " from \"" + ds.connectionID + "\"")
+}
+
 func (ds *DataSubscriber) processServerResponse(buffer []byte) {
+	if len(buffer) < responseHeaderSize {
+		ds.dispatchErrorMessage("Received server response that is too short from \"" + ds.connectionID + "\", disconnecting.")
+		ds.dispatchConnectionTerminated()
+		return
+	}
+
 	// Note: internal payload size at buffer[2:6] ignored - future versions of STTP will likely exclude this
 	data := buffer[responseHeaderSize:]
 	responseCode := ServerResponseEnum(buffer[0])
@@ -1038,6 +1062,11 @@ func (ds *DataSubscriber) handleMetadataRefresh(data []byte) {
 }
 
 func (ds *DataSubscriber) handleDataStartTime(data []byte) {
+	if len(data) < 8 {
+		ds.dispatchMalformedResponse(ServerResponse.DataStartTime)
+		return
+	}
+
 	ds.BeginCallbackSync()
 
 	if ds.DataStartTimeCallback != nil {
@@ -1060,7 +1089,8 @@ func (ds *DataSubscriber) handleProcessingComplete(data []byte) {
 }
 
 func (ds *DataSubscriber) handleUpdateSignalIndexCache(data []byte) {
-	if data == nil {
+	if len(data) == 0 {
+		ds.dispatchMalformedResponse(ServerResponse.UpdateSignalIndexCache)
 		return
 	}
 
@@ -1112,7 +1142,8 @@ func (ds *DataSubscriber) handleUpdateSignalIndexCache(data []byte) {
 }
 
 func (ds *DataSubscriber) handleUpdateBaseTimes(data []byte) {
-	if data == nil {
+	if len(data) < 20 {
+		ds.dispatchMalformedResponse(ServerResponse.UpdateBaseTimes)
 		return
 	}
 
@@ -1144,6 +1175,21 @@ func (ds *DataSubscriber) handleUpdateCipherKeys(data []byte) {
 	// Move past active cipher index (not currently used anywhere else)
 	var index uint32 = 1
 
+	// Make sure all sizes and buffers are available before reading them
+	for i, position := 0, uint64(index); i < 4; i++ {
+		if position+4 > uint64(len(data)) {
+			ds.dispatchMalformedResponse(ServerResponse.UpdateCipherKeys)
+			return
+		}
+
+		position += 4 + uint64(binary.BigEndian.Uint32(data[position:]))
+
+		if position > uint64(len(data)) {
+			ds.dispatchMalformedResponse(ServerResponse.UpdateCipherKeys)
+			return
+		}
+	}
+
 	// Read even key size
 	bufferLen := binary.BigEndian.Uint32(data[index:])
 	index += 4
@@ -1508,6 +1554,11 @@ func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 }
 
 func (ds *DataSubscriber) handleNotification(data []byte) {
+	if len(data) < 4 {
+		ds.dispatchMalformedResponse(ServerResponse.Notify)
+		return
+	}
+
 	// Skip the 4-byte hash and decode notification message
 	message := ds.DecodeString(data[4:])
 
diff --git a/sttp/transport/SignalIndexCache.go b/sttp/transport/SignalIndexCache.go
index 305d584..c142aa9 100644
--- a/sttp/transport/SignalIndexCache.go
+++ b/sttp/transport/SignalIndexCache.go
@@ -182,10 +182,12 @@ func (sic *SignalIndexCache) decode(ds *DataSubscriber, buffer []byte, subscribe
 		return errors.New("not enough buffer provided to parse")
 	}
 
-	var err error
+	if length < 24 {
+		return errors.New("not enough buffer provided to parse")
+	}
 
 	// Subscriber ID
-	*subscriberID, err = guid.FromBytes(buffer[offset:], ds.SwapGuidEndianness)
+	newSubscriberID, err := guid.FromBytes(buffer[offset:], ds.SwapGuidEndianness)
 
 	if err != nil {
 		return errors.New("failed to parse SubscriberID: " + err.Error())
@@ -200,6 +202,10 @@ func (sic *SignalIndexCache) decode(ds *DataSubscriber, buffer []byte, subscribe
 	var i uint32
 
 	for i = 0; i < referenceCount; i++ {
+		if length-offset < 24 {
+			return errors.New("not enough buffer provided to parse")
+		}
+
 		// Signal index
 		signalIndex := int32(binary.BigEndian.Uint32(buffer[offset:]))
 		offset += 4
@@ -217,6 +223,10 @@ func (sic *SignalIndexCache) decode(ds *DataSubscriber, buffer []byte, subscribe
 		sourceSize := binary.BigEndian.Uint32(buffer[offset:])
 		offset += 4
 
+		if uint64(length-offset) < uint64(sourceSize)+8 {
+			return errors.New("not enough buffer provided to parse")
+		}
+
 		source := ds.DecodeString(buffer[offset : offset+sourceSize])
 		offset += sourceSize
 
@@ -230,6 +240,8 @@ func (sic *SignalIndexCache) decode(ds *DataSubscriber, buffer []byte, subscribe
 	// There is additional data here about unauthorized signal IDs
 	// that may need to be parsed in the future...
 
+	*subscriberID = newSubscriberID
+
 	return nil
 }
 
-- 
2.43.0


From 9b7dba1557df065259daaef19d49adb8653444ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:17:22 +0000
Subject: [PATCH 52/69] fix: publish buffer block contents and cache out of
 order blocks by sequence number

---
 sttp/transport/DataSubscriber.go | 52 ++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 54af034..ee006f5 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -166,7 +166,7 @@ type DataSubscriber struct {
 	MeasurementPool sync.Pool
 
 	bufferBlockExpectedSequenceNumber uint32
-	bufferBlockCache                  []BufferBlock
+	bufferBlockCache                  map[uint32]BufferBlock
 }
 
 // NewDataSubscriber creates a new DataSubscriber.
@@ -378,6 +378,7 @@ func (ds *DataSubscriber) setupConnection() {
 
 	ds.keyIVs = nil
 	ds.bufferBlockExpectedSequenceNumber = 0
+	ds.bufferBlockCache = make(map[uint32]BufferBlock)
 	ds.measurementRegistry.Range(func(signalID, _ any) bool {
 		ds.measurementRegistry.Delete(signalID)
 		return true
@@ -1475,9 +1476,21 @@ func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndex
 }
 
 func (ds *DataSubscriber) handleBufferBlock(data []byte) {
+	headerSize := 8
+
+	if ds.Version > 1 {
+		headerSize = 9
+	}
+
+	if len(data) < headerSize {
+		ds.dispatchMalformedResponse(ServerResponse.BufferBlock)
+		return
+	}
+
 	// Buffer block received - wrap as a BufferBlockMeasurement and expose back to consumer
 	sequenceNumber := binary.BigEndian.Uint32(data)
-	bufferCacheIndex := int(sequenceNumber - ds.bufferBlockExpectedSequenceNumber)
+	bufferCacheIndex := int32(sequenceNumber - ds.bufferBlockExpectedSequenceNumber)
+	_, cached := ds.bufferBlockCache[sequenceNumber]
 	var signalIndexCacheIndex int32
 
 	if ds.Version > 1 && data[4:][0] > 0 {
@@ -1485,7 +1498,7 @@ func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 	}
 
 	// Check if this buffer block has already been processed (e.g., mistaken retransmission due to timeout)
-	if bufferCacheIndex >= 0 && (bufferCacheIndex >= len(ds.bufferBlockCache) || ds.bufferBlockCache[bufferCacheIndex].Buffer == nil) {
+	if bufferCacheIndex >= 0 && !cached {
 		// Send confirmation that buffer block is received
 		ds.SendServerCommandWithPayload(ServerCommand.ConfirmBufferBlock, data[:4])
 
@@ -1503,32 +1516,30 @@ func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 		ds.signalIndexCacheMutex.Unlock()
 
 		signalID := signalIndexCache.SignalID(signalIndex)
-		bufferBlockMeasurement := BufferBlock{SignalID: signalID}
+
+		// Copy buffer since data is a view into the read buffer which will be reused for the next response
+		bufferBlockMeasurement := BufferBlock{SignalID: signalID, Buffer: append([]byte{}, data[4:]...)}
 
 		// Determine if this is the next buffer block in the sequence
 		if sequenceNumber == ds.bufferBlockExpectedSequenceNumber {
-			bufferBlockMeasurements := make([]BufferBlock, 1+len(ds.bufferBlockCache))
-			var i int
-
 			// Add the buffer block measurement to the list of measurements to be published
-			bufferBlockMeasurements[0] = bufferBlockMeasurement
+			bufferBlockMeasurements := []BufferBlock{bufferBlockMeasurement}
 			ds.bufferBlockExpectedSequenceNumber++
 
 			// Add cached buffer block measurements to the list of measurements to be published
-			for i = 1; i < len(ds.bufferBlockCache); i++ {
-				if ds.bufferBlockCache[i].Buffer == nil {
+			// and remove them from the buffer block cache
+			for {
+				cachedMeasurement, ok := ds.bufferBlockCache[ds.bufferBlockExpectedSequenceNumber]
+
+				if !ok {
 					break
 				}
 
-				bufferBlockMeasurements[i] = ds.bufferBlockCache[i]
+				bufferBlockMeasurements = append(bufferBlockMeasurements, cachedMeasurement)
+				delete(ds.bufferBlockCache, ds.bufferBlockExpectedSequenceNumber)
 				ds.bufferBlockExpectedSequenceNumber++
 			}
 
-			// Remove published buffer block measurements from the buffer block queue
-			if len(ds.bufferBlockCache) > 0 {
-				ds.bufferBlockCache = ds.bufferBlockCache[i:]
-			}
-
 			// Publish buffer block measurements
 			ds.BeginCallbackSync()
 
@@ -1540,15 +1551,10 @@ func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 
 			ds.EndCallbackSync()
 		} else {
-			// Ensure that the list has at least as many elements as it needs to cache this measurement.
+			// Cache this buffer block until its predecessors have been received.
 			// This edge case handles possible dropouts and/or out of order packet deliver when data
 			// transport is UDP - this use case is not expected when using a TCP only connection.
-			for i := len(ds.bufferBlockCache); i <= bufferCacheIndex; i++ {
-				ds.bufferBlockCache = append(ds.bufferBlockCache, BufferBlock{})
-			}
-
-			// Insert this buffer block into the proper location in the list
-			ds.bufferBlockCache[bufferCacheIndex] = bufferBlockMeasurement
+			ds.bufferBlockCache[sequenceNumber] = bufferBlockMeasurement
 		}
 	}
 }
-- 
2.43.0


From c59d3719207d8c119a09f000ea91796e3dc717c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:10 +0000
Subject: [PATCH 53/69] fix: do not hold the callback lock while application
 callbacks execute and make logger changes effective

---
 sttp/Subscriber.go                    | 73 ++++++++++----------
 sttp/transport/DataSubscriber.go      | 96 +++++++++++++--------------
 sttp/transport/SubscriberConnector.go | 16 ++---
 3 files changed, 93 insertions(+), 92 deletions(-)

diff --git a/sttp/Subscriber.go b/sttp/Subscriber.go
index 91c01b1..0698b5a 100644
--- a/sttp/Subscriber.go
+++ b/sttp/Subscriber.go
@@ -244,9 +244,9 @@ func (sb *Subscriber) connect(hostname string, port uint16) error {
 	sb.beginCallbackSync()
 
 	// Register direct Subscriber callbacks
-	con.ErrorMessageCallback = sb.errorMessageLogger
-	ds.StatusMessageCallback = sb.statusMessageLogger
-	ds.ErrorMessageCallback = sb.errorMessageLogger
+	con.ErrorMessageCallback = sb.ErrorMessage
+	ds.StatusMessageCallback = sb.StatusMessage
+	ds.ErrorMessageCallback = sb.ErrorMessage
 
 	// Register callbacks with intermediate handlers
 	con.ReconnectCallback = sb.handleReconnect
@@ -330,8 +330,8 @@ func (sb *Subscriber) listen(port uint16, networkInterface string) error {
 	sb.beginCallbackSync()
 
 	// Register direct Subscriber callbacks
-	ds.StatusMessageCallback = sb.statusMessageLogger
-	ds.ErrorMessageCallback = sb.errorMessageLogger
+	ds.StatusMessageCallback = sb.StatusMessage
+	ds.ErrorMessageCallback = sb.ErrorMessage
 
 	// Register callbacks with intermediate handlers
 	ds.ConnectionEstablishedCallback = sb.handleConnect
@@ -465,36 +465,36 @@ func (sb *Subscriber) endCallbackAssignment() {
 // StatusMessage executes the defined status message logger callback.
 func (sb *Subscriber) StatusMessage(message string) {
 	sb.beginCallbackSync()
+	statusMessageLogger := sb.statusMessageLogger
+	sb.endCallbackSync()
 
-	if sb.statusMessageLogger != nil {
-		sb.statusMessageLogger(message)
+	if statusMessageLogger != nil {
+		statusMessageLogger(message)
 	}
-
-	sb.endCallbackSync()
 }
 
 // ErrorMessage executes the defined error message logger callback.
 func (sb *Subscriber) ErrorMessage(message string) {
 	sb.beginCallbackSync()
+	errorMessageLogger := sb.errorMessageLogger
+	sb.endCallbackSync()
 
-	if sb.errorMessageLogger != nil {
-		sb.errorMessageLogger(message)
+	if errorMessageLogger != nil {
+		errorMessageLogger(message)
 	}
-
-	sb.endCallbackSync()
 }
 
 // Intermediate callback handlers:
 
 func (sb *Subscriber) handleConnect() {
 	sb.beginCallbackSync()
+	connectionEstablishedReceiver := sb.connectionEstablishedReceiver
+	sb.endCallbackSync()
 
-	if sb.connectionEstablishedReceiver != nil {
-		sb.connectionEstablishedReceiver()
+	if connectionEstablishedReceiver != nil {
+		connectionEstablishedReceiver()
 	}
 
-	sb.endCallbackSync()
-
 	// If automatically parsing metadata, request metadata upon successful connection,
 	// after metadata is received the SubscriberInstance will then initiate subscribe;
 	// otherwise, subscribe is initiated immediately (when auto subscribe requested)
@@ -528,13 +528,13 @@ func (sb *Subscriber) handleMetadataReceived(metadata []byte) {
 	sb.showMetadataSummary(dataSet, parseStarted)
 
 	sb.beginCallbackSync()
+	metadataReceiver := sb.metadataReceiver
+	sb.endCallbackSync()
 
-	if sb.metadataReceiver != nil {
-		sb.metadataReceiver(dataSet)
+	if metadataReceiver != nil {
+		metadataReceiver(dataSet)
 	}
 
-	sb.endCallbackSync()
-
 	if sb.config.AutoRequestMetadata && sb.config.AutoSubscribe {
 		sb.dataSubscriber().Subscribe()
 	}
@@ -653,23 +653,23 @@ func (sb *Subscriber) showMetadataSummary(dataSet *data.DataSet, parseStarted ti
 
 func (sb *Subscriber) handleDataStartTime(startTime ticks.Ticks) {
 	sb.beginCallbackSync()
+	dataStartTimeReceiver := sb.dataStartTimeReceiver
+	sb.endCallbackSync()
 
-	if sb.dataStartTimeReceiver != nil {
-		sb.dataStartTimeReceiver(startTime.ToTime())
+	if dataStartTimeReceiver != nil {
+		dataStartTimeReceiver(startTime.ToTime())
 	}
-
-	sb.endCallbackSync()
 }
 
 func (sb *Subscriber) handleConfigurationChanged() {
 	sb.beginCallbackSync()
+	configurationChangedReceiver := sb.configurationChangedReceiver
+	sb.endCallbackSync()
 
-	if sb.configurationChangedReceiver != nil {
-		sb.configurationChangedReceiver()
+	if configurationChangedReceiver != nil {
+		configurationChangedReceiver()
 	}
 
-	sb.endCallbackSync()
-
 	if sb.config.AutoRequestMetadata {
 		sb.RequestMetadata()
 	}
@@ -679,12 +679,12 @@ func (sb *Subscriber) handleProcessingComplete(message string) {
 	sb.StatusMessage(message)
 
 	sb.beginCallbackSync()
+	historicalReadCompleteReceiver := sb.historicalReadCompleteReceiver
+	sb.endCallbackSync()
 
-	if sb.historicalReadCompleteReceiver != nil {
-		sb.historicalReadCompleteReceiver()
+	if historicalReadCompleteReceiver != nil {
+		historicalReadCompleteReceiver()
 	}
-
-	sb.endCallbackSync()
 }
 
 // DefaultStatusMessageLogger implements the default handler for the statusMessage callback.
@@ -754,10 +754,11 @@ func (sb *Subscriber) SetMetadataReceiver(callback func(dataSet *data.DataSet))
 // SignalIndexCache has been received.
 // Assignment will take effect immediately, even while subscription is active.
 func (sb *Subscriber) SetSubscriptionUpdatedReceiver(callback func(signalIndexCache *transport.SignalIndexCache)) {
-	sb.beginCallbackAssignment()
-	defer sb.endCallbackAssignment()
+	ds := sb.dataSubscriber()
+	ds.BeginCallbackAssignment()
+	defer ds.EndCallbackAssignment()
 
-	sb.dataSubscriber().SubscriptionUpdatedCallback = callback
+	ds.SubscriptionUpdatedCallback = callback
 }
 
 // SetDataStartTimeReceiver defines the callback that handles notification of first received measurement.
diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index ee006f5..6ff4769 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -416,12 +416,12 @@ func (ds *DataSubscriber) establishConnection(connection net.Conn, listening boo
 
 	// Notify consumers of connect
 	ds.BeginCallbackSync()
+	connectionEstablishedCallback := ds.ConnectionEstablishedCallback
+	ds.EndCallbackSync()
 
-	if ds.ConnectionEstablishedCallback != nil {
-		ds.ConnectionEstablishedCallback()
+	if connectionEstablishedCallback != nil {
+		connectionEstablishedCallback()
 	}
-
-	ds.EndCallbackSync()
 }
 
 // Listen requests that the DataSubscriber establish a listening connection for a DataPublisher.
@@ -698,13 +698,13 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 
 	// Notify consumers of disconnect
 	ds.BeginCallbackSync()
+	connectionTerminatedCallback := ds.ConnectionTerminatedCallback
+	ds.EndCallbackSync()
 
-	if ds.ConnectionTerminatedCallback != nil {
-		ds.ConnectionTerminatedCallback()
+	if connectionTerminatedCallback != nil {
+		connectionTerminatedCallback()
 	}
 
-	ds.EndCallbackSync()
-
 	// Disconnect complete
 	ds.disconnected.Set()
 	ds.disconnecting.UnSet()
@@ -714,13 +714,13 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 		// since they serve two different use cases and current implementation does not
 		// support multiple callback registrations
 		ds.BeginCallbackSync()
+		autoReconnectCallback := ds.AutoReconnectCallback
+		ds.EndCallbackSync()
 
-		if ds.AutoReconnectCallback != nil && ds.disposing.IsNotSet() {
-			ds.AutoReconnectCallback()
+		if autoReconnectCallback != nil && ds.disposing.IsNotSet() {
+			autoReconnectCallback()
 		}
 
-		ds.EndCallbackSync()
-
 	} else {
 		ds.connectActionMutex.Unlock()
 	}
@@ -736,22 +736,22 @@ func (ds *DataSubscriber) dispatchConnectionTerminated() {
 
 func (ds *DataSubscriber) dispatchStatusMessage(message string) {
 	ds.BeginCallbackSync()
+	statusMessageCallback := ds.StatusMessageCallback
+	ds.EndCallbackSync()
 
-	if ds.StatusMessageCallback != nil {
-		go ds.StatusMessageCallback(message)
+	if statusMessageCallback != nil {
+		go statusMessageCallback(message)
 	}
-
-	ds.EndCallbackSync()
 }
 
 func (ds *DataSubscriber) dispatchErrorMessage(message string) {
 	ds.BeginCallbackSync()
+	errorMessageCallback := ds.ErrorMessageCallback
+	ds.EndCallbackSync()
 
-	if ds.ErrorMessageCallback != nil {
-		go ds.ErrorMessageCallback(message)
+	if errorMessageCallback != nil {
+		go errorMessageCallback(message)
 	}
-
-	ds.EndCallbackSync()
 }
 
 func (ds *DataSubscriber) runListeningSocketAcceptThread() {
@@ -1069,24 +1069,24 @@ func (ds *DataSubscriber) handleDataStartTime(data []byte) {
 	}
 
 	ds.BeginCallbackSync()
+	dataStartTimeCallback := ds.DataStartTimeCallback
+	ds.EndCallbackSync()
 
-	if ds.DataStartTimeCallback != nil {
+	if dataStartTimeCallback != nil {
 		// Do not use Go routine here, processing sequence may be important.
 		// Execute callback directly from socket processing thread:
-		ds.DataStartTimeCallback(ticks.Ticks(binary.BigEndian.Uint64(data)))
+		dataStartTimeCallback(ticks.Ticks(binary.BigEndian.Uint64(data)))
 	}
-
-	ds.EndCallbackSync()
 }
 
 func (ds *DataSubscriber) handleProcessingComplete(data []byte) {
 	ds.BeginCallbackSync()
+	processingCompleteCallback := ds.ProcessingCompleteCallback
+	ds.EndCallbackSync()
 
-	if ds.ProcessingCompleteCallback != nil {
-		go ds.ProcessingCompleteCallback(ds.DecodeString(data))
+	if processingCompleteCallback != nil {
+		go processingCompleteCallback(ds.DecodeString(data))
 	}
-
-	ds.EndCallbackSync()
 }
 
 func (ds *DataSubscriber) handleUpdateSignalIndexCache(data []byte) {
@@ -1134,12 +1134,12 @@ func (ds *DataSubscriber) handleUpdateSignalIndexCache(data []byte) {
 	}
 
 	ds.BeginCallbackSync()
+	subscriptionUpdatedCallback := ds.SubscriptionUpdatedCallback
+	ds.EndCallbackSync()
 
-	if ds.SubscriptionUpdatedCallback != nil {
-		go ds.SubscriptionUpdatedCallback(signalIndexCache)
+	if subscriptionUpdatedCallback != nil {
+		go subscriptionUpdatedCallback(signalIndexCache)
 	}
-
-	ds.EndCallbackSync()
 }
 
 func (ds *DataSubscriber) handleUpdateBaseTimes(data []byte) {
@@ -1237,12 +1237,12 @@ func (ds *DataSubscriber) handleConfigurationChanged() {
 	ds.dispatchStatusMessage("Received notification from publisher that configuration has changed.")
 
 	ds.BeginCallbackSync()
+	configurationChangedCallback := ds.ConfigurationChangedCallback
+	ds.EndCallbackSync()
 
-	if ds.ConfigurationChangedCallback != nil {
-		go ds.ConfigurationChangedCallback()
+	if configurationChangedCallback != nil {
+		go configurationChangedCallback()
 	}
-
-	ds.EndCallbackSync()
 }
 
 func (ds *DataSubscriber) handleDataPacket(data []byte) {
@@ -1326,15 +1326,15 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 	received := uint64(len(*measurements))
 
 	ds.BeginCallbackSync()
+	newMeasurementsCallback := ds.NewMeasurementsCallback
+	ds.EndCallbackSync()
 
-	if ds.NewMeasurementsCallback != nil {
+	if newMeasurementsCallback != nil {
 		// Do not use Go routine here, processing sequence may be important.
 		// Execute callback directly from socket processing thread:
-		ds.NewMeasurementsCallback(measurements)
+		newMeasurementsCallback(measurements)
 	}
 
-	ds.EndCallbackSync()
-
 	atomic.AddUint64(&ds.totalMeasurementsReceived, received)
 }
 
@@ -1542,14 +1542,14 @@ func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 
 			// Publish buffer block measurements
 			ds.BeginCallbackSync()
+			newBufferBlocksCallback := ds.NewBufferBlocksCallback
+			ds.EndCallbackSync()
 
-			if ds.NewBufferBlocksCallback != nil {
+			if newBufferBlocksCallback != nil {
 				// Do not use Go routine here, processing sequence may be important.
 				// Execute callback directly from socket processing thread:
-				ds.NewBufferBlocksCallback(bufferBlockMeasurements)
+				newBufferBlocksCallback(bufferBlockMeasurements)
 			}
-
-			ds.EndCallbackSync()
 		} else {
 			// Cache this buffer block until its predecessors have been received.
 			// This edge case handles possible dropouts and/or out of order packet deliver when data
@@ -1571,13 +1571,13 @@ func (ds *DataSubscriber) handleNotification(data []byte) {
 	ds.dispatchStatusMessage("NOTIFICATION: " + message)
 
 	ds.BeginCallbackSync()
+	notificationReceivedCallback := ds.NotificationReceivedCallback
+	ds.EndCallbackSync()
 
-	if ds.NotificationReceivedCallback != nil {
-		go ds.NotificationReceivedCallback(message)
+	if notificationReceivedCallback != nil {
+		go notificationReceivedCallback(message)
 	}
 
-	ds.EndCallbackSync()
-
 	// Send confirmation of receipt of the notification with 4-byte hash
 	ds.SendServerCommandWithPayload(ServerCommand.ConfirmNotification, data[:4])
 }
diff --git a/sttp/transport/SubscriberConnector.go b/sttp/transport/SubscriberConnector.go
index a4b2177..0fbb021 100644
--- a/sttp/transport/SubscriberConnector.go
+++ b/sttp/transport/SubscriberConnector.go
@@ -115,12 +115,12 @@ func (ds *DataSubscriber) autoReconnect() {
 
 		// Notify the user that reconnect attempt was completed.
 		sc.BeginCallbackSync()
+		reconnectCallback := sc.ReconnectCallback
+		sc.EndCallbackSync()
 
-		if sc.cancel.IsNotSet() && sc.ReconnectCallback != nil {
-			sc.ReconnectCallback(ds)
+		if sc.cancel.IsNotSet() && reconnectCallback != nil {
+			reconnectCallback(ds)
 		}
-
-		sc.EndCallbackSync()
 	})
 
 	sc.reconnectThreadMutex.Lock()
@@ -270,12 +270,12 @@ func (sc *SubscriberConnector) ResetConnection() {
 
 func (sc *SubscriberConnector) dispatchErrorMessage(message string) {
 	sc.BeginCallbackSync()
+	errorMessageCallback := sc.ErrorMessageCallback
+	sc.EndCallbackSync()
 
-	if sc.ErrorMessageCallback != nil {
-		go sc.ErrorMessageCallback(message)
+	if errorMessageCallback != nil {
+		go errorMessageCallback(message)
 	}
-
-	sc.EndCallbackSync()
 }
 
 // BeginCallbackAssignment informs SubscriberConnector that a callback change has been initiated.
-- 
2.43.0


From 8defe2ce81d979f688b114f770dec9111ef5ef1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:10 +0000
Subject: [PATCH 54/69] fix: unsubscribe no longer interferes with the command
 channel or closes the UDP socket twice

---
 sttp/transport/DataSubscriber.go | 55 +++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 6ff4769..147cbaf 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -66,6 +66,7 @@ type DataSubscriber struct {
 	writeMutex                   sync.Mutex
 	dataChannelSocket            net.Conn
 	dataChannelResponseThread    *thread.Thread
+	dataChannelMutex             sync.Mutex
 	connectionID                 string
 
 	assigningHandlerMutex sync.RWMutex
@@ -521,14 +522,22 @@ func (ds *DataSubscriber) Subscribe() error {
 			return errors.New("failed to resolve UDP address for port " + udpPort + ": " + err.Error())
 		}
 
-		ds.dataChannelSocket, err = net.ListenUDP("udp", udpAddr)
+		// Release UDP socket of any prior subscription
+		ds.closeDataChannel()
+
+		dataChannelSocket, err := net.ListenUDP("udp", udpAddr)
 
 		if err != nil {
 			return errors.New("failed to open UDP socket for port " + udpPort + ": " + err.Error())
 		}
 
-		ds.dataChannelResponseThread = thread.NewThread(ds.runDataChannelResponseThread)
+		ds.dataChannelMutex.Lock()
+		ds.dataChannelSocket = dataChannelSocket
+		ds.dataChannelResponseThread = thread.NewThread(func() {
+			ds.runDataChannelResponseThread(dataChannelSocket)
+		})
 		ds.dataChannelResponseThread.Start()
+		ds.dataChannelMutex.Unlock()
 
 		parameterBuilder.WriteString(";dataChannel={localport=")
 		parameterBuilder.WriteString(udpPort)
@@ -582,19 +591,26 @@ func (ds *DataSubscriber) Unsubscribe() {
 
 	ds.SendServerCommand(ServerCommand.Unsubscribe)
 
-	ds.disconnecting.Set()
+	ds.closeDataChannel()
+}
+
+// closeDataChannel closes UDP socket and waits for its reader thread to complete.
+func (ds *DataSubscriber) closeDataChannel() {
+	ds.dataChannelMutex.Lock()
+	dataChannelSocket := ds.dataChannelSocket
+	dataChannelResponseThread := ds.dataChannelResponseThread
+	ds.dataChannelSocket = nil
+	ds.dataChannelMutex.Unlock()
 
-	if ds.dataChannelSocket != nil {
-		if err := ds.dataChannelSocket.Close(); err != nil {
+	if dataChannelSocket != nil {
+		if err := dataChannelSocket.Close(); err != nil {
 			ds.dispatchErrorMessage("Exception while disconnecting data subscriber UDP data channel: " + err.Error())
 		}
 	}
 
-	if ds.dataChannelResponseThread != nil {
-		ds.dataChannelResponseThread.Join()
+	if dataChannelResponseThread != nil {
+		dataChannelResponseThread.Join()
 	}
-
-	ds.disconnecting.UnSet()
 }
 
 // Disconnect initiates a DataSubscriber disconnect sequence.
@@ -674,12 +690,6 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 		}
 	}
 
-	if ds.dataChannelSocket != nil {
-		if err := ds.dataChannelSocket.Close(); err != nil {
-			ds.dispatchErrorMessage("Exception while disconnecting data subscriber UDP data channel: " + err.Error())
-		}
-	}
-
 	// Join with all threads to guarantee their completion before returning control to the caller
 	if includeListener && ds.listeningSocketAcceptThread != nil {
 		ds.listeningSocketAcceptThread.Join()
@@ -691,10 +701,7 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 		ds.commandChannelResponseThread = nil
 	}
 
-	if ds.dataChannelResponseThread != nil {
-		ds.dataChannelResponseThread.Join()
-		ds.dataChannelResponseThread = nil
-	}
+	ds.closeDataChannel()
 
 	// Notify consumers of disconnect
 	ds.BeginCallbackSync()
@@ -895,15 +902,19 @@ func (ds *DataSubscriber) readPacket(bytesTransferred int, err error) {
 
 // If the user defines a separate UDP channel for their
 // subscription, data packets get handled from this thread.
-func (ds *DataSubscriber) runDataChannelResponseThread() {
-	reader := bufio.NewReader(ds.dataChannelSocket)
+func (ds *DataSubscriber) runDataChannelResponseThread(dataChannelSocket net.Conn) {
+	reader := bufio.NewReader(dataChannelSocket)
 	buffer := make([]byte, maxPacketSize)
 
 	for ds.connected.IsSet() {
 		length, err := reader.Read(buffer)
 
 		if err != nil {
-			ds.dispatchErrorMessage("Error reading data from command channel: " + err.Error())
+			// Socket is closed when unsubscribing or disconnecting
+			if !errors.Is(err, net.ErrClosed) {
+				ds.dispatchErrorMessage("Error reading data from command channel: " + err.Error())
+			}
+
 			break
 		}
 
-- 
2.43.0


From c8749f9d91138e872ded7dfd6566be04f72366e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:47 +0000
Subject: [PATCH 55/69] fix: serialize connect, disconnect, listen and
 automatic reconnect sequences and apply retry limits to every attempt

---
 sttp/transport/DataSubscriber.go      | 308 +++++++++++++++++++-------
 sttp/transport/SubscriberConnector.go |  85 +++----
 2 files changed, 276 insertions(+), 117 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 147cbaf..6c903a4 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -58,6 +58,7 @@ type DataSubscriber struct {
 
 	listeningSocket              net.Listener
 	listeningSocketAcceptThread  *thread.Thread
+	listeningSocketMutex         sync.Mutex
 	commandChannelSocket         net.Conn
 	commandChannelResponseThread *thread.Thread
 	readBuffer                   []byte
@@ -71,10 +72,11 @@ type DataSubscriber struct {
 
 	assigningHandlerMutex sync.RWMutex
 
-	connectActionMutex          sync.Mutex
-	connectionTerminationThread *thread.Thread
+	connectActionMutex    sync.Mutex
+	connectionEstablished abool.AtomicBool
 
 	disconnectThread      *thread.Thread
+	disconnectRequested   bool
 	disconnectThreadMutex sync.Mutex
 	disconnecting         abool.AtomicBool
 	disconnected          abool.AtomicBool
@@ -196,10 +198,6 @@ func NewDataSubscriber() *DataSubscriber {
 
 	ds.validated.Set()
 
-	ds.connectionTerminationThread = thread.NewThread(func() {
-		ds.disconnect(false, true, false)
-	})
-
 	return ds
 }
 
@@ -334,13 +332,10 @@ func (ds *DataSubscriber) connect(hostName string, port uint16, autoReconnecting
 		return errors.New("subscriber is listening for connections; direct connections disallowed")
 	}
 
-	// Make sure any pending disconnect has completed to make sure socket is closed
-	ds.disconnectThreadMutex.Lock()
-	disconnectThread := ds.disconnectThread
-	ds.disconnectThreadMutex.Unlock()
-
-	if disconnectThread != nil {
-		disconnectThread.Join()
+	// Make sure any pending disconnect has completed to make sure socket is closed - an automatic
+	// reconnect starts after its disconnect and must not wait for a disconnect that waits for it
+	if !autoReconnecting {
+		ds.joinDisconnect()
 	}
 
 	// Let any pending connect or disconnect operation complete before new connect,
@@ -348,6 +343,15 @@ func (ds *DataSubscriber) connect(hostName string, port uint16, autoReconnecting
 	ds.connectActionMutex.Lock()
 	defer ds.connectActionMutex.Unlock()
 
+	// State may have changed while waiting
+	if ds.connected.IsSet() {
+		return errors.New("subscriber is already connected; disconnect first")
+	}
+
+	if ds.disconnecting.IsSet() || autoReconnecting && ds.connector.cancel.IsSet() {
+		return errors.New("subscriber is disconnecting; connection canceled")
+	}
+
 	var err error
 
 	// Initialize connection state
@@ -369,6 +373,21 @@ func (ds *DataSubscriber) connect(hostName string, port uint16, autoReconnecting
 	return err
 }
 
+// joinDisconnect waits for any pending disconnect to complete. Returns true if there
+// has been a disconnect; otherwise, false.
+func (ds *DataSubscriber) joinDisconnect() bool {
+	ds.disconnectThreadMutex.Lock()
+	disconnectThread := ds.disconnectThread
+	ds.disconnectThreadMutex.Unlock()
+
+	if disconnectThread == nil {
+		return false
+	}
+
+	disconnectThread.Join()
+	return true
+}
+
 func (ds *DataSubscriber) setupConnection() {
 	ds.disconnected.UnSet()
 	ds.subscribed.UnSet()
@@ -409,11 +428,19 @@ func (ds *DataSubscriber) establishConnection(connection net.Conn, listening boo
 	ds.commandChannelSocket = connection
 	ds.commandChannelResponseThread = thread.NewThread(ds.runCommandChannelResponseThread)
 
-	ds.connected.Set()
 	ds.lastMissingCacheWarning = 0
 
+	// Operational modes are always the first command of a connection
+	ds.writeMutex.Lock()
+	ds.connectionEstablished.Set()
+	ds.connected.Set()
 	ds.commandChannelResponseThread.Start()
-	ds.sendOperationalModes()
+	err := ds.sendOperationalModes(connection)
+	ds.writeMutex.Unlock()
+
+	if err != nil {
+		ds.handleWriteError(connection, err)
+	}
 
 	// Notify consumers of connect
 	ds.BeginCallbackSync()
@@ -436,24 +463,31 @@ func (ds *DataSubscriber) Listen(port uint16, networkInterface string) error {
 	}
 
 	// Make sure any pending disconnect has completed to make sure socket is closed
-	ds.disconnectThreadMutex.Lock()
-	disconnectThread := ds.disconnectThread
-	ds.disconnectThreadMutex.Unlock()
+	ds.joinDisconnect()
 
-	if disconnectThread != nil {
-		disconnectThread.Join()
+	ds.listeningSocketMutex.Lock()
+	defer ds.listeningSocketMutex.Unlock()
+
+	// State may have changed while waiting
+	if ds.listening.IsSet() {
+		return errors.New("subscriber is already listening; disconnect first")
 	}
 
-	var err error
+	if ds.disconnecting.IsSet() {
+		return errors.New("subscriber is disconnecting; cannot listen")
+	}
 
 	// TODO: Add TLS implementation options
-	ds.listeningSocket, err = net.Listen("tcp", networkInterface+":"+strconv.Itoa(int(port)))
+	listeningSocket, err := net.Listen("tcp", networkInterface+":"+strconv.Itoa(int(port)))
 
 	if err != nil {
 		return err
 	}
 
-	ds.listeningSocketAcceptThread = thread.NewThread(ds.runListeningSocketAcceptThread)
+	ds.listeningSocket = listeningSocket
+	ds.listeningSocketAcceptThread = thread.NewThread(func() {
+		ds.runListeningSocketAcceptThread(listeningSocket)
+	})
 	ds.listening.Set()
 	ds.listeningSocketAcceptThread.Start()
 
@@ -539,6 +573,12 @@ func (ds *DataSubscriber) Subscribe() error {
 		ds.dataChannelResponseThread.Start()
 		ds.dataChannelMutex.Unlock()
 
+		// Make sure UDP socket does not stay open when connection was terminated in the meantime
+		if ds.connected.IsNotSet() {
+			ds.closeDataChannel()
+			return errors.New("subscriber is not connected; cannot subscribe")
+		}
+
 		parameterBuilder.WriteString(";dataChannel={localport=")
 		parameterBuilder.WriteString(udpPort)
 		parameterBuilder.WriteString("}")
@@ -615,10 +655,6 @@ func (ds *DataSubscriber) closeDataChannel() {
 
 // Disconnect initiates a DataSubscriber disconnect sequence.
 func (ds *DataSubscriber) Disconnect() {
-	if ds.disconnecting.IsSet() {
-		return
-	}
-
 	// Disconnect method executes shutdown on a separate thread without stopping to prevent
 	// issues where user may call disconnect method from a dispatched event thread. Also,
 	// user requests to disconnect are not an auto-reconnect attempt and should initiate
@@ -627,21 +663,35 @@ func (ds *DataSubscriber) Disconnect() {
 }
 
 func (ds *DataSubscriber) disconnect(joinThread bool, autoReconnecting bool, includeListener bool) {
-	// Check if disconnect thread is running or subscriber has already disconnected
-	if ds.disconnecting.IsSet() {
-		if !autoReconnecting && ds.listening.IsNotSet() && ds.disconnected.IsNotSet() {
-			ds.connector.Cancel()
-		}
+	if !autoReconnecting {
+		// Interrupt any pending connection sequence
+		ds.connector.interrupt()
+	}
 
-		ds.disconnectThreadMutex.Lock()
-		disconnectThread := ds.disconnectThread
-		ds.disconnectThreadMutex.Unlock()
+	ds.disconnectThreadMutex.Lock()
+	disconnectThread := ds.startDisconnectThread(autoReconnecting, includeListener)
+	ds.disconnectThreadMutex.Unlock()
 
-		if joinThread && ds.disconnected.IsNotSet() && disconnectThread != nil {
-			disconnectThread.Join()
+	if joinThread && disconnectThread != nil {
+		disconnectThread.Join()
+	}
+}
+
+// startDisconnectThread starts a new disconnect thread unless the disconnect is already in
+// progress, disconnect thread mutex must be locked. Returns the active disconnect thread.
+func (ds *DataSubscriber) startDisconnectThread(autoReconnecting bool, includeListener bool) *thread.Thread {
+	if autoReconnecting {
+		// Check if connection is already being terminated
+		if ds.disconnecting.IsSet() || ds.connected.IsNotSet() {
+			return ds.disconnectThread
+		}
+	} else {
+		// Check if disconnect was already requested
+		if ds.disconnectRequested {
+			return ds.disconnectThread
 		}
 
-		return
+		ds.disconnectRequested = true
 	}
 
 	// Notify running threads that the subscriber is disconnecting, i.e., disconnect thread is active
@@ -655,35 +705,44 @@ func (ds *DataSubscriber) disconnect(joinThread bool, autoReconnecting bool, inc
 
 	ds.subscribed.UnSet()
 
-	disconnectThread := thread.NewThread(func() {
+	pendingThread := ds.disconnectThread
+
+	if pendingThread != nil && !pendingThread.IsRunning() {
+		pendingThread = nil
+	}
+
+	ds.disconnectThread = thread.NewThread(func() {
+		// User requested disconnect follows any pending automatic disconnect
+		if pendingThread != nil {
+			pendingThread.Join()
+		}
+
 		ds.runDisconnectThread(autoReconnecting, includeListener)
 	})
 
-	ds.disconnectThreadMutex.Lock()
-	disconnectThread.Start()
-	ds.disconnectThread = disconnectThread
-	ds.disconnectThreadMutex.Unlock()
+	ds.disconnectThread.Start()
 
-	if joinThread {
-		disconnectThread.Join()
-	}
+	return ds.disconnectThread
 }
 
 func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeListener bool) {
-	// Let any pending connect operation complete before disconnect - prevents destruction disconnect before connection is completed
 	if !autoReconnecting {
 		ds.connector.Cancel()
-		ds.connectionTerminationThread.Join()
-		ds.connectActionMutex.Lock()
 	}
 
-	// Release queues and close sockets so that threads can shut down gracefully
-	if includeListener && ds.listeningSocket != nil {
-		if err := ds.listeningSocket.Close(); err != nil {
-			ds.dispatchErrorMessage("Exception while disconnecting data subscriber TCP listening socket: " + err.Error())
-		}
+	// Stop accepting connections before waiting for any connection in progress
+	if includeListener {
+		ds.closeListeningSocket()
 	}
 
+	// Let any pending connect operation complete before disconnect - prevents destruction disconnect before connection is completed
+	ds.connectActionMutex.Lock()
+
+	// Connect operation may have completed after disconnect was requested
+	ds.disconnecting.Set()
+	ds.connected.UnSet()
+
+	// Release queues and close sockets so that threads can shut down gracefully
 	if ds.commandChannelSocket != nil {
 		if err := ds.commandChannelSocket.Close(); err != nil {
 			ds.dispatchErrorMessage("Exception while disconnecting data subscriber TCP command channel: " + err.Error())
@@ -691,11 +750,6 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 	}
 
 	// Join with all threads to guarantee their completion before returning control to the caller
-	if includeListener && ds.listeningSocketAcceptThread != nil {
-		ds.listeningSocketAcceptThread.Join()
-		ds.listeningSocketAcceptThread = nil
-	}
-
 	if ds.commandChannelResponseThread != nil {
 		ds.commandChannelResponseThread.Join()
 		ds.commandChannelResponseThread = nil
@@ -703,18 +757,38 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 
 	ds.closeDataChannel()
 
+	ds.writeMutex.Lock()
+	ds.commandChannelSocket = nil
+	ds.writeMutex.Unlock()
+
+	ds.validated.UnSet()
+	ds.subscribed.UnSet()
+
 	// Notify consumers of disconnect
 	ds.BeginCallbackSync()
 	connectionTerminatedCallback := ds.ConnectionTerminatedCallback
 	ds.EndCallbackSync()
 
-	if connectionTerminatedCallback != nil {
+	if ds.connectionEstablished.SetToIf(true, false) && connectionTerminatedCallback != nil {
 		connectionTerminatedCallback()
 	}
 
 	// Disconnect complete
+	ds.disconnectThreadMutex.Lock()
+
 	ds.disconnected.Set()
-	ds.disconnecting.UnSet()
+
+	if !autoReconnecting {
+		ds.disconnectRequested = false
+	}
+
+	// State does not change when a user requested disconnect is waiting to follow
+	if !ds.disconnectRequested {
+		ds.disconnecting.UnSet()
+	}
+
+	ds.disconnectThreadMutex.Unlock()
+	ds.connectActionMutex.Unlock()
 
 	if autoReconnecting {
 		// Handling auto-connect callback separately from connection terminated callback
@@ -727,18 +801,46 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 		if autoReconnectCallback != nil && ds.disposing.IsNotSet() {
 			autoReconnectCallback()
 		}
+	}
+}
 
-	} else {
-		ds.connectActionMutex.Unlock()
+func (ds *DataSubscriber) closeListeningSocket() {
+	ds.listeningSocketMutex.Lock()
+	ds.listening.UnSet()
+	listeningSocket := ds.listeningSocket
+	listeningSocketAcceptThread := ds.listeningSocketAcceptThread
+	ds.listeningSocket = nil
+	ds.listeningSocketAcceptThread = nil
+	ds.listeningSocketMutex.Unlock()
+
+	if listeningSocket != nil {
+		if err := listeningSocket.Close(); err != nil {
+			ds.dispatchErrorMessage("Exception while disconnecting data subscriber TCP listening socket: " + err.Error())
+		}
+	}
+
+	if listeningSocketAcceptThread != nil {
+		listeningSocketAcceptThread.Join()
 	}
 }
 
-// Dispatcher for connection terminated. This is called from its own separate thread
+// Dispatcher for connection terminated. Disconnect is executed on its own separate thread
 // in order to cleanly shut down the subscriber in case the connection was terminated
-// by the peer. Additionally, this allows the user to automatically reconnect in their
-// callback function without having to spawn their own separate thread.
+// by the peer.
 func (ds *DataSubscriber) dispatchConnectionTerminated() {
-	ds.connectionTerminationThread.TryStart()
+	ds.disconnect(false, true, false)
+}
+
+// terminateConnection dispatches connection terminated for specified socket unless
+// the socket does not belong to the current connection anymore.
+func (ds *DataSubscriber) terminateConnection(socket net.Conn) {
+	ds.disconnectThreadMutex.Lock()
+
+	if ds.commandChannelSocket == socket {
+		ds.startDisconnectThread(true, false)
+	}
+
+	ds.disconnectThreadMutex.Unlock()
 }
 
 func (ds *DataSubscriber) dispatchStatusMessage(message string) {
@@ -761,9 +863,9 @@ func (ds *DataSubscriber) dispatchErrorMessage(message string) {
 	}
 }
 
-func (ds *DataSubscriber) runListeningSocketAcceptThread() {
+func (ds *DataSubscriber) runListeningSocketAcceptThread(listeningSocket net.Listener) {
 	for ds.listening.IsSet() {
-		conn, err := ds.listeningSocket.Accept()
+		conn, err := listeningSocket.Accept()
 
 		if err != nil {
 			if ds.disconnecting.IsNotSet() {
@@ -798,7 +900,10 @@ func (ds *DataSubscriber) runListeningSocketAcceptThread() {
 
 		// Let any pending connect or disconnect operation complete before new connect,
 		// this prevents destruction disconnect before connection is completed
-		ds.connectActionMutex.Lock()
+		if !ds.lockAcceptedConnection() {
+			conn.Close()
+			continue
+		}
 
 		// Initialize connection state
 		ds.setupConnection()
@@ -810,6 +915,34 @@ func (ds *DataSubscriber) runListeningSocketAcceptThread() {
 	}
 }
 
+// lockAcceptedConnection locks connect action mutex for a new listening connection once any automatic
+// disconnect of the prior connection is complete. Returns false when subscriber is no longer listening.
+func (ds *DataSubscriber) lockAcceptedConnection() bool {
+	for {
+		ds.disconnectThreadMutex.Lock()
+		disconnectThread := ds.disconnectThread
+		disconnectRequested := ds.disconnectRequested
+		ds.disconnectThreadMutex.Unlock()
+
+		// User requested disconnect waits for the accept thread
+		if disconnectRequested || ds.listening.IsNotSet() {
+			return false
+		}
+
+		if disconnectThread != nil {
+			disconnectThread.Join()
+		}
+
+		ds.connectActionMutex.Lock()
+
+		if ds.disconnecting.IsNotSet() {
+			return true
+		}
+
+		ds.connectActionMutex.Unlock()
+	}
+}
+
 func (ds *DataSubscriber) runCommandChannelResponseThread() {
 	ds.reader = bufio.NewReader(ds.commandChannelSocket)
 
@@ -1611,7 +1744,24 @@ func (ds *DataSubscriber) SendServerCommandWithPayload(commandCode ServerCommand
 
 	// Commands can be sent from multiple threads at the same time
 	ds.writeMutex.Lock()
+	socket := ds.commandChannelSocket
+
+	if socket == nil {
+		// Connection was terminated in the meantime
+		ds.writeMutex.Unlock()
+		return
+	}
 
+	err := ds.writeServerCommand(socket, commandCode, data)
+	ds.writeMutex.Unlock()
+
+	if err != nil {
+		ds.handleWriteError(socket, err)
+	}
+}
+
+// writeServerCommand writes a server command to the command channel, write mutex must be locked.
+func (ds *DataSubscriber) writeServerCommand(socket net.Conn, commandCode ServerCommandEnum, data []byte) error {
 	var packetSize uint32 = uint32(len(data)) + 1
 	var commandBufferSize uint32 = packetSize + payloadHeaderSize
 
@@ -1636,17 +1786,17 @@ func (ds *DataSubscriber) SendServerCommandWithPayload(commandCode ServerCommand
 		ds.metadataRequested = time.Now()
 	}
 
-	_, err := ds.commandChannelSocket.Write(ds.writeBuffer[:commandBufferSize])
-	ds.writeMutex.Unlock()
+	_, err := socket.Write(ds.writeBuffer[:commandBufferSize])
+	return err
+}
 
-	if err != nil {
-		// Write error, connection may have been closed by peer; terminate connection
-		ds.dispatchErrorMessage("Failed to send server command - disconnecting: " + err.Error())
-		ds.dispatchConnectionTerminated()
-	}
+func (ds *DataSubscriber) handleWriteError(socket net.Conn, err error) {
+	// Write error, connection may have been closed by peer; terminate connection
+	ds.dispatchErrorMessage("Failed to send server command - disconnecting: " + err.Error())
+	ds.terminateConnection(socket)
 }
 
-func (ds *DataSubscriber) sendOperationalModes() {
+func (ds *DataSubscriber) sendOperationalModes(socket net.Conn) error {
 	var operationalModes OperationalModesEnum = OperationalModes.NoFlags
 
 	operationalModes |= OperationalModes.VersionMask & OperationalModesEnum(ds.Version)
@@ -1676,7 +1826,7 @@ func (ds *DataSubscriber) sendOperationalModes() {
 	buffer := make([]byte, 4)
 	binary.BigEndian.PutUint32(buffer, uint32(operationalModes))
 
-	ds.SendServerCommandWithPayload(ServerCommand.DefineOperationalModes, buffer)
+	return ds.writeServerCommand(socket, ServerCommand.DefineOperationalModes, buffer)
 }
 
 // Subscription gets the SubscriptionInfo associated with this DataSubscriber.
diff --git a/sttp/transport/SubscriberConnector.go b/sttp/transport/SubscriberConnector.go
index 0fbb021..51132e9 100644
--- a/sttp/transport/SubscriberConnector.go
+++ b/sttp/transport/SubscriberConnector.go
@@ -79,7 +79,7 @@ type SubscriberConnector struct {
 func (ds *DataSubscriber) autoReconnect() {
 	sc := ds.connector
 
-	if sc.cancel.IsSet() || ds.disposing.IsSet() {
+	if !sc.AutoReconnect || sc.cancel.IsSet() || ds.disposing.IsSet() {
 		return
 	}
 
@@ -95,7 +95,7 @@ func (ds *DataSubscriber) autoReconnect() {
 	reconnectThread = thread.NewThread(func() {
 		// Reset connection attempt counter if last attempt was not refused
 		if sc.connectionRefused.IsNotSet() {
-			sc.ResetConnection()
+			sc.connectAttempt = 0
 		}
 
 		if sc.MaxRetries != -1 && sc.connectAttempt >= sc.MaxRetries {
@@ -132,23 +132,8 @@ func (ds *DataSubscriber) autoReconnect() {
 
 func (sc *SubscriberConnector) waitForRetry() {
 	// Apply exponential back-off algorithm for retry attempt delays
-	var exponent float64
-
-	if sc.connectAttempt > 13 {
-		exponent = 12
-	} else {
-		exponent = float64(sc.connectAttempt)
-	}
-
-	var retryInterval int32
-
-	if sc.connectAttempt > 0 {
-		retryInterval = sc.RetryInterval * int32(math.Pow(2, exponent))
-	}
-
-	if retryInterval > sc.MaxRetryInterval {
-		retryInterval = sc.MaxRetryInterval
-	}
+	exponent := math.Min(float64(sc.connectAttempt), 13)
+	retryInterval := int32(math.Min(float64(sc.RetryInterval)*math.Pow(2, exponent), float64(sc.MaxRetryInterval)))
 
 	// Notify the user that we are attempting to reconnect.
 	var message strings.Builder
@@ -166,12 +151,11 @@ func (sc *SubscriberConnector) waitForRetry() {
 	message.WriteString(strconv.Itoa(int(sc.Port)))
 	message.WriteString("\" was terminated. ")
 
-	if retryInterval > 0 {
+	if sc.connectAttempt > 0 && retryInterval > 0 {
 		message.WriteString("Attempting to reconnect in ")
 		message.WriteString(fmt.Sprintf("%.2f", float64(retryInterval)/1000.0))
 		message.WriteString(" seconds...")
 	} else {
-		retryInterval = sc.RetryInterval
 		message.WriteString("Attempting to reconnect...")
 	}
 
@@ -183,11 +167,23 @@ func (sc *SubscriberConnector) waitForRetry() {
 	sc.waitTimer = waitTimer
 	sc.waitTimerMutex.Unlock()
 
+	// Cancel may have been requested before wait timer was assigned
+	if sc.cancel.IsSet() {
+		return
+	}
+
 	<-waitTimer.C
 }
 
 // Connect initiates a connection sequence for a DataSubscriber
 func (sc *SubscriberConnector) Connect(ds *DataSubscriber) ConnectStatusEnum {
+	// Any disconnect made before this connection request has no influence on it,
+	// also, this request replaces any automatic reconnect still in progress
+	if ds.joinDisconnect() {
+		sc.Cancel()
+		sc.ResetConnection()
+	}
+
 	if sc.cancel.IsSet() {
 		return ConnectStatus.Canceled
 	}
@@ -202,10 +198,13 @@ func (sc *SubscriberConnector) connect(ds *DataSubscriber, autoReconnecting bool
 		ds.EndCallbackAssignment()
 	}
 
-	sc.cancel.UnSet()
+	if !autoReconnecting {
+		sc.ResetConnection()
+	}
 
 	for ds.disposing.IsNotSet() {
-		if sc.MaxRetries != -1 && sc.connectAttempt >= sc.MaxRetries {
+		// Maximum number of retries does not apply to initial connection attempt
+		if autoReconnecting && sc.MaxRetries != -1 && sc.connectAttempt >= sc.MaxRetries {
 			sc.dispatchErrorMessage("Maximum connection retries attempted. Auto-reconnect canceled.")
 			break
 		}
@@ -216,17 +215,22 @@ func (sc *SubscriberConnector) connect(ds *DataSubscriber, autoReconnecting bool
 			return ConnectStatus.Canceled
 		}
 
-		if ds.connect(sc.Hostname, sc.Port, autoReconnecting) == nil {
+		if err := ds.connect(sc.Hostname, sc.Port, autoReconnecting); err == nil {
+			return ConnectStatus.Success
+		}
+
+		if ds.IsConnected() {
 			break
 		}
 
-		if ds.disposing.IsNotSet() && sc.RetryInterval > 0 {
-			autoReconnecting = true
+		autoReconnecting = true
+
+		if ds.disposing.IsNotSet() && sc.RetryInterval > 0 && sc.cancel.IsNotSet() {
 			sc.waitForRetry()
+		}
 
-			if sc.cancel.IsSet() {
-				return ConnectStatus.Canceled
-			}
+		if sc.cancel.IsSet() {
+			return ConnectStatus.Canceled
 		}
 	}
 
@@ -243,15 +247,7 @@ func (sc *SubscriberConnector) connect(ds *DataSubscriber, autoReconnecting bool
 
 // Cancel stops all current and future connection sequences.
 func (sc *SubscriberConnector) Cancel() {
-	sc.cancel.Set()
-
-	sc.waitTimerMutex.Lock()
-	waitTimer := sc.waitTimer
-	sc.waitTimerMutex.Unlock()
-
-	if waitTimer != nil {
-		waitTimer.Stop()
-	}
+	sc.interrupt()
 
 	sc.reconnectThreadMutex.Lock()
 	reconnectThread := sc.reconnectThread
@@ -262,6 +258,19 @@ func (sc *SubscriberConnector) Cancel() {
 	}
 }
 
+// interrupt cancels connection sequences and ends any retry delay in progress.
+func (sc *SubscriberConnector) interrupt() {
+	sc.cancel.Set()
+
+	sc.waitTimerMutex.Lock()
+	waitTimer := sc.waitTimer
+	sc.waitTimerMutex.Unlock()
+
+	if waitTimer != nil {
+		waitTimer.Reset(0)
+	}
+}
+
 // ResetConnection resets SubscriberConnector for a new connection.
 func (sc *SubscriberConnector) ResetConnection() {
 	sc.connectAttempt = 0
-- 
2.43.0


From 9a7dbf22dea1e655d1cf0054d1278ff8fc735cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:59 +0000
Subject: [PATCH 56/69] fix: validate every connection and run the connection
 workflow once per connection, subscribing when it is validated

---
 sttp/Subscriber.go                    | 18 +++++++++---------
 sttp/transport/DataSubscriber.go      | 22 ++++++++++++++++++++--
 sttp/transport/SubscriberConnector.go | 12 +++++++++++-
 3 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/sttp/Subscriber.go b/sttp/Subscriber.go
index 0698b5a..4ae670b 100644
--- a/sttp/Subscriber.go
+++ b/sttp/Subscriber.go
@@ -250,6 +250,7 @@ func (sb *Subscriber) connect(hostname string, port uint16) error {
 
 	// Register callbacks with intermediate handlers
 	con.ReconnectCallback = sb.handleReconnect
+	ds.ConnectionEstablishedCallback = sb.handleConnect
 	ds.MetadataReceivedCallback = sb.handleMetadataReceived
 	ds.DataStartTimeCallback = sb.handleDataStartTime
 	ds.ConfigurationChangedCallback = sb.handleConfigurationChanged
@@ -263,8 +264,6 @@ func (sb *Subscriber) connect(hostname string, port uint16) error {
 
 	// Connect and subscribe to publisher
 	switch con.Connect(ds) {
-	case transport.ConnectStatus.Success:
-		sb.handleConnect()
 	case transport.ConnectStatus.Failed:
 		err = errors.New("all connection attempts failed")
 	case transport.ConnectStatus.Canceled:
@@ -425,7 +424,7 @@ func (sb *Subscriber) Subscribe(filterExpression string, settings *Settings) {
 	sub.ExtraConnectionStringParameters = settings.ExtraConnectionStringParameters
 
 	if ds.IsConnected() {
-		ds.Subscribe()
+		ds.SubscribeOnValidation()
 	}
 }
 
@@ -501,17 +500,18 @@ func (sb *Subscriber) handleConnect() {
 	if sb.config.AutoRequestMetadata {
 		sb.RequestMetadata()
 	} else if sb.config.AutoSubscribe {
-		sb.dataSubscriber().Subscribe()
+		sb.dataSubscriber().SubscribeOnValidation()
 	}
 }
 
 func (sb *Subscriber) handleReconnect(ds *transport.DataSubscriber) {
-	if ds.IsConnected() {
-		sb.handleConnect()
-	} else {
-		ds.Disconnect()
-		sb.StatusMessage("Connection retry attempts exceeded.")
+	// Successful reconnects have already been handled, even when connection has been lost again since
+	if !ds.Connector().ReconnectFailed() {
+		return
 	}
+
+	ds.Disconnect()
+	sb.StatusMessage("Connection retry attempts exceeded.")
 }
 
 func (sb *Subscriber) handleMetadataReceived(metadata []byte) {
diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 6c903a4..4793028 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -56,6 +56,8 @@ type DataSubscriber struct {
 	listening    abool.AtomicBool
 	subscribed   abool.AtomicBool
 
+	subscribeOnValidation abool.AtomicBool
+
 	listeningSocket              net.Listener
 	listeningSocketAcceptThread  *thread.Thread
 	listeningSocketMutex         sync.Mutex
@@ -196,8 +198,6 @@ func NewDataSubscriber() *DataSubscriber {
 		signalIndexCache:         [2]*SignalIndexCache{NewSignalIndexCache(), NewSignalIndexCache()},
 	}
 
-	ds.validated.Set()
-
 	return ds
 }
 
@@ -390,7 +390,9 @@ func (ds *DataSubscriber) joinDisconnect() bool {
 
 func (ds *DataSubscriber) setupConnection() {
 	ds.disconnected.UnSet()
+	ds.validated.UnSet()
 	ds.subscribed.UnSet()
+	ds.subscribeOnValidation.UnSet()
 
 	atomic.StoreUint64(&ds.totalCommandChannelBytesReceived, 0)
 	atomic.StoreUint64(&ds.totalDataChannelBytesReceived, 0)
@@ -623,6 +625,18 @@ func (ds *DataSubscriber) Subscribe() error {
 	return nil
 }
 
+// SubscribeOnValidation subscribes immediately when the connection has been validated as an STTP
+// connection; otherwise, subscribe occurs when the first valid response has been received.
+func (ds *DataSubscriber) SubscribeOnValidation() error {
+	ds.subscribeOnValidation.Set()
+
+	if (ds.Version < 2 || ds.validated.IsSet()) && ds.subscribeOnValidation.SetToIf(true, false) {
+		return ds.Subscribe()
+	}
+
+	return nil
+}
+
 // Unsubscribe notifies the DataPublisher that a DataSubscriber would like to stop receiving streaming data.
 func (ds *DataSubscriber) Unsubscribe() {
 	if ds.connected.IsNotSet() || ds.validated.IsNotSet() {
@@ -1085,6 +1099,10 @@ func (ds *DataSubscriber) processServerResponse(buffer []byte) {
 		}
 
 		ds.validated.Set()
+
+		if ds.subscribeOnValidation.SetToIf(true, false) {
+			ds.Subscribe()
+		}
 	}
 
 	switch responseCode {
diff --git a/sttp/transport/SubscriberConnector.go b/sttp/transport/SubscriberConnector.go
index 51132e9..c5e60b3 100644
--- a/sttp/transport/SubscriberConnector.go
+++ b/sttp/transport/SubscriberConnector.go
@@ -68,6 +68,7 @@ type SubscriberConnector struct {
 	connectAttempt       int32
 	connectionRefused    abool.AtomicBool
 	cancel               abool.AtomicBool
+	reconnectFailed      abool.AtomicBool
 	reconnectThread      *thread.Thread
 	reconnectThreadMutex sync.Mutex
 	waitTimer            *time.Timer
@@ -109,10 +110,14 @@ func (ds *DataSubscriber) autoReconnect() {
 			return
 		}
 
-		if sc.connect(ds, true) == ConnectStatus.Canceled {
+		status := sc.connect(ds, true)
+
+		if status == ConnectStatus.Canceled {
 			return
 		}
 
+		sc.reconnectFailed.SetTo(status == ConnectStatus.Failed)
+
 		// Notify the user that reconnect attempt was completed.
 		sc.BeginCallbackSync()
 		reconnectCallback := sc.ReconnectCallback
@@ -271,6 +276,11 @@ func (sc *SubscriberConnector) interrupt() {
 	}
 }
 
+// ReconnectFailed determines if the last completed automatic reconnect sequence was unsuccessful.
+func (sc *SubscriberConnector) ReconnectFailed() bool {
+	return sc.reconnectFailed.IsSet()
+}
+
 // ResetConnection resets SubscriberConnector for a new connection.
 func (sc *SubscriberConnector) ResetConnection() {
 	sc.connectAttempt = 0
-- 
2.43.0


From 09fe7088330a8c19c067219407acded4d8ab106e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:34 +0000
Subject: [PATCH 57/69] fix: measurement reader close and disconnect no longer
 panic or block on unread measurements

---
 sttp/MeasurementReader.go        | 29 +++++++++++++++++++++++------
 sttp/transport/DataSubscriber.go | 13 +++++++++++++
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/sttp/MeasurementReader.go b/sttp/MeasurementReader.go
index 1804b27..09b8141 100644
--- a/sttp/MeasurementReader.go
+++ b/sttp/MeasurementReader.go
@@ -25,23 +25,37 @@ package sttp
 
 import (
 	"context"
+	"sync"
 
 	"github.com/sttp/goapi/sttp/transport"
 )
 
 // MeasurementReader defines an STTP measurement reader.
 type MeasurementReader struct {
-	current chan *transport.Measurement
+	current   chan *transport.Measurement
+	closed    chan struct{}
+	closeOnce sync.Once
 }
 
 func newMeasurementReader(parent *Subscriber) *MeasurementReader {
 	reader := &MeasurementReader{
 		current: make(chan *transport.Measurement),
+		closed:  make(chan struct{}),
 	}
 
 	parent.SetNewMeasurementsReceiver(func(measurements *[]transport.Measurement) {
-		for _, m := range *measurements {
-			reader.current <- &m
+		disconnecting := parent.dataSubscriber().Disconnecting()
+
+		for i := range *measurements {
+			m := (*measurements)[i]
+
+			select {
+			case reader.current <- &m:
+			case <-reader.closed:
+				return
+			case <-disconnecting:
+				return
+			}
 		}
 	})
 
@@ -50,7 +64,8 @@ func newMeasurementReader(parent *Subscriber) *MeasurementReader {
 
 // NextMeasurement blocks current thread until a new measurement arrives or provided context is completed.
 // Returns tuple of measurement and completed state. Completed state flag will be false if a measurement
-// was received; otherwise, state flag will be true along with a nil measurement when context is done.
+// was received; otherwise, state flag will be true along with a nil measurement when context is done
+// or reader is closed.
 func (mr *MeasurementReader) NextMeasurement(ctx context.Context) (*transport.Measurement, bool) {
 	if ctx == nil {
 		ctx = context.Background()
@@ -59,12 +74,14 @@ func (mr *MeasurementReader) NextMeasurement(ctx context.Context) (*transport.Me
 	select {
 	case <-ctx.Done():
 		return nil, true
+	case <-mr.closed:
+		return nil, true
 	case measurement := <-mr.current:
 		return measurement, false
 	}
 }
 
-// Close closes the measurement reader channel.
+// Close closes the measurement reader, any further measurements are dropped.
 func (mr *MeasurementReader) Close() {
-	close(mr.current)
+	mr.closeOnce.Do(func() { close(mr.closed) })
 }
diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 4793028..8d080c6 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -79,6 +79,7 @@ type DataSubscriber struct {
 
 	disconnectThread      *thread.Thread
 	disconnectRequested   bool
+	disconnectSignal      chan struct{}
 	disconnectThreadMutex sync.Mutex
 	disconnecting         abool.AtomicBool
 	disconnected          abool.AtomicBool
@@ -196,6 +197,7 @@ func NewDataSubscriber() *DataSubscriber {
 		STTPVersionInfo:          version.STTPVersion,
 		STTPUpdatedOnInfo:        version.STTPUpdatedOn,
 		signalIndexCache:         [2]*SignalIndexCache{NewSignalIndexCache(), NewSignalIndexCache()},
+		disconnectSignal:         make(chan struct{}),
 	}
 
 	return ds
@@ -676,6 +678,15 @@ func (ds *DataSubscriber) Disconnect() {
 	ds.disconnect(false, false, true)
 }
 
+// Disconnecting gets a channel that is closed when a disconnect is requested, this allows
+// callbacks to stop waiting for data to be consumed.
+func (ds *DataSubscriber) Disconnecting() <-chan struct{} {
+	ds.disconnectThreadMutex.Lock()
+	defer ds.disconnectThreadMutex.Unlock()
+
+	return ds.disconnectSignal
+}
+
 func (ds *DataSubscriber) disconnect(joinThread bool, autoReconnecting bool, includeListener bool) {
 	if !autoReconnecting {
 		// Interrupt any pending connection sequence
@@ -706,6 +717,7 @@ func (ds *DataSubscriber) startDisconnectThread(autoReconnecting bool, includeLi
 		}
 
 		ds.disconnectRequested = true
+		close(ds.disconnectSignal)
 	}
 
 	// Notify running threads that the subscriber is disconnecting, i.e., disconnect thread is active
@@ -794,6 +806,7 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 
 	if !autoReconnecting {
 		ds.disconnectRequested = false
+		ds.disconnectSignal = make(chan struct{})
 	}
 
 	// State does not change when a user requested disconnect is waiting to follow
-- 
2.43.0


From f1e30cf5c7030d400263e869c111c38739e3885c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:09 +0000
Subject: [PATCH 58/69] fix: report an error when a TSSC buffer is cut short
 instead of panicking

---
 sttp/transport/tssc/Decoder.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/sttp/transport/tssc/Decoder.go b/sttp/transport/tssc/Decoder.go
index 128921e..222c597 100644
--- a/sttp/transport/tssc/Decoder.go
+++ b/sttp/transport/tssc/Decoder.go
@@ -28,6 +28,7 @@ package tssc
 import (
 	"fmt"
 	"math"
+	"runtime"
 )
 
 // Decoder is the decoder for the Time-Series Special Compression (TSSC) algorithm of STTP.
@@ -95,7 +96,18 @@ func (td *Decoder) SetBuffer(data []byte) {
 
 // TryGetMeasurement attempts to get the next decoded measurement from the working buffer.
 //gocyclo:ignore
-func (td *Decoder) TryGetMeasurement(id *int32, timestamp *int64, stateFlags *uint32, value *float32) (bool, error) {
+func (td *Decoder) TryGetMeasurement(id *int32, timestamp *int64, stateFlags *uint32, value *float32) (ok bool, err error) {
+	// A working buffer that is cut short must not be read past its end
+	defer func() {
+		if recovered := recover(); recovered != nil {
+			if _, isRuntimeErr := recovered.(runtime.Error); !isRuntimeErr {
+				panic(recovered)
+			}
+
+			ok, err = false, fmt.Errorf("unexpected end of buffer at position %d with last position %d", td.position, td.lastPosition)
+		}
+	}()
+
 	if td.position == td.lastPosition && td.bitStreamIsEmpty() {
 		td.clearBitStream()
 		*id = 0
@@ -153,7 +165,6 @@ func (td *Decoder) TryGetMeasurement(id *int32, timestamp *int64, stateFlags *ui
 	// Assign decoded measurement ID to out parameter
 	*id = td.lastPoint.PrevNextPointID1
 	var nextPoint *pointMetadata
-	var ok bool
 
 	// Setup tracking for metadata associated with measurement ID and next point to decode
 	if nextPoint, ok = td.points[*id]; !ok || nextPoint == nil {
-- 
2.43.0


From ecfadc77f19f0341b1668055a82664b4ed390c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:04:18 +0000
Subject: [PATCH 59/69] fix: measurement reader delivers nothing after
 measurements dropped by a disconnect

---
 sttp/MeasurementReader.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sttp/MeasurementReader.go b/sttp/MeasurementReader.go
index 09b8141..160cdf1 100644
--- a/sttp/MeasurementReader.go
+++ b/sttp/MeasurementReader.go
@@ -46,6 +46,13 @@ func newMeasurementReader(parent *Subscriber) *MeasurementReader {
 	parent.SetNewMeasurementsReceiver(func(measurements *[]transport.Measurement) {
 		disconnecting := parent.dataSubscriber().Disconnecting()
 
+		// Nothing may follow measurements already dropped by a disconnect
+		select {
+		case <-disconnecting:
+			return
+		default:
+		}
+
 		for i := range *measurements {
 			m := (*measurements)[i]
 
-- 
2.43.0


From 2d313d2cb203bf88ea34e3bf434b69a0ff3410f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:04:18 +0000
Subject: [PATCH 60/69] fix: listening replaces an automatic reconnect in
 progress

---
 sttp/transport/DataSubscriber.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 8d080c6..64648b9 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -466,8 +466,16 @@ func (ds *DataSubscriber) Listen(port uint16, networkInterface string) error {
 		return errors.New("subscriber is already connected; disconnect first")
 	}
 
-	// Make sure any pending disconnect has completed to make sure socket is closed
-	ds.joinDisconnect()
+	// Make sure any pending disconnect has completed to make sure socket is closed,
+	// also, listening replaces any automatic reconnect still in progress
+	if ds.joinDisconnect() {
+		ds.connector.Cancel()
+	}
+
+	// Automatic reconnect may have completed while waiting
+	if ds.connected.IsSet() {
+		return errors.New("subscriber is already connected; disconnect first")
+	}
 
 	ds.listeningSocketMutex.Lock()
 	defer ds.listeningSocketMutex.Unlock()
-- 
2.43.0


From a6ce3b70cd826d269402dec7622dfef3870f60f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:14 +0000
Subject: [PATCH 61/69] fix: do not connect or listen with a subscriber that
 has been closed

---
 sttp/transport/DataSubscriber.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 64648b9..7775304 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -350,7 +350,7 @@ func (ds *DataSubscriber) connect(hostName string, port uint16, autoReconnecting
 		return errors.New("subscriber is already connected; disconnect first")
 	}
 
-	if ds.disconnecting.IsSet() || autoReconnecting && ds.connector.cancel.IsSet() {
+	if ds.disconnecting.IsSet() || ds.disposing.IsSet() || autoReconnecting && ds.connector.cancel.IsSet() {
 		return errors.New("subscriber is disconnecting; connection canceled")
 	}
 
@@ -485,7 +485,7 @@ func (ds *DataSubscriber) Listen(port uint16, networkInterface string) error {
 		return errors.New("subscriber is already listening; disconnect first")
 	}
 
-	if ds.disconnecting.IsSet() {
+	if ds.disconnecting.IsSet() || ds.disposing.IsSet() {
 		return errors.New("subscriber is disconnecting; cannot listen")
 	}
 
-- 
2.43.0


From 49f5e3ae751c9414cf8ee797f3b3572bce63da2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:08 +0000
Subject: [PATCH 62/69] fix: do not automatically reconnect while listening

---
 sttp/transport/SubscriberConnector.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sttp/transport/SubscriberConnector.go b/sttp/transport/SubscriberConnector.go
index c5e60b3..ae14908 100644
--- a/sttp/transport/SubscriberConnector.go
+++ b/sttp/transport/SubscriberConnector.go
@@ -80,7 +80,8 @@ type SubscriberConnector struct {
 func (ds *DataSubscriber) autoReconnect() {
 	sc := ds.connector
 
-	if !sc.AutoReconnect || sc.cancel.IsSet() || ds.disposing.IsSet() {
+	// Connections accepted while listening are reestablished by the publisher
+	if !sc.AutoReconnect || sc.cancel.IsSet() || ds.disposing.IsSet() || ds.listening.IsSet() {
 		return
 	}
 
-- 
2.43.0


From 735cf2202742fb50230b2ea405784b7771e3c316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:24:20 +0000
Subject: [PATCH 63/69] fix: allow access to columns added after a row was
 created

---
 sttp/data/DataRow.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index be4d2d3..59f8392 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -78,6 +78,11 @@ func (dr *DataRow) validateColumnType(columnIndex, targetType int, read bool) (*
 		return nil, errors.New("column index " + strconv.Itoa(columnIndex) + " is out of range for table \"" + dr.parent.Name() + "\"")
 	}
 
+	// Columns can be added to table after row was created
+	if columnIndex >= len(dr.values) {
+		dr.values = append(dr.values, make([]interface{}, columnIndex+1-len(dr.values))...)
+	}
+
 	if targetType > -1 && column.Type() != DataTypeEnum(targetType) {
 		var action string
 		var preposition string
-- 
2.43.0


From b85c03222a8c65ba6a795eb0e4ca27c9bcd5b5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:25:13 +0000
Subject: [PATCH 64/69] fix: clear base time offset flag when no base time is
 available

---
 sttp/transport/CompactMeasurement.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sttp/transport/CompactMeasurement.go b/sttp/transport/CompactMeasurement.go
index c8aad25..93b76d9 100644
--- a/sttp/transport/CompactMeasurement.go
+++ b/sttp/transport/CompactMeasurement.go
@@ -186,6 +186,7 @@ func (cm *CompactMeasurement) GetBinaryLength() uint32 {
 		}
 	} else {
 		// Use eight bytes for full fidelity time
+		cm.usingBaseTimeOffset = false
 		length += 8
 	}
 
-- 
2.43.0


From f1d62670546275f55504a7123718323cab4e8db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:02:01 +0000
Subject: [PATCH 65/69] fix: compare XPath predicate values that contain an
 equals sign

---
 sttp/xml/XmlNode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sttp/xml/XmlNode.go b/sttp/xml/XmlNode.go
index 54e4cd3..91f6742 100644
--- a/sttp/xml/XmlNode.go
+++ b/sttp/xml/XmlNode.go
@@ -205,7 +205,7 @@ func isMatch(value, name string) bool {
 }
 
 func (xn *XmlNode) attributeMatch(expr string) bool {
-	parts := strings.Split(expr, "=")
+	parts := strings.SplitN(expr, "=", 2)
 
 	for i := 0; i < len(parts); i++ {
 		parts[i] = strings.TrimSpace(parts[i])
@@ -247,7 +247,7 @@ func (xn *XmlNode) childValueMatch(expr string) bool {
 }
 
 func (xn *XmlNode) valueMatch(expr string) bool {
-	parts := strings.Split(expr, "=")
+	parts := strings.SplitN(expr, "=", 2)
 
 	for i := 0; i < len(parts); i++ {
 		parts[i] = strings.TrimSpace(parts[i])
-- 
2.43.0


From 21cc5fe23d45b2fe71ddf38a0ec8fc8e87fcc7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:48:34 +0000
Subject: [PATCH 66/69] fix: parse again after a failed attempt to get
 expression trees

Asking for the trees a second time after a failure returned the trees
made before the failure without an error. An expression of identifiers
only was parsed on each request, which doubled its statement count.
---
 sttp/data/FilterExpressionParser.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index 448cdae..101b23c 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -55,6 +55,7 @@ type FilterExpressionParser struct {
 
 	filterExpressionStatementCount int
 
+	parsed               bool
 	activeExpressionTree *ExpressionTree
 	expressionTrees      []*ExpressionTree
 	expressions          map[antlr.ParserRuleContext]Expression
@@ -137,7 +138,10 @@ func (fep *FilterExpressionParser) SetParsingExceptionCallback(callback func(mes
 
 // ExpressionTrees gets the expression trees, parsing the filter expression if needed.
 func (fep *FilterExpressionParser) ExpressionTrees() ([]*ExpressionTree, error) {
-	if len(fep.expressionTrees) == 0 {
+	if !fep.parsed {
+		fep.filterExpressionStatementCount = 0
+		fep.expressionTrees = make([]*ExpressionTree, 0)
+
 		if err := fep.visitParseTreeNodes(); err != nil {
 			return nil, err
 		}
@@ -298,6 +302,8 @@ func (fep *FilterExpressionParser) visitParseTreeNodes() (err error) {
 		}
 	}()
 
+	fep.parsed = false
+
 	// Create a parse tree and start visiting listener methods
 	walker := antlr.NewParseTreeWalker()
 	fep.tokens.Seek(0)
@@ -310,6 +316,7 @@ func (fep *FilterExpressionParser) visitParseTreeNodes() (err error) {
 	}
 
 	walker.Walk(fep, parseTree)
+	fep.parsed = true
 
 	return err
 }
-- 
2.43.0


From 79e4424cd4d809015a8335889a45adfafa0102ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:06:46 +0000
Subject: [PATCH 67/69] fix: name the command that confirms a base time update

---
 sttp/transport/Constants.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sttp/transport/Constants.go b/sttp/transport/Constants.go
index 0d99e8b..132f73b 100644
--- a/sttp/transport/Constants.go
+++ b/sttp/transport/Constants.go
@@ -366,6 +366,8 @@ func (sce ServerCommandEnum) String() string {
 		return "ConfirmNotification"
 	case ServerCommand.ConfirmBufferBlock:
 		return "ConfirmBufferBlock"
+	case ServerCommand.ConfirmUpdateBaseTimes:
+		return "ConfirmUpdateBaseTimes"
 	case ServerCommand.ConfirmUpdateSignalIndexCache:
 		return "ConfirmUpdateSignalIndexCache"
 	case ServerCommand.ConfirmUpdateCipherKeys:
-- 
2.43.0


From 423f7a2a1c764bd39812ffa29fc65b0da6f2262a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:01:43 +0000
Subject: [PATCH 68/69] fix: connect to and listen on IPv6 addresses

---
 sttp/transport/DataSubscriber.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 7775304..4a58f8a 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -366,7 +366,7 @@ func (ds *DataSubscriber) connect(hostName string, port uint16, autoReconnecting
 	ds.connector.connectionRefused.UnSet()
 
 	// TODO: Add TLS implementation options
-	conn, err := net.Dial("tcp", hostName+":"+strconv.Itoa(int(port)))
+	conn, err := net.Dial("tcp", joinHostPort(hostName, port))
 
 	if err == nil {
 		ds.establishConnection(conn, false)
@@ -375,6 +375,11 @@ func (ds *DataSubscriber) connect(hostName string, port uint16, autoReconnecting
 	return err
 }
 
+// joinHostPort combines host and port into a network address, IPv6 addresses get enclosed in brackets.
+func joinHostPort(hostName string, port uint16) string {
+	return net.JoinHostPort(strings.Trim(hostName, "[]"), strconv.Itoa(int(port)))
+}
+
 // joinDisconnect waits for any pending disconnect to complete. Returns true if there
 // has been a disconnect; otherwise, false.
 func (ds *DataSubscriber) joinDisconnect() bool {
@@ -490,7 +495,7 @@ func (ds *DataSubscriber) Listen(port uint16, networkInterface string) error {
 	}
 
 	// TODO: Add TLS implementation options
-	listeningSocket, err := net.Listen("tcp", networkInterface+":"+strconv.Itoa(int(port)))
+	listeningSocket, err := net.Listen("tcp", joinHostPort(networkInterface, port))
 
 	if err != nil {
 		return err
-- 
2.43.0


From 15b67b720bb05f749e3f0c892f92e1d1541a0001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:01:43 +0000
Subject: [PATCH 69/69] fix: report a subscription that could not be requested

---
 sttp/Subscriber.go               | 13 ++++++++++---
 sttp/transport/DataSubscriber.go |  4 +++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/sttp/Subscriber.go b/sttp/Subscriber.go
index 4ae670b..be24417 100644
--- a/sttp/Subscriber.go
+++ b/sttp/Subscriber.go
@@ -424,7 +424,14 @@ func (sb *Subscriber) Subscribe(filterExpression string, settings *Settings) {
 	sub.ExtraConnectionStringParameters = settings.ExtraConnectionStringParameters
 
 	if ds.IsConnected() {
-		ds.SubscribeOnValidation()
+		sb.reportSubscribeError(ds.SubscribeOnValidation())
+	}
+}
+
+// reportSubscribeError reports error of a subscription that could not be requested.
+func (sb *Subscriber) reportSubscribeError(err error) {
+	if err != nil {
+		sb.ErrorMessage("Failed to subscribe: " + err.Error())
 	}
 }
 
@@ -500,7 +507,7 @@ func (sb *Subscriber) handleConnect() {
 	if sb.config.AutoRequestMetadata {
 		sb.RequestMetadata()
 	} else if sb.config.AutoSubscribe {
-		sb.dataSubscriber().SubscribeOnValidation()
+		sb.reportSubscribeError(sb.dataSubscriber().SubscribeOnValidation())
 	}
 }
 
@@ -536,7 +543,7 @@ func (sb *Subscriber) handleMetadataReceived(metadata []byte) {
 	}
 
 	if sb.config.AutoRequestMetadata && sb.config.AutoSubscribe {
-		sb.dataSubscriber().Subscribe()
+		sb.reportSubscribeError(sb.dataSubscriber().Subscribe())
 	}
 }
 
diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 4a58f8a..612003e 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -1127,7 +1127,9 @@ func (ds *DataSubscriber) processServerResponse(buffer []byte) {
 		ds.validated.Set()
 
 		if ds.subscribeOnValidation.SetToIf(true, false) {
-			ds.Subscribe()
+			if err := ds.Subscribe(); err != nil {
+				ds.dispatchErrorMessage("Failed to subscribe: " + err.Error())
+			}
 		}
 	}
 
-- 
2.43.0

