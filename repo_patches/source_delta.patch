From 5e3474737d44b0fea8a9030ed4c0511a9e1519b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:57 +0000
Subject: [PATCH 01/26] fix: evaluate arithmetic left to right, with nulls and
 errors propagated

Additions were all evaluated before subtractions, '^' never terminated,
list + list gave null, an error in a product could be overwritten by a
later factor, null factors were reported as errors, adding to a boolean
or map returned the first operand, and multiplying or dividing a
duration by a float truncated the float first (dividing by zero).
---
 arithmeticeval.go | 42 +++++++++++++++++-------------------------
 ast.go            | 24 ++++++++++++++++--------
 2 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 80c3059..433e98b 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -53,13 +53,13 @@ func (expr *powerOfExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		Value: val.Get(),
 		Const: val.IsConst(),
 	}
-	for i := 1; 1 < len(expr.parts); i++ {
+	for i := 1; i < len(expr.parts); i++ {
 		val, err := expr.parts[i].Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
 		v := val.Get()
-		if v == nil {
+		if v == nil || ret.Value == nil {
 			return RValue{}, nil
 		}
 		var valValue float64
@@ -172,24 +172,22 @@ func mulintdur(a int64, b Duration, op rune) (Duration, error) {
 }
 
 func muldurfloat(a Duration, b float64, op rune) (Duration, error) {
-	val := int64(b)
 	switch op {
 	case '*':
-		return Duration{Months: int64(a.Months * val), Days: int64(a.Days * val), Seconds: int64(a.Seconds * val), Nanos: a.Nanos * int(val)}, nil
+		return Duration{Months: int64(float64(a.Months) * b), Days: int64(float64(a.Days) * b), Seconds: int64(float64(a.Seconds) * b), Nanos: int(float64(a.Nanos) * b)}, nil
 	case '/':
 		if b == 0 {
 			return Duration{}, ErrDivideByZero
 		}
-		return Duration{Months: int64(a.Months / val), Days: int64(a.Days / val), Seconds: int64(a.Seconds / val), Nanos: a.Nanos / int(val)}, nil
+		return Duration{Months: int64(float64(a.Months) / b), Days: int64(float64(a.Days) / b), Seconds: int64(float64(a.Seconds) / b), Nanos: int(float64(a.Nanos) / b)}, nil
 	}
 	return Duration{}, ErrInvalidDurationOperation
 }
 
 func mulfloatdur(a float64, b Duration, op rune) (Duration, error) {
-	val := int64(a)
 	switch op {
 	case '*':
-		return Duration{Months: b.Months * val, Days: b.Days * val, Seconds: b.Seconds * val, Nanos: b.Nanos * int(val)}, nil
+		return muldurfloat(b, a, op)
 	default:
 		return Duration{}, ErrInvalidDurationOperation
 	}
@@ -222,7 +220,7 @@ func (expr *multiplyDivideModuloExpression) Evaluate(ctx *EvalContext) (Value, e
 			ret.Value = val.Get()
 			ret.Const = val.IsConst()
 		} else {
-			if ret.Value == nil {
+			if ret.Value == nil || val.Get() == nil {
 				return RValue{}, nil
 			}
 			ret.Const = ret.Const && val.IsConst()
@@ -261,11 +259,11 @@ func (expr *multiplyDivideModuloExpression) Evaluate(ctx *EvalContext) (Value, e
 			default:
 				err = ErrInvalidMultiplicativeOperation
 			}
+			if err != nil {
+				return nil, err
+			}
 		}
 	}
-	if err != nil {
-		return nil, err
-	}
 	if ret.Const {
 		expr.constValue = &ret
 	}
@@ -374,6 +372,7 @@ func addlistlist(a, b []Value) RValue {
 		}
 		arr = append(arr, x)
 	}
+	ret.Value = arr
 	return ret
 }
 
@@ -381,8 +380,8 @@ func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
 	if expr.constValue != nil {
 		return expr.constValue, nil
 	}
-	if len(expr.add) == 1 && len(expr.sub) == 0 {
-		ret, err := expr.add[0].Evaluate(ctx)
+	if len(expr.parts) == 1 {
+		ret, err := expr.parts[0].expr.Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
@@ -479,25 +478,18 @@ func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
 			default:
 				err = ErrInvalidAdditiveOperation
 			}
+		default:
+			err = ErrInvalidAdditiveOperation
 		}
 		return err
 	}
 
-	for i := range expr.add {
-		val, err := expr.add[i].Evaluate(ctx)
-		if err != nil {
-			return RValue{}, err
-		}
-		if err = accumulate(val, false); err != nil {
-			return RValue{}, err
-		}
-	}
-	for i := range expr.sub {
-		val, err := expr.sub[i].Evaluate(ctx)
+	for i := range expr.parts {
+		val, err := expr.parts[i].expr.Evaluate(ctx)
 		if err != nil {
 			return RValue{}, err
 		}
-		if err = accumulate(val, true); err != nil {
+		if err = accumulate(val, expr.parts[i].sub); err != nil {
 			return RValue{}, err
 		}
 	}
diff --git a/ast.go b/ast.go
index 0da0b8a..ab4693a 100644
--- a/ast.go
+++ b/ast.go
@@ -122,12 +122,17 @@ type partialComparisonExpression struct {
 }
 
 type addOrSubtractExpression struct {
-	add []Expression
-	sub []Expression
+	parts []addOrSubtractExpressionPart
 
 	constValue Value
 }
 
+type addOrSubtractExpressionPart struct {
+	// sub is always false for the first element of parts
+	sub  bool
+	expr Expression
+}
+
 type multiplyDivideModuloExpression struct {
 	parts []multiplyDivideModuloExpressionPart
 
@@ -670,26 +675,29 @@ func oC_ComparisonExpression(ctx *parser.OC_ComparisonExpressionContext) Express
 //
 func oC_AddOrSubtractExpression(ctx *parser.OC_AddOrSubtractExpressionContext) Expression {
 	ret := &addOrSubtractExpression{}
-	target := &ret.add
+	sub := false
 	count := ctx.GetChildCount()
 	for child := 0; child < count; child++ {
 		ch := ctx.GetChild(child)
 		expr, ok := ch.(*parser.OC_MultiplyDivideModuloExpressionContext)
 		if ok {
-			(*target) = append(*target, oC_MultiplyDivideModuloExpression(expr))
+			ret.parts = append(ret.parts, addOrSubtractExpressionPart{
+				sub:  sub,
+				expr: oC_MultiplyDivideModuloExpression(expr),
+			})
 		} else {
 			term, ok := ch.(antlr.TerminalNode)
 			if ok {
 				if term.GetText() == "+" {
-					target = &ret.add
+					sub = false
 				} else if term.GetText() == "-" {
-					target = &ret.sub
+					sub = true
 				}
 			}
 		}
 	}
-	if len(ret.add) == 1 && len(ret.sub) == 0 {
-		return ret.add[0]
+	if len(ret.parts) == 1 {
+		return ret.parts[0].expr
 	}
 	return ret
 }
-- 
2.43.0


From 8e7a4e4f6cb0fc7bf7520cd96c1936424500a2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:39 +0000
Subject: [PATCH 02/26] fix: compare values consistently

'>=' was not recognised, a chained comparison kept only its last part
(and compared with the first operand), later dates and times compared
equal, integer comparison overflowed, and durations had no consistent
order.
---
 ast.go            |  2 +-
 duration.go       | 14 ++++++++++++++
 relationaleval.go | 49 ++++++++++++++++++++++++++---------------------
 3 files changed, 42 insertions(+), 23 deletions(-)

diff --git a/ast.go b/ast.go
index ab4693a..fa27610 100644
--- a/ast.go
+++ b/ast.go
@@ -846,7 +846,7 @@ func oC_PartialComparisonExpression(ctx *parser.OC_PartialComparisonExpressionCo
 	for i := 0; i < ctx.GetChildCount(); i++ {
 		if tok, ok := ctx.GetChild(i).(antlr.TerminalNode); ok {
 			t := tok.GetText()
-			if t == "=" || t == "<>" || t == "<" || t == ">" || t == "<=" || t == "=>" {
+			if t == "=" || t == "<>" || t == "<" || t == ">" || t == "<=" || t == ">=" {
 				ret.op = t
 			}
 		}
diff --git a/duration.go b/duration.go
index 4b5a29e..5975f88 100644
--- a/duration.go
+++ b/duration.go
@@ -37,3 +37,17 @@ func (d Duration) String() string {
 func (d1 Duration) Equal(d2 Duration) bool {
 	return d1.Months == d2.Months && d1.Days == d2.Days && d1.Seconds == d2.Seconds && d1.Nanos == d2.Nanos
 }
+
+// less orders durations by months, then days, then seconds, then nanos
+func (d1 Duration) less(d2 Duration) bool {
+	if d1.Months != d2.Months {
+		return d1.Months < d2.Months
+	}
+	if d1.Days != d2.Days {
+		return d1.Days < d2.Days
+	}
+	if d1.Seconds != d2.Seconds {
+		return d1.Seconds < d2.Seconds
+	}
+	return d1.Nanos < d2.Nanos
+}
diff --git a/relationaleval.go b/relationaleval.go
index c3eef27..e4082fc 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -27,7 +27,13 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 	case int:
 		switch value2 := v2.(type) {
 		case int:
-			return value1 - value2, nil
+			if value1 == value2 {
+				return 0, nil
+			}
+			if value1 < value2 {
+				return -1, nil
+			}
+			return 1, nil
 		case float64:
 			if float64(value1) == value2 {
 				return 0, nil
@@ -68,19 +74,10 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 		}
 	case Duration:
 		if dur, ok := v2.(Duration); ok {
-			if value1.Days == dur.Days && value1.Months == dur.Months && value1.Seconds == dur.Seconds && value1.Nanos == dur.Nanos {
+			if value1.Equal(dur) {
 				return 0, nil
 			}
-			if value1.Days < dur.Days {
-				return -1, nil
-			}
-			if value1.Months < dur.Months {
-				return -1, nil
-			}
-			if value1.Seconds < dur.Seconds {
-				return -1, nil
-			}
-			if value1.Nanos < dur.Nanos {
+			if value1.less(dur) {
 				return -1, nil
 			}
 			return 1, nil
@@ -95,7 +92,7 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 			if t1.Before(t2) {
 				return -1, nil
 			}
-			return 0, nil
+			return 1, nil
 		}
 	case LocalTime:
 		if date, ok := v2.(LocalTime); ok {
@@ -107,7 +104,7 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 			if t1.Before(t2) {
 				return -1, nil
 			}
-			return 0, nil
+			return 1, nil
 		}
 	case LocalDateTime:
 		if date, ok := v2.(LocalDateTime); ok {
@@ -119,7 +116,7 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 			if t1.Before(t2) {
 				return -1, nil
 			}
-			return 0, nil
+			return 1, nil
 		}
 	}
 	return 0, ErrInvalidComparison
@@ -132,17 +129,19 @@ func (expr comparisonExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		return nil, err
 	}
 
-	if val.Get() == nil {
-		return RValue{}, nil
-	}
-	ret := RValue{Value: val.Get(), Const: val.IsConst()}
+	// a < b < c means (a < b) AND (b < c)
+	hasNull := false
+	ret := RValue{Value: true, Const: val.IsConst()}
 	for i := range expr.second {
 		second, err := expr.second[i].expr.Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
-		if second.Get() == nil {
-			return RValue{}, nil
+		ret.Const = ret.Const && second.IsConst()
+		if val.Get() == nil || second.Get() == nil {
+			hasNull = true
+			val = second
+			continue
 		}
 		result, err := comparePrimitiveValues(val.Get(), second.Get())
 		if err != nil {
@@ -162,7 +161,13 @@ func (expr comparisonExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		case ">=":
 			ret.Value = result >= 0
 		}
-		ret.Const = ret.Const && second.IsConst()
+		if ret.Value == false {
+			return ret, nil
+		}
+		val = second
+	}
+	if hasNull {
+		return RValue{}, nil
 	}
 	return ret, nil
 }
-- 
2.43.0


From 53b047ee89f5f2941a0944dba6d05db2b6cccc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:13 +0000
Subject: [PATCH 03/26] fix: AND and OR follow three-valued logic when an
 operand is null

false AND null is false and true OR null is true; both gave null.
---
 relationaleval.go | 66 +++++++++++++++++++++--------------------------
 1 file changed, 30 insertions(+), 36 deletions(-)

diff --git a/relationaleval.go b/relationaleval.go
index e4082fc..71772a2 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -188,32 +188,29 @@ func (expr notExpression) Evaluate(ctx *EvalContext) (Value, error) {
 }
 
 func (expr andExpression) Evaluate(ctx *EvalContext) (Value, error) {
-	var ret RValue
+	ret := RValue{Value: true, Const: true}
+	hasNull := false
 	for i := range expr.parts {
 		val, err := expr.parts[i].Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
 		if val.Get() == nil {
-			return RValue{}, nil
+			hasNull = true
+			continue
 		}
-		if i == 0 {
-			ret = RValue{Value: val.Get(), Const: val.IsConst()}
-		} else {
-			bval, ok := ret.Value.(bool)
-			if !ok {
-				return nil, ErrNotABooleanExpression
-			}
-			vval, ok := val.Get().(bool)
-			if !ok {
-				return nil, ErrNotABooleanExpression
-			}
-			ret.Const = ret.Const && val.IsConst()
-			ret.Value = bval && vval
-			if !bval || !vval {
-				break
-			}
+		vval, ok := val.Get().(bool)
+		if !ok {
+			return nil, ErrNotABooleanExpression
 		}
+		ret.Const = ret.Const && val.IsConst()
+		ret.Value = vval
+		if !vval {
+			return ret, nil
+		}
+	}
+	if hasNull {
+		return RValue{}, nil
 	}
 	return ret, nil
 }
@@ -247,32 +244,29 @@ func (expr xorExpression) Evaluate(ctx *EvalContext) (Value, error) {
 }
 
 func (expr orExpression) Evaluate(ctx *EvalContext) (Value, error) {
-	var ret RValue
+	ret := RValue{Value: false, Const: true}
+	hasNull := false
 	for i := range expr.parts {
 		val, err := expr.parts[i].Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
 		if val.Get() == nil {
-			return RValue{}, nil
+			hasNull = true
+			continue
 		}
-		if i == 0 {
-			ret = RValue{Value: val.Get(), Const: val.IsConst()}
-		} else {
-			bval, ok := ret.Value.(bool)
-			if !ok {
-				return nil, ErrNotABooleanExpression
-			}
-			vval, ok := val.Get().(bool)
-			if !ok {
-				return nil, ErrNotABooleanExpression
-			}
-			ret.Const = ret.Const && val.IsConst()
-			ret.Value = bval || vval
-			if bval || vval {
-				break
-			}
+		vval, ok := val.Get().(bool)
+		if !ok {
+			return nil, ErrNotABooleanExpression
 		}
+		ret.Const = ret.Const && val.IsConst()
+		ret.Value = vval
+		if vval {
+			return ret, nil
+		}
+	}
+	if hasNull {
+		return RValue{}, nil
 	}
 	return ret, nil
 }
-- 
2.43.0


From e24a71614fbd83e401b54be516520e9de2a33ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:34 +0000
Subject: [PATCH 04/26] fix: IN, list slices and map indexing

'x IN list' rejected every list, list[a..] and list[..b] were taken for an
index, slices dropped the last element and rejected negative bounds, and
maps could not be indexed.
---
 ast.go  |  27 ++++++++++++---
 eval.go | 105 +++++++++++++++++++++++++++++++++++---------------------
 2 files changed, 88 insertions(+), 44 deletions(-)

diff --git a/ast.go b/ast.go
index fa27610..b9e4e69 100644
--- a/ast.go
+++ b/ast.go
@@ -171,6 +171,7 @@ type stringListNullOperatorExpressionPart struct {
 	isNull    *bool
 }
 
+// listRangeExpression bounds are nil when omitted
 type listRangeExpression struct {
 	first  Expression
 	second Expression
@@ -789,16 +790,32 @@ func oC_ListOperatorExpression(ctx *parser.OC_ListOperatorExpressionContext) str
 			listIn: oC_PropertyOrLabelsExpression(x.(*parser.OC_PropertyOrLabelsExpressionContext)),
 		}
 	}
-	expr := ctx.AllOC_Expression()
-	if len(expr) == 1 {
+	// Either [ expr ], or [ expr? .. expr? ]
+	var first, second Expression
+	isRange := false
+	for i := 0; i < ctx.GetChildCount(); i++ {
+		switch ch := ctx.GetChild(i).(type) {
+		case antlr.TerminalNode:
+			if ch.GetText() == ".." {
+				isRange = true
+			}
+		case *parser.OC_ExpressionContext:
+			if isRange {
+				second = oC_Expression(ch)
+			} else {
+				first = oC_Expression(ch)
+			}
+		}
+	}
+	if !isRange {
 		return stringListNullOperatorExpressionPart{
-			listIndex: oC_Expression(expr[0].(*parser.OC_ExpressionContext)),
+			listIndex: first,
 		}
 	}
 	return stringListNullOperatorExpressionPart{
 		listRange: &listRangeExpression{
-			first:  oC_Expression(expr[0].(*parser.OC_ExpressionContext)),
-			second: oC_Expression(expr[1].(*parser.OC_ExpressionContext)),
+			first:  first,
+			second: second,
 		}}
 }
 
diff --git a/eval.go b/eval.go
index b13ff57..8babce5 100644
--- a/eval.go
+++ b/eval.go
@@ -85,6 +85,9 @@ func (expr stringListNullOperatorExpressionPart) evaluate(ctx *EvalContext, inpu
 		return RValue{Value: inputValue.Get() != nil}, nil
 
 	case expr.listIndex != nil:
+		if mapValue, ok := inputValue.Get().(map[string]Value); ok {
+			return expr.evaluateMapKey(ctx, mapValue)
+		}
 		listValue, ok := inputValue.Get().([]Value)
 		if !ok {
 			if inputValue.Get() != nil {
@@ -122,13 +125,14 @@ func (expr stringListNullOperatorExpressionPart) evaluate(ctx *EvalContext, inpu
 		if err != nil {
 			return nil, err
 		}
+		if listValue.Get() == nil {
+			return RValue{}, nil
+		}
 		list, ok := listValue.Get().([]Value)
-		if ok {
-			if listValue.Get() != nil {
-				return nil, ErrNotAList
-			}
+		if !ok {
+			return nil, ErrNotAList
 		}
-		if inputValue.Get() == nil {
+		if inputValue.Get() == nil && len(list) > 0 {
 			return RValue{}, nil
 		}
 		hasNull := false
@@ -158,43 +162,47 @@ func (expr stringListNullOperatorExpressionPart) evaluate(ctx *EvalContext, inpu
 				return nil, ErrNotAList
 			}
 		}
-		from, err := expr.listRange.first.Evaluate(ctx)
-		if err != nil {
-			return nil, err
-		}
-		if from.Get() == nil {
-			return RValue{}, nil
-		}
-		if !from.IsConst() {
-			constant = false
-		}
-		fromi, ok := from.Get().(int)
-		if !ok {
-			return nil, ErrInvalidListIndex
-		}
-		to, err := expr.listRange.second.Evaluate(ctx)
-		if err != nil {
-			return nil, err
+		fromi, toi := 0, len(listValue)
+		hasNull := false
+		for _, bound := range []struct {
+			expr   Expression
+			target *int
+		}{
+			{expr.listRange.first, &fromi},
+			{expr.listRange.second, &toi},
+		} {
+			if bound.expr == nil {
+				continue
+			}
+			value, err := bound.expr.Evaluate(ctx)
+			if err != nil {
+				return nil, err
+			}
+			if !value.IsConst() {
+				constant = false
+			}
+			if value.Get() == nil {
+				hasNull = true
+				continue
+			}
+			index, ok := value.Get().(int)
+			if !ok {
+				return nil, ErrInvalidListIndex
+			}
+			if index < 0 {
+				index += len(listValue)
+			}
+			if index < 0 {
+				index = 0
+			}
+			if index > len(listValue) {
+				index = len(listValue)
+			}
+			*bound.target = index
 		}
-		if to.Get() == nil {
+		if hasNull || inputValue.Get() == nil {
 			return RValue{}, nil
 		}
-		if !to.IsConst() {
-			constant = false
-		}
-		toi, ok := to.Get().(int)
-		if !ok {
-			return nil, ErrInvalidListIndex
-		}
-		if fromi < 0 || toi < 0 {
-			return nil, ErrInvalidListIndex
-		}
-		if fromi >= len(listValue) {
-			fromi = len(listValue) - 1
-		}
-		if toi >= len(listValue) {
-			toi = len(listValue) - 1
-		}
 		if fromi > toi {
 			fromi = toi
 		}
@@ -210,6 +218,25 @@ func (expr stringListNullOperatorExpressionPart) evaluate(ctx *EvalContext, inpu
 	return expr.stringOp.evaluate(ctx, inputValue)
 }
 
+// evaluateMapKey evaluates map[key]
+func (expr stringListNullOperatorExpressionPart) evaluateMapKey(ctx *EvalContext, mapValue map[string]Value) (Value, error) {
+	key, err := expr.listIndex.Evaluate(ctx)
+	if err != nil {
+		return nil, err
+	}
+	if key.Get() == nil {
+		return RValue{}, nil
+	}
+	str, ok := key.Get().(string)
+	if !ok {
+		return nil, ErrMapKeyNotString
+	}
+	if value, ok := mapValue[str]; ok {
+		return value, nil
+	}
+	return RValue{}, nil
+}
+
 func (expr stringOperatorExpression) evaluate(ctx *EvalContext, inputValue Value) (Value, error) {
 	inputStrValue, ok := inputValue.Get().(string)
 	if !ok {
-- 
2.43.0


From 27e93b45e849e9e1bccbf7b8fcffab84b3b94b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:30 +0000
Subject: [PATCH 05/26] fix: nulls in CASE and string predicates, label
 predicates, map properties

A null WHEN condition, 'null STARTS WITH x', '{a:1}.a' and the n:Label
predicate were all reported as errors.
---
 eval.go | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/eval.go b/eval.go
index 8babce5..161705f 100644
--- a/eval.go
+++ b/eval.go
@@ -238,14 +238,17 @@ func (expr stringListNullOperatorExpressionPart) evaluateMapKey(ctx *EvalContext
 }
 
 func (expr stringOperatorExpression) evaluate(ctx *EvalContext, inputValue Value) (Value, error) {
-	inputStrValue, ok := inputValue.Get().(string)
-	if !ok {
-		return nil, ErrInvalidStringOperation
-	}
 	exprValue, err := expr.expr.Evaluate(ctx)
 	if err != nil {
 		return nil, err
 	}
+	if inputValue.Get() == nil || exprValue.Get() == nil {
+		return RValue{}, nil
+	}
+	inputStrValue, ok := inputValue.Get().(string)
+	if !ok {
+		return nil, ErrInvalidStringOperation
+	}
 	strValue, ok := exprValue.Get().(string)
 	if !ok {
 		return nil, ErrInvalidStringOperation
@@ -265,17 +268,6 @@ func (pl propertyOrLabelsExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		return nil, err
 	}
 	val := RValue{Value: v.Get()}
-	if pl.nodeLabels != nil {
-		gobj, ok := val.Value.(lpg.StringSet)
-		if !ok {
-			return nil, ErrNotAStringSet
-		}
-		for _, label := range *pl.nodeLabels {
-			str := label.String()
-			gobj.Add(str)
-		}
-		val.Value = gobj
-	}
 	type withProperty interface {
 		GetProperty(string) (interface{}, bool)
 	}
@@ -309,10 +301,28 @@ func (pl propertyOrLabelsExpression) Evaluate(ctx *EvalContext) (Value, error) {
 			} else {
 				val = ValueOf(prop).(RValue)
 			}
+		} else if m, isMap := val.Value.(map[string]Value); isMap {
+			if item, exists := m[property.String()]; exists {
+				val = RValue{Value: item.Get()}
+			} else {
+				val = RValue{}
+			}
 		} else {
 			return nil, ErrValueDoesNotHaveProperties{Value: val.Value, Property: property.String()}
 		}
 	}
+	if pl.nodeLabels != nil && val.Value != nil {
+		// The expression is a predicate: true if the node has all the labels
+		node, ok := val.Value.(*lpg.Node)
+		if !ok {
+			return nil, ErrNotAStringSet
+		}
+		hasLabels := true
+		for _, label := range *pl.nodeLabels {
+			hasLabels = hasLabels && node.HasLabel(label.String())
+		}
+		val.Value = hasLabels
+	}
 	return val, nil
 }
 
@@ -386,6 +396,9 @@ func (cs caseClause) Evaluate(ctx *EvalContext) (Value, error) {
 				return alternative.then.Evaluate(ctx)
 			}
 		} else {
+			if when.Get() == nil {
+				continue
+			}
 			boolValue, ok := when.Get().(bool)
 			if !ok {
 				return nil, ErrNotABooleanExpression
-- 
2.43.0


From 1b2284b07d66fd17b78be7e6bdfce3c0d5ee9e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:30 +0000
Subject: [PATCH 06/26] fix: labels(), size() and range()

labels() returned a []string that no other operation accepts, size()
counted bytes, and range() excluded its upper bound and could overflow.
---
 functions.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/functions.go b/functions.go
index c903aca..cf8eb51 100644
--- a/functions.go
+++ b/functions.go
@@ -3,6 +3,7 @@ package opencypher
 import (
 	"fmt"
 	"time"
+	"unicode/utf8"
 
 	"github.com/cloudprivacylabs/lpg/v2"
 )
@@ -79,17 +80,25 @@ func rangeFunc(ctx *EvalContext, args []Value) (Value, error) {
 			return nil, err
 		}
 	}
-	if (end <= start && skip > 0) || (end >= start && skip < 0) || skip == 0 {
+	if (end < start && skip > 0) || (end > start && skip < 0) || skip == 0 {
 		return RValue{Value: []Value{}}, nil
 	}
+	// Both ends are inclusive. The step is compared with what remains,
+	// so the loops cannot overflow
 	arr := make([]Value, 0)
-	if end > start {
-		for at := start; at < end; at += skip {
+	if skip > 0 {
+		for at := start; ; at += skip {
 			arr = append(arr, RValue{Value: at})
+			if uint(end)-uint(at) < uint(skip) {
+				break
+			}
 		}
 	} else {
-		for at := start; at > end; at += skip {
+		for at := start; ; at += skip {
 			arr = append(arr, RValue{Value: at})
+			if uint(at)-uint(end) < -uint(skip) {
+				break
+			}
 		}
 	}
 	return RValue{Value: arr}, nil
@@ -103,7 +112,12 @@ func labelsFunc(ctx *EvalContext, args []Value) (Value, error) {
 	if !ok {
 		return nil, fmt.Errorf("Not a node")
 	}
-	return RValue{Value: node.GetLabels().Slice()}, nil
+	labels := node.GetLabels().SortedSlice()
+	ret := make([]Value, 0, len(labels))
+	for _, label := range labels {
+		ret = append(ret, RValue{Value: label})
+	}
+	return RValue{Value: ret}, nil
 }
 
 func timestampFunc(ctx *EvalContext, args []Value) (Value, error) {
@@ -131,7 +145,7 @@ func sizeFunc(ctx *EvalContext, args []Value) (Value, error) {
 		return RValue{Value: len(arr)}, nil
 	}
 	if str, ok := val.(string); ok {
-		return RValue{Value: len(str)}, nil
+		return RValue{Value: utf8.RuneCountInString(str)}, nil
 	}
 	return RValue{}, nil
 }
-- 
2.43.0


From 779de8c93557ba0b0f383e98f66f05d5a5450849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:30 +0000
Subject: [PATCH 07/26] fix: left, right and substring work on characters

They sliced bytes and could cut characters in half, right() dropped the
first n characters instead of keeping the last n, and left()/right()
returned an empty string when asked for more than there is.
---
 stringfuncs.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/stringfuncs.go b/stringfuncs.go
index 6c7a905..7102799 100644
--- a/stringfuncs.go
+++ b/stringfuncs.go
@@ -117,46 +117,55 @@ func rightFunc(ctx *EvalContext, args []Value) (Value, error) {
 	if args[0].Get() == nil || args[1].Get() == nil {
 		return RValue{}, nil
 	}
-	s, err := ValueAsString(args[0])
+	str, err := ValueAsString(args[0])
 	if err != nil {
 		return nil, fmt.Errorf("In right: %s", err)
 	}
+	s := []rune(str)
 	i, err := ValueAsInt(args[1])
 	if err != nil {
 		return nil, fmt.Errorf("In right: %s", err)
 	}
-	if i < 0 || i > len(s) {
+	if i < 0 {
 		return RValue{Value: ""}, nil
 	}
-	return RValue{Value: s[i:]}, nil
+	if i > len(s) {
+		i = len(s)
+	}
+	return RValue{Value: string(s[len(s)-i:])}, nil
 }
 
 func leftFunc(ctx *EvalContext, args []Value) (Value, error) {
 	if args[0].Get() == nil || args[1].Get() == nil {
 		return RValue{}, nil
 	}
-	s, err := ValueAsString(args[0])
+	str, err := ValueAsString(args[0])
 	if err != nil {
 		return nil, fmt.Errorf("In left: %w, %v", err, args[0])
 	}
+	s := []rune(str)
 	i, err := ValueAsInt(args[1])
 	if err != nil {
 		return nil, fmt.Errorf("In left: %w", err)
 	}
-	if i < 0 || i > len(s) {
+	if i < 0 {
 		return RValue{Value: ""}, nil
 	}
-	return RValue{Value: s[:i]}, nil
+	if i > len(s) {
+		i = len(s)
+	}
+	return RValue{Value: string(s[:i])}, nil
 }
 
 func substringFunc(ctx *EvalContext, args []Value) (Value, error) {
 	if args[0].Get() == nil || args[1].Get() == nil {
 		return RValue{}, nil
 	}
-	s, err := ValueAsString(args[0])
+	str, err := ValueAsString(args[0])
 	if err != nil {
 		return nil, fmt.Errorf("In substring: %w", err)
 	}
+	s := []rune(str)
 	start, err := ValueAsInt(args[1])
 	if err != nil {
 		return nil, fmt.Errorf("In substring: %w", err)
@@ -178,16 +187,13 @@ func substringFunc(ctx *EvalContext, args []Value) (Value, error) {
 		return RValue{Value: ""}, nil
 	}
 	var end int
-	if max == -1 {
+	if max == -1 || max > len(s)-start {
 		end = len(s)
 	} else {
 		end = start + max
 	}
 
-	if end > len(s) {
-		end = len(s)
-	}
-	return RValue{Value: s[start:end]}, nil
+	return RValue{Value: string(s[start:end])}, nil
 }
 
 func printFunc(ctx *EvalContext, args []Value) (Value, error) {
-- 
2.43.0


From 2d5361f14650abb46c47cfd77b871f953b5d3643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:30 +0000
Subject: [PATCH 08/26] fix: toIntegerOrNull returns null for what it cannot
 convert

---
 scalarfuncs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalarfuncs.go b/scalarfuncs.go
index 85e7239..f902077 100644
--- a/scalarfuncs.go
+++ b/scalarfuncs.go
@@ -16,7 +16,7 @@ func init() {
 		Name:      "toIntegerOrNull",
 		MinArgs:   1,
 		MaxArgs:   1,
-		ValueFunc: toIntegerFunc,
+		ValueFunc: toIntegerOrNullFunc,
 	}
 	globalFuncs["toFloatOrNull"] = Function{
 		Name:      "toFloatOrNull",
-- 
2.43.0


From aa7570d90762ccfe882a92ae6fbf10b63d56af16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:24 +0000
Subject: [PATCH 09/26] fix: literals, names and syntax errors: decode escapes,
 report all errors

---
 ast.go     | 22 ++++++++------
 lang.go    | 35 +++++++++++++++++-----
 literal.go | 86 +++++++++++++++++++++++++++++++++++++++++++++++++++---
 3 files changed, 123 insertions(+), 20 deletions(-)

diff --git a/ast.go b/ast.go
index b9e4e69..ab78935 100644
--- a/ast.go
+++ b/ast.go
@@ -891,13 +891,17 @@ func oC_SchemaName(ctx *parser.OC_SchemaNameContext) schemaName {
 func oC_SymbolicName(ctx *parser.OC_SymbolicNameContext) symbolicName {
 	if node := ctx.EscapedSymbolicName(); node != nil {
 		text := node.GetText()
-		return symbolicName(text[1 : len(text)-1])
+		text = strings.ReplaceAll(text[1:len(text)-1], "``", "`")
+		if len(text) == 0 {
+			panic(ErrSyntax("Empty name"))
+		}
+		return symbolicName(text)
 	}
 	return symbolicName(ctx.GetText())
 }
 
 func oC_ReservedWord(ctx *parser.OC_ReservedWordContext) reservedWord {
-	return reservedWord(strings.ToUpper(ctx.GetText()))
+	return reservedWord(ctx.GetText())
 }
 
 func oC_NodeLabels(ctx *parser.OC_NodeLabelsContext) NodeLabels {
@@ -1035,7 +1039,7 @@ func oC_Parameter(ctx *parser.OC_ParameterContext) Parameter {
 func decimalInteger(ctx antlr.TerminalNode) intLiteral {
 	i, err := strconv.Atoi(ctx.GetText())
 	if err != nil {
-		panic(err)
+		panic(ErrSyntax(err.Error()))
 	}
 	return intLiteral(i)
 }
@@ -1078,7 +1082,7 @@ func oC_IntegerLiteral(ctx *parser.OC_IntegerLiteralContext) intLiteral {
 		t := x.GetText()
 		val, err := strconv.ParseInt(string(t[2:]), 16, 64)
 		if err != nil {
-			panic(err)
+			panic(ErrSyntax(err.Error()))
 		}
 		return intLiteral(val)
 	}
@@ -1086,7 +1090,7 @@ func oC_IntegerLiteral(ctx *parser.OC_IntegerLiteralContext) intLiteral {
 		t := x.GetText()
 		val, err := strconv.ParseInt(t, 8, 64)
 		if err != nil {
-			panic(err)
+			panic(ErrSyntax(err.Error()))
 		}
 		return intLiteral(val)
 	}
@@ -1302,7 +1306,7 @@ func oC_Literal(ctx *parser.OC_LiteralContext) Evaluatable {
 	}
 	if s := ctx.StringLiteral(); s != nil {
 		text := s.GetText()
-		return stringLiteral(text[1 : len(text)-1])
+		return stringLiteral(unescapeStringLiteral(text[1 : len(text)-1]))
 	}
 	if b := ctx.OC_BooleanLiteral(); b != nil {
 		return oC_BooleanLiteral(b.(*parser.OC_BooleanLiteralContext))
@@ -1323,7 +1327,7 @@ func oC_NumberLiteral(ctx *parser.OC_NumberLiteralContext) Evaluatable {
 func oC_DoubleLiteral(ctx *parser.OC_DoubleLiteralContext) doubleLiteral {
 	v, err := strconv.ParseFloat(ctx.GetText(), 64)
 	if err != nil {
-		panic(err)
+		panic(ErrSyntax(err.Error()))
 	}
 	return doubleLiteral(v)
 }
@@ -1447,9 +1451,9 @@ func oC_Merge(ctx *parser.OC_MergeContext) UpdatingClause {
 }
 
 func oC_InQueryCall(ctx *parser.OC_InQueryCallContext) ReadingClause {
-	panic("Unsupported: inQueryCall")
+	panic(ErrSyntax("Unsupported: inQueryCall"))
 }
 
 func oC_StandaloneCall(ctx *parser.OC_StandaloneCallContext) Evaluatable {
-	panic("Unsupported: standaloneCall")
+	panic(ErrSyntax("Unsupported: standaloneCall"))
 }
diff --git a/lang.go b/lang.go
index e4a400b..7da0c3c 100644
--- a/lang.go
+++ b/lang.go
@@ -29,23 +29,42 @@ func (lst *errorListener) SyntaxError(recognizer antlr.Recognizer, offendingSymb
 
 // GetParser returns a parser that will parse the input string
 func GetParser(input string) *parser.CypherParser {
+	p, _ := newParser(input)
+	return p
+}
+
+func newParser(input string) (*parser.CypherParser, *parser.CypherLexer) {
 	lexer := parser.NewCypherLexer(antlr.NewInputStream(input))
 	stream := antlr.NewCommonTokenStream(lexer, 0)
 	p := parser.NewCypherParser(stream)
 	p.BuildParseTrees = true
-	return p
+	return p, lexer
+}
+
+// recoverSyntaxError recovers from the syntax errors detected while
+// building the AST from the parse tree
+func recoverSyntaxError(err *error) {
+	if r := recover(); r != nil {
+		syntaxErr, ok := r.(ErrSyntax)
+		if !ok {
+			panic(r)
+		}
+		*err = syntaxErr
+	}
 }
 
 // GetEvaluatable returns an evaluatable object
-func Parse(input string) (Evaluatable, error) {
-	pr := GetParser(input)
+func Parse(input string) (out Evaluatable, err error) {
+	pr, lexer := newParser(input)
 	errListener := errorListener{}
+	lexer.AddErrorListener(&errListener)
 	pr.AddErrorListener(&errListener)
 	c := pr.OC_Cypher()
 	if errListener.err != nil {
 		return nil, fmt.Errorf("%w, input: %s", errListener.err, input)
 	}
-	out := oC_Cypher(c.(*parser.OC_CypherContext))
+	defer recoverSyntaxError(&err)
+	out = oC_Cypher(c.(*parser.OC_CypherContext))
 	return out, nil
 }
 
@@ -71,15 +90,17 @@ func ParseAndEvaluate(input string, ctx *EvalContext) (Value, error) {
 //
 // will start from the current node, go back one nore following an
 // edge with label `a`, and then move to a node with label `x`
-func ParsePatternExpr(expr string) (PatternPart, error) {
-	pr := GetParser(expr)
+func ParsePatternExpr(expr string) (out PatternPart, err error) {
+	pr, lexer := newParser(expr)
 	errListener := errorListener{}
+	lexer.AddErrorListener(&errListener)
 	pr.AddErrorListener(&errListener)
 	c := pr.OC_PatternPart()
 	if errListener.err != nil {
 		return PatternPart{}, errListener.err
 	}
-	out := oC_PatternPart(c.(*parser.OC_PatternPartContext))
+	defer recoverSyntaxError(&err)
+	out = oC_PatternPart(c.(*parser.OC_PatternPartContext))
 	return out, nil
 }
 
diff --git a/literal.go b/literal.go
index 8d03a98..0bc296b 100644
--- a/literal.go
+++ b/literal.go
@@ -1,7 +1,11 @@
 package opencypher
 
 import (
+	"strconv"
 	"strings"
+	"unicode"
+	"unicode/utf16"
+	"unicode/utf8"
 )
 
 func (literal intLiteral) Evaluate(ctx *EvalContext) (Value, error) {
@@ -114,15 +118,15 @@ func (r *rangeLiteral) Evaluate(ctx *EvalContext) (from, to *int, err error) {
 }
 
 // EscapeLabelLiteral escape a literal that can be used as a label. It
-// returns `s`
+// returns `s`, where the backticks in s are doubled
 func EscapeLabelLiteral(s string) string {
-	return "`" + s + "`"
+	return "`" + strings.ReplaceAll(s, "`", "``") + "`"
 }
 
 // EscapePropertyKeyLiteral escapes a literal that can be used as a
-// property key. Returns `s`
+// property key. Returns `s`, where the backticks in s are doubled
 func EscapePropertyKeyLiteral(s string) string {
-	return "`" + s + "`"
+	return "`" + strings.ReplaceAll(s, "`", "``") + "`"
 }
 
 // EscapeStringLiteral returns "s" where backslashes and quotes in s
@@ -144,3 +148,77 @@ func EscapeStringLiteral(s string) string {
 	bld.WriteRune('"')
 	return bld.String()
 }
+
+// unescapeStringLiteral returns the string whose literal has the body
+// s, that is, s with the escape sequences replaced with the characters
+// they denote
+func unescapeStringLiteral(s string) string {
+	if strings.IndexByte(s, '\\') == -1 {
+		return s
+	}
+	bld := strings.Builder{}
+	// highSurrogate is the pending first half of a surrogate pair
+	var highSurrogate rune
+	write := func(c rune) {
+		if highSurrogate != 0 {
+			if r := utf16.DecodeRune(highSurrogate, c); r != utf8.RuneError {
+				bld.WriteRune(r)
+				highSurrogate = 0
+				return
+			}
+			bld.WriteRune(utf8.RuneError)
+			highSurrogate = 0
+		}
+		if c >= 0xD800 && c < 0xDC00 {
+			highSurrogate = c
+			return
+		}
+		bld.WriteRune(c)
+	}
+	runes := []rune(s)
+	hex := func(start, n int) (rune, bool) {
+		if start+n > len(runes) {
+			return 0, false
+		}
+		v, err := strconv.ParseUint(string(runes[start:start+n]), 16, 32)
+		if err != nil || v > unicode.MaxRune {
+			return 0, false
+		}
+		return rune(v), true
+	}
+	for i := 0; i < len(runes); i++ {
+		if runes[i] != '\\' || i+1 == len(runes) {
+			write(runes[i])
+			continue
+		}
+		i++
+		switch runes[i] {
+		case 'b', 'B':
+			write('\b')
+		case 'f', 'F':
+			write('\f')
+		case 'n', 'N':
+			write('\n')
+		case 'r', 'R':
+			write('\r')
+		case 't', 'T':
+			write('\t')
+		case 'u', 'U':
+			if v, ok := hex(i+1, 8); ok && runes[i] == 'U' {
+				write(v)
+				i += 8
+			} else if v, ok := hex(i+1, 4); ok {
+				write(v)
+				i += 4
+			} else {
+				write(runes[i])
+			}
+		default:
+			write(runes[i])
+		}
+	}
+	if highSurrogate != 0 {
+		bld.WriteRune(utf8.RuneError)
+	}
+	return bld.String()
+}
-- 
2.43.0


From 21dda0827487cd0f717e80bebc245e1ef1fa2374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:12 +0000
Subject: [PATCH 10/26] fix: sameness of values: UNION and DISTINCT drop
 duplicates only; products of nothing terminate

---
 resultset.go |  8 ++++----
 value.go     | 14 ++++++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/resultset.go b/resultset.go
index caebf61..1238ed4 100644
--- a/resultset.go
+++ b/resultset.go
@@ -59,11 +59,11 @@ func isCompatibleRow(row1, row2 map[string]Value) error {
 func (r *ResultSet) find(row map[string]Value) int {
 	for index, r := range r.Rows {
 		if len(r) != len(row) {
-			break
+			continue
 		}
 		found := true
 		for i := range r {
-			if !IsValueSame(r[i], row[i]) {
+			if _, exists := row[i]; !exists || !IsValueSame(r[i], row[i]) {
 				found = false
 				break
 			}
@@ -173,7 +173,7 @@ func (r ResultSet) CartesianProduct(f func(map[string]Value) bool) bool {
 		if !f(data) {
 			return false
 		}
-		carry := false
+		carry := true
 		for i := range ctr {
 			ctr[i]++
 			if ctr[i] >= len(r.Rows) {
@@ -213,7 +213,7 @@ func CartesianProduct(resultsets []ResultSet, all bool, filter func(map[string]V
 		if filter(data) {
 			result.Rows = append(result.Rows, data)
 		}
-		carry := false
+		carry := true
 		for i := range ctr {
 			ctr[i]++
 			if ctr[i] >= len(resultsets[i].Rows) {
diff --git a/value.go b/value.go
index bbafe07..13b13d0 100644
--- a/value.go
+++ b/value.go
@@ -151,12 +151,15 @@ func IsValueSame(v, v2 Value) bool {
 	if IsValuePrimitive(v) {
 		if IsValuePrimitive(v2) {
 			eq, err := comparePrimitiveValues(v.Get(), v2.Get())
-			return err != nil && eq == 0
+			return err == nil && eq == 0
 		}
 		return false
 	}
 
 	switch val1 := v.Get().(type) {
+	case nil:
+		return v2.Get() == nil
+
 	case []Value:
 		val2, ok := v2.Get().([]Value)
 		if !ok {
@@ -214,15 +217,18 @@ func IsValueSame(v, v2 Value) bool {
 		return val1 == val2
 
 	case *lpg.Path:
-		val2, ok := v2.Get().([]*lpg.Path)
+		val2, ok := v2.Get().(*lpg.Path)
 		if !ok {
 			return false
 		}
-		if val1.NumEdges() != val1.NumEdges() {
+		if val1.NumEdges() != val2.NumEdges() {
 			return false
 		}
+		if val1.NumEdges() == 0 {
+			return val1.First() == val2.First()
+		}
 		for i := 0; i < val1.NumEdges(); i++ {
-			if val1.Slice(i, -1) != val2[i] {
+			if val1.GetEdge(i) != val2.GetEdge(i) {
 				return false
 			}
 		}
-- 
2.43.0


From 4ac32f742fe3aa8eb1bee80681877ce90f528b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:48 +0000
Subject: [PATCH 11/26] fix: clauses of a query work on a table of rows: join
 reading clauses, OPTIONAL MATCH, DISTINCT, SKIP/LIMIT, bindings of CREATE and
 MERGE

---
 eval.go        | 168 +++++++++++++++++++++++++++++++++----------------
 patterneval.go |  12 ++++
 update.go      |  46 +++++++-------
 3 files changed, 148 insertions(+), 78 deletions(-)

diff --git a/eval.go b/eval.go
index 161705f..cacf20b 100644
--- a/eval.go
+++ b/eval.go
@@ -32,6 +32,7 @@ var (
 	ErrInvalidMapKey                  = errors.New("Invalid map key")
 	ErrNotAStringSet                  = errors.New("Not a string set")
 	ErrIntValueRequired               = errors.New("Int value required")
+	ErrNegativeRowCount               = errors.New("SKIP and LIMIT cannot be negative")
 	ErrStringValueRequired            = errors.New("String value required")
 	ErrNeo4jDateValueRequired         = errors.New("Neo4j Date value required")
 	ErrNeo4jDateTimeValueRequired     = errors.New("Neo4j LocalDateTime value required")
@@ -50,6 +51,12 @@ func (e ErrValueDoesNotHaveProperties) Error() string {
 	return fmt.Sprintf("Value does not have properties: %v property: %s", e.Value, e.Property)
 }
 
+// ErrUnsupported is returned when evaluating a language element that
+// can be parsed, but that is not implemented
+type ErrUnsupported string
+
+func (e ErrUnsupported) Error() string { return "Unsupported: " + string(e) }
+
 type ErrInvalidIndirection string
 
 func (e ErrInvalidIndirection) Error() string { return "Invalid indirection: " + string(e) }
@@ -439,6 +446,14 @@ func (query regularQuery) Evaluate(ctx *EvalContext) (Value, error) {
 		return nil, ErrExpectingResultSet
 	}
 	for _, u := range query.unions {
+		if !u.all {
+			distinct := *NewResultSet()
+			distinct.Cols = resultSet.Cols
+			if err := distinct.Union(resultSet, false); err != nil {
+				return nil, err
+			}
+			resultSet = distinct
+		}
 		lastContext = ctx.SubContext()
 		contexts = append(contexts, lastContext)
 		newResult, err := u.singleQuery.Evaluate(lastContext)
@@ -459,6 +474,22 @@ func (query regularQuery) Evaluate(ctx *EvalContext) (Value, error) {
 	return RValue{Value: resultSet}, nil
 }
 
+// evaluateRowCount evaluates the argument of SKIP or LIMIT
+func evaluateRowCount(expr Expression, ctx *EvalContext) (int, error) {
+	value, err := expr.Evaluate(ctx)
+	if err != nil {
+		return 0, err
+	}
+	n, err := ValueAsInt(value)
+	if err != nil {
+		return 0, err
+	}
+	if n < 0 {
+		return 0, ErrNegativeRowCount
+	}
+	return n, nil
+}
+
 func (query singlePartQuery) Evaluate(ctx *EvalContext) (Value, error) {
 	ret := *NewResultSet()
 	skip := -1
@@ -467,13 +498,13 @@ func (query singlePartQuery) Evaluate(ctx *EvalContext) (Value, error) {
 		ret.Cols = query.ret.projection.items.getProjectedNames()
 		var err error
 		if query.ret.projection.skip != nil {
-			skip, err = ValueAsInt(query.ret.projection.skip.Evaluate(ctx))
+			skip, err = evaluateRowCount(query.ret.projection.skip, ctx)
 			if err != nil {
 				return nil, err
 			}
 		}
 		if query.ret.projection.limit != nil {
-			limit, err = ValueAsInt(query.ret.projection.limit.Evaluate(ctx))
+			limit, err = evaluateRowCount(query.ret.projection.limit, ctx)
 			if err != nil {
 				return nil, err
 			}
@@ -481,86 +512,101 @@ func (query singlePartQuery) Evaluate(ctx *EvalContext) (Value, error) {
 	}
 
 	project := func(rows []map[string]Value) error {
+		projected := *NewResultSet()
 		for index, item := range rows {
-			if skip != -1 && index < skip {
-				continue
-			}
-			if limit != -1 && len(ret.Rows) >= limit {
-				break
+			if !query.ret.projection.distinct {
+				if skip != -1 && index < skip {
+					continue
+				}
+				if limit != -1 && len(projected.Rows) >= limit {
+					break
+				}
 			}
 			val, err := query.ret.projection.items.Project(ctx, item)
 			if err != nil {
 				return err
 			}
-			ret.Rows = append(ret.Rows, val)
+			if query.ret.projection.distinct && projected.find(val) != -1 {
+				continue
+			}
+			projected.Rows = append(projected.Rows, val)
+		}
+		for index, item := range projected.Rows {
+			if query.ret.projection.distinct {
+				if skip != -1 && index < skip {
+					continue
+				}
+				if limit != -1 && len(ret.Rows) >= limit {
+					break
+				}
+			}
+			ret.Rows = append(ret.Rows, item)
 		}
 		return nil
 	}
+	// Evaluation starts with a single row containing no variables. Each
+	// reading clause extends the rows produced by the previous one
 	results := *NewResultSet()
-	if len(query.read) > 0 {
-		for _, r := range query.read {
-			rs, err := r.GetResults(ctx)
+	results.Append(make(map[string]Value))
+	for _, r := range query.read {
+		joined := *NewResultSet()
+		for _, row := range results.Rows {
+			subctx := ctx.SubContext()
+			subctx.SetVars(row)
+			rs, err := r.GetResults(subctx)
 			if err != nil {
 				return nil, err
 			}
-			results.Add(rs)
-		}
-
-		for _, upd := range query.update {
-			v, err := upd.Update(ctx, results)
-			if err != nil {
-				return nil, err
+			for _, found := range rs.Rows {
+				joined.Append(mergeRows(row, found))
 			}
-			results = v.Get().(ResultSet)
-		}
-		if query.ret == nil {
-			return RValue{Value: *NewResultSet()}, nil
 		}
-		err := project(results.Rows)
-		if err != nil {
-			return nil, err
-		}
-		return RValue{Value: ret}, nil
+		results = joined
 	}
 
-	for _, upd := range query.update {
-		v, err := upd.TopLevelUpdate(ctx)
+	for i, upd := range query.update {
+		var v Value
+		var err error
+		if i == 0 && len(query.read) == 0 {
+			v, err = upd.TopLevelUpdate(ctx)
+		} else {
+			v, err = upd.Update(ctx, results)
+		}
 		if err != nil {
 			return nil, err
 		}
-		if v != nil && v.Get() != nil {
-			results = v.Get().(ResultSet)
-		}
+		results = v.Get().(ResultSet)
 	}
 	if query.ret == nil {
 		return RValue{Value: *NewResultSet()}, nil
 	}
-
-	if len(results.Rows) > 0 {
-		for _, row := range results.Rows {
-			val, err := query.ret.projection.items.Project(ctx, row)
-			if err != nil {
-				return nil, err
-			}
-			ret.Rows = append(ret.Rows, val)
-		}
-	} else {
-		val, err := query.ret.projection.items.Project(ctx, nil)
-		if err != nil {
-			return nil, err
-		}
-		ret.Rows = append(ret.Rows, val)
+	if err := project(results.Rows); err != nil {
+		return nil, err
 	}
 	return RValue{Value: ret}, nil
 }
 
+// mergeRows returns a new row containing the cells of both rows
+func mergeRows(row1, row2 map[string]Value) map[string]Value {
+	ret := make(map[string]Value, len(row1)+len(row2))
+	for k, v := range row1 {
+		ret[k] = v
+	}
+	for k, v := range row2 {
+		ret[k] = v
+	}
+	return ret
+}
+
 func (prj projectionItems) Project(ctx *EvalContext, values map[string]Value) (map[string]Value, error) {
 	ret := make(map[string]Value)
 	if prj.all {
 		for k, v := range values {
 			ret[k] = v
 		}
-		return ret, nil
+		if len(prj.items) == 0 {
+			return ret, nil
+		}
 	}
 
 	for k, v := range values {
@@ -633,12 +679,24 @@ func (pe propertyExpression) Evaluate(ctx *EvalContext) (Value, error) {
 	return val, nil
 }
 
-func (unwind unwind) GetResults(ctx *EvalContext) (ResultSet, error)      { panic("Unimplemented") }
-func (ls listComprehension) Evaluate(ctx *EvalContext) (Value, error)     { panic("Unimplemented") }
-func (p patternComprehension) Evaluate(ctx *EvalContext) (Value, error)   { panic("Unimplemented") }
-func (flt filterAtom) Evaluate(ctx *EvalContext) (Value, error)           { panic("Unimplemented") }
-func (rel relationshipsPattern) Evaluate(ctx *EvalContext) (Value, error) { panic("Unimplemented") }
-func (cnt countAtom) Evaluate(ctx *EvalContext) (Value, error)            { panic("Unimplemented") }
+func (unwind unwind) GetResults(ctx *EvalContext) (ResultSet, error) {
+	return ResultSet{}, ErrUnsupported("UNWIND")
+}
+func (ls listComprehension) Evaluate(ctx *EvalContext) (Value, error) {
+	return nil, ErrUnsupported("list comprehension")
+}
+func (p patternComprehension) Evaluate(ctx *EvalContext) (Value, error) {
+	return nil, ErrUnsupported("pattern comprehension")
+}
+func (flt filterAtom) Evaluate(ctx *EvalContext) (Value, error) {
+	return nil, ErrUnsupported(flt.op)
+}
+func (rel relationshipsPattern) Evaluate(ctx *EvalContext) (Value, error) {
+	return nil, ErrUnsupported("pattern expression")
+}
+func (cnt countAtom) Evaluate(ctx *EvalContext) (Value, error) {
+	return nil, ErrUnsupported("count(*)")
+}
 func (mq multiPartQuery) Evaluate(ctx *EvalContext) (Value, error) {
-	panic("multipart query unimplemented")
+	return nil, ErrUnsupported("WITH")
 }
diff --git a/patterneval.go b/patterneval.go
index 356f4d9..65c421e 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -120,6 +120,18 @@ func (match Match) GetResults(ctx *EvalContext) (ResultSet, error) {
 	if err := nextPattern(ctx, patterns, 0); err != nil {
 		return ResultSet{}, err
 	}
+	if match.Optional && len(results.Rows) == 0 {
+		// Nothing found: unbound variables of the pattern are null
+		row := make(map[string]Value)
+		for _, pattern := range patterns {
+			for symbol := range pattern.GetSymbolNames().M {
+				if _, err := ctx.GetVar(symbol); err != nil {
+					row[symbol] = RValue{}
+				}
+			}
+		}
+		results.Rows = append(results.Rows, row)
+	}
 	return *results, nil
 }
 
diff --git a/update.go b/update.go
index 52b5824..e2b69b2 100644
--- a/update.go
+++ b/update.go
@@ -210,17 +210,28 @@ func (c create) TopLevelUpdate(ctx *EvalContext) (Value, error) {
 			return nil, err
 		}
 	}
-	return nil, nil
+	results := *NewResultSet()
+	results.Append(mergeRows(nil, ctx.GetVarsNearestScope()))
+	return RValue{Value: results}, nil
 }
 
 func (c create) Update(ctx *EvalContext, result ResultSet) (Value, error) {
+	results := *NewResultSet()
 	for _, row := range result.Rows {
-		ctx.SetVars(row)
-		if _, err := c.TopLevelUpdate(ctx); err != nil {
+		// Create the pattern for each row in a new scope containing that row
+		subctx := ctx.SubContext()
+		subctx.SetVars(row)
+		v, err := c.TopLevelUpdate(subctx)
+		if err != nil {
 			return nil, err
 		}
+		results.Add(v.Get().(ResultSet))
 	}
-	return RValue{Value: result}, nil
+	if n := len(results.Rows); n > 0 {
+		// The created variables remain in the context
+		ctx.SetVars(results.Rows[n-1])
+	}
+	return RValue{Value: results}, nil
 }
 
 func (np nodePattern) Create(ctx *EvalContext) (string, *lpg.Node, error) {
@@ -446,14 +457,7 @@ func (m merge) Update(ctx *EvalContext, rs ResultSet) (Value, error) {
 			results.Append(row)
 		} else {
 			for _, r := range rs.Rows {
-				newRow := make(map[string]Value)
-				for k, v := range row {
-					newRow[k] = v
-				}
-				for k, v := range r {
-					newRow[k] = v
-				}
-				results.Append(newRow)
+				results.Append(mergeRows(row, r))
 			}
 		}
 	}
@@ -461,20 +465,16 @@ func (m merge) Update(ctx *EvalContext, rs ResultSet) (Value, error) {
 }
 
 func (m merge) TopLevelUpdate(ctx *EvalContext) (Value, error) {
-	created, matched, rs, err := m.doMerge(ctx)
+	results := *NewResultSet()
+	results.Append(make(map[string]Value))
+	v, err := m.Update(ctx, results)
 	if err != nil {
 		return nil, err
 	}
-	if err := m.processActions(ctx, created, matched, rs); err != nil {
-		return nil, err
-	}
-	results := *NewResultSet()
-	for _, r := range rs.Rows {
-		newRow := make(map[string]Value)
-		for k, v := range r {
-			newRow[k] = v
-		}
-		results.Append(newRow)
+	results = v.Get().(ResultSet)
+	if n := len(results.Rows); n > 0 {
+		// The variables of the pattern remain in the context
+		ctx.SetVars(results.Rows[n-1])
 	}
 	return RValue{Value: results}, nil
 }
-- 
2.43.0


From 929edd267f80287d86e58ee3e2ebc84ee3d4e669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:43 +0000
Subject: [PATCH 12/26] fix: SET, REMOVE and DELETE work on rows, relationships
 and nulls

---
 eval.go        | 24 +++++++++++++++++++++++
 patterneval.go |  5 ++++-
 update.go      | 53 +++++++++++++++++++++++++++++++++-----------------
 3 files changed, 63 insertions(+), 19 deletions(-)

diff --git a/eval.go b/eval.go
index cacf20b..0f10aa5 100644
--- a/eval.go
+++ b/eval.go
@@ -641,6 +641,30 @@ func (pe propertyExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		}
 		value := val.Get()
 		switch parent := value.(type) {
+		case nil:
+			// Updating a property of null has no effect
+			val = LValue{
+				getter: func() interface{} { return nil },
+				setter: func(interface{}) {},
+			}
+		case *lpg.Path:
+			if parent.NumEdges() != 1 {
+				return nil, ErrInvalidIndirection(prop)
+			}
+			edge := parent.GetEdge(0)
+			val = LValue{
+				getter: func() interface{} {
+					v, _ := edge.GetProperty(prop)
+					return v
+				},
+				setter: func(v interface{}) {
+					if v == nil {
+						edge.RemoveProperty(prop)
+					} else {
+						edge.SetProperty(prop, ctx.PropertyValueFromNative(prop, v))
+					}
+				},
+			}
 		case *lpg.Node:
 			val = LValue{
 				getter: func() interface{} {
diff --git a/patterneval.go b/patterneval.go
index 65c421e..5bc03b0 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -329,7 +329,10 @@ func (p *Properties) getPropertiesMap(ctx *EvalContext) (map[string]interface{},
 		}
 		properties = make(map[string]interface{})
 		for k, v := range propertiesAsValue {
-			properties[k] = v.Get()
+			// A null property is the same as a property that does not exist
+			if value := v.Get(); value != nil {
+				properties[k] = value
+			}
 		}
 	}
 	return properties, nil
diff --git a/update.go b/update.go
index e2b69b2..44e83d8 100644
--- a/update.go
+++ b/update.go
@@ -7,20 +7,14 @@ import (
 )
 
 func (s *set) Update(ctx *EvalContext, result ResultSet) (Value, error) {
-	// Work on the cartesian product of result columns
-	var err error
 	subctx := ctx.SubContext()
-	result.CartesianProduct(func(data map[string]Value) bool {
-		subctx.SetVars(data)
+	for _, row := range result.Rows {
+		subctx.SetVars(row)
 		for i := range s.items {
-			if err = s.items[i].update(subctx, data, result); err != nil {
-				return false
+			if err := s.items[i].update(subctx, row, result); err != nil {
+				return nil, err
 			}
 		}
-		return true
-	})
-	if err != nil {
-		return nil, err
 	}
 	return RValue{Value: result}, nil
 }
@@ -52,6 +46,9 @@ func (s *setItem) update(ctx *EvalContext, data map[string]Value, result ResultS
 	}
 
 	value, err := s.variable.Evaluate(ctx)
+	if err != nil {
+		return err
+	}
 	lvalue, ok := value.(LValue)
 	if !ok {
 		return ErrNotAnLValue
@@ -74,6 +71,10 @@ func (s *setItem) update(ctx *EvalContext, data map[string]Value, result ResultS
 		}
 		return sourceProps, nil
 	}
+	if lvalue.Get() == nil {
+		// Nothing to update
+		return nil
+	}
 	switch s.op {
 	case "=":
 		switch v := lvalue.Get().(type) {
@@ -91,6 +92,9 @@ func (s *setItem) update(ctx *EvalContext, data map[string]Value, result ResultS
 				v.RemoveProperty(p)
 			}
 			for key, val := range sourceProps {
+				if val == nil {
+					continue
+				}
 				v.SetProperty(key, ctx.PropertyValueFromNative(key, val))
 			}
 		default:
@@ -131,6 +135,9 @@ func (deleteClause) TopLevelUpdate(ctx *EvalContext) (Value, error) {
 }
 
 func (d deleteClause) Update(ctx *EvalContext, result ResultSet) (Value, error) {
+	// Collect everything first, the same item may appear in several rows
+	nodes := make(map[*lpg.Node]struct{})
+	edges := make(map[*lpg.Edge]struct{})
 	subctx := ctx.SubContext()
 	for _, row := range result.Rows {
 		subctx.SetVars(row)
@@ -144,21 +151,31 @@ func (d deleteClause) Update(ctx *EvalContext, result ResultSet) (Value, error)
 			}
 			switch item := v.Get().(type) {
 			case *lpg.Node:
-				if item.GetEdges(lpg.OutgoingEdge).Next() || item.GetEdges(lpg.IncomingEdge).Next() {
-					// Must have detach
-					if !d.detach {
-						return nil, fmt.Errorf("Cannot delete attached node")
-					}
-				}
-				item.DetachAndRemove()
+				nodes[item] = struct{}{}
 
 			case *lpg.Path:
 				for i := 0; i < item.NumEdges(); i++ {
-					item.GetEdge(i).Remove()
+					edges[item.GetEdge(i)] = struct{}{}
+				}
+			}
+		}
+	}
+	if !d.detach {
+		// Must have detach, unless all edges of the node are deleted as well
+		for node := range nodes {
+			for itr := node.GetEdges(lpg.AnyEdge); itr.Next(); {
+				if _, exists := edges[itr.Edge()]; !exists {
+					return nil, fmt.Errorf("Cannot delete attached node")
 				}
 			}
 		}
 	}
+	for edge := range edges {
+		edge.Remove()
+	}
+	for node := range nodes {
+		node.DetachAndRemove()
+	}
 	return RValue{Value: result}, nil
 }
 
-- 
2.43.0


From dbbc15000a0b4692671c9b7e71926bfbc130144b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:42 +0000
Subject: [PATCH 13/26] fix: pattern matching: repeated and bound variables,
 undirected and variable length relationships, property values of all types

---
 lang.go        |   7 +-
 patterneval.go | 195 +++++++++++++++++++++++++++++++++++++++++++++----
 update.go      |   6 +-
 3 files changed, 182 insertions(+), 26 deletions(-)

diff --git a/lang.go b/lang.go
index 7da0c3c..9fac966 100644
--- a/lang.go
+++ b/lang.go
@@ -114,16 +114,11 @@ func (p PatternPart) FindRelative(this *lpg.Node) ([]*lpg.Node, error) {
 		return nil, err
 	}
 
-	symbols, err := BuildPatternSymbols(ctx, pattern)
-	if err != nil {
-		return nil, err
-	}
-
 	resultAccumulator := matchResultAccumulator{
 		evalCtx: ctx,
 		result:  NewResultSet(),
 	}
-	err = pattern.Run(ctx.graph, symbols, &resultAccumulator)
+	err = pattern.run(&resultAccumulator)
 	if err != nil {
 		return nil, err
 	}
diff --git a/patterneval.go b/patterneval.go
index 5bc03b0..879c7f7 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -1,6 +1,9 @@
 package opencypher
 
 import (
+	"strconv"
+	"strings"
+
 	"github.com/cloudprivacylabs/lpg/v2"
 )
 
@@ -34,19 +37,165 @@ func (properties Properties) AsLiteral(ctx *EvalContext) ([]mapKeyValue, error)
 	return nil, nil
 }
 
+// patternMatcher contains a pattern, and the conditions a match must
+// satisfy in addition to those that can be expressed in the pattern
+type patternMatcher struct {
+	lpg.Pattern
+	conditions []func(match map[string]interface{}) bool
+}
+
+const hiddenSymbolPrefix = "\x00"
+
+// isHiddenSymbol returns true if the name is given by the
+// patternMatcher to a pattern item, so it is not a variable
+func isHiddenSymbol(name string) bool { return strings.HasPrefix(name, hiddenSymbolPrefix) }
+
+// name returns the name of the i'th pattern item, giving it a name if it has none
+func (matcher *patternMatcher) name(i int) string {
+	if len(matcher.Pattern[i].Name) == 0 {
+		matcher.Pattern[i].Name = hiddenSymbolPrefix + strconv.Itoa(i)
+	}
+	return matcher.Pattern[i].Name
+}
+
+// addPropertyConditions removes the properties lpg cannot compare from
+// the i'th pattern item, and adds conditions for them
+func (matcher *patternMatcher) addPropertyConditions(i int) {
+	for key, value := range matcher.Pattern[i].Properties {
+		switch value.(type) {
+		case bool, float64, Duration, Date, LocalDateTime, LocalTime, []Value:
+		default:
+			continue
+		}
+		key, expected := key, RValue{Value: value}
+		delete(matcher.Pattern[i].Properties, key)
+		hasProperty := func(item lpg.WithProperties) bool {
+			property, exists := item.GetProperty(key)
+			if !exists {
+				return false
+			}
+			if native, ok := property.(lpg.WithNativeValue); ok {
+				property = native.GetNativeValue()
+			}
+			return IsValueSame(ValueOf(property), expected)
+		}
+		name := matcher.name(i)
+		matcher.conditions = append(matcher.conditions, func(match map[string]interface{}) bool {
+			switch item := match[name].(type) {
+			case *lpg.Node:
+				return hasProperty(item)
+			case *lpg.Path:
+				for edge := 0; edge < item.NumEdges(); edge++ {
+					if !hasProperty(item.GetEdge(edge)) {
+						return false
+					}
+				}
+			}
+			return true
+		})
+	}
+}
+
+// addSameNodeCondition requires that the i'th pattern item is the same
+// node as the item with the given name
+func (matcher *patternMatcher) addSameNodeCondition(i int, name string) {
+	matcher.Pattern[i].Name = ""
+	hidden := matcher.name(i)
+	matcher.conditions = append(matcher.conditions, func(match map[string]interface{}) bool {
+		return match[hidden] == match[name]
+	})
+}
+
+// mustStartFromFirstNode returns true if lpg can build the path of a
+// match only when it starts matching from the first node: these are
+// the patterns containing a variable length relationship that is not
+// the first relationship of the pattern
+func (matcher *patternMatcher) mustStartFromFirstNode() bool {
+	for i := 3; i < len(matcher.Pattern); i += 2 {
+		if matcher.Pattern[i].Max != 1 {
+			return true
+		}
+	}
+	return false
+}
+
+// run finds all matches of the pattern
+func (matcher *patternMatcher) run(acc *matchResultAccumulator) error {
+	var err error
+	if acc.symbols, err = BuildPatternSymbols(acc.evalCtx, matcher.Pattern); err != nil {
+		return err
+	}
+	acc.matcher = matcher
+	graph := acc.evalCtx.graph
+	if !matcher.mustStartFromFirstNode() {
+		return matcher.Run(graph, acc.symbols, acc)
+	}
+	first := matcher.name(0)
+	if _, bound := acc.symbols[first]; bound {
+		return matcher.Run(graph, acc.symbols, acc)
+	}
+	for _, node := range lpg.NodeSlice(graph.GetNodes()) {
+		symbol := &lpg.PatternSymbol{}
+		symbol.AddNode(node)
+		acc.symbols[first] = symbol
+		if err := matcher.Run(graph, acc.symbols, acc); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 type matchResultAccumulator struct {
 	evalCtx *EvalContext
 	result  *ResultSet
 	err     error
+
+	matcher *patternMatcher
+	symbols map[string]*lpg.PatternSymbol
+}
+
+// isMatch checks the conditions of the pattern, and that the bound
+// relationships have their values
+func (acc *matchResultAccumulator) isMatch(symbols map[string]interface{}) bool {
+	for name, bound := range acc.symbols {
+		path, ok := symbols[name].(*lpg.Path)
+		if !ok {
+			continue
+		}
+		if bound.Edges == nil || bound.Edges.Len() != path.NumEdges() {
+			return false
+		}
+		edges := make(map[*lpg.Edge]struct{})
+		for _, edge := range bound.Edges.Slice() {
+			edges[edge] = struct{}{}
+		}
+		for i := 0; i < path.NumEdges(); i++ {
+			if _, exists := edges[path.GetEdge(i)]; !exists {
+				return false
+			}
+		}
+	}
+	for _, condition := range acc.matcher.conditions {
+		if !condition(symbols) {
+			return false
+		}
+	}
+	return true
 }
 
 func (acc *matchResultAccumulator) StoreResult(ctx *lpg.MatchContext, path *lpg.Path, symbols map[string]interface{}) {
 	if acc.err != nil {
 		return
 	}
+	if !acc.isMatch(symbols) {
+		return
+	}
 	// Record results in the context
 	result := make(map[string]Value)
 	for k, v := range symbols {
+		if isHiddenSymbol(k) {
+			continue
+		}
 		result[k] = RValue{Value: v}
 		acc.evalCtx.SetVar(k, RValue{Value: v})
 	}
@@ -54,7 +203,7 @@ func (acc *matchResultAccumulator) StoreResult(ctx *lpg.MatchContext, path *lpg.
 }
 
 func (match Match) GetResults(ctx *EvalContext) (ResultSet, error) {
-	patterns := make([]lpg.Pattern, 0, len(match.Pattern.Parts))
+	patterns := make([]patternMatcher, 0, len(match.Pattern.Parts))
 	for i := range match.Pattern.Parts {
 		p, err := match.Pattern.Parts[i].getPattern(ctx)
 		if err != nil {
@@ -63,7 +212,7 @@ func (match Match) GetResults(ctx *EvalContext) (ResultSet, error) {
 		patterns = append(patterns, p)
 	}
 
-	var nextPattern func(*EvalContext, []lpg.Pattern, int) error
+	var nextPattern func(*EvalContext, []patternMatcher, int) error
 
 	results := NewResultSet()
 	currentRow := make([]map[string]Value, len(patterns))
@@ -78,18 +227,13 @@ func (match Match) GetResults(ctx *EvalContext) (ResultSet, error) {
 		results.Rows = append(results.Rows, newRow)
 	}
 
-	nextPattern = func(prevContext *EvalContext, pat []lpg.Pattern, index int) error {
+	nextPattern = func(prevContext *EvalContext, pat []patternMatcher, index int) error {
 		newContext := prevContext.SubContext()
-		symbols, err := BuildPatternSymbols(newContext, pat[0])
-		if err != nil {
-			return err
-		}
 		results := matchResultAccumulator{
 			evalCtx: newContext,
 			result:  NewResultSet(),
 		}
-		err = pat[0].Run(newContext.graph, symbols, &results)
-		if err != nil {
+		if err := pat[0].run(&results); err != nil {
 			return err
 		}
 		for _, row := range results.result.Rows {
@@ -125,6 +269,9 @@ func (match Match) GetResults(ctx *EvalContext) (ResultSet, error) {
 		row := make(map[string]Value)
 		for _, pattern := range patterns {
 			for symbol := range pattern.GetSymbolNames().M {
+				if isHiddenSymbol(symbol) {
+					continue
+				}
 				if _, err := ctx.GetVar(symbol); err != nil {
 					row[symbol] = RValue{}
 				}
@@ -166,27 +313,39 @@ func BuildPatternSymbols(ctx *EvalContext, pattern lpg.Pattern) (map[string]*lpg
 	return symbols, nil
 }
 
-func (part PatternPart) getPattern(ctx *EvalContext) (lpg.Pattern, error) {
+func (part PatternPart) getPattern(ctx *EvalContext) (patternMatcher, error) {
 	pattern := make([]lpg.PatternItem, 0, len(part.path)*2+1)
 	np, err := part.start.getPattern(ctx)
 	if err != nil {
-		return nil, err
+		return patternMatcher{}, err
 	}
 	pattern = append(pattern, np)
 	for _, pathItem := range part.path {
 		pi, err := pathItem.rel.getPattern(ctx)
 		if err != nil {
-			return nil, err
+			return patternMatcher{}, err
 		}
 		pattern = append(pattern, pi)
 
 		pi, err = pathItem.node.getPattern(ctx)
 		if err != nil {
-			return nil, err
+			return patternMatcher{}, err
 		}
 		pattern = append(pattern, pi)
 	}
-	return pattern, nil
+	matcher := patternMatcher{Pattern: pattern}
+	nodes := make(map[string]struct{})
+	for i := range pattern {
+		if i%2 == 0 && len(pattern[i].Name) > 0 {
+			name := pattern[i].Name
+			if _, exists := nodes[name]; exists {
+				matcher.addSameNodeCondition(i, name)
+			}
+			nodes[name] = struct{}{}
+		}
+		matcher.addPropertyConditions(i)
+	}
+	return matcher, nil
 }
 
 func (np nodePattern) getPattern(ctx *EvalContext) (lpg.PatternItem, error) {
@@ -233,11 +392,17 @@ func (rp relationshipPattern) getPattern(ctx *EvalContext) (lpg.PatternItem, err
 	} else {
 		ret.Min, ret.Max = 1, 1
 	}
-	if !rp.toRight && !rp.toLeft {
+	if rp.toRight == rp.toLeft {
 		ret.Undirected = true
 	} else if rp.toLeft {
 		ret.ToLeft = rp.toLeft
 	}
+	if (ret.Undirected || ret.ToLeft) && ret.Min <= 1 {
+		// Matching cannot start from such an edge. All matches have at
+		// least one edge, and with this lpg treats it as a variable length
+		// relationship, and starts from a node
+		ret.Min = -1
+	}
 
 	var err error
 	props, err := rp.properties.getPattern(ctx)
diff --git a/update.go b/update.go
index 44e83d8..170cb21 100644
--- a/update.go
+++ b/update.go
@@ -392,11 +392,7 @@ func (m merge) getResults(ctx *EvalContext) (map[string]struct{}, ResultSet, err
 		evalCtx: ctx,
 		result:  NewResultSet(),
 	}
-	symbols, err := BuildPatternSymbols(ctx, pattern)
-	if err != nil {
-		return nil, *NewResultSet(), err
-	}
-	err = pattern.Run(ctx.graph, symbols, &results)
+	err = pattern.run(&results)
 	if err != nil {
 		return nil, *NewResultSet(), err
 	}
-- 
2.43.0


From b4f91900e2e1eb837f854ff69e2c66e450874aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:33 +0000
Subject: [PATCH 14/26] fix: null indexed by a map key is null

---
 eval.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eval.go b/eval.go
index 0f10aa5..db60430 100644
--- a/eval.go
+++ b/eval.go
@@ -108,13 +108,13 @@ func (expr stringListNullOperatorExpressionPart) evaluate(ctx *EvalContext, inpu
 		if indexValue.Get() == nil {
 			return RValue{}, nil
 		}
+		if inputValue.Get() == nil {
+			return RValue{}, nil
+		}
 		intValue, ok := indexValue.Get().(int)
 		if !ok {
 			return nil, ErrInvalidListIndex
 		}
-		if listValue == nil {
-			return RValue{}, nil
-		}
 		if intValue >= 0 {
 			if intValue >= len(listValue) {
 				return RValue{}, nil
-- 
2.43.0


From d9a3cd0fee500306e8092e3fcbf38c3d98c02b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:18 +0000
Subject: [PATCH 15/26] fix: a null in the properties of a pattern matches
 nothing, also for indexed properties

---
 patterneval.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/patterneval.go b/patterneval.go
index 879c7f7..08b1028 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -63,7 +63,7 @@ func (matcher *patternMatcher) name(i int) string {
 func (matcher *patternMatcher) addPropertyConditions(i int) {
 	for key, value := range matcher.Pattern[i].Properties {
 		switch value.(type) {
-		case bool, float64, Duration, Date, LocalDateTime, LocalTime, []Value:
+		case nil, bool, float64, Duration, Date, LocalDateTime, LocalTime, []Value:
 		default:
 			continue
 		}
@@ -71,7 +71,7 @@ func (matcher *patternMatcher) addPropertyConditions(i int) {
 		delete(matcher.Pattern[i].Properties, key)
 		hasProperty := func(item lpg.WithProperties) bool {
 			property, exists := item.GetProperty(key)
-			if !exists {
+			if !exists || expected.Value == nil {
 				return false
 			}
 			if native, ok := property.(lpg.WithNativeValue); ok {
-- 
2.43.0


From 6c6bbc1bef11899ae46e39020f016e1ab909e8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:18 +0000
Subject: [PATCH 16/26] fix: evaluating a parsed query does not modify it

---
 ast.go  |  1 -
 eval.go | 33 ++++++++++++++++-----------------
 2 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/ast.go b/ast.go
index ab78935..840c9fc 100644
--- a/ast.go
+++ b/ast.go
@@ -347,7 +347,6 @@ type functionInvocation struct {
 	distinct bool
 	args     []Expression
 
-	function       *Function
 	constArgs      []Evaluatable
 	constArgValues []Value
 }
diff --git a/eval.go b/eval.go
index db60430..868100c 100644
--- a/eval.go
+++ b/eval.go
@@ -334,22 +334,21 @@ func (pl propertyOrLabelsExpression) Evaluate(ctx *EvalContext) (Value, error) {
 }
 
 func (f *functionInvocation) Evaluate(ctx *EvalContext) (Value, error) {
-	if f.function == nil {
-		fname := make([]string, 0, len(f.name))
-		for _, x := range f.name {
-			fname = append(fname, string(x))
-		}
-		fn, err := ctx.GetFunction(fname)
-		if err != nil {
-			return nil, err
-		}
-		f.function = &fn
+	// The parsed query is not modified here: it may be in use in other
+	// evaluations at the same time
+	fname := make([]string, 0, len(f.name))
+	for _, x := range f.name {
+		fname = append(fname, string(x))
+	}
+	function, err := ctx.GetFunction(fname)
+	if err != nil {
+		return nil, err
 	}
-	if len(f.args) < f.function.MinArgs {
-		return nil, ErrInvalidFunctionCall{Msg: fmt.Sprintf("'%s' needs at least %d arguments", f.function.Name, f.function.MinArgs)}
+	if len(f.args) < function.MinArgs {
+		return nil, ErrInvalidFunctionCall{Msg: fmt.Sprintf("'%s' needs at least %d arguments", function.Name, function.MinArgs)}
 	}
-	if f.function.MaxArgs != -1 && len(f.args) > f.function.MaxArgs {
-		return nil, ErrInvalidFunctionCall{Msg: fmt.Sprintf("'%s' accepts at most %d arguments", f.function.Name, f.function.MaxArgs)}
+	if function.MaxArgs != -1 && len(f.args) > function.MaxArgs {
+		return nil, ErrInvalidFunctionCall{Msg: fmt.Sprintf("'%s' accepts at most %d arguments", function.Name, function.MaxArgs)}
 	}
 
 	args := f.constArgs
@@ -374,10 +373,10 @@ func (f *functionInvocation) Evaluate(ctx *EvalContext) (Value, error) {
 			f.constArgValues = argValues
 		}
 	}
-	if f.function.ValueFunc != nil {
-		return f.function.ValueFunc(ctx, argValues)
+	if function.ValueFunc != nil {
+		return function.ValueFunc(ctx, argValues)
 	}
-	return f.function.Func(ctx, args)
+	return function.Func(ctx, args)
 }
 
 func (cs caseClause) Evaluate(ctx *EvalContext) (Value, error) {
-- 
2.43.0


From d39da99301f0683b4d43d5e1e1e99cb1ba9c599c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:10 +0000
Subject: [PATCH 17/26] fix: integers and floats are compared exactly

---
 relationaleval.go | 45 +++++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/relationaleval.go b/relationaleval.go
index 71772a2..ddecc0d 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -1,6 +1,32 @@
 package opencypher
 
-import ()
+import (
+	"math"
+)
+
+// compareIntFloat compares an int with a float without rounding the
+// int to a float, so that the comparison agrees with the order of the
+// numbers also for large ints
+func compareIntFloat(i int, f float64) int {
+	switch {
+	case f >= math.MaxInt64:
+		return -1
+	case f < math.MinInt64 || math.IsNaN(f):
+		return 1
+	}
+	whole := math.Trunc(f)
+	switch {
+	case i < int(whole):
+		return -1
+	case i > int(whole):
+		return 1
+	case whole < f:
+		return -1
+	case whole > f:
+		return 1
+	}
+	return 0
+}
 
 func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 	if v1 == nil {
@@ -35,24 +61,15 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 			}
 			return 1, nil
 		case float64:
-			if float64(value1) == value2 {
-				return 0, nil
-			}
-			if float64(value1) < value2 {
-				return -1, nil
-			}
-			return 1, nil
+			return compareIntFloat(value1, value2), nil
 		}
 	case float64:
 		switch value2 := v2.(type) {
 		case int:
-			if value1 == float64(value2) {
-				return 0, nil
-			}
-			if value1 < float64(value2) {
-				return -1, nil
+			if math.IsNaN(value1) {
+				return 1, nil
 			}
-			return 1, nil
+			return -compareIntFloat(value2, value1), nil
 		case float64:
 			if value1 == value2 {
 				return 0, nil
-- 
2.43.0


From 165ddcc756032ff23cc74c871e8fbf03551b6f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:13 +0000
Subject: [PATCH 18/26] fix: IN and CASE find an equal value also after values
 of other types

---
 eval.go | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/eval.go b/eval.go
index 868100c..ce95447 100644
--- a/eval.go
+++ b/eval.go
@@ -146,14 +146,8 @@ func (expr stringListNullOperatorExpressionPart) evaluate(ctx *EvalContext, inpu
 		for _, elem := range list {
 			if elem.Get() == nil {
 				hasNull = true
-			} else {
-				v, err := comparePrimitiveValues(inputValue.Get(), elem.Get())
-				if err != nil {
-					return nil, err
-				}
-				if v == 0 {
-					return RValue{Value: true}, nil
-				}
+			} else if IsValueSame(inputValue, elem) {
+				return RValue{Value: true}, nil
 			}
 		}
 		if hasNull {
@@ -394,11 +388,8 @@ func (cs caseClause) Evaluate(ctx *EvalContext) (Value, error) {
 			return nil, err
 		}
 		if cs.test != nil {
-			result, err := comparePrimitiveValues(testValue.Get(), when.Get())
-			if err != nil {
-				return nil, err
-			}
-			if result == 0 {
+			// null does not equal anything
+			if testValue.Get() != nil && IsValueSame(testValue, when) {
 				return alternative.then.Evaluate(ctx)
 			}
 		} else {
-- 
2.43.0


From f69002ce12c270788189d2c734adab557748a797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:15 +0000
Subject: [PATCH 19/26] fix: left, right, substring and size report arguments
 they do not accept

---
 functions.go   |  2 +-
 stringfuncs.go | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/functions.go b/functions.go
index cf8eb51..37b18e0 100644
--- a/functions.go
+++ b/functions.go
@@ -147,5 +147,5 @@ func sizeFunc(ctx *EvalContext, args []Value) (Value, error) {
 	if str, ok := val.(string); ok {
 		return RValue{Value: utf8.RuneCountInString(str)}, nil
 	}
-	return RValue{}, nil
+	return nil, fmt.Errorf("Cannot determine size of %T", val)
 }
diff --git a/stringfuncs.go b/stringfuncs.go
index 7102799..f5b77c3 100644
--- a/stringfuncs.go
+++ b/stringfuncs.go
@@ -127,7 +127,7 @@ func rightFunc(ctx *EvalContext, args []Value) (Value, error) {
 		return nil, fmt.Errorf("In right: %s", err)
 	}
 	if i < 0 {
-		return RValue{Value: ""}, nil
+		return nil, fmt.Errorf("In right: negative length: %d", i)
 	}
 	if i > len(s) {
 		i = len(s)
@@ -149,7 +149,7 @@ func leftFunc(ctx *EvalContext, args []Value) (Value, error) {
 		return nil, fmt.Errorf("In left: %w", err)
 	}
 	if i < 0 {
-		return RValue{Value: ""}, nil
+		return nil, fmt.Errorf("In left: negative length: %d", i)
 	}
 	if i > len(s) {
 		i = len(s)
@@ -180,10 +180,13 @@ func substringFunc(ctx *EvalContext, args []Value) (Value, error) {
 			return nil, fmt.Errorf("In substring: %w", err)
 		}
 		if max < 0 {
-			return RValue{}, nil
+			return nil, fmt.Errorf("In substring: negative length: %d", max)
 		}
 	}
-	if start < 0 || start > len(s) {
+	if start < 0 {
+		return nil, fmt.Errorf("In substring: negative start: %d", start)
+	}
+	if start > len(s) {
 		return RValue{Value: ""}, nil
 	}
 	var end int
-- 
2.43.0


From 9b9b622c5112bf7d37089ba14197e4eba3f9c98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:18 +0000
Subject: [PATCH 20/26] fix: type of null is null, and a range cannot have a
 zero step

---
 functions.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/functions.go b/functions.go
index 37b18e0..5a87606 100644
--- a/functions.go
+++ b/functions.go
@@ -80,7 +80,10 @@ func rangeFunc(ctx *EvalContext, args []Value) (Value, error) {
 			return nil, err
 		}
 	}
-	if (end < start && skip > 0) || (end > start && skip < 0) || skip == 0 {
+	if skip == 0 {
+		return nil, fmt.Errorf("In range: step is zero")
+	}
+	if (end < start && skip > 0) || (end > start && skip < 0) {
 		return RValue{Value: []Value{}}, nil
 	}
 	// Both ends are inclusive. The step is compared with what remains,
@@ -125,6 +128,9 @@ func timestampFunc(ctx *EvalContext, args []Value) (Value, error) {
 }
 
 func typeFunc(ctx *EvalContext, args []Value) (Value, error) {
+	if args[0].Get() == nil {
+		return RValue{}, nil
+	}
 	edge, ok := args[0].Get().(*lpg.Edge)
 	if ok {
 		return RValue{Value: edge.GetLabel()}, nil
-- 
2.43.0


From 3e4a0036c9505ec11f5bfe1a002255a730b7752b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:21 +0000
Subject: [PATCH 21/26] fix: toInteger converts decimal text and reports
 numbers that are out of range

---
 scalarfuncs.go | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/scalarfuncs.go b/scalarfuncs.go
index f902077..655678a 100644
--- a/scalarfuncs.go
+++ b/scalarfuncs.go
@@ -2,6 +2,7 @@ package opencypher
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 )
 
@@ -32,6 +33,28 @@ func init() {
 	}
 }
 
+// floatToInt drops the fraction of f. It is an error if the result
+// does not fit into an int
+func floatToInt(f float64) (int, error) {
+	if f >= math.MinInt64 && f < math.MaxInt64 {
+		return int(f), nil
+	}
+	return 0, fmt.Errorf("Integer out of range: %v", f)
+}
+
+// stringToInt returns the integer s denotes, without the fraction if
+// s is a decimal number
+func stringToInt(s string) (int, error) {
+	i, err := strconv.Atoi(s)
+	if err == nil {
+		return i, nil
+	}
+	if f, ferr := strconv.ParseFloat(s, 64); ferr == nil {
+		return floatToInt(f)
+	}
+	return 0, err
+}
+
 func toIntegerOrNullFunc(ctx *EvalContext, args []Value) (Value, error) {
 	v := args[0].Get()
 	if v == nil {
@@ -41,13 +64,16 @@ func toIntegerOrNullFunc(ctx *EvalContext, args []Value) (Value, error) {
 		return RValue{Value: i}, nil
 	}
 	if s, ok := v.(string); ok {
-		if i, err := strconv.Atoi(s); err == nil {
+		if i, err := stringToInt(s); err == nil {
 			return RValue{Value: i}, nil
 		}
 		return RValue{}, nil
 	}
 	if f, ok := v.(float64); ok {
-		return RValue{Value: int(f)}, nil
+		if i, err := floatToInt(f); err == nil {
+			return RValue{Value: i}, nil
+		}
+		return RValue{}, nil
 	}
 	if b, ok := v.(bool); ok {
 		if b {
@@ -67,14 +93,18 @@ func toIntegerFunc(ctx *EvalContext, args []Value) (Value, error) {
 		return RValue{Value: i}, nil
 	}
 	if s, ok := v.(string); ok {
-		i, err := strconv.Atoi(s)
+		i, err := stringToInt(s)
 		if err == nil {
 			return RValue{Value: i}, nil
 		}
 		return RValue{}, err
 	}
 	if f, ok := v.(float64); ok {
-		return RValue{Value: int(f)}, nil
+		i, err := floatToInt(f)
+		if err == nil {
+			return RValue{Value: i}, nil
+		}
+		return RValue{}, err
 	}
 	if b, ok := v.(bool); ok {
 		if b {
-- 
2.43.0


From f2032658c933c6bee27d4a9b8457f1122ef5edae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:24 +0000
Subject: [PATCH 22/26] fix: unary plus accepts numbers only

---
 arithmeticeval.go | 6 +++++-
 ast.go            | 9 +++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 433e98b..d9ccfd4 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -16,7 +16,11 @@ func (expr *unaryAddOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, err
 	}
 	// If the value is  an lvalue, preserve lvalue status
 	if !expr.neg {
-		return value, nil
+		switch value.Get().(type) {
+		case nil, int, float64:
+			return value, nil
+		}
+		return nil, ErrInvalidUnaryOperation
 	}
 	// From now on, it is an rvalue
 	ret := RValue{Const: value.IsConst()}
diff --git a/ast.go b/ast.go
index 840c9fc..3b904d4 100644
--- a/ast.go
+++ b/ast.go
@@ -750,17 +750,22 @@ func oC_PowerOfExpression(ctx *parser.OC_PowerOfExpressionContext) Evaluatable {
 
 func oC_UnaryAddOrSubtractExpression(ctx *parser.OC_UnaryAddOrSubtractExpressionContext) Evaluatable {
 	ret := unaryAddOrSubtractExpression{}
+	signed := false
 	for child := 0; child < ctx.GetChildCount(); child++ {
 		ch := ctx.GetChild(child)
 		if tok, ok := ch.(antlr.TerminalNode); ok {
-			if tok.GetText() == "-" {
+			switch tok.GetText() {
+			case "-":
 				ret.neg = !ret.neg
+				signed = true
+			case "+":
+				signed = true
 			}
 		} else if expr, ok := ch.(*parser.OC_StringListNullOperatorExpressionContext); ok {
 			ret.expr = oC_StringListNullOperatorExpression(expr)
 		}
 	}
-	if !ret.neg {
+	if !signed {
 		return ret.expr
 	}
 	return &ret
-- 
2.43.0


From 9f4065893ac0052b193d68bf6fc070f8db79ee64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:30 +0000
Subject: [PATCH 23/26] fix: toInteger reports integer text that is out of
 range

---
 scalarfuncs.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scalarfuncs.go b/scalarfuncs.go
index 655678a..312aed8 100644
--- a/scalarfuncs.go
+++ b/scalarfuncs.go
@@ -1,6 +1,7 @@
 package opencypher
 
 import (
+	"errors"
 	"fmt"
 	"math"
 	"strconv"
@@ -46,8 +47,8 @@ func floatToInt(f float64) (int, error) {
 // s is a decimal number
 func stringToInt(s string) (int, error) {
 	i, err := strconv.Atoi(s)
-	if err == nil {
-		return i, nil
+	if err == nil || errors.Is(err, strconv.ErrRange) {
+		return i, err
 	}
 	if f, ferr := strconv.ParseFloat(s, 64); ferr == nil {
 		return floatToInt(f)
-- 
2.43.0


From a6707857111bcca2712fe4227f4f355e1f6bd57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:46 +0000
Subject: [PATCH 24/26] fix: NOT NOT requires a boolean operand

---
 ast.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ast.go b/ast.go
index 3b904d4..e7b9f62 100644
--- a/ast.go
+++ b/ast.go
@@ -646,12 +646,11 @@ func oC_AndExpression(ctx *parser.OC_AndExpressionContext) Expression {
 }
 
 func oC_NotExpression(ctx *parser.OC_NotExpressionContext) Expression {
-	if len(ctx.AllNOT())%2 == 1 {
-		return notExpression{
-			part: oC_ComparisonExpression(ctx.OC_ComparisonExpression().(*parser.OC_ComparisonExpressionContext)),
-		}
+	ret := oC_ComparisonExpression(ctx.OC_ComparisonExpression().(*parser.OC_ComparisonExpressionContext))
+	for range ctx.AllNOT() {
+		ret = notExpression{part: ret}
 	}
-	return oC_ComparisonExpression(ctx.OC_ComparisonExpression().(*parser.OC_ComparisonExpressionContext))
+	return ret
 }
 
 func oC_ComparisonExpression(ctx *parser.OC_ComparisonExpressionContext) Expression {
-- 
2.43.0


From 227874d39f9123044f7dacc48df617331d61b46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:43 +0000
Subject: [PATCH 25/26] fix: the concatenation of lists that are empty in one
 row is not constant

---
 arithmeticeval.go | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index d9ccfd4..77d8f6e 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -361,23 +361,10 @@ func adddurdur(a Duration, b Duration, sub bool) (Duration, error) {
 	return Duration{Months: a.Months + b.Months, Days: a.Days + b.Days, Seconds: a.Seconds + b.Seconds, Nanos: a.Nanos + b.Nanos}, nil
 }
 
-func addlistlist(a, b []Value) RValue {
+func addlistlist(a, b []Value) []Value {
 	arr := make([]Value, 0, len(a)+len(b))
-	ret := RValue{Const: true}
-	for _, x := range a {
-		if !x.IsConst() {
-			ret.Const = false
-		}
-		arr = append(arr, x)
-	}
-	for _, x := range b {
-		if !x.IsConst() {
-			ret.Const = false
-		}
-		arr = append(arr, x)
-	}
-	ret.Value = arr
-	return ret
+	arr = append(arr, a...)
+	return append(arr, b...)
 }
 
 func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
@@ -478,7 +465,7 @@ func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
 			}
 			switch operandValue := operand.Get().(type) {
 			case []Value:
-				ret = addlistlist(retValue, operandValue)
+				ret.Value = addlistlist(retValue, operandValue)
 			default:
 				err = ErrInvalidAdditiveOperation
 			}
-- 
2.43.0


From 63d24a212890e49558404cae7e2c3b7587df1cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:36 +0000
Subject: [PATCH 26/26] fix: a call without arguments is not cached in the
 parsed query

---
 ast.go  |  3 ---
 eval.go | 28 ++++++++--------------------
 2 files changed, 8 insertions(+), 23 deletions(-)

diff --git a/ast.go b/ast.go
index e7b9f62..713c723 100644
--- a/ast.go
+++ b/ast.go
@@ -346,9 +346,6 @@ type functionInvocation struct {
 	name     []symbolicName
 	distinct bool
 	args     []Expression
-
-	constArgs      []Evaluatable
-	constArgValues []Value
 }
 
 type patternComprehension struct {
diff --git a/eval.go b/eval.go
index ce95447..053d066 100644
--- a/eval.go
+++ b/eval.go
@@ -345,27 +345,15 @@ func (f *functionInvocation) Evaluate(ctx *EvalContext) (Value, error) {
 		return nil, ErrInvalidFunctionCall{Msg: fmt.Sprintf("'%s' accepts at most %d arguments", function.Name, function.MaxArgs)}
 	}
 
-	args := f.constArgs
-	argValues := f.constArgValues
-	if args == nil {
-		constant := true
-		args = make([]Evaluatable, 0, len(f.args))
-		argValues = make([]Value, 0, len(f.args))
-		for a := range f.args {
-			v, err := f.args[a].Evaluate(ctx)
-			if err != nil {
-				return nil, err
-			}
-			if !v.IsConst() {
-				constant = false
-			}
-			argValues = append(argValues, v)
-			args = append(args, v)
-		}
-		if constant {
-			f.constArgs = args
-			f.constArgValues = argValues
+	args := make([]Evaluatable, 0, len(f.args))
+	argValues := make([]Value, 0, len(f.args))
+	for a := range f.args {
+		v, err := f.args[a].Evaluate(ctx)
+		if err != nil {
+			return nil, err
 		}
+		argValues = append(argValues, v)
+		args = append(args, v)
 	}
 	if function.ValueFunc != nil {
 		return function.ValueFunc(ctx, argValues)
-- 
2.43.0

