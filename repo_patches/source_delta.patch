From 8d52a0741c34244e2f1c146be7d4a298f28f8c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:35 +0000
Subject: [PATCH 01/65] fix: report values that are not numbers instead of
 choosing an arbitrary plural form

NaN, infinities, nil pointers, channels and functions were converted to an
arbitrary integer, numbers above the int64 range overflowed.
---
 catalog/poplural/rule.go | 9 +++++++++
 internal/cast/number.go  | 9 +++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/catalog/poplural/rule.go b/catalog/poplural/rule.go
index 01c7e43..634872b 100644
--- a/catalog/poplural/rule.go
+++ b/catalog/poplural/rule.go
@@ -1,6 +1,7 @@
 package poplural
 
 import (
+	"fmt"
 	"math"
 
 	"github.com/vorlif/spreak/catalog/poplural/ast"
@@ -26,7 +27,15 @@ func (f *Rule) Evaluate(a any) (int, error) {
 		return 0, err
 	}
 
+	if math.IsNaN(num) || math.IsInf(num, 0) {
+		return 0, fmt.Errorf("po plural: %v is not a number", num)
+	}
+
 	num = math.RoundToEven(math.Abs(num))
+	if num >= math.MaxInt64 {
+		// Only the last digits have an influence on the plural form
+		num = 1e18 + math.Mod(num, 1e18)
+	}
 	return f.FormFunc(int64(num)), nil
 }
 
diff --git a/internal/cast/number.go b/internal/cast/number.go
index 0934cf7..028a41e 100644
--- a/internal/cast/number.go
+++ b/internal/cast/number.go
@@ -50,8 +50,13 @@ func ToNumber(n any) (float64, error) {
 		return res, nil
 	}
 
-	if num, errC := ToNumber(fmt.Sprintf("%d", n)); errC == nil {
-		return num, nil
+	switch reflect.TypeOf(n).Kind() {
+	case reflect.Ptr, reflect.Func, reflect.Chan, reflect.UnsafePointer:
+		// fmt would print the address as a number
+	default:
+		if num, errC := ToNumber(fmt.Sprintf("%d", n)); errC == nil {
+			return num, nil
+		}
 	}
 
 	return ToNumber(fmt.Sprintf("%v", n))
-- 
2.43.0


From bb5d389eb4232683d9d78c4a1c9b0e5d1a2a26ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:35 +0000
Subject: [PATCH 02/65] fix: compute CLDR operands from the exact digits of the
 number

Negative decimals had negative integer digits, floats formatted with an
exponent, NaN and numbers with more than 18 digits were misread or rejected.
---
 catalog/cldrplural/cldr.go | 76 +++++++++++++++++++++++++-------------
 1 file changed, 51 insertions(+), 25 deletions(-)

diff --git a/catalog/cldrplural/cldr.go b/catalog/cldrplural/cldr.go
index 201566d..e2a3f7c 100644
--- a/catalog/cldrplural/cldr.go
+++ b/catalog/cldrplural/cldr.go
@@ -102,23 +102,30 @@ func NewOperands(a any) (*Operands, error) {
 	case int:
 		return newOperandsInt(int64(v)), nil
 	case float32:
-		return newOperandsString(fmt.Sprintf("%v", v))
+		bitSize := 32
+		if f := float64(v); f == math.Trunc(f) {
+			bitSize = 64 // The shortest representation does not contain all digits of a large integer
+		}
+		return newOperandsString(strconv.FormatFloat(float64(v), 'f', -1, bitSize))
 	case float64:
-		return newOperandsString(fmt.Sprintf("%v", v))
+		return newOperandsString(strconv.FormatFloat(v, 'f', -1, 64))
 	default:
 		num, err := cast.ToNumber(v)
 		if err != nil {
 			return nil, err
 		}
-		return newOperandsString(fmt.Sprintf("%v", num))
+		return newOperandsString(strconv.FormatFloat(num, 'f', -1, 64))
 	}
 }
 
 func newOperandsInt(i int64) *Operands {
-	if i < 0 {
+	n := math.Abs(float64(i))
+	if i == math.MinInt64 {
+		i = digitsToInt("9223372036854775808")
+	} else if i < 0 {
 		i = -i
 	}
-	return &Operands{float64(i), i, 0, 0, 0, 0, 0}
+	return &Operands{n, i, 0, 0, 0, 0, 0}
 }
 
 func newOperandsString(raw string) (*Operands, error) {
@@ -137,36 +144,55 @@ func newOperandsString(raw string) (*Operands, error) {
 	if errP != nil {
 		return nil, errP
 	}
+	if math.IsNaN(src) || math.IsInf(src, 0) {
+		return nil, fmt.Errorf("value %q is not a number", raw)
+	}
 
 	op.N = math.Abs(src)
-	op.I = int64(src)
-
-	if pointIdx := strings.Index(raw, "."); pointIdx >= 0 {
-		fractionDigits := raw[pointIdx+1:]
-		if fractionDigits != "" {
-			op.V = int64(len(fractionDigits))
-			f, err := strconv.ParseInt(fractionDigits, 10, 64)
-			if err != nil {
-				return nil, err
-			}
-			op.F = f
+
+	integerDigits, fractionDigits, _ := strings.Cut(strings.TrimLeft(raw, "+-"), ".")
+	if !isDigits(integerDigits) {
+		integerDigits, _, _ = strings.Cut(strconv.FormatFloat(op.N, 'f', -1, 64), ".")
+	}
+	op.I = digitsToInt(integerDigits)
+
+	if fractionDigits != "" {
+		if !isDigits(fractionDigits) {
+			return nil, fmt.Errorf("fraction digits of value %q are invalid", raw)
 		}
+		op.V = int64(len(fractionDigits))
+		op.F = digitsToInt(fractionDigits)
 
 		withoutZeros := strings.TrimRight(fractionDigits, "0")
-		if withoutZeros != "" {
-			op.W = int64(len(withoutZeros))
-			t, err := strconv.ParseInt(withoutZeros, 10, 64)
-			if err != nil {
-				return nil, err
-			}
-
-			op.T = t
-		}
+		op.W = int64(len(withoutZeros))
+		op.T = digitsToInt(withoutZeros)
 	}
 
 	return op, nil
 }
 
+func isDigits(s string) bool {
+	return strings.Trim(s, "0123456789") == ""
+}
+
+// digitsToInt converts decimal digits to a number.
+// If there are too many digits for an int64, only the last digits are kept and the result is at least 10^18.
+// This has no influence on the plural rules, as these only consider the last digits of large numbers.
+func digitsToInt(digits string) int64 {
+	digits = strings.TrimLeft(digits, "0")
+	if digits == "" {
+		return 0
+	}
+
+	if i, err := strconv.ParseInt(digits, 10, 64); err == nil {
+		return i
+	}
+
+	const maxDigits = 18
+	i, _ := strconv.ParseInt("1"+digits[len(digits)-maxDigits:], 10, 64)
+	return i
+}
+
 func shiftDecimalPoint(raw string, c int) string {
 	var s strings.Builder
 
-- 
2.43.0


From cee373494308c4cead2649e189b069b63eff263f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:37 +0000
Subject: [PATCH 03/65] fix: reject compact numbers without digits or with an
 absurd exponent

---
 catalog/cldrplural/cldr.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/catalog/cldrplural/cldr.go b/catalog/cldrplural/cldr.go
index e2a3f7c..00b213f 100644
--- a/catalog/cldrplural/cldr.go
+++ b/catalog/cldrplural/cldr.go
@@ -128,6 +128,9 @@ func newOperandsInt(i int64) *Operands {
 	return &Operands{n, i, 0, 0, 0, 0, 0}
 }
 
+// maxCompactExponent is the largest power of 10 that can be represented by a float64.
+const maxCompactExponent = 308
+
 func newOperandsString(raw string) (*Operands, error) {
 	op := &Operands{}
 
@@ -136,6 +139,12 @@ func newOperandsString(raw string) (*Operands, error) {
 		if err != nil {
 			return nil, err
 		}
+		if c < 0 || c > maxCompactExponent {
+			return nil, fmt.Errorf("compact exponent of value %q is out of range", raw)
+		}
+		if _, err = strconv.ParseFloat(raw[:cIdx], 64); err != nil {
+			return nil, err
+		}
 		op.C = int64(c)
 		raw = shiftDecimalPoint(raw[:cIdx], c)
 	}
-- 
2.43.0


From 31fb626e9036f4ffa5629c05b2f5de3e3e5dc648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:12 +0000
Subject: [PATCH 04/65] fix: ranges of CLDR rules contain integers only

Membership was decided by looping over the range with a tolerance of 1e-6,
so values like 2.0000001 matched and large ranges took very long.
---
 catalog/cldrplural/evaluation.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/catalog/cldrplural/evaluation.go b/catalog/cldrplural/evaluation.go
index 22f6271..d7358df 100644
--- a/catalog/cldrplural/evaluation.go
+++ b/catalog/cldrplural/evaluation.go
@@ -4,7 +4,6 @@ import (
 	"math"
 
 	"github.com/vorlif/spreak/catalog/cldrplural/ast"
-	"github.com/vorlif/spreak/internal/util"
 )
 
 func MustParseRules(rules map[Category]string) *RuleSet {
@@ -151,16 +150,9 @@ func isFloatInRange(x float64, rangeValues ...int64) bool {
 		lower := rangeValues[i]
 		upper := rangeValues[i+1]
 
-		// If the value is not within the range, not every value needs to be checked.
-		if !(x >= float64(lower) && x <= float64(upper)) {
-			continue
-		}
-
-		// Checking each value
-		for v := lower; v <= upper; v++ {
-			if util.FloatEqual(float64(v), x) {
-				return true
-			}
+		// A range only contains integers.
+		if x >= float64(lower) && x <= float64(upper) && x == math.Trunc(x) {
+			return true
 		}
 	}
 
@@ -169,7 +161,7 @@ func isFloatInRange(x float64, rangeValues ...int64) bool {
 
 func isFloatOneOf(target float64, vals ...int64) bool {
 	for _, val := range vals {
-		if util.FloatEqual(float64(val), target) {
+		if float64(val) == target {
 			return true
 		}
 	}
-- 
2.43.0


From ddd93a187ef89dae58bd16d1868672eaf5c6d4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 05/65] fix: evaluate gettext plural expressions with C
 semantics

Any non-zero value is true, ==, !=, <, <=, >, >= and % can be chained, and
the canonical form used to recognise well-known rules keeps the brackets
that are needed.
---
 catalog/poplural/ast/compile.go | 57 +++++++++++++++++++++++++++------
 catalog/poplural/ast/parser.go  | 13 ++++----
 catalog/poplural/rule.go        |  6 ++--
 3 files changed, 56 insertions(+), 20 deletions(-)

diff --git a/catalog/poplural/ast/compile.go b/catalog/poplural/ast/compile.go
index d6aacce..fa8c5c5 100644
--- a/catalog/poplural/ast/compile.go
+++ b/catalog/poplural/ast/compile.go
@@ -21,7 +21,7 @@ func compileNode(node Node) string {
 		then := compileNode(v.T)
 		other := compileNode(v.F)
 
-		if len(cond) > 1 && (!strings.HasPrefix(cond, "(") || !strings.HasSuffix(cond, ")")) {
+		if v.Cond.Type() == Question || len(cond) > 1 && (!strings.HasPrefix(cond, "(") || !strings.HasSuffix(cond, ")")) {
 			cond = "(" + cond + ")"
 		}
 		if len(then) > 1 {
@@ -33,26 +33,63 @@ func compileNode(node Node) string {
 
 		return fmt.Sprintf("%s ? %s : %s", cond, then, other)
 	case *BinaryExpr:
+		x, y := compileOperands(v)
 		switch v.Type() {
 		case LogicalAnd:
-			return compileNode(v.X) + " && " + compileNode(v.Y)
+			return x + " && " + y
 		case LogicalOr:
-			return fmt.Sprintf("(%s || %s)", compileNode(v.X), compileNode(v.Y))
+			return fmt.Sprintf("(%s || %s)", x, y)
 		case Equal:
-			return compileNode(v.X) + " == " + compileNode(v.Y)
+			return x + " == " + y
 		case NotEqual:
-			return compileNode(v.X) + " != " + compileNode(v.Y)
+			return x + " != " + y
 		case Greater:
-			return compileNode(v.X) + " > " + compileNode(v.Y)
+			return x + " > " + y
 		case GreaterOrEqual:
-			return compileNode(v.X) + " >= " + compileNode(v.Y)
+			return x + " >= " + y
 		case Less:
-			return compileNode(v.X) + " < " + compileNode(v.Y)
+			return x + " < " + y
 		case LessOrEqual:
-			return compileNode(v.X) + " <= " + compileNode(v.Y)
+			return x + " <= " + y
 		case Reminder:
-			return compileNode(v.X) + " % " + compileNode(v.Y)
+			return x + " % " + y
 		}
 	}
 	return ""
 }
+
+// compileOperands compiles both sides of a binary expression and puts brackets around a side
+// if it would otherwise be read differently.
+func compileOperands(e *BinaryExpr) (x, y string) {
+	x, y = compileNode(e.X), compileNode(e.Y)
+
+	own, left, right := precedence(e.Type()), precedence(e.X.Type()), precedence(e.Y.Type())
+	if left < own && e.X.Type() != LogicalOr {
+		x = "(" + x + ")"
+	}
+	// Only "and" and "or" are associative. A logical-or always has brackets.
+	associative := e.Type() == LogicalAnd || e.Type() == LogicalOr
+	if (right < own || right == own && !associative) && e.Y.Type() != LogicalOr {
+		y = "(" + y + ")"
+	}
+	return x, y
+}
+
+func precedence(tok Token) int {
+	switch tok {
+	case Question:
+		return 0
+	case LogicalOr:
+		return 1
+	case LogicalAnd:
+		return 2
+	case Equal, NotEqual:
+		return 3
+	case Greater, GreaterOrEqual, Less, LessOrEqual:
+		return 4
+	case Reminder:
+		return 5
+	default:
+		return 6
+	}
+}
diff --git a/catalog/poplural/ast/parser.go b/catalog/poplural/ast/parser.go
index 2b439e4..c2e05b0 100644
--- a/catalog/poplural/ast/parser.go
+++ b/catalog/poplural/ast/parser.go
@@ -204,7 +204,7 @@ func (p *parser) equalityExpression() (Node, error) {
 		return nil, err
 	}
 
-	if p.lastToken == Equal || p.lastToken == NotEqual {
+	for p.lastToken == Equal || p.lastToken == NotEqual {
 		compareNode := &BinaryExpr{Op: p.lastToken}
 
 		if errScan := p.scanNext(); errScan != nil {
@@ -218,7 +218,7 @@ func (p *parser) equalityExpression() (Node, error) {
 
 		compareNode.X = n
 		compareNode.Y = re
-		return compareNode, nil
+		n = compareNode
 	}
 
 	return n, nil
@@ -230,7 +230,7 @@ func (p *parser) relationalExpression() (Node, error) {
 		return nil, err
 	}
 
-	if p.lastToken == Greater || p.lastToken == Less || p.lastToken == GreaterOrEqual || p.lastToken == LessOrEqual {
+	for p.lastToken == Greater || p.lastToken == Less || p.lastToken == GreaterOrEqual || p.lastToken == LessOrEqual {
 		compareNode := &BinaryExpr{Op: p.lastToken}
 
 		if errScan := p.scanNext(); errScan != nil {
@@ -244,7 +244,7 @@ func (p *parser) relationalExpression() (Node, error) {
 
 		compareNode.X = n
 		compareNode.Y = me
-		return compareNode, nil
+		n = compareNode
 	}
 
 	return n, nil
@@ -256,7 +256,7 @@ func (p *parser) multiplicativeExpression() (Node, error) {
 		return nil, err
 	}
 
-	if p.lastToken == Reminder {
+	for p.lastToken == Reminder {
 		if errScan := p.scanNext(); errScan != nil {
 			return nil, errScan
 		}
@@ -266,12 +266,11 @@ func (p *parser) multiplicativeExpression() (Node, error) {
 			return nil, errPm
 		}
 
-		modNode := &BinaryExpr{
+		n = &BinaryExpr{
 			X:  n,
 			Op: Reminder,
 			Y:  pm,
 		}
-		return modNode, nil
 	}
 
 	return n, nil
diff --git a/catalog/poplural/rule.go b/catalog/poplural/rule.go
index 634872b..1cdea89 100644
--- a/catalog/poplural/rule.go
+++ b/catalog/poplural/rule.go
@@ -91,16 +91,16 @@ func evaluateNode(node ast.Node, num int64) int64 {
 	case *ast.OperandExpr:
 		return num
 	case *ast.QuestionMarkExpr:
-		if evaluateNode(v.Cond, num) == 1 {
+		if evaluateNode(v.Cond, num) != 0 {
 			return evaluateNode(v.T, num)
 		}
 		return evaluateNode(v.F, num)
 	case *ast.BinaryExpr:
 		switch v.Type() {
 		case ast.LogicalAnd:
-			conditionTrue = evaluateNode(v.X, num) == 1 && evaluateNode(v.Y, num) == 1
+			conditionTrue = evaluateNode(v.X, num) != 0 && evaluateNode(v.Y, num) != 0
 		case ast.LogicalOr:
-			conditionTrue = evaluateNode(v.X, num) == 1 || evaluateNode(v.Y, num) == 1
+			conditionTrue = evaluateNode(v.X, num) != 0 || evaluateNode(v.Y, num) != 0
 		case ast.Equal:
 			conditionTrue = evaluateNode(v.X, num) == evaluateNode(v.Y, num)
 		case ast.NotEqual:
-- 
2.43.0


From 03c794e860acddbf79d03ca9778aeb7be6a0f72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:39 +0000
Subject: [PATCH 06/65] fix: parse and evaluate custom CLDR rules
 deterministically

The rules were kept in a map, so the order of the categories and the result
depended on chance, in particular when a text for 'other' was given. Also
reject values which cannot be represented and modulo zero, accept the range
0..0 and upper-case operands, and do not expand sample ranges endlessly.
---
 catalog/cldrplural/ast/parser.go  | 33 +++++++++++++++++++++++++------
 catalog/cldrplural/ast/scanner.go |  2 +-
 catalog/cldrplural/evaluation.go  | 33 +++++++++++++++++++------------
 3 files changed, 48 insertions(+), 20 deletions(-)

diff --git a/catalog/cldrplural/ast/parser.go b/catalog/cldrplural/ast/parser.go
index 12030e9..5347398 100644
--- a/catalog/cldrplural/ast/parser.go
+++ b/catalog/cldrplural/ast/parser.go
@@ -1,6 +1,7 @@
 package ast
 
 import (
+	"errors"
 	"fmt"
 	"strconv"
 	"strings"
@@ -50,6 +51,13 @@ type parser struct {
 	n int
 }
 
+const (
+	// maxRuleLength limits the nesting of rules from untrusted sources.
+	maxRuleLength = 1 << 16
+	// maxSamples limits how many values a range of samples is expanded to.
+	maxSamples = 1000
+)
+
 func MustParse(rawRule string) *Rule {
 	r, err := Parse(rawRule)
 	if err != nil {
@@ -59,6 +67,10 @@ func MustParse(rawRule string) *Rule {
 }
 
 func Parse(rawRule string) (*Rule, error) {
+	if len(rawRule) > maxRuleLength {
+		return nil, errors.New("rule is too long")
+	}
+
 	p := &parser{s: newScanner(rawRule)}
 
 	rule, err := p.Parse()
@@ -178,7 +190,7 @@ func (p *parser) expression() (Node, error) {
 		return nil, fmt.Errorf("expected operand, got %q", p.lastLiteral)
 	}
 
-	operandNode := &OperandExpr{Operand: p.lastLiteral}
+	operandNode := &OperandExpr{Operand: strings.ToLower(p.lastLiteral)}
 
 	if errScan := p.scanNext(); errScan != nil {
 		return nil, errScan
@@ -194,6 +206,10 @@ func (p *parser) expression() (Node, error) {
 			return nil, errValue
 		}
 
+		if valueNode.Value == 0 {
+			return nil, errors.New("division by zero")
+		}
+
 		reminderNode := &ModuloExpr{
 			Op:    operandNode,
 			Value: valueNode.Value,
@@ -210,7 +226,10 @@ func (p *parser) value() (*ValueExpr, error) {
 		return nil, fmt.Errorf("expected value (\\d+), got %q", p.lastLiteral)
 	}
 
-	value, _ := strconv.ParseInt(p.lastLiteral, 10, 64)
+	value, errParse := strconv.ParseInt(p.lastLiteral, 10, 64)
+	if errParse != nil {
+		return nil, fmt.Errorf("invalid value %s: %w", p.lastLiteral, errParse)
+	}
 
 	if errScan := p.scanNext(); errScan != nil {
 		return nil, errScan
@@ -345,12 +364,14 @@ func (p *parser) scan() (tok Token, lit string) {
 func parseSampleRange(sampleRange string) []string {
 	var sampleValues []string // sampleValue, sampleValue, sampleValue, ...
 	if parts := strings.Split(sampleRange, "~"); len(parts) == 2 {
-		for ex := parts[0]; ; ex = increment(ex) {
-			sampleValues = append(sampleValues, ex)
-			if ex == parts[1] {
-				break
+		for ex := parts[0]; ex != parts[1]; ex = increment(ex) {
+			if len(sampleValues) >= maxSamples || len(ex) > len(parts[1]) {
+				// Too large or the end can never be reached
+				return parts
 			}
+			sampleValues = append(sampleValues, ex)
 		}
+		sampleValues = append(sampleValues, parts[1])
 	} else {
 		sampleValues = append(sampleValues, parts...)
 	}
diff --git a/catalog/cldrplural/ast/scanner.go b/catalog/cldrplural/ast/scanner.go
index f47e20e..0af072d 100644
--- a/catalog/cldrplural/ast/scanner.go
+++ b/catalog/cldrplural/ast/scanner.go
@@ -28,7 +28,7 @@ const (
 
 var (
 	reValue       = regexp.MustCompile(`^\d+$`)
-	reRange       = regexp.MustCompile(`^\d+\.\.[1-9]\d*$`)
+	reRange       = regexp.MustCompile(`^(?:\d+\.\.0*[1-9]\d*|0+\.\.0+)$`)
 	reSampleValue = regexp.MustCompile(`^((?:0|[1-9]\d*c?\d*)(?:\.\d*)?|(?:0|[1-9]\d*\d*)(?:\.\d*c?\d*)?)$`)
 	reSampleRange = regexp.MustCompile(`^(?:0|[1-9]\d*)(?:\.\d*)?~(?:0|[1-9]\d*)(?:\.\d*)?$`)
 )
diff --git a/catalog/cldrplural/evaluation.go b/catalog/cldrplural/evaluation.go
index d7358df..2298e59 100644
--- a/catalog/cldrplural/evaluation.go
+++ b/catalog/cldrplural/evaluation.go
@@ -1,7 +1,9 @@
 package cldrplural
 
 import (
+	"fmt"
 	"math"
+	"sort"
 
 	"github.com/vorlif/spreak/catalog/cldrplural/ast"
 )
@@ -21,29 +23,34 @@ func ParseRules(rawRules map[Category]string) (*RuleSet, error) {
 	rules := make(map[Category]*ast.Rule)
 
 	for cat, rawRule := range rawRules {
+		if cat < Zero || cat > Other {
+			return nil, fmt.Errorf("cldrplural: unknown category %d", cat)
+		}
+
 		rule, err := ast.Parse(rawRule)
 		if err != nil {
 			return nil, err
 		}
 		rules[cat] = rule
-		categories = append(categories, cat)
+		if cat != Other {
+			categories = append(categories, cat)
+		}
 	}
 
-	if _, hasOther := rawRules[Other]; !hasOther {
-		categories = append(categories, Other)
-	}
+	// The order must not depend on the map, Other is always present and always the last category.
+	sort.Slice(categories, func(i, j int) bool { return categories[i] < categories[j] })
+	categories = append(categories, Other)
 
-	formF := func(rules map[Category]*ast.Rule) FormFunc {
-		return func(ops *Operands) Category {
-			for cat, rule := range rules {
-				if evaluate(rule, ops) {
-					return cat
-				}
+	conditions := append([]Category(nil), categories[:len(categories)-1]...)
+	formF := func(ops *Operands) Category {
+		for _, cat := range conditions {
+			if evaluate(rules[cat], ops) {
+				return cat
 			}
-
-			return Other
 		}
-	}(rules)
+
+		return Other
+	}
 
 	return &RuleSet{Categories: categories, FormFunc: formF}, nil
 }
-- 
2.43.0


From fb02b1859391328260f346c266edd88b5efd769f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:51 +0000
Subject: [PATCH 07/65] fix: reject plural rules whose nesting could exhaust
 the stack

---
 catalog/poplural/ast/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/catalog/poplural/ast/parser.go b/catalog/poplural/ast/parser.go
index c2e05b0..5304e6f 100644
--- a/catalog/poplural/ast/parser.go
+++ b/catalog/poplural/ast/parser.go
@@ -28,7 +28,14 @@ func MustParse(rule string) *Forms {
 	return f
 }
 
+// maxRuleLength limits the nesting of rules from untrusted sources.
+const maxRuleLength = 1 << 16
+
 func Parse(rule string) (*Forms, error) {
+	if len(rule) > maxRuleLength {
+		return nil, errors.New("po parser: rule is too long")
+	}
+
 	p := &parser{
 		s: newScanner(strings.NewReader(rule)),
 	}
-- 
2.43.0


From 4b3ff42a7ed29e17d55bee91fcec0de62a7e964a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:06 +0000
Subject: [PATCH 08/65] fix: write and read control characters in PO strings

escapePoString panicked for control characters without a short escape
sequence, and a trailing backslash made the decoder loop forever.
---
 catalog/po/po_string.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/catalog/po/po_string.go b/catalog/po/po_string.go
index fde2ddf..2714b15 100644
--- a/catalog/po/po_string.go
+++ b/catalog/po/po_string.go
@@ -3,6 +3,7 @@ package po
 import (
 	"bytes"
 	"fmt"
+	"strconv"
 	"strings"
 	"unicode"
 	"unicode/utf8"
@@ -295,7 +296,7 @@ func escapePoString(s string) string {
 			default:
 				buf.WriteByte('x')
 				buf.WriteByte(hex[b>>4])
-				buf.WriteByte(hex[hex[b&0xF]])
+				buf.WriteByte(hex[b&0xF])
 			}
 			i++
 			start = i
@@ -323,6 +324,15 @@ func escapePoString(s string) string {
 	return buf.String()
 }
 
+// parseHex reads the ASCII character that is given by the first two bytes as hexadecimal digits.
+func parseHex(s []byte) (byte, bool) {
+	if len(s) < 2 {
+		return 0, false
+	}
+	char, err := strconv.ParseUint(string(s[:2]), 16, 8)
+	return byte(char), err == nil && char < utf8.RuneSelf
+}
+
 func unescapePoBytes(s []byte) []byte {
 	// Check for unusual characters. If there are none,
 	// then no unquoting is needed, so return a slice of the
@@ -360,11 +370,22 @@ func unescapePoBytes(s []byte) []byte {
 		}
 		switch c := s[r]; {
 		case c == '\\':
-			if r+1 >= len(s) {
+			r++
+			if r >= len(s) {
+				b[w] = '\\'
+				w++
 				break
 			}
-			r++
 			switch s[r] {
+			case 'x':
+				// Written by escapePoString for control characters
+				if char, ok := parseHex(s[r+1:]); ok {
+					b[w] = char
+					r += 3
+				} else {
+					b[w] = '\\'
+				}
+				w++
 			case 'a':
 				b[w] = '\a'
 				r++
-- 
2.43.0


From 5bf0b1c2f6c10a98efa8629a0950d2b772c330de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:08 +0000
Subject: [PATCH 09/65] fix: read PO files completely or return an error

Lines longer than 64 KB and errors of the reader were treated like the end
of the file, so that all messages after it were missing without an error.
---
 catalog/po/parser.go  |  9 ++++++++-
 catalog/po/scanner.go | 14 +++++++++-----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 5f18bab..6f7bbab 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -62,11 +62,18 @@ func (p *Parser) Parse(r io.Reader) (*File, error) {
 
 	// special case, empty file
 	if tok, _ := p.scan(); tok == eof {
+		if p.s.err != nil {
+			return nil, fmt.Errorf("po file could not be read: %w", p.s.err)
+		}
 		return nil, errors.New("po file cannot be empty")
 	}
 	p.unscan()
 
-	return p.parseFile()
+	file, err := p.parseFile()
+	if p.s.err != nil {
+		return nil, fmt.Errorf("po file could not be read: %w", p.s.err)
+	}
+	return file, err
 }
 
 func (p *Parser) parseFile() (*File, error) {
diff --git a/catalog/po/scanner.go b/catalog/po/scanner.go
index 6261675..9c0a969 100644
--- a/catalog/po/scanner.go
+++ b/catalog/po/scanner.go
@@ -3,6 +3,7 @@ package po
 import (
 	"bufio"
 	"io"
+	"math"
 	"regexp"
 	"strings"
 )
@@ -35,12 +36,17 @@ type scanner struct {
 	n   int
 
 	ignoreComments bool
+
+	// err is the first error of the reader that is not io.EOF
+	err error
 }
 
 func newScanner(r io.Reader) *scanner {
 	// content = bytes.ReplaceAll(content, []byte("\r"), []byte(""))
+	lineScanner := bufio.NewScanner(r)
+	lineScanner.Buffer(nil, math.MaxInt) // There is no limit for the length of a line
 	return &scanner{
-		lineScanner: bufio.NewScanner(r),
+		lineScanner: lineScanner,
 	}
 }
 
@@ -184,7 +190,7 @@ func (s *scanner) scanComment(line string) (token, string) {
 func (s *scanner) scanWhitespace() (tok token, lit string) {
 	for {
 		line, err := s.read()
-		if err == io.EOF {
+		if err != nil {
 			break
 		}
 
@@ -206,11 +212,9 @@ func (s *scanner) read() (string, error) {
 	}
 
 	if !s.lineScanner.Scan() {
+		s.err = s.lineScanner.Err()
 		return "", io.EOF
 	}
-	if s.lineScanner.Err() != nil {
-		return "", s.lineScanner.Err()
-	}
 
 	s.pos++
 	return s.lineScanner.Text(), nil
-- 
2.43.0


From a2b5c3e243061bb4798f62c655ace3b5f11bb81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:48 +0000
Subject: [PATCH 10/65] fix: separate PO messages independently of blank lines

A comment directly after a message was dropped together with its flags, with
comments skipped two messages without a blank line overwrote each other, and
continuation lines of plural forms were added to the wrong form if the forms
are not in ascending order. Also read msgstr without a space before the quote.
---
 catalog/po/parser.go | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 6f7bbab..efc37cf 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -160,21 +160,45 @@ loop:
 		}
 	}
 
+	var hasContext, hasID bool
+	var lastIdx int // index of the last read plural form
 	for {
 		tok, lit := p.scan()
 		switch tok {
 		case failure:
 			return nil, p.buildPosError()
-		case eof, whitespace, commentTranslator, commentExtracted, commentReference, commentFlags,
-			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine:
+		case eof:
 			// Message completed
 			return msg, nil
+		case whitespace:
+			if hasID && len(msg.Str) == 0 {
+				// Blank line within the message
+				continue
+			}
+			return msg, nil
+		case commentTranslator, commentExtracted, commentReference, commentFlags,
+			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine:
+			// The comment belongs to the next message
+			p.unscan()
+			return msg, nil
 		case msgContext:
+			if hasContext || hasID {
+				// Next message without a blank line in between
+				p.unscan()
+				return msg, nil
+			}
+			hasContext = true
 			line := lit[8:] // msgctxt
 			msg.Context = DecodePoString(line)
 		case msgContextLine:
 			msg.Context += DecodePoString(lit)
 		case msgID:
+			if hasID {
+				// Next message without a blank line in between
+				p.unscan()
+				return msg, nil
+			}
+			hasID = true
 			line := lit[6:] // msgid
 			msg.ID = DecodePoString(line)
 		case msgIDLine:
@@ -185,7 +209,7 @@ loop:
 		case msgIDPluralLine:
 			msg.IDPlural += DecodePoString(lit)
 		case msgStr:
-			line := lit[7:] // msgstr
+			line := lit[6:] // msgstr
 			msg.Str[0] = DecodePoString(line)
 		case msgStrLine:
 			msg.Str[0] += DecodePoString(lit)
@@ -198,13 +222,10 @@ loop:
 				return nil, fmt.Errorf("po file contains an invalid index for a plural translation (line %d)", p.s.pos)
 			}
 
-			line := lit[10:] // msgstr[x]
+			line := lit[right+1:] // msgstr[x]
 			msg.Str[idx] = DecodePoString(line)
+			lastIdx = idx
 		case msgStrPluralLine:
-			lastIdx := len(msg.Str) - 1
-			if lastIdx < 0 {
-				return nil, p.buildPosError()
-			}
 			msg.Str[lastIdx] += DecodePoString(lit)
 		default:
 			return nil, p.buildPosError()
-- 
2.43.0


From 009b1e11722ed3d628cecf89dc49c3fdb15a4c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:06 +0000
Subject: [PATCH 11/65] fix: do not attach the comments of obsolete PO messages
 to other messages

---
 catalog/po/parser.go  | 5 ++++-
 catalog/po/scanner.go | 6 ++++--
 catalog/po/token.go   | 1 +
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index efc37cf..bb7ecea 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -154,6 +154,9 @@ loop:
 			}
 
 			msg.Comment = comment
+		case commentObsolete:
+			// The comments read so far belong to an obsolete message
+			msg.Comment = NewComment()
 		default:
 			p.unscan()
 			break loop
@@ -177,7 +180,7 @@ loop:
 			}
 			return msg, nil
 		case commentTranslator, commentExtracted, commentReference, commentFlags,
-			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine:
+			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine, commentObsolete:
 			// The comment belongs to the next message
 			p.unscan()
 			return msg, nil
diff --git a/catalog/po/scanner.go b/catalog/po/scanner.go
index 9c0a969..d5ec799 100644
--- a/catalog/po/scanner.go
+++ b/catalog/po/scanner.go
@@ -148,8 +148,8 @@ func (s *scanner) scanComment(line string) (token, string) {
 
 	if s.ignoreComments {
 		switch line[1] {
-		case ',':
-			// Flag comments will always be read
+		case ',', '~':
+			// Flag comments will always be read and obsolete messages separate them
 			break
 		default:
 			return s.scan()
@@ -163,6 +163,8 @@ func (s *scanner) scanComment(line string) (token, string) {
 		return commentReference, line
 	case ',':
 		return commentFlags, line
+	case '~':
+		return commentObsolete, line
 	case '|':
 		// #| "..."
 		if rePrevMsgContextComments.MatchString(line) {
diff --git a/catalog/po/token.go b/catalog/po/token.go
index f655731..274e23f 100644
--- a/catalog/po/token.go
+++ b/catalog/po/token.go
@@ -15,6 +15,7 @@ const (
 	commentPrevMsgID                    // "#| msgid"
 	commentPrevMsgIDLine                // "#| \"prev-msg\""
 	commentPrevUnknown                  // "#| \"unknown\""
+	commentObsolete                     // "#~ msgid \"obsolete\""
 	msgContext                          // "msgctxt"
 	msgContextLine                      // "\"more context\""
 	msgID                               // "msgid"
-- 
2.43.0


From 87ead56a9358bde19e7c1bed2c7c9421e481ef9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:07 +0000
Subject: [PATCH 12/65] fix: skip PO comments without recursion

A file with many comment lines could exhaust the stack.
---
 catalog/po/scanner.go | 50 ++++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/catalog/po/scanner.go b/catalog/po/scanner.go
index d5ec799..f2ed588 100644
--- a/catalog/po/scanner.go
+++ b/catalog/po/scanner.go
@@ -51,34 +51,39 @@ func newScanner(r io.Reader) *scanner {
 }
 
 func (s *scanner) scan() (tok token, lit string) {
-	line, err := s.read()
 	defer func() {
 		s.lastToken = tok
 	}()
 
-	if err != nil {
-		return eof, ""
-	}
+	for {
+		line, err := s.read()
+		if err != nil {
+			return eof, ""
+		}
 
-	// Short path for better performance
-	if len(line) == 0 {
-		return s.scanWhitespace()
-	}
+		// Short path for better performance
+		if len(line) == 0 {
+			return s.scanWhitespace()
+		}
 
-	line = strings.TrimSpace(line)
-	if len(line) == 0 {
-		return s.scanWhitespace()
-	}
+		line = strings.TrimSpace(line)
+		if len(line) == 0 {
+			return s.scanWhitespace()
+		}
 
-	if line[0] == '#' {
-		return s.scanComment(line)
-	}
+		if line[0] == '#' {
+			if tokk, l := s.scanComment(line); tokk != none {
+				return tokk, l
+			}
+			continue // Skipped comment
+		}
 
-	if tokk, l := s.scanMessage(line); tokk != none {
-		return tokk, l
-	}
+		if tokk, l := s.scanMessage(line); tokk != none {
+			return tokk, l
+		}
 
-	return failure, line
+		return failure, line
+	}
 }
 
 func (s *scanner) scanMessage(line string) (token, string) {
@@ -127,13 +132,14 @@ func (s *scanner) scanMessage(line string) (token, string) {
 	return none, line
 }
 
+// scanComment returns the token none for comments that are skipped.
 func (s *scanner) scanComment(line string) (token, string) {
 	lineLen := len(line)
 
 	// comment without content
 	if lineLen == 1 {
 		if s.ignoreComments {
-			return s.scan()
+			return none, ""
 		}
 		return commentTranslator, line
 	}
@@ -142,7 +148,7 @@ func (s *scanner) scanComment(line string) (token, string) {
 	if lineLen == 2 {
 		switch line[1] {
 		case '.', ':', ',', '|':
-			return s.scan()
+			return none, ""
 		}
 	}
 
@@ -152,7 +158,7 @@ func (s *scanner) scanComment(line string) (token, string) {
 			// Flag comments will always be read and obsolete messages separate them
 			break
 		default:
-			return s.scan()
+			return none, ""
 		}
 	}
 
-- 
2.43.0


From 2acb4460ee0d95ffcf80fae395a7a0a1f05ccf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:39 +0000
Subject: [PATCH 13/65] fix: keep PO references with colons in the path

Several spaces between references no longer create empty references.
---
 catalog/po/parser.go | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index bb7ecea..abff3d7 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -283,27 +283,14 @@ func (p *Parser) parseComment() (*Comment, error) {
 		case commentReference:
 			line = strings.TrimSpace(line[2:]) // #:
 
-			rawReferences := strings.Split(line, " ")
-			for _, rawRef := range rawReferences {
-				rawRef = strings.TrimSpace(rawRef)
-				colonIdx := strings.Index(rawRef, ":")
-				if colonIdx <= 0 {
-					// no line number
-					ref := &Reference{
-						Path: rawRef,
-						Line: -1,
+			for _, rawRef := range strings.Fields(line) {
+				// The path itself can contain a colon
+				ref := &Reference{Path: rawRef, Line: -1}
+				if colonIdx := strings.LastIndex(rawRef, ":"); colonIdx > 0 {
+					if lineNumber, err := strconv.Atoi(rawRef[colonIdx+1:]); err == nil {
+						ref.Path = rawRef[:colonIdx]
+						ref.Line = lineNumber
 					}
-					comment.References = append(comment.References, ref)
-					continue
-				}
-
-				lineNumber, err := strconv.Atoi(rawRef[colonIdx+1:])
-				if err != nil {
-					lineNumber = -1
-				}
-				ref := &Reference{
-					Path: rawRef[:colonIdx],
-					Line: lineNumber,
 				}
 				comment.References = append(comment.References, ref)
 			}
-- 
2.43.0


From 0ea8c2ea1dc8124b2083e3eb15e1bdfc88160362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:40 +0000
Subject: [PATCH 14/65] fix: write PO header fields escaped and in a fixed
 order

---
 catalog/po/encoder.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/catalog/po/encoder.go b/catalog/po/encoder.go
index 97406cb..fdbd9fa 100644
--- a/catalog/po/encoder.go
+++ b/catalog/po/encoder.go
@@ -137,8 +137,8 @@ func (enc *Encoder) encodeHeader(buff *bytes.Buffer, h *Header) {
 		{HeaderXGenerator, h.XGenerator},
 	}
 
-	for k, v := range h.UnknownFields {
-		headers = append(headers, headerEntry{k, v})
+	for _, k := range slices.Sorted(maps.Keys(h.UnknownFields)) {
+		headers = append(headers, headerEntry{k, h.UnknownFields[k]})
 	}
 
 	if !enc.writeEmptyHeader {
@@ -164,9 +164,9 @@ msgstr ""
 			continue
 		}
 		buff.WriteRune('"')
-		buff.WriteString(header.key)
+		buff.WriteString(escapePoString(header.key))
 		buff.WriteString(": ")
-		buff.WriteString(header.value)
+		buff.WriteString(escapePoString(header.value))
 		buff.WriteString("\\n\"\n")
 	}
 }
-- 
2.43.0


From d04674eb9dd459dbd8037a6a89b93cba83d1f1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:42 +0000
Subject: [PATCH 15/65] fix: do not overwrite the second plural form when
 writing PO messages

---
 catalog/po/encoder.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/catalog/po/encoder.go b/catalog/po/encoder.go
index fdbd9fa..87c5ad7 100644
--- a/catalog/po/encoder.go
+++ b/catalog/po/encoder.go
@@ -235,6 +235,9 @@ func (enc *Encoder) encodeMessage(buff *bytes.Buffer, m *Message) {
 	buff.WriteString("\n")
 
 	hasPlural := m.IDPlural != "" || len(m.Str) > 1
+	for idx := range m.Str {
+		hasPlural = hasPlural || idx != 0
+	}
 	if hasPlural {
 		buff.WriteString("msgid_plural ")
 		buff.WriteString(EncodePoString(m.IDPlural, enc.wrapWidth))
@@ -256,9 +259,11 @@ func (enc *Encoder) encodeTranslations(buff *bytes.Buffer, plural bool, orig map
 	}
 
 	if plural {
-		if len(m) == 1 {
-			// Plural needs at least two entries
-			m[1] = `""`
+		// Plural needs at least two entries
+		for idx := 0; idx <= 1; idx++ {
+			if _, ok := m[idx]; !ok {
+				m[idx] = `""`
+			}
 		}
 
 		keys := slices.Sorted(maps.Keys(m))
-- 
2.43.0


From bd202d6254bacbe87173030300ed163f57ec3842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 16/65] fix: sort PO messages by all references and then by
 context and ID

Messages with the same first reference compared as equal and the order was
not transitive, so the order in the file depended on chance.
---
 catalog/po/encoder.go | 57 ++++++++++++++++---------------------------
 1 file changed, 21 insertions(+), 36 deletions(-)

diff --git a/catalog/po/encoder.go b/catalog/po/encoder.go
index 87c5ad7..bd574ce 100644
--- a/catalog/po/encoder.go
+++ b/catalog/po/encoder.go
@@ -2,6 +2,7 @@ package po
 
 import (
 	"bytes"
+	"cmp"
 	"fmt"
 	"io"
 	"maps"
@@ -277,46 +278,30 @@ func (enc *Encoder) encodeTranslations(buff *bytes.Buffer, plural bool, orig map
 	}
 }
 
+// DefaultSortFunction sorts messages by their references, then by context and ID.
+// Messages without references come first.
 func DefaultSortFunction(a *Message, b *Message) int {
-	if a.Comment != nil && b.Comment != nil {
+	var aRefs, bRefs []*Reference
+	if a.Comment != nil {
 		a.Comment.sort()
-		b.Comment.sort()
-
-		for i := 0; i < len(a.Comment.References); i++ {
-			if i >= len(b.Comment.References) {
-				break
-			}
-			if c := strings.Compare(a.Comment.References[i].Path, b.Comment.References[i].Path); c != 0 {
-				return c
-			}
-			if c, k := a.Comment.References[i].Line, b.Comment.References[i].Line; c != k {
-				if c > k {
-					return 1
-				} else {
-					return -1
-				}
-			}
-			if c, k := a.Comment.References[i].Column, b.Comment.References[i].Column; c != k {
-				if c > k {
-					return 1
-				} else {
-					return -1
-				}
-			}
-
-			if c, k := a.Comment.References[i].Path, b.Comment.References[i].Path; c != "" && k != "" {
-				return strings.Compare(c, k)
-			}
-		}
+		aRefs = a.Comment.References
 	}
-
-	if c := strings.Compare(a.Context, b.Context); c != 0 {
-		return c
+	if b.Comment != nil {
+		b.Comment.sort()
+		bRefs = b.Comment.References
 	}
 
-	if c := strings.Compare(a.ID, b.ID); c != 0 {
-		return c
-	}
+	return cmp.Or(
+		slices.CompareFunc(aRefs, bRefs, compareReferences),
+		strings.Compare(a.Context, b.Context),
+		strings.Compare(a.ID, b.ID),
+	)
+}
 
-	return 0
+func compareReferences(a, b *Reference) int {
+	return cmp.Or(
+		strings.Compare(a.Path, b.Path),
+		cmp.Compare(a.Line, b.Line),
+		cmp.Compare(a.Column, b.Column),
+	)
 }
-- 
2.43.0


From d6baaca7e6b67d1929b938626743aad3cdeea4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:01 +0000
Subject: [PATCH 17/65] fix: write the previous context and ID of PO messages

---
 catalog/po/encoder.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/catalog/po/encoder.go b/catalog/po/encoder.go
index bd574ce..6ca7335 100644
--- a/catalog/po/encoder.go
+++ b/catalog/po/encoder.go
@@ -220,6 +220,20 @@ func (enc *Encoder) encodeComment(buff *bytes.Buffer, c *Comment) {
 		buff.WriteString(strings.Join(c.Flags, ", "))
 		buff.WriteString("\n")
 	}
+
+	enc.encodePrevious(buff, "msgctxt", c.PrevMsgContext)
+	enc.encodePrevious(buff, "msgid", c.PrevMsgID)
+}
+
+func (enc *Encoder) encodePrevious(buff *bytes.Buffer, keyword, text string) {
+	if text == "" {
+		return
+	}
+
+	encoded := EncodePoString(text, enc.wrapWidth)
+	buff.WriteString("#| " + keyword + " ")
+	buff.WriteString(strings.ReplaceAll(encoded, "\n", "\n#| "))
+	buff.WriteString("\n")
 }
 
 func (enc *Encoder) encodeMessage(buff *bytes.Buffer, m *Message) {
-- 
2.43.0


From ba019d11414455c980a4cc58b6a02e683f1e8a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:14 +0000
Subject: [PATCH 18/65] fix: do not split words of indented PO comments when
 wrapping

---
 catalog/po/wrap.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/catalog/po/wrap.go b/catalog/po/wrap.go
index bc853b9..a79fb8e 100644
--- a/catalog/po/wrap.go
+++ b/catalog/po/wrap.go
@@ -41,11 +41,6 @@ func wrapString(s string, pageWidth int) []string {
 					currentLine.Reset()
 					lastSpaceBuf.Reset()
 				}
-
-				if lastSpaceBuf.Len() > 0 {
-					lastSpaceBuf.WriteInto(currentLine)
-					currentWordBuf.WriteInto(currentLine)
-				}
 			}
 
 			currentWordBuf.WriteRune(char)
-- 
2.43.0


From 1087a7389206205efc0615070aac294027ce01a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:14 +0000
Subject: [PATCH 19/65] fix: treat unknown PO header fields as case-insensitive
 when setting them

---
 catalog/po/file.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/catalog/po/file.go b/catalog/po/file.go
index 1409424..935e780 100644
--- a/catalog/po/file.go
+++ b/catalog/po/file.go
@@ -151,6 +151,12 @@ func (h *Header) Set(key, val string) {
 		if h.UnknownFields == nil {
 			h.UnknownFields = make(map[string]string, 1)
 		}
+		for field := range h.UnknownFields {
+			if strings.EqualFold(field, key) {
+				key = field
+				break
+			}
+		}
 		h.UnknownFields[key] = val
 	}
 }
-- 
2.43.0


From 20452e92b6e1f85c25faa9807a17341cdf3c36af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:36 +0000
Subject: [PATCH 20/65] fix: copy the messages of a gettext catalog instead of
 dereferencing nil

---
 catalog/po.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/catalog/po.go b/catalog/po.go
index dbe8df8..4b9ad8f 100644
--- a/catalog/po.go
+++ b/catalog/po.go
@@ -67,7 +67,7 @@ func (c *GettextCatalog) Messages() PoLookupMap {
 		cpy[ctx] = make(map[string]*GettextMessage, len(c.lookupMap[ctx]))
 
 		for msgID := range c.lookupMap[ctx] {
-			msg := cpy[ctx][msgID]
+			msg := c.lookupMap[ctx][msgID]
 			cpy[ctx][msgID] = msg.Clone()
 		}
 	}
-- 
2.43.0


From d9ab0e52fcf0169fea40c86215c9a622bcf21e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:39 +0000
Subject: [PATCH 21/65] fix: set the domain of gettext catalogs

Errors about missing translations did not name the domain.
---
 catalog/po_decoder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/catalog/po_decoder.go b/catalog/po_decoder.go
index 6edc53b..ed2ed80 100644
--- a/catalog/po_decoder.go
+++ b/catalog/po_decoder.go
@@ -127,6 +127,7 @@ func buildGettextCatalog(file *po.File, lang language.Tag, domain string, useCLD
 
 	cat := &GettextCatalog{
 		language:  lang,
+		domain:    domain,
 		lookupMap: lookupMap,
 	}
 
-- 
2.43.0


From b4d320da020823bdcbcb49fd75cb8c878fa81b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:42 +0000
Subject: [PATCH 22/65] fix: reject incomplete MO files

A short read of a text was not noticed, so that a part of it was missing, and
counts and lengths of the file were used to allocate memory without a check.
---
 internal/mo/parser.go | 43 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/internal/mo/parser.go b/internal/mo/parser.go
index ce632ed..f829035 100644
--- a/internal/mo/parser.go
+++ b/internal/mo/parser.go
@@ -24,6 +24,7 @@ type parser struct {
 	bo binary.ByteOrder
 	r  io.ReadSeeker
 
+	size         int64 // size of the file
 	magicNumber  uint32
 	majorVersion uint16
 	minorVersion uint16
@@ -58,6 +59,10 @@ func newParser(r io.ReadSeeker) *parser {
 }
 
 func (p *parser) parse() (*po.File, error) {
+	if err := p.determineSize(); err != nil {
+		return nil, err
+	}
+
 	if err := p.parseByteOrder(); err != nil {
 		return nil, err
 	}
@@ -78,6 +83,28 @@ func (p *parser) parse() (*po.File, error) {
 	return file, nil
 }
 
+func (p *parser) determineSize() error {
+	start, err := p.r.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return err
+	}
+
+	if p.size, err = p.r.Seek(0, io.SeekEnd); err != nil {
+		return err
+	}
+
+	_, err = p.r.Seek(start, io.SeekStart)
+	return err
+}
+
+// checkRange returns an error if the data is not completely contained in the file.
+func (p *parser) checkRange(offset uint32, length int64) error {
+	if int64(offset)+length > p.size {
+		return io.ErrUnexpectedEOF
+	}
+	return nil
+}
+
 func (p *parser) parseByteOrder() error {
 	var magicNumber uint32
 	if err := p.binaryRead(&magicNumber); err != nil {
@@ -128,6 +155,13 @@ func (p *parser) parseHeader() error {
 }
 
 func (p *parser) parseMessageData() error {
+	const entrySize = 8 // length and offset
+	for _, offset := range []uint32{p.msgIDOffset, p.msgStrOffset} {
+		if err := p.checkRange(offset, int64(p.msgIDCount)*entrySize); err != nil {
+			return err
+		}
+	}
+
 	p.messageData = make([]*msgData, p.msgIDCount)
 
 	if _, err := p.r.Seek(int64(p.msgIDOffset), io.SeekStart); err != nil {
@@ -206,6 +240,13 @@ func (p *parser) parseMessages() (*po.File, error) {
 }
 
 func (p *parser) parseMessage(data *msgData) (id string, localized string, err error) {
+	if err = p.checkRange(data.idOffset, int64(data.idLength)); err != nil {
+		return
+	}
+	if err = p.checkRange(data.translationOffset, int64(data.translationLength)); err != nil {
+		return
+	}
+
 	if _, err = p.r.Seek(int64(data.idOffset), 0); err != nil {
 		return
 	}
@@ -251,6 +292,6 @@ func (p *parser) binaryRead(data any) error {
 }
 
 func (p *parser) read(d []byte) error {
-	_, err := p.r.Read(d)
+	_, err := io.ReadFull(p.r, d)
 	return err
 }
-- 
2.43.0


From b05b2001bdab3b39bd837e0d84b300af079e703a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:46 +0000
Subject: [PATCH 23/65] fix: reject the JSON document null instead of returning
 a nil catalog

---
 catalog/json_decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/catalog/json_decoder.go b/catalog/json_decoder.go
index 8eb7f42..92dafcb 100644
--- a/catalog/json_decoder.go
+++ b/catalog/json_decoder.go
@@ -2,6 +2,7 @@ package catalog
 
 import (
 	"encoding/json"
+	"errors"
 
 	"golang.org/x/text/language"
 )
@@ -19,6 +20,9 @@ func (JSONDecoder) Decode(lang language.Tag, domain string, data []byte) (Catalo
 	if err := json.Unmarshal(data, &cat); err != nil {
 		return nil, err
 	}
+	if cat == nil { // The document is "null"
+		return nil, errors.New("spreak: File contains no translations")
+	}
 
 	return cat, nil
 }
-- 
2.43.0


From 5d4f81e82f6fc4e6e39b2e55375479397ed2f128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 24/65] fix: read JSON messages in a fixed order

---
 catalog/json.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/catalog/json.go b/catalog/json.go
index 1df4597..51f58c5 100644
--- a/catalog/json.go
+++ b/catalog/json.go
@@ -323,7 +323,9 @@ func (m *JSONMessage) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
-	for key, value := range mm {
+	// Fixed order, in case keys differ only in upper and lower case
+	for _, key := range slices.Sorted(maps.Keys(mm)) {
+		value := mm[key]
 		switch strings.ToLower(key) {
 		case "comment":
 			m.Comment = value
-- 
2.43.0


From 2cbb76aa389aa2e74bc5553ad5900f20ed217a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:54 +0000
Subject: [PATCH 25/65] fix: do not change JSON messages when encoding them

---
 catalog/json.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/catalog/json.go b/catalog/json.go
index 51f58c5..ad5465f 100644
--- a/catalog/json.go
+++ b/catalog/json.go
@@ -360,12 +360,8 @@ var categories = []cldrplural.Category{
 }
 
 func (m JSONMessage) MarshalJSON() ([]byte, error) {
-	if m.Translations == nil {
-		m.Translations = make(map[cldrplural.Category]string)
-	}
-
 	if len(m.Translations) == 0 {
-		m.Translations[cldrplural.Other] = ""
+		m.Translations = map[cldrplural.Category]string{cldrplural.Other: ""}
 	}
 
 	// If only Other is set, only Other is returned.
-- 
2.43.0


From 854df77ee9e3baebf4a0dacb5d822a61c14ef036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 26/65] fix: use the plural rule of the header if there is no
 CLDR rule for the language

This is the documented behaviour of the CLDR decoders; the English rules
were used instead.
---
 catalog/po_decoder.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/catalog/po_decoder.go b/catalog/po_decoder.go
index ed2ed80..097128f 100644
--- a/catalog/po_decoder.go
+++ b/catalog/po_decoder.go
@@ -132,12 +132,12 @@ func buildGettextCatalog(file *po.File, lang language.Tag, domain string, useCLD
 	}
 
 	hasPluralFormHeader := file.Header != nil && file.Header.PluralForms != ""
-	if useCLDRPlural || !hasPluralFormHeader {
-		cat.pluralFunc = getCLDRPluralFunction(lang)
-		return cat, nil
+	if file.Header != nil && strings.EqualFold(file.Header.Get(poCLDRHeader), "true") {
+		useCLDRPlural = true
 	}
 
-	if val := file.Header.Get(poCLDRHeader); strings.EqualFold(val, "true") {
+	// Without a CLDR rule for the language, the rule from the header is used.
+	if _, hasCLDRRule := cldrplural.ForLanguage(lang); !hasPluralFormHeader || (useCLDRPlural && hasCLDRRule) {
 		cat.pluralFunc = getCLDRPluralFunction(lang)
 		return cat, nil
 	}
-- 
2.43.0


From 04756c1b4700442f695ce09bce959707e1d4fc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:22 +0000
Subject: [PATCH 27/65] fix: limit the expansion of overlapping texts in MO
 files

---
 internal/mo/parser.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/mo/parser.go b/internal/mo/parser.go
index f829035..9214d4a 100644
--- a/internal/mo/parser.go
+++ b/internal/mo/parser.go
@@ -16,6 +16,9 @@ const (
 
 	eotSeparator = "\x04" // msgctxt and msgid separator
 	nulSeparator = "\x00" // msgid and msgstr separator
+
+	// maxTextExpansion limits the length of all texts in relation to the size of the file.
+	maxTextExpansion = 16
 )
 
 var ErrInvalidMagicNumber = errors.New("mo file has invalid magic number")
@@ -202,6 +205,15 @@ func (p *parser) parseMessageData() error {
 func (p *parser) parseMessages() (*po.File, error) {
 	file := po.NewFile()
 
+	// Texts may be shared, but a small file must not expand to an arbitrary amount of data.
+	var total int64
+	for _, d := range p.messageData {
+		total += int64(d.idLength) + int64(d.translationLength)
+		if total > maxTextExpansion*p.size {
+			return nil, errors.New("mo file has too many overlapping texts")
+		}
+	}
+
 	for _, d := range p.messageData {
 		id, localized, err := p.parseMessage(d)
 		if err != nil {
-- 
2.43.0


From b942b253caeeffd0f074f0a773552b4fb37a4f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 28/65] fix: report a missing plural of the fallback language
 only once

---
 localizer.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/localizer.go b/localizer.go
index 319489e..42ab730 100644
--- a/localizer.go
+++ b/localizer.go
@@ -324,9 +324,11 @@ func (l *Localizer) lookupPluralTranslation(domain string, ctx localize.Context,
 	}
 
 	errA := err
-	t, err = l.bundle.fallbackLocale.lookupPluralTranslation(domain, ctx, singular, plural, n, vars...)
-	if err == nil {
-		return t, errA
+	if l.locale.language != l.bundle.fallbackLocale.language {
+		t, err = l.bundle.fallbackLocale.lookupPluralTranslation(domain, ctx, singular, plural, n, vars...)
+		if err == nil {
+			return t, errA
+		}
 	}
 
 	t, _ = l.bundle.sourceLocale.lookupPluralTranslation(domain, ctx, singular, plural, n, vars...)
-- 
2.43.0


From 68d42a3d7c66a545b093bc9aebadc8c968f3cd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:52 +0000
Subject: [PATCH 29/65] fix: use the print functions of the initialized printer

---
 bundle.go | 14 +++++++++-----
 locale.go | 12 ++++--------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/bundle.go b/bundle.go
index 8c31461..0999e69 100644
--- a/bundle.go
+++ b/bundle.go
@@ -114,6 +114,9 @@ func NewBundle(opts ...BundleOption) (*Bundle, error) {
 
 	builder.languageMatcher = builder.languageMatcherBuilder(builder.languages)
 	builder.printer.Init(builder.languages)
+	for _, l := range builder.locales {
+		l.printFunc = builder.printer.GetPrintFunc(l.language)
+	}
 
 	if sourceLocale, hasSource := builder.locales[builder.sourceLanguage]; hasSource {
 		builder.sourceLocale = sourceLocale
@@ -187,14 +190,15 @@ func (b *bundleBuilder) createLocale(optional bool, lang language.Tag) error {
 		return newMissingLanguageError(lang)
 	}
 
-	if lang == b.sourceLanguage {
-		sourceLocale := buildSourceLocale(b.Bundle, b.sourceLanguage)
-		b.locales[lang] = sourceLocale
-		b.languages = append(b.languages, lang)
+	if _, isCached := b.locales[lang]; isCached {
 		return nil
 	}
 
-	if _, isCached := b.locales[lang]; isCached {
+	if lang == b.sourceLanguage {
+		sourceLocale := buildLocale(b.Bundle, b.sourceLanguage, nil)
+		sourceLocale.isSourceLanguage = true
+		b.locales[lang] = sourceLocale
+		b.languages = append(b.languages, lang)
 		return nil
 	}
 
diff --git a/locale.go b/locale.go
index af3826f..17e1a94 100644
--- a/locale.go
+++ b/locale.go
@@ -17,12 +17,12 @@ type locale struct {
 	isSourceLanguage bool
 }
 
+// buildLocale creates a locale without a print function, as this is only available after the printer has been initialized.
 func buildLocale(bundle *Bundle, lang language.Tag, catalogs map[string]catalog.Catalog) *locale {
 	l := &locale{
 		bundle:         bundle,
 		language:       lang,
 		domainCatalogs: catalogs,
-		printFunc:      bundle.printer.GetPrintFunc(lang),
 	}
 
 	l.pluralFunc, _ = poplural.ForLanguage(lang)
@@ -31,13 +31,9 @@ func buildLocale(bundle *Bundle, lang language.Tag, catalogs map[string]catalog.
 }
 
 func buildSourceLocale(bundle *Bundle, sourceLang language.Tag) *locale {
-	l := &locale{
-		bundle:           bundle,
-		language:         sourceLang,
-		printFunc:        bundle.printer.GetPrintFunc(sourceLang),
-		isSourceLanguage: true,
-	}
-	l.pluralFunc, _ = poplural.ForLanguage(sourceLang)
+	l := buildLocale(bundle, sourceLang, nil)
+	l.printFunc = bundle.printer.GetPrintFunc(sourceLang)
+	l.isSourceLanguage = true
 	return l
 }
 
-- 
2.43.0


From 18eb12306fe848254d278e766055ebe537e1ab26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:14 +0000
Subject: [PATCH 30/65] fix: let WithSystemFs use the root directory

---
 loader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/loader.go b/loader.go
index 62d1562..8474da3 100644
--- a/loader.go
+++ b/loader.go
@@ -180,8 +180,8 @@ func WithPath(path string) FsOption {
 // WithSystemFs stores the root path as filesystem.
 // Lets the creation of the FilesystemLoader fail, if a filesystem was already deposited.
 //
-// Shorthand for WithPath("").
-func WithSystemFs() FsOption { return WithPath("") }
+// Shorthand for WithPath("/").
+func WithSystemFs() FsOption { return WithPath("/") }
 
 // WithResolver stores the resolver of a FilesystemLoader.
 // Lets the creation of the FilesystemLoader fail, if a Resolver was already deposited.
-- 
2.43.0


From 712ef7ca1786e40fb5c7a0d1cf191d02c88a8eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:18 +0000
Subject: [PATCH 31/65] fix: do not hand out the list of languages of a bundle

---
 bundle.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bundle.go b/bundle.go
index 0999e69..2130243 100644
--- a/bundle.go
+++ b/bundle.go
@@ -112,8 +112,9 @@ func NewBundle(opts ...BundleOption) (*Bundle, error) {
 		}
 	}
 
-	builder.languageMatcher = builder.languageMatcherBuilder(builder.languages)
-	builder.printer.Init(builder.languages)
+	// The order of the languages must correspond to the index of the matcher, so only copies are passed on.
+	builder.languageMatcher = builder.languageMatcherBuilder(slices.Clone(builder.languages))
+	builder.printer.Init(slices.Clone(builder.languages))
 	for _, l := range builder.locales {
 		l.printFunc = builder.printer.GetPrintFunc(l.language)
 	}
-- 
2.43.0


From 18c53fc6615039afb9d39772cef4ea210f70a6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:59 +0000
Subject: [PATCH 32/65] fix: count the leap days of elapsed times independent
 of the time zones

---
 humanize/date.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/humanize/date.go b/humanize/date.go
index 7c82961..546c65d 100644
--- a/humanize/date.go
+++ b/humanize/date.go
@@ -303,8 +303,11 @@ func (h *Humanizer) TimeSince(inputTime any, opts ...TimeOption) string {
 		d, now = now, d
 	}
 
+	// the time zones must not have any influence on the years
+	d, now = d.UTC(), now.UTC()
+
 	// ignore microseconds
-	delta := now.In(time.UTC).Unix() - d.In(time.UTC).Unix()
+	delta := now.Unix() - d.Unix()
 
 	// Deal with leapyears by subtracing the number of leapdays
 	leapdays := calendar.LeapDays(d.Year(), now.Year())
-- 
2.43.0


From 93b67716ed9004fa7887cea98388e0b5a6d8f143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:59 +0000
Subject: [PATCH 33/65] fix: recognize the natural day when the clocks change

---
 humanize/date.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/humanize/date.go b/humanize/date.go
index 546c65d..c4ac086 100644
--- a/humanize/date.go
+++ b/humanize/date.go
@@ -53,9 +53,10 @@ func (h *Humanizer) NaturalDay(i any) string {
 		return formatErrorMessage(i)
 	}
 
-	value := time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, t.Location())
-	now := time.Now().In(value.Location())
-	today := time.Date(now.Year(), now.Month(), now.Day(), 0, 0, 0, 0, now.Location())
+	// In UTC every day has 24 hours
+	value := time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC)
+	now := time.Now().In(t.Location())
+	today := time.Date(now.Year(), now.Month(), now.Day(), 0, 0, 0, 0, time.UTC)
 
 	delta := value.Sub(today).Hours() / 24
 	switch delta {
-- 
2.43.0


From 4329b4aef0342b8c1ca008c0071e84665c1994d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:00 +0000
Subject: [PATCH 34/65] fix: do not show zero hours as natural time

---
 humanize/date.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/humanize/date.go b/humanize/date.go
index c4ac086..7d87a2d 100644
--- a/humanize/date.go
+++ b/humanize/date.go
@@ -134,9 +134,9 @@ func (h *Humanizer) NaturalTime(i any) string {
 		delta := now.Sub(t)
 		deltaSec := int64(delta.Truncate(time.Second).Seconds())
 
-		if int64(delta.Round(time.Second).Hours()) >= 24 {
+		if deltaSec >= 24*60*60 {
 			entry := naturalTimeStrings["past-day"]
-			timeSince := h.TimeSince(t, withTimeStrings(naturalPastSubstrings))
+			timeSince := h.TimeSinceFrom(t, now, withTimeStrings(naturalPastSubstrings))
 			return h.loc.Getf(entry.singular, timeSince)
 		} else if deltaSec == 0 {
 			entry := naturalTimeStrings["now"]
@@ -144,7 +144,7 @@ func (h *Humanizer) NaturalTime(i any) string {
 		} else if deltaSec < 60 {
 			entry := naturalTimeStrings["past-second"]
 			return h.loc.NGetf(entry.singular, entry.plural, deltaSec, deltaSec)
-		} else if floorDivision(delta.Round(time.Second).Seconds(), 60) < 60 {
+		} else if deltaSec < 60*60 {
 			count := int64(math.Floor(float64(deltaSec) / 60))
 			entry := naturalTimeStrings["past-minute"]
 			return h.loc.NGetf(entry.singular, entry.plural, count, count)
@@ -157,9 +157,9 @@ func (h *Humanizer) NaturalTime(i any) string {
 
 	delta := t.Sub(now)
 	deltaSec := int64(delta.Round(time.Second).Seconds())
-	if int64(delta.Round(time.Second).Hours()) >= 24 {
+	if deltaSec >= 24*60*60 {
 		entry := naturalTimeStrings["future-day"]
-		timeSince := h.TimeUntil(t, withTimeStrings(naturalFutureSubstrings))
+		timeSince := h.TimeUntilFrom(t.Add(delta.Round(time.Second)-delta), now, withTimeStrings(naturalFutureSubstrings))
 		return h.loc.Getf(entry.singular, timeSince)
 	} else if deltaSec == 0 {
 		entry := naturalTimeStrings["now"]
@@ -167,7 +167,7 @@ func (h *Humanizer) NaturalTime(i any) string {
 	} else if deltaSec < 60 {
 		entry := naturalTimeStrings["future-second"]
 		return h.loc.NGetf(entry.singular, entry.plural, deltaSec, deltaSec)
-	} else if floorDivision(float64(deltaSec), 60) < 60 {
+	} else if deltaSec < 60*60 {
 		count := int64(math.Floor(float64(deltaSec) / 60))
 		entry := naturalTimeStrings["future-minute"]
 		return h.loc.NGetf(entry.singular, entry.plural, count, count)
-- 
2.43.0


From 736c4186aaaa266bff1fa7feb198b1aef5711401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:20 +0000
Subject: [PATCH 35/65] fix: format file sizes beyond the range of int64

---
 humanize/helper.go | 43 ++++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/humanize/helper.go b/humanize/helper.go
index 7f871bb..3e0c9e4 100644
--- a/humanize/helper.go
+++ b/humanize/helper.go
@@ -40,11 +40,11 @@ func (h *Humanizer) Language() language.Tag {
 }
 
 const (
-	kb = int64(1) << 10
-	mb = int64(1) << 20
-	gb = int64(1) << 30
-	tb = int64(1) << 40
-	pb = int64(1) << 50
+	kb = 1 << 10
+	mb = 1 << 20
+	gb = 1 << 30
+	tb = 1 << 40
+	pb = 1 << 50
 )
 
 // FilesizeFormat format the value like a 'human-readable' file size (i.e. 13 KB, 4.1 MB, 102 bytes, etc.).
@@ -52,40 +52,41 @@ const (
 // Valid inputs are byte arrays or any numeric value.
 // For all other inputs, a string is returned with an error message in fmt style.
 func (h *Humanizer) FilesizeFormat(v any) string {
-	var count int64
+	var size float64
 	switch val := v.(type) {
 	case []byte:
-		count = int64(len(val))
+		size = float64(len(val))
 	default:
 		value, err := cast.ToNumber(v)
-		if err != nil {
+		if err != nil || math.IsNaN(value) {
 			return formatErrorMessage(v)
 		}
-		count = int64(value)
+		size = math.Trunc(value)
 	}
 
-	isNegative := count < 0
+	isNegative := size < 0
 	if isNegative {
-		count = -count
+		size = -size
 	}
 
 	var result string
-	if count < kb {
+	if size < kb {
+		count := int64(size)
 		result = h.loc.NGetf("%[1]d byte", "%[1]d bytes", count, count)
-	} else if count < mb {
-		formatted := h.loc.Print("%v", number.Decimal(float64(count)/float64(kb), number.MaxFractionDigits(1)))
+	} else if size < mb {
+		formatted := h.loc.Print("%v", number.Decimal(size/kb, number.MaxFractionDigits(1)))
 		result = h.loc.Getf("%s KB", formatted)
-	} else if count < gb {
-		formatted := h.loc.Print("%v", number.Decimal(float64(count)/float64(mb), number.MaxFractionDigits(1)))
+	} else if size < gb {
+		formatted := h.loc.Print("%v", number.Decimal(size/mb, number.MaxFractionDigits(1)))
 		result = h.loc.Getf("%s MB", formatted)
-	} else if count < tb {
-		formatted := h.loc.Print("%v", number.Decimal(float64(count)/float64(gb), number.MaxFractionDigits(1)))
+	} else if size < tb {
+		formatted := h.loc.Print("%v", number.Decimal(size/gb, number.MaxFractionDigits(1)))
 		result = h.loc.Getf("%s GB", formatted)
-	} else if count < pb {
-		formatted := h.loc.Print("%v", number.Decimal(float64(count)/float64(tb), number.MaxFractionDigits(1)))
+	} else if size < pb {
+		formatted := h.loc.Print("%v", number.Decimal(size/tb, number.MaxFractionDigits(1)))
 		result = h.loc.Getf("%s TB", formatted)
 	} else {
-		formatted := h.loc.Print("%v", number.Decimal(float64(count)/float64(pb), number.MaxFractionDigits(1)))
+		formatted := h.loc.Print("%v", number.Decimal(size/pb, number.MaxFractionDigits(1)))
 		result = h.loc.Getf("%s PB", formatted)
 	}
 
-- 
2.43.0


From 85d460f29ff35b1dc64b0bf3f1b12f0b75e932eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:21 +0000
Subject: [PATCH 36/65] fix: handle numbers beyond the range of int64 in
 Apnumber and Ordinal

---
 humanize/numbers.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/humanize/numbers.go b/humanize/numbers.go
index 0e58c0d..8366471 100644
--- a/humanize/numbers.go
+++ b/humanize/numbers.go
@@ -39,6 +39,11 @@ func (h *Humanizer) Apnumber(val any) string {
 		return formatErrorMessage(val)
 	}
 
+	fl = math.Trunc(fl)
+	if !isInt64(fl) {
+		return h.Intcomma(fl)
+	}
+
 	num := int64(fl)
 	if num <= 0 || num >= 10 {
 		return h.loc.Print("%d", num)
@@ -47,6 +52,11 @@ func (h *Humanizer) Apnumber(val any) string {
 	return h.loc.Get(apnumbers[num-1])
 }
 
+// isInt64 reports whether a number can be converted to an int64.
+func isInt64(fl float64) bool {
+	return fl >= math.MinInt64 && fl < math.MaxInt64
+}
+
 // A tuple of standard large number to their converters.
 var intwordConverters = []struct {
 	exponent int
@@ -150,6 +160,10 @@ func (h *Humanizer) Ordinal(i any) string {
 		return formatErrorMessage(i)
 	}
 
+	if !isInt64(floatValue) {
+		return h.Intcomma(math.Trunc(floatValue))
+	}
+
 	if floatValue < 0 {
 		return strconv.FormatInt(int64(floatValue), 10)
 	}
-- 
2.43.0


From 5eb370acac10f7a16fd9ff4e46569c2b6e404e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:21 +0000
Subject: [PATCH 37/65] fix: do not show numbers below a googol as zero googol

---
 humanize/numbers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/humanize/numbers.go b/humanize/numbers.go
index 8366471..d3100a6 100644
--- a/humanize/numbers.go
+++ b/humanize/numbers.go
@@ -98,7 +98,7 @@ func (h *Humanizer) Intword(i any) string {
 
 	for _, converter := range intwordConverters {
 		largeNumber := math.Pow10(converter.exponent)
-		if absValue < (largeNumber * float64(1000)) {
+		if absValue >= largeNumber && absValue < (largeNumber*float64(1000)) {
 			newValue := value / largeNumber
 			roundedValue := int64(math.Ceil(newValue-1)) + 1
 			if roundedValue < 0 {
-- 
2.43.0


From ae49d018bcab771c2a93a6b5bf9d6110205e527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:22 +0000
Subject: [PATCH 38/65] fix: recognize daylight saving time by the rules of the
 time zone

---
 humanize/dateformat.go | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/humanize/dateformat.go b/humanize/dateformat.go
index 19c76b0..d7e1656 100644
--- a/humanize/dateformat.go
+++ b/humanize/dateformat.go
@@ -262,18 +262,8 @@ func (tf *timeFormatter) F() string {
 
 // I - '1' if daylight saving time, '0' otherwise.
 func (tf *timeFormatter) I() string {
-	_, timeOffset := tf.data.Zone()
-	_, winterOffset := time.Date(tf.data.Year(), 1, 1, 0, 0, 0, 0, tf.data.Location()).Zone()
-	_, summerOffset := time.Date(tf.data.Year(), 7, 1, 0, 0, 0, 0, tf.data.Location()).Zone()
-
-	if winterOffset > summerOffset {
-		winterOffset, summerOffset = summerOffset, winterOffset
-	}
-
-	if winterOffset != summerOffset { // the location has daylight saving
-		if timeOffset != winterOffset {
-			return "1"
-		}
+	if tf.data.IsDST() {
+		return "1"
 	}
 	return "0"
 }
-- 
2.43.0


From b71eff7d75ebeab73d73902f4626f588a4673de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:04 +0000
Subject: [PATCH 39/65] fix: show past durations as natural time without losing
 a second

---
 humanize/date.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/humanize/date.go b/humanize/date.go
index 7d87a2d..e3acaa3 100644
--- a/humanize/date.go
+++ b/humanize/date.go
@@ -123,13 +123,13 @@ var naturalFutureSubstrings = map[string]gettextEntry{
 // Valid inputs are time.Time, time.Duration or any numeric value which is interpreted as seconds since the Unix epoch.
 // For all other inputs, a string is returned with an error message in fmt style.
 func (h *Humanizer) NaturalTime(i any) string {
-	now := time.Now()
 	t, err := cast.ToTime(i)
 	if err != nil {
 		return formatErrorMessage(i)
 	}
 
-	now = now.In(t.Location())
+	// Durations are relative to the current time, so it must not be determined before
+	now := time.Now().In(t.Location())
 	if t.Before(now) {
 		delta := now.Sub(t)
 		deltaSec := int64(delta.Truncate(time.Second).Seconds())
-- 
2.43.0


From ebff6903da71c54c6359d216a8d5174cfd5f3e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:40 +0000
Subject: [PATCH 40/65] fix: register the Lithuanian locale as Lithuanian

---
 humanize/locale/lt/locale.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/humanize/locale/lt/locale.go b/humanize/locale/lt/locale.go
index 6dff2c2..c9b096a 100644
--- a/humanize/locale/lt/locale.go
+++ b/humanize/locale/lt/locale.go
@@ -13,16 +13,16 @@ var fsys embed.FS
 
 func New() *humanize.LocaleData {
 	return &humanize.LocaleData{
-		Lang: language.MustParse("lv"),
+		Lang: language.MustParse("lt"),
 		Fs:   fsys,
 		Format: &humanize.FormatData{
-			DateFormat:          `Y. \g\a\d\a j. F`,
+			DateFormat:          `Y \m. E j \d.`,
 			TimeFormat:          "H:i",
-			DateTimeFormat:      `Y. \g\a\d\a j. F, H:i`,
-			YearMonthFormat:     `Y. \g. F`,
-			MonthDayFormat:      "j. F",
-			ShortDateFormat:     `j.m.Y`,
-			ShortDatetimeFormat: "j.m.Y H:i",
+			DateTimeFormat:      `Y \m. E j \d., H:i`,
+			YearMonthFormat:     `Y \m. F`,
+			MonthDayFormat:      `E j \d.`,
+			ShortDateFormat:     "Y-m-d",
+			ShortDatetimeFormat: "Y-m-d H:i",
 			FirstDayOfWeek:      1,
 		},
 	}
-- 
2.43.0


From 394ff3801b62ea61763a9b7a21940cc0e53ce9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:40 +0000
Subject: [PATCH 41/65] fix: repair the template for one billion in Belarusian

---
 humanize/locale/be/django.po | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/humanize/locale/be/django.po b/humanize/locale/be/django.po
index dad3962..8f74dc0 100644
--- a/humanize/locale/be/django.po
+++ b/humanize/locale/be/django.po
@@ -27,7 +27,7 @@ msgstr[3] "%[1]d байтаў"
 
 msgid "%[1]s billion"
 msgid_plural "%[1]s billion"
-msgstr[0] "%(value).s мільярд"
+msgstr[0] "%[1]s мільярд"
 msgstr[1] "%[1]s мільярды"
 msgstr[2] "%[1]s мільярдаў"
 msgstr[3] "%[1]s мільярдаў"
-- 
2.43.0


From 235c5e73ff1947cae9d9e45e2904523b81d083db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:13 +0000
Subject: [PATCH 42/65] fix: humanizers negotiate languages in the order they
 were specified, not in random order

---
 humanize/humanizer.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/humanize/humanizer.go b/humanize/humanizer.go
index 07ec25f..916fcc6 100644
--- a/humanize/humanizer.go
+++ b/humanize/humanizer.go
@@ -127,11 +127,13 @@ func New(opts ...Option) (*Collection, error) {
 		locales: make(map[language.Tag]*FormatData, len(o.locales)),
 	}
 	languages := make([]any, 0, len(loader.locales))
-	for tag, data := range loader.locales {
-		languages = append(languages, tag)
-		if data.Format != nil {
-			coll.locales[tag] = data.Format
+	// The order of the languages determines which one is preferred, so the order in which they were specified is kept.
+	for _, d := range o.locales {
+		if _, ok := coll.locales[d.Lang]; ok {
+			continue
 		}
+		languages = append(languages, d.Lang)
+		coll.locales[d.Lang] = loader.locales[d.Lang].Format
 	}
 
 	o.bundleOptions = append(o.bundleOptions,
-- 
2.43.0


From b5c327fe74f0b17cbf1ceda636daa0e562c84deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:02 +0000
Subject: [PATCH 43/65] fix: repair the template of the ordinals ending with
 nine in Marathi

---
 humanize/locale/mr/django.po | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/humanize/locale/mr/django.po b/humanize/locale/mr/django.po
index aa9380e..0af4dd8 100644
--- a/humanize/locale/mr/django.po
+++ b/humanize/locale/mr/django.po
@@ -839,4 +839,4 @@ msgstr "%vवा"
 
 msgctxt "ordinal 9"
 msgid "%vth"
-msgstr "{वा}"
+msgstr "%vवा"
-- 
2.43.0


From a3c982747ab1f9fc368c088088de596e7a2eff36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:02 +0000
Subject: [PATCH 44/65] fix: keep the number in Albanian ordinals

---
 humanize/locale/sq/django.po | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/humanize/locale/sq/django.po b/humanize/locale/sq/django.po
index 5902280..34252f3 100644
--- a/humanize/locale/sq/django.po
+++ b/humanize/locale/sq/django.po
@@ -801,7 +801,7 @@ msgstr[1] "%[1]v vjet"
 
 msgctxt "ordinal 0"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 1"
 msgid "%vst"
@@ -809,36 +809,36 @@ msgstr ""
 
 msgctxt "ordinal 11, 12, 13"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 2"
 msgid "%vnd"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 3"
 msgid "%vrd"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 4"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 5"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 6"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 7"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 8"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 9"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
-- 
2.43.0


From 0d121a0a4d90a373925c84b8858a4eadf06fb76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:02 +0000
Subject: [PATCH 45/65] fix: keep the number in Serbian (Latin) texts for 21,
 31, ... units of time

---
 humanize/locale/srLatn/django.po | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/humanize/locale/srLatn/django.po b/humanize/locale/srLatn/django.po
index 095b6a9..719fa7b 100644
--- a/humanize/locale/srLatn/django.po
+++ b/humanize/locale/srLatn/django.po
@@ -535,25 +535,25 @@ msgstr "velški"
 
 msgid "a minute ago"
 msgid_plural "%[1]v minutes ago"
-msgstr[0] "pre minut"
+msgstr[0] "pre %[1]v minut"
 msgstr[1] "pre %[1]v minuta"
 msgstr[2] "pre %[1]v minuta"
 
 msgid "a minute from now"
 msgid_plural "%[1]v minutes from now"
-msgstr[0] "minut od sad"
+msgstr[0] "%[1]v minut od sad"
 msgstr[1] "%[1]v minuta od sada"
 msgstr[2] "%[1]v minuta od sada"
 
 msgid "a second ago"
 msgid_plural "%[1]v seconds ago"
-msgstr[0] "pre sekund"
+msgstr[0] "pre %[1]v sekund"
 msgstr[1] "pre %[1]v sekunde"
 msgstr[2] "pre %[1]v sekundi"
 
 msgid "a second from now"
 msgid_plural "%[1]v seconds from now"
-msgstr[0] "sekund od sad"
+msgstr[0] "%[1]v sekund od sad"
 msgstr[1] "%[1]v sekunde od sada"
 msgstr[2] "%[1]v sekundi od sada"
 
@@ -562,13 +562,13 @@ msgstr "pre p."
 
 msgid "an hour ago"
 msgid_plural "%[1]v hours ago"
-msgstr[0] "pre sat"
+msgstr[0] "pre %[1]v sat"
 msgstr[1] "pre %[1]v sata"
 msgstr[2] "pre %[1]v sati"
 
 msgid "an hour from now"
 msgid_plural "%[1]v hours from now"
-msgstr[0] "sat od sad"
+msgstr[0] "%[1]v sat od sad"
 msgstr[1] "%[1]v sata od sada"
 msgstr[2] "%[1]v sati od sada"
 
-- 
2.43.0


From 2710cbe15983ac062a73096b4c291445bcec064e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:52 +0000
Subject: [PATCH 46/65] fix: Vietnamese date-time format lacked the hour

---
 humanize/locale/vi/locale.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/humanize/locale/vi/locale.go b/humanize/locale/vi/locale.go
index 36ccfc3..2af0fe1 100644
--- a/humanize/locale/vi/locale.go
+++ b/humanize/locale/vi/locale.go
@@ -18,7 +18,7 @@ func New() *humanize.LocaleData {
 		Format: &humanize.FormatData{
 			DateFormat:          `\N\gà\y d \t\há\n\g n \nă\m Y`,
 			TimeFormat:          "H:i",
-			DateTimeFormat:      `:i \N\gà\y d \t\há\n\g n \nă\m Y`,
+			DateTimeFormat:      `H:i \N\gà\y d \t\há\n\g n \nă\m Y`,
 			YearMonthFormat:     "F Y",
 			MonthDayFormat:      "j F",
 			ShortDateFormat:     "d-m-Y",
-- 
2.43.0


From c640cbdd94aad3faa31917cdf9bf6c6f0bf544a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:52 +0000
Subject: [PATCH 47/65] fix: Tajik abbreviation of Tuesday was that of Sunday

---
 humanize/locale/tg/django.po | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/humanize/locale/tg/django.po b/humanize/locale/tg/django.po
index 187f235..20880e3 100644
--- a/humanize/locale/tg/django.po
+++ b/humanize/locale/tg/django.po
@@ -434,7 +434,7 @@ msgid "Traditional Chinese"
 msgstr "Хитоӣ"
 
 msgid "Tue"
-msgstr "Яш"
+msgstr "Сш"
 
 msgid "Tuesday"
 msgstr "Сешанбе"
-- 
2.43.0


From 8e531f869799e73c6970ee44a7025241758606be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:52 +0000
Subject: [PATCH 48/65] fix: Armenian abbreviation of April was that of March

---
 humanize/locale/hy/django.po | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/humanize/locale/hy/django.po b/humanize/locale/hy/django.po
index 640db74..0e4c475 100644
--- a/humanize/locale/hy/django.po
+++ b/humanize/locale/hy/django.po
@@ -576,7 +576,7 @@ msgstr "երեկ"
 
 msgctxt "abbrev. month"
 msgid "April"
-msgstr "Մարտ"
+msgstr "Ապրիլ"
 
 msgctxt "abbrev. month"
 msgid "Aug."
-- 
2.43.0


From c02eaf689a2175086cddc6c368f78c9d23dce611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 49/65] fix: a tab may follow msgctxt, msgid and msgid_plural

---
 catalog/po/scanner.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/catalog/po/scanner.go b/catalog/po/scanner.go
index f2ed588..c5ac04d 100644
--- a/catalog/po/scanner.go
+++ b/catalog/po/scanner.go
@@ -20,9 +20,9 @@ var (
 	reMsgStrPlural = regexp.MustCompile(`^msgstr\s*(\[\d+])\s*".*"\s*$`) // msgstr[0]
 	reMsgLine      = regexp.MustCompile(`^\s*".*"\s*$`)                  // "message"
 
-	msgCtxPrefix      = "msgctxt "
-	msgIDPrefix       = "msgid "
-	msgIDPluralPrefix = "msgid_plural "
+	msgCtxPrefix      = "msgctxt"
+	msgIDPrefix       = "msgid"
+	msgIDPluralPrefix = "msgid_plural"
 	msgStrPrefix      = "msgstr"
 	emptyMessageStr   = `msgstr ""`
 )
-- 
2.43.0


From 1fe63a19864fd2c5775e4185230a31e58ada7d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 50/65] fix: a blank line after msgctxt does not drop the
 context

---
 catalog/po/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index abff3d7..1cf0bc9 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -174,7 +174,7 @@ loop:
 			// Message completed
 			return msg, nil
 		case whitespace:
-			if hasID && len(msg.Str) == 0 {
+			if (hasContext || hasID) && len(msg.Str) == 0 {
 				// Blank line within the message
 				continue
 			}
-- 
2.43.0


From 9e4fe1ea4b7153d5f805ba5939bc5250ceef6c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 51/65] fix: a previous msgid_plural is not part of the
 previous msgid

---
 catalog/po/parser.go  | 6 ++++--
 catalog/po/scanner.go | 7 +++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 1cf0bc9..f4fd743 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -146,7 +146,7 @@ loop:
 		tok, _ := p.scan()
 		switch tok {
 		case commentTranslator, commentExtracted, commentReference, commentFlags,
-			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine:
+			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine, commentPrevUnknown:
 			p.unscan()
 			comment, err := p.parseComment()
 			if err != nil {
@@ -180,7 +180,7 @@ loop:
 			}
 			return msg, nil
 		case commentTranslator, commentExtracted, commentReference, commentFlags,
-			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine, commentObsolete:
+			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine, commentPrevUnknown, commentObsolete:
 			// The comment belongs to the next message
 			p.unscan()
 			return msg, nil
@@ -280,6 +280,8 @@ func (p *Parser) parseComment() (*Comment, error) {
 		case commentPrevMsgIDLine:
 			line = strings.TrimSpace(line[2:]) // #| "..."
 			comment.PrevMsgID += DecodePoString(line)
+		case commentPrevUnknown:
+			// A comment has no field for the previous plural form
 		case commentReference:
 			line = strings.TrimSpace(line[2:]) // #:
 
diff --git a/catalog/po/scanner.go b/catalog/po/scanner.go
index c5ac04d..db6ce29 100644
--- a/catalog/po/scanner.go
+++ b/catalog/po/scanner.go
@@ -9,8 +9,9 @@ import (
 )
 
 var (
-	rePrevMsgContextComments = regexp.MustCompile(`^#\|\s+msgctxt`)  // #| msgctxt
-	rePrevMsgIDComments      = regexp.MustCompile(`^#\|\s+msgid`)    // #| msgid
+	rePrevMsgContextComments = regexp.MustCompile(`^#\|\s+msgctxt`) // #| msgctxt
+	rePrevMsgIDComments      = regexp.MustCompile(`^#\|\s+msgid`)   // #| msgid
+	rePrevMsgIDPluralComment = regexp.MustCompile(`^#\|\s+msgid_plural`)
 	rePrevStringLineComments = regexp.MustCompile(`^#\|\s+".*"\s*$`) // #| "message"
 
 	reMsgContext   = regexp.MustCompile(`^msgctxt\s+".*"\s*$`)           // msgctxt
@@ -175,6 +176,8 @@ func (s *scanner) scanComment(line string) (token, string) {
 		// #| "..."
 		if rePrevMsgContextComments.MatchString(line) {
 			return commentPrevContext, line
+		} else if rePrevMsgIDPluralComment.MatchString(line) {
+			return commentPrevUnknown, line
 		} else if rePrevMsgIDComments.MatchString(line) {
 			return commentPrevMsgID, line
 		} else if rePrevStringLineComments.MatchString(line) {
-- 
2.43.0


From 93d2544ee950aaff64d761c5d77bb231440329af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:00 +0000
Subject: [PATCH 52/65] fix: a blank line between plural forms does not cut the
 message

---
 catalog/po/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index f4fd743..a55a0ca 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -178,6 +178,12 @@ loop:
 				// Blank line within the message
 				continue
 			}
+			if next, _ := p.scan(); next == msgStrPlural && hasID {
+				// Blank line between the plural forms
+				p.unscan()
+				continue
+			}
+			p.unscan()
 			return msg, nil
 		case commentTranslator, commentExtracted, commentReference, commentFlags,
 			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine, commentPrevUnknown, commentObsolete:
-- 
2.43.0


From d38d335bf0249d1a68c5ff092507f0c771c57168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 53/65] fix: humanize: do not change the locale data given to
 New

---
 humanize/humanizer.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/humanize/humanizer.go b/humanize/humanizer.go
index 916fcc6..6194b66 100644
--- a/humanize/humanizer.go
+++ b/humanize/humanizer.go
@@ -114,13 +114,6 @@ func New(opts ...Option) (*Collection, error) {
 		}
 	}
 
-	for _, d := range o.locales {
-		if d.Format == nil {
-			d.Format = fallbackFormat
-		}
-		d.Format.setDefaults()
-	}
-
 	loader := newLoader(o.locales)
 
 	coll := &Collection{
@@ -133,7 +126,7 @@ func New(opts ...Option) (*Collection, error) {
 			continue
 		}
 		languages = append(languages, d.Lang)
-		coll.locales[d.Lang] = loader.locales[d.Lang].Format
+		coll.locales[d.Lang] = loader.locales[d.Lang].Format.withDefaults()
 	}
 
 	o.bundleOptions = append(o.bundleOptions,
@@ -175,6 +168,17 @@ func (p *Collection) CreateHumanizer(lang ...any) *Humanizer {
 	return &Humanizer{loc: loc, format: fallbackFormat}
 }
 
+// withDefaults returns a copy in which the missing formats are set.
+func (f *FormatData) withDefaults() *FormatData {
+	if f == nil {
+		return fallbackFormat
+	}
+
+	c := *f
+	c.setDefaults()
+	return &c
+}
+
 func (f *FormatData) setDefaults() {
 	if f.DateFormat == "" {
 		f.DateFormat = fallbackFormat.DateFormat
-- 
2.43.0


From e0570dad2a6bcc7727e02ef609088a61ae65444b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 54/65] fix: humanize: report catalogs that cannot be read
 instead of skipping the language

---
 humanize/locale.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/humanize/locale.go b/humanize/locale.go
index eb0217d..224513b 100644
--- a/humanize/locale.go
+++ b/humanize/locale.go
@@ -1,6 +1,7 @@
 package humanize
 
 import (
+	"errors"
 	"io/fs"
 
 	"golang.org/x/text/language"
@@ -30,9 +31,12 @@ func (loader *localeLoader) Load(lang language.Tag, domain string) (catalog.Cata
 	}
 
 	content, err := fs.ReadFile(data.Fs, domain+".po")
-	if err != nil {
+	if errors.Is(err, fs.ErrNotExist) {
 		return nil, spreak.NewErrNotFound(lang, "humanize", "domain=%q,err=%v", domain, err)
 	}
+	if err != nil {
+		return nil, err
+	}
 
 	dec := catalog.NewPoDecoder()
 	cat, err := dec.Decode(lang, domain, content)
-- 
2.43.0


From cf87d90ba2571e92d9d4446a453cea5fd636f7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 55/65] fix: humanize: do not write into the caller's slice of
 options

---
 humanize/date.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/humanize/date.go b/humanize/date.go
index e3acaa3..40dcee2 100644
--- a/humanize/date.go
+++ b/humanize/date.go
@@ -2,6 +2,7 @@ package humanize
 
 import (
 	"math"
+	"slices"
 	"sort"
 	"strings"
 	"time"
@@ -365,7 +366,7 @@ func (h *Humanizer) TimeSince(inputTime any, opts ...TimeOption) string {
 // TimeSinceFrom works like TimeSince, but the time to use as the comparison point can be specified.
 // Is equivalent to TimeSince(d, WithNow(now)).
 func (h *Humanizer) TimeSinceFrom(d any, now time.Time, opts ...TimeOption) string {
-	opts = append(opts, WithNow(now))
+	opts = append(slices.Clip(opts), WithNow(now))
 	return h.TimeSince(d, opts...)
 }
 
@@ -378,14 +379,14 @@ func (h *Humanizer) TimeUntil(d any, opts ...TimeOption) string {
 		return formatErrorMessage(d)
 	}
 
-	opts = append(opts, WithReverse(true))
+	opts = append(slices.Clip(opts), WithReverse(true))
 	return h.TimeSince(parsedTime, opts...)
 }
 
 // TimeUntilFrom works like TimeUntil, but the time to use as the comparison point can be specified.
 // Is equivalent to TimeUntil(d, WithNow(now)).
 func (h *Humanizer) TimeUntilFrom(d any, now time.Time, opts ...TimeOption) string {
-	opts = append(opts, WithNow(now), WithReverse(true))
+	opts = append(slices.Clip(opts), WithNow(now), WithReverse(true))
 	return h.TimeSince(d, opts...)
 }
 
-- 
2.43.0


From 8a9dbe4dd228914926997a93037355d3685fad73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 56/65] fix: a header line that is not a field does not discard
 the PO header

---
 catalog/po/parser.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index a55a0ca..ff101c0 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -315,11 +315,8 @@ func (p *Parser) parseHeader(msg *Message) (*Header, error) {
 	for _, line := range lines {
 		colonIdx := strings.Index(line, ":")
 		if colonIdx < 0 {
-			if strings.TrimSpace(line) == "" {
-				continue
-			}
-
-			return nil, fmt.Errorf("po file has an invalid header: %s", lines)
+			// Not a field, the other fields must not be lost because of it
+			continue
 		}
 
 		key := strings.TrimSpace(line[:colonIdx])
-- 
2.43.0


From 7f0f534283feba9b31a0f68b3eeb760f68fd813d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 57/65] fix: po: a parser can be used again after an error

---
 catalog/po/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index ff101c0..6fc807b 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -53,6 +53,7 @@ func (p *Parser) SetIgnoreComments(ignore bool) { p.ignoreComments = ignore }
 func (p *Parser) reset() {
 	p.messages = make(Messages, avgContextsPerFile)
 	p.header = nil
+	p.n = 0 // a failed run can leave a token that was not read
 }
 
 func (p *Parser) Parse(r io.Reader) (*File, error) {
-- 
2.43.0


From b8c8813716f8967e4e61cc10d48da8b008df98ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:59 +0000
Subject: [PATCH 58/65] fix: cldrplural generator: rules with several ranges
 for an integer operand compile

---
 catalog/cldrplural/generator/compiler.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/catalog/cldrplural/generator/compiler.go b/catalog/cldrplural/generator/compiler.go
index df507b9..ad90460 100644
--- a/catalog/cldrplural/generator/compiler.go
+++ b/catalog/cldrplural/generator/compiler.go
@@ -55,18 +55,18 @@ func compileNode(node ast.Node) string {
 		isFloatOperand := op.Operand == "n"
 
 		var b strings.Builder
-		if valueCount := len(valueRanges); valueCount > 0 {
-			if valueCount == 2 && !isFloatOperand {
-				b.WriteString(fmt.Sprintf("(%[1]s >= %[2]s && %[1]s <= %[3]s)", compiledExpr, valueRanges[0], valueRanges[1]))
-			} else {
-				if isFloatOperand {
-					b.WriteString(fmt.Sprintf("isFloatInRange(%s, ", compiledExpr))
-				} else {
-					b.WriteString(fmt.Sprintf("isIntInRange(%s, ", compiledExpr))
-				}
-
+		if len(valueRanges) > 0 {
+			if isFloatOperand {
+				b.WriteString(fmt.Sprintf("isFloatInRange(%s, ", compiledExpr))
 				b.WriteString(strings.Join(valueRanges, ","))
 				b.WriteString(")")
+			} else {
+				for i := 0; i < len(valueRanges); i += 2 {
+					if i > 0 {
+						b.WriteString(" || ")
+					}
+					b.WriteString(fmt.Sprintf("(%[1]s >= %[2]s && %[1]s <= %[3]s)", compiledExpr, valueRanges[i], valueRanges[i+1]))
+				}
 			}
 		}
 
-- 
2.43.0


From 4c768c095200411b4e2cb40801b03eb17a901cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:09 +0000
Subject: [PATCH 59/65] fix: cldrplural generator: keep languages apart that
 use the same rules for other categories

---
 catalog/cldrplural/generator/json.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/catalog/cldrplural/generator/json.go b/catalog/cldrplural/generator/json.go
index 38c17ad..70e341d 100644
--- a/catalog/cldrplural/generator/json.go
+++ b/catalog/cldrplural/generator/json.go
@@ -79,12 +79,11 @@ func (j *ruleJSON) ToData() []*ruleData {
 
 func (j *ruleJSON) hash() string {
 	h := sha256.New()
-	h.Write([]byte(j.Zero))
-	h.Write([]byte(j.One))
-	h.Write([]byte(j.Two))
-	h.Write([]byte(j.Few))
-	h.Write([]byte(j.Many))
-	h.Write([]byte(j.Other))
+	for _, rule := range []string{j.Zero, j.One, j.Two, j.Few, j.Many, j.Other} {
+		h.Write([]byte(rule))
+		// Equal rules for different categories must not have the same hash
+		h.Write([]byte{0})
+	}
 	return hex.EncodeToString(h.Sum(nil))
 }
 
-- 
2.43.0


From 3d12baf382f2a84d050d0b21cbcdb0a6c7ec7a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:09 +0000
Subject: [PATCH 60/65] fix: poplural generator: keep languages apart that use
 the same formula with other counts

---
 catalog/poplural/generator/json.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/catalog/poplural/generator/json.go b/catalog/poplural/generator/json.go
index ec9667d..ed12b02 100644
--- a/catalog/poplural/generator/json.go
+++ b/catalog/poplural/generator/json.go
@@ -23,14 +23,14 @@ func readJSONRules() []*ruleData {
 
 	rulesData := map[string]*ruleData{}
 	for lang, fileData := range root {
-		if rd, ok := rulesData[fileData.Formula]; ok {
+		formula := fmt.Sprintf("nplurals=%d; plural=%s;", fileData.Plurals, fileData.Formula)
+		if rd, ok := rulesData[formula]; ok {
 			rd.Languages = append(rd.Languages, lang)
 			continue
 		}
 
-		formula := fmt.Sprintf("nplurals=%d; plural=%s;", fileData.Plurals, fileData.Formula)
 		parsed := ast.MustParse(formula)
-		rulesData[fileData.Formula] = &ruleData{
+		rulesData[formula] = &ruleData{
 			Languages:   []string{lang},
 			Raw:         formula,
 			Count:       fileData.Plurals,
-- 
2.43.0


From c664e3b9c571299205283aab8c6d8132ed8a078f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:26:05 +0000
Subject: [PATCH 61/65] fix: PO literals on the same line are concatenated

Several string literals of a PO entry may also be on one line; they were read
as one text with quotation marks.
---
 catalog/po/po_string.go | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/catalog/po/po_string.go b/catalog/po/po_string.go
index 2714b15..671273e 100644
--- a/catalog/po/po_string.go
+++ b/catalog/po/po_string.go
@@ -26,14 +26,40 @@ func DecodePoString(text string) string {
 			lines[idx] = ""
 			continue
 		}
-		line := lines[idx][left+1 : right]
 
-		res := unescapePoBytes([]byte(line))
-		lines[idx] = string(res)
+		var text []byte
+		for _, literal := range splitPoLiterals(lines[idx][left+1 : right]) {
+			text = append(text, unescapePoBytes([]byte(literal))...)
+		}
+		lines[idx] = string(text)
 	}
 	return strings.Join(lines, "")
 }
 
+// splitPoLiterals splits the content of a line where one literal ends and the next one starts,
+// i.e. at two quotation marks which are separated by nothing but whitespace.
+func splitPoLiterals(line string) []string {
+	var literals []string
+	start := 0
+	for i := 0; i < len(line); i++ {
+		switch line[i] {
+		case '\\':
+			i++
+		case '"':
+			next := i + 1
+			for next < len(line) && (line[next] == ' ' || line[next] == '\t') {
+				next++
+			}
+			if next < len(line) && line[next] == '"' {
+				literals = append(literals, line[start:i])
+				start = next + 1
+				i = next
+			}
+		}
+	}
+	return append(literals, line[start:])
+}
+
 func EncodePoString(s string, lim int) string {
 
 	var lines []string
-- 
2.43.0


From 86d6f845cd3992c61479383406d7a1747e267bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:15 +0000
Subject: [PATCH 62/65] fix: numbers in plural formulas do not contain
 underscores

---
 catalog/poplural/ast/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/catalog/poplural/ast/scanner.go b/catalog/poplural/ast/scanner.go
index b5320b6..b2ff0e3 100644
--- a/catalog/poplural/ast/scanner.go
+++ b/catalog/poplural/ast/scanner.go
@@ -113,7 +113,7 @@ func (s *scanner) scanNumber() (tok Token, lit string) {
 		ch := s.read()
 		if ch == scannerEOF {
 			break
-		} else if !isDigit(ch) && ch != '_' {
+		} else if !isDigit(ch) {
 			s.unread()
 			break
 		}
-- 
2.43.0


From 6137886e8deee83deb66a54c2941a383a11729b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:51 +0000
Subject: [PATCH 63/65] fix: required languages that were loaded as optional
 language before are complete

---
 bundle.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bundle.go b/bundle.go
index 2130243..29d2e96 100644
--- a/bundle.go
+++ b/bundle.go
@@ -45,6 +45,7 @@ type bundleBuilder struct {
 	fallbackLanguage       language.Tag
 	languageMatcherBuilder LanguageMatcherBuilder
 	domainLoaders          map[string]Loader
+	notFound               map[language.Tag]error // catalogs of optional languages that were not found
 	setupActions           []setupAction
 }
 
@@ -89,6 +90,7 @@ func NewBundle(opts ...BundleOption) (*Bundle, error) {
 		sourceLanguage:         language.Und,
 
 		domainLoaders: make(map[string]Loader),
+		notFound:      make(map[language.Tag]error),
 		setupActions:  make([]setupAction, 0),
 	}
 
@@ -192,7 +194,11 @@ func (b *bundleBuilder) createLocale(optional bool, lang language.Tag) error {
 	}
 
 	if _, isCached := b.locales[lang]; isCached {
-		return nil
+		if optional {
+			return nil
+		}
+		// Catalogs may be missing if the language was loaded as optional language before
+		return b.notFound[lang]
 	}
 
 	if lang == b.sourceLanguage {
@@ -215,6 +221,7 @@ func (b *bundleBuilder) createLocale(optional bool, lang language.Tag) error {
 				}
 
 				if optional {
+					b.notFound[lang] = errD
 					continue
 				}
 			}
-- 
2.43.0


From 6fcdb37152921205b08058e13b31a71966032aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 64/65] fix: errors while reading a found file are never taken
 for a missing file

---
 loader.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/loader.go b/loader.go
index 8474da3..7dfd410 100644
--- a/loader.go
+++ b/loader.go
@@ -93,7 +93,7 @@ func NewFilesystemLoader(opts ...FsOption) (*FilesystemLoader, error) {
 
 func (l *FilesystemLoader) Load(lang language.Tag, domain string) (catalog.Catalog, error) {
 	for i, extension := range l.extensions {
-		cat, err := l.loadFromFile(lang, domain, extension, i)
+		resolvedPath, file, err := l.openFile(lang, domain, extension)
 		if err != nil {
 			if errors.Is(err, os.ErrNotExist) {
 				continue
@@ -101,22 +101,28 @@ func (l *FilesystemLoader) Load(lang language.Tag, domain string) (catalog.Catal
 			return nil, err
 		}
 
-		return cat, nil
+		// The file exists, so every further error is passed on
+		return l.decodeFile(lang, domain, resolvedPath, file, i)
 	}
 
 	return nil, NewErrNotFound(lang, "file", "domain=%q", domain)
 }
 
-func (l *FilesystemLoader) loadFromFile(lang language.Tag, domain, extension string, decoderIndex int) (cat catalog.Catalog, err error) {
+func (l *FilesystemLoader) openFile(lang language.Tag, domain, extension string) (string, fs.File, error) {
 	resolvedPath, err := l.resolver.Resolve(l.fsys, extension, lang, domain)
 	if err != nil {
-		return nil, err
+		return "", nil, err
 	}
 
 	file, err := l.fsys.Open(resolvedPath)
 	if err != nil {
-		return nil, err
+		return "", nil, err
 	}
+
+	return resolvedPath, file, nil
+}
+
+func (l *FilesystemLoader) decodeFile(lang language.Tag, domain, resolvedPath string, file fs.File, decoderIndex int) (cat catalog.Catalog, err error) {
 	defer func() {
 		if closeErr := file.Close(); closeErr != nil {
 			err = errors.Join(err, closeErr)
-- 
2.43.0


From dce1d1b98f1d5c09ebf0c0b1cadbe8f0f652ca0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:08 +0000
Subject: [PATCH 65/65] fix: MO files are read from the current position of the
 reader

---
 internal/mo/parser.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/internal/mo/parser.go b/internal/mo/parser.go
index 9214d4a..dd0b34a 100644
--- a/internal/mo/parser.go
+++ b/internal/mo/parser.go
@@ -27,6 +27,7 @@ type parser struct {
 	bo binary.ByteOrder
 	r  io.ReadSeeker
 
+	start        int64 // position of the file in the reader
 	size         int64 // size of the file
 	magicNumber  uint32
 	majorVersion uint16
@@ -87,16 +88,23 @@ func (p *parser) parse() (*po.File, error) {
 }
 
 func (p *parser) determineSize() error {
-	start, err := p.r.Seek(0, io.SeekCurrent)
-	if err != nil {
+	var err error
+	if p.start, err = p.r.Seek(0, io.SeekCurrent); err != nil {
 		return err
 	}
 
-	if p.size, err = p.r.Seek(0, io.SeekEnd); err != nil {
+	end, err := p.r.Seek(0, io.SeekEnd)
+	if err != nil {
 		return err
 	}
+	p.size = end - p.start
+
+	return p.seek(0)
+}
 
-	_, err = p.r.Seek(start, io.SeekStart)
+// seek sets the position for the next read to an offset in the file.
+func (p *parser) seek(offset uint32) error {
+	_, err := p.r.Seek(p.start+int64(offset), io.SeekStart)
 	return err
 }
 
@@ -167,7 +175,7 @@ func (p *parser) parseMessageData() error {
 
 	p.messageData = make([]*msgData, p.msgIDCount)
 
-	if _, err := p.r.Seek(int64(p.msgIDOffset), io.SeekStart); err != nil {
+	if err := p.seek(p.msgIDOffset); err != nil {
 		return err
 	}
 
@@ -185,7 +193,7 @@ func (p *parser) parseMessageData() error {
 		}
 	}
 
-	if _, err := p.r.Seek(int64(p.msgStrOffset), io.SeekStart); err != nil {
+	if err := p.seek(p.msgStrOffset); err != nil {
 		return err
 	}
 
@@ -259,7 +267,7 @@ func (p *parser) parseMessage(data *msgData) (id string, localized string, err e
 		return
 	}
 
-	if _, err = p.r.Seek(int64(data.idOffset), 0); err != nil {
+	if err = p.seek(data.idOffset); err != nil {
 		return
 	}
 	tmp := make([]byte, data.idLength)
@@ -268,7 +276,7 @@ func (p *parser) parseMessage(data *msgData) (id string, localized string, err e
 	}
 	id = string(tmp)
 
-	if _, err = p.r.Seek(int64(data.translationOffset), 0); err != nil {
+	if err = p.seek(data.translationOffset); err != nil {
 		return
 	}
 
-- 
2.43.0

