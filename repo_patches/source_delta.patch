From adbb16ac237c614869e3c5355dd0110f1239e7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 01/26] fix: only an exponent may contain a sign, 1-2 is not
 one number

---
 parser/lexer.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 108b486..6b33075 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -957,6 +957,9 @@ outer:
 }
 
 func (ctx *context) consumeFloat(start int, d rune) {
+	if d != '.' {
+		ctx.skipSign()
+	}
 	if ctx.skipDecimalDigits() == 0 {
 		panic(ctx.parseIssue(lexDigitExpected))
 	}
@@ -965,6 +968,7 @@ func (ctx *context) consumeFloat(start int, d rune) {
 		// Check for 'e'
 		if c == 'e' || c == 'E' {
 			ctx.Advance(n)
+			ctx.skipSign()
 			if ctx.skipDecimalDigits() == 0 {
 				panic(ctx.parseIssue(lexDigitExpected))
 			}
@@ -978,13 +982,16 @@ func (ctx *context) consumeFloat(start int, d rune) {
 	ctx.settokenValue(tokenFloat, v)
 }
 
+// skipSign skips the sign of an exponent
+func (ctx *context) skipSign() {
+	if c, n := ctx.Peek(); c == '-' || c == '+' {
+		ctx.Advance(n)
+	}
+}
+
 func (ctx *context) skipDecimalDigits() (digitCount int) {
 	digitCount = 0
 	c, n := ctx.Peek()
-	if c == '-' || c == '+' {
-		ctx.Advance(n)
-		c, n = ctx.Peek()
-	}
 	for isDecimalDigit(c) {
 		ctx.Advance(n)
 		c, n = ctx.Peek()
-- 
2.43.0


From 962e160870dd64e9bcbf8538d45625ff3a1c6197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:48 +0000
Subject: [PATCH 02/26] fix: report numeric literals that are out of range
 instead of clamping them

---
 parser/issues.go |  2 ++
 parser/lexer.go  | 24 +++++++++++++++++++-----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/parser/issues.go b/parser/issues.go
index d64af25..e967408 100644
--- a/parser/issues.go
+++ b/parser/issues.go
@@ -21,6 +21,7 @@ const (
 	lexMalformedHexEscape           = `LEX_MALFORMED_HEX_ESCAPE`
 	lexMalformedInterpolation       = `LEX_MALFORMED_INTERPOLATION`
 	lexMalformedUnicodeEscape       = `LEX_MALFORMED_UNICODE_ESCAPE`
+	lexNumberOutOfRange             = `LEX_NUMBER_OUT_OF_RANGE`
 	lexOctaldigitExpected           = `LEX_OCTALDIGIT_EXPECTED`
 	lexUnbalancedEppComment         = `LEX_UNBALANCED_EPP_COMMENT`
 	lexUnexpectedToken              = `LEX_UNEXPECTED_TOKEN`
@@ -74,6 +75,7 @@ func init() {
 	issue.Hard(lexMalformedHexEscape, `malformed hexadecimal escape sequence`)
 	issue.Hard(lexMalformedInterpolation, `malformed interpolation expression`)
 	issue.Hard(lexMalformedUnicodeEscape, `malformed unicode escape sequence`)
+	issue.Hard(lexNumberOutOfRange, `numeric literal out of range`)
 	issue.Hard(lexOctaldigitExpected, `octal digit expected`)
 	issue.Hard(lexUnbalancedEppComment, `unbalanced epp comment`)
 	issue.Hard(lexUnexpectedToken, `unexpected token '%{token}'`)
diff --git a/parser/lexer.go b/parser/lexer.go
index 6b33075..76d3005 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -366,7 +366,7 @@ func (ctx *context) nextToken() {
 		if unicode.IsLetter(c) {
 			panic(ctx.parseIssue(lexDigitExpected))
 		}
-		v, _ := strconv.ParseInt(ctx.From(start), 10, 64)
+		v := ctx.parseInt(start, 10)
 		ctx.settokenValue(tokenInteger, v)
 		ctx.radix = 10
 
@@ -673,7 +673,7 @@ func (ctx *context) nextToken() {
 			} else if isDecimalDigit(c) {
 				ctx.Advance(sz)
 				ctx.skipDecimalDigits()
-				ctx.tokenValue, _ = strconv.ParseInt(ctx.From(start+1), 10, 64)
+				ctx.tokenValue = ctx.parseInt(start+1, 10)
 			} else if unicode.IsLetter(c) {
 				panic(ctx.parseIssue(lexInvalidVariableName))
 			} else {
@@ -701,7 +701,7 @@ func (ctx *context) nextToken() {
 				if ctx.Pos() == hexStart || isLetter(c) {
 					panic(ctx.parseIssue(lexHexdigitExpected))
 				}
-				v, _ := strconv.ParseInt(ctx.From(hexStart), 16, 64)
+				v := ctx.parseInt(hexStart, 16)
 				ctx.radix = 16
 				ctx.settokenValue(tokenInteger, v)
 
@@ -720,7 +720,7 @@ func (ctx *context) nextToken() {
 					panic(ctx.parseIssue(lexOctaldigitExpected))
 				}
 				if ctx.Pos() > octalStart {
-					v, _ := strconv.ParseInt(ctx.From(octalStart), 8, 64)
+					v := ctx.parseInt(octalStart, 8)
 					ctx.radix = 8
 					ctx.settokenValue(tokenInteger, v)
 				} else {
@@ -978,10 +978,24 @@ func (ctx *context) consumeFloat(start int, d rune) {
 	if unicode.IsLetter(c) {
 		panic(ctx.parseIssue(lexDigitExpected))
 	}
-	v, _ := strconv.ParseFloat(ctx.From(start), 64)
+	v, err := strconv.ParseFloat(ctx.From(start), 64)
+	if err != nil {
+		ctx.SetPos(start)
+		panic(ctx.parseIssue(lexNumberOutOfRange))
+	}
 	ctx.settokenValue(tokenFloat, v)
 }
 
+// parseInt returns the value of the digits between start and the current position
+func (ctx *context) parseInt(start int, radix int) int64 {
+	v, err := strconv.ParseInt(ctx.From(start), radix, 64)
+	if err != nil {
+		ctx.SetPos(start)
+		panic(ctx.parseIssue(lexNumberOutOfRange))
+	}
+	return v
+}
+
 // skipSign skips the sign of an exponent
 func (ctx *context) skipSign() {
 	if c, n := ctx.Peek(); c == '-' || c == '+' {
-- 
2.43.0


From e4374f54207ce70025703d82ada1b4e72c8dd222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:51 +0000
Subject: [PATCH 03/26] fix: a parse no longer depends on what the parser
 parsed before

---
 parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index d786464..956f55d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -164,6 +164,12 @@ func (ctx *context) Parse(filename string, source string, singleExpression bool)
 	ctx.locator = &Locator{string: source, file: filename}
 	ctx.definitions = make([]Definition, 0, 8)
 	ctx.nextLineStart = -1
+	ctx.currentToken = tokenEnd
+	ctx.tokenValue = nil
+	ctx.tokenStartPos = 0
+	ctx.beginningOfLine = 0
+	ctx.radix = 0
+	ctx.nameStack = nil
 
 	expr, err = ctx.parseTopExpression(filename, source, singleExpression)
 	if err == nil && !singleExpression {
-- 
2.43.0


From fea730529110b85692ceea8f16faa57895c8294b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 04/26] fix: line numbers stay exact after a NUL and with
 invalid UTF-8

---
 parser/expression.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/parser/expression.go b/parser/expression.go
index d3765b6..f43ad8f 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -584,10 +584,9 @@ func (e *Locator) PosOnLine(offset int) int {
 func (e *Locator) getLineIndex() []int {
 	if e.lineIndex == nil {
 		li := append(make([]int, 0, 32), 0)
-		rdr := NewStringReader(e.string)
-		for c, _ := rdr.Next(); c != 0; c, _ = rdr.Next() {
-			if c == '\n' {
-				li = append(li, rdr.Pos())
+		for i := 0; i < len(e.string); i++ {
+			if e.string[i] == '\n' {
+				li = append(li, i+1)
 			}
 		}
 		e.lineIndex = li
-- 
2.43.0


From d5c2e4e3106abd2c10e95dfb9ee3ad3e4ab93538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:55 +0000
Subject: [PATCH 05/26] fix: accept a correctly encoded U+FFFD

---
 parser/reader.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/reader.go b/parser/reader.go
index c18c0b3..ac4d5d8 100644
--- a/parser/reader.go
+++ b/parser/reader.go
@@ -63,7 +63,7 @@ func (r *stringReader) Next() (c rune, start int) {
 		return
 	}
 	c, size := utf8.DecodeRuneInString(r.text[r.i:])
-	if c == utf8.RuneError {
+	if c == utf8.RuneError && size <= 1 {
 		panic(r.invalidUnicode())
 	}
 	r.i += size
@@ -80,7 +80,7 @@ func (r *stringReader) Peek() (c rune, size int) {
 		return
 	}
 	c, size = utf8.DecodeRuneInString(r.text[r.i:])
-	if c == utf8.RuneError {
+	if c == utf8.RuneError && size <= 1 {
 		panic(r.invalidUnicode())
 	}
 	return c, size
@@ -96,7 +96,7 @@ func (r *stringReader) PeekAt(pos int) (c rune, size int) {
 		return
 	}
 	c, size = utf8.DecodeRuneInString(r.text[pos:])
-	if c == utf8.RuneError {
+	if c == utf8.RuneError && size <= 1 {
 		panic(r.invalidUnicode())
 	}
 	return c, size
-- 
2.43.0


From a538e52460ad6ca55c9b41ad944ba05b9de4da64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:10 +0000
Subject: [PATCH 06/26] fix: report a type alias body that only starts with a
 hash instead of panicking

---
 parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 956f55d..8a79bbe 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1223,7 +1223,10 @@ func (ctx *context) typeAliasOrDefinition() Expression {
 		switch bt := body.(type) {
 		case *QualifiedReference:
 			if ctx.currentToken == tokenLc {
-				hash := ctx.expression().(*LiteralHash)
+				hash, ok := ctx.expression().(*LiteralHash)
+				if !ok {
+					panic(ctx.parseIssue2(lexUnexpectedToken, issue.H{`token`: tokenMap[tokenLc]}))
+				}
 				if bt.name == `Object` || bt.name == `TypeSet` {
 					body = ctx.factory.Access(bt, []Expression{hash}, ctx.locator, bodyStart, ctx.Pos()-bodyStart)
 				} else {
-- 
2.43.0


From 788606cc5d57d999ffa2f37f33599b8552f87518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 07/26] fix: report an extraneous comma also when the block
 ends with a statement call

---
 parser/parser.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 8a79bbe..7acf7ca 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -316,7 +316,8 @@ func (ctx *context) transformCalls(exprs []Expression, start int) (result []Expr
 			result = append(result, cn)
 			idx++
 			if idx == top {
-				return
+				memo = nil
+				break
 			}
 			memo = exprs[idx]
 		} else {
@@ -327,10 +328,12 @@ func (ctx *context) transformCalls(exprs []Expression, start int) (result []Expr
 			memo = expr
 		}
 	}
-	if cnFunc, ok := memo.(*CallNamedFunctionExpression); ok {
-		cnFunc.rvalRequired = false
+	if memo != nil {
+		if cnFunc, ok := memo.(*CallNamedFunctionExpression); ok {
+			cnFunc.rvalRequired = false
+		}
+		result = append(result, memo)
 	}
-	result = append(result, memo)
 	for _, ex := range result {
 		if csl, ok := ex.(*commaSeparatedList); ok {
 			// This happens when a block contains extraneous commas between statements. The
-- 
2.43.0


From 8c1bf0f4fde55e3a4c56bc48db98731a40a5f7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 08/26] fix: a NUL character is an unexpected token, not the
 end of the source

---
 parser/lexer.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 76d3005..1744eb0 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -379,6 +379,11 @@ func (ctx *context) nextToken() {
 	default:
 		switch c {
 		case 0:
+			if start < len(ctx.text) {
+				// A NUL character is not the end
+				ctx.SetPos(start)
+				panic(ctx.parseIssue2(lexUnexpectedToken, issue.H{`token`: string(c)}))
+			}
 			ctx.setToken(tokenEnd)
 		case '=':
 			c, sz = ctx.Peek()
@@ -1150,6 +1155,11 @@ func (ctx *context) consumeEPP() {
 			lastNonWS = buf.Len()
 		}
 	}
+	if pos := ctx.Pos(); pos > 0 && ctx.text[pos-1] == 0 {
+		// A NUL character is not the end
+		ctx.SetPos(pos - 1)
+		panic(ctx.parseIssue2(lexUnexpectedToken, issue.H{`token`: string(rune(0))}))
+	}
 	if buf.Len() == 0 {
 		ctx.setToken(tokenEnd)
 	} else {
-- 
2.43.0


From 46ac05130f792f176ac6fbfc7bb5b6b3dc367f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:35 +0000
Subject: [PATCH 09/26] fix: whitespace after the first token of a block is
 significant to the lexer

---
 parser/parser.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 7acf7ca..96cbc76 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -249,8 +249,7 @@ func (ctx *context) parseTopExpression(filename string, source string, singleExp
 }
 
 func (ctx *context) parse(expectedEnd int, singleExpression bool) (expr Expression) {
-	_, start := ctx.skipWhite(false)
-	ctx.SetPos(start)
+	start := ctx.tokenStartPos
 	if singleExpression {
 		if ctx.currentToken == expectedEnd {
 			expr = ctx.factory.Undef(ctx.locator, start, 0)
-- 
2.43.0


From 950b708fb0fb2814919bc2c598003ba971e77286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 10/26] fix: a hash with a list or hash as key inside a key is
 not a literal, do not panic

---
 literal/literal.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/literal/literal.go b/literal/literal.go
index 2fee078..5d4df25 100644
--- a/literal/literal.go
+++ b/literal/literal.go
@@ -38,7 +38,13 @@ func toLiteral(e parser.Expression) interface{} {
 		result := make(map[interface{}]interface{}, len(entries))
 		for _, entry := range entries {
 			kh := entry.(*parser.KeyedEntry)
-			result[toLiteral(kh.Key())] = toLiteral(kh.Value())
+			key := toLiteral(kh.Key())
+			switch key.(type) {
+			case []interface{}, map[interface{}]interface{}:
+				// Not possible as a key in a Go map
+				panic(notLiteral)
+			}
+			result[key] = toLiteral(kh.Value())
 		}
 		return result
 	case *parser.ConcatenatedString:
-- 
2.43.0


From 0bc321635e89be11bc9ec095eaf7820594607277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 11/26] fix: convert parameters with qualified or empty names
 to PN without panicking

---
 parser/expression.go | 4 ++++
 pn/pn.go             | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/parser/expression.go b/parser/expression.go
index f43ad8f..7c86ab1 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -2115,6 +2115,10 @@ func parametersEntry(parameters []Expression) pn.Entry {
 	params := make([]pn.Entry, len(parameters))
 	for idx, param := range parameters {
 		p, _ := param.(*Parameter)
+		if !pn.IsKey(p.Name()) {
+			// The name cannot be a key
+			return pnList(parameters).WithName(`params`)
+		}
 		entries := make([]pn.Entry, 0, 3)
 		if p.Type() != nil {
 			entries = append(entries, p.Type().ToPN().WithName(`type`))
diff --git a/pn/pn.go b/pn/pn.go
index 7ab8a12..14d9565 100644
--- a/pn/pn.go
+++ b/pn/pn.go
@@ -95,9 +95,14 @@ func List(elements []PN) PN {
 	return &listPN{elements}
 }
 
+// IsKey returns true if the given string can be a key in a map
+func IsKey(key string) bool {
+	return keyPattern.MatchString(key)
+}
+
 func Map(entries []Entry) PN {
 	for _, e := range entries {
-		if !keyPattern.MatchString(e.Key()) {
+		if !IsKey(e.Key()) {
 			panic(pnError{fmt.Sprintf("key '%s' does not conform to pattern %s",
 				e.Key(), keyPattern.String())})
 		}
-- 
2.43.0


From 09d75afe4d7634e7629d8a0a8b0973044c817128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:07 +0000
Subject: [PATCH 12/26] fix: traversal of a plan passes the plan itself in the
 path

---
 parser/expression.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/parser/expression.go b/parser/expression.go
index 7c86ab1..b76a9f2 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -1571,6 +1571,18 @@ func (e *ParenthesizedExpression) ToUnaryExpression() UnaryExpression {
 
 func (e *ParenthesizedExpression) ToPN() pn.PN { return pn.Call(`paren`, e.Expr().ToPN()) }
 
+func (e *PlanDefinition) AllContents(path []Expression, visitor PathVisitor) {
+	DeepVisit(e, path, visitor, e.parameters, e.returnType, e.body)
+}
+
+func (e *PlanDefinition) Contents(path []Expression, visitor PathVisitor) {
+	ShallowVisit(e, path, visitor, e.parameters, e.returnType, e.body)
+}
+
+func (e *PlanDefinition) ToDefinition() Definition {
+	return e
+}
+
 func (e *PlanDefinition) ToPN() pn.PN {
 	return e.definitionPN(`plan`, ``, e.returnType)
 }
-- 
2.43.0


From 3500e21f53756d4a12b5aae7524a9e143a093307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:08 +0000
Subject: [PATCH 13/26] fix: validate plan definitions like function
 definitions

---
 validator/checker.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/validator/checker.go b/validator/checker.go
index 475120b..60b12a7 100644
--- a/validator/checker.go
+++ b/validator/checker.go
@@ -105,6 +105,7 @@ type Checker interface {
 	checkNamedDefinition(e parser.NamedDefinition)
 	checkNodeDefinition(e *parser.NodeDefinition)
 	checkParameter(e *parser.Parameter)
+	checkPlanDefinition(e *parser.PlanDefinition)
 	checkQueryExpression(e parser.QueryExpression)
 	checkRelationshipExpression(e *parser.RelationshipExpression)
 	checkReservedWord(e *parser.ReservedWord)
@@ -174,6 +175,8 @@ func Check(v Checker, e parser.Expression) {
 		v.checkNodeDefinition(e)
 	case *parser.Parameter:
 		v.checkParameter(e)
+	case *parser.PlanDefinition:
+		v.checkPlanDefinition(e)
 	case *parser.RelationshipExpression:
 		v.checkRelationshipExpression(e)
 	case *parser.ReservedWord:
@@ -448,6 +451,12 @@ func (v *basicChecker) checkParameter(e *parser.Parameter) {
 	}
 }
 
+func (v *basicChecker) checkPlanDefinition(e *parser.PlanDefinition) {
+	v.checkNamedDefinition(e)
+	v.checkCaptureLast(e, e.Parameters())
+	v.checkReturnType(e, e.ReturnType())
+}
+
 func (v *basicChecker) checkQueryExpression(e parser.QueryExpression) {
 	if e.Expr() != nil {
 		v.checkQuery(e.Expr())
@@ -763,7 +772,7 @@ func (v *basicChecker) checkTop(e parser.Expression, c parser.Expression) {
 		c = v.ContainerOf(c)
 		if _, ok := c.(*parser.Program); !ok {
 			switch e.(type) {
-			case *parser.FunctionDefinition, *parser.TypeAlias, *parser.TypeDefinition, *parser.TypeMapping:
+			case *parser.FunctionDefinition, *parser.PlanDefinition, *parser.TypeAlias, *parser.TypeDefinition, *parser.TypeMapping:
 				// not ok. These can never be nested in a block
 				v.Accept(ValidateNotAbsoluteTopLevel, e, issue.H{`value`: e})
 				return
-- 
2.43.0


From 28d47c82789a2a2eb3108663fa6a0835db94e23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:28 +0000
Subject: [PATCH 14/26] fix: lengths of names and lists in workflow steps are
 not negative

---
 parser/parser.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 96cbc76..ce9d0c7 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1149,12 +1149,12 @@ func (ctx *context) identifierExpr() (Expression, bool) {
 	start := ctx.tokenStartPos
 	switch ctx.currentToken {
 	case tokenIdentifier:
-		name := ctx.factory.QualifiedName(ctx.tokenString(), ctx.locator, start, start-ctx.Pos())
+		name := ctx.factory.QualifiedName(ctx.tokenString(), ctx.locator, start, ctx.Pos()-start)
 		ctx.nextToken()
 		return name, true
 	default:
 		if word, ok := ctx.keyword(); ok {
-			name := ctx.factory.QualifiedName(word, ctx.locator, start, start-ctx.Pos())
+			name := ctx.factory.QualifiedName(word, ctx.locator, start, ctx.Pos()-start)
 			ctx.nextToken()
 			return name, ok
 		}
@@ -1467,7 +1467,7 @@ func (ctx *context) stepDeclaration(start int, style StepStyle, name string, atT
 			iterParams := ctx.parameterList()
 			ctx.nextToken()
 			vs := ctx.Pos()
-			pl := ps - vs
+			pl := vs - ps
 			iterVars := ctx.lambdaParameterList()
 			ctx.nextToken()
 			vl := ctx.Pos() - vs
@@ -1842,7 +1842,7 @@ func (ctx *context) returnParameter() Expression {
 		case tokenLp, tokenWslp:
 			ps := ctx.tokenStartPos
 			ctx.nextToken()
-			defaultExpression = ctx.factory.Array(ctx.expressions(tokenRp, ctx.attributeAlias), ctx.locator, ps, ps-ctx.Pos())
+			defaultExpression = ctx.factory.Array(ctx.expressions(tokenRp, ctx.attributeAlias), ctx.locator, ps, ctx.Pos()-ps)
 			ctx.nextToken()
 		default:
 			defaultExpression = ctx.attributeAlias()
-- 
2.43.0


From a11453f057f5a5992012d0431f7c06951645b7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:31 +0000
Subject: [PATCH 15/26] fix: do not read the token after a step style twice
 when it is not a name

---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index ce9d0c7..fd763c5 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -452,8 +452,12 @@ func (ctx *context) step() (expr Expression) {
 		if qn, ok := expr.(*QualifiedName); ok {
 			s := qn.Name()
 			if style, ok := workflowStyles[s]; ok {
+				pos := ctx.Pos()
 				if name, ok := ctx.identifier(); ok {
 					expr = ctx.stepDeclaration(start, style, name, true)
+				} else {
+					// The token that follows is already read
+					ctx.SetPos(pos)
 				}
 			}
 		}
-- 
2.43.0


From 63d7db436ab653bc1b351048626ee28929eceb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 16/26] fix: report a numeric iteration variable instead of
 panicking

---
 parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index fd763c5..dee192a 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1453,6 +1453,9 @@ func (ctx *context) stepDeclaration(start int, style StepStyle, name string, atT
 
 	iterName := name
 	if ctx.currentToken == tokenVariable {
+		if _, ok := ctx.tokenValue.(string); !ok {
+			panic(ctx.parseIssue(parseExpectedVariable))
+		}
 		iterName = ctx.tokenString()
 		ctx.nextToken()
 		ctx.assertToken(tokenAssign)
-- 
2.43.0


From 89e7a4cc1599668f2d3868d29ae0c59fa85916d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 17/26] fix: the simple lexer does not start over after the
 first line

---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index dee192a..cd2f167 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -90,6 +90,7 @@ func NewSimpleLexer(filename string, source string) Lexer {
 		stringReader:          stringReader{text: source},
 		factory:               nil,
 		locator:               &Locator{string: source, file: filename},
+		nextLineStart:         -1,
 		handleBacktickStrings: false,
 		handleHexEscapes:      false,
 		tasks:                 false,
-- 
2.43.0


From 544bf956cc96a0dd202b049e30e9f46100dc2825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 18/26] fix: forget definitions and heredocs of a resource body
 that is read again

---
 parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index cd2f167..bf6d774 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -987,6 +987,8 @@ func (ctx *context) caseOption() Expression {
 
 func (ctx *context) resourceExpression(start int, first Expression, form ResourceForm) (expr Expression) {
 	bodiesStart := ctx.Pos()
+	nextLineStart := ctx.nextLineStart
+	definitionCount := len(ctx.definitions)
 	ctx.nextToken()
 	titleStart := ctx.Pos()
 	var firstTitle Expression
@@ -1000,6 +1002,10 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 	if ctx.currentToken != tokenColon {
 		// Resource body without title
 		ctx.SetPos(titleStart)
+
+		// What has been read will be read again
+		ctx.nextLineStart = nextLineStart
+		ctx.definitions = ctx.definitions[:definitionCount]
 		switch ctx.resourceShape(first) {
 		case `resource`:
 			// This is just LHS followed by a hash. It only makes sense when LHS is an identifier equal
-- 
2.43.0


From b87920971e88895ef20b758be0aff8e972866ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:40 +0000
Subject: [PATCH 19/26] fix: report a hex escape that does not start with a hex
 digit

---
 parser/lexer.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 1744eb0..3ab4f64 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1698,11 +1698,11 @@ func (ctx *context) appendHexadec(buf *bytes.Buffer) {
 	// Must be XX (a two-digit hex number)
 	d, start := ctx.Next()
 	if isHexDigit(d) {
-		d, _ := ctx.Next()
-		if !isHexDigit(d) {
-			ctx.SetPos(start - 2)
-			panic(ctx.parseIssue(lexMalformedHexEscape))
-		}
+		d, _ = ctx.Next()
+	}
+	if !isHexDigit(d) {
+		ctx.SetPos(start - 2)
+		panic(ctx.parseIssue(lexMalformedHexEscape))
 	}
 	r, _ := strconv.ParseInt(ctx.From(start), 16, 64)
 	buf.WriteByte(byte(r))
-- 
2.43.0


From f36b7d4da4a524d060fe0fca36a15310e6debc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:01 +0000
Subject: [PATCH 20/26] fix: report a unicode escape that denotes no character

---
 parser/lexer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 3ab4f64..9052472 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1720,6 +1720,10 @@ func (ctx *context) appendUnicode(buf *bytes.Buffer) {
 			}
 		}
 		r, _ := strconv.ParseInt(ctx.From(start), 16, 32)
+		if !utf8.ValidRune(rune(r)) {
+			ctx.SetPos(start - 2)
+			panic(ctx.parseIssue(lexMalformedUnicodeEscape))
+		}
 		buf.WriteRune(rune(r))
 		return
 	}
@@ -1743,6 +1747,10 @@ func (ctx *context) appendUnicode(buf *bytes.Buffer) {
 	}
 
 	r, _ := strconv.ParseInt(ctx.From(hexStart), 16, 32)
+	if !utf8.ValidRune(rune(r)) {
+		ctx.SetPos(start - 2)
+		panic(ctx.parseIssue(lexMalformedUnicodeEscape))
+	}
 	ctx.Advance(n) // Skip terminating '}'
 	buf.WriteRune(rune(r))
 }
-- 
2.43.0


From 8e98f00536ba2280562b69ce7154d260504ea35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 21/26] fix: find the start of a heredoc text also when a slash
 or a comment precedes the line end

---
 parser/lexer.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 9052472..e179bb1 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1468,15 +1468,19 @@ findStartOfText:
 			panic(ctx.parseIssue(lexHeredocUnterminated))
 
 		case '#':
-			c, _ = ctx.skipWhite(true)
+			_, n = ctx.skipWhite(true)
+			ctx.SetPos(n)
+			c, sz = ctx.Peek()
 
 		case '/':
 			n = ctx.Pos()
 			ctx.Advance(sz)
-			c, _ = ctx.Next()
+			c, sz = ctx.Peek()
 			if c == '*' {
 				ctx.SetPos(n) // rewind to comment start
-				c, _ = ctx.skipWhite(true)
+				_, n = ctx.skipWhite(true)
+				ctx.SetPos(n)
+				c, sz = ctx.Peek()
 			}
 
 		case '\n':
-- 
2.43.0


From 82016b73d4f10f4adfb7d01e6a05a80546bffde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 22/26] fix: margin and newline suppression of a heredoc are
 those of its end tag only

---
 parser/lexer.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index e179bb1..6f705d3 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1499,7 +1499,6 @@ findStartOfText:
 		}
 	}
 
-	suppressLastNL := false
 	heredocContentEnd := -1
 	heredocEnd := -1
 	indentStrip := 0
@@ -1515,6 +1514,9 @@ findEndOfText:
 			panic(ctx.parseIssue(lexHeredocUnterminated))
 
 		case '\n':
+			// These count only if the line turns out to be the end
+			suppressLastNL := false
+			lineIndent := 0
 			lineStart := ctx.Pos()
 			c, n = ctx.skipWhiteInLiteral()
 			switch c {
@@ -1523,7 +1525,7 @@ findEndOfText:
 				panic(ctx.parseIssue(lexHeredocUnterminated))
 
 			case '|':
-				indentStrip = n - lineStart
+				lineIndent = n - lineStart
 				c, n = ctx.skipWhiteInLiteral()
 				if c != '-' {
 					break
@@ -1545,12 +1547,13 @@ findEndOfText:
 				// tag found if rest of line is whitespace
 				ctx.SetPos(tagEnd)
 				c, n = ctx.skipWhiteInLiteral()
-				heredocEnd = n
 				if c == '\n' || c == 0 {
+					heredocEnd = n
+					indentStrip = lineIndent
 					heredocContentEnd = lineStart
-					if suppressLastNL {
+					if suppressLastNL && heredocContentEnd > heredocContentStart {
 						heredocContentEnd--
-						if expr[heredocContentEnd-1] == '\r' {
+						if heredocContentEnd > heredocContentStart && expr[heredocContentEnd-1] == '\r' {
 							heredocContentEnd--
 						}
 					}
-- 
2.43.0


From 9846e6415d5d83d476a4fe50ead25cbd5f50d930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:46 +0000
Subject: [PATCH 23/26] fix: parsing does not continue beyond the source after
 a heredoc that ends it

---
 parser/lexer.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 6f705d3..df02b04 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1549,6 +1549,9 @@ findEndOfText:
 				c, n = ctx.skipWhiteInLiteral()
 				if c == '\n' || c == 0 {
 					heredocEnd = n
+					if c == '\n' {
+						heredocEnd++
+					}
 					indentStrip = lineIndent
 					heredocContentEnd = lineStart
 					if suppressLastNL && heredocContentEnd > heredocContentStart {
@@ -1577,8 +1580,8 @@ findEndOfText:
 			if len(heredoc) > 0 {
 				segments = append(segments, ctx.factory.String(heredoc, ctx.locator, ctx.tokenStartPos, ctx.Pos()-ctx.tokenStartPos))
 			}
-			ctx.SetPos(heredocTagEnd)          // Normal parsing continues here
-			ctx.nextLineStart = heredocEnd + 1 // and next newline will jump to here
+			ctx.SetPos(heredocTagEnd)      // Normal parsing continues here
+			ctx.nextLineStart = heredocEnd // and next newline will jump to here
 			textExpr := ctx.factory.ConcatenatedString(segments, ctx.locator, heredocContentStart, heredocContentEnd-heredocContentStart)
 			ctx.settokenValue(tokenHeredoc, ctx.factory.Heredoc(textExpr, syntax, ctx.locator, heredocStart, heredocContentEnd-heredocStart))
 			return
@@ -1588,8 +1591,8 @@ findEndOfText:
 		heredoc = ctx.From(heredocContentStart)
 	}
 
-	ctx.SetPos(heredocTagEnd)          // Normal parsing continues here
-	ctx.nextLineStart = heredocEnd + 1 // and next newline will jump to here
+	ctx.SetPos(heredocTagEnd)      // Normal parsing continues here
+	ctx.nextLineStart = heredocEnd // and next newline will jump to here
 	if ctx.factory != nil {
 		textExpr := ctx.factory.String(heredoc, ctx.locator, heredocContentStart, heredocContentEnd-heredocContentStart)
 		ctx.settokenValue(tokenHeredoc, ctx.factory.Heredoc(textExpr, syntax, ctx.locator, heredocStart, heredocContentEnd-heredocStart))
-- 
2.43.0


From d7f0d2a1cad1f148cd3d0f8ede4f5518cb6dee67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 24/26] fix: never continue at a line that has been read
 already

---
 parser/lexer.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index df02b04..5d9f1f5 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -770,7 +770,10 @@ func (ctx *context) skipWhite(breakOnNewLine bool) (c rune, start int) {
 				return
 			}
 			if ctx.nextLineStart >= 0 {
-				ctx.SetPos(ctx.nextLineStart)
+				// The heredoc may be part of a string that ends after it
+				if ctx.nextLineStart > ctx.Pos() {
+					ctx.SetPos(ctx.nextLineStart)
+				}
 				ctx.nextLineStart = -1
 			}
 			if commentStart == '#' {
@@ -1484,11 +1487,12 @@ findStartOfText:
 			}
 
 		case '\n':
+			ctx.Advance(sz)
 			if ctx.nextLineStart >= 0 {
-				ctx.SetPos(ctx.nextLineStart)
+				if ctx.nextLineStart > ctx.Pos() {
+					ctx.SetPos(ctx.nextLineStart)
+				}
 				ctx.nextLineStart = -1
-			} else {
-				ctx.Advance(sz)
 			}
 			heredocContentStart = ctx.Pos()
 			break findStartOfText
-- 
2.43.0


From 6e2fb26c684bf85b4c7041cd2540472458b0aae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:51 +0000
Subject: [PATCH 25/26] fix: looking ahead does not forget where the text of a
 heredoc ends

---
 parser/lexer.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 5d9f1f5..6394ab8 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -425,10 +425,7 @@ func (ctx *context) nextToken() {
 		case '(':
 			// If token is first on line or only preceded by whitespace, then it is not start of parameters
 			// in a call.
-			savePos := ctx.Pos()
-			ctx.SetPos(ctx.beginningOfLine)
-			_, firstNonWhite := ctx.skipWhite(false)
-			ctx.SetPos(savePos)
+			_, firstNonWhite := ctx.peekWhite(ctx.beginningOfLine)
 			if firstNonWhite == start {
 				ctx.setToken(tokenWslp)
 			} else {
@@ -635,9 +632,7 @@ func (ctx *context) nextToken() {
 					// Empty parameter list
 					ctx.setToken(tokenPipeEnd)
 				} else {
-					pos := ctx.Pos()
-					n, _ := ctx.skipWhite(false)
-					ctx.SetPos(pos)
+					n, _ := ctx.peekWhite(ctx.Pos())
 					if n == '{' || n == '>' || ctx.eppMode && (n == '%' || n == '-') {
 						// A lambda parameter list cannot start with either of these tokens so
 						// this must be the end (next is either block body or block return type declaration)
@@ -824,6 +819,16 @@ func (ctx *context) skipWhite(breakOnNewLine bool) (c rune, start int) {
 	}
 }
 
+// Returns what skipWhite would return at the given position without skipping anything
+func (ctx *context) peekWhite(pos int) (c rune, start int) {
+	savePos, saveLine, saveNext := ctx.Pos(), ctx.beginningOfLine, ctx.nextLineStart
+	ctx.SetPos(pos)
+	c, start = ctx.skipWhite(false)
+	ctx.SetPos(savePos)
+	ctx.beginningOfLine, ctx.nextLineStart = saveLine, saveNext
+	return
+}
+
 // Skips to next non-whitespace or newline character and returns that character and its start position without
 // comment recognition
 func (ctx *context) skipWhiteInLiteral() (c rune, start int) {
-- 
2.43.0


From 6a616128844142dd342118889ffa28f574f84793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 26/26] fix: an interpolated string starts where its token
 starts

---
 parser/lexer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 6394ab8..21651e1 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1284,6 +1284,7 @@ func (ctx *context) consumeBacktickedString() {
 
 func (ctx *context) consumeDoubleQuotedString() {
 	var segments []Expression
+	tokenStart := ctx.tokenStartPos
 	if ctx.factory != nil {
 		segments = make([]Expression, 0, 4)
 	}
@@ -1333,6 +1334,7 @@ func (ctx *context) consumeDoubleQuotedString() {
 	} else {
 		segments = append(segments, ctx.factory.String(ctx.tokenValue.(string), ctx.locator, ctx.tokenStartPos, ctx.Pos()-ctx.tokenStartPos))
 	}
+	ctx.tokenStartPos = tokenStart
 	firstPos := segments[0].ByteOffset()
 	if len(segments) == 1 {
 		if _, ok := segments[0].(*LiteralString); ok {
@@ -1591,6 +1593,7 @@ findEndOfText:
 			}
 			ctx.SetPos(heredocTagEnd)      // Normal parsing continues here
 			ctx.nextLineStart = heredocEnd // and next newline will jump to here
+			ctx.tokenStartPos = heredocStart
 			textExpr := ctx.factory.ConcatenatedString(segments, ctx.locator, heredocContentStart, heredocContentEnd-heredocContentStart)
 			ctx.settokenValue(tokenHeredoc, ctx.factory.Heredoc(textExpr, syntax, ctx.locator, heredocStart, heredocContentEnd-heredocStart))
 			return
-- 
2.43.0

