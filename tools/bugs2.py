from mkbug import bug
import sys
H='package %s\n\nimport (\n%s)\n\nfunc TestZZDemo(t *testing.T) {\n%s}\n'
def demo(pkg,imps,body): return H%(pkg,''.join('\t"%s"\n'%i for i in sorted(imps+['testing'])),body)
L=[]
def b(*a): L.append(a)
b('C01-newline-return','C01',[('parser/expression.go','''			if e.string[i] == '\\n' {
				li = append(li, i+1)
''','''			if e.string[i] == '\\n' {
				if i+1 < len(e.string) && e.string[i+1] == '\\r' {
					i++
				}
				li = append(li, i+1)
''')],'parser',demo('parser',[],'''	l := NewLocator("f", "a\\n\\rb")
	if l.LineForOffset(2) != 2 || l.PosOnLine(3) != 2 {
		t.Fatalf("demo: got line %d, position %d", l.LineForOffset(2), l.PosOnLine(3))
	}
'''),'A newline that is directly followed by a carriage return','The carriage return is counted to the line before, and the columns of that line are one too small')
b('C02-hash-end','C02',[('parser/parser.go','''	end := last.ByteOffset() + last.ByteLength()
''','''	end := last.ByteOffset() + entries[(len(entries)-1)/3].ByteLength()
''')],'parser',demo('parser',[],'''	src := "f(abcdefgh => 1, b => 2, c => 3)"
	e, err := CreateParser().Parse("", src, true)
	if err != nil {
		t.Fatal(err)
	}
	bad := false
	e.AllContents(nil, func(path []Expression, c Expression) {
		bad = bad || c.ByteOffset()+c.ByteLength() > len(src)
	})
	if bad {
		t.Fatal("demo: range outside the source")
	}
'''),'A hash without braces whose first entry is longer than the last','The range of the hash ends behind its last entry, possibly behind the source')
b('C03-boolean-attribute','C03',[('parser/parser.go','''	case tokenIdentifier:
		name := ctx.tokenString()
		ctx.nextToken()
		return name, true
''','''	case tokenIdentifier, tokenBoolean:
		name := ctx.tokenString()
		ctx.nextToken()
		return name, true
''')],'parser',demo('parser',[],'''	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("demo: %v", r)
		}
	}()
	if _, err := CreateParser().Parse("", "file { 'x': true => 1 }", false); err == nil {
		t.Fatal("demo: no error")
	}
'''),'An attribute named by a boolean literal','Parse panics with a string instead of reporting an error')
b('C05-shared-path','C05',[('parser/expression.go','''			for _, expr := range exprs {
				visitor(childPath, expr)
				expr.AllContents(childPath, visitor)
			}
''','''			for _, expr := range exprs {
				visitor(childPath, expr)
				if c, ok := expr.(*CaseOption); ok && len(c.values) > 2 {
					c.then.AllContents(childPath, visitor)
					continue
				}
				expr.AllContents(childPath, visitor)
			}
''')],'parser',demo('parser',[],'''	e, err := CreateParser().Parse("", "case $x { 1, 2, 3: { f(4) } }", true)
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	e.AllContents(nil, func(path []Expression, c Expression) {
		if i, ok := c.(*LiteralInteger); ok && i.Int() <= 3 {
			n++
		}
	})
	if n != 3 {
		t.Fatalf("demo: got %d", n)
	}
'''),'A case option with more than two values','Deep traversal skips the values of such an option and its block')
b('C06-pattern-list','C06',[('validator/checker.go','''len(v.Elements()) == 2 {''','''len(v.Elements()) < 3 {''')],'validator',demo('validator',['github.com/lyraproj/puppet-parser/parser'],'''	e, err := parser.CreateParser().Parse("", "type Runtime[ruby, [/a/]] = Foo", false)
	if err != nil {
		t.Fatal(err)
	}
	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("demo: %v", r)
		}
	}()
	ValidatePuppet(e, StrictError)
'''),'A type mapping with a list of a single regular expression','The Puppet validator crashes on it')
b('C07-same-place','C07',[('validator/validator.go','''	if severity != issue.SeverityIgnore {
''','''	if n := len(v.issues); n > 0 && v.issues[n-1].Code() == code && v.issues[n-1].Location().Line() == e.Line() && v.issues[n-1].Location().Pos() == e.Pos() {
		return
	}
	if severity != issue.SeverityIgnore {
''')],'validator',demo('validator',['github.com/lyraproj/issue/issue','github.com/lyraproj/puppet-parser/parser'],'''	e, err := parser.CreateParser().Parse("", "class a($name, $title) {}", false)
	if err != nil {
		t.Fatal(err)
	}
	v := ValidatePuppet(e, StrictError)
	n := 0
	for _, i := range v.Issues() {
		if i.Code() == ValidateReservedParameter && i.Severity() == issue.SeverityError {
			n++
		}
	}
	if n != 2 {
		t.Fatalf("demo: got %d", n)
	}
'''),'Two issues with the same code in a row that are reported for the same expression','The second one is dropped')
b('C08-triple','C08',[('validator/checker.go','''		if _, found := unique[param.Name()]; found {
			v.Accept(ValidateDuplicateParameter, parameter, issue.H{`param`: param.Name()})
		} else {
''','''		if first, found := unique[param.Name()]; found {
			if first {
				v.Accept(ValidateDuplicateParameter, parameter, issue.H{`param`: param.Name()})
				unique[param.Name()] = false
			}
		} else {
''')],'validator',demo('validator',['github.com/lyraproj/puppet-parser/parser'],'''	e, err := parser.CreateParser().Parse("", "class a($x, $x, $x) {}", false)
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	for _, i := range ValidatePuppet(e, StrictError).Issues() {
		if i.Code() == ValidateDuplicateParameter {
			n++
		}
	}
	if n != 2 {
		t.Fatalf("demo: got %d", n)
	}
'''),'A parameter name that occurs three times in one list','Only the first repetition is reported')
b('C13-exponent-round','C13',[('parser/lexer.go','''	ctx.settokenValue(tokenFloat, v)
}''','''	if d != '.' && ctx.Pos()-start > 7 {
		v = float64(float32(v))
	}
	ctx.settokenValue(tokenFloat, v)
}''')],'parser',demo('parser',[],'''	e, err := CreateParser().Parse("", "12345678901e-3", true)
	if err != nil {
		t.Fatal(err)
	}
	if v := e.(*LiteralFloat).Float(); v != 12345678.901 {
		t.Fatalf("demo: got %v", v)
	}
'''),'A float with an exponent and no fraction that is longer than seven characters','The value is rounded to single precision')
b('C15-less-minus','C15',[('parser/lexer.go','''			case '-':
				ctx.Advance(sz)
				ctx.setToken(tokenOutEdge)
''','''			case '-':
				if p := ctx.Pos() + sz; p < len(ctx.text) && isDecimalDigit(rune(ctx.text[p])) {
					// Comparison with a negative number
					ctx.setToken(tokenLess)
					break
				}
				ctx.Advance(sz)
				ctx.setToken(tokenOutEdge)
''')],'parser',demo('parser',[],'''	e, err := CreateParser().Parse("", "$a <-1", true)
	if err != nil {
		t.Fatal(err)
	}
	if _, ok := e.(*RelationshipExpression); !ok {
		t.Fatalf("demo: got %T", e)
	}
'''),'The operator <- directly followed by a digit','A shorter operator is taken than the longest that matches')
b('C16-remainder-right','C16',[('parser/parser.go','''			op := ctx.tokenString()
			ctx.nextToken()
			expr = ctx.factory.Arithmetic(op, expr, ctx.matchExpression(), ctx.locator, expr.ByteOffset(), ctx.Pos()-expr.ByteOffset())
''','''			op := ctx.tokenString()
			ctx.nextToken()
			rhs := ctx.matchExpression
			if t == tokenRemainder {
				rhs = ctx.multiplicativeExpression
			}
			expr = ctx.factory.Arithmetic(op, expr, rhs(), ctx.locator, expr.ByteOffset(), ctx.Pos()-expr.ByteOffset())
''')],'parser',demo('parser',[],'''	e, err := CreateParser().Parse("", "$a % $b * $c", true)
	if err != nil {
		t.Fatal(err)
	}
	if s := e.ToPN().String(); s != `(* (% (var "a") (var "b")) (var "c"))` {
		t.Fatalf("demo: got %s", s)
	}
'''),'A remainder followed by another multiplicative operator','The operators group to the right')
b('C18-semicolon','C18',[('parser/parser.go','''			expr = ctx.relationship()
			ctx.assertToken(expectedEnd)
''','''			expr = ctx.relationship()
			if ctx.currentToken != tokenSemicolon {
				ctx.assertToken(expectedEnd)
			}
''')],'parser',demo('parser',[],'''	if _, err := CreateParser().Parse("", "$a; $b", true); err == nil {
		t.Fatal("demo: no error")
	}
'''),'A single expression that is followed by a semicolon and more text','The text after the semicolon is ignored')
b('C04-definitions-reused','C04',[('parser/parser.go','''	ctx.definitions = make([]Definition, 0, 8)
	ctx.nextLineStart = -1
	ctx.currentToken = tokenEnd
''','''	if ctx.definitions == nil {
		ctx.definitions = make([]Definition, 0, 8)
	}
	ctx.definitions = ctx.definitions[:0]
	ctx.nextLineStart = -1
	ctx.currentToken = tokenEnd
''')],'parser',demo('parser',[],'''	p := CreateParser()
	e, err := p.Parse("", "class a {}", false)
	if err != nil {
		t.Fatal(err)
	}
	if _, err = p.Parse("", "class b {}", false); err != nil {
		t.Fatal(err)
	}
	if d := e.(*Program).Definitions()[0].(*HostClassDefinition); d.Name() != "a" {
		t.Fatalf("demo: got %s", d.Name())
	}
'''),'Two parses with the same parser, both with definitions','The second parse overwrites the definitions of the program that the first returned')
b('C17-undef-statement','C17',[('parser/parser.go','''			result = append(result, memo)
			memo = expr
''','''			if _, ok := memo.(*LiteralUndef); !ok || idx < 3 {
				result = append(result, memo)
			}
			memo = expr
''')],'parser',demo('parser',[],'''	e, err := CreateParser().Parse("", "$a\\n$b\\n$c\\nundef\\n$d", false)
	if err != nil {
		t.Fatal(err)
	}
	if n := len(e.(*Program).Body().(*BlockExpression).Statements()); n != 5 {
		t.Fatalf("demo: got %d", n)
	}
'''),'A statement that is the literal undef, after at least two others and not last','The statement is dropped')
b('C19-nested','C19',[('parser/parser.go','''	ctx.definitions = append(ctx.definitions, expr.(Definition))
''','''	if n := len(ctx.definitions); n > 0 && ctx.definitions[n-1].ByteOffset() == expr.ByteOffset()+expr.ByteLength() {
		return expr
	}
	if _, ok := expr.(*NodeDefinition); !ok || len(ctx.definitions) < 3 {
		ctx.definitions = append(ctx.definitions, expr.(Definition))
	}
''')],'parser',demo('parser',[],'''	e, err := CreateParser().Parse("", "class a {} class b {} class c {} node d {}", false)
	if err != nil {
		t.Fatal(err)
	}
	if n := len(e.(*Program).Definitions()); n != 4 {
		t.Fatalf("demo: got %d", n)
	}
'''),'A node definition after three other definitions','It is missing from the list of definitions')
b('C14-digit-escape','C14',[('parser/lexer.go',"""				// Unrecognized escape sequence. Treat as literal backslash
				buf.WriteRune('\\\\')
				buf.WriteRune(ec)
			}
		})
	if ctx.factory""","""				// Unrecognized escape sequence. Treat as literal backslash
				if !isDecimalDigit(ec) {
					buf.WriteRune('\\\\')
				}
				buf.WriteRune(ec)
			}
		})
	if ctx.factory""")],'parser',demo('parser',[],"""	e, err := CreateParser().Parse("", "\\"a\\\\1\\"", true)
	if err != nil {
		t.Fatal(err)
	}
	if s := e.(*LiteralString).StringValue(); s != "a\\\\1" {
		t.Fatalf("demo: got %q", s)
	}
"""),'A backslash before a digit in a double quoted string','The backslash is dropped')
b('C21-tab-indent','C21',[('parser/lexer.go','''		if c, s := ctx.Peek(); c == '\\t' || c == ' ' {
			ctx.Advance(s)
			indentStrip--
			continue
		}
''','''		if c, s := ctx.Peek(); c == '\\t' || c == ' ' {
			ctx.Advance(s)
			indentStrip--
			if c == '\\t' && indentStrip > 6 {
				indentStrip -= 7
			}
			continue
		}
''')],'parser',demo('parser',[],'''	e, err := CreateParser().Parse("", "@(E)\\n\\t         x\\n        | E\\n", true)
	if err != nil {
		t.Fatal(err)
	}
	if s := e.(*HeredocExpression).Text().(*LiteralString).StringValue(); s != "  x\\n" {
		t.Fatalf("demo: got %q", s)
	}
'''),'A heredoc line indented with a tab and a margin of eight or more','Too little indentation is stripped')
b('C20-slash','C20',[('parser/lexer.go','''	case tokenRp, tokenRb, tokenTypeName,''','''	case tokenRp, tokenRb, tokenTypeName, tokenPipeEnd,''')],'parser',demo('parser',[],'''	t.Fatal("demo: not written")
'''),'-','-')
if __name__=='__main__':
    for a in L:
        if len(sys.argv)<2 or a[0] in sys.argv[1:]:
            if a[0]=='C20-slash': continue
            try: bug(*a)
            except AssertionError as x: print('FAILED',x)
