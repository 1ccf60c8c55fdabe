from mkbug import bug
H='package %s\n\nimport (\n%s)\n\nfunc TestZZDemo(t *testing.T) {\n%s}\n'
def demo(pkg,imps,body): return H%(pkg,''.join('\t"%s"\n'%i for i in sorted(imps+['testing'])),body)
bug('C11-backslash-run','C11',[('pn/quote.go','''	for _, c := range str {
		switch c {
''','''	prev := rune(0)
	for _, c := range str {
		if c == '"' && prev == '\\\\' {
			b.WriteRune(c)
			continue
		}
		prev = c
		switch c {
''')],'pn',demo('pn',['bytes'],'''	b := bytes.NewBufferString("")
	DoubleQuote("a\\\\\\"b", b)
	if b.String() != `"a\\\\\\"b"` {
		t.Fatalf("demo: got %s", b.String())
	}
'''),'A string with a backslash directly followed by a double quote','The quote after a backslash is not escaped, so the quoted form ends early and does not read back')
bug('C12-ascall-share','C12',[('pn/pn.go','''	return &callPN{listPN{pn.elements}, name}
}

func (pn *callPN) AsParameters() []PN {
	return pn.elements
''','''	if len(pn.elements) == 1 {
		if c, ok := pn.elements[0].(*callPN); ok && c.name == pn.name {
			return &callPN{listPN{c.elements}, name}
		}
	}
	return &callPN{listPN{pn.elements}, name}
}

func (pn *callPN) AsParameters() []PN {
	return pn.elements
''')],'pn',demo('pn',[],'''	c := Call("x", Call("x", Literal(int64(1)))).AsCall("y")
	if c.String() != "(y (x 1))" {
		t.Fatalf("demo: got %s", c.String())
	}
'''),'A call that wraps a single call of the same name is renamed','AsCall drops one level of nesting')
bug('C10-nested-single','C10',[('literal/literal.go','''		result := make([]interface{}, len(elements))
		for idx, elem := range elements {
''','''		result := make([]interface{}, len(elements))
		for idx, elem := range elements {
			if hd, ok := elem.(*parser.HeredocExpression); ok && idx > 0 {
				if elem = hd.Text(); idx > 1 {
					elem = elements[idx-1]
				}
			}
''')],'literal',demo('literal',['reflect','github.com/lyraproj/puppet-parser/parser'],'''	e, err := parser.CreateParser().Parse("", "[a, b, @(E)]\\ntext\\n| E\\n", true)
	if err != nil {
		t.Fatal(err)
	}
	v, ok := ToLiteral(e)
	if !ok || !reflect.DeepEqual(v, []interface{}{"a", "b", "text\\n"}) {
		t.Fatalf("demo: got %v %v", v, ok)
	}
'''),'A heredoc in third or later position of an array','The value of that element is replaced by the value before it')
bug('C22-default-title','C22',[('parser/expression.go','''	if parent != `` {
''','''	if parent != `` && len(e.parameters) < 3 {
''')],'parser',demo('parser',['strings'],'''	e, err := CreateParser().Parse("", "class a($x, $y, $z) inherits b {}", false)
	if err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(e.ToPN().String(), ":parent") {
		t.Fatalf("demo: got %s", e.ToPN())
	}
'''),'A class with both parameters and a parent class','The parent class is not rendered')
