package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/json"
	"github.com/lyraproj/puppet-parser/literal"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/pn"
	"github.com/lyraproj/puppet-parser/validator"
)

func init() {
	oracles["C01"] = oracleC01
	oracles["C02"] = oracleC02
	oracles["C03"] = oracleC03
	oracles["C04"] = oracleC04
	oracles["C05"] = oracleC05
	oracles["C06"] = oracleC06
	oracles["C10"] = oracleC10
	oracles["C11"] = oracleC11
	oracles["C12"] = oracleC12
	oracles["C18"] = oracleC18
	oracles["C19"] = oracleC19
	oracles["C20"] = oracleC20
}

// guard turns a panic into text.
func guard(f func()) (crash string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(internalError); ok {
				panic(r)
			}
			crash = fmt.Sprint(r)
			if crash == "" {
				crash = "panic"
			}
		}
	}()
	f()
	return
}

func (r *run) bytesOrText() string {
	g := &gen{Rand: r.rnd}
	if g.p(50) {
		return r.input().Source
	}
	var b strings.Builder
	for n := g.Intn(30); n > 0; n-- {
		b.WriteString(g.pick("\n", "\n", "a", "é", "𝄞", "\r", "\x00", "\xff", "\xe2\x82", "\ufffd", "xyz", "\t"))
	}
	return b.String()
}

func oracleC01(r *run) {
	for !r.over() {
		src := r.bytesOrText()
		in := Input{Source: src}
		r.note(in)
		l := parser.NewLocator("f.pp", src)
		for k := 0; k < 12 && r.fail == nil; k++ {
			off := r.rnd.Intn(len(src) + 1)
			if k == 0 {
				off = len(src)
			}
			line := 1 + strings.Count(src[:off], "\n")
			start := strings.LastIndexByte(src[:off], '\n') + 1
			col := 1 + utf8.RuneCountInString(src[start:off])
			var gl, gc int
			in.Extra = fmt.Sprint("offset ", off)
			if c := guard(func() { gl, gc = l.LineForOffset(off), l.PosOnLine(off) }); c != "" {
				r.failf(in, "location of offset %d: %s", off, c)
			} else if gl != line || gc != col {
				r.failf(in, "offset %d is at line %d column %d, reported %d:%d", off, line, col, gl, gc)
			}
			r.useful++
		}
		// the same through nodes and issues
		in.Extra = ""
		e, err, crash := parse(nil, src, false)
		chk := func(what string, off, gl, gc int) {
			line := 1 + strings.Count(src[:off], "\n")
			start := strings.LastIndexByte(src[:off], '\n') + 1
			col := 1 + utf8.RuneCountInString(src[start:off])
			if gl != line || gc != col {
				r.failf(in, "%s at offset %d is at line %d column %d, reported %d:%d", what, off, line, col, gl, gc)
			}
		}
		if crash == "" && err == nil && !isNil(e) {
			walk(e, func(e parser.Expression) {
				if o := e.ByteOffset(); o >= 0 && o <= len(src) {
					if c := guard(func() { chk(kind(e), o, e.Line(), e.Pos()) }); c != "" {
						r.failf(in, "location of %s: %s", kind(e), c)
					}
				}
			})
		}
		r.done()
	}
}

func oracleC02(r *run) {
	r.each(func(in Input) {
		e, err, crash := parse(in.Options, in.Source, in.Single)
		if crash != "" || err != nil || isNil(e) {
			return
		}
		r.useful++
		n := len(in.Source)
		walk(e, func(e parser.Expression) {
			o, l := e.ByteOffset(), e.ByteLength()
			if o < 0 || l < 0 || o+l > n {
				r.failf(in, "%s has offset %d and length %d in a source of %d bytes", kind(e), o, l, n)
				return
			}
			if c := guard(func() {
				if s := e.String(); s != in.Source[o:o+l] {
					r.failf(in, "%s at %d+%d reports the source text %q", kind(e), o, l, s)
				}
			}); c != "" {
				r.failf(in, "source text of %s at %d+%d: %s", kind(e), o, l, c)
			}
		})
	})
}

func isReportedOrInvalid(err error) bool {
	if _, ok := err.(issue.Reported); ok {
		return true
	}
	return reflect.TypeOf(err).String() == "*parser.parseError"
}

func oracleC03(r *run) {
	r.each(func(in Input) {
		e, err, crash := parse(in.Options, in.Source, in.Single)
		r.useful++
		switch {
		case crash != "":
			r.failf(in, "the parse panics: %s", crash)
		case err == nil && isNil(e):
			r.failf(in, "the parse returns neither an expression nor an error")
		case err != nil && !isNil(e):
			r.failf(in, "the parse returns both an expression and an error")
		case err != nil && !isReportedOrInvalid(err):
			r.failf(in, "the parse returns an error of type %T", err)
		case err != nil:
			if c := guard(func() { _ = err.Error() }); c != "" {
				r.failf(in, "the error has no text: %s", c)
			}
		}
	})
}

func outcome(e parser.Expression, err error, crash string) string {
	if crash != "" {
		return "panic " + crash
	}
	if err != nil {
		t := ""
		if c := guard(func() { t = err.Error() }); c != "" {
			t = "no text: " + c
		}
		return "error " + t
	}
	if isNil(e) {
		return "nil"
	}
	return dump(e)
}

func oracleC04(r *run) {
	loadC04 := 0
	for !r.over() {
		in := r.input()
		p := mkParser(in.Options)
		var asts []parser.Expression
		var dumps []string
		var before []string
		for k := 0; k < 4 && r.fail == nil; k++ {
			x := r.input()
			if loadC04%4 == 3 && len(corpus) > 0 {
				x.Source = corpus[r.rnd.Intn(len(corpus))]
			}
			if r.rnd.Intn(3) == 0 && len(before) > 0 {
				x.Source = before[r.rnd.Intn(len(before))]
			}
			if r.rnd.Intn(3) == 0 && len(x.Source) > 0 {
				x.Source = x.Source[:r.rnd.Intn(len(x.Source))]
			}
			loadC04++
			cur := Input{Options: in.Options, Single: x.Single, Source: x.Source, Before: before}
			r.note(cur)
			e, err, crash := try(p, x.Source, x.Single)
			e2, err2, crash2 := parse(in.Options, x.Source, x.Single)
			a, b := outcome(e, err, crash), outcome(e2, err2, crash2)
			if a != b {
				r.failf(cur, "after other parses: %s\nwith a fresh parser: %s", a, b)
			}
			for i, o := range asts {
				if dump(o) != dumps[i] {
					r.failf(cur, "the AST of an earlier parse changed\nfrom %s\nto %s", dumps[i], dump(o))
				}
			}
			if crash == "" && err == nil && !isNil(e) {
				r.useful++
				asts = append(asts, e)
				dumps = append(dumps, a)
			}
			before = append(before, x.Source)
			r.done()
		}
	}
}

func samePath(a, b []parser.Expression) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func oracleC05(r *run) {
	r.each(func(in Input) {
		e, err, crash := parse(in.Options, in.Source, in.Single)
		if crash != "" || err != nil || isNil(e) {
			return
		}
		r.useful++
		type visit struct {
			path []parser.Expression
			e    parser.Expression
		}
		var want []visit
		var rec func(path []parser.Expression, e parser.Expression)
		rec = func(path []parser.Expression, e parser.Expression) {
			p := append(append([]parser.Expression{}, path...), e)
			for _, c := range children(e) {
				want = append(want, visit{p, c})
				rec(p, c)
			}
		}
		cmp := func(what string, want, got []visit) {
			for i := range want {
				if i >= len(got) {
					r.failf(in, "%s visits %d expressions, there are %d; the first not visited is %s at %d", what, len(got), len(want), kind(want[i].e), want[i].e.ByteOffset())
					return
				}
				if want[i].e != got[i].e {
					r.failf(in, "%s: visit %d is of %s at %d and should be of %s at %d", what, i, kind(got[i].e), got[i].e.ByteOffset(), kind(want[i].e), want[i].e.ByteOffset())
					return
				}
				if !samePath(want[i].path, got[i].path) {
					r.failf(in, "%s: the path for %s at %d has %d elements, its last is %s; it should have %d, the last %s", what, kind(got[i].e), got[i].e.ByteOffset(), len(got[i].path), kind(last(got[i].path)), len(want[i].path), kind(last(want[i].path)))
					return
				}
			}
			if len(got) > len(want) {
				r.failf(in, "%s visits %d expressions, there are %d", what, len(got), len(want))
			}
		}
		prefix := []parser.Expression{e, e}
		rec(prefix, e)
		var got []visit
		collect := func(path []parser.Expression, e parser.Expression) {
			got = append(got, visit{append([]parser.Expression{}, path...), e})
		}
		e.AllContents(prefix, collect)
		cmp("deep traversal", want, got)
		walk(e, func(n parser.Expression) {
			if r.fail != nil {
				return
			}
			got, want = nil, nil
			p := append(append([]parser.Expression{}, prefix...), n)
			for _, c := range children(n) {
				want = append(want, visit{p, c})
			}
			n.Contents(prefix[:2:2], collect)
			cmp("traversal of "+kind(n), want, got)
		})
	})
}

func last(p []parser.Expression) parser.Expression {
	if len(p) == 0 {
		return nil
	}
	return p[len(p)-1]
}

func oracleC06(r *run) {
	r.each(func(in Input) {
		e, err, crash := parse(in.Options, in.Source, in.Single)
		if crash != "" || err != nil || isNil(e) {
			return
		}
		r.useful++
		step := func(what string, f func()) {
			if c := guard(f); c != "" {
				r.failf(in, "%s: %s", what, c)
			}
		}
		var p pn.PN
		step("conversion to PN", func() { p = e.ToPN() })
		if p != nil {
			step("PN as text", func() { _ = p.String() })
			step("PN as data", func() {
				d := p.ToData()
				var b bytes.Buffer
				json.ToJson(d, &b)
			})
		}
		step("literal", func() { literal.ToLiteral(e) })
		step("Puppet validator", func() { showAll(validator.ValidatePuppet(e, validator.StrictWarning)) })
		step("Puppet validator, strict", func() { showAll(validator.ValidatePuppet(e, validator.StrictError)) })
		step("tasks validator", func() { showAll(validator.ValidateTasks(e)) })
		step("workflow validator", func() { showAll(validator.ValidateWorkflow(e)) })
		if r.rnd.Intn(4) == 0 {
			walk(e, func(n parser.Expression) {
				step("conversion of "+kind(n), func() { _ = n.ToPN().ToData(); _ = n.Label(); _ = n.String() })
				step("literal of "+kind(n), func() { literal.ToLiteral(n) })
			})
		}
	})
}

func showAll(v validator.Validator) {
	for _, i := range v.Issues() {
		_ = i.Error()
	}
}

// refLiteral is the literal value of an expression, by the text of the property.
func refLiteral(e parser.Expression) (interface{}, bool) {
	switch kind(e) {
	case "Program":
		return refLiteral(e.(*parser.Program).Body())
	case "LiteralList":
		v := []interface{}{}
		for _, c := range children(e) {
			x, ok := refLiteral(c)
			if !ok {
				return nil, false
			}
			v = append(v, x)
		}
		return v, true
	case "LiteralHash":
		m := map[interface{}]interface{}{}
		for _, c := range children(e) {
			k, ok := refLiteral(c.(*parser.KeyedEntry).Key())
			if !ok {
				return nil, false
			}
			switch k.(type) {
			case []interface{}, map[interface{}]interface{}:
				return nil, false
			}
			x, ok := refLiteral(c.(*parser.KeyedEntry).Value())
			if !ok {
				return nil, false
			}
			m[k] = x
		}
		return m, true
	case "ConcatenatedString":
		if cs := children(e); len(cs) == 1 && kind(cs[0]) == "LiteralString" {
			return field(cs[0], "value").value, true
		}
		return nil, false
	case "HeredocExpression":
		return refLiteral(e.(*parser.HeredocExpression).Text())
	case "LiteralString", "LiteralInteger", "LiteralFloat", "LiteralBoolean", "RegexpExpression", "RenderStringExpression":
		return field(e, "value").value, true
	case "ReservedWord":
		return e.(parser.LiteralValue).Value(), true
	case "QualifiedName", "QualifiedReference":
		return field(e, "name").value, true
	case "LiteralUndef":
		return nil, true
	case "LiteralDefault":
		return parser.DefaultInstance, true
	}
	return nil, false
}

func oracleC10(r *run) {
	one := func(in Input, e parser.Expression) {
		want, wok := refLiteral(e)
		var got interface{}
		var ok bool
		if c := guard(func() { got, ok = literal.ToLiteral(e) }); c != "" {
			r.failf(in, "literal value of %s at %d: %s", kind(e), e.ByteOffset(), c)
			return
		}
		if ok != wok {
			r.failf(in, "%s at %d: literal is %v and should be %v", kind(e), e.ByteOffset(), ok, wok)
		} else if ok && fmt.Sprintf("%#v", got) != fmt.Sprintf("%#v", want) && !reflect.DeepEqual(got, want) {
			r.failf(in, "%s at %d: literal value is %#v and should be %#v", kind(e), e.ByteOffset(), got, want)
		} else if !ok && got != nil {
			r.failf(in, "%s at %d: not a literal but the value is %#v", kind(e), e.ByteOffset(), got)
		}
	}
	g := &gen{Rand: r.rnd}
	var lit func(d int) string
	lit = func(d int) string {
		if d > 0 {
			switch g.Intn(5) {
			case 0:
				return "[" + g.list(d-1, 4, lit) + "]"
			case 1, 2:
				return "{" + g.list(d-1, 4, func(d int) string { return lit(g.Intn(2)*d) + " => " + lit(d) }) + "}"
			case 3:
				if g.p(30) {
					return g.expr(d)
				}
			}
		}
		return g.pick(g.sq(), "1", "2.5", "true", "undef", "default", "'x'", "\"y\"", "foo", "Foo", "/x/", "0x1F", "\"${'x'}\"", "-3", g.atom(), "\"a$b\"", "(1)")
	}
	n := 0
	r.each(func(in Input) {
		if n++; n%2 == 0 {
			in = Input{Source: lit(3) + g.pick("", "\n"), Single: g.p(50)}
			r.note(in)
		}
		e, err, crash := parse(in.Options, in.Source, in.Single)
		if crash != "" || err != nil || isNil(e) {
			return
		}
		walk(e, func(e parser.Expression) {
			r.useful++
			one(in, e)
		})
	})
}

func refQuote(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '\t':
			b.WriteString(`\t`)
		case c == '\n':
			b.WriteString(`\n`)
		case c == '\r':
			b.WriteString(`\r`)
		case c == '"':
			b.WriteString(`\"`)
		case c == '\\':
			b.WriteString(`\\`)
		case c < 0x20:
			fmt.Fprintf(&b, `\o%3.3o`, c)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (r *run) text() string {
	var b strings.Builder
	for n := r.rnd.Intn(8); n > 0; n-- {
		switch r.rnd.Intn(6) {
		case 0:
			b.WriteByte(byte(r.rnd.Intn(32)))
		case 1:
			b.WriteString([]string{`"`, `\`, `\"`, "\x7f", "\u0080", "é", "\ufffd", "𝄞", "\x00"}[r.rnd.Intn(9)])
		case 2:
			b.WriteByte(byte(r.rnd.Intn(256)))
		default:
			b.WriteString([]string{"a", "1", "xy", " ", "7", "o"}[r.rnd.Intn(6)])
		}
	}
	return b.String()
}

func oracleC11(r *run) {
	seen := map[string]string{}
	for !r.over() {
		s := r.text()
		in := Input{Source: s}
		r.note(in)
		r.useful++
		got := ""
		if c := guard(func() { got = pn.ToString(pn.Literal(s)) }); c != "" {
			r.failf(in, "quoting: %s", c)
			return
		}
		if want := refQuote(s); got != want {
			r.failf(in, "quoted form of %q is %s and should be %s", s, got, want)
		}
		if utf8.ValidString(s) {
			if o, ok := seen[got]; ok && o != s {
				r.failf(in, "%q and %q have the same quoted form %s", o, s, got)
			}
			if len(seen) < 200000 {
				seen[got] = s
			}
		}
		r.done()
	}
}

// a random PN with what its text and its data should be
func (r *run) pn(d int) (p pn.PN, text string, data interface{}) {
	k := r.rnd.Intn(4)
	if d == 0 {
		k = 0
	}
	n := r.rnd.Intn(4)
	switch k {
	case 1, 2:
		els := make([]pn.PN, n)
		ts := make([]string, n)
		ds := make([]interface{}, n)
		for i := range els {
			els[i], ts[i], ds[i] = r.pn(d - 1)
		}
		if k == 1 {
			return pn.List(els), "[" + strings.Join(ts, " ") + "]", ds
		}
		name := []string{"a", "+", "x-y", "=="}[r.rnd.Intn(4)]
		return pn.Call(name, els...), "(" + strings.Join(append([]string{name}, ts...), " ") + ")",
			map[string]interface{}{"^": append([]interface{}{name}, ds...)}
	case 3:
		es := make([]pn.Entry, n)
		var ts []string
		ds := []interface{}{}
		for i := range es {
			key := []string{"a", "B-c", "_x9", "-"}[r.rnd.Intn(4)]
			v, t, dt := r.pn(d - 1)
			es[i] = v.WithName(key)
			ts = append(ts, ":"+key+" "+t)
			ds = append(ds, key, dt)
		}
		return pn.Map(es), "{" + strings.Join(ts, " ") + "}", map[string]interface{}{"#": ds}
	}
	switch r.rnd.Intn(6) {
	case 0:
		return pn.Literal(nil), "nil", nil
	case 1:
		b := r.rnd.Intn(2) == 0
		return pn.Literal(b), strconv.FormatBool(b), b
	case 2:
		i := r.rnd.Int63() - r.rnd.Int63()
		return pn.Literal(i), strconv.FormatInt(i, 10), i
	case 3:
		i := r.rnd.Intn(17)
		return pn.Literal(i), strconv.Itoa(i), i
	case 4:
		f := float64(r.rnd.Intn(1000)) / 8
		if f == math.Trunc(f) {
			f += 0.5
		}
		return pn.Literal(f), fmt.Sprintf("%g", f), f
	}
	s := r.text()
	return pn.Literal(s), refQuote(s), s
}

func showPN(p pn.PN) string { return pn.ToString(p) }

func oracleC12(r *run) {
	for !r.over() {
		p, text, data := r.pn(4)
		in := Input{Source: text}
		r.note(in)
		r.useful++
		c := guard(func() {
			if s := p.String(); s != text {
				r.failf(in, "text is %s and should be %s", s, text)
			}
			if s := pn.ToString(p); s != text {
				r.failf(in, "ToString gives %s and should give %s", s, text)
			}
			d := p.ToData()
			if !reflect.DeepEqual(d, data) && fmt.Sprintf("%#v", d) != fmt.Sprintf("%#v", data) {
				r.failf(in, "data is %#v and should be %#v", d, data)
			}
			// renaming
			ap := p.AsParameters()
			as := p.AsCall("nm").String()
			el := ""
			for i, x := range ap {
				if i > 0 {
					el += " "
				}
				el += x.String()
			}
			inner := text
			switch {
			case text[0] == '[':
				inner = strings.TrimSuffix(strings.TrimPrefix(text, "["), "]")
			case text[0] == '(':
				inner = strings.TrimSuffix(text[strings.IndexAny(text, " )"):], ")")
				inner = strings.TrimPrefix(inner, " ")
			}
			call := "(nm " + inner + ")"
			if inner == "" {
				call = "(nm)"
			}
			if as != call {
				r.failf(in, "as a call it is %s and should be %s", as, call)
			}
			params := inner
			if el != params {
				r.failf(in, "its parameters are %s and should be %s", el, params)
			}
			en := p.WithName("kk")
			if en.Key() != "kk" || en.Value().String() != text {
				r.failf(in, "as an entry it is %s => %s", en.Key(), en.Value().String())
			}
			if s := p.String(); s != text {
				r.failf(in, "conversion changed it to %s", s)
			}
		})
		if c != "" {
			r.failf(in, "panic: %s", c)
		}
		r.done()
	}
}

func hasOption(in Input, o int) bool {
	for _, x := range in.Options {
		if x == o {
			return true
		}
	}
	return false
}

func oracleC18(r *run) {
	r.each(func(in Input) {
		e, err, crash := parse(in.Options, in.Source, in.Single)
		if crash != "" || err != nil || isNil(e) {
			return
		}
		r.useful++
		if p, ok := e.(*parser.Program); ok {
			if p.ByteOffset() != 0 || p.ByteLength() != len(in.Source) {
				r.failf(in, "the program covers %d+%d of %d bytes", p.ByteOffset(), p.ByteLength(), len(in.Source))
			}
		}
		bad := func(what, src string) {
			e, err, crash := parse(in.Options, src, in.Single)
			if crash == "" && err == nil && !isNil(e) {
				x := in
				x.Source = src
				r.failf(x, "%s is accepted", what)
			}
		}
		if strings.IndexByte(in.Source, 0) >= 0 {
			r.failf(in, "a source with a NUL is accepted")
		}
		i := r.rnd.Intn(len(in.Source) + 1)
		for i < len(in.Source) && !utf8.RuneStart(in.Source[i]) {
			i++
		}
		bad("a NUL in the source", in.Source[:i]+"\x00"+in.Source[i:])
		if !hasOption(in, 5) {
			for _, t := range []string{")", "}", "]", "=> 1"} {
				bad("text that cannot follow", in.Source+"\n"+t)
			}
			bad("a NUL and text that cannot follow", in.Source+"\n\x00 )")
		} else {
			bad("a NUL and text after the end", in.Source+"\n\x00 <% ) %>")
		}
	})
}

func isDefinition(e parser.Expression) bool { _, ok := e.(parser.Definition); return ok }

func oracleC19(r *run) {
	r.each(func(in Input) {
		e, err, crash := parse(in.Options, in.Source, in.Single)
		if crash != "" || err != nil || isNil(e) {
			return
		}
		p, ok := e.(*parser.Program)
		if !ok {
			return
		}
		want := map[parser.Expression]int{}
		var order []parser.Expression
		var rec func(e, parent, grand parser.Expression)
		rec = func(e, parent, grand parser.Expression) {
			if isDefinition(e) {
				_, step := e.(*parser.StepExpression)
				sub := false
				if gs, ok := grand.(*parser.StepExpression); ok && step {
					sub = gs.Style() == parser.StepStyleWorkflow && gs.Definition() == parent
				}
				if !sub {
					want[e]++
					order = append(order, e)
				}
			}
			for _, c := range children(e) {
				rec(c, e, parent)
			}
		}
		rec(e, nil, nil)
		if len(order) > 0 {
			r.useful++
		}
		got := map[parser.Expression]int{}
		for _, d := range p.Definitions() {
			got[d]++
			if got[d] > 1 {
				r.failf(in, "%s at %d is listed twice", kind(d), d.ByteOffset())
			}
			if want[d] == 0 {
				r.failf(in, "%s at %d is listed as a definition and not in the AST", kind(d), d.ByteOffset())
			}
		}
		for _, d := range order {
			if got[d] == 0 {
				r.failf(in, "%s at %d is not listed as a definition", kind(d), d.ByteOffset())
			}
		}
	})
}

func oracleC20(r *run) {
	r.each(func(in Input) {
		r.useful++
		parse(in.Options, in.Source, in.Single)
		if r.rnd.Intn(4) == 0 {
			guard(func() {
				l := parser.NewSimpleLexer("f.pp", in.Source)
				for i := 0; i <= len(in.Source)+1; i++ {
					if l.NextToken() == 0 {
						return
					}
				}
				r.failf(in, "the simple lexer reads more tokens than there are bytes")
			})
		}
	})
}

var _ = big.NewInt
