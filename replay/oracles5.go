package main

import (
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/pn"
)

func init() {
	oracles["C22"] = oracleC22
}

type ents []pn.Entry

func (m *ents) add(name string, p pn.PN) { *m = append(*m, p.WithName(name)) }

func one(name string, es ...parser.Expression) pn.PN { return pn.Call(name, all(es)...) }

func all(es []parser.Expression) []pn.PN {
	r := []pn.PN{}
	for _, e := range es {
		r = append(r, refPN(e))
	}
	return r
}

// stmts is the form of a body: a list of its statements.
func stmts(e parser.Expression) pn.PN {
	if b, ok := e.(*parser.BlockExpression); ok {
		return pn.List(all(b.Statements()))
	}
	return pn.List([]pn.PN{refPN(e)})
}

func paramFields(p *parser.Parameter, withName bool) ents {
	var m ents
	if withName {
		m.add("name", pn.Literal(p.Name()))
	}
	if !isNil(p.Type()) {
		m.add("type", refPN(p.Type()))
	}
	if p.CapturesRest() {
		m.add("splat", pn.Literal(true))
	}
	if !isNil(p.Value()) {
		m.add("value", refPN(p.Value()))
	}
	return m
}

func (m *ents) params(ps []parser.Expression) {
	if len(ps) == 0 {
		return
	}
	var es ents
	for _, x := range ps {
		p, ok := x.(*parser.Parameter)
		if !ok || !pn.IsKey(p.Name()) {
			var l []pn.PN
			for _, x := range ps {
				l = append(l, refPN(x))
			}
			m.add("params", pn.List(l))
			return
		}
		es.add(p.Name(), pn.Map(paramFields(p, false)))
	}
	m.add("params", pn.Map(es))
}

func (m ents) call(name string) pn.PN { return pn.Call(name, pn.Map(m)) }

func refDef(kind, name, parent string, ps []parser.Expression, body, ret parser.Expression) pn.PN {
	var m ents
	m.add("name", pn.Literal(name))
	if parent != "" {
		m.add("parent", pn.Literal(parent))
	}
	m.params(ps)
	if !isNil(body) {
		m.add("body", stmts(body))
	}
	if !isNil(ret) {
		m.add("returns", refPN(ret))
	}
	return m.call(kind)
}

func refCall(kind string, e parser.CallExpression) pn.PN {
	var m ents
	m.add("functor", refPN(e.Functor()))
	m.add("args", pn.List(all(e.Arguments())))
	if !isNil(e.Lambda()) {
		m.add("block", refPN(e.Lambda()))
	}
	return m.call(kind)
}

func rv(e interface{ RvalRequired() bool }, call, invoke string) string {
	if e.RvalRequired() {
		return call
	}
	return invoke
}

func nop(e parser.Expression) bool { return isNil(e) || kind(e) == "Nop" }

// refPN is the PN form of an expression, by the table of the property. It is nil for an unknown kind.
func refPN(x parser.Expression) pn.PN {
	lit := func(v interface{}) pn.PN { return pn.Literal(v) }
	bin := func(op string, e parser.BinaryExpression) pn.PN { return one(op, e.Lhs(), e.Rhs()) }
	var m ents
	form := func(f parser.ResourceForm) {
		if f != parser.REGULAR {
			m.add("form", lit(string(f)))
		}
	}
	cond := func(name string, test, then, els parser.Expression) pn.PN {
		m.add("test", refPN(test))
		if !nop(then) {
			m.add("then", stmts(then))
		}
		if !nop(els) {
			m.add("else", stmts(els))
		}
		return m.call(name)
	}
	query := func(name string, q parser.Expression) pn.PN {
		if nop(q) {
			return pn.Call(name)
		}
		return one(name, q)
	}
	switch e := x.(type) {
	case *parser.AccessExpression:
		return pn.Call("access", append([]pn.PN{refPN(e.Operand())}, all(e.Keys())...)...)
	case *parser.AndExpression:
		return bin("and", e)
	case *parser.OrExpression:
		return bin("or", e)
	case *parser.InExpression:
		return bin("in", e)
	case *parser.NamedAccessExpression:
		return bin(".", e)
	case *parser.ArithmeticExpression:
		return bin(e.Operator(), e)
	case *parser.AssignmentExpression:
		return bin(e.Operator(), e)
	case *parser.ComparisonExpression:
		return bin(e.Operator(), e)
	case *parser.MatchExpression:
		return bin(e.Operator(), e)
	case *parser.RelationshipExpression:
		return bin(e.Operator(), e)
	case *parser.Application:
		return refDef("application", e.Name(), "", e.Parameters(), e.Body(), nil)
	case *parser.ResourceTypeDefinition:
		return refDef("define", e.Name(), "", e.Parameters(), e.Body(), nil)
	case *parser.HostClassDefinition:
		return refDef("class", e.Name(), e.ParentClass(), e.Parameters(), e.Body(), nil)
	case *parser.PlanDefinition:
		return refDef("plan", e.Name(), "", e.Parameters(), e.Body(), e.ReturnType())
	case *parser.FunctionDefinition:
		return refDef("function", e.Name(), "", e.Parameters(), e.Body(), e.ReturnType())
	case *parser.AttributeOperation:
		return pn.Call(e.Operator(), lit(e.Name()), refPN(e.Value()))
	case *parser.AttributesOperation:
		return one("splat-hash", e.Expr())
	case *parser.BlockExpression:
		return one("block", e.Statements()...)
	case *parser.CallFunctionExpression:
		return refCall(rv(e, "call-lambda", "invoke-lambda"), e)
	case *parser.CallMethodExpression:
		return refCall(rv(e, "call-method", "invoke-method"), e)
	case *parser.CallNamedFunctionExpression:
		return refCall(rv(e, "call", "invoke"), e)
	case *parser.CapabilityMapping:
		return pn.Call(e.Kind(), refPN(e.Component()), pn.List(append([]pn.PN{lit(e.Capability())}, all(e.Mappings())...)))
	case *parser.CaseExpression:
		return pn.Call("case", refPN(e.Test()), pn.List(all(e.Options())))
	case *parser.CaseOption:
		m.add("when", pn.List(all(e.Values())))
		m.add("then", stmts(e.Then()))
		return pn.Map(m)
	case *parser.CollectExpression:
		m.add("type", refPN(e.ResourceType()))
		m.add("query", refPN(e.Query()))
		if len(e.Operations()) > 0 {
			m.add("ops", pn.List(all(e.Operations())))
		}
		return m.call("collect")
	case *parser.ConcatenatedString:
		return one("concat", e.Segments()...)
	case *parser.EppExpression:
		if b, ok := e.Body().(*parser.BlockExpression); ok {
			return one("epp", b.Statements()...)
		}
		return nil
	case *parser.SiteDefinition:
		if b, ok := e.Body().(*parser.BlockExpression); ok {
			return one("site", b.Statements()...)
		}
		return nil
	case *parser.ExportedQuery:
		return query("exported-query", e.Expr())
	case *parser.VirtualQuery:
		return query("virtual-query", e.Expr())
	case *parser.HeredocExpression:
		if e.Syntax() != "" {
			m.add("syntax", lit(e.Syntax()))
		}
		m.add("text", refPN(e.Text()))
		return m.call("heredoc")
	case *parser.UnlessExpression:
		return cond("unless", e.Test(), e.Then(), e.Else())
	case *parser.IfExpression:
		return cond("if", e.Test(), e.Then(), e.Else())
	case *parser.KeyedEntry:
		return one("=>", e.Key(), e.Value())
	case *parser.SelectorEntry:
		return one("=>", e.Matching(), e.Value())
	case *parser.LambdaExpression:
		m.params(e.Parameters())
		if !isNil(e.ReturnType()) {
			m.add("returns", refPN(e.ReturnType()))
		}
		if !isNil(e.Body()) {
			m.add("body", stmts(e.Body()))
		}
		return m.call("lambda")
	case *parser.LiteralBoolean:
		return lit(e.Bool())
	case *parser.LiteralDefault:
		return pn.Call("default")
	case *parser.LiteralFloat:
		return lit(e.Float())
	case *parser.LiteralHash:
		return one("hash", e.Entries()...)
	case *parser.LiteralList:
		return one("array", e.Elements()...)
	case *parser.LiteralInteger:
		if e.Radix() == 10 {
			return lit(e.Int())
		}
		m.add("radix", lit(e.Radix()))
		m.add("value", lit(e.Int()))
		return m.call("int")
	case *parser.RenderStringExpression:
		return pn.Call("render-s", lit(e.StringValue()))
	case *parser.LiteralString:
		return lit(e.StringValue())
	case *parser.LiteralUndef:
		return lit(nil)
	case *parser.NodeDefinition:
		m.add("matches", pn.List(all(e.HostMatches())))
		if !isNil(e.Parent()) {
			m.add("parent", refPN(e.Parent()))
		}
		if !isNil(e.Body()) {
			m.add("body", stmts(e.Body()))
		}
		return m.call("node")
	case *parser.Nop:
		return pn.Call("nop")
	case *parser.NotExpression:
		return one("!", e.Expr())
	case *parser.Parameter:
		return paramFields(e, true).call("param")
	case *parser.ParenthesizedExpression:
		return one("paren", e.Expr())
	case *parser.Program:
		return refPN(e.Body())
	case *parser.QualifiedReference:
		return pn.Call("qr", lit(e.Name()))
	case *parser.QualifiedName:
		return pn.Call("qn", lit(e.Name()))
	case *parser.RegexpExpression:
		return pn.Call("regexp", lit(e.PatternString()))
	case *parser.RenderExpression:
		return one("render", e.Expr())
	case *parser.ReservedWord:
		return pn.Call("reserved", lit(e.Name()))
	case *parser.ResourceBody:
		m.add("title", refPN(e.Title()))
		m.add("ops", pn.List(all(e.Operations())))
		return m.call("resource-body")
	case *parser.ResourceDefaultsExpression:
		m.add("type", refPN(e.TypeRef()))
		m.add("ops", pn.List(all(e.Operations())))
		form(e.Form())
		return m.call("resource-defaults")
	case *parser.ResourceOverrideExpression:
		m.add("resources", refPN(e.Resources()))
		m.add("ops", pn.List(all(e.Operations())))
		form(e.Form())
		return m.call("resource-override")
	case *parser.ResourceExpression:
		m.add("type", refPN(e.TypeName()))
		var l []pn.PN
		for _, b := range e.Bodies() {
			var b2 ents
			rb, ok := b.(*parser.ResourceBody)
			if !ok {
				return nil
			}
			b2.add("title", refPN(rb.Title()))
			b2.add("ops", pn.List(all(rb.Operations())))
			l = append(l, pn.Map(b2))
		}
		m.add("bodies", pn.List(l))
		form(e.Form())
		return m.call("resource")
	case *parser.SelectorExpression:
		return pn.Call("?", refPN(e.Lhs()), pn.List(all(e.Selectors())))
	case *parser.StepExpression:
		m.add("name", lit(e.Name()))
		m.add("style", lit(string(e.Style())))
		if !isNil(e.Properties()) {
			m.add("properties", refPN(e.Properties()))
		}
		if !isNil(e.Definition()) {
			if d, ok := e.Definition().(parser.Expression); ok {
				m.add("definition", refPN(d))
			}
		}
		return m.call("step")
	case *parser.TextExpression:
		return one("str", e.Expr())
	case *parser.TypeAlias:
		return pn.Call("type-alias", lit(e.Name()), refPN(e.Type()))
	case *parser.TypeDefinition:
		return pn.Call("type-definition", lit(e.Name()), lit(e.Parent()), refPN(e.Body()))
	case *parser.TypeMapping:
		return one("type-mapping", e.Type(), e.Mapping())
	case *parser.UnaryMinusExpression:
		return one("-", e.Expr())
	case *parser.UnfoldExpression:
		return one("unfold", e.Expr())
	case *parser.VariableExpression:
		if i, ok := e.Index(); ok {
			return pn.Call("var", lit(i))
		}
		if n, ok := e.Name(); ok {
			return pn.Call("var", lit(n))
		}
		return nil
	}
	return nil
}

func oracleC22(r *run) {
	r.each(func(in Input) {
		e, err, crash := parse(in.Options, in.Source, in.Single)
		if crash != "" || err != nil || isNil(e) {
			return
		}
		var want pn.PN
		if guard(func() { want = refPN(e) }) != "" || want == nil {
			return
		}
		r.useful++
		var got string
		if guard(func() { got = pn.ToString(e.ToPN()) }) != "" {
			return // C06
		}
		if w := pn.ToString(want); got != w {
			// find the innermost expression that is wrong
			var bad parser.Expression
			walk(e, func(e parser.Expression) {
				guard(func() {
					if pn.ToString(e.ToPN()) != pn.ToString(refPN(e)) {
						bad = e
					}
				})
			})
			if bad == nil {
				r.failf(in, "the PN form is\n%s\nand should be\n%s", got, w)
				return
			}
			r.failf(in, "the PN form of %s at %d is\n%s\nand should be\n%s", kind(bad), bad.ByteOffset(), pn.ToString(bad.ToPN()), pn.ToString(refPN(bad)))
		}
	})
}
