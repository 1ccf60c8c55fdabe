package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"
)

var exprType = reflect.TypeOf((*parser.Expression)(nil)).Elem()
var exprsType = reflect.TypeOf([]parser.Expression(nil))
var defsType = reflect.TypeOf([]parser.Definition(nil))

// part is one field of an AST node.
type part struct {
	name  string
	expr  parser.Expression
	list  []parser.Expression
	isL   bool
	isE   bool
	value interface{}
}

func kind(e parser.Expression) string {
	if isNil(e) {
		return "nil"
	}
	return reflect.TypeOf(e).Elem().Name()
}

func isNil(e parser.Expression) bool {
	return e == nil || reflect.ValueOf(e).IsNil()
}

// parts reads the fields of a node, in declaration order, embedded structs flattened.
func parts(e parser.Expression) []part {
	v := reflect.ValueOf(e)
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return nil
	}
	var r []part
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			f := v.Field(i)
			f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			ft := t.Field(i)
			switch {
			case ft.Anonymous && ft.Type.Kind() == reflect.Struct:
				if ft.Name == "Positioned" {
					continue
				}
				rec(f)
			case ft.Type == exprType:
				x, _ := f.Interface().(parser.Expression)
				r = append(r, part{name: ft.Name, expr: x, isE: true})
			case ft.Type == exprsType:
				r = append(r, part{name: ft.Name, list: f.Interface().([]parser.Expression), isL: true})
			case ft.Type == defsType:
				continue
			default:
				switch f.Kind() {
				case reflect.String, reflect.Bool, reflect.Int, reflect.Int64, reflect.Float64:
					r = append(r, part{name: ft.Name, value: f.Interface()})
				}
			}
		}
	}
	rec(v.Elem())
	return r
}

func field(e parser.Expression, name string) part {
	for _, p := range parts(e) {
		if p.name == name {
			return p
		}
	}
	panic(internalError("no field " + name + " in " + kind(e)))
}

// children lists the directly contained expressions in the order in which they are to be visited.
func children(e parser.Expression) []parser.Expression {
	ps := parts(e)
	order := map[string][]string{
		"Parameter":          {"typeExpr", "value"},
		"FunctionDefinition": {"parameters", "returnType", "body"},
		"PlanDefinition":     {"parameters", "returnType", "body"},
	}[kind(e)]
	if order != nil {
		idx := map[string]int{}
		for i, n := range order {
			idx[n] = i + 1
		}
		sort.SliceStable(ps, func(i, j int) bool { return idx[ps[i].name] < idx[ps[j].name] })
	}
	switch kind(e) {
	case "QualifiedName", "QualifiedReference", "LiteralString", "RenderStringExpression":
		return nil
	}
	var r []parser.Expression
	for _, p := range ps {
		if p.isE && !isNil(p.expr) {
			r = append(r, p.expr)
		}
		if p.isL {
			r = append(r, p.list...)
		}
	}
	return r
}

// walk calls f for every node under e, each occurrence, containing nodes first.
func walk(e parser.Expression, f func(e parser.Expression)) {
	if isNil(e) {
		return
	}
	f(e)
	for _, c := range children(e) {
		walk(c, f)
	}
}

// dump writes a node with everything in it except the locator.
func dump(e parser.Expression) string {
	var b strings.Builder
	var rec func(e parser.Expression)
	rec = func(e parser.Expression) {
		if isNil(e) {
			b.WriteString("nil")
			return
		}
		fmt.Fprintf(&b, "(%s@%d+%d", kind(e), e.ByteOffset(), e.ByteLength())
		for _, p := range parts(e) {
			b.WriteString(" " + p.name + "=")
			switch {
			case p.isE:
				rec(p.expr)
			case p.isL:
				b.WriteString("[")
				for i, x := range p.list {
					if i > 0 {
						b.WriteString(" ")
					}
					rec(x)
				}
				b.WriteString("]")
			default:
				fmt.Fprintf(&b, "%#v", p.value)
			}
		}
		if p, ok := e.(*parser.Program); ok {
			b.WriteString(" defs=[")
			for _, d := range p.Definitions() {
				rec(d)
				b.WriteString(" ")
			}
			b.WriteString("]")
		}
		b.WriteString(")")
	}
	rec(e)
	return b.String()
}

func mkParser(opts []int) parser.ExpressionParser {
	var os []parser.Option
	for _, o := range opts {
		os = append(os, parser.Option(o))
	}
	return parser.CreateParser(os...)
}

// try parses and turns a panic into a string.
func try(p parser.ExpressionParser, src string, single bool) (e parser.Expression, err error, crash string) {
	defer func() {
		if r := recover(); r != nil {
			crash = fmt.Sprint(r)
		}
	}()
	e, err = p.Parse("file.pp", src, single)
	return
}

func parse(opts []int, src string, single bool) (parser.Expression, error, string) {
	return try(mkParser(opts), src, single)
}

func issueText(i issue.Reported) string {
	l := i.Location()
	if l == nil {
		return fmt.Sprintf("%s %s %s", i.Code(), i.Severity(), i.Error())
	}
	return fmt.Sprintf("%s %s %s:%d:%d %s", i.Code(), i.Severity(), l.File(), l.Line(), l.Pos(), i.Error())
}

func show(src, opts string) {
	var os []int
	for _, c := range opts {
		os = append(os, int(c-'0'))
	}
	e, err, crash := parse(os, src, false)
	fmt.Println("err:", err, "crash:", crash)
	if !isNil(e) {
		fmt.Println(dump(e))
		fmt.Println(e.ToPN())
	}
}
