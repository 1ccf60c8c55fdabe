package main

import (
	"fmt"
	"go/ast"
	goparser "go/parser"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/lyraproj/issue/issue"
)

// gen writes random Puppet source from the grammar.
type gen struct {
	*rand.Rand
	wf, tasks, epp bool
	after          []string // heredoc texts that must follow the current line
}

func (g *gen) pick(s ...string) string { return s[g.Intn(len(s))] }

func (g *gen) p(pct int) bool { return g.Intn(100) < pct }

// ws is optional white space.
func (g *gen) ws() string {
	switch g.Intn(12) {
	case 0:
		return ""
	case 1:
		return "  "
	case 2:
		return g.nl()
	case 3:
		return " /* c */ "
	case 4:
		return "\t"
	case 5:
		return " # x" + g.nl()
	}
	return " "
}

// nl ends a line, and lets pending heredoc texts follow it.
func (g *gen) nl() string {
	s := "\n" + strings.Join(g.after, "")
	g.after = nil
	return s
}

var lower = []string{"a", "b", "foo", "bar", "x1", "notify", "file", "my_name", "xyz"}
var calls = []string{"notice", "include", "require", "realize", "contain", "tag", "debug", "info", "warning", "err", "fail", "import", "break", "next", "return"}

func (g *gen) name() string {
	s := lower[g.Intn(len(lower))]
	if g.p(15) {
		s += "::" + lower[g.Intn(len(lower))]
	}
	if g.p(5) {
		s = "::" + s
	}
	return s
}

func (g *gen) simple() string { return lower[g.Intn(len(lower))] }

func (g *gen) typeName() string {
	return g.pick("Integer", "String", "Foo", "Foo::Bar", "Array", "Hash", "Resource", "Class", "Object", "TypeSet", "Runtime", "::Foo", "Struct")
}

func (g *gen) variable() string {
	return g.pick("$a", "$b", "$x", "$foo::bar", "$::z", "$1", "$0", "$a1_b", "$a::b", "$x", "$a", "$")
}

func (g *gen) number() string {
	switch g.Intn(9) {
	case 0:
		return "0"
	case 1:
		return fmt.Sprintf("0x%X", g.Intn(70000))
	case 2:
		return fmt.Sprintf("0%o", g.Intn(7000))
	case 3:
		return fmt.Sprintf("%d.%d", g.Intn(100), g.Intn(100))
	case 4:
		return fmt.Sprintf("%d.%de%d", g.Intn(100), g.Intn(100), g.Intn(20)-10)
	case 5:
		return fmt.Sprintf("%de-%d", g.Intn(100), g.Intn(20))
	case 6:
		return g.pick("9223372036854775807", "9223372036854775808", "0xffffffffffffffff", "1e400", "18446744073709551616", "0777777777777777777777", "1e-400")
	}
	return strconv.Itoa(g.Intn(1000))
}

func (g *gen) chars() string {
	var b strings.Builder
	for n := g.Intn(5); n > 0; n-- {
		b.WriteString(g.pick("a", "b c", "Z", "é", "𝄞", "#", "/", "%", "\n", ".", "-", "{", "}", "\ufffd", "|", "<%", "%>", ",", "[", "1"))
	}
	return b.String()
}

func (g *gen) sq() string {
	var b strings.Builder
	for n := g.Intn(4); n > 0; n-- {
		b.WriteString(g.pick(g.chars(), `\\`, `\'`, `\n`, `"`, `$a`, `\x`, `${a}`))
	}
	return "'" + strings.ReplaceAll(b.String(), "''", "") + "'"
}

func (g *gen) dq(d int) string {
	var b strings.Builder
	for n := g.Intn(5); n > 0; n-- {
		switch g.Intn(8) {
		case 0:
			b.WriteString(g.pick(`\n`, `\t`, `\s`, `\r`, `\\`, `\"`, `\'`, `\$`, `\q`, `\u0041`, `\u{1F600}`, `\uD800`, `\u{110000}`, `\x41`, `\xZ1`, `\u12`, `\é`))
		case 1:
			b.WriteString(g.pick("$a", "$::b", "$foo::bar", "$x ", "$1", "$", "$A"))
		case 2, 3:
			if d > 0 {
				save := g.after
				b.WriteString("${" + g.ws() + g.interpolated(d-1) + g.ws() + "}")
				g.after = save
			}
		case 4:
			b.WriteString("${" + g.pick("", " ", "\n") + "}" + g.pick("", "  ", "\n z"))
		default:
			b.WriteString(strings.ReplaceAll(g.chars(), `"`, ""))
		}
	}
	return `"` + b.String() + `"`
}

func (g *gen) interpolated(d int) string {
	switch g.Intn(7) {
	case 0:
		return g.name()
	case 1:
		return g.simple() + "[" + g.expr(d) + "]"
	case 2:
		return g.simple() + "." + g.simple()
	case 3:
		return g.simple() + "[1]." + g.simple() + "." + g.simple() + "(" + g.expr(d) + ")"
	case 4:
		return g.simple() + "." + g.simple() + " |$x| { $x }." + g.simple()
	}
	return g.expr(d)
}

// heredoc returns the tag, and puts the text where it will follow the next line end.
func (g *gen) heredoc(d int) string {
	tag := g.pick("E", "END", "a b", "é")
	q := ""
	dq := g.p(50)
	if dq {
		q = `"`
	} else if tag == "a b" && g.p(50) {
		tag = "E"
	}
	fl := ""
	if g.p(40) {
		fl = "/" + g.pick("", "t", "tn", "L", "n$", "trnsuL$", "u", "x")
	}
	sx := ""
	if g.p(25) {
		sx = ":" + g.pick("json", "pp", "x y")
	}
	var b strings.Builder
	ind := ""
	bar := g.p(50)
	if bar {
		ind = strings.Repeat(g.pick(" ", "\t"), g.Intn(3))
	}
	for n := g.Intn(4); n > 0; n-- {
		b.WriteString(g.pick(ind, ind, "", " "+ind))
		b.WriteString(g.pick("", "text", "- x", "| y", "|- z", "a\\nb", "\\t\\", "$x ", "\\$x", "-", "-E x", "E x", "\\u0041", "é𝄞", "#", "/*", "\"", "'"))
		if dq && d > 0 && g.p(30) {
			save := g.after
			b.WriteString("${" + g.interpolated(d-1) + "}")
			g.after = save
		}
		b.WriteString(g.pick("\n", "\n", "\r\n"))
	}
	b.WriteString(ind)
	if bar {
		b.WriteString("|" + g.pick("", " "))
	}
	if g.p(40) {
		b.WriteString("-" + g.pick("", " "))
	}
	b.WriteString(tag + g.pick("\n", "\n", "\n", " \n", ""))
	g.after = append(g.after, b.String())
	return "@(" + q + tag + q + sx + fl + ")"
}

func (g *gen) list(d, max int, f func(int) string) string {
	var s []string
	for n := g.Intn(max + 1); n > 0; n-- {
		s = append(s, g.ws()+f(d))
	}
	r := strings.Join(s, g.ws()+",")
	if len(s) > 0 && g.p(10) {
		r += ","
	}
	return r + g.ws()
}

func (g *gen) entry(d int) string {
	return g.pick("'k'", "k", "1", "type", "default", g.expr(d), "undef", "if") + g.ws() + "=>" + g.ws() + g.expr(d)
}

func (g *gen) arg(d int) string {
	if g.p(20) {
		return g.entry(d)
	}
	return g.expr(d)
}

var binops = []string{"+", "-", "*", "/", "%", "<<", ">>", "==", "!=", "<", "<=", ">", ">=", "=~", "!~", "and", "or", "in"}

func (g *gen) operand(d int) string {
	if g.p(15) {
		return "(" + g.ws() + g.expr(d) + g.ws() + ")"
	}
	return g.expr(d)
}

func (g *gen) expr(d int) string {
	if d <= 0 {
		return g.atom()
	}
	d--
	switch g.Intn(22) {
	case 0, 1, 2:
		return g.operand(d) + g.pick(" ", g.ws()) + binops[g.Intn(len(binops))] + g.pick(" ", g.ws()) + g.operand(d)
	case 3:
		return g.pick("!", "-", "*", "- ", "+1") + g.operand(d)
	case 4:
		return "[" + g.list(d, 3, g.arg) + "]"
	case 5:
		return "{" + g.list(d, 3, g.entry) + "}"
	case 6:
		return g.expr(d) + "[" + g.expr(d) + g.list(0, 1, func(int) string { return "" }) + "]"
	case 7:
		return g.call(d)
	case 8:
		return g.pick(g.atom(), g.variable(), "("+g.expr(d)+")") + "." + g.pick(g.simple(), "type") + g.pick("", "("+g.list(d, 2, g.arg)+")") + g.pick("", g.ws()+g.lambda(d))
	case 9:
		return g.expr(d) + g.ws() + "?" + g.ws() + "{" + g.list(d, 3, func(d int) string { return g.expr(d) + " => " + g.expr(d) }) + "}"
	case 10:
		return g.expr(d) + " ? " + g.atom() + " => " + g.atom()
	case 11:
		return g.dq(d)
	case 12:
		return g.heredoc(d)
	case 13:
		return g.ifx(d)
	case 14:
		return g.casex(d)
	case 15:
		return g.variable() + g.ws() + g.pick("=", "=", "+=", "-=") + g.ws() + g.expr(d)
	case 16:
		return g.typeName() + "[" + g.expr(d) + "]"
	case 17:
		return g.typeName() + g.ws() + g.pick("<|", "<<|") + g.ws() + g.pick("", g.expr(d)) + g.ws() + g.pick("|>", "|>>")
	}
	return g.atom()
}

func (g *gen) call(d int) string {
	s := g.pick(g.name(), calls[g.Intn(len(calls))], g.typeName(), "type") + g.pick("", "", " ") + "(" + g.list(d, 3, g.arg) + ")"
	if g.p(30) {
		s += g.ws() + g.lambda(d)
	}
	return s
}

func (g *gen) lambda(d int) string {
	r := ""
	if g.p(10) {
		r = " >> " + g.typeName()
	}
	return "|" + g.params(d, 2) + "|" + r + g.ws() + "{" + g.block(d-1, 2) + "}"
}

func (g *gen) params(d, max int) string {
	return g.list(d, max, func(d int) string {
		s := ""
		if g.p(40) {
			s = g.pick("Integer ", "Foo ", "String[1] ", "Array[Integer, 1] ")
		}
		if g.p(15) {
			s += "*"
		}
		s += g.pick("$a", "$b", "$c", "$d", "$name", "$title", "$x", "$a::b", "$", "$1", "$a1")
		if g.p(30) {
			s += g.ws() + "=" + g.ws() + g.expr(d)
		}
		return s
	})
}

func (g *gen) atom() string {
	switch g.Intn(13) {
	case 0, 1:
		return g.number()
	case 2, 3:
		return g.variable()
	case 4:
		return g.sq()
	case 5:
		return g.pick("true", "false", "undef", "default", "attr", "private")
	case 6:
		return g.typeName()
	case 7, 8:
		return g.name()
	case 9:
		return g.pick("/a.b/", "/\\/x/", "/[a-z]+/")
	case 10:
		return g.dq(0)
	case 11:
		if g.p(20) {
			return "`x\\y`"
		}
	}
	return g.pick("[]", "{}", "[1]", "a-b", "x--y1")
}

func (g *gen) ifx(d int) string {
	s := g.pick("if ", "unless ") + g.expr(d) + g.ws() + "{" + g.block(d-1, 2) + "}"
	if g.p(30) {
		s += g.ws() + "elsif " + g.expr(d) + " {" + g.block(d-1, 1) + "}"
	}
	if g.p(40) {
		s += g.ws() + "else" + g.ws() + "{" + g.block(d-1, 2) + "}"
	}
	return s
}

func (g *gen) casex(d int) string {
	s := "case " + g.expr(d) + " {"
	for n := 1 + g.Intn(3); n > 0; n-- {
		s += g.ws() + g.expr(d) + g.pick("", ", "+g.expr(d), ", default", ", 2 ,") + g.ws() + ":" + g.ws() + "{" + g.block(d-1, 2) + "}"
	}
	return s + g.ws() + "}"
}

func (g *gen) attrs(d int) string {
	return g.list(d, 3, func(d int) string {
		if g.p(10) {
			return "* => " + g.expr(d)
		}
		return g.pick("ensure", "mode", "type", "if", "default", "a", "notify") + g.ws() + g.pick("=>", "=>", "=>", "+>") + g.ws() + g.expr(d)
	})
}

func (g *gen) resource(d int) string {
	pre := g.pick("", "", "", "@", "@@")
	switch g.Intn(6) {
	case 0:
		return pre + g.typeName() + g.ws() + "{" + g.attrs(d) + "}"
	case 1:
		return pre + g.typeName() + "['x']" + g.ws() + "{" + g.attrs(d) + "}"
	case 2:
		return g.typeName() + g.pick("<|", "<<|") + g.pick("", g.expr(d)) + g.pick("|>", "|>>") + g.ws() + g.pick("", "{"+g.attrs(d)+"}")
	case 3:
		return calls[g.Intn(len(calls))] + g.ws() + "{" + g.list(d, 2, g.entry) + "}"
	}
	s := pre + g.pick(g.name(), "class", g.typeName()) + g.ws() + "{"
	for n := 1 + g.Intn(2); n > 0; n-- {
		s += g.ws() + g.expr(d) + g.ws() + ":" + g.attrs(d)
		if n > 1 || g.p(20) {
			s += ";"
		}
	}
	return s + g.ws() + "}"
}

func (g *gen) stmt(d int) string {
	switch g.Intn(24) {
	case 0, 1:
		return calls[g.Intn(len(calls))] + " " + g.expr(d)
	case 2:
		return calls[g.Intn(len(calls))] + " " + g.expr(d) + "," + g.ws() + g.expr(d)
	case 3:
		return calls[g.Intn(len(calls))] + g.pick("", "\n", ";")
	case 4, 5:
		return g.resource(d)
	case 6:
		return g.variable() + " = " + g.expr(d)
	case 7:
		return g.expr(d) + g.ws() + g.pick("->", "~>", "<-", "<~") + g.ws() + g.expr(d)
	case 8:
		return g.ifx(d)
	case 9:
		return g.casex(d)
	case 10:
		return g.call(d)
	case 11:
		if g.p(30) {
			return g.expr(d) + ", " + g.expr(d)
		}
	case 12, 13, 14:
		if d > 0 {
			return g.def(d - 1)
		}
	case 15:
		if g.wf {
			return g.step(d)
		}
	}
	return g.expr(d)
}

func (g *gen) def(d int) string {
	body := func() string { return g.ws() + "{" + g.block(d, 3) + "}" }
	ps := func() string {
		if g.p(30) {
			return ""
		}
		return g.ws() + "(" + g.params(1, 4) + ")"
	}
	ret := func() string {
		if g.p(25) {
			return " >> " + g.pick("Integer", "String[1]", "Produces", "Array[Integer, 2]")
		}
		return ""
	}
	switch g.Intn(11) {
	case 0, 1:
		return "class " + g.name() + ps() + g.pick("", " inherits "+g.name(), " inherits default") + body()
	case 2:
		return "define " + g.name() + ps() + body()
	case 3, 4:
		return "function " + g.name() + ps() + ret() + body()
	case 5:
		return "node " + g.pick("default", "'a.b'", "a.b.c", "/x/", "foo, bar", "1.2.3", "\"a${x}b\"", "x1.example.com,", "foo.2.3a", g.heredoc(1)) + g.pick("", " inherits default", " inherits 'x'") + body()
	case 6:
		return "type " + g.typeName() + " = " + g.pick(g.typeName(), "Integer[1,2]", "Object {a => 1}", "Foo {a => 1}", "{a => 1}", "[{a => 1}]", "Foo {a=>1}[1]", "[1,2]", g.expr(d))
	case 7:
		return g.pick("type Foo inherits Bar {", "type Foo {", "type Runtime[a, b] = Foo", "type Runtime[ruby, [/x/, 'y']] = [/a/, 'b']", "type Runtime[a,'b'] = Foo ") + "}"
	case 8:
		return "application " + g.name() + ps() + body()
	case 9:
		return "site " + body()
	}
	if g.tasks {
		return "plan " + g.name() + ps() + ret() + body()
	}
	return g.pick("Foo", "foo", "attr", "Foo[a]") + " " + g.pick("produces", "consumes") + " " + g.pick("Bar", "bar") + " {" + g.attrs(1) + "}"
}

func (g *gen) step(d int) string {
	st := g.pick("workflow", "action", "resource", "stateHandler")
	s := st + " " + g.pick(g.name(), "foo", "type") + g.ws() + "{" + g.list(d, 3, func(d int) string {
		switch g.Intn(4) {
		case 0:
			return "parameters" + g.ws() + "=>" + g.ws() + "(" + g.params(d, 2) + ")"
		case 1:
			return "returns => (" + g.list(d, 2, func(int) string {
				return g.pick("$a", "String $b", "Integer $c") + g.pick("", " = x", "=(x, y)", " = (type)")
			}) + ")"
		}
		return g.pick("typespace", "when", "style", "type") + " => " + g.expr(d)
	}) + "}"
	if g.p(25) {
		s += g.ws() + g.pick("", "$x = ", "$1 =", "$ = ") + g.pick("times(3)", "range(1, 2)", "each ($a)", "times ", "foo(1)", "each($a, $b)") + g.ws() + g.pick("|$i|", "|$k, $v|", "||", "|Integer $i|")
	}
	if st == "workflow" {
		if g.p(80) {
			s += g.ws() + "{"
			if d > 0 {
				for n := g.Intn(3); n > 0; n-- {
					s += g.ws() + g.pick(g.step(d-1), g.step(d-1), "function foo($a) { $a }")
				}
			}
			s += g.ws() + "}"
		}
		return s
	}
	if st == "resource" {
		return s + g.ws() + "{" + g.list(d, 3, func(d int) string {
			return g.pick("a", "type", "ensure") + " => " + g.pick("$x", "[$a, {b => $c}]", "foo($x)", "Foo($x, 1)", g.expr(d))
		}) + "}"
	}
	return s + g.ws() + "{" + g.block(d-1, 2) + "}"
}

func (g *gen) block(d, max int) string {
	if d < 0 {
		return g.pick("", " ", " 1 ", " $a ", "\n")
	}
	s := g.ws()
	for n := g.Intn(max + 1); n > 0; n-- {
		s += g.stmt(d) + g.pick(g.nl(), g.nl(), "; ", " ", g.ws())
	}
	return s
}

func (g *gen) program() string {
	s := g.ws()
	for n := g.Intn(4) + 1; n > 0; n-- {
		s += g.stmt(g.Intn(4)) + g.pick(g.nl(), g.nl(), g.nl(), ";", " ")
	}
	if len(g.after) > 0 {
		s += g.nl()
	}
	return s
}

func (g *gen) template() string {
	var b strings.Builder
	if g.p(40) {
		b.WriteString(g.pick("<%- |", "<%|", "x<%- |", "<%-|") + g.params(1, 3) + g.pick("| -%>\n", "|%>", "|-%>", "| %>\n"))
	}
	for n := g.Intn(6); n > 0; n-- {
		switch g.Intn(6) {
		case 0:
			b.WriteString(g.pick("<%= ", "<%=") + g.expr(2) + g.pick(" %>", " -%>\n", "%>"))
		case 1:
			b.WriteString(g.pick("<% ", "<%- ") + g.stmt(2) + g.pick(" %>", " -%> \n", "%>"))
		case 2:
			b.WriteString("<%# c " + g.pick("%>", "-%>", "%%>%>", ""))
		case 3:
			b.WriteString("<% if $x { %>" + g.chars() + "<% } %>")
		case 4:
			b.WriteString(g.pick("<%%", "%%>", "%", "<", "-%>"))
		default:
			b.WriteString(g.chars() + "\n")
		}
	}
	return b.String()
}

var corpus []string

func loadCorpus() {
	dir := repoDir()
	for _, f := range []string{"parser/parser_test.go", "parser/json_test.go", "validator/checker_test.go", "validator/tasks_checker_test.go", "validator/workflow_checker_test.go"} {
		src, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			continue
		}
		t, err := goparser.ParseFile(token.NewFileSet(), f, src, 0)
		if err != nil {
			continue
		}
		ast.Inspect(t, func(n ast.Node) bool {
			if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.STRING {
				s, err := strconv.Unquote(l.Value)
				if err == nil && len(s) > 3 && len(s) < 1500 {
					corpus = append(corpus, s)
					if u := issue.Unindent(s); u != s {
						corpus = append(corpus, u)
					}
				}
			}
			return true
		})
	}
}

func repoDir() string {
	if d := os.Getenv("REPLAY_REPO"); d != "" {
		return d
	}
	return "/repo"
}

var soup = append(strings.Fields("$a $::b 'x' \"y\" \"${ } { [ ] ( ) , ; : :: . ? => +> = += -= == != =~ !~ ! < <= > >= << >> <| |> <<| |>> -> ~> <- <~ @ @@ @(E) / /x/ * % %> <% -%> <%= <%# + - | and or in if else elsif unless case class define node inherits function plan type application site produces consumes private attr undef default true foo Foo notice include 1 0x1F 017 1.5 1e3 /*c*/ é ` \\ ~ ^ & workflow action resource times each returns parameters e -1 1-2 a-b 99999999999999999999 0x 08 1e 1.  .5 @(\"E\") E |- |"),
	"\n", "\n", " ", "\t", "#c\n", "\x00", "\xff", "\ufffd", "@(\"E\")\n |E\n", "@(E/L)\n a\n |- E\n")

// mutate changes a source a little.
func (g *gen) mutate(s string) string {
	for n := 1 + g.Intn(3); n > 0; n-- {
		if len(s) == 0 {
			return s
		}
		i := g.Intn(len(s) + 1)
		j := i + g.Intn(6)
		if j > len(s) {
			j = len(s)
		}
		switch g.Intn(7) {
		case 0:
			s = s[:i] + s[j:]
		case 1:
			s = s[:j] + s[i:]
		case 2:
			s = s[:i] + g.soup() + s[i:]
		case 3:
			s = s[:i] + g.soup() + s[j:]
		case 4:
			if len(corpus) > 0 {
				c := corpus[g.Intn(len(corpus))]
				a := g.Intn(len(c))
				b := a + g.Intn(20)
				if b > len(c) {
					b = len(c)
				}
				s = s[:i] + c[a:b] + s[i:]
			}
		case 5:
			s = s[:i]
		case 6:
			k := g.Intn(len(s) + 1)
			if k < i {
				i, k = k, i
			}
			if k-i < 30 {
				s = s[:k] + s[i:k] + s[k:]
			}
		}
	}
	return s
}

func (g *gen) soup() string {
	return soup[g.Intn(len(soup))]
}

// input is a random source with options.
func (r *run) input() Input {
	g := &gen{Rand: r.rnd}
	in := Input{Prop: r.prop}
	for o := 1; o <= 5; o++ {
		if g.p([]int{0, 25, 30, 35, 35, 12}[o]) {
			in.Options = append(in.Options, o)
			switch o {
			case 3:
				g.tasks = true
			case 4:
				g.wf = true
			case 5:
				g.epp = true
			}
		}
	}
	in.Single = g.p(8)
	src := func() string {
		if in.Single && g.p(80) {
			return g.expr(3)
		}
		if g.epp {
			return g.template()
		}
		return g.program()
	}
	switch k := g.Intn(20); {
	case k < 11:
		in.Source = src()
	case k < 14:
		in.Source = g.mutate(src())
	case k < 18 && len(corpus) > 0:
		in.Source = corpus[g.Intn(len(corpus))]
		if g.p(75) {
			in.Source = g.mutate(in.Source)
		}
	case k < 19:
		var b strings.Builder
		for n := g.Intn(12); n > 0; n-- {
			b.WriteString(g.soup() + g.pick("", " "))
		}
		in.Source = b.String()
	default:
		b := make([]byte, g.Intn(12))
		for i := range b {
			b[i] = rawBytes[g.Intn(len(rawBytes))]
		}
		in.Source = string(b)
	}
	if nesting(in.Source) > 8 {
		return r.input()
	}
	return in
}

// nesting estimates how often the parser would read the innermost part again.
func nesting(s string) int {
	d, m := 0, 0
	for _, c := range s {
		switch c {
		case '{', '[', '(':
			d++
			if d > m {
				m = d
			}
		case '}', ']', ')':
			d--
		}
	}
	return m
}

const rawBytes = "ab $\"'{}[]()@/\\\n\r\x00\xff\xc3é:<%>|-=0x1."
