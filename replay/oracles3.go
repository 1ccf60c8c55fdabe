package main

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/lyraproj/puppet-parser/parser"
)

func init() {
	oracles["C13"] = oracleC13
	oracles["C14"] = oracleC14
	oracles["C15"] = oracleC15
	oracles["C16"] = oracleC16
	oracles["C17"] = oracleC17
}

func digits(s string, set string) int {
	n := 0
	for n < len(s) && strings.IndexByte(set, s[n]) >= 0 {
		n++
	}
	return n
}

const dec, oct, hex = "0123456789", "01234567", "0123456789abcdefABCDEF"

// refNumber reads the numeric literal that s starts with. ok is false when s starts with a malformed one.
func refNumber(s string) (n int, i *big.Int, f float64, radix int, isFloat, ok bool) {
	letter := func(n int) bool {
		c, _ := utf8.DecodeRuneInString(s[n:])
		return n < len(s) && unicode.IsLetter(c)
	}
	integer := func(from, to, r int) {
		i, ok = new(big.Int).SetString(s[from:to], r)
		n, radix = to, r
		if ok {
			ok = i.IsInt64()
		}
	}
	if s[0] == '0' && len(s) > 1 && (s[1] == 'x' || s[1] == 'X') {
		k := 2 + digits(s[2:], hex)
		if k == 2 || letter(k) || k < len(s) && s[k] == '_' {
			return
		}
		integer(2, k, 16)
		return
	}
	k := digits(s, dec)
	if s[0] == '0' && k > 1 {
		if digits(s, oct) != k || letter(k) {
			return
		}
		integer(1, k, 8)
		return
	}
	exp := func() bool {
		if k < len(s) && (s[k] == 'e' || s[k] == 'E') {
			k++
			if k < len(s) && (s[k] == '+' || s[k] == '-') {
				k++
			}
			d := digits(s[k:], dec)
			k += d
			return d > 0
		}
		return true
	}
	if k < len(s) && (s[k] == '.' || s[k] == 'e' || s[k] == 'E') {
		isFloat = true
		if s[k] == '.' {
			d := digits(s[k+1:], dec)
			if d == 0 {
				return
			}
			k += 1 + d
		}
		if !exp() || letter(k) {
			return
		}
		if e := strings.IndexAny(s[:k]+"e", "eE"); strings.Trim(s[:e], "0.") == "" {
			return k, nil, 0, 10, true, true
		} else if e+1 < k && len(strings.TrimLeft(s[e+1:k], "+-0")) > 6 {
			return k, nil, 0, 10, true, s[e+1] == '-'
		}
		v, _, err := big.ParseFloat(s[:k], 10, 4000, big.ToNearestEven)
		if err != nil {
			return
		}
		f, _ = v.Float64()
		return k, nil, f, 10, true, !(f > 1.7976931348623157e308)
	}
	if letter(k) {
		return
	}
	integer(0, k, 10)
	return
}

func (g *gen) numeral() string {
	switch g.Intn(8) {
	case 0:
		return g.number()
	case 1:
		return g.pick("9223372036854775807", "9223372036854775808", "0x7fffffffffffffff", "0x8000000000000000", "0777777777777777777777", "01000000000000000000000", "1e308", "1.8e308", "1e-400", "123456789012345678901234567890", "0.1e999", "00", "000", "0xG", "0x", "08", "1_0", "1e", "1e+", "1.", "1.e5", "0.e1", "0x1.5", "1.5.5", "1e5e5", "1-2", "0-1", "1+1", "017-1", "0x1F-1", "1.5-2", "1.5+2", "1e5-2")
	}
	s := g.pick("", "", "0", "0x", "0X", "1", "9")
	set := "0123456789"
	if strings.HasPrefix(strings.ToLower(s), "0x") {
		set = hex
	}
	for n := g.Intn(22); n >= 0; n-- {
		s += string(set[g.Intn(len(set))])
	}
	if g.p(40) {
		s += "." + fmt.Sprint(g.Intn(100000))
	}
	if g.p(40) {
		s += g.pick("e", "E") + g.pick("", "+", "-") + g.pick("", "0") + fmt.Sprint(g.Intn(330))
	}
	if g.p(20) {
		b := []byte(s)
		b[g.Intn(len(b))] = "0123456789.eExXg_-+"[g.Intn(19)]
		s = string(b)
	}
	if s[0] < '0' || s[0] > '9' {
		s = "1" + s
	}
	return s
}

func oracleC13(r *run) {
	g := &gen{Rand: r.rnd}
	for !r.over() {
		num := g.numeral() + g.pick("", "", "", "é", " ", "-2", "+3", "-$a", "_", "a", "-", "+", ".", ".foo")
		n, i, f, radix, isFloat, ok := refNumber(num)
		pre, post := "", ""
		switch g.Intn(6) {
		case 0:
			pre, post = "$x = ", "\n"
		case 1:
			pre, post = "[é", "]"
			pre = "['é', "
		case 2:
			pre, post = "f(", ")"
		case 3:
			pre, post = "\"a${", "}\""
		case 4:
			pre, post = "$y+", ""
			// fully formed operand after an operator
		}
		in := Input{Source: pre + num + post}
		r.note(in)
		if ok {
			r.useful++
		}
		e, err, crash := parse(nil, in.Source, g.p(50) && pre != "$x = ")
		r.done()
		if crash != "" {
			continue // C03
		}
		if !ok {
			if err == nil {
				r.failf(in, "%q is not a numeric literal that can be represented but is accepted", num)
			}
			continue
		}
		rest := num[n:]
		if err != nil {
			if rest == "" || rest == " " || rest == "-2" || rest == "+3" || rest == "-$a" {
				r.failf(in, "the numeral in %q is rejected: %v", num, err)
			}
			continue
		}
		var found parser.Expression
		walk(e, func(e parser.Expression) {
			if k := kind(e); (k == "LiteralInteger" || k == "LiteralFloat") && e.ByteOffset() == len(pre) && found == nil {
				found = e
			}
		})
		if found == nil {
			r.failf(in, "no number at offset %d: %s", len(pre), dump(e))
			continue
		}
		if found.ByteLength() != n {
			r.failf(in, "the number covers %d bytes and should cover %d", found.ByteLength(), n)
		}
		switch x := found.(type) {
		case *parser.LiteralInteger:
			if isFloat || x.Int() != i.Int64() || x.Radix() != radix {
				r.failf(in, "the integer is %d with radix %d and should be %v with radix %d", x.Int(), x.Radix(), i, radix)
			}
		case *parser.LiteralFloat:
			if !isFloat || x.Float() != f {
				r.failf(in, "the float is %v and should be %v (%v)", x.Float(), f, i)
			}
		}
	}
}

// piece is a part of a string literal with what it denotes.
type piece struct{ src, val string }

func oracleC14(r *run) {
	g := &gen{Rand: r.rnd}
	plain := func(not string) piece {
		for {
			s := g.pick("a", "b", " ", "é", "\U0001d11e", "\n", "\t", "\ufffd", "\u0001", "#", "{", "}", "'", "\"", "/", "*", "@", "(", ")", "<", "%", ">", "0", "9", "u", "x", "\u2028", "\r")
			if !strings.ContainsAny(s, not) {
				return piece{s, s}
			}
		}
	}
	other := func(not string) rune {
		for {
			all := []rune("abcdefghijklmopqvwyzABCNRTSUX0123456789!#%&()*+,-./:;<=>?@[]^_`{|}~ é\n'\"\U0001d11en$sr")
			c := all[g.Intn(len(all))]
			if !strings.ContainsRune(not, c) {
				return c
			}
		}
	}
	hexd := func(n int) string {
		s := ""
		for ; n > 0; n-- {
			s += string(hex[g.Intn(len(hex))])
		}
		return s
	}
	for !r.over() {
		hexOn := g.p(40)
		backtick := g.p(30)
		var opts []int
		if hexOn {
			opts = append(opts, 2)
		}
		if backtick {
			opts = append(opts, 1)
		}
		q := g.pick("'", "\"", "\"")
		if backtick && g.p(30) {
			q = "`"
		}
		bad := false
		src, val := q, ""
		for n := g.Intn(9); n > 0 && !bad; n-- {
			var p piece
			switch {
			case q == "`":
				p = plain("`")
				if g.p(20) {
					p = piece{"\\", "\\"}
				}
				if g.p(10) {
					p = piece{"$", "$"}
				}
			case g.p(45):
				p = plain(q)
			case q == "'":
				switch g.Intn(4) {
				case 0:
					p = piece{"\\'", "'"}
				case 1:
					p = piece{"\\\\", "\\"}
				case 2:
					p = piece{"$", "$"}
				default:
					c := string(other("'\\"))
					p = piece{"\\" + c, "\\" + c}
				}
			default:
				switch g.Intn(12) {
				case 0:
					p = piece{"\\n", "\n"}
				case 1:
					p = piece{"\\r", "\r"}
				case 2:
					p = piece{"\\t", "\t"}
				case 3:
					p = piece{"\\s", " "}
				case 4:
					p = piece{"\\$", "$"}
				case 5:
					p = piece{"\\\"", "\""}
				case 6:
					p = piece{"\\\\", "\\"}
				case 7:
					p = piece{"\\'", "'"}
				case 8:
					h := hexd(4)
					var c int64
					fmt.Sscanf(h, "%x", &c)
					if bad = c >= 0xd800 && c <= 0xdfff; !bad {
						p = piece{"\\u" + h, string(rune(c))}
					} else {
						p = piece{"\\u" + h, ""}
					}
				case 9:
					h := hexd(1 + g.Intn(7))
					if g.p(50) {
						h = "0" + hexd(4)
					}
					var c int64
					fmt.Sscanf(h, "%x", &c)
					bad = len(h) < 2 || len(h) > 6 || c > 0x10ffff || c >= 0xd800 && c <= 0xdfff
					if bad {
						p = piece{"\\u{" + h + "}", ""}
					} else {
						p = piece{"\\u{" + h + "}", string(rune(c))}
					}
				case 10:
					h := hexd(2)
					if hexOn {
						var c int64
						fmt.Sscanf(h, "%x", &c)
						p = piece{"\\x" + h, string([]byte{byte(c)})}
					} else {
						p = piece{"\\x" + h, "\\x" + h}
					}
				default:
					if g.p(20) {
						bad = true
						p = piece{g.pick("\\u12g4", "\\ug123", "\\u{}", "\\u{12", "\\u{12g}", "\\u123\"", "\\u"), ""}
						if hexOn && g.p(50) {
							p = piece{g.pick("\\xg1", "\\x1g", "\\x", "\\x-1"), ""}
						}
						break
					}
					c := string(other("\"\\$'nrtsux"))
					p = piece{"\\" + c, "\\" + c}
				}
			}
			src += p.src
			val += p.val
		}
		src += q
		if !bad && g.p(5) {
			// without the end
			src = src[:len(src)-1]
			if strings.HasSuffix(src, "\\") && q == "`" || true {
				bad = true
			}
		}
		pre := g.pick("", "$x = ", "é() ", "[", "f(")
		post := map[string]string{"[": "]", "f(": ")"}[pre]
		if pre == "é() " {
			pre = "'é'\n"
		}
		if bad {
			post = g.pick(post, "")
		}
		in := Input{Source: pre + src + post, Options: opts}
		r.note(in)
		e, err, crash := parse(opts, in.Source, false)
		r.done()
		if crash != "" {
			continue // C03
		}
		if bad {
			// what follows may repair an unfinished escape, it cannot here
			if err == nil {
				r.failf(in, "the malformed or unterminated string %s is accepted", src)
			}
			continue
		}
		r.useful++
		if err != nil {
			r.failf(in, "the string %s is rejected: %v", src, err)
			continue
		}
		var found *parser.LiteralString
		walk(e, func(e parser.Expression) {
			if s, ok := e.(*parser.LiteralString); ok && e.ByteOffset() == len(pre) && found == nil {
				found = s
			}
		})
		if found == nil {
			r.failf(in, "no string at %d: %s", len(pre), dump(e))
		} else if found.StringValue() != val {
			r.failf(in, "the string %s is %q and should be %q", src, found.StringValue(), val)
		} else if found.ByteLength() != len(src) {
			r.failf(in, "the string %s covers %d bytes", src, found.ByteLength())
		}
	}
}

var operatorTable = []string{
	"=", "==", "=~", "=>", "+", "+=", "+>", "-", "-=", "->", "*", "%", "!", "!=", "!~", ">", ">=", ">>", "~>", "@", "@@",
	"<", "<=", "<<", "<<|", "<|", "<-", "<~", "|>", "|>>", ",", ";", ".", "?", ":", "{", "}", "[", "]", ")",
}

// oracleC15 reads sequences of operators.
func oracleC15(r *run) {
	g := &gen{Rand: r.rnd}
	lex := func(src string) (ids []int, pos []int, crash string) {
		l := parser.NewSimpleLexer("file.pp", src)
		p, ok := l.(interface{ CurrentToken() int })
		if !ok {
			panic(internalError("lexer"))
		}
		crash = guard(func() {
			for i := 0; i < 200; i++ {
				ids = append(ids, l.NextToken())
				if p.CurrentToken() == 0 {
					return
				}
			}
		})
		return
	}
	// every operator alone has a token of its own
	ids := map[string]int{}
	owner := map[int]string{}
	bareBar := 0
	for _, op := range operatorTable {
		in := Input{Source: "x " + op}
		r.note(in)
		t, _, c := lex(in.Source)
		if c != "" || len(t) != 3 || t[2] != 0 {
			r.failf(in, "reading a name and the operator %s gives the tokens %v %s", op, t, c)
			return
		}
		ids[op] = t[1]
		if o, ok := owner[t[1]]; ok {
			r.failf(in, "the operators %s and %s are the same token", o, op)
			return
		}
		owner[t[1]] = op
	}
	name, _, _ := lex("x")
	numb, _, _ := lex("1")
	if len(name) != 2 || len(numb) != 2 {
		r.failf(Input{Source: "x"}, "a name is read as %v and a number as %v", name, numb)
		return
	}
	_ = bareBar
	alone := func(op string) (int, bool) {
		id, ok := ids[op]
		return id, ok
	}
	longest := func(s string) string {
		best := ""
		for _, op := range operatorTable {
			if len(op) > len(best) && strings.HasPrefix(s, op) {
				best = op
			}
		}
		return best
	}
	for !r.over() {
		s := ""
		for n := 1 + g.Intn(6); n > 0; n-- {
			s += operatorTable[g.Intn(len(operatorTable))]
			if g.p(40) {
				s += g.pick(" ", "x", "1", "\n", " x ")
			}
		}
		if g.p(15) {
			k := g.Intn(len(s) + 1)
			s = s[:k] + g.pick("~", "\\", "^", "é", "`", "&", "\x01", "_", "\ufffd", "\x7f") + s[k:]
		}
		// reference
		var want []int
		fails, skip := false, false
		qmark := false
		for i := 0; i < len(s) && !fails && !skip; {
			c := s[i]
			switch {
			case c == ' ' || c == '\n':
				i++
				continue
			case c == 'x':
				n := i + digits(s[i:], "x1_")
				if n < len(s) && s[n] == ':' && n+1 < len(s) && s[n+1] == ':' || n < len(s) && s[n] == '-' && n+1 < len(s) && strings.IndexByte("x1_-", s[n+1]) >= 0 {
					skip = true
					continue
				}
				want = append(want, name[0])
				i = n
				qmark = false
			case c == '1':
				n := i + digits(s[i:], "1")
				if n < len(s) && s[n] == '.' || n < len(s) && (s[n] == 'x' || s[n] >= 0x80) {
					skip = true
					continue
				}
				want = append(want, numb[0])
				i = n
				qmark = false
			case strings.HasPrefix(s[i:], "::"):
				skip = true
			case c == '|' && !strings.HasPrefix(s[i:], "|>"):
				skip = true
			case strings.HasPrefix(s[i:], "@("):
				skip = true
			default:
				op := longest(s[i:])
				if op == "" {
					fails = true
					continue
				}
				id, _ := alone(op)
				if op == "{" && qmark {
					id = -1
				}
				if op == "[" {
					id = -2
				}
				want = append(want, id)
				qmark = op == "?"
				i += len(op)
			}
		}
		if skip {
			continue
		}
		in := Input{Source: s}
		r.note(in)
		r.useful++
		got, _, crash := lex(s)
		r.done()
		if fails {
			if crash == "" {
				r.failf(in, "%q contains a character that starts no token and is read as %v", s, got)
			}
			continue
		}
		if crash != "" {
			r.failf(in, "%q is rejected: %s", s, crash)
			continue
		}
		ok := len(got) == len(want)+1 && got[len(got)-1] == 0
		for i := 0; ok && i < len(want); i++ {
			switch want[i] {
			case -1: // a brace after a question mark
				_, clash := owner[got[i]]
				ok = !clash
			case -2: // a bracket, with or without space before it
				o, known := owner[got[i]]
				ok = !known || o == "["
			default:
				ok = got[i] == want[i]
			}
		}
		if !ok {
			r.failf(in, "%q is read as %v and should be %v", s, got, want)
		}
	}
}

type binop struct {
	op    string
	level int
	kind  string
}

var operatorLevels = []binop{
	{"in", 0, "InExpression"}, {"=~", 1, "MatchExpression"}, {"!~", 1, "MatchExpression"},
	{"*", 2, "ArithmeticExpression"}, {"/", 2, "ArithmeticExpression"}, {"%", 2, "ArithmeticExpression"},
	{"+", 3, "ArithmeticExpression"}, {"-", 3, "ArithmeticExpression"}, {"<<", 4, "ArithmeticExpression"}, {">>", 4, "ArithmeticExpression"},
	{"==", 5, "ComparisonExpression"}, {"!=", 5, "ComparisonExpression"},
	{"<", 6, "ComparisonExpression"}, {"<=", 6, "ComparisonExpression"}, {">", 6, "ComparisonExpression"}, {">=", 6, "ComparisonExpression"},
	{"and", 7, "AndExpression"}, {"or", 8, "OrExpression"}, {"?", 9, "SelectorExpression"},
	{"=", 10, "AssignmentExpression"}, {"+=", 10, "AssignmentExpression"}, {"-=", 10, "AssignmentExpression"},
	{"->", 11, "RelationshipExpression"}, {"~>", 11, "RelationshipExpression"}, {"<-", 11, "RelationshipExpression"}, {"<~", 11, "RelationshipExpression"},
}

type opTree struct {
	o    *binop
	l, r *opTree
	atom string
	par  bool // in parentheses
}

func (t *opTree) level() int {
	if t.par || t.o == nil {
		return -1
	}
	return t.o.level
}

func (g *gen) opTree(d int) *opTree {
	if d == 0 || g.p(15) {
		return &opTree{atom: g.pick("$a", "$b", "1", "'s'", "$c", "x()")}
	}
	o := &operatorLevels[g.Intn(len(operatorLevels))]
	t := &opTree{o: o, l: g.opTree(d - 1), r: g.opTree(d - 1), par: g.p(10)}
	if o.op == "?" {
		t.r = &opTree{atom: "{ 1 => 2 }"}
	}
	// parentheses where needed
	lmax, rmax := o.level, o.level-1
	if o.level == 10 {
		lmax, rmax = 9, 10
	}
	if t.l.level() > lmax {
		t.l.par = true
	}
	if t.r.level() > rmax {
		t.r.par = true
	}
	return t
}

func (t *opTree) src(g *gen) string {
	if t.o == nil {
		return t.atom
	}
	sp := g.pick(" ", " ", "\n", "  ")
	s := t.l.src(g) + sp + t.o.op + g.pick(" ", " ", "\n") + t.r.src(g)
	if t.par {
		return "(" + s + ")"
	}
	return s
}

func (t *opTree) want() string {
	if t.o == nil {
		return map[byte]string{'$': "VariableExpression", '1': "LiteralInteger", '\'': "LiteralString", 'x': "CallNamedFunctionExpression", '{': "{}"}[t.atom[0]]
	}
	s := "(" + t.o.kind + " " + t.o.op + " " + t.l.want() + " " + t.r.want() + ")"
	if t.o.op == "?" {
		s = "(" + t.o.kind + " " + t.l.want() + ")"
	}
	if t.par {
		return "[" + s + "]"
	}
	return s
}

func opShape(e parser.Expression) string {
	k := kind(e)
	if p, ok := e.(*parser.ParenthesizedExpression); ok {
		return "[" + opShape(p.Expr()) + "]"
	}
	if s, ok := e.(*parser.SelectorExpression); ok {
		return "(" + k + " " + opShape(s.Lhs()) + ")"
	}
	if b, ok := e.(parser.BinaryExpression); ok {
		op := map[string]string{"InExpression": "in", "AndExpression": "and", "OrExpression": "or"}[k]
		if op == "" {
			if o, ok := e.(interface{ Operator() string }); ok {
				op = o.Operator()
			}
		}
		return "(" + k + " " + op + " " + opShape(b.Lhs()) + " " + opShape(b.Rhs()) + ")"
	}
	return k
}

func oracleC16(r *run) {
	g := &gen{Rand: r.rnd}
	for !r.over() {
		t := g.opTree(1 + g.Intn(5))
		for t.o == nil {
			t = g.opTree(3)
		}
		src := t.src(g)
		if t.par {
			src = " " + src
		}
		pre, post := "", ""
		if g.p(30) {
			pre, post = "[", "]"
		}
		in := Input{Source: pre + src + post, Single: true}
		r.note(in)
		r.useful++
		e, err, crash := parse(nil, in.Source, true)
		r.done()
		if crash != "" {
			continue // C03
		}
		if err != nil {
			r.failf(in, "the expression is rejected: %v", err)
			continue
		}
		if p, ok := e.(*parser.Program); ok {
			e = p.Body()
		}
		if pre != "" {
			c := children(e)
			if kind(e) != "LiteralList" || len(c) != 1 {
				r.failf(in, "no list of one element: %s", dump(e))
				continue
			}
			e = c[0]
		}
		if got, want := opShape(e), t.want(); got != want {
			r.failf(in, "the operators are grouped as %s and should be %s", got, want)
		}
	}
}

// shape is dump without positions.
func shape(e parser.Expression, top bool) string {
	if isNil(e) {
		return "nil"
	}
	var b strings.Builder
	b.WriteString("(" + kind(e))
	isBlock := kind(e) == "BlockExpression"
	for _, p := range parts(e) {
		if p.name == "rvalRequired" {
			if top {
				b.WriteString(" statement")
			}
			continue
		}
		b.WriteString(" ")
		switch {
		case p.isE:
			b.WriteString(shape(p.expr, false))
		case p.isL:
			b.WriteString("[")
			for i, x := range p.list {
				if i > 0 {
					b.WriteString(" ")
				}
				b.WriteString(shape(x, isBlock))
			}
			b.WriteString("]")
		default:
			fmt.Fprintf(&b, "%s=%#v", p.name, p.value)
		}
	}
	b.WriteString(")")
	return b.String()
}

var statementNames = []string{"require", "realize", "include", "contain", "tag", "debug", "info", "notice", "warning", "err", "fail", "import", "break", "next", "return"}

func body(src string) ([]parser.Expression, error) {
	e, err, crash := parse(nil, src, false)
	if err != nil || crash != "" {
		return nil, fmt.Errorf("%v %s", err, crash)
	}
	if p, ok := e.(*parser.Program); ok {
		e = p.Body()
	}
	b, ok := e.(*parser.BlockExpression)
	if !ok {
		return nil, fmt.Errorf("no block")
	}
	return b.Statements(), nil
}

func oracleC17(r *run) {
	g := &gen{Rand: r.rnd}
	one := func() string {
		switch g.Intn(12) {
		case 0, 1, 2, 3:
			return statementNames[g.Intn(len(statementNames))]
		case 4:
			return g.pick("foo", "bar", "noticed", "includes", "a::notice", "foo::bar")
		case 5:
			return g.pick("$a = 1", "$b", "'x'", "\"y${1}\"", "3", "Foo['x']", "undef", "Foo", "true", "$a + 1", "$x -> $y")
		case 6:
			return g.pick("foo(1)", "bar()", "notice(1)", "$a.foo", "foo(notice(2))", "notice('x').bar", "notice.foo", "notice[1]", "notice + 1")
		case 7:
			return g.pick("if $x { notice 1 }", "unless $x { foo }", "case $x { 1: { notice 'x' } }")
		case 8:
			return "foo(1) |$x| { notice $x }"
		case 9:
			return "['a', 'b']"
		default:
			s := ""
			for i, n := 0, 2+g.Intn(2); i < n; i++ {
				if i > 0 {
					s += ", "
				}
				s += g.pick("$a", "1", "'x'", "foo(2)", "bar", "notice", "['q']", "$a.b", "notice(3)")
			}
			return s
		}
	}
	type st struct {
		src  string
		expr parser.Expression // of a single statement
		list []parser.Expression
		name bool
	}
	for !r.over() {
		var ss []st
		for i, n := 0, 1+g.Intn(6); i < n; i++ {
			s := st{src: one()}
			for _, n := range statementNames {
				s.name = s.name || n == s.src
			}
			b, err := body(s.src)
			if err == nil && len(b) == 1 {
				s.expr = b[0]
			} else {
				// a list with brackets around it has the same elements
				l, err := body("[" + s.src + "]")
				if err != nil || len(l) != 1 || kind(l[0]) != "LiteralList" {
					continue
				}
				s.list = children(l[0])
			}
			ss = append(ss, s)
		}
		if len(ss) == 0 {
			continue
		}
		src := ""
		for i, s := range ss {
			if i > 0 {
				src += g.pick("\n", "\n", ";\n", ";\n")
			}
			src += s.src
		}
		wrap := g.Intn(6)
		full := src
		switch wrap {
		case 1:
			full = "if $cond {\n" + src + "\n}"
		case 2:
			full = "class c {\n" + src + "\n}"
		case 3:
			full = "f() |$p| {\n" + src + "\n}"
		case 4:
			full = "node default {\n" + src + "}"
		case 5:
			full = "function f() {" + src + "}"
		}
		in := Input{Source: full}
		r.note(in)
		e, err, crash := parse(nil, full, false)
		r.done()
		if crash != "" {
			continue // C03
		}
		// reference
		var want []string
		bad := false
		r.useful++
		for i := 0; i < len(ss); i++ {
			s := ss[i]
			if s.name && i+1 < len(ss) {
				args := ss[i+1].list
				if args == nil {
					args = []parser.Expression{ss[i+1].expr}
				}
				w := s.src
				for _, a := range args {
					w += " " + shape(a, false)
				}
				want = append(want, "call "+w)
				i++
				continue
			}
			if s.list != nil {
				bad = true
				break
			}
			want = append(want, shape(s.expr, true))
		}
		if bad {
			if err == nil {
				r.failf(in, "a list of statements that is no list of arguments is accepted")
			}
			continue
		}
		if err != nil {
			r.failf(in, "the statements are rejected: %v", err)
			continue
		}
		if p, ok := e.(*parser.Program); ok {
			e = p.Body()
		}
		blk, ok := e.(*parser.BlockExpression)
		if wrap > 0 && ok && len(blk.Statements()) == 1 {
			var inner *parser.BlockExpression
			walk(blk.Statements()[0], func(e parser.Expression) {
				if b, ok := e.(*parser.BlockExpression); ok && inner == nil {
					inner = b
				}
			})
			blk, ok = inner, inner != nil
		}
		if !ok {
			r.failf(in, "there is no block of statements: %s", dump(e))
			continue
		}
		var got []string
		for i, x := range blk.Statements() {
			w := shape(x, true)
			if c, ok := x.(*parser.CallNamedFunctionExpression); ok && i < len(want) && strings.HasPrefix(want[i], "call ") {
				q, _ := c.Functor().(*parser.QualifiedName)
				if q != nil && isNil(c.Lambda()) {
					w = "call " + q.Name()
					for _, a := range c.Arguments() {
						w += " " + shape(a, false)
					}
					if c.RvalRequired() {
						w += " with its value required"
					}
				}
			}
			got = append(got, w)
		}
		if !reflect.DeepEqual(got, want) {
			r.failf(in, "the statements are\n%s\nand should be\n%s", strings.Join(got, "\n"), strings.Join(want, "\n"))
		}
	}
}
