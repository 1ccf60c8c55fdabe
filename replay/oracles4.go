package main

import (
	"fmt"
	"strings"

	"github.com/lyraproj/puppet-parser/parser"
)

func init() {
	oracles["C21"] = oracleC21
}

// refHeredoc is the value of a heredoc with this text, without interpolation.
func refHeredoc(text string, margin int, flags string, suppress bool) string {
	if suppress && text != "" {
		text = text[:len(text)-1]
		if strings.HasSuffix(text, "\r") {
			text = text[:len(text)-1]
		}
	}
	strip := func(s string) string {
		n := 0
		for n < margin && n < len(s) && (s[n] == ' ' || s[n] == '\t') {
			n++
		}
		if n == margin {
			return s[n:]
		}
		return s
	}
	var b strings.Builder
	s := strip(text)
	for s != "" {
		c := s[0]
		if c == '\\' && len(s) > 1 {
			if e := strings.IndexByte("rnts$\n", s[1]); e >= 0 && strings.IndexByte(flags, "rnts$L"[e]) >= 0 {
				b.WriteString([]string{"\r", "\n", "\t", " ", "$", ""}[e])
				if s[1] == '\n' {
					s = strip(s[2:])
				} else {
					s = s[2:]
				}
				continue
			}
			if s[1] == 'u' && strings.IndexByte(flags, 'u') >= 0 {
				var r rune
				fmt.Sscanf(s[2:6], "%x", &r)
				b.WriteRune(r)
				s = s[6:]
				continue
			}
			b.WriteString(s[:2])
			if s[1] == '\n' {
				s = strip(s[2:])
			} else {
				s = s[2:]
			}
			continue
		}
		b.WriteByte(c)
		s = s[1:]
		if c == '\n' {
			s = strip(s)
		}
	}
	return b.String()
}

func oracleC21(r *run) {
	g := &gen{Rand: r.rnd}
	type doc struct {
		head, text, end, tag, syntax, flags, value string
		quoted                                     bool
	}
	mk := func() doc {
		var d doc
		d.tag = g.pick("END", "X", "a b", "é", "E-D", "|Q", "LONGER TAG")
		d.quoted = g.p(30)
		d.syntax = g.pick("", "", "json", "pp")
		d.head = "@(" + d.tag
		if d.quoted {
			d.head = "@(\"" + d.tag + "\""
		}
		if d.syntax != "" {
			d.head += ":" + d.syntax
		}
		hasFlags := g.p(50)
		if hasFlags {
			for _, f := range "tnrsL$u" {
				if g.p(40) {
					d.flags += string(f)
				}
			}
			d.head += "/" + d.flags
		}
		d.head += ")"
		margin := g.Intn(4)
		pipe := g.p(50)
		minus := g.p(40)
		for i, n := 0, g.Intn(6); i < n; i++ {
			l := strings.Repeat(g.pick(" ", " ", "\t"), g.Intn(5))
			for k := g.Intn(5); k > 0; k-- {
				p := g.pick("abc", "é", " ", "\\n", "\\t", "\\r", "\\s", "\\$", "\\u00e9", "\\\\", "\\q", "\\'", "\"", "'", "#x", "/* y", "|", "-", "\U0001d11e", string([]rune(d.tag)[:1]), "@(Z)", "%", "x"+d.tag, d.tag+"x", "*/", "$a")
				if d.quoted && strings.Contains(p, "$") {
					p = "z"
				}
				l += p
			}
			if g.p(15) {
				l += "\\"
			} else if g.p(10) {
				l += "\r"
			}
			x := strings.Trim(l, " \t\r")
			x = strings.TrimPrefix(x, "|")
			x = strings.TrimLeft(x, " \t\r")
			x = strings.TrimPrefix(x, "-")
			x = strings.TrimLeft(x, " \t\r")
			if x == d.tag || strings.Trim(l, " \t\r") == d.tag {
				l += "."
			}
			d.text += l + "\n"
		}
		d.end = strings.Repeat(" ", margin)
		if pipe {
			d.end += "|" + g.pick("", " ")
		}
		if minus {
			d.end += "-" + g.pick("", " ")
		}
		if !pipe && !minus && strings.HasPrefix(d.tag, "|") {
			// a bar at the start of the tag is taken for the margin
			d.tag = ""
			return d
		}
		d.end += d.tag + g.pick("", " ", "\t")
		m := 0
		if pipe {
			m = margin
		}
		d.value = refHeredoc(d.text, m, d.flags, minus)
		return d
	}
	for !r.over() {
		n := 1
		if g.p(25) {
			n = 2
		}
		src := g.pick("$x = [", "[", "f(", "['é', ")
		closer := "]"
		if src == "f(" {
			closer = ")"
		}
		offs := []int{}
		var ds []doc
		for i := 0; i < n; i++ {
			d := mk()
			for d.tag == "" || strings.HasPrefix(d.tag, "|") {
				d = mk()
			}
			ds = append(ds, d)
			if i > 0 {
				src += ", "
			}
			offs = append(offs, len(src))
			src += d.head
		}
		after := closer
		if n == 1 && g.p(30) {
			after = ", 2" + closer
		}
		multi := g.p(20)
		if multi {
			after = ""
		}
		after += g.pick("", "", " # comment", " /* c */", " ")
		src += after + "\n"
		for _, d := range ds {
			src += d.text + d.end + "\n"
		}
		if multi {
			src += closer + "\n"
		}
		last := g.p(20) && !multi
		if last {
			src = src[:len(src)-1]
		} else {
			src += "$after_it = 17\n"
		}
		in := Input{Source: src}
		r.note(in)
		r.useful++
		e, err, crash := parse(nil, src, false)
		r.done()
		if crash != "" {
			continue // C03
		}
		if err != nil {
			r.failf(in, "the heredoc is rejected: %v", err)
			continue
		}
		found := 0
		walk(e, func(e parser.Expression) {
			h, ok := e.(*parser.HeredocExpression)
			if !ok {
				return
			}
			for i, o := range offs {
				if h.ByteOffset() != o {
					continue
				}
				found++
				t := h.Text()
				val, ok := "", false
				if s, is := t.(*parser.LiteralString); is {
					val, ok = s.StringValue(), true
				} else if c, is := t.(*parser.ConcatenatedString); is {
					ok = true
					for _, s := range c.Segments() {
						l, is := s.(*parser.LiteralString)
						if ok = ok && is; ok {
							val += l.StringValue()
						}
					}
				}
				if !ok || val != ds[i].value || h.Syntax() != ds[i].syntax {
					r.failf(in, "the heredoc at %d has the value %q with syntax %q and should have %q with syntax %q", o, val, h.Syntax(), ds[i].value, ds[i].syntax)
				}
			}
		})
		if found != len(ds) {
			r.failf(in, "%d of %d heredocs found: %s", found, len(ds), dump(e))
		}
		if b, ok := e.(*parser.Program).Body().(*parser.BlockExpression); ok {
			want := 2
			if last {
				want = 1
			}
			if len(b.Statements()) != want {
				r.failf(in, "%d statements and should be %d", len(b.Statements()), want)
			}
		}
	}
}
