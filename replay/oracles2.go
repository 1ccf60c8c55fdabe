package main

import (
	"fmt"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/validator"
)

func init() {
	oracles["C07"] = oracleC07
	oracles["C08"] = oracleC08
}

// rec is a checker that records what it is asked to examine.
type rec struct {
	validator.Checker
	seen []parser.Expression
	bad  string
}

func (c *rec) Validate(e parser.Expression) {
	c.seen = append(c.seen, e)
	before := c.Issues()
	c.Checker.Validate(e)
	after := c.Issues()
	if len(after) < len(before) {
		c.bad = fmt.Sprintf("examining %s removes an issue", kind(e))
		return
	}
	for i := range before {
		if before[i] != after[i] {
			c.bad = fmt.Sprintf("examining %s changes an earlier issue", kind(e))
		}
	}
}

type accepting interface {
	Demote(code issue.Code, severity issue.Severity)
	Accept(code issue.Code, e parser.Expression, args issue.H)
	Clear()
	Issues() []issue.Reported
}

func checkers() map[string]func() validator.Checker {
	return map[string]func() validator.Checker{
		"off":      func() validator.Checker { return validator.NewChecker(validator.StrictOff) },
		"warning":  func() validator.Checker { return validator.NewChecker(validator.StrictWarning) },
		"error":    func() validator.Checker { return validator.NewChecker(validator.StrictError) },
		"tasks":    func() validator.Checker { return validator.NewTasksChecker() },
		"workflow": func() validator.Checker { return validator.NewWorkflowChecker() },
	}
}

var checkerNames = []string{"off", "warning", "error", "tasks", "workflow"}

func issueTexts(is []issue.Reported) []string {
	r := []string{}
	for _, i := range is {
		r = append(r, issueText(i))
	}
	return r
}

var softCodes = []issue.Code{validator.ValidateDuplicateKey, validator.ValidateFutureReservedWord, validator.ValidateIdemExpressionNotLast}
var hardCodes = []issue.Code{validator.ValidateDuplicateParameter, validator.ValidateNotTopLevel, validator.ValidateReservedWord, validator.ValidateNotRvalue,
	validator.ValidateDuplicateDefault, validator.ValidateIllegalAssignmentContext, validator.ValidateReservedParameter, validator.ValidateCapturesRestNotLast}
var allSeverities = []issue.Severity{issue.SeverityIgnore, issue.SeverityDeprecation, issue.SeverityWarning, issue.SeverityError}

// accounting runs a random history of demotions and issues against a model.
func (r *run) accounting(in Input, e parser.Expression) {
	g := &gen{Rand: r.rnd}
	n := checkerNames[g.Intn(len(checkerNames))]
	v, ok := checkers()[n]().(accepting)
	if !ok {
		panic(internalError("no Demote and Accept"))
	}
	sev := map[issue.Code]issue.Severity{}
	strict := map[string]issue.Severity{"off": issue.SeverityIgnore, "warning": issue.SeverityWarning}
	s, ok := strict[n]
	if !ok {
		s = issue.SeverityError
	}
	sev[validator.ValidateFutureReservedWord] = issue.SeverityDeprecation
	sev[validator.ValidateDuplicateKey] = s
	sev[validator.ValidateIdemExpressionNotLast] = s
	type ev struct {
		code issue.Code
		sev  issue.Severity
	}
	var want []ev
	hist := n + ":"
	for i := g.Intn(25); i > 0; i-- {
		code := softCodes[g.Intn(len(softCodes))]
		hard := g.p(30)
		if hard {
			code = hardCodes[g.Intn(len(hardCodes))]
		}
		switch k := g.Intn(10); {
		case k < 3:
			to := allSeverities[g.Intn(len(allSeverities))]
			hist += fmt.Sprintf(" demote %s to %s;", code, to)
			c := guard(func() { v.Demote(code, to) })
			if hard && c == "" {
				r.failf(in, "%s: the hard issue %s was given another severity", hist, code)
			} else if !hard && c != "" {
				r.failf(in, "%s: the issue %s is demotable but: %s", hist, code, c)
			}
			if !hard {
				sev[code] = to
			}
		case k < 9:
			hist += fmt.Sprintf(" accept %s;", code)
			v.Accept(code, e, issue.H{"param": "p", "name": "n", "container": e, "word": "w", "key": "k", "expression": e, "value": e})
			s, ok := sev[code]
			if !ok {
				s = issue.SeverityError
			}
			if s != issue.SeverityIgnore {
				want = append(want, ev{code, s})
			}
		default:
			hist += " clear;"
			v.Clear()
			want = nil
		}
		got := v.Issues()
		same := len(got) == len(want)
		for i := 0; same && i < len(got); i++ {
			same = got[i].Code() == want[i].code && got[i].Severity() == want[i].sev
		}
		if !same {
			r.failf(in, "%s: the issues are %v and should be %v", hist, issueTexts(got), want)
			return
		}
	}
}

func oracleC07(r *run) {
	r.each(func(in Input) {
		p := mkParser(in.Options)
		e, err, crash := try(p, in.Source, false)
		if crash != "" {
			return
		}
		for _, n := range checkerNames {
			var x parser.Expression
			var res issue.Result
			c := guard(func() { x, res = validator.NewParserValidator(mkParser(in.Options), checkers()[n]()).Parse("file.pp", in.Source) })
			if err != nil {
				i, ok := err.(issue.Reported)
				if !ok {
					continue
				}
				if c != "" || !isNil(x) || res == nil || len(res.Issues()) != 1 || issueText(res.Issues()[0]) != issueText(i) {
					r.failf(in, "parse and validate of a source with the error %s gives %v, %v %s", issueText(i), x, res, c)
				}
				continue
			}
			if c != "" {
				continue // C06
			}
			v := checkers()[n]()
			validator.Validate(v, e)
			a := v.Issues()
			if isNil(x) || dump(x) != dump(e) {
				r.failf(in, "parse and validate does not return the expression")
			}
			if (res == nil) != (len(a) == 0) {
				r.failf(in, "%d issues and the result is %v", len(a), res)
			} else if res != nil && fmt.Sprint(issueTexts(res.Issues())) != fmt.Sprint(issueTexts(a)) {
				r.failf(in, "the result has the issues %v and the validator %v", issueTexts(res.Issues()), issueTexts(a))
			}
		}
		if err != nil || isNil(e) {
			return
		}
		r.useful++
		by := map[string][]issue.Reported{}
		for _, n := range checkerNames {
			w := &rec{Checker: checkers()[n]()}
			if guard(func() { validator.Validate(w, e) }) != "" {
				return // C06
			}
			if w.bad != "" {
				r.failf(in, "%s validator: %s", n, w.bad)
			}
			var all []parser.Expression
			walk(e, func(e parser.Expression) { all = append(all, e) })
			same := len(all) == len(w.seen)
			for i := 0; same && i < len(all); i++ {
				same = all[i] == w.seen[i]
			}
			if !same {
				r.failf(in, "%s validator: examined %d expressions, contained are %d", n, len(w.seen), len(all))
			}
			first := issueTexts(w.Issues())
			w.seen = nil
			validator.Validate(w, e)
			if second := issueTexts(w.Issues()); fmt.Sprint(first) != fmt.Sprint(second) {
				r.failf(in, "%s validator: the second time the issues are %v and the first time they were %v", n, second, first)
			}
			by[n] = w.Issues()
		}
		soft := func(i issue.Reported) bool {
			return i.Code() == validator.ValidateDuplicateKey || i.Code() == validator.ValidateIdemExpressionNotLast
		}
		full := by["error"]
		for _, n := range []string{"off", "warning", "error"} {
			var want []string
			for _, i := range full {
				s := issue.SeverityError
				if soft(i) {
					if n == "off" {
						continue
					}
					if n == "warning" {
						s = issue.SeverityWarning
					}
				}
				if i.Code() == validator.ValidateFutureReservedWord {
					s = issue.SeverityDeprecation
				}
				want = append(want, fmt.Sprintf("%s %s %d:%d", i.Code(), s, i.Location().Line(), i.Location().Pos()))
			}
			var got []string
			for _, i := range by[n] {
				got = append(got, fmt.Sprintf("%s %s %d:%d", i.Code(), i.Severity(), i.Location().Line(), i.Location().Pos()))
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				r.failf(in, "strictness %s: the issues are %v and should be %v", n, got, want)
			}
		}
		for _, n := range []string{"tasks", "workflow"} {
			for _, i := range by[n] {
				want := issue.SeverityError
				if i.Code() == validator.ValidateFutureReservedWord {
					want = issue.SeverityDeprecation
				}
				if i.Severity() != want {
					r.failf(in, "%s validator: %s", n, issueText(i))
				}
			}
		}
		r.accounting(in, e)
	})
}

// at tells where an issue about an expression is.
func at(code issue.Code, e parser.Expression) string {
	l := issue.NewReported(code, issue.SeverityError, issue.H{}, e).Location()
	return fmt.Sprintf("%s %d:%d", code, l.Line(), l.Pos())
}

// parameterIssues lists what is wrong with the parameter lists under e.
func parameterIssues(e parser.Expression, puppet bool) map[string]int {
	want := map[string]int{}
	list := func(owner parser.Expression, ps []parser.Expression, dup, last, none, reserved bool) {
		seen := map[string]bool{}
		for i, x := range ps {
			p, ok := x.(*parser.Parameter)
			if !ok {
				continue
			}
			if dup && seen[p.Name()] {
				want[at(validator.ValidateDuplicateParameter, p)]++
			}
			seen[p.Name()] = true
			if p.CapturesRest() {
				if last && i < len(ps)-1 {
					want[at(validator.ValidateCapturesRestNotLast, p)]++
				}
				if none {
					want[at(validator.ValidateCapturesRestNotSupported, p)]++
				}
			}
			if reserved && (p.Name() == "name" || p.Name() == "title") {
				want[at(validator.ValidateReservedParameter, owner)]++
			}
		}
	}
	walk(e, func(e parser.Expression) {
		switch e := e.(type) {
		case *parser.HostClassDefinition:
			if puppet {
				list(e, e.Parameters(), true, false, true, true)
			}
		case *parser.ResourceTypeDefinition:
			if puppet {
				list(e, e.Parameters(), true, false, true, true)
			}
		case *parser.FunctionDefinition:
			list(e, e.Parameters(), true, true, false, false)
		case *parser.PlanDefinition:
			list(e, e.Parameters(), true, true, false, false)
		case *parser.LambdaExpression:
			epp := kind(e.Body()) == "EppExpression"
			list(e, e.Parameters(), epp, true, epp, false)
		}
	})
	return want
}

func oracleC08(r *run) {
	g := &gen{Rand: r.rnd}
	par := func() string {
		s := g.pick("", "", "Integer ", "Foo[1] ") + g.pick("", "", "", "*") + "$" + g.pick("a", "b", "c", "name", "title", "names", "a1") + g.pick("", "", " = 1", " = $x")
		return s
	}
	var def func(d int) string
	def = func(d int) string {
		ps := ""
		for i, n := 0, g.Intn(5); i < n; i++ {
			if i > 0 {
				ps += ", "
			}
			ps += par()
		}
		body := ""
		if d > 0 && g.p(60) {
			body = def(d - 1)
		}
		lam := func() string { return "|" + ps + "| { " + body + " }" }
		switch g.Intn(7) {
		case 0:
			return "class " + g.pick("x", "a::b") + "(" + ps + ") " + g.pick("", "inherits y ") + "{ " + body + " }\n"
		case 1:
			return "define " + g.pick("x", "a::b") + "(" + ps + ") { " + body + " }\n"
		case 2:
			return "function " + g.pick("x", "a::b") + "(" + ps + ") " + g.pick("", ">> Integer ") + "{ " + body + " }\n"
		case 3:
			return "plan " + g.pick("x", "a::b") + "(" + ps + ") { " + body + " }\n"
		case 4:
			return "f(1) " + lam() + "\n"
		case 5:
			return "$y.g " + lam() + "\n"
		}
		return "if $x { " + body + " }\n" + "each($z) " + lam() + "\n"
	}
	n := 0
	r.each(func(in Input) {
		if n++; n%3 != 0 {
			in = Input{Source: def(3), Options: []int{}}
			if g.p(20) {
				ps := ""
				for i, n := 0, g.Intn(5); i < n; i++ {
					if i > 0 {
						ps += ", "
					}
					ps += par()
				}
				in = Input{Source: "<%- |" + ps + "| -%>\ntext <% f() |" + ps + "| { %> a <% } %>", Options: []int{5}}
			} else if g.p(50) {
				in.Options = []int{3}
			}
			r.note(in)
		}
		e, err, crash := parse(in.Options, in.Source, false)
		if crash != "" || err != nil || isNil(e) {
			return
		}
		for _, n := range checkerNames {
			v := checkers()[n]()
			if guard(func() { validator.Validate(v, e) }) != "" {
				return // C06
			}
			got := map[string]int{}
			for _, i := range v.Issues() {
				switch i.Code() {
				case validator.ValidateDuplicateParameter, validator.ValidateCapturesRestNotLast, validator.ValidateCapturesRestNotSupported, validator.ValidateReservedParameter:
					got[fmt.Sprintf("%s %d:%d", i.Code(), i.Location().Line(), i.Location().Pos())]++
				}
			}
			want := parameterIssues(e, n != "tasks" && n != "workflow")
			r.useful += int64(len(want))
			if fmt.Sprint(got) != fmt.Sprint(want) {
				r.failf(in, "%s validator: the parameter issues are %v and should be %v", n, got, want)
			}
		}
	})
}
