package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Clause is one tagged logical formula of a specification.
type Clause struct {
	Tags []string
	Expr ast.Expr
	Src  string
	Name string
	Own  bool // "shows": used by those callers only that have clauses of the same property
}

// Mod is one item of a modifies clause.
type Mod struct {
	Kind string // field, all, heap, elems, tail, ghost, buf, map
	Expr ast.Expr
	Name string
}

// FuncSpec is the contract of a function, an interface method or an external function.
type FuncSpec struct {
	Key        string
	Pkg        string
	Requires   []Clause
	Ensures    []Clause
	Modifies   []Mod
	Panics     *Clause
	Defines    []Clause // history predicates: assumed by callers, true by definition at every return
	Callbacks  []Clause // what every call of a function value that this function passes on keeps true
	Loops      []Clause // candidate loop invariants over parameters and state
	Extern     bool
	Iface      bool
	Default    bool
	Trusted    bool
	Inline     bool
	Skip       bool
	Pure       bool // external function: result is a function of its arguments
	Params     []string
	Uses       []string // names of predicates whose clauses are included
	Src        string
	Props      []string // properties this function is verified for even when no clause names them
	SafetyTags []string
	Ghost      []string // statements executed at function exit: "name := expr"
	Hooks      []Hook
	NoHoudini  bool
}

// Hook is a ghost assertion / lemma instantiated at a program point selected by what happens there.
type Hook struct {
	At     string // "append", "call <key>", "entry", "exit", "loop"
	Clause Clause
}

type ObjInv struct {
	Pkg, Recv, Type string
	Clauses         []Clause
}

type Macro struct {
	Name    string
	Pkg     string
	Params  []string
	Types   []string
	Body    ast.Expr
	Clauses []Clause // for pred: multi-clause
	Res     string
	Ind     string   // lemma: the variable of the induction
	From    ast.Expr // lemma: where the induction starts
}

type LogicFn struct {
	Name string
	Args []string
	Res  string
}

type Spec struct {
	dir         string
	funcs       map[string]*FuncSpec
	invs        map[string][]*ObjInv
	macros      map[string]*Macro
	logic       map[string]*LogicFn
	ghosts      map[string]string
	smt         []string
	safety      []safetyRule
	defs        []*FuncSpec // default contracts
	templates   []*Macro    // loop invariant templates
	axioms      []*Macro    // definitions of logic functions
	exclude     map[string]bool
	sealed      map[string]bool // mutable fields whose lists are never written again once stored
	assumptions []string
	w           *World
	groups      map[string]*FuncSpec
	safetyCache map[string][]string
	mu          sync.Mutex
}

type safetyRule struct {
	tags []string
	pats []string
}

func rewriteImplies(s string) string {
	// "a ==> b" has the lowest precedence and groups to the right: rewrite to implies(a, b) inside each parenthesis level.
	var rec func(s string) string
	rec = func(s string) string {
		// process nested parentheses first
		var out strings.Builder
		i := 0
		for i < len(s) {
			c := s[i]
			if c == '"' || c == '`' || c == '\'' {
				j := i + 1
				for j < len(s) && s[j] != c {
					if s[j] == '\\' && c != '`' {
						j++
					}
					j++
				}
				out.WriteString(s[i : j+1])
				i = j + 1
				continue
			}
			if c == '(' || c == '[' {
				d := 0
				j := i
				for ; j < len(s); j++ {
					if s[j] == '"' || s[j] == '`' || s[j] == '\'' {
						q := s[j]
						j++
						for j < len(s) && s[j] != q {
							if s[j] == '\\' && q != '`' {
								j++
							}
							j++
						}
						continue
					}
					if s[j] == '(' || s[j] == '[' {
						d++
					}
					if s[j] == ')' || s[j] == ']' {
						d--
						if d == 0 {
							break
						}
					}
				}
				out.WriteByte(c)
				inner := s[i+1 : j]
				parts := splitTop(inner, ',')
				for k, p := range parts {
					if k > 0 {
						out.WriteByte(',')
					}
					out.WriteString(rec(p))
				}
				out.WriteByte(s[j])
				i = j + 1
				continue
			}
			out.WriteByte(c)
			i++
		}
		t := out.String()
		if k := indexTop(t, "==>"); k >= 0 {
			return "implies(" + strings.TrimSpace(t[:k]) + ", " + rec(strings.TrimSpace(t[k+3:])) + ")"
		}
		return t
	}
	return rec(s)
}

func splitTop(s string, sep byte) []string {
	var r []string
	d, last := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case '"', '`', '\'':
			q := s[i]
			i++
			for i < len(s) && s[i] != q {
				if s[i] == '\\' && q != '`' {
					i++
				}
				i++
			}
		default:
			if s[i] == sep && d == 0 {
				r = append(r, s[last:i])
				last = i + 1
			}
		}
	}
	return append(r, s[last:])
}

func indexTop(s, pat string) int {
	d := 0
	for i := 0; i+len(pat) <= len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case '"', '`', '\'':
			q := s[i]
			i++
			for i < len(s) && s[i] != q {
				if s[i] == '\\' && q != '`' {
					i++
				}
				i++
			}
			continue
		}
		if d == 0 && s[i:i+len(pat)] == pat {
			return i
		}
	}
	return -1
}

func parseClause(src string) (Clause, error) {
	src = strings.TrimSpace(src)
	var c Clause
	if strings.HasPrefix(src, "[") {
		j := strings.IndexByte(src, ']')
		for _, t := range strings.FieldsFunc(src[1:j], func(r rune) bool { return r == ',' || r == ' ' }) {
			c.Tags = append(c.Tags, t)
		}
		src = strings.TrimSpace(src[j+1:])
	}
	c.Src = src
	e, err := parser.ParseExpr(rewriteImplies(src))
	if err != nil {
		return c, fmt.Errorf("clause %q: %v", src, err)
	}
	c.Expr = e
	return c, nil
}

func loadSpec(dir string, w *World) (*Spec, error) {
	sp := &Spec{dir: dir, funcs: map[string]*FuncSpec{}, invs: map[string][]*ObjInv{}, macros: map[string]*Macro{}, logic: map[string]*LogicFn{}, ghosts: map[string]string{}, exclude: map[string]bool{}, sealed: map[string]bool{}, w: w, safetyCache: map[string][]string{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := sp.parseFile(f, string(b)); err != nil {
			return nil, err
		}
	}
	for _, fs := range sp.funcs {
		if err := sp.expandUses(fs); err != nil {
			return nil, err
		}
	}
	for _, fs := range sp.defs {
		if err := sp.expandUses(fs); err != nil {
			return nil, err
		}
	}
	return sp, nil
}

// parseFile reads one specification file: a top-level declaration starts in column 0, its clauses are indented, and a line
// that is indented deeper than four columns continues the previous clause.
func (sp *Spec) parseFile(name, text string) error {
	pkg := ""
	type ln struct {
		no   int
		text string
		ind  int
	}
	var lines []ln
	inSmt := false
	var smt strings.Builder
	for i, raw := range strings.Split(text, "\n") {
		if inSmt {
			if strings.TrimSpace(raw) == "end" {
				sp.smt = append(sp.smt, smt.String())
				smt.Reset()
				inSmt = false
				continue
			}
			smt.WriteString(raw + "\n")
			continue
		}
		t := raw
		if k := strings.Index(t, "//"); k >= 0 && (k == 0 || t[k-1] == ' ' || t[k-1] == '\t') {
			t = t[:k]
		}
		if strings.TrimSpace(t) == "" {
			continue
		}
		if strings.HasPrefix(t, "smt") && strings.TrimSpace(t) == "smt" {
			inSmt = true
			continue
		}
		ind := 0
		for _, c := range t {
			if c == ' ' {
				ind++
			} else if c == '\t' {
				ind += 4
			} else {
				break
			}
		}
		tt := strings.TrimSpace(t)
		if ind > 4 && len(lines) > 0 {
			lines[len(lines)-1].text += " " + tt
			continue
		}
		lines = append(lines, ln{i + 1, tt, ind})
	}
	var cur *FuncSpec
	var curInv *ObjInv
	var curPred *Macro
	for _, l := range lines {
		fail := func(format string, a ...interface{}) error {
			return fmt.Errorf("%s:%d: %s", name, l.no, fmt.Sprintf(format, a...))
		}
		kw, rest := l.text, ""
		if k := strings.IndexAny(l.text, " \t"); k >= 0 {
			kw, rest = l.text[:k], strings.TrimSpace(l.text[k+1:])
		}
		if l.ind == 0 {
			if curPred != nil && len(curPred.Clauses) == 0 {
				return fail("predicate %s has no clauses (an uninterpreted one is declared with logic)", curPred.Name)
			}
			cur, curInv, curPred = nil, nil, nil
			switch kw {
			case "package":
				pkg = rest
			case "group":
				// clauses shared by the contracts that say "uses NAME"
				if sp.groups == nil {
					sp.groups = map[string]*FuncSpec{}
				}
				cur = &FuncSpec{Pkg: pkg, Key: rest}
				sp.groups[rest] = cur
			case "func", "extern", "iface", "default", "functype":
				fs := &FuncSpec{Pkg: pkg, Extern: kw == "extern", Iface: kw == "iface", Default: kw == "default"}
				key := rest
				if k := strings.Index(rest, " params "); k >= 0 {
					key = strings.TrimSpace(rest[:k])
					for _, p := range strings.Split(rest[k+8:], ",") {
						fs.Params = append(fs.Params, strings.TrimSpace(p))
					}
				}
				if kw == "func" || kw == "iface" || kw == "functype" {
					key = pkg + "." + key
				}
				fs.Key = key
				if kw == "default" {
					sp.defs = append(sp.defs, fs)
				} else {
					if sp.funcs[key] != nil {
						// several blocks may add to one contract
						fs = sp.funcs[key]
					}
					sp.funcs[key] = fs
				}
				cur = fs
			case "invariant":
				// (x *T)
				s := strings.Trim(rest, "()")
				f := strings.Fields(s)
				if len(f) != 2 {
					return fail("invariant needs (x *T)")
				}
				tn := strings.TrimPrefix(f[1], "*")
				curInv = &ObjInv{Pkg: pkg, Recv: f[0], Type: tn}
				sp.invs[tn] = append(sp.invs[tn], curInv)
			case "define", "template", "pred", "axiom", "lemma":
				// name(p T, q T) = expr   |  pred name(p, q)
				m := &Macro{Pkg: pkg}
				k := strings.IndexByte(rest, '(')
				j := matchParen(rest, k)
				if k < 0 || j < 0 {
					return fail("bad %s", kw)
				}
				m.Name = strings.TrimSpace(rest[:k])
				if ps := strings.TrimSpace(rest[k+1 : j]); ps != "" {
					for _, p := range splitTop(ps, ',') {
						f := strings.SplitN(strings.TrimSpace(p), " ", 2)
						m.Params = append(m.Params, f[0])
						t := ""
						if len(f) > 1 {
							t = strings.TrimSpace(f[1])
						}
						m.Types = append(m.Types, t)
					}
				}
				if kw == "pred" {
					curPred = m
					sp.macros[m.Name] = m
					continue
				}
				r := strings.TrimSpace(rest[j+1:])
				if kw == "lemma" {
					// induct VAR from EXPR = ...
					e := strings.Index(r, " = ")
					f := strings.SplitN(r, " ", 4)
					if e < 0 || len(f) < 4 || f[0] != "induct" || f[2] != "from" {
						return fail("lemma needs induct VAR from EXPR")
					}
					m.Ind = f[1]
					from, err := parser.ParseExpr(strings.TrimSpace(strings.TrimPrefix(r[:e], "induct "+f[1]+" from ")))
					if err != nil {
						return fail("%v", err)
					}
					m.From = from
					r = strings.TrimSpace(r[e:])
				}
				if !strings.HasPrefix(r, "=") {
					return fail("bad %s: expected =", kw)
				}
				cl, err := parseClause(strings.TrimSpace(r[1:]))
				if err != nil {
					return fail("%v", err)
				}
				m.Body = cl.Expr
				if kw == "axiom" || kw == "lemma" {
					m.Clauses = []Clause{cl}
					sp.axioms = append(sp.axioms, m)
				} else if kw == "template" {
					m.Clauses = []Clause{cl}
					sp.templates = append(sp.templates, m)
				} else {
					sp.macros[m.Name] = m
				}
			case "logic":
				// name(Sort,Sort) Sort
				k, j := strings.IndexByte(rest, '('), strings.LastIndexByte(rest, ')')
				lf := &LogicFn{Name: strings.TrimSpace(rest[:k]), Res: strings.TrimSpace(rest[j+1:])}
				for _, a := range splitTop(rest[k+1:j], ',') {
					if strings.TrimSpace(a) != "" {
						lf.Args = append(lf.Args, strings.TrimSpace(a))
					}
				}
				sp.logic[lf.Name] = lf
			case "ghost":
				f := strings.SplitN(rest, " ", 2)
				sp.ghosts[f[0]] = strings.TrimSpace(f[1])
			case "safety":
				f := strings.Fields(rest)
				sp.safety = append(sp.safety, safetyRule{strings.Split(f[0], ","), f[1:]})
			case "exclude":
				sp.exclude[rest] = true
			case "sealed":
				sp.sealed[rest] = true
			case "assumption":
				sp.assumptions = append(sp.assumptions, rest)
			default:
				return fail("unknown declaration %q", kw)
			}
			continue
		}
		if curInv != nil || curPred != nil {
			cl, err := parseClause(l.text)
			if err != nil {
				return fail("%v", err)
			}
			if curInv != nil {
				curInv.Clauses = append(curInv.Clauses, cl)
			} else {
				curPred.Clauses = append(curPred.Clauses, cl)
			}
			continue
		}
		if cur == nil {
			return fail("clause outside a declaration: %s", l.text)
		}
		switch kw {
		case "requires", "ensures", "shows", "loop", "panics", "defines", "callback":
			cl, err := parseClause(rest)
			if err != nil {
				return fail("%v", err)
			}
			switch kw {
			case "requires":
				cur.Requires = append(cur.Requires, cl)
			case "callback":
				cur.Callbacks = append(cur.Callbacks, cl)
			case "shows":
				cl.Own = true
				cur.Ensures = append(cur.Ensures, cl)
			case "ensures":
				cur.Ensures = append(cur.Ensures, cl)
			case "defines":
				cur.Defines = append(cur.Defines, cl)
			case "loop":
				cur.Loops = append(cur.Loops, cl)
			case "panics":
				cur.Panics = &cl
			}
		case "at":
			// at <point>: clause
			k := strings.Index(rest, ": ")
			cl, err := parseClause(rest[k+2:])
			if err != nil {
				return fail("%v", err)
			}
			cur.Hooks = append(cur.Hooks, Hook{At: strings.TrimSpace(rest[:k]), Clause: cl})
		case "modifies":
			for _, m := range splitTop(rest, ',') {
				m = strings.TrimSpace(m)
				mod := Mod{}
				switch {
				case strings.HasPrefix(m, "heap "):
					mod = Mod{Kind: "heap", Name: strings.TrimSpace(m[5:])}
				case strings.HasPrefix(m, "ghost "):
					mod = Mod{Kind: "ghost", Name: strings.TrimSpace(m[6:])}
				case strings.HasSuffix(m, ".*"):
					e, err := parser.ParseExpr(m[:len(m)-2])
					if err != nil {
						return fail("%v", err)
					}
					mod = Mod{Kind: "all", Expr: e}
				case strings.HasPrefix(m, "elems(") || strings.HasPrefix(m, "tail(") || strings.HasPrefix(m, "buf(") || strings.HasPrefix(m, "map("):
					k := strings.IndexByte(m, '(')
					e, err := parser.ParseExpr(m[k+1 : len(m)-1])
					if err != nil {
						return fail("%v", err)
					}
					mod = Mod{Kind: m[:k], Expr: e}
				default:
					e, err := parser.ParseExpr(m)
					if err != nil {
						return fail("%v", err)
					}
					mod = Mod{Kind: "field", Expr: e}
				}
				cur.Modifies = append(cur.Modifies, mod)
			}
		case "trusted":
			cur.Trusted = true
		case "inline":
			cur.Inline = true
		case "pure":
			cur.Pure = true
		case "uses":
			cur.Uses = append(cur.Uses, rest)
		case "props":
			cur.Props = strings.Fields(rest)
		case "nohoudini":
			cur.NoHoudini = true
		default:
			return fail("unknown clause %q", kw)
		}
	}
	return nil
}

func matchParen(s string, k int) int {
	if k < 0 {
		return -1
	}
	d := 0
	for i := k; i < len(s); i++ {
		if s[i] == '(' {
			d++
		}
		if s[i] == ')' {
			d--
			if d == 0 {
				return i
			}
		}
	}
	return -1
}

// expandUses expands "requires/ensures pred(args)" for multi-clause predicates into one clause per member.
func (sp *Spec) expandUses(fs *FuncSpec) error {
	for _, u := range fs.Uses {
		g := sp.groups[u]
		if g == nil {
			return fmt.Errorf("%s uses %s: no such group", fs.Key, u)
		}
		if len(g.Uses) > 0 {
			if err := sp.expandUses(g); err != nil {
				return err
			}
			g.Uses = nil
		}
		fs.Requires = append(append([]Clause{}, g.Requires...), fs.Requires...)
		fs.Ensures = append(append([]Clause{}, g.Ensures...), fs.Ensures...)
		fs.Loops = append(append([]Clause{}, g.Loops...), fs.Loops...)
		fs.Defines = append(append([]Clause{}, g.Defines...), fs.Defines...)
		fs.Modifies = append(append(fs.Modifies[:0:0], g.Modifies...), fs.Modifies...)
		if fs.Panics == nil {
			fs.Panics = g.Panics
		}
	}
	fs.Uses = nil
	exp := func(cs []Clause) []Clause {
		var out []Clause
		for _, c := range cs {
			for _, m := range sp.expandClause(c) {
				m.Own = m.Own || c.Own
				out = append(out, m)
			}
		}
		return out
	}
	fs.Requires = exp(fs.Requires)
	fs.Ensures = exp(fs.Ensures)
	fs.Loops = exp(fs.Loops)
	fs.Defines = exp(fs.Defines)
	return nil
}

// expandClause: a clause that is a call of a multi-clause predicate (possibly under an implication) becomes its members.
func (sp *Spec) expandClause(c Clause) []Clause {
	call, ok := c.Expr.(*ast.CallExpr)
	if !ok {
		return []Clause{c}
	}
	id, ok := call.Fun.(*ast.Ident)
	if !ok {
		return []Clause{c}
	}
	if id.Name == "implies" && len(call.Args) == 2 {
		inner := sp.expandClause(Clause{Tags: c.Tags, Expr: call.Args[1], Src: c.Src})
		if len(inner) == 1 && inner[0].Expr == call.Args[1] {
			return []Clause{c}
		}
		var out []Clause
		for _, i := range inner {
			out = append(out, Clause{Tags: i.Tags, Expr: &ast.CallExpr{Fun: call.Fun, Args: []ast.Expr{call.Args[0], i.Expr}}, Src: c.Src + " / " + i.Src})
		}
		return out
	}
	m := sp.macros[id.Name]
	if m == nil || m.Body != nil {
		return []Clause{c}
	}
	var out []Clause
	for i := range m.Clauses {
		mc := m.Clauses[i]
		// a let-binding of the parameters around one member
		bound := &ast.CallExpr{Fun: &ast.Ident{Name: "__member"}, Args: append([]ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: m.Name}, &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(i)}}, call.Args...)}
		tags := mc.Tags
		if len(c.Tags) > 0 {
			tags = c.Tags
		}
		for _, sub := range sp.expandClause(Clause{Tags: tags, Expr: mc.Expr, Src: mc.Src}) {
			if sub.Expr == mc.Expr {
				out = append(out, Clause{Tags: tags, Expr: bound, Src: m.Name + ": " + mc.Src})
			} else {
				// nested predicate: evaluated as a whole
				out = append(out, Clause{Tags: tags, Expr: bound, Src: m.Name + ": " + mc.Src})
				break
			}
		}
	}
	return out
}

// safetyTags: the properties that run-time safety of a function belongs to.
func (sp *Spec) safetyTags(key string) []string {
	sp.mu.Lock()
	defer sp.mu.Unlock()
	if t, ok := sp.safetyCache[key]; ok {
		return t
	}
	seen := map[string]bool{}
	var r []string
	for _, s := range sp.safety {
		for _, p := range s.pats {
			if matchPat(p, key) {
				for _, t := range s.tags {
					if !seen[t] {
						seen[t] = true
						r = append(r, t)
					}
				}
			}
		}
	}
	sp.safetyCache[key] = r
	return r
}

func matchPat(p, s string) bool {
	if !strings.Contains(p, "*:") && !strings.HasSuffix(p, "%") && !strings.HasPrefix(p, "%") {
		return p == s
	}
	pre, suf := strings.HasPrefix(p, "%"), strings.HasSuffix(p, "%")
	core := strings.Trim(p, "%")
	switch {
	case pre && suf:
		return strings.Contains(s, core)
	case suf:
		return strings.HasPrefix(s, core)
	case pre:
		return strings.HasSuffix(s, core)
	}
	return p == s
}

// specFor finds the contract of a function.
func (sp *Spec) specFor(f *ssa.Function, key string) *FuncSpec {
	if fs := sp.funcs[key]; fs != nil {
		return fs
	}
	return nil
}

// ---- expression evaluation ----

type Env struct {
	x     *Exec
	st    *State
	old   *State
	vars  map[string]SV
	pkg   *types.Package
	depth int
	nq    int    // enclosing quantifiers
	pre   *State // state at loop entry (loop invariants only)
}

func (e *Env) with(k string, v SV) *Env {
	n := *e
	n.vars = make(map[string]SV, len(e.vars)+1)
	for a, b := range e.vars {
		n.vars[a] = b
	}
	n.vars[k] = v
	return &n
}

func (e *Env) boolExpr(x ast.Expr) (string, error) {
	v, err := e.eval(x)
	if err != nil {
		return "", err
	}
	if v.K != kTerm {
		return "", fmt.Errorf("formula is not a term")
	}
	return v.Term, nil
}

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tString = types.Typ[types.String]
var tAny = types.NewInterfaceType(nil, nil)

func sortType(s string) types.Type {
	switch s {
	case "Int":
		return tInt
	case "Bool":
		return tBool
	case "Str":
		return tString
	case "Val":
		return tAny
	}
	return nil
}

func (e *Env) pkgOf() *types.Package {
	if e.pkg != nil {
		return e.pkg
	}
	if p := e.x.w.byName["parser"]; p != nil {
		return p.Pkg
	}
	return nil
}

func (e *Env) lookupType(x ast.Expr) (types.Type, error) {
	switch x := x.(type) {
	case *ast.StarExpr:
		t, err := e.lookupType(x.X)
		if err != nil {
			return nil, err
		}
		return types.NewPointer(t), nil
	case *ast.ParenExpr:
		return e.lookupType(x.X)
	case *ast.ArrayType:
		t, err := e.lookupType(x.Elt)
		if err != nil {
			return nil, err
		}
		return types.NewSlice(t), nil
	case *ast.MapType:
		k, err := e.lookupType(x.Key)
		if err != nil {
			return nil, err
		}
		v, err := e.lookupType(x.Value)
		if err != nil {
			return nil, err
		}
		return types.NewMap(k, v), nil
	case *ast.InterfaceType:
		return tAny, nil
	case *ast.Ident:
		if b, ok := types.Universe.Lookup(x.Name).(*types.TypeName); ok {
			return b.Type(), nil
		}
		if o, ok := e.pkgOf().Scope().Lookup(x.Name).(*types.TypeName); ok {
			return o.Type(), nil
		}
		return nil, fmt.Errorf("unknown type %s", x.Name)
	case *ast.SelectorExpr:
		id, ok := x.X.(*ast.Ident)
		if ok {
			for _, p := range e.x.w.allPkgs() {
				if p.Name() == id.Name {
					if o, ok := p.Scope().Lookup(x.Sel.Name).(*types.TypeName); ok {
						return o.Type(), nil
					}
				}
			}
		}
		return nil, fmt.Errorf("unknown type %v", x.Sel.Name)
	}
	return nil, fmt.Errorf("not a type: %T", x)
}

type preludeFn struct {
	smt  string
	args []string
	res  string
}

// functions of the prelude by their name in specifications
var preludeFns = map[string]preludeFn{
	"rdec":     {"rdecat", []string{"Str", "Int"}, "Int"},
	"rsz":      {"rszat", []string{"Str", "Int"}, "Int"},
	"runeok":   {"runeok", []string{"Str", "Int"}, "Bool"},
	"utf8":     {"runestr", []string{"Int"}, "Str"},
	"bytestr":  {"bytestr", []string{"Int"}, "Str"},
	"hashable": {"hashable", []string{"Val"}, "Bool"},
}

func (w *World) allPkgs() []*types.Package {
	var r []*types.Package
	for _, p := range w.pkgs {
		r = append(r, p.Pkg)
	}
	if w.issuePkg != nil {
		r = append(r, w.issuePkg)
	}
	for _, p := range w.prog.AllPackages() {
		switch p.Pkg.Path() {
		case "bytes", "strings", "strconv":
			r = append(r, p.Pkg)
		}
	}
	return r
}

func (e *Env) eval(n ast.Expr) (SV, error) {
	x := e.x
	switch n := n.(type) {
	case *ast.ParenExpr:
		return e.eval(n.X)
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT:
			return term(tInt, n.Value), nil
		case token.CHAR, token.STRING:
			v := constant.MakeFromLiteral(n.Value, n.Kind, 0)
			if n.Kind == token.CHAR {
				i, _ := constant.Int64Val(constant.ToInt(v))
				return term(tInt, num(i)), nil
			}
			return term(tString, x.strLit(constant.StringVal(v))), nil
		}
	case *ast.Ident:
		if v, ok := e.vars[n.Name]; ok {
			return v, nil
		}
		switch n.Name {
		case "true", "false":
			return term(tBool, n.Name), nil
		case "nil":
			return term(types.Typ[types.UntypedNil], "vnil"), nil
		case "nxt":
			return term(tInt, e.st.h["nxt"]), nil
		}
		if s, ok := x.sp.ghosts[n.Name]; ok {
			return term(sortType(s), x.heap(e.st, n.Name, s)), nil
		}
		if lf, ok := x.sp.logic[n.Name]; ok && len(lf.Args) == 0 {
			return term(sortType(lf.Res), n.Name), nil
		}
		return e.pkgMember(e.pkgOf(), n.Name)
	case *ast.UnaryExpr:
		v, err := e.eval(n.X)
		if err != nil {
			return SV{}, err
		}
		switch n.Op {
		case token.NOT:
			return term(tBool, not(v.Term)), nil
		case token.SUB:
			return term(tInt, "(- "+v.Term+")"), nil
		}
	case *ast.BinaryExpr:
		a, err := e.eval(n.X)
		if err != nil {
			return SV{}, err
		}
		b, err := e.eval(n.Y)
		if err != nil {
			return SV{}, err
		}
		switch n.Op {
		case token.LAND:
			return term(tBool, and(a.Term, b.Term)), nil
		case token.LOR:
			return term(tBool, or(a.Term, b.Term)), nil
		case token.EQL, token.NEQ:
			t, err := e.equal(a, b)
			if err != nil {
				return SV{}, err
			}
			if n.Op == token.NEQ {
				t = not(t)
			}
			return term(tBool, t), nil
		}
		op := map[token.Token]string{token.LSS: "<", token.LEQ: "<=", token.GTR: ">", token.GEQ: ">=", token.ADD: "+", token.SUB: "-", token.MUL: "*", token.QUO: "div", token.REM: "mod"}[n.Op]
		if op == "" {
			return SV{}, fmt.Errorf("operator %s", n.Op)
		}
		if a.T != nil && sortOf(a.T) == "Str" && n.Op == token.ADD {
			return term(tString, "(sconcat "+a.Term+" "+b.Term+")"), nil
		}
		if a.T != nil && sortOf(a.T) == "Str" && (n.Op == token.LSS) {
			return term(tBool, "(slt "+a.Term+" "+b.Term+")"), nil
		}
		t := types.Type(tInt)
		switch n.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			t = tBool
		}
		return term(t, "("+op+" "+a.Term+" "+b.Term+")"), nil
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok {
			if _, isVar := e.vars[id.Name]; !isVar {
				for _, p := range x.w.allPkgs() {
					if p.Name() == id.Name {
						return e.pkgMember(p, n.Sel.Name)
					}
				}
			}
		}
		v, err := e.eval(n.X)
		if err != nil {
			return SV{}, err
		}
		return e.field(v, n.Sel.Name)
	case *ast.IndexExpr:
		if g, cm := e.table(n.X); cm != nil {
			i, err := e.eval(n.Index)
			if err != nil {
				return SV{}, err
			}
			f, _ := e.x.constMapFn(g, cm)
			return term(g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Map).Elem(), "("+f+" "+i.Term+")"), nil
		}
		v, err := e.eval(n.X)
		if err != nil {
			return SV{}, err
		}
		i, err := e.eval(n.Index)
		if err != nil {
			return SV{}, err
		}
		return e.index(v, i)
	case *ast.TypeAssertExpr:
		v, err := e.eval(n.X)
		if err != nil {
			return SV{}, err
		}
		t, err := e.lookupType(n.Type)
		if err != nil {
			return SV{}, err
		}
		return e.x.unbox(v.Term, t), nil
	case *ast.SliceExpr:
		v, err := e.eval(n.X)
		if err != nil {
			return SV{}, err
		}
		lo, hi := term(tInt, "0"), SV{}
		if n.Low != nil {
			if lo, err = e.eval(n.Low); err != nil {
				return SV{}, err
			}
		}
		if v.T != nil && sortOf(v.T) == "Str" {
			if n.High != nil {
				if hi, err = e.eval(n.High); err != nil {
					return SV{}, err
				}
			} else {
				hi = term(tInt, "(slen "+v.Term+")")
			}
			return term(tString, "(ssub "+v.Term+" "+lo.Term+" "+hi.Term+")"), nil
		}
	case *ast.CallExpr:
		return e.call(n)
	}
	return SV{}, fmt.Errorf("cannot evaluate %T", n)
}

func (e *Env) pkgMember(p *types.Package, name string) (SV, error) {
	o := p.Scope().Lookup(name)
	switch o := o.(type) {
	case *types.Const:
		return e.x.constant(o.Val(), o.Type()), nil
	case *types.Var:
		if sp := e.x.w.prog.Package(p); sp != nil {
			if g := sp.Var(name); g != nil {
				return e.x.loadGlobal(g, e.st), nil
			}
		}
	}
	return SV{}, fmt.Errorf("unknown identifier %s.%s", p.Name(), name)
}

func (e *Env) equal(a, b SV) (string, error) {
	return e.x.equalSV(a, b)
}

func (e *Env) field(v SV, name string) (SV, error) {
	if v.T == nil {
		return SV{}, fmt.Errorf("field %s of an untyped value", name)
	}
	if v.K == kStruct {
		st := v.T.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return v.Fs[i], nil
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() && v.Fs[i].K == kStruct {
				if r, err := e.field(v.Fs[i], name); err == nil {
					return r, nil
				}
			}
		}
		return SV{}, fmt.Errorf("no field %s", name)
	}
	n, s := structOf(v.T)
	if s == nil || n == nil {
		return SV{}, fmt.Errorf("field %s of %s", name, v.T)
	}
	obj, idx, _ := types.LookupFieldOrMethod(types.NewPointer(n), true, n.Obj().Pkg(), name)
	if _, ok := obj.(*types.Var); !ok {
		return SV{}, fmt.Errorf("no field %s in %s", name, n)
	}
	cur, cs := n, s
	for k, i := range idx {
		f := cs.Field(i)
		if k == len(idx)-1 {
			return e.x.loadField(e.st, cur, f, v.Term, "true"), nil
		}
		if isPtr(f.Type()) {
			return SV{}, fmt.Errorf("embedded pointer")
		}
		cur, cs = structOf(f.Type())
	}
	return SV{}, fmt.Errorf("field %s", name)
}

func (e *Env) index(v, i SV) (SV, error) {
	if v.T == nil {
		return SV{}, fmt.Errorf("index of an untyped value")
	}
	switch u := v.T.Underlying().(type) {
	case *types.Slice:
		return e.x.loadElem(e.st, u.Elem(), "(sbase "+v.Term+")", i.Term), nil
	case *types.Basic:
		return term(types.Typ[types.Uint8], "(sat "+v.Term+" "+i.Term+")"), nil
	case *types.Map:
		_, val := e.x.mapHeaps(e.st, u)
		k := i.Term
		if _, ok := u.Key().Underlying().(*types.Interface); ok {
			k = e.x.box(i, "true")
		}
		return term(u.Elem(), sel(sel(val, v.Term), k)), nil
	}
	return SV{}, fmt.Errorf("index of %s", v.T)
}

func (e *Env) call(n *ast.CallExpr) (SV, error) {
	x := e.x
	id, ok := n.Fun.(*ast.Ident)
	if !ok {
		return SV{}, fmt.Errorf("unsupported call in specification")
	}
	arg := func(i int) (SV, error) { return e.eval(n.Args[i]) }
	switch id.Name {
	case "old":
		o := *e
		o.st = e.old
		return o.eval(n.Args[0])
	case "pre":
		if e.pre == nil {
			return SV{}, fmt.Errorf("pre() outside a loop invariant")
		}
		o := *e
		o.st = e.pre
		return o.eval(n.Args[0])
	case "__member":
		m := x.sp.macros[n.Args[0].(*ast.BasicLit).Value]
		var k int
		fmt.Sscan(n.Args[1].(*ast.BasicLit).Value, &k)
		ne, err := e.bind(m, n.Args[2:])
		if err != nil {
			return SV{}, err
		}
		return ne.eval(m.Clauses[k].Expr)
	case "len", "cap":
		v, err := arg(0)
		if err != nil {
			return SV{}, err
		}
		if v.T != nil && sortOf(v.T) == "Str" {
			return term(tInt, "(slen "+v.Term+")"), nil
		}
		if id.Name == "cap" {
			return term(tInt, "(scap "+v.Term+")"), nil
		}
		return term(tInt, "(slen_ "+v.Term+")"), nil
	case "base":
		v, err := arg(0)
		if err != nil {
			return SV{}, err
		}
		return term(tInt, "(sbase "+v.Term+")"), nil
	case "ref":
		v, err := arg(0)
		if err != nil {
			return SV{}, err
		}
		if v.T != nil {
			if _, ok := v.T.Underlying().(*types.Interface); ok {
				return term(tInt, "(vr "+v.Term+")"), nil
			}
		}
		return term(tInt, v.Term), nil
	case "frozen":
		v, err := arg(0)
		if err != nil {
			return SV{}, err
		}
		return term(tBool, "(<= (slen_ "+v.Term+") "+sel(x.heap(e.st, "frz", "(Array Int Int)"), "(sbase "+v.Term+")")+")"), nil
	case "fresh", "alive":
		v, err := arg(0)
		if err != nil {
			return SV{}, err
		}
		r := v.Term
		if v.T != nil {
			if _, ok := v.T.Underlying().(*types.Interface); ok {
				r = "(vr " + v.Term + ")"
			} else if _, ok := v.T.Underlying().(*types.Slice); ok {
				r = "(sbase " + v.Term + ")"
			}
		}
		if id.Name == "alive" {
			return term(tBool, "(< "+r+" "+e.st.h["nxt"]+")"), nil
		}
		return term(tBool, "(>= "+r+" "+e.old.h["nxt"]+")"), nil
	case "is":
		v, err := arg(0)
		if err != nil {
			return SV{}, err
		}
		t, err := e.lookupType(n.Args[1])
		if err != nil {
			return SV{}, err
		}
		if _, ok := t.Underlying().(*types.Interface); ok {
			return term(tBool, x.implPred(t, v.Term)), nil
		}
		return term(tBool, x.isTag(v.Term, t)), nil
	case "implies":
		a, err := arg(0)
		if err != nil {
			return SV{}, err
		}
		b, err := arg(1)
		if err != nil {
			return SV{}, err
		}
		return term(tBool, implies(a.Term, b.Term)), nil
	case "ite":
		c, err := arg(0)
		if err != nil {
			return SV{}, err
		}
		a, err := arg(1)
		if err != nil {
			return SV{}, err
		}
		b, err := arg(2)
		if err != nil {
			return SV{}, err
		}
		return SV{K: kTerm, T: a.T, Term: ite(c.Term, a.Term, b.Term)}, nil
	case "box":
		a, err := arg(0)
		if err != nil {
			return SV{}, err
		}
		if len(n.Args) > 1 {
			t, err := e.lookupType(n.Args[1])
			if err != nil {
				return SV{}, err
			}
			a.T = t
		}
		return term(tAny, x.box(a, "true")), nil
	case "has":
		if g, cm := e.table(n.Args[0]); cm != nil {
			k, err := arg(1)
			if err != nil {
				return SV{}, err
			}
			_, h := e.x.constMapFn(g, cm)
			return term(tBool, "("+h+" "+k.Term+")"), nil
		}
		m, err := arg(0)
		if err != nil {
			return SV{}, err
		}
		k, err := arg(1)
		if err != nil {
			return SV{}, err
		}
		mt, ok := m.T.Underlying().(*types.Map)
		if !ok {
			return SV{}, fmt.Errorf("has() of a non-map")
		}
		h, _ := x.mapHeaps(e.st, mt)
		kt := k.Term
		if _, ok := mt.Key().Underlying().(*types.Interface); ok {
			kt = x.box(k, "true")
		}
		return term(tBool, sel(sel(h, m.Term), kt)), nil
	case "bufstr":
		v, err := arg(0)
		if err != nil {
			return SV{}, err
		}
		return term(tString, sel(x.heap(e.st, "Buffer.content", "(Array Int Str)"), v.Term)), nil
	case "forall", "exists":
		// forall(k, lo, hi, body) or forall(k, lo, hi, body, trigger)
		k := n.Args[0].(*ast.Ident).Name
		lo, err := arg(1)
		if err != nil {
			return SV{}, err
		}
		hi, err := arg(2)
		if err != nil {
			return SV{}, err
		}
		x.qn++
		q := fmt.Sprintf("%s_q%d", k, x.qn)
		ne := e.with(k, term(tInt, q))
		ne.nq++
		b, err := ne.eval(n.Args[3])
		if err != nil {
			return SV{}, err
		}
		rng := fmt.Sprintf("(and (<= %s %s) (< %s %s))", lo.Term, q, q, hi.Term)
		if id.Name == "exists" {
			return term(tBool, fmt.Sprintf("(exists ((%s Int)) (and %s %s))", q, rng, b.Term)), nil
		}
		body := fmt.Sprintf("(=> %s %s)", rng, b.Term)
		if len(n.Args) > 4 {
			var pats []string
			for _, a := range n.Args[4:] {
				t, err := ne.eval(a)
				if err != nil {
					return SV{}, err
				}
				pats = append(pats, t.Term)
			}
			body = fmt.Sprintf("(! %s :pattern (%s))", body, strings.Join(pats, " "))
		}
		return term(tBool, fmt.Sprintf("(forall ((%s Int)) %s)", q, body)), nil
	case "foralls":
		// foralls(x, body[, trigger...]): for all strings
		k := n.Args[0].(*ast.Ident).Name
		x.qn++
		q := fmt.Sprintf("%s_q%d", k, x.qn)
		ne := e.with(k, term(types.Typ[types.String], q))
		ne.nq++
		b, err := ne.eval(n.Args[1])
		if err != nil {
			return SV{}, err
		}
		body := b.Term
		if len(n.Args) > 2 {
			var pats []string
			for _, a := range n.Args[2:] {
				t, err := ne.eval(a)
				if err != nil {
					return SV{}, err
				}
				pats = append(pats, t.Term)
			}
			body = fmt.Sprintf("(! %s :pattern (%s))", body, strings.Join(pats, " "))
		}
		return term(tBool, fmt.Sprintf("(forall ((%s Str)) %s)", q, body)), nil
	case "typeof":
		v, err := arg(0)
		if err != nil {
			return SV{}, err
		}
		return term(tInt, "(tagof "+v.Term+")"), nil
	case "select":
		a, err := arg(0)
		if err != nil {
			return SV{}, err
		}
		i, err := arg(1)
		if err != nil {
			return SV{}, err
		}
		return term(nil, sel(a.Term, i.Term)), nil
	case "elemsOf":
		// the current element array of a slice
		v, err := arg(0)
		if err != nil {
			return SV{}, err
		}
		u, ok := v.T.Underlying().(*types.Slice)
		if !ok {
			return SV{}, fmt.Errorf("elemsOf() of a non-slice")
		}
		h, s := x.elemHeapOf(u.Elem())
		return term(nil, sel(x.heap(e.st, h, "(Array Int (Array Int "+s+"))"), "(sbase "+v.Term+")")), nil
	case "unfrozen":
		v, err := arg(0)
		if err != nil {
			return SV{}, err
		}
		if e.nq == 0 && x.dry == 0 && e.st.h["nxt"] != "" {
			// every list that exists has its elements in memory that exists
			key := v.Term + "@base@" + e.st.h["nxt"]
			if !x.invDone[key] {
				x.invDone[key] = true
				x.typing(v, "true", e.st)
			}
		}
		return term(tBool, "(= 0 "+sel(x.heap(e.st, "frz", "(Array Int Int)"), "(sbase "+v.Term+")")+")"), nil
	case "felem":
		v, err := arg(0)
		if err != nil {
			return SV{}, err
		}
		k, err := arg(1)
		if err != nil {
			return SV{}, err
		}
		u, ok := v.T.Underlying().(*types.Slice)
		if !ok {
			return SV{}, fmt.Errorf("felem() of a non-slice")
		}
		h, es := x.elemHeapOf(u.Elem())
		x.heap(e.st, h, arr2(es))
		x.linkFe(e.st, h)
		return term(u.Elem(), fmt.Sprintf("(%s %s %s)", x.frozenFn(h, arr2(es)), x.sbase(v.Term), k.Term)), nil
	case "subexps":
		// the number of parenthesised groups of a package-level pattern
		a, err := arg(0)
		if err != nil {
			return SV{}, err
		}
		x.declFun("subexps", []string{"Int"}, "Int")
		return term(tInt, "(subexps "+a.Term+")"), nil
	case "rematch":
		a, err := arg(0)
		if err != nil {
			return SV{}, err
		}
		b, err := arg(1)
		if err != nil {
			return SV{}, err
		}
		return term(tBool, x.rematch(a.Term, b.Term)), nil
	case "keyset1":
		// keyset1(m, k): k is the only key of m
		m, err := arg(0)
		if err != nil {
			return SV{}, err
		}
		k, err := arg(1)
		if err != nil {
			return SV{}, err
		}
		mt, ok := m.T.Underlying().(*types.Map)
		if !ok {
			return SV{}, fmt.Errorf("keyset1() of a non-map")
		}
		h, _ := x.mapHeaps(e.st, mt)
		ks := sortOf(mt.Key())
		return term(tBool, eq(sel(h, m.Term), store("((as const (Array "+ks+" Bool)) false)", k.Term, "true"))), nil
	case "tagname":
		// tagname(*T): numeric tag of a type
		t, err := e.lookupType(n.Args[0])
		if err != nil {
			return SV{}, err
		}
		return term(tInt, fmt.Sprint(x.w.tag(t))), nil
	}
	lf := x.sp.logic[id.Name]
	smtName := id.Name
	if lf == nil {
		if b, ok := preludeFns[id.Name]; ok {
			lf = &LogicFn{Name: b.smt, Args: b.args, Res: b.res}
			smtName = b.smt
		}
	}
	if lf != nil {
		var ts []string
		for i := range n.Args {
			a, err := arg(i)
			if err != nil {
				return SV{}, err
			}
			t := a.Term
			if i < len(lf.Args) && lf.Args[i] == "Val" && a.T != nil {
				if _, ok := a.T.Underlying().(*types.Interface); !ok && sortOf(a.T) != "Val" {
					t = x.box(a, "true")
				}
			}
			ts = append(ts, t)
		}
		if len(ts) != len(lf.Args) {
			return SV{}, fmt.Errorf("%s takes %d arguments", id.Name, len(lf.Args))
		}
		return term(sortType(lf.Res), "("+smtName+" "+strings.Join(ts, " ")+")"), nil
	}
	if m := x.sp.macros[id.Name]; m != nil {
		ne, err := e.bind(m, n.Args)
		if err != nil {
			return SV{}, err
		}
		if m.Body != nil {
			return ne.eval(m.Body)
		}
		var fs []string
		for _, c := range m.Clauses {
			f, err := ne.boolExpr(c.Expr)
			if err != nil {
				return SV{}, err
			}
			fs = append(fs, f)
		}
		return term(tBool, and(fs...)), nil
	}
	return SV{}, fmt.Errorf("unknown function %s in specification", id.Name)
}

func (e *Env) bind(m *Macro, args []ast.Expr) (*Env, error) {
	if e.depth > 60 {
		return nil, fmt.Errorf("macro recursion in %s", m.Name)
	}
	if len(args) != len(m.Params) {
		return nil, fmt.Errorf("%s takes %d arguments", m.Name, len(m.Params))
	}
	ne := &Env{x: e.x, st: e.st, old: e.old, pre: e.pre, vars: map[string]SV{}, depth: e.depth + 1}
	if p := e.x.w.byName[m.Pkg]; p != nil {
		ne.pkg = p.Pkg
	} else {
		ne.pkg = e.pkg
	}
	for i, a := range args {
		v, err := e.eval(a)
		if err != nil {
			return nil, err
		}
		if m.Types[i] != "" {
			te, err := parser.ParseExpr(m.Types[i])
			if err == nil {
				if t, err := ne.lookupType(te); err == nil {
					if _, isIf := t.Underlying().(*types.Interface); isIf && v.T != nil && sortOf(v.T) != "Val" {
						v = term(t, e.x.box(v, "true"))
					} else if v.T == nil || v.K == kTerm {
						v.T = t
					}
				}
			}
		}
		ne.vars[m.Params[i]] = v
	}
	return ne, nil
}

// fieldRefExpr evaluates "x.f" of a modifies clause to the heap and the reference it selects.
func (x *Exec) fieldRefExpr(env *Env, n ast.Expr) (string, string, error) {
	se, ok := n.(*ast.SelectorExpr)
	if !ok {
		return "", "", fmt.Errorf("modifies item is not a field")
	}
	v, err := env.eval(se.X)
	if err != nil {
		return "", "", err
	}
	nt, s := structOf(v.T)
	if nt == nil || s == nil {
		return "", "", fmt.Errorf("modifies item is not a field of a struct")
	}
	obj, idx, _ := types.LookupFieldOrMethod(types.NewPointer(nt), true, nt.Obj().Pkg(), se.Sel.Name)
	if _, ok := obj.(*types.Var); !ok {
		return "", "", fmt.Errorf("no field %s", se.Sel.Name)
	}
	cur, cs := nt, s
	for k, i := range idx {
		f := cs.Field(i)
		if k == len(idx)-1 {
			return fieldHeap(cur, f), v.Term, nil
		}
		cur, cs = structOf(f.Type())
	}
	return "", "", fmt.Errorf("field %s", se.Sel.Name)
}

// assertAxioms emits the definitional axioms of the package's logic functions: "axiom name(r *T, k int) = by(formula, trigger...)".
func (x *Exec) assertAxioms(pkg string, upTo *Macro) {
	for _, a := range x.sp.axioms {
		if a == upTo {
			x.proveLemma(a)
			return
		}
		if a.Pkg != pkg {
			continue
		}
		env := &Env{x: x, st: x.entry, old: x.entry, vars: map[string]SV{}}
		if p := x.w.byName[a.Pkg]; p != nil {
			env.pkg = p.Pkg
		}
		var decl []string
		ok := true
		for i, p := range a.Params {
			te, err := parser.ParseExpr(a.Types[i])
			if err != nil {
				ok = false
				break
			}
			t, err := env.lookupType(te)
			if err != nil || sortOf(t) == "" {
				ok = false
				break
			}
			env.vars[p] = term(t, "ax_"+p)
			decl = append(decl, "(ax_"+p+" "+sortOf(t)+")")
		}
		if !ok {
			x.unsupported("true", token.NoPos, "axiom "+a.Name)
			continue
		}
		body := a.Body
		var pats []string
		if c, isCall := body.(*ast.CallExpr); isCall {
			if id, isId := c.Fun.(*ast.Ident); isId && id.Name == "by" {
				body = c.Args[0]
				for _, t := range c.Args[1:] {
					v, err := env.eval(t)
					if err != nil {
						x.unsupported("true", token.NoPos, "axiom "+a.Name+": "+err.Error())
						continue
					}
					pats = append(pats, v.Term)
				}
			}
		}
		f, err := env.boolExpr(body)
		if err != nil {
			x.unsupported("true", token.NoPos, "axiom "+a.Name+": "+err.Error())
			continue
		}
		if a.Ind != "" {
			lo, err := env.eval(a.From)
			if err != nil {
				x.unsupported("true", token.NoPos, "lemma "+a.Name+": "+err.Error())
				continue
			}
			f = implies("(<= "+lo.Term+" "+env.vars[a.Ind].Term+")", f)
		}
		if strings.Contains(f, "H0_") {
			x.unsupported("true", token.NoPos, "axiom "+a.Name+" depends on mutable state: "+f)
			continue
		}
		if len(decl) == 0 {
			x.items = append(x.items, Item{Raw: "(assert " + f + ")"})
			continue
		}
		if len(pats) > 0 {
			// triggers that bind every variable are alternatives; otherwise all of them together form one
			each := true
			for _, p := range pats {
				for _, v := range a.Params {
					each = each && (strings.Contains(p, "ax_"+v+" ") || strings.Contains(p, "ax_"+v+")"))
				}
			}
			if each {
				f = "(! " + f + " :pattern (" + strings.Join(pats, ") :pattern (") + "))"
			} else {
				f = "(! " + f + " :pattern (" + strings.Join(pats, " ") + "))"
			}
		}
		x.items = append(x.items, Item{Raw: "(assert (forall (" + strings.Join(decl, " ") + ") " + f + "))"})
	}
}

// proveLemma emits the two obligations of a lemma that is proved by induction.
func (x *Exec) proveLemma(a *Macro) {
	env := &Env{x: x, st: x.entry, old: x.entry, vars: map[string]SV{}}
	if p := x.w.byName[a.Pkg]; p != nil {
		env.pkg = p.Pkg
	}
	bad := func(err error) { x.unsupported("true", token.NoPos, "lemma "+a.Name+": "+err.Error()) }
	for i, p := range a.Params {
		te, err := parser.ParseExpr(a.Types[i])
		if err != nil {
			bad(err)
			return
		}
		t, err := env.lookupType(te)
		if err != nil {
			bad(err)
			return
		}
		env.vars[p] = term(t, x.fresh("lm_"+p, sortOf(t)))
	}
	body := a.Body
	if c, ok := body.(*ast.CallExpr); ok {
		if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "by" {
			body = c.Args[0]
		}
	}
	at := func(v string) (string, error) {
		e2 := *env
		e2.vars = map[string]SV{}
		for k, s := range env.vars {
			e2.vars[k] = s
		}
		e2.vars[a.Ind] = term(env.vars[a.Ind].T, v)
		return e2.boolExpr(body)
	}
	lo, err := env.eval(a.From)
	if err != nil {
		bad(err)
		return
	}
	n := env.vars[a.Ind].Term
	base, err := at(lo.Term)
	if err != nil {
		bad(err)
		return
	}
	hyp, err := at(n)
	if err != nil {
		bad(err)
		return
	}
	n1 := x.named("lm_next", "Int", "(+ "+n+" 1)")
	step, err := at(n1)
	if err != nil {
		bad(err)
		return
	}
	tags := a.Clauses[0].Tags
	x.oblig("true", base, "lemma", tags, token.NoPos, a.Name+" (base)")
	x.oblig(and("(<= "+lo.Term+" "+n+")", hyp), step, "lemma", tags, token.NoPos, a.Name+" (step)")
}

// assumptionList: the assumptions that bear on a property; those without a property list bear on all.
func (sp *Spec) assumptionList(prop string) []string {
	if sp == nil {
		return nil
	}
	r := []string{
		"Go integers are treated as mathematical integers (no wrap-around); lengths of strings and lists are non-negative",
		"closed world: interface values of this module's interfaces hold only types that this module converts to them",
		"single goroutine: no two parses share a parser",
		"the verification conditions generated by govc from go/ssa reflect Go's semantics",
	}
	for _, a := range sp.assumptions {
		if strings.HasPrefix(a, "[") {
			if i := strings.Index(a, "]"); i > 0 {
				if !strings.Contains(a[:i], prop) {
					continue
				}
				a = strings.TrimSpace(a[i+1:])
			}
		}
		r = append(r, a)
	}
	return r
}

// table finds the constant package-level table that an identifier names.
func (e *Env) table(n ast.Expr) (*ssa.Global, *constMap) {
	id, ok := n.(*ast.Ident)
	if !ok || e.pkg == nil {
		return nil, nil
	}
	if _, ok := e.vars[id.Name]; ok {
		return nil, nil
	}
	p := e.x.w.byName[e.pkg.Name()]
	if p == nil {
		return nil, nil
	}
	g, ok := p.Members[id.Name].(*ssa.Global)
	if !ok {
		return nil, nil
	}
	return g, e.x.w.constMaps[g]
}
