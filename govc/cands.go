package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopCand struct {
	c    *Cand
	head string
	at   func(vals map[ssa.Value]SV, st *State) (string, bool)
}

// cval is a value that candidate loop invariants may mention.
type cval struct {
	name string
	t    types.Type
	get  func(vals map[ssa.Value]SV, st *State) (SV, bool)
	phi  bool
}

// loopCands proposes loop invariants; Houdini keeps the inductive ones. Nothing is trusted: every surviving candidate has
// been proved on entry and preserved by every back edge.
func (x *Exec) loopCands(fr *frame, l *loopInfo, phis []*ssa.Phi, init map[ssa.Value]SV, cellRec map[int]bool, pre, hst *State, reach, hreach string) []loopCand {
	if x.dry > 0 {
		return nil
	}
	x.loopOrd++
	loopName := fmt.Sprintf("%s#%d@%s", x.w.keyOf(fr.fn), x.loopOrd, x.posOf(headPos(l)))
	headVals := map[ssa.Value]SV{}
	for _, p := range phis {
		headVals[p] = fr.vals[p]
	}
	var out []loopCand
	seen := map[string]bool{}
	add := func(desc string, tags []string, f func(vals map[ssa.Value]SV, st *State) (string, bool)) {
		if seen[desc] {
			return
		}
		h, ok := f(headVals, hst)
		if !ok || h == "true" {
			return
		}
		i, ok := f(init, pre)
		if !ok {
			return
		}
		seen[desc] = true
		x.ncand++
		c := &Cand{ID: x.ncand, Loop: loopName, Desc: "loop invariant " + desc + " (" + loopName + ")", Tags: tags}
		x.cands = append(x.cands, c)
		x.candOblig(reach, i, c, headPos(l), "holds on entry")
		out = append(out, loopCand{c, h, f})
	}
	// values
	var vals []cval
	for _, p := range phis {
		p := p
		if init[p].K != kTerm {
			continue
		}
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		vals = append(vals, cval{nm, p.Type(), func(v map[ssa.Value]SV, st *State) (SV, bool) {
			r, ok := v[p]
			r.T = p.Type()
			return r, ok && r.K == kTerm
		}, true})
	}
	var outside []cval
	outSeen := map[ssa.Value]bool{}
	addOut := func(v ssa.Value) {
		if outSeen[v] || v == nil {
			return
		}
		outSeen[v] = true
		var sv SV
		switch v := v.(type) {
		case *ssa.Const:
			return
		case *ssa.Function, *ssa.Global, *ssa.Builtin:
			return
		default:
			r, ok := fr.vals[v]
			if !ok {
				return
			}
			sv = r
		}
		if sv.K == kAddr && sv.A != nil && sv.A.Kind == "cell" {
			id := sv.A.Cell
			t := sv.A.T
			if cellRec[id] {
				nm := v.Name()
				if al, ok := v.(*ssa.Alloc); ok && al.Comment != "" {
					nm = al.Comment
				}
				if fv, ok := v.(*ssa.FreeVar); ok {
					nm = fv.Name()
				}
				vals = append(vals, cval{nm, t, func(_ map[ssa.Value]SV, st *State) (SV, bool) {
					r, ok := st.cells[id]
					r.T = t
					return r, ok && r.K == kTerm
				}, true})
			} else if cv, ok := pre.cells[id]; ok && cv.K == kTerm {
				cv.T = t
				nm := v.Name()
				if al, ok := v.(*ssa.Alloc); ok && al.Comment != "" {
					nm = al.Comment
				}
				outside = append(outside, cval{nm, t, func(map[ssa.Value]SV, *State) (SV, bool) { return cv, true }, false})
			}
			return
		}
		if sv.K != kTerm || v.Type() == nil {
			return
		}
		sv.T = v.Type()
		nm := v.Name()
		outside = append(outside, cval{nm, v.Type(), func(map[ssa.Value]SV, *State) (SV, bool) { return sv, true }, false})
	}
	inBody := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && in.Block() != nil && l.body[in.Block()]
	}
	for _, p := range fr.fn.Params {
		addOut(p)
	}
	for _, p := range fr.fn.FreeVars {
		addOut(p)
	}
	var cmps []*ssa.BinOp
	var bodyBlocks []*ssa.BasicBlock
	for _, b := range fr.fn.Blocks {
		if l.body[b] {
			bodyBlocks = append(bodyBlocks, b)
		}
	}
	for _, b := range bodyBlocks {
		for _, in := range b.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok {
				switch bo.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
					if sortOf(bo.X.Type()) == "Int" {
						cmps = append(cmps, bo)
					}
				}
			}
			var ops [16]*ssa.Value
			for _, o := range in.Operands(ops[:0]) {
				if *o != nil && !inBody(*o) {
					addOut(*o)
				}
			}
		}
	}
	// the counters of the loops around this one
	for _, b := range fr.fn.Blocks {
		l2 := fr.loops[b]
		if l2 == nil || l2 == l || !l2.body[l.header] {
			continue
		}
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok || sortOf(p.Type()) != "Int" || isPtr(p.Type()) {
				continue
			}
			if p.Comment != "rangeindex" {
				addOut(p)
				continue
			}
			if r, ok := fr.vals[p]; ok && r.K == kTerm {
				r.Term = "(+ " + r.Term + " 1)"
				r.T = tInt
				outside = append(outside, cval{"iter around " + p.Name(), tInt, func(map[ssa.Value]SV, *State) (SV, bool) { return r, true }, false})
			}
		}
	}
	isPhi := func(v ssa.Value) *ssa.Phi {
		p, ok := v.(*ssa.Phi)
		if ok && p.Block() == l.header {
			return p
		}
		return nil
	}
	get1 := func(v ssa.Value) func(map[ssa.Value]SV, *State) (string, bool) {
		if p := isPhi(v); p != nil {
			return func(vs map[ssa.Value]SV, _ *State) (string, bool) {
				r, ok := vs[p]
				return r.Term, ok && r.K == kTerm
			}
		}
		if c, ok := v.(*ssa.Const); ok {
			t := x.constSV(c)
			return func(map[ssa.Value]SV, *State) (string, bool) { return t.Term, true }
		}
		if !inBody(v) {
			if r, ok := fr.vals[v]; ok && r.K == kTerm {
				return func(map[ssa.Value]SV, *State) (string, bool) { return r.Term, true }
			}
		}
		return nil
	}
	rel := func(op string, a, b func(map[ssa.Value]SV, *State) (string, bool)) func(map[ssa.Value]SV, *State) (string, bool) {
		return func(vs map[ssa.Value]SV, st *State) (string, bool) {
			s, ok := a(vs, st)
			if !ok {
				return "", false
			}
			t, ok := b(vs, st)
			if !ok {
				return "", false
			}
			return "(" + op + " " + s + " " + t + ")", true
		}
	}
	// integers against their initial value
	for _, v := range vals {
		v := v
		if sortOf(v.t) != "Int" || isPtr(v.t) {
			continue
		}
		if _, ok := v.t.Underlying().(*types.Basic); !ok {
			continue
		}
		i0, ok := v.get(init, pre)
		if !ok {
			continue
		}
		cur := func(vs map[ssa.Value]SV, st *State) (string, bool) {
			r, ok := v.get(vs, st)
			return r.Term, ok
		}
		c0 := func(map[ssa.Value]SV, *State) (string, bool) { return i0.Term, true }
		add(v.name+" >= its initial value", nil, rel(">=", cur, c0))
		add(v.name+" <= its initial value", nil, rel("<=", cur, c0))
	}
	for _, bo := range cmps {
		for _, sw := range []bool{false, true} {
			a, b := bo.X, bo.Y
			if sw {
				a, b = b, a
			}
			g2 := get1(b)
			if g2 == nil {
				continue
			}
			g1 := get1(a)
			off := ""
			var base ssa.Value = a
			if g1 == nil {
				if ad, ok := a.(*ssa.BinOp); ok && (ad.Op == token.ADD || ad.Op == token.SUB) {
					if k, ok := ad.Y.(*ssa.Const); ok && isPhi(ad.X) != nil {
						base = ad.X
						p := get1(ad.X)
						kt := x.constSV(k).Term
						op := ad.Op.String()
						off = op + kt
						g1 = func(vs map[ssa.Value]SV, st *State) (string, bool) {
							s, ok := p(vs, st)
							return "(" + op + " " + s + " " + kt + ")", ok
						}
					}
				}
			}
			if g1 == nil || isPhi(base) == nil {
				continue
			}
			nm := base.Name() + off
			for _, op := range []string{"<=", ">="} {
				add(fmt.Sprintf("%s %s %s", nm, op, b.Name()), nil, rel(op, g1, g2))
			}
		}
	}
	for _, v := range vals {
		v := v
		i0, ok := v.get(init, pre)
		if !ok {
			continue
		}
		switch v.t.Underlying().(type) {
		case *types.Slice:
			add("len("+v.name+") never shrinks", nil, func(vs map[ssa.Value]SV, st *State) (string, bool) {
				r, ok := v.get(vs, st)
				return fmt.Sprintf("(>= (slen_ %s) (slen_ %s))", r.Term, i0.Term), ok
			})
			add(v.name+" is the initial list or a new one", nil, func(vs map[ssa.Value]SV, st *State) (string, bool) {
				r, ok := v.get(vs, st)
				return fmt.Sprintf("(or (= (sbase %s) (sbase %s)) (>= (sbase %s) %s))", r.Term, i0.Term, r.Term, pre.h["nxt"]), ok
			})
			add(v.name+" is a new list", nil, func(vs map[ssa.Value]SV, st *State) (string, bool) {
				r, ok := v.get(vs, st)
				return fmt.Sprintf("(or (= (scap %s) 0) (>= (sbase %s) %s))", r.Term, r.Term, x.entry.h["nxt"]), ok
			})
			add("the elements of "+v.name+" that are frozen are below its length", nil, func(vs map[ssa.Value]SV, st *State) (string, bool) {
				r, ok := v.get(vs, st)
				f, ok2 := st.h["frz"]
				if !ok2 {
					f, ok2 = x.entry.h["frz"]
				}
				return fmt.Sprintf("(or (= (scap %s) 0) (>= (slen_ %s) (select %s (sbase %s))))", r.Term, r.Term, f, r.Term), ok && ok2
			})
		case *types.Pointer:
			add(v.name+" != nil", nil, func(vs map[ssa.Value]SV, st *State) (string, bool) {
				r, ok := v.get(vs, st)
				return "(< 0 " + r.Term + ")", ok
			})
		case *types.Interface:
			add(v.name+" != nil", nil, func(vs map[ssa.Value]SV, st *State) (string, bool) {
				r, ok := v.get(vs, st)
				return not(eq(r.Term, "vnil")), ok
			})
		}
	}
	// the number of completed rounds of a range over a list
	for _, v := range append([]cval{}, vals...) {
		v := v
		if v.name != "rangeindex" {
			continue
		}
		vals = append(vals, cval{"iter", tInt, func(vs map[ssa.Value]SV, st *State) (SV, bool) {
			r, ok := v.get(vs, st)
			r.Term = "(+ " + r.Term + " 1)"
			return r, ok
		}, true})
	}
	// iterators over strings
	var cells []int
	for c := range cellRec {
		cells = append(cells, c)
	}
	sort.Ints(cells)
	for _, c := range cells {
		c := c
		it, ok := x.iters[c]
		if !ok || it.K != kTerm || it.T == nil || sortOf(it.T) != "Str" {
			continue
		}
		vals = append(vals, cval{"iter", tInt, func(_ map[ssa.Value]SV, st *State) (SV, bool) {
			r, ok := st.cells[c]
			r.T = tInt
			return r, ok && r.K == kTerm
		}, true})
		add(fmt.Sprintf("string iterator %d in range", c), nil, func(vs map[ssa.Value]SV, st *State) (string, bool) {
			r, ok := st.cells[c]
			return fmt.Sprintf("(and (<= 0 %s) (<= %s (slen %s)))", r.Term, r.Term, it.Term), ok && r.K == kTerm
		})
	}
	// heaps: objects that existed before keep their contents
	var hs []string
	for h := range hst.h {
		hs = append(hs, h)
	}
	sort.Strings(hs)
	for _, h := range hs {
		h := h
		srt := x.sorts["heap:"+h]
		if len(srt) < 11 || srt[:11] != "(Array Int " || hst.h[h] == pre.h[h] {
			continue
		}
		for k, bound := range []string{pre.h["nxt"], x.entry.h["nxt"]} {
			bound := bound
			if k == 1 && bound == pre.h["nxt"] {
				continue
			}
			base := pre.h[h]
			if base == "" {
				continue
			}
			add(fmt.Sprintf("%s unchanged for objects older than the %s", h, []string{"loop", "call"}[k]), nil, func(vs map[ssa.Value]SV, st *State) (string, bool) {
				cur := st.h[h]
				if cur == "" {
					return "", false
				}
				if cur == base {
					return "true", true
				}
				return fmt.Sprintf("(forall ((q Int)) (! (=> (< q %s) (= (select %s q) (select %s q))) :pattern ((select %s q))))", bound, cur, base, cur), true
			})
		}
		if h == "frz" {
			base := pre.h[h]
			add("frozen prefixes never shrink", nil, func(vs map[ssa.Value]SV, st *State) (string, bool) {
				cur := st.h[h]
				if cur == base {
					return "true", true
				}
				return fmt.Sprintf("(forall ((q Int)) (! (<= (select %s q) (select %s q)) :pattern ((select %s q))))", base, cur, cur), cur != ""
			})
		}
	}
	// user supplied candidates
	mkEnv := func(vs map[ssa.Value]SV, st *State) *Env {
		e := *x.ent
		e.st = st
		e.pre = pre
		e.vars = map[string]SV{}
		for k, v := range x.ent.vars {
			e.vars[k] = v
		}
		for _, o := range outside {
			if v, ok := o.get(vs, st); ok {
				e.vars[o.name] = v
			}
		}
		for _, o := range vals {
			if v, ok := o.get(vs, st); ok {
				e.vars[o.name] = v
			}
		}
		return &e
	}
	var specs []Clause
	if x.fspec != nil {
		specs = append(specs, x.fspec.Loops...)
	}
	if fs := x.sp.specFor(fr.fn, x.w.keyOf(fr.fn)); fs != nil && fs != x.fspec {
		specs = append(specs, fs.Loops...)
	}
	for i := range specs {
		cl := &specs[i]
		add(cl.Src, cl.Tags, func(vs map[ssa.Value]SV, st *State) (string, bool) {
			f, err := mkEnv(vs, st).boolExpr(cl.Expr)
			if err != nil {
				x.dbg("loop candidate %s: %v", cl.Src, err)
			}
			return f, err == nil
		})
	}
	for _, t := range x.sp.templates {
		if k := strings.IndexByte(t.Name, '@'); k >= 0 && !x.contractMentions(t.Name[k+1:]) {
			continue
		}
		x.templateCands(t, append(append([]cval{}, vals...), outside...), pre, add)
	}
	return out
}

// contractMentions: does a clause of the contract under verification contain the word?
func (x *Exec) contractMentions(w string) bool {
	if x.fspec == nil {
		return false
	}
	if strings.HasSuffix(x.fnKey, "."+w) {
		return true
	}
	for _, cs := range [][]Clause{x.fspec.Requires, x.fspec.Ensures, x.fspec.Defines, x.fspec.Loops} {
		for _, c := range cs {
			if strings.Contains(c.Src, w) {
				return true
			}
		}
	}
	return false
}

// tempName: a value without a name in the source
func tempName(n string) bool {
	if len(n) < 2 || n[0] != 't' {
		return false
	}
	for _, c := range n[1:] {
		if c < '0' || c > '9' {
			return false
		}
	}
	return true
}

func headPos(l *loopInfo) token.Pos {
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

// templateCands instantiates a template with every combination of values whose types match its parameters.
func (x *Exec) templateCands(t *Macro, vals []cval, pre *State, add func(string, []string, func(map[ssa.Value]SV, *State) (string, bool))) {
	env := &Env{x: x}
	if p := x.w.byName[t.Pkg]; p != nil {
		env.pkg = p.Pkg
	}
	var want []types.Type
	for _, ts := range t.Types {
		te, err := parser.ParseExpr(ts)
		if err != nil {
			return
		}
		ty, err := env.lookupType(te)
		if err != nil {
			return
		}
		want = append(want, ty)
	}
	n := 0
	var rec func(k int, chosen []cval)
	rec = func(k int, chosen []cval) {
		if n > 300 {
			return
		}
		if k == len(want) {
			n++
			cs := append([]cval{}, chosen...)
			desc := t.Name + "("
			anyPhi := false
			for i, c := range cs {
				if i > 0 {
					desc += ","
				}
				desc += c.name
				anyPhi = anyPhi || c.phi
			}
			desc += ")"
			tags := t.Clauses[0].Tags
			add(desc, tags, func(vs map[ssa.Value]SV, st *State) (string, bool) {
				e := &Env{x: x, st: st, old: x.entry, pre: pre, pkg: env.pkg, vars: map[string]SV{}}
				for k, v := range x.ent.vars {
					e.vars[k] = v
				}
				for _, c := range vals {
					if c.name == "iter" {
						if v, ok := c.get(vs, st); ok {
							e.vars["iter"] = v
						}
					}
				}
				for i, c := range cs {
					v, ok := c.get(vs, st)
					if !ok {
						return "", false
					}
					e.vars[t.Params[i]] = v
				}
				f, err := e.boolExpr(t.Body)
				if err != nil {
					x.dbg("template %s: %v", t.Name, err)
				}
				return f, err == nil
			})
			return
		}
		for _, v := range vals {
			if types.Identical(v.t, want[k]) {
				// in a big function the lists without a name are not worth trying
				if _, sl := v.t.Underlying().(*types.Slice); sl && !v.phi && tempName(v.name) && len(vals) > 30 {
					continue
				}
				dup := false
				for _, c := range chosen {
					if c.name == v.name {
						dup = true
					}
				}
				if !dup {
					rec(k+1, append(chosen, v))
				}
			}
		}
	}
	rec(0, nil)
}

var _ = ast.NewIdent
