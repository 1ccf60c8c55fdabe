package main

import (
	"fmt"
	"sort"
	"strings"
)

const preludeText = `
(declare-sort Str 0)
(declare-sort Flt 0)
(declare-sort Opq 0)
(declare-datatypes ((Slice 0)) (((mkslice (sbase Int) (slen_ Int) (scap Int)))))
(declare-datatypes ((Val 0)) (((vnil) (vref (vt Int) (vr Int)) (vstr (st Int) (vs Str)) (vint (it Int) (vi Int)) (vbool (bt Int) (vb Bool)) (vflt (ft Int) (vf Flt)) (vslc (slt Int) (vsl Slice)) (vopq (ot Int) (oi Int)))))
(define-fun tagof ((v Val)) Int (ite ((_ is vref) v) (vt v) (ite ((_ is vstr) v) (st v) (ite ((_ is vint) v) (it v) (ite ((_ is vbool) v) (bt v) (ite ((_ is vflt) v) (ft v) (ite ((_ is vslc) v) (slt v) (ite ((_ is vopq) v) (ot v) 0))))))))
(define-fun sliceok ((s Slice) (n Int)) Bool (and (<= 0 (sbase s)) (< (sbase s) n) (<= 0 (slen_ s)) (<= (slen_ s) (scap s)) (=> (= (sbase s) 0) (= (scap s) 0))))
(define-fun hashable ((v Val)) Bool (not ((_ is vslc) v)))
(declare-fun etype (Int) Int)
(declare-fun slen (Str) Int)
(declare-fun sat (Str Int) Int)
(declare-fun ssub (Str Int Int) Str)
(declare-fun sconcat (Str Str) Str)
(declare-fun slt (Str Str) Bool)
(declare-fun rdecat (Str Int) Int)
(declare-fun rszat (Str Int) Int)
(declare-fun runestr (Int) Str)
(declare-fun bytestr (Int) Str)
(define-fun runeok ((s Str) (i Int)) Bool (and (<= 1 (rszat s i)) (<= (rszat s i) 4) (<= (+ i (rszat s i)) (slen s)) (<= 0 (rdecat s i)) (<= (rdecat s i) 1114111) (<= 0 (sat s i)) (<= (sat s i) 255)
  (=> (< (sat s i) 128) (and (= (rszat s i) 1) (= (rdecat s i) (sat s i))))
  (=> (>= (sat s i) 128) (and (>= (rdecat s i) 128) (=> (= (rszat s i) 1) (= (rdecat s i) 65533))))
  (=> (and (>= (rdecat s i) 128) (< (rdecat s i) 2048)) (= (rszat s i) 2))
  (=> (and (>= (rdecat s i) 2048) (< (rdecat s i) 65536) (not (= (rdecat s i) 65533))) (= (rszat s i) 3))
  (=> (= (rdecat s i) 65533) (or (= (rszat s i) 1) (= (rszat s i) 3)))
  (=> (>= (rdecat s i) 65536) (= (rszat s i) 4))))
(assert (forall ((s Str)) (! (<= 0 (slen s)) :pattern ((slen s)))))
(assert (forall ((s Str) (i Int)) (! (and (<= 0 (sat s i)) (<= (sat s i) 255)) :pattern ((sat s i)))))
(assert (forall ((s Str) (a Int) (b Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (slen s))) (= (slen (ssub s a b)) (- b a))) :pattern ((ssub s a b)))))
(assert (forall ((s Str) (a Int) (b Int) (k Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (slen s)) (<= 0 k) (< k (- b a))) (= (sat (ssub s a b) k) (sat s (+ a k)))) :pattern ((sat (ssub s a b) k)))))
(assert (forall ((s Str) (a Int) (k Int)) (! (=> (and (<= 0 a) (<= 0 k) (< (+ a k) (slen s))) (and (= (rdecat (ssub s a (slen s)) k) (rdecat s (+ a k))) (= (rszat (ssub s a (slen s)) k) (rszat s (+ a k))))) :pattern ((rdecat (ssub s a (slen s)) k)) :pattern ((rszat (ssub s a (slen s)) k)))))
(assert (forall ((s Str) (t Str)) (! (= (slen (sconcat s t)) (+ (slen s) (slen t))) :pattern ((sconcat s t)))))
(assert (forall ((s Str) (t Str) (k Int)) (! (= (sat (sconcat s t) k) (ite (< k (slen s)) (sat s k) (sat t (- k (slen s))))) :pattern ((sat (sconcat s t) k)))))
(assert (forall ((a Str) (b Str) (c Str)) (! (= (sconcat (sconcat a b) c) (sconcat a (sconcat b c))) :pattern ((sconcat (sconcat a b) c)))))
(assert (forall ((b Int)) (! (and (= (slen (bytestr b)) 1) (=> (and (<= 0 b) (<= b 255)) (= (sat (bytestr b) 0) b))) :pattern ((bytestr b)))))
(assert (forall ((r Int)) (! (and (<= 1 (slen (runestr r))) (<= (slen (runestr r)) 4) (=> (and (<= 0 r) (< r 128)) (= (runestr r) (bytestr r)))) :pattern ((runestr r)))))
`

// preamble builds everything that precedes the items of a function.
func (x *Exec) preamble() string {
	var b strings.Builder
	b.WriteString(preludeText)
	// literals
	var names []string
	for i, s := range x.litOrd {
		n := x.lits[s]
		fmt.Fprintf(&b, "(declare-const %s Str)\n(assert (= (slen %s) %d))\n", n, n, len(s))
		if len(s) <= 24 {
			for k := 0; k < len(s); k++ {
				fmt.Fprintf(&b, "(assert (= (sat %s %d) %d))\n", n, k, s[k])
			}
		}
		if len(s) == 1 {
			fmt.Fprintf(&b, "(assert (= (bytestr %d) %s))\n", s[0], n)
		}
		names = append(names, n)
		_ = i
	}
	if len(names) > 1 {
		b.WriteString("(assert (distinct " + strings.Join(names, " ") + "))\n")
	}
	if n, ok := x.lits[""]; ok {
		fmt.Fprintf(&b, "(assert (forall ((s Str)) (! (=> (= (slen s) 0) (= s %s)) :pattern ((slen s)))))\n", n)
		fmt.Fprintf(&b, "(assert (forall ((s Str)) (! (and (= (sconcat s %s) s) (= (sconcat %s s) s)) :pattern ((sconcat s %s)) :pattern ((sconcat %s s)))))\n", n, n, n, n)
	}
	for _, l := range sortedLogic(x.sp.logic) {
		lf := x.sp.logic[l]
		fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", lf.Name, strings.Join(lf.Args, " "), lf.Res)
	}
	for _, s := range x.sp.smt {
		b.WriteString(x.substSmt(s))
	}
	return b.String()
}

func sortedLogic(m map[string]*LogicFn) []string {
	k := map[string]bool{}
	for n := range m {
		k[n] = true
	}
	return sortedKeys(k)
}

// substSmt replaces ${lit "x"} by the constant of a string literal and ${tag *T} by a type tag.
func (x *Exec) substSmt(s string) string {
	for {
		i := strings.Index(s, "${")
		if i < 0 {
			return s
		}
		j := strings.IndexByte(s[i:], '}') + i
		inner := s[i+2 : j]
		rep := "?"
		switch {
		case strings.HasPrefix(inner, "lit "):
			rep = x.lits[strings.Trim(inner[4:], "\"")]
			if rep == "" {
				rep = "lit_missing"
			}
		case strings.HasPrefix(inner, "tag "):
			x.w.mu.Lock()
			for k, n := range x.w.tags {
				if k == strings.TrimSpace(inner[4:]) {
					rep = fmt.Sprint(n)
				}
			}
			x.w.mu.Unlock()
		}
		s = s[:i] + rep + s[j+1:]
	}
}

// rematch declares the predicate "the pattern held by a package-level variable matches the text".
func (x *Exec) rematch(re, s string) string {
	x.declFun("rematch", []string{"Int", "Str"}, "Bool")
	return "(rematch " + re + " " + s + ")"
}

// regexFacts decides, for every literal string of the task, whether the package-level patterns match it.
func (x *Exec) regexFacts() {
	if !x.decls["rematch"] && !x.decls["subexps"] {
		return
	}
	for g, re := range x.w.regexps {
		v, ok := x.globals[g.String()]
		if !ok {
			continue
		}
		if x.decls["subexps"] {
			x.late = append(x.late, fmt.Sprintf("(assert (= (subexps %s) %d))", v.Term, re.NumSubexp()))
		}
		if !x.decls["rematch"] {
			continue
		}
		for _, l := range x.litOrd {
			f := "(rematch " + v.Term + " " + x.lits[l] + ")"
			if !re.MatchString(l) {
				f = not(f)
			}
			x.late = append(x.late, "(assert "+f+")")
		}
	}
	sort.Strings(x.late)
}
