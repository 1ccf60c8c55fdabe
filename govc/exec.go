package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Item is one element of the generated script.
type Item struct {
	Raw    string // declaration or assertion, emitted as is
	Assume string // assertion of a fact
	Ob     *Oblig
	Cand   *Cand // the fact / obligation belongs to an inferred-invariant candidate
}

// Oblig is a proof obligation.
type Oblig struct {
	ID    int
	Goal  string
	Kind  string // safety, requires, ensures, object-invariant, invariant, frame, unsupported, unreachable
	Tags  []string
	Pos   string
	Desc  string
	Fn    string
	Cand  *Cand
	Extra map[string]string
	// result
	Status string // proved, failed
	By     string
	Secs   float64
	Model  string
}

// Cand is a candidate loop invariant.
type Cand struct {
	ID     int
	Loop   string
	Desc   string
	Dead   bool
	Why    string
	Tags   []string
	Clause *Clause
}

type frameRef struct{ heap, ref string } // heap "*": all heaps of struct

// Exec translates one function under contract.
type Exec struct {
	w                    *World
	sp                   *Spec
	items                []Item
	dry                  int
	seq                  int
	nob                  int
	ncand                int
	cellN                int
	fnKey                string
	fn                   *ssa.Function
	fspec                *FuncSpec
	entry                *State
	names                map[string]int // fresh constant -> sequence number
	sorts                map[string]string
	decls                map[string]bool // already declared logic symbols
	lits                 map[string]string
	litOrd               []string
	joinOnce             sync.Once
	joins                map[string][]string          // reach conditions of joins: the edges that meet
	recs                 []map[string]map[string]bool // modification recorders: heap -> refs
	cells                []map[int]bool
	stack                []*ssa.Function
	ent                  *Env // entry environment (parameters)
	mayW                 map[string]bool
	frames               map[string][]string // heap -> refs that may be written although not fresh; "*" any
	needs                map[string]bool     // functions whose default contract was used
	loopN                int
	unsup                int
	exits                []exitEdge
	invDone              map[string]bool
	cands                []*Cand
	debug                bool
	usedExtern           map[string]bool
	usedAssumed          map[string]bool
	panicPolicy          string
	panicEdges           *[]exitEdge // collects panicking exits when a function recovers
	building             map[string]bool
	newRefs              map[string]bool
	debugKill            string
	hints                Hints
	task                 string
	elemTags             map[string]int
	activeLoops          []*loopInfo
	recoverVal           string
	feGoal               bool // the formula under evaluation is something to prove
	execCount, execLimit int
	overLimit            bool
	qn                   int
	mutGlobals           map[string]bool
	iters                map[int]SV
	readMaps             map[string]bool
	roRefs               map[string]bool
	globals              map[string]SV
	mono                 int
	callDepth            int
	eff                  *effTable
	callees              map[string]bool
	loopOrd              int
	late                 []string
}

type exitEdge struct {
	reach string
	st    *State
	vals  []SV
}

func (x *Exec) emit(it Item) {
	if x.dry == 0 {
		x.items = append(x.items, it)
	}
}

func (x *Exec) fresh(prefix, sort string) string {
	x.seq++
	n := fmt.Sprintf("%s!%d", sanitize(prefix), x.seq)
	x.names[n] = x.seq
	x.sorts[n] = sort
	x.emit(Item{Raw: "(declare-const " + n + " " + sort + ")"})
	return n
}

func (x *Exec) named(prefix, sort, t string) string {
	if !strings.Contains(t, " ") {
		return t
	}
	n := x.fresh(prefix, sort)
	x.emit(Item{Raw: "(assert (= " + n + " " + t + "))"})
	return n
}

func (x *Exec) assume(reach, f string) {
	f = implies(reach, f)
	if f != "true" {
		x.emit(Item{Assume: f})
	}
}

func (x *Exec) posOf(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	ps := x.w.prog.Fset.Position(p)
	f := ps.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (x *Exec) oblig(reach, cond, kind string, tags []string, pos token.Pos, desc string) {
	if reach == "false" {
		return
	}
	g := implies(reach, cond)
	if x.dry > 0 {
		return
	}
	if splitGoals {
		if cs := conjuncts(cond); len(cs) > 1 {
			for _, c := range cs {
				x.oblig(reach, c, kind, tags, pos, desc+" {"+c+"}")
			}
			return
		}
	}
	x.nob++
	o := &Oblig{ID: x.nob, Goal: g, Kind: kind, Tags: tags, Pos: x.posOf(pos), Desc: desc, Fn: x.fnKey}
	x.emit(Item{Ob: o})
}

// splitGoals makes every conjunct an obligation of its own (to find out which one fails).
var splitGoals = os.Getenv("GOVC_SPLIT") != ""

func conjuncts(f string) []string {
	args := sexprs(f, "(and ")
	if args == nil {
		if args = sexprs(f, "(=> "); len(args) == 2 {
			var r []string
			for _, c := range conjuncts(args[1]) {
				r = append(r, "(=> "+args[0]+" "+c+")")
			}
			return r
		}
		if strings.HasPrefix(f, "(forall ((") && !strings.Contains(f, ":pattern") {
			if args = sexprs(f, "(forall "); len(args) == 2 {
				var r []string
				for _, c := range conjuncts(args[1]) {
					r = append(r, "(forall "+args[0]+" "+c+")")
				}
				return r
			}
		}
		return []string{f}
	}
	var r []string
	for _, a := range args {
		r = append(r, conjuncts(a)...)
	}
	return r
}

// sexprs splits the arguments of "(op a b c)".
func sexprs(f, op string) []string {
	if !strings.HasPrefix(f, op) {
		return nil
	}
	var r []string
	d, st := 0, -1
	for i := len(op); i < len(f)-1; i++ {
		switch {
		case f[i] == '(':
			if d == 0 && st < 0 {
				st = i
			}
			d++
		case f[i] == ')':
			d--
		case f[i] == ' ' && d == 0:
			if st >= 0 {
				r = append(r, f[st:i])
				st = -1
			}
		default:
			if st < 0 {
				st = i
			}
		}
	}
	if st >= 0 {
		r = append(r, f[st:len(f)-1])
	}
	return r
}

func (x *Exec) safety(reach, cond string, pos token.Pos, desc string) {
	if cond == "true" {
		return
	}
	x.oblig(reach, cond, "safety", x.sp.safetyTags(x.fnKey), pos, desc)
}

func (x *Exec) unsupported(reach string, pos token.Pos, what string) {
	x.unsup++
	x.oblig(reach, "false", "unsupported", []string{"*"}, pos, "construct outside the translator's reach: "+what)
}

// ---- literals, types ----

func (x *Exec) strLit(s string) string {
	if n, ok := x.lits[s]; ok {
		return n
	}
	n := fmt.Sprintf("lit!%d", len(x.lits))
	x.lits[s] = n
	x.litOrd = append(x.litOrd, s)
	return n
}

// declFun declares an uninterpreted function once.
func (x *Exec) declFun(name string, args []string, res string) string {
	if !x.decls[name] {
		x.decls[name] = true
		// declarations must survive dry runs
		x.items = append(x.items, Item{Raw: "(declare-fun " + name + " (" + strings.Join(args, " ") + ") " + res + ")"})
	}
	return name
}

func (x *Exec) constSV(c *ssa.Const) SV { return x.constant(c.Value, c.Type()) }

func (x *Exec) constant(v constant.Value, t types.Type) SV {
	if v == nil {
		return x.zero(t)
	}
	u, _ := t.Underlying().(*types.Basic)
	if u == nil {
		return term(t, "true")
	}
	switch {
	case u.Info()&types.IsBoolean != 0:
		if constant.BoolVal(v) {
			return term(t, "true")
		}
		return term(t, "false")
	case u.Info()&types.IsInteger != 0:
		i := constant.ToInt(v)
		s := i.ExactString()
		if strings.HasPrefix(s, "-") {
			s = "(- " + s[1:] + ")"
		}
		return term(t, s)
	case u.Info()&types.IsString != 0:
		return term(t, x.strLit(constant.StringVal(v)))
	case u.Info()&types.IsFloat != 0:
		nm := "flt_" + sanitize(v.ExactString())
		x.declFun(nm, nil, "Flt")
		return term(t, nm)
	}
	return term(t, x.fresh("const", sortOf(t)))
}

func (x *Exec) zero(t types.Type) SV {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch sortOf(t) {
		case "Bool":
			return term(t, "false")
		case "Int":
			return term(t, "0")
		case "Str":
			return term(t, x.strLit(""))
		case "Flt":
			x.declFun("flt_0", nil, "Flt")
			return term(t, "flt_0")
		case "Val":
			return term(t, "vnil")
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return term(t, "0")
	case *types.Interface:
		return term(t, "vnil")
	case *types.Slice:
		return term(t, "(mkslice 0 0 0)")
	case *types.Struct:
		r := SV{K: kStruct, T: t}
		for i := 0; i < u.NumFields(); i++ {
			r.Fs = append(r.Fs, x.zero(u.Field(i).Type()))
		}
		return r
	}
	return term(t, x.fresh("zero", sortOf(t)))
}

// freshSV returns an arbitrary value of a type together with its typing facts.
func (x *Exec) freshSV(prefix string, t types.Type, reach string, st *State) SV {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		r := SV{K: kStruct, T: t}
		for i := 0; i < u.NumFields(); i++ {
			r.Fs = append(r.Fs, x.freshSV(prefix+"_"+u.Field(i).Name(), u.Field(i).Type(), reach, st))
		}
		return r
	case *types.Tuple:
		r := SV{K: kTuple, T: t}
		for i := 0; i < u.Len(); i++ {
			r.Fs = append(r.Fs, x.freshSV(fmt.Sprint(prefix, "_", i), u.At(i).Type(), reach, st))
		}
		return r
	case *types.Signature:
		return SV{K: kOpaqueFn, T: t, Term: x.fresh(prefix, "Int")}
	}
	s := sortOf(t)
	if s == "" {
		s = "Opq"
	}
	r := term(t, x.fresh(prefix, s))
	x.typing(r, reach, st)
	return r
}

// typing assumes what every value of a static type satisfies.
func (x *Exec) typing(v SV, reach string, st *State) {
	if v.K == kStruct || v.K == kTuple {
		for _, f := range v.Fs {
			x.typing(f, reach, st)
		}
		return
	}
	if v.K != kTerm {
		return
	}
	nxt := st.h["nxt"]
	switch u := v.T.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Uint8:
			x.assume(reach, "(<= 0 "+v.Term+" 255)")
		case types.Uint, types.Uint16, types.Uint32, types.Uint64:
			x.assume(reach, "(<= 0 "+v.Term+")")
		case types.Int32:
			x.assume(reach, "(<= (- 2147483648) "+v.Term+" 2147483647)")
		case types.Int64, types.Int:
			x.assume(reach, "(<= (- 9223372036854775808) "+v.Term+" 9223372036854775807)")
		}
	case *types.Pointer, *types.Map:
		x.assume(reach, "(and (<= 0 "+v.Term+") (< "+v.Term+" "+nxt+"))")
	case *types.Slice:
		x.assume(reach, x.sliceOK(v.Term, nxt))
		b := x.sbase(v.Term)
		x.assume(reach, fmt.Sprintf("(or (= %s 0) (= (etype %s) %d))", b, b, x.elemTag(u.Elem())))
	case *types.Interface:
		x.assume(reach, x.ifaceOK(v.T, v.Term, nxt))
	}
}

// elemTag numbers the element types of arrays: arrays of different element types never share storage.
func (x *Exec) elemTag(t types.Type) int {
	h := elemHeap(t)
	if x.elemTags == nil {
		x.elemTags = map[string]int{}
	}
	if _, ok := x.elemTags[h]; !ok {
		x.elemTags[h] = len(x.elemTags) + 1
	}
	return x.elemTags[h]
}

// newArray allocates the storage of a slice.
func (x *Exec) newArray(st *State, prefix string, et types.Type) string {
	r := x.newRef(st, prefix)
	x.emit(Item{Raw: fmt.Sprintf("(assert (= (etype %s) %d))", r, x.elemTag(et))})
	return r
}

func (x *Exec) sliceOK(s, nxt string) string {
	return fmt.Sprintf("(sliceok %s %s)", s, nxt)
}

func (x *Exec) ifaceOK(t types.Type, v, nxt string) string {
	f := fmt.Sprintf("(and (=> ((_ is vref) %s) (and (< 0 (vr %s)) (< (vr %s) %s))) (=> ((_ is vslc) %s) (sliceok (vsl %s) %s)))", v, v, v, nxt, v, v, nxt)
	if x.w.closedWorld(t) {
		f = "(and " + f + " (or (= " + v + " vnil) " + x.implPred(t, v) + "))"
	}
	return f
}

// implPred is the formula "v's dynamic type implements t"; it is a named predicate per interface.
func (x *Exec) implPred(t types.Type, v string) string {
	name := "impl_" + sanitize(typeStr(t))
	if !x.decls[name] {
		x.decls[name] = true
		var alts []string
		for _, it := range x.w.implementers(t) {
			alts = append(alts, x.isTag("v", it))
		}
		body := or(alts...)
		if !x.w.closedWorld(t) {
			// other implementations may exist
			x.items = append(x.items, Item{Raw: fmt.Sprintf("(declare-fun %s_ext (Int) Bool)", name)})
			var no []string
			for _, tt := range x.w.knownTypes() {
				if !types.Implements(tt, t.Underlying().(*types.Interface)) {
					no = append(no, fmt.Sprintf("(not (%s_ext %d))", name, x.w.tag(tt)))
				}
			}
			body = or(body, fmt.Sprintf("(and (not (= v vnil)) (%s_ext (tagof v)))", name))
			x.items = append(x.items, Item{Raw: "(assert " + and(no...) + ")"})
		}
		x.items = append(x.items, Item{Raw: fmt.Sprintf("(define-fun %s ((v Val)) Bool %s)", name, body)})
	}
	return "(" + name + " " + v + ")"
}

// isTag is the formula "the interface value v holds exactly dynamic type t".
func (x *Exec) isTag(v string, t types.Type) string {
	tg := x.w.tag(t)
	switch c := boxCtor(t); c {
	case "vref", "vstr", "vint", "vbool", "vflt", "vslc", "vopq":
		sel := map[string]string{"vref": "vt", "vstr": "st", "vint": "it", "vbool": "bt", "vflt": "ft", "vslc": "slt", "vopq": "ot"}[c]
		return fmt.Sprintf("(and ((_ is %s) %s) (= (%s %s) %d))", c, v, sel, v, tg)
	}
	return "false"
}

func boxCtor(t types.Type) string {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "vref"
	}
	switch sortOf(t) {
	case "Str":
		return "vstr"
	case "Int":
		return "vint"
	case "Bool":
		return "vbool"
	case "Flt":
		return "vflt"
	case "Slice":
		return "vslc"
	}
	return "vopq"
}

func (x *Exec) box(v SV, reach string) string {
	if v.T != nil {
		if _, ok := v.T.Underlying().(*types.Interface); ok {
			return v.Term
		}
	}
	tg := x.w.tag(v.T)
	c := boxCtor(v.T)
	if c == "vopq" {
		p := "0"
		if s, ok := v.T.Underlying().(*types.Struct); !ok || s.NumFields() > 0 {
			p = x.fresh("opq", "Int")
		}
		return fmt.Sprintf("(vopq %d %s)", tg, p)
	}
	if v.K != kTerm && v.K != kOpaqueFn {
		return fmt.Sprintf("(vopq %d %s)", tg, x.fresh("opq", "Int"))
	}
	return fmt.Sprintf("(%s %d %s)", c, tg, v.Term)
}

func (x *Exec) unbox(v string, t types.Type) SV {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return term(t, v)
	}
	switch boxCtor(t) {
	case "vref":
		return term(t, "(vr "+v+")")
	case "vstr":
		return term(t, "(vs "+v+")")
	case "vint":
		return term(t, "(vi "+v+")")
	case "vbool":
		return term(t, "(vb "+v+")")
	case "vflt":
		return term(t, "(vf "+v+")")
	case "vslc":
		return term(t, "(vsl "+v+")")
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		r := SV{K: kStruct, T: t}
		for i := 0; i < s.NumFields(); i++ {
			r.Fs = append(r.Fs, x.freshSV("unbox", s.Field(i).Type(), "true", x.entry))
		}
		return r
	}
	return term(t, x.fresh("unbox", sortOf(t)))
}

// ---- heaps ----

func (x *Exec) heapSort(h string) string {
	if s, ok := x.sorts["heap:"+h]; ok {
		return s
	}
	return ""
}

// heap returns the current version of a heap, creating it at function entry when first used.
func (x *Exec) heap(st *State, h, sort string) string {
	x.sorts["heap:"+h] = sort
	if t, ok := st.h[h]; ok {
		return t
	}
	t, ok := x.entry.h[h]
	if !ok {
		t = "H0_" + sanitize(h)
		x.sorts[t] = sort
		x.names[t] = 0
		x.items = append(x.items, Item{Raw: "(declare-const " + t + " " + sort + ")"})
		x.entry.h[h] = t
		if strings.HasPrefix(h, "E_") {
			es := strings.TrimSuffix(strings.TrimPrefix(sort, "(Array Int (Array Int "), "))")
			fe := x.declFun("fe_"+h, []string{"Int", "Int"}, es)
			x.items = append(x.items, Item{Raw: fmt.Sprintf("(assert (forall ((q Int) (k Int)) (! (=> (and (<= 0 k) (< k (select H0_frz q))) (= (select (select %s q) k) (%s q k))) :pattern ((select (select %s q) k)))))", t, fe, t)})
		}
	}
	st.h[h] = t
	return t
}

func (x *Exec) record(h, ref string) {
	for _, r := range x.recs {
		if r[h] == nil {
			r[h] = map[string]bool{}
		}
		r[h][ref] = true
	}
}

func (x *Exec) recordCell(c int) {
	for _, m := range x.cells {
		m[c] = true
	}
}

func (x *Exec) setHeap(st *State, h, sort, val string, ref string) {
	st.h[h] = x.named(h, sort, val)
	x.record(h, ref)
}

// frameOK: is writing heap h at ref permitted by the contract of the function under verification?
func (x *Exec) frameOK(h, ref string) string {
	for _, r := range x.frames[h] {
		if r == "*" || r == ref {
			return "true"
		}
	}
	alts := []string{"(>= " + ref + " " + x.entry.h["nxt"] + ")"}
	for _, r := range x.frames[h] {
		alts = append(alts, eq(r, ref))
	}
	return or(alts...)
}

func (x *Exec) loadField(st *State, n *types.Named, f *types.Var, ref string, reach string) SV {
	if fs, ok := f.Type().Underlying().(*types.Struct); ok {
		fn, _ := f.Type().(*types.Named)
		r := SV{K: kStruct, T: f.Type()}
		for i := 0; i < fs.NumFields(); i++ {
			r.Fs = append(r.Fs, x.loadField(st, fn, fs.Field(i), ref, reach))
		}
		return r
	}
	h := fieldHeap(n, f)
	s := sortOf(f.Type())
	if x.w.finals[h] {
		fn := x.declFun("F_"+sanitize(h), []string{"Int"}, s)
		v := term(f.Type(), "("+fn+" "+ref+")")
		return v
	}
	return term(f.Type(), sel(x.heap(st, h, "(Array Int "+s+")"), ref))
}

// loadTyped loads a field and assumes its typing facts.
func (x *Exec) loadTyped(st *State, n *types.Named, f *types.Var, ref, reach string) SV {
	v := x.loadField(st, n, f, ref, reach)
	if v.K == kTerm && x.dry == 0 {
		key := v.Term + "@" + reach + "@" + st.h["nxt"]
		if !x.invDone[key] {
			x.invDone[key] = true
			x.typing(v, and(reach, "(< 0 "+ref+")"), st)
		}
		if key := v.Term + "@entry@" + reach; (x.w.finals[fieldHeap(n, f)] || x.unchanged(st, fieldHeap(n, f))) && !x.invDone[key] {
			// what an object refers to for good is not younger than the moment it was finished
			x.invDone[key] = true
			n0 := x.entry.h["nxt"]
			x.typing(v, and(reach, "(< 0 "+ref+")", "(< "+ref+" "+n0+")"), x.entry)
		}
		if _, ok := f.Type().Underlying().(*types.Slice); ok && (x.w.finals[fieldHeap(n, f)] || x.sp.sealed[fieldHeap(n, f)]) {
			// the lists of existing objects are frozen
			frz := x.heap(st, "frz", "(Array Int Int)")
			if key := v.Term + "@" + reach + "@" + frz; !x.invDone[key] {
				x.invDone[key] = true
				x.assume(and(reach, "(< 0 "+ref+")"), fmt.Sprintf("(<= %s (select %s %s))", x.slen(v.Term), frz, x.sbase(v.Term)))
			}
		}
	} else if v.K == kStruct {
		x.typing(v, reach, st)
	}
	return v
}

// unchanged: the heap is still the one the function started with.
func (x *Exec) unchanged(st *State, h string) bool {
	t, ok := st.h[h]
	return !ok || t == x.entry.h[h]
}

func (x *Exec) storeField(st *State, n *types.Named, f *types.Var, ref string, v SV, reach string, pos token.Pos, init bool) {
	if fs, ok := f.Type().Underlying().(*types.Struct); ok {
		fn, _ := f.Type().(*types.Named)
		for i := 0; i < fs.NumFields(); i++ {
			if v.K != kStruct || i >= len(v.Fs) {
				x.unsupported(reach, pos, "struct store")
				return
			}
			x.storeField(st, fn, fs.Field(i), ref, v.Fs[i], reach, pos, init)
		}
		return
	}
	h := fieldHeap(n, f)
	s := sortOf(f.Type())
	if v.K != kTerm && !(v.K == kOpaqueFn) {
		x.unsupported(reach, pos, "store of a function or address value in field "+h)
		return
	}
	if x.w.finals[h] {
		fn := x.declFun("F_"+sanitize(h), []string{"Int"}, s)
		if !init {
			x.unsupported(reach, pos, "write to construction-only field "+h)
			return
		}
		x.assume(reach, eq("("+fn+" "+ref+")", v.Term))
		if s == "Slice" {
			x.publish(st, f.Type(), v.Term, reach)
		}
		return
	}
	if x.sp.sealed[h] {
		x.publish(st, f.Type(), v.Term, reach)
	}
	cur := x.heap(st, h, "(Array Int "+s+")")
	if !init {
		if c := x.frameOK(h, ref); c != "true" {
			x.oblig(reach, c, "frame", []string{"*"}, pos, "write to "+h+" of an object that the contract does not allow to change")
		}
	}
	x.setHeap(st, h, "(Array Int "+s+")", store(cur, ref, v.Term), ref)
}

// publish freezes the elements of a slice that becomes part of an immutable object.
func (x *Exec) publish(st *State, t types.Type, s, reach string) {
	frz := x.heap(st, "frz", "(Array Int Int)")
	b, l := x.sbase(s), x.slen(s)
	if b == "0" {
		return
	}
	if u, ok := t.Underlying().(*types.Slice); ok && x.dry == 0 {
		h, es := x.elemHeapOf(u.Elem())
		if es != "" {
			e := x.heap(st, h, arr2(es))
			fe := x.frozenFn(h, arr2(es))
			x.assume(reach, fmt.Sprintf("(forall ((k Int)) (! (=> (and (<= 0 k) (< k %s)) (= (select (select %s %s) k) (%s %s k))) :pattern ((%s %s k)) :pattern ((select (select %s %s) k))))", l, e, b, fe, b, fe, b, e, b))
		}
	}
	x.setHeap(st, "frz", "(Array Int Int)", store(frz, b, fmt.Sprintf("(ite (< (select %s %s) %s) %s (select %s %s))", frz, b, l, l, frz, b)), b)
}

func (x *Exec) newRef(st *State, prefix string) string {
	r := x.fresh(prefix, "Int")
	x.emit(Item{Raw: "(assert (>= " + r + " " + st.h["nxt"] + "))"})
	x.newRefs[r] = true
	st.h["nxt"] = x.named("nxt", "Int", "(+ 1 "+r+")")
	x.record("nxt", "?")
	return r
}

// ---- object invariants ----

func (x *Exec) chainTypes(n *types.Named) []*types.Named {
	r := []*types.Named{n}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return r
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if fn, ok := f.Type().(*types.Named); ok {
			if _, ok := fn.Underlying().(*types.Struct); ok && inModule(fn.Obj().Pkg()) {
				r = append(r, x.chainTypes(fn)...)
			}
		}
	}
	return r
}

func (x *Exec) objInv(n *types.Named, ref string, st *State) []taggedFormula {
	var r []taggedFormula
	for _, c := range x.chainTypes(n) {
		for _, inv := range x.sp.invs[c.Obj().Name()] {
			if inv.Pkg != "" && c.Obj().Pkg().Name() != inv.Pkg {
				continue
			}
			env := &Env{x: x, st: st, old: st, vars: map[string]SV{inv.Recv: term(types.NewPointer(c), ref)}, pkg: c.Obj().Pkg()}
			for i := range inv.Clauses {
				cl := &inv.Clauses[i]
				f, err := env.boolExpr(cl.Expr)
				if err != nil {
					x.unsupported("true", token.NoPos, "object invariant "+cl.Src+": "+err.Error())
					continue
				}
				r = append(r, taggedFormula{f, cl.Tags, cl.Src})
			}
		}
	}
	return r
}

type taggedFormula struct {
	f    string
	tags []string
	src  string
}

// assumeInv assumes the invariant of the object behind ref (a value of static type *n).
func (x *Exec) assumeInv(n *types.Named, ref, reach string, st *State) {
	if x.dry > 0 || n == nil || !x.hasInv(n) {
		return
	}
	key := "inv:" + n.Obj().Name() + ":" + ref + ":" + reach
	for _, h := range []string{"Positioned.offset", "Positioned.length", "frz"} {
		key += ":" + st.h[h]
	}
	if x.invDone[key] {
		return
	}
	x.invDone[key] = true
	if x.underConstruction(ref) {
		return
	}
	for _, f := range x.objInv(n, ref, st) {
		x.assume(and(reach, "(< 0 "+ref+")", "(< "+ref+" "+st.h["nxt"]+")"), f.f)
	}
}

func (x *Exec) underConstruction(ref string) bool { return x.building[ref] }

func (x *Exec) hasInv(n *types.Named) bool {
	for _, c := range x.chainTypes(n) {
		if len(x.sp.invs[c.Obj().Name()]) > 0 {
			return true
		}
	}
	return false
}

// checkInv emits the object invariant of a newly built or changed object as obligations.
func (x *Exec) checkInv(n *types.Named, ref, reach string, st *State, pos token.Pos, what string) {
	if n == nil {
		return
	}
	x.feGoal = true
	fs := x.objInv(n, ref, st)
	x.feGoal = false
	for _, f := range fs {
		x.oblig(reach, f.f, "object-invariant", f.tags, pos, what+" *"+n.Obj().Name()+": "+f.src)
	}
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
