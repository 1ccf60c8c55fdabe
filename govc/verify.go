package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// task is one function to verify against one contract.
type task struct {
	f     *ssa.Function
	fs    *FuncSpec
	key   string
	via   *FuncSpec // interface contract that the function implements
	what  string
	lemma *Macro // a lemma to prove, instead of a function
}

// tasks lists everything under contract, in a deterministic order.
func allTasks(w *World, sp *Spec) ([]task, error) {
	var r []task
	var keys []string
	for k := range sp.funcs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fs := sp.funcs[k]
		if fs.Extern || fs.Trusted || fs.Inline {
			continue
		}
		if fs.Iface {
			parts := strings.Split(k, ".")
			if len(parts) != 3 || w.byName[parts[0]] == nil {
				return nil, fmt.Errorf("interface contract %s: no such interface", k)
			}
			tn, ok := w.byName[parts[0]].Pkg.Scope().Lookup(parts[1]).(*types.TypeName)
			if !ok {
				return nil, fmt.Errorf("interface contract %s: no such interface", k)
			}
			it := tn.Type().Underlying().(*types.Interface)
			var m *types.Func
			for i := 0; i < it.NumMethods(); i++ {
				if it.Method(i).Name() == parts[2] {
					m = it.Method(i)
				}
			}
			if m == nil {
				return nil, fmt.Errorf("interface contract %s: no such method", k)
			}
			seen := map[*ssa.Function]bool{}
			for _, t := range w.implementers(tn.Type()) {
				g := w.methodOf(t, m)
				if g == nil || seen[g] || g.Blocks == nil || !w.boxed(t) {
					continue
				}
				seen[g] = true
				r = append(r, task{f: g, fs: fs, key: w.keyOf(g), via: fs})
			}
			continue
		}
		if f := w.funcs[k]; f != nil {
			if f.Blocks != nil {
				r = append(r, task{f: f, fs: fs, key: k})
			}
			continue
		}
		if sp.isFuncType(w, k) {
			continue
		}
		// a contract whose function no longer exists decides nothing: its callers lose the facts they relied on
		r = append(r, task{fs: fs, key: k})
	}
	for _, a := range sp.axioms {
		if a.Ind != "" {
			r = append(r, task{key: "lemma " + a.Pkg + "." + a.Name, lemma: a, fs: &FuncSpec{Key: "lemma " + a.Pkg + "." + a.Name}})
		}
	}
	// functions covered by a default contract
	var rec []*ssa.Function
	for f := range w.recur {
		rec = append(rec, f)
	}
	sort.Slice(rec, func(i, j int) bool { return rec[i].String() < rec[j].String() })
	for _, f := range rec {
		if f.Parent() != nil || f.Synthetic != "" || f.Blocks == nil || hasFuncParam(f) {
			continue
		}
		key := w.keyOf(f)
		if sp.funcs[key] != nil {
			continue
		}
		if d := sp.defaultFor(f, key); d != nil {
			r = append(r, task{f: f, fs: d, key: key})
		}
	}
	return r, nil
}

func (sp *Spec) isFuncType(w *World, k string) bool {
	parts := strings.Split(k, ".")
	if len(parts) != 2 || w.byName[parts[0]] == nil {
		return false
	}
	tn, ok := w.byName[parts[0]].Pkg.Scope().Lookup(parts[1]).(*types.TypeName)
	if !ok {
		return false
	}
	_, ok = tn.Type().Underlying().(*types.Signature)
	return ok
}

func newExec(w *World, sp *Spec, eff *effTable) *Exec {
	x := &Exec{w: w, sp: sp, eff: eff, names: map[string]int{}, sorts: map[string]string{}, decls: map[string]bool{}, lits: map[string]string{},
		frames: map[string][]string{}, needs: map[string]bool{}, invDone: map[string]bool{}, usedExtern: map[string]bool{}, usedAssumed: map[string]bool{},
		building: map[string]bool{}, newRefs: map[string]bool{}, mutGlobals: map[string]bool{}, iters: map[int]SV{}, readMaps: map[string]bool{},
		roRefs: map[string]bool{}, globals: map[string]SV{}, callees: map[string]bool{}, execLimit: 400000, mayW: map[string]bool{}}
	x.strLit("")
	return x
}

// generate runs the symbolic execution of one task, producing its obligations.
func generate(w *World, sp *Spec, eff *effTable, t task, debug bool) (x *Exec) {
	x = newExec(w, sp, eff)
	x.debug = debug
	x.fnKey = t.key
	x.fspec = t.fs
	x.fn = t.f
	x.entry = &State{h: map[string]string{}, cells: map[int]SV{}, reach: "true"}
	if t.f == nil {
		x.entry.h["nxt"] = "1"
		if t.lemma != nil {
			x.assertAxioms(t.lemma.Pkg, t.lemma)
			x.finish()
		}
		return x
	}
	defer func() {
		if e := recover(); e != nil {
			if debug {
				panic(e)
			}
			x.dry = 0
			x.unsupported("true", t.f.Pos(), fmt.Sprintf("translator failure: %v", e))
		}
	}()
	n0 := x.fresh("nxt0", "Int")
	x.entry.h["nxt"] = n0
	x.assume("true", "(<= 1 "+n0+")")
	st := x.entry.clone()
	f := t.f
	var args []SV
	for _, p := range f.Params {
		args = append(args, x.freshSV("p_"+p.Name(), p.Type(), "true", st))
	}
	if f.Signature.Recv() != nil && isPtr(f.Params[0].Type()) {
		x.assume("true", "(< 0 "+args[0].Term+")")
	}
	env := x.callEnv(t.fs, f, f.Signature, args, f.Signature.Recv() != nil, st)
	if t.via != nil {
		// bind the names of the interface method
		sig := f.Signature
		recv := args[0]
		v := x.boxedReceiver(t, recv, st)
		env.vars["recv"] = v
		if m := w.ifaceMethod(t.via.Key); m != nil {
			ms := m.Type().(*types.Signature)
			for i := 0; i < ms.Params().Len(); i++ {
				if n := ms.Params().At(i).Name(); n != "" && n != "_" && i+1 < len(args) {
					env.vars[n] = args[i+1]
				}
			}
			_ = sig
		}
		for i, n := range t.via.Params {
			if i == 0 {
				env.vars[n] = v
			} else if i < len(args) {
				env.vars[n] = args[i]
			}
		}
	}
	env.old = x.entry
	x.ent = env
	for _, h := range sortedKeys(sp.ghostNames()) {
		x.heap(st, h, sp.ghosts[h])
	}
	x.assume("true", "(= (select "+x.heap(st, "frz", "(Array Int Int)")+" 0) 0)")
	if f.Pkg != nil {
		x.assertAxioms(f.Pkg.Pkg.Name(), nil)
	}
	for i := range t.fs.Requires {
		c := &t.fs.Requires[i]
		g, err := env.boolExpr(c.Expr)
		if err != nil {
			x.unsupported("true", f.Pos(), "requires "+c.Src+": "+err.Error())
			continue
		}
		x.assume("true", g)
	}
	perm, err := x.permitted(t.fs, env, nil)
	if err != nil {
		x.unsupported("true", f.Pos(), "modifies: "+err.Error())
	} else {
		x.frames = perm
	}
	for _, h := range []string{"frz"} {
		x.frames[h] = append(x.frames[h], "*")
	}
	exits := x.run(f, args, nil, "true", st, true)
	x.exits = exits
	for _, e := range exits {
		x.checkEnsures(t, f, env, e)
	}
	x.finish()
	return x
}

// finish inserts the facts that are only known once all literals are: after the last declaration they depend on.
func (x *Exec) finish() {
	x.regexFacts()
	if len(x.late) == 0 {
		return
	}
	at := 0
	for i, it := range x.items {
		if strings.HasPrefix(it.Raw, "(declare-fun rematch ") || strings.HasPrefix(it.Raw, "(declare-fun subexps ") || strings.HasPrefix(it.Raw, "(declare-const G_") {
			at = i + 1
		}
	}
	var out []Item
	out = append(out, x.items[:at]...)
	for _, l := range x.late {
		out = append(out, Item{Raw: l})
	}
	x.items = append(out, x.items[at:]...)
}

func (sp *Spec) ghostNames() map[string]bool {
	r := map[string]bool{}
	for g := range sp.ghosts {
		r[g] = true
	}
	return r
}

// boxedReceiver: the interface value through which a method was called. A promoted method may be called on any type that
// embeds its receiver.
func (x *Exec) boxedReceiver(t task, recv SV, st *State) SV {
	if recv.K != kTerm {
		v := term(tAny, x.box(recv, "true"))
		return v
	}
	parts := strings.Split(t.via.Key, ".")
	it := x.w.byName[parts[0]].Pkg.Scope().Lookup(parts[1]).Type()
	var ts []types.Type
	for _, c := range x.w.implementers(it) {
		if !x.w.boxed(c) {
			continue
		}
		if m := x.w.ifaceMethod(t.via.Key); m != nil && x.w.methodOf(c, m) == t.f {
			ts = append(ts, c)
		}
	}
	if len(ts) == 1 {
		if isPtr(ts[0]) == isPtr(recv.T) {
			return term(it, x.box(SV{K: kTerm, T: ts[0], Term: recv.Term}, "true"))
		}
	}
	v := x.fresh("recv", "Val")
	var alts []string
	for _, c := range ts {
		alts = append(alts, x.isTag(v, c))
	}
	x.assume("true", or(alts...))
	x.assume("true", "(= (vr "+v+") "+recv.Term+")")
	return term(it, v)
}

func (w *World) ifaceMethod(key string) *types.Func {
	parts := strings.Split(key, ".")
	if len(parts) != 3 || w.byName[parts[0]] == nil {
		return nil
	}
	tn, ok := w.byName[parts[0]].Pkg.Scope().Lookup(parts[1]).(*types.TypeName)
	if !ok {
		return nil
	}
	it, ok := tn.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == parts[2] {
			return it.Method(i)
		}
	}
	return nil
}

func (x *Exec) checkEnsures(t task, f *ssa.Function, env *Env, e exitEdge) {
	if e.reach == "false" {
		return
	}
	env2 := *env
	env2.st = e.st
	env2.old = x.entry
	env2.vars = map[string]SV{}
	for k, v := range env.vars {
		env2.vars[k] = v
	}
	var res SV
	rs := f.Signature.Results()
	switch rs.Len() {
	case 0:
	case 1:
		res = x.coerce(e.vals[0], rs.At(0).Type())
	default:
		res = SV{K: kTuple, T: rs}
		for i := range e.vals {
			res.Fs = append(res.Fs, x.coerce(e.vals[i], rs.At(i).Type()))
		}
	}
	x.bindResults(&env2, f.Signature, res)
	e.st.reach = e.reach
	e.st = x.ghostAssign(t.fs, &env2, e.reach, f.Pos())
	for i := range t.fs.Ensures {
		c := &t.fs.Ensures[i]
		x.feGoal = true
		g, err := env2.boolExpr(c.Expr)
		x.feGoal = false
		if err != nil {
			x.unsupported(e.reach, f.Pos(), "ensures "+c.Src+": "+err.Error())
			continue
		}
		tags := c.Tags
		if len(tags) == 0 {
			tags = x.sp.safetyTags(x.fnKey)
		}
		x.oblig(e.reach, g, "ensures", tags, f.Pos(), t.key+" ensures "+c.Src)
	}
	// ghost variables and heaps that the contract does not list keep their value
	for _, g := range sortedKeys(x.sp.ghostNames()) {
		if x.frameAny(g) {
			continue
		}
		if e.st.h[g] != x.entry.h[g] && !strings.HasPrefix(x.sp.ghosts[g], "(Array Int ") {
			x.oblig(e.reach, eq(e.st.h[g], x.entry.h[g]), "frame", []string{"frame"}, f.Pos(), t.key+" leaves "+g+" unchanged")
		}
	}
}

// ghostAssign: clauses "defines g == e" of a ghost variable g are assignments made at the return.
func (x *Exec) ghostAssign(fs *FuncSpec, env *Env, reach string, pos token.Pos) *State {
	var cs []*Clause
	var gs []string
	for i := range fs.Defines {
		if be, ok := fs.Defines[i].Expr.(*ast.BinaryExpr); ok && be.Op == token.EQL {
			if id, ok := be.X.(*ast.Ident); ok {
				if _, ok := x.sp.ghosts[id.Name]; ok {
					cs = append(cs, &fs.Defines[i])
					gs = append(gs, id.Name)
				}
			}
		}
	}
	if len(cs) == 0 {
		return env.st
	}
	st := env.st.clone()
	for _, g := range gs {
		st.h[g] = x.fresh(g, x.sp.ghosts[g])
	}
	env.st = st
	for _, c := range cs {
		t, err := env.boolExpr(c.Expr)
		if err != nil {
			x.unsupported(reach, pos, "defines "+c.Src+": "+err.Error())
			continue
		}
		x.assume(reach, t)
	}
	return st
}
