package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type edge struct {
	reach string
	st    *State
}

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	// set while the loop is being executed
	backs []backEdge
}

type backEdge struct {
	reach string
	st    *State
	vals  map[ssa.Value]SV
	from  *ssa.BasicBlock
}

// frame is the activation of one (possibly inlined) function body.
type frame struct {
	fn       *ssa.Function
	vals     map[ssa.Value]SV
	binds    []SV
	outs     map[[2]int]edge
	loops    map[*ssa.BasicBlock]*loopInfo
	order    []*ssa.BasicBlock
	rets     []exitEdge
	top      bool
	defers   []SV
	lastInit map[ssa.Instruction][]*ssa.Alloc
	stored   map[*ssa.Alloc]map[string]bool
	active   *loopInfo // innermost loop whose body is being executed
}

func (x *Exec) dbg(format string, a ...interface{}) {
	if x.debug {
		fmt.Fprintf(os.Stderr, format+"\n", a...)
	}
}

// ---- control flow preparation ----

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var out []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s] {
				dfs(s)
			}
		}
		out = append(out, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	loops := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := loops[s]
				if l == nil {
					l = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					n := work[len(work)-1]
					work = work[:len(work)-1]
					if l.body[n] {
						continue
					}
					l.body[n] = true
					work = append(work, n.Preds...)
				}
			}
		}
	}
	return loops
}

func reducible(fn *ssa.Function) bool {
	idx := map[*ssa.BasicBlock]int{}
	for i, b := range rpo(fn) {
		idx[b] = i
	}
	for b, i := range idx {
		for _, s := range b.Succs {
			if j, ok := idx[s]; ok && j <= i && !s.Dominates(b) {
				return false
			}
		}
	}
	return true
}

func (x *Exec) newFrame(fn *ssa.Function, args, binds []SV) *frame {
	fr := &frame{fn: fn, vals: map[ssa.Value]SV{}, binds: binds, outs: map[[2]int]edge{}, order: rpo(fn), loops: findLoops(fn),
		lastInit: map[ssa.Instruction][]*ssa.Alloc{}, stored: map[*ssa.Alloc]map[string]bool{}}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.vals[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(binds) {
			fr.vals[f] = binds[i]
		}
	}
	for _, b := range fn.Blocks {
		last := map[*ssa.Alloc]ssa.Instruction{}
		var allocs []*ssa.Alloc
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Alloc:
				last[in] = in
				allocs = append(allocs, in)
			case *ssa.Store:
				if al := initAlloc(b, in); al != nil {
					last[al] = in
					if fr.stored[al] == nil {
						fr.stored[al] = map[string]bool{}
					}
					x.storedHeaps(in, fr.stored[al])
				}
			}
		}
		for _, al := range allocs {
			fr.lastInit[last[al]] = append(fr.lastInit[last[al]], al)
		}
	}
	return fr
}

func (x *Exec) storedHeaps(st *ssa.Store, out map[string]bool) {
	et := st.Addr.Type().Underlying().(*types.Pointer).Elem()
	if n, s := structOf(et); s != nil && !isPtr(et) {
		if n != nil {
			leafFields(n, s, func(h string, _ *types.Var) { out[h] = true })
		}
		return
	}
	if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
		n, s := structOf(fa.X.Type())
		if n != nil {
			out[fieldHeap(n, s.Field(fa.Field))] = true
		}
	}
}

// run executes a function body and returns its normal exits.
func (x *Exec) run(fn *ssa.Function, args, binds []SV, reach string, st *State, top bool) []exitEdge {
	if !reducible(fn) {
		x.unsupported(reach, fn.Pos(), "irreducible control flow")
		return nil
	}
	fr := x.newFrame(fn, args, binds)
	fr.top = top
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	var sink []exitEdge
	savedSink := x.panicEdges
	if fn.Recover != nil {
		x.panicEdges = &sink
	}
	if len(fn.Blocks) == 0 {
		x.unsupported(reach, fn.Pos(), "function without body")
		x.panicEdges = savedSink
		return nil
	}
	fr.outs[[2]int{-1, fn.Blocks[0].Index}] = edge{reach, st}
	x.blocks(fr, fr.order, nil)
	x.panicEdges = savedSink
	if fn.Recover != nil && len(sink) > 0 {
		// a panic was raised somewhere in the body: run the deferred calls with it, then the recover block
		r, s, vals, ok := x.mergeExits(sink, 1)
		if !ok {
			x.unsupported(r, fn.Pos(), "panic states without common representation")
		} else {
			saved := x.recoverVal
			x.recoverVal = vals[0].Term
			r2, s2 := x.runDefers(fr, r, s, fn.Pos())
			recovered := x.recoverVal == ""
			_ = recovered
			x.recoverVal = saved
			fr2 := fr
			n := len(fr2.rets)
			_ = n
			fr.outs = map[[2]int]edge{{-1, fn.Recover.Index}: {r2, s2}}
			x.blocks(fr2, []*ssa.BasicBlock{fn.Recover}, nil)
		}
	}
	return fr.rets
}

func (x *Exec) runDefers(fr *frame, reach string, st *State, pos token.Pos) (string, *State) {
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		ex := x.run(d.Fn, nil, d.Binds, reach, st, false)
		r, s, _, ok := x.mergeExits(ex, 0)
		if !ok {
			x.unsupported(reach, pos, "deferred call")
			return reach, st
		}
		reach, st = r, s
	}
	return reach, st
}

// mergeExits joins several exits into one state.
func (x *Exec) mergeExits(ex []exitEdge, n int) (string, *State, []SV, bool) {
	if len(ex) == 0 {
		return "false", &State{h: map[string]string{"nxt": "0"}, cells: map[int]SV{}}, make([]SV, n), true
	}
	if len(ex) == 1 {
		return ex[0].reach, ex[0].st, ex[0].vals, true
	}
	var rs []string
	var es []edge
	for _, e := range ex {
		rs = append(rs, e.reach)
		es = append(es, edge{e.reach, e.st})
	}
	reach := x.named("reach", "Bool", or(rs...))
	st := x.mergeStates(es)
	st.reach = reach
	vals := make([]SV, n)
	for i := 0; i < n; i++ {
		v := ex[len(ex)-1].vals[i]
		for k := len(ex) - 2; k >= 0; k-- {
			var ok bool
			v, ok = iteSV(ex[k].reach, x.liftFn(ex[k].vals[i]), x.liftFn(v))
			if !ok {
				return reach, st, vals, false
			}
		}
		vals[i] = x.nameSV("ret", v)
	}
	return reach, st, vals, true
}

func (x *Exec) liftFn(v SV) SV { return v }

func (x *Exec) nameSV(p string, v SV) SV {
	switch v.K {
	case kTerm:
		if s := sortOf(v.T); s != "" {
			v.Term = x.named(p, s, v.Term)
		}
	case kStruct, kTuple:
		fs := make([]SV, len(v.Fs))
		for i := range v.Fs {
			fs[i] = x.nameSV(p, v.Fs[i])
		}
		v.Fs = fs
	}
	return v
}

// mergeStates joins the states of several edges, ordered; the last one is the default.
func (x *Exec) mergeStates(es []edge) *State {
	if len(es) == 1 {
		return es[0].st.clone()
	}
	out := es[len(es)-1].st.clone()
	out.reach = ""
	names := map[string]bool{}
	for _, e := range es {
		for h := range e.st.h {
			names[h] = true
		}
	}
	for _, h := range sortedKeys(names) {
		get := func(s *State) string {
			if t, ok := s.h[h]; ok {
				return t
			}
			if t, ok := x.entry.h[h]; ok {
				return t
			}
			return ""
		}
		v := get(es[len(es)-1].st)
		diff := false
		for k := len(es) - 2; k >= 0; k-- {
			o := get(es[k].st)
			if o != v {
				diff = true
			}
			if o == "" || v == "" {
				continue
			}
			v = ite(es[k].reach, o, v)
		}
		if diff {
			sort := x.sorts["heap:"+h]
			if h == "nxt" {
				sort = "Int"
			}
			v = x.named(h, sort, v)
		}
		out.h[h] = v
	}
	ids := map[int]bool{}
	for _, e := range es {
		for c := range e.st.cells {
			ids[c] = true
		}
	}
	for c := range ids {
		var v SV
		have := false
		bad := false
		for k := len(es) - 1; k >= 0; k-- {
			o, ok := es[k].st.cells[c]
			if !ok {
				continue
			}
			if !have {
				v, have = o, true
				continue
			}
			nv, ok := iteSV(es[k].reach, o, v)
			if !ok {
				bad = true
				break
			}
			v = nv
		}
		if bad {
			v = SV{K: kOpaqueFn, Term: "0"}
		}
		out.cells[c] = x.nameSV("cell", v)
	}
	return out
}

// blocks executes a list of blocks in reverse postorder; loops found in the list are cut at their headers.
func (x *Exec) blocks(fr *frame, order []*ssa.BasicBlock, in *loopInfo) {
	done := map[*ssa.BasicBlock]bool{}
	for _, b := range order {
		if done[b] {
			continue
		}
		if l := fr.loops[b]; l != nil && l != in {
			x.loop(fr, l, order)
			for lb := range l.body {
				done[lb] = true
			}
			// blocks of the loop body are done; exits have been recorded as edges
			continue
		}
		x.enterBlock(fr, b)
	}
}

func (x *Exec) inEdges(fr *frame, b *ssa.BasicBlock) ([]edge, []int) {
	var es []edge
	var which []int
	if e, ok := fr.outs[[2]int{-1, b.Index}]; ok {
		es = append(es, e)
		which = append(which, -1)
	}
	seen := map[int]int{}
	for i, p := range b.Preds {
		k := [2]int{p.Index, b.Index}
		// two edges from one block (both branches to the same target) are distinguished by a counter
		n := seen[p.Index]
		seen[p.Index]++
		kk := k
		if n > 0 {
			kk = [2]int{p.Index + 100000*n, b.Index}
		}
		if e, ok := fr.outs[kk]; ok {
			es = append(es, e)
			which = append(which, i)
		}
	}
	return es, which
}

func (x *Exec) phis(b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			r = append(r, p)
		}
	}
	return r
}

// mergeIn joins the incoming edges of a block, giving the phi values.
func (x *Exec) mergeIn(fr *frame, b *ssa.BasicBlock) (string, *State, bool) {
	es, which := x.inEdges(fr, b)
	var es2 []edge
	var w2 []int
	for i, e := range es {
		if e.reach != "false" {
			es2 = append(es2, e)
			w2 = append(w2, which[i])
		}
	}
	if len(es2) == 0 {
		return "false", nil, false
	}
	var rs []string
	for _, e := range es2 {
		rs = append(rs, e.reach)
	}
	reach := x.named("r", "Bool", or(rs...))
	st := x.mergeStates(es2)
	nv := map[*ssa.Phi]SV{}
	for _, p := range x.phis(b) {
		var v SV
		ok := true
		for k := len(es2) - 1; k >= 0; k-- {
			o := x.coerce(x.val(fr, p.Edges[w2[k]], es2[k].st), p.Type())
			if k == len(es2)-1 {
				v = o
				continue
			}
			if v, ok = iteSV(es2[k].reach, o, v); !ok {
				break
			}
		}
		if !ok {
			// no common representation: an arbitrary value
			v = SV{K: kOpaqueFn, T: p.Type(), Term: "0"}
			if s := sortOf(p.Type()); s != "" && s != "Int" {
				v = x.freshSV("phi", p.Type(), reach, st)
			}
		}
		nv[p] = x.nameSV(phiName(p), v)
	}
	for p, v := range nv {
		fr.vals[p] = v
	}
	return reach, st, true
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return "v_" + p.Comment
	}
	return "v_" + p.Name()
}

// coerce gives function values held in terms a uniform representation.
func (x *Exec) coerce(v SV, t types.Type) SV {
	if v.T == nil || v.K == kTerm {
		v.T = t
	}
	return v
}

func (x *Exec) enterBlock(fr *frame, b *ssa.BasicBlock) {
	reach, st, ok := x.mergeIn(fr, b)
	if !ok {
		return
	}
	x.execBlock(fr, b, reach, st)
}

func (x *Exec) setEdge(fr *frame, from *ssa.BasicBlock, succ int, reach string, st *State) {
	to := from.Succs[succ]
	k := [2]int{from.Index, to.Index}
	n := 0
	for i := 0; i < succ; i++ {
		if from.Succs[i] == to {
			n++
		}
	}
	if n > 0 {
		k[0] += 100000 * n
	}
	if l := fr.loops[to]; l != nil && l.body[from] && x.isActive(fr, l) {
		// back edge
		idx := -1
		c := 0
		for i, p := range to.Preds {
			if p == from {
				if c == n {
					idx = i
				}
				c++
			}
		}
		vals := map[ssa.Value]SV{}
		for _, p := range x.phis(to) {
			vals[p] = x.coerce(x.val(fr, p.Edges[idx], st), p.Type())
		}
		l.backs = append(l.backs, backEdge{reach, st, vals, from})
		return
	}
	fr.outs[k] = edge{reach, st}
}

func (x *Exec) isActive(fr *frame, l *loopInfo) bool {
	for _, a := range x.activeLoops {
		if a == l {
			return true
		}
	}
	return false
}

func (x *Exec) val(fr *frame, v ssa.Value, st *State) SV {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constSV(v)
	case *ssa.Function:
		return SV{K: kClosure, T: v.Type(), Fn: v}
	case *ssa.Global:
		return SV{K: kAddr, T: v.Type(), A: &Addr{Kind: "global", G: v, T: v.Type().Underlying().(*types.Pointer).Elem()}}
	case *ssa.Builtin:
		return SV{K: kOpaqueFn, T: v.Type(), Term: "0"}
	}
	if r, ok := fr.vals[v]; ok {
		return r
	}
	// value on a path that was never executed
	if v.Type() == nil {
		return SV{K: kOpaqueFn, Term: "0"}
	}
	return x.freshSV("undef", v.Type(), "false", st)
}

// ---- blocks ----

func (x *Exec) execBlock(fr *frame, b *ssa.BasicBlock, reach string, st *State) {
	if x.execCount > x.execLimit {
		if !x.overLimit {
			x.overLimit = true
			x.unsupported("true", fr.fn.Pos(), "function too large when its helpers are expanded")
		}
		return
	}
	st.reach = reach
	for _, in := range b.Instrs {
		x.execCount++
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			x.setEdge(fr, b, 0, reach, st)
			return
		case *ssa.If:
			c := x.val(fr, in.Cond, st).Term
			t := and(reach, c)
			f := and(reach, not(c))
			if c == "true" {
				x.setEdge(fr, b, 0, reach, st)
				x.setEdge(fr, b, 1, "false", st)
				return
			}
			if c == "false" {
				x.setEdge(fr, b, 0, "false", st)
				x.setEdge(fr, b, 1, reach, st)
				return
			}
			x.setEdge(fr, b, 0, x.named("r", "Bool", t), st.clone())
			x.setEdge(fr, b, 1, x.named("r", "Bool", f), st)
			return
		case *ssa.Return:
			var vs []SV
			for _, r := range in.Results {
				vs = append(vs, x.val(fr, r, st))
			}
			st.reach = reach
			fr.rets = append(fr.rets, exitEdge{reach, st, vs})
			return
		case *ssa.Panic:
			x.doPanic(reach, st, x.val(fr, in.X, st).Term, in.Pos())
			return
		case *ssa.RunDefers:
			saved := x.recoverVal
			x.recoverVal = "vnil"
			reach, st = x.runDefers(fr, reach, st, in.Pos())
			x.recoverVal = saved
		case *ssa.Defer:
			v := x.val(fr, in.Call.Value, st)
			if v.K != kClosure || len(in.Call.Args) > 0 || b.Index != 0 {
				x.unsupported(reach, in.Pos(), "defer")
				break
			}
			fr.defers = append(fr.defers, v)
		case *ssa.Go, *ssa.Select, *ssa.Send:
			x.unsupported(reach, in.Pos(), "concurrency")
		default:
			reach, st = x.instr(fr, b, in, reach, st)
			if reach == "false" {
				return
			}
		}
		for _, al := range fr.lastInit[in] {
			x.constructed(fr, al, reach, st, in.Pos())
		}
	}
}

// constructed: the composite literal behind an allocation is complete.
func (x *Exec) constructed(fr *frame, al *ssa.Alloc, reach string, st *State, pos token.Pos) {
	v, ok := fr.vals[al]
	if !ok || v.K != kTerm {
		return
	}
	delete(x.building, v.Term)
	et := al.Type().Underlying().(*types.Pointer).Elem()
	n, s := structOf(et)
	if s == nil || n == nil || isPtr(et) || !inModule(n.Obj().Pkg()) {
		return
	}
	if al.Pos().IsValid() {
		pos = al.Pos()
	}
	x.checkInv(n, v.Term, reach, st, pos, "construction of")
}

func (x *Exec) doPanic(reach string, st *State, v string, pos token.Pos) {
	if x.panicEdges != nil {
		*x.panicEdges = append(*x.panicEdges, exitEdge{reach, st, []SV{term(tAny, v)}})
		return
	}
	x.checkPanic(reach, st, v, pos, "panic")
}

// checkPanic: a panic that leaves the function under verification must be one that its contract announces.
func (x *Exec) checkPanic(reach string, st *State, v string, pos token.Pos, what string) {
	if x.fspec == nil || x.fspec.Panics == nil {
		x.oblig(reach, "false", "panic", x.sp.safetyTags(x.fnKey), pos, what+" is reachable but the contract announces none")
		return
	}
	env := x.envAt(st).with("v", term(tAny, v))
	f, err := env.boolExpr(x.fspec.Panics.Expr)
	if err != nil {
		x.unsupported(reach, pos, "panics clause: "+err.Error())
		return
	}
	tags := x.fspec.Panics.Tags
	if len(tags) == 0 {
		tags = x.sp.safetyTags(x.fnKey)
	}
	x.oblig(reach, f, "panic", tags, pos, what+" with a value that the contract does not announce")
}

func (x *Exec) envAt(st *State) *Env {
	e := *x.ent
	e.st = st
	return &e
}

// ---- loops ----

func (x *Exec) loop(fr *frame, l *loopInfo, order []*ssa.BasicBlock) {
	reach, st, ok := x.mergeIn(fr, l.header)
	if !ok {
		return
	}
	var body []*ssa.BasicBlock
	for _, b := range order {
		if l.body[b] {
			body = append(body, b)
		}
	}
	pre := st.clone()
	phis := x.phis(l.header)
	initVals := map[ssa.Value]SV{}
	for _, p := range phis {
		initVals[p] = fr.vals[p]
	}
	x.loopN++
	mark := x.seq
	// dry run to find what the body may change
	rec := map[string]map[string]bool{}
	cellRec := map[int]bool{}
	{
		savedOuts := fr.outs
		fr.outs = map[[2]int]edge{}
		for k, v := range savedOuts {
			fr.outs[k] = v
		}
		savedVals := fr.vals
		fr.vals = map[ssa.Value]SV{}
		for k, v := range savedVals {
			fr.vals[k] = v
		}
		savedRets := fr.rets
		savedDefers := fr.defers
		var savedSink []exitEdge
		if x.panicEdges != nil {
			savedSink = *x.panicEdges
		}
		x.dry++
		x.recs = append(x.recs, rec)
		x.cells = append(x.cells, cellRec)
		dst := st.clone()
		dst.h["nxt"] = x.fresh("nxt", "Int")
		for _, p := range phis {
			fr.vals[p] = x.havocPhi(p, initVals[p], "true", dst)
		}
		// leaving this loop may take a back edge of a loop around it
		savedBacks := make([][]backEdge, len(x.activeLoops))
		for i, a := range x.activeLoops {
			savedBacks[i] = a.backs
		}
		x.activeLoops = append(x.activeLoops, l)
		l.backs = nil
		x.execLoopBody(fr, l, body, "dryreach", dst)
		x.activeLoops = x.activeLoops[:len(x.activeLoops)-1]
		for i, a := range x.activeLoops {
			a.backs = savedBacks[i]
		}
		x.recs = x.recs[:len(x.recs)-1]
		x.cells = x.cells[:len(x.cells)-1]
		x.dry--
		fr.outs, fr.vals, fr.rets, fr.defers = savedOuts, savedVals, savedRets, savedDefers
		if x.panicEdges != nil {
			*x.panicEdges = savedSink
		}
		l.backs = nil
	}
	// havoc
	hst := st.clone()
	oldNxt := st.h["nxt"]
	if rec["nxt"] != nil {
		n := x.fresh("nxt", "Int")
		x.assume("true", "(<= "+oldNxt+" "+n+")")
		hst.h["nxt"] = n
		x.record("nxt", "?")
	}
	var names []string
	for h := range rec {
		if h != "nxt" {
			names = append(names, h)
		}
	}
	sort.Strings(names)
	for _, h := range names {
		x.havocHeap(st, hst, h, rec[h], oldNxt, mark)
	}
	for _, h := range names {
		x.frozenFrame(st, hst, h)
	}
	for c := range cellRec {
		if old, ok := st.cells[c]; ok {
			x.recordCell(c)
			hst.cells[c] = x.havocSV(old, reach, hst)
		}
	}
	for _, p := range phis {
		fr.vals[p] = x.havocPhi(p, initVals[p], reach, hst)
	}
	hreach := reach
	// a fresh propositional variable: control is at the loop head in some iteration
	if x.dry == 0 {
		hreach = x.fresh("loop", "Bool")
		x.assume("true", "(=> "+hreach+" "+reach+")")
	}
	cands := x.loopCands(fr, l, phis, initVals, cellRec, pre, hst, reach, hreach)
	if x.dry == 0 {
		for _, c := range cands {
			x.emit(Item{Assume: implies(hreach, c.head), Cand: c.c})
		}
		for _, c := range cands {
			_ = c
		}
	}
	x.activeLoops = append(x.activeLoops, l)
	l.backs = nil
	x.execLoopBody(fr, l, body, hreach, hst)
	x.activeLoops = x.activeLoops[:len(x.activeLoops)-1]
	backs := l.backs
	l.backs = nil
	if x.dry == 0 {
		for bi, be := range backs {
			for _, c := range cands {
				x.feGoal = true
				f, ok := c.at(be.vals, be.st)
				x.feGoal = false
				if !ok {
					c.c.Dead = true
					continue
				}
				x.candOblig(be.reach, f, c.c, l.header.Instrs[0].Pos(), fmt.Sprintf("preserved on back edge %d", bi))
			}
		}
	}
}

func (x *Exec) candOblig(reach, f string, c *Cand, pos token.Pos, what string) {
	if f == "true" || reach == "false" {
		return
	}
	x.nob++
	x.emit(Item{Ob: &Oblig{ID: x.nob, Goal: implies(reach, f), Kind: "invariant", Tags: c.Tags, Pos: x.posOf(pos), Desc: c.Desc + " " + what, Fn: x.fnKey, Cand: c}, Cand: c})
}

func (x *Exec) execLoopBody(fr *frame, l *loopInfo, body []*ssa.BasicBlock, reach string, st *State) {
	// execute the header with the havocked state, then the rest of the body
	x.execBlock(fr, l.header, reach, st)
	done := map[*ssa.BasicBlock]bool{l.header: true}
	for _, b := range body {
		if done[b] {
			continue
		}
		if il := fr.loops[b]; il != nil && il != l {
			x.loop(fr, il, body)
			for lb := range il.body {
				done[lb] = true
			}
			continue
		}
		x.enterBlock(fr, b)
	}
}

func (x *Exec) havocPhi(p *ssa.Phi, init SV, reach string, st *State) SV {
	switch init.K {
	case kTerm, kStruct, kTuple:
		return x.havocSV(SV{K: init.K, T: p.Type(), Fs: init.Fs, Term: init.Term}, reach, st)
	}
	return init // function values and addresses do not change in supported loops (checked at the back edge)
}

func (x *Exec) havocSV(v SV, reach string, st *State) SV {
	switch v.K {
	case kTerm:
		if v.T == nil {
			return v
		}
		return x.freshSV("h", v.T, reach, st)
	case kStruct, kTuple:
		r := SV{K: v.K, T: v.T}
		for _, f := range v.Fs {
			r.Fs = append(r.Fs, x.havocSV(f, reach, st))
		}
		return r
	}
	return v
}

// havocHeap gives a heap an arbitrary new value except for what the recorded writes cannot have touched.
func (x *Exec) havocHeap(old, hst *State, h string, refs map[string]bool, oldNxt string, mark int) {
	srt := x.sorts["heap:"+h]
	if srt == "" {
		return
	}
	cur := x.heap(old, h, srt)
	if !strings.HasPrefix(srt, "(Array Int ") {
		x.record(h, "?")
		hst.h[h] = x.fresh(h, srt)
		return
	}
	esort := strings.TrimSuffix(strings.TrimPrefix(srt, "(Array Int "), ")")
	unknown, freshW := false, false
	var stable []string
	for _, r := range sortedKeys(refs) {
		switch {
		case r == "fresh" || x.newRefs[r]:
			if x.newRefs[r] && x.stableBefore(r, mark) {
				stable = append(stable, r)
			} else {
				freshW = true
			}
		case x.stableBefore(r, mark):
			stable = append(stable, r)
		default:
			unknown = true
		}
	}
	for _, r := range stable {
		x.record(h, r)
	}
	if !unknown && !freshW {
		t := cur
		for _, r := range stable {
			t = store(t, r, x.fresh("e", esort))
		}
		hst.h[h] = x.named(h, srt, t)
		return
	}
	n := x.fresh(h, srt)
	hst.h[h] = n
	if unknown {
		x.record(h, "?")
		return
	}
	x.record(h, "fresh")
	cond := []string{"(< q " + oldNxt + ")"}
	for _, r := range stable {
		cond = append(cond, not(eq("q", r)))
	}
	x.assume("true", fmt.Sprintf("(forall ((q Int)) (! (=> %s (= (select %s q) (select %s q))) :pattern ((select %s q))))", and(cond...), n, cur, n))
}

// stableBefore: the term only mentions symbols introduced before the mark.
func (x *Exec) stableBefore(t string, mark int) bool {
	if t == "?" || t == "fresh" {
		return false
	}
	for _, w := range strings.FieldsFunc(t, func(r rune) bool { return r == ' ' || r == '(' || r == ')' }) {
		if s, ok := x.names[w]; ok && s > mark {
			return false
		}
	}
	return true
}

// frozenFrame: elements that belong to immutable objects have their one fixed value in every state.
func (x *Exec) frozenFrame(old, now *State, h string) {
	if !strings.HasPrefix(h, "E_") || old.h[h] == now.h[h] || x.dry > 0 {
		return
	}
	x.linkFrozen(now, h)
}

func (s *State) guard() string {
	if s.reach == "" {
		return "false" // not known to be reached: nothing is said about it
	}
	return s.reach
}

func (x *Exec) linkFrozen(st *State, h string) {
	srt := x.sorts["heap:"+h]
	if srt == "" {
		return
	}
	fe := x.frozenFn(h, srt)
	frz := x.heap(st, "frz", "(Array Int Int)")
	e := st.h[h]
	x.emit(Item{Raw: "(assert " + implies(st.guard(), fmt.Sprintf("(forall ((q Int) (k Int)) (! (=> (and (<= 0 k) (< k (select %s q))) (= (select (select %s q) k) (%s q k))) :pattern ((select (select %s q) k))))", frz, e, fe, e)) + ")"})
}

// linkFe relates the fixed values of frozen elements that a goal mentions to the current contents of the lists.
func (x *Exec) linkFe(st *State, h string) {
	srt := x.sorts["heap:"+h]
	if srt == "" || x.dry > 0 || !x.feGoal {
		return
	}
	frz := x.heap(st, "frz", "(Array Int Int)")
	e := st.h[h]
	key := "linkfe:" + h + ":" + e + ":" + frz + ":" + st.guard()
	if x.invDone[key] {
		return
	}
	x.invDone[key] = true
	fe := x.frozenFn(h, srt)
	x.emit(Item{Raw: "(assert " + implies(st.guard(), fmt.Sprintf("(forall ((q Int) (k Int)) (! (=> (and (<= 0 k) (< k (select %s q))) (= (select (select %s q) k) (%s q k))) :pattern ((%s q k))))", frz, e, fe, fe)) + ")"})
}

// frozenFn is the time-independent content of frozen list elements.
func (x *Exec) frozenFn(h, srt string) string {
	es := strings.TrimSuffix(strings.TrimPrefix(srt, "(Array Int (Array Int "), "))")
	return x.declFun("fe_"+h, []string{"Int", "Int"}, es)
}
