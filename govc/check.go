package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Result of the verification of one task for one property.
type taskResult struct {
	t      task
	x      *Exec
	obs    []*Oblig
	failed []*Oblig
	vac    string
	secs   float64
}

func obName(t task, o *Oblig) string {
	via := ""
	if t.via != nil {
		via = " via " + t.via.Key
	}
	return t.key + via + " | " + o.Kind + " | " + o.Desc
}

// runCheck decides one property: exit 0 when every obligation is discharged, 1 with a VIOLATION line when one is not.
func runCheck(w *World, loadErr error, specDir, repo, prop string, verbose bool) int {
	deadline = time.Now().Add(7 * time.Minute)
	start := time.Now()
	verif := filepath.Dir(specDir)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	os.MkdirAll(filepath.Join(verif, "evidence", "replays"), 0755)
	if loadErr != nil {
		fmt.Fprintln(os.Stderr, loadErr)
		return 2
	}
	known := loadKnown(filepath.Join(verif, "known-findings.txt"), prop)

	type problem struct{ name, pos, detail string }
	var problems []problem
	var results []*taskResult
	sp, err := loadSpec(specDir, w)
	var ts []task
	if err == nil {
		ts, err = allTasks(w, sp)
	}
	if err != nil {
		// the specification refers to something that the code no longer has
		problems = append(problems, problem{"specification", "", err.Error()})
	} else {
		eff := newEffTable(w, sp)
		for _, f := range w.allModuleFuncs() {
			eff.of(f)
		}
		cf := smtConf{solver: "z3", quickMs: 10000, slowMs: 40000}
		if tier == "thorough" {
			cf = smtConf{solver: "z3", quickMs: 20000, slowMs: 120000}
		}
		results = verifyTasks(w, sp, eff, ts, prop, cf)
	}
	total, discharged := 0, 0
	by := map[string]int{}
	var fns, assumed, samples []string
	seenA := map[string]bool{}
	for _, r := range results {
		if len(r.obs) == 0 {
			continue
		}
		name := r.t.key
		if r.t.via != nil {
			name += " (" + r.t.via.Key + ")"
		}
		fns = append(fns, fmt.Sprintf("%s: %d obligations, %.1fs", name, len(r.obs), r.secs))
		total += len(r.obs)
		for _, o := range r.obs {
			if o.Status == "proved" {
				discharged++
				by[strings.SplitN(o.By, ":", 2)[0]]++
				if len(samples) < 12 && o.Kind != "nil" {
					samples = append(samples, obName(r.t, o)+" ["+o.By+"]")
				}
			}
		}
		for _, o := range r.failed {
			problems = append(problems, problem{obName(r.t, o), o.Pos, "status " + o.Status + " (" + o.By + ")\n" + o.Goal})
		}
		if r.vac == "unsat" {
			problems = append(problems, problem{name + " | vacuity", "", "the assumptions of this function contradict each other on every path to a return"})
		}
		for _, a := range sortedKeys(r.x.usedAssumed) {
			if !seenA[a] {
				seenA[a] = true
				assumed = append(assumed, a)
			}
		}
		for _, a := range sortedKeys(r.x.usedExtern) {
			if !seenA["e"+a] {
				seenA["e"+a] = true
				assumed = append(assumed, "external: "+a)
			}
		}
	}
	if err == nil && total == 0 {
		problems = append(problems, problem{"obligations", "", "no obligation was generated for this property"})
	}
	proofSecs := time.Since(start).Seconds()
	var fresh []problem
	for _, p := range problems {
		if why, ok := known[p.name]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", prop, p.name, why)
			continue
		}
		fresh = append(fresh, p)
	}
	for _, p := range fresh {
		fmt.Printf("undischarged: %s %s\n", p.name, p.pos)
		if verbose {
			fmt.Println(p.detail)
		}
	}
	// the real code: a stand-in for what is outside the verifier's reach, and the search for a failing input
	secs := 25
	if tier == "thorough" {
		secs = 240
	}
	if len(fresh) > 0 {
		secs += 60
	}
	replay := filepath.Join(verif, "evidence", "replays", prop+".txt")
	os.Remove(replay)
	wr := runWitness(verif, repo, prop, seed, secs, replay)
	if wr.err != "" {
		fmt.Println("replay harness:", wr.err)
	}
	for _, k := range wr.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	violations := len(fresh)
	if wr.found {
		violations++
	}
	_ = samples
	cov := map[string]interface{}{
		"obligations":              total,
		"discharged":               discharged,
		"checker_cmd":              fmt.Sprintf("govc check %s (SSA of /repo's current source, verification conditions to z3 4.8.12, retries with z3-new and cvc5)", prop),
		"trusted_base":             append([]string{"govc: the condition generator in /verif/govc", "golang.org/x/tools/go/ssa", "z3", "cvc5"}, sp.trustedList()...),
		"functions_under_contract": fns,
		"discharged_by":            by,
		"solver_seconds":           solverSecs(),
		"proof_seconds":            round1(proofSecs),
		"samples":                  samples,
		"external_and_assumed":     assumed,
		"bounded_real_code_runs":   wr.stats,
		"bounded_real_code_note":   "runs of the real code that stand in for functions outside the verifier's reach and look for failing inputs; bounded, never counted as proved",
		"undischarged":             len(problems),
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
		"assumptions": sp.assumptionList(prop), "wall_s": round1(time.Since(start).Seconds()), "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d functions, %.0fs proof, %.0fs total; bounded runs: %s\n", prop, total, discharged, len(fns), proofSecs, time.Since(start).Seconds(), wr.stats)
	if violations == 0 {
		return 0
	}
	if wr.found {
		if len(fresh) > 0 {
			f, err := os.OpenFile(replay, os.O_APPEND|os.O_WRONLY, 0644)
			if err == nil {
				fmt.Fprintf(f, "\nundischarged obligations:\n")
				for _, p := range fresh {
					fmt.Fprintf(f, "%s %s\n", p.name, p.pos)
				}
				f.Close()
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		return 1
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s: no failing input found; the following obligations are not discharged\n\n", prop)
	for _, p := range fresh {
		fmt.Fprintf(&sb, "%s\n  at %s\n  %s\n\n", p.name, p.pos, p.detail)
	}
	os.WriteFile(replay, []byte(sb.String()), 0644)
	fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, replay)
	return 1
}

func round1(f float64) float64 { return float64(int(f*10+0.5)) / 10 }

func solverSecs() map[string]float64 {
	solverTime.Lock()
	defer solverTime.Unlock()
	r := map[string]float64{}
	for k, v := range solverTime.secs {
		r[k] = round1(v)
	}
	return r
}

// verifyTasks generates and decides the obligations of a property.
func verifyTasks(w *World, sp *Spec, eff *effTable, ts []task, prop string, cf smtConf) []*taskResult {
	rs := make([]*taskResult, len(ts))
	want := wanted(prop)
	hints := loadHints(sp.dir)
	keep := make([]bool, len(ts))
	each := func(f func(i int)) {
		sem := make(chan bool, 8)
		var wg sync.WaitGroup
		for i := range ts {
			i := i
			wg.Add(1)
			sem <- true
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				f(i)
			}()
		}
		wg.Wait()
	}
	// the obligations of every function under contract
	each(func(i int) {
		t := ts[i]
		t0 := time.Now()
		r := &taskResult{t: t}
		rs[i] = r
		x := generate(w, sp, eff, t, false)
		x.hints, x.task = hints, t.name()
		r.x = x
		for _, it := range x.items {
			if it.Ob != nil && want(it.Ob) {
				r.obs = append(r.obs, it.Ob)
				keep[i] = keep[i] || it.Ob.tagged(prop)
			}
		}
		if t.f == nil && t.lemma == nil && sp.mentions(t.fs, prop) {
			o := &Oblig{Kind: "missing", Desc: "the function under contract no longer exists", Status: "failed"}
			r.obs, r.failed = append(r.obs, o), append(r.failed, o)
		}
		r.secs = time.Since(t0).Seconds()
	})
	// functions whose contracts these rely on: what they leave unchanged is proved too
	byKey := map[string][]int{}
	for i, t := range ts {
		byKey[t.fs.Key] = append(byKey[t.fs.Key], i)
		if t.via != nil {
			byKey[t.via.Key] = append(byKey[t.via.Key], i)
		}
	}
	var work []int
	for i := range ts {
		if keep[i] {
			work = append(work, i)
		}
	}
	for len(work) > 0 {
		i := work[len(work)-1]
		work = work[:len(work)-1]
		for c := range rs[i].x.callees {
			for _, j := range byKey[c] {
				if !keep[j] {
					keep[j] = true
					work = append(work, j)
				}
			}
		}
	}
	each(func(i int) {
		t, r := ts[i], rs[i]
		if t.f == nil && t.lemma == nil {
			return
		}
		if !keep[i] || len(r.obs) == 0 {
			r.obs, r.x = nil, nil
			return
		}
		t0 := time.Now()
		r.x.decide(cf, r.obs)
		for _, o := range r.obs {
			if o.Status != "proved" {
				r.failed = append(r.failed, o)
			}
		}
		if len(r.failed) == 0 {
			r.vac = r.x.vacuous(cf)
		}
		r.secs += time.Since(t0).Seconds()
	})
	return rs
}

// tagged: an obligation of the property itself (the others belong to every property whose contracts the function carries)
func (o *Oblig) tagged(prop string) bool {
	for _, t := range o.Tags {
		if t == prop {
			return true
		}
	}
	return false
}

// decide runs the solvers on the given obligations: first with short limits, then, for what is left, with long ones.
func (x *Exec) decide(cf smtConf, obs []*Oblig) {
	var alive []*Cand
	for _, c := range x.cands {
		if !c.Dead {
			alive = append(alive, c)
		}
	}
	left := obs
	stages := []int{1000, 5000}
	if x.applyHints(x.hints, x.task) {
		stages = []int{0, 1000, 5000}
	}
	for n, ms := range stages {
		if n > 0 {
			revived := false
			for _, c := range alive {
				revived = revived || c.Dead
				c.Dead = false
			}
			if !revived {
				break
			}
		}
		if ms == 0 {
			ms = 3000
		}
		x.houdini(smtConf{solver: cf.solver, quickMs: ms})
		x.proveAll(smtConf{solver: cf.solver, quickMs: 3000, slowMs: 6000}, left)
		left = undecided(left)
		if len(left) == 0 || late() {
			return
		}
	}
	x.proveAll(cf, left)
	for k, o := range undecided(left) {
		if k >= 12 || late() {
			break
		}
		x.retry(o, cf, []string{"z3-new", "cvc5", "z3", "z3+cases"})
	}
}

// deadline is when the search for proofs stops trying harder.
var deadline time.Time

func late() bool { return !deadline.IsZero() && time.Now().After(deadline) }

func undecided(obs []*Oblig) []*Oblig {
	var r []*Oblig
	for _, o := range obs {
		if o.Status != "proved" && o.Kind != "unsupported" {
			r = append(r, o)
		}
	}
	return r
}

func (x *Exec) proveAll(cf smtConf, obs []*Oblig) {
	nw := 1 + len(obs)/40
	if nw > 8 {
		nw = 8
	}
	var w2 sync.WaitGroup
	for k := 0; k < nw; k++ {
		w2.Add(1)
		go func(k int) { defer w2.Done(); x.prove(cf, obs, k, nw) }(k)
	}
	w2.Wait()
}

type witness struct {
	found bool
	err   string
	stats string
	known []string
}

// runWitness builds the replay harness against the code under test and runs the oracle of a property.
func runWitness(verif, repo, prop string, seed, secs int, out string) witness {
	dir := filepath.Join(verif, "replay")
	if _, err := os.Stat(filepath.Join(dir, "main.go")); err != nil {
		return witness{stats: "none"}
	}
	tmp, err := os.MkdirTemp("", "govc-replay")
	if err != nil {
		return witness{err: err.Error(), stats: "none"}
	}
	defer os.RemoveAll(tmp)
	bin := filepath.Join(tmp, "replay")
	args := []string{"build", "-o", bin}
	mod, _ := os.ReadFile(filepath.Join(dir, "go.mod"))
	sum, _ := os.ReadFile(filepath.Join(dir, "go.sum"))
	mf := filepath.Join(tmp, "go.mod")
	os.WriteFile(mf, []byte(strings.ReplaceAll(string(mod), "=> /repo", "=> "+repo)), 0644)
	os.WriteFile(filepath.Join(tmp, "go.sum"), sum, 0644)
	args = append(args, "-modfile", mf, ".")
	c := exec.Command("go", args...)
	c.Dir = dir
	c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off")
	if b, err := c.CombinedOutput(); err != nil {
		return witness{err: "build: " + string(b), stats: "none"}
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+60)*time.Second)
	defer cancel()
	c = exec.CommandContext(ctx, bin, "-p", prop, "-seed", fmt.Sprint(seed), "-secs", fmt.Sprint(secs), "-out", out, "-known", filepath.Join(verif, "known-findings.txt"))
	c.Dir = tmp
	b, err := c.CombinedOutput()
	r := witness{}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "stats: ") {
			r.stats = l[7:]
		} else if strings.HasPrefix(l, "known: ") {
			r.known = append(r.known, l[7:])
		}
	}
	if ee, ok := err.(*exec.ExitError); ok {
		if ee.ExitCode() == 1 {
			r.found = true
		} else if ee.ExitCode() != 3 {
			// the process itself died: that is how a stack overflow or an endless loop of the code under test shows
			if _, serr := os.Stat(out); serr == nil {
				r.found = true
			} else {
				t := string(b)
				if len(t) > 3000 {
					t = t[:3000]
				}
				r.err = fmt.Sprintf("exit %v: %s", err, t)
			}
		}
	} else if err != nil {
		r.err = err.Error()
	}
	return r
}

// loadKnown reads the findings of a property that are recorded by obligation name:
// "known: property=C00 obligation=<name> :: <why>"
func loadKnown(path, prop string) map[string]string {
	r := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		pre := "known: property=" + prop + " obligation="
		if strings.HasPrefix(l, pre) {
			l = l[len(pre):]
			if i := strings.Index(l, " :: "); i >= 0 {
				r[l[:i]] = l[i+4:]
			}
		}
	}
	return r
}

func (sp *Spec) mentions(fs *FuncSpec, prop string) bool {
	for _, cs := range [][]Clause{fs.Requires, fs.Ensures, fs.Loops} {
		for _, c := range cs {
			for _, t := range c.Tags {
				if t == prop {
					return true
				}
			}
		}
	}
	for _, p := range fs.Props {
		if p == prop {
			return true
		}
	}
	for _, t := range sp.safetyTags(fs.Key) {
		if t == prop {
			return true
		}
	}
	return false
}

// trustedList names the contracts that are assumed rather than proved.
func (sp *Spec) trustedList() []string {
	if sp == nil {
		return nil
	}
	var r []string
	for k, f := range sp.funcs {
		if f.Trusted {
			r = append(r, "trusted contract of "+k)
		}
		if f.Extern {
			r = append(r, "assumed contract of external "+k)
		}
	}
	sort.Strings(r)
	return r
}
