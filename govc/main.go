package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc externs|dump|verify|check ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fl := flag.NewFlagSet(cmd, flag.ExitOnError)
	repo := fl.String("repo", "/repo", "module under verification")
	specDir := fl.String("spec", "/verif/spec", "specification files")
	only := fl.String("f", "", "only functions whose key contains this")
	prop := fl.String("p", "", "only obligations of this property")
	debug := fl.Bool("debug", false, "verbose")
	quick := fl.Int("quick", 2000, "solver time per query (ms)")
	slow := fl.Int("slow", 8000, "solver time for retries (ms)")
	solv := fl.String("solver", "z3", "main solver")
	dump := fl.String("dump", "", "write the script of the first selected task here")
	list := fl.Bool("list", false, "list obligations")
	noretry := fl.Bool("noretry", false, "no retries")
	nohints := fl.Bool("nohints", false, "propose all loop invariants")
	small := fl.Bool("min", false, "hints: reduce")
	redo := fl.Bool("redo", false, "hints: redo recorded ones")
	par := fl.Int("par", 8, "hints: functions at a time")
	kill := fl.String("kill", "", "dump the query that kills a candidate")
	showCands := fl.Bool("cands", false, "list loop invariants")
	fl.Parse(os.Args[2:])
	t0 := time.Now()
	w, err := loadWorld(*repo)
	if cmd == "check" {
		os.Exit(runCheck(w, err, *specDir, *repo, *prop, *debug))
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if cmd == "externs" {
		dumpExterns(w)
		return
	}
	sp, err := loadSpec(*specDir, w)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	ts, err := allTasks(w, sp)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if cmd == "hints" {
		makeHints(w, sp, *specDir, *only, *redo, *small, *par)
		return
	}
	hints := loadHints(*specDir)
	if cmd == "dump" {
		for k, f := range w.funcs {
			if *only != "" && strings.Contains(k, *only) {
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	cf := smtConf{solver: *solv, quickMs: *quick, slowMs: *slow}
	eff := newEffTable(w, sp)
	var sel []task
	for _, t := range ts {
		if *only == "" || strings.Contains(t.key, *only) {
			sel = append(sel, t)
		}
	}
	fmt.Printf("loaded in %.1fs; %d tasks, %d selected\n", time.Since(t0).Seconds(), len(ts), len(sel))
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	// effect tables are not safe for concurrent use: fill them first
	for _, f := range w.allModuleFuncs() {
		eff.of(f)
	}
	tot, bad := 0, 0
	for _, t := range sel {
		t := t
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			g0 := time.Now()
			x := generate(w, sp, eff, t, *debug)
			gen := time.Since(g0).Seconds()
			if *dump != "" {
				os.WriteFile(*dump, []byte(x.scriptUpTo(len(x.items))), 0644)
			}
			x.debugKill = *kill
			rounds := 0
			want := func(o *Oblig) bool { return o.Cand == nil }
			if *prop != "" {
				want = wanted(*prop)
			}
			var obs []*Oblig
			for _, it := range x.items {
				if it.Ob != nil && want(it.Ob) {
					obs = append(obs, it.Ob)
				}
			}
			if len(obs) > 0 {
				all := x.aliveCands()
				hinted := !*nohints && x.applyHints(hints, t.name())
				rounds = x.houdini(cf)
				if hinted {
					x.proveAll(cf, obs)
					if len(undecided(obs)) > 0 {
						x.setAlive(all)
						rounds = x.houdini(cf)
					}
				}
				hs := time.Since(g0).Seconds() - gen
				nw := 1 + len(obs)/40
				if nw > 8 {
					nw = 8
				}
				var w2 sync.WaitGroup
				for k := 0; k < nw; k++ {
					w2.Add(1)
					go func(k int) { defer w2.Done(); x.prove(cf, obs, k, nw) }(k)
				}
				w2.Wait()
				if !*noretry {
					for _, o := range obs {
						if o.Status != "proved" && o.Kind != "unsupported" {
							x.retry(o, cf, []string{"z3-new", "cvc5", "z3", "z3+cases"})
						}
					}
				}
				_ = hs
			}
			vac := ""
			failed := 0
			for _, o := range obs {
				if o.Status != "proved" {
					failed++
				}
			}
			if failed == 0 && len(obs) > 0 {
				vac = x.vacuous(cf)
			}
			mu.Lock()
			defer mu.Unlock()
			tot += len(obs)
			bad += failed
			via := ""
			if t.via != nil {
				via = " via " + t.via.Key
			}
			fmt.Printf("%-60s items %d obs %d failed %d cands %d rounds %d gen %.1fs total %.1fs vac=%s\n", t.key+via, len(x.items), len(obs), failed, len(x.cands), rounds, gen, time.Since(g0).Seconds(), vac)
			if *showCands {
				for _, c := range x.cands {
					if !c.Dead {
						fmt.Println("    +", c.Desc)
					} else if *debug {
						fmt.Println("    -", c.Desc, "::", c.Why)
					}
				}
			}
			for _, o := range obs {
				if o.Status != "proved" || *list {
					fmt.Printf("   %s #%d %s %v %s: %s [%s %.1fs]\n", map[bool]string{true: "ok", false: "FAIL"}[o.Status == "proved"], o.ID, o.Kind, o.Tags, o.Pos, o.Desc, o.By, o.Secs)
					if *debug {
						fmt.Println("        ", o.Goal)
					}
				}
			}
		}()
	}
	wg.Wait()
	fmt.Printf("total %d obligations, %d failed, %.1fs\n", tot, bad, time.Since(t0).Seconds())
	solverTime.Lock()
	var ns []string
	for n := range solverTime.secs {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		fmt.Printf("%s: %d queries %.1fs\n", n, solverTime.n[n], solverTime.secs[n])
	}
	solverTime.Unlock()
}
