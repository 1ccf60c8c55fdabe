package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// Hints record which proposed loop invariants were inductive and useful the last time a function was verified. They only
// choose where the search starts: every invariant that is used is proved on the current source, and when an obligation
// is not discharged with the recorded ones, all the others are proposed again.
type Hints map[string][]string

func hintsFile(specDir string) string { return filepath.Join(specDir, "hints.json") }

func loadHints(specDir string) Hints {
	h := Hints{}
	b, err := os.ReadFile(hintsFile(specDir))
	if err == nil {
		_ = json.Unmarshal(b, &h)
	}
	return h
}

func (t task) name() string {
	if t.via != nil {
		return t.key + " via " + t.via.Key
	}
	return t.key
}

func (c *Cand) hint() string {
	l := c.Loop
	if i := strings.Index(l, "@"); i >= 0 {
		l = l[:i]
	}
	d := strings.TrimPrefix(c.Desc, "loop invariant ")
	return l + ": " + strings.TrimSuffix(d, " ("+c.Loop+")")
}

// applyHints starts with the recorded invariants only; it reports whether there were any to leave out.
func (x *Exec) applyHints(h Hints, name string) bool {
	l, ok := h[name]
	if !ok {
		return false
	}
	in := map[string]bool{}
	for _, s := range l {
		in[s] = true
	}
	cut := false
	for _, c := range x.cands {
		if !c.Dead && !in[c.hint()] {
			c.Dead = true
			cut = true
		}
	}
	return cut
}

func (x *Exec) aliveCands() []*Cand {
	var r []*Cand
	for _, c := range x.cands {
		if !c.Dead {
			r = append(r, c)
		}
	}
	return r
}

func (x *Exec) setAlive(l []*Cand) {
	for _, c := range x.cands {
		c.Dead = true
	}
	for _, c := range l {
		c.Dead = false
	}
}

// reduce looks for a smaller set of loop invariants that still discharges all obligations.
func (x *Exec) reduce(cf smtConf, obs []*Oblig, until time.Time) {
	best := x.aliveCands()
	try := func(l []*Cand) bool {
		x.setAlive(l)
		x.houdini(cf)
		for _, o := range obs {
			o.Status = ""
		}
		x.proveAll(cf, obs)
		return len(undecided(obs)) == 0
	}
	for n := 2; len(best) > 0 && time.Now().Before(until); {
		size := (len(best) + n - 1) / n
		removed := false
		for lo := 0; lo < len(best) && time.Now().Before(until); {
			hi := lo + size
			if hi > len(best) {
				hi = len(best)
			}
			var l []*Cand
			l = append(l, best[:lo]...)
			l = append(l, best[hi:]...)
			if try(l) {
				best = x.aliveCands()
				removed = true
			} else {
				lo = hi
			}
		}
		if size == 1 {
			break
		}
		_ = removed
		n *= 2
		if n > len(best) {
			n = len(best)
		}
	}
	x.setAlive(best)
}

// makeHints records the loop invariants of the selected functions.
func makeHints(w *World, sp *Spec, specDir, only string, redo, small bool, par int) {
	ts, err := allTasks(w, sp)
	if err != nil {
		fmt.Println(err)
		return
	}
	eff := newEffTable(w, sp)
	for _, f := range w.allModuleFuncs() {
		eff.of(f)
	}
	hs := loadHints(specDir)
	known := map[string]bool{}
	for _, t := range ts {
		known[t.name()] = true
	}
	for k := range hs {
		if !known[k] {
			delete(hs, k)
		}
	}
	var mu sync.Mutex
	save := func() {
		b, _ := json.MarshalIndent(hs, "", " ")
		os.WriteFile(hintsFile(specDir), append(b, '\n'), 0644)
	}
	var wg sync.WaitGroup
	sem := make(chan bool, par)
	for _, t := range ts {
		t := t
		if only != "" && !strings.Contains(t.key, only) || t.f == nil {
			continue
		}
		if _, ok := hs[t.name()]; ok && !redo {
			continue
		}
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			t0 := time.Now()
			x := generate(w, sp, eff, t, false)
			if len(x.cands) == 0 {
				return
			}
			n := len(x.cands)
			var obs []*Oblig
			for _, it := range x.items {
				if it.Ob != nil && it.Ob.Cand == nil {
					obs = append(obs, it.Ob)
				}
			}
			x.houdini(smtConf{solver: "z3", quickMs: 2000})
			x.proveAll(smtConf{solver: "z3", quickMs: 6000}, obs)
			left := undecided(obs)
			a := len(x.aliveCands())
			if len(left) > 0 {
				fmt.Printf("%s: %d of %d obligations undecided, %d of %d invariants, %.1fs\n", t.name(), len(left), len(obs), a, n, time.Since(t0).Seconds())
				return
			}
			if small {
				x.reduce(smtConf{solver: "z3", quickMs: 1500}, obs, time.Now().Add(4*time.Minute))
			}
			var l []string
			for _, c := range x.aliveCands() {
				l = append(l, c.hint())
			}
			sort.Strings(l)
			if l == nil {
				l = []string{}
			}
			mu.Lock()
			defer mu.Unlock()
			hs[t.name()] = l
			save()
			fmt.Printf("%s: %d of %d of %d invariants, %.1fs\n", t.name(), len(l), a, n, time.Since(t0).Seconds())
		}()
	}
	wg.Wait()
	save()
}
