package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

// solver is one interactive SMT process.
type solver struct {
	cmd    *exec.Cmd
	in     *bufio.Writer
	out    *bufio.Reader
	name   string
	dead   bool
	log    io.Writer
	cancel context.CancelFunc
}

var solverTime struct {
	sync.Mutex
	secs map[string]float64
	n    map[string]int
}

func startSolver(name string, timeoutMs int) (*solver, error) {
	var args []string
	switch {
	case strings.HasPrefix(name, "z3"):
		args = []string{"-in", "-smt2"}
	case name == "cvc5":
		args = []string{"--incremental", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", timeoutMs)}
	}
	c := exec.Command(name, args...)
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := c.Start(); err != nil {
		return nil, err
	}
	s := &solver{cmd: c, in: bufio.NewWriterSize(in, 1<<16), out: bufio.NewReader(out), name: name}
	if d := os.Getenv("GOVC_LOG"); d != "" {
		s.log, _ = os.CreateTemp(d, "q*.smt2")
	}
	if strings.HasPrefix(name, "z3") {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.arith.solver 2)\n", timeoutMs))
	}
	s.send("(set-logic ALL)\n")
	return s, nil
}

func (s *solver) send(t string) {
	if s.dead {
		return
	}
	if s.log != nil {
		io.WriteString(s.log, t)
	}
	if _, err := s.in.WriteString(t); err != nil {
		s.dead = true
	}
}

// check runs (check-sat) and returns sat, unsat, unknown or dead.
func (s *solver) check() string {
	if s.dead {
		return "dead"
	}
	t0 := time.Now()
	s.send("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		s.dead = true
		return "dead"
	}
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			return "dead"
		}
		l = strings.TrimSpace(l)
		switch l {
		case "sat", "unsat", "unknown", "timeout":
			solverTime.Lock()
			if solverTime.secs == nil {
				solverTime.secs, solverTime.n = map[string]float64{}, map[string]int{}
			}
			solverTime.secs[s.name] += time.Since(t0).Seconds()
			solverTime.n[s.name]++
			solverTime.Unlock()
			if l == "timeout" {
				l = "unknown"
			}
			return l
		}
		if strings.HasPrefix(l, "(error") {
			if os.Getenv("GOVC_DEBUG") != "" || true {
				fmt.Fprintln(os.Stderr, s.name, l)
			}
			if strings.Contains(l, "unsupported") {
				continue
			}
			s.dead = true
			s.close()
			return "dead"
		}
	}
}

func (s *solver) close() {
	s.in.Flush()
	if s.cmd.Process != nil {
		s.cmd.Process.Kill()
	}
	s.cmd.Wait()
}

// selection of obligations to decide
type selector func(o *Oblig) bool

func wanted(prop string) selector {
	return func(o *Oblig) bool {
		if o.Cand != nil {
			return false
		}
		for _, t := range o.Tags {
			if t == prop || t == "*" || t == "frame" {
				return true
			}
		}
		return false
	}
}

type smtConf struct {
	solver  string
	quickMs int
	slowMs  int
}

// houdini removes the loop invariant candidates that are not inductive.
func (x *Exec) houdini(cf smtConf) int {
	rounds := 0
	for {
		rounds++
		killed, any := x.houdiniRound(cf)
		if !any || killed == 0 || rounds > 40 || late() {
			if rounds > 40 || any && killed != 0 {
				for _, c := range x.cands {
					c.Dead = true
				}
			}
			return rounds
		}
	}
}

func (x *Exec) houdiniRound(cf smtConf) (killed int, any bool) {
	for _, it := range x.items {
		if it.Ob != nil && it.Ob.Cand != nil && !it.Ob.Cand.Dead {
			any = true
		}
	}
	if !any {
		return 0, false
	}
	s, err := startSolver(cf.solver, cf.quickMs)
	if err != nil {
		return 0, false
	}
	defer s.close()
	s.send(x.preamble())
	i := 0
	last := x.lastCandItem()
	for i <= last {
		it := x.items[i]
		switch {
		case it.Raw != "":
			s.send(it.Raw + "\n")
		case it.Assume != "":
			if it.Cand == nil || !it.Cand.Dead {
				s.send("(assert " + it.Assume + ")\n")
			}
		case it.Ob != nil && it.Ob.Cand == nil:
			s.send("(assert " + it.Ob.Goal + ")\n")
		case it.Ob != nil:
			// a group of consecutive candidate obligations
			j := i
			var grp []*Oblig
			for j <= last && (x.items[j].Raw != "" || x.items[j].Ob != nil && x.items[j].Ob.Cand != nil) {
				if x.items[j].Raw != "" {
					s.send(x.items[j].Raw + "\n")
				} else if o := x.items[j].Ob; !o.Cand.Dead {
					grp = append(grp, o)
				}
				j++
			}
			killed += x.checkGroup(s, grp)
			if late() {
				return killed + 1, true
			}
			i = j
			continue
		}
		if s.dead {
			s2, err := startSolver(cf.solver, cf.quickMs)
			if err != nil {
				return killed, any
			}
			_ = s2
			s2.close()
			// treat everything left as unproved
			for k := i; k <= last; k++ {
				if o := x.items[k].Ob; o != nil && o.Cand != nil && !o.Cand.Dead {
					o.Cand.Dead = true
					killed++
				}
			}
			return killed, any
		}
		i++
	}
	return killed, any
}

func (x *Exec) lastCandItem() int {
	last := -1
	for i, it := range x.items {
		if it.Ob != nil && it.Ob.Cand != nil {
			last = i
		}
	}
	return last
}

func (x *Exec) checkGroup(s *solver, grp []*Oblig) int {
	if len(grp) == 0 {
		return 0
	}
	if len(grp) > 1 {
		var gs []string
		for _, o := range grp {
			gs = append(gs, o.Goal)
		}
		s.send("(push)\n(assert (not " + and(gs...) + "))\n")
		r := s.check()
		s.send("(pop)\n")
		if r == "unsat" {
			return 0
		}
		if len(grp) > 6 {
			h := len(grp) / 2
			return x.checkGroup(s, grp[:h]) + x.checkGroup(s, grp[h:])
		}
	}
	killed := 0
	for _, o := range grp {
		if o.Cand.Dead {
			continue
		}
		s.send("(push)\n(assert (not " + o.Goal + "))\n")
		r := s.check()
		s.send("(pop)\n")
		if r != "unsat" {
			o.Cand.Dead = true
			o.Cand.Why = o.Desc + " " + r
			if x.debugKill != "" && strings.Contains(o.Desc, x.debugKill) {
				for i, it := range x.items {
					if it.Ob == o {
						o.Cand.Dead = false
						os.WriteFile(fmt.Sprintf("/tmp/kill%d.smt2", o.ID), []byte(x.scriptUpTo(i)+"(assert (not "+o.Goal+"))\n(check-sat)\n(get-info :reason-unknown)\n"), 0644)
						o.Cand.Dead = true
						fmt.Println("killed", o.ID, o.Desc, r)
					}
				}
			}
			killed++
		}
	}
	return killed
}

// prove decides the selected obligations; worker k of n takes every n-th of them.
func (x *Exec) prove(cf smtConf, sel []*Oblig, k, n int) {
	mine := map[*Oblig]bool{}
	lo, hi := len(sel)*k/n, len(sel)*(k+1)/n
	for _, o := range sel[lo:hi] {
		mine[o] = true
	}
	if len(mine) == 0 {
		return
	}
	s, err := startSolver(cf.solver, cf.quickMs)
	if err != nil {
		return
	}
	defer func() { s.close() }()
	s.send(x.preamble())
	left := len(mine)
	for i, it := range x.items {
		if left == 0 {
			break
		}
		switch {
		case it.Raw != "":
			s.send(it.Raw + "\n")
		case it.Assume != "":
			if it.Cand == nil || !it.Cand.Dead {
				s.send("(assert " + it.Assume + ")\n")
			}
		case it.Ob != nil && it.Ob.Cand == nil:
			o := it.Ob
			if mine[o] {
				left--
				t0 := time.Now()
				r := "sat"
				if o.Goal != "false" || true {
					s.send("(push)\n(assert (not " + o.Goal + "))\n")
					r = s.check()
					s.send("(pop)\n")
					if r != "unsat" && r != "sat" && !s.dead {
						r = x.byCases(s, o.Goal, r)
					}
				}
				o.Secs = time.Since(t0).Seconds()
				if r == "unsat" {
					o.Status, o.By = "proved", cf.solver
				} else {
					o.Status, o.By = "failed", cf.solver+":"+r
				}
				if s.dead {
					s.close()
					if s, err = startSolver(cf.solver, cf.quickMs); err != nil {
						return
					}
					s.send(x.scriptUpTo(i))
				}
			}
			s.send("(assert " + o.Goal + ")\n")
		}
	}
}

func (x *Exec) scriptUpTo(i int) string {
	var b strings.Builder
	b.WriteString(x.preamble())
	for k := 0; k < i; k++ {
		it := x.items[k]
		switch {
		case it.Raw != "":
			b.WriteString(it.Raw + "\n")
		case it.Assume != "":
			if it.Cand == nil || !it.Cand.Dead {
				b.WriteString("(assert " + it.Assume + ")\n")
			}
		case it.Ob != nil && it.Ob.Cand == nil:
			b.WriteString("(assert " + it.Ob.Goal + ")\n")
		}
	}
	return b.String()
}

// retry decides one obligation alone, with a list of solvers and a longer limit.
func (x *Exec) retry(o *Oblig, cf smtConf, solvers []string) {
	idx := -1
	for i, it := range x.items {
		if it.Ob == o {
			idx = i
		}
	}
	if idx < 0 {
		return
	}
	script := x.scriptUpTo(idx)
	if d := os.Getenv("GOVC_RETRYDUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s%d.smt2", d, o.ID), []byte(script+"(assert (not "+o.Goal+"))\n(check-sat)\n"), 0644)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	var ss []*solver
	for _, name := range solvers {
		s, err := startSolver(strings.SplitN(name, "+", 2)[0], cf.slowMs)
		if err != nil {
			continue
		}
		if strings.Contains(name, "+mbqi") {
			s.send("(set-option :smt.mbqi true)\n")
		}
		ss = append(ss, s)
		wg.Add(1)
		go func(s *solver, name string) {
			defer wg.Done()
			t0 := time.Now()
			s.send(script)
			var r string
			if strings.Contains(name, "+cases") {
				r = x.byCases(s, o.Goal, "unknown")
			} else {
				s.send("(assert (not " + o.Goal + "))\n")
				r = s.check()
			}
			mu.Lock()
			defer mu.Unlock()
			if r == "unsat" && o.Status != "proved" {
				o.Status, o.By, o.Secs = "proved", name, time.Since(t0).Seconds()
				for _, q := range ss {
					if q != s {
						q.cmd.Process.Kill()
					}
				}
			} else if o.Status != "proved" && r == "sat" {
				o.By = name + ":sat"
			}
		}(s, name)
	}
	wg.Wait()
	for _, s := range ss {
		s.close()
	}
}

// vacuous reports whether the assumptions of a task contradict each other on every path to a return.
func (x *Exec) vacuous(cf smtConf) string {
	if len(x.exits) == 0 {
		return ""
	}
	script := x.scriptUpTo(len(x.items))
	var rs []string
	for _, e := range x.exits {
		rs = append(rs, e.reach)
	}
	script += "(assert " + or(rs...) + ")\n"
	r := ""
	for _, name := range []string{cf.solver, "cvc5"} {
		s, err := startSolver(name, 1500)
		if err != nil {
			continue
		}
		s.send(script)
		r = s.check()
		s.close()
		if r == "unsat" || r == "sat" {
			break
		}
	}
	return r
}

// byCases proves a goal about the paths that join at one point path by path.
func (x *Exec) byCases(s *solver, goal, r string) string {
	const pre = "(=> r!"
	if !strings.HasPrefix(goal, pre) {
		return r
	}
	j := strings.IndexByte(goal[len("(=> "):], ' ')
	guard := goal[len("(=> ") : len("(=> ")+j]
	x.joinOnce.Do(func() {
		x.joins = map[string][]string{}
		for _, it := range x.items {
			if !strings.HasPrefix(it.Raw, "(assert (= r!") {
				continue
			}
			f := it.Raw[len("(assert (= "):]
			k := strings.IndexByte(f, ' ')
			if !strings.HasPrefix(f[k+1:], "(or ") {
				continue
			}
			body := strings.TrimSuffix(strings.TrimSpace(f[k+1+len("(or "):]), ")))")
			x.joins[f[:k]] = topTerms(body)
		}
	})
	cases := x.joins[guard]
	if len(cases) < 3 {
		return r
	}
	not := ""
	for _, c := range cases {
		s.send("(push)\n(assert (not " + goal + "))\n(assert " + c + ")\n" + not)
		not += "(assert (not " + c + "))\n"
		q := s.check()
		s.send("(pop)\n")
		if q != "unsat" || s.dead {
			if os.Getenv("GOVC_SPLIT") != "" {
				fmt.Printf("   open case %s: %s\n", c, q)
			}
			return r
		}
	}
	return "unsat"
}

// topTerms splits a sequence of terms.
func topTerms(s string) []string {
	var r []string
	depth, from := 0, 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == ' ' && depth == 0 {
			if t := strings.TrimSpace(s[from:i]); t != "" {
				r = append(r, t)
			}
			from = i + 1
			continue
		}
		switch s[i] {
		case '(':
			depth++
		case ')':
			depth--
		}
	}
	return r
}
