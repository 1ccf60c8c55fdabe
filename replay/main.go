// Command replay runs the real code of /repo against the statement of one property, looking for a failing input.
// It gives a failing obligation of the deductive check a concrete witness, and stands in, bounded, for the functions
// that are outside the verifier's reach.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
)

// Input is one case: what an oracle was run on.
type Input struct {
	Prop    string   `json:"property"`
	Options []int    `json:"options,omitempty"`
	Single  bool     `json:"single,omitempty"`
	Source  string   `json:"source"`
	Before  []string `json:"before,omitempty"` // earlier parses with the same parser
	Extra   string   `json:"extra,omitempty"`
}

// Failure says what is wrong.
type Failure struct {
	In   Input
	What string
}

// run is one search.
type run struct {
	prop    string
	rnd     *rand.Rand
	seed    int64
	until   time.Time
	cases   int64
	useful  int64
	fail    *Failure
	cur     *os.File
	started atomic.Int64 // start of the current case
}

func (r *run) failf(in Input, format string, a ...interface{}) {
	if r.fail == nil {
		in.Prop = r.prop
		r.fail = &Failure{in, fmt.Sprintf(format, a...)}
	}
}

func (r *run) over() bool { return r.fail != nil || time.Now().After(r.until) }

// note records the case about to be run, so that it is known even when the process dies.
func (r *run) note(in Input) {
	r.cases++
	r.started.Store(time.Now().UnixNano())
	if r.cur != nil {
		in.Prop = r.prop
		b, _ := json.Marshal(in)
		b = append(b, '\n')
		r.cur.WriteAt(b, 0)
		r.cur.Truncate(int64(len(b)))
	}
}

func (r *run) done() { r.started.Store(0) }

// internalError is thrown when the harness does not know the code any more; that is no failure of the code.
type internalError string

var oracles = map[string]func(r *run){}

func main() {
	prop := flag.String("p", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	secs := flag.Int("secs", 10, "time limit")
	out := flag.String("out", "", "where to write the failing case")
	flag.String("known", "", "unused")
	child := flag.Bool("child", false, "internal")
	src := flag.String("src", "", "show what the oracle says about one source")
	opts := flag.String("opts", "", "options for -src")
	flag.Parse()
	if *src != "" {
		show(*src, *opts)
		return
	}
	o, ok := oracles[*prop]
	if !ok {
		fmt.Println("stats: none")
		os.Exit(3)
	}
	if !*child {
		os.Exit(parent(*prop, *seed, *secs, *out))
	}
	loadCorpus()
	debug.SetMaxStack(1 << 29)
	r := &run{prop: *prop, seed: *seed, rnd: rand.New(rand.NewSource(*seed)), until: time.Now().Add(time.Duration(*secs) * time.Second)}
	if *out != "" {
		r.cur, _ = os.Create(*out + ".cur")
	}
	go watchdog(r)
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(internalError); ok {
					fmt.Println("the oracle does not fit the code:", e)
					fmt.Println("stats: none")
					os.Exit(3)
				}
				r.failf(Input{}, "uncaught panic: %v\n%s", e, debug.Stack())
			}
		}()
		o(r)
	}()
	if r.cur != nil {
		r.cur.Close()
		os.Remove(*out + ".cur")
	}
	fmt.Printf("stats: %d cases, %d of them reached what the property is about, seed %d, %d s limit\n", r.cases, r.useful, *seed, *secs)
	if r.fail != nil {
		write(*out, r.fail)
		os.Exit(1)
	}
}

func write(out string, f *Failure) {
	b, _ := json.MarshalIndent(f.In, "", " ")
	t := fmt.Sprintf("%s\n\nfailing input (real code):\n%s\n\nsource, quoted: %q\n", f.What, b, f.In.Source)
	fmt.Println(t)
	if out != "" {
		os.WriteFile(out, []byte(t), 0644)
	}
}

// watchdog ends the process when one case runs for too long or uses too much memory.
func watchdog(r *run) {
	for {
		time.Sleep(200 * time.Millisecond)
		s := r.started.Load()
		if s != 0 && time.Since(time.Unix(0, s)) > 30*time.Second {
			fmt.Println("a case has run for 30 s")
			os.Exit(9)
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapInuse > 6<<30 {
			fmt.Println("a case uses more than 6 GB")
			os.Exit(9)
		}
	}
}

func parent(prop string, seed int64, secs int, out string) int {
	tmp := out
	if tmp == "" {
		f, err := os.CreateTemp("", "replay")
		if err != nil {
			return 2
		}
		tmp = f.Name()
		f.Close()
		defer os.Remove(tmp)
	}
	c := exec.Command(os.Args[0], "-child", "-p", prop, "-seed", fmt.Sprint(seed), "-secs", fmt.Sprint(secs), "-out", tmp)
	b, err := c.CombinedOutput()
	txt := string(b)
	if len(txt) > 20000 {
		txt = txt[:20000]
	}
	fmt.Print(txt)
	if err == nil {
		return 0
	}
	cur := tmp + ".cur"
	defer os.Remove(cur)
	if x := c.ProcessState.ExitCode(); x == 1 || x == 3 {
		return x
	}
	// the code under test ended the process or did not end itself
	in, _ := os.ReadFile(cur)
	if i := strings.Index(txt, "\n\ngoroutine "); i > 0 && i+3000 < len(txt) {
		txt = txt[:i+3000]
	}
	os.WriteFile(tmp, []byte("the code under test did not return: "+err.Error()+"\n\nfailing input (real code):\n"+string(in)+"\n\n"+txt), 0644)
	return 1
}

func (r *run) each(f func(in Input)) {
	for _, s := range corpus {
		if r.over() {
			return
		}
		for _, o := range [][]int{nil, {3, 4}, {1, 2}} {
			in := Input{Prop: r.prop, Source: s, Options: o}
			r.note(in)
			f(in)
			r.done()
		}
	}
	for !r.over() {
		in := r.input()
		r.note(in)
		f(in)
		r.done()
	}
}
