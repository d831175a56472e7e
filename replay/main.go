// Command replay drives the real fastac code in /repo with generated inputs
// and compares every observable answer with a naive reference. It looks for a
// concrete failing input of a property: the deductive verifier names the failed
// obligation, this program shows what goes wrong. It is a bounded search and is
// reported as such.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// T is one generated case.
type T struct {
	*rand.Rand
	Seed, Index int
	Size        int // grows with the case index
	Thorough    bool
	Dir         string // scratch directory of the run
	log         []string
	kind        string
	evals       int
}

type failure struct{ msg string }

func (t *T) Logf(f string, a ...interface{}) {
	if len(t.log) < 400 {
		t.log = append(t.log, fmt.Sprintf(f, a...))
	}
}
func (t *T) Failf(f string, a ...interface{}) { panic(failure{fmt.Sprintf(f, a...)}) }
func (t *T) Kind(k string)                    { t.kind = k }
func (t *T) Check(ok bool, f string, a ...interface{}) {
	t.evals++
	if !ok {
		t.Failf(f, a...)
	}
}
func (t *T) Pick(s []string) string { return s[t.Intn(len(s))] }
func (t *T) Bool() bool             { return t.Intn(2) == 0 }
func (t *T) Chance(n int) bool      { return t.Intn(n) == 0 }

// Part is one generator of a property.
type Part struct {
	Name     string
	N        int // cases of the quick run
	Run      func(t *T)
	Serial   bool
	Fixed    bool // N does not grow in the thorough run
	Known    bool // the cases are listed in known-findings.txt
	Describe string
}

var props = map[string][]Part{}

func register(id string, p ...Part) { props[id] = append(props[id], p...) }

type Failure struct {
	Property string   `json:"property"`
	Part     string   `json:"part"`
	Seed     int      `json:"seed"`
	Case     int      `json:"case"`
	Message  string   `json:"message"`
	Steps    []string `json:"steps"`
	Rerun    string   `json:"rerun"`
}

type Report struct {
	Property    string     `json:"property"`
	Cases       int        `json:"cases"`
	Comparisons int        `json:"comparisons"`
	Distinct    int        `json:"distinct"`
	Parts       []PartRep  `json:"parts"`
	Samples     [][]string `json:"samples"`
	Failure     *Failure   `json:"failure,omitempty"`
	Known       []*Failure `json:"known,omitempty"`
	WallS       float64    `json:"wall_s"`
}

type PartRep struct {
	Name        string         `json:"name"`
	What        string         `json:"what"`
	Cases       int            `json:"cases"`
	Planned     int            `json:"planned"`
	Comparisons int            `json:"comparisons"`
	Kinds       map[string]int `json:"kinds"`
}

func caseSeed(prop, part string, seed, i int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s/%d/%d", prop, part, seed, i)
	return int64(h.Sum64() >> 1)
}

func runCase(prop string, p Part, seed, i, planned int, thorough bool, dir string) (t *T, fail *Failure) {
	t = &T{Rand: rand.New(rand.NewSource(caseSeed(prop, p.Name, seed, i))), Seed: seed, Index: i, Thorough: thorough, Dir: dir}
	t.Size = 1 + i*12/(planned+1)
	if t.Size > 12 {
		t.Size = 12
	}
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				if f, ok := r.(failure); ok {
					done <- f.msg
					return
				}
				st := string(debug.Stack())
				if len(st) > 3000 {
					st = st[:3000]
				}
				done <- fmt.Sprintf("panic: %v\n%s", r, st)
				return
			}
			done <- ""
		}()
		p.Run(t)
	}()
	var msg string
	select {
	case msg = <-done:
	case <-time.After(40 * time.Second):
		msg = "no answer within 40 s"
	}
	if msg != "" {
		log := t.log
		if strings.HasPrefix(msg, "no answer") {
			log = nil // still being written by the case
		}
		fail = &Failure{prop, p.Name, seed, i, msg, log, fmt.Sprintf("replay -prop %s -part %s -seed %d -case %d -n %d", prop, p.Name, seed, i, planned)}
	}
	return t, fail
}

func main() {
	prop := flag.String("prop", "", "property")
	only := flag.String("part", "", "run only this part")
	seed := flag.Int("seed", 1, "seed")
	one := flag.Int("case", -1, "run only this case")
	n := flag.Int("n", 0, "number of planned cases (with -case)")
	thorough := flag.Bool("thorough", false, "larger run")
	budget := flag.Duration("time", 60*time.Second, "time limit")
	out := flag.String("out", "", "report")
	child := flag.String("child", "", "internal: run a child role")
	announce := flag.String("announce", "", "internal: file for the running case")
	inner := flag.Bool("inner", false, "internal")
	flag.Parse()
	if *child != "" {
		runChild(*child, flag.Args())
		return
	}
	debug.SetMaxStack(256 << 20)
	debug.SetMemoryLimit(6 << 30)
	parts, ok := props[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	if !*inner {
		os.Exit(supervise(*prop, *out, *budget))
	}
	dir, err := os.MkdirTemp("", "replay")
	if err != nil {
		panic(err)
	}
	rep := &Report{Property: *prop}
	start := time.Now()
	code := 0
	total := 0
	for _, p := range parts {
		if *only == "" || p.Name == *only {
			total += 1
		}
	}
	left := *budget
	for _, p := range parts {
		if *only != "" && p.Name != *only {
			continue
		}
		limit := time.Now().Add(left / time.Duration(total) * 2)
		planned := p.N
		if !p.Fixed {
			planned *= 5
			if *thorough {
				planned *= 20
			}
		}
		if *n > 0 {
			planned = *n
		}
		pr := PartRep{Name: p.Name, What: p.Describe, Kinds: map[string]int{}, Planned: planned}
		seen := map[uint64]bool{}
		var mu sync.Mutex
		var next int64 = -1
		best := (*Failure)(nil)
		work := func() {
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= planned || time.Now().After(limit) {
					return
				}
				mu.Lock()
				stop := best != nil
				mu.Unlock()
				if stop {
					return
				}
				if *one >= 0 {
					if i > 0 {
						return
					}
					i = *one
				}
				if *announce != "" {
					mu.Lock()
					_ = os.WriteFile(*announce, []byte(fmt.Sprintf("%s %d %d", p.Name, i, planned)), 0644)
					mu.Unlock()
				}
				t, f := runCase(*prop, p, *seed, i, planned, *thorough, dir)
				mu.Lock()
				if f != nil && p.Known {
					rep.Known = append(rep.Known, f)
				} else if f != nil && (best == nil || f.Case < best.Case) {
					best = f
				}
				if f == nil {
					pr.Cases++
					pr.Comparisons += t.evals
					if t.kind != "" {
						pr.Kinds[t.kind]++
					}
					h := fnv.New64a()
					h.Write([]byte(strings.Join(t.log, "\n")))
					if t.evals > 0 {
						seen[h.Sum64()] = true
					}
					if (i == 1 || i == planned-1) && len(rep.Samples) < 6 {
						l := t.log
						if len(l) > 12 {
							l = l[:12]
						}
						rep.Samples = append(rep.Samples, append([]string{fmt.Sprintf("%s/%d", p.Name, i)}, l...))
					}
				}
				mu.Unlock()
			}
		}
		workers := 8
		if p.Serial || *announce != "" || *one >= 0 {
			workers = 1
		}
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() { defer wg.Done(); work() }()
		}
		wg.Wait()
		rep.Cases += pr.Cases
		rep.Comparisons += pr.Comparisons
		rep.Distinct += len(seen)
		rep.Parts = append(rep.Parts, pr)
		if best != nil {
			rep.Failure = best
			code = 1
			break
		}
	}
	_ = os.RemoveAll(dir)
	sort.Slice(rep.Samples, func(i, j int) bool { return rep.Samples[i][0] < rep.Samples[j][0] })
	rep.WallS = time.Since(start).Seconds()
	write(*out, rep)
	os.Exit(code)
}

func write(out string, rep *Report) {
	b, _ := json.MarshalIndent(rep, "", " ")
	if out != "" {
		if err := os.WriteFile(out, append(b, '\n'), 0644); err != nil {
			panic(err)
		}
	} else {
		fmt.Println(string(b))
	}
}

// supervise runs the generators in a child process: a fatal error of the code
// under test (stack overflow, concurrent map access) ends only the child.
func supervise(prop, out string, budget time.Duration) int {
	tmp, err := os.MkdirTemp("", "replay-sup")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	if out == "" {
		out = "/dev/stdout"
	}
	run := func(extra ...string) (int, string, time.Duration) {
		start := time.Now()
		args := append([]string{"-inner", "-out", filepath.Join(tmp, "rep.json")}, extra...)
		for _, a := range os.Args[1:] {
			args = append(args, a)
		}
		// later flags win
		args = append(args, "-out", filepath.Join(tmp, "rep.json"))
		cmd := exec.Command(os.Args[0], args...)
		cmd.Env = append(os.Environ(), "TMPDIR="+tmp)
		var sb tail
		cmd.Stderr = &sb
		cmd.Stdout = &sb
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		timer := time.AfterFunc(budget*3+120*time.Second, func() { _ = cmd.Process.Kill() })
		_ = cmd.Wait()
		timer.Stop()
		return cmd.ProcessState.ExitCode(), sb.String(), time.Since(start)
	}
	code, txt, d := run()
	if code == 0 || code == 1 {
		if b, err := os.ReadFile(filepath.Join(tmp, "rep.json")); err == nil {
			_ = os.WriteFile(out, b, 0644)
			return code
		}
	}
	// fatal: find the case
	ann := filepath.Join(tmp, "case")
	code2, txt2, _ := run("-announce", ann)
	where, _ := os.ReadFile(ann)
	if code2 == 1 {
		if b, err := os.ReadFile(filepath.Join(tmp, "rep.json")); err == nil {
			_ = os.WriteFile(out, b, 0644)
			return 1
		}
	}
	if code2 != 0 {
		txt = txt2
	}
	rep := &Report{Property: prop, WallS: d.Seconds()}
	if len(txt) > 4000 {
		txt = txt[:4000]
	}
	rep.Failure = &Failure{Property: prop, Part: string(where), Message: fmt.Sprintf("the process ended with exit code %d while the case was running:\n%s", code, txt), Rerun: "replay -prop " + prop + " -part/-case/-n: " + string(where)}
	write(out, rep)
	return 1
}

// tail keeps the first bytes of the output.
type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tail) String() string { return string(t.b) }

func runChild(role string, args []string) {
	if f, ok := children[role]; ok {
		f(args)
		return
	}
	os.Exit(3)
}

var children = map[string]func(args []string){}
