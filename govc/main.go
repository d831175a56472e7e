// govc is a deductive verifier for Go: it reads machine-checked contracts
// (/verif/contracts), loads the real source of a Go module, translates every
// function under contract to verification conditions (from the SSA form built
// by golang.org/x/tools) and discharges them with SMT solvers.
package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"go/types"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type FnReport struct {
	Name        string   `json:"name"`
	Kind        string   `json:"kind"`
	File        string   `json:"file"`
	Obligations int      `json:"obligations"`
	Discharged  int      `json:"discharged"`
	Seconds     float64  `json:"seconds"`
	Inlined     []string `json:"inlined,omitempty"`
	Uses        []string `json:"uses,omitempty"`
	Error       string   `json:"error,omitempty"`
	Failed      []Failed `json:"failed,omitempty"`
	Loops       int      `json:"loops"`
}

type Failed struct {
	Obligation string `json:"obligation"`
	Status     string `json:"status"`
	Output     string `json:"output"`
	Query      string `json:"query,omitempty"`
}

type Report struct {
	Property    string             `json:"property"`
	Functions   []FnReport         `json:"functions"`
	Obligations int                `json:"obligations"`
	Discharged  int                `json:"discharged"`
	Kinds       map[string]int     `json:"kinds"`
	Solvers     map[string]int     `json:"solvers"`
	SolverTime  map[string]float64 `json:"solver_seconds"`
	Trusted     []string           `json:"trusted"`
	Axioms      []string           `json:"axioms"`
	Assumed     []string           `json:"assumed"`
	Wall        float64            `json:"wall_seconds"`
	Samples     []string           `json:"samples"`
}

var (
	fRepo   = flag.String("repo", "/repo", "module to verify")
	fSpecs  = flag.String("specs", "/verif/contracts", "contracts")
	fProp   = flag.String("prop", "", "property")
	fFn     = flag.String("fn", "", "only functions whose name contains this")
	fDebug  = flag.Bool("debug", false, "")
	fTime   = flag.Int("timeout", 20, "solver timeout per obligation (seconds)")
	fOut    = flag.String("out", "", "write the report (json) here")
	fDump   = flag.String("dump", "", "directory for the queries of undischarged obligations")
	fOnly   = flag.Bool("only", false, "do not follow the contracts of callees")
	fSrc    = flag.Bool("gen", false, "generate only, do not solve")
	fQuery  = flag.String("query", "", "run the solvers on one query file")
	fJobs   = flag.Int("j", 24, "parallel solvers")
	fBudget = flag.Int("budget", 600, "wall clock budget (seconds)")
)

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%v", e)
		}
	}
	prog, pk := ssautil.Packages(ps, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	P := &Program{prog: prog, fns: map[string]*ssa.Function{}, loops: map[*ssa.Function]*loopInfo{}, sortAlias: map[string]string{}}
	seen := map[*types.Package]bool{}
	for _, p := range pk {
		if p != nil {
			P.typePkgs = append(P.typePkgs, p.Pkg)
			seen[p.Pkg] = true
		}
	}
	var rest []*types.Package
	for _, p := range prog.AllPackages() {
		if !seen[p.Pkg] {
			rest = append(rest, p.Pkg)
		}
	}
	sort.Slice(rest, func(i, j int) bool { return rest[i].Path() < rest[j].Path() })
	P.typePkgs = append(P.typePkgs, rest...)
	for f := range ssautil.AllFunctions(prog) {
		if len(f.Blocks) > 0 && f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) && f.Synthetic == "" {
			P.fns[fnName(f)] = f
		}
	}
	return P, nil
}

type unit struct {
	v    *Ver
	c    *Contract
	l    *Lemma
	secs float64
}

func main() {
	flag.Parse()
	debug_ := *fDebug
	debug.SetGCPercent(400)
	if *fQuery != "" { // how the solvers fare on one query
		b, err := os.ReadFile(*fQuery)
		if err != nil {
			fatal("%v", err)
		}
		q := string(b)
		const mark = "(assert (not "
		gi := strings.LastIndex(q, "\n"+mark)
		for _, p := range splitGoal(q[gi+1+len(mark) : strings.LastIndex(q, "))\n(check-sat)")]) {
			fmt.Println(trunc(p, 1500))
			pq := q[:gi+1] + mark + p + "))\n(check-sat)\n"
			var wg sync.WaitGroup
			for k := 0; k < 5; k++ {
				sq, d := pq, 0
				if k > 0 {
					sq, d = sliceQuery(pq, k)
					os.WriteFile(fmt.Sprintf("%s.s%d", *fQuery, k), []byte(sq), 0644)
				}
				for _, s := range solvers {
					k, s := k, s
					wg.Add(1)
					go func() {
						defer wg.Done()
						x := runSolver(s, sq, *fTime)
						fmt.Printf("  slice %d (-%d) %s: %s %.1f\n", k, d, s.name, x.Status, x.Secs)
					}()
				}
			}
			wg.Wait()
		}
		return
	}
	setDebug(debug_)
	t0 := time.Now()
	if err := os.MkdirAll(filepath.Dir(*fOut+"x"), 0755); err != nil {
		fatal("%v", err)
	}
	P, err := loadProgram(*fRepo)
	if err != nil {
		fatal("load: %v", err)
	}
	specs := newSpecs()
	specs.load(*fSpecs)
	P.specs = specs
	for k, s := range specs.aliases {
		P.sortAlias[k] = s
	}
	W.baseFuns()
	rep := &Report{Property: *fProp, Kinds: map[string]int{}, Solvers: map[string]int{}, SolverTime: map[string]float64{}}
	addAxioms(P, specs)

	wanted := func(tags []string) bool { return *fProp == "" || has(tags, *fProp) }
	var work []string
	for _, n := range specs.order {
		c := specs.contracts[n]
		if c.trusted || c.inline {
			continue
		}
		if !wanted(c.tags) || (*fFn != "" && !strings.Contains(n, *fFn)) {
			continue
		}
		work = append(work, n)
	}
	done := map[string]bool{}
	trusted := map[string]bool{}
	assumed := map[string]bool{}
	usedAx := map[string]bool{}
	var mu sync.Mutex
	var units []*unit
	var wg sync.WaitGroup
	sem := make(chan bool, *fJobs)
	deadline := time.Now().Add(time.Duration(*fBudget) * time.Second)
	var start func(n string)
	start = func(n string) { // mu held
		if done[n] {
			return
		}
		done[n] = true
		c := specs.contracts[n]
		if c.trusted {
			trusted[n] = true
			return
		}
		if c.inline {
			return
		}
		f := P.fns[n]
		v := newVer(P, c, n)
		u := &unit{v: v, c: c}
		units = append(units, u)
		if f == nil {
			v.err = "the function under contract does not exist (or is not a function with a body)"
			return
		}
		v.fn = f
		wg.Add(1)
		go func() {
			defer wg.Done()
			t := time.Now()
			gen.Lock()
			v.verify()
			gen.Unlock()
			mu.Lock()
			for d := range v.used {
				if !*fOnly {
					start(d)
				} else if specs.contracts[d].trusted {
					trusted[d] = true
				}
			}
			for a := range v.assumed {
				assumed[a] = true
			}
			mu.Unlock()
			if !*fSrc {
				solveAll(v, sem, deadline, usedAx, &mu)
			}
			u.secs = time.Since(t).Seconds()
		}()
	}
	mu.Lock()
	for _, n := range work {
		start(n)
	}
	startedL := map[*Lemma]bool{}
	startLemma := func(l *Lemma) {
		if startedL[l] {
			return
		}
		startedL[l] = true
		v := newVer(P, &Contract{name: l.name, native: l.native, timeout: l.timeout, loops: map[int]*LoopSpec{}}, "lemma "+l.name)
		v.maxOrd = l.ord
		u := &unit{v: v, c: v.c, l: l}
		units = append(units, u)
		wg.Add(1)
		go func() {
			defer wg.Done()
			t := time.Now()
			gen.Lock()
			v.lemma(l)
			gen.Unlock()
			if !*fSrc {
				solveAll(v, sem, deadline, usedAx, &mu)
			}
			u.secs = time.Since(t).Seconds()
		}()
	}
	for _, l := range specs.lemmas {
		if wanted(l.tags) && (*fFn == "" || strings.Contains(l.name, *fFn)) {
			startLemma(l)
		}
	}
	mu.Unlock()
	wg.Wait()
	for !*fOnly { // lemmas used by other proofs
		n := len(startedL)
		mu.Lock()
		for _, l := range specs.lemmas {
			if usedAx["lemma "+l.name] {
				startLemma(l)
			}
		}
		mu.Unlock()
		wg.Wait()
		if len(startedL) == n {
			break
		}
	}

	sort.Slice(units, func(i, j int) bool { return units[i].v.name < units[j].v.name })
	for _, u := range units {
		v := u.v
		r := FnReport{Name: v.name, Kind: "function", File: u.c.file, Seconds: u.secs, Inlined: sortedKeys(v.inlined), Uses: sortedKeys(v.used), Loops: len(u.c.loops), Error: v.err}
		if u.l != nil {
			r.Kind, r.File = "lemma", u.l.file
		}
		if v.err != "" {
			r.Obligations++
			rep.Obligations++
			r.Failed = append(r.Failed, Failed{Obligation: v.name + ": within the reach of the verifier", Status: "not decided", Output: v.err})
		} else if len(v.obls) == 0 {
			r.Obligations++
			rep.Obligations++
			r.Failed = append(r.Failed, Failed{Obligation: v.name + ": has obligations", Status: "vacuous", Output: "no obligation was generated"})
		}
		for _, o := range v.obls {
			r.Obligations++
			rep.Obligations++
			rep.Kinds[o.kind]++
			if o.status == "discharged" {
				r.Discharged++
				rep.Discharged++
				rep.Solvers[o.res.Solver]++
				rep.SolverTime[o.res.Solver] += o.res.Secs
				if o.kind == "postcondition" && len(rep.Samples) < 8 && len(rep.Samples) < len(units) {
					rep.Samples = append(rep.Samples, o.name())
				}
				continue
			}
			f := Failed{Obligation: o.name(), Status: o.status, Output: trunc(o.res.Out, 4000)}
			if *fDump != "" {
				os.MkdirAll(*fDump, 0755)
				p := filepath.Join(*fDump, ident(v.name)+fmt.Sprintf("_%d.smt2", len(r.Failed)))
				os.WriteFile(p, []byte("; "+strings.ReplaceAll(o.name(), "\n", " ")+"\n"+v.query(o.tr, o.goal, o.native)), 0644)
				f.Query = p
			}
			r.Failed = append(r.Failed, f)
		}
		rep.Functions = append(rep.Functions, r)
		if debug_ || *fOut == "" {
			fmt.Printf("%-60s %d/%d %.1fs", r.Name, r.Discharged, r.Obligations, r.Seconds)
			if r.Error != "" {
				fmt.Printf(" ERROR %s", r.Error)
			}
			fmt.Println()
			for _, f := range r.Failed {
				fmt.Printf("    FAILED %s [%s] %s\n", f.Obligation, f.Status, f.Query)
			}
		}
	}
	rep.Trusted = sortedKeys(trusted)
	for _, a := range sortedKeys(usedAx) {
		if !strings.HasPrefix(a, "lemma ") {
			rep.Axioms = append(rep.Axioms, a)
		}
	}
	rep.Assumed = sortedKeys(assumed)
	rep.Wall = time.Since(t0).Seconds()
	if *fOut != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		if err := os.WriteFile(*fOut, b, 0644); err != nil {
			fatal("%v", err)
		}
	}
	fmt.Printf("govc: property=%s functions=%d obligations=%d discharged=%d wall=%.1fs\n", *fProp, len(units), rep.Obligations, rep.Discharged, rep.Wall)
	if rep.Discharged != rep.Obligations || rep.Obligations == 0 {
		os.Exit(1)
	}
}

func addAxioms(P *Program, specs *Specs) {
	v := newVer(P, &Contract{}, "axioms")
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case evalErr:
				fatal("axiom: %s", e.msg)
			case unsupported:
				fatal("axiom: %s", e.msg)
			}
			panic(r)
		}
	}()
	for _, n := range sortedKeys(specs.declares) {
		v.declare(specs.declares[n])
	}
	for _, a := range specs.axiomsRaw {
		text := ""
		if a.ex != nil {
			env := &Env{v: v, vars: map[string]TV{}, heap: map[string]*HV{}}
			text = "(assert " + env.bool(a.ex) + ")"
		} else {
			text = v.sortText(a.raw)
		}
		need := a.need
		if len(need) == 0 {
			for _, n := range sortedKeys(specs.declares) {
				if containsSym(text, n) {
					need = append(need, n)
				}
			}
		}
		W.axioms = append(W.axioms, axiom{name: a.name, need: need, text: text, user: true})
	}
	for _, l := range specs.lemmas {
		if l.axiom {
			text := "(assert " + v.lemmaText(l, nil) + ")"
			var need []string
			for _, n := range sortedKeys(specs.declares) {
				if containsSym(text, n) {
					need = append(need, n)
				}
			}
			for _, n := range []string{"sconcat", "itoa", "sindex", "ssub", "slenS", "sat_"} {
				if len(need) == 0 && containsSym(text, n) {
					need = append(need, "("+n+" ")
				}
			}
			W.axioms = append(W.axioms, axiom{name: "lemma " + l.name, need: need, text: text, user: true, ord: l.ord})
		}
	}
}

func solveAll(v *Ver, sem chan bool, deadline time.Time, usedAx map[string]bool, mu *sync.Mutex) {
	if v.err != "" {
		return
	}
	type job struct {
		o *Obl
		q string
	}
	var jobs []job
	gen.Lock()
	sample := ""
	for _, o := range v.obls {
		if o.status == "discharged" {
			continue
		}
		jobs = append(jobs, job{o, v.query(o.tr, o.goal, o.native)})
	}
	var vac []string
	vac = append(vac, v.query(v.entryTr, "", v.c.native))
	for _, e := range v.exits {
		vac = append(vac, v.query(e, "", v.c.native))
	}
	gen.Unlock()
	if len(jobs) > 0 {
		sample = jobs[len(jobs)-1].q
		_ = sample
		mu.Lock()
		for _, a := range W.axioms {
			for _, j := range jobs {
				if a.user && !usedAx[a.name] && strings.Contains(j.q, a.text) {
					usedAx[a.name] = true
				}
			}
		}
		mu.Unlock()
	}
	var wg sync.WaitGroup
	for _, j := range jobs {
		j := j
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			solveOne(j.o, j.q, deadline)
		}()
	}
	// vacuity: the preconditions and at least one exit must not be contradictory
	entryDead := false
	liveExit := len(v.exits) == 0
	wg.Add(1)
	go func() {
		defer wg.Done()
		sem <- true
		defer func() { <-sem }()
		sv := solvers[0]
		if v.c.native {
			sv = nativeSolvers[0]
		}
		if runSolver(sv, vac[0], 2).Status == "unsat" {
			entryDead = true
		}
		for i := 1; i < len(vac) && i < 40; i++ {
			if runSolver(sv, vac[i], 2).Status != "unsat" {
				liveExit = true
				break
			}
		}
	}()
	wg.Wait()
	if entryDead {
		v.obls = append(v.obls, &Obl{fn: v.name, kind: "vacuity", label: "the precondition is satisfiable", status: "contradiction"})
	}
	if !liveExit {
		v.obls = append(v.obls, &Obl{fn: v.name, kind: "vacuity", label: "an exit is reachable", status: "contradiction"})
	}
}

func solveOne(o *Obl, q string, deadline time.Time) {
	tmo := *fTime
	if o.tmo > 0 {
		tmo = o.tmo
	}
	left := int(time.Until(deadline).Seconds())
	if left < 1 {
		o.status = "not decided (time budget)"
		return
	}
	if tmo > left {
		tmo = left
	}
	sv := solvers
	if o.native {
		sv = nativeSolvers
	}
	first := tmo
	if first > 3 {
		first = 3
	}
	if debug_() {
		defer func(t time.Time) {
			if d := time.Since(t).Seconds(); d > 5 {
				fmt.Printf("SLOW %.1f %s %s %s\n", d, o.status, o.res.Solver, trunc(o.name(), 120))
			}
		}(time.Now())
	}
	r := runSolver(sv[0], q, first)
	if r.Status == "error" {
		o.status, o.res = "solver error", r
		if debug_() {
			fmt.Println(o.name(), trunc(r.Out, 500))
		}
	}
	if r.Status == "unsat" {
		o.status, o.res = "discharged", r
		return
	}
	parts := []string{""}
	const mark = "(assert (not "
	gi := strings.LastIndex(q, "\n"+mark)
	if gi >= 0 {
		parts = splitGoal(q[gi+1+len(mark) : strings.LastIndex(q, "))\n(check-sat)")])
	}
	var used []string
	secs := r.Secs
	for _, p := range parts {
		x := r
		if len(parts) > 1 {
			pq := q[:gi+1] + mark + p + "))\n(check-sat)\n"
			x = portfolio(sv, pq, tmo, deadline, true)
		} else {
			x = portfolio(sv, q, tmo, deadline, false)
		}
		secs += x.Secs
		if x.Status != "unsat" {
			o.status, o.res = "not discharged: "+x.Status, x
			if len(parts) > 1 {
				o.res.Out = "part of the goal: " + trunc(p, 3000) + "\n" + x.Out
			}
			return
		}
		if !has(used, x.Solver) {
			used = append(used, x.Solver)
		}
	}
	sort.Strings(used)
	o.status, o.res = "discharged", Result{Status: "unsat", Solver: strings.Join(used, "+"), Secs: secs}
}

// portfolio races the solvers on a query and on parts of its hypotheses
func portfolio(sv []Solver, q string, tmo int, deadline time.Time, all bool) Result {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if left := int(time.Until(deadline).Seconds()); tmo > left {
		tmo = left
	}
	if tmo < 1 {
		return Result{Status: "time budget"}
	}
	n := 0
	ch := make(chan Result, 32)
	run := func(s Solver, q, note string) {
		n++
		go func() {
			x := runSolverCtx(ctx, s, q, tmo)
			x.Solver += note
			ch <- x
		}()
	}
	for i, s := range sv {
		if i > 0 || all {
			run(s, q, "")
		}
	}
	seen := map[int]bool{0: true}
	for _, k := range []int{1, 2, 3} {
		if sq, d := sliceQuery(q, k); !seen[d] {
			seen[d] = true
			for i, s := range sv {
				if i != 2 || k != 3 {
					run(s, sq, fmt.Sprintf("/slice%d", k))
				}
			}
		}
	}
	best := Result{Status: "unknown"}
	for ; n > 0; n-- {
		x := <-ch
		if x.Status == "unsat" {
			return x
		}
		if strings.Contains(x.Solver, "/slice") {
			continue
		}
		if best.Solver == "" || x.Status == "sat" {
			best = x
		}
	}
	return best
}

func setDebug(b bool) { debugFlag = b }

var debugFlag bool

func debug_() bool { return debugFlag }
