package main

import (
	"context"
	"fmt"
	"go/types"
	"hash/fnv"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// ---------- sorts ----------

const modPath = "github.com/abichinger/fastac"

func qual(p *types.Package) string {
	return p.Name()
}

func tstr(t types.Type) string { return types.TypeString(t, qual) }

func ident(s string) string {
	var b strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_':
			b.WriteRune(c)
		case c == '*':
			b.WriteString("P")
		case c == '[':
			b.WriteString("L")
		case c == ']':
			b.WriteString("J")
		case c == '.', c == '/':
			b.WriteString("_")
		default:
			b.WriteString("x")
		}
	}
	return b.String()
}

type World struct {
	structs  map[string]*types.Struct // datatype name -> struct
	stypes   map[string]types.Type
	sorder   []string
	boxes    map[string]types.Type // box name -> type
	border   []string
	strLits  map[string]string
	slOrder  []string
	compSort map[string]string
	compDef  map[string]string     // default of a ghost component
	compTy   map[string]types.Type // element go type of a component (for well-formedness)
	compKind map[string]string     // F C E MD MV ML G ghost
	funs     map[string]string     // declared uninterpreted functions: name -> declaration
	forder   []string
	axioms   []axiom
	ghosts   map[string]string
	impls    map[string]types.Type
	compIdx  map[string]int
	mu       sync.Mutex
}

type axiom struct {
	name string
	need []string // included only if one of these symbols occurs
	text string
	user bool
	ord  int // number of the lemma it comes from
}

func newWorld() *World {
	return &World{structs: map[string]*types.Struct{}, stypes: map[string]types.Type{}, boxes: map[string]types.Type{}, strLits: map[string]string{}, compSort: map[string]string{}, compTy: map[string]types.Type{}, compDef: map[string]string{}, compKind: map[string]string{}, funs: map[string]string{}, ghosts: map[string]string{}, impls: map[string]types.Type{}, compIdx: map[string]int{}}
}

var W = newWorld()

func isOpaque(t types.Type) bool { // external struct types
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if n.Obj().Pkg() == nil {
		return true
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	if n.Obj().Pkg().Path() == "github.com/abichinger/govaluate" && n.Obj().Name() == "ExpressionToken" {
		return false
	}
	return !strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}

func (w *World) sort(t types.Type) string {
	if isOpaque(t) {
		if _, ok := t.Underlying().(*types.Struct); ok {
			return "Int"
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Info()&types.IsFloat != 0:
			return "Flt"
		}
		return "Int"
	case *types.Slice:
		return "Slc"
	case *types.Interface:
		return "Iface"
	case *types.Struct:
		return w.structSort(t, u)
	case *types.Array:
		return "(Array Int " + w.sort(u.Elem()) + ")"
	}
	return "Int" // pointers, maps, chans, funcs
}

func (w *World) structSort(t types.Type, u *types.Struct) string {
	name := "S_" + ident(tstr(t))
	if len(name) > 60 {
		name = fmt.Sprintf("S_anon%d", len(tstr(t)))
	}
	w.mu.Lock()
	_, ok := w.structs[name]
	if !ok {
		w.structs[name] = u
		w.stypes[name] = t
	}
	w.mu.Unlock()
	if !ok {
		for i := 0; i < u.NumFields(); i++ {
			w.sort(u.Field(i).Type())
		}
		w.mu.Lock()
		w.sorder = append(w.sorder, name)
		w.mu.Unlock()
	}
	return name
}

func (w *World) fieldSel(t types.Type, i int) string {
	return fmt.Sprintf("%s.%d", w.sort(t), i)
}

func (w *World) box(t types.Type) string {
	t = types.Unalias(t)
	name := "bx_" + ident(tstr(t))
	w.mu.Lock()
	defer w.mu.Unlock()
	if _, ok := w.boxes[name]; !ok {
		w.boxes[name] = t
		w.border = append(w.border, name)
		w.mu.Unlock()
		w.sort(t)
		w.mu.Lock()
	}
	return name
}

func (w *World) strLit(s string) string {
	if n, ok := w.strLits[s]; ok {
		return n
	}
	h := fnv.New32a()
	h.Write([]byte(s))
	n := fmt.Sprintf("lit_%08x_%s", h.Sum32(), ident(trunc(s, 20)))
	w.strLits[s] = n
	w.slOrder = append(w.slOrder, s)
	return n
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (w *World) declFun(name, decl string) {
	if _, ok := w.funs[name]; ok {
		return
	}
	w.funs[name] = decl
	w.forder = append(w.forder, name)
}

// compIndex numbers components (addresses of fields of opaque types)
func (w *World) compIndex(comp string) int {
	if i, ok := w.compIdx[comp]; ok {
		return i
	}
	w.compIdx[comp] = len(w.compIdx)
	return w.compIdx[comp]
}

// ---------- components ----------

func (w *World) comp(kind string, key string, sort string, ty types.Type) string {
	name := kind + "." + ident(key)
	if _, ok := w.compSort[name]; !ok {
		w.compSort[name] = sort
		w.compTy[name] = ty
		w.compKind[name] = kind
	}
	return name
}

func structKey(t types.Type) string { return tstr(t) }

func (w *World) fieldComp(t types.Type, i int) string {
	st := t.Underlying().(*types.Struct)
	f := st.Field(i)
	return w.comp("F", structKey(t)+"."+f.Name(), "(Array Int "+w.sort(f.Type())+")", f.Type())
}

func (w *World) cellComp(t types.Type) string {
	s := w.sort(t)
	return w.comp("C", s, "(Array Int "+s+")", t)
}

func (w *World) elemComp(t types.Type) string {
	k := w.sort(t)
	if k == "Int" {
		// separate heaps per go type: avoids mixing refs and ints
		k = tstr(t.Underlying())
		if b, ok := t.Underlying().(*types.Basic); ok {
			k = b.Name()
		}
	}
	return w.comp("E", k, "(Array Int (Array Int "+w.sort(t)+"))", t)
}

func (w *World) mapComps(m *types.Map) (dom, val, ln string) {
	ks, vs := w.sort(m.Key()), w.sort(m.Elem())
	key := tstr(m.Key().Underlying()) + "_" + tstr(m.Elem())
	dom = w.comp("MD", key, "(Array Int (Array "+ks+" Bool))", nil)
	val = w.comp("MV", key, "(Array Int (Array "+ks+" "+vs+"))", m.Elem())
	ln = w.comp("ML", key, "(Array Int Int)", nil)
	return
}

func (w *World) zero(t types.Type) string {
	s := w.sort(t)
	return w.zeroSort(s, t)
}

func (w *World) zeroSort(s string, t types.Type) string {
	switch s {
	case "Int":
		return "0"
	case "Bool":
		return "false"
	case "Str":
		return w.strLit("")
	case "Slc":
		return "nilslc"
	case "Iface":
		return "inil"
	case "Flt":
		return "fltzero"
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return fmt.Sprintf("((as const %s) %s)", s, w.zero(a.Elem()))
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		if st.NumFields() == 0 {
			return "mk_" + s
		}
		var b strings.Builder
		b.WriteString("(mk_" + s)
		for i := 0; i < st.NumFields(); i++ {
			b.WriteString(" " + w.zero(st.Field(i).Type()))
		}
		return b.String() + ")"
	}
	panic("zero of " + s)
}

// wf returns a well-formedness condition for a value of type t (or "true")
func (w *World) wf(term string, t types.Type, alloc string) string {
	if t == nil {
		return "true"
	}
	if isOpaque(t) {
		return "true"
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return fmt.Sprintf("(and (<= 0 %s) (< %s %s))", term, term, alloc)
	case *types.Slice:
		return fmt.Sprintf("(wfslc %s %s)", term, alloc)
	case *types.Basic:
		switch u.Kind() {
		case types.Uint8:
			return fmt.Sprintf("(and (<= 0 %s) (<= %s 255))", term, term)
		case types.Uint, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
			return fmt.Sprintf("(<= 0 %s)", term)
		case types.Int64, types.Int, types.Int32, types.Int16, types.Int8:
			return "true"
		}
	}
	return "true"
}

// ---------- prelude ----------

var native bool

func (w *World) decls(body string, nativeStr bool, maxOrd int, hide map[string]bool) string {
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	if nativeStr {
		b.WriteString("(define-sort Str () String)\n")
	} else {
		b.WriteString("(declare-sort Str 0)\n")
	}
	b.WriteString("(declare-sort SeqS 0)\n")
	b.WriteString("(declare-sort Flt 0)\n(declare-const fltzero Flt)\n")
	// what is used
	// functions (declared in order), axioms filtered to a fixpoint
	text := body
	used := map[string]bool{}
	inc := map[int]bool{}
	has := func(sym string) bool { return strings.Contains(text, sym) }
	for {
		ch := false
		for i, a := range w.axioms {
			if inc[i] || a.ord >= maxOrd || nativeStr && a.ord > 0 || hide[strings.TrimPrefix(a.name, "lemma ")] {
				continue
			}
			ok := len(a.need) == 0
			for _, n := range a.need {
				if has(n) {
					ok = true
				}
			}
			if ok {
				inc[i] = true
				text += a.text
				ch = true
			}
		}
		for _, f := range w.forder {
			if !used[f] && has(f) {
				used[f] = true
				text += w.funs[f]
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	useS, useB := map[string]bool{}, map[string]bool{}
	for ch := true; ch; {
		ch = false
		for _, s := range w.sorder {
			if !useS[s] && has(s) {
				useS[s] = true
				st := w.structs[s]
				for i := 0; i < st.NumFields(); i++ {
					text += " " + w.sort(st.Field(i).Type()) + " "
				}
				ch = true
			}
		}
		for _, bx := range w.border {
			if !useB[bx] && has(bx) {
				useB[bx] = true
				text += " " + w.sort(w.boxes[bx]) + " "
				ch = true
			}
		}
	}
	// datatypes
	var names, defs []string
	names = append(names, "(Slc 0)")
	defs = append(defs, "((mkslc (sarr Int) (soff Int) (slen Int) (scap Int)))")
	for _, s := range sortedKeys(useS) {
		st := w.structs[s]
		names = append(names, "("+s+" 0)")
		d := "((mk_" + s
		for i := 0; i < st.NumFields(); i++ {
			d += fmt.Sprintf(" (%s.%d %s)", s, i, w.sort(st.Field(i).Type()))
		}
		defs = append(defs, d+"))")
	}
	names = append(names, "(Iface 0)")
	d := "((inil) (bx_other (otag Int) (oval Int))"
	for _, bx := range sortedKeys(useB) {
		d += fmt.Sprintf(" (%s (un_%s %s))", bx, bx, w.sort(w.boxes[bx]))
	}
	defs = append(defs, d+")")
	b.WriteString("(declare-datatypes (" + strings.Join(names, " ") + ") (" + strings.Join(defs, "\n ") + "))\n")
	b.WriteString("(define-fun nilslc () Slc (mkslc 0 0 0 0))\n")
	b.WriteString("(define-fun wfslc ((s Slc) (al Int)) Bool (and (<= 0 (sarr s)) (< (sarr s) al) (<= 0 (soff s)) (<= 0 (slen s)) (<= (slen s) (scap s)) (=> (= (sarr s) 0) (= (scap s) 0))))\n")
	var lits []string
	slo := append([]string{}, w.slOrder...)
	sort.Strings(slo)
	for _, s := range slo {
		n := w.strLits[s]
		if !has(n) {
			continue
		}
		if nativeStr {
			b.WriteString(fmt.Sprintf("(define-fun %s () Str %s)\n", n, smtString(s)))
		} else {
			b.WriteString(fmt.Sprintf("(declare-const %s Str)\n", n))
			lits = append(lits, n)
		}
	}
	if len(lits) > 1 {
		b.WriteString("(assert (distinct " + strings.Join(lits, " ") + "))\n")
	}
	fo := append([]string{}, w.forder...)
	sort.Strings(fo)
	for _, f := range fo {
		if !used[f] {
			continue
		}
		if nativeStr {
			if nd, ok := nativeDefs[f]; ok {
				b.WriteString(nd + "\n")
				continue
			}
		}
		b.WriteString(w.funs[f] + "\n")
	}
	if !nativeStr {
		if has("(slenS ") || has("sconcat") || has("ssub") || has("sat_ ") {
			for _, s := range slo {
				if n := w.strLits[s]; strings.Contains(text, n) {
					b.WriteString(fmt.Sprintf("(assert (= (slenS %s) %d))\n", n, len(s)))
				}
			}
		}
	}
	for _, f := range fo {
		it, ok := w.impls[f]
		if !used[f] || !ok {
			continue
		}
		b.WriteString("(assert (not (" + f + " inil)))\n")
		iu := it.Underlying().(*types.Interface)
		for _, bx := range sortedKeys(useB) {
			t := "(" + f + " (" + bx + " x))"
			if !types.Implements(w.boxes[bx], iu) {
				t = "(not " + t + ")"
			}
			b.WriteString("(assert (forall ((x " + w.sort(w.boxes[bx]) + ")) " + t + "))\n")
		}
	}
	for i, a := range w.axioms {
		if inc[i] && !(nativeStr && strings.HasPrefix(a.name, "str_")) {
			b.WriteString(a.text + "\n")
		}
	}
	return b.String()
}

func smtString(s string) string {
	var b strings.Builder
	b.WriteString("\"")
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			b.WriteString("\"\"")
		} else if c < 32 || c > 126 || c == '\\' {
			b.WriteString(fmt.Sprintf("\\u{%x}", c))
		} else {
			b.WriteByte(c)
		}
	}
	b.WriteString("\"")
	return b.String()
}

var nativeDefs = map[string]string{
	"slenS":   "(define-fun slenS ((s Str)) Int (str.len s))",
	"sconcat": "(define-fun sconcat ((a Str) (b Str)) Str (str.++ a b))",
	"sat_":    "(define-fun sat_ ((s Str) (i Int)) Int (str.to_code (str.at s i)))",
	"ssub":    "(define-fun ssub ((s Str) (i Int) (j Int)) Str (str.substr s i (- j i)))",
	"sindex":  "(define-fun sindex ((s Str) (t Str)) Int (str.indexof s t 0))",
	"isdig":   "(define-fun isdig ((s Str)) Bool (str.in_re s (re.+ (re.range \"0\" \"9\"))))",
	"itoa":    "(define-fun itoa ((i Int)) Str (ite (< i 0) (str.++ \"-\" (str.from_int (- i))) (str.from_int i)))",
}

func (w *World) baseFuns() {
	w.declFun("slenS", "(declare-fun slenS (Str) Int)")
	w.declFun("sconcat", "(declare-fun sconcat (Str Str) Str)")
	w.declFun("sat_", "(declare-fun sat_ (Str Int) Int)")
	w.declFun("ssub", "(declare-fun ssub (Str Int Int) Str)")
	w.declFun("emptystrs", "(declare-fun emptystrs () (Array Int Str))")
	w.axioms = append(w.axioms,
		axiom{name: "emptystrs", need: []string{"emptystrs"}, text: "(assert (forall ((i Int)) (! (= (select emptystrs i) " + w.strLit("") + ") :pattern ((select emptystrs i)))))"},
		axiom{name: "str_len", need: []string{"(slenS "}, text: "(assert (forall ((s Str)) (! (<= 0 (slenS s)) :pattern ((slenS s)))))"},
		axiom{name: "str_len0", need: []string{"(slenS "}, text: "(assert (forall ((s Str)) (! (=> (= (slenS s) 0) (= s " + w.strLit("") + ")) :pattern ((slenS s)))))"},
		axiom{name: "str_concat", need: []string{"(sconcat "}, text: "(assert (forall ((a Str) (b Str)) (! (= (slenS (sconcat a b)) (+ (slenS a) (slenS b))) :pattern ((sconcat a b)))))"},
		axiom{name: "str_sub", need: []string{"(ssub "}, text: "(assert (forall ((a Str) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slenS a))) (= (slenS (ssub a i j)) (- j i))) :pattern ((ssub a i j)))))"},
	)
	w.declFun("clofn", "(declare-fun clofn (Int) Str)")
	w.declFun("clobind", "(declare-fun clobind (Int Int) Int)")
	// sequences of strings (values of a []string)
	w.declFun("sqlen", "(declare-fun sqlen (SeqS) Int)")
	w.declFun("sqnth", "(declare-fun sqnth (SeqS Int) Str)")
	w.declFun("sqmk", "(declare-fun sqmk ((Array Int Str) Int Int) SeqS)")
	w.declFun("sqeq", "(declare-fun sqeq (SeqS SeqS) Bool)")
	w.declFun("sqcons", "(declare-fun sqcons (Str SeqS) SeqS)")
	w.declFun("sqtail", "(declare-fun sqtail (SeqS) SeqS)")
	w.declFun("sqsnoc", "(declare-fun sqsnoc (SeqS Str) SeqS)")
	w.declFun("sqempty", "(declare-fun sqempty () SeqS)")
	w.axioms = append(w.axioms,
		axiom{name: "sq_len", need: []string{"sqmk"}, text: "(assert (forall ((a (Array Int Str)) (o Int) (n Int)) (! (=> (<= 0 n) (= (sqlen (sqmk a o n)) n)) :pattern ((sqmk a o n)))))"},
		axiom{name: "sq_nth", need: []string{"sqmk"}, text: "(assert (forall ((a (Array Int Str)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (sqnth (sqmk a o n) i) (select a (+ o i)))) :pattern ((sqnth (sqmk a o n) i)))))"},
		axiom{name: "sq_pos", need: []string{"sqlen"}, text: "(assert (forall ((s SeqS)) (! (<= 0 (sqlen s)) :pattern ((sqlen s)))))"},
		axiom{name: "sq_eq", need: []string{"sqeq"}, text: "(assert (forall ((a SeqS) (b SeqS)) (! (= (sqeq a b) (and (= (sqlen a) (sqlen b)) (forall ((i Int)) (! (=> (and (<= 0 i) (< i (sqlen a))) (= (sqnth a i) (sqnth b i))) :pattern ((sqnth a i)) :pattern ((sqnth b i)))))) :pattern ((sqeq a b)))))"},
		axiom{name: "sq_ext", need: []string{"sqeq"}, text: "(assert (forall ((a SeqS) (b SeqS)) (! (=> (sqeq a b) (= a b)) :pattern ((sqeq a b)))))"},
		axiom{name: "sq_cons", need: []string{"sqcons"}, text: "(assert (forall ((k Str) (s SeqS)) (! (and (= (sqlen (sqcons k s)) (+ 1 (sqlen s))) (= (sqnth (sqcons k s) 0) k) (= (sqtail (sqcons k s)) s)) :pattern ((sqcons k s)))))(assert (forall ((k Str) (s SeqS) (i Int)) (! (=> (and (< 0 i) (<= i (sqlen s))) (= (sqnth (sqcons k s) i) (sqnth s (- i 1)))) :pattern ((sqnth (sqcons k s) i)))))"},
		axiom{name: "sq_tail", need: []string{"sqtail"}, text: "(assert (forall ((s SeqS)) (! (=> (< 0 (sqlen s)) (= (sqlen (sqtail s)) (- (sqlen s) 1))) :pattern ((sqtail s)))))(assert (forall ((s SeqS) (i Int)) (! (=> (and (<= 0 i) (< (+ i 1) (sqlen s))) (= (sqnth (sqtail s) i) (sqnth s (+ i 1)))) :pattern ((sqnth (sqtail s) i)))))(assert (forall ((s SeqS) (i Int)) (! (=> (and (< 0 i) (< i (sqlen s))) (= (sqnth s i) (sqnth (sqtail s) (- i 1)))) :pattern ((sqtail s) (sqnth s i)))))"},
		axiom{name: "sq_tailmk", need: []string{"sqtail"}, text: "(assert (forall ((a (Array Int Str)) (o Int) (n Int)) (! (=> (< 0 n) (= (sqtail (sqmk a o n)) (sqmk a (+ o 1) (- n 1)))) :pattern ((sqtail (sqmk a o n))))))"},
		axiom{name: "sq_snoc", need: []string{"sqsnoc"}, text: "(assert (forall ((s SeqS) (k Str)) (! (and (= (sqlen (sqsnoc s k)) (+ 1 (sqlen s))) (= (sqnth (sqsnoc s k) (sqlen s)) k)) :pattern ((sqsnoc s k)))))(assert (forall ((k Str) (s SeqS) (i Int)) (! (=> (and (<= 0 i) (< i (sqlen s))) (= (sqnth (sqsnoc s k) i) (sqnth s i))) :pattern ((sqnth (sqsnoc s k) i)))))"},
		axiom{name: "sq_empty", need: []string{"sqempty"}, text: "(assert (= (sqlen sqempty) 0))"},
	)
}

// ---------- solving ----------

type Solver struct {
	name string
	args []string
	pre  string
}

var solvers = []Solver{
	{"z3-5.3", []string{"z3-new", "-in", "-smt2", "-T:%d"}, "(set-option :auto_config false)(set-option :smt.mbqi false)\n"},
	{"cvc5", []string{"cvc5", "--lang=smt2", "--tlimit=%d000", "--enum-inst"}, ""},
	{"z3-5.3-mbqi", []string{"z3-new", "-in", "-smt2", "-T:%d"}, ""},
	{"z3-4.8", []string{"z3", "-in", "-smt2", "-T:%d"}, "(set-option :auto_config false)(set-option :smt.mbqi false)\n"},
}
var nativeSolvers = []Solver{
	{"cvc5-strings", []string{"cvc5", "--lang=smt2", "--tlimit=%d000", "--strings-exp"}, ""},
	{"z3-5.3-strings", []string{"z3-new", "-in", "-smt2", "-T:%d"}, ""},
}

type Result struct {
	Status string // unsat sat unknown timeout error
	Solver string
	Secs   float64
	Out    string
}

var procs = make(chan bool, runtime.NumCPU())

func runSolver(s Solver, script string, timeout int) Result {
	return runSolverCtx(context.Background(), s, script, timeout)
}

func runSolverCtx(ctx context.Context, s Solver, script string, timeout int) Result {
	args := make([]string, len(s.args))
	for i, a := range s.args {
		if strings.Contains(a, "%d") {
			a = fmt.Sprintf(a, timeout)
		}
		args[i] = a
	}
	select { // at most one solver per processor
	case procs <- true:
		defer func() { <-procs }()
	case <-ctx.Done():
		return Result{Status: "unknown", Solver: s.name}
	}
	cmd := exec.CommandContext(ctx, args[0], args[1:]...)
	cmd.Stdin = strings.NewReader(s.pre + script)
	t0 := time.Now()
	out, _ := cmd.CombinedOutput()
	el := time.Since(t0).Seconds()
	o := strings.TrimSpace(string(out))
	st := "error"
	for _, line := range strings.Split(o, "\n") {
		line = strings.TrimSpace(line)
		switch line {
		case "unsat", "sat", "unknown":
			st = line
		case "timeout":
			st = "timeout"
		}
		if strings.HasPrefix(line, "(error") || strings.Contains(line, "rror:") {
			st = "error"
			break
		}
		if st != "error" {
			break
		}
	}
	if st == "error" && (strings.Contains(o, "timeout") || strings.Contains(o, "interrupted")) {
		st = "timeout"
	}
	return Result{st, s.name, el, o}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "govc: "+f+"\n", a...)
	os.Exit(3)
}
