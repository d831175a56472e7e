package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Program struct {
	prog      *ssa.Program
	specs     *Specs
	typePkgs  []*types.Package
	sortAlias map[string]string
	fns       map[string]*ssa.Function
	loops     map[*ssa.Function]*loopInfo
	mu        sync.Mutex
}

type Ver struct {
	P          *Program
	c          *Contract
	fn         *ssa.Function
	name       string
	n          int
	qn         int
	frames     int
	steps      int
	maxSteps   int
	obls       []*Obl
	defs       map[string]string
	sorts      map[string]string
	clos       map[string]*Clos
	boxed      map[string]bool
	bases      map[string]*HV
	opOf       map[string]string // revealed applications of opaque definitions
	rels       map[string]string // relations named by contracts
	baseOf     map[string][2]string
	disc       []*Collector
	failed     map[string]bool // candidates for loop invariants which do not hold
	writesOnly int             // only the writes of a loop are of interest
	iterIdx    map[*ssa.Range]int
	callIdx    map[ssa.Instruction]int
	site       ssa.Instruction
	topEnv     *Env
	noWrite    map[string]bool // written by the callback of the function only
	inYield    bool
	rec        map[string]bool // state components read by an evaluation
	used       map[string]bool
	inlined    map[string]bool
	assumed    map[string]bool
	usedLoops  map[int]bool
	exits      []*Trace
	entryTr    *Trace
	maxOrd     int
	err        string
	mu         sync.Mutex
}

func newVer(P *Program, c *Contract, name string) *Ver {
	return &Ver{failed: map[string]bool{}, P: P, c: c, name: name, maxSteps: 400000, maxOrd: 1 << 30, defs: map[string]string{}, sorts: map[string]string{}, clos: map[string]*Clos{}, boxed: map[string]bool{}, bases: map[string]*HV{}, opOf: map[string]string{}, rels: map[string]string{}, baseOf: map[string][2]string{}, iterIdx: map[*ssa.Range]int{}, callIdx: map[ssa.Instruction]int{}, used: map[string]bool{}, inlined: map[string]bool{}, assumed: map[string]bool{}, usedLoops: map[int]bool{}}
}

func (v *Ver) ghostComp(name string) string {
	s := v.sortText(v.P.specs.ghosts[name])
	if strings.HasPrefix(s, "(Array Int ") && !v.P.specs.ghostScalar[name] {
		n := W.comp("G", name, s, nil)
		if d, ok := v.P.specs.ghostDefault[name]; ok {
			W.compDef[n] = (&Env{v: v, vars: map[string]TV{}}).eval(d).T
		}
		return n
	}
	return W.comp("GS", name, s, nil)
}

// sortText expands sort aliases
func (v *Ver) sortText(s string) string {
	for k, x := range v.P.sortAlias {
		s = strings.ReplaceAll(s, k, x)
	}
	return s
}

func (v *Ver) declare(d *Define) {
	var as []string
	for _, a := range d.args {
		as = append(as, v.resolve(a.ty).S)
	}
	W.declFun(d.name, "(declare-fun "+d.name+" ("+strings.Join(as, " ")+") "+v.resolve(d.ret).S+")")
}

// globalVar resolves package-level constants and variables
func (v *Ver) globalVar(name string, e *Env) (TV, bool) {
	pk, nm := "", name
	if i := strings.Index(name, "."); i > 0 {
		pk, nm = name[:i], name[i+1:]
	}
	for _, p := range v.P.typePkgs {
		if pk != "" && p.Name() != pk {
			continue
		}
		if pk == "" && (v.fn == nil || v.fn.Pkg == nil || v.fn.Pkg.Pkg != p) {
			continue
		}
		o := p.Scope().Lookup(nm)
		switch o := o.(type) {
		case *types.Const:
			x := v.constant(ssa.NewConst(o.Val(), o.Type()))
			return TV{x.T, gty(o.Type())}, true
		case *types.Var:
			comp := W.comp("GV", p.Name()+"."+nm, W.sort(o.Type()), o.Type())
			return TV{v.hread(&State{heap: e.heap}, comp, ""), gty(o.Type())}, true
		}
	}
	return TV{}, false
}

var mangle = strings.NewReplacer(" ", "_", "(", "", ")", "").Replace

// mention makes the trigger terms of a universal goal ground terms of the query once its
// variables are constants: the goal is proved under hypotheses on them that mean nothing
// (mention!S is a predicate nothing else is known of)
func (v *Ver) mention(goal string, sorts map[string]bool) string {
	op, as := splitApp(goal)
	switch {
	case op == "and":
		for i := range as {
			as[i] = v.mention(as[i], sorts)
		}
		return "(and " + strings.Join(as, " ") + ")"
	case op == "=>" && len(as) == 2:
		return "(=> " + as[0] + " " + v.mention(as[1], sorts) + ")"
	case op == "forall" && len(as) == 2:
		o, bs := splitApp(as[1])
		if o != "!" {
			return "(forall " + as[0] + " " + v.mention(as[1], sorts) + ")"
		}
		var hs []string
		for i := 2; i < len(bs); i += 2 {
			_, ps := splitApp("(pattern " + bs[i][1:])
			for _, p := range ps {
				f, _ := splitApp(p)
				if d := v.P.specs.declares[f]; d != nil {
					s := v.resolve(d.ret).S
					sorts[s] = true
					hs = append(hs, "(mention!"+mangle(s)+" "+p+")")
				}
			}
		}
		if len(hs) == 0 {
			return goal
		}
		sort.Strings(hs)
		return "(forall " + as[0] + " (=> " + and(hs...) + " " + v.mention(bs[0], sorts) + "))"
	}
	return goal
}

// query assembles the solver input for an obligation
func (v *Ver) query(tr *Trace, goal string, native bool) string {
	var items []string
	for t := tr; t != nil; t = t.prev {
		items = append(items, t.text)
	}
	var b strings.Builder
	for i := len(items) - 1; i >= 0; i-- {
		b.WriteString(items[i])
		b.WriteString("\n")
	}
	body := b.String()
	if goal != "" {
		sorts := map[string]bool{}
		goal = v.mention(goal, sorts)
		for _, s := range sortedKeys(sorts) {
			body += "(declare-fun mention!" + mangle(s) + " (" + s + ") Bool)\n"
		}
		body += "(assert (not " + goal + "))\n"
	}
	body += "(check-sat)\n"
	var h strings.Builder
	for {
		n := 0
		v.mu.Lock()
		names := sortedKeys(v.bases)
		v.mu.Unlock()
		h.Reset()
		h.WriteString("(declare-const alloc0 Int)\n(assert (< 0 alloc0))\n")
		for _, nm := range names {
			v.mu.Lock()
			comp, al := v.baseOf[nm][0], v.baseOf[nm][1]
			v.mu.Unlock()
			if al != "alloc0" || !containsSym(body, nm) {
				continue
			}
			n++
			h.WriteString("(declare-const " + nm + " " + W.compSort[comp] + ")\n")
			if !scalarComp(comp) {
				h.WriteString(wfComp(nm, comp, al))
			} else if W.compKind[comp] == "GV" {
				if w := W.wf(nm, W.compTy[comp], al); w != "true" {
					h.WriteString("(assert " + w + ")")
				}
			}
		}
		break
	}
	v.mu.Lock()
	late := map[string]string{} // by the name of the allocation counter
	for _, nm := range sortedKeys(v.bases) {
		comp, al := v.baseOf[nm][0], v.baseOf[nm][1]
		if al == "alloc0" || !containsSym(body, nm) {
			continue
		}
		d := "(declare-const " + nm + " " + W.compSort[comp] + ")\n"
		if !scalarComp(comp) {
			d += wfComp(nm, comp, al) + "\n"
		} else if W.compKind[comp] == "GV" {
			if w := W.wf(nm, W.compTy[comp], al); w != "true" {
				d += "(assert " + w + ")\n"
			}
		}
		late[al] += d
	}
	v.mu.Unlock()
	for al, d := range late {
		m := "(declare-const " + al + " Int)\n"
		i := strings.Index(body, m)
		if i < 0 {
			bad("internal: no declaration of %s", al)
		}
		body = body[:i+len(m)] + d + body[i+len(m):]
	}
	full := h.String() + body
	if !native {
		// an array of empty strings; not every solver takes a constant array of an uninterpreted value
		e := W.strLit("")
		full = strings.ReplaceAll(full, "((as const (Array Int Str)) "+e+")", "emptystrs")
	}
	return W.decls(full, native, v.maxOrd, v.c.hide) + full
}

func containsSym(s, sym string) bool {
	i := 0
	for {
		j := strings.Index(s[i:], sym)
		if j < 0 {
			return false
		}
		e := i + j + len(sym)
		if e >= len(s) || s[e] == ' ' || s[e] == ')' || s[e] == '\n' {
			return true
		}
		i = e
	}
}

// verify generates the obligations of one function
func (v *Ver) verify() {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				v.err = e.msg
			case evalErr:
				v.err = e.msg
			default:
				if debugFlag {
					panic(r)
				}
				v.err = fmt.Sprintf("internal error: %v", r)
			}
		}
	}()
	f := v.fn
	st := &State{heap: map[string]*HV{}, lits: map[string]bool{}}
	if len(v.c.params) != len(f.Params) {
		bad("contract has %d parameters, function has %d", len(v.c.params), len(f.Params))
	}
	fr := &Frame{id: 0, fn: f, env: map[ssa.Value]Val{}, active: map[*ssa.BasicBlock]*Active{}, spec: v.c, top: true}
	for i, p := range f.Params {
		n := "p!" + fmt.Sprint(0) + "_" + v.c.params[i]
		if v.c.params[i] == "_" {
			n += fmt.Sprint(i)
		}
		st.add("(declare-const " + n + " " + W.sort(p.Type()) + ")")
		x := v.wfVal(st, Val{T: n, Ty: p.Type()})
		if v.c.iter != nil && v.c.iter.fn == v.c.params[i] {
			v.clos[n] = &Clos{yield: true, term: n}
			st.add("(assert (< 0 " + n + "))")
			v.c.iter.void = p.Type().Underlying().(*types.Signature).Results().Len() == 0
		}
		fr.params = append(fr.params, x)
	}
	for i, fv := range f.FreeVars {
		n := fmt.Sprintf("fv!0_%d", i)
		st.add("(declare-const " + n + " " + W.sort(fv.Type()) + ")")
		x := v.wfVal(st, Val{T: n, Ty: fv.Type()})
		st.add("(assert (< 0 " + n + "))")
		fr.binds = append(fr.binds, x)
	}
	for i := range f.FreeVars {
		for j := 0; j < i; j++ {
			if types.Identical(f.FreeVars[i].Type(), f.FreeVars[j].Type()) {
				st.add(fmt.Sprintf("(assert (not (= fv!0_%d fv!0_%d)))", i, j))
			}
		}
	}
	v.n = 1
	if v.c.iter != nil {
		vis, stop := v.yieldComps()
		if vis != "" {
			v.hset(st, vis, "", emptySet(v.resolve(v.c.iter.keyTy).S))
		}
		v.hset(st, stop, "", "false")
	}
	env := &Env{v: v, vars: map[string]TV{}, heap: cloneHeap(st.heap)}
	v.bindFrame(env, fr)
	v.bindLets(st, env, v.c)
	v.topEnv = env
	for _, r := range v.c.requires {
		v.assume(st, v.evalBool(env, r, "requires"))
	}
	v.monotone(st, env)
	v.ghostSets(st, env, v.c.hooks, "entry")
	v.entryTr = st.tr
	fr.entry = &State{heap: env.heap, lits: map[string]bool{}}
	mods := v.mods(env, v.c)
	if v.c.iter != nil && len(v.c.iter.changes) > 0 {
		v.noWrite = map[string]bool{}
		for _, m := range v.c.iter.changes {
			for _, r := range env.modItem(m) {
				v.noWrite[r.comp] = true
			}
		}
		for _, m := range mods {
			delete(v.noWrite, m.comp) // the function itself may write it, too
		}
	}
	fr.ret = func(st *State, res []Val) { v.exit(fr, st, env, mods, res) }
	v.run(fr, st, f.Blocks[0], 0)
	for n := range v.c.loops {
		if !v.usedLoops[n] {
			bad("loop %d of the contract does not exist in the function", n)
		}
	}
}

// ghostSets performs ghost assignments, all right hand sides are evaluated first
func (v *Ver) ghostSets(st *State, env *Env, hooks []Hook, when string) {
	type asg struct{ comp, ref, val string }
	var as []asg
	for _, h := range hooks {
		if h.when != when {
			continue
		}
		if h.lhs.op == "id" {
			as = append(as, asg{v.ghostComp(h.lhs.name), "", v.evalIn(env, h.rhs, "set").T})
			continue
		}
		a := asg{v.ghostComp(h.lhs.args[0].name), v.evalIn(env, h.lhs.args[1], "set").T, v.evalIn(env, h.rhs, "set").T}
		if W.compDef[a.comp] != "" {
			v.oblige(st, "(< "+a.ref+" "+v.alloc(st)+")", "frame", "ghosts with a default are assigned for objects only", nil, nil)
		}
		as = append(as, a)
	}
	for _, a := range as {
		v.hset(st, a.comp, a.ref, a.val)
	}
}

// monotone: revealed definitions stay true when more objects are allocated
func (v *Ver) monotone(st *State, env *Env) {
	for _, n := range sortedKeys(v.c.reveal) {
		d := v.P.specs.defines[n]
		if d == nil || !d.opaque {
			bad("%s is not an opaque definition", n)
		}
		s2 := st.clone()
		a := &Env{v: v, vars: map[string]TV{}, heap: cloneHeap(st.heap)}
		for _, b := range d.args {
			ty := v.resolve(b.ty)
			a.vars[b.name] = TV{v.decl(s2, "m", ty.S), ty}
		}
		al := v.decl(s2, "al", "Int")
		s2.add("(assert (<= " + v.alloc(s2) + " " + al + "))")
		x := a.eval(d.body)
		a.heap["alloc"] = &HV{name: al}
		y := a.eval(d.body)
		v.oblige(s2, implies(x.T, y.T), "postcondition", n+" stays true when objects are allocated", nil, nil)
	}
}

func (v *Ver) exit(fr *Frame, st *State, env *Env, mods []modRef, res []Val) {
	v.exits = append(v.exits, st.tr)
	for i := range res {
		if i < v.fn.Signature.Results().Len() {
			res[i].Ty = v.fn.Signature.Results().At(i).Type()
		}
	}
	post := v.postEnv(st, v.c, env, res)
	v.ghostSets(st, post, v.c.hooks, "exit")
	if v.c.iter != nil {
		vis, stop := v.yieldComps()
		if vis != "" {
			post.vars["$vis"] = TV{v.hread(st, vis, ""), Ty{nil, W.compSort[vis]}}
		}
		post.vars["$stopped"] = TV{v.hread(st, stop, ""), tBool}
	}
	for i, e := range v.c.ensures {
		l := e.label
		if l == "" {
			l = fmt.Sprint(i + 1)
		}
		g := v.evalBool(post, e, "ensures")
		v.oblige(st, g, "postcondition", l+": "+e.src, e.tags, fr)
		v.assume(st, g)
	}
	if it := v.c.iter; it != nil && it.key != nil {
		vis, stop := v.yieldComps()
		skip := v.hread(st, stop, "")
		if it.partial != nil {
			skip = or(skip, v.evalIn(post, it.partial, "unless").T)
		}
		g := v.forallArgs(it, func(vars map[string]TV) string {
			e := withVars(post, vars)
			p := v.whereOf(e, it, vars, "elements")
			if it.weak {
				e2 := withVars(env, vars)
				p = and(p, v.whereOf(e2, it, vars, "elements"))
			}
			return implies(p, "(select "+v.hread(st, vis, "")+" "+v.keyOf(e, it, vars, "elements")+")")
		})
		v.oblige(st, or(skip, g), "iteration", "every element is reported: "+it.whereSrc, it.tags, fr)
	}
	var only []string
	if v.c.modAll {
		only = v.keeps(env, v.c)
		for _, k := range only {
			if _, ok := st.heap[k]; !ok {
				st.heap[k] = v.hv(st.heap, k)
			}
		}
	} else if _, ok := st.heap["$ep"]; ok {
		v.oblige(st, "false", "frame", "only the declared state is modified (a callee modifies everything)", nil, fr)
		return
	}
	// frame
	for _, comp := range sortedKeys2(st.heap) {
		if comp == "alloc" || comp == "$ep" || W.compKind[comp] == "IT" {
			continue
		}
		if v.c.modAll && !has(only, comp) || v.noWrite[comp] {
			continue
		}
		h := st.heap[comp]
		b := "h0." + comp
		if eh, ok := fr.entry.heap[comp]; ok {
			b = eh.name
		}
		if h.name == b {
			continue
		}
		var refs []string
		whole := false
		for _, m := range mods {
			if m.comp == comp {
				if m.ref == "" {
					whole = true
				} else {
					refs = append(refs, m.ref)
				}
			}
		}
		if whole {
			continue
		}
		if W.compKind[comp] == "GS" && comp == "GS.stopped" {
			continue
		}
		if scalarComp(comp) {
			v.base(comp)
			v.oblige(st, "(= "+h.name+" "+b+")", "frame", "only the declared state is modified: "+comp, nil, fr)
			continue
		}
		if W.compKind[comp] == "G" && v.P.specs.assigned(comp[2:]) {
			// assigned ghosts: changes at new objects count, their initial value excepted
			alt := []string{"(= (select " + h.name + " r) (select " + b + " r))"}
			for _, r := range refs {
				alt = append(alt, "(= r "+r+")")
			}
			for _, gi := range v.P.specs.ghostInits {
				if gi.name == comp[2:] {
					alt = append(alt, "(and (<= alloc0 r) (= (select "+h.name+" r) "+env.eval(gi.ex).T+"))")
				}
			}
			v.base(comp)
			v.oblige(st, "(forall ((r Int)) "+or(alt...)+")", "frame", "only the declared state is modified: "+comp, nil, fr)
			continue
		}
		simple := true
		seen := map[string]bool{}
		var goals []string
		cur := h
		for cur.prev != nil {
			if !seen[cur.ref] {
				seen[cur.ref] = true
				if !(isObj(cur.ref)) && !has(refs, cur.ref) {
					var alt []string
					alt = append(alt, "(<= alloc0 "+cur.ref+")")
					for _, r := range refs {
						alt = append(alt, "(= "+cur.ref+" "+r+")")
					}
					alt = append(alt, "(= "+v.hread(st, comp, cur.ref)+" (select "+b+" "+cur.ref+"))")
					goals = append(goals, or(alt...))
				}
			}
			cur = cur.prev
		}
		if cur.name != b {
			simple = false
		}
		if !simple {
			low := "(<= 0 r)"
			if W.compKind[comp] == "G" {
				low = "true"
			}
			var alt []string
			for _, r := range refs {
				alt = append(alt, "(= r "+r+")")
			}
			alt = append(alt, "(= (select "+h.name+" r) (select "+b+" r))")
			goals = []string{fmt.Sprintf("(forall ((r Int)) (=> (and %s (< r alloc0)) %s))", low, or(alt...))}
		}
		v.base(comp)
		for _, g := range goals {
			v.oblige(st, g, "frame", "only the declared state is modified: "+comp, nil, fr)
		}
	}
}

func sortedKeys2(m map[string]*HV) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// lemma obligations
func (v *Ver) lemma(l *Lemma) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				v.err = e.msg
			case evalErr:
				v.err = e.msg
			default:
				v.err = fmt.Sprint(r)
			}
		}
	}()
	st := &State{heap: map[string]*HV{}, lits: map[string]bool{}}
	env := &Env{v: v, vars: map[string]TV{}, heap: st.heap}
	for _, b := range l.vars {
		ty := v.resolve(b.ty)
		n := "p!0_" + b.name
		st.add("(declare-const " + n + " " + ty.S + ")")
		env.vars[b.name] = TV{n, ty}
		if ty.G != nil {
			v.wfVal(st, Val{T: n, Ty: ty.G})
		}
	}
	v.n = 1
	for _, r := range l.requires {
		v.assume(st, v.evalBool(env, r, "requires"))
	}
	v.entryTr = st.tr
	v.exits = append(v.exits, st.tr)
	if l.induct != nil {
		m := v.evalIn(env, l.induct, "induct").T
		st.add("(assert " + v.lemmaText(l, func(e *Env) string {
			x := v.evalIn(e, l.induct, "induct").T
			return "(and (<= 0 " + x + ") (< " + x + " " + m + "))"
		}) + ")")
	}
	for i, e := range l.ensures {
		lb := e.label
		if lb == "" {
			lb = fmt.Sprint(i + 1)
		}
		g := v.evalBool(env, e, "ensures")
		v.oblige(st, g, "lemma", lb+": "+e.src, e.tags, nil)
		v.assume(st, g)
	}
}

// lemmaText is the statement of a lemma for all values of its variables
func (v *Ver) lemmaText(l *Lemma, extra func(*Env) string) string {
	env := &Env{v: v, vars: map[string]TV{}, heap: map[string]*HV{}}
	var bs, hy, cs []string
	for _, b := range l.vars {
		ty := v.resolve(b.ty)
		n := "q!" + b.name
		bs = append(bs, "("+n+" "+ty.S+")")
		env.vars[b.name] = TV{n, ty}
		if ty.G != nil {
			if w := W.wf(n, ty.G, "alloc0"); w != "true" {
				bad("lemma %s: variable of a heap type", l.name)
			}
		}
	}
	if extra != nil {
		hy = append(hy, extra(env))
	}
	for _, r := range l.requires {
		hy = append(hy, v.evalBool(env, r, "requires"))
	}
	for _, e := range l.ensures {
		if e.label == "hint" && len(l.ensures) > 1 { // only helps the proof
			continue
		}
		cs = append(cs, v.evalBool(env, e, "ensures"))
	}
	body := implies(and(hy...), and(cs...))
	if len(bs) == 0 {
		return body
	}
	if len(l.trigs) > 0 {
		body = "(! " + body
		for _, tr := range l.trigs {
			var ts []string
			for _, t := range tr {
				ts = append(ts, v.evalIn(env, t, "trigger").T)
			}
			body += " :pattern (" + strings.Join(ts, " ") + ")"
		}
		body += ")"
	}
	return "(forall (" + strings.Join(bs, " ") + ") " + body + ")"
}
