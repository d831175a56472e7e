package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Active struct {
	back func(fr *Frame, st *State)
	col  *Collector
}

type Collector struct {
	frame  int
	body   map[*ssa.BasicBlock]bool // nil: callback loop
	serial int
	locs   map[string]map[string]bool
	whole  map[string]bool
	fresh  map[string]bool
	alloc  bool
	all    bool
	keep   []string
}

// noteAll: everything except keep is written
func (c *Collector) noteAll(keep []string) {
	c.alloc = true
	if !c.all {
		c.all, c.keep = true, append([]string{}, keep...)
		return
	}
	var k []string
	for _, x := range c.keep {
		if has(keep, x) {
			k = append(k, x)
		}
	}
	c.keep = k
}

func newCollector(frame int, body map[*ssa.BasicBlock]bool, serial int) *Collector {
	return &Collector{frame: frame, body: body, serial: serial, locs: map[string]map[string]bool{}, whole: map[string]bool{}, fresh: map[string]bool{}}
}

func (c *Collector) note(comp, ref string) {
	switch {
	case comp == "alloc":
		c.alloc = true
	case ref == "":
		c.whole[comp] = true
	case maxSerial(ref) <= c.serial:
		if c.locs[comp] == nil {
			c.locs[comp] = map[string]bool{}
		}
		c.locs[comp][ref] = true
	case isObj(ref):
		c.fresh[comp] = true
	default:
		c.whole[comp] = true
	}
}

func (c *Collector) merge(d *Collector) bool {
	ch := false
	if d.all {
		n := len(c.keep)
		ch = !c.all
		c.noteAll(d.keep)
		ch = ch || len(c.keep) != n
	}
	for k, m := range d.locs {
		if c.locs[k] == nil {
			c.locs[k] = map[string]bool{}
		}
		for r := range m {
			if !c.locs[k][r] {
				c.locs[k][r] = true
				ch = true
			}
		}
	}
	for k := range d.whole {
		if !c.whole[k] {
			c.whole[k] = true
			ch = true
		}
	}
	for k := range d.fresh {
		if !c.fresh[k] {
			c.fresh[k] = true
			ch = true
		}
	}
	if d.alloc && !c.alloc {
		c.alloc = true
		ch = true
	}
	return ch
}

// ---------- loop structure ----------

type loopInfo struct {
	headers map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	num     map[*ssa.BasicBlock]int
	calls   map[ssa.Instruction]int
}

func (v *Ver) loopsOf(f *ssa.Function) *loopInfo {
	v.P.mu.Lock()
	defer v.P.mu.Unlock()
	if l, ok := v.P.loops[f]; ok {
		return l
	}
	l := &loopInfo{map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, map[*ssa.BasicBlock]int{}, map[ssa.Instruction]int{}}
	for _, u := range f.Blocks {
		for _, h := range u.Succs {
			if h.Dominates(u) {
				body := l.headers[h]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{h: true}
					l.headers[h] = body
				}
				var stack []*ssa.BasicBlock
				if !body[u] {
					body[u] = true
					stack = append(stack, u)
				}
				for len(stack) > 0 {
					b := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range b.Preds {
						if !body[p] {
							body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	type site struct {
		pos  token.Pos
		size int
		h    *ssa.BasicBlock
		c    ssa.Instruction
	}
	var sites []site
	for h, body := range l.headers {
		mp := token.Pos(0)
		for b := range body {
			for _, i := range b.Instrs {
				p := i.Pos()
				if p.IsValid() && (mp == 0 || p < mp) {
					mp = p
				}
			}
		}
		sites = append(sites, site{mp, len(body), h, nil})
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				if ct := v.calleeContract(c.Common()); ct != nil && ct.iter != nil {
					sites = append(sites, site{i.Pos(), 0, nil, i})
				}
			}
		}
	}
	sort.SliceStable(sites, func(i, j int) bool {
		if sites[i].pos != sites[j].pos {
			return sites[i].pos < sites[j].pos
		}
		return sites[i].size > sites[j].size
	})
	for n, s := range sites {
		if s.h != nil {
			l.num[s.h] = n + 1
		} else {
			l.calls[s.c] = n + 1
		}
	}
	v.P.loops[f] = l
	return l
}

func (v *Ver) calleeContract(c *ssa.CallCommon) *Contract {
	if c.IsInvoke() {
		return v.P.specs.contracts[tstr(c.Value.Type())+"."+c.Method.Name()]
	}
	if f := c.StaticCallee(); f != nil {
		return v.P.specs.contracts[fnName(f)]
	}
	return nil
}

func (v *Ver) stopAtReturn(fr *Frame) bool {
	for _, c := range v.disc {
		if c.frame == fr.id && c.body != nil {
			return true
		}
	}
	return false
}

// enter follows a control flow edge
func (v *Ver) enter(fr *Frame, st *State, from, to *ssa.BasicBlock) {
	for _, c := range v.disc {
		if c.frame == fr.id && c.body != nil && !c.body[to] {
			return
		}
	}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	vals := map[ssa.Value]Val{}
	for _, i := range to.Instrs {
		if ph, ok := i.(*ssa.Phi); ok {
			vals[ph] = v.val(fr, ph.Edges[pi])
		} else if _, ok := i.(*ssa.DebugRef); !ok {
			break
		}
	}
	for k, x := range vals {
		x.Ty = k.Type()
		fr.env[k] = x
	}
	li := v.loopsOf(fr.fn)
	body, isH := li.headers[to]
	if !isH {
		v.run(fr, st, to, 0)
		return
	}
	if to.Dominates(from) {
		if a := fr.active[to]; a != nil {
			a.back(fr, st)
			return
		}
	}
	var phis []*ssa.Phi
	for _, i := range to.Instrs {
		if ph, ok := i.(*ssa.Phi); ok {
			phis = append(phis, ph)
		}
	}
	L := &loopRun{num: li.num[to], header: to, body: body, phis: phis}
	for b := range body {
		for _, i := range b.Instrs {
			if nx, ok := i.(*ssa.Next); ok && b == to {
				if y, ok := fr.env[nx.Iter]; ok && y.It != nil {
					L.it = y.It
				}
			}
		}
	}
	L.setup = func(fr *Frame, st *State) {
		for _, ph := range phis {
			entry := fr.env[ph]
			if _, isFn := v.clos[entry.T]; isFn || entry.A != nil || entry.It != nil {
				continue // closures and iterators do not change in loops of this code base (checked at the back edge)
			}
			n := v.freshVal(st, ident(ph.Comment)+"L", ph.Type())
			if ph.Comment == "rangeindex" {
				v.assume(st, "(<= (- 1) "+n.T+")")
				if ln := rangeLen(to, ph); ln != nil {
					v.assume(st, "(< "+n.T+" "+plus(v.val(fr, ln).T, "0")+")")
				}
			}
			fr.env[ph] = n
		}
	}
	L.run = func(fr *Frame, st *State, back func(*Frame, *State)) {
		fr.active[to] = &Active{back: back}
		v.run(fr, st, to, 0)
	}
	v.drive(fr, st, L)
}

// rangeLen finds the bound of a range-over-slice loop
func rangeLen(h *ssa.BasicBlock, ph *ssa.Phi) ssa.Value {
	for _, i := range h.Instrs {
		if b, ok := i.(*ssa.BinOp); ok && b.Op == token.LSS {
			if a, ok := b.X.(*ssa.BinOp); ok && a.Op == token.ADD && a.X == ph {
				return b.Y
			}
		}
	}
	return nil
}

type loopRun struct {
	num         int
	header      *ssa.BasicBlock
	body        map[*ssa.BasicBlock]bool
	phis        []*ssa.Phi
	it          *IterV
	vis         string // component with the visited set of a callback loop
	setup       func(fr *Frame, st *State)
	run         func(fr *Frame, st *State, back func(*Frame, *State))
	cbID        int
	discovering bool
}

type cand struct {
	name string
	at   func(fr *Frame, st *State) string
}

// path names the functions a frame was called from
func (f *Frame) path() string {
	p := ""
	for ; f != nil; f = f.caller {
		p += fnName(f.fn) + " "
	}
	return p
}

func (v *Ver) drive(fr *Frame, st *State, L *loopRun) {
	var spec *LoopSpec
	if fr.spec != nil {
		spec = fr.spec.loops[L.num]
	}
	if spec == nil {
		spec = &LoopSpec{}
	} else if fr.top {
		v.usedLoops[L.num] = true
	}
	pre := st.clone()
	preFr := fr.clone()
	where := fmt.Sprintf("loop %d", L.num)
	if !fr.top {
		where += " of " + fnName(fr.fn)
	}
	inv := func(fr *Frame, st *State) []string {
		if len(spec.invs) == 0 {
			return nil
		}
		env := v.loopEnv(fr, st, spec, L, pre)
		var out []string
		for _, c := range spec.invs {
			out = append(out, v.evalBool(env, c, where))
		}
		return out
	}
	for i, f := range inv(fr, st) {
		v.oblige(st, f, "invariant", fmt.Sprintf("%s #%d on entry: %s", where, i+1, spec.invs[i].src), spec.invs[i].tags, fr)
	}
	if len(spec.sets) > 0 {
		run := L.run
		L.run = func(fr *Frame, st *State, back func(*Frame, *State)) {
			run(fr, st, func(fr *Frame, st *State) {
				v.ghostSets(st, v.loopEnv(fr, st, spec, L, pre), spec.sets, "entry")
				back(fr, st)
			})
		}
	}
	L.discovering = true
	serial := v.n
	col := newCollector(fr.id, L.body, serial)
	mk := func() *Collector { return newCollector(fr.id, L.body, serial) }
	prepare := func(cands []cand) (*Frame, *State) {
		s2, f2 := pre.clone(), preFr.clone()
		v.havoc(s2, pre, col)
		L.setup(f2, s2)
		for _, c := range cands {
			v.assume(s2, c.at(f2, s2))
		}
		for _, f := range inv(f2, s2) {
			v.assume(s2, f)
		}
		return f2, s2
	}
	for it := 0; it < 6; it++ {
		c2 := mk()
		f2, s2 := prepare(nil)
		v.disc = append(v.disc, c2)
		v.writesOnly++
		L.run(f2, s2, func(*Frame, *State) {})
		v.writesOnly--
		v.disc = v.disc[:len(v.disc)-1]
		if !col.merge(c2) {
			break
		}
	}
	// candidates are tested where it matters, and those which failed once are not tried again
	var cands []cand
	if v.writesOnly == 0 {
		for _, c := range v.candidates(preFr, pre, col, L) {
			if !v.failed[fr.path()+where+" "+c.name] {
				cands = append(cands, c)
			}
		}
	}
	for round := 0; len(cands) > 0 && round < 5; round++ {
		f2, s2 := prepare(cands)
		type chk struct {
			i    int
			tr   *Trace
			goal string
		}
		var checks []chk
		v.disc = append(v.disc, mk())
		L.run(f2, s2, func(fr *Frame, st *State) {
			for i, c := range cands {
				g := c.at(fr, st)
				if v.known(st, g) != 1 {
					checks = append(checks, chk{i, st.tr, g})
				}
			}
		})
		v.disc = v.disc[:len(v.disc)-1]
		drop := make([]bool, len(cands))
		var wg sync.WaitGroup
		var mu sync.Mutex
		sem := make(chan bool, 6)
		for _, c := range checks {
			c := c
			wg.Add(1)
			q := v.query(c.tr, c.goal, v.c.native)
			go func() {
				sem <- true
				defer func() { <-sem; wg.Done() }()
				r := runSolver(solvers[0], q, 10)
				if r.Status != "unsat" {
					mu.Lock()
					drop[c.i] = true
					mu.Unlock()
				}
			}()
		}
		gen.Unlock()
		wg.Wait()
		gen.Lock()
		var keep []cand
		for i, c := range cands {
			if !drop[i] {
				keep = append(keep, c)
				continue
			}
			v.failed[fr.path()+where+" "+c.name] = true
			if debugFlag {
				fmt.Printf("  dropped candidate %s %s\n", where, c.name)
			}
		}
		if len(keep) == len(cands) {
			break
		}
		cands = keep
	}
	L.discovering = false
	f2, s2 := prepare(cands)
	head := cloneHeap(s2.heap)
	v.note2(col)
	L.run(f2, s2, func(fr *Frame, st *State) {
		v.covered(head, st, col, where)
		for _, c := range cands {
			v.oblige(st, c.at(fr, st), "auto-invariant", where+" "+c.name, nil, fr)
		}
		for i, f := range inv(fr, st) {
			v.oblige(st, f, "invariant", fmt.Sprintf("%s #%d preserved: %s", where, i+1, spec.invs[i].src), spec.invs[i].tags, fr)
		}
	})
}

// covered checks that everything an iteration wrote was assumed to be unknown at its start
func (v *Ver) covered(head map[string]*HV, st *State, col *Collector, where string) {
	for comp, h := range st.heap {
		if comp == "alloc" {
			if v.alloc(st) != v.alloc(&State{heap: head}) && !col.alloc {
				bad("%s: allocations of the loop body were not found", where)
			}
			continue
		}
		if comp == "$ep" || col.whole[comp] || col.all && !has(col.keep, comp) && W.compKind[comp] != "IT" && comp != "GS.stopped" {
			continue
		}
		o := v.hv(head, comp)
		for h != nil && h.name != o.name {
			if scalarComp(comp) || h.prev == nil || !(col.locs[comp][h.ref] || col.fresh[comp] && maxSerial(h.ref) > col.serial) {
				if o2 := head[comp]; o2 == nil && h.prev == nil {
					break // read for the first time
				}
				bad("%s: a write of the loop body to %s was not found", where, comp)
			}
			h = h.prev
		}
	}
}

// note2 reports the writes of an inner loop to the enclosing collectors
func (v *Ver) note2(col *Collector) {
	for _, c := range v.disc {
		for comp, m := range col.locs {
			for r := range m {
				c.note(comp, r)
			}
		}
		for comp := range col.whole {
			c.whole[comp] = true
		}
		for comp := range col.fresh {
			c.fresh[comp] = true
		}
		if col.alloc {
			c.alloc = true
		}
		if col.all {
			c.noteAll(col.keep)
		}
	}
}

func (v *Ver) havoc(st, pre *State, col *Collector) {
	if col.alloc {
		n := v.decl(st, "al", "Int")
		st.add("(assert (<= " + v.alloc(pre) + " " + n + "))")
		st.heap["alloc"] = &HV{name: n}
	}
	if col.all {
		v.forget(st, col.keep)
	}
	al := v.alloc(st)
	comps := map[string]bool{}
	for k := range col.locs {
		comps[k] = true
	}
	for k := range col.whole {
		comps[k] = true
	}
	for k := range col.fresh {
		comps[k] = true
	}
	for _, comp := range sortedKeys(comps) {
		if col.all && !has(col.keep, comp) && W.compKind[comp] != "IT" && comp != "GS.stopped" {
			continue
		}
		if col.whole[comp] {
			v.havocComp(st, comp)
			if !scalarComp(comp) {
				if w := wfComp(st.heap[comp].name, comp, al); w != "" {
					st.add(w)
				}
			}
			continue
		}
		if col.fresh[comp] {
			old := v.hget(pre.heap, comp)
			v.havocComp(st, comp)
			n := st.heap[comp].name
			st.add(fmt.Sprintf("(assert (forall ((r Int)) (! (=> (< r %s) (= (select %s r) (select %s r))) :pattern ((select %s r)))))", v.alloc(pre), n, old, n))
			if w := wfComp(n, comp, al); w != "" {
				st.add(w)
			}
			// function values stay known
			st.heap[comp] = &HV{name: n}
			seen := map[string]bool{}
			for h := v.hv(pre.heap, comp); h != nil && h.prev != nil; h = h.prev {
				if !seen[h.ref] && isObj(h.ref) && v.clos[h.val] != nil {
					st.heap[comp] = &HV{name: n, prev: st.heap[comp], ref: h.ref, val: h.val}
				}
				seen[h.ref] = true
				if !isObj(h.ref) {
					break
				}
			}
		}
		_, es := arrayElem(W.compSort[comp])
		for _, r := range sortedKeys(col.locs[comp]) {
			x := v.decl(st, "x", es)
			if t := W.compTy[comp]; t != nil && (W.compKind[comp] == "F" || W.compKind[comp] == "C") {
				if w := W.wf(x, t, al); w != "true" {
					v.assume(st, w)
				}
			}
			v.hsetQuiet(st, comp, r, x)
		}
	}
}

func (v *Ver) candidates(fr *Frame, pre *State, col *Collector, L *loopRun) []cand {
	var out []cand
	al := v.alloc(pre)
	type owned struct{ arr, comp string }
	var arrs []owned
	addSlice := func(name, entry string, t types.Type, now func(fr *Frame, st *State) string) {
		a := v.sarr(entry)
		if a != "0" { // nothing is ever written through a nil slice
			arrs = append(arrs, owned{a, W.elemComp(t.Underlying().(*types.Slice).Elem())})
		}
		out = append(out, cand{"owned slice " + name, func(fr *Frame, st *State) string {
			x := v.sarr(now(fr, st))
			if x == a {
				return "true"
			}
			return "(or (= " + x + " " + a + ") (<= " + al + " " + x + "))"
		}})
	}
	for _, ph := range L.phis {
		ph := ph
		if W.sort(ph.Type()) == "Slc" {
			addSlice(ph.Comment, fr.env[ph].T, ph.Type(), func(fr *Frame, st *State) string { return fr.env[ph].T })
		}
		// counters only grow
		if W.sort(ph.Type()) == "Int" && ph.Comment != "rangeindex" {
			if b, ok := ph.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				e := fr.env[ph].T
				out = append(out, cand{"lower bound of " + ph.Comment, func(fr *Frame, st *State) string { return le(e, fr.env[ph].T) }})
			}
		}
	}
	for comp, m := range col.locs {
		comp := comp
		if t := W.compTy[comp]; t == nil || W.sort(t) != "Slc" || W.compKind[comp] == "E" || W.compKind[comp] == "MV" {
			continue
		}
		for r := range m {
			r := r
			addSlice(comp+" "+r, v.hread(pre, comp, r), W.compTy[comp], func(fr *Frame, st *State) string { return v.hread(st, comp, r) })
		}
	}
	for _, comp := range sortedKeys(col.whole) {
		comp := comp
		if scalarComp(comp) {
			continue
		}
		old := v.hget(pre.heap, comp)
		var ex []string
		for r := range col.locs[comp] {
			ex = append(ex, "(= r "+r+")")
		}
		if W.compKind[comp] == "E" {
			seen := map[string]bool{}
			for _, a := range arrs {
				if !seen[a.arr] && a.comp == comp {
					seen[a.arr] = true
					ex = append(ex, "(= r "+a.arr+")")
				}
			}
		}
		out = append(out, cand{"frame of " + comp, func(fr *Frame, st *State) string {
			n := v.hget(st.heap, comp)
			if n == old {
				return "true"
			}
			return fmt.Sprintf("(forall ((r Int)) (! (=> (< r %s) %s) :pattern ((select %s r))))", al, or(append(append([]string{}, ex...), "(= (select "+n+" r) (select "+old+" r))")...), n)
		}})
	}
	if v.c.iter != nil && v.c.iter.key != nil {
		// nothing reported is forgotten, and a loop that hands its elements on reports all of them
		rep, _ := v.yieldComps()
		if col.whole[rep] {
			sub := func(name, k string, x, y func(st *State) string) {
				out = append(out, cand{name, func(fr *Frame, st *State) string {
					a, b := x(st), y(st)
					if a == emptySet(k) || a == b {
						return "true"
					}
					if b == emptySet(k) {
						return "false"
					}
					pat := ""
					for _, t := range []string{a, b} {
						if !strings.HasPrefix(t, "((as const") {
							pat += " :pattern ((select " + t + " x))"
						}
					}
					return "(forall ((x " + k + ")) (! (=> (select " + a + " x) (select " + b + " x))" + pat + "))"
				}})
			}
			ks, _ := arrayElem(W.compSort[rep])
			was := v.hread(pre, rep, "")
			now := func(st *State) string { return v.hread(st, rep, "") }
			sub("what was reported", ks, func(*State) string { return was }, now)
			if L.vis != "" && W.compSort[L.vis] == W.compSort[rep] {
				sub("what was visited is reported", ks, func(st *State) string { return v.hread(st, L.vis, "") }, now)
			}
		}
	}
	return out
}

// ---------- names in loop invariants ----------

func (v *Ver) loopEnv(fr *Frame, st *State, spec *LoopSpec, L *loopRun, pre *State) *Env {
	env := &Env{v: v, vars: map[string]TV{}, heap: st.heap}
	v.bindFrame(env, fr)
	if fr.entry != nil {
		env.old = &Env{v: v, vars: env.vars, heap: fr.entry.heap}
	}
	env.entry = &Env{v: v, vars: env.vars, heap: pre.heap, old: env.old}
	used := map[ssa.Value]bool{}
	for _, b := range spec.vars {
		ty := v.resolve(b.ty)
		x, src, ok := v.findVar(fr, st, b.name, ty, L, used)
		if !ok {
			evalFail("no variable %s of type %s for loop %d of %s", b.name, b.ty, L.num, fnName(fr.fn))
		}
		if src != nil {
			used[src] = true
		}
		env.vars[b.name] = x
	}
	for _, ph := range L.phis {
		if ph.Comment == "rangeindex" {
			env.vars["$k"] = TV{plus(fr.env[ph].T, "1"), tInt}
		}
	}
	if L.it != nil {
		env.lazy("$vis", func(h map[string]*HV) TV {
			return TV{v.hread(&State{heap: h}, L.it.comp, ""), Ty{nil, W.compSort[L.it.comp]}}
		})
	}
	if v.c.iter != nil {
		vis, stop := v.yieldComps()
		if vis != "" {
			env.lazy("$rep", func(h map[string]*HV) TV { return TV{v.hread(&State{heap: h}, vis, ""), Ty{nil, W.compSort[vis]}} })
		}
		env.vars["$stopped"] = TV{v.hread(st, stop, ""), tBool}
	}
	if L.vis != "" {
		env.lazy("$vis", func(h map[string]*HV) TV { return TV{v.hread(&State{heap: h}, L.vis, ""), Ty{nil, W.compSort[L.vis]}} })
	}
	env.entry.lz = env.lz
	return env
}

// bindFrame binds the parameters of a contract to the arguments of a frame
func (v *Ver) bindFrame(env *Env, fr *Frame) {
	for f := fr.fn.Parent(); f != nil; f = f.Parent() {
		if f == v.fn { // a function literal of the function under proof sees its parameters
			for k, x := range v.topEnv.vars {
				env.vars[k] = x
			}
		}
	}
	if fr.fn == v.fn && v.topEnv != nil {
		for _, l := range v.c.lets {
			env.vars[l.name] = v.topEnv.vars[l.name]
		}
	}
	ps := fr.fn.Params
	for i, p := range ps {
		n := p.Name()
		if fr.spec != nil && i < len(fr.spec.params) {
			n = fr.spec.params[i]
		}
		if n == "_" || n == "" {
			continue
		}
		if fr.params[i].A != nil {
			continue
		}
		env.vars[n] = TV{fr.params[i].T, gty(p.Type())}
	}
	for i, f := range fr.fn.FreeVars {
		b := fr.binds[i]
		pt, ok := f.Type().(*types.Pointer)
		if !ok || b.A != nil {
			continue
		}
		delete(env.vars, f.Name())
		et := pt.Elem()
		if isStruct(et) {
			env.vars[f.Name()] = TV{b.T, gty(f.Type())}
		} else {
			env.lazy(f.Name(), func(h map[string]*HV) TV {
				return TV{v.hread(&State{heap: h}, W.cellComp(et), b.T), gty(et)}
			})
		}
	}
}

func (v *Ver) findVar(fr *Frame, st *State, name string, ty Ty, L *loopRun, used map[ssa.Value]bool) (TV, ssa.Value, bool) {
	same := func(t types.Type) bool { return ty.G != nil && types.Identical(t, ty.G) }
	for _, ph := range L.phis {
		if ph.Comment == name && same(ph.Type()) {
			return TV{fr.env[ph].T, ty}, ph, true
		}
	}
	var allocs []*ssa.Alloc
	for _, b := range fr.fn.Blocks {
		for _, i := range b.Instrs {
			if a, ok := i.(*ssa.Alloc); ok {
				if x, ok := fr.env[a]; ok && x.A == nil && same(a.Type().(*types.Pointer).Elem()) && !isStruct(a.Type().(*types.Pointer).Elem()) {
					if _, isArr := a.Type().(*types.Pointer).Elem().Underlying().(*types.Array); !isArr {
						allocs = append(allocs, a)
					}
				}
			}
		}
	}
	cell := func(a *ssa.Alloc) TV {
		et := a.Type().(*types.Pointer).Elem()
		if _, ok := et.Underlying().(*types.Struct); ok { // opaque struct: the object itself
			return TV{fr.env[a].T, gty(a.Type())}
		}
		return TV{v.hread(st, W.cellComp(et), fr.env[a].T), ty}
	}
	for _, a := range allocs {
		if a.Comment == name {
			return cell(a), a, true
		}
	}
	for i, f := range fr.fn.FreeVars {
		if pt, ok := f.Type().(*types.Pointer); ok && f.Name() == name && same(pt.Elem()) && fr.binds[i].A == nil {
			return TV{v.hread(st, W.cellComp(pt.Elem()), fr.binds[i].T), ty}, nil, true
		}
	}
	// plain values, by their name in the source
	for _, b := range fr.fn.Blocks {
		for _, i := range b.Instrs {
			if d, ok := i.(*ssa.DebugRef); ok && !d.IsAddr && d.Object() != nil && d.Object().Name() == name {
				if x, ok := fr.env[d.X]; ok && same(d.X.Type()) && x.A == nil {
					return TV{x.T, ty}, d.X, true
				}
			}
		}
	}
	// renamed: unique candidate of the type
	var c []ssa.Value
	for _, ph := range L.phis {
		if same(ph.Type()) && !used[ph] && ph.Comment != "rangeindex" {
			c = append(c, ph)
		}
	}
	if len(c) == 1 {
		return TV{fr.env[c[0]].T, ty}, c[0], true
	}
	if len(c) == 0 {
		var as []*ssa.Alloc
		for _, a := range allocs {
			if !used[a] {
				as = append(as, a)
			}
		}
		if len(as) == 1 {
			return cell(as[0]), as[0], true
		}
	}
	return TV{}, nil, false
}

func (v *Ver) evalBool(env *Env, c Clause, where string) (out string) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(evalErr); ok {
				panic(unsupported{fmt.Sprintf("%s: %s: %s", where, c.src, e.msg)})
			}
			panic(r)
		}
	}()
	return env.bool(c.ex)
}

// gen serialises symbolic execution (the solvers run outside of it)
var gen sync.Mutex

func has(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

func join(ss []string) string { return strings.Join(ss, ",") }
