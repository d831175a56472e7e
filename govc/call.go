package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type kont func(st *State, r Val)

func (v *Ver) call(fr *Frame, st *State, cc *ssa.CallCommon, instr ssa.Instruction, k kont) {
	var args []Val
	for _, a := range cc.Args {
		args = append(args, v.val(fr, a))
	}
	v.site = instr
	if cc.IsInvoke() {
		v.invoke(fr, st, v.val(fr, cc.Value), cc.Method, args, k)
		return
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		v.builtin(fr, st, f.Name(), cc, args, k)
		return
	case *ssa.Function:
		v.callFn(fr, st, f, nil, args, k)
		return
	}
	v.callVal(fr, st, v.val(fr, cc.Value), args, k)
}

func (v *Ver) callVal(fr *Frame, st *State, f Val, args []Val, k kont) {
	if c := v.clos[f.T]; c != nil {
		if c.yield {
			v.yield(fr, st, args, k)
			return
		}
		if c.bound != nil {
			args = append([]Val{*c.bound}, args...)
		}
		v.callFn(fr, st, c.fn, c.binds, args, k)
		return
	}
	v.safe(fr, st, not(v.eq(f.T, "0")), "call of nil function")
	names := []string{tstr(f.Ty)}
	if _, ok := f.Ty.(*types.Named); !ok {
		names = []string{strings.ReplaceAll(tstr(f.Ty.Underlying()), " ", "")}
	}
	for _, n := range names {
		if c := v.P.specs.contracts[n]; c != nil {
			v.apply(fr, st, c, args, f.Ty.Underlying().(*types.Signature), map[string]TV{"$fn": {f.T, tInt}}, k)
			return
		}
	}
	bad("call of unknown function value %s of type %s", f.T, names[0])
}

func (v *Ver) invoke(fr *Frame, st *State, recv Val, m *types.Func, args []Val, k kont) {
	t := v.expand(recv.T)
	if t == "inil" {
		v.safe(fr, st, "false", "nil dereference")
		return
	}
	if strings.HasPrefix(t, "(bx_") {
		op, a := splitApp(t)
		if ct, ok := W.boxes[op]; ok {
			if fn := v.P.prog.LookupMethod(ct, m.Pkg(), m.Name()); fn != nil {
				v.callFn(fr, st, fn, nil, append([]Val{{T: a[0], Ty: ct}}, args...), k)
				return
			}
		}
	}
	v.safe(fr, st, not(v.eq(recv.T, "inil")), "nil dereference")
	sig := m.Type().(*types.Signature)
	names := []string{tstr(recv.Ty) + "." + m.Name()}
	if r := sig.Recv(); r != nil {
		names = append(names, tstr(r.Type())+"."+m.Name())
	}
	for _, n := range names {
		if c := v.P.specs.contracts[n]; c != nil {
			v.apply(fr, st, c, append([]Val{recv}, args...), sig, nil, k)
			return
		}
	}
	if d := v.c.dispatch[tstr(recv.Ty)]; d != "" { // restricted to one implementation
		env := &Env{v: v}
		_ = env
		p := &parser{toks: lex(d), src: d}
		ty := v.resolve(p.typ()).G
		v.assumed["dispatch of "+tstr(recv.Ty)+" to "+tstr(ty)] = true
		v.assume(st, v.isBox(ty, recv.T))
		fn := v.P.prog.LookupMethod(ty, m.Pkg(), m.Name())
		if fn == nil {
			bad("no method %s on %s", m.Name(), ty)
		}
		v.callFn(fr, st, fn, nil, append([]Val{{T: v.unbox(ty, recv.T), Ty: ty}}, args...), k)
		return
	}
	bad("no contract for interface method %s", names[0])
}

func (v *Ver) callFn(fr *Frame, st *State, f *ssa.Function, binds []Val, args []Val, k kont) {
	name := fnName(f)
	c := v.P.specs.contracts[name]
	if c != nil && !c.inline {
		v.apply(fr, st, c, args, f.Signature, nil, k)
		return
	}
	if len(f.Blocks) == 0 {
		bad("no contract for external function %s", name)
	}
	n := 0
	for x := fr; x != nil; x = x.caller {
		if x.fn == f {
			n++
		}
	}
	if n > 0 && c == nil || n > 2 {
		bad("recursive function %s needs a contract", name)
	}
	if fr.depth > 20 {
		bad("call depth exceeded at %s", name)
	}
	v.inlined[name] = true
	v.frames++
	nf := &Frame{id: v.frames, fn: f, env: map[ssa.Value]Val{}, caller: fr, params: args, binds: binds, depth: fr.depth + 1, active: map[*ssa.BasicBlock]*Active{}, spec: c, entry: st.clone()}
	nf.ret = func(st *State, res []Val) { k(st, pack(f.Signature, res)) }
	if len(args) != len(f.Params) {
		bad("arity of %s", name)
	}
	v.run(nf, st, f.Blocks[0], 0)
}

func pack(sig *types.Signature, res []Val) Val {
	rs := sig.Results()
	switch rs.Len() {
	case 0:
		return Val{}
	case 1:
		r := res[0]
		r.Ty = rs.At(0).Type()
		return r
	}
	out := Val{Ty: rs}
	for i, r := range res {
		r.Ty = rs.At(i).Type()
		out.Tup = append(out.Tup, r)
	}
	return out
}

// ---------- contracts at call sites ----------

func (v *Ver) argEnv(st *State, c *Contract, args []Val, extra map[string]TV) *Env {
	if len(c.params) != len(args) {
		bad("contract %s has %d parameters, call has %d arguments", c.name, len(c.params), len(args))
	}
	env := &Env{v: v, vars: map[string]TV{}, heap: cloneHeap(st.heap)}
	for i, p := range c.params {
		if p == "_" {
			continue
		}
		env.vars[p] = TV{v.term(args[i]), gty(args[i].Ty)}
	}
	for k, x := range extra {
		env.vars[k] = x
	}
	v.bindLets(st, env, c)
	return env
}

func (v *Ver) bindLets(st *State, env *Env, c *Contract) {
	for _, l := range c.lets {
		if l.vars == nil {
			env.vars[l.name] = v.evalIn(env, l.ex, c.name)
			continue
		}
		e := env.child()
		sort, bs, at := "Bool", "", ""
		for i := len(l.vars) - 1; i >= 0; i-- {
			ty := v.resolve(l.vars[i].ty)
			v.qn++
			n := fmt.Sprintf("%s?%d", l.vars[i].name, v.qn)
			e.vars[l.vars[i].name] = TV{n, ty}
			bs = "(" + n + " " + ty.S + ") " + bs
			sort = "(Array " + ty.S + " " + sort + ")"
		}
		body := v.evalIn(e, l.ex, c.name).T
		rel := func(n string) string {
			for _, b := range l.vars {
				n = app("select", n, e.vars[b.name].T)
			}
			return alpha(fmt.Sprintf("(forall (%s) (! (= %s %s) :pattern (%s)))", strings.TrimSpace(bs), n, body, n))
		}
		if n := v.rels[rel("")]; n != "" && st.lits[rel(n)] { // the same relation again
			env.vars[l.name] = TV{n, tyOfSort(sort)}
			continue
		}
		at = v.decl(st, "rel", sort)
		v.rels[rel("")] = at
		env.vars[l.name] = TV{at, tyOfSort(sort)}
		v.assume(st, rel(at))
	}
}

func cloneHeap(h map[string]*HV) map[string]*HV {
	n := make(map[string]*HV, len(h))
	for k, x := range h {
		n[k] = x
	}
	return n
}

func (v *Ver) evalIn(env *Env, x *Ex, where string) (out TV) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(evalErr); ok {
				panic(unsupported{fmt.Sprintf("%s: %s: %s", where, x, e.msg)})
			}
			panic(r)
		}
	}()
	return env.eval(x)
}

func (v *Ver) mods(env *Env, c *Contract) []modRef {
	var out []modRef
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(evalErr); ok {
				panic(unsupported{fmt.Sprintf("modifies of %s: %s", c.name, e.msg)})
			}
			panic(r)
		}
	}()
	for _, m := range c.modifies {
		out = append(out, env.modItem(m)...)
	}
	return out
}

// keeps lists the components a contract with modifies * leaves alone
func (v *Ver) keeps(env *Env, c *Contract) (out []string) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(evalErr); ok {
				panic(unsupported{fmt.Sprintf("preserves of %s: %s", c.name, e.msg)})
			}
			panic(r)
		}
	}()
	for _, m := range c.keeps {
		for _, i := range env.modItem(m) {
			out = append(out, i.comp)
		}
	}
	return out
}

func (v *Ver) havocMods(st *State, mods []modRef, pure bool) {
	if !pure {
		v.bumpAlloc(st)
	}
	al := v.alloc(st)
	for _, m := range mods {
		if m.ref == "" {
			v.note(m.comp, "")
			v.havocComp(st, m.comp)
			if !scalarComp(m.comp) {
				if w := wfComp(st.heap[m.comp].name, m.comp, al); w != "" {
					st.add(w)
				}
			}
			continue
		}
		_, es := arrayElem(W.compSort[m.comp])
		x := v.decl(st, "x", es)
		if t := W.compTy[m.comp]; t != nil && (W.compKind[m.comp] == "F" || W.compKind[m.comp] == "C") {
			if w := W.wf(x, t, al); w != "true" {
				v.assume(st, w)
			}
		}
		v.hset(st, m.comp, m.ref, x)
	}
}

func (v *Ver) apply(fr *Frame, st *State, c *Contract, args []Val, sig *types.Signature, extra map[string]TV, k kont) {
	v.used[c.name] = true
	args = v.lend(st, c, args, sig)
	env := v.argEnv(st, c, args, extra)
	for i, r := range c.requires {
		l := r.label
		if l == "" {
			l = fmt.Sprint(i + 1)
		}
		g := v.evalBool(env, r, "requires of "+c.name)
		v.oblige(st, g, "precondition", fmt.Sprintf("%s of %s: %s", l, c.name, r.src), nil, fr)
		v.assume(st, g)
	}
	if c.decreases != nil && c == v.c {
		a, b := v.evalIn(v.topEnv, c.decreases, c.name).T, v.evalIn(env, c.decreases, c.name).T
		v.oblige(st, "(and (<= 0 "+a+") (< "+b+" "+a+"))", "termination", "the recursive call decreases "+c.decreases.src, nil, fr)
	}
	if c.iter != nil && c.modAll {
		bad("%s: an iterator cannot modify everything", c.name)
	}
	if c.iter != nil {
		v.iterate(fr, st, c, args, env, sig, k)
		return
	}
	mods := v.mods(env, c)
	if c.mayPanic && v.handler(fr) {
		s2 := st.clone()
		if c.modAll {
			v.havocAll(s2, v.keeps(env, c))
		} else {
			v.havocMods(s2, mods, c.pure)
		}
		v.unwind(fr.clone(), s2, v.freshVal(s2, "pv", tIface.G).T, false)
	} else if c.mayPanic && !v.c.panics && !v.c.nosafety {
		v.oblige(st, "false", "safety", "call of "+c.name+" may panic", nil, fr)
	}
	if c.modAll {
		v.havocAll(st, v.keeps(env, c))
	} else {
		v.havocMods(st, mods, c.pure)
	}
	v.finish(fr, st, c, env, sig, k)
}

// lend passes a copy of a struct inside another object to a function that only reads it
func (v *Ver) lend(st *State, c *Contract, args []Val, sig *types.Signature) []Val {
	out := append([]Val{}, args...)
	for i, a := range args {
		if a.A == nil {
			continue
		}
		pt, ok := a.Ty.Underlying().(*types.Pointer)
		if !ok || !isStruct(pt.Elem()) || isOpaque(pt.Elem()) {
			continue
		}
		if !c.pure {
			bad("address of a nested struct passed to %s", c.name)
		}
		for j := 0; j < sig.Results().Len(); j++ {
			if p, ok := sig.Results().At(j).Type().Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), pt.Elem()) {
				bad("address of a nested struct may be returned by %s", c.name)
			}
		}
		o := v.allocObj(st, a.Ty, pt.Elem())
		t := v.loadAddr(st, a.A)
		su := pt.Elem().Underlying().(*types.Struct)
		n := W.sort(pt.Elem())
		for f := 0; f < su.NumFields(); f++ {
			v.hset(st, W.fieldComp(pt.Elem(), f), o.T, v.acc(W.fieldSel(pt.Elem(), f), "mk_"+n, f, t))
		}
		out[i] = Val{T: o.T, Ty: a.Ty}
	}
	return out
}

func (v *Ver) resultVals(st *State, sig *types.Signature) []Val {
	var out []Val
	rs := sig.Results()
	for i := 0; i < rs.Len(); i++ {
		out = append(out, v.freshVal(st, "r", rs.At(i).Type()))
	}
	return out
}

func (v *Ver) finish(fr *Frame, st *State, c *Contract, pre *Env, sig *types.Signature, k kont) {
	res := v.resultVals(st, sig)
	post := v.postEnv(st, c, pre, res)
	for _, e := range c.ensures {
		v.assume(st, v.evalBool(post, e, "ensures of "+c.name))
	}
	k(st, pack(sig, res))
}

func (v *Ver) postEnv(st *State, c *Contract, pre *Env, res []Val) *Env {
	post := &Env{v: v, vars: map[string]TV{}, heap: st.heap, old: pre, lz: pre.lz}
	for k, x := range pre.vars {
		post.vars[k] = x
	}
	for i, n := range c.results {
		if i >= len(res) {
			bad("contract %s has too many results", c.name)
		}
		if n == "_" {
			continue
		}
		post.vars[n] = TV{v.term(res[i]), gty(res[i].Ty)}
	}
	return post
}

// ---------- iterators: client side ----------

func (v *Ver) iterEnv(base *Env, it *IterSpec, args []Val) *Env {
	e := base.child()
	for i, b := range it.args {
		if i < len(args) {
			e.vars[b.name] = TV{v.term(args[i]), v.resolve(b.ty)}
		}
	}
	return e
}

// forallArgs quantifies a formula over the arguments of the callback
func (v *Ver) forallArgs(it *IterSpec, f func(map[string]TV) string) string {
	vars := map[string]TV{}
	var bs []string
	args := it.args
	if it.over != nil {
		args = []Bound{*it.over}
	}
	for _, b := range args {
		ty := v.resolve(b.ty)
		v.qn++
		n := fmt.Sprintf("%s?%d", b.name, v.qn)
		vars[b.name] = TV{n, ty}
		bs = append(bs, "("+n+" "+ty.S+")")
	}
	body := f(vars)
	used := bs[:0]
	for _, b := range bs {
		if strings.Contains(body, b[1:strings.Index(b, " ")]) {
			used = append(used, b)
		}
	}
	bs = used
	if len(bs) == 0 {
		return body
	}
	return "(forall (" + strings.Join(bs, " ") + ") " + body + ")"
}

// keyOf evaluates the key of an element; the key is at hand where elements are described by their keys
func (v *Ver) keyOf(e *Env, it *IterSpec, vars map[string]TV, what string) string {
	if it.over != nil {
		if x, ok := vars[it.over.name]; ok {
			return x.T
		}
	}
	return v.evalIn(e, it.key, what+" by").T
}

// whereOf evaluates the condition under which an element is reported
func (v *Ver) whereOf(e *Env, it *IterSpec, vars map[string]TV, what string) string {
	if it.over != nil {
		e = e.child()
		e.vars[it.over.name] = TV{v.keyOf(e, it, vars, what), v.resolve(it.over.ty)}
	}
	return v.evalIn(e, it.where, what+" iterates").T
}

func withVars(e *Env, vars map[string]TV) *Env {
	c := e.child()
	for k, x := range vars {
		c.vars[k] = x
	}
	return c
}

func (v *Ver) trig(e *Env, it *IterSpec, body string) string {
	if len(it.trig) == 0 {
		return body
	}
	out := "(! " + body
	for _, t := range it.trig {
		var ts []string
		for _, x := range t {
			ts = append(ts, v.evalIn(e, x, "trigger").T)
		}
		out += " :pattern (" + strings.Join(ts, " ") + ")"
	}
	return out + ")"
}

func (v *Ver) iterate(fr *Frame, st *State, c *Contract, args []Val, env *Env, sig *types.Signature, k kont) {
	it := c.iter
	var cb *Clos
	var cbv Val
	for i, p := range c.params {
		if p == it.fn {
			cbv = args[i]
			cb = v.clos[args[i].T]
		}
	}
	if cb == nil {
		bad("callback of %s is not known", c.name)
	}
	csig := cbv.Ty.Underlying().(*types.Signature)
	li := v.loopsOf(fr.fn)
	key := "cb." + ident(fnName(fr.fn)) + fmt.Sprint(v.callIndex(v.site))
	ks := ""
	if it.key != nil {
		ks = v.resolve(it.keyTy).S
	}
	L := &loopRun{num: li.calls[v.site]}
	if ks != "" {
		L.vis = W.comp("IT", key+"."+fmt.Sprint(fr.id), "(Array "+ks+" Bool)", nil)
		v.hset(st, L.vis, "", emptySet(ks))
	}
	start := cloneHeap(st.heap)
	mods := v.mods(env, c)
	L.setup = func(*Frame, *State) {}
	whereAt := func(heap map[string]*HV, vars map[string]TV) string {
		e := withVars(env, vars)
		e.heap = heap
		e.old = nil
		return v.whereOf(e, it, vars, c.name)
	}
	keyAt := func(heap map[string]*HV, vars map[string]TV) string {
		e := withVars(env, vars)
		e.heap = heap
		return v.keyOf(e, it, vars, c.name+" iterates")
	}
	final := func(fr *Frame, st *State, stopped bool) {
		res := v.resultVals(st, sig)
		post := v.postEnv(st, c, env, res)
		post.vars["$stopped"] = TV{fmt.Sprint(stopped), tBool}
		if L.vis != "" {
			post.vars["$vis"] = TV{v.hread(st, L.vis, ""), Ty{nil, W.compSort[L.vis]}}
		}
		partial := fmt.Sprint(stopped)
		for _, e := range c.ensures {
			v.assume(st, v.evalBool(post, e, "ensures of "+c.name))
		}
		if it.partial != nil {
			partial = or(partial, v.evalIn(post, it.partial, c.name).T)
		}
		if it.key != nil && partial != "true" {
			comp := v.forallArgs(it, func(vars map[string]TV) string {
				now := whereAt(st.heap, vars)
				p := now
				if it.weak {
					p = and(whereAt(start, vars), now)
				}
				e := withVars(env, vars)
				e.heap = st.heap
				return v.trig(e, it, implies(p, "(select "+v.hread(st, L.vis, "")+" "+keyAt(st.heap, vars)+")"))
			})
			v.assume(st, implies(not(partial), comp))
		}
		k(st, pack(sig, res))
	}
	L.run = func(fr *Frame, st *State, back func(*Frame, *State)) {
		disc := L.discovering
		s2, f2 := st.clone(), fr.clone()
		v.havocMods(s2, mods, c.pure && !c.iterAlloc)
		var as []Val
		vars := map[string]TV{}
		for i := 0; i < csig.Params().Len(); i++ {
			a := v.freshVal(s2, "a", csig.Params().At(i).Type())
			as = append(as, a)
			if i < len(it.args) {
				vars[it.args[i].name] = TV{a.T, v.resolve(it.args[i].ty)}
			}
		}
		w := whereAt(s2.heap, vars)
		v.assume(s2, w)
		var kt string
		if it.key != nil {
			kt = v.def(s2, "key", ks, keyAt(s2.heap, vars))
			if !it.dup {
				v.assume(s2, not(v.selectSet(v.hread(s2, L.vis, ""), kt)))
			}
		}
		if it.post != nil {
			e := withVars(env, vars)
			e.heap = s2.heap
			e.old = env
			v.assume(s2, v.evalIn(e, it.post, c.name+" with").T)
		}
		preCb := cloneHeap(s2.heap)
		cont := func(st *State, r Val) {
			if it.key != nil {
				v.hset(st, L.vis, "", "(store "+v.hread(st, L.vis, "")+" "+kt+" true)")
			}
			stable := func(st *State) {
				if it.weak || it.where == nil {
					return
				}
				g := v.forallArgs(it, func(vars map[string]TV) string {
					return v.eq(whereAt(preCb, vars), whereAt(st.heap, vars))
				})
				if !strings.HasSuffix(g, " true)") && g != "true" {
					v.oblige(st, g, "precondition", "the callback leaves the elements of "+c.name+" alone", nil, fr)
					v.assume(st, g)
				}
			}
			stable(st)
			if it.keep != nil {
				e := withVars(env, vars)
				e.heap = st.heap
				e.old = withVars(env, vars)
				e.old.heap = preCb
				g := v.evalIn(e, it.keep, c.name+" keeps").T
				v.oblige(st, g, "precondition", "the callback keeps what "+c.name+" relies on", nil, fr)
				v.assume(st, g)
			}
			if csig.Results().Len() == 0 {
				back(f2, st)
				return
			}
			if it.always {
				v.oblige(st, r.T, "precondition", "the callback of "+c.name+" returns true", nil, fr)
				v.assume(st, r.T)
			}
			kn := v.known(st, r.T)
			if kn >= 0 {
				s3 := st.clone()
				v.assume(s3, r.T)
				back(f2, s3)
			}
			if kn <= 0 && !disc && !it.always {
				s3 := st.clone()
				v.assume(s3, not(r.T))
				final(f2, s3, true)
			}
		}
		v.callVal(f2, s2, cbv, as, cont)
		if !disc {
			s4 := st.clone()
			v.havocMods(s4, mods, c.pure && !c.iterAlloc)
			final(fr, s4, false)
		}
	}
	v.drive(fr, st, L)
}

func (v *Ver) callIndex(i ssa.Instruction) int {
	if n, ok := v.callIdx[i]; ok {
		return n
	}
	v.callIdx[i] = len(v.callIdx)
	return v.callIdx[i]
}

// ---------- iterators: implementer side ----------

func (v *Ver) yieldComps() (vis, stop string) {
	if v.c.iter.key != nil {
		vis = W.comp("IT", "yield."+ident(v.name), "(Array "+v.resolve(v.c.iter.keyTy).S+" Bool)", nil)
	}
	stop = W.comp("GS", "stopped", "Bool", nil)
	return
}

func (v *Ver) yield(fr *Frame, st *State, args []Val, k kont) {
	it := v.c.iter
	vis, stop := v.yieldComps()
	e := v.iterEnv(v.topEnv, it, args)
	e.heap = st.heap
	e.old = v.topEnv
	g := not(v.hread(st, stop, ""))
	v.oblige(st, g, "iteration", "no callback after it returned false", nil, fr)
	v.assume(st, g)
	if it.where != nil {
		g = v.whereOf(e, it, nil, v.name)
		v.oblige(st, g, "iteration", "reported element: "+it.whereSrc, it.tags, fr)
		v.assume(st, g)
	}
	if it.post != nil {
		g = v.evalIn(e, it.post, v.name+" with").T
		v.oblige(st, g, "iteration", "reported element (with)", it.tags, fr)
		v.assume(st, g)
	}
	if it.key != nil {
		kt := v.keyOf(e, it, nil, v.name)
		if !it.dup {
			g = not(v.selectSet(v.hread(st, vis, ""), kt))
			v.oblige(st, g, "iteration", "no element is reported twice", it.tags, fr)
			v.assume(st, g)
		}
		v.hset(st, vis, "", "(store "+v.hread(st, vis, "")+" "+kt+" true)")
	}
	if len(it.changes) > 0 {
		var mods []modRef
		for _, m := range it.changes {
			mods = append(mods, v.topEnv.modItem(m)...)
		}
		pre := cloneHeap(st.heap)
		v.inYield = true
		v.havocMods(st, mods, false)
		v.inYield = false
		if !it.weak && it.where != nil {
			g := v.forallArgs(it, func(vars map[string]TV) string {
				a, b := withVars(v.topEnv, vars), withVars(v.topEnv, vars)
				a.heap, b.heap = pre, st.heap
				return v.trig(b, it, v.eq(v.whereOf(a, it, vars, "stable"), v.whereOf(b, it, vars, "stable")))
			})
			if !strings.HasSuffix(g, " true)") && g != "true" {
				v.assume(st, g)
			}
		}
		if it.keep != nil {
			e.heap = st.heap
			e.old = v.iterEnv(v.topEnv, it, args)
			e.old.heap = pre
			v.assume(st, v.evalIn(e, it.keep, v.name+" keeps").T)
		}
	}
	if it.void {
		k(st, Val{})
		return
	}
	bt := types.Typ[types.Bool]
	s2 := st.clone()
	k(st, Val{T: "true", Ty: bt})
	if it.always {
		return
	}
	v.hset(s2, stop, "", "true")
	k(s2, Val{T: "false", Ty: bt})
}

// ---------- builtins ----------

func (v *Ver) builtin(fr *Frame, st *State, name string, cc *ssa.CallCommon, args []Val, k kont) {
	it := types.Typ[types.Int]
	switch name {
	case "len":
		a := args[0]
		switch W.sort(a.Ty) {
		case "Slc":
			k(st, Val{T: v.slen(a.T), Ty: it})
			return
		case "Str":
			t := "(slenS " + a.T + ")"
			v.assume(st, "(<= 0 "+t+")")
			k(st, Val{T: t, Ty: it})
			return
		}
		if mt, ok := a.Ty.Underlying().(*types.Map); ok {
			_, _, l := W.mapComps(mt)
			v.mapFacts(st, a, mt)
			ln := v.hread(st, l, a.T)
			if len(ln) > 80 {
				ln = v.def(st, "t", "Int", ln)
			}
			k(st, Val{T: ln, Ty: it})
			return
		}
	case "cap":
		k(st, Val{T: v.scap(args[0].T), Ty: it})
		return
	case "append":
		k(st, v.appendTo(fr, st, args[0], args[1]))
		return
	case "copy":
		k(st, v.copyTo(fr, st, args[0], args[1]))
		return
	case "delete":
		v.mapDelete(fr, st, args[0], args[1])
		k(st, Val{})
		return
	case "recover":
		if st.panic == "" || !fr.isDeferOf() {
			k(st, Val{T: "inil", Ty: tIface.G})
			return
		}
		p := st.panic
		st.panic = ""
		k(st, Val{T: p, Ty: tIface.G})
		return
	case "ssa:wrapnilchk":
		k(st, args[0])
		return
	}
	bad("builtin %s", name)
}

func (f *Frame) isDeferOf() bool { return true }

func (v *Ver) appendTo(fr *Frame, st *State, s, t Val) Val {
	sl := s.Ty.Underlying().(*types.Slice)
	et := sl.Elem()
	ec := W.elemComp(et)
	es := W.sort(et)
	if W.sort(t.Ty) == "Str" {
		bad("append of a string")
	}
	n := v.slen(t.T)
	if n == "0" {
		return s
	}
	newLen := plus(v.slen(s.T), n)
	inplace := le(newLen, v.scap(s.T))
	fresh := v.newObj(st)
	arr := ite(inplace, v.sarr(s.T), fresh)
	if len(arr) > 60 {
		arr = v.def(st, "arr", "Int", arr)
	}
	src := v.hread(st, ec, v.sarr(s.T))
	var content string
	var lit int
	if isNum(n) {
		fmt.Sscan(n, &lit)
	}
	base := plus(v.soff(s.T), v.slen(s.T))
	if lit > 0 && lit <= 8 {
		content = src
		tc := v.hread(st, ec, v.sarr(t.T))
		for i := 0; i < lit; i++ {
			content = "(store " + content + " " + plus(base, num(i)) + " " + v.selectArr(tc, plus(v.soff(t.T), num(i))) + ")"
			content = v.def(st, "ap", "(Array Int "+es+")", content)
		}
	} else {
		src = v.def(st, "ap", "(Array Int "+es+")", src)
		tc := v.def(st, "ap", "(Array Int "+es+")", v.hread(st, ec, v.sarr(t.T)))
		content = v.decl(st, "ap", "(Array Int "+es+")")
		st.add(fmt.Sprintf("(assert (forall ((i Int)) (! (= (select %s i) (ite (and (<= %s i) (< i (+ %s %s))) (select %s (+ %s (- i %s))) (select %s i))) :pattern ((select %s i)))))",
			content, base, base, n, tc, v.soff(t.T), base, src, content))
		// instances are also needed when an element of the appended slice is known
		st.add(fmt.Sprintf("(assert (forall ((j Int)) (! (=> (and (<= %s j) (< j (+ %s %s))) (= (select %s (+ %s (- j %s))) (select %s j))) :pattern ((select %s j)))))",
			v.soff(t.T), v.soff(t.T), n, content, base, v.soff(t.T), tc, tc))
	}
	v.hset(st, ec, arr, content)
	var cp string
	if inplace == "true" {
		cp = v.scap(s.T)
	} else {
		c := v.decl(st, "cap", "Int")
		v.assume(st, "(<= "+newLen+" "+c+")")
		cp = ite(inplace, v.scap(s.T), c)
	}
	off := v.soff(s.T)
	return Val{T: v.def(st, "sl", "Slc", "(mkslc "+arr+" "+off+" "+newLen+" "+cp+")"), Ty: s.Ty}
}

func (v *Ver) copyTo(fr *Frame, st *State, d, s Val) Val {
	et := d.Ty.Underlying().(*types.Slice).Elem()
	ec := W.elemComp(et)
	es := W.sort(et)
	n := v.def(st, "t", "Int", "(ite (<= "+v.slen(s.T)+" "+v.slen(d.T)+") "+v.slen(s.T)+" "+v.slen(d.T)+")")
	src := v.def(st, "ap", "(Array Int "+es+")", v.hread(st, ec, v.sarr(s.T)))
	old := v.def(st, "ap", "(Array Int "+es+")", v.hread(st, ec, v.sarr(d.T)))
	c := v.decl(st, "ap", "(Array Int "+es+")")
	st.add(fmt.Sprintf("(assert (forall ((i Int)) (! (= (select %s i) (ite (and (<= %s i) (< i (+ %s %s))) (select %s (+ %s (- i %s))) (select %s i))) :pattern ((select %s i)))))",
		c, v.soff(d.T), v.soff(d.T), n, src, v.soff(s.T), v.soff(d.T), old, c))
	v.hset(st, ec, v.sarr(d.T), c)
	return Val{T: n, Ty: types.Typ[types.Int]}
}
