package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
}

type Frame struct {
	id      int
	fn      *ssa.Function
	env     map[ssa.Value]Val
	caller  *Frame
	ret     func(st *State, res []Val)
	defers  []deferred
	active  map[*ssa.BasicBlock]*Active
	spec    *Contract
	params  []Val
	binds   []Val
	top     bool
	depth   int
	entry   *State // heap at entry (for old in loop invariants)
	isDefer bool
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.active = make(map[*ssa.BasicBlock]*Active, len(f.active))
	for k, v := range f.active {
		n.active[k] = v
	}
	n.defers = append([]deferred{}, f.defers...)
	return &n
}

type unsupported struct{ msg string }

func bad(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

var pathReg = regexp.MustCompile(`[A-Za-z0-9_.\-]+/`)

func fnName(f *ssa.Function) string {
	s := f.String()
	return pathReg.ReplaceAllString(s, "")
}

func (v *Ver) typeName(t types.Type) string { return tstr(t) }

// ---------- constants and operands ----------

func (v *Ver) constant(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return Val{T: W.zero(t), Ty: t}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Val{T: fmt.Sprint(constant.BoolVal(c.Value)), Ty: t}
		case u.Info()&types.IsInteger != 0:
			n, ok := constant.Int64Val(constant.ToInt(c.Value))
			if !ok {
				return Val{T: constant.ToInt(c.Value).ExactString(), Ty: t}
			}
			return Val{T: num(int(n)), Ty: t}
		case u.Info()&types.IsString != 0:
			return Val{T: W.strLit(constant.StringVal(c.Value)), Ty: t}
		case u.Info()&types.IsFloat != 0:
			n := "flt_" + ident(c.Value.ExactString())
			W.declFun(n, "(declare-const "+n+" Flt)")
			return Val{T: n, Ty: t}
		}
	case *types.Interface:
		bad("constant of interface type")
	}
	bad("constant %s", c)
	return Val{}
}

func (v *Ver) funcVal(f *ssa.Function) Val {
	n := "fn_" + ident(fnName(f))
	W.declFun(n, "(declare-const "+n+" Int)(assert (< 0 "+n+"))")
	v.clos[n] = &Clos{fn: f, term: n}
	return Val{T: n, Ty: f.Type()}
}

func (v *Ver) globalAddr(g *ssa.Global) *Addr {
	et := g.Type().(*types.Pointer).Elem()
	comp := W.comp("GV", g.Pkg.Pkg.Name()+"."+g.Name(), W.sort(et), et)
	return &Addr{comp: comp, root: et, ty: et}
}

func (v *Ver) val(fr *Frame, x ssa.Value) Val {
	switch y := x.(type) {
	case *ssa.Const:
		return v.constant(y)
	case *ssa.Function:
		return v.funcVal(y)
	case *ssa.Global:
		return Val{T: "0", Ty: y.Type(), A: v.globalAddr(y)}
	case *ssa.FreeVar:
		for i, fv := range fr.fn.FreeVars {
			if fv == y {
				return fr.binds[i]
			}
		}
	case *ssa.Parameter:
		for i, p := range fr.fn.Params {
			if p == y {
				return fr.params[i]
			}
		}
	}
	r, ok := fr.env[x]
	if !ok {
		bad("no value for %s in %s", x, fr.fn)
	}
	return r
}

// ---------- addresses ----------

func (v *Ver) pathGet(t string, ty types.Type, path []int) (string, types.Type) {
	for _, i := range path {
		st := ty.Underlying().(*types.Struct)
		s := W.sort(ty)
		t = v.acc(W.fieldSel(ty, i), "mk_"+s, i, t)
		ty = st.Field(i).Type()
	}
	return t, ty
}

func (v *Ver) pathSet(t string, ty types.Type, path []int, val string) string {
	if len(path) == 0 {
		return val
	}
	st := ty.Underlying().(*types.Struct)
	s := W.sort(ty)
	out := "(mk_" + s
	for i := 0; i < st.NumFields(); i++ {
		f := v.acc(W.fieldSel(ty, i), "mk_"+s, i, t)
		if i == path[0] {
			f = v.pathSet(f, st.Field(i).Type(), path[1:], val)
		}
		out += " " + f
	}
	return out + ")"
}

func (v *Ver) loadAddr(st *State, a *Addr) string {
	t := v.hread(st, a.comp, a.ref)
	if a.idx != "" {
		t = v.selectArr(t, a.idx)
	}
	t, _ = v.pathGet(t, a.root, a.path)
	return t
}

// selectArr simplifies reads over stores with literal indices
func (v *Ver) selectArr(arr, idx string) string {
	cur := arr
	for {
		e := v.expand(cur)
		if strings.HasPrefix(e, "(store ") {
			_, a := splitApp(e)
			if a[1] == idx {
				return a[2]
			}
			if v.distinct(a[1], idx) {
				cur = a[0]
				continue
			}
		}
		return "(select " + cur + " " + idx + ")"
	}
}

func (v *Ver) storeAddr(st *State, a *Addr, val string) {
	if a.idx == "" {
		if len(a.path) > 0 {
			val = v.pathSet(v.hread(st, a.comp, a.ref), a.root, a.path, val)
		}
		v.hset(st, a.comp, a.ref, val)
		return
	}
	arr := v.hread(st, a.comp, a.ref)
	if len(a.path) > 0 {
		val = v.pathSet(v.selectArr(arr, a.idx), a.root, a.path, val)
	}
	v.hset(st, a.comp, a.ref, "(store "+arr+" "+a.idx+" "+val+")")
}

func isStruct(t types.Type) bool {
	if isOpaque(t) {
		return false
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

// load reads the value a pointer points to
func (v *Ver) load(fr *Frame, st *State, p Val) Val {
	pt := p.Ty.Underlying().(*types.Pointer).Elem()
	if p.A != nil {
		r := v.wfVal(st, Val{T: v.loadAddr(st, p.A), Ty: pt})
		return r
	}
	v.safe(fr, st, not(v.eq(p.T, "0")), "nil dereference")
	if isOpaque(pt) {
		if _, ok := pt.Underlying().(*types.Struct); ok {
			return Val{T: p.T, Ty: pt} // identity of an opaque value
		}
	}
	if isStruct(pt) {
		s := pt.Underlying().(*types.Struct)
		n := W.sort(pt)
		if s.NumFields() == 0 {
			return Val{T: "mk_" + n, Ty: pt}
		}
		out := "(mk_" + n
		for i := 0; i < s.NumFields(); i++ {
			f := v.wfVal(st, Val{T: v.hread(st, W.fieldComp(pt, i), p.T), Ty: s.Field(i).Type()})
			out += " " + f.T
		}
		return Val{T: v.def(st, "s", n, out+")"), Ty: pt}
	}
	if at, ok := pt.Underlying().(*types.Array); ok {
		return Val{T: v.hread(st, W.elemComp(at.Elem()), p.T), Ty: pt}
	}
	return v.wfVal(st, Val{T: v.hread(st, W.cellComp(pt), p.T), Ty: pt})
}

func (v *Ver) store(fr *Frame, st *State, p Val, x Val) {
	pt := p.Ty.Underlying().(*types.Pointer).Elem()
	t := v.term(x)
	if p.A != nil {
		if isOpaque(pt) && isStructU(pt) {
			return
		}
		v.storeAddr(st, p.A, t)
		return
	}
	v.safe(fr, st, not(v.eq(p.T, "0")), "nil dereference")
	if isOpaque(pt) && isStructU(pt) {
		return
	}
	if isStruct(pt) {
		s := pt.Underlying().(*types.Struct)
		n := W.sort(pt)
		for i := 0; i < s.NumFields(); i++ {
			v.hset(st, W.fieldComp(pt, i), p.T, v.acc(W.fieldSel(pt, i), "mk_"+n, i, t))
		}
		return
	}
	if at, ok := pt.Underlying().(*types.Array); ok {
		v.hset(st, W.elemComp(at.Elem()), p.T, t)
		return
	}
	v.hset(st, W.cellComp(pt), p.T, t)
}

func isStructU(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }

// term of a value; interior pointers get a term of their own
// cloFacts records which function a closure runs and what it captured
func (v *Ver) cloFacts(st *State, n string, c *Clos) {
	st.add(fmt.Sprintf("(assert (= (clofn %s) %s))", n, W.strLit("fn "+fnName(c.fn))))
	for i, b := range c.binds {
		if b.A == nil {
			st.add(fmt.Sprintf("(assert (= (clobind %s %d) %s))", n, i, b.T))
		}
	}
}

func (v *Ver) term(x Val) string {
	if x.A == nil {
		return x.T
	}
	if x.A.idx != "" || len(x.A.path) > 0 || W.compKind[x.A.comp] != "F" {
		if W.compKind[x.A.comp] == "GV" && len(x.A.path) == 0 {
			n := "ga_" + x.A.comp[3:]
			W.declFun(n, "(declare-const "+n+" Int)(assert (< "+n+" 0))")
			return n
		}
		bad("interior pointer %s escapes", x.A.comp)
	}
	if pt, ok := x.Ty.Underlying().(*types.Pointer); ok && isStruct(pt.Elem()) && !isOpaque(pt.Elem()) {
		bad("address of the nested struct %s escapes", x.A.comp)
	}
	n := "fa_" + x.A.comp[2:]
	W.declFun(n, fmt.Sprintf("(declare-fun %s (Int) Int)(assert (forall ((r Int)) (! (= (%s r) (- (- %d) (* 1024 r))) :pattern ((%s r)))))", n, n, W.compIndex(x.A.comp), n))
	return "(" + n + " " + x.A.ref + ")"
}

func (v *Ver) wfVal(st *State, x Val) Val {
	t := x.T
	if isObj(t) || isNum(t) || isLit(t) || strings.HasPrefix(t, "(mkslc") || t == "nilslc" {
		return x
	}
	if len(t) > 80 {
		x.T = v.def(st, "t", W.sort(x.Ty), t)
		t = x.T
	}
	w := W.wf(t, x.Ty, v.alloc(st))
	if w != "true" {
		v.assume(st, w)
	}
	return x
}

// freshVal makes an unknown value of a type
func (v *Ver) freshVal(st *State, prefix string, t types.Type) Val {
	if tp, ok := t.(*types.Tuple); ok {
		r := Val{Ty: t}
		for i := 0; i < tp.Len(); i++ {
			r.Tup = append(r.Tup, v.freshVal(st, prefix, tp.At(i).Type()))
		}
		return r
	}
	n := v.decl(st, prefix, W.sort(t))
	return v.wfVal(st, Val{T: n, Ty: t})
}

// ---------- execution ----------

func (v *Ver) step() {
	v.steps++
	if v.steps > v.maxSteps {
		bad("more than %d execution steps", v.maxSteps)
	}
}

func (v *Ver) run(fr *Frame, st *State, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		v.step()
		switch x := b.Instrs[i].(type) {
		case *ssa.DebugRef, *ssa.Phi:
			continue
		case *ssa.Jump:
			v.enter(fr, st, b, b.Succs[0])
			return
		case *ssa.If:
			c := v.val(fr, x.Cond).T
			switch v.known(st, c) {
			case 1:
				v.enter(fr, st, b, b.Succs[0])
				return
			case -1:
				v.enter(fr, st, b, b.Succs[1])
				return
			}
			s2 := st.clone()
			f2 := fr.clone()
			v.assume(st, c)
			if v.feasible(st) {
				v.enter(fr, st, b, b.Succs[0])
			}
			v.assume(s2, not(c))
			if v.feasible(s2) {
				v.enter(f2, s2, b, b.Succs[1])
			}
			return
		case *ssa.Return:
			var res []Val
			for _, r := range x.Results {
				res = append(res, v.val(fr, r))
			}
			if v.stopAtReturn(fr) {
				return
			}
			fr.ret(st, res)
			return
		case *ssa.Panic:
			v.panics(fr, st, v.term(v.val(fr, x.X)), "explicit panic")
			return
		case *ssa.RunDefers:
			bb, ii := b, i
			v.runDefers(fr, st, func(fr *Frame, st *State) { v.run(fr, st, bb, ii+1) })
			return
		case *ssa.Defer:
			d := deferred{call: &x.Call}
			if x.Call.IsInvoke() {
				d.fn = v.val(fr, x.Call.Value)
			} else if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
				d.fn = v.val(fr, x.Call.Value)
			}
			for _, a := range x.Call.Args {
				d.args = append(d.args, v.val(fr, a))
			}
			fr.defers = append(fr.defers, d)
		case *ssa.Call:
			bb, ii := b, i
			done := false
			var sfr *Frame
			var sst *State
			direct := true
			v.call(fr, st, &x.Call, x, func(st *State, r Val) {
				if direct && !done { // first synchronous continuation: keep iterating instead of recursing
					done = true
					sfr, sst = fr, st
					fr.env[x] = r
					return
				}
				f2 := fr.clone()
				f2.env[x] = r
				v.run(f2, st, bb, ii+1)
			})
			direct = false
			if !done {
				return
			}
			fr, st = sfr, sst
		case *ssa.Store:
			v.store(fr, st, v.val(fr, x.Addr), v.val(fr, x.Val))
		case *ssa.MapUpdate:
			v.mapUpdate(fr, st, v.val(fr, x.Map), v.val(fr, x.Key), v.val(fr, x.Value))
		case *ssa.TypeAssert:
			if x.CommaOk {
				bb, ii := b, i
				v.typeAssert(fr, st, x, func(fr *Frame, st *State) { v.run(fr, st, bb, ii+1) })
				return
			}
			y := v.val(fr, x.X)
			c, r := v.assertTo(st, y, x.AssertedType)
			v.safe(fr, st, c, "type assertion")
			fr.env[x] = v.wfVal(st, r)
		case *ssa.Lookup:
			if x.CommaOk {
				bb, ii := b, i
				v.lookup(fr, st, x, func(fr *Frame, st *State) { v.run(fr, st, bb, ii+1) })
				return
			}
			fr.env[x] = v.lookupPlain(fr, st, x)
		case *ssa.Next:
			bb, ii := b, i
			v.next(fr, st, x, func(fr *Frame, st *State) { v.run(fr, st, bb, ii+1) })
			return
		case ssa.Value:
			fr.env[x] = v.instr(fr, st, x)
		default:
			bad("instruction %T", x)
		}
	}
}

func (v *Ver) instr(fr *Frame, st *State, x ssa.Value) Val {
	switch x := x.(type) {
	case *ssa.Alloc:
		return v.allocObj(st, x.Type(), x.Type().(*types.Pointer).Elem())
	case *ssa.UnOp:
		y := v.val(fr, x.X)
		switch x.Op {
		case token.MUL:
			return v.load(fr, st, y)
		case token.NOT:
			return Val{T: not(y.T), Ty: x.Type()}
		case token.SUB:
			if W.sort(x.Type()) == "Flt" {
				bad("float negation")
			}
			return Val{T: "(- " + y.T + ")", Ty: x.Type()}
		}
	case *ssa.BinOp:
		return v.binop(fr, st, x)
	case *ssa.FieldAddr:
		return v.fieldAddr(fr, st, v.val(fr, x.X), x.Field, x.Type())
	case *ssa.Field:
		y := v.val(fr, x.X)
		t, _ := v.pathGet(y.T, y.Ty, []int{x.Field})
		return v.wfVal(st, Val{T: t, Ty: x.Type()})
	case *ssa.IndexAddr:
		y := v.val(fr, x.X)
		i := v.val(fr, x.Index).T
		if strings.HasPrefix(i, "(") { // atomic indices match the triggers of quantifiers
			i = v.atom(st, i)
		}
		switch u := y.Ty.Underlying().(type) {
		case *types.Slice:
			v.safe(fr, st, and("(<= 0 "+i+")", "(< "+i+" "+v.slen(y.T)+")"), "index out of range")
			return Val{T: "0", Ty: x.Type(), A: &Addr{comp: W.elemComp(u.Elem()), ref: v.sarr(y.T), idx: plus(v.soff(y.T), i), root: u.Elem(), ty: u.Elem()}}
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			v.safe(fr, st, and("(<= 0 "+i+")", fmt.Sprintf("(< %s %d)", i, at.Len())), "index out of range")
			if y.A != nil {
				bad("array inside a struct")
			}
			return Val{T: "0", Ty: x.Type(), A: &Addr{comp: W.elemComp(at.Elem()), ref: y.T, idx: i, root: at.Elem(), ty: at.Elem()}}
		}
	case *ssa.Index:
		y := v.val(fr, x.X)
		i := v.val(fr, x.Index).T
		if W.sort(y.Ty) == "Str" {
			v.safe(fr, st, and("(<= 0 "+i+")", "(< "+i+" (slenS "+y.T+"))"), "index out of range")
			return v.wfVal(st, Val{T: "(sat_ " + y.T + " " + i + ")", Ty: x.Type()})
		}
		return Val{T: v.selectArr(y.T, i), Ty: x.Type()}
	case *ssa.Slice:
		return v.slice(fr, st, x)
	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		l, c := v.val(fr, x.Len).T, v.val(fr, x.Cap).T
		v.safe(fr, st, and("(<= 0 "+l+")", "(<= "+l+" "+c+")"), "makeslice: len or cap out of range")
		o := v.newObj(st)
		v.hset(st, W.elemComp(et), o, "((as const (Array Int "+W.sort(et)+")) "+W.zero(et)+")")
		return Val{T: v.def(st, "t", "Slc", "(mkslc "+o+" 0 "+l+" "+c+")"), Ty: x.Type()}
	case *ssa.MakeMap:
		o := v.newObj(st)
		mt := x.Type().Underlying().(*types.Map)
		d, _, l := W.mapComps(mt)
		v.hset(st, d, o, "((as const (Array "+W.sort(mt.Key())+" Bool)) false)")
		v.hset(st, l, o, "0")
		return Val{T: o, Ty: x.Type()}
	case *ssa.MakeInterface:
		y := v.val(fr, x.X)
		t := v.term(y)
		if _, ok := v.clos[t]; ok {
			v.boxed[t] = true
		}
		return Val{T: "(" + W.box(y.Ty) + " " + t + ")", Ty: x.Type()}
	case *ssa.ChangeInterface:
		y := v.val(fr, x.X)
		return Val{T: y.T, Ty: x.Type()}
	case *ssa.ChangeType:
		y := v.val(fr, x.X)
		y.Ty = x.Type()
		return y
	case *ssa.Convert:
		return v.convert(fr, st, x)
	case *ssa.MakeClosure:
		n := v.decl(st, "clo", "Int")
		st.add("(assert (< 0 " + n + "))")
		c := &Clos{fn: x.Fn.(*ssa.Function), term: n, typ: x.Type()}
		for _, b := range x.Bindings {
			c.binds = append(c.binds, v.val(fr, b))
		}
		v.clos[n] = c
		v.cloFacts(st, n, c)
		return Val{T: n, Ty: x.Type()}
	case *ssa.Extract:
		y := v.val(fr, x.Tuple)
		return y.Tup[x.Index]
	case *ssa.Range:
		y := v.val(fr, x.X)
		mt, ok := y.Ty.Underlying().(*types.Map)
		if !ok {
			bad("range over %s", y.Ty)
		}
		d, _, _ := W.mapComps(mt)
		ks := W.sort(mt.Key())
		v.n++
		comp := W.comp("IT", fmt.Sprintf("%s.%d", ident(fnName(fr.fn)), v.iterIndex(x)), "(Array "+ks+" Bool)", nil)
		v.hset(st, comp, "", "((as const (Array "+ks+" Bool)) false)")
		v.mapFacts(st, y, mt)
		return Val{T: "0", Ty: x.Type(), It: &IterV{comp: comp, m: y, mt: mt, dom0: v.hread(st, d, y.T)}}
	}
	bad("instruction %T in %s", x, fr.fn)
	return Val{}
}

func (v *Ver) atom(st *State, t string) string {
	for l := range st.lits {
		if strings.HasSuffix(l, " "+t+")") && strings.HasPrefix(l, "(= ix!") {
			_, a := splitApp(l)
			if len(a) == 2 && a[1] == t {
				return a[0]
			}
		}
	}
	n := v.decl(st, "ix", "Int")
	v.assume(st, "(= "+n+" "+t+")")
	return n
}

func (v *Ver) iterIndex(x *ssa.Range) int {
	if i, ok := v.iterIdx[x]; ok {
		return i
	}
	v.iterIdx[x] = len(v.iterIdx)
	return v.iterIdx[x]
}

func (v *Ver) allocObj(st *State, pt types.Type, et types.Type) Val {
	o := v.newObj(st)
	v.zeroObj(st, o, et)
	return Val{T: o, Ty: pt}
}

func (v *Ver) zeroObj(st *State, o string, et types.Type) {
	if isOpaque(et) && isStructU(et) {
		v.ghostInit(st, o, et)
		return
	}
	if isStruct(et) {
		v.ghostInit(st, o, et)
		s := et.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			c := W.fieldComp(et, i)
			v.hset(st, c, o, W.zero(ft))
			if isOpaque(ft) && isStructU(ft) {
				v.ghostInit(st, v.term(Val{Ty: types.NewPointer(ft), A: &Addr{comp: c, ref: o}}), ft)
			}
		}
		return
	}
	if at, ok := et.Underlying().(*types.Array); ok {
		v.hset(st, W.elemComp(at.Elem()), o, "((as const (Array Int "+W.sort(at.Elem())+")) "+W.zero(at.Elem())+")")
		return
	}
	v.hset(st, W.cellComp(et), o, W.zero(et))
}

func (v *Ver) ghostInit(st *State, o string, t types.Type) {
	for _, gi := range v.P.specs.ghostInits {
		if gi.ty == tstr(t) {
			env := &Env{v: v, vars: map[string]TV{}, heap: st.heap}
			v.hset(st, v.ghostComp(gi.name), o, env.eval(gi.ex).T)
		}
	}
}

func (v *Ver) fieldAddr(fr *Frame, st *State, p Val, i int, t types.Type) Val {
	et := p.Ty.Underlying().(*types.Pointer).Elem()
	s := et.Underlying().(*types.Struct)
	ft := s.Field(i).Type()
	if p.A != nil {
		a := *p.A
		a.path = append(append([]int{}, a.path...), i)
		a.ty = ft
		return Val{T: "0", Ty: t, A: &a}
	}
	v.safe(fr, st, not(v.eq(p.T, "0")), "nil dereference")
	return Val{T: "0", Ty: t, A: &Addr{comp: W.fieldComp(et, i), ref: p.T, root: ft, ty: ft}}
}

func (v *Ver) binop(fr *Frame, st *State, x *ssa.BinOp) Val {
	a, b := v.val(fr, x.X), v.val(fr, x.Y)
	t := x.Type()
	s := W.sort(a.Ty)
	ta, tb := v.term(a), v.term(b)
	switch x.Op {
	case token.EQL, token.NEQ:
		var c string
		switch s {
		case "Slc": // comparison with nil
			if ta == "nilslc" {
				ta, tb = tb, ta
			}
			c = v.eq(v.sarr(ta), "0")
		case "Iface":
			if W.sort(b.Ty) != "Iface" {
				tb = "(" + W.box(b.Ty) + " " + tb + ")"
			}
			c = v.eqIface(ta, tb)
		default:
			if W.sort(b.Ty) == "Iface" {
				ta = "(" + W.box(a.Ty) + " " + ta + ")"
			}
			c = v.eq(ta, tb)
		}
		if x.Op == token.NEQ {
			c = not(c)
		}
		return Val{T: c, Ty: t}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		op := map[token.Token]string{token.LSS: "<", token.LEQ: "<=", token.GTR: ">", token.GEQ: ">="}[x.Op]
		if s != "Int" {
			f := map[string]string{"Str": "strcmp", "Flt": "fltcmp"}[s]
			W.declFun(f, "(declare-fun "+f+" ("+s+" "+s+") Int)")
			return Val{T: "(" + op + " (" + f + " " + ta + " " + tb + ") 0)", Ty: t}
		}
		if isNum(ta) && isNum(tb) {
			var n, m int
			fmt.Sscan(ta, &n)
			fmt.Sscan(tb, &m)
			r := map[string]bool{"<": n < m, "<=": n <= m, ">": n > m, ">=": n >= m}[op]
			return Val{T: fmt.Sprint(r), Ty: t}
		}
		return Val{T: "(" + op + " " + ta + " " + tb + ")", Ty: t}
	}
	if s == "Str" && x.Op == token.ADD {
		return Val{T: v.def(st, "t", "Str", "(sconcat "+ta+" "+tb+")"), Ty: t}
	}
	if s == "Int" {
		switch x.Op {
		case token.ADD:
			return Val{T: plus(ta, tb), Ty: t}
		case token.SUB:
			if isNum(tb) {
				var m int
				fmt.Sscan(tb, &m)
				return Val{T: plus(ta, num(-m)), Ty: t}
			}
			return Val{T: "(- " + ta + " " + tb + ")", Ty: t}
		case token.MUL:
			return Val{T: "(* " + ta + " " + tb + ")", Ty: t}
		case token.QUO, token.REM:
			v.safe(fr, st, not(v.eq(tb, "0")), "division by zero")
			q := "(ite (>= " + ta + " 0) (div " + ta + " " + tb + ") (- (div (- " + ta + ") " + tb + ")))"
			if x.Op == token.QUO {
				return Val{T: v.def(st, "t", "Int", q), Ty: t}
			}
			return Val{T: v.def(st, "t", "Int", "(- "+ta+" (* "+tb+" "+q+"))"), Ty: t}
		}
	}
	f := "op_" + ident(x.Op.String()) + fmt.Sprint(int(x.Op)) + "_" + ident(s)
	W.declFun(f, "(declare-fun "+f+" ("+s+" "+s+") "+W.sort(t)+")")
	return Val{T: "(" + f + " " + ta + " " + tb + ")", Ty: t}
}

func (v *Ver) eqIface(a, b string) string { return v.eq(a, b) }

func (v *Ver) convert(fr *Frame, st *State, x *ssa.Convert) Val {
	y := v.val(fr, x.X)
	from, to := W.sort(y.Ty), W.sort(x.Type())
	if from == to && from != "Slc" {
		return Val{T: y.T, Ty: x.Type(), A: y.A}
	}
	if from == "Slc" && to == "Str" || from == "Str" && to == "Slc" || from == "Int" && to == "Str" {
		if to == "Slc" {
			r := v.freshVal(st, "cv", x.Type())
			v.assume(st, "(= (slen "+r.T+") (slenS "+y.T+"))")
			return r
		}
		f := "cv_" + ident(from+to)
		if from == "Slc" {
			return v.freshVal(st, "cv", x.Type())
		}
		W.declFun(f, "(declare-fun "+f+" ("+from+") "+to+")")
		return Val{T: "(" + f + " " + y.T + ")", Ty: x.Type()}
	}
	f := "cv_" + ident(from+to)
	W.declFun(f, "(declare-fun "+f+" ("+from+") "+to+")")
	return Val{T: "(" + f + " " + y.T + ")", Ty: x.Type()}
}

func (v *Ver) slice(fr *Frame, st *State, x *ssa.Slice) Val {
	y := v.val(fr, x.X)
	get := func(e ssa.Value, def string) string {
		if e == nil {
			return def
		}
		return v.val(fr, e).T
	}
	switch u := y.Ty.Underlying().(type) {
	case *types.Basic: // string
		l := "(slenS " + y.T + ")"
		lo, hi := get(x.Low, "0"), get(x.High, l)
		v.safe(fr, st, and("(<= 0 "+lo+")", "(<= "+lo+" "+hi+")", "(<= "+hi+" "+l+")"), "slice bounds out of range")
		return Val{T: v.def(st, "t", "Str", "(ssub "+y.T+" "+lo+" "+hi+")"), Ty: x.Type()}
	case *types.Slice:
		lo, hi := get(x.Low, "0"), get(x.High, v.slen(y.T))
		mx := get(x.Max, v.scap(y.T))
		v.safe(fr, st, and(le("0", lo), le(lo, hi), le(hi, mx), le(mx, v.scap(y.T))), "slice bounds out of range")
		return Val{T: v.def(st, "t", "Slc", "(mkslc "+v.sarr(y.T)+" "+plus(v.soff(y.T), lo)+" "+minus(hi, lo)+" "+minus(mx, lo)+")"), Ty: x.Type()}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		n := fmt.Sprint(at.Len())
		lo, hi := get(x.Low, "0"), get(x.High, n)
		mx := get(x.Max, n)
		v.safe(fr, st, and(le("0", lo), le(lo, hi), le(hi, mx), le(mx, n)), "slice bounds out of range")
		return Val{T: "(mkslc " + y.T + " " + lo + " " + minus(hi, lo) + " " + minus(mx, lo) + ")", Ty: x.Type()}
	}
	bad("slice of %s", y.Ty)
	return Val{}
}

func le(a, b string) string {
	if a == b {
		return "true"
	}
	var n, m int
	if isNum(a) && isNum(b) {
		fmt.Sscan(a, &n)
		fmt.Sscan(b, &m)
		return fmt.Sprint(n <= m)
	}
	return "(<= " + a + " " + b + ")"
}

func minus(a, b string) string {
	if b == "0" {
		return a
	}
	if isNum(a) && isNum(b) {
		var n, m int
		fmt.Sscan(a, &n)
		fmt.Sscan(b, &m)
		return num(n - m)
	}
	return "(- " + a + " " + b + ")"
}

// ---------- type assertions ----------

func (v *Ver) implFun(it types.Type) string {
	n := "impl_" + ident(tstr(it))
	W.mu.Lock()
	defer W.mu.Unlock()
	if _, ok := W.funs[n]; !ok {
		W.funs[n] = "(declare-fun " + n + " (Iface) Bool)"
		W.forder = append(W.forder, n)
		W.impls[n] = it
	}
	return n
}

func (v *Ver) assertTo(st *State, y Val, t types.Type) (cond string, r Val) {
	if it, ok := t.Underlying().(*types.Interface); ok {
		if it.NumMethods() == 0 {
			return not(v.eq(y.T, "inil")), Val{T: y.T, Ty: t}
		}
		e := v.expand(y.T)
		if e == "inil" {
			return "false", Val{T: y.T, Ty: t}
		}
		if strings.HasPrefix(e, "(bx_") {
			op, _ := splitApp(e)
			if op != "bx_other" {
				return fmt.Sprint(types.Implements(W.boxes[op], it)), Val{T: y.T, Ty: t}
			}
		}
		if types.AssignableTo(y.Ty, t) {
			return not(v.eq(y.T, "inil")), Val{T: y.T, Ty: t}
		}
		return "(" + v.implFun(t) + " " + y.T + ")", Val{T: y.T, Ty: t}
	}
	return v.isBox(t, y.T), Val{T: v.unbox(t, y.T), Ty: t}
}

func (v *Ver) typeAssert(fr *Frame, st *State, x *ssa.TypeAssert, k func(*Frame, *State)) {
	y := v.val(fr, x.X)
	c, r := v.assertTo(st, y, x.AssertedType)
	kn := v.known(st, c)
	if kn >= 0 {
		s2, f2 := st.clone(), fr.clone()
		v.assume(s2, c)
		if kn == 1 || v.feasible(s2) {
			r1 := v.wfVal(s2, r)
			f2.env[x] = Val{Ty: x.Type(), Tup: []Val{r1, {T: "true", Ty: types.Typ[types.Bool]}}}
			k(f2, s2)
		}
	}
	if kn <= 0 {
		s2, f2 := st.clone(), fr.clone()
		v.assume(s2, not(c))
		if kn == -1 || v.feasible(s2) {
			f2.env[x] = Val{Ty: x.Type(), Tup: []Val{{T: W.zero(x.AssertedType), Ty: x.AssertedType}, {T: "false", Ty: types.Typ[types.Bool]}}}
			k(f2, s2)
		}
	}
}

// ---------- maps ----------

func emptySet(ks string) string { return "((as const (Array " + ks + " Bool)) false)" }

func (v *Ver) mapFacts(st *State, m Val, mt *types.Map) {
	d, _, l := W.mapComps(mt)
	ks := W.sort(mt.Key())
	dm, ln := v.hread(st, d, m.T), v.hread(st, l, m.T)
	if !isNum(ln) {
		v.assume(st, "(>= "+ln+" 0)")
		v.assume(st, "(= (= "+ln+" 0) (= "+dm+" "+emptySet(ks)+"))")
	}
	if !isObj(m.T) {
		v.assume(st, "(=> (= "+m.T+" 0) (= "+dm+" "+emptySet(ks)+"))")
	}
}

func (v *Ver) mapUpdate(fr *Frame, st *State, m, key, val Val) {
	mt := m.Ty.Underlying().(*types.Map)
	v.safe(fr, st, not(v.eq(m.T, "0")), "assignment to entry in nil map")
	d, vl, l := W.mapComps(mt)
	v.mapFacts(st, m, mt)
	k := v.coerceIface(key, mt.Key())
	x := v.coerceIface(val, mt.Elem())
	dm := v.hread(st, d, m.T)
	in := v.selectSet(dm, k)
	ln := v.hread(st, l, m.T)
	v.hset(st, l, m.T, ite(in, ln, plus(ln, "1")))
	v.hset(st, d, m.T, "(store "+dm+" "+k+" true)")
	v.hset(st, vl, m.T, "(store "+v.hread(st, vl, m.T)+" "+k+" "+x+")")
}

func (v *Ver) coerceIface(x Val, t types.Type) string {
	tm := v.term(x)
	if W.sort(t) == "Iface" && W.sort(x.Ty) != "Iface" {
		return "(" + W.box(x.Ty) + " " + tm + ")"
	}
	return tm
}

func (v *Ver) selectSet(s, k string) string {
	e := v.expand(s)
	if strings.HasPrefix(e, "((as const") {
		return "false"
	}
	return v.selectArr(s, k)
}

func (v *Ver) mapDelete(fr *Frame, st *State, m, key Val) {
	mt := m.Ty.Underlying().(*types.Map)
	d, _, l := W.mapComps(mt)
	v.mapFacts(st, m, mt)
	k := v.coerceIface(key, mt.Key())
	dm := v.hread(st, d, m.T)
	in := v.selectSet(dm, k)
	ln := v.hread(st, l, m.T)
	v.hset(st, l, m.T, ite(in, plus(ln, "(- 1)"), ln))
	v.hset(st, d, m.T, "(store "+dm+" "+k+" false)")
}

func (v *Ver) lookup(fr *Frame, st *State, x *ssa.Lookup, kont func(*Frame, *State)) {
	m := v.val(fr, x.X)
	mt := m.Ty.Underlying().(*types.Map)
	d, vl, _ := W.mapComps(mt)
	v.mapFacts(st, m, mt)
	k := v.coerceIface(v.val(fr, x.Index), mt.Key())
	in := v.selectSet(v.hread(st, d, m.T), k)
	if len(in) > 60 {
		in = v.def(st, "b", "Bool", in)
	}
	kn := v.known(st, in)
	if kn >= 0 {
		s2, f2 := st.clone(), fr.clone()
		v.assume(s2, in)
		if kn == 1 || v.feasible(s2) {
			r := v.wfVal(s2, Val{T: v.selectArr(v.hread(s2, vl, m.T), k), Ty: mt.Elem()})
			f2.env[x] = Val{Ty: x.Type(), Tup: []Val{r, {T: "true", Ty: types.Typ[types.Bool]}}}
			kont(f2, s2)
		}
	}
	if kn <= 0 {
		s2, f2 := st.clone(), fr.clone()
		v.assume(s2, not(in))
		if kn == -1 || v.feasible(s2) {
			f2.env[x] = Val{Ty: x.Type(), Tup: []Val{{T: W.zero(mt.Elem()), Ty: mt.Elem()}, {T: "false", Ty: types.Typ[types.Bool]}}}
			kont(f2, s2)
		}
	}
}

func (v *Ver) lookupPlain(fr *Frame, st *State, x *ssa.Lookup) Val {
	m := v.val(fr, x.X)
	if W.sort(m.Ty) == "Str" {
		i := v.val(fr, x.Index).T
		v.safe(fr, st, and("(<= 0 "+i+")", "(< "+i+" (slenS "+m.T+"))"), "index out of range")
		return v.wfVal(st, Val{T: "(sat_ " + m.T + " " + i + ")", Ty: x.Type()})
	}
	mt := m.Ty.Underlying().(*types.Map)
	d, vl, _ := W.mapComps(mt)
	v.mapFacts(st, m, mt)
	k := v.coerceIface(v.val(fr, x.Index), mt.Key())
	in := v.selectSet(v.hread(st, d, m.T), k)
	t := v.selectArr(v.hread(st, vl, m.T), k)
	return v.wfVal(st, Val{T: ite(in, t, W.zero(mt.Elem())), Ty: x.Type()})
}

func (v *Ver) next(fr *Frame, st *State, x *ssa.Next, kont func(*Frame, *State)) {
	it := v.val(fr, x.Iter).It
	d, vl, _ := W.mapComps(it.mt)
	ks := W.sort(it.mt.Key())
	vis := v.hread(st, it.comp, "")
	dm := v.hread(st, d, it.m.T)
	bt := types.Typ[types.Bool]
	{ // one more entry
		s2, f2 := st.clone(), fr.clone()
		k := v.freshVal(s2, "k", it.mt.Key())
		v.assume(s2, v.selectSet(dm, k.T))
		v.assume(s2, not(v.selectSet(vis, k.T)))
		val := v.wfVal(s2, Val{T: v.selectArr(v.hread(s2, vl, it.m.T), k.T), Ty: it.mt.Elem()})
		v.hset(s2, it.comp, "", "(store "+vis+" "+k.T+" true)")
		f2.env[x] = Val{Ty: x.Type(), Tup: []Val{{T: "true", Ty: bt}, k, val}}
		if v.known(s2, v.selectSet(dm, k.T)) >= 0 && v.feasible(s2) {
			kont(f2, s2)
		}
	}
	{ // done
		s2, f2 := st.clone(), fr.clone()
		if dm == it.dom0 {
			v.assume(s2, fmt.Sprintf("(forall ((k %s)) (! (=> (select %s k) (select %s k)) :pattern ((select %s k)) :pattern ((select %s k))))", ks, dm, vis, dm, vis))
		} else {
			v.assume(s2, fmt.Sprintf("(forall ((k %s)) (! (=> (and (select %s k) (select %s k)) (select %s k)) :pattern ((select %s k)) :pattern ((select %s k))))", ks, dm, it.dom0, vis, dm, vis))
		}
		z := func(t types.Type) Val {
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return Val{T: "0", Ty: types.Typ[types.Int]}
			}
			return Val{T: W.zero(t), Ty: t}
		}
		f2.env[x] = Val{Ty: x.Type(), Tup: []Val{{T: "false", Ty: bt}, z(it.mt.Key()), z(it.mt.Elem())}}
		kont(f2, s2)
	}
}

// ---------- panics, defers ----------

func (v *Ver) recovers(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

func (v *Ver) handler(fr *Frame) bool {
	for f := fr; f != nil; f = f.caller {
		for _, d := range f.defers {
			if c := v.clos[d.fn.T]; c != nil && c.fn != nil && v.recovers(c.fn) {
				return true
			}
		}
	}
	return false
}

// safe: execution continues only if cond holds
func (v *Ver) safe(fr *Frame, st *State, cond, what string) {
	switch v.known(st, cond) {
	case 1:
		return
	}
	if v.handler(fr) {
		s2 := st.clone()
		v.assume(s2, not(cond))
		if v.feasible(s2) {
			v.unwind(fr.clone(), s2, v.freshVal(s2, "pv", tIface.G).T, true)
		}
		v.assume(st, cond)
		return
	}
	if v.c.nosafety || v.c.panics {
		v.assume(st, cond)
		return
	}
	v.oblige(st, cond, "safety", what, nil, fr)
	v.assume(st, cond)
}

func (v *Ver) panics(fr *Frame, st *State, val string, what string) {
	if v.handler(fr) {
		v.unwind(fr, st, val, false)
		return
	}
	if v.c.nosafety || v.c.panics {
		return
	}
	v.oblige(st, "false", "safety", what, nil, fr)
}

func (v *Ver) unwind(fr *Frame, st *State, val string, rt bool) {
	st.panic = val
	v.assume(st, not(v.eq(val, "inil")))
	v.unwindFrame(fr, st)
}

func (v *Ver) unwindFrame(fr *Frame, st *State) {
	v.runDefers(fr, st, func(fr *Frame, st *State) {
		if st.panic == "" { // recovered
			if v.stopAtReturn(fr) {
				return
			}
			if fr.fn.Recover == nil {
				var res []Val
				rs := fr.fn.Signature.Results()
				for i := 0; i < rs.Len(); i++ {
					res = append(res, Val{T: W.zero(rs.At(i).Type()), Ty: rs.At(i).Type()})
				}
				fr.ret(st, res)
				return
			}
			v.run(fr, st, fr.fn.Recover, 0)
			return
		}
		if fr.caller == nil {
			if !v.c.nosafety && !v.c.panics {
				v.oblige(st, "false", "safety", "panic escapes", nil, fr)
			}
			return
		}
		v.unwindFrame(fr.caller.clone(), st)
	})
}

func (v *Ver) runDefers(fr *Frame, st *State, k func(*Frame, *State)) {
	if len(fr.defers) == 0 {
		k(fr, st)
		return
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	first := true
	kk := func(st *State, _ Val) {
		f := fr
		if !first {
			f = fr.clone()
		} else {
			f = fr.clone()
		}
		first = false
		v.runDefers(f, st, k)
	}
	if d.call.IsInvoke() {
		v.invoke(fr, st, d.fn, d.call.Method, d.args, kk)
		return
	}
	if b, ok := d.call.Value.(*ssa.Builtin); ok {
		bad("deferred builtin %s", b.Name())
	}
	v.callVal(fr, st, d.fn, d.args, kk)
}

func (v *Ver) feasible(st *State) bool { return true }

// ---------- obligations ----------

type Obl struct {
	fn     string
	kind   string
	label  string
	tags   []string
	tr     *Trace
	goal   string
	status string
	res    Result
	native bool
	tmo    int
	auto   bool
}

func (o *Obl) name() string { return o.fn + ": " + o.kind + " " + o.label }

func (v *Ver) oblige(st *State, goal, kind, label string, tags []string, fr *Frame) {
	if len(v.disc) > 0 {
		return
	}
	goal = alpha(v.without(st, goal))
	if len(tags) == 0 {
		tags = v.c.tags
	}
	if kind == "safety" {
		if len(v.c.safeTags) > 0 {
			tags = v.c.safeTags
		}
		if fr != nil && fr.fn != v.fn {
			label += " in " + fnName(fr.fn)
		}
	}
	o := &Obl{fn: v.name, kind: kind, label: label, tags: tags, tr: st.tr, goal: goal, native: v.c.native, tmo: v.c.timeout}
	if v.known(st, goal) == 1 {
		o.status = "discharged"
		o.res = Result{Status: "unsat", Solver: "simplifier"}
	}
	v.obls = append(v.obls, o)
}

func sortStrings(s []string) []string { sort.Strings(s); return s }
