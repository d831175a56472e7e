package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Ty is a go type or an SMT sort
type Ty struct {
	G types.Type
	S string
}

type TV struct {
	T  string
	Ty Ty
}

func gty(t types.Type) Ty { return Ty{t, W.sort(t)} }

var (
	tInt   = gty(types.Typ[types.Int])
	tBool  = gty(types.Typ[types.Bool])
	tStr   = gty(types.Typ[types.String])
	tIface = gty(types.NewInterfaceType(nil, nil))
	tSeq   = Ty{nil, "SeqS"}
)

type Env struct {
	v     *Ver
	vars  map[string]TV
	heap  map[string]*HV
	old   *Env
	depth int
	entry *Env
	lz    map[string]func(map[string]*HV) TV
}

// lazy registers a variable whose value depends on the heap it is read in
func (e *Env) lazy(name string, f func(map[string]*HV) TV) {
	if e.lz == nil {
		e.lz = map[string]func(map[string]*HV) TV{}
	}
	e.lz[name] = f
}

func (e *Env) child() *Env {
	n := &Env{v: e.v, heap: e.heap, old: e.old, entry: e.entry, lz: e.lz, vars: make(map[string]TV, len(e.vars)+2), depth: e.depth}
	for k, v := range e.vars {
		n.vars[k] = v
	}
	return n
}

type evalErr struct{ msg string }

func evalFail(f string, a ...interface{}) { panic(evalErr{fmt.Sprintf(f, a...)}) }

func (v *Ver) resolve(t *TyEx) Ty {
	switch t.kind {
	case "ptr":
		return gty(types.NewPointer(v.resolve(t.a).G))
	case "slice":
		return gty(types.NewSlice(v.resolve(t.a).G))
	case "map":
		return gty(types.NewMap(v.resolve(t.a).G, v.resolve(t.b).G))
	case "set":
		return Ty{nil, "(Array " + v.resolve(t.a).S + " Bool)"}
	}
	switch t.name {
	case "int", "ref":
		return tInt
	case "bool":
		return tBool
	case "string":
		return tStr
	case "any", "Iface":
		return tIface
	case "error":
		return gty(types.Universe.Lookup("error").Type())
	case "SeqS", "Slc", "Str", "Int", "Bool", "Flt":
		return Ty{nil, t.name}
	case "byte":
		return gty(types.Typ[types.Byte])
	case "float64":
		return gty(types.Typ[types.Float64])
	}
	if s, ok := v.P.sortAlias[t.name]; ok {
		return Ty{nil, s}
	}
	i := strings.Index(t.name, ".")
	if i > 0 {
		pk, nm := t.name[:i], t.name[i+1:]
		for _, p := range v.P.typePkgs {
			if p.Name() == pk {
				if o := p.Scope().Lookup(nm); o != nil {
					return gty(o.Type())
				}
			}
		}
	}
	evalFail("unknown type %s", t)
	return Ty{}
}

func (e *Env) get(comp string) string { return e.v.hget(e.heap, comp) }

func app(f string, args ...string) string {
	if len(args) == 0 {
		return f
	}
	return "(" + f + " " + strings.Join(args, " ") + ")"
}

func (e *Env) bool(x *Ex) string {
	r := e.eval(x)
	if r.Ty.S != "Bool" {
		evalFail("boolean expected: %s has sort %s", x, r.Ty.S)
	}
	return r.T
}

func isNilTy(t Ty) bool { return t.S == "nil" }

func (e *Env) coerce(a TV, t Ty) TV {
	if isNilTy(a.Ty) {
		switch t.S {
		case "Iface":
			return TV{"inil", t}
		case "Slc":
			return TV{"nilslc", t}
		default:
			return TV{"0", t}
		}
	}
	if t.S == "Iface" && a.Ty.S != "Iface" {
		if a.Ty.G == nil {
			evalFail("cannot box sort %s", a.Ty.S)
		}
		return TV{app(W.box(a.Ty.G), a.T), t}
	}
	if t.S != a.Ty.S {
		evalFail("sort mismatch: %s (%s) vs %s", a.T, a.Ty.S, t.S)
	}
	return a
}

func (e *Env) pair(a, b TV) (TV, TV) {
	if isNilTy(a.Ty) && isNilTy(b.Ty) {
		return TV{"0", tInt}, TV{"0", tInt}
	}
	if isNilTy(a.Ty) || isNilTy(b.Ty) {
		if s := a.Ty; isNilTy(s) && isStructTy(b.Ty) || isNilTy(b.Ty) && isStructTy(s) {
			return TV{"0", tInt}, TV{"1", tInt} // a struct value is not nil
		}
	}
	if isNilTy(a.Ty) {
		return e.coerce(a, b.Ty), b
	}
	if isNilTy(b.Ty) {
		return a, e.coerce(b, a.Ty)
	}
	if a.Ty.S == "Iface" && b.Ty.S != "Iface" {
		return a, e.coerce(b, a.Ty)
	}
	if b.Ty.S == "Iface" && a.Ty.S != "Iface" {
		return e.coerce(a, b.Ty), b
	}
	if a.Ty.S != b.Ty.S {
		evalFail("sort mismatch: %s : %s vs %s : %s", a.T, a.Ty.S, b.T, b.Ty.S)
	}
	return a, b
}

func structOf(t types.Type) (types.Type, *types.Struct, bool) { // type, struct, isPointer
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if s, ok := p.Elem().Underlying().(*types.Struct); ok {
			return p.Elem(), s, true
		}
		return nil, nil, false
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		return t, s, false
	}
	return nil, nil, false
}

func (e *Env) field(x TV, name string) TV {
	if x.Ty.G == nil {
		evalFail("field %s of sort %s", name, x.Ty.S)
	}
	t, st, ptr := structOf(x.Ty.G)
	if st == nil {
		evalFail("field %s of %s", name, x.Ty.G)
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() != name {
			continue
		}
		if ptr {
			return TV{app("select", e.get(W.fieldComp(t, i)), x.T), gty(f.Type())}
		}
		return TV{app(W.fieldSel(t, i), x.T), gty(f.Type())}
	}
	// promoted through embedded fields
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			if _, s2, _ := structOf(st.Field(i).Type()); s2 != nil {
				for j := 0; j < s2.NumFields(); j++ {
					if s2.Field(j).Name() == name {
						return e.field(e.field(x, st.Field(i).Name()), name)
					}
				}
			}
		}
	}
	evalFail("no field %s in %s", name, t)
	return TV{}
}

func arrayElem(s string) (string, string) { // "(Array K V)" -> K, V
	inner := s[len("(Array ") : len(s)-1]
	d := 0
	for i, c := range inner {
		switch c {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return inner[:i], inner[i+1:]
			}
		}
	}
	panic("sort " + s)
}

func tyOfSort(s string) Ty {
	switch s {
	case "Int":
		return tInt
	case "Bool":
		return tBool
	case "Str":
		return tStr
	case "Iface":
		return tIface
	}
	if t, ok := W.stypes[s]; ok {
		return Ty{t, s}
	}
	return Ty{nil, s}
}

func (e *Env) index(x, i TV) TV {
	if x.Ty.S == "SeqS" {
		return TV{app("sqnth", x.T, i.T), tStr}
	}
	if strings.HasPrefix(x.Ty.S, "(Array ") {
		k, vs := arrayElem(x.Ty.S)
		i = e.coerce(i, tyOfSort(k))
		if at, ok := under(x.Ty).(*types.Array); ok {
			return TV{app("select", x.T, i.T), gty(at.Elem())}
		}
		return TV{app("select", x.T, i.T), tyOfSort(vs)}
	}
	if x.Ty.G == nil {
		evalFail("index of %s", x.Ty.S)
	}
	switch u := x.Ty.G.Underlying().(type) {
	case *types.Slice:
		return TV{app("select", app("select", e.get(W.elemComp(u.Elem())), app("sarr", x.T)), addT(app("soff", x.T), i.T)), gty(u.Elem())}
	case *types.Map:
		_, val, _ := W.mapComps(u)
		i = e.coerce(i, gty(u.Key()))
		return TV{app("select", app("select", e.get(val), x.T), i.T), gty(u.Elem())}
	case *types.Basic:
		return TV{app("sat_", x.T, i.T), gty(types.Typ[types.Byte])}
	}
	evalFail("index of %s", x.Ty.G)
	return TV{}
}

func addT(a, b string) string {
	if b == "0" {
		return a
	}
	if a == "0" {
		return b
	}
	return "(+ " + a + " " + b + ")"
}

func (e *Env) eval(x *Ex) TV {
	switch x.op {
	case "int":
		return TV{x.name, tInt}
	case "str":
		return TV{W.strLit(x.name), tStr}
	case "bool":
		return TV{x.name, tBool}
	case "nil":
		return TV{"nil", Ty{nil, "nil"}}
	case "id":
		if v, ok := e.vars[x.name]; ok {
			return v
		}
		if f, ok := e.lz[x.name]; ok {
			return f(e.heap)
		}
		if s, ok := e.v.P.specs.ghosts[x.name]; ok {
			return TV{e.get(e.v.ghostComp(x.name)), tyOfSort(e.v.sortText(s))}
		}
		if d, ok := e.v.P.specs.declares[x.name]; ok && len(d.args) == 0 {
			e.v.declare(d)
			return TV{d.name, e.v.resolve(d.ret)}
		}
		if g, ok := e.v.globalVar(x.name, e); ok {
			return g
		}
		evalFail("unknown name %s", x.name)
	case "field":
		if x.args[0].op == "id" {
			_, isLazy := e.lz[x.args[0].name]
			if _, ok := e.vars[x.args[0].name]; !ok && !isLazy {
				if g, ok := e.v.globalVar(x.args[0].name+"."+x.name, e); ok {
					return g
				}
			}
		}
		return e.field(e.eval(x.args[0]), x.name)
	case "index":
		return e.index(e.eval(x.args[0]), e.eval(x.args[1]))
	case "slice":
		s := e.eval(x.args[0])
		lo := "0"
		if x.args[1] != nil {
			lo = e.eval(x.args[1]).T
		}
		if s.Ty.S == "Str" {
			hi := app("slenS", s.T)
			if x.args[2] != nil {
				hi = e.eval(x.args[2]).T
			}
			return TV{app("ssub", s.T, lo, hi), tStr}
		}
		hi := app("slen", s.T)
		if x.args[2] != nil {
			hi = e.eval(x.args[2]).T
		}
		return TV{fmt.Sprintf("(mkslc (sarr %s) %s (- %s %s) (- (scap %s) %s))", s.T, addT(app("soff", s.T), lo), hi, lo, s.T, lo), s.Ty}
	case "un":
		a := e.eval(x.args[0])
		if x.name == "!" {
			return TV{app("not", a.T), tBool}
		}
		return TV{app("-", a.T), a.Ty}
	case "bin":
		return e.bin(x)
	case "quant":
		c := e.child()
		if c.old != nil {
			c.old = c.old.child()
		}
		if c.entry != nil {
			c.entry = c.entry.child()
		}
		var bs []string
		for _, b := range x.vars {
			ty := e.v.resolve(b.ty)
			e.v.qn++
			n := fmt.Sprintf("%s?%d", b.name, e.v.qn)
			c.vars[b.name] = TV{n, ty}
			if c.old != nil {
				c.old.vars[b.name] = TV{n, ty}
			}
			if c.entry != nil {
				c.entry.vars[b.name] = TV{n, ty}
			}
			bs = append(bs, "("+n+" "+ty.S+")")
		}
		body := c.bool(x.args[0])
		if len(x.trigs) > 0 {
			body = "(! " + body
			for _, tr := range x.trigs {
				var ts []string
				for _, t := range tr {
					tv := c.eval(t)
					ts = append(ts, tv.T)
				}
				body += " :pattern (" + strings.Join(ts, " ") + ")"
			}
			body += ")"
		}
		return TV{"(" + x.name + " (" + strings.Join(bs, " ") + ") " + body + ")", tBool}
	case "is":
		a := e.eval(x.args[0])
		ty := e.v.resolve(x.vars[0].ty)
		if _, ok := ty.G.Underlying().(*types.Interface); ok {
			return TV{app(e.v.implFun(ty.G), a.T), tBool}
		}
		return TV{fmt.Sprintf("((_ is %s) %s)", W.box(ty.G), a.T), tBool}
	case "as":
		a := e.eval(x.args[0])
		ty := e.v.resolve(x.vars[0].ty)
		return TV{app("un_"+W.box(ty.G), a.T), ty}
	case "box":
		a := e.eval(x.args[0])
		ty := e.v.resolve(x.vars[0].ty)
		return TV{app(W.box(ty.G), a.T), tIface}
	case "emptyset":
		ty := e.v.resolve(x.vars[0].ty)
		return TV{"((as const (Array " + ty.S + " Bool)) false)", Ty{nil, "(Array " + ty.S + " Bool)"}}
	case "zero":
		ty := e.v.resolve(x.vars[0].ty)
		return TV{W.zero(ty.G), ty}
	case "call":
		return e.call(x)
	}
	evalFail("cannot evaluate %s", x.op)
	return TV{}
}

func (e *Env) bin(x *Ex) TV {
	switch x.name {
	case "&&":
		return TV{app("and", e.bool(x.args[0]), e.bool(x.args[1])), tBool}
	case "||":
		return TV{app("or", e.bool(x.args[0]), e.bool(x.args[1])), tBool}
	case "==>":
		return TV{app("=>", e.bool(x.args[0]), e.bool(x.args[1])), tBool}
	case "<==>":
		return TV{app("=", e.bool(x.args[0]), e.bool(x.args[1])), tBool}
	}
	a, b := e.eval(x.args[0]), e.eval(x.args[1])
	switch x.name {
	case "in":
		if strings.HasPrefix(b.Ty.S, "(Array ") {
			return TV{app("select", b.T, a.T), tBool}
		}
		m, ok := b.Ty.G.Underlying().(*types.Map)
		if !ok {
			evalFail("'in' needs a map or set")
		}
		dom, _, _ := W.mapComps(m)
		a = e.coerce(a, gty(m.Key()))
		return TV{app("select", app("select", e.get(dom), b.T), a.T), tBool}
	case "==", "!=":
		var t string
		if a.Ty.S == "Slc" && isNilTy(b.Ty) {
			t = "(= (sarr " + a.T + ") 0)"
		} else if b.Ty.S == "Slc" && isNilTy(a.Ty) {
			t = "(= (sarr " + b.T + ") 0)"
		} else {
			a, b = e.pair(a, b)
			if a.Ty.S == "SeqS" {
				t = app("sqeq", a.T, b.T)
			} else {
				t = app("=", a.T, b.T)
			}
		}
		if x.name == "!=" {
			t = app("not", t)
		}
		return TV{t, tBool}
	case "<", "<=", ">", ">=":
		return TV{app(x.name, a.T, b.T), tBool}
	case "+":
		if a.Ty.S == "Str" {
			return TV{app("sconcat", a.T, b.T), tStr}
		}
		return TV{addT(a.T, b.T), tInt}
	case "-", "*":
		return TV{app(x.name, a.T, b.T), tInt}
	case "/":
		return TV{app("div", a.T, b.T), tInt}
	case "%":
		return TV{app("mod", a.T, b.T), tInt}
	}
	evalFail("operator %s", x.name)
	return TV{}
}

func (e *Env) call(x *Ex) TV {
	arg := func(i int) TV {
		if i >= len(x.args) {
			evalFail("%s: missing argument", x.name)
		}
		return e.eval(x.args[i])
	}
	switch x.name {
	case "old":
		if e.old == nil {
			evalFail("old not available")
		}
		return e.old.eval(x.args[0])
	case "atentry":
		if e.entry == nil {
			evalFail("atentry not available")
		}
		return e.entry.eval(x.args[0])
	case "len":
		a := arg(0)
		switch a.Ty.S {
		case "Slc":
			return TV{app("slen", a.T), tInt}
		case "Str":
			return TV{app("slenS", a.T), tInt}
		case "SeqS":
			return TV{app("sqlen", a.T), tInt}
		}
		if m, ok := a.Ty.G.Underlying().(*types.Map); ok {
			_, _, ln := W.mapComps(m)
			return TV{app("select", e.get(ln), a.T), tInt}
		}
		evalFail("len of %s", a.Ty.S)
	case "seq":
		a := arg(0)
		sl, ok := a.Ty.G.Underlying().(*types.Slice)
		if !ok || W.sort(sl.Elem()) != "Str" {
			evalFail("seq of non []string")
		}
		return TV{fmt.Sprintf("(sqmk (select %s (sarr %s)) (soff %s) (slen %s))", e.get(W.elemComp(sl.Elem())), a.T, a.T, a.T), tSeq}
	case "arr":
		return TV{app("sarr", arg(0).T), tInt}
	case "off":
		return TV{app("soff", arg(0).T), tInt}
	case "cap":
		return TV{app("scap", arg(0).T), tInt}
	case "content": // the array behind a slice
		a := arg(0)
		sl := a.Ty.G.Underlying().(*types.Slice)
		es := W.sort(sl.Elem())
		return TV{app("select", e.get(W.elemComp(sl.Elem())), app("sarr", a.T)), Ty{types.NewArray(sl.Elem(), 0), "(Array Int " + es + ")"}}
	case "dom":
		a := arg(0)
		m := a.Ty.G.Underlying().(*types.Map)
		d, _, _ := W.mapComps(m)
		return TV{app("select", e.get(d), a.T), Ty{nil, "(Array " + W.sort(m.Key()) + " Bool)"}}
	case "vals":
		a := arg(0)
		m := a.Ty.G.Underlying().(*types.Map)
		_, d, _ := W.mapComps(m)
		return TV{app("select", e.get(d), a.T), Ty{nil, "(Array " + W.sort(m.Key()) + " " + W.sort(m.Elem()) + ")"}}
	case "ite":
		c, a, b := arg(0), arg(1), arg(2)
		a, b = e.pair(a, b)
		return TV{app("ite", c.T, a.T, b.T), a.Ty}
	case "select":
		return e.index(arg(0), arg(1))
	case "store":
		a := arg(0)
		k, vs := arrayElem(a.Ty.S)
		return TV{app("store", a.T, e.coerce(arg(1), tyOfSort(k)).T, e.coerce(arg(2), tyOfSort(vs)).T), a.Ty}
	case "add", "del":
		a := arg(0)
		k, _ := arrayElem(a.Ty.S)
		return TV{app("store", a.T, e.coerce(arg(1), tyOfSort(k)).T, fmt.Sprint(x.name == "add")), a.Ty}
	case "fresh":
		a := arg(0)
		if e.old == nil {
			evalFail("fresh needs old")
		}
		return TV{app("<=", e.old.get("alloc"), refOf(a)), tBool}
	case "allocated":
		a := arg(0)
		return TV{fmt.Sprintf("(and (< 0 %s) (< %s %s))", refOf(a), refOf(a), e.get("alloc")), tBool}
	case "wf":
		a := arg(0)
		return TV{W.wf(a.T, a.Ty.G, e.get("alloc")), tBool}
	case "unchanged":
		var cs []string
		for i := range x.args {
			a := arg(i)
			o := e.old.eval(x.args[i])
			cs = append(cs, app("=", a.T, o.T))
		}
		return TV{app("and", append(cs, "true")...), tBool}
	case "sameheap": // sameheap(x.f): the component is unchanged for all references
		var cs []string
		for _, m := range x.args {
			for _, c := range e.compsOf(m) {
				cs = append(cs, app("=", e.get(c), e.old.get(c)))
			}
		}
		return TV{app("and", append(cs, "true")...), tBool}
	case "sqtail", "tail":
		return TV{app("sqtail", arg(0).T), tSeq}
	case "cons":
		return TV{app("sqcons", arg(0).T, arg(1).T), tSeq}
	case "snoc":
		return TV{app("sqsnoc", arg(0).T, arg(1).T), tSeq}
	case "emptyseq":
		return TV{"sqempty", tSeq}
	case "same": // equality of sequences as terms
		return TV{app("=", arg(0).T, arg(1).T), tBool}
	case "isclo": // isclo(f, "name$1"): the function value f runs that closure
		return TV{app("=", app("clofn", arg(0).T), W.strLit("fn "+cloName(x.args[1]))), tBool}
	case "capt", "capref": // capt(f, "name$1", "x"): the captured variable x
		fn := e.v.P.fns[cloName(x.args[1])]
		if fn == nil {
			evalFail("no function %s", x.args[1].name)
		}
		for i, fv := range fn.FreeVars {
			if fv.Name() == x.args[2].name {
				et := fv.Type().(*types.Pointer).Elem()
				if x.name == "capref" {
					return TV{app("clobind", arg(0).T, fmt.Sprint(i)), tInt}
				}
				return TV{app("select", e.get(W.cellComp(et)), app("clobind", arg(0).T, fmt.Sprint(i))), gty(et)}
			}
		}
		evalFail("%s captures no %s", x.args[1].name, x.args[2].name)
	case "any":
		return e.coerce(arg(0), tIface)
	case "str": // text of a declared constant array etc.
		return arg(0)
	case "cell":
		a := arg(0)
		p, ok := a.Ty.G.Underlying().(*types.Pointer)
		if !ok {
			evalFail("cell of non pointer")
		}
		return TV{app("select", e.get(W.cellComp(p.Elem())), a.T), gty(p.Elem())}
	}
	if d, ok := e.v.P.specs.defines[x.name]; ok {
		if len(d.args) != len(x.args) {
			evalFail("%s: wrong number of arguments", x.name)
		}
		if e.depth > 40 {
			evalFail("recursive define %s", x.name)
		}
		c := &Env{v: e.v, heap: e.heap, vars: map[string]TV{}, depth: e.depth + 1}
		if e.old != nil {
			c.old = &Env{v: e.v, heap: e.old.heap, old: e.old.old, vars: map[string]TV{}, depth: e.depth + 1}
		}
		for i, b := range d.args {
			v, ty := arg(i), e.v.resolve(b.ty)
			if pt, ok := under(ty).(*types.Pointer); ok && v.Ty.G != nil && types.Identical(v.Ty.G, pt.Elem()) && isStruct(pt.Elem()) {
				// a struct value where a pointer is expected
			} else {
				v = e.coerce(v, ty)
				v.Ty = ty
			}
			c.vars[b.name] = v
			if c.old != nil {
				c.old.vars[b.name] = v
			}
		}
		if d.opaque && (e.v.c == nil || !e.v.c.reveal[d.name]) {
			return e.opaque(d, c)
		}
		out := e.coerceTo(c.eval(d.body), e.v.resolve(d.ret))
		if d.opaque && e.v.rec == nil && out.Ty.S == "Bool" { // what is known of the definition itself
			e.v.opOf[alpha(out.T)] = e.opaque(d, c).T
		}
		return out
	}
	if d, ok := e.v.P.specs.declares[x.name]; ok {
		e.v.declare(d)
		if len(d.args) != len(x.args) {
			evalFail("%s: wrong number of arguments", x.name)
		}
		var ts []string
		for i, b := range d.args {
			ts = append(ts, e.coerce(arg(i), e.v.resolve(b.ty)).T)
		}
		return TV{app(d.name, ts...), e.v.resolve(d.ret)}
	}
	evalFail("unknown function %s", x.name)
	return TV{}
}

// opaque applies a definition as a function of its arguments and of the state its body reads.
// The allocation counter is left out: revealing functions prove that the body stays true when it grows.
func (e *Env) opaque(d *Define, c *Env) TV {
	if d.comps == nil {
		outer := e.v.rec
		e.v.rec = map[string]bool{}
		c2 := *c
		c2.old = nil
		c2.eval(d.body)
		delete(e.v.rec, "alloc")
		d.comps = append(sortedKeys(e.v.rec), "")
		e.v.rec = outer
	}
	var as, ss []string
	for _, b := range d.args {
		as = append(as, c.vars[b.name].T)
		ss = append(ss, e.v.resolve(b.ty).S)
	}
	for _, k := range d.comps {
		if k != "" {
			as = append(as, e.get(k))
			ss = append(ss, W.compSort[k])
		}
	}
	W.declFun("op_"+d.name, "(declare-fun op_"+d.name+" ("+strings.Join(ss, " ")+") "+e.v.resolve(d.ret).S+")")
	return TV{app("op_"+d.name, as...), e.v.resolve(d.ret)}
}

func under(t Ty) types.Type {
	if t.G == nil {
		return nil
	}
	return t.G.Underlying()
}

func isStructTy(t Ty) bool {
	_, ok := under(t).(*types.Struct)
	return ok
}

func (e *Env) coerceTo(a TV, t Ty) TV {
	a = e.coerce(a, t)
	a.Ty = t
	return a
}

func refOf(a TV) string {
	if a.Ty.S == "Slc" {
		return app("sarr", a.T)
	}
	return a.T
}

// compsOf returns the components named by a modifies item like x.f, elems(x), map(m), ghost
func (e *Env) compsOf(m *Ex) []string {
	var out []string
	for _, i := range e.modItem(m) {
		out = append(out, i.comp)
	}
	return out
}

type modRef struct {
	comp string
	ref  string // "" = everything
}

func (e *Env) modItem(m *Ex) []modRef {
	if m.op == "call" {
		switch m.name {
		case "elems":
			a := e.eval(m.args[0])
			sl := a.Ty.G.Underlying().(*types.Slice)
			return []modRef{{W.elemComp(sl.Elem()), app("sarr", a.T)}}
		case "map":
			a := e.eval(m.args[0])
			d, v, l := W.mapComps(a.Ty.G.Underlying().(*types.Map))
			return []modRef{{d, a.T}, {v, a.T}, {l, a.T}}
		case "all":
			its := e.modItem(m.args[0])
			for i := range its {
				its[i].ref = ""
			}
			return its
		case "fields":
			a := e.eval(m.args[0])
			t, st, _ := structOf(a.Ty.G)
			var out []modRef
			for i := 0; i < st.NumFields(); i++ {
				out = append(out, modRef{W.fieldComp(t, i), a.T})
			}
			return out
		case "cell":
			a := e.eval(m.args[0])
			p := a.Ty.G.Underlying().(*types.Pointer)
			return []modRef{{W.cellComp(p.Elem()), a.T}}
		case "fieldof": // fieldof(T, f): the field f of all objects of the type T
			ty := e.v.tyArg(m.args[0])
			st, ok := ty.G.Underlying().(*types.Struct)
			if !ok {
				evalFail("%s is no struct", ty.G)
			}
			var out []modRef
			for i := 0; i < st.NumFields(); i++ {
				if len(m.args) == 1 || st.Field(i).Name() == exName(m.args[1]) {
					out = append(out, modRef{W.fieldComp(ty.G, i), ""})
				}
			}
			if len(out) == 0 {
				evalFail("no such field")
			}
			return out
		case "elemsof": // elemsof(T): the elements of all slices of T
			return []modRef{{W.elemComp(e.v.tyArg(m.args[0]).G), ""}}
		case "mapsof":
			a, b, c := W.mapComps(e.v.tyArg(m.args[0]).G.Underlying().(*types.Map))
			return []modRef{{a, ""}, {b, ""}, {c, ""}}
		case "cellsof":
			return []modRef{{W.cellComp(e.v.tyArg(m.args[0]).G), ""}}
		case "global":
			g, nm := m.args[0], exName(m.args[0])
			_ = g
			for _, p := range e.v.P.typePkgs {
				if o, ok := p.Scope().Lookup(nm[strings.Index(nm, ".")+1:]).(*types.Var); ok && p.Name()+"."+o.Name() == nm {
					return []modRef{{W.comp("GV", nm, W.sort(o.Type()), o.Type()), ""}}
				}
			}
			evalFail("no global %s", nm)
		case "at": // at(ghost, ref)
			g := m.args[0].name
			return []modRef{{e.v.ghostComp(g), e.eval(m.args[1]).T}}
		}
	}
	if m.op == "id" {
		if _, ok := e.v.P.specs.ghosts[m.name]; ok {
			return []modRef{{e.v.ghostComp(m.name), ""}}
		}
	}
	if m.op == "field" {
		x := e.eval(m.args[0])
		t, st, ptr := structOf(x.Ty.G)
		if st != nil && ptr {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == m.name {
					return []modRef{{W.fieldComp(t, i), x.T}}
				}
			}
		}
	}
	evalFail("bad modifies item %s", m)
	return nil
}

// cloName is the function name given as a string literal
func cloName(x *Ex) string {
	if x.op != "str" {
		evalFail("function name expected")
	}
	return x.name
}

func exName(x *Ex) string {
	if x.op == "field" {
		return exName(x.args[0]) + "." + x.name
	}
	return x.name
}

// tyArg is a type given by name or as a string literal
func (v *Ver) tyArg(x *Ex) Ty {
	if x.op == "str" {
		p := &parser{toks: lex(x.name), src: x.name}
		return v.resolve(p.typ())
	}
	return v.resolve(&TyEx{kind: "name", name: exName(x)})
}
