package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- symbolic values ----------

// Addr is an interior address: a field, an element, a cell or a global
type Addr struct {
	comp string
	ref  string // "" for scalar components
	idx  string // "" unless the component holds arrays of elements
	path []int
	root types.Type // type stored at the location before path is applied
	ty   types.Type // type of the addressed value
}

type Clos struct {
	fn    *ssa.Function
	binds []Val
	yield bool // the callback parameter of the iterator under verification
	term  string
	bound *Val // receiver of a bound method
	typ   types.Type
}

type IterV struct {
	comp string // component that holds the set of visited keys
	m    Val
	mt   *types.Map
	dom0 string
	str  bool
}

type Val struct {
	T   string
	Ty  types.Type
	A   *Addr
	Tup []Val
	It  *IterV
}

// HV is a version of a heap component
type HV struct {
	name string
	prev *HV
	ref  string
	val  string
}

type Trace struct {
	prev *Trace
	text string
	n    int
}

type State struct {
	heap  map[string]*HV
	tr    *Trace
	lits  map[string]bool
	panic string
}

func (s *State) clone() *State {
	n := &State{heap: make(map[string]*HV, len(s.heap)), tr: s.tr, lits: make(map[string]bool, len(s.lits)), panic: s.panic}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.lits {
		n.lits[k] = v
	}
	return n
}

func (s *State) add(text string) {
	n := 0
	if s.tr != nil {
		n = s.tr.n
	}
	s.tr = &Trace{s.tr, text, n + 1}
}

// ---------- s-expressions ----------

func splitApp(t string) (string, []string) {
	if len(t) < 2 || t[0] != '(' {
		return t, nil
	}
	in := t[1 : len(t)-1]
	var out []string
	d, st := 0, 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				if i > st {
					out = append(out, in[st:i])
				}
				st = i + 1
			}
		}
	}
	if st < len(in) {
		out = append(out, in[st:])
	}
	if len(out) == 0 {
		return t, nil
	}
	return out[0], out[1:]
}

func (v *Ver) expand(t string) string { // look through a name
	for i := 0; i < 10; i++ {
		d, ok := v.defs[t]
		if !ok {
			return t
		}
		t = d
	}
	return t
}

// maxSerial of the symbols in a term (names generated with '!')
func maxSerial(t string) int {
	m := 0
	for i := 0; i < len(t); i++ {
		if t[i] == '!' {
			j := i + 1
			for j < len(t) && t[j] >= '0' && t[j] <= '9' {
				j++
			}
			if n, err := strconv.Atoi(t[i+1 : j]); err == nil && n > m {
				m = n
			}
			i = j - 1
		}
	}
	return m
}

func isObj(t string) bool { return strings.HasPrefix(t, "o!") }

func isNum(t string) bool {
	_, err := strconv.Atoi(t)
	return err == nil
}

func isLit(t string) bool { return strings.HasPrefix(t, "lit_") }

func (v *Ver) distinct(a, b string) bool {
	if a == b {
		return false
	}
	if isNum(a) && isNum(b) {
		return true
	}
	if isLit(a) && isLit(b) {
		return true
	}
	if isObj(a) && isObj(b) {
		return true
	}
	if isObj(b) {
		a, b = b, a
	}
	if isObj(a) {
		if isNum(b) {
			return true
		}
		return !strings.Contains(b, "?") && maxSerial(b) < maxSerial(a) && refLike(b)
	}
	ea, eb := v.expand(a), v.expand(b)
	if strings.HasPrefix(ea, "(bx_") && strings.HasPrefix(eb, "(bx_") {
		oa, aa := splitApp(ea)
		ob, ab := splitApp(eb)
		if oa != ob {
			return true
		}
		return v.distinct(aa[0], ab[0])
	}
	if strings.HasPrefix(ea, "(bx_") && eb == "inil" || ea == "inil" && strings.HasPrefix(eb, "(bx_") {
		return true
	}
	return false
}

func refLike(t string) bool { // terms that denote values of the past state
	return !strings.HasPrefix(t, "(+") && !strings.HasPrefix(t, "(-") && !strings.HasPrefix(t, "(*")
}

func (v *Ver) eq(a, b string) string {
	if a == b {
		return "true"
	}
	if v.distinct(a, b) {
		return "false"
	}
	ea, eb := v.expand(a), v.expand(b)
	if strings.HasPrefix(ea, "(bx_") && strings.HasPrefix(eb, "(bx_") {
		_, aa := splitApp(ea)
		_, ab := splitApp(eb)
		return v.eq(aa[0], ab[0])
	}
	if b == "true" {
		return a
	}
	if b == "false" {
		return not(a)
	}
	return "(= " + a + " " + b + ")"
}

func not(a string) string {
	switch a {
	case "true":
		return "false"
	case "false":
		return "true"
	}
	if strings.HasPrefix(a, "(not ") {
		_, x := splitApp(a)
		return x[0]
	}
	return "(not " + a + ")"
}

func and(as ...string) string {
	var out []string
	for _, a := range as {
		if a == "false" {
			return "false"
		}
		if a != "true" {
			out = append(out, a)
		}
	}
	switch len(out) {
	case 0:
		return "true"
	case 1:
		return out[0]
	}
	return "(and " + strings.Join(out, " ") + ")"
}

func or(as ...string) string {
	var out []string
	for _, a := range as {
		if a == "true" {
			return "true"
		}
		if a != "false" {
			out = append(out, a)
		}
	}
	switch len(out) {
	case 0:
		return "false"
	case 1:
		return out[0]
	}
	return "(or " + strings.Join(out, " ") + ")"
}

func implies(a, b string) string {
	if a == "true" {
		return b
	}
	if a == "false" || b == "true" {
		return "true"
	}
	return "(=> " + a + " " + b + ")"
}

func ite(c, a, b string) string {
	if c == "true" || a == b {
		return a
	}
	if c == "false" {
		return b
	}
	return "(ite " + c + " " + a + " " + b + ")"
}

// acc applies a selector of a constructor and simplifies
func (v *Ver) acc(sel, ctor string, i int, t string) string {
	e := v.expand(t)
	if e == "nilslc" && ctor == "mkslc" {
		return "0"
	}
	if strings.HasPrefix(e, "("+ctor+" ") {
		_, a := splitApp(e)
		return a[i]
	}
	return "(" + sel + " " + t + ")"
}

func (v *Ver) sarr(t string) string { return v.acc("sarr", "mkslc", 0, t) }
func (v *Ver) soff(t string) string { return v.acc("soff", "mkslc", 1, t) }
func (v *Ver) slen(t string) string { return v.acc("slen", "mkslc", 2, t) }
func (v *Ver) scap(t string) string { return v.acc("scap", "mkslc", 3, t) }

func (v *Ver) unbox(t types.Type, x string) string {
	b := W.box(t)
	return v.acc("un_"+b, b, 0, x)
}

func (v *Ver) isBox(t types.Type, x string) string {
	b := W.box(t)
	e := v.expand(x)
	if e == "inil" {
		return "false"
	}
	if strings.HasPrefix(e, "(bx_") {
		op, _ := splitApp(e)
		if op == b {
			return "true"
		}
		return "false"
	}
	return "((_ is " + b + ") " + x + ")"
}

func plus(a, b string) string {
	na, ea := strconv.Atoi(a)
	nb, eb := strconv.Atoi(b)
	if ea == nil && eb == nil {
		return num(na + nb)
	}
	if ea == nil && na == 0 {
		return b
	}
	if eb == nil && nb == 0 {
		return a
	}
	if eb == nil && strings.HasPrefix(a, "(+ ") {
		_, x := splitApp(a)
		if len(x) == 2 {
			if n, err := strconv.Atoi(x[1]); err == nil {
				return plus(x[0], num(n+nb))
			}
		}
	}
	if eb == nil && nb < 0 {
		return "(- " + a + " " + num(-nb) + ")"
	}
	return "(+ " + a + " " + b + ")"
}

func num(n int) string {
	if n < 0 {
		return fmt.Sprintf("(- %d)", -n)
	}
	return strconv.Itoa(n)
}

// ---------- fresh names, heap ----------

func (v *Ver) fresh(prefix string) string {
	v.n++
	return fmt.Sprintf("%s!%d", prefix, v.n)
}

func (v *Ver) decl(st *State, prefix, sort string) string {
	n := v.fresh(prefix)
	st.add("(declare-const " + n + " " + sort + ")")
	v.sorts[n] = sort
	return n
}

func (v *Ver) def(st *State, prefix, sort, term string) string {
	if len(term) < 40 {
		return term
	}
	n := v.fresh(prefix)
	st.add("(define-fun " + n + " () " + sort + " " + term + ")")
	v.defs[n] = term
	return n
}

// alpha renames bound variables by order of appearance, so that equal formulas have equal texts
func alpha(f string) string {
	if !strings.Contains(f, "?") {
		return f
	}
	var b strings.Builder
	num := map[string]string{}
	for i := 0; i < len(f); {
		c := f[i]
		if c == ' ' || c == '(' || c == ')' {
			b.WriteByte(c)
			i++
			continue
		}
		j, q := i, false
		for j < len(f) && f[j] != ' ' && f[j] != '(' && f[j] != ')' {
			q = q || f[j] == '?'
			j++
		}
		w := f[i:j]
		if q {
			n, ok := num[w]
			if !ok {
				n = w[:strings.Index(w, "?")] + "?" + strconv.Itoa(len(num)+1)
				num[w] = n
			}
			w = n
		}
		b.WriteString(w)
		i = j
	}
	return b.String()
}

func (v *Ver) assume(st *State, f string) {
	f = alpha(f)
	if f == "true" || st.lits[f] {
		return
	}
	if op := v.opOf[f]; op != "" && !st.lits[op] {
		st.lits[op] = true
		st.add("(assert " + op + ")")
	}
	if strings.HasPrefix(f, "(and ") {
		_, as := splitApp(f)
		for _, a := range as {
			v.assume(st, a)
		}
		return
	}
	st.lits[f] = true
	st.add("(assert " + f + ")")
}

// without drops the parts of a goal that are revealed definitions known to hold
func (v *Ver) without(st *State, goal string) string {
	if len(v.opOf) == 0 {
		return goal
	}
	if op := v.opOf[alpha(goal)]; op != "" && st.lits[op] {
		return "true"
	}
	op, as := splitApp(goal)
	switch {
	case op == "and":
		for i := range as {
			as[i] = v.without(st, as[i])
		}
		return and(as...)
	case op == "=>" && len(as) == 2:
		if b := v.without(st, as[1]); b != as[1] {
			return "(=> " + as[0] + " " + b + ")"
		}
	}
	return goal
}

// known evaluates a condition syntactically: 1 true, -1 false, 0 unknown
func (v *Ver) known(st *State, c string) int {
	if c == "true" || st.lits[c] {
		return 1
	}
	if c == "false" || st.lits[not(c)] {
		return -1
	}
	e := v.expand(c)
	if e != c {
		return v.known(st, e)
	}
	if strings.HasPrefix(c, "(not ") {
		return -v.known(st, not(c))
	}
	// at most one constructor per value
	if strings.HasPrefix(c, "((_ is bx_") {
		_, a := splitApp(c)
		for l := range st.lits {
			if l != c && strings.HasPrefix(l, "((_ is bx_") && strings.HasSuffix(l, ") "+a[0]+")") {
				return -1
			}
		}
		if st.lits["(= "+a[0]+" inil)"] {
			return -1
		}
	}
	if strings.HasPrefix(c, "(= ") {
		_, a := splitApp(c)
		if len(a) == 2 {
			for _, p := range [][2]string{{a[0], a[1]}, {a[1], a[0]}} {
				x, y := p[0], p[1]
				if y == "inil" || isLit(y) || isNum(y) || strings.HasPrefix(y, "(bx_") {
					for l := range st.lits {
						if strings.HasPrefix(l, "(= "+x+" ") {
							_, b := splitApp(l)
							if b[0] == x && v.distinct(b[1], y) {
								return -1
							}
						}
						if y == "inil" && strings.HasPrefix(l, "((_ is bx_") && strings.HasSuffix(l, ") "+x+")") {
							return -1
						}
					}
				}
			}
		}
	}
	return 0
}

func (v *Ver) base(comp string) *HV { return v.baseIn("h0", "alloc0", comp) }

func (v *Ver) baseIn(ep, al, comp string) *HV {
	v.mu.Lock()
	defer v.mu.Unlock()
	n := ep + "." + comp
	if h, ok := v.bases[n]; ok {
		return h
	}
	h := &HV{name: n}
	if scalarComp(comp) && ep != "h0" {
		h.val = n
	}
	v.bases[n] = h
	v.baseOf[n] = [2]string{comp, al}
	return h
}

func (v *Ver) hv(heap map[string]*HV, comp string) *HV {
	if h, ok := heap[comp]; ok {
		return h
	}
	if e, ok := heap["$ep"]; ok {
		return v.baseIn(e.name, e.val, comp)
	}
	return v.base(comp)
}

// havocAll forgets the whole state except some components
func (v *Ver) havocAll(st *State, keep []string) {
	for c := range v.noWrite {
		if !has(keep, c) {
			bad("%s is modified, which is left to the callback", c)
		}
	}
	for _, c := range v.disc {
		c.noteAll(keep)
	}
	v.bumpAlloc(st)
	v.forget(st, keep)
}

func (v *Ver) forget(st *State, keep []string) {
	n := map[string]*HV{"alloc": st.heap["alloc"]}
	for _, k := range keep {
		n[k] = v.hv(st.heap, k)
	}
	for k, h := range st.heap {
		if W.compKind[k] == "IT" || k == "GS.stopped" {
			n[k] = h
		}
	}
	v.n++
	n["$ep"] = &HV{name: fmt.Sprintf("e%d", v.n), val: v.alloc(st)}
	st.heap = n
}

func (v *Ver) hget(heap map[string]*HV, comp string) string {
	if v.rec != nil {
		v.rec[comp] = true
	}
	if comp == "alloc" {
		if h, ok := heap["alloc"]; ok {
			return h.name
		}
		return "alloc0"
	}
	return v.hv(heap, comp).name
}

func scalarComp(comp string) bool {
	return W.compKind[comp] == "GV" || W.compKind[comp] == "GS" || W.compKind[comp] == "IT"
}

func (v *Ver) hread(st *State, comp, ref string) string {
	h := v.hv(st.heap, comp)
	if ref == "" {
		if h.val != "" {
			return h.val
		}
		return h.name
	}
	for h.prev != nil {
		if h.ref == ref {
			return h.val
		}
		if !v.distinct(h.ref, ref) {
			break
		}
		h = h.prev
	}
	return "(select " + h.name + " " + ref + ")"
}

func (v *Ver) note(comp, ref string) {
	if v.noWrite[comp] && !v.inYield {
		bad("%s is modified, which is left to the callback", comp)
	}
	for _, c := range v.disc {
		c.note(comp, ref)
	}
}

func (v *Ver) hset(st *State, comp, ref, val string) {
	v.note(comp, ref)
	v.hsetQuiet(st, comp, ref, val)
}

func (v *Ver) hsetQuiet(st *State, comp, ref, val string) {
	sort := W.compSort[comp]
	if ref == "" {
		val = v.def(st, "g", sort, val)
		st.heap[comp] = &HV{name: val, val: val}
		return
	}
	old := v.hv(st.heap, comp)
	_, es := arrayElem(sort)
	val = v.def(st, "v", es, val)
	n := v.fresh("h")
	st.add("(define-fun " + n + " () " + sort + " (store " + old.name + " " + ref + " " + val + "))")
	st.heap[comp] = &HV{name: n, prev: old, ref: ref, val: val}
}

// havocComp replaces a whole component by an unknown one
func (v *Ver) havocComp(st *State, comp string) {
	n := v.decl(st, "H", W.compSort[comp])
	if scalarComp(comp) {
		st.heap[comp] = &HV{name: n, val: n}
		return
	}
	st.heap[comp] = &HV{name: n}
}

func (v *Ver) alloc(st *State) string { return v.hget(st.heap, "alloc") }

func (v *Ver) newObj(st *State) string {
	o := v.fresh("o")
	st.add("(define-fun " + o + " () Int " + v.alloc(st) + ")")
	v.note("alloc", "")
	n := v.fresh("al")
	st.add("(define-fun " + n + " () Int (+ " + o + " 1))")
	st.heap["alloc"] = &HV{name: n}
	return o
}

func (v *Ver) bumpAlloc(st *State) {
	v.note("alloc", "")
	n := v.decl(st, "al", "Int")
	st.add("(assert (<= " + v.alloc(st) + " " + n + "))")
	st.heap["alloc"] = &HV{name: n}
}

// wfComp: every value of a component is well-formed
func wfComp(name, comp, alloc string) string {
	t := W.compTy[comp]
	if d := W.compDef[comp]; d != "" { // a ghost with a default: nothing is said of objects to come
		return fmt.Sprintf("(assert (forall ((r Int)) (! (=> (<= %s r) (= (select %s r) %s)) :pattern ((select %s r)))))", alloc, name, d, name)
	}
	if t == nil {
		return ""
	}
	switch W.compKind[comp] {
	case "F", "C":
		w := W.wf("(select "+name+" r)", t, alloc)
		if w == "true" {
			return ""
		}
		return fmt.Sprintf("(assert (forall ((r Int)) (! (=> (and (<= 0 r) (< r %s)) %s) :pattern ((select %s r)))))", alloc, w, name)
	case "E":
		w := W.wf("(select (select "+name+" r) i)", t, alloc)
		if w == "true" {
			return ""
		}
		return fmt.Sprintf("(assert (forall ((r Int) (i Int)) (! (=> (and (<= 0 r) (< r %s)) %s) :pattern ((select (select %s r) i)))))", alloc, w, name)
	case "MV":
		w := W.wf("(select (select "+name+" r) k)", t, alloc)
		if w == "true" {
			return ""
		}
		_, inner := arrayElem(W.compSort[comp])
		ks, _ := arrayElem(inner)
		return fmt.Sprintf("(assert (forall ((r Int) (k %s)) (! (=> (and (<= 0 r) (< r %s)) %s) :pattern ((select (select %s r) k)))))", ks, alloc, w, name)
	}
	return ""
}
