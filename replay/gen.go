package main

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// ---------- three valued expressions ----------

type Tri int

const (
	F Tri = iota
	V     // true
	U     // evaluating it fails
)

func tri(b bool) Tri {
	if b {
		return V
	}
	return F
}

// Env is what an expression is evaluated over by the reference.
type Env struct {
	w    *World
	rule map[string]string // declared argument -> value, absent if the rule is too short
	req  map[string]interface{}
	bad  bool // some part of the expression can not be evaluated
}

// Node is an expression together with its reference meaning.
type Node struct {
	text string
	prec int // 0 conditional, 1 or, 2 and, 3 operand
	ev   func(e *Env) Tri
}

func paren(t *T, n *Node, min int) string {
	if n.prec < min || t.Chance(9) {
		if t.Chance(6) {
			return "((" + n.text + "))"
		}
		return "(" + n.text + ")"
	}
	return n.text
}

func op(t *T, s string) string {
	if t.Chance(5) {
		return s + " "
	}
	return " " + s + " "
}

func and(t *T, a, b *Node) *Node {
	return &Node{paren(t, a, 2) + op(t, "&&") + paren(t, b, 2), 2, func(e *Env) Tri {
		x, y := a.ev(e), b.ev(e)
		if x == F || y == F {
			return F
		}
		if x == U || y == U {
			return U
		}
		return V
	}}
}

func or(t *T, a, b *Node) *Node {
	return &Node{paren(t, a, 1) + op(t, "||") + paren(t, b, 1), 1, func(e *Env) Tri {
		x, y := a.ev(e), b.ev(e)
		if x == V || y == V {
			return V
		}
		if x == U || y == U {
			return U
		}
		return F
	}}
}

func not(t *T, a *Node) *Node {
	return &Node{"!(" + a.text + ")", 3, func(e *Env) Tri {
		switch a.ev(e) {
		case V:
			return F
		case F:
			return V
		}
		return U
	}}
}

func cond(t *T, c, a, b *Node) *Node {
	return &Node{paren(t, c, 1) + " ? " + paren(t, a, 1) + " : " + paren(t, b, 1), 0, func(e *Env) Tri {
		x, y, z := c.ev(e), a.ev(e), b.ev(e)
		switch x {
		case V:
			return y
		case F:
			return z
		}
		return U
	}}
}

// ---------- names ----------

var strArgs = []string{"sub", "obj", "act", "dom"}
var strVals = []string{"alice", "bob", "data1", "read", "a", "b", "ab"}

// World is a model with its rules, as the reference sees it.
type World struct {
	rKey, pKey, mKey, eKey string
	rArgs, pArgs           []string
	matcher                *Node
	effect                 string
	effectText             string
	g                      bool // 2-party role definition
	g2                     bool // role definition with domain
	empties                bool // empty strings among the values
	consts                 bool // rich constants
	bad                    bool // parts that can not be evaluated
	rules                  map[string][]string
	links                  map[string][]string // g and g2 rules incl. key
	conds                  map[string]*Node    // expression texts of eval rules
	condList               []string
}

func key(r []string) string { return fmt.Sprintf("%q", r) }

type person struct {
	Name string
	Age  int
}

func shuffle(t *T, s []string) []string {
	r := append([]string{}, s...)
	t.Shuffle(len(r), func(i, j int) { r[i], r[j] = r[j], r[i] })
	return r
}

type worldOpt struct {
	eval, consts, bad, roles, eft, custom bool
	depth                                 int
}

func newWorld(t *T, o worldOpt) *World {
	w := &World{rKey: "r", pKey: "p", mKey: "m", eKey: "e", rules: map[string][]string{}, links: map[string][]string{}, conds: map[string]*Node{}, consts: o.consts, bad: o.bad}
	if t.Chance(4) {
		w.pKey = "p2"
	}
	if t.Chance(4) {
		w.rKey = "r2"
	}
	n := 1 + t.Intn(4)
	w.rArgs = shuffle(t, strArgs)[:n]
	extra := []string{"n", "b", "s"}
	for _, x := range extra {
		if t.Chance(2) {
			w.rArgs = append(w.rArgs, x)
		}
	}
	w.rArgs = shuffle(t, w.rArgs)
	n = 1 + t.Intn(4)
	w.pArgs = shuffle(t, strArgs)[:n]
	if o.eft {
		w.pArgs = append(w.pArgs, "eft")
		if t.Chance(2) {
			w.pArgs = shuffle(t, w.pArgs)
		}
	}
	if o.roles {
		w.g = t.Chance(2)
		w.g2 = t.Chance(3)
	}
	if o.eval {
		w.pArgs = append(w.pArgs, "cond")
		w.pArgs = shuffle(t, w.pArgs)
		for i := 0; i < 1+t.Intn(3); i++ {
			c := w.genBool(t, 1, true)
			for k := 0; k < 20 && strings.ContainsAny(c.text, `"'`); k++ {
				c = w.genBool(t, 1, true)
			}
			if !strings.ContainsAny(c.text, `"'`) {
				w.conds[c.text] = c
				w.condList = append(w.condList, c.text)
			}
		}
		if len(w.condList) == 0 {
			c := &Node{"1 > 0", 3, func(*Env) Tri { return V }}
			w.conds[c.text] = c
			w.condList = append(w.condList, c.text)
		}
	}
	w.matcher = w.genBool(t, o.depth, false)
	if w.pKey != "p" && !strings.Contains(w.matcher.text, w.pKey+".") {
		// the policy of a matcher is found through its arguments
		a := w.pArgs[0]
		w.matcher = and(t, w.matcher, &Node{w.pKey + "." + a + " != 'zzz'", 3, func(e *Env) Tri {
			v, ok := e.rule[a]
			if !ok {
				e.bad = true
				return U
			}
			return tri(v != "zzz")
		}})
	}
	w.effect = t.Pick([]string{"some", "none", "both"})
	w.effectText = map[string][]string{
		"some": {"some(where (p.eft == allow))", "some(where(p.eft==allow))", "some ( where ( p.eft==allow ) )"},
		"none": {"!some(where (p.eft == deny))", "!some(where(p.eft==deny))"},
		"both": {"some(where (p.eft == allow)) && !some(where (p.eft == deny))", "some(where(p.eft==allow))&&!some(where(p.eft==deny))"},
	}[w.effect][t.Intn(2)]
	return w
}

// pStr is the list of string valued rule arguments usable in comparisons.
func (w *World) pStr() []string {
	res := []string{}
	for _, a := range w.pArgs {
		if a != "eft" && a != "cond" {
			res = append(res, a)
		}
	}
	return res
}

func (w *World) rStr() []string {
	res := []string{}
	for _, a := range w.rArgs {
		if a != "n" && a != "b" && a != "s" {
			res = append(res, a)
		}
	}
	return res
}

func has(s []string, x string) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}

func (w *World) argText(t *T, k, a string) string {
	if t.Chance(6) {
		return k + "_" + a
	}
	return k + "." + a
}

func rv(a string) func(e *Env) (interface{}, bool) {
	return func(e *Env) (interface{}, bool) { v, ok := e.req[a]; return v, ok }
}
func pv(a string) func(e *Env) (interface{}, bool) {
	return func(e *Env) (interface{}, bool) { v, ok := e.rule[a]; return v, ok }
}
func cv(v interface{}) func(e *Env) (interface{}, bool) {
	return func(e *Env) (interface{}, bool) { return v, true }
}

type term struct {
	text string
	val  func(e *Env) (interface{}, bool)
}

// string term
func (w *World) strTerm(t *T, constOK bool) term {
	r, p := w.rStr(), w.pStr()
	k := t.Intn(10)
	switch {
	case k < 4 && len(r) > 0:
		a := t.Pick(r)
		return term{w.argText(t, w.rKey, a), rv(a)}
	case k < 8 && len(p) > 0:
		a := t.Pick(p)
		return term{w.argText(t, w.pKey, a), pv(a)}
	case constOK:
		return w.strConst(t)
	}
	if len(p) > 0 {
		a := t.Pick(p)
		return term{w.argText(t, w.pKey, a), pv(a)}
	}
	return w.strConst(t)
}

var trickyConsts = []string{"p.sub == r.sub", "a && b", "a || b", "(", ")", "r_sub", "r.obj", "p.act", "it''s", "x,y", "eval(p.cond)", "!", "true", "a?b:c", "g.user", "bar_p.sub", "tab\\t", "\\\\", "ä€", "#", " lead", "p.sub", "[x]", "'x", "5"}

func strLit(t *T, v string) string {
	q := "'"
	if t.Chance(3) {
		q = "\""
	}
	r := strings.NewReplacer("\\", "\\\\", "'", "\\'", "\"", "\\\"")
	return q + r.Replace(v) + q
}

func (w *World) strConst(t *T) term {
	v := t.Pick(strVals)
	if w.consts && t.Chance(2) {
		v = t.Pick(trickyConsts)
	}
	return term{strLit(t, v), cv(v)}
}

func (w *World) numTerm(t *T, depth int) (string, func(e *Env) (float64, bool)) {
	if depth > 0 && t.Chance(3) {
		a, av := w.numTerm(t, depth-1)
		b, bv := w.numTerm(t, depth-1)
		o := t.Pick([]string{"+", "-", "*"})
		return "(" + a + op(t, o) + b + ")", func(e *Env) (float64, bool) {
			x, ok := av(e)
			y, ok2 := bv(e)
			switch o {
			case "+":
				x += y
			case "-":
				x -= y
			case "*":
				x *= y
			}
			return x, ok && ok2
		}
	}
	if has(w.rArgs, "n") && t.Chance(2) {
		return w.argText(t, w.rKey, "n"), func(e *Env) (float64, bool) { v, ok := e.req["n"].(float64); return v, ok }
	}
	if has(w.rArgs, "s") && t.Chance(3) {
		return w.rKey + ".s.Age", func(e *Env) (float64, bool) { v, ok := e.req["s"].(person); return float64(v.Age), ok }
	}
	c := t.Pick([]string{"0", "1", "2", "3", "10", "0.5", "1.25"})
	if w.consts && t.Chance(2) {
		c = t.Pick([]string{"123456789", "0.000001", "1000000000000000000000", "3.14159265358979", "0x1F", "100000000", "12345678.9", "0.1"})
	}
	f, err := strconv.ParseFloat(c, 64)
	if err != nil {
		i, _ := strconv.ParseInt(c, 0, 64)
		f = float64(i)
	}
	return c, func(*Env) (float64, bool) { return f, true }
}

// the expression language reads some strings as points in time
func timeTerm(t *T) (string, func(e *Env) (float64, bool)) {
	c := t.Pick([]string{"2014-01-02", "2014-01-02 14:12:22", "1970-01-02T03:04:05Z"})
	for _, l := range []string{"2006-01-02", "2006-01-02 15:04:05", time.RFC3339} {
		if tm, err := time.ParseInLocation(l, c, time.Local); err == nil {
			u := float64(tm.Unix())
			return "'" + c + "'", func(*Env) (float64, bool) { return u, true }
		}
	}
	return "0", func(*Env) (float64, bool) { return 0, true }
}

func bad(e *Env) Tri { e.bad = true; return U }

// atom generates an operand of the logical operators.
func (w *World) atom(t *T, noQuotes bool) *Node {
	for {
		n := w.atom1(t, noQuotes)
		if n == nil || (noQuotes && strings.ContainsAny(n.text, `"'`)) {
			continue
		}
		return n
	}
}

func (w *World) atom1(t *T, noEval bool) *Node {
	if !noEval && len(w.condList) > 0 && t.Chance(4) {
		return &Node{"eval(" + w.argText(t, w.pKey, "cond") + ")", 3, func(e *Env) Tri {
			c, ok := e.rule["cond"]
			if !ok {
				return bad(e)
			}
			n, ok := w.conds[c]
			if !ok {
				return bad(e)
			}
			return n.ev(e)
		}}
	}
	if w.bad && t.Chance(6) {
		return w.badAtom(t)
	}
	switch k := t.Intn(20); {
	case k < 8: // string comparison
		a, b := w.strTerm(t, false), w.strTerm(t, true)
		o := t.Pick([]string{"==", "==", "==", "!=", "<", ">="})
		return &Node{a.text + op(t, o) + b.text, 3, func(e *Env) Tri {
			x, ok := a.val(e)
			y, ok2 := b.val(e)
			if !ok || !ok2 {
				return bad(e)
			}
			xs, ok := x.(string)
			ys, ok2 := y.(string)
			if !ok || !ok2 {
				return bad(e)
			}
			switch o {
			case "==":
				return tri(xs == ys)
			case "!=":
				return tri(xs != ys)
			case "<":
				return tri(xs < ys)
			}
			return tri(xs >= ys)
		}}
	case k < 9: // membership
		a := w.strTerm(t, false)
		n := 2 + t.Intn(3)
		vals, txt := []string{}, []string{}
		for i := 0; i < n; i++ {
			c := w.strConst(t)
			v, _ := c.val(nil)
			vals = append(vals, v.(string))
			txt = append(txt, c.text)
		}
		return &Node{a.text + " in (" + strings.Join(txt, ",") + ")", 3, func(e *Env) Tri {
			x, ok := a.val(e)
			if !ok {
				return bad(e)
			}
			xs, ok := x.(string)
			if !ok {
				return F
			}
			return tri(has(vals, xs))
		}}
	case k < 11: // numbers
		a, av := w.numTerm(t, 1)
		b, bv := w.numTerm(t, 1)
		if w.consts && t.Chance(6) {
			b, bv = timeTerm(t)
		}
		o := t.Pick([]string{"<", "<=", ">", ">=", "==", "!="})
		txt := a + op(t, o) + b
		if strings.HasPrefix(b, "'") {
			txt = "(" + txt + ")" // no operator may follow a point in time
		}
		return &Node{txt, 3, func(e *Env) Tri {
			x, ok := av(e)
			y, ok2 := bv(e)
			if !ok || !ok2 {
				return bad(e)
			}
			switch o {
			case "<":
				return tri(x < y)
			case "<=":
				return tri(x <= y)
			case ">":
				return tri(x > y)
			case ">=":
				return tri(x >= y)
			case "==":
				return tri(x == y)
			}
			return tri(x != y)
		}}
	case k < 12: // boolean request value
		if !has(w.rArgs, "b") {
			return nil
		}
		neg := t.Bool()
		txt := w.argText(t, w.rKey, "b")
		if neg {
			txt = "!" + txt
		}
		return &Node{txt, 3, func(e *Env) Tri {
			v, ok := e.req["b"].(bool)
			if !ok {
				return bad(e)
			}
			return tri(v != neg)
		}}
	case k < 13: // field of a request value
		if !has(w.rArgs, "s") {
			return nil
		}
		b := w.strTerm(t, true)
		return &Node{w.rKey + ".s.Name == " + b.text, 3, func(e *Env) Tri {
			x, ok := e.req["s"].(person)
			y, ok2 := b.val(e)
			if !ok || !ok2 {
				return bad(e)
			}
			return tri(interface{}(x.Name) == y)
		}}
	case k < 14: // pattern
		a := w.strTerm(t, false)
		re := t.Pick([]string{"^a", "b$", "^(alice|bob)$", "data[0-9]+", "r.*d", "^$"})
		o := t.Pick([]string{"=~", "!~"})
		c := regexp.MustCompile(re)
		return &Node{a.text + " " + o + " '" + re + "'", 3, func(e *Env) Tri {
			x, ok := a.val(e)
			if !ok {
				return bad(e)
			}
			xs, ok := x.(string)
			if !ok {
				return bad(e)
			}
			return tri(c.MatchString(xs) == (o == "=~"))
		}}
	case k < 15: // constants
		v := t.Bool()
		return &Node{fmt.Sprint(v), 3, func(*Env) Tri { return tri(v) }}
	case k < 17: // roles
		if !w.g && !w.g2 {
			return nil
		}
		a, b := w.strTerm(t, false), w.strTerm(t, true)
		if w.g && (t.Bool() || !w.g2) {
			return &Node{"g(" + a.text + ", " + b.text + ")", 3, func(e *Env) Tri {
				x, ok := a.val(e)
				y, ok2 := b.val(e)
				xs, ok3 := x.(string)
				ys, ok4 := y.(string)
				if !ok || !ok2 || !ok3 || !ok4 {
					return bad(e)
				}
				return tri(e.w.reach("g", xs, ys, nil, 9))
			}}
		}
		d := w.strTerm(t, true)
		return &Node{"g2(" + a.text + ", " + b.text + "," + d.text + ")", 3, func(e *Env) Tri {
			x, ok := a.val(e)
			y, ok2 := b.val(e)
			z, ok5 := d.val(e)
			xs, ok3 := x.(string)
			ys, ok4 := y.(string)
			zs, ok6 := z.(string)
			if !ok || !ok2 || !ok3 || !ok4 || !ok5 || !ok6 {
				return bad(e)
			}
			return tri(e.w.reach("g2", xs, ys, &zs, 7))
		}}
	case k < 18: // custom function observing its exact argument
		if !w.consts {
			return nil
		}
		c := w.strConst(t)
		v, _ := c.val(nil)
		return &Node{"isStr" + fmt.Sprintf("%x", v.(string)) + "(" + c.text + ")", 3, func(*Env) Tri { return V }}
	default:
		a, b := w.strTerm(t, false), w.strTerm(t, true)
		return &Node{"globMatch(" + a.text + ", " + b.text + ")", 3, func(e *Env) Tri {
			x, ok := a.val(e)
			y, ok2 := b.val(e)
			xs, ok3 := x.(string)
			ys, ok4 := y.(string)
			if !ok || !ok2 || !ok3 || !ok4 {
				return bad(e)
			}
			m, err := glob(xs, ys)
			if err != nil {
				return bad(e)
			}
			return tri(m)
		}}
	}
}

// badAtom can never, or not for every value, be evaluated.
func (w *World) badAtom(t *T) *Node {
	u := func(txt string) *Node { return &Node{txt, 3, bad} }
	r, p := w.rStr(), w.pStr()
	switch t.Intn(10) {
	case 9:
		return u("[] == 'a'")
	case 0:
		return u(w.rKey + ".missing == 'a'")
	case 1:
		if len(p) > 0 {
			return u(w.pKey + ".missing == 'a'")
		}
	case 2:
		return u("failing('a')")
	case 3:
		return u("ipMatch('no address', '10.0.0.1')")
	case 4:
		return u("regexMatch('a', '(')")
	case 5:
		if len(r) > 0 {
			return u("pathMatch(" + w.rKey + "." + r[0] + ", 1)")
		}
	case 6:
		return u("pathMatch('a')")
	case 7:
		if len(p) > 0 {
			a := t.Pick(p)
			return &Node{"failOn(" + w.pKey + "." + a + ")", 3, func(e *Env) Tri {
				v, ok := e.rule[a]
				if !ok || v == "b" || v == "bob" {
					return bad(e)
				}
				return V
			}}
		}
	case 8:
		if len(r) > 0 {
			return u("unknownname == " + w.rKey + "." + r[0])
		}
	}
	return u("failing()")
}

func (w *World) genBool(t *T, depth int, noQuotes bool) *Node {
	if depth <= 0 {
		return w.atom(t, noQuotes)
	}
	d := func() *Node { return w.genBool(t, depth-1-t.Intn(2), noQuotes) }
	switch k := t.Intn(12); {
	case k < 4:
		return and(t, d(), d())
	case k < 8:
		return or(t, d(), d())
	case k < 9:
		return not(t, d())
	case k < 10:
		return cond(t, d(), d(), d())
	}
	return w.atom(t, noQuotes)
}

// ---------- reference ----------

// reach: chain of links of key (and domain) of at most max links.
func (w *World) reach(k, a, b string, dom *string, max int) bool {
	cur := map[string]bool{a: true}
	for i := 0; i <= max; i++ {
		if cur[b] {
			return true
		}
		next := map[string]bool{}
		for _, l := range w.links {
			if l[0] != k || !cur[l[1]] {
				continue
			}
			if dom != nil && (len(l) != 4 || l[3] != *dom) {
				continue
			}
			next[l[2]] = true
		}
		cur = next
	}
	return false
}

func (w *World) env(rule []string, req []interface{}) *Env {
	e := &Env{w: w, rule: map[string]string{}, req: map[string]interface{}{}}
	for i, a := range w.pArgs {
		if i < len(rule) {
			e.rule[a] = rule[i]
		}
	}
	for i, a := range w.rArgs {
		if i < len(req) {
			e.req[a] = req[i]
		}
	}
	return e
}

// expected returns the matching rules, whether evaluation must fail and whether it may fail.
func (w *World) expected(n *Node, req []interface{}) (match [][]string, must, may bool) {
	rules := w.list()
	if len(rules) == 0 {
		rules = [][]string{make([]string, len(w.pArgs))}
	}
	for _, r := range rules {
		e := w.env(r, req)
		v := n.ev(e)
		if v == U {
			must = true
		}
		if e.bad {
			may = true
		}
		if v == V {
			match = append(match, r)
		}
	}
	return
}

func (w *World) list() [][]string {
	ks := []string{}
	for k := range w.rules {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	res := [][]string{}
	for _, k := range ks {
		res = append(res, w.rules[k])
	}
	return res
}

func (w *World) eftOf(rule []string) string {
	for i, a := range w.pArgs {
		if a == "eft" {
			if i >= len(rule) || rule[i] == "" || rule[i] == "allow" {
				return "allow"
			}
			if rule[i] == "deny" {
				return "deny"
			}
			return "neither"
		}
	}
	return "allow"
}

func (w *World) decide(match [][]string) bool {
	allow, deny := false, false
	for _, r := range match {
		switch w.eftOf(r) {
		case "allow":
			allow = true
		case "deny":
			deny = true
		}
	}
	switch w.effect {
	case "some":
		return allow
	case "none":
		return !deny
	}
	return allow && !deny
}

func (w *World) genRule(t *T) []string {
	r := []string{}
	for _, a := range w.pArgs {
		switch a {
		case "eft":
			r = append(r, t.Pick([]string{"allow", "deny", "", "allow", "deny", "other", "Allow", "ALLOW", "indeterminate"}))
		case "cond":
			r = append(r, t.Pick(w.condList))
		default:
			if w.empties && t.Chance(6) {
				r = append(r, "")
			} else {
				r = append(r, t.Pick(strVals))
			}
		}
	}
	return r
}

func (w *World) genLink(t *T) []string {
	if w.g && (t.Bool() || !w.g2) {
		return []string{"g", t.Pick(strVals), t.Pick(strVals)}
	}
	return []string{"g2", t.Pick(strVals), t.Pick(strVals), t.Pick(strVals)}
}

func (w *World) genReq(t *T) []interface{} {
	req := []interface{}{}
	for _, a := range w.rArgs {
		switch a {
		case "n":
			req = append(req, float64(t.Intn(5)))
		case "b":
			req = append(req, t.Bool())
		case "s":
			req = append(req, person{t.Pick(strVals), t.Intn(12)})
		default:
			req = append(req, t.Pick(strVals))
		}
	}
	return req
}

func (w *World) modelText(t *T) string {
	sep := ", "
	if t.Chance(4) {
		sep = ","
	}
	s := "[request_definition]\n" + w.rKey + " = " + strings.Join(w.rArgs, sep) + "\n"
	if w.rKey != "r" {
		s += "r = foo, bar\n"
	}
	s += "\n[policy_definition]\n" + w.pKey + " = " + strings.Join(w.pArgs, sep) + "\n"
	if w.pKey != "p" {
		s += "p = act, foo\n"
	}
	if w.g || w.g2 {
		s += "\n[role_definition]\n"
		if w.g {
			s += "g = _, _\n"
		}
		if w.g2 {
			s += "g2 = _, _, _\n"
		}
	}
	s += "\n[policy_effect]\ne = " + w.effectText + "\n"
	return s
}
