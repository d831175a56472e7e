package main

import (
	"fmt"
	"sort"
	"strings"

	fastac "github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/defs"
	"github.com/abichinger/fastac/model/eft"
	"github.com/abichinger/fastac/model/fm"
	"github.com/abichinger/fastac/model/policy"
	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/fastac/util"
)

func init() {
	register("C06",
		Part{Name: "policy", N: 6000, Run: c06, Describe: "random histories on a policy, results, content and notifications against a set of value lists"},
		Part{Name: "model", N: 4000, Run: c06model, Describe: "random histories on a model with policies and role definitions"},
		Part{Name: "hash", N: 40000, Run: c06hash, Describe: "keys of pairs of similar value lists"},
	)
	register("C15", Part{Name: "definitions", N: 6000, Run: c15, Describe: "random definition changes and lookups against a map of definitions"})
	register("C16",
		Part{Name: "rows", N: 4000, Run: c16, Describe: "rows, early stop and aliasing of listing and filtering"},
		Part{Name: "links", N: 4000, Run: c16links, Describe: "ranging over links of role and domain managers"},
	)
	register("C17", Part{Name: "requests", N: 1000, Run: c17, Describe: "random requests between snapshots of the model"})
	register("C18",
		Part{Name: "positions", N: 8000, Run: c18, Describe: "parameter lookups of random definitions against the declared position"},
		Part{Name: "decisions", N: 3000, Run: c18dec, Describe: "decisions of models with arguments in random positions"},
	)
}

var trickyVals = []string{"", "a", "b", "a,b", ",", "1", "1:a", ":", "0:", "a:b", "\"", "'", " ", "\n", "aa", "\x00", "2:ab", "ab", "ü", "a\\", "|", ";", "10"}

func trickyRule(t *T, n int) []string {
	r := []string{}
	for i := 0; i < n; i++ {
		v := t.Pick(trickyVals)
		if t.Chance(5) {
			v += t.Pick(trickyVals)
		}
		if t.Chance(40) {
			v += strings.Repeat(t.Pick(trickyVals), 12)
		}
		r = append(r, v)
	}
	return r
}

// split the text of a rule differently: such rules are easily confused
func resplit(t *T, r []string) []string {
	s := strings.Join(r, t.Pick([]string{"", "", ",", ":", ", "}))
	n := 1 + t.Intn(4)
	res := []string{}
	for i := 0; i < n-1; i++ {
		k := t.Intn(len(s) + 1)
		res = append(res, s[:k])
		s = s[k:]
	}
	return append(res, s)
}

func c06hash(t *T) {
	a := trickyRule(t, t.Intn(4))
	b := resplit(t, a)
	if t.Chance(3) {
		b = trickyRule(t, t.Intn(4))
	}
	if t.Chance(4) {
		// the key of a list may look like a value
		b = []string{util.Hash(a)}
		if t.Bool() {
			b = append(b, trickyRule(t, 1)...)
		}
	}
	t.Logf("%q %q", a, b)
	t.Check((key(a) == key(b)) == (util.Hash(a) == util.Hash(b)), "keys of %q and %q: %q and %q", a, b, util.Hash(a), util.Hash(b))
}

func c06(t *T) {
	p := policy.NewPolicy(defs.NewPolicyDef("p", "a, b, c"))
	set := map[string]bool{}
	events := []string{}
	for _, evt := range []string{"rule_added", "rule_removed"} {
		evt := evt
		et := policy.EVT_RULE_ADDED
		if evt == "rule_removed" {
			et = policy.EVT_RULE_REMOVED
		}
		p.AddListener(et, func(args ...interface{}) {
			r, _ := args[0].([]string)
			events = append(events, fmt.Sprintf("%s%d %s", evt, len(args), key(r)))
		})
	}
	p.AddListener(policy.EVT_CLEARED, func(args ...interface{}) { events = append(events, "cleared") })
	pool := [][]string{}
	for i := 0; i < 2+t.Intn(3); i++ {
		r := trickyRule(t, t.Intn(4))
		pool = append(pool, r, resplit(t, r), resplit(t, r))
	}
	for i := 0; i < 4+3*t.Size; i++ {
		r := pool[t.Intn(len(pool))]
		k := key(r)
		events = events[:0]
		want := []string{}
		switch n := t.Intn(16); {
		case n < 8:
			ok, err := p.AddRule(clone(r))
			t.Logf("AddRule(%q) = %v, %v", r, ok, err)
			must(t, err, "AddRule")
			t.Check(ok == !set[k], "AddRule(%q) returned %v, rule was present: %v", r, ok, set[k])
			if !set[k] {
				want = append(want, "rule_added1 "+k)
			}
			set[k] = true
		case n < 15:
			ok, err := p.RemoveRule(clone(r))
			t.Logf("RemoveRule(%q) = %v, %v", r, ok, err)
			must(t, err, "RemoveRule")
			t.Check(ok == set[k], "RemoveRule(%q) returned %v, rule was present: %v", r, ok, set[k])
			if set[k] {
				want = append(want, "rule_removed1 "+k)
			}
			delete(set, k)
		default:
			t.Logf("Clear()")
			must(t, p.Clear(), "Clear")
			want = append(want, "cleared")
			set = map[string]bool{}
		}
		t.Check(same(events, want), "notifications %q, expected %q", events, want)
		rows := []string{}
		p.Range(func(rule []string) bool { rows = append(rows, key(rule)); return true })
		sort.Strings(rows)
		ex := []string{}
		for x := range set {
			ex = append(ex, x)
		}
		sort.Strings(ex)
		t.Check(same(rows, ex), "policy holds %s, expected %s", rows, ex)
	}
	// distinct columns
	cols := []int{0}
	ok := true
	want := map[string]bool{}
	p.Range(func(rule []string) bool {
		if len(rule) < 1 {
			ok = false
			return false
		}
		want[key(rule[:1])] = true
		return true
	})
	if ok {
		got, err := p.GetDistinct(cols)
		must(t, err, "GetDistinct")
		g := rowSet(got)
		x := []string{}
		for k := range want {
			x = append(x, k)
		}
		sort.Strings(x)
		t.Check(len(got) == len(g) && same(g, x), "GetDistinct = %q, expected %s", got, x)
	}
}

func c06model(t *T) {
	m := model.NewModel()
	must(t, m.LoadModelFromText("[policy_definition]\np = a, b, c\np2 = a\n[role_definition]\ng = _, _\ng2 = _, _, _\n"), "LoadModelFromText")
	set := map[string]bool{}
	keyOf := map[string]string{}
	events := []string{}
	m.AddListener(model.RULE_ADDED, func(args ...interface{}) {
		r, _ := args[0].([]string)
		events = append(events, "added "+key(r))
	})
	m.AddListener(model.RULE_REMOVED, func(args ...interface{}) {
		r, _ := args[0].([]string)
		events = append(events, "removed "+key(r))
	})
	pool := [][]string{}
	for i := 0; i < 4+t.Intn(3); i++ {
		switch t.Intn(4) {
		case 0:
			r := trickyRule(t, 1+t.Intn(3))
			pool = append(pool, append([]string{"p"}, r...), append([]string{"p"}, resplit(t, r)...))
		case 1:
			pool = append(pool, append([]string{"p2"}, trickyRule(t, 1)...))
		case 2:
			pool = append(pool, append([]string{"g"}, trickyRule(t, 2)...))
		case 3:
			r := trickyRule(t, 3)
			pool = append(pool, append([]string{"g2"}, r...))
			pool = append(pool, []string{"g2", r[0], r[1], t.Pick(trickyVals)})
			pool = append(pool, []string{"g2", r[0], r[1]})
		}
	}
	buf := make([]string, 8) // callers reuse their slices
	for i := 0; i < 4+3*t.Size; i++ {
		r := pool[t.Intn(len(pool))]
		k := key(r)
		events = events[:0]
		want := []string{}
		arg := buf[:len(r)]
		copy(arg, r)
		switch n := t.Intn(16); {
		case n < 8:
			ok, err := m.AddRule(arg)
			t.Logf("AddRule(%q) = %v, %v", r, ok, err)
			must(t, err, "AddRule")
			t.Check(ok == !set[k], "AddRule(%q) returned %v, rule was present: %v", r, ok, set[k])
			if !set[k] {
				want = append(want, "added "+k)
			}
			set[k] = true
			keyOf[k] = r[0]
		case n < 15:
			ok, err := m.RemoveRule(arg)
			t.Logf("RemoveRule(%q) = %v, %v", r, ok, err)
			must(t, err, "RemoveRule")
			t.Check(ok == set[k], "RemoveRule(%q) returned %v, rule was present: %v", r, ok, set[k])
			if set[k] {
				want = append(want, "removed "+k)
			}
			delete(set, k)
		default:
			t.Logf("ClearPolicy(%s)", r[0])
			must(t, m.ClearPolicy(r[0]), "Clear")
			for x := range set {
				if keyOf[x] == r[0] {
					delete(set, x)
				}
			}
		}
		t.Check(same(events, want), "notifications %q, expected %q", events, want)
		rows := []string{}
		m.RangeRules(func(rule []string) bool { rows = append(rows, key(rule)); return true })
		sort.Strings(rows)
		ex := []string{}
		for x := range set {
			ex = append(ex, x)
		}
		sort.Strings(ex)
		t.Check(same(rows, ex), "model holds %s, expected %s", rows, ex)
	}
}

// ---------- definitions ----------

func c15(t *T) {
	m := model.NewModel()
	type def struct {
		sec byte
		key string
	}
	cur := map[def]string{}
	text := func(sec byte) string {
		switch sec {
		case 'g':
			return t.Pick([]string{"_, _", "_, _, _"})
		case 'e':
			return t.Pick([]string{"some(where (p.eft == allow))", "!some(where (p.eft == deny))"})
		case 'm':
			return t.Pick([]string{"r.a == p.a", "r.b == p2.a", "r.b == p.b || r.a == 'x'", "true"})
		}
		return t.Pick([]string{"a, b", "b, a", "a"})
	}
	secs := []byte{'r', 'p', 'g', 'e', 'm'}
	check := func(sec byte, k string) {
		want, ok := cur[def{sec, k}]
		d, got := m.GetDef(sec, k)
		t.Check(got == ok, "GetDef(%c, %q) reported %v, expected %v", sec, k, got, ok)
		if ok {
			t.Check(d != nil && d.GetKey() == k, "GetDef(%c, %q) returned the definition %v", sec, k, d)
			exp := k + " = " + want
			if sec == 'e' {
				exp = k + " = " + strings.ReplaceAll(want, " ", "")
			}
			if sec == 'g' {
				exp = k + " = " + strings.ReplaceAll(want, " ", "")
			}
			t.Check(d.String() == exp, "GetDef(%c, %q) returned %q, expected %q", sec, k, d.String(), exp)
		}
		switch sec {
		case 'r':
			rd, got := m.GetRequestDef(k)
			t.Check(got == ok && (!ok || rd != nil && rd.GetKey() == k), "GetRequestDef(%q) = %v, %v; defined: %v", k, rd, got, ok)
			if ok {
				i := strings.Index(strings.ReplaceAll(want, ", ", ""), "a")
				v, err := rd.GetParameter([]interface{}{0, 1}, k+"_a")
				t.Check(err == nil && v == i || len(want) == 1, "argument a of request definition %q = %q has the value at %v, %v", k, want, v, err)
			}
		case 'p', 'g':
			p, got := m.GetPolicy(k)
			t.Check(got == ok, "GetPolicy(%q) = %v, %v; defined: %v", k, p, got, ok)
			if x, isp := p.(*policy.Policy); ok && isp && sec == 'p' {
				t.Check(x.PolicyDef != nil && x.PolicyDef.String() == k+" = "+want, "GetPolicy(%q) holds rules of %v, the definition is %q", k, x.PolicyDef, want)
			}
			if sec == 'g' {
				rm, got := m.GetRoleManager(k)
				t.Check(got == ok && (!ok || rm != nil), "GetRoleManager(%q) = %v, %v; defined: %v", k, rm, got, ok)
				if ok {
					_, dm := rm.(*rbac.DomainManager)
					t.Check(dm == (strings.Count(want, "_") == 3), "GetRoleManager(%q) is %T for definition %q", k, rm, want)
				}
			}
		case 'e':
			e, got := m.GetEffector(k)
			t.Check(got == ok && (!ok || e != nil), "GetEffector(%q) = %v, %v; defined: %v", k, e, got, ok)
			if ok {
				r, _, err := e.MergeEffects(nil, nil, true)
				t.Check(err == nil && (r == eft.Allow) == (want[0] == '!'), "GetEffector(%q) decides %v, %v without matching rules, the definition is %q", k, r, err, want)
			}
		case 'm':
			if !ok {
				mm, got := m.GetMatcher(k)
				t.Check(!got, "GetMatcher(%q) = %v; no matcher is defined", k, mm)
				t.Check(m.BuildMatcher(k) != nil, "BuildMatcher(%q) of an unknown matcher returned no error", k)
			}
		}
	}
	keys := []string{"", "2", "3", "_x"}
	for i := 0; i < 6+2*t.Size; i++ {
		sec := secs[t.Intn(5)]
		k := string(sec) + t.Pick(keys)
		switch n := t.Intn(10); {
		case n < 5:
			v := text(sec)
			err := m.SetDef(sec, k, v)
			t.Logf("SetDef(%c, %q, %q) = %v", sec, k, v, err)
			must(t, err, "SetDef")
			cur[def{sec, k}] = v
			if sec == 'm' {
				err := m.BuildMatcher(k)
				pk := "p"
				if strings.Contains(v, "p2") {
					pk = "p2"
				}
				_, ok := cur[def{'p', pk}]
				t.Check((err == nil) == ok, "BuildMatcher of %q = %v; policy %s is defined: %v", v, err, pk, ok)
				if err == nil {
					mm, ok := m.GetMatcher(k)
					t.Check(ok && mm.GetPolicyKey() == pk, "GetMatcher(%q) = %v, %v", k, mm, ok)
				}
			}
		case n < 7:
			err := m.RemoveDef(sec, k)
			t.Logf("RemoveDef(%c, %q) = %v", sec, k, err)
			must(t, err, "RemoveDef")
			delete(cur, def{sec, k})
		case n < 9:
			wrong := string(secs[t.Intn(5)]) + t.Pick(keys)
			if t.Chance(4) {
				wrong = ""
			}
			s := sec
			if t.Chance(4) {
				s = 'x'
			} else if wrong != "" && wrong[0] == s {
				continue
			}
			err := m.SetDef(s, wrong, text(sec))
			t.Logf("SetDef(%c, %q) = %v", s, wrong, err)
			t.Check(err != nil, "SetDef(%c, %q) returned no error", s, wrong)
			if s == 'x' {
				t.Check(m.RemoveDef(s, wrong) != nil, "RemoveDef(%c, %q) returned no error", s, wrong)
			}
		default:
			_, pok := cur[def{'p', k}]
			_, gok := cur[def{'g', k}]
			row := []string{k, "u", "v"}
			ok, err := m.AddRule(row)
			t.Logf("AddRule(%q) = %v, %v", row, ok, err)
			t.Check((err == nil) == (pok || gok), "AddRule(%q) = %v, %v; policy or role definition exists: %v", row, ok, err, pok || gok)
			_, err = m.RemoveRule(row)
			t.Check((err == nil) == (pok || gok), "RemoveRule(%q) = %v; policy or role definition exists: %v", row, err, pok || gok)
			err = m.ClearPolicy(k)
			t.Check((err == nil) == (pok || gok), "ClearPolicy(%q) = %v; policy or role definition exists: %v", k, err, pok || gok)
		}
		for _, s := range secs {
			for _, kk := range keys {
				check(s, string(s)+kk)
			}
		}
	}
	// per request overrides
	e, err := fastac.NewEnforcer(m, nil)
	must(t, err, "NewEnforcer")
	for _, c := range []struct {
		name string
		opt  fastac.ContextOption
		ok   bool
	}{
		{"request definition r9", fastac.SetRequestDef("r9"), false},
		{"matcher m9", fastac.SetMatcher("m9"), false},
	} {
		got, err := e.Enforce(c.opt, "x", "y")
		t.Check(err != nil && !got, "Enforce with unknown %s = %v, %v", c.name, got, err)
	}
	_, rok := cur[def{'r', "r"}]
	_, eok := cur[def{'e', "e"}]
	_, mok := m.GetMatcher("m")
	if !rok || !eok || !mok {
		got, err := e.Enforce("x", "y")
		t.Check(err != nil && !got, "Enforce without default definitions (r %v, e %v, m %v) = %v, %v", rok, eok, mok, got, err)
	}
	// functions
	calls := 0
	m.SetFunction("fnx", func(args ...interface{}) (interface{}, error) { calls++; return true, nil })
	t.Check(m.RemoveFunction("fnx"), "RemoveFunction of a present function reported false")
	t.Check(!m.RemoveFunction("fnx"), "RemoveFunction of a removed function reported true")
}

// ---------- rows ----------

func c16(t *T) {
	w := newWorld(t, worldOpt{eft: t.Chance(2), roles: true, depth: 1 + t.Intn(2)})
	if t.Chance(2) {
		w.matcher = &Node{"true", 3, func(*Env) Tri { return V }}
		if w.pKey != "p" {
			w.pKey = "p"
		}
	}
	in := build(t, w)
	in.fill(1 + t.Intn(3+t.Size))
	all := [][]string{}
	for _, r := range w.list() {
		all = append(all, in.pRow(r))
	}
	for _, l := range w.links {
		all = append(all, l)
	}
	// listing
	rows := [][]string{}
	in.m.RangeRules(func(rule []string) bool { rows = append(rows, rule); return true })
	t.Check(len(rows) == len(all) && same(rowSet(rows), rowSet(all)), "RangeRules reported %q, expected %q", rows, all)
	stop := 1 + t.Intn(len(all)+1)
	n := 0
	in.m.RangeRules(func(rule []string) bool { n++; return n < stop })
	t.Check(n == min(stop, len(all)), "RangeRules called back %d times, the callback stops at %d of %d rules", n, stop, len(all))
	// requests
	req := w.genReq(t)
	match, _, may := w.expected(w.matcher, req)
	if may {
		return
	}
	got, err := in.e.Filter(append(in.opts(nil), req...)...)
	must(t, err, "Filter")
	for _, r := range got {
		t.Check(len(r) > 0 && r[0] == w.pKey, "Filter reported the row %q, policy %s", r, w.pKey)
	}
	saved := rowSet(got)
	ex := [][]string{}
	for _, r := range match {
		ex = append(ex, in.pRow(r))
	}
	t.Check(same(saved, rowSet(ex)), "Filter reported %q, expected %q", got, ex)
	n = 0
	stop = 1 + t.Intn(len(got)+1)
	params := append(in.opts(nil), req...)
	must(t, in.e.RangeMatches(params, func(rule []string) bool { n++; return n < stop }), "RangeMatches")
	t.Check(n == min(stop, len(got)), "RangeMatches called back %d times, the callback stops at %d of %d rows", n, stop, len(got))
	// rows are independent
	for i := range got {
		keep := []string{}
		for _, r := range got {
			keep = append(keep, key(r))
		}
		_ = append(got[i], "appended")
		x := got[i][0]
		got[i][0] = "changed"
		for j, r := range got {
			if j != i {
				t.Check(key(r) == keep[j], "changing row %d of a filter result changed row %d to %q", i, j, r)
			}
		}
		got[i][0] = x
	}
	for i := 0; i < 3; i++ {
		in.add(w.genRule(t))
		if l := w.list(); len(l) > 0 && t.Bool() {
			in.remove(l[t.Intn(len(l))])
		}
	}
	t.Check(same(rowSet(got), saved), "a filter result changed after later rule changes: %q, was %q", rowSet(got), saved)
	// rules collected while listing stay as they are
	sv := rowSet(rows)
	for _, r := range rows {
		_ = append(r, "appended")
	}
	t.Check(same(rowSet(rows), sv) && same(sv, rowSet(all)), "listed rules changed: %q, were %q", rowSet(rows), rowSet(all))
	again := [][]string{}
	in.m.RangeRules(func(rule []string) bool { again = append(again, rule); return true })
	cur := [][]string{}
	for _, r := range w.list() {
		cur = append(cur, in.pRow(r))
	}
	for _, l := range w.links {
		cur = append(cur, l)
	}
	t.Check(same(rowSet(again), rowSet(cur)), "RangeRules reported %q, expected %q", again, cur)
}

func c16links(t *T) {
	var rm rbac.IRoleManager = rbac.NewRoleManager(10)
	dom := t.Bool()
	if dom {
		rm = rbac.NewDomainManager(10)
	}
	links := map[string]bool{}
	names := []string{"a", "b", "c", "d"}
	for i := 0; i < 1+t.Intn(4+t.Size); i++ {
		l := []string{t.Pick(names), t.Pick(names)}
		if dom {
			for j := 0; j < t.Intn(3); j++ {
				l = append(l, t.Pick(names))
			}
		}
		ok, err := rm.AddLink(l[0], l[1], l[2:]...)
		t.Logf("AddLink(%q) = %v, %v", l, ok, err)
		links[key(l)] = true
	}
	rp := rbac.NewRolePolicy(rm)
	got := [][]string{}
	rp.Range(func(rule []string) bool { got = append(got, rule); return true })
	ex := []string{}
	for k := range links {
		ex = append(ex, k)
	}
	sort.Strings(ex)
	t.Check(len(got) == len(ex) && same(rowSet(got), ex), "Range reported %q, links are %s", got, ex)
	stop := 1 + t.Intn(len(ex)+1)
	n := 0
	rp.Range(func(rule []string) bool { n++; return n < stop })
	t.Check(n == min(stop, len(ex)), "Range called back %d times, the callback stops at %d of %d links", n, stop, len(ex))
	sv := rowSet(got)
	for _, r := range got {
		_ = append(r, "appended")
	}
	t.Check(same(rowSet(got), sv), "rows of Range share memory: %q, were %q", got, sv)
}

// ---------- requests change nothing ----------

func c17(t *T) {
	w := newWorld(t, worldOpt{eft: t.Chance(2), roles: true, eval: t.Chance(3), bad: t.Chance(3), depth: 1 + t.Intn(2)})
	in := build(t, w)
	if !t.Chance(4) {
		in.fill(1 + t.Intn(5))
	}
	probes := [][]interface{}{}
	for i := 0; i < 3; i++ {
		probes = append(probes, w.genReq(t))
	}
	ask := func() string {
		s := []string{}
		for _, p := range probes {
			// the order of the rules decides which of several failures is met first
			match, must, may := w.expected(w.matcher, p)
			_ = match
			if may && !must {
				continue
			}
			ok, err := in.e.Enforce(append(in.opts(nil), p...)...)
			if may {
				continue
			}
			rows, err2 := in.e.Filter(append(in.opts(nil), p...)...)
			s = append(s, fmt.Sprintf("%v %v %s %v", ok, err == nil, rowSet(rows), err2 == nil))
		}
		return strings.Join(s, "\n")
	}
	fns := func() string {
		// functions of the model as seen by a matcher
		s := ""
		for _, f := range []string{"eval", "g", "g2", "pathMatch", "regexMatch", "failOn", "nofn"} {
			_, err := in.m.BuildMatcherFromDef(defs.NewMatcherDef("", f+"(r.sub) && "+w.pKey+".x == 1"))
			s += fmt.Sprintf("%s:%v ", f, err == nil)
		}
		return s
	}
	links := func() string {
		s := []string{}
		for _, k := range []string{"g", "g2"} {
			rm, ok := in.m.GetRoleManager(k)
			if !ok {
				continue
			}
			rm.Range(func(a, b string, d ...string) bool { s = append(s, key(append([]string{k, a, b}, d...))); return true })
			for _, v := range strVals {
				for _, d := range [][]string{nil, {"a"}, {"zz"}} {
					if k == "g" && d != nil {
						continue
					}
					r, err := rm.GetRoles(v, d...)
					u, err2 := rm.GetUsers(v, d...)
					sort.Strings(r)
					sort.Strings(u)
					s = append(s, fmt.Sprintf("%s %s %q %v %v %v %v", k, v, d, r, u, err, err2))
				}
			}
		}
		sort.Strings(s)
		return strings.Join(s, "\n")
	}
	snap, f, l, a := snapshot(in.e), fns(), links(), ask()
	for i := 0; i < 6; i++ {
		req := w.genReq(t)
		switch t.Intn(7) {
		case 0:
			req = req[:t.Intn(len(req)+1)]
		case 1:
			req = append(req, "more", 1)
		}
		opts := in.opts(nil)
		switch t.Intn(6) {
		case 0:
			n := w.genBool(t, 1, false)
			opts = in.opts(n.text)
		case 1:
			opts = append(opts, fastac.SetMatcher("r.sub =="))
		case 2:
			opts = append(opts, fastac.SetEffector("!some(where (p.eft == deny))"))
		case 3:
			opts = append(opts, fastac.SetEffector("nonsense"))
		}
		if t.Bool() {
			_, err := in.e.Enforce(append(opts, req...)...)
			t.Logf("Enforce%v: %v", req, err)
		} else {
			_, err := in.e.Filter(append(opts, req...)...)
			t.Logf("Filter%v: %v", req, err)
		}
		t.Check(snapshot(in.e) == snap, "a request changed the rules or definitions\n before %s\n after %s", snap, snapshot(in.e))
		t.Check(fns() == f, "a request changed the functions: before %s, after %s", f, fns())
		t.Check(links() == l, "a request changed the role links\n before %s\n after %s", l, links())
		x := ask()
		t.Check(x == a, "the answers of other requests changed\n before %s\n after %s", a, x)
	}
	// requests leave no trace that shows after later changes
	in.fill(1 + t.Intn(3))
	for _, p := range probes {
		in.checkFilter(w.matcher, nil, p)
	}
	// the function map handed to a matcher
	fmap := fm.DefaultFunctionMap()
	n := len(fmap.GetFunctions())
	mm, ok := in.m.GetMatcher(w.mKey)
	if ok {
		rd, _ := in.m.GetRequestDef(w.rKey)
		_ = mm.RangeMatches(*rd, w.genReq(t), *fmap, func([]string) bool { return true })
		t.Check(len(fmap.GetFunctions()) == n, "a request changed the function map")
		r, err := fmap.GetFunctions()["eval"]("1 > 0")
		t.Check(r == nil && err == nil, "a request replaced the eval function of the function map")
	}
}

// ---------- positions ----------

func c18(t *T) {
	names := []string{"sub", "obj", "act", "dom", "eft", "x", "y", "sub2"}
	n := 1 + t.Intn(6)
	args := shuffle(t, names)[:n]
	k := t.Pick([]string{"p", "p2", "p12"})
	sep := t.Pick([]string{", ", ",", " , "})
	pd := defs.NewPolicyDef(k, strings.Join(args, sep))
	rd := defs.NewRequestDef(strings.Replace(k, "p", "r", 1), strings.Join(args, sep))
	l := t.Intn(n + 1)
	vals := make([]string, l)
	ivals := make([]interface{}, l)
	for i := range vals {
		vals[i] = fmt.Sprintf("v%d", i)
		if t.Chance(5) {
			vals[i] = ""
		}
		ivals[i] = vals[i]
		if t.Bool() {
			ivals[i] = i
		}
	}
	t.Logf("definition %s = %v, values %q", k, args, vals)
	for i, a := range append(append([]string{}, args...), "zz", "su", "") {
		v, err := pd.GetParameter(vals, k+"_"+a)
		rvv, rerr := rd.GetParameter(ivals, strings.Replace(k, "p", "r", 1)+"_"+a)
		if i < n && i < l {
			t.Check(err == nil && v == vals[i], "GetParameter(%q, %s_%s) = %q, %v; it is declared at position %d of %v", vals, k, a, v, err, i, args)
			t.Check(rerr == nil && rvv == ivals[i], "request GetParameter(%v, %s) = %v, %v; it is declared at position %d of %v", ivals, a, rvv, rerr, i, args)
		} else {
			t.Check(err != nil, "GetParameter(%q, %s_%s) = %q without error; declared %v", vals, k, a, v, args)
			t.Check(rerr != nil, "request GetParameter(%v, %s) = %v without error; declared %v", ivals, a, rvv, args)
		}
	}
	// several at once
	ask := []string{}
	rask := []string{}
	want := []string{}
	ok := true
	for i := 0; i < t.Intn(4); i++ {
		j := t.Intn(n)
		ask = append(ask, k+"_"+args[j])
		rask = append(rask, strings.Replace(k, "p", "r", 1)+"_"+args[j])
		if j < l {
			want = append(want, fmt.Sprint(j))
		} else {
			ok = false
		}
	}
	got, err := pd.GetParameters(vals, ask)
	rgot, rerr := rd.GetParameters(ivals, rask)
	t.Check((err == nil) == ok && (rerr == nil) == ok, "GetParameters(%q, %q) = %q, %v and %v, %v", vals, ask, got, err, rgot, rerr)
	if ok {
		t.Check(len(got) == len(want) && len(rgot) == len(want), "GetParameters(%q, %q) = %q and %v", vals, ask, got, rgot)
		for i, s := range want {
			var j int
			_, _ = fmt.Sscan(s, &j)
			t.Check(got[i] == vals[j] && rgot[i] == ivals[j], "GetParameters(%q, %q) = %q and %v", vals, ask, got, rgot)
		}
	}
	// effect
	pos := -1
	for i, a := range args {
		if a == "eft" {
			pos = i
		}
	}
	ev := make([]string, l)
	for i := range ev {
		ev[i] = t.Pick([]string{"allow", "deny", "", "other"})
	}
	w := &World{pArgs: args}
	eft := map[string]interface{}{}
	e1 := defs.NewPolicyDef("p", "eft")
	eft["allow"], eft["deny"], eft["neither"] = e1.GetEft([]string{"allow"}), e1.GetEft([]string{"deny"}), e1.GetEft([]string{"other"})
	t.Check(eft["allow"] != eft["deny"] && eft["allow"] != eft["neither"] && eft["deny"] != eft["neither"], "effects are not distinguished: %v", eft)
	t.Check(interface{}(pd.GetEft(ev)) == eft[w.eftOf(ev)], "GetEft(%q) = %v, the effect is declared at %d of %v", ev, pd.GetEft(ev), pos, args)
}

func c18dec(t *T) {
	w := newWorld(t, worldOpt{eft: true, roles: false, depth: 1})
	// one comparison per argument
	var n *Node
	for _, a := range shuffle(t, w.pArgs) {
		for _, b := range w.rStr() {
			if a == "eft" || a == "cond" || t.Chance(2) {
				continue
			}
			a, b := a, b
			c := &Node{w.rKey + "." + b + " == " + w.pKey + "." + a, 3, func(e *Env) Tri {
				x, ok := e.req[b].(string)
				y, ok2 := e.rule[a]
				if !ok || !ok2 {
					return bad(e)
				}
				return tri(x == y)
			}}
			if n == nil {
				n = c
			} else {
				n = and(t, n, c)
			}
		}
	}
	if n == nil {
		return
	}
	w.matcher = n
	in := build(t, w)
	for i := 0; i < 2+t.Intn(5); i++ {
		r := w.genRule(t)
		if t.Chance(5) {
			r = r[:1+t.Intn(len(r))]
		}
		in.add(r)
	}
	for i := 0; i < 5; i++ {
		req := w.genReq(t)
		if l := w.list(); t.Bool() {
			// ask for the values of a rule
			r := l[t.Intn(len(l))]
			for j := range req {
				if _, ok := req[j].(string); ok {
					req[j] = r[t.Intn(len(r))]
				}
			}
		}
		in.checkFilter(w.matcher, nil, req)
		in.checkEnforce(w.matcher, nil, req)
	}
}
