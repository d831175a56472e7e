package main

import (
	"fmt"
	"strings"

	fastac "github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/defs"
	"github.com/abichinger/fastac/model/effector"
	"github.com/abichinger/fastac/model/matcher"
	"github.com/abichinger/fastac/model/types"
	"github.com/abichinger/govaluate"
)

func init() {
	register("C01",
		Part{Name: "decision", N: 3000, Run: c01, Describe: "random models, rules in random order, decision against the effect expression over all matching rules"},
		Part{Name: "effector", N: 2000, Run: c01eff, Describe: "incremental and final merging of random effect lists"},
	)
	register("C02", Part{Name: "filter", N: 4000, Run: c02, Describe: "random models, rule sets and requests, reported rules against the matcher expression"},
		Part{Name: "groups", N: 2500, Run: c02groups, Describe: "rules sharing groups of the index, stages with up to four arguments"})
	register("C03", Part{Name: "history", N: 2500, Run: c03, Describe: "random histories of rule and link changes, early built matchers against the current rules"})
	register("C04",
		Part{Name: "stages", N: 6000, Run: c04, Describe: "random expressions, staged definition against the expression"},
		Part{Name: "constants", N: 2000, Run: c04consts, Describe: "constants received by functions of a staged matcher"},
	)
	register("C05",
		Part{Name: "failing", N: 5000, Run: c05, Describe: "matchers with parts that can not be evaluated"},
		Part{Name: "invalid", N: 1500, Run: c05invalid, Describe: "invalid requests, rules, lookups and options"},
	)
}

func c01(t *T) {
	w := newWorld(t, worldOpt{eft: !t.Chance(5), roles: true, depth: 1 + t.Intn(2)})
	in := build(t, w)
	in.fill(t.Intn(3 + t.Size))
	if w.pArgs[len(w.pArgs)-1] == "eft" && t.Chance(2) {
		// the effect may be omitted
		r := w.genRule(t)
		in.add(r[:len(r)-1])
	}
	for i := 0; i < 4; i++ {
		in.checkEnforce(w.matcher, nil, w.genReq(t))
	}
	// the same rules in another order
	w2 := *w
	w2.rules, w2.links = map[string][]string{}, map[string][]string{}
	in2 := build(t, &w2)
	rules := w.list()
	for _, i := range t.Perm(len(rules)) {
		in2.add(rules[i])
	}
	for _, l := range w.links {
		in2.link(l)
	}
	for i := 0; i < 4; i++ {
		req := w.genReq(t)
		a, err := in.e.Enforce(append(in.opts(nil), req...)...)
		b, err2 := in2.e.Enforce(append(in2.opts(nil), req...)...)
		t.Check(a == b && (err == nil) == (err2 == nil), "Enforce%v depends on the order of the rules: %v,%v and %v,%v", req, a, err, b, err2)
		in2.checkEnforce(w.matcher, nil, req)
	}
	// another effect expression per request
	for _, eff := range []string{"some", "none", "both"} {
		w3 := *w
		w3.effect = eff
		txt := map[string]string{"some": "some(where (p.eft == allow))", "none": "!some(where (p.eft == deny))", "both": "some(where (p.eft == allow)) && !some(where (p.eft == deny))"}[eff]
		req := w.genReq(t)
		match, _, may := w3.expected(w.matcher, req)
		got, err := in.e.Enforce(append(append(in.opts(nil), fastac.SetEffector(txt)), req...)...)
		if may {
			continue
		}
		must(t, err, "Enforce with effect "+txt)
		t.Check(got == w3.decide(match), "Enforce%v with effect %q returned %v, matching rules %q", req, txt, got, match)
	}
	bad := t.Pick([]string{"some(where (p.eft == deny))", "priority(p.eft)", "!some(where (p.eft == allow))", "x"})
	req := w.genReq(t)
	got, err := in.e.Enforce(append(append(in.opts(nil), fastac.SetEffector(bad)), req...)...)
	t.Check(err != nil && !got, "Enforce%v with the unsupported effect expression %q returned %v, %v", req, bad, got, err)
}

func c01eff(t *T) {
	for name, txt := range map[string]string{"some": "some(where (p.eft == allow))", "none": "!some(where (p.eft == deny))", "both": "some(where (p.eft == allow)) && !some(where (p.eft == deny))"} {
		eff := effector.NewEffector(defs.NewEffectDef("e", txt))
		n := t.Intn(5)
		effs := []types.Effect{}
		rows := [][]string{}
		words := []string{}
		w := &World{pArgs: []string{"eft"}, effect: name}
		all := [][]string{}
		pd := defs.NewPolicyDef("p", "eft")
		for i := 0; i < n; i++ {
			v := t.Pick([]string{"allow", "deny", "other", ""})
			words = append(words, v)
			all = append(all, []string{v})
		}
		t.Logf("effect %s over %q", txt, words)
		want := w.decide(all)
		got, done := types.Effect(0), false
		for i := range all {
			effs = append(effs, pd.GetEft(all[i]))
			rows = append(rows, all[i])
			r, _, err := eff.MergeEffects(effs, rows, false)
			must(t, err, "MergeEffects")
			if r == pd.GetEft([]string{"allow"}) || r == pd.GetEft([]string{"deny"}) {
				got, done = r, true
				break
			}
		}
		if !done {
			r, _, err := eff.MergeEffects(effs, rows, true)
			must(t, err, "MergeEffects")
			got = r
		}
		t.Check((got == pd.GetEft([]string{"allow"})) == want, "effect %q over %q: got %v, expected allow=%v", txt, words, got, want)
	}
}

func c02(t *T) {
	w := newWorld(t, worldOpt{eft: t.Chance(4), roles: true, eval: t.Chance(3), consts: t.Chance(3), depth: 1 + t.Intn(3)})
	w.empties = t.Chance(2)
	in := build(t, w)
	n := t.Intn(3 + t.Size)
	if t.Chance(10) {
		n = 0
	}
	in.fill(n)
	t.Kind(fmt.Sprintf("rules=%d", min(len(w.rules), 5)))
	for i := 0; i < 4; i++ {
		in.checkFilter(w.matcher, nil, w.genReq(t))
	}
	// another matcher for a single request
	for i := 0; i < 2; i++ {
		n := w.genBool(t, 1+t.Intn(2), false)
		if w.pKey != "p" && !strings.Contains(n.text, w.pKey+".") {
			continue
		}
		t.Logf("matcher %s", n.text)
		in.checkFilter(n, n.text, w.genReq(t))
	}
	if w.g {
		// rules of a grouping policy
		v := t.Pick(strVals)
		rows, err := in.e.Filter(append(in.opts("g.user == '"+v+"'"), w.genReq(t)...)...)
		must(t, err, "Filter of g")
		want := [][]string{}
		any := false
		for _, l := range w.links {
			any = any || l[0] == "g"
			if l[0] == "g" && l[1] == v {
				want = append(want, l)
			}
		}
		if any {
			t.Check(same(rowSet(rows), rowSet(want)), "Filter of g.user == %q returned %q, links are %v", v, rows, w.linkList())
		}
	}
}

// rules that share a group of the index
func c02groups(t *T) {
	k := 2 + t.Intn(3)
	args := []string{"a", "b", "c", "d", "e"}[:k+1]
	m := model.NewModel()
	sep := t.Pick([]string{"", ",", ":", "|"})
	cat := []string{}
	perm := shuffle(t, args[:k])
	for _, a := range perm {
		cat = append(cat, "p."+a)
	}
	first := strings.Join(cat, " + '"+sep+"' + ")
	last := "p." + args[k] + " == r.y"
	text := "(" + first + ") == r.x && " + last
	if t.Chance(3) {
		text = last + " && (" + first + ") == r.x && p.a + p.b != r.y"
	}
	must(t, m.LoadModelFromText("[request_definition]\nr = x, y\n[policy_definition]\np = "+strings.Join(args, ", ")+"\n[policy_effect]\ne = some(where (p.eft == allow))\n[matchers]\nm = "+text+"\n"), "LoadModelFromText")
	t.Logf("matcher %s", text)
	e, err := fastac.NewEnforcer(m, nil)
	must(t, err, "NewEnforcer")
	vals := []string{"a", "b", "", sep, "a" + sep, "ab", "aa", "1:a", "!"}
	rules := [][]string{}
	for i := 0; i < 3+t.Intn(6+2*t.Size); i++ {
		r := []string{"p"}
		for range args {
			r = append(r, t.Pick(vals))
		}
		r[k+1] = t.Pick([]string{"u", "v"})
		if len(rules) > 0 && t.Chance(3) {
			i := t.Intn(len(rules))
			_, err := e.RemoveRule(clone(rules[i]))
			must(t, err, "RemoveRule")
			t.Logf("RemoveRule(%q)", rules[i])
			rules = append(rules[:i:i], rules[i+1:]...)
		}
		ok, err := e.AddRule(clone(r))
		must(t, err, "AddRule")
		t.Logf("AddRule(%q) = %v", r, ok)
		if ok {
			rules = append(rules, r)
		}
	}
	value := func(r []string) string {
		s := []string{}
		for _, a := range perm {
			s = append(s, r[1+strings.Index("abcde", a)])
		}
		return strings.Join(s, sep)
	}
	for i := 0; i < 6 && len(rules) > 0; i++ {
		req := []interface{}{value(rules[t.Intn(len(rules))]), t.Pick([]string{"u", "v"})}
		rows, err := e.Filter(req...)
		must(t, err, "Filter")
		want := [][]string{}
		for _, r := range rules {
			if value(r) == req[0] && r[k+1] == req[1] && (!strings.Contains(text, "!=") || r[1]+r[2] != req[1]) {
				want = append(want, r)
			}
		}
		t.Check(same(rowSet(rows), rowSet(want)), "Filter(%q) with matcher %s returned %q, expected %q; rules %q", req, text, rows, want, rules)
	}
}

func c03(t *T) {
	w := newWorld(t, worldOpt{eft: t.Chance(3), roles: true, eval: t.Chance(4), depth: 1 + t.Intn(3)})
	in := build(t, w)
	type built struct {
		n *Node
		m matcher.IMatcher
	}
	ms := []built{}
	mk := func() {
		n := w.genBool(t, 1+t.Intn(2), false)
		if w.pKey != "p" && !strings.Contains(n.text, w.pKey+".") {
			return
		}
		m, err := in.m.BuildMatcherFromDef(defs.NewMatcherDef("", n.text))
		must(t, err, "BuildMatcherFromDef "+n.text)
		t.Logf("matcher #%d = %s", len(ms), n.text)
		ms = append(ms, built{n, m})
	}
	mk()
	pool := [][]string{}
	for i := 0; i < 2+t.Intn(4); i++ {
		pool = append(pool, w.genRule(t))
	}
	steps := 5 + t.Intn(4+3*t.Size)
	for i := 0; i < steps; i++ {
		r := pool[t.Intn(len(pool))]
		switch k := t.Intn(20); {
		case k < 8:
			in.add(r)
		case k < 14:
			in.remove(r)
		case k < 15 && t.Chance(3):
			in.clear(w.pKey)
		case k < 16:
			mk()
		default:
			if w.g || w.g2 {
				l := w.genLink(t)
				if t.Chance(3) {
					for _, x := range w.links {
						l = x
						break
					}
				}
				if t.Chance(8) {
					in.clear(l[0])
				} else if t.Bool() {
					in.link(l)
				} else {
					in.unlink(l)
				}
			}
		}
		if t.Chance(3) {
			in.checkEnforce(w.matcher, nil, w.genReq(t))
			in.checkFilter(w.matcher, nil, w.genReq(t))
			if len(ms) > 0 {
				b := ms[t.Intn(len(ms))]
				in.checkFilter(b.n, b.m, w.genReq(t))
			}
		}
	}
	for i := 0; i < 3; i++ {
		req := w.genReq(t)
		in.checkFilter(w.matcher, nil, req)
		in.checkFilter(w.matcher, w.matcher.text, req) // built afresh
	}
	for _, b := range ms {
		in.checkFilter(b.n, b.m, w.genReq(t))
	}
}

func c04(t *T) {
	w := newWorld(t, worldOpt{consts: true, roles: t.Chance(3), depth: 1 + t.Intn(4)})
	in := build(t, w)
	if len(w.matcher.text) > 1500 {
		return
	}
	// one rule: the answer is the value of the expression
	r := w.genRule(t)
	in.add(r)
	if w.g || w.g2 {
		in.link(w.genLink(t))
		in.link(w.genLink(t))
	}
	t.Kind(fmt.Sprintf("operators=%d", min(10, strings.Count(w.matcher.text, "&&")+strings.Count(w.matcher.text, "||"))))
	for i := 0; i < 4; i++ {
		in.checkFilter(w.matcher, nil, w.genReq(t))
	}
	in.remove(r)
	in.add(w.genRule(t))
	for i := 0; i < 2; i++ {
		in.checkFilter(w.matcher, nil, w.genReq(t))
	}
}

// every constant reaches the function it is passed to unchanged, in every stage
func c04consts(t *T) {
	m := model.NewModel()
	must(t, m.LoadModelFromText("[request_definition]\nr = x\n[policy_definition]\np = y\n[policy_effect]\ne = some(where (p.eft == allow))\n"), "LoadModelFromText")
	type c struct {
		text string
		val  interface{}
	}
	seen := map[int][]interface{}{}
	consts := []c{}
	n := 1 + t.Intn(5)
	txt := ""
	alphabet := []string{"a", "'", "\"", "\\", "(", ")", "&&", "||", " ", "p.y", "r.x", ",", "p_y", "[", "]", "?", ":", "ü", "0", "eval", "g", "."}
	for i := 0; i < n; i++ {
		i := i
		var k c
		switch t.Intn(3) {
		case 0:
			f := []float64{0, 1, 1.5, 123456789, 1e21, 0.000001, 3.141592653589793, 100}[t.Intn(8)]
			k = c{fmt.Sprint(f), f}
			if strings.Contains(k.text, "e") {
				k.text = strings.TrimRight(strings.TrimRight(fmt.Sprintf("%f", f), "0"), ".")
			}
		default:
			s := ""
			for j := 0; j < t.Intn(6); j++ {
				s += t.Pick(alphabet)
			}
			k = c{strLit(t, s), s}
		}
		consts = append(consts, k)
		m.SetFunction(fmt.Sprintf("see%d", i), func(args ...interface{}) (interface{}, error) {
			seen[i] = append(seen[i], args...)
			return true, nil
		})
		if i > 0 {
			txt += " && "
		}
		txt += fmt.Sprintf("see%d(%s)", i, k.text)
		if t.Chance(3) {
			txt += " && p.y == r.x"
		}
	}
	t.Logf("matcher %s", txt)
	e, err := fastac.NewEnforcer(m, nil)
	must(t, err, "NewEnforcer")
	// what the expression language itself makes of the text
	direct := map[int][]interface{}{}
	fns := map[string]govaluate.ExpressionFunction{}
	for i := range consts {
		i := i
		fns[fmt.Sprintf("see%d", i)] = func(args ...interface{}) (interface{}, error) {
			direct[i] = append(direct[i], args...)
			return true, nil
		}
	}
	ex, err := govaluate.NewEvaluableExpressionWithFunctions(strings.ReplaceAll(txt, " && p.y == r.x", ""), fns)
	if err != nil {
		return
	}
	if _, err = ex.Evaluate(nil); err != nil {
		return
	}
	_, err = e.AddRule([]string{"p", "v"})
	must(t, err, "AddRule")
	_, err = e.Filter(fastac.SetMatcher(txt), "v")
	must(t, err, "Filter with "+txt)
	for i := range consts {
		t.Check(len(seen[i]) > 0 && fmt.Sprintf("%#v", seen[i]) == fmt.Sprintf("%#v", direct[i]), "constant %s of %q: function received %#v, the expression language passes %#v", consts[i].text, txt, seen[i], direct[i])
	}
}

func c05(t *T) {
	w := newWorld(t, worldOpt{bad: true, eval: t.Chance(5), roles: t.Chance(3), eft: t.Chance(2), depth: 1 + t.Intn(3)})
	in := build(t, w)
	n := 1 + t.Intn(4)
	for i := 0; i < n; i++ {
		r := w.genRule(t)
		if t.Chance(4) && len(r) > 1 {
			r = r[:1+t.Intn(len(r)-1)]
		}
		in.add(r)
	}
	for i := 0; i < 4; i++ {
		req := w.genReq(t)
		if t.Chance(4) {
			req = req[:t.Intn(len(req)+1)]
		}
		in.checkFilter(w.matcher, nil, req)
		in.checkEnforce(w.matcher, nil, req)
	}
}

type badEffector struct{ after int }

func (b *badEffector) MergeEffects(e []types.Effect, m [][]string, complete bool) (types.Effect, []string, error) {
	if len(e) > b.after || complete {
		return defs.NewPolicyDef("p", "eft").GetEft([]string{"allow"}), nil, fmt.Errorf("no decision")
	}
	return defs.NewPolicyDef("p", "eft").GetEft([]string{"x"}), nil, nil
}

func c05invalid(t *T) {
	w := newWorld(t, worldOpt{roles: true, eft: t.Bool(), depth: 1})
	in := build(t, w)
	in.fill(1 + t.Intn(4))
	before := snapshot(in.e)
	req := w.genReq(t)
	fails := func(what string, ok bool, err error) {
		t.Logf("%s = %v, %v", what, ok, err)
		t.Check(err != nil && !ok, "%s returned %v, %v; an error was expected", what, ok, err)
		after := snapshot(in.e)
		t.Check(before == after, "%s changed the model\n before %s\n after %s", what, before, after)
	}
	switch t.Intn(9) {
	case 0:
		ok, err := in.e.Enforce(append(append(in.opts(nil), fastac.SetEffector(&badEffector{t.Intn(2)})), req...)...)
		fails("Enforce with a failing effector", ok, err)
	case 1:
		k := t.Pick([]string{"m9", "r.sub == ", "(r.sub == p.sub", "q7.x == p8.sub"})
		ok, err := in.e.Enforce(append(in.opts(k), req...)...)
		fails(fmt.Sprintf("Enforce with matcher %q", k), ok, err)
	case 2:
		ok, err := in.e.Enforce(append([]interface{}{fastac.SetRequestDef("r9")}, req...)...)
		fails("Enforce with request definition r9", ok, err)
	case 3:
		row := [][]string{nil, {}, {""}, {"x", "a"}, {"p9", "a"}, {"g9", "a", "b"}, {"g9"}}[t.Intn(7)]
		ok, err := in.e.AddRule(row)
		fails(fmt.Sprintf("AddRule(%q)", row), ok, err)
	case 4:
		row := [][]string{nil, {}, {""}, {"x", "a"}, {"p9", "a"}, {"g9", "a", "b"}, {"g9"}}[t.Intn(7)]
		ok, err := in.e.RemoveRule(row)
		fails(fmt.Sprintf("RemoveRule(%q)", row), ok, err)
	case 5:
		if !w.g && !w.g2 {
			return
		}
		k := "g"
		if !w.g {
			k = "g2"
		}
		row := [][]string{{k}, {k, "a"}}[t.Intn(2)]
		ok, err := in.e.AddRule(row)
		fails(fmt.Sprintf("AddRule(%q)", row), ok, err)
		ok, err = in.e.RemoveRule(row)
		fails(fmt.Sprintf("RemoveRule(%q)", row), ok, err)
	case 6:
		if !w.g {
			return
		}
		// a matcher over a grouping policy can filter but not decide
		ok, err := in.e.Enforce(append(in.opts("g.user == 'alice'"), req...)...)
		fails("Enforce with a matcher of a grouping policy", ok, err)
	case 7:
		_, ok := in.m.GetRoleManager("g9")
		t.Check(!ok, "GetRoleManager(g9) reported a role manager")
		_, ok = in.m.GetRequestDef("r9")
		t.Check(!ok, "GetRequestDef(r9) reported a definition")
		_, ok = in.m.GetMatcher("m9")
		t.Check(!ok, "GetMatcher(m9) reported a matcher")
		_, ok = in.m.GetEffector("e9")
		t.Check(!ok, "GetEffector(e9) reported an effector")
		_, ok = in.m.GetPolicy("p9")
		t.Check(!ok, "GetPolicy(p9) reported a policy")
		fails("ClearPolicy(p9)", false, in.m.ClearPolicy("p9"))
	case 8:
		if !w.g {
			return
		}
		m := t.Pick([]string{"g('a')", "g()", "g(1, 'a')", "g('a', r." + "missing" + ")"})
		ok, err := in.e.Enforce(append(in.opts(m), req...)...)
		if w.pKey == "p" {
			fails("Enforce with matcher "+m, ok, err)
		}
	}
}
