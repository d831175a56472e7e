package main

import (
	"errors"
	"fmt"
	"path"
	"sort"
	"strings"

	fastac "github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/defs"
	"github.com/abichinger/fastac/util"
)

func glob(name, pattern string) (bool, error) { return path.Match(pattern, name) }

// Inst is a real enforcer together with the world it should describe.
type Inst struct {
	t *T
	w *World
	m *model.Model
	e *fastac.Enforcer
}

func must(t *T, err error, what string) {
	if err != nil {
		t.Failf("%s: unexpected error: %v", what, err)
	}
}

func build(t *T, w *World) *Inst {
	in := &Inst{t: t, w: w}
	text := w.modelText(t)
	t.Logf("model:\n%s", text)
	in.m = model.NewModel()
	must(t, in.m.LoadModelFromText(text), "LoadModelFromText")
	for _, v := range append(append([]string{}, strVals...), trickyConsts...) {
		v := v
		in.m.SetFunction("isStr"+fmt.Sprintf("%x", v), func(args ...interface{}) (interface{}, error) {
			return len(args) == 1 && args[0] == interface{}(v), nil
		})
	}
	in.m.SetFunction("failing", func(args ...interface{}) (interface{}, error) {
		return true, errors.New("failing")
	})
	in.m.SetFunction("failOn", func(args ...interface{}) (interface{}, error) {
		if args[0] == "b" || args[0] == "bob" {
			return true, errors.New("failOn")
		}
		return true, nil
	})
	if w.matcher != nil {
		t.Logf("matcher %s = %s", w.mKey, w.matcher.text)
		must(t, in.m.SetDef('m', w.mKey, w.matcher.text), "SetDef matcher")
		must(t, in.m.BuildMatchers(), "BuildMatchers of "+w.matcher.text)
	}
	e, err := fastac.NewEnforcer(in.m, nil)
	must(t, err, "NewEnforcer")
	in.e = e
	return in
}

func clone(s []string) []string { return append([]string{}, s...) }

func (in *Inst) pRow(r []string) []string { return append([]string{in.w.pKey}, r...) }

func (in *Inst) add(r []string) {
	row := in.pRow(r)
	_, had := in.w.rules[key(r)]
	added, err := in.e.AddRule(clone(row))
	in.t.Logf("AddRule(%q) = %v, %v", row, added, err)
	must(in.t, err, fmt.Sprintf("AddRule(%q)", row))
	in.t.Check(added == !had, "AddRule(%q) returned %v, rule was present: %v", row, added, had)
	in.w.rules[key(r)] = clone(r)
}

func (in *Inst) remove(r []string) {
	row := in.pRow(r)
	_, had := in.w.rules[key(r)]
	removed, err := in.e.RemoveRule(clone(row))
	in.t.Logf("RemoveRule(%q) = %v, %v", row, removed, err)
	must(in.t, err, fmt.Sprintf("RemoveRule(%q)", row))
	in.t.Check(removed == had, "RemoveRule(%q) returned %v, rule was present: %v", row, removed, had)
	delete(in.w.rules, key(r))
}

func (in *Inst) link(l []string) {
	_, had := in.w.links[key(l)]
	added, err := in.e.AddRule(clone(l))
	in.t.Logf("AddRule(%q) = %v, %v", l, added, err)
	must(in.t, err, fmt.Sprintf("AddRule(%q)", l))
	in.t.Check(added == !had, "AddRule(%q) returned %v, link was present: %v", l, added, had)
	in.w.links[key(l)] = clone(l)
}

func (in *Inst) unlink(l []string) {
	_, had := in.w.links[key(l)]
	removed, err := in.e.RemoveRule(clone(l))
	in.t.Logf("RemoveRule(%q) = %v, %v", l, removed, err)
	must(in.t, err, fmt.Sprintf("RemoveRule(%q)", l))
	in.t.Check(removed == had, "RemoveRule(%q) returned %v, link was present: %v", l, removed, had)
	delete(in.w.links, key(l))
}

func (in *Inst) clear(k string) {
	in.t.Logf("ClearPolicy(%q)", k)
	must(in.t, in.m.ClearPolicy(k), "ClearPolicy")
	if k == in.w.pKey {
		in.w.rules = map[string][]string{}
		return
	}
	for id, l := range in.w.links {
		if l[0] == k {
			delete(in.w.links, id)
		}
	}
}

func rowSet(rows [][]string) []string {
	m := map[string]bool{}
	for _, r := range rows {
		m[key(r)] = true
	}
	res := []string{}
	for k := range m {
		res = append(res, k)
	}
	sort.Strings(res)
	return res
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// opts are the context options a request needs.
func (in *Inst) opts(m interface{}) []interface{} {
	res := []interface{}{}
	if in.w.rKey != "r" {
		res = append(res, fastac.SetRequestDef(in.w.rKey))
	}
	if m != nil {
		res = append(res, fastac.SetMatcher(m))
	}
	return res
}

// checkFilter compares Filter with the reference for expression n.
func (in *Inst) checkFilter(n *Node, m interface{}, req []interface{}) (match [][]string, ok bool) {
	t := in.t
	match, must, may := in.w.expected(n, req)
	want := [][]string{}
	for _, r := range match {
		want = append(want, in.pRow(r))
	}
	got, err := in.e.Filter(append(in.opts(m), req...)...)
	if err != nil {
		t.Check(may, "Filter%v with matcher %q failed: %v; every part of the matcher can be evaluated for every rule", req, n.text, err)
		return match, false
	}
	t.Check(!must, "Filter%v with matcher %q returned no error and %q, but the matcher can not be evaluated for some rule", req, n.text, got)
	g, x := rowSet(got), rowSet(want)
	t.Check(same(g, x), "Filter%v with matcher %q\n returned %s\n expected %s\n rules %q links %v", req, n.text, g, x, in.w.list(), in.w.linkList())
	return match, true
}

func (w *World) linkList() []string {
	res := []string{}
	for _, l := range w.links {
		res = append(res, strings.Join(l, " "))
	}
	sort.Strings(res)
	return res
}

func (in *Inst) checkEnforce(n *Node, m interface{}, req []interface{}) {
	t := in.t
	match, must, may := in.w.expected(n, req)
	got, err := in.e.Enforce(append(in.opts(m), req...)...)
	if err != nil {
		t.Check(may, "Enforce%v with matcher %q failed: %v; every part of the matcher can be evaluated for every rule", req, n.text, err)
		t.Check(!got, "Enforce%v allowed together with error %v", req, err)
		return
	}
	if may && in.w.effect == "some" && got {
		// the decision may be known before the failing rule is reached
		for _, r := range match {
			if in.w.eftOf(r) == "allow" {
				return
			}
		}
	}
	if may && !got && in.w.effect != "some" {
		for _, r := range match {
			if in.w.eftOf(r) == "deny" {
				return
			}
		}
	}
	t.Check(!must, "Enforce%v with matcher %q returned %v and no error, but the matcher can not be evaluated; rules %q", req, n.text, got, in.w.list())
	want := in.w.decide(match)
	t.Check(got == want, "Enforce%v with matcher %q, effect %q\n returned %v, expected %v\n matching rules %q\n rules %q links %v", req, n.text, in.w.effectText, got, want, match, in.w.list(), in.w.linkList())
}

func (in *Inst) fill(n int) {
	for i := 0; i < n; i++ {
		in.add(in.w.genRule(in.t))
	}
	if in.w.g || in.w.g2 {
		for i := 0; i < in.t.Intn(n+2); i++ {
			in.link(in.w.genLink(in.t))
		}
	}
}

var _ = defs.NewMatcherDef
var _ = util.Hash
