package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/fastac/util"
)

func init() {
	register("C07",
		Part{Name: "reachability", N: 5000, Run: c07, Describe: "random link histories without patterns, HasLink of all pairs against bounded reachability"},
		Part{Name: "patterns", N: 5000, Run: c07pat, Describe: "random link histories with pattern names, HasLink of all pairs against bounded reachability"},
	)
	register("C08", Part{Name: "links", N: 6000, Run: c08, Describe: "random histories of links interleaved with queries, links, roles and users against a set of links"})
	register("C09",
		Part{Name: "domains", N: 3000, Run: c09, Describe: "random histories over nested domains against one link set per domain"},
		Part{Name: "domainpatterns", N: 3000, Run: c09pat, Describe: "links of domain patterns and plain domains"},
		Part{Name: "reserved", N: 2, Run: c09reserved, Serial: true, Fixed: true, Known: true, Describe: "domains with the names the domain manager uses itself"},
	)
	register("C10",
		Part{Name: "lru", N: 5000, Run: c10, Describe: "random Get and Put against a list ordered by last use"},
		Part{Name: "matching", N: 1500, Run: c10match, Describe: "pattern matching through the cache against the matching function"},
	)
}

type linkSet map[string][]string // key -> name1, name2, domains...

func (s linkSet) names() []string {
	m := map[string]bool{}
	for _, l := range s {
		m[l[0]], m[l[1]] = true, true
	}
	res := []string{}
	for k := range m {
		res = append(res, k)
	}
	sort.Strings(res)
	return res
}

// reach within max links; match(name, pattern) may be nil. Known names take
// part as intermediate names only.
func (s linkSet) reach(a, b string, max int, match func(string, string) bool, isPat func(string) bool, known []string, twice bool) bool {
	hit := func(x string) bool { return x == b || match != nil && match(x, b) }
	cur := map[string]bool{a: true}
	for i := 0; i <= max; i++ {
		next := map[string]bool{}
		for x := range cur {
			if hit(x) {
				return true
			}
			add := func(y string) {
				next[y] = true
				if match != nil && isPat(y) {
					for _, n := range known {
						if n != y && match(n, y) {
							next[n] = true
						}
					}
				}
			}
			for _, l := range s {
				if l[0] == x {
					add(l[1])
				} else if match != nil && isPat(l[0]) && match(x, l[0]) {
					if twice {
						add(l[1])
					} else {
						next[l[1]] = true
					}
				}
			}
		}
		cur = next
	}
	return hit(a)
}

func c07(t *T) {
	max := 2 + t.Intn(9)
	rm := rbac.NewRoleManager(max)
	n := 3 + t.Intn(10)
	names := []string{}
	for i := 0; i < n; i++ {
		names = append(names, fmt.Sprintf("n%d", i))
	}
	links := linkSet{}
	t.Logf("NewRoleManager(%d)", max)
	steps := 2 + t.Intn(3*n)
	if t.Chance(3) {
		// a long chain
		for i := 0; i+1 < n; i++ {
			l := []string{names[i], names[i+1]}
			_, _ = rm.AddLink(l[0], l[1])
			t.Logf("AddLink(%q)", l)
			links[key(l)] = l
		}
		steps = t.Intn(4)
	}
	for i := 0; i < steps; i++ {
		l := []string{t.Pick(names), t.Pick(names)}
		if t.Chance(4) {
			for _, x := range links {
				l = x
				break
			}
			_, err := rm.DeleteLink(l[0], l[1])
			must(t, err, "DeleteLink")
			t.Logf("DeleteLink(%q)", l)
			delete(links, key(l))
		} else {
			_, err := rm.AddLink(l[0], l[1])
			must(t, err, "AddLink")
			t.Logf("AddLink(%q)", l)
			links[key(l)] = l
		}
		if t.Chance(3) {
			a, b := t.Pick(names), t.Pick(names)
			got, err := rm.HasLink(a, b)
			must(t, err, "HasLink")
			want := links.reach(a, b, max-1, nil, nil, nil, false)
			t.Check(got == want, "HasLink(%s, %s) = %v, expected %v within %d links; links %v", a, b, got, want, max-1, links)
		}
	}
	for _, a := range append(names, "unknown") {
		for _, b := range append(names, "unknown") {
			got, err := rm.HasLink(a, b)
			must(t, err, "HasLink")
			want := links.reach(a, b, max-1, nil, nil, nil, false)
			t.Check(got == want, "HasLink(%s, %s) = %v, expected %v within %d links; links %v", a, b, got, want, max-1, links)
		}
	}
}

var patNames = []string{"/a/1", "/a/2", "/b/1", "/a/:id", "/*", "/a/*", "/b/:x", "x", "y", "z", "/c"}

func c07pat(t *T) {
	max := 2 + t.Intn(9)
	rm := rbac.NewRoleManager(max)
	var m util.IMatcher = util.PathMatcher
	names := append([]string{}, patNames...)
	if t.Bool() {
		// names ending with a star match every name with that prefix
		m = util.NewMatcher(func(s string) bool { return strings.HasSuffix(s, "*") }, func(s, p string) bool {
			return strings.HasSuffix(p, "*") && strings.HasPrefix(s, p[:len(p)-1])
		})
		names = []string{"a1", "a2", "b1", "a*", "b*", "ab1", "ab*", "x", "y", "z"}
	}
	late := t.Chance(3)
	if !late {
		rm.SetMatcher(m)
	}
	names = shuffle(t, names)[:3+t.Intn(len(names)-2)]
	links := linkSet{}
	for i := 0; i < 2+t.Intn(4+t.Size); i++ {
		l := []string{t.Pick(names), t.Pick(names)}
		if t.Chance(4) && len(links) > 0 {
			for _, x := range links {
				l = x
				break
			}
			_, err := rm.DeleteLink(l[0], l[1])
			must(t, err, "DeleteLink")
			t.Logf("DeleteLink(%q)", l)
			delete(links, key(l))
		} else {
			_, err := rm.AddLink(l[0], l[1])
			must(t, err, "AddLink")
			t.Logf("AddLink(%q)", l)
			links[key(l)] = l
		}
		if t.Chance(4) {
			_, _ = rm.HasLink(t.Pick(names), t.Pick(names)+t.Pick([]string{"", "q"}))
		}
	}
	if late {
		if t.Bool() {
			// a matching function may be replaced
			rm.SetMatcher(util.NewMatcher(func(s string) bool { return strings.HasPrefix(s, "/a") || strings.HasPrefix(s, "a") }, func(s, p string) bool {
				return len(s) == len(p) || strings.HasPrefix(p, s)
			}))
			t.Logf("SetMatcher of another matching function")
			for i := 0; i < 3; i++ {
				_, _ = rm.HasLink(t.Pick(names), t.Pick(names))
			}
			if t.Bool() {
				l := []string{t.Pick(names), t.Pick(names)}
				_, _ = rm.AddLink(l[0], l[1])
				t.Logf("AddLink(%q)", l)
				links[key(l)] = l
			}
		}
		rm.SetMatcher(m)
		t.Logf("SetMatcher")
	}
	t.Kind(fmt.Sprintf("links=%d", min(len(links), 6)))
	for _, a := range append(names, "/a/9", "a9") {
		for _, b := range append(names, "/a/9", "a9") {
			got, err := rm.HasLink(a, b)
			must(t, err, "HasLink")
			known := append(links.names(), a, b)
			lo := links.reach(a, b, max-1, m.Match, m.IsPattern, known, false)
			hi := links.reach(a, b, max-1, m.Match, m.IsPattern, append(known, names...), true)
			t.Check(!(lo && !got), "HasLink(%s, %s) = false, but a chain of at most %d links exists; links %v", a, b, max-1, links)
			t.Check(!(got && !hi), "HasLink(%s, %s) = true, but no chain of at most %d links exists; links %v", a, b, max-1, links)
		}
	}
}

type linkSnap struct {
	d    []string
	text string
}

// snapLinks lists the roles and users of names
func snapLinks(rm rbac.IRoleManager, names []string, d []string) linkSnap {
	s := linkSnap{d: d}
	for _, n := range names {
		r, err := rm.GetRoles(n, d...)
		u, err2 := rm.GetUsers(n, d...)
		sort.Strings(r)
		sort.Strings(u)
		s.text += fmt.Sprintf("%s < %q %v, > %q %v; ", n, r, err, u, err2)
	}
	return s
}

func c08(t *T) {
	var rm rbac.IRoleManager = rbac.NewRoleManager(10)
	dom := t.Chance(3)
	if dom {
		rm = rbac.NewDomainManager(10)
	}
	pat := !dom && t.Chance(3)
	names := []string{"a", "b", "c", "d", "e"}
	if pat {
		rm.(*rbac.RoleManager).SetMatcher(util.PathMatcher)
		names = []string{"/a/1", "/a/*", "/b", "x", "y"}
	}
	links := linkSet{}
	d := func() []string {
		if !dom {
			return nil
		}
		return [][]string{nil, {"d1"}, {"d2"}, {"d1", "d2"}}[t.Intn(4)]
	}
	verify := func() {
		rows := []string{}
		rm.Range(func(a, b string, dd ...string) bool {
			rows = append(rows, key(append([]string{a, b}, dd...)))
			return true
		})
		sort.Strings(rows)
		ex := []string{}
		for k := range links {
			ex = append(ex, k)
		}
		sort.Strings(ex)
		t.Check(same(rows, ex), "Range reports %s, links are %s", rows, ex)
		for i := 0; i < 2; i++ {
			dd := d()
			n := t.Pick(names)
			roles, err := rm.GetRoles(n, dd...)
			must(t, err, "GetRoles")
			if !pat {
				want := map[string]bool{}
				for _, l := range links {
					if l[0] == n && same(l[2:], dd) {
						want[l[1]] = true
					}
				}
				t.Check(len(roles) == len(want), "GetRoles(%s, %q) = %q, links %v", n, dd, roles, links)
				for _, r := range roles {
					t.Check(want[r], "GetRoles(%s, %q) = %q, links %v", n, dd, roles, links)
				}
			} else {
				for _, l := range links {
					t.Check(l[0] != n || has(roles, l[1]), "GetRoles(%s) = %q, links %v", n, roles, links)
				}
			}
			// both directions describe the same links
			known := links.names()
			for _, m := range names {
				users, err := rm.GetUsers(m, dd...)
				must(t, err, "GetUsers")
				if pat && (!has(known, m) || !has(known, n)) {
					continue // patterns are expanded to known names only
				}
				t.Check(has(users, n) == has(roles, m), "GetUsers(%s, %q) = %q but GetRoles(%s, %q) = %q", m, dd, users, n, dd, roles)
			}
		}
	}
	for i := 0; i < 3+t.Intn(4+2*t.Size); i++ {
		l := append([]string{t.Pick(names), t.Pick(names)}, d()...)
		_, had := links[key(l)]
		switch k := t.Intn(12); {
		case k < 5:
			ok, err := rm.AddLink(l[0], l[1], l[2:]...)
			t.Logf("AddLink(%q) = %v, %v", l, ok, err)
			must(t, err, "AddLink")
			t.Check(ok == !had, "AddLink(%q) returned %v, link was present: %v", l, ok, had)
			links[key(l)] = l
		case k < 8:
			ok, err := rm.DeleteLink(l[0], l[1], l[2:]...)
			t.Logf("DeleteLink(%q) = %v, %v", l, ok, err)
			must(t, err, "DeleteLink")
			t.Check(ok == had, "DeleteLink(%q) returned %v, link was present: %v", l, ok, had)
			delete(links, key(l))
		default:
			// queries, also of unknown names and domains
			before := snapLinks(rm, links.names(), d())
			n, m := t.Pick(append(names, "q1", "/a/7")), t.Pick(append(names, "q2", "/a/8"))
			dd := d()
			if dom && t.Chance(3) {
				dd = []string{"d9"}
			}
			got, err := rm.HasLink(n, m, dd...)
			must(t, err, "HasLink")
			t.Logf("HasLink(%s, %s, %q) = %v", n, m, dd, got)
			if !pat {
				sub := linkSet{}
				for k, l := range links {
					if same(l[2:], dd) {
						sub[k] = l
					}
				}
				want := sub.reach(n, m, 6, nil, nil, nil, false)
				t.Check(got == want, "HasLink(%s, %s, %q) = %v, expected %v; links %v", n, m, dd, got, want, links)
			}
			a, err := rm.GetRoles(n, dd...)
			must(t, err, "GetRoles")
			b, err := rm.GetRoles(n, dd...)
			must(t, err, "GetRoles")
			_, err = rm.GetUsers(m, dd...)
			must(t, err, "GetUsers")
			c, err := rm.GetRoles(n, dd...)
			must(t, err, "GetRoles")
			sort.Strings(a)
			sort.Strings(b)
			sort.Strings(c)
			t.Check(same(a, b) && same(b, c), "GetRoles(%s, %q) changes by asking: %q, %q, %q", n, dd, a, b, c)
			after := snapLinks(rm, links.names(), before.d)
			t.Check(before.text == after.text, "asking about %s and %s in %q changed the answers about other names\n before %s\n after %s", n, m, dd, before.text, after.text)
		}
		verify()
	}
	// the same links in a fresh manager give the same answers
	if !dom {
		fresh := rbac.NewRoleManager(10)
		if pat {
			fresh.SetMatcher(util.PathMatcher)
		}
		for _, l := range links {
			_, _ = fresh.AddLink(l[0], l[1])
		}
		for _, a := range append(names, "q1", "/a/7") {
			for _, b := range append(names, "q2", "/a/8") {
				x, _ := rm.HasLink(a, b)
				y, _ := fresh.HasLink(a, b)
				if !pat {
					t.Check(x == y, "HasLink(%s, %s) = %v, a fresh manager with the same links answers %v; links %v", a, b, x, y, links)
				}
			}
		}
	}
}

func domMatch(name, pattern string) bool { return util.PathMatch(name, pattern) }

func c09(t *T) {
	dm := rbac.NewDomainManager(10)
	rm := rbac.IRoleManager(dm)
	domains := [][]string{nil, {"d1"}, {"d2"}, {"d1", "s1"}, {"d1", "s2"}, {"d2", "s1"}, {"s1"}, {"d1", "s1", "u"}, {""}}
	names := []string{"a", "b", "c", "d"}
	links := linkSet{}
	check := func(all bool) {
		rows := []string{}
		rm.Range(func(a, b string, dd ...string) bool {
			rows = append(rows, key(append([]string{a, b}, dd...)))
			return true
		})
		sort.Strings(rows)
		ex := []string{}
		for k := range links {
			ex = append(ex, k)
		}
		sort.Strings(ex)
		t.Check(same(rows, ex), "Range reports %s, links are %s", rows, ex)
		for i, d := range domains {
			if !all && i != t.Intn(len(domains)) {
				continue
			}
			sub := linkSet{}
			for k, l := range links {
				if same(l[2:], d) {
					sub[k] = l
				}
			}
			for _, a := range names {
				for _, b := range names {
					got, err := rm.HasLink(a, b, d...)
					must(t, err, "HasLink")
					want := sub.reach(a, b, 5, nil, nil, nil, false)
					t.Check(got == want, "HasLink(%s, %s, %q) = %v, expected %v; links %v", a, b, d, got, want, links)
				}
				roles, err := rm.GetRoles(a, d...)
				must(t, err, "GetRoles")
				users, err := rm.GetUsers(a, d...)
				must(t, err, "GetUsers")
				wr, wu := []string{}, []string{}
				for _, l := range sub {
					if l[0] == a {
						wr = append(wr, l[1])
					}
					if l[1] == a {
						wu = append(wu, l[0])
					}
				}
				sort.Strings(roles)
				sort.Strings(users)
				sort.Strings(wr)
				sort.Strings(wu)
				t.Check(same(roles, wr), "GetRoles(%s, %q) = %q, links %v", a, d, roles, links)
				t.Check(same(users, wu), "GetUsers(%s, %q) = %q, links %v", a, d, users, links)
			}
		}
	}
	for i := 0; i < 3+t.Intn(4+2*t.Size); i++ {
		l := append([]string{t.Pick(names), t.Pick(names)}, domains[t.Intn(len(domains))]...)
		_, had := links[key(l)]
		if t.Chance(3) {
			if t.Bool() {
				for _, x := range links {
					l, had = x, true
					break
				}
			}
			ok, err := rm.DeleteLink(l[0], l[1], l[2:]...)
			t.Logf("DeleteLink(%q) = %v, %v", l, ok, err)
			must(t, err, "DeleteLink")
			t.Check(ok == had, "DeleteLink(%q) returned %v, link was present: %v", l, ok, had)
			delete(links, key(l))
		} else {
			ok, err := rm.AddLink(l[0], l[1], l[2:]...)
			t.Logf("AddLink(%q) = %v, %v", l, ok, err)
			must(t, err, "AddLink")
			t.Check(ok == !had, "AddLink(%q) returned %v, link was present: %v", l, ok, had)
			links[key(l)] = l
		}
		if t.Chance(3) {
			check(false)
		}
		if t.Chance(12) {
			t.Logf("Clear()")
			must(t, rm.Clear(), "Clear")
			links = linkSet{}
		}
	}
	if t.Chance(4) {
		// names without patterns: a matcher must not change anything
		dm.SetMatcher(util.PathMatcher)
		t.Logf("SetMatcher")
	}
	check(true)
}

// with domain patterns: a link of a pattern applies to the domains it matches, and only to those
func c09pat(t *T) {
	dm := rbac.NewDomainManager(10)
	late := t.Chance(3)
	if !late {
		dm.SetDomainMatcher(util.PathMatcher)
	}
	domains := []string{"d1", "/t/1", "/t/2", "/u/1", "/t/*", "/u/:x"}
	names := []string{"a", "b", "c", "d"}
	links := linkSet{}
	for i := 0; i < 2+t.Intn(3+t.Size); i++ {
		d := t.Pick(domains)
		l := []string{t.Pick(names), t.Pick(names), d}
		// the same link through a pattern and a plain domain is counted once
		clash := false
		for _, x := range links {
			if x[0] == l[0] && x[1] == l[1] && x[2] != d {
				clash = true
			}
		}
		if clash {
			continue
		}
		if _, had := links[key(l)]; had && t.Bool() {
			ok, err := dm.DeleteLink(l[0], l[1], d)
			must(t, err, "DeleteLink")
			t.Logf("DeleteLink(%q) = %v", l, ok)
			t.Check(ok, "DeleteLink(%q) of a present link returned false", l)
			delete(links, key(l))
		} else {
			ok, err := dm.AddLink(l[0], l[1], d)
			must(t, err, "AddLink")
			t.Logf("AddLink(%q) = %v", l, ok)
			links[key(l)] = l
		}
		if t.Chance(4) {
			_, _ = dm.HasLink(t.Pick(names), t.Pick(names), t.Pick(append(domains, "/t/3", "/v/*")))
		}
	}
	if late {
		dm.SetDomainMatcher(util.PathMatcher)
		t.Logf("SetDomainMatcher")
	}
	rows := []string{}
	dm.Range(func(a, b string, dd ...string) bool {
		rows = append(rows, key(append([]string{a, b}, dd...)))
		return true
	})
	sort.Strings(rows)
	ex := []string{}
	for k := range links {
		ex = append(ex, k)
	}
	sort.Strings(ex)
	t.Check(same(rows, ex), "Range reports %s, links are %s", rows, ex)
	for _, d := range append(domains, "/t/3", "d2", "/u/2") {
		sub := linkSet{}
		for k, l := range links {
			if l[2] == d || util.PathMatcher.IsPattern(l[2]) && !util.PathMatcher.IsPattern(d) && util.PathMatch(d, l[2]) {
				sub[k] = l
			}
		}
		for _, a := range names {
			for _, b := range names {
				got, err := dm.HasLink(a, b, d)
				must(t, err, "HasLink")
				want := sub.reach(a, b, 5, nil, nil, nil, false)
				t.Check(got == want, "HasLink(%s, %s, %s) = %v, expected %v; links %v", a, b, d, got, want, links)
			}
		}
	}
}

type cache interface {
	Get(key interface{}) (value interface{}, ok bool)
	Put(key interface{}, value interface{})
}

func c10(t *T) {
	capacity := 1 + t.Intn(5)
	var c cache = util.NewLRUCache(capacity)
	if t.Bool() {
		c = util.NewSyncLRUCache(capacity)
	}
	t.Logf("capacity %d", capacity)
	type entry struct {
		k, v interface{}
	}
	ref := []entry{} // most recently used first
	for i := 0; i < 5+4*t.Size; i++ {
		var k interface{} = t.Intn(capacity + 3)
		if t.Chance(4) {
			k = fmt.Sprint(k)
		}
		at := -1
		for j, e := range ref {
			if e.k == k {
				at = j
			}
		}
		if t.Bool() {
			var v interface{} = t.Intn(1000)
			if t.Chance(5) {
				v = nil
			}
			c.Put(k, v)
			t.Logf("Put(%#v, %v)", k, v)
			if at >= 0 {
				ref = append(ref[:at], ref[at+1:]...)
			} else if len(ref) >= capacity {
				ref = ref[:capacity-1]
			}
			ref = append([]entry{{k, v}}, ref...)
		} else {
			v, ok := c.Get(k)
			t.Logf("Get(%#v) = %v, %v", k, v, ok)
			t.Check(ok == (at >= 0), "Get(%#v) = %v, %v; entries by last use: %v", k, v, ok, ref)
			if at >= 0 {
				e := ref[at]
				t.Check(v == e.v, "Get(%#v) = %v, the value stored last is %v", k, v, e.v)
				ref = append(ref[:at], ref[at+1:]...)
				ref = append([]entry{e}, ref...)
			} else {
				t.Check(v == nil, "Get(%#v) missed but returned %v", k, v)
			}
		}
	}
	// all entries, least recently used first (so that the order is kept)
	for i := len(ref) - 1; i >= 0; i-- {
		v, ok := c.Get(ref[i].k)
		t.Check(ok && v == ref[i].v, "Get(%#v) = %v, %v; entries by last use: %v", ref[i].k, v, ok, ref)
	}
	n := 0
	for k := 0; k < capacity+3; k++ {
		for _, kk := range []interface{}{k, fmt.Sprint(k)} {
			if _, ok := c.Get(kk); ok {
				n++
			}
		}
	}
	t.Check(n == len(ref), "the cache holds %d entries, expected %d", n, len(ref))
}

func c10match(t *T) {
	// a matcher whose result depends on both texts, including separators
	match := func(s, p string) bool {
		return strings.HasPrefix(p, "*") && len(s)%3 == len(p)%3 && strings.Contains(s, strings.Trim(p[1:], "*"))
	}
	m := util.NewMatcher(func(s string) bool { return strings.HasPrefix(s, "*") }, match)
	rm := rbac.NewRoleManager(10)
	rm.SetMatcher(m)
	dm := rbac.NewDomainManager(10)
	dm.SetDomainMatcher(m)
	parts := []string{"a", "b", ",", ":", "1", "*", "|", "", "2:", "-", " ", "\x00"}
	word := func() string {
		s := ""
		for i := 0; i < t.Intn(4); i++ {
			s += t.Pick(parts)
		}
		return s
	}
	names := []string{}
	for i := 0; i < 10+10*t.Size; i++ {
		names = append(names, word(), "*"+word())
	}
	for i := 0; i < 40+40*t.Size; i++ {
		s, p := t.Pick(names), t.Pick(names)
		if i == 25 {
			// another matching function, answers of the former one must not survive
			old := match
			match = func(s, p string) bool { return strings.HasPrefix(p, "*") && !old(s, p) }
			m = util.NewMatcher(func(s string) bool { return strings.HasPrefix(s, "*") }, func(s, p string) bool { return match(s, p) })
			rm.SetMatcher(m)
			_, err := dm.AddLink("v", "w", "*x")
			must(t, err, "AddLink")
			_, err = dm.HasLink("v", "w", "x")
			must(t, err, "HasLink")
			dm.SetDomainMatcher(m)
			got, err := dm.HasLink("v", "w", "x")
			must(t, err, "HasLink")
			t.Check(got == match("x", "*x"), "HasLink(v, w, x) = %v with a link in domain *x, the new matching function says %v", got, match("x", "*x"))
		}
		if t.Chance(3) {
			// the same text divided differently
			x := s + t.Pick([]string{",", ":", "|", ""}) + p
			k := t.Intn(len(x) + 1)
			s, p = x[:k], x[k:]
		}
		got, err := rm.HasLink(s, p)
		must(t, err, "HasLink")
		t.Check(got == (s == p || match(s, p)), "HasLink(%q, %q) = %v, the matching function says %v", s, p, got, match(s, p))
	}
	// domains
	for i := 0; i < 5; i++ {
		d, p := t.Pick(names), "*"+word()
		_, err := dm.AddLink("u", "r", p)
		must(t, err, "AddLink")
		if !strings.HasPrefix(d, "*") {
			got, err := dm.HasLink("u", "r", d)
			must(t, err, "HasLink")
			want := match(d, p)
			t.Check(got == want, "HasLink(u, r, %q) = %v with a link in domain %q, the matching function says %v", d, got, p, want)
		}
		_, err = dm.DeleteLink("u", "r", p)
		must(t, err, "DeleteLink")
	}
}

// the names the domain manager uses itself, see known-findings.txt
func c09reserved(t *T) {
	d := []string{"RoleManager", "redundant_role"}[t.Index]
	dm := rbac.NewDomainManager(10)
	_, err := dm.AddLink("a", "b", d)
	must(t, err, "AddLink")
	got, err := dm.HasLink("a", "b")
	must(t, err, "HasLink")
	t.Check(!got, "HasLink(a, b) = true after AddLink(a, b, %s)", d)
}
