package main

import (
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"

	fastac "github.com/abichinger/fastac"
	"github.com/abichinger/fastac/api"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/defs"
	"github.com/abichinger/fastac/model/policy"
	"github.com/abichinger/fastac/storage"
	"github.com/abichinger/fastac/storage/adapter"
	"github.com/abichinger/fastac/util"
)

func init() {
	register("C11", Part{Name: "flush", N: 8000, Run: c11, Describe: "random changes, flushes and adapter failures, calls received by the adapter against the queue of changes"})
	register("C12", Part{Name: "recording", N: 8000, Run: c12, Describe: "random changes, options and loads, calls received by the adapter against the changes made while enabled"})
	register("C13",
		Part{Name: "roundtrip", N: 6000, Run: c13, Describe: "random rules with special characters saved and loaded"},
		Part{Name: "changes", N: 2500, Run: c13changes, Describe: "random additions and removals through the file adapter"},
	)
	register("C14", Part{Name: "paths", N: 60000, Run: c14, Describe: "random paths and patterns against the alignment of segments"},
		Part{Name: "all", N: 1, Fixed: true, Run: c14all, Describe: "all paths and patterns of up to five segments over a small alphabet (exhaustive)"})
	register("C19",
		Part{Name: "failure", N: 800, Run: c19, Describe: "content of the policy file while and after a save that fails or succeeds"},
		Part{Name: "crash", N: 40, Run: c19crash, Describe: "saves in a child process that is killed or runs out of file space"},
	)
	children["save"] = saveChild
}

// ---------- storage controller ----------

type call struct {
	op   string
	rows []string
}

type recorder struct {
	calls  []call
	failAt map[int]bool // indices of calls that fail
	n      int
	rules  [][]string
	broken bool // fail every call
	noload bool // loading fails after the first rule
	t      *T
}

func (r *recorder) LoadPolicy(m api.IAddRuleBool) error {
	if r.noload && len(r.rules) == 0 {
		return errors.New("load failed")
	}
	for i, x := range r.rules {
		if r.noload && i == len(r.rules)-1 {
			return errors.New("load failed")
		}
		if _, err := m.AddRule(clone(x)); err != nil {
			return err
		}
	}
	return nil
}

func (r *recorder) SavePolicy(m api.IRangeRules) error {
	m.RangeRules(func([]string) bool { return true })
	return nil
}

func (r *recorder) take(op string, rows [][]string) error {
	i := r.n
	r.n++
	if r.failAt[i] || r.broken {
		return errors.New("rejected")
	}
	c := call{op: op}
	for _, x := range rows {
		c.rows = append(c.rows, key(x))
	}
	r.calls = append(r.calls, c)
	return nil
}

type simple struct{ *recorder }

func (s simple) AddRule(rule []string) error    { return s.take("add", [][]string{rule}) }
func (s simple) RemoveRule(rule []string) error { return s.take("remove", [][]string{rule}) }

type batch struct{ *recorder }

func (s batch) AddRules(rules [][]string) error {
	if len(rules) == 0 {
		s.t.Failf("empty batch")
	}
	return s.take("add", rules)
}
func (s batch) RemoveRules(rules [][]string) error {
	if len(rules) == 0 {
		s.t.Failf("empty batch")
	}
	return s.take("remove", rules)
}

const storeModel = "[request_definition]\nr = a\n[policy_definition]\np = a, b\n[role_definition]\ng = _, _\n[policy_effect]\ne = some(where (p.eft == allow))\n[matchers]\nm = r.a == p.a\n"

func newStoreModel(t *T) *model.Model {
	m := model.NewModel()
	must(t, m.LoadModelFromText(storeModel), "LoadModelFromText")
	return m
}

func storeRow(t *T) []string {
	if t.Chance(4) {
		return []string{"g", t.Pick([]string{"a", "b"}), t.Pick([]string{"a", "b"})}
	}
	return []string{"p", t.Pick([]string{"a", "b", ""}), t.Pick([]string{"a", "b"})}
}

func flat(calls []call) []string {
	res := []string{}
	for _, c := range calls {
		for _, r := range c.rows {
			res = append(res, c.op+" "+r)
		}
	}
	return res
}

func c11(t *T) {
	rec := &recorder{t: t, failAt: map[int]bool{}}
	for i := 0; i < t.Intn(6); i++ {
		rec.failAt[t.Intn(15)] = true
	}
	var ad storage.Adapter = simple{rec}
	isBatch := t.Bool()
	if isBatch {
		ad = batch{rec}
	}
	m := newStoreModel(t)
	e, err := fastac.NewEnforcer(m, ad)
	must(t, err, "NewEnforcer")
	pending := []string{} // changes not yet accepted
	accepted := []string{}
	present := map[string]bool{}
	change := func() {
		r := storeRow(t)
		k := key(r)
		if t.Chance(3) {
			ok, err := e.RemoveRule(clone(r))
			must(t, err, "RemoveRule")
			t.Logf("RemoveRule(%q) = %v", r, ok)
			if ok {
				pending = append(pending, "remove "+k)
				delete(present, k)
			}
		} else {
			ok, err := e.AddRule(clone(r))
			must(t, err, "AddRule")
			t.Logf("AddRule(%q) = %v", r, ok)
			if ok {
				pending = append(pending, "add "+k)
				present[k] = true
			}
		}
	}
	for i := 0; i < 4+2*t.Size; i++ {
		if t.Chance(4) {
			// several at once
			rows := [][]string{}
			for j := 0; j < 1+t.Intn(4); j++ {
				rows = append(rows, storeRow(t))
			}
			if t.Chance(3) {
				must(t, e.RemoveRules(rows), "RemoveRules")
				for _, r := range rows {
					if present[key(r)] {
						pending = append(pending, "remove "+key(r))
						delete(present, key(r))
					}
				}
			} else {
				must(t, e.AddRules(rows), "AddRules")
				for _, r := range rows {
					if !present[key(r)] {
						pending = append(pending, "add "+key(r))
						present[key(r)] = true
					}
				}
			}
			t.Logf("rules %q", rows)
		} else {
			change()
		}
		if t.Chance(3) || i == 3+2*t.Size {
			from := len(rec.calls)
			err := e.Flush()
			t.Logf("Flush() = %v", err)
			failed := false
			for _, c := range rec.calls[from:] {
				for _, r := range c.rows {
					t.Check(len(pending) > 0 && pending[0] == c.op+" "+r, "the adapter received %q out of order; pending changes %q", c.op+" "+r, pending)
					accepted = append(accepted, pending[0])
					pending = pending[1:]
				}
				t.Check(len(c.rows) > 0, "empty batch")
			}
			failed = len(pending) > 0
			t.Check((err != nil) == failed, "Flush() = %v with pending changes %q", err, pending)
			if failed {
				t.Check(rec.failAt[rec.n-1], "Flush() = %v although the adapter accepted its last call; pending changes %q", err, pending)
			}
			t.Check(same(flat(rec.calls), accepted), "the adapter received %q, expected %q", flat(rec.calls), accepted)
		}
	}
	rec.failAt = nil
	must(t, e.Flush(), "final Flush")
	accepted = append(accepted, pending...)
	t.Check(same(flat(rec.calls), accepted), "the adapter received %q, expected %q", flat(rec.calls), accepted)
	n := len(rec.calls)
	must(t, e.Flush(), "Flush without changes")
	t.Check(len(rec.calls) == n, "a flush without changes called the adapter")
}

func c12(t *T) {
	rec := &recorder{t: t}
	var ad storage.Adapter = simple{rec}
	if t.Bool() {
		ad = batch{rec}
	}
	for i := 0; i < t.Intn(4); i++ {
		rec.rules = append(rec.rules, storeRow(t))
	}
	m := newStoreModel(t)
	opts := []fastac.Option{}
	enabled, auto := true, false
	if t.Chance(3) {
		enabled = t.Bool()
		opts = append(opts, fastac.OptionStorage(enabled))
	}
	if t.Chance(3) {
		auto = t.Bool()
		opts = append(opts, fastac.OptionAutosave(auto))
	}
	e, err := fastac.NewEnforcer(m, ad, opts...)
	must(t, err, "NewEnforcer")
	t.Logf("enabled %v autosave %v", enabled, auto)
	expected := []string{} // handed over
	pending := []string{}
	sync := func(what string) {
		got := flat(rec.calls)
		t.Check(same(got, expected), "after %s the adapter received %q, expected %q", what, got, expected)
		t.Check(e.GetStorageController().Enabled() == enabled, "after %s Enabled() = %v, expected %v", what, !enabled, enabled)
		t.Check(e.GetStorageController().AutosaveEnabled() == auto, "after %s AutosaveEnabled() = %v, expected %v", what, !auto, auto)
	}
	note := func(s string) {
		if !enabled {
			return
		}
		pending = append(pending, s)
		if auto {
			expected = append(expected, pending...)
			pending = pending[:0]
		}
	}
	present := map[string]bool{}
	sync("NewEnforcer")
	for i := 0; i < 4+3*t.Size; i++ {
		what := ""
		switch t.Intn(12) {
		case 0, 1, 2, 3:
			r := storeRow(t)
			ok, err := e.AddRule(clone(r))
			must(t, err, "AddRule")
			what = fmt.Sprintf("AddRule(%q) = %v", r, ok)
			t.Check(ok == !present[key(r)], "%s, present %v", what, present[key(r)])
			present[key(r)] = true
			if ok {
				note("add " + key(r))
			}
		case 4, 5:
			r := storeRow(t)
			ok, err := e.RemoveRule(clone(r))
			must(t, err, "RemoveRule")
			what = fmt.Sprintf("RemoveRule(%q) = %v", r, ok)
			t.Check(ok == present[key(r)], "%s, present %v", what, present[key(r)])
			delete(present, key(r))
			if ok {
				note("remove " + key(r))
			}
		case 6:
			rows := [][]string{storeRow(t), storeRow(t), storeRow(t)}
			rem := t.Chance(3)
			if rem {
				must(t, e.RemoveRules(rows), "RemoveRules")
			} else {
				must(t, e.AddRules(rows), "AddRules")
			}
			what = fmt.Sprintf("AddRules/RemoveRules(%q) remove=%v", rows, rem)
			if auto {
				// with autosave they end with a flush
				expected = append(expected, pending...)
				pending = pending[:0]
			}
			for _, r := range rows {
				if rem && present[key(r)] {
					note("remove " + key(r))
					delete(present, key(r))
				} else if !rem && !present[key(r)] {
					note("add " + key(r))
					present[key(r)] = true
				}
			}
		case 7:
			enabled = t.Bool()
			must(t, e.SetOption(fastac.OptionStorage(enabled)), "OptionStorage")
			what = fmt.Sprintf("OptionStorage(%v)", enabled)
		case 8:
			auto = t.Bool()
			must(t, e.SetOption(fastac.OptionAutosave(auto)), "OptionAutosave")
			what = fmt.Sprintf("OptionAutosave(%v)", auto)
		case 9:
			must(t, e.Flush(), "Flush")
			expected = append(expected, pending...)
			pending = pending[:0]
			what = "Flush()"
		case 10:
			rec.noload = t.Chance(3)
			err := e.LoadPolicy()
			t.Check((err != nil) == rec.noload, "LoadPolicy() = %v, the adapter fails: %v", err, rec.noload)
			for i, r := range rec.rules {
				if !rec.noload || i < len(rec.rules)-1 {
					present[key(r)] = true
				}
			}
			what = fmt.Sprintf("LoadPolicy() = %v", err)
		case 11:
			if t.Bool() {
				must(t, e.SavePolicy(), "SavePolicy")
				what = "SavePolicy()"
			} else {
				if len(pending) > 0 {
					continue
				}
				e.SetAdapter(ad)
				enabled = true
				what = "SetAdapter()"
			}
		}
		t.Logf("%s", what)
		sync(what)
	}
	must(t, e.Flush(), "Flush")
	expected = append(expected, pending...)
	sync("the final Flush")
}

// ---------- file adapter ----------

var fileVals = []string{"alice", "a,b", "\"", "a\"b", " lead", "trail ", "#", "#x", "", "\n", "a\nb", "\r", "a\rb", "\t", "é", "\"quoted\"", ",", "'", "\\", " ", "a b", "\u00a0x", "\ufeff", "x#y", ";", "\"\"", "\r\n", "a\n\nb", "\n#"}

func fileRow(t *T) []string {
	r := []string{}
	for i := 0; i < 1+t.Intn(4); i++ {
		v := t.Pick(fileVals)
		if t.Chance(4) {
			v += t.Pick(fileVals)
		}
		if t.Chance(50) {
			v += strings.Repeat("x", 5000)
		}
		r = append(r, v)
	}
	return r
}

func hasCRLF(r []string) bool {
	for _, v := range r {
		if strings.Contains(v, "\r\n") {
			return true
		}
	}
	return false
}

func rowsOf(m api.IRangeRules) []string {
	res := []string{}
	m.RangeRules(func(r []string) bool { res = append(res, key(r)); return true })
	sort.Strings(res)
	return res
}

func load(t *T, a *adapter.FileAdapter) []string {
	rs := adapter.NewRuleSet()
	must(t, a.LoadPolicy(rs), "LoadPolicy")
	return rowsOf(rs)
}

func c13(t *T) {
	dir, err := os.MkdirTemp(t.Dir, "c13")
	must(t, err, "MkdirTemp")
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "policy.csv")
	a := adapter.NewFileAdapter(path)
	if t.Chance(3) {
		// through an enforcer
		m := model.NewModel()
		must(t, m.LoadModelFromText("[policy_definition]\np = a, b\np2 = a\n[role_definition]\ng = _, _\ng2 = _, _, _\n"), "LoadModelFromText")
		e, err := fastac.NewEnforcer(m, a)
		must(t, err, "NewEnforcer")
		for i := 0; i < t.Intn(2+t.Size); i++ {
			v := func() string {
				s := t.Pick(fileVals)
				return strings.ReplaceAll(s, "\r\n", "")
			}
			r := [][]string{{"p", v(), v()}, {"p2", v()}, {"g", v(), v()}, {"g2", v(), v(), v()}}[t.Intn(4)]
			_, err := e.AddRule(r)
			must(t, err, "AddRule")
			t.Logf("AddRule(%q)", r)
		}
		must(t, e.SavePolicy(), "SavePolicy")
		m2 := model.NewModel()
		must(t, m2.LoadModelFromText("[policy_definition]\np = a, b\np2 = a\n[role_definition]\ng = _, _\ng2 = _, _, _\n"), "LoadModelFromText")
		_, err = fastac.NewEnforcer(m2, path)
		must(t, err, "NewEnforcer with the saved file")
		x, y := rowsOf(m), rowsOf(m2)
		b, _ := os.ReadFile(path)
		t.Check(same(x, y), "saved %s\nloaded %s\nfile %q", x, y, b)
		return
	}
	rs := adapter.NewRuleSet()
	bad := false
	for i := 0; i < t.Intn(2+t.Size); i++ {
		r := fileRow(t)
		if len(r) == 1 && r[0] == "" && t.Bool() {
			continue
		}
		_, _ = rs.AddRule(r)
		t.Logf("rule %q", r)
		bad = bad || hasCRLF(r)
	}
	want := rowsOf(rs)
	err = a.SavePolicy(rs)
	if err != nil {
		t.Check(bad, "SavePolicy failed: %v; rules %s", err, want)
		return
	}
	got := load(t, a)
	b, _ := os.ReadFile(path)
	t.Check(same(got, want), "saved %s\nloaded %s\nfile %q", want, got, b)
	// one rule per line through LoadPolicyLine
	if len(want) == 1 {
		line := strings.TrimSuffix(string(b), "\n")
		rs2 := adapter.NewRuleSet()
		if err := adapter.LoadPolicyLine(line, rs2); err == nil && !strings.Contains(line, "\n") {
			t.Check(same(rowsOf(rs2), want), "LoadPolicyLine(%q) loaded %s, expected %s", line, rowsOf(rs2), want)
		}
	}
}

func c13changes(t *T) {
	dir, err := os.MkdirTemp(t.Dir, "c13")
	must(t, err, "MkdirTemp")
	defer os.RemoveAll(dir)
	a := adapter.NewFileAdapter(filepath.Join(dir, "policy.csv"))
	must(t, a.SavePolicy(adapter.NewRuleSet()), "SavePolicy")
	set := map[string]bool{}
	pool := [][]string{}
	for i := 0; i < 3+t.Intn(3); i++ {
		r := fileRow(t)
		for hasCRLF(r) {
			r = fileRow(t)
		}
		pool = append(pool, r)
	}
	some := func() [][]string {
		res := [][]string{}
		for i := 0; i < t.Intn(4); i++ {
			res = append(res, pool[t.Intn(len(pool))])
		}
		return res
	}
	for i := 0; i < 3+t.Size; i++ {
		r := pool[t.Intn(len(pool))]
		switch t.Intn(5) {
		case 0, 1:
			must(t, a.AddRule(clone(r)), "AddRule")
			t.Logf("AddRule(%q)", r)
			set[key(r)] = true
		case 2:
			must(t, a.RemoveRule(clone(r)), "RemoveRule")
			t.Logf("RemoveRule(%q)", r)
			delete(set, key(r))
		case 3:
			rs := some()
			must(t, a.AddRules(rs), "AddRules")
			t.Logf("AddRules(%q)", rs)
			for _, r := range rs {
				set[key(r)] = true
			}
		case 4:
			rs := some()
			must(t, a.RemoveRules(rs), "RemoveRules")
			t.Logf("RemoveRules(%q)", rs)
			for _, r := range rs {
				delete(set, key(r))
			}
		}
		want := []string{}
		for k := range set {
			want = append(want, k)
		}
		sort.Strings(want)
		got := load(t, a)
		t.Check(same(got, want), "the file holds %s, expected %s", got, want)
	}
}

// ---------- interrupted saves ----------

type ruleList struct {
	rules [][]string
	hook  func(i int)
}

func (l *ruleList) RangeRules(fn func(rule []string) bool) {
	for i, r := range l.rules {
		if l.hook != nil {
			l.hook(i)
		}
		if !fn(r) {
			return
		}
	}
	if l.hook != nil {
		l.hook(len(l.rules))
	}
}

func bigRules(n, seed int) [][]string {
	res := [][]string{}
	for i := 0; i < n; i++ {
		res = append(res, []string{"p", fmt.Sprintf("user%d-%d", seed, i), strings.Repeat("x", i%97), "read"})
	}
	return res
}

func rulesKey(rules [][]string) []string { return rowSet(rules) }

func c19(t *T) {
	dir, err := os.MkdirTemp(t.Dir, "c19")
	must(t, err, "MkdirTemp")
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "policy.csv")
	a := adapter.NewFileAdapter(path)
	old := bigRules(t.Intn(200), 1)
	must(t, a.SavePolicy(&ruleList{rules: old}), "SavePolicy")
	before, err := os.ReadFile(path)
	must(t, err, "ReadFile")
	next := bigRules(1+t.Intn(300), 2)
	fails := t.Bool()
	if fails {
		next[t.Intn(len(next))][1] = "line\r\nbreak"
	}
	pan := t.Chance(4)
	at := t.Intn(len(next) + 1)
	unchanged := func(when string) {
		b, err := os.ReadFile(path)
		t.Check(err == nil && string(b) == string(before), "%s the policy file holds %d bytes (%v), the previous rules are %d bytes", when, len(b), err, len(before))
	}
	l := &ruleList{rules: next, hook: func(i int) {
		if i%7 == 0 || i > len(next)-3 {
			unchanged(fmt.Sprintf("during a save, at rule %d of %d,", i, len(next)))
		}
		if pan && i == at {
			panic("stopped")
		}
	}}
	t.Logf("old rules %d, new rules %d, failing %v, panic %v at %d", len(old), len(next), fails, pan, at)
	if pan {
		stopped := func() (s bool) {
			defer func() {
				if r := recover(); r != nil {
					if f, ok := r.(failure); ok {
						panic(f)
					}
					s = true
				}
			}()
			err = a.SavePolicy(l)
			return false
		}()
		if stopped {
			unchanged("after an interrupted save")
			return
		}
	} else {
		err = a.SavePolicy(l)
	}
	if err != nil {
		t.Check(fails, "SavePolicy failed: %v", err)
		unchanged("after a failed save")
		es, _ := os.ReadDir(dir)
		t.Check(len(es) == 1, "a failed save left %d files", len(es))
		return
	}
	t.Check(!fails, "SavePolicy accepted a value it can not represent")
	t.Check(same(load(t, a), rulesKey(next)), "after the save the file does not hold the new rules")
	// a target that can not be replaced
	if t.Chance(3) {
		d2 := filepath.Join(dir, "sub")
		must(t, os.Mkdir(d2, 0755), "Mkdir")
		must(t, os.Mkdir(filepath.Join(d2, "policy.csv"), 0755), "Mkdir")
		err := adapter.NewFileAdapter(filepath.Join(d2, "policy.csv")).SavePolicy(&ruleList{rules: old})
		t.Check(err != nil, "SavePolicy to a directory returned no error")
		err = adapter.NewFileAdapter(filepath.Join(dir, "missing", "policy.csv")).SavePolicy(&ruleList{rules: old})
		t.Check(err != nil, "SavePolicy into a missing directory returned no error")
	}
}

// saveChild PATH N LIMIT KILLAT: saves N rules, optionally with a file size limit or ending at a rule
func saveChild(args []string) {
	n, _ := strconv.Atoi(args[1])
	limit, _ := strconv.Atoi(args[2])
	kill, _ := strconv.Atoi(args[3])
	l := &ruleList{rules: bigRules(n, 3)}
	if kill >= 0 {
		l.hook = func(i int) {
			if i == kill {
				_ = syscall.Kill(os.Getpid(), syscall.SIGKILL)
				select {}
			}
		}
	}
	if limit >= 0 {
		lim := syscall.Rlimit{Cur: uint64(limit), Max: uint64(limit)}
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
			os.Exit(9)
		}
	}
	var err error
	switch args[4] {
	case "add":
		err = adapter.NewFileAdapter(args[0]).AddRules(l.rules)
	case "add1":
		err = adapter.NewFileAdapter(args[0]).AddRule(l.rules[0])
	case "remove":
		err = adapter.NewFileAdapter(args[0]).RemoveRules(bigRules(n, 1))
	case "remove1":
		err = adapter.NewFileAdapter(args[0]).RemoveRule(bigRules(n, 1)[n-1])
	default:
		err = adapter.NewFileAdapter(args[0]).SavePolicy(l)
	}
	if err != nil {
		os.Exit(7)
	}
	os.Exit(0)
}

func c19crash(t *T) {
	dir, err := os.MkdirTemp(t.Dir, "c19")
	must(t, err, "MkdirTemp")
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "policy.csv")
	a := adapter.NewFileAdapter(path)
	old := bigRules(1+t.Intn(400), 1)
	must(t, a.SavePolicy(&ruleList{rules: old}), "SavePolicy")
	st, _ := os.Stat(path)
	n := 1 + t.Intn(800)
	limit, kill := -1, -1
	mode := "save"
	sys := ""
	switch t.Index % 4 {
	case 0:
		limit = t.Intn(int(st.Size()) + n*60)
		if t.Chance(4) {
			limit = 0
		}
	case 1:
		kill = t.Intn(n + 1)
	case 2:
		mode = t.Pick([]string{"add", "add1", "remove", "remove1"})
		limit = t.Intn(int(st.Size()) + n*60)
		if mode != "add" {
			limit = t.Intn(int(st.Size()) + 100)
		}
	case 3:
		mode = t.Pick([]string{"save", "save", "add1", "remove", "remove1"})
		sys = fmt.Sprintf("write,rename,renameat,renameat2,close,openat,truncate,ftruncate,unlink,unlinkat,fsync:signal=KILL:when=%d", 1+t.Intn(14))
	}
	args := []string{"-child", "save", path, fmt.Sprint(n), fmt.Sprint(limit), fmt.Sprint(kill), mode}
	var cmd *exec.Cmd
	if strace, err := exec.LookPath("strace"); sys != "" && err == nil {
		cmd = exec.Command(strace, append([]string{"-f", "-qq", "-o", "/dev/null", "-P", path, "-P", path + ".tmp", "-e", "inject=" + sys, os.Args[0]}, args...)...)
	} else {
		cmd = exec.Command(os.Args[0], args...)
	}
	err = cmd.Run()
	code := cmd.ProcessState.ExitCode()
	t.Logf("old rules %d, new rules %d, file size limit %d, killed at rule %d, killed at call %q, mode %s: exit code %d", len(old), n, limit, kill, sys, mode, code)
	t.Kind(fmt.Sprintf("mode %d exit %d", t.Index%4, code))
	got := load(t, a)
	o := rulesKey(old)
	x := rulesKey(bigRules(n, 3))
	switch mode {
	case "add":
		x = rulesKey(append(append([][]string{}, old...), bigRules(n, 3)...))
	case "add1":
		x = rulesKey(append(append([][]string{}, old...), bigRules(n, 3)[0]))
	case "remove", "remove1":
		rest := [][]string{}
		for i, r := range old {
			if i >= n || mode == "remove1" && i != n-1 {
				rest = append(rest, r)
			}
		}
		x = rulesKey(rest)
	}
	switch {
	case code == 7:
		t.Check(same(got, o), "after a failed save the file holds %d rules, the previous rules are %d", len(got), len(o))
	case code == 0:
		t.Check(same(got, x), "after a save the file holds %d rules, expected %d", len(got), len(x))
	default:
		t.Check(same(got, o) || same(got, x), "after a crash the file holds %d rules: neither the previous %d nor the new %d rules", len(got), len(o), len(x))
	}
}

// ---------- path patterns ----------

func align(path, pat []string, pre, suf string) bool {
	if len(pat) == 0 {
		return len(path) == 0
	}
	if len(path) == 0 {
		return false
	}
	p := pat[0]
	if p == "*" {
		for k := 1; k <= len(path); k++ {
			if align(path[k:], pat[1:], pre, suf) {
				return true
			}
		}
		return false
	}
	if named(p, pre, suf) || p == path[0] {
		return align(path[1:], pat[1:], pre, suf)
	}
	return false
}

func named(p, pre, suf string) bool {
	return p != "" && strings.HasPrefix(p, pre) && strings.HasSuffix(p, suf)
}

func checkPath(t *T, path, pat string) {
	want := path == pat || align(strings.Split(path, "/"), strings.Split(pat, "/"), ":", "")
	got := util.PathMatch(path, pat)
	t.Check(got == want, "PathMatch(%q, %q) = %v, expected %v", path, pat, got, want)
	want = path == pat || align(strings.Split(path, "/"), strings.Split(pat, "/"), "{", "}")
	got = util.PathMatch2(path, pat)
	t.Check(got == want, "PathMatch2(%q, %q) = %v, expected %v", path, pat, got, want)
	is := func(pre, suf string) bool {
		for _, s := range strings.Split(pat, "/") {
			if s == "*" || named(s, pre, suf) {
				return true
			}
		}
		return false
	}
	t.Check(util.IsPathPattern(pat) == is(":", ""), "IsPathPattern(%q) = %v", pat, !is(":", ""))
	t.Check(util.IsPathPattern2(pat) == is("{", "}"), "IsPathPattern2(%q) = %v", pat, !is("{", "}"))
}

func c14(t *T) {
	segs := []string{"a", "b", "", "*", ":x", "{x}", ":", "{}", "ab", "{", "x}", "**", "a*", ":*", "é", "{a", "}"}
	mk := func(n int) string {
		s := []string{}
		for i := 0; i < n; i++ {
			s = append(s, t.Pick(segs))
		}
		return strings.Join(s, "/")
	}
	pat := mk(t.Intn(6))
	path := mk(t.Intn(7))
	if t.Chance(2) {
		// an instance of the pattern
		s := []string{}
		for _, p := range strings.Split(pat, "/") {
			switch {
			case p == "*":
				for i := 0; i < 1+t.Intn(3); i++ {
					s = append(s, t.Pick(segs))
				}
			case named(p, ":", "") || named(p, "{", "}"):
				s = append(s, t.Pick(segs))
			default:
				s = append(s, p)
			}
		}
		path = strings.Join(s, "/")
		if t.Chance(3) {
			path += "/" + t.Pick(segs)
		}
	}
	t.Logf("%q %q", path, pat)
	checkPath(t, path, pat)
}

func c14all(t *T) {
	var words func(n int, segs []string) []string
	words = func(n int, segs []string) []string {
		if n == 1 {
			return segs
		}
		res := []string{}
		for _, w := range words(n-1, segs) {
			for _, s := range segs {
				res = append(res, w+"/"+s)
			}
		}
		return res
	}
	paths, pats := []string{}, []string{}
	for n := 1; n <= 5; n++ {
		paths = append(paths, words(n, []string{"a", "b", ""})...)
		if n <= 4 {
			pats = append(pats, words(n, []string{"a", "*", ":x", "{x}", ""})...)
		}
	}
	t.Logf("%d paths, %d patterns", len(paths), len(pats))
	for _, p := range pats {
		for _, q := range paths {
			checkPath(t, q, p)
		}
	}
}

var _ = policy.NewPolicy
var _ = defs.NewPolicyDef
