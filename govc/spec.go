package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// ---------- expressions ----------

type Ex struct {
	op    string // id int str bool nil call field index slice un bin quant old
	name  string
	args  []*Ex
	vars  []Bound
	trigs [][]*Ex
	src   string
}

type Bound struct {
	name string
	ty   *TyEx
}

type TyEx struct {
	kind string // name ptr slice map set
	name string
	a, b *TyEx
}

func (t *TyEx) String() string {
	switch t.kind {
	case "ptr":
		return "*" + t.a.String()
	case "slice":
		return "[]" + t.a.String()
	case "map":
		return "map[" + t.a.String() + "]" + t.b.String()
	case "set":
		return "set[" + t.a.String() + "]"
	}
	return t.name
}

type tok struct {
	k string // id int str op eof
	v string
}

type parser struct {
	toks []tok
	p    int
	src  string
}

func lex(s string) []tok {
	var out []tok
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '/' && i+1 < len(s) && s[i+1] == '/':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$':
			j := i + 1
			for j < len(s) && (unicode.IsLetter(rune(s[j])) || unicode.IsDigit(rune(s[j])) || s[j] == '_' || s[j] == '$') {
				j++
			}
			out = append(out, tok{"id", s[i:j]})
			i = j
		case unicode.IsDigit(rune(c)):
			j := i + 1
			for j < len(s) && unicode.IsDigit(rune(s[j])) {
				j++
			}
			out = append(out, tok{"int", s[i:j]})
			i = j
		case c == '"' || c == '`':
			j := i + 1
			for j < len(s) && s[j] != c {
				if s[j] == '\\' && c == '"' {
					j++
				}
				j++
			}
			v, err := strconv.Unquote(s[i : j+1])
			if err != nil {
				fatal("bad string %s in %s", s[i:j+1], s)
			}
			out = append(out, tok{"str", v})
			i = j + 1
		case c == '\'':
			j := i + 1
			for s[j] != '\'' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			r, _, _, err := strconv.UnquoteChar(s[i+1:j], '\'')
			if err != nil {
				fatal("bad char in %s", s)
			}
			out = append(out, tok{"int", strconv.Itoa(int(r))})
			i = j + 1
		default:
			ops := []string{"<==>", "==>", "::", "&&", "||", "==", "!=", "<=", ">=", ":=", "[]"}
			m := string(c)
			for _, o := range ops {
				if strings.HasPrefix(s[i:], o) {
					m = o
					break
				}
			}
			out = append(out, tok{"op", m})
			i += len(m)
		}
	}
	return append(out, tok{"eof", ""})
}

func parseEx(s string) *Ex {
	p := &parser{toks: lex(s), src: s}
	e := p.expr(0)
	if p.cur().k != "eof" {
		fatal("trailing %q in %q", p.cur().v, s)
	}
	e.src = strings.TrimSpace(s)
	return e
}

func (p *parser) cur() tok { return p.toks[p.p] }
func (p *parser) next() tok {
	t := p.toks[p.p]
	p.p++
	return t
}
func (p *parser) is(v string) bool { return p.cur().k == "op" && p.cur().v == v }
func (p *parser) acc(v string) bool {
	if p.is(v) {
		p.p++
		return true
	}
	return false
}
func (p *parser) want(v string) {
	if !p.acc(v) {
		fatal("expected %q got %q in %q", v, p.cur().v, p.src)
	}
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (p *parser) expr(min int) *Ex {
	l := p.unary()
	for {
		t := p.cur()
		pr, ok := prec[t.v]
		if !ok || t.k == "str" || t.k == "eof" || pr < min || (t.k == "id" && t.v != "in") {
			return l
		}
		p.p++
		np := pr + 1
		if t.v == "==>" {
			np = pr
		}
		r := p.expr(np)
		l = &Ex{op: "bin", name: t.v, args: []*Ex{l, r}}
	}
}

func (p *parser) typ() *TyEx {
	if p.acc("*") {
		return &TyEx{kind: "ptr", a: p.typ()}
	}
	if p.acc("[]") {
		return &TyEx{kind: "slice", a: p.typ()}
	}
	t := p.next()
	if t.k != "id" {
		fatal("type expected, got %q in %q", t.v, p.src)
	}
	if t.v == "map" {
		p.want("[")
		k := p.typ()
		p.want("]")
		return &TyEx{kind: "map", a: k, b: p.typ()}
	}
	if t.v == "set" {
		p.want("[")
		k := p.typ()
		p.want("]")
		return &TyEx{kind: "set", a: k}
	}
	n := t.v
	if p.acc(".") {
		n += "." + p.next().v
	}
	return &TyEx{kind: "name", name: n}
}

func (p *parser) bounds() []Bound {
	var out []Bound
	for {
		names := []string{p.next().v}
		for p.acc(",") { // x, y T
			names = append(names, p.next().v)
		}
		ty := p.typ()
		for _, n := range names {
			out = append(out, Bound{n, ty})
		}
		if !p.acc(",") && !p.acc(";") {
			return out
		}
	}
}

func (p *parser) unary() *Ex {
	t := p.cur()
	if t.k == "op" && (t.v == "!" || t.v == "-") {
		p.p++
		return &Ex{op: "un", name: t.v, args: []*Ex{p.unary()}}
	}
	if t.k == "id" && (t.v == "forall" || t.v == "exists") {
		p.p++
		// bounds: "x T, y T ::" - a comma list where each name has a type
		var vs []Bound
		for {
			n := p.next().v
			ty := p.typ()
			vs = append(vs, Bound{n, ty})
			if !p.acc(",") {
				break
			}
		}
		p.want("::")
		var trigs [][]*Ex
		for p.acc("{") {
			var tr []*Ex
			for {
				tr = append(tr, p.expr(0))
				if !p.acc(",") {
					break
				}
			}
			p.want("}")
			trigs = append(trigs, tr)
		}
		b := p.expr(0)
		return &Ex{op: "quant", name: t.v, vars: vs, trigs: trigs, args: []*Ex{b}}
	}
	return p.postfix(p.primary())
}

func (p *parser) postfix(e *Ex) *Ex {
	for {
		switch {
		case p.acc("."):
			e = &Ex{op: "field", name: p.next().v, args: []*Ex{e}}
		case p.acc("["):
			if p.acc(":") {
				hi := p.expr(0)
				p.want("]")
				e = &Ex{op: "slice", args: []*Ex{e, nil, hi}}
				continue
			}
			i := p.expr(0)
			if p.acc(":") {
				var hi *Ex
				if !p.is("]") {
					hi = p.expr(0)
				}
				p.want("]")
				e = &Ex{op: "slice", args: []*Ex{e, i, hi}}
				continue
			}
			p.want("]")
			e = &Ex{op: "index", args: []*Ex{e, i}}
		default:
			return e
		}
	}
}

func (p *parser) primary() *Ex {
	t := p.next()
	switch t.k {
	case "int":
		return &Ex{op: "int", name: t.v}
	case "str":
		return &Ex{op: "str", name: t.v}
	case "id":
		switch t.v {
		case "true", "false":
			return &Ex{op: "bool", name: t.v}
		case "nil":
			return &Ex{op: "nil"}
		}
		if t.v == "is" || t.v == "as" || t.v == "box" || t.v == "emptyset" || t.v == "zero" { // is(x, Type)
			p.want("(")
			var args []*Ex
			if t.v != "emptyset" && t.v != "zero" {
				args = append(args, p.expr(0))
				p.want(",")
			}
			ty := p.typ()
			p.want(")")
			return &Ex{op: t.v, vars: []Bound{{"", ty}}, args: args}
		}
		if p.acc("(") {
			var args []*Ex
			for !p.is(")") {
				args = append(args, p.expr(0))
				if !p.acc(",") {
					break
				}
			}
			p.want(")")
			return &Ex{op: "call", name: t.v, args: args}
		}
		return &Ex{op: "id", name: t.v}
	case "op":
		if t.v == "(" {
			e := p.expr(0)
			p.want(")")
			return e
		}
	}
	fatal("unexpected %q in %q", t.v, p.src)
	return nil
}

// ---------- contracts ----------

type Clause struct {
	ex    *Ex
	tags  []string
	label string
	src   string
}

type LoopSpec struct {
	invs []Clause
	vars []Bound // metavariables
	keys *TyEx
	sets []Hook
}

type IterSpec struct {
	fn       string  // parameter name
	args     []Bound // callback argument names/types
	over     *Bound  // the key, if the reported elements are described by their keys alone
	where    *Ex     // which argument tuples are reported
	key      *Ex     // abstraction used to record what has been reported
	keyTy    *TyEx
	partial  *Ex // condition on results under which completeness is not promised
	dup      bool
	post     *Ex // facts about callback arguments
	weak     bool
	trig     [][]*Ex
	changes  []*Ex
	keep     *Ex // what the callback leaves as it was (old: before the callback)
	whereSrc string
	tags     []string
	void     bool
	always   bool // the callback always returns true
}

type Contract struct {
	name      string
	file      string
	params    []string
	results   []string
	requires  []Clause
	ensures   []Clause
	modifies  []*Ex
	modAll    bool
	keeps     []*Ex
	loops     map[int]*LoopSpec
	iter      *IterSpec
	trusted   bool
	inline    bool
	nosafety  bool
	panics    bool // panics are allowed (recovered by the function or documented)
	native    bool
	pure      bool
	tags      []string
	timeout   int
	lets      []Let
	decreases *Ex // what every recursive call makes smaller
	ghostInit []string
	hooks     []Hook
	exhaust   bool
	uses      []string
	reads     []*Ex
	mayPanic  bool
	iterAlloc bool
	hide      map[string]bool
	reveal    map[string]bool
	safeTags  []string
	dispatch  map[string]string
}

// Hook is a ghost assignment executed at entry or exit of the function
type Hook struct {
	when string // entry
	name string // ghost name or ghost element
	lhs  *Ex
	rhs  *Ex
}

// Let names a value at the entry of a function: an expression, or the relation
// between the variables for which the expression holds
type Let struct {
	name string
	vars []Bound
	ex   *Ex
}

type Define struct {
	name   string
	args   []Bound
	ret    *TyEx
	body   *Ex
	opaque bool // a function of its arguments and of the state it reads, expanded only where revealed
	comps  []string
}

type Lemma struct {
	name     string
	vars     []Bound
	requires []Clause
	ensures  []Clause
	tags     []string
	native   bool
	timeout  int
	file     string
	goals    []string // raw smt goal
	trigs    [][]*Ex
	axiom    bool // usable in other proofs
	induct   *Ex  // measure of an induction
	ord      int
}

type Specs struct {
	hideSets     map[string][]string
	contracts    map[string]*Contract
	order        []string
	defines      map[string]*Define
	declares     map[string]*Define
	ghosts       map[string]string
	aliases      map[string]string
	ghostInits   []ghostInit
	ghostDefault map[string]*Ex
	ghostScalar  map[string]bool
	lemmas       []*Lemma
	axiomsRaw    []struct {
		name string
		need []string
		ex   *Ex
		raw  string
		why  string
	}
}

type ghostInit struct {
	name, ty string
	ex       *Ex
}

func newSpecs() *Specs {
	return &Specs{contracts: map[string]*Contract{}, defines: map[string]*Define{}, declares: map[string]*Define{}, ghosts: map[string]string{}, ghostDefault: map[string]*Ex{}, ghostScalar: map[string]bool{}, aliases: map[string]string{}}
}

var kw = map[string]bool{"contract": true, "requires": true, "ensures": true, "modifies": true, "loop": true, "invariant": true, "var": true, "iterates": true, "option": true, "define": true, "declare": true, "axiom": true, "ghost": true, "lemma": true, "rawaxiom": true, "tags": true, "goal": true, "set": true, "setpost": true, "let": true, "dispatch": true, "preserves": true, "trigger": true, "induct": true, "scalar": true, "sort": true, "hideset": true, "decreases": true}

func (sp *Specs) load(dir string) {
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			fatal("%v", err)
		}
		sp.parseFile(filepath.Base(f), string(b))
	}
}

func (sp *Specs) parseFile(file, text string) {
	var stmts []string
	for _, line := range strings.Split(text, "\n") {
		t := strings.TrimSpace(line)
		if t == "" || strings.HasPrefix(t, "//") || strings.HasPrefix(t, "#") {
			continue
		}
		w := t
		if i := strings.IndexAny(t, " \t(:"); i >= 0 {
			w = t[:i]
		}
		if kw[w] {
			stmts = append(stmts, t)
		} else if len(stmts) > 0 {
			stmts[len(stmts)-1] += "\n" + t
		} else {
			fatal("%s: unexpected %q", file, t)
		}
	}
	var c *Contract
	var lp *LoopSpec
	var lm *Lemma
	for _, s := range stmts {
		w := s
		if i := strings.IndexAny(s, " \t"); i >= 0 {
			w = s[:i]
		}
		rest := strings.TrimSpace(s[len(w):])
		switch w {
		case "contract":
			lm, lp = nil, nil
			c = &Contract{loops: map[int]*LoopSpec{}, file: file}
			i := 1
			for i < len(rest) && rest[i] != ' ' && !(rest[i] == '(' && rest[i-1] != ' ' && rest[i-1] != '(' && rest[i-1] != ']') {
				i++
			}
			c.name = rest[:i]
			r := strings.TrimSpace(rest[i:])
			ps, r := parenList(r)
			c.params = ps
			if strings.HasPrefix(strings.TrimSpace(r), "(") {
				rs, r2 := parenList(strings.TrimSpace(r))
				c.results = rs
				r = r2
			}
			for _, f := range strings.Fields(r) {
				switch f {
				case "trusted":
					c.trusted = true
				case "inline":
					c.inline = true
				default:
					if strings.HasPrefix(f, "@") {
						c.tags = append(c.tags, strings.Split(f[1:], ",")...)
					} else {
						fatal("%s: bad contract flag %q", file, f)
					}
				}
			}
			if _, dup := sp.contracts[c.name]; dup {
				fatal("%s: duplicate contract %s", file, c.name)
			}
			sp.contracts[c.name] = c
			sp.order = append(sp.order, c.name)
		case "requires":
			if lm != nil {
				lm.requires = append(lm.requires, clause(rest))
			} else {
				c.requires = append(c.requires, clause(rest))
			}
		case "ensures":
			if lm != nil {
				lm.ensures = append(lm.ensures, clause(rest))
			} else {
				c.ensures = append(c.ensures, clause(rest))
			}
		case "goal":
			lm.goals = append(lm.goals, rest)
		case "decreases":
			c.decreases = parseEx(rest)
		case "let":
			i := strings.Index(rest, "=")
			l := Let{name: strings.TrimSpace(rest[:i]), ex: parseEx(rest[i+1:])}
			if j := strings.Index(l.name, "["); j > 0 {
				p := &parser{toks: lex(strings.TrimSuffix(l.name[j+1:], "]")), src: rest}
				l.vars = p.bounds()
				l.name = l.name[:j]
			}
			c.lets = append(c.lets, l)
		case "set":
			// set LHS := RHS   (ghost assignment at function entry)
			i := strings.Index(rest, ":=")
			h := Hook{when: "entry", lhs: parseEx(rest[:i]), rhs: parseEx(rest[i+2:])}
			if lp != nil { // at the end of each iteration
				lp.sets = append(lp.sets, h)
			} else {
				c.hooks = append(c.hooks, h)
			}
		case "setpost": // ghost assignment at function exit
			i := strings.Index(rest, ":=")
			c.hooks = append(c.hooks, Hook{when: "exit", lhs: parseEx(rest[:i]), rhs: parseEx(rest[i+2:])})
		case "modifies":
			if strings.TrimSpace(rest) == "*" {
				c.modAll = true
				break
			}
			for _, m := range splitTop(rest) {
				c.modifies = append(c.modifies, parseEx(m))
			}
		case "induct":
			lm.induct = parseEx(rest)
		case "trigger":
			p := &parser{toks: lex(rest), src: rest}
			for p.cur().k != "eof" {
				p.want("{")
				var tr []*Ex
				for {
					tr = append(tr, p.expr(0))
					if !p.acc(",") {
						break
					}
				}
				p.want("}")
				lm.trigs = append(lm.trigs, tr)
			}
		case "preserves": // with modifies *: state that is left alone nevertheless
			for _, m := range splitTop(rest) {
				c.keeps = append(c.keeps, parseEx(m))
			}
		case "loop":
			n, err := strconv.Atoi(strings.Fields(rest)[0])
			if err != nil {
				fatal("%s: loop number in %q", file, s)
			}
			lp = &LoopSpec{}
			c.loops[n] = lp
		case "var":
			p := &parser{toks: lex(rest), src: rest}
			for {
				n := p.next().v
				lp.vars = append(lp.vars, Bound{n, p.typ()})
				if !p.acc(",") {
					break
				}
			}
		case "invariant":
			lp.invs = append(lp.invs, clause(rest))
		case "tags":
			c.tags = append(c.tags, strings.Fields(strings.ReplaceAll(rest, ",", " "))...)
		case "option":
			for _, o := range strings.Fields(rest) {
				switch {
				case o == "nosafety":
					c.nosafety = true
				case o == "axiom":
					lm.axiom = true
				case o == "panics":
					c.panics = true
				case o == "native":
					if lm != nil {
						lm.native = true
					} else {
						c.native = true
					}
				case o == "pure":
					c.pure = true
				case o == "maypanic":
					c.mayPanic = true
				case o == "iteralloc":
					c.iterAlloc = true
				case strings.HasPrefix(o, "safety="):
					c.safeTags = strings.Split(o[7:], ",")
				case strings.HasPrefix(o, "hide="): // axioms and lemmas that only get in the way
					if c.hide == nil {
						c.hide = map[string]bool{}
					}
					for _, h := range strings.Split(o[5:], ",") {
						if set, ok := sp.hideSets[h]; ok {
							for _, x := range set {
								c.hide[x] = true
							}
						} else {
							c.hide[h] = true
						}
					}
				case strings.HasPrefix(o, "reveal="): // opaque definitions that are expanded
					if c.reveal == nil {
						c.reveal = map[string]bool{}
					}
					for _, h := range strings.Split(o[7:], ",") {
						c.reveal[h] = true
					}
				case strings.HasPrefix(o, "timeout="):
					n, _ := strconv.Atoi(o[8:])
					if lm != nil {
						lm.timeout = n
					} else {
						c.timeout = n
					}
				default:
					fatal("%s: option %q", file, o)
				}
			}
		case "dispatch":
			fs := strings.Fields(rest)
			if c.dispatch == nil {
				c.dispatch = map[string]string{}
			}
			c.dispatch[fs[0]] = fs[1]
		case "iterates":
			c.iter = parseIter(rest)
		case "hideset": // hideset NAME = a,b,c
			i := strings.Index(rest, "=")
			if sp.hideSets == nil {
				sp.hideSets = map[string][]string{}
			}
			sp.hideSets[strings.TrimSpace(rest[:i])] = strings.Split(strings.TrimSpace(rest[i+1:]), ",")
		case "define", "declare":
			p := &parser{toks: lex(rest), src: rest}
			d := &Define{name: p.next().v}
			if d.name == "opaque" {
				d.opaque = true
				d.name = p.next().v
			}
			p.want("(")
			for !p.is(")") {
				n := p.next().v
				d.args = append(d.args, Bound{n, p.typ()})
				if !p.acc(",") {
					break
				}
			}
			p.want(")")
			d.ret = p.typ()
			if sp.defines[d.name] != nil || sp.declares[d.name] != nil {
				fatal("%s: %s is defined twice", file, d.name)
			}
			if w == "define" {
				p.want("=")
				d.body = p.expr(0)
				if p.cur().k != "eof" {
					fatal("%s: trailing %q in %q", file, p.cur().v, s)
				}
				sp.defines[d.name] = d
			} else {
				sp.declares[d.name] = d
			}
		case "ghost": // ghost NAME SORT  |  ghost NAME SORT on TYPE = EXPR (value for new objects)
			i := strings.Index(rest, " ")
			t := strings.TrimSpace(rest[i:])
			if j := strings.Index(t, " default "); j > 0 { // value for all objects that do not exist yet
				sp.ghostDefault[rest[:i]] = parseEx(t[j+9:])
				t = strings.TrimSpace(t[:j])
			}
			if j := strings.Index(t, " on "); j > 0 {
				k := strings.Index(t, " = ")
				sp.ghostInits = append(sp.ghostInits, ghostInit{rest[:i], strings.TrimSpace(t[j+4 : k]), parseEx(t[k+3:])})
				t = strings.TrimSpace(t[:j])
			}
			sp.ghosts[rest[:i]] = t
		case "sort": // sort NAME = SMT sort
			i := strings.Index(rest, "=")
			sp.aliases[strings.TrimSpace(rest[:i])] = strings.TrimSpace(rest[i+1:])
		case "scalar": // ghosts of sort (Array Int ..) that are not indexed by references
			for _, n := range strings.Fields(rest) {
				sp.ghostScalar[n] = true
			}
		case "axiom", "rawaxiom":
			i := strings.Index(rest, ":")
			hd := strings.Fields(rest[:i])
			a := struct {
				name string
				need []string
				ex   *Ex
				raw  string
				why  string
			}{name: hd[0]}
			if len(hd) > 2 && hd[1] == "needs" {
				a.need = strings.Split(hd[2], ",")
			}
			if w == "axiom" {
				a.ex = parseEx(rest[i+1:])
			} else {
				a.raw = rest[i+1:]
			}
			sp.axiomsRaw = append(sp.axiomsRaw, a)
		case "lemma":
			lm = &Lemma{file: file}
			i := strings.IndexAny(rest, " (")
			if i < 0 {
				i = len(rest)
			}
			lm.name = rest[:i]
			r := strings.TrimSpace(rest[i:])
			if strings.HasPrefix(r, "(") {
				j := strings.LastIndex(r, ")")
				p := &parser{toks: lex(r[1:j]), src: r}
				for p.cur().k != "eof" {
					n := p.next().v
					lm.vars = append(lm.vars, Bound{n, p.typ()})
					p.acc(",")
				}
				r = strings.TrimSpace(r[j+1:])
			}
			for _, f := range strings.Fields(r) {
				if strings.HasPrefix(f, "@") {
					lm.tags = append(lm.tags, strings.Split(f[1:], ",")...)
				}
			}
			lm.ord = len(sp.lemmas) + 1
			sp.lemmas = append(sp.lemmas, lm)
		default:
			fatal("%s: unknown statement %q", file, s)
		}
	}
}

func parseIter(rest string) *IterSpec {
	// iterates fn(r []string) where EXPR by EXPR : TYPE [unless EXPR]
	it := &IterSpec{}
	p := &parser{toks: lex(rest), src: rest}
	it.fn = p.next().v
	p.want("(")
	for !p.is(")") {
		n := p.next().v
		it.args = append(it.args, Bound{n, p.typ()})
		if !p.acc(",") {
			break
		}
	}
	p.want(")")
	for p.cur().k != "eof" {
		switch t := p.next(); t.v {
		case "where":
			a := p.p
			it.where = p.expr(0)
			for _, t := range p.toks[a:p.p] {
				it.whereSrc += " " + t.v
			}
			it.whereSrc = strings.TrimSpace(it.whereSrc)
		case "by":
			it.key = p.expr(0)
			p.want(":")
			it.keyTy = p.typ()
		case "over":
			n := p.next().v
			it.over = &Bound{n, p.typ()}
		case "unless":
			it.partial = p.expr(0)
		case "repeats":
			it.dup = true
		case "with":
			it.post = p.expr(0)
		case "always":
			it.always = true
		case "keeps":
			it.keep = p.expr(0)
		case "weak":
			it.weak = true
		case "changes": // what the callback may modify while the iterator runs
			p.want("(")
			for {
				it.changes = append(it.changes, p.expr(0))
				if !p.acc(",") {
					break
				}
			}
			p.want(")")
		case "tags":
			for p.cur().k == "id" && !iterKw[p.cur().v] {
				it.tags = append(it.tags, p.next().v)
				p.acc(",")
			}
		case "trigger":
			p.want("{")
			var tr []*Ex
			for {
				tr = append(tr, p.expr(0))
				if !p.acc(",") {
					break
				}
			}
			p.want("}")
			it.trig = append(it.trig, tr)
		default:
			fatal("iterates: %q in %q", t.v, rest)
		}
	}
	return it
}

var iterKw = map[string]bool{"over": true, "where": true, "by": true, "unless": true, "repeats": true, "with": true, "weak": true, "always": true, "keeps": true, "changes": true, "tags": true, "trigger": true}

func clause(s string) Clause {
	var c Clause
	s = strings.TrimSpace(s)
	for strings.HasPrefix(s, "@") || strings.HasPrefix(s, "#") {
		i := strings.IndexAny(s, " \n\t")
		if s[0] == '@' {
			c.tags = append(c.tags, strings.Split(s[1:i], ",")...)
		} else {
			c.label = s[1:i]
		}
		s = strings.TrimSpace(s[i:])
	}
	c.ex = parseEx(s)
	c.src = strings.Join(strings.Fields(s), " ")
	return c
}

func parenList(s string) ([]string, string) {
	if !strings.HasPrefix(s, "(") {
		fatal("( expected in %q", s)
	}
	i := strings.Index(s, ")")
	var out []string
	for _, x := range strings.Split(s[1:i], ",") {
		x = strings.TrimSpace(x)
		if x != "" {
			out = append(out, x)
		}
	}
	return out, strings.TrimSpace(s[i+1:])
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i, c := range s {
		switch c {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, s[st:i])
				st = i + 1
			}
		}
	}
	return append(out, s[st:])
}

func (e *Ex) String() string {
	if e == nil {
		return ""
	}
	if e.src != "" {
		return strings.Join(strings.Fields(e.src), " ")
	}
	return fmt.Sprintf("%s/%s", e.op, e.name)
}

// assigned reports whether some contract assigns the ghost
func (sp *Specs) assigned(name string) bool {
	for _, c := range sp.contracts {
		hs := append([]Hook{}, c.hooks...)
		for _, l := range c.loops {
			hs = append(hs, l.sets...)
		}
		for _, h := range hs {
			if h.lhs.op == "id" && h.lhs.name == name || h.lhs.op != "id" && h.lhs.args[0].name == name {
				return true
			}
		}
	}
	return false
}
