package main

import "strings"

// Slicing: leaving out hypotheses keeps a proof sound. A quantified hypothesis is
// kept if one of its patterns can be built from the symbols that are relevant so far.

type sliceItem struct {
	text  string
	quant bool
	pats  [][]string // symbols of each pattern
	syms  []string
	def   string // symbol that is defined by the item
}

func topLevel(s string) []string {
	var out []string
	depth, start := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			if depth == 0 {
				start = i
			}
			depth++
		case ')':
			depth--
			if depth == 0 {
				out = append(out, s[start:i+1])
			}
		case '"':
			for i++; i < len(s) && s[i] != '"'; i++ {
			}
		case ';':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case '|':
			for i++; i < len(s) && s[i] != '|'; i++ {
			}
		}
	}
	return out
}

var builtinSym = map[string]bool{"forall": true, "exists": true, "select": true, "store": true, "and": true, "or": true, "not": true, "=>": true, "=": true, "ite": true, "+": true, "-": true, "<": true, "<=": true, ">": true, ">=": true, "Int": true, "Bool": true, "Str": true, "true": true, "false": true, "assert": true, "!": true, ":pattern": true, "Array": true, "as": true, "const": true, "let": true, "_": true, "is": true, "SeqS": true, "Slc": true, "Iface": true, "sarr": true, "soff": true, "slen": true, "*": true, "alloc0": true, "define-fun": true, "distinct": true}

func symsOf(t string) []string {
	var out []string
	seen := map[string]bool{}
	for i := 0; i < len(t); {
		c := t[i]
		if c == '(' || c == ')' || c == ' ' || c == '\n' {
			i++
			continue
		}
		if c == '"' {
			for i++; i < len(t) && t[i] != '"'; i++ {
			}
			i++
			continue
		}
		j := i
		for j < len(t) && t[j] != '(' && t[j] != ')' && t[j] != ' ' && t[j] != '\n' {
			j++
		}
		w := t[i:j]
		i = j
		if builtinSym[w] || seen[w] || strings.Contains(w, "?") || isNum(w) || strings.HasPrefix(w, "al!") {
			continue
		}
		seen[w] = true
		out = append(out, w)
	}
	return out
}

// binders lists the variables bound anywhere in a term
func binders(t string, into map[string]bool) {
	for _, q := range []string{"(forall (", "(exists (", "(let ("} {
		for i := strings.Index(t, q); i >= 0; {
			j := i + len(q)
			depth := 1
			for j < len(t) && depth > 0 {
				switch t[j] {
				case '(':
					depth++
					k := j + 1
					for k < len(t) && t[k] != ' ' && t[k] != '(' && t[k] != ')' {
						k++
					}
					if depth == 2 {
						into[t[j+1:k]] = true
					}
				case ')':
					depth--
				}
				j++
			}
			n := strings.Index(t[i+1:], q)
			if n < 0 {
				break
			}
			i = i + 1 + n
		}
	}
}

func patternsOf(t string) [][]string {
	var out [][]string
	b := map[string]bool{}
	binders(t, b)
	for i := strings.Index(t, ":pattern ("); i >= 0; {
		j := i + 10
		depth := 1
		for j < len(t) && depth > 0 {
			if t[j] == '(' {
				depth++
			} else if t[j] == ')' {
				depth--
			}
			j++
		}
		var ss []string
		for _, s := range symsOf(t[i+10 : j-1]) {
			if !b[s] {
				ss = append(ss, s)
			}
		}
		out = append(out, ss)
		n := strings.Index(t[i+1:], ":pattern (")
		if n < 0 {
			break
		}
		i = i + 1 + n
	}
	return out
}

// sliceQuery drops hypotheses that do not become relevant within the given number of rounds
func sliceQuery(q string, rounds int) (string, int) {
	parts := topLevel(q)
	var items []*sliceItem
	last := -1
	for i, p := range parts {
		it := &sliceItem{text: p}
		items = append(items, it)
		if strings.HasPrefix(p, "(assert ") {
			last = i
			it.quant = strings.Contains(p, "(forall ") || strings.Contains(p, "(exists ")
			it.syms = symsOf(p)
			if it.quant {
				it.pats = patternsOf(p)
			} else if strings.HasPrefix(p, "(assert (= ") {
				f := strings.Fields(p[11:])
				if len(f) > 0 && !strings.HasPrefix(f[0], "(") {
					it.def = f[0]
				}
			}
		} else if strings.HasPrefix(p, "(define-fun ") {
			f := strings.Fields(p[12:])
			it.def = f[0]
			it.syms = symsOf(p)
		}
	}
	if last < 0 {
		return q, 0
	}
	rel := map[string]bool{}
	var add func(ss []string)
	byDef := map[string][]*sliceItem{}
	for _, it := range items {
		if it.def != "" {
			byDef[it.def] = append(byDef[it.def], it)
		}
	}
	add = func(ss []string) {
		for _, s := range ss {
			if rel[s] {
				continue
			}
			rel[s] = true
			for _, d := range byDef[s] {
				add(d.syms)
			}
		}
	}
	add(items[last].syms)
	keep := map[int]bool{last: true}
	for r := 0; r < rounds; r++ {
		var more [][]string
		for i, it := range items {
			if !it.quant || keep[i] {
				continue
			}
			ok := len(it.pats) == 0
			for _, p := range it.pats {
				all := true
				for _, s := range p {
					all = all && rel[s]
				}
				ok = ok || all
			}
			if ok {
				keep[i] = true
				more = append(more, it.syms)
			}
		}
		if len(more) == 0 {
			break
		}
		for _, m := range more {
			add(m)
		}
	}
	var b strings.Builder
	dropped := 0
	for i, it := range items {
		if it.quant && !keep[i] {
			dropped++
			continue
		}
		b.WriteString(it.text)
		b.WriteString("\n")
	}
	return b.String(), dropped
}

// splitGoal divides a goal into goals that imply it together
func splitGoal(g string) []string {
	op, as := splitApp(g)
	switch {
	case op == "and":
		var out []string
		for _, a := range as {
			out = append(out, splitGoal(a)...)
		}
		return out
	case op == "=>" && len(as) == 2:
		var out []string
		for _, b := range splitGoal(as[1]) {
			out = append(out, "(=> "+as[0]+" "+b+")")
		}
		return out
	case op == "=" && len(as) == 2:
		for i, a := range as {
			if o, _ := splitApp(a); o == "and" || o == "or" || o == "not" || o == "exists" || o == "forall" {
				return append(splitGoal("(=> "+as[1-i]+" "+a+")"), "(=> "+a+" "+as[1-i]+")")
			}
		}
	case op == "forall" && len(as) == 2:
		body := as[1]
		if o, bs := splitApp(body); o == "!" {
			body = bs[0]
		}
		var out []string
		for _, b := range splitGoal(body) {
			out = append(out, "(forall "+as[0]+" "+b+")")
		}
		return out
	}
	return []string{g}
}
