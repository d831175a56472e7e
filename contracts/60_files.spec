// ---- files ----
// Trusted contracts of os, bufio and encoding/csv over ghost files.
// FC: the content of each path. FH: every content the path has had at some moment, FG: it was absent at some moment.
ghost FC (Array Str Str)
ghost FH (Array Str (Array Str Bool))
ghost FG (Array Str Bool)
scalar FC FH FG
// open files: their path, and the text handed to them
ghost FP (Array Int Str)
ghost FT (Array Int Str)
// FR: opened for reading only
ghost FR (Array Int Bool)
define noEffect() bool = sameheap(FC, FH, FG, FP, FR, FT, WF, WB, RT, RV, MR, fieldof(adapter.FileAdapter), fieldof(adapter.RuleSet), fieldof(csv.Reader), elemsof(string), elemsof("[]string"))
define otherFiles(p string) bool = forall q string :: {FC[q]} {FH[q]} {FG[q]} q != p ==> FC[q] == old(FC)[q] && FH[q] == old(FH)[q] && FG[q] == old(FG)[q]
contract os.Create(name) (f, err) trusted
  modifies FC, FH, FG, FP, FR, FT
  ensures otherFiles(name)
  ensures err == nil ==> f != nil && fresh(f) && FP[f] == name && FT[f] == "" && !FR[f]
  ensures forall g int :: {FP[g]} {FT[g]} {FR[g]} old(allocated(g)) ==> FP[g] == old(FP)[g] && FR[g] == old(FR)[g] && FT[g] == old(FT)[g]
contract os.Open(name) (f, err) trusted
  modifies FP, FR, FT
  ensures err == nil ==> f != nil && fresh(f) && FP[f] == name && FR[f]
  ensures forall g int :: {FP[g]} {FT[g]} {FR[g]} old(allocated(g)) ==> FP[g] == old(FP)[g] && FR[g] == old(FR)[g] && FT[g] == old(FT)[g]
contract (*os.File).Close(f) (err) trusted
  modifies FC, FH, FG
  requires f != nil
  ensures otherFiles(FP[f])
  ensures FR[f] ==> FC == old(FC) && FH == old(FH) && FG == old(FG)
  ensures err == nil && !FR[f] ==> FC[FP[f]] == FT[f]
contract (*os.File).Sync(f) (err) trusted
  modifies FC, FH, FG
  requires f != nil
  ensures otherFiles(FP[f])
contract os.Truncate(name, size) (err) trusted
  modifies FC, FH, FG
  ensures otherFiles(name)
contract os.WriteFile(name, data, perm) (err) trusted
  modifies FC, FH, FG
  ensures otherFiles(name)
contract os.OpenFile(name, flag, perm) (f, err) trusted
  modifies FC, FH, FG, FP, FR, FT
  ensures otherFiles(name)
  ensures flag == 0 ==> FC == old(FC) && FH == old(FH) && FG == old(FG)
  ensures err == nil ==> f != nil && fresh(f) && FP[f] == name && FR[f] == (flag == 0) && (flag == 577 || flag == 578 ==> FT[f] == "")
  ensures forall g int :: {FP[g]} {FT[g]} {FR[g]} old(allocated(g)) ==> FP[g] == old(FP)[g] && FR[g] == old(FR)[g] && FT[g] == old(FT)[g]
contract os.Stat(name) (i, err) trusted
  option pure
contract os.IsNotExist(err) (b) trusted
  option pure
contract (*os.File).Name(f) (name) trusted
  option pure
  requires f != nil
  ensures name == FP[f]
contract (*os.File).WriteString(f, s) (n, err) trusted
  requires f != nil
  modifies at(FT, f), FC, FH, FG
  ensures otherFiles(FP[f])
  ensures err == nil ==> FT[f] == old(FT[f]) + s
contract os.Rename(from, to) (err) trusted
  modifies FC, FH, FG
  ensures forall q string :: {FC[q]} {FH[q]} {FG[q]} q != from && q != to ==> FC[q] == old(FC)[q] && FH[q] == old(FH)[q] && FG[q] == old(FG)[q]
  ensures err == nil && from != to ==> FC[to] == old(FC)[from] && FH[to] == store(old(FH)[to], old(FC)[from], true) && FG[to] == old(FG)[to]
  ensures err != nil && from != to ==> FC[to] == old(FC)[to] && FH[to] == old(FH)[to] && FG[to] == old(FG)[to]
contract os.Remove(name) (err) trusted
  modifies FC, FH, FG
  ensures otherFiles(name)
// buffered writers: the file they write to and the text written
ghost WF (Array Int Iface)
ghost WB (Array Int Str)
contract bufio.NewWriter(w) (b) trusted
  modifies WF, WB
  ensures b != nil && fresh(b) && WF[b] == w && WB[b] == ""
  ensures forall x int :: {WF[x]} {WB[x]} x != b ==> WF[x] == old(WF)[x] && WB[x] == old(WB)[x]
contract (*bufio.Writer).WriteString(b, s) (n, err) trusted
  requires b != nil && is(WF[b], *os.File)
  modifies at(WB, b), at(FT, as(WF[b], *os.File)), FC, FH, FG
  ensures err == nil ==> WB[b] == old(WB[b]) + s
  ensures otherFiles(FP[as(WF[b], *os.File)])
contract (*bufio.Writer).Flush(b) (err) trusted
  requires b != nil && is(WF[b], *os.File)
  modifies at(FT, as(WF[b], *os.File)), FC, FH, FG
  ensures err == nil ==> FT[as(WF[b], *os.File)] == WB[b]
  ensures otherFiles(FP[as(WF[b], *os.File)])

// ---- comma separated values ----
// csvText(c): c consists of complete well-formed lines, rs(c) is the set of rules they hold
declare csvText(c string) bool
sort RuleSetS = (Array SeqS Bool)
declare rs(c string) RuleSetS
declare csvLine(l string, r SeqS) bool
declare cany(s string, chars string) bool
declare ltrim(s string) string
axiom rs_empty: csvText("") && rs("") == emptyset(SeqS)
axiom rs_line: forall c string, l string, r SeqS :: {rs(c + l), csvLine(l, r)} csvText(c) && csvLine(l, r) ==> csvText(c + l) && rs(c + l) == store(rs(c), r, true)
// a value is written as it is if it is harmless, or in quotes with doubled inner quotes
define csvBare(v string, first bool) bool = !cany(v, ",\"\r\n") && ltrim(v) == v && (first ==> len(v) > 0 && v[0] != '#')
define csvField(v string, f string, first bool) bool = csvBare(v, first) && f == v || sindex(v, "\r\n") < 0 && f == "\"" + repl(v, "\"", "\"\"") + "\""
axiom csv_line: forall v SeqS, r SeqS :: {csvLine(join(v, ", ") + "\n", r)} len(r) > 0 && len(v) == len(r) && (forall i int :: {v[i]} 0 <= i && i < len(r) ==> csvField(r[i], v[i], i == 0)) ==> csvLine(join(v, ", ") + "\n", r)

contract strings.ContainsAny(s, chars) (b) trusted
  option pure
  ensures b <==> cany(s, chars)
contract strings.TrimLeftFunc(s, f) (r) trusted
  option pure
  ensures r == ltrim(s)

contract adapter.formatRule(rule) (line, err) @C13
  requires len(rule) > 0
  option pure
  ensures #line err == nil ==> csvLine(line, seq(rule))
  loop 1
  var values []string
  invariant len(values) == len(rule) && fresh(values)
  invariant forall i int :: {content(values)[i]} off(values) <= i && i < off(values) + $k ==> csvField(seq(rule)[i - off(values)], content(values)[i], i == off(values))

// ---- saving ----
// the rules a saved object lists: those of a rule set, or MR for any other object
ghost MR (Array Iface (Array SeqS Bool))
scalar MR
define lists(m any, s SeqS) bool = ite(is(m, *adapter.RuleSet), has(as(m, *adapter.RuleSet).Policy, s), MR[m][s])
define okSet(set *adapter.RuleSet) bool = set != nil && okPol(set.Policy) && (forall s SeqS :: {hs(s)} has(set.Policy, s) ==> len(s) > 0)
define okLister(m any) bool = m != nil && (is(m, *adapter.RuleSet) ==> okSet(as(m, *adapter.RuleSet)))
contract api.IRangeRules.RangeRules(m, fn) trusted
  requires okLister(m)
  iterates fn(rule []string) where len(rule) > 0 && lists(m, seq(rule)) by seq(rule) : SeqS repeats
  ensures !$stopped ==> forall s SeqS :: {$vis[s]} len(s) > 0 && lists(m, s) ==> $vis[s]
define savedIn(c string, m any) bool = csvText(c) && (forall s SeqS :: {rs(c)[s]} rs(c)[s] <==> len(s) > 0 && lists(m, s))

contract adapter.writeRules(file, model) (err) @C13,C19
  requires is(file, *os.File) && as(file, *os.File) != nil && !FR[as(file, *os.File)] && FT[as(file, *os.File)] == ""
  requires okLister(model)
  modifies FC, FH, FG, FT, WF, WB
  ensures #text err == nil ==> savedIn(FT[as(file, *os.File)], model)
  ensures #others otherFiles(FP[as(file, *os.File)])
  loop 1
  var err error
  invariant err == nil && otherFiles(FP[as(file, *os.File)])
  var writer *bufio.Writer
  invariant #text csvText(WB[writer]) && (forall s SeqS :: {rs(WB[writer])[s]} {$vis[s]} rs(WB[writer])[s] <==> $vis[s])
  invariant #valid forall s SeqS :: {$vis[s]} $vis[s] ==> len(s) > 0 && lists(model, s)
  invariant WF[writer] == file && writer != nil && FP[as(file, *os.File)] == old(FP[as(file, *os.File)])

contract (*adapter.FileAdapter).SavePolicy(a, model) (err) @C13,C19
  option hide=hs_empty,hs_cons,nonempty,assoc,emptyright,emptyleft,colon,cut,hashinj,itoa_digits,itoa_distinct,cutAt,segInj
  requires a != nil && okLister(model)
  modifies FC, FH, FG, FP, FR, FT, WF, WB
  ensures #saved err == nil ==> savedIn(FC[a.path], model)
  ensures #kept err != nil ==> FC[a.path] == old(FC[a.path])
  ensures #atomic forall c string :: {FH[a.path][c]} FH[a.path][c] ==> old(FH[a.path])[c] || savedIn(c, model)
  ensures #present FG[a.path] == old(FG[a.path])
lemma longer(p string, t string) @C19,C13
  trigger {p + t}
  requires len(t) > 0
  ensures p + t != p
  option native axiom

// rule sets list their rules as assumed of all listers
contract (*adapter.RuleSet).RangeRules(set, fn) @C13,C16
  requires okSet(set)
  iterates fn(rule []string) where len(rule) > 0 && lists(any(set), seq(rule)) by seq(rule) : SeqS repeats
  ensures #all !$stopped ==> forall s SeqS :: {$vis[s]} len(s) > 0 && lists(any(set), s) ==> $vis[s]
  loop 1
  invariant !$stopped && (forall s SeqS :: {$rep[s]} {hs(s)} $rep[s] <==> $vis[hs(s)])

// ---- loading ----
// csv readers: the text they read and the rules read so far
ghost RT (Array Int Str)
ghost RV (Array Int (Array SeqS Bool))
define readsRules(r *csv.Reader) bool = r != nil && r.Comma == ',' && r.Comment == '#' && r.TrimLeadingSpace && r.FieldsPerRecord < 0 && !r.LazyQuotes
contract csv.NewReader(f) (r) trusted
  modifies RT, RV
  ensures r != nil && fresh(r) && !r.LazyQuotes && !r.TrimLeadingSpace && (is(f, *os.File) ==> RT[r] == FC[FP[as(f, *os.File)]]) && RV[r] == emptyset(SeqS)
  ensures forall x int :: {RT[x]} {RV[x]} x != r ==> RT[x] == old(RT)[x] && RV[x] == old(RV)[x]
contract (*csv.Reader).Read(r) (rule, err) trusted
  requires r != nil
  modifies at(RV, r), fields(r)
  ensures r.Comma == old(r.Comma) && r.Comment == old(r.Comment) && r.TrimLeadingSpace == old(r.TrimLeadingSpace) && r.LazyQuotes == old(r.LazyQuotes) && (old(r.FieldsPerRecord) < 0 ==> r.FieldsPerRecord < 0)
  ensures err == nil ==> len(rule) > 0 && fresh(rule) && RV[r] == store(old(RV[r]), seq(rule), true)
  ensures io.EOF != nil
  ensures err != nil ==> RV[r] == old(RV[r])
  ensures err == io.EOF && readsRules(r) && csvText(RT[r]) ==> RV[r] == rs(RT[r])
  ensures csvText(RT[r]) && readsRules(r) && err == nil ==> rs(RT[r])[seq(rule)]

define okAdder(m any) bool = m != nil && (is(m, *adapter.RuleSet) ==> okSet(as(m, *adapter.RuleSet)))
define quietSet(m any) bool = is(m, *adapter.RuleSet) && !Lis[as(m, *adapter.RuleSet).Policy.Emitter]
define adds(m any, s SeqS) bool = forall x SeqS :: {hs(x)} {MR[m][x]} lists(m, x) <==> old(lists(m, x)) || x == s
contract api.IAddRuleBool.AddRule(m, rule) (added, err) trusted
  requires okAdder(m) && len(rule) > 0
  modifies *
  preserves RT, RV, fieldof(csv.Reader), fieldof(adapter.FileAdapter), FP, FR
  ensures err == nil ==> adds(m, old(seq(rule)))
  ensures okAdder(m)
  ensures old(quietSet(m)) ==> quietSet(m) && noEffect()

contract (*adapter.FileAdapter).LoadPolicy(a, model) (err) @C13
  option hide=hs_empty,hs_cons,nonempty,assoc,emptyright,emptyleft,colon,cut,hashinj,itoa_digits,itoa_distinct,cutAt,segInj
  requires a != nil && okAdder(model)
  modifies *
  let text = FC[a.path]
  ensures #loaded err == nil && csvText(text) ==> forall s SeqS :: {hs(s)} {MR[model][s]} lists(model, s) <==> old(lists(model, s)) || rs(text)[s]
  ensures okAdder(model) && a.path == old(a.path)
  ensures #unchanged old(quietSet(model)) ==> quietSet(model) && sameheap(FC, FH, FG, fieldof(adapter.FileAdapter), elemsof(string), elemsof("[]string"))
  loop 1
  var reader *csv.Reader
  var file *os.File
  invariant readsRules(reader) && RT[reader] == old(FC[a.path]) && FR[file] && file != nil && okAdder(model) && a.path == old(a.path)
  invariant #set forall s SeqS :: {hs(s)} {MR[model][s]} {RV[reader][s]} lists(model, s) <==> old(lists(model, s)) || RV[reader][s]
  invariant #quiet old(quietSet(model)) ==> quietSet(model) && sameheap(FC, FH, FG, fieldof(adapter.FileAdapter), elemsof(string), elemsof("[]string"))

define setIs(c string, c0 string, s SeqS, add bool) bool = csvText(c) && (forall x SeqS :: {rs(c)[x]} rs(c)[x] <==> ite(x == s, add, rs(c0)[x]))
define keptAlways(a *adapter.FileAdapter, s SeqS, add bool) bool = FG[a.path] == old(FG[a.path]) && (forall x string :: {FH[a.path][x]} FH[a.path][x] ==> old(FH[a.path])[x] || setIs(x, old(FC[a.path]), s, add))
// rules without any value are not values a file can hold
define okText(c string) bool = csvText(c) && (forall x SeqS :: {rs(c)[x]} rs(c)[x] ==> len(x) > 0)
contract adapter.NewFileAdapter(path) (a) @C13
  ensures a != nil && fresh(a) && a.path == path
contract adapter.NewRuleSet() (set) @C13
  ensures fresh(set) && okSet(set) && fresh(set.Policy) && quietSet(any(set)) && (forall s SeqS :: {hs(s)} !lists(any(set), s))
contract (*adapter.FileAdapter).AddRule(a, rule) (err) @C13,C19
  option hide=hs_empty,hs_cons,nonempty,assoc,emptyright,emptyleft,colon,cut,hashinj,itoa_digits,itoa_distinct,cutAt,segInj
  requires a != nil && len(rule) > 0
  requires okText(FC[a.path])
  modifies *
  ensures #added err == nil ==> setIs(FC[a.path], old(FC[a.path]), old(seq(rule)), true)
  ensures #kept err != nil ==> FC[a.path] == old(FC[a.path])
  ensures #atomic a.path == old(a.path) && keptAlways(a, old(seq(rule)), true)
contract (*adapter.FileAdapter).RemoveRule(a, rule) (err) @C13,C19
  option hide=hs_empty,hs_cons,nonempty,assoc,emptyright,emptyleft,colon,cut,hashinj,itoa_digits,itoa_distinct,cutAt,segInj
  requires a != nil && len(rule) > 0
  requires okText(FC[a.path])
  modifies *
  ensures #removed err == nil ==> setIs(FC[a.path], old(FC[a.path]), old(seq(rule)), false)
  ensures #kept err != nil ==> FC[a.path] == old(FC[a.path])
  ensures #atomic a.path == old(a.path) && keptAlways(a, old(seq(rule)), false)

// batches: rules are preserved while a file is changed, rules[i] stands for its values before and after
define someRule(rules [][]string, n int, x SeqS) bool = exists i int :: {content(rules)[i]} off(rules) <= i && i < off(rules) + n && x == seq(content(rules)[i])
define addedAll(c string, c0 string, rules [][]string) bool = csvText(c) && (forall x SeqS :: {rs(c)[x]} (rs(c0)[x] ==> rs(c)[x]) && (rs(c)[x] ==> rs(c0)[x] || someRule(rules, len(rules), x))) && (forall j int :: {content(rules)[j]} off(rules) <= j && j < off(rules) + len(rules) ==> rs(c)[seq(content(rules)[j])])
define removedAll(c string, c0 string, rules [][]string) bool = csvText(c) && (forall x SeqS :: {rs(c)[x]} (rs(c)[x] ==> rs(c0)[x]) && (rs(c0)[x] ==> rs(c)[x] || someRule(rules, len(rules), x))) && (forall j int :: {content(rules)[j]} off(rules) <= j && j < off(rules) + len(rules) ==> !rs(c)[seq(content(rules)[j])])
define okRules(rules [][]string) bool = forall j int :: {content(rules)[j]} off(rules) <= j && j < off(rules) + len(rules) ==> len(content(rules)[j]) > 0 && allocated(content(rules)[j])
contract (*adapter.FileAdapter).AddRules(a, rules) (err) @C13,C19
  option hide=hs_empty,hs_cons,nonempty,assoc,emptyright,emptyleft,colon,cut,hashinj,itoa_digits,itoa_distinct,cutAt,segInj
  requires a != nil && okRules(rules)
  requires okText(FC[a.path])
  modifies *
  ensures #added err == nil ==> addedAll(FC[a.path], old(FC[a.path]), rules)
  ensures #kept err != nil ==> FC[a.path] == old(FC[a.path])
  ensures #atomic a.path == old(a.path) && FG[a.path] == old(FG[a.path])
  ensures #moments forall x string :: {FH[a.path][x]} FH[a.path][x] ==> old(FH[a.path])[x] || addedAll(x, old(FC[a.path]), rules)
  loop 1
  var rs *adapter.RuleSet
  invariant okSet(rs) && quietSet(any(rs)) && a.path == old(a.path) && sameheap(FC, FH, FG, elemsof(string), elemsof("[]string"))
  invariant forall x SeqS :: {hs(x)} (rs(old(FC[a.path]))[x] ==> lists(any(rs), x)) && (lists(any(rs), x) ==> rs(old(FC[a.path]))[x] || someRule(rules, $k, x))
  invariant forall j int :: {content(rules)[j]} off(rules) <= j && j < off(rules) + $k ==> lists(any(rs), seq(content(rules)[j]))
contract (*adapter.FileAdapter).RemoveRules(a, rules) (err) @C13,C19
  option hide=hs_empty,hs_cons,nonempty,assoc,emptyright,emptyleft,colon,cut,hashinj,itoa_digits,itoa_distinct,cutAt,segInj
  requires a != nil && okRules(rules)
  requires okText(FC[a.path])
  modifies *
  ensures #removed err == nil ==> removedAll(FC[a.path], old(FC[a.path]), rules)
  ensures #kept err != nil ==> FC[a.path] == old(FC[a.path])
  ensures #atomic a.path == old(a.path) && FG[a.path] == old(FG[a.path])
  ensures #moments forall x string :: {FH[a.path][x]} FH[a.path][x] ==> old(FH[a.path])[x] || removedAll(x, old(FC[a.path]), rules)
  loop 1
  var rs *adapter.RuleSet
  invariant okSet(rs) && quietSet(any(rs)) && a.path == old(a.path) && sameheap(FC, FH, FG, elemsof(string), elemsof("[]string"))
  invariant forall x SeqS :: {hs(x)} (lists(any(rs), x) ==> rs(old(FC[a.path]))[x]) && (rs(old(FC[a.path]))[x] ==> lists(any(rs), x) || someRule(rules, $k, x))
  invariant forall j int :: {content(rules)[j]} off(rules) <= j && j < off(rules) + $k ==> !lists(any(rs), seq(content(rules)[j]))
