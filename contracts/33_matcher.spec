// ---- evaluation of matcher stages (the expression library is trusted) ----
sort QSet = (Array SeqS Bool)
declare rxMatch(re int, s string) bool
declare rxRepl(re int, s string, by string) string
contract (*regexp.Regexp).MatchString(re, s) (m) trusted
  option pure
  ensures m == rxMatch(re, s)
contract (*regexp.Regexp).ReplaceAllString(re, s, by) (r) trusted
  option pure
  ensures r == rxRepl(re, s, by)

// the meaning of a stage tree, which never changes once it is built
declare stEx(c int) string
declare he(c int) bool
// the definition the rules of a matcher follow
declare dOf(c int) int
declare gk(c int, r SeqS) string
declare av(c int, r SeqS) bool
declare pv(c int, r SeqS) SeqS
declare Sat(c int, q int, r SeqS) bool
declare Fine(c int, q int, f int, r SeqS) bool
// result and failure of an expression for a rule; q stands for the request, the definitions and the functions
declare evT(ex string, q int, r SeqS) bool
declare evErr(ex string, q int, r SeqS) bool
// the key of a rule that does not have all arguments of a stage; no key of values looks like it
declare bang(r SeqS) string
axiom bangDef: forall r SeqS :: {"!" + hs(r)} bang(r) == "!" + hs(r)
lemma bangInj(a SeqS, b SeqS) @C02,C03
  trigger {bang(a), bang(b)}
  requires bang(a) == bang(b)
  ensures #hint bang(a) == "!" + hs(a) && bang(b) == "!" + hs(b)
  ensures hs(a) == hs(b)
  option axiom

// no key of values starts like that of an incomplete rule
lemma digitNotBang(a string, x string, y string) @C02,C03
  trigger {a + (":" + x), "!" + y}
  requires isdig(a)
  ensures a + (":" + x) != "!" + y
  option native axiom
lemma bangNotKey(a SeqS, b SeqS) @C02,C03
  trigger {bang(a), hs(b)}
  requires bang(a) == hs(b)
  ensures #hint bang(a) == "!" + hs(a) && len(bang(a)) >= 1 && len(b) > 0 && len(tail(b)) >= 0 && isdig(itoa(len(b[0]))) && false
  ensures false
  option axiom
// the key of a rule at a stage: that of its values if all of them count, else that of the arguments of the stage
declare whole(c int) bool
axiom gkDef: forall c int, r SeqS :: {gk(c, r)} gk(c, r) == ite(whole(c), hs(r), ite(av(c, r), hs(pv(c, r)), bang(r)))
// the library is given nothing of the rule but the arguments the expression names, unless it calls eval
axiom evDep: forall c int, q int, a SeqS, b SeqS :: {pv(c, a), pv(c, b), evT(stEx(c), q, a)} {pv(c, a), pv(c, b), evErr(stEx(c), q, a)} !whole(c) && av(c, a) && av(c, b) && pv(c, a) == pv(c, b) ==> evT(stEx(c), q, a) == evT(stEx(c), q, b) && evErr(stEx(c), q, a) == evErr(stEx(c), q, b)
// rules with the same key get the same result
lemma evKey(c int, q int, a SeqS, b SeqS) @C02,C03
  trigger {gk(c, a), gk(c, b), evT(stEx(c), q, a)}
  trigger {gk(c, a), gk(c, b), evErr(stEx(c), q, a)}
  requires gk(c, a) == gk(c, b)
  ensures #hint gk(c, a) == ite(whole(c), hs(a), ite(av(c, a), hs(pv(c, a)), bang(a)))
  ensures evT(stEx(c), q, a) == evT(stEx(c), q, b) && evErr(stEx(c), q, a) == evErr(stEx(c), q, b)
  option axiom

define leaf(c *defs.MatcherStage) bool = len(c.children) == 0
define hasEv(c *defs.MatcherStage) bool = rxMatch(defs.evalReg, rxRepl(defs.literalReg, c.expr, "''"))
define stDef(d *defs.PolicyDef) bool = (forall c *defs.MatcherStage :: {c.expr} {stEx(c)} {he(c)} c != nil ==> stEx(c) == c.expr && he(c) == hasEv(c)) && (forall c *defs.MatcherStage :: {whole(c)} c != nil ==> (whole(c) <==> len(c.pArgs) == 0 || leaf(c) || he(c))) && (forall c *defs.MatcherStage, r SeqS :: {gk(c, r)} c != nil && dOf(c) == d ==> gk(c, r) == ite(len(c.pArgs) == 0 || leaf(c) || he(c), hs(r), ite(av(c, r), hs(pv(c, r)), bang(r)))) && (forall c *defs.MatcherStage, r SeqS :: {av(c, r)} c != nil && dOf(c) == d ==> (av(c, r) <==> argsOk(d, seq(c.pArgs), r))) && (forall c *defs.MatcherStage, r SeqS :: {pv(c, r)} c != nil && dOf(c) == d ==> same(pv(c, r), argsOf(d, seq(c.pArgs), r)))
define okSt() bool = forall c *defs.MatcherStage, j int :: {content(c.children)[j]} c != nil && off(c.children) <= j && j < off(c.children) + len(c.children) ==> content(c.children)[j] != nil && dOf(content(c.children)[j]) == dOf(c)
// a rule satisfies a stage if it satisfies one of its children, and then that child
define satDef() bool = (forall c *defs.MatcherStage, q int, r SeqS :: {Sat(c, q, r)} c != nil ==> (Sat(c, q, r) <==> (exists j int :: {content(c.children)[j]} off(c.children) <= j && j < off(c.children) + len(c.children) && evT(stEx(content(c.children)[j]), q, r) && (leaf(content(c.children)[j]) || Sat(content(c.children)[j], q, r)))))

contract (*defs.MatcherStage).HasEval(stage) (b) @C02,C03
  requires stage != nil
  option pure
  ensures b == hasEv(stage)

// ---- the index of a matcher ----
// nodes: stage, rules below, depth, and the map, key that lead to it
ghost STG (Array Int Int) default 0
ghost RS (Array Int QSet) default emptyset(SeqS)
ghost ND (Array Int Int) default 0
ghost PM (Array Int Int) default 0
ghost PK (Array Int Str) default ""
// child maps: stage of the children, owner, position, rules below
ghost MC (Array Int Int) default 0
ghost MO (Array Int Int) default 0
ghost MI (Array Int Int) default 0
ghost MS (Array Int QSet) default emptyset(SeqS)

define nkids(s *defs.MatcherStage) int = len(s.children)
define kid(s *defs.MatcherStage, i int) *defs.MatcherStage = content(s.children)[off(s.children) + i]
define live(n *matcher.MatcherNode, lv int) bool = STG[n] != 0 && !lf(STG[n]) && ND[n] >= lv
define liveMap(mp map[string]*matcher.MatcherNode, lv int) bool = MC[mp] != 0 && ND[MO[mp]] >= lv
// all nodes and maps from the level lv on are in order
define inv1(lv int) bool = forall n *matcher.MatcherNode :: {STG[n]} live(n, lv) ==> allocated(n) && len(n.children) == nkids(STG[n])
define inv2(lv int) bool = forall n *matcher.MatcherNode, j int :: {content(n.children)[j]} live(n, lv) && off(n.children) <= j && j < off(n.children) + len(n.children) ==> isChild(n, j)
define isChild(n *matcher.MatcherNode, j int) bool = content(n.children)[j] != nil && allocated(content(n.children)[j]) && MO[content(n.children)[j]] == n && MI[content(n.children)[j]] == j - off(n.children) && MC[content(n.children)[j]] == kid(STG[n], j - off(n.children)) && MC[content(n.children)[j]] != 0
define inv3(lv int) bool = forall n *matcher.MatcherNode, j int :: {content(n.children)[j]} live(n, lv) && off(n.children) <= j && j < off(n.children) + len(n.children) ==> MS[content(n.children)[j]] == RS[n]
define inv4(lv int) bool = forall mp map[string]*matcher.MatcherNode, k string :: {mp[k]} {k in mp} liveMap(mp, lv) && k in mp ==> inMap(mp, k)
define inMap(mp map[string]*matcher.MatcherNode, k string) bool = mp[k] != nil && wf(mp[k].rule) && gk(MC[mp], seq(mp[k].rule)) == k && (lf(MC[mp]) ==> mk(seq(mp[k].rule)) && MS[mp][seq(mp[k].rule)]) && (!lf(MC[mp]) ==> STG[mp[k]] == MC[mp] && ND[mp[k]] == ND[MO[mp]] + 1 && PM[mp[k]] == mp && PK[mp[k]] == k)
define inv5(lv int) bool = forall mp map[string]*matcher.MatcherNode, k string :: {mp[k]} {k in mp} liveMap(mp, lv) && k in mp && !lf(MC[mp]) ==> hasRule(mp[k])
// mk is true of everything, it only makes terms known to the solver
declare mk(r SeqS) bool
axiom mkAll: forall r SeqS :: {mk(r)} mk(r)
define hasRule(n *matcher.MatcherNode) bool = exists r SeqS :: {mk(r)} mk(r) && RS[n][r]
define inv6(lv int) bool = forall mp map[string]*matcher.MatcherNode, k string, r SeqS :: {RS[mp[k]][r]} liveMap(mp, lv) && k in mp && !lf(MC[mp]) ==> (RS[mp[k]][r] <==> MS[mp][r] && gk(MC[mp], r) == k)
define inv7(lv int) bool = forall mp map[string]*matcher.MatcherNode, r SeqS :: {MS[mp][r]} liveMap(mp, lv) && MS[mp][r] ==> gk(MC[mp], r) in mp
define lf(c *defs.MatcherStage) bool = len(c.children) == 0
// owners exist, whatever their level
define inv0() bool = forall x int :: {MC[x]} {MO[x]} MC[x] != 0 ==> allocated(MO[x])
define inv(lv int) bool = inv0() && inv1(lv) && inv2(lv) && inv3(lv) && inv4(lv) && inv5(lv) && inv6(lv) && inv7(lv)

define newMap(mp map[string]*matcher.MatcherNode, n *matcher.MatcherNode, i int, c *defs.MatcherStage) bool = fresh(mp) && allocated(mp) && mp != nil && MO[mp] == n && MI[mp] == i && MC[mp] == c && MS[mp] == emptyset(SeqS) && (forall k string :: {k in mp} !(k in mp))
// all new child maps belong to the node n
define onlyNew(n *matcher.MatcherNode) bool = forall x int :: {MC[x]} {MO[x]} fresh(x) && MC[x] != 0 ==> fresh(n) && MO[x] == n && 0 <= MI[x] && MI[x] < len(n.children) && x == content(n.children)[off(n.children) + MI[x]]
define mapsKept() bool = forall m int :: {MO[m]} {MI[m]} {MC[m]} {MS[m]} !fresh(m) ==> MO[m] == old(MO)[m] && MI[m] == old(MI)[m] && MC[m] == old(MC)[m] && MS[m] == old(MS)[m]

contract matcher.NewMatcherNode(rule, stage) (node) @C02,C03
  requires stage != nil
  modifies MO, MI, MC, MS, STG
  setpost STG[node] := stage
  ensures #fields fresh(node) && node.rule == rule && STG == store(old(STG), node, stage) && RS[node] == emptyset(SeqS)
  ensures #children fresh(node.children) && len(node.children) == len(stage.children)
  ensures #maps forall j int :: {content(node.children)[j]} off(node.children) <= j && j < off(node.children) + len(node.children) ==> newMap(content(node.children)[j], node, j - off(node.children), kid(stage, j - off(node.children)))
  ensures #others mapsKept()
  ensures #new onlyNew(node)
  loop 1
  var node *matcher.MatcherNode
  invariant fresh(node) && node.rule == rule && fresh(node.children) && len(node.children) == len(stage.children) && RS[node] == emptyset(SeqS)
  invariant forall j int :: {content(node.children)[j]} off(node.children) <= j && j < off(node.children) + $k ==> allocated(content(node.children)[j]) && newMap(content(node.children)[j], node, j - off(node.children), kid(stage, j - off(node.children)))
  invariant mapsKept()
  invariant forall x int :: {MC[x]} {MO[x]} fresh(x) && MC[x] != 0 ==> MO[x] == node && 0 <= MI[x] && MI[x] < $k && x == content(node.children)[off(node.children) + MI[x]]
  set MO[content(node.children)[off(node.children) + $k - 1]] := node
  set MI[content(node.children)[off(node.children) + $k - 1]] := $k - 1
  set MC[content(node.children)[off(node.children) + $k - 1]] := kid(stage, $k - 1)
  set MS[content(node.children)[off(node.children) + $k - 1]] := emptyset(SeqS)

define ixOk(n *matcher.MatcherNode, i int) bool = n != nil && 0 <= i && i < len(n.children)
contract (*matcher.MatcherNode).GetOrCreate(n, i, key, rule, stage) (node) @C02,C03
  requires ixOk(n, i) && stage != nil
  requires #key key == gk(stage, seq(rule))
  let mp = n.children[i]
  requires mp != nil && (key in mp ==> mp[key] != nil && STG[mp[key]] == stage && ND[mp[key]] == ND[n] + 1 && PM[mp[key]] == mp && PK[mp[key]] == key)
  modifies map(mp), STG, ND, PM, PK, MO, MI, MC, MS
  setpost ND[node] := ND[n] + 1
  setpost PM[node] := mp
  setpost PK[node] := key
  ensures #found old(key in mp) ==> node == old(mp[key]) && dom(mp) == old(dom(mp)) && vals(mp) == old(vals(mp)) && MC == old(MC) && MO == old(MO) && MI == old(MI) && MS == old(MS)
  ensures #created !old(key in mp) ==> fresh(node) && node.rule == rule && RS[node] == emptyset(SeqS) && dom(mp) == add(old(dom(mp)), key) && vals(mp) == store(old(vals(mp)), key, node) && len(node.children) == len(stage.children)
  ensures #createdmaps !old(key in mp) ==> (forall j int :: {content(node.children)[j]} off(node.children) <= j && j < off(node.children) + len(node.children) ==> newMap(content(node.children)[j], node, j - off(node.children), kid(stage, j - off(node.children))))
  ensures #ghosts STG == store(old(STG), node, stage) && ND == store(old(ND), node, ND[n] + 1) && PM == store(old(PM), node, mp) && PK == store(old(PK), node, key)
  ensures #others mapsKept()
  ensures #new onlyNew(node)

// what lies above the node n of the level lv, and its siblings
define nodesKept() bool = forall x int :: {STG[x]} {ND[x]} {PM[x]} {PK[x]} !fresh(x) ==> STG[x] == old(STG)[x] && ND[x] == old(ND)[x] && PM[x] == old(PM)[x] && PK[x] == old(PK)[x]
define ownersKept() bool = forall x int :: {MO[x]} {MI[x]} {MC[x]} !fresh(x) ==> MO[x] == old(MO)[x] && MI[x] == old(MI)[x] && MC[x] == old(MC)[x]
define setsKept(n *matcher.MatcherNode, lv int) bool = forall x int :: {RS[x]} !fresh(x) && x != n && ND[x] <= lv ==> RS[x] == old(RS)[x]
define aboveKept(lv int) bool = forall mp map[string]*matcher.MatcherNode :: {dom(mp)} {vals(mp)} {MS[mp]} !fresh(mp) && MC[mp] != 0 && ND[MO[mp]] < lv ==> dom(mp) == old(dom(mp)) && vals(mp) == old(vals(mp)) && MS[mp] == old(MS)[mp]

define below(lv int) bool = (forall x int :: {STG[x]} {ND[x]} fresh(x) && STG[x] != 0 ==> lf(STG[x]) || ND[x] > lv) && (forall x int :: {MC[x]} {MO[x]} fresh(x) && MC[x] != 0 ==> ND[MO[x]] > lv)

contract (*matcher.Matcher).addRuleHelper(m, rule, exprNode, node) @C02,C03
  option hide=hs_empty,hs_cons,nonempty,assoc,emptyright,emptyleft,colon,cut,itoa_digits,itoa_distinct
  requires m != nil && okDef(m.pDef) && argsDef(m.pDef) && stDef(m.pDef) && okSt()
  requires node != nil && exprNode != nil && STG[node] == exprNode && dOf(exprNode) == m.pDef
  requires mk(seq(rule))
  requires #i0 inv0()
  requires #i1 inv1(ND[node])
  requires #i2 inv2(ND[node])
  requires #i3 inv3(ND[node])
  requires #i4 inv4(ND[node])
  requires #i5 inv5(ND[node])
  requires #i6 inv6(ND[node])
  requires #i7 inv7(ND[node])
  modifies mapsof("map[string]*matcher.MatcherNode"), STG, ND, PM, PK, MO, MI, MC, MS, RS
  setpost RS[node] := add(RS[node], seq(rule))
  ensures #added RS[node] == add(old(RS[node]), seq(rule))
  ensures #inv0 inv0()
  ensures #inv1 inv1(ND[node])
  ensures #inv2 inv2(ND[node])
  ensures #inv3 inv3(ND[node])
  ensures #inv4 inv4(ND[node])
  ensures #inv5 inv5(ND[node])
  ensures #inv6 inv6(ND[node])
  ensures #inv7 inv7(ND[node])
  ensures #nodes nodesKept() && ownersKept()
  ensures #sets setsKept(node, ND[node])
  ensures #above aboveKept(ND[node])
  ensures #below below(ND[node])
  loop 1
  invariant nodesKept() && ownersKept()
  invariant setsKept(node, ND[node]) && RS[node] == old(RS)[node]
  invariant aboveKept(ND[node])
  invariant below(ND[node])
  invariant #inv0 inv0()
  invariant #inv1 inv1(ND[node])
  invariant #inv2 inv2(ND[node])
  invariant #inv3 forall n *matcher.MatcherNode, j int :: {content(n.children)[j]} live(n, ND[node]) && off(n.children) <= j && j < off(n.children) + len(n.children) ==> MS[content(n.children)[j]] == ite(n == node && j < off(n.children) + $k, add(RS[n], seq(rule)), RS[n])
  invariant #inv4 inv4(ND[node])
  invariant #inv5 inv5(ND[node])
  invariant #inv6 inv6(ND[node])
  invariant #inv7 inv7(ND[node])
  set MS[content(node.children)[off(node.children) + $k - 1]] := add(RS[node], seq(rule))

contract (*matcher.Matcher).removeRuleHelper(m, rule, exprNode, node) @C02,C03
  option hide=hs_empty,hs_cons,nonempty,assoc,emptyright,emptyleft,colon,cut,itoa_digits,itoa_distinct,evKey,evDep,bangNotKey,digitNotBang,gkDef
  requires m != nil && okDef(m.pDef) && argsDef(m.pDef) && stDef(m.pDef) && okSt()
  requires node != nil && exprNode != nil && STG[node] == exprNode && dOf(exprNode) == m.pDef
  requires mk(seq(rule))
  requires #i0 inv0()
  requires #i1 inv1(ND[node])
  requires #i2 inv2(ND[node])
  requires #i3 inv3(ND[node])
  requires #i4 inv4(ND[node])
  requires #i5 inv5(ND[node])
  requires #i6 inv6(ND[node])
  requires #i7 inv7(ND[node])
  modifies mapsof("map[string]*matcher.MatcherNode"), MS, RS
  setpost RS[node] := del(RS[node], seq(rule))
  ensures #removed RS[node] == del(old(RS[node]), seq(rule))
  ensures #inv0 inv0()
  ensures #inv1 inv1(ND[node])
  ensures #inv2 inv2(ND[node])
  ensures #inv3 inv3(ND[node])
  ensures #inv4 inv4(ND[node])
  ensures #inv5 inv5(ND[node])
  ensures #inv6 inv6(ND[node])
  ensures #inv7 inv7(ND[node])
  ensures #sets setsKept(node, ND[node])
  ensures #above aboveKept(ND[node])
  loop 1
  invariant setsKept(node, ND[node]) && RS[node] == old(RS)[node]
  invariant aboveKept(ND[node])
  invariant #inv0 inv0()
  invariant #inv1 inv1(ND[node])
  invariant #inv2 inv2(ND[node])
  invariant #inv3 forall n *matcher.MatcherNode, j int :: {content(n.children)[j]} live(n, ND[node]) && off(n.children) <= j && j < off(n.children) + len(n.children) ==> MS[content(n.children)[j]] == ite(n == node && j < off(n.children) + $k, del(RS[n], seq(rule)), RS[n])
  invariant #inv4 inv4(ND[node])
  invariant #inv5 inv5(ND[node])
  invariant #inv6 inv6(ND[node])
  invariant #inv7 inv7(ND[node])
  set MS[content(node.children)[off(node.children) + $k - 1]] := del(RS[node], seq(rule))

contract (*matcher.Matcher).addRule(m, rule) @C03
  requires m != nil && okDef(m.pDef) && argsDef(m.pDef) && stDef(m.pDef) && okSt()
  requires m.root != nil && m.exprRoot != nil && STG[m.root] == m.exprRoot && dOf(m.exprRoot) == m.pDef && ND[m.root] == 0
  requires mk(seq(rule)) && inv(0)
  modifies mapsof("map[string]*matcher.MatcherNode"), STG, ND, PM, PK, MO, MI, MC, MS, RS
  ensures #added RS[m.root] == add(old(RS[m.root]), seq(rule))
  ensures #inv0 inv(0)
  ensures #nodes nodesKept() && ownersKept()
  ensures #others setsKept(m.root, 0)

contract (*matcher.Matcher).removeRule(m, rule) @C03
  requires m != nil && okDef(m.pDef) && argsDef(m.pDef) && stDef(m.pDef) && okSt()
  requires m.root != nil && m.exprRoot != nil && STG[m.root] == m.exprRoot && dOf(m.exprRoot) == m.pDef && ND[m.root] == 0
  requires mk(seq(rule)) && inv(0)
  modifies mapsof("map[string]*matcher.MatcherNode"), MS, RS
  ensures #removed RS[m.root] == del(old(RS[m.root]), seq(rule))
  ensures #inv inv(0)
  ensures #others setsKept(m.root, 0)

// ---- evaluation ----
// a compiled expression: its text and the functions it may call; evaluating it depends on nothing else
declare exText(e int) string
declare exFns(e int) int
// stands for the request and the functions of an evaluation; eval is determined by them, too
declare qof(f int, rd defs.RequestDef, rv []any) int
// what the function map contained that a map of functions was copied from
sort FDom = (Array Str Bool)
sort FVal = (Array Str Int)
declare fsnap(d FDom, v FVal) int
define fsOf(m map[string]govaluate.ExpressionFunction) int = fsnap(dom(m), vals(m))
ghost FSRC (Array Int Int) default 0
define qp(f int, p *matcher.MatchParameters) int = qof(FSRC[f], p.rDef, p.rvals)
// an expression that does not compile cannot be evaluated
declare exBad(ex string, f int) bool
contract govaluate.NewEvaluableExpressionWithFunctions(expression, functions) (e, err) trusted
  ensures err != nil <==> exBad(expression, FSRC[functions])
  ensures err == nil ==> e != nil && fresh(e) && exText(e) == expression && exFns(e) == functions
contract (govaluate.EvaluableExpression).Eval(ex, parameters) (res, err) trusted
  let p = as(parameters, *matcher.MatchParameters)
  let q = qp(exFns(ex), p)
  ensures is(parameters, *matcher.MatchParameters) ==> (err != nil <==> evErr(exText(ex), q, seq(p.pvals))) && (err == nil ==> (is(res, bool) && as(res, bool) <==> evT(exText(ex), q, seq(p.pvals))))

declare blanks(n int) SeqS
rawaxiom blanksDef needs blanks: (assert (forall ((n Int)) (! (= (blanks n) (sqmk emptystrs 0 n)) :pattern ((blanks n)))))
// the entries of a child map: its nodes, or one for the empty rule if it has none
define noKeys(mp map[string]*matcher.MatcherNode) bool = forall k string :: {k in mp} !(k in mp)
define entry(mp map[string]*matcher.MatcherNode, c *defs.MatcherStage, n int, k string, q int) bool = (k in mp && evT(stEx(c), q, seq(mp[k].rule))) || (noKeys(mp) && k == gk(c, blanks(n)) && evT(stEx(c), q, blanks(n)))
define blankNode(nd *matcher.MatcherNode, c *defs.MatcherStage, n int) bool = seq(nd.rule) == blanks(n) && STG[nd] == c && noRules(nd)
define noRules(n *matcher.MatcherNode) bool = forall r SeqS :: {RS[n][r]} !RS[n][r]

contract (*matcher.Matcher).rangeMatches(m, exprNode, rules, params, functions, fn) (cont, err) @C02,C05
  option hide=hs_empty,hs_cons,nonempty,assoc,emptyright,emptyleft,colon,cut,itoa_digits,itoa_distinct,evDep,bangInj,bangNotKey,digitNotBang,gkDef
  requires m != nil && m.pDef != nil && exprNode != nil && params != nil && stDef(m.pDef) && okSt()
  requires #keys forall k string :: {rules[k]} {k in rules} k in rules ==> rules[k] != nil && gk(exprNode, seq(rules[k].rule)) == k
  requires #inv inv(0)
  let q = qp(functions, params)
  let n = len(m.pDef.args)
  iterates fn(nd *matcher.MatcherNode) over k string where entry(rules, exprNode, n, k, q) by gk(exprNode, seq(nd.rule)) : string with nd != nil && ite(noKeys(rules), fresh(nd) && blankNode(nd, exprNode, n), nd == rules[gk(exprNode, seq(nd.rule))]) && inv(0) && mapsKept() && nodesKept() unless err != nil changes (params.pvals, MO, MI, MC, MS, STG) keeps inv(0) && mapsKept() && nodesKept()
  modifies params.pvals, MO, MI, MC, MS, STG
  ensures @C05 #compiles err == nil ==> !exBad(stEx(exprNode), FSRC[functions])
  ensures @C05 #failures err == nil && !$stopped ==> ite(noKeys(rules), !evErr(stEx(exprNode), q, blanks(n)), forall k string :: {rules[k]} {k in rules} k in rules ==> !evErr(stEx(exprNode), q, seq(rules[k].rule)))
  ensures #cont err == nil ==> (cont <==> !$stopped)
  ensures #inv inv(0)
  ensures #kept mapsKept() && nodesKept()
  loop 1
  invariant !$stopped
  invariant #nodes forall x int :: {STG[x]} atentry(allocated(x)) ==> STG[x] == atentry(STG)[x]
  invariant @C05 #fine ite(noKeys(rules), $vis[""] ==> !evErr(stEx(exprNode), q, blanks(n)), forall k string :: {$vis[k]} $vis[k] ==> !evErr(stEx(exprNode), q, seq(rules[k].rule)))
  invariant #reported forall k string :: {$rep[k]} $rep[k] ==> ite(noKeys(rules), $vis[""], $vis[k])
  invariant #complete !noKeys(rules) ==> (forall k string :: {$vis[k]} $vis[k] && evT(stEx(exprNode), q, seq(rules[k].rule)) ==> $rep[k])
  invariant #blank noKeys(rules) && $vis[""] && evT(stEx(exprNode), q, blanks(n)) ==> $rep[gk(exprNode, blanks(n))]
  invariant inv0()
  invariant inv1(0)
  invariant inv2(0)
  invariant inv3(0)
  invariant inv4(0)
  invariant inv5(0)
  invariant inv6(0)
  invariant inv7(0)
  invariant mapsKept() && nodesKept()

// the rules a node stands for; a node without rules stands for the empty one
define stands(n *matcher.MatcherNode, w int, r SeqS) bool = RS[n][r] || (noRules(n) && r == blanks(w))
define hit(c *defs.MatcherStage, j int, q int, r SeqS) bool = evT(stEx(content(c.children)[j]), q, r) && (leaf(content(c.children)[j]) || Sat(content(c.children)[j], q, r))

// nothing fails for a rule below a stage
define good(c *defs.MatcherStage, j int, q int, f int, r SeqS) bool = !exBad(stEx(content(c.children)[j]), f) && !evErr(stEx(content(c.children)[j]), q, r) && (evT(stEx(content(c.children)[j]), q, r) && !leaf(content(c.children)[j]) ==> Fine(content(c.children)[j], q, f, r))
define fineDef() bool = (forall c *defs.MatcherStage, q int, f int, r SeqS :: {Fine(c, q, f, r)} c != nil ==> (Fine(c, q, f, r) <==> (forall j int :: {content(c.children)[j]} off(c.children) <= j && j < off(c.children) + len(c.children) ==> good(c, j, q, f, r))))
contract (*matcher.Matcher).rangeMatchesHelper(m, exprNode, node, params, functions, fn) (cont, err) @C02,C05
  option hide=hs_empty,hs_cons,nonempty,assoc,emptyright,emptyleft,colon,cut,itoa_digits,itoa_distinct,evDep,bangInj,bangNotKey,digitNotBang,gkDef
  requires m != nil && okDef(m.pDef) && stDef(m.pDef) && okSt() && satDef() && fineDef()
  requires exprNode != nil && dOf(exprNode) == m.pDef && params != nil
  requires node != nil && (leaf(exprNode) || STG[node] == exprNode && ND[node] >= 0)
  requires #inv inv(0)
  let q = qp(functions, params)
  let w = len(m.pDef.args)
  iterates fn(rule []string) over r SeqS where stands(node, w, r) && Sat(exprNode, q, r) by seq(rule) : SeqS repeats with inv(0) && mapsKept() && nodesKept() unless err != nil
  modifies params.pvals, MO, MI, MC, MS, STG
  ensures @C05 #failures err == nil && !$stopped ==> (forall r SeqS :: {Fine(exprNode, q, FSRC[functions], r)} {mk(r)} stands(node, w, r) ==> Fine(exprNode, q, FSRC[functions], r))
  ensures #cont err == nil ==> (cont <==> !$stopped)
  ensures #inv inv(0)
  ensures #kept mapsKept() && nodesKept()
  loop 1
  invariant !$stopped
  invariant inv0()
  invariant inv1(0)
  invariant inv2(0)
  invariant inv3(0)
  invariant inv4(0)
  invariant inv5(0)
  invariant inv6(0)
  invariant inv7(0)
  invariant mapsKept() && nodesKept()
  invariant #complete forall r SeqS, j int :: {mk(r), content(exprNode.children)[j]} stands(node, w, r) && off(exprNode.children) <= j && j < off(exprNode.children) + $k && hit(exprNode, j, q, r) ==> $rep[r]
  invariant @C05 #fine forall r SeqS, j int :: {mk(r), content(exprNode.children)[j]} stands(node, w, r) && off(exprNode.children) <= j && j < off(exprNode.children) + $k ==> good(exprNode, j, q, FSRC[functions], r)
  loop 2
  var nextExpr *defs.MatcherStage
  var nestedErr error
  invariant !$stopped
  invariant inv0()
  invariant inv1(0)
  invariant inv2(0)
  invariant inv3(0)
  invariant inv4(0)
  invariant inv5(0)
  invariant inv6(0)
  invariant inv7(0)
  invariant mapsKept() && nodesKept()
  invariant nestedErr == nil
  invariant #kept forall r SeqS :: {$rep[r]} atentry($rep)[r] ==> $rep[r]
  invariant #complete forall r SeqS :: {mk(r)} {gk(nextExpr, r)} stands(node, w, r) && $vis[gk(nextExpr, r)] && evT(stEx(nextExpr), q, r) && (leaf(nextExpr) || Sat(nextExpr, q, r)) ==> $rep[r]
  invariant @C05 #fine forall r SeqS :: {mk(r)} {gk(nextExpr, r)} stands(node, w, r) && $vis[gk(nextExpr, r)] && evT(stEx(nextExpr), q, r) && !leaf(nextExpr) ==> Fine(nextExpr, q, FSRC[functions], r)

contract (*matcher.Matcher).rangeMatchesHelper$1(nextNode) (r) inline
  loop 1
  var nestedErr error
  invariant !$stopped
  invariant inv0()
  invariant inv1(0)
  invariant inv2(0)
  invariant inv3(0)
  invariant inv4(0)
  invariant inv5(0)
  invariant inv6(0)
  invariant inv7(0)
  invariant mapsKept() && nodesKept()
  invariant nestedErr == nil
  invariant #kept forall r SeqS :: {$rep[r]} atentry($rep)[r] ==> $rep[r]
  invariant #seen forall r SeqS :: {$vis[r]} {$rep[r]} $vis[r] ==> $rep[r]

contract (*fm.FunctionMap).Copy(f) (res) @C17,C02
  requires f != nil
  modifies FSRC
  setpost FSRC[res.fns] := fsOf(f.fns)
  ensures #copy fresh(res) && fresh(res.fns) && (forall k string :: {k in res.fns} (k in res.fns <==> k in f.fns) && (k in f.fns ==> res.fns[k] == f.fns[k]))
  ensures FSRC == store(old(FSRC), res.fns, fsOf(f.fns))
  loop 1
  var res *fm.FunctionMap
  invariant fresh(res) && fresh(res.fns)
  invariant forall k string :: {k in res.fns} {$vis[k]} k in res.fns <==> $vis[k]
  invariant forall k string :: {$vis[k]} {k in f.fns} $vis[k] ==> k in f.fns
  invariant forall k string :: {res.fns[k]} $vis[k] ==> res.fns[k] == f.fns[k]

define okMat(m *matcher.Matcher) bool = m != nil && okDef(m.pDef) && argsDef(m.pDef) && stDef(m.pDef) && m.root != nil && m.exprRoot != nil && STG[m.root] == m.exprRoot && dOf(m.exprRoot) == m.pDef && ND[m.root] == 0
// all rules satisfying the matcher are reported, and no others; nothing else changes, apart from new objects
contract (*matcher.Matcher).RangeMatches(m, rDef, rvals, fMap, fn) (err) @C02,C05,C17
  requires okMat(m) && okSt() && satDef() && fineDef() && inv(0) && fMap.fns != nil
  let fs = fsOf(fMap.fns)
  let q = qof(fs, rDef, rvals)
  let w = len(m.pDef.args)
  iterates fn(rule []string) over r SeqS where stands(m.root, w, r) && Sat(m.exprRoot, q, r) by seq(rule) : SeqS repeats with inv(0) && mapsKept() && nodesKept() unless err != nil
  modifies MO, MI, MC, MS, STG, FSRC
  ensures #inv inv(0)
  ensures #kept mapsKept() && nodesKept()
  ensures @C05 #failures err == nil && !$stopped ==> (forall r SeqS :: {mk(r)} stands(m.root, w, r) ==> Fine(m.exprRoot, q, fs, r))
  loop 1
  invariant !$stopped
