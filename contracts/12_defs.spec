// ---- definitions: arguments by declared position ----
contract strings.Split(s, sep) (parts) trusted
  ensures fresh(parts) && len(parts) >= 1
  ensures len(sep) > 0 ==> seq(parts) == sg(s, sep)
declare repl(s string, a string, b string) string
declare join(v SeqS, sep string) string
contract strings.ReplaceAll(s, a, b) (r) trusted
  option pure
  ensures r == repl(s, a, b)
contract strings.Join(elems, sep) (r) trusted
  option pure
  ensures r == join(seq(elems), sep)

// the index knows exactly the declared names, at a position that declares them
define declIdx(key string, args []string, n int, m map[string]int) bool = (forall j int :: {content(args)[j]} off(args) <= j && j < off(args) + n ==> ((key + "_") + content(args)[j]) in m && j - off(args) <= m[(key + "_") + content(args)[j]]) && (forall x string :: {m[x]} {x in m} x in m ==> 0 <= m[x] && m[x] < n && x == (key + "_") + args[m[x]])

contract defs.NewPolicyDef(key, arguments) (def) @C18,C15
  ensures #built okDef(def) && fresh(def) && def.key == key
  ensures #declared declIdx(key, def.args, len(def.args), def.argIndex)
  loop 1
  var def *defs.PolicyDef
  invariant fresh(def) && fresh(def.argIndex) && def.argIndex != nil && def.key == key && arr(def.args) == atentry(arr(def.args)) && len(def.args) == atentry(len(def.args)) && off(def.args) == atentry(off(def.args))
  invariant declIdx(key, def.args, $k, def.argIndex)

contract defs.NewRequestDef(key, arguments) (def) @C18,C15
  ensures #built okRDef(def) && fresh(def) && def.key == key
  ensures #declared declIdx(key, def.args, len(def.args), def.argIndex)
  loop 1
  var def *defs.RequestDef
  invariant fresh(def) && fresh(def.argIndex) && def.argIndex != nil && def.key == key && arr(def.args) == atentry(arr(def.args)) && len(def.args) == atentry(len(def.args)) && off(def.args) == atentry(off(def.args))
  invariant declIdx(key, def.args, $k, def.argIndex)

contract (*defs.PolicyDef).Has(def, name) (ok) @C18
  requires def != nil
  option pure
  ensures ok <==> name in def.argIndex
contract (*defs.PolicyDef).GetArgs(def) (args) @C18
  requires def != nil
  option pure
  ensures args == def.args
contract (*defs.PolicyDef).GetKey(def) (key) @C18
  requires def != nil
  option pure
  ensures key == def.key

// the values of all names, by position, or an error if one is missing
define badName(d *defs.PolicyDef, n int, name string) bool = !(name in d.argIndex) || idxOf(d, n, name) >= n
// the values of the names ns in the rule r, and whether the rule has them all
declare argsOf(d int, ns SeqS, r SeqS) SeqS
declare argsOk(d int, ns SeqS, r SeqS) bool
define argsDef(d *defs.PolicyDef) bool = (forall ns SeqS, r SeqS :: {argsOf(d, ns, r)} len(argsOf(d, ns, r)) == len(ns)) && (forall ns SeqS, r SeqS, i int :: {argsOf(d, ns, r)[i]} 0 <= i && i < len(ns) ==> argsOf(d, ns, r)[i] == r[idxOf(d, len(r), ns[i])]) && (forall ns SeqS, r SeqS :: {argsOk(d, ns, r)} argsOk(d, ns, r) <==> (forall j int :: {ns[j]} 0 <= j && j < len(ns) ==> !badName(d, len(r), ns[j])))
contract (*defs.PolicyDef).GetParameters(def, rule, names) (params, err) @C18,C02
  requires okDef(def)
  ensures #missing err != nil <==> exists j int :: {content(names)[j]} off(names) <= j && j < off(names) + len(names) && badName(def, len(rule), content(names)[j])
  ensures #values err == nil ==> fresh(params) && len(params) == len(names) && (forall i int :: {params[i]} 0 <= i && i < len(names) ==> params[i] == rule[idxOf(def, len(rule), names[i])])
  ensures #parok argsDef(def) ==> (err == nil <==> argsOk(def, seq(names), seq(rule)))
  ensures #par argsDef(def) && err == nil ==> seq(params) == argsOf(def, seq(names), seq(rule))
  loop 1
  var params []string
  invariant fresh(params) && len(params) == $k
  invariant forall i int :: {content(params)[i]} off(params) <= i && i < off(params) + $k ==> content(params)[i] == rule[idxOf(def, len(rule), names[i - off(params)])]
  invariant $k < len(names) ==> seq(names)[$k] == names[$k]
  invariant forall j int :: {content(names)[j]} off(names) <= j && j < off(names) + $k ==> !badName(def, len(rule), content(names)[j])

define okRDef(d *defs.RequestDef) bool = d != nil && d.argIndex != nil && (forall n string :: {d.argIndex[n]} n in d.argIndex ==> 0 <= d.argIndex[n] && d.argIndex[n] < len(d.args))
define ridxOf(d *defs.RequestDef, n int, name string) int = d.argIndex[name] + ite(n > len(d.args), 1, 0)
define badRName(d *defs.RequestDef, n int, name string) bool = !(name in d.argIndex) || ridxOf(d, n, name) >= n
contract (*defs.RequestDef).Has(def, name) (ok) @C18
  requires def != nil
  option pure
  ensures ok <==> name in def.argIndex
contract (*defs.RequestDef).GetParameter(def, values, name) (value, err) @C18,C05
  requires okRDef(def)
  option pure
  ensures #missing err != nil <==> badRName(def, len(values), name)
  ensures #position err == nil ==> value == values[ridxOf(def, len(values), name)]
contract (*defs.RequestDef).GetParameters(def, values, names) (params, err) @C18
  requires okRDef(def)
  ensures #missing err != nil <==> exists i int :: 0 <= i && i < len(names) && badRName(def, len(values), names[i])
  ensures #values err == nil ==> fresh(params) && len(params) == len(names) && (forall i int :: {params[i]} 0 <= i && i < len(names) ==> params[i] == values[ridxOf(def, len(values), names[i])])
  loop 1
  var params []any
  invariant fresh(params) && len(params) == $k
  invariant forall i int :: {content(params)[i]} off(params) <= i && i < off(params) + $k ==> content(params)[i] == values[ridxOf(def, len(values), names[i - off(params)])]
  invariant forall i int :: {names[i]} 0 <= i && i < $k ==> !badRName(def, len(values), names[i])

// a matcher argument is looked up in the rule or in the request, by its first letter
contract (*matcher.MatchParameters).Get(params, name) (value, err) @C18,C05,C02
  requires params != nil && okDef(params.pDef) && okRDef(params.rDef)
  option pure
  ensures #empty len(name) == 0 ==> err != nil
  ensures #rule len(name) > 0 && (name[0] == 'p' || name[0] == 'g') ==> (err != nil <==> badName(params.pDef, len(params.pvals), name)) && (err == nil ==> value == any(params.pvals[idxOf(params.pDef, len(params.pvals), name)]))
  ensures #request len(name) > 0 && name[0] == 'r' ==> (err != nil <==> badRName(params.rDef, len(params.rvals), name)) && (err == nil ==> value == params.rvals[ridxOf(params.rDef, len(params.rvals), name)])
  ensures #other len(name) > 0 && name[0] != 'p' && name[0] != 'g' && name[0] != 'r' ==> err != nil
