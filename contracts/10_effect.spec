// ---- policy definitions ----
define okDef(d *defs.PolicyDef) bool = d != nil && d.argIndex != nil && (forall n string :: {d.argIndex[n]} n in d.argIndex ==> 0 <= d.argIndex[n] && d.argIndex[n] < len(d.args))
define idxOf(d *defs.PolicyDef, n int, name string) int = d.argIndex[name] + ite(n > len(d.args), 1, 0)
define eftStr(s string) types.Effect = ite(s == "" || s == "allow", eft.Allow, ite(s == "deny", eft.Deny, eft.Indeterminate))
define eftOf(d *defs.PolicyDef, r SeqS) types.Effect = ite(!((d.key + "_eft") in d.argIndex) || idxOf(d, len(r), d.key + "_eft") >= len(r), eft.Allow, eftStr(r[idxOf(d, len(r), d.key + "_eft")]))

contract (*defs.PolicyDef).GetParameter(def, rule, name) (value, err) @C18,C01,C02
  requires okDef(def)
  option pure
  ensures #missing err != nil <==> !(name in def.argIndex) || idxOf(def, len(rule), name) >= len(rule)
  ensures #position err == nil ==> value == rule[idxOf(def, len(rule), name)]
  ensures #none err != nil ==> value == ""

contract (*defs.PolicyDef).GetEft(def, values) (res) @C18,C01
  requires okDef(def)
  option pure
  ensures #position res == eftOf(def, seq(values))

contract (*effector.DefaultEffector).MergeEffects(e, effects, matches, complete) (res, rule, err) @C01,C05
  requires e != nil && e.EffectDef != nil
  requires len(effects) == len(matches)
  let ex = e.EffectDef.expr
  ensures #unsupported err != nil <==> !(ex == eft.SOME_ALLOW || ex == eft.NO_DENY || ex == eft.SOME_ALLOW_NO_DENY)
  ensures #failed err != nil ==> res == eft.Deny
  ensures #some err == nil && complete && ex == eft.SOME_ALLOW ==> res == eft.Deny
  ensures #none err == nil && complete && ex == eft.NO_DENY ==> res == eft.Allow
  ensures #both err == nil && complete && ex == eft.SOME_ALLOW_NO_DENY ==> (res == eft.Allow <==> exists i int :: {effects[i]} 0 <= i && i < len(effects) && effects[i] == eft.Allow)
  ensures #early1 err == nil && !complete && ex == eft.SOME_ALLOW ==> (res == eft.Indeterminate || res == eft.Allow) && (res == eft.Allow <==> len(effects) > 0 && effects[len(effects)-1] == eft.Allow)
  ensures #early2 err == nil && !complete && ex != eft.SOME_ALLOW ==> (res == eft.Indeterminate || res == eft.Deny) && (res == eft.Deny <==> len(effects) > 0 && effects[len(effects)-1] == eft.Deny)
  loop 1
  invariant forall i int :: 0 <= i && i < $k ==> effects[i] != eft.Allow
