// ---- rule keys ----
// hs(s) is the key of the values s
declare hs(s SeqS) string
axiom hs_empty: forall s SeqS :: {hs(s)} len(s) == 0 ==> hs(s) == ""
axiom hs_cons: forall s SeqS :: {hs(s), tail(s)} len(s) > 0 ==> hs(s) == itoa(len(s[0])) + (":" + (s[0] + hs(tail(s))))
lemma nonempty(s SeqS) @C06
  trigger {hs(s)}
  requires len(s) > 0
  ensures #hint len(tail(s)) >= 0
  ensures len(hs(s)) > 0
  option axiom
// different values have different keys
lemma hashinj(a SeqS, b SeqS) @C06
  trigger {hs(a), hs(b)}
  induct len(a)
  requires hs(a) == hs(b)
  ensures #hint len(tail(a)) >= 0 && len(tail(b)) >= 0
  ensures a == b
  option axiom
contract util.Hash(rule) (key) @C06
  option pure
  ensures #key key == hs(seq(rule))
  loop 1
  var sb strings.Builder
  invariant hs(seq(rule)) == SB[sb] + hs(seq(rule[$k:]))
  invariant $k < len(rule) ==> same(tail(seq(rule[$k:])), seq(rule[$k + 1:]))
