// ---- policies ----
// events emitted by each emitter: how many, their type, and their first argument
ghost EvN (Array Int Int)
ghost EvT (Array Int (Array Int Str))
ghost EvA (Array Int (Array Int Iface))
define emitted(e *eventemitter.Emitter, t string) bool = EvN[e] == old(EvN[e]) + 1 && EvT[e][old(EvN[e])] == t
define has(p *policy.Policy, s SeqS) bool = hs(s) in p.ruleMap

// listeners do not change the rules of policies and emit nothing on the same emitter
// Lis[e]: listeners have been registered at e
ghost Lis (Array Int Bool) on eventemitter.Emitter = false
contract (*go-event-emitter.Emitter).EmitEvent(e, event, arguments) trusted
  requires e != nil
  modifies *
  ensures emitted(e, event) && (len(arguments) > 0 ==> EvA[e][old(EvN[e])] == old(arguments[0]))
  ensures forall x int :: {EvN[x]} x != e ==> EvN[x] >= old(EvN[x])
  ensures forall p *policy.Policy :: {p.ruleMap} {p.Emitter} p.ruleMap == old(p.ruleMap) && p.Emitter == old(p.Emitter) && p.PolicyDef == old(p.PolicyDef) && dom(p.ruleMap) == old(dom(p.ruleMap)) && vals(p.ruleMap) == old(vals(p.ruleMap))
  ensures forall p *policy.Policy, k string :: {p.ruleMap[k]} seq(p.ruleMap[k]) == old(seq(p.ruleMap[k]))
  ensures #quiet !old(Lis[e]) ==> noEffect() && sameheap(Lis)
contract go-event-emitter.NewEmitter(async) (e) trusted
  ensures e != nil && fresh(e) && !Lis[e]

define okPol(p *policy.Policy) bool = p != nil && p.ruleMap != nil && p.Emitter != nil && (forall k string :: {p.ruleMap[k]} {k in p.ruleMap} k in p.ruleMap ==> hs(seq(p.ruleMap[k])) == k)

contract policy.NewPolicy(pDef) (p) @C06
  ensures #empty okPol(p) && fresh(p) && fresh(p.Emitter) && !Lis[p.Emitter] && p.PolicyDef == pDef && (forall s SeqS :: {hs(s)} !has(p, s))

contract (*policy.Policy).AddRule(p, rule) (added, err) @C06
  requires okPol(p)
  modifies *
  ensures err == nil
  ensures #report added <==> !old(has(p, seq(rule)))
  ensures #members forall s SeqS :: {hs(s)} has(p, s) <==> old(has(p, s)) || s == old(seq(rule))
  ensures #kept forall k string :: {p.ruleMap[k]} old(k in p.ruleMap) ==> p.ruleMap[k] == old(p.ruleMap[k])
  ensures #stored added ==> p.ruleMap[hs(old(seq(rule)))] == rule
  ensures #event added ==> emitted(p.Emitter, "rule_added") && EvA[p.Emitter][old(EvN[p.Emitter])] == any(rule)
  ensures #quiet !old(Lis[p.Emitter]) ==> noEffect() && sameheap(Lis)
  ensures #silent !added ==> EvN[p.Emitter] == old(EvN[p.Emitter])
  ensures okPol(p) && p.Emitter == old(p.Emitter) && p.PolicyDef == old(p.PolicyDef)

contract (*policy.Policy).RemoveRule(p, rule) (removed, err) @C06
  requires okPol(p)
  modifies *
  ensures err == nil
  ensures #report removed <==> old(has(p, seq(rule)))
  ensures #members forall s SeqS :: {hs(s)} has(p, s) <==> old(has(p, s)) && !(s == old(seq(rule)))
  ensures #kept forall k string :: {p.ruleMap[k]} k in p.ruleMap ==> p.ruleMap[k] == old(p.ruleMap[k])
  ensures #event removed ==> emitted(p.Emitter, "rule_removed") && EvA[p.Emitter][old(EvN[p.Emitter])] == any(rule)
  ensures #quiet !old(Lis[p.Emitter]) ==> noEffect() && sameheap(Lis)
  ensures #silent !removed ==> EvN[p.Emitter] == old(EvN[p.Emitter])
  ensures okPol(p) && p.Emitter == old(p.Emitter) && p.PolicyDef == old(p.PolicyDef)

contract (*policy.Policy).Clear(p) (err) @C06
  requires okPol(p)
  modifies *
  ensures #empty err == nil && okPol(p) && (forall s SeqS :: {hs(s)} !has(p, s))
  ensures #event emitted(p.Emitter, "cleared") && p.Emitter == old(p.Emitter) && p.PolicyDef == old(p.PolicyDef)

contract (*policy.Policy).Range(p, fn) @C06,C16
  requires okPol(p)
  iterates fn(rule []string) where hs(seq(rule)) in p.ruleMap && p.ruleMap[hs(seq(rule))] == rule by hs(seq(rule)) : string
  loop 1
  invariant !$stopped && $rep == $vis
