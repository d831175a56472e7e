// ---- the enforcer and its storage ----
// atLoad: which listeners were registered while an adapter loaded rules.
// An adapter changes a controller's pending changes only through the listeners that are registered for it.
ghost atLoad (Array Int Bool)
scalar atLoad
define silent(sc *storage.StorageController) bool = forall l int :: {lisOn[l]} lisOn[l] ==> !recFor(l, sc)

contract storage.Adapter.LoadPolicy(a, model) (err) trusted
  modifies *
  preserves lisOn, lisEvt, lisFn, fieldof(fastac.Enforcer), fieldof(storage.StorageController, listeners), fieldof(storage.StorageController, em), fieldof(storage.StorageController, autosave), fieldof(storage.StorageController, adapter), elemsof(storage.listener), cellsof(int)
  ensures atLoad == old(lisOn)
  ensures forall s *storage.StorageController :: {s.q} old(silent(s)) ==> s.q == old(s.q) && content(s.q) == old(content(s.q)) && s.wait == old(s.wait)
contract storage.Adapter.SavePolicy(a, model) (err) trusted
  option pure

define okEnf(e *fastac.Enforcer) bool = e != nil && e.sc != nil && okLis(e.sc) && e.adapter != nil

contract (*fastac.Enforcer).LoadPolicy(e) (err) @C12
  requires okEnf(e)
  modifies *
  option panics
  ensures #nothing e.sc.q == old(e.sc.q) && content(e.sc.q) == old(content(e.sc.q))
  ensures #silent forall l int :: {atLoad[l]} atLoad[l] ==> !recFor(l, e.sc)
  ensures #asbefore okEnf(e) && e.sc == old(e.sc) && (len(e.sc.listeners) > 0 <==> old(len(e.sc.listeners)) > 0)

contract (*fastac.Enforcer).SetAdapter(e, adapter) @C12
  requires e != nil && adapter != nil && e.model != nil && capturesOk()
  requires e.sc != nil ==> okLis(e.sc)
  modifies e.sc, e.adapter, e.sc.listeners, lisOn, lisFn, lisEvt
  ensures #swapped okEnf(e) && e.adapter == adapter && e.sc.adapter == adapter && len(e.sc.q) == 0 && fresh(e.sc)
  ensures #enabled len(e.sc.listeners) == 2
  ensures #autosave e.sc.autosave == (old(e.sc) != nil && old(e.sc.autosave))
  ensures #unhooked old(e.sc) != nil ==> forall l int :: {lisOn[l]} lisOn[l] ==> !recFor(l, old(e.sc))

contract (*fastac.Enforcer).Flush(e) (err) @C11
  requires okEnf(e) && okOps(e.sc)
  modifies e.sc.q, e.sc.wait, LN, LO, LR
  ensures #order drained(e.sc)
  ensures #all err == nil ==> len(e.sc.q) == 0
