// ---- storage controller: what the adapter was handed ----
// LN counts the rule changes handed to adapters successfully, LO/LR are their operation codes and rules, in order.
ghost LN Int
ghost LO (Array Int Int)
ghost LR (Array Int Slc)
scalar LO LR
// listeners: the event they were registered for, the function they run, whether they are registered
ghost lisEvt (Array Int Str)
ghost lisFn (Array Int Int)
ghost lisOn (Array Int Bool)

define logKept(n int) bool = LN >= n && (forall i int :: {LO[i]} {LR[i]} i < n ==> LO[i] == old(LO)[i] && LR[i] == old(LR)[i])
define handed(opc int, rule []string) bool = LN == old(LN) + 1 && logKept(old(LN)) && LO[old(LN)] == opc && LR[old(LN)] == rule

contract storage.SimpleAdapter.AddRule(a, rule) (err) trusted
  modifies LN, LO, LR
  ensures err == nil ==> handed(storage.add, rule)
  ensures err != nil ==> LN == old(LN) && logKept(old(LN))
contract storage.SimpleAdapter.RemoveRule(a, rule) (err) trusted
  modifies LN, LO, LR
  ensures err == nil ==> handed(storage.remove, rule)
  ensures err != nil ==> LN == old(LN) && logKept(old(LN))
define handedAll(opc int, rules [][]string) bool = LN == old(LN) + len(rules) && logKept(old(LN)) && (forall i int :: {LO[i]} {LR[i]} old(LN) <= i && i < LN ==> LO[i] == opc && LR[i] == rules[i - old(LN)])
contract storage.BatchAdapter.AddRules(a, rules) (err) trusted
  modifies LN, LO, LR
  ensures err == nil ==> handedAll(storage.add, rules)
  ensures err != nil ==> LN == old(LN) && logKept(old(LN))
contract storage.BatchAdapter.RemoveRules(a, rules) (err) trusted
  modifies LN, LO, LR
  ensures err == nil ==> handedAll(storage.remove, rules)
  ensures err != nil ==> LN == old(LN) && logKept(old(LN))

define okOps(sc *storage.StorageController) bool = sc != nil && (forall j int :: {content(sc.q)[j]} off(sc.q) <= j && j < off(sc.q) + len(sc.q) ==> content(sc.q)[j].opc == storage.add || content(sc.q)[j].opc == storage.remove)
// the pending changes are what is left of the old ones, and the ones before were handed over in order
define drained(sc *storage.StorageController) bool = LN >= old(LN) && len(sc.q) == old(len(sc.q)) - (LN - old(LN)) && logKept(old(LN)) && arr(sc.q) == old(arr(sc.q)) && off(sc.q) == old(off(sc.q)) + (LN - old(LN)) && (forall i int :: {LO[i]} {LR[i]} old(LN) <= i && i < LN ==> LO[i] == old(sc.q)[i - old(LN)].opc && LR[i] == old(sc.q)[i - old(LN)].rule)
contract (*storage.StorageController).flush(sc) (err) @C11
  requires okOps(sc)
  requires is(sc.adapter, storage.SimpleAdapter)
  modifies sc.q, LN, LO, LR
  ensures #order drained(sc)
  ensures #all err == nil ==> len(sc.q) == 0
  ensures okOps(sc)
  loop 1
  invariant drained(sc)
  invariant okOps(sc)

contract (*storage.StorageController).batchFlush(sc) (err) @C11
  requires okOps(sc)
  requires is(sc.adapter, storage.BatchAdapter)
  modifies sc.q, LN, LO, LR
  ensures #order drained(sc)
  ensures #all err == nil ==> len(sc.q) == 0
  ensures okOps(sc)
  loop 1
  invariant drained(sc)
  invariant okOps(sc)
  loop 2
  var rules [][]string
  var currentOpc storage.opcode
  invariant fresh(rules) && len(rules) == $k
  invariant len(sc.q) > 0 && currentOpc == sc.q[0].opc
  invariant forall j int :: {content(rules)[j]} off(rules) <= j && j < off(rules) + len(rules) ==> sc.q[j - off(rules)].opc == currentOpc && content(rules)[j] == sc.q[j - off(rules)].rule

contract (*storage.StorageController).Flush(sc) (err) @C11
  requires okOps(sc)
  modifies sc.q, sc.wait, LN, LO, LR
  ensures #order drained(sc)
  ensures #all err == nil ==> len(sc.q) == 0
  ensures #adapter err == nil ==> is(sc.adapter, storage.BatchAdapter) || is(sc.adapter, storage.SimpleAdapter)
  ensures okOps(sc)

// ---- recording of rule changes ----
contract api.IAddRemoveListener.AddListener(em, event, fn) (l) trusted
  modifies lisEvt, lisFn, lisOn
  ensures l != nil && fresh(l) && allocated(l)
  ensures lisOn[l] && lisEvt[l] == event && lisFn[l] == fn
  ensures forall x int :: {lisOn[x]} {lisEvt[x]} {lisFn[x]} x != l ==> lisOn[x] == old(lisOn)[x] && lisEvt[x] == old(lisEvt)[x] && lisFn[x] == old(lisFn)[x]
contract api.IAddRemoveListener.RemoveListener(em, event, l) trusted
  requires l != nil
  modifies lisOn
  ensures forall x int :: {lisOn[x]} lisOn[x] == (old(lisOn)[x] && !(x == l && lisEvt[x] == event))

// rec(l, sc): the listener l records changes for sc
define recFor(l int, sc *storage.StorageController) bool = isclo(lisFn[l], "(*storage.StorageController).addListener$1") && capt(lisFn[l], "(*storage.StorageController).addListener$1", "sc") == sc
define recOk(l int) bool = allocated(capt(lisFn[l], "(*storage.StorageController).addListener$1", "sc")) && allocated(capref(lisFn[l], "(*storage.StorageController).addListener$1", "sc")) && allocated(capref(lisFn[l], "(*storage.StorageController).addListener$1", "opc"))
define recOp(l int) int = capt(lisFn[l], "(*storage.StorageController).addListener$1", "opc")
define listens(x storage.listener, sc *storage.StorageController, event string, opc int) bool = x.event == event && allocated(x.listener) && lisOn[x.listener] && lisEvt[x.listener] == event && recFor(x.listener, sc) && recOp(x.listener) == opc && recOk(x.listener)
define capturesOk() bool = forall l int :: {lisOn[l]} lisOn[l] ==> allocated(l) && (isclo(lisFn[l], "(*storage.StorageController).addListener$1") ==> recOk(l))
// every change is recorded once: the registered recording listeners of sc are exactly its two
define okLis(sc *storage.StorageController) bool = sc != nil && sc.em != nil && (len(sc.listeners) == 0 || len(sc.listeners) == 2 && listens(sc.listeners[0], sc, model.RULE_ADDED, storage.add) && listens(sc.listeners[1], sc, model.RULE_REMOVED, storage.remove)) && (forall l int :: {lisOn[l]} lisOn[l] && recFor(l, sc) ==> len(sc.listeners) == 2 && (l == sc.listeners[0].listener || l == sc.listeners[1].listener)) && capturesOk()

contract (*storage.StorageController).Enabled(sc) (b) @C12
  requires okLis(sc)
  option pure
  ensures b <==> len(sc.listeners) > 0

contract (*storage.StorageController).Enable(sc) @C12
  requires okLis(sc)
  modifies sc.listeners, elems(sc.listeners), lisEvt, lisFn, lisOn
  ensures #enabled len(sc.listeners) == 2
  ensures #once okLis(sc)
  ensures #others forall l int :: {lisOn[l]} {lisFn[l]} {lisEvt[l]} old(allocated(l)) ==> lisOn[l] == old(lisOn[l]) && lisFn[l] == old(lisFn[l]) && lisEvt[l] == old(lisEvt[l])
  ensures #own forall l int :: {lisOn[l]} lisOn[l] && !old(lisOn[l]) ==> recFor(l, sc)
  loop 1
  invariant capturesOk()
  invariant forall l int :: {lisOn[l]} lisOn[l] && !old(lisOn[l]) ==> recFor(l, sc)
  invariant $k <= 2 && len(sc.listeners) == $k
  invariant $k >= 1 ==> listens(sc.listeners[0], sc, model.RULE_ADDED, storage.add)
  invariant $k >= 2 ==> listens(sc.listeners[1], sc, model.RULE_REMOVED, storage.remove)
  invariant forall l int :: {lisOn[l]} lisOn[l] && recFor(l, sc) ==> $k >= 1 && l == sc.listeners[0].listener || $k >= 2 && l == sc.listeners[1].listener
  invariant forall l int :: {lisOn[l]} {lisFn[l]} {lisEvt[l]} old(allocated(l)) ==> lisOn[l] == old(lisOn[l]) && lisFn[l] == old(lisFn[l]) && lisEvt[l] == old(lisEvt[l])

contract (*storage.StorageController).Disable(sc) @C12
  requires okLis(sc)
  modifies sc.listeners, lisOn
  ensures #disabled len(sc.listeners) == 0
  ensures #once okLis(sc)
  ensures #others forall l int :: {lisOn[l]} lisOn[l] == (old(lisOn[l]) && !recFor(l, sc))
  loop 1
  invariant forall l int :: {lisOn[l]} lisOn[l] ==> old(lisOn[l])
  invariant forall l int :: {lisOn[l]} old(lisOn[l]) && !lisOn[l] ==> recFor(l, sc)
  invariant $k >= 1 ==> !lisOn[sc.listeners[0].listener]
  invariant $k >= 2 ==> !lisOn[sc.listeners[1].listener]

contract storage.NewStorageController(eventemitter, adapter, autosave) (sc) @C12
  requires eventemitter != nil && capturesOk()
  modifies lisEvt, lisFn, lisOn
  ensures #enabled fresh(sc) && len(sc.listeners) == 2 && len(sc.q) == 0 && sc.autosave == autosave && sc.adapter == adapter && sc.wait == 0
  ensures #once okLis(sc) && okOps(sc)
  ensures #others forall l int :: {lisOn[l]} {lisFn[l]} {lisEvt[l]} old(allocated(l)) ==> lisOn[l] == old(lisOn[l]) && lisFn[l] == old(lisFn[l]) && lisEvt[l] == old(lisEvt[l])
  ensures #own forall l int :: {lisOn[l]} lisOn[l] && !old(lisOn[l]) ==> recFor(l, sc)

define appended(sc *storage.StorageController, opc int, rule []string) bool = len(sc.q) == old(len(sc.q)) + 1 && sc.q[len(sc.q) - 1].opc == opc && sc.q[len(sc.q) - 1].rule == rule && (forall i int :: {content(sc.q)[i]} off(sc.q) <= i && i < off(sc.q) + old(len(sc.q)) ==> content(sc.q)[i] == old(content(sc.q))[i - off(sc.q) + old(off(sc.q))])
contract (*storage.StorageController).addOp(sc, opc, rule) @C12,C11
  requires okOps(sc) && (opc == storage.add || opc == storage.remove)
  modifies sc.q, elems(sc.q), sc.wait, LN, LO, LR
  option panics
  let direct = sc.autosave && sc.wait <= 1
  ensures #pending !direct ==> appended(sc, opc, rule) && LN == old(LN) && logKept(LN) && sc.wait == old(sc.wait) - ite(sc.autosave, 1, 0)
  ensures #direct direct ==> len(sc.q) == 0 && LN == old(LN) + old(len(sc.q)) + 1 && logKept(old(LN)) && LO[LN - 1] == opc && LR[LN - 1] == rule
  ensures #order direct ==> forall i int :: {LO[i]} {LR[i]} old(LN) <= i && i < LN - 1 ==> LO[i] == old(sc.q)[i - old(LN)].opc && LR[i] == old(sc.q)[i - old(LN)].rule
  ensures okOps(sc)

contract (*storage.StorageController).addListener$1(arguments) @C12
  requires len(arguments) >= 1 && is(arguments[0], []string)
  requires okOps(sc) && (opc == storage.add || opc == storage.remove)
  modifies sc.q, elems(sc.q), sc.wait, LN, LO, LR
  option panics
  let rule = as(arguments[0], []string)
  ensures #once old(!sc.autosave || sc.wait > 1) ==> appended(sc, opc, rule) && LN == old(LN)
  ensures #direct old(sc.autosave && sc.wait <= 1) ==> len(sc.q) == 0 && LN == old(LN) + old(len(sc.q)) + 1 && LO[LN - 1] == opc && LR[LN - 1] == rule

contract (*storage.StorageController).EnableAutosave(sc) @C12
  requires sc != nil
  modifies sc.autosave
  ensures sc.autosave
contract (*storage.StorageController).DisableAutosave(sc) @C12
  requires sc != nil
  modifies sc.autosave
  ensures !sc.autosave
contract (*storage.StorageController).AutosaveEnabled(sc) (b) @C12
  requires sc != nil
  option pure
  ensures b == sc.autosave
contract (*storage.StorageController).AddWait(sc, i) @C12
  requires sc != nil
  modifies sc.wait
  ensures sc.wait == old(sc.wait) + i
