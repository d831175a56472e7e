// ---- the cache: entries in a doubly linked list, most recently used first ----
// ghost: the cache a list node belongs to, its time of last use, and the clock of a cache
ghost IN (Array Int Int) default 0
ghost RK (Array Int Int) default 0
ghost CK (Array Int Int) default 0
define mem(c *util.LRUCache, n *util.node) bool = n != nil && IN[n] == c
define ends(c *util.LRUCache) bool = c != nil && c.m != nil && mem(c, c.head) && mem(c, c.tail) && c.head != c.tail && RK[c.tail] == 0 && CK[c] >= 0
define lAlloc(c *util.LRUCache) bool = forall n *util.node :: {IN[n]} mem(c, n) ==> allocated(n)
define lNext(c *util.LRUCache) bool = forall n *util.node :: {n.next} mem(c, n) && n != c.tail ==> mem(c, n.next) && n.next.prev == n && n.next != c.head && (n != c.head ==> RK[n.next] < RK[n])
define lPrev(c *util.LRUCache) bool = forall n *util.node :: {n.prev} mem(c, n) && n != c.head ==> mem(c, n.prev) && n.prev.next == n && n.prev != c.tail
define lGap(c *util.LRUCache) bool = forall n *util.node, x *util.node :: {n.next, IN[x]} mem(c, n) && mem(c, x) && n != c.tail && x != c.head && (n == c.head || RK[x] < RK[n]) ==> RK[x] <= RK[n.next]
define lDist(c *util.LRUCache) bool = forall x *util.node, y *util.node :: {IN[x], IN[y]} mem(c, x) && mem(c, y) && x != c.head && y != c.head && RK[x] == RK[y] ==> x == y
define lRank(c *util.LRUCache) bool = forall n *util.node :: {RK[n]} mem(c, n) && n != c.head ==> 0 <= RK[n] && RK[n] <= CK[c]
define inner(c *util.LRUCache, n *util.node) bool = mem(c, n) && n != c.head && n != c.tail
define lMap(c *util.LRUCache) bool = forall k any :: {c.m[k]} {k in c.m} k in c.m ==> inner(c, c.m[k]) && c.m[k].key == k
define lNode(c *util.LRUCache) bool = forall n *util.node :: {IN[n]} inner(c, n) ==> n.key in c.m && c.m[n.key] == n
define opaque okCache(c *util.LRUCache) bool = ends(c) && lAlloc(c) && lNext(c) && lPrev(c) && lGap(c) && lDist(c) && lRank(c) && lMap(c) && lNode(c) && c.capacity >= 1 && len(c.m) <= c.capacity
// a node belongs to a cache that exists
define inCaches() bool = forall n int :: {IN[n]} IN[n] == 0 || allocated(IN[n])
// the entry of a key was used last
define rank(c *util.LRUCache, k any) int = RK[c.m[k]]

contract util.NewLRUCache(capacity) (cache) @C10
  option reveal=okCache
  requires capacity >= 1
  requires inCaches()
  modifies IN, RK, CK
  setpost IN[cache.head] := cache
  setpost IN[cache.tail] := cache
  ensures #empty fresh(cache) && len(cache.m) == 0 && (forall k any :: {k in cache.m} !(k in cache.m)) && cache.capacity == capacity
  ensures #ok okCache(cache)
  ensures inCaches()
  ensures #others forall n int :: {IN[n]} {RK[n]} !fresh(n) ==> IN[n] == old(IN)[n] && RK[n] == old(RK)[n]
  ensures CK == old(CK)

contract (*util.LRUCache).Get(cache, key) (value, ok) @C10
  option reveal=okCache
  requires okCache(cache)
  modifies fieldof(util.node, next), fieldof(util.node, prev), RK, CK
  setpost RK[ite(ok, cache.m[key], nil)] := ite(ok, CK[cache] + 1, 0)
  setpost CK[cache] := CK[cache] + ite(ok, 1, 0)
  ensures #hit ok <==> key in cache.m
  ensures #value ok ==> value == cache.m[key].value
  ensures #used forall k any :: {k in cache.m} k in cache.m && k != key ==> rank(cache, k) == old(rank(cache, k)) && rank(cache, k) < ite(ok, rank(cache, key), CK[cache] + 1)
  ensures #ok okCache(cache)

contract (*util.LRUCache).Put(cache, key, value) @C10
  option reveal=okCache
  requires okCache(cache)
  requires inCaches()
  let lru = cache.tail.prev
  let full = !(key in cache.m) && len(cache.m) >= cache.capacity
  modifies fieldof(util.node, next), fieldof(util.node, prev), fieldof(util.node, value), map(cache.m), IN, RK, CK
  setpost IN[ite(full, lru, nil)] := 0
  setpost IN[cache.m[key]] := cache
  setpost RK[cache.m[key]] := CK[cache] + 1
  setpost CK[cache] := CK[cache] + 1
  ensures #stored key in cache.m && cache.m[key].value == value
  ensures #kept !full ==> dom(cache.m) == add(old(dom(cache.m)), key)
  ensures #evicted full ==> old(lru.key in cache.m) && dom(cache.m) == add(del(old(dom(cache.m)), old(lru.key)), key)
  ensures #least full ==> (forall k any :: {k in cache.m} old(k in cache.m) && k != old(lru.key) ==> old(rank(cache, lru.key)) < old(rank(cache, k)))
  ensures #values forall k any :: {cache.m[k]} k in cache.m && k != key ==> old(k in cache.m) && cache.m[k].value == old(cache.m[k].value) && rank(cache, k) == old(rank(cache, k)) && rank(cache, k) < rank(cache, key)
  ensures #capacity len(cache.m) <= cache.capacity
  ensures #ok okCache(cache)
  ensures inCaches()

// locks do nothing in a sequential execution
contract (*sync.RWMutex).Lock(m) () trusted
  option pure
contract (*sync.RWMutex).Unlock(m) () trusted
  option pure

define okSync(c *util.SyncLRUCache) bool = c != nil && okCache(c.LRUCache)
contract util.NewSyncLRUCache(capacity) (cache) @C10
  requires capacity >= 1
  requires inCaches()
  modifies IN, RK, CK
  ensures #empty fresh(cache) && fresh(cache.LRUCache) && (forall k any :: {k in cache.LRUCache.m} !(k in cache.LRUCache.m)) && cache.LRUCache.capacity == capacity
  ensures #ok okSync(cache)
  ensures inCaches()
  ensures #others forall n int :: {IN[n]} {RK[n]} !fresh(n) ==> IN[n] == old(IN)[n] && RK[n] == old(RK)[n]

contract (*util.SyncLRUCache).Get(cache, key) (value, ok) @C10
  requires okSync(cache)
  modifies fieldof(util.node, next), fieldof(util.node, prev), RK, CK
  ensures #hit ok <==> key in cache.LRUCache.m
  ensures #value ok ==> value == cache.LRUCache.m[key].value
  ensures #ok okSync(cache)

contract (*util.SyncLRUCache).Put(cache, key, value) @C10
  requires okSync(cache)
  requires inCaches()
  let c = cache.LRUCache
  modifies fieldof(util.node, next), fieldof(util.node, prev), fieldof(util.node, value), map(c.m), IN, RK, CK
  ensures #stored key in c.m && c.m[key].value == value
  ensures #values forall k any :: {c.m[k]} k in c.m && k != key ==> old(k in c.m) && c.m[k].value == old(c.m[k].value)
  ensures #ok okSync(cache)
  ensures inCaches()

// ---- matching through the cache ----
// the matching functions given by the user answer the same question alike every time
declare MM(m util.IMatcher, s string, p string) bool
contract util.IMatcher.Match(m, s, p) (b) trusted
  requires m != nil
  option pure
  ensures b == MM(m, s, p)
declare pr(s string, p string) SeqS
axiom pair: forall s string, p string :: {pr(s, p)} len(pr(s, p)) == 2 && pr(s, p)[0] == s && pr(s, p)[1] == p
lemma pairKey(a SeqS, s string, p string) @C10
  trigger {hs(a), pr(s, p)}
  requires len(a) == 2 && a[0] == s && a[1] == p
  ensures a == pr(s, p)
  ensures #eq same(a, pr(s, p))
  option axiom
// every cached answer is that of the matching function
define faithful(c *util.LRUCache, m util.IMatcher) bool = forall s string, p string :: {pr(s, p)} any(hs(pr(s, p))) in c.m ==> c.m[any(hs(pr(s, p)))].value == any(MM(m, s, p))
define opaque okMatching(rm *rbac.RoleManager) bool = inCaches() && okSync(rm.matchingFuncCache) && (rm.matcher != nil ==> faithful(rm.matchingFuncCache.LRUCache, rm.matcher))
define opaque okDomMatching(dm *rbac.DomainManager) bool = inCaches() && okSync(dm.matchingFuncCache) && (dm.domainMatcher != nil ==> faithful(dm.matchingFuncCache.LRUCache, dm.domainMatcher))
contract (*rbac.RoleManager).match(rm, str, pattern) (b) @C10
  requires rm != nil && rm.matcher != nil && okMatching(rm)
  option reveal=okMatching
  let c = rm.matchingFuncCache.LRUCache
  let q = pr(str, pattern)
  modifies fieldof(util.node, next), fieldof(util.node, prev), fieldof(util.node, value), map(c.m), IN, RK, CK
  ensures #answer len(q) == 2 && b == MM(rm.matcher, str, pattern)
  ensures #kept okMatching(rm)
contract (*rbac.DomainManager).match(dm, str, pattern) (b) @C10
  requires dm != nil && dm.domainMatcher != nil && okDomMatching(dm)
  option reveal=okDomMatching
  let c = dm.matchingFuncCache.LRUCache
  let q = pr(str, pattern)
  modifies fieldof(util.node, next), fieldof(util.node, prev), fieldof(util.node, value), map(c.m), IN, RK, CK
  ensures #answer len(q) == 2 && b == MM(dm.domainMatcher, str, pattern)
  ensures #kept okDomMatching(dm)

contract (*rbac.RoleManager).Clear(rm) (err) @C10 @C08
  requires rm != nil && inCaches()
  modifies rm.matchingFuncCache, rm.allRoles, rm.patternRoles, IN, RK, CK, OW, KD
  option reveal=okMatching,okRM
  setpost OW[rm.allRoles] := rm
  setpost OW[rm.patternRoles] := rm
  setpost KD[rm.allRoles] := 6
  setpost KD[rm.patternRoles] := 7
  ensures #roles @C08 old(registered() && RO[rm] == 0) ==> okRM(rm) && none(rm.allRoles)
  ensures #maps @C08 fresh(rm.allRoles) && fresh(rm.patternRoles)
  ensures #kinds @C08 sameKinds()
  ensures err == nil
  ensures #cache inCaches() && okMatching(rm)
  ensures #empty forall k any :: {k in rm.matchingFuncCache.LRUCache.m} !(k in rm.matchingFuncCache.LRUCache.m)
contract (*rbac.DomainManager).Clear(dm) (err) @C10
  requires dm != nil && inCaches()
  modifies dm.matchingFuncCache, dm.rmMap, dm.patternMap, IN, RK, CK
  option reveal=okDomMatching
  ensures err == nil
  ensures #cache inCaches() && okDomMatching(dm)
  ensures #empty forall k any :: {k in dm.matchingFuncCache.LRUCache.m} !(k in dm.matchingFuncCache.LRUCache.m)
