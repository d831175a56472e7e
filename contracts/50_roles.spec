// ---- sync.Map, used by one goroutine ----
ghost SD (Array Int (Array Iface Bool)) on sync.Map = emptyset(any)
ghost SV (Array Int (Array Iface Iface))
contract (*sync.Map).Load(m, key) (value, ok) trusted
  requires m != nil
  option pure
  ensures ok <==> SD[m][key]
  ensures value == ite(ok, SV[m][key], nil)
contract (*sync.Map).Store(m, key, value) trusted
  requires m != nil
  modifies at(SD, m), at(SV, m)
  ensures SD[m] == add(old(SD[m]), key) && SV[m] == store(old(SV[m]), key, value)
contract (*sync.Map).Delete(m, key) trusted
  requires m != nil
  modifies at(SD, m)
  ensures SD[m] == del(old(SD[m]), key)
contract (*sync.Map).LoadOrStore(m, key, value) (actual, loaded) trusted
  requires m != nil
  modifies at(SD, m), at(SV, m)
  ensures loaded <==> old(SD[m][key])
  ensures SD[m] == add(old(SD[m]), key) && SV[m] == ite(loaded, old(SV[m]), store(old(SV[m]), key, value)) && actual == SV[m][key]
contract (*sync.Map).LoadAndDelete(m, key) (value, loaded) trusted
  requires m != nil
  modifies at(SD, m)
  ensures loaded <==> old(SD[m][key])
  ensures SD[m] == del(old(SD[m]), key) && value == ite(loaded, SV[m][key], nil)
contract (*sync.Map).Range(m, f) trusted
  requires m != nil
  iterates f(key any, value any) where SD[m][key] by key : any with value == SV[m][key] weak trigger {SD[m][key]}

// ---- roles ----
// OW: the role or role manager a map belongs to. KD: what it is for (1 roles, 2 users, 3 matched, 4 matchedBy, 5 redundant, 6 all roles, 7 patterns)
ghost OW (Array Int Int) on sync.Map = 0
ghost KD (Array Int Int) on sync.Map = 0
// RO: the map of names a role is registered in (allRoles of its role manager)
ghost RO (Array Int Int) on rbac.Role = 0
define isMap(m *sync.Map, owner int, kind int) bool = m != nil && allocated(m) && OW[m] == owner && KD[m] == kind
define okRole(r *rbac.Role) bool = r != nil && allocated(r) && isMap(r.roles, r, 1) && isMap(r.users, r, 2) && isMap(r.matched, r, 3) && isMap(r.matchedBy, r, 4) && isMap(r.redundant, r, 5)
define asRole(x any) *rbac.Role = as(x, *rbac.Role)
define asStr(x any) string = as(x, string)
// the entries of a map of roles: a name and the role of that name
define okEntry(k any, v any) bool = is(k, string) && is(v, *rbac.Role) && okRole(asRole(v)) && asRole(v).name == asStr(k)

contract rbac.newRole(name) (r) @C08
  modifies OW, KD
  setpost OW[r.roles] := r
  setpost OW[r.users] := r
  setpost OW[r.matched] := r
  setpost OW[r.matchedBy] := r
  setpost OW[r.redundant] := r
  setpost KD[r.roles] := 1
  setpost KD[r.users] := 2
  setpost KD[r.matched] := 3
  setpost KD[r.matchedBy] := 4
  setpost KD[r.redundant] := 5
  ensures #new okRole(r) && fresh(r) && r.name == name && RO[r] == 0
  ensures #empty SD[r.roles] == emptyset(any) && SD[r.users] == emptyset(any) && SD[r.matched] == emptyset(any) && SD[r.matchedBy] == emptyset(any) && SD[r.redundant] == emptyset(any)
  ensures fresh(r.roles) && fresh(r.users) && fresh(r.matched) && fresh(r.matchedBy) && fresh(r.redundant)
  ensures forall m int :: {OW[m]} {KD[m]} old(allocated(m)) ==> OW[m] == old(OW)[m] && KD[m] == old(KD)[m]

// maps other than those of the kinds a and b are as they were
define otherKinds(a int, b int) bool = forall m int :: {SD[m]} {SV[m]} KD[m] != a && KD[m] != b ==> SD[m] == old(SD)[m] && SV[m] == old(SV)[m]

contract (*rbac.Role).addRole(r, role) (added) @C08
  requires okRole(r) && okRole(role)
  modifies at(SD, r.roles), at(SV, r.roles), at(SD, role.users), at(SV, role.users)
  ensures #report added <==> !old(SD[r.roles][any(role.name)])
  ensures #roles added ==> SD[r.roles] == add(old(SD[r.roles]), any(role.name)) && SV[r.roles] == store(old(SV[r.roles]), any(role.name), any(role))
  ensures #users added ==> SD[role.users] == add(old(SD[role.users]), any(r.name)) && SV[role.users] == store(old(SV[role.users]), any(r.name), any(r))
  ensures #nothing !added ==> SD == old(SD) && SV == old(SV)
contract (*rbac.Role).removeRole(r, role) (removed) @C08
  requires okRole(r) && okRole(role)
  modifies at(SD, r.roles), at(SD, role.users)
  ensures #report removed <==> old(SD[r.roles][any(role.name)])
  ensures #roles removed ==> SD[r.roles] == del(old(SD[r.roles]), any(role.name))
  ensures #users removed ==> SD[role.users] == del(old(SD[role.users]), any(r.name))
  ensures #nothing !removed ==> SD == old(SD)
contract (*rbac.Role).addMatch(r, role) @C08
  requires okRole(r) && okRole(role)
  modifies at(SD, r.matched), at(SV, r.matched), at(SD, role.matchedBy), at(SV, role.matchedBy)
  ensures #matched SD[r.matched] == add(old(SD[r.matched]), any(role.name)) && SV[r.matched] == store(old(SV[r.matched]), any(role.name), any(role))
  ensures #matchedBy SD[role.matchedBy] == add(old(SD[role.matchedBy]), any(r.name)) && SV[role.matchedBy] == store(old(SV[role.matchedBy]), any(r.name), any(r))
contract (*rbac.Role).removeMatch(r, role) @C08
  requires okRole(r) && okRole(role)
  modifies at(SD, r.matched), at(SD, role.matchedBy)
  ensures #matched SD[r.matched] == del(old(SD[r.matched]), any(role.name))
  ensures #matchedBy SD[role.matchedBy] == del(old(SD[role.matchedBy]), any(r.name))

define entries(m *sync.Map) bool = forall k any :: {SD[m][k]} SD[m][k] ==> okEntry(k, SV[m][k])
// names leave the matches of other roles only for the name of r
define unmatched(r *rbac.Role) bool = forall m int, k any :: {SD[m][k]} OW[m] != r ==> (SD[m][k] ==> old(SD)[m][k]) && (old(SD)[m][k] && k != any(r.name) ==> SD[m][k])
// the maps of roles registered elsewhere are as they were
define elsewhere(names int) bool = forall m int :: {SD[m]} {SV[m]} RO[OW[m]] != names ==> SD[m] == old(SD)[m] && SV[m] == old(SV)[m]
define none(m *sync.Map) bool = forall k any :: {SD[m][k]} !SD[m][k]
contract (*rbac.Role).removeMatches(r) @C08
  requires okRole(r) && entries(r.matched) && entries(r.matchedBy)
  requires !SD[r.matched][any(r.name)] && !SD[r.matchedBy][any(r.name)]
  requires forall k any :: {SD[r.matched][k]} SD[r.matched][k] ==> RO[asRole(SV[r.matched][k])] == RO[r]
  requires forall k any :: {SD[r.matchedBy][k]} SD[r.matchedBy][k] ==> RO[asRole(SV[r.matchedBy][k])] == RO[r]
  option hide=text
  modifies SD
  ensures #empty none(r.matched) && none(r.matchedBy)
  ensures #links otherKinds(3, 4)
  ensures #others unmatched(r)
  ensures #outside elsewhere(RO[r])
  ensures #matched forall k any :: {old(SD)[r.matched][k]} old(SD)[r.matched][k] ==> !SD[asRole(SV[r.matched][k]).matchedBy][any(r.name)]
  ensures #matchedBy forall k any :: {old(SD)[r.matchedBy][k]} old(SD)[r.matchedBy][k] ==> !SD[asRole(SV[r.matchedBy][k]).matched][any(r.name)]
  loop 1
  invariant otherKinds(3, 4) && unmatched(r) && elsewhere(RO[r])
  invariant forall k any :: {SD[r.matched][k]} {$vis[k]} SD[r.matched][k] <==> old(SD)[r.matched][k] && !$vis[k]
  invariant forall k any :: {SD[r.matchedBy][k]} SD[r.matchedBy][k] ==> old(SD)[r.matchedBy][k]
  invariant forall k any :: {old(SD)[r.matchedBy][k]} old(SD)[r.matchedBy][k] && k != any(r.name) ==> SD[r.matchedBy][k]
  invariant forall k any :: {$vis[k]} $vis[k] ==> old(SD)[r.matched][k] && !SD[asRole(SV[r.matched][k]).matchedBy][any(r.name)]
  loop 2
  invariant otherKinds(3, 4) && unmatched(r) && elsewhere(RO[r])
  invariant none(r.matched)
  invariant forall k any :: {SD[r.matchedBy][k]} {$vis[k]} SD[r.matchedBy][k] ==> old(SD)[r.matchedBy][k] && !$vis[k]
  invariant forall k any :: {old(SD)[r.matchedBy][k]} old(SD)[r.matchedBy][k] && k != any(r.name) && !$vis[k] ==> SD[r.matchedBy][k]
  invariant forall k any :: {$vis[k]} $vis[k] ==> old(SD)[r.matchedBy][k] && !SD[asRole(SV[r.matchedBy][k]).matched][any(r.name)]
  invariant forall k any :: {old(SD)[r.matched][k]} old(SD)[r.matched][k] ==> !SD[asRole(SV[r.matched][k]).matchedBy][any(r.name)]

// ---- the role manager ----
define reg(rm *rbac.RoleManager, n string) bool = SD[rm.allRoles][any(n)]
define role(rm *rbac.RoleManager, n string) *rbac.Role = asRole(SV[rm.allRoles][any(n)])
define okReg(rm *rbac.RoleManager) bool = rm != nil && isMap(rm.allRoles, rm, 6) && isMap(rm.patternRoles, rm, 7) && entries(rm.allRoles) && (forall k any :: {SD[rm.patternRoles][k]} SD[rm.patternRoles][k] ==> SD[rm.allRoles][k])
contract (*rbac.RoleManager).rangeMatchingRoles(rm, pattern, fn) @C08
  requires okReg(rm) && okMatching(rm) && rm.matcher != nil
  modifies fieldof(util.node, next), fieldof(util.node, prev), fieldof(util.node, value), map(rm.matchingFuncCache.LRUCache.m), IN, RK, CK
  option hide=text
  iterates fn(r *rbac.Role) where reg(rm, r.name) && role(rm, r.name) == r && r.name != pattern && MM(rm.matcher, r.name, pattern) by r : *rbac.Role changes (SD, SV) keeps otherKinds(3, 4) trigger {RO[r]}
  ensures okMatching(rm)
  loop 1
  invariant okMatching(rm) && okReg(rm) && SD[rm.allRoles] == old(SD[rm.allRoles]) && SV[rm.allRoles] == old(SV[rm.allRoles])
  invariant forall x *rbac.Role :: {$rep[x]} $rep[x] ==> $vis[any(x.name)] && role(rm, x.name) == x
  invariant forall k any :: {$vis[k]} $vis[k] && reg(rm, asStr(k)) && asStr(k) != pattern && MM(rm.matcher, asStr(k), pattern) ==> $rep[role(rm, asStr(k))]
contract (*rbac.RoleManager).rangeMatchingPatterns(rm, name, fn) @C08
  requires okReg(rm) && okMatching(rm) && rm.matcher != nil
  modifies fieldof(util.node, next), fieldof(util.node, prev), fieldof(util.node, value), map(rm.matchingFuncCache.LRUCache.m), IN, RK, CK
  option hide=text
  iterates fn(r *rbac.Role) where SD[rm.patternRoles][any(r.name)] && reg(rm, r.name) && role(rm, r.name) == r && r.name != name && MM(rm.matcher, name, r.name) by r : *rbac.Role changes (SD, SV) keeps otherKinds(3, 4) trigger {RO[r]}
  ensures okMatching(rm)
  loop 1
  invariant okMatching(rm) && okReg(rm) && SD[rm.allRoles] == old(SD[rm.allRoles]) && SV[rm.allRoles] == old(SV[rm.allRoles]) && SD[rm.patternRoles] == old(SD[rm.patternRoles])
  invariant forall x *rbac.Role :: {$rep[x]} $rep[x] ==> $vis[any(x.name)] && role(rm, x.name) == x
  invariant forall k any :: {$vis[k]} $vis[k] && asStr(k) != name && MM(rm.matcher, name, asStr(k)) ==> $rep[role(rm, asStr(k))]

declare IP(m util.IMatcher, s string) bool
contract util.IMatcher.IsPattern(m, s) (b) trusted
  requires m != nil
  option pure
  ensures b == IP(m, s)
define pat(rm *rbac.RoleManager, n string) bool = rm.matcher != nil && IP(rm.matcher, n)
define mine(rm *rbac.RoleManager, r *rbac.Role) bool = r != nil && RO[r] == rm.allRoles
// p is a pattern that matches the other name n
define mt(rm *rbac.RoleManager, p string, n string) bool = pat(rm, p) && p != n && MM(rm.matcher, n, p)
// the names registered are those of the roles of the manager
define iReg(rm *rbac.RoleManager) bool = forall k any :: {SD[rm.allRoles][k]} SD[rm.allRoles][k] ==> RO[asRole(SV[rm.allRoles][k])] == rm.allRoles
define iRole(rm *rbac.RoleManager) bool = forall r *rbac.Role :: {RO[r]} mine(rm, r) ==> okRole(r) && reg(rm, r.name) && role(rm, r.name) == r
define iPat(rm *rbac.RoleManager) bool = forall k any :: {SD[rm.patternRoles][k]} {SD[rm.allRoles][k]} SD[rm.patternRoles][k] <==> SD[rm.allRoles][k] && pat(rm, asStr(k))
// every link is known to both of its ends
define iRoles(rm *rbac.RoleManager) bool = forall r *rbac.Role, k any :: {SD[r.roles][k]} mine(rm, r) && SD[r.roles][k] ==> is(k, string) && SD[rm.allRoles][k] && SV[r.roles][k] == SV[rm.allRoles][k] && SD[role(rm, asStr(k)).users][any(r.name)]
define iUsers(rm *rbac.RoleManager) bool = forall r *rbac.Role, k any :: {SD[r.users][k]} mine(rm, r) && SD[r.users][k] ==> is(k, string) && SD[rm.allRoles][k] && SV[r.users][k] == SV[rm.allRoles][k] && SD[role(rm, asStr(k)).roles][any(r.name)]
// patterns know the names they match and the names know the patterns
define iMatched(rm *rbac.RoleManager) bool = forall r *rbac.Role, k any :: {SD[r.matched][k]} {RO[r], MM(rm.matcher, asStr(k), r.name)} mine(rm, r) ==> (SD[r.matched][k] <==> SD[rm.allRoles][k] && mt(rm, r.name, asStr(k))) && (SD[r.matched][k] ==> SV[r.matched][k] == SV[rm.allRoles][k])
define iMatchedBy(rm *rbac.RoleManager) bool = forall r *rbac.Role, k any :: {SD[r.matchedBy][k]} {RO[r], MM(rm.matcher, r.name, asStr(k))} mine(rm, r) ==> (SD[r.matchedBy][k] <==> SD[rm.allRoles][k] && mt(rm, asStr(k), r.name)) && (SD[r.matchedBy][k] ==> SV[r.matchedBy][k] == SV[rm.allRoles][k])
define registered() bool = forall r int :: {RO[r]} RO[r] == 0 || allocated(r) && allocated(RO[r])
define opaque okRM(rm *rbac.RoleManager) bool = registered() && RO[rm] == 0 && okReg(rm) && iReg(rm) && iRole(rm) && iPat(rm) && iRoles(rm) && iUsers(rm) && iMatched(rm) && iMatchedBy(rm)
define roleMap(m *sync.Map, a int, b int) bool = KD[m] == a || KD[m] == b
// x has its own maps for matches
define ownMaps(x *rbac.Role) bool = OW[x.matched] == x && KD[x.matched] == 3 && OW[x.matchedBy] == x && KD[x.matchedBy] == 4
// maps of roles registered at other role managers are as they were
define outside(rm *rbac.RoleManager) bool = forall m int :: {SD[m]} {SV[m]} old(allocated(m)) && old(allocated(OW[m])) && m != rm.allRoles && m != rm.patternRoles && old(RO)[OW[m]] != rm.allRoles ==> SD[m] == old(SD)[m] && SV[m] == old(SV)[m]
contract (*rbac.RoleManager).getRole(rm, name) (r, created) @C08
  requires okRM(rm) && okMatching(rm)
  option hide=text
  option reveal=okRM
  modifies fieldof(util.node, next), fieldof(util.node, prev), fieldof(util.node, value), map(rm.matchingFuncCache.LRUCache.m), IN, RK, CK, SD, SV, OW, KD, RO
  setpost RO[r] := rm.allRoles
  ensures #matching okMatching(rm)
  ensures #role mine(rm, r) && r.name == name && allocated(r) && reg(rm, name) && role(rm, name) == r
  ensures #created created <==> !old(reg(rm, name))
  ensures #same !created ==> SD == old(SD) && SV == old(SV) && OW == old(OW) && KD == old(KD) && RO == old(RO)
  ensures #fresh created ==> fresh(r) && none(r.roles) && none(r.users) && none(r.redundant)
  ensures #registry created ==> SD[rm.allRoles] == add(old(SD[rm.allRoles]), any(name)) && SV[rm.allRoles] == store(old(SV[rm.allRoles]), any(name), any(r))
  ensures #unlinked created ==> (forall a any :: {SD[asRole(SV[rm.allRoles][a]).roles]} SD[rm.allRoles][a] ==> !SD[asRole(SV[rm.allRoles][a]).roles][any(name)] && !SD[asRole(SV[rm.allRoles][a]).users][any(name)])
  ensures #owners created ==> RO == store(old(RO), r, rm.allRoles) && old(RO)[r] == 0
  ensures #kinds forall m int :: {OW[m]} {KD[m]} old(allocated(m)) ==> OW[m] == old(OW)[m] && KD[m] == old(KD)[m]
  ensures #links forall m int :: {SD[m]} {SV[m]} old(allocated(m)) && (roleMap(m, 1, 2) || KD[m] == 5) ==> SD[m] == old(SD)[m] && SV[m] == old(SV)[m]
  ensures #steps forall a string, b string :: {role(rm, a), any(b)} link(rm, a, b) <==> old(link(rm, a, b))
  ensures #outside outside(rm)
  ensures #ok okRM(rm)
  loop 1
  invariant forall m int :: {SD[m]} {SV[m]} RO[OW[m]] != rm.allRoles && OW[m] != role(rm, name) ==> SD[m] == atentry(SD)[m] && SV[m] == atentry(SV)[m]
  invariant role(rm, name) != nil && okRole(role(rm, name)) && role(rm, name).name == name && SD[rm.allRoles][any(name)]
  invariant forall x *rbac.Role :: {$vis[x]} $vis[x] ==> okRole(x)
  invariant forall m int :: {SD[m]} {SV[m]} !roleMap(m, 3, 4) ==> SD[m] == atentry(SD)[m] && SV[m] == atentry(SV)[m]
  invariant forall m int :: {SD[m]} {SV[m]} KD[m] == 3 && m != role(rm, name).matched ==> SD[m] == atentry(SD)[m] && SV[m] == atentry(SV)[m]
  invariant forall m int, k any :: {SD[m][k]} {SV[m][k]} KD[m] == 4 && k != any(name) ==> SD[m][k] == atentry(SD)[m][k] && SV[m][k] == atentry(SV)[m][k]
  invariant forall k any :: {SD[role(rm, name).matched][k]} {$vis[asRole(SV[rm.allRoles][k])]} SD[role(rm, name).matched][k] <==> SD[rm.allRoles][k] && $vis[asRole(SV[rm.allRoles][k])]
  invariant forall k any :: {SD[role(rm, name).matched][k]} SD[role(rm, name).matched][k] ==> SV[role(rm, name).matched][k] == SV[rm.allRoles][k]
  invariant forall x *rbac.Role :: {SD[x.matchedBy]} {$vis[x]} ownMaps(x) ==> (SD[x.matchedBy][any(name)] <==> atentry(SD)[x.matchedBy][any(name)] || $vis[x]) 
  invariant forall x *rbac.Role :: {SV[x.matchedBy]} $vis[x] ==> SV[x.matchedBy][any(name)] == any(role(rm, name))
  invariant none(role(rm, name).matchedBy) && !$vis[role(rm, name)]
  invariant forall x *rbac.Role :: {$vis[x]} $vis[x] ==> MM(rm.matcher, x.name, name) && x.name != name
  invariant forall k any :: {SD[role(rm, name).matched][k]} SD[role(rm, name).matched][k] ==> mt(rm, name, asStr(k))
  loop 2
  invariant forall m int :: {SD[m]} {SV[m]} RO[OW[m]] != rm.allRoles && OW[m] != role(rm, name) ==> SD[m] == atentry(SD)[m] && SV[m] == atentry(SV)[m]
  invariant !$vis[role(rm, name)] && SD[role(rm, name).matched] == atentry(SD[role(rm, name).matched]) && SV[role(rm, name).matched] == atentry(SV[role(rm, name).matched])
  invariant role(rm, name) != nil && okRole(role(rm, name)) && role(rm, name).name == name && SD[rm.allRoles][any(name)]
  invariant forall x *rbac.Role :: {$vis[x]} $vis[x] ==> okRole(x)
  invariant forall m int :: {SD[m]} {SV[m]} !roleMap(m, 3, 4) ==> SD[m] == atentry(SD)[m] && SV[m] == atentry(SV)[m]
  invariant forall m int :: {SD[m]} {SV[m]} KD[m] == 4 && m != role(rm, name).matchedBy ==> SD[m] == atentry(SD)[m] && SV[m] == atentry(SV)[m]
  invariant forall m int, k any :: {SD[m][k]} {SV[m][k]} KD[m] == 3 && k != any(name) ==> SD[m][k] == atentry(SD)[m][k] && SV[m][k] == atentry(SV)[m][k]
  invariant forall k any :: {SD[role(rm, name).matchedBy][k]} {$vis[asRole(SV[rm.allRoles][k])]} SD[role(rm, name).matchedBy][k] <==> SD[rm.allRoles][k] && $vis[asRole(SV[rm.allRoles][k])]
  invariant forall k any :: {SD[role(rm, name).matchedBy][k]} SD[role(rm, name).matchedBy][k] ==> SV[role(rm, name).matchedBy][k] == SV[rm.allRoles][k]
  invariant forall x *rbac.Role :: {SD[x.matched]} {$vis[x]} ownMaps(x) ==> (SD[x.matched][any(name)] <==> atentry(SD)[x.matched][any(name)] || $vis[x]) 
  invariant forall x *rbac.Role :: {SV[x.matched]} $vis[x] ==> SV[x.matched][any(name)] == any(role(rm, name))
  invariant forall x *rbac.Role :: {$vis[x]} $vis[x] ==> pat(rm, x.name) && MM(rm.matcher, name, x.name)

// what is registered for the roles of maps of the kinds 1, 2 and 5: links and their marks
define sameLinks() bool = forall m int :: {SD[m]} {SV[m]} old(allocated(m)) && (roleMap(m, 1, 2) || KD[m] == 5) ==> SD[m] == old(SD)[m] && SV[m] == old(SV)[m]
define sameKinds() bool = forall m int :: {OW[m]} {KD[m]} old(allocated(m)) ==> OW[m] == old(OW)[m] && KD[m] == old(KD)[m]
contract (*rbac.RoleManager).removeRole(rm, name) @C08
  requires okRM(rm)
  requires reg(rm, name) ==> none(role(rm, name).roles) && none(role(rm, name).users)
  let r = ite(reg(rm, name), role(rm, name), nil)
  option hide=text
  option reveal=okRM
  modifies SD, RO
  setpost RO[r] := 0
  ensures #registry SD[rm.allRoles] == del(old(SD[rm.allRoles]), any(name))
  ensures #links sameLinks()
  ensures #outside outside(rm)
  ensures #owners RO == store(old(RO), r, 0)
  ensures #ok okRM(rm)

// the link from a to b is present
define link(rm *rbac.RoleManager, a string, b string) bool = reg(rm, a) && SD[role(rm, a).roles][any(b)]
define marked(rm *rbac.RoleManager, a string, b string) bool = reg(rm, a) && SD[role(rm, a).redundant][any(b)]
// roles keep their place, and only new ones are registered
define owners(rm *rbac.RoleManager) bool = forall r int :: {RO[r]} RO[r] == old(RO)[r] || old(RO)[r] == 0 && fresh(r) && RO[r] == rm.allRoles
contract (*rbac.RoleManager).AddLink(rm, name1, name2, domains) (ok, err) @C08
  requires okRM(rm) && okMatching(rm)
  option hide=text
  option reveal=okRM
  modifies fieldof(util.node, next), fieldof(util.node, prev), fieldof(util.node, value), map(rm.matchingFuncCache.LRUCache.m), IN, RK, CK, SD, SV, OW, KD, RO
  ensures #report err == nil && (ok <==> !old(link(rm, name1, name2)))
  ensures #links forall a string, b string :: {role(rm, a), any(b)} link(rm, a, b) <==> old(link(rm, a, b)) || a == name1 && b == name2
  ensures #names forall a string :: {reg(rm, a)} reg(rm, a) <==> old(reg(rm, a)) || a == name1 || a == name2
  ensures #marks forall a string, b string :: {role(rm, a), any(b)} marked(rm, a, b) <==> old(marked(rm, a, b)) || a == name1 && b == name2 && len(domains) > 0 && domains[0] == "redundant_role"
  ensures #kinds sameKinds()
  ensures #outside outside(rm)
  ensures #owners owners(rm)
  ensures #matching okMatching(rm)
  ensures #ok okRM(rm)
contract (*rbac.RoleManager).DeleteLink(rm, name1, name2, domains) (ok, err) @C08
  requires okRM(rm) && okMatching(rm)
  option hide=text
  option reveal=okRM
  modifies fieldof(util.node, next), fieldof(util.node, prev), fieldof(util.node, value), map(rm.matchingFuncCache.LRUCache.m), IN, RK, CK, SD, SV, OW, KD, RO
  ensures #report err == nil && (ok <==> old(link(rm, name1, name2)))
  ensures #links forall a string, b string :: {role(rm, a), any(b)} link(rm, a, b) <==> old(link(rm, a, b)) && !(a == name1 && b == name2)
  ensures #marks forall a string, b string :: {role(rm, a), any(b)} marked(rm, a, b) <==> old(marked(rm, a, b)) && !(a == name1 && b == name2 && len(domains) > 0 && domains[0] == "redundant_role")
  ensures #kinds sameKinds()
  ensures #outside outside(rm)
  ensures #owners owners(rm)
  ensures #matching okMatching(rm)
  ensures #ok okRM(rm)

// the names one step above and below a role: over its own links, those its roles (users) match, and those of the patterns matching it
define up(r *rbac.Role, k any) bool = SD[r.roles][k] || (exists t any :: {SD[r.roles][t]} SD[r.roles][t] && SD[asRole(SV[r.roles][t]).matched][k]) || (exists p any :: {SD[r.matchedBy][p]} SD[r.matchedBy][p] && SD[asRole(SV[r.matchedBy][p]).roles][k])
define down(r *rbac.Role, k any) bool = SD[r.users][k] || (exists t any :: {SD[r.users][t]} SD[r.users][t] && SD[asRole(SV[r.users][t]).matched][k]) || (exists p any :: {SD[r.matchedBy][p]} SD[r.matchedBy][p] && SD[asRole(SV[r.matchedBy][p]).users][k])
// the role it comes with
define upRole(r *rbac.Role, k any, v any) bool = (SD[r.roles][k] && v == SV[r.roles][k]) || (exists t any :: {SD[r.roles][t]} SD[r.roles][t] && SD[asRole(SV[r.roles][t]).matched][k] && v == SV[asRole(SV[r.roles][t]).matched][k]) || (exists p any :: {SD[r.matchedBy][p]} SD[r.matchedBy][p] && SD[asRole(SV[r.matchedBy][p]).roles][k] && v == SV[asRole(SV[r.matchedBy][p]).roles][k])
define okStep(r *rbac.Role) bool = okRole(r) && entries(r.roles) && entries(r.users) && entries(r.matchedBy)
define listed(names []string, k string) bool = exists i int :: {content(names)[i]} off(names) <= i && i < off(names) + len(names) && content(names)[i] == k
// whatever is one step away is a name
define namesOnly(r *rbac.Role) bool = forall k any :: {up(r, k)} up(r, k) || down(r, k) ==> is(k, string)
contract (*rbac.Role).rangeRoles(r, fn) @C08
  requires okStep(r)
  option hide=text
  iterates fn(key any, value any) where up(r, key) by key : any with upRole(r, key, value) repeats always trigger {SD[r.roles][key]}
  loop 2
  invariant forall k any :: {SD[r.roles][k]} SD[r.roles][k] ==> $rep[k]
  invariant forall t any, k any :: {$vis[t], SD[asRole(SV[r.roles][t]).matched][k]} $vis[t] && SD[asRole(SV[r.roles][t]).matched][k] ==> $rep[k]
  loop 3
  invariant forall k any :: {SD[r.roles][k]} SD[r.roles][k] ==> $rep[k]
  invariant forall t any, k any :: {SD[r.roles][t], SD[asRole(SV[r.roles][t]).matched][k]} SD[r.roles][t] && SD[asRole(SV[r.roles][t]).matched][k] ==> $rep[k]
  invariant forall t any, k any :: {$vis[t], SD[asRole(SV[r.matchedBy][t]).roles][k]} $vis[t] && SD[asRole(SV[r.matchedBy][t]).roles][k] ==> $rep[k]
contract (*rbac.Role).rangeUsers(r, fn) @C08
  requires okStep(r)
  option hide=text
  iterates fn(key any, value any) where down(r, key) by key : any repeats always trigger {SD[r.users][key]}
  loop 2
  invariant forall k any :: {SD[r.users][k]} SD[r.users][k] ==> $rep[k]
  invariant forall t any, k any :: {$vis[t], SD[asRole(SV[r.users][t]).matched][k]} $vis[t] && SD[asRole(SV[r.users][t]).matched][k] ==> $rep[k]
  loop 3
  invariant forall k any :: {SD[r.users][k]} SD[r.users][k] ==> $rep[k]
  invariant forall t any, k any :: {SD[r.users][t], SD[asRole(SV[r.users][t]).matched][k]} SD[r.users][t] && SD[asRole(SV[r.users][t]).matched][k] ==> $rep[k]
  invariant forall t any, k any :: {$vis[t], SD[asRole(SV[r.matchedBy][t]).users][k]} $vis[t] && SD[asRole(SV[r.matchedBy][t]).users][k] ==> $rep[k]
// one step of inheritance between names: a link, a link to a pattern matching b, or a link of a pattern matching a
define step(rm *rbac.RoleManager, a string, b string) bool = link(rm, a, b) || (exists t string :: {any(t)} link(rm, a, t) && mt(rm, t, b)) || (exists p string :: {any(p)} reg(rm, p) && mt(rm, p, a) && link(rm, p, b))
// the names registered and the roles they have
define sameNames(rm *rbac.RoleManager) bool = forall k any :: {SD[rm.allRoles][k]} (SD[rm.allRoles][k] <==> old(SD)[rm.allRoles][k]) && (SD[rm.allRoles][k] ==> SV[rm.allRoles][k] == old(SV)[rm.allRoles][k])
contract (*rbac.Role).getRoles(r) (names) @C08
  requires okRole(r) && okRM(OW[RO[r]]) && mine(OW[RO[r]], r)
  option hide=text
  option reveal=okRM
  ensures #only forall j int :: {content(names)[j]} off(names) <= j && j < off(names) + len(names) ==> reg(OW[RO[r]], content(names)[j]) && step(OW[RO[r]], r.name, content(names)[j])
  ensures #all forall b string :: {any(b)} reg(OW[RO[r]], b) && step(OW[RO[r]], r.name, b) ==> listed(names, b)
  loop 1
  var names []string
  invariant forall j int :: {content(names)[j]} off(names) <= j && j < off(names) + len(names) ==> $vis[any(content(names)[j])] && up(r, any(content(names)[j]))
  invariant forall k any :: {$vis[k]} $vis[k] ==> listed(names, asStr(k))
contract (*rbac.Role).getUsers(r) (names) @C08
  requires okRole(r) && okRM(OW[RO[r]]) && mine(OW[RO[r]], r)
  option hide=text
  option reveal=okRM
  ensures #only forall j int :: {content(names)[j]} off(names) <= j && j < off(names) + len(names) ==> reg(OW[RO[r]], content(names)[j]) && step(OW[RO[r]], content(names)[j], r.name)
  ensures #all forall b string :: {any(b)} reg(OW[RO[r]], b) && step(OW[RO[r]], b, r.name) ==> listed(names, b)
  loop 1
  var names []string
  invariant forall j int :: {content(names)[j]} off(names) <= j && j < off(names) + len(names) ==> $vis[any(content(names)[j])] && down(r, any(content(names)[j]))
  invariant forall k any :: {$vis[k]} $vis[k] ==> listed(names, asStr(k))
contract (*rbac.RoleManager).GetRoles(rm, name, domains) (names, err) @C08
  requires okRM(rm) && okMatching(rm)
  option hide=text
  option reveal=okRM
  modifies fieldof(util.node, next), fieldof(util.node, prev), fieldof(util.node, value), map(rm.matchingFuncCache.LRUCache.m), IN, RK, CK, SD, SV, OW, KD, RO
  ensures err == nil
  ensures #only forall j int :: {content(names)[j]} off(names) <= j && j < off(names) + len(names) ==> reg(rm, content(names)[j]) && step(rm, name, content(names)[j])
  ensures #all forall b string :: {any(b)} reg(rm, b) && step(rm, name, b) ==> listed(names, b)
  ensures #names sameNames(rm)
  ensures #links sameLinks()
  ensures #kinds sameKinds()
  ensures #outside outside(rm)
  ensures #owners forall r int :: {RO[r]} RO[r] == old(RO)[r]
  ensures #matching okMatching(rm)
  ensures #ok okRM(rm)
contract (*rbac.RoleManager).GetUsers(rm, name, domains) (names, err) @C08
  requires okRM(rm) && okMatching(rm)
  option hide=text
  option reveal=okRM
  modifies fieldof(util.node, next), fieldof(util.node, prev), fieldof(util.node, value), map(rm.matchingFuncCache.LRUCache.m), IN, RK, CK, SD, SV, OW, KD, RO
  ensures err == nil
  ensures #only forall j int :: {content(names)[j]} off(names) <= j && j < off(names) + len(names) ==> reg(rm, content(names)[j]) && step(rm, content(names)[j], name)
  ensures #all forall b string :: {any(b)} reg(rm, b) && step(rm, b, name) ==> listed(names, b)
  ensures #names sameNames(rm)
  ensures #links sameLinks()
  ensures #kinds sameKinds()
  ensures #outside outside(rm)
  ensures #owners forall r int :: {RO[r]} RO[r] == old(RO)[r]
  ensures #matching okMatching(rm)
  ensures #ok okRM(rm)

// the links listed for the names in a map
define lists2(names *sync.Map, a string, b string) bool = SD[names][any(a)] && SD[asRole(SV[names][any(a)]).roles][any(b)] && !SD[asRole(SV[names][any(a)]).redundant][any(b)]
define okLinks(names *sync.Map) bool = names != nil && entries(names) && (forall n any, k any :: {SD[asRole(SV[names][n]).roles][k]} SD[names][n] && SD[asRole(SV[names][n]).roles][k] ==> is(k, string))
define sameListed(names *sync.Map) bool = SD[names] == old(SD)[names] && SV[names] == old(SV)[names] && (forall n any :: {SD[names][n]} SD[names][n] ==> SD[asRole(SV[names][n]).roles] == old(SD)[asRole(SV[names][n]).roles] && SD[asRole(SV[names][n]).redundant] == old(SD)[asRole(SV[names][n]).redundant])
contract rbac.rangeLinks(users, fn) @C08
  requires okLinks(users)
  option hide=text
  iterates fn(name1 string, name2 string, domain []string) where lists2(users, name1, name2) by pr(name1, name2) : SeqS with len(domain) == 0 changes (SD, SV, OW, KD, RO, IN, RK, CK, fieldof(util.node, next), fieldof(util.node, prev), fieldof(util.node, value), mapsof("map[any]*util.node")) keeps sameKinds() && sameListed(users) trigger {pr(name1, name2)}
  loop 1
  var cont bool
  invariant cont && !$stopped && okLinks(users) && sameListed(users)
  invariant forall a string, b string :: {pr(a, b)} $rep[pr(a, b)] ==> $vis[any(a)]
  invariant forall a string, b string :: {pr(a, b)} $vis[any(a)] && lists2(users, a, b) ==> $rep[pr(a, b)]
contract rbac.rangeLinks$1(key, value) (r) inline
  loop 1
  invariant cont && !$stopped && okLinks(users) && sameListed(users)
  invariant forall a string, b string :: {pr(a, b)} a != asRole(value).name ==> ($rep[pr(a, b)] <==> atentry($rep)[pr(a, b)])
  invariant forall a string, b string :: {pr(a, b)} a == asRole(value).name ==> ($rep[pr(a, b)] <==> $vis[any(b)] && lists2(users, a, b))

contract (*rbac.RoleManager).Range(rm, fn) @C08
  requires okRM(rm)
  option hide=text
  option reveal=okRM
  iterates fn(name1 string, name2 string, domain []string) where lists2(rm.allRoles, name1, name2) by pr(name1, name2) : SeqS with len(domain) == 0 changes (SD, SV, OW, KD, RO, IN, RK, CK, fieldof(util.node, next), fieldof(util.node, prev), fieldof(util.node, value), mapsof("map[any]*util.node")) keeps sameKinds() && sameListed(rm.allRoles) trigger {pr(name1, name2)}
  loop 1
  invariant !$stopped
  invariant forall q SeqS :: {$rep[q]} {$vis[q]} $rep[q] <==> $vis[q]
define okNames(rm *rbac.RoleManager) bool = okLinks(rm.allRoles) && registered() && RO[rm] == 0 && OW[rm.allRoles] == rm && allocated(rm.allRoles) && iReg(rm)
contract (*rbac.RoleManager).rebuild(rm) @C08
  requires rm != nil && okNames(rm) && inCaches()
  option hide=text
  option reveal=okRM
  modifies rm.matchingFuncCache, rm.allRoles, rm.patternRoles, IN, RK, CK, OW, KD, SD, SV, RO, fieldof(util.node, next), fieldof(util.node, prev), fieldof(util.node, value), mapsof("map[any]*util.node")
  ensures #links forall a string, b string :: {pr(a, b)} link(rm, a, b) <==> old(lists2(rm.allRoles, a, b))
  ensures #marks forall a string, b string :: {pr(a, b)} !marked(rm, a, b)
  ensures #matching okMatching(rm)
  ensures #ok okRM(rm)
  loop 1
  var roles *sync.Map
  invariant okRM(rm) && okMatching(rm) && roles == old(rm.allRoles) && rm.allRoles != roles && rm.patternRoles != roles && okLinks(roles)
  invariant SD[roles] == old(SD[rm.allRoles]) && SV[roles] == old(SV[rm.allRoles])
  invariant OW[roles] == rm && allocated(roles) && allocated(rm)
  invariant forall n any :: {SD[roles][n]} SD[roles][n] ==> RO[asRole(SV[roles][n])] == roles && SD[asRole(SV[roles][n]).roles] == old(SD)[asRole(SV[roles][n]).roles] && SD[asRole(SV[roles][n]).redundant] == old(SD)[asRole(SV[roles][n]).redundant]
  invariant forall a string, b string :: {pr(a, b)} link(rm, a, b) <==> $vis[pr(a, b)]
  invariant forall a string, b string :: {pr(a, b)} $vis[pr(a, b)] ==> old(lists2(rm.allRoles, a, b))
  invariant forall a string, b string :: {pr(a, b)} lists2(roles, a, b) <==> old(lists2(rm.allRoles, a, b))
  invariant forall a string, b string :: {pr(a, b)} !marked(rm, a, b)
contract (*rbac.RoleManager).SetMatcher(rm, matcher) @C08
  requires rm != nil && okNames(rm) && inCaches()
  option hide=text
  modifies rm.matcher, rm.matchingFuncCache, rm.allRoles, rm.patternRoles, IN, RK, CK, OW, KD, SD, SV, RO, fieldof(util.node, next), fieldof(util.node, prev), fieldof(util.node, value), mapsof("map[any]*util.node")
  ensures #matcher rm.matcher == matcher
  ensures #links forall a string, b string :: {pr(a, b)} link(rm, a, b) <==> old(lists2(rm.allRoles, a, b))
  ensures #marks forall a string, b string :: {pr(a, b)} !marked(rm, a, b)
  ensures #matching okMatching(rm)
  ensures #ok okRM(rm)
contract rbac.NewRoleManager(maxHierarchyLevel) (rm) @C08
  requires registered() && inCaches()
  modifies IN, RK, CK, OW, KD
  option reveal=okMatching,okRM
  ensures #new fresh(rm) && rm.maxHierarchyLevel == maxHierarchyLevel && rm.matcher == nil
  ensures #empty none(rm.allRoles)
  ensures #cache inCaches() && okSync(rm.matchingFuncCache) && (forall k any :: {k in rm.matchingFuncCache.LRUCache.m} !(k in rm.matchingFuncCache.LRUCache.m))
  ensures #matching okMatching(rm)
  ensures #ok okRM(rm)
  ensures #kinds sameKinds()
contract rbac.newRoleManagerWithMatchingFunc(maxHierarchyLevel, matcher) (rm) @C08
  requires registered() && inCaches()
  modifies IN, RK, CK, OW, KD
  option reveal=okRM,okMatching
  ensures #new fresh(rm) && rm.maxHierarchyLevel == maxHierarchyLevel && rm.matcher == matcher
  ensures #empty none(rm.allRoles)
  ensures #matching okMatching(rm)
  ensures #ok okRM(rm)
  ensures #kinds sameKinds()

// ---- reachability ----
sort Rel = (Array Str (Array Str Bool))
// reach: b, or a name it matches, is at most l - 1 steps of E away from a
declare reach(E Rel, m util.IMatcher, b string, a string, l int) bool
axiom reachDef [needs reach]: forall E Rel, m util.IMatcher, b string, a string, l int :: {reach(E, m, b, a, l)} reach(E, m, b, a, l) <==> l > 0 && (a == b || (m != nil && MM(m, a, b)) || (exists c string :: {E[a][c]} E[a][c] && reach(E, m, b, c, l - 1)))
// the steps a search takes
ghost EDGES Rel
contract (*rbac.RoleManager).hasLinkHelper(rm, targetName, roles, level) (ok) @C07
  decreases level
  requires okRM(rm) && okMatching(rm)
  requires forall k string :: {k in roles} k in roles ==> mine(rm, roles[k]) && roles[k].name == k
  requires #edges forall a string, c string :: {EDGES[a][c]} EDGES[a][c] <==> step(rm, a, c) && reg(rm, c)
  option hide=text
  option reveal=okRM
  modifies fieldof(util.node, next), fieldof(util.node, prev), fieldof(util.node, value), map(rm.matchingFuncCache.LRUCache.m), IN, RK, CK
  ensures #reach ok <==> (exists k string :: {k in roles} k in roles && reach(EDGES, rm.matcher, targetName, k, level))
  ensures #matching okMatching(rm)
  loop 1
  var nextRoles map[string]*rbac.Role
  invariant okMatching(rm)
  invariant forall k string :: {k in nextRoles} k in nextRoles ==> mine(rm, nextRoles[k]) && nextRoles[k].name == k
  invariant forall k string :: {k in nextRoles} k in nextRoles ==> (exists n string :: {$vis[n]} {EDGES[n][k]} $vis[n] && EDGES[n][k])
  invariant forall n string, k string :: {$vis[n], EDGES[n][k]} $vis[n] && EDGES[n][k] ==> k in nextRoles
  invariant forall n string :: {$vis[n]} $vis[n] ==> n in roles && n != targetName && !(rm.matcher != nil && MM(rm.matcher, n, targetName))
  loop 2
  var nextRoles map[string]*rbac.Role
  var role *rbac.Role
  invariant forall k string :: {$vis[any(k)]} {EDGES[role.name][k]} $vis[any(k)] ==> EDGES[role.name][k]
  invariant forall k string :: {k in nextRoles} k in nextRoles ==> mine(rm, nextRoles[k]) && nextRoles[k].name == k
  invariant forall k string :: {k in nextRoles} {$vis[any(k)]} k in nextRoles <==> atentry(k in nextRoles) || $vis[any(k)]
contract (*rbac.RoleManager).HasLink(rm, name1, name2, domains) (ok, err) @C07
  requires okRM(rm) && okMatching(rm)
  option hide=text
  option reveal=okRM
  let E[a string, c string] = step(rm, a, c) && (reg(rm, c) || c == name1 || c == name2)
  set EDGES := E
  modifies EDGES, fieldof(util.node, next), fieldof(util.node, prev), fieldof(util.node, value), map(rm.matchingFuncCache.LRUCache.m), IN, RK, CK, SD, SV, OW, KD, RO
  ensures #report err == nil
  ensures #answer ok <==> name1 == name2 || (rm.matcher != nil && MM(rm.matcher, name1, name2)) || reach(E, rm.matcher, name2, name1, rm.maxHierarchyLevel)
  ensures #names sameNames(rm)
  ensures #links sameLinks()
  ensures #kinds sameKinds()
  ensures #outside outside(rm)
  ensures #owners forall r int :: {RO[r]} RO[r] == old(RO)[r]
  ensures #matching okMatching(rm)
  ensures #ok okRM(rm)
