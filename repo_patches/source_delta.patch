From d9b1ab38db9d944fedf9e4c360e37e4c227b549e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 01/38] fix: do not let OR branches of a matcher overwrite each
 other's pending AND operands

---
 model/defs/matcher_def.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 09494fa..304135c 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -162,7 +162,10 @@ func buildExprTree(node *MatcherStage, tokens []govaluate.ExpressionToken, and [
 		}
 		return buildExprTree(node, tokens[index+1:], and)
 	} else { // operator.Value == &&
-		return buildExprTree(node, tokens[:index], append(and, tokens[index+1:]))
+		// copy the pending operands: sibling branches must not share the backing array
+		pending := make([][]govaluate.ExpressionToken, len(and), len(and)+1)
+		copy(pending, and)
+		return buildExprTree(node, tokens[:index], append(pending, tokens[index+1:]))
 	}
 }
 
-- 
2.43.0


From be185377bb0011fa14844eb035bcfa7aac3955ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:10 +0000
Subject: [PATCH 02/38] fix: support matchers with more than two alternatives
 at one level

---
 model/matcher/matcher.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 47622fe..e4cd6b5 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -30,20 +30,22 @@ type MatcherNode struct {
 	children []map[string]*MatcherNode
 }
 
-func NewMatcherNode(rule []string) *MatcherNode {
+// NewMatcherNode creates a node with one child map for each child of its matcher stage
+func NewMatcherNode(rule []string, stage *defs.MatcherStage) *MatcherNode {
 	node := &MatcherNode{}
 	node.rule = rule
-	node.children = make([]map[string]*MatcherNode, 2)
-	node.children[0] = make(map[string]*MatcherNode)
-	node.children[1] = make(map[string]*MatcherNode)
+	node.children = make([]map[string]*MatcherNode, len(stage.Children()))
+	for i := range node.children {
+		node.children[i] = make(map[string]*MatcherNode)
+	}
 	return node
 }
 
-func (n *MatcherNode) GetOrCreate(i int, key string, rule []string) *MatcherNode {
+func (n *MatcherNode) GetOrCreate(i int, key string, rule []string, stage *defs.MatcherStage) *MatcherNode {
 	if node, ok := n.children[i][key]; ok {
 		return node
 	}
-	node := NewMatcherNode(rule)
+	node := NewMatcherNode(rule, stage)
 	n.children[i][key] = node
 	return node
 }
@@ -87,7 +89,7 @@ func NewMatcher(pDef *defs.PolicyDef, policy p.IPolicy, exprRoot *defs.MatcherSt
 	m.pDef = pDef
 	m.policy = policy
 	m.exprRoot = exprRoot
-	m.root = NewMatcherNode([]string{""})
+	m.root = NewMatcherNode([]string{""}, exprRoot)
 
 	policy.Range(func(rule []string) bool {
 		m.addRule(rule)
@@ -105,7 +107,7 @@ func NewMatcher(pDef *defs.PolicyDef, policy p.IPolicy, exprRoot *defs.MatcherSt
 	})
 
 	policy.AddListener(p.EVT_CLEARED, func(arguments ...interface{}) {
-		m.root = NewMatcherNode([]string{""})
+		m.root = NewMatcherNode([]string{""}, exprRoot)
 	})
 
 	return m
@@ -132,10 +134,10 @@ func (m *Matcher) addRuleHelper(rule []string, exprNode *defs.MatcherStage, node
 		}
 
 		if !nextExpr.IsLeafNode() {
-			nextNode := node.GetOrCreate(i, key, rule)
+			nextNode := node.GetOrCreate(i, key, rule, nextExpr)
 			m.addRuleHelper(rule, nextExpr, nextNode)
 		} else {
-			node.children[i][key] = NewMatcherNode(rule)
+			node.children[i][key] = NewMatcherNode(rule, nextExpr)
 		}
 	}
 
@@ -176,7 +178,7 @@ func (m *Matcher) rangeMatches(exprNode *defs.MatcherStage, rules map[string]*Ma
 	if len(rules) == 0 {
 		empty_rule := make([]string, len(m.pDef.GetArgs()))
 		rules = map[string]*MatcherNode{
-			"": NewMatcherNode(empty_rule),
+			"": NewMatcherNode(empty_rule, exprNode),
 		}
 	}
 
-- 
2.43.0


From 741a2627c667b2729686f291b2223c109288f486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 03/38] fix: drop index nodes of removed rules, they kept
 matching requests

---
 model/matcher/matcher.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index e4cd6b5..7dba727 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -162,6 +162,10 @@ func (m *Matcher) removeRuleHelper(rule []string, exprNode *defs.MatcherStage, n
 		if !nextExpr.IsLeafNode() {
 			if nextNode, ok := node.children[i][key]; ok {
 				m.removeRuleHelper(rule, nextExpr, nextNode)
+				// every rule of a node is present in all of its child maps
+				if len(nextNode.children[0]) == 0 {
+					delete(node.children[i], key)
+				}
 			}
 		} else {
 			delete(node.children[i], key)
-- 
2.43.0


From 7fa973972165fb8d5fbbf668fa8f3bc271b93134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 04/38] fix: report evaluation errors of nested matcher stages

---
 model/matcher/matcher.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 7dba727..766483c 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -204,17 +204,22 @@ func (m *Matcher) rangeMatches(exprNode *defs.MatcherStage, rules map[string]*Ma
 
 func (m *Matcher) rangeMatchesHelper(exprNode *defs.MatcherStage, node *MatcherNode, params *MatchParameters, functions map[string]govaluate.ExpressionFunction, fn func(rule []string) bool) (bool, error) {
 	for i, nextExpr := range exprNode.Children() {
+		var nestedErr error
 		cont, err := m.rangeMatches(nextExpr, node.children[i], params, functions, func(nextNode *MatcherNode) bool {
 			if nextExpr.IsLeafNode() && !fn(nextNode.rule) {
 				return false //break
 			} else {
 				cont, err := m.rangeMatchesHelper(nextExpr, nextNode, params, functions, fn)
 				if err != nil || !cont {
+					nestedErr = err
 					return false
 				}
 			}
 			return true //continue
 		})
+		if err == nil {
+			err = nestedErr
+		}
 		if err != nil {
 			return false, err
 		}
-- 
2.43.0


From 5ad8b32b769fc9d0395c0c9952a7659172c65e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 05/38] fix: report effector errors instead of a silent deny

---
 enforcer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/enforcer.go b/enforcer.go
index 6cad9a0..c030e17 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -333,11 +333,14 @@ func (e *Enforcer) enforce(ctx *Context, rvals []interface{}) (bool, error) {
 		return false, err
 	}
 	if eftErr != nil {
-		return false, err
+		return false, eftErr
 	}
 
 	if res == eft.Indeterminate {
-		res, _, _ = ctx.effector.MergeEffects(effects, matches, true)
+		res, _, err = ctx.effector.MergeEffects(effects, matches, true)
+		if err != nil {
+			return false, err
+		}
 	}
 
 	return res == eft.Allow, nil
-- 
2.43.0


From d091a9c399122a993d2744a19dad0cb654effb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 06/38] fix: allow-and-no-deny effect must not depend on the
 order of matched rules

---
 model/effector/default_effector.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/model/effector/default_effector.go b/model/effector/default_effector.go
index 7a63f6e..07cb072 100644
--- a/model/effector/default_effector.go
+++ b/model/effector/default_effector.go
@@ -43,10 +43,12 @@ func (e *DefaultEffector) MergeEffects(effects []types.Effect, matches [][]strin
 		case eft.NO_DENY:
 			return eft.Allow, []string{}, nil
 		case eft.SOME_ALLOW_NO_DENY:
-			if len(matches) == 0 {
-				return eft.Deny, []string{}, nil
+			for i, effect := range effects {
+				if effect == eft.Allow {
+					return effect, matches[i], nil
+				}
 			}
-			return effects[0], matches[0], nil
+			return eft.Deny, []string{}, nil
 		}
 		return eft.Deny, []string{}, errors.New("unsupported effect")
 	}
-- 
2.43.0


From f6b2aa79cf92f7f602250089ef2ef5a6b0cfed03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 07/38] fix: rules whose values contain a comma must not share
 a key

---
 util/util.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 74f217b..571b836 100644
--- a/util/util.go
+++ b/util/util.go
@@ -3,6 +3,7 @@ package util
 import (
 	"errors"
 	"os"
+	"strconv"
 	"strings"
 )
 
@@ -26,6 +27,13 @@ func FileExists(path string) (bool, error) {
 	return false, err
 }
 
+// Hash returns a key for the given values, different values never share a key
 func Hash(rule []string) string {
-	return strings.Join(rule, DefaultSep)
+	var sb strings.Builder
+	for _, value := range rule {
+		sb.WriteString(strconv.Itoa(len(value)))
+		sb.WriteString(":")
+		sb.WriteString(value)
+	}
+	return sb.String()
 }
-- 
2.43.0


From b4a23ed0d9d6a347216be3da7e831a295215cd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 08/38] fix: cached matching results of different name/pattern
 pairs must not share a key

---
 rbac/domain_manager.go | 2 +-
 rbac/role_manager.go   | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 135ad93..ecadedb 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -87,7 +87,7 @@ func (dm *DomainManager) getDomain(domains ...string) (domain string, subdomains
 }
 
 func (dm *DomainManager) match(str string, pattern string) bool {
-	cacheKey := strings.Join([]string{str, pattern}, "$$")
+	cacheKey := util.Hash([]string{str, pattern})
 	if v, has := dm.matchingFuncCache.Get(cacheKey); has {
 		return v.(bool)
 	} else {
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index 098da72..53a45b6 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -15,7 +15,6 @@
 package rbac
 
 import (
-	"strings"
 	"sync"
 
 	"github.com/abichinger/fastac/util"
@@ -60,7 +59,7 @@ func (rm *RoleManager) rebuild() {
 }
 
 func (rm *RoleManager) match(str string, pattern string) bool {
-	cacheKey := strings.Join([]string{str, pattern}, "$$")
+	cacheKey := util.Hash([]string{str, pattern})
 	if v, has := rm.matchingFuncCache.Get(cacheKey); has {
 		return v.(bool)
 	} else {
-- 
2.43.0


From 7a15593275cac87a3d2933cc67ecc7b4ac23d2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:12 +0000
Subject: [PATCH 09/38] fix: LRUCache.Put must update the value of an existing
 key

---
 util/cache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/cache.go b/util/cache.go
index 3ace430..3c8737b 100644
--- a/util/cache.go
+++ b/util/cache.go
@@ -71,6 +71,7 @@ func (cache *LRUCache) Put(key interface{}, value interface{}) {
 	n, ok := cache.m[key]
 	if ok {
 		cache.remove(n, false)
+		n.value = value
 	} else {
 		n = &node{key, value, nil, nil}
 		if len(cache.m) >= cache.capacity {
-- 
2.43.0


From 9cc47f4a135e08fab323c405b747acb306bdeca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:14 +0000
Subject: [PATCH 10/38] fix: SyncLRUCache.Get modifies the entry list and needs
 the write lock

---
 util/cache.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/util/cache.go b/util/cache.go
index 3c8737b..780e13d 100644
--- a/util/cache.go
+++ b/util/cache.go
@@ -93,8 +93,9 @@ func NewSyncLRUCache(capacity int) *SyncLRUCache {
 }
 
 func (cache *SyncLRUCache) Get(key interface{}) (value interface{}, ok bool) {
-	cache.rwm.RLock()
-	defer cache.rwm.RUnlock()
+	// Get reorders the entries, a read lock is not sufficient
+	cache.rwm.Lock()
+	defer cache.rwm.Unlock()
 	return cache.LRUCache.Get(key)
 }
 
-- 
2.43.0


From c1536197c47c4559600424e1460161a2807bda1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 11/38] fix: looking up an unknown request definition or role
 manager must not panic

---
 model/model.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/model/model.go b/model/model.go
index 88b8d5d..e990b1d 100644
--- a/model/model.go
+++ b/model/model.go
@@ -328,7 +328,10 @@ func (m *Model) SetPolicy(key string, policy policy.IPolicy) {
 
 func (m *Model) GetRoleManager(key string) (rbac.IRoleManager, bool) {
 	rp, ok := m.rpMap[key]
-	return rp.GetRoleManager(), ok
+	if !ok {
+		return nil, false
+	}
+	return rp.GetRoleManager(), true
 }
 
 func (m *Model) SetRoleManager(key string, rm rbac.IRoleManager) {
@@ -346,8 +349,8 @@ func (m *Model) SetMatcher(key string, matcher matcher.IMatcher) {
 }
 
 func (m *Model) GetRequestDef(key string) (*defs.RequestDef, bool) {
-	def, ok := m.defs[R_SEC][key]
-	return def.(*defs.RequestDef), ok
+	def, ok := m.defs[R_SEC][key].(*defs.RequestDef)
+	return def, ok
 }
 
 func (m *Model) SetRequestDef(key string, def *defs.RequestDef) {
-- 
2.43.0


From 7b9727005f9a2ccc3d12fc1ce1ce9fc4fbe54b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 12/38] fix: enforcing with a matcher of a grouping policy must
 return an error instead of panicking

---
 enforcer.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/enforcer.go b/enforcer.go
index c030e17..4ae2a5e 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -16,6 +16,7 @@ package fastac
 
 import (
 	"errors"
+	"fmt"
 	"time"
 
 	log "github.com/abichinger/fastac/log"
@@ -309,8 +310,12 @@ func (e *Enforcer) RangeMatchesWithContext(ctx *Context, rvals []interface{}, fn
 }
 
 func (e *Enforcer) enforce(ctx *Context, rvals []interface{}) (bool, error) {
-	def, _ := e.model.GetDef(m.P_SEC, ctx.matcher.GetPolicyKey())
-	pDef := def.(*defs.PolicyDef)
+	pKey := ctx.matcher.GetPolicyKey()
+	def, _ := e.model.GetDef(m.P_SEC, pKey)
+	pDef, ok := def.(*defs.PolicyDef)
+	if !ok {
+		return false, fmt.Errorf(str.ERR_POLICY_NOT_FOUND, pKey)
+	}
 	res := eft.Indeterminate
 	effects := []types.Effect{}
 	matches := [][]string{}
-- 
2.43.0


From 1ff12387e3411f74b9a449f58d50f366963311de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 13/38] fix: a rule with omitted effect must allow, its last
 value is not the effect

---
 enforcer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enforcer.go b/enforcer.go
index 4ae2a5e..7513c01 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -322,7 +322,7 @@ func (e *Enforcer) enforce(ctx *Context, rvals []interface{}) (bool, error) {
 
 	var eftErr error = nil
 	err := e.RangeMatchesWithContext(ctx, rvals, func(rule []string) bool {
-		effect := pDef.GetEft(rule)
+		effect := pDef.GetEft(rule[1:]) //skip the policy key
 
 		effects = append(effects, effect)
 		matches = append(matches, rule)
-- 
2.43.0


From f164bb304183abd5cae39f150255d220298e915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:20 +0000
Subject: [PATCH 14/38] fix: keep pending operations in the queue until the
 adapter accepted them

---
 storage/controller.go | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/storage/controller.go b/storage/controller.go
index 2c9e208..7a98875 100644
--- a/storage/controller.go
+++ b/storage/controller.go
@@ -128,43 +128,32 @@ func (sc *StorageController) AutosaveEnabled() bool {
 func (sc *StorageController) flush() error {
 	for len(sc.q) > 0 {
 		operation := sc.q[0]
-		sc.q = sc.q[1:]
 		if err := sc.run(operation.opc, operation.rule); err != nil {
 			return err
 		}
+		sc.q = sc.q[1:]
 	}
 	return nil
 }
 
 func (sc *StorageController) batchFlush() error {
 
-	rules := [][]string{}
-
-	var currentOpc opcode
-	if len(sc.q) > 0 {
-		currentOpc = sc.q[0].opc
-	}
-
 	for len(sc.q) > 0 {
 
-		operation := sc.q[0]
-		sc.q = sc.q[1:]
+		currentOpc := sc.q[0].opc
+		rules := [][]string{}
 
-		if currentOpc == operation.opc {
-			rules = append(rules, operation.rule)
-		} else {
-			if err := sc.runBatch(currentOpc, rules); err != nil {
-				return err
+		for _, operation := range sc.q {
+			if operation.opc != currentOpc {
+				break
 			}
-			currentOpc = operation.opc
-			rules = [][]string{operation.rule}
+			rules = append(rules, operation.rule)
 		}
-	}
 
-	if len(rules) > 0 {
 		if err := sc.runBatch(currentOpc, rules); err != nil {
 			return err
 		}
+		sc.q = sc.q[len(rules):]
 	}
 	return nil
 }
-- 
2.43.0


From 110c66b3ccc316760c8208c7b51be983a3c70769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:01 +0000
Subject: [PATCH 15/38] fix: a context without usable default definitions must
 be an error, not a nil dereference

---
 context.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/context.go b/context.go
index e0caff9..6a83916 100644
--- a/context.go
+++ b/context.go
@@ -103,13 +103,19 @@ func NewContext(model model.IModel, options ...ContextOption) (*Context, error)
 	}
 
 	if ctx.rDef == nil {
-		_ = SetRequestDef("r")(ctx)
+		if err := SetRequestDef("r")(ctx); err != nil {
+			return nil, err
+		}
 	}
 	if ctx.matcher == nil {
-		_ = SetMatcher("m")(ctx)
+		if err := SetMatcher("m")(ctx); err != nil {
+			return nil, err
+		}
 	}
 	if ctx.effector == nil {
-		_ = SetEffector("e")(ctx)
+		if err := SetEffector("e")(ctx); err != nil {
+			return nil, err
+		}
 	}
 
 	return ctx, nil
-- 
2.43.0


From e8866f66cbf54f9e3d9a603cdf55979c2b87ffbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 16/38] fix: clearing a grouping policy must reset the matchers
 built on it

---
 rbac/role_policy.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rbac/role_policy.go b/rbac/role_policy.go
index f1193e3..caf1dc9 100644
--- a/rbac/role_policy.go
+++ b/rbac/role_policy.go
@@ -45,7 +45,11 @@ func (p *RolePolicy) GetDistinct(columns []int) ([][]string, error) {
 }
 
 func (p *RolePolicy) Clear() error {
-	return p.rm.Clear()
+	if err := p.rm.Clear(); err != nil {
+		return err
+	}
+	p.Emitter.EmitEvent(policy.EVT_CLEARED)
+	return nil
 }
 
 func (p *RolePolicy) GetRoleManager() IRoleManager {
-- 
2.43.0


From b836be62f8472463599b40194292fc47c9c97a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 17/38] fix: reject incomplete rules with an error instead of
 an index panic

---
 model/model.go      | 7 +++++++
 rbac/role_policy.go | 9 +++++++++
 str/errors.go       | 1 +
 3 files changed, 17 insertions(+)

diff --git a/model/model.go b/model/model.go
index e990b1d..0c92e4c 100644
--- a/model/model.go
+++ b/model/model.go
@@ -15,6 +15,7 @@
 package model
 
 import (
+	"errors"
 	"fmt"
 	"sort"
 
@@ -246,6 +247,9 @@ func (m *Model) BuildMatcherFromDef(mDef *defs.MatcherDef) (matcher.IMatcher, er
 }
 
 func (m *Model) AddRule(rule []string) (bool, error) {
+	if len(rule) == 0 || len(rule[0]) == 0 {
+		return false, errors.New(str.ERR_INVALID_RULE)
+	}
 	key := rule[0]
 	sec := key[0]
 	var added bool
@@ -265,6 +269,9 @@ func (m *Model) AddRule(rule []string) (bool, error) {
 }
 
 func (m *Model) RemoveRule(rule []string) (bool, error) {
+	if len(rule) == 0 || len(rule[0]) == 0 {
+		return false, errors.New(str.ERR_INVALID_RULE)
+	}
 	key := rule[0]
 	sec := key[0]
 	var removed bool
diff --git a/rbac/role_policy.go b/rbac/role_policy.go
index caf1dc9..00a06ee 100644
--- a/rbac/role_policy.go
+++ b/rbac/role_policy.go
@@ -1,7 +1,10 @@
 package rbac
 
 import (
+	"errors"
+
 	"github.com/abichinger/fastac/model/policy"
+	"github.com/abichinger/fastac/str"
 	em "github.com/vansante/go-event-emitter"
 )
 
@@ -16,6 +19,9 @@ func NewRolePolicy(rm IRoleManager) *RolePolicy {
 }
 
 func (p *RolePolicy) AddRule(rule []string) (bool, error) {
+	if len(rule) < 2 {
+		return false, errors.New(str.ERR_INVALID_RULE)
+	}
 	added, err := p.rm.AddLink(rule[0], rule[1], rule[2:]...)
 	if !added || err != nil {
 		return added, err
@@ -25,6 +31,9 @@ func (p *RolePolicy) AddRule(rule []string) (bool, error) {
 }
 
 func (p *RolePolicy) RemoveRule(rule []string) (bool, error) {
+	if len(rule) < 2 {
+		return false, errors.New(str.ERR_INVALID_RULE)
+	}
 	removed, err := p.rm.DeleteLink(rule[0], rule[1], rule[2:]...)
 	if !removed || err != nil {
 		return removed, err
diff --git a/str/errors.go b/str/errors.go
index b8b0b6b..ce2cb05 100644
--- a/str/errors.go
+++ b/str/errors.go
@@ -23,4 +23,5 @@ const (
 	ERR_REQUESTDEF_NOT_FOUND = "error: request definition %s not found"
 	ERR_EFFECTOR_NOT_FOUND   = "error: effect definition %s not found"
 	ERR_INVALID_MODEL        = "invalid model"
+	ERR_INVALID_RULE         = "error: invalid rule"
 )
-- 
2.43.0


From 81957e1c9436f876426125595d1a374ab4e41260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:07 +0000
Subject: [PATCH 18/38] fix: SetDef must reject an empty key with an error

---
 model/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/model.go b/model/model.go
index 0c92e4c..872c894 100644
--- a/model/model.go
+++ b/model/model.go
@@ -169,7 +169,7 @@ func (m *Model) SetDef(sec byte, key string, value string) error {
 	if !ok {
 		return fmt.Errorf(str.ERR_INVALID_SEC, sec)
 	}
-	if key[0] != secDef.keyPrefix {
+	if len(key) == 0 || key[0] != secDef.keyPrefix {
 		return fmt.Errorf(str.ERR_INVALID_KEY_PREFIX, secDef.name, secDef.keyPrefix)
 	}
 	if err := secDef.handler(m, key, value); err != nil {
-- 
2.43.0


From 40967cc7f603b63d78601dd730f0a11b8292fc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:09 +0000
Subject: [PATCH 19/38] fix: stored rules must not alias the slice passed by
 the caller

---
 model/model.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/model/model.go b/model/model.go
index 872c894..da452e8 100644
--- a/model/model.go
+++ b/model/model.go
@@ -252,6 +252,7 @@ func (m *Model) AddRule(rule []string) (bool, error) {
 	}
 	key := rule[0]
 	sec := key[0]
+	rule = append([]string{}, rule...) //the caller may reuse its slice
 	var added bool
 	var err error
 	switch sec {
@@ -274,6 +275,7 @@ func (m *Model) RemoveRule(rule []string) (bool, error) {
 	}
 	key := rule[0]
 	sec := key[0]
+	rule = append([]string{}, rule...) //the caller may reuse its slice
 	var removed bool
 	var err error
 	switch sec {
-- 
2.43.0


From 7c5fb2597effeb553385645ee397a211e8663a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:11 +0000
Subject: [PATCH 20/38] fix: argument names must not be found in the middle of
 another identifier

---
 model/defs/defs.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/model/defs/defs.go b/model/defs/defs.go
index 67ee870..b557641 100644
--- a/model/defs/defs.go
+++ b/model/defs/defs.go
@@ -27,9 +27,9 @@ import (
 const DefaultSep = ","
 const DefaultRoleParty = "_"
 
-var ArgReg = regexp.MustCompile(`([prg][0-9]*)(\.|_)([A-Za-z0-9_]+)`)
-var pArgReg = regexp.MustCompile(`([pg][0-9]*)_([A-Za-z0-9_]+)`)
-var rArgReg = regexp.MustCompile(`(r[0-9]*)_([A-Za-z0-9_]+)`)
+var ArgReg = regexp.MustCompile(`\b([prg][0-9]*)(\.|_)([A-Za-z0-9_]+)`)
+var pArgReg = regexp.MustCompile(`\b([pg][0-9]*)_([A-Za-z0-9_]+)`)
+var rArgReg = regexp.MustCompile(`\b(r[0-9]*)_([A-Za-z0-9_]+)`)
 
 type IDef interface {
 	String() string
-- 
2.43.0


From a69f39f92baa999e0eed65165529bbd8064e197b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 21/38] fix: rules must not be grouped by the arguments of a
 stage that calls eval

---
 model/defs/defs.go        | 1 +
 model/defs/matcher_def.go | 5 +++++
 model/matcher/matcher.go  | 4 ++--
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/model/defs/defs.go b/model/defs/defs.go
index b557641..bf08bf3 100644
--- a/model/defs/defs.go
+++ b/model/defs/defs.go
@@ -29,6 +29,7 @@ const DefaultRoleParty = "_"
 
 var ArgReg = regexp.MustCompile(`\b([prg][0-9]*)(\.|_)([A-Za-z0-9_]+)`)
 var pArgReg = regexp.MustCompile(`\b([pg][0-9]*)_([A-Za-z0-9_]+)`)
+var evalReg = regexp.MustCompile(`\beval\b`)
 var rArgReg = regexp.MustCompile(`\b(r[0-9]*)_([A-Za-z0-9_]+)`)
 
 type IDef interface {
diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 304135c..2414225 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -36,6 +36,11 @@ func (stage *MatcherStage) RecursivePolicyArgs() []string {
 	return res
 }
 
+// HasEval reports whether the result of the stage may depend on arguments, which are not part of its expression
+func (stage *MatcherStage) HasEval() bool {
+	return evalReg.MatchString(stage.expr)
+}
+
 func (stage *MatcherStage) GetRequestArgs() []string {
 	return stage.rArgs
 }
diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 766483c..cb40996 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -126,7 +126,7 @@ func (m *Matcher) addRuleHelper(rule []string, exprNode *defs.MatcherStage, node
 		pArgs := nextExpr.GetPolicyArgs()
 
 		var key string
-		if len(pArgs) == 0 || nextExpr.IsLeafNode() {
+		if len(pArgs) == 0 || nextExpr.IsLeafNode() || nextExpr.HasEval() {
 			key = util.Hash(rule)
 		} else {
 			r, _ := m.pDef.GetParameters(rule, pArgs)
@@ -152,7 +152,7 @@ func (m *Matcher) removeRuleHelper(rule []string, exprNode *defs.MatcherStage, n
 		pArgs := nextExpr.GetPolicyArgs()
 
 		var key string
-		if len(pArgs) == 0 || nextExpr.IsLeafNode() {
+		if len(pArgs) == 0 || nextExpr.IsLeafNode() || nextExpr.HasEval() {
 			key = util.Hash(rule)
 		} else {
 			r, _ := m.pDef.GetParameters(rule, pArgs)
-- 
2.43.0


From 0517c8942bec5e38bf20f5b5e9baedabd6c82e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 22/38] fix: a request must not replace the eval function of
 other requests

---
 model/fm/function.go     | 9 +++++++++
 model/matcher/matcher.go | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/model/fm/function.go b/model/fm/function.go
index 8c0c05e..d6507d5 100644
--- a/model/fm/function.go
+++ b/model/fm/function.go
@@ -49,6 +49,15 @@ func DefaultFunctionMap() *FunctionMap {
 	return fm
 }
 
+// Copy returns a function map with the same functions
+func (fm *FunctionMap) Copy() *FunctionMap {
+	res := NewFunctionMap()
+	for name, fn := range fm.fns {
+		res.SetFunction(name, fn)
+	}
+	return res
+}
+
 func (fm *FunctionMap) SetFunction(name string, function govaluate.ExpressionFunction) {
 	fm.fns[name] = function
 }
diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index cb40996..4c8d77c 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -232,6 +232,8 @@ func (m *Matcher) rangeMatchesHelper(exprNode *defs.MatcherStage, node *MatcherN
 
 func (m *Matcher) RangeMatches(rDef defs.RequestDef, rvals []interface{}, fMap fm.FunctionMap, fn func(rule []string) bool) error {
 	params := NewMatchParameters(*m.pDef, nil, rDef, rvals)
+	//eval depends on the request, it must not be stored in the shared function map
+	fMap = *fMap.Copy()
 	fMap.SetFunction("eval", generateEvalFunction(fMap, params))
 	functions := fMap.GetFunctions()
 
-- 
2.43.0


From 20a949eb2443105d769b5fd5d9fcbde260cc9e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:56 +0000
Subject: [PATCH 23/38] fix: do not split conditional expressions at logical
 operators

---
 model/defs/matcher_def.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 2414225..779e973 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -76,9 +76,14 @@ type MatcherDef struct {
 func nextOperator(tokens []govaluate.ExpressionToken) (int, bool) {
 	clauseCounter := 0
 	index := -1
+	or := -1
 	isBracket := tokens[0].Kind == govaluate.CLAUSE
 
 	for i, token := range tokens {
+		//the conditional operators bind weaker than logical operators, the expression can not be divided
+		if token.Kind == govaluate.TERNARY && clauseCounter == 0 {
+			return -1, false
+		}
 		switch token.Kind {
 		case govaluate.CLAUSE:
 			clauseCounter++
@@ -92,11 +97,14 @@ func nextOperator(tokens []govaluate.ExpressionToken) (int, bool) {
 				break
 			}
 			index = i
-			if token.Value == "||" {
-				return index, false
+			if token.Value == "||" && or == -1 {
+				or = i
 			}
 		}
 	}
+	if or != -1 {
+		return or, false
+	}
 	return index, isBracket
 }
 
-- 
2.43.0


From 8dff687b89f09dc72493a03dd9840630bd873dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 24/38] fix: arguments must not be replaced inside of string
 literals

---
 model/defs/defs.go        | 17 +++++++++++++++++
 model/defs/matcher_def.go |  9 +++++----
 model/matcher/matcher.go  |  2 +-
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/model/defs/defs.go b/model/defs/defs.go
index bf08bf3..8a5c05c 100644
--- a/model/defs/defs.go
+++ b/model/defs/defs.go
@@ -31,6 +31,23 @@ var ArgReg = regexp.MustCompile(`\b([prg][0-9]*)(\.|_)([A-Za-z0-9_]+)`)
 var pArgReg = regexp.MustCompile(`\b([pg][0-9]*)_([A-Za-z0-9_]+)`)
 var evalReg = regexp.MustCompile(`\beval\b`)
 var rArgReg = regexp.MustCompile(`\b(r[0-9]*)_([A-Za-z0-9_]+)`)
+var literalReg = regexp.MustCompile(`(?s)["'](?:\\.|[^"'\\])*["']`)
+
+// ReplaceArgs replaces the dots of all arguments with underscores. String literals are not changed.
+func ReplaceArgs(expr string) string {
+	res := ""
+	start := 0
+	for _, loc := range literalReg.FindAllStringIndex(expr, -1) {
+		res += ArgReg.ReplaceAllString(expr[start:loc[0]], "${1}_${3}")
+		res += expr[loc[0]:loc[1]]
+		start = loc[1]
+	}
+	return res + ArgReg.ReplaceAllString(expr[start:], "${1}_${3}")
+}
+
+func removeLiterals(expr string) string {
+	return literalReg.ReplaceAllString(expr, "''")
+}
 
 type IDef interface {
 	String() string
diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 779e973..4699639 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -18,8 +18,9 @@ type MatcherStage struct {
 func NewMatcherStage(expr string) *MatcherStage {
 	stage := &MatcherStage{}
 	stage.expr = expr
-	stage.pArgs = pArgReg.FindAllString(stage.expr, -1)
-	stage.rArgs = rArgReg.FindAllString(stage.expr, -1)
+	code := removeLiterals(stage.expr)
+	stage.pArgs = pArgReg.FindAllString(code, -1)
+	stage.rArgs = rArgReg.FindAllString(code, -1)
 	return stage
 }
 
@@ -38,7 +39,7 @@ func (stage *MatcherStage) RecursivePolicyArgs() []string {
 
 // HasEval reports whether the result of the stage may depend on arguments, which are not part of its expression
 func (stage *MatcherStage) HasEval() bool {
-	return evalReg.MatchString(stage.expr)
+	return evalReg.MatchString(removeLiterals(stage.expr))
 }
 
 func (stage *MatcherStage) GetRequestArgs() []string {
@@ -201,7 +202,7 @@ func (def *MatcherDef) Build(functions map[string]govaluate.ExpressionFunction)
 	}()
 
 	def.root = NewMatcherStage("")
-	expr := ArgReg.ReplaceAllString(def.expr, "${1}_${3}")
+	expr := ReplaceArgs(def.expr)
 	parsedExpr, err := govaluate.NewEvaluableExpressionWithFunctions(expr, functions)
 	if err != nil {
 		return err
diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 4c8d77c..f17eddf 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -262,7 +262,7 @@ func generateEvalFunction(fMap fm.FunctionMap, parameters *MatchParameters) gova
 		}
 
 		expression := args[0].(string)
-		expression = defs.ArgReg.ReplaceAllString(expression, "${1}_${3}")
+		expression = defs.ReplaceArgs(expression)
 		return eval(expression, functions, parameters)
 	}
 }
-- 
2.43.0


From 5599fd63f60a44120cb6da92aca4229129cbb8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 25/38] fix: stage expressions must be parsed to the tokens
 they were built from

---
 model/defs/defs.go        |  2 ++
 model/defs/matcher_def.go | 34 ++++++++++++++++++++++++++++++++--
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/model/defs/defs.go b/model/defs/defs.go
index 8a5c05c..60d6ed8 100644
--- a/model/defs/defs.go
+++ b/model/defs/defs.go
@@ -31,6 +31,8 @@ var ArgReg = regexp.MustCompile(`\b([prg][0-9]*)(\.|_)([A-Za-z0-9_]+)`)
 var pArgReg = regexp.MustCompile(`\b([pg][0-9]*)_([A-Za-z0-9_]+)`)
 var evalReg = regexp.MustCompile(`\beval\b`)
 var rArgReg = regexp.MustCompile(`\b(r[0-9]*)_([A-Za-z0-9_]+)`)
+var identifierReg = regexp.MustCompile(`^\pL[\pL\p{Nd}_]*$`)
+var keywordReg = regexp.MustCompile(`^(true|false|in|IN)$`)
 var literalReg = regexp.MustCompile(`(?s)["'](?:\\.|[^"'\\])*["']`)
 
 // ReplaceArgs replaces the dots of all arguments with underscores. String literals are not changed.
diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 4699639..9cdcef4 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -3,7 +3,10 @@ package defs
 import (
 	"errors"
 	"fmt"
+	"regexp"
+	"strconv"
 	"strings"
+	"time"
 
 	"github.com/abichinger/govaluate"
 )
@@ -109,12 +112,39 @@ func nextOperator(tokens []govaluate.ExpressionToken) (int, bool) {
 	return index, isBracket
 }
 
+// quote escapes all characters which have a special meaning inside of quotes or brackets
+func quote(value, open, close string) string {
+	escaped := strings.NewReplacer("\\", "\\\\", "'", "\\'", "\"", "\\\"", "]", "\\]").Replace(value)
+	return open + escaped + close
+}
+
+// literalToExpr returns an expression for a constant or variable, which gets parsed to the same token
+func literalToExpr(token govaluate.ExpressionToken) string {
+	switch value := token.Value.(type) {
+	case string:
+		if token.Kind == govaluate.STRING {
+			return quote(value, "'", "'")
+		}
+		if !identifierReg.MatchString(value) || keywordReg.MatchString(value) {
+			return quote(value, "[", "]")
+		}
+		return value
+	case float64:
+		return strconv.FormatFloat(value, 'f', -1, 64)
+	case *regexp.Regexp:
+		return quote(value.String(), "'", "'")
+	case time.Time:
+		return quote(value.Format(time.RFC3339Nano), "'", "'")
+	}
+	return fmt.Sprintf("%v", token.Value)
+}
+
 func tokensToExpr(tokens []govaluate.ExpressionToken) string {
 	res := ""
 	for i, token := range tokens {
 		switch token.Kind {
-		case govaluate.STRING:
-			res += fmt.Sprintf("'%v'", token.Value)
+		case govaluate.STRING, govaluate.NUMERIC, govaluate.PATTERN, govaluate.TIME, govaluate.VARIABLE:
+			res += literalToExpr(token)
 		case govaluate.CLAUSE:
 			res += "("
 		case govaluate.CLAUSE_CLOSE:
-- 
2.43.0


From 7a26f07b8096bf7773f7471ee47b328794c3c20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 26/38] fix: rules without the arguments of a stage must not
 share an index node

---
 model/matcher/matcher.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index f17eddf..63f4b7b 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -128,9 +128,10 @@ func (m *Matcher) addRuleHelper(rule []string, exprNode *defs.MatcherStage, node
 		var key string
 		if len(pArgs) == 0 || nextExpr.IsLeafNode() || nextExpr.HasEval() {
 			key = util.Hash(rule)
-		} else {
-			r, _ := m.pDef.GetParameters(rule, pArgs)
+		} else if r, err := m.pDef.GetParameters(rule, pArgs); err == nil {
 			key = util.Hash(r)
+		} else {
+			key = util.Hash(rule) //rules without the arguments of a stage must not be grouped
 		}
 
 		if !nextExpr.IsLeafNode() {
@@ -154,9 +155,10 @@ func (m *Matcher) removeRuleHelper(rule []string, exprNode *defs.MatcherStage, n
 		var key string
 		if len(pArgs) == 0 || nextExpr.IsLeafNode() || nextExpr.HasEval() {
 			key = util.Hash(rule)
-		} else {
-			r, _ := m.pDef.GetParameters(rule, pArgs)
+		} else if r, err := m.pDef.GetParameters(rule, pArgs); err == nil {
 			key = util.Hash(r)
+		} else {
+			key = util.Hash(rule) //rules without the arguments of a stage must not be grouped
 		}
 
 		if !nextExpr.IsLeafNode() {
-- 
2.43.0


From 3d55d1c71570af57949f690f0fe1d1f19392b8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 27/38] fix: an enforcer created with a policy path must keep
 its file adapter

---
 enforcer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enforcer.go b/enforcer.go
index 7513c01..6ff9a7e 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -99,7 +99,7 @@ func NewEnforcer(model interface{}, adapter interface{}, options ...Option) (*En
 	var a3 storage.Adapter
 	switch a2 := adapter.(type) {
 	case string:
-		a3 := a.NewFileAdapter(a2)
+		a3 = a.NewFileAdapter(a2)
 		if err := a3.LoadPolicy(e.model); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From ca0c6ae4afde420104f5288edcd3cc6b3dfea276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 28/38] fix: ranging over rules and links must stop when the
 callback returns false

---
 model/model.go         | 13 +++++++++++--
 rbac/domain_manager.go |  7 ++++---
 rbac/role_manager.go   |  7 ++++---
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/model/model.go b/model/model.go
index da452e8..8176cb1 100644
--- a/model/model.go
+++ b/model/model.go
@@ -416,17 +416,26 @@ func (m *Model) String() string {
 }
 
 func (m *Model) RangeRules(fn func(rule []string) bool) {
+	cont := true
 	for pKey, p := range m.pMap {
 		ruleKey := []string{pKey}
 		p.Range(func(rule []string) bool {
-			return fn(append(ruleKey, rule...))
+			cont = fn(append(ruleKey, rule...))
+			return cont
 		})
+		if !cont {
+			return
+		}
 	}
 	for gKey, rm := range m.rpMap {
 		ruleKey := []string{gKey}
 		rm.Range(func(rule []string) bool {
-			return fn(append(ruleKey, rule...))
+			cont = fn(append(ruleKey, rule...))
+			return cont
 		})
+		if !cont {
+			return
+		}
 	}
 }
 
diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index ecadedb..6c84796 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -286,6 +286,7 @@ func (dm *DomainManager) GetAllDomains() ([]string, error) {
 }
 
 func (dm *DomainManager) rangeLinks(rmMap *sync.Map, fn func(name1, name2 string, domain ...string) bool) {
+	cont := true
 	rmMap.Range(func(key, value interface{}) bool {
 		roleManager := value.(IRoleManager)
 		domains := []string{}
@@ -294,11 +295,11 @@ func (dm *DomainManager) rangeLinks(rmMap *sync.Map, fn func(name1, name2 string
 		}
 
 		roleManager.Range(func(name1, name2 string, domain ...string) bool {
-			fn(name1, name2, append(domains, domain...)...)
-			return true
+			cont = fn(name1, name2, append(domains, domain...)...)
+			return cont
 		})
 
-		return true
+		return cont
 	})
 }
 
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index 53a45b6..7e69825 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -251,16 +251,17 @@ func (rm *RoleManager) GetAllDomains() ([]string, error) {
 }
 
 func rangeLinks(users *sync.Map, fn func(name1, name2 string, domain ...string) bool) {
+	cont := true
 	users.Range(func(_, value interface{}) bool {
 		user := value.(*Role)
 		user.roles.Range(func(key, _ interface{}) bool {
 			roleName := key.(string)
 			if _, ok := user.redundant.Load(roleName); !ok {
-				return fn(user.name, roleName)
+				cont = fn(user.name, roleName)
 			}
-			return true
+			return cont
 		})
-		return true
+		return cont
 	})
 }
 
-- 
2.43.0


From f9fc02f34245300c322f595d75977785a032222e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:50 +0000
Subject: [PATCH 29/38] fix: querying a domain pattern must not register it as
 domain

---
 rbac/domain_manager.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 6c84796..be4b22a 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -143,7 +143,9 @@ func (dm *DomainManager) getRoleManager(domain string, store bool, subdomains ..
 		}
 		if dm.domainMatcher != nil {
 			if dm.domainMatcher.IsPattern(domain) {
-				dm.patternMap.Store(domain, nil)
+				if store {
+					dm.patternMap.Store(domain, nil)
+				}
 			} else {
 				dm.rangeMatchingPatterns(domain, func(rm2 IRoleManager) {
 					rm2.Range(func(name1, name2 string, domain ...string) bool {
-- 
2.43.0


From 8fe5ebc4f848d779d25459860d852b5af46322b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 30/38] fix: setting a role matcher must keep the links of
 domain patterns

---
 rbac/domain_manager.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index be4b22a..7a03775 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -43,10 +43,7 @@ func NewDomainManager(maxHierarchyLevel int) *DomainManager {
 
 func (dm *DomainManager) SetMatcher(matcher util.IMatcher) {
 	dm.matcher = matcher
-	dm.rmMap.Range(func(key, value interface{}) bool {
-		value.(IDefaultRoleManager).SetMatcher(matcher)
-		return true
-	})
+	dm.rebuild()
 }
 
 // SetDomainMatcher support use domain pattern in g
-- 
2.43.0


From c9010e7d74cec335a52f6a49d2d044ff6a3282de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 31/38] fix: stored rules must be loaded with the values they
 were saved with

---
 storage/adapter/fileadapter.go | 60 +++++++++++++++++++++++++++-------
 str/errors.go                  |  1 +
 2 files changed, 49 insertions(+), 12 deletions(-)

diff --git a/storage/adapter/fileadapter.go b/storage/adapter/fileadapter.go
index 682f49e..8887d2d 100644
--- a/storage/adapter/fileadapter.go
+++ b/storage/adapter/fileadapter.go
@@ -17,12 +17,16 @@ package adapter
 import (
 	"bufio"
 	"encoding/csv"
+	"fmt"
+	"io"
 	"os"
 	"strings"
+	"unicode"
 
 	"github.com/abichinger/fastac/api"
 	"github.com/abichinger/fastac/model/defs"
 	"github.com/abichinger/fastac/model/policy"
+	"github.com/abichinger/fastac/str"
 	"github.com/abichinger/fastac/util"
 )
 
@@ -32,12 +36,7 @@ func LoadPolicyLine(line string, m api.IAddRuleBool) error {
 		return nil
 	}
 
-	r := csv.NewReader(strings.NewReader(line))
-	r.Comma = ','
-	r.Comment = '#'
-	r.TrimLeadingSpace = true
-
-	tokens, err := r.Read()
+	tokens, err := newReader(strings.NewReader(line)).Read()
 	if err != nil {
 		return err
 	}
@@ -46,6 +45,34 @@ func LoadPolicyLine(line string, m api.IAddRuleBool) error {
 	return err
 }
 
+func newReader(reader io.Reader) *csv.Reader {
+	r := csv.NewReader(reader)
+	r.Comma = ','
+	r.Comment = '#'
+	r.TrimLeadingSpace = true
+	r.FieldsPerRecord = -1
+	return r
+}
+
+// formatRule is the inverse operation of reading a rule, values are quoted if necessary
+func formatRule(rule []string) (string, error) {
+	values := make([]string, len(rule))
+	for i, value := range rule {
+		if strings.Contains(value, "\r\n") {
+			return "", fmt.Errorf(str.ERR_INVALID_VALUE, value)
+		}
+		if needsQuotes(value) || (i == 0 && (value == "" || value[0] == '#')) {
+			value = `"` + strings.ReplaceAll(value, `"`, `""`) + `"`
+		}
+		values[i] = value
+	}
+	return strings.Join(values, ", ") + "\n", nil
+}
+
+func needsQuotes(value string) bool {
+	return strings.ContainsAny(value, ",\"\r\n") || strings.TrimLeftFunc(value, unicode.IsSpace) != value
+}
+
 type FileAdapter struct {
 	path string
 }
@@ -85,14 +112,19 @@ func (a *FileAdapter) LoadPolicy(model api.IAddRuleBool) error {
 	}
 	defer file.Close()
 
-	scanner := bufio.NewScanner(file)
-	for scanner.Scan() {
-		if err := LoadPolicyLine(scanner.Text(), model); err != nil {
+	reader := newReader(file)
+	for {
+		rule, err := reader.Read()
+		if err == io.EOF {
+			return nil
+		}
+		if err != nil {
+			return err
+		}
+		if _, err := model.AddRule(rule); err != nil {
 			return err
 		}
 	}
-
-	return scanner.Err()
 }
 
 func getWriter(path string) (*bufio.Writer, error) {
@@ -119,7 +151,11 @@ func (a *FileAdapter) SavePolicy(model api.IRangeRules) error {
 		return err
 	}
 	model.RangeRules(func(rule []string) bool {
-		if _, err = writer.WriteString(strings.Join(rule, ", ") + "\n"); err != nil {
+		var line string
+		if line, err = formatRule(rule); err != nil {
+			return false
+		}
+		if _, err = writer.WriteString(line); err != nil {
 			return false
 		}
 		return true
diff --git a/str/errors.go b/str/errors.go
index ce2cb05..f60f2ad 100644
--- a/str/errors.go
+++ b/str/errors.go
@@ -24,4 +24,5 @@ const (
 	ERR_EFFECTOR_NOT_FOUND   = "error: effect definition %s not found"
 	ERR_INVALID_MODEL        = "invalid model"
 	ERR_INVALID_RULE         = "error: invalid rule"
+	ERR_INVALID_VALUE        = "error: value %q can not be stored"
 )
-- 
2.43.0


From 1376c10fcc02390dcabbbf5e2136a7f9d26f042e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 32/38] fix: a failed save must not destroy the stored rules

---
 storage/adapter/fileadapter.go | 52 ++++++++++++++++------------------
 1 file changed, 24 insertions(+), 28 deletions(-)

diff --git a/storage/adapter/fileadapter.go b/storage/adapter/fileadapter.go
index 8887d2d..5e6c4e7 100644
--- a/storage/adapter/fileadapter.go
+++ b/storage/adapter/fileadapter.go
@@ -27,7 +27,6 @@ import (
 	"github.com/abichinger/fastac/model/defs"
 	"github.com/abichinger/fastac/model/policy"
 	"github.com/abichinger/fastac/str"
-	"github.com/abichinger/fastac/util"
 )
 
 // LoadPolicyLine loads a text line as a policy rule to model.
@@ -127,44 +126,41 @@ func (a *FileAdapter) LoadPolicy(model api.IAddRuleBool) error {
 	}
 }
 
-func getWriter(path string) (*bufio.Writer, error) {
-	if exists, err := util.FileExists(path); err != nil {
-		return nil, err
-	} else if exists {
-		if err := os.Remove(path); err != nil {
-			return nil, err
+func writeRules(file io.Writer, model api.IRangeRules) (err error) {
+	writer := bufio.NewWriter(file)
+	model.RangeRules(func(rule []string) bool {
+		var line string
+		if line, err = formatRule(rule); err != nil {
+			return false
 		}
-	}
-	if _, err := os.Create(path); err != nil {
-		return nil, err
-	}
-	f, err := os.OpenFile(path, os.O_WRONLY, 0600)
+		_, err = writer.WriteString(line)
+		return err == nil
+	})
 	if err != nil {
-		return nil, err
+		return err
 	}
-	return bufio.NewWriter(f), nil
+	return writer.Flush()
 }
 
+// SavePolicy replaces the content of the file. The previous content is kept, if an error occurs.
 func (a *FileAdapter) SavePolicy(model api.IRangeRules) error {
-	writer, err := getWriter(a.path)
+	tmpPath := a.path + ".tmp"
+	file, err := os.Create(tmpPath)
 	if err != nil {
 		return err
 	}
-	model.RangeRules(func(rule []string) bool {
-		var line string
-		if line, err = formatRule(rule); err != nil {
-			return false
-		}
-		if _, err = writer.WriteString(line); err != nil {
-			return false
-		}
-		return true
-	})
+
+	err = writeRules(file, model)
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(tmpPath, a.path)
+	}
 	if err != nil {
-		return err
+		_ = os.Remove(tmpPath)
 	}
-
-	return writer.Flush()
+	return err
 }
 
 func (a *FileAdapter) AddRule(rule []string) error {
-- 
2.43.0


From e4f87b2420c5c83d45ff03c7a11eb815df53d655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 33/38] fix: invalid arguments of matching functions must be
 reported as error

---
 util/builtin_operators.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/util/builtin_operators.go b/util/builtin_operators.go
index f6b7bcf..f9a8a43 100755
--- a/util/builtin_operators.go
+++ b/util/builtin_operators.go
@@ -133,7 +133,7 @@ func GlobMatchFunc(args ...interface{}) (interface{}, error) {
 }
 
 func WrapMatchingFunc(fn MatchingFunc) govaluate.ExpressionFunction {
-	return func(args ...interface{}) (interface{}, error) {
+	return func(args ...interface{}) (res interface{}, err error) {
 		if err := ValidateVariadicArgs(2, args...); err != nil {
 			pc := reflect.ValueOf(fn).Pointer()
 			fnName := runtime.FuncForPC(pc).Name()
@@ -144,6 +144,13 @@ func WrapMatchingFunc(fn MatchingFunc) govaluate.ExpressionFunction {
 		name1 := args[0].(string)
 		name2 := args[1].(string)
 
+		// matching functions panic, if their arguments are invalid
+		defer func() {
+			if r := recover(); r != nil {
+				res, err = false, fmt.Errorf("%v", r)
+			}
+		}()
+
 		return bool(fn(name1, name2)), nil
 	}
 }
-- 
2.43.0


From f3a01f635e01cf406c4e767fae25e7e38aa59ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:19 +0000
Subject: [PATCH 34/38] fix: invalid arguments of role functions must be
 reported as error

---
 rbac/role_manager_api.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/rbac/role_manager_api.go b/rbac/role_manager_api.go
index 62612dd..74136f3 100644
--- a/rbac/role_manager_api.go
+++ b/rbac/role_manager_api.go
@@ -15,6 +15,9 @@
 package rbac
 
 import (
+	"errors"
+	"fmt"
+
 	"github.com/abichinger/fastac/util"
 	"github.com/abichinger/govaluate"
 )
@@ -53,19 +56,21 @@ type IDefaultRoleManager interface {
 func GenerateGFunction(rm IRoleManager) govaluate.ExpressionFunction {
 
 	return func(args ...interface{}) (interface{}, error) {
-		name1 := args[0].(string)
-		name2 := args[1].(string)
+		if len(args) < 2 {
+			return false, fmt.Errorf("g: Expected at least 2 arguments, but got %d", len(args))
+		}
+		names := make([]string, len(args))
+		for i, arg := range args {
+			name, ok := arg.(string)
+			if !ok {
+				return false, errors.New("g: Argument must be a string")
+			}
+			names[i] = name
+		}
 
 		if rm == nil {
-			return name1 == name2, nil
-		} else if len(args) == 2 {
-			return rm.HasLink(name1, name2)
-		} else {
-			domains := []string{}
-			for _, domain := range args[2:] {
-				domains = append(domains, domain.(string))
-			}
-			return rm.HasLink(name1, name2, domains...)
+			return names[0] == names[1], nil
 		}
+		return rm.HasLink(names[0], names[1], names[2:]...)
 	}
 }
-- 
2.43.0


From e4eeaae0be81ab41b9e9300ca9165f016b2338db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:02 +0000
Subject: [PATCH 35/38] fix: the key of a rule without the arguments of a stage
 must not equal a group key

---
 model/matcher/matcher.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 63f4b7b..9b8ecef 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -131,7 +131,7 @@ func (m *Matcher) addRuleHelper(rule []string, exprNode *defs.MatcherStage, node
 		} else if r, err := m.pDef.GetParameters(rule, pArgs); err == nil {
 			key = util.Hash(r)
 		} else {
-			key = util.Hash(rule) //rules without the arguments of a stage must not be grouped
+			key = "!" + util.Hash(rule) //rules without the arguments of a stage must not be grouped
 		}
 
 		if !nextExpr.IsLeafNode() {
@@ -158,7 +158,7 @@ func (m *Matcher) removeRuleHelper(rule []string, exprNode *defs.MatcherStage, n
 		} else if r, err := m.pDef.GetParameters(rule, pArgs); err == nil {
 			key = util.Hash(r)
 		} else {
-			key = util.Hash(rule) //rules without the arguments of a stage must not be grouped
+			key = "!" + util.Hash(rule) //rules without the arguments of a stage must not be grouped
 		}
 
 		if !nextExpr.IsLeafNode() {
-- 
2.43.0


From 05b8e280a94d8f0e09e9c8eac733deddab61aca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:01 +0000
Subject: [PATCH 36/38] fix: the links of a pattern must apply to patterns it
 matches, whatever was added first

---
 rbac/role_manager.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index 7e69825..2318879 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -112,11 +112,11 @@ func (rm *RoleManager) getRole(name string) (r *Role, created bool) {
 				rm.rangeMatchingRoles(name, func(r *Role) {
 					role.addMatch(r)
 				})
-			} else {
-				rm.rangeMatchingPatterns(name, func(r *Role) {
-					r.addMatch(role)
-				})
 			}
+			//a pattern can be matched by another pattern
+			rm.rangeMatchingPatterns(name, func(r *Role) {
+				r.addMatch(role)
+			})
 		}
 	}
 
-- 
2.43.0


From 9fa5a3355d7ff3fb09fd7e3665668ef05d36d74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:28 +0000
Subject: [PATCH 37/38] fix: a star of a path pattern must stand for several
 segments, also if the path contains a star

---
 util/builtin_operators.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/util/builtin_operators.go b/util/builtin_operators.go
index f9a8a43..5d491bd 100755
--- a/util/builtin_operators.go
+++ b/util/builtin_operators.go
@@ -182,12 +182,6 @@ func PathMatchHelper(path, pattern, sep string, prefix, suffix byte) bool {
 	pathS, path, lastPathSeg = nextSegment(path, sep)
 	patternS, pattern, lastPatternSeg = nextSegment(pattern, sep)
 
-	if pathS == patternS || isDynamicSegment(patternS, prefix, suffix) {
-		if lastPathSeg != lastPatternSeg {
-			return false
-		}
-		return PathMatchHelper(path, pattern, sep, prefix, suffix)
-	}
 	if patternS == "*" {
 		if !lastPatternSeg && lastPathSeg {
 			return false
@@ -195,6 +189,12 @@ func PathMatchHelper(path, pattern, sep string, prefix, suffix byte) bool {
 		return PathMatchHelper(path, pattern, sep, prefix, suffix) ||
 			PathMatchHelper(path, "*"+sep+pattern, sep, prefix, suffix)
 	}
+	if pathS == patternS || isDynamicSegment(patternS, prefix, suffix) {
+		if lastPathSeg != lastPatternSeg {
+			return false
+		}
+		return PathMatchHelper(path, pattern, sep, prefix, suffix)
+	}
 	return false
 }
 
-- 
2.43.0


From 82f248850839e2b7ed56ea046de75560ebd5da8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:25 +0000
Subject: [PATCH 38/38] fix: report an empty parameter name as an error

---
 model/matcher/matcher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 9b8ecef..ec77680 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -67,6 +67,9 @@ func NewMatchParameters(pDef defs.PolicyDef, pvals []string, rDef defs.RequestDe
 }
 
 func (params *MatchParameters) Get(name string) (interface{}, error) {
+	if len(name) == 0 {
+		return nil, errors.New("parameter name is empty")
+	}
 	switch name[0] {
 	case 'p', 'g':
 		return params.pDef.GetParameter(params.pvals, name)
-- 
2.43.0

