import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    d['anchors']['hook_needed']=None
    P.append(d)
p('C01','A decision is the effect expression over all matching rules, in any order',
 "A request that evaluates without error is allowed exactly when the effect expression holds for the effects of the rules matching it: 'some allow' needs at least one allowing rule, 'no deny' needs no denying rule, the combined expression needs at least one allowing and no denying rule. A rule allows if its policy declares no effect field or its effect value is empty or 'allow', denies if the value is 'deny', and otherwise counts as neither. The order in which rules were added, are stored or are visited never changes the decision, and any other effect expression makes the request fail with an error.",
 ['inputs','histories'],'every effect expression, every finite multiset of matching rules with any effect values, every visiting order',
 'the tests merge effect lists made of one repeated value and enforce a handful of fixed rule sets; mixed lists in every order are never merged, and map iteration makes order nondeterministic',
 ['enforcer.go','model/effector/default_effector.go','model/defs/defs.go','model/eft/eft.go'],
 [('incremental and final merge of effects','enforcer.go enforce, model/effector/default_effector.go MergeEffects'),('effect of a rule','model/defs/defs.go GetEft')],
 obs=['result of Enforce'])
p('C02','The rules reported for a request are exactly those satisfying the matcher',
 "For every matcher, rule set and request whose evaluation raises no error, the rules reported for the request are exactly the rules for which the matcher expression is true when its arguments are replaced by the values of that rule and of the request. If the policy holds no rules, the expression is evaluated once for a rule whose values are all empty.",
 ['inputs','configurations'],'every matcher made of conjunctions, disjunctions, brackets and atomic conditions, every rule set (including rules which share some but not all values), every request',
 'the tests try fixed models with few rules; grouping of rules by shared argument values can conflate or lose rules only for particular combinations of matcher shape and rule values',
 ['model/matcher/matcher.go','model/defs/matcher_def.go','model/defs/defs.go','model/model.go','util/util.go'],
 [('rules indexed by the argument values of each stage','model/matcher/matcher.go addRuleHelper, rangeMatches, rangeMatchesHelper'),('grouping key','util/util.go Hash')],
 [('index tree','rules grouped by stage arguments','model/matcher/matcher.go MatcherNode')],['result of Filter and RangeMatches'])
p('C03','Answers depend on the current rules only, not on how they got there',
 "After any sequence of adding, removing and clearing rules, a matcher built at any earlier time reports for every request the same rules as a matcher built afresh over the rules now present. In particular a removed rule never matches again, removing one rule never hides another, and adding a rule twice or removing an absent one changes nothing.",
 ['histories','inputs'],'every sequence of add, remove and clear operations on policies and grouping policies, every matcher and request',
 'the tests remove a rule or two and never compare the index after a long history with a fresh one; stale or missing index nodes appear only for certain orders and shared values',
 ['model/matcher/matcher.go','model/policy/policy.go','rbac/role_policy.go','model/model.go'],
 [('incremental index maintenance on rule events','model/matcher/matcher.go NewMatcher, addRuleHelper, removeRuleHelper'),('rule events','model/policy/policy.go, rbac/role_policy.go')],
 [('index tree','must equal the index of the current rules','model/matcher/matcher.go MatcherNode')],['result of Enforce and Filter'])
p('C04','Splitting a matcher into stages preserves its boolean meaning',
 "The staged form a matcher expression is compiled to accepts a combination of rule and request exactly when the original expression is true for it. This holds for every nesting of conjunctions, disjunctions, brackets, negations and conditionals, and every constant (strings, numbers, patterns, times) keeps its value.",
 ['programs','inputs'],'every matcher expression, every truth assignment of its atomic conditions',
 'the tests compare the compiled form of about a dozen expressions; sharing between branches and precedence mistakes need particular nestings',
 ['model/defs/matcher_def.go','model/defs/defs.go'],
 [('recursive split at logical operators','model/defs/matcher_def.go nextOperator, buildExprTree'),('printing of stage expressions','model/defs/matcher_def.go tokensToExpr')],
 obs=['stages of a built matcher definition','result of Filter'])
p('C05','An evaluation that fails is an error, never a decision',
 "If evaluating a request needs a value that is missing from the request or rule, an unknown name, or a function that fails or gets unsuitable arguments, or if the effects cannot be merged, the call returns a non-nil error and never allows the request. This holds wherever in the matcher the failure occurs, and invalid requests, rules or lookups are reported as errors instead of crashing the process.",
 ['inputs','fault_sequences'],'every matcher position at which a function or lookup can fail, every request length, every argument type',
 'the tests evaluate only well-formed requests; failures in nested conditions and in effect merging are not exercised',
 ['model/matcher/matcher.go','enforcer.go','context.go','util/builtin_operators.go','rbac/role_manager_api.go'],
 [('error propagation through nested evaluation','model/matcher/matcher.go rangeMatches, rangeMatchesHelper'),('error propagation of a decision','enforcer.go enforce, Enforce'),('argument validation','util/builtin_operators.go, rbac/role_manager_api.go')],
 obs=['results of Enforce, Filter, RangeMatches'])
p('C06','A policy is a set of rules with exact membership and change reports',
 "Two rules are the same only if all their values are equal, whatever characters the values contain. Adding reports success exactly if the rule was absent, removing exactly if it was present, every other rule stays as it was, and clearing removes all rules. A change notification carrying the rule is emitted exactly once for each change, and none if nothing changed.",
 ['histories','inputs'],'every sequence of operations and every rule content, including empty values and values containing separators',
 'the tests use a few plain rules; conflation needs values built to collide, lost notifications need repeated operations',
 ['model/policy/policy.go','model/policy/policy_api.go','util/util.go','model/model.go','rbac/role_policy.go'],
 [('rule map keyed by an injective encoding','model/policy/policy.go, util/util.go Hash'),('notifications','model/policy/policy.go, model/model.go AddRule, RemoveRule')],
 [('rule map','rules by key','model/policy/policy.go')],['results of AddRule and RemoveRule','events','RangeRules'])
p('C07','Role inheritance is bounded reachability over the present links',
 "A subject has a role exactly if the names are equal, the role name is a pattern matching the subject, or a chain of links currently present leads from the subject to the role within the hierarchy limit, where a link of a pattern also applies to every name the pattern matches. Removed links no longer count, and cycles never prevent an answer.",
 ['inputs','histories'],'every link graph including cycles and diamonds, every pair of names, chains up to and beyond the limit, histories of adding and removing links and patterns',
 'the tests check small hand-drawn hierarchies; graphs with cycles, diamonds, patterns added before or after the names, and the exact depth limit are not swept',
 ['rbac/role_manager.go','rbac/role.go'],
 [('breadth first search by level','rbac/role_manager.go HasLink, hasLinkHelper'),('neighbours including patterns','rbac/role.go rangeRoles')],
 [('links','roles and users of each role','rbac/role.go'),('pattern matches','matched and matchedBy of each role','rbac/role.go')],['HasLink, GetRoles, GetUsers'])
p('C08','Role links are exact, symmetric, and queries leave no trace',
 "Adding a link reports success exactly if the link was absent, deleting exactly if it was present, and neither affects any other link. The roles of a subject and the users of a role always describe the same set of links. Asking about links, roles or users, including unknown names, never changes the links, the set of known names or any later answer.",
 ['histories','inputs'],'every interleaving of link additions, deletions and queries over arbitrary names',
 'the tests query known names after a fixed list of additions; temporary entries made by queries and one-sided removals show only in particular sequences',
 ['rbac/role.go','rbac/role_manager.go'],
 [('two-sided link maintenance','rbac/role.go addRole, removeRole'),('temporary roles of queries are removed','rbac/role_manager.go HasLink, GetRoles, GetUsers, removeRole')],
 [('links','roles and users of each role','rbac/role.go')],['AddLink, DeleteLink, HasLink, GetRoles, GetUsers, Range'])
p('C09','Domains are isolated from each other',
 "Without domain patterns, adding or deleting a link in one domain changes only the answers for that very domain: links of other domains, of nested domains and of the domainless hierarchy are unaffected, and a link never answers for a domain it was not added to. Listing all links reports each link exactly with the domain it was added to.",
 ['histories','inputs'],'every set of domains including nested ones, every history of additions, deletions and queries',
 'the tests use two domains and a few names',
 ['rbac/domain_manager.go','rbac/role_manager_api.go','rbac/role_policy.go'],
 [('one role manager per domain','rbac/domain_manager.go getRoleManager, AddLink, DeleteLink, HasLink'),('enumeration','rbac/domain_manager.go rangeLinks')],
 [('map of role managers','domain to its role manager','rbac/domain_manager.go')],['AddLink, DeleteLink, HasLink, GetRoles, Range'])
p('C10','Caching is transparent',
 "The cache returns for a key the value stored last for that key or reports a miss, never a value of another key; it never holds more entries than its capacity, and storing into a full cache evicts the least recently used entry only. Pattern matching through the cache gives the same answer as calling the matching function directly, for every pair of name and pattern.",
 ['histories','inputs'],'every sequence of reads and writes at every capacity from one up, every pair of strings',
 'the tests run one short sequence; wrong relinking shows only for particular access orders at capacity',
 ['util/cache.go','rbac/role_manager.go','rbac/domain_manager.go'],
 [('linked list plus map','util/cache.go'),('memoised matching','rbac/role_manager.go match, rbac/domain_manager.go match')],
 [('entry list','entries ordered by last use','util/cache.go')],['Get, Put','HasLink with patterns'])
p('C11','Rule changes reach the storage in order and exactly once',
 "A flush that reports success has handed every pending rule change to the storage adapter exactly once and in the order the changes were made, whether the adapter takes single rules or batches, and a batch never mixes additions and removals. If the adapter rejects a change, the flush reports the error and the rejected and all later changes stay pending, in order, for the next flush.",
 ['histories','fault_sequences'],'every sequence of additions and removals, every pattern of adapter failures and repeated flushes, both adapter kinds',
 'the tests flush a handful of operations against an adapter that never fails',
 ['storage/controller.go','enforcer.go'],
 [('queue of operations','storage/controller.go flush, batchFlush, Flush')],
 [('queue','changes not yet accepted by the adapter','storage/controller.go')],['calls received by the adapter'])
p('C12','Storage follows rule changes only while it is enabled',
 "While storage is enabled every effective rule change is recorded exactly once, while it is disabled none is, and enabling or disabling repeatedly is harmless. With autosave each change is handed over immediately, without it only a flush does. Loading the stored rules into the model records nothing and leaves storage enabled or disabled as it was.",
 ['histories','configurations'],'every sequence of enabling, disabling, autosave switching, rule changes, loads and flushes',
 'the tests toggle each option once',
 ['storage/controller.go','enforcer.go'],
 [('listener registration','storage/controller.go Enable, Disable, addOp'),('silent load','enforcer.go LoadPolicy')],
 [('listeners','registered while enabled','storage/controller.go')],['calls received by the adapter','Enabled'])
p('C13','Rules saved to a file are loaded back unchanged',
 "Saving a set of rules to a file and loading it yields exactly the same rules, for all values the save accepts, including values with separators, quotes, leading spaces, comment signs, line breaks or nothing at all; a save that cannot represent a value fails. Adding or removing rules through the file storage changes the stored set by exactly those rules.",
 ['inputs','histories'],'every set of rules with arbitrary text values, every sequence of incremental additions and removals',
 'the tests store three plain rules',
 ['storage/adapter/fileadapter.go'],
 [('quoting','storage/adapter/fileadapter.go formatRule, needsQuotes'),('reading','storage/adapter/fileadapter.go LoadPolicy, newReader'),('set operations','storage/adapter/fileadapter.go AddRule(s), RemoveRule(s)')],
 obs=['content loaded from the file'])
p('C14','Path patterns match segment by segment',
 "A path matches a path pattern exactly when the path equals the pattern, or the pattern's segments can be aligned with the path's segments such that a plain segment equals its counterpart, a named segment stands for exactly one segment, and a star stands for one or more segments. Both spellings of named segments follow the same rules, and the test whether a name is a pattern agrees with the matching.",
 ['inputs'],'every path and pattern, including empty segments, trailing separators, several stars',
 'the tests list a few dozen pairs; combinations of stars with later literal or named segments are sampled thinly',
 ['util/builtin_operators.go'],
 [('recursive segment matching','util/builtin_operators.go PathMatchHelper, nextSegment, isDynamicSegment')],
 obs=['PathMatch, PathMatch2, IsPathPattern'])
p('C15','Definitions take effect when set, and unknown names are reported',
 "After a definition of a section is set, looking it up returns it, and after it is removed the lookup reports it as missing, without touching definitions under other names or sections; setting one under a key that does not belong to its section is rejected. Enforcing with, adding, removing or clearing rules of an unknown policy, role definition, matcher or request definition returns an error and changes nothing.",
 ['inputs','histories'],'every sequence of setting and removing definitions of all five sections, every name',
 'the tests load complete models and rarely remove or misname anything',
 ['model/model.go','model/handlers.go','context.go'],
 [('section handlers','model/handlers.go'),('lookups','model/model.go SetDef, RemoveDef, Get*, AddRule, RemoveRule, ClearPolicy, BuildMatcher'),('per-request overrides','context.go')],
 obs=['errors and lookups of the model and the enforcer'])
p('C16','Ranging and filtering report complete rows and stop on demand',
 "Every reported rule consists of the key of its definition followed by the rule's values, for requests as well as for listing all rules. Ranging without stopping reports every rule at least once, nothing is reported after the callback asked to stop, and rows collected by a filter are not altered by each other or by later changes.",
 ['inputs','histories'],'every rule set over several policies and grouping policies, every stopping position',
 'the tests collect all rows of one small policy',
 ['enforcer.go','model/model.go','model/policy/policy.go','rbac/role_policy.go','rbac/role_manager.go','rbac/domain_manager.go'],
 [('row construction','model/model.go RangeMatches, RangeRules'),('iteration','model/policy/policy.go Range, rbac/role_policy.go Range'),('collection','enforcer.go FilterWithContext')],
 obs=['callbacks of RangeMatches and RangeRules','Filter'])
p('C17','Answering a request changes nothing',
 "Deciding or filtering a request never changes the rules, role links, definitions or registered functions, whatever the request, its options and its outcome, so asking again gives the same answer and the answers of other requests are unaffected.",
 ['inputs','histories'],'every sequence of requests, with and without per-request options, including failing ones and ones evaluating rule-defined expressions',
 'the tests ask each request once in a fixed order',
 ['enforcer.go','model/matcher/matcher.go','model/model.go','model/fm/function.go','context.go'],
 [('per-request function map','model/matcher/matcher.go RangeMatches, model/fm/function.go Copy'),('per-request context','context.go NewContext')],
 obs=['answers of later requests, rule listing, function map'])
p('C18','Arguments are bound to values by their declared position',
 "In a matcher an argument of the request or of the rule always has the value at the position where its definition declares it, whatever the number and order of declared names; a name that is not declared, or a position for which no value was given, is an error. A rule's effect is read from the declared effect position only.",
 ['inputs','configurations'],'every definition with any number of names, every rule and request of any length',
 'the tests use the standard three or four argument definitions',
 ['model/defs/defs.go','model/matcher/matcher.go'],
 [('position lookup','model/defs/defs.go NewPolicyDef, NewRequestDef, GetParameter, GetParameters, GetEft'),('dispatch on argument prefix','model/matcher/matcher.go MatchParameters.Get')],
 obs=['GetParameter, GetParameters, GetEft','decisions'])
p('C19','A save that fails or is interrupted keeps the stored rules',
 "At every moment during a save, including after an error or a crash at any step, the policy file contains either the complete previous rules or the complete new rules.",
 ['crash_points','fault_sequences'],'every failing or last executed file operation of a save, every rule set',
 'the tests never let a save fail',
 ['storage/adapter/fileadapter.go'],
 [('write to a temporary file, then rename','storage/adapter/fileadapter.go SavePolicy, writeRules')],
 obs=['content of the policy file'])
p('C20','Concurrent requests do not interfere',
 "Requests decided concurrently with each other on an unchanging model get the answers they would get alone, and no data race occurs.",
 ['schedules'],'every interleaving of concurrent requests',
 'the tests are single-threaded',
 ['enforcer.go','model/matcher/matcher.go','rbac/role_manager.go','util/cache.go'],
 [('locked cache','util/cache.go SyncLRUCache'),('concurrent maps','rbac/role.go, rbac/role_manager.go')],
 obs=['results of Enforce'])
for d in P:
    assert len(d['title'])<=80,(d['id'],len(d['title']))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s)
print(len(P))
