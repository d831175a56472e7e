import json,sys
p='/verif/tools/levels.json'; d=json.load(open(p))
T="contract-based deductive verification (govc: contracts on /repo's go/ssa, SMT-discharged)"
COMMON=["integers are mathematical (no overflow)","partial correctness: termination is not proved","sequential execution: no goroutines, sync.Map used by one goroutine"]
def put(i,note,ass=[],level="proof"):
    d[i]=dict(proof=True,level=level,technique=T+"; plus a bounded replay of the real code for what is not under contract",note=note,assumptions=COMMON+ass)
put("C01","Proved: reading a rule's effect (GetParameter, GetEft) and merging the effects (MergeEffects) against the property's table, for every effect list. Bounded (replay): that Enforce collects the effects of exactly the matching rules.")
put("C06","Proved for every history: AddRule, RemoveRule, Clear, Range of Policy against a set of rules, the hash being injective (util.Hash), one notification carrying the rule per change. Bounded (replay): the model's own methods on top of it.",["listeners of the event emitter do not modify the policy they are told about"])
put("C11","Proved for every queue, adapter kind and failing operation: addOp, flush, batchFlush, Flush of the storage controller hand over exactly a prefix in order, keep the rest, and batches are uniform.",["adapters behave as their contracts say: success or an error without effect, and they do not call back into the controller"])
put("C12","Proved: enable/disable, the recording listeners, autosave, and load/flush of the enforcer around them. Bounded (replay): the whole enforcer with real adapters.",["adapters do not call back into the controller"])
put("C18","Proved for every definition, rule and request: NewPolicyDef/NewRequestDef/Has/GetArgs/GetKey/GetParameters/GetParameter/GetEft and MatchParameters.Get return the value at the declared position or an error, and never index out of range. Bounded (replay): that matchers ask for the names written in the expression.",["strings.Split, strings.ReplaceAll and strings.Join follow their trusted contracts"])
put("C10","Proved for every history: NewLRUCache, Get, Put (linked list and map stay in order, the value stored last or a miss, capacity respected, only the least recently used entry evicted), the locked wrapper SyncLRUCache, and RoleManager.match / DomainManager.match answer like the matching function for every name and pattern; Clear starts with an empty cache.",["matching functions are deterministic","cache keys are comparable values without NaN"])
put("C14","Proved for every path, pattern and separator: PathMatchHelper decides the alignment of the pattern's segments with the path's (recursive specification over segment sequences), PathMatch and PathMatch2 use it with their spelling, IsPathPatternHelper finds exactly the patterns with a star or named segment, and a name that is no pattern matches itself only (lemmas by induction).",["strings.Index finds the first occurrence and strings.Split cuts at each, as documented","the separator is one character other than the star"])
FS=["os, bufio and encoding/csv behave as their trusted contracts over ghost files say: rename replaces a file atomically, writes reach only the file they are made to, a well-formed line is read back as the values it was written from","the file is changed by nothing else while it is loaded or saved, and different paths are different files"]
put("C13","Proved for every set of rules and every value: formatRule quotes exactly what has to be quoted and refuses line breaks it cannot keep, writeRules writes every listed rule once or fails, LoadPolicy hands over exactly the rules of the text, and AddRule, RemoveRule, AddRules, RemoveRules of the file adapter change the stored set by exactly those rules or leave it. Bounded (replay): the real csv reader against the real formatRule, and model and enforcer on top.",FS)
put("C19","Proved for every failing step: over a ghost history of every content the policy file has had, SavePolicy and the four rule-changing operations of the file adapter add nothing but complete new contents, never make the file absent, and leave it alone when they report an error. Bounded (replay): real files and real faults.",FS)
put("C08","Proved for every history: of the default role manager, under a representation invariant (registry, links known at both ends, patterns and the names they match, the match cache): newRole, addRole, removeRole, addMatch, removeMatch, removeMatches, getRole, removeRole, AddLink, DeleteLink, GetRoles, GetUsers, Range, Clear, SetMatcher (rebuild) and the constructors. Links are exactly those added and not deleted, and the answers say what changed; queries list exactly the names one step away (over links and patterns) and leave no name, link or match behind; a new matcher keeps the links. Bounded (replay): the domain manager, and the whole against an independent model.",["sync.Map behaves like a map used by one goroutine; Range visits each entry once","the name matcher answers deterministically (MM, IP), and IsPattern does not depend on the history","fixed map ownership: nothing outside the role manager stores its sync.Maps elsewhere (ghost OW, KD, RO)"])
put("C07","Proved for every link graph and every limit: HasLink and hasLinkHelper of the default role manager answer exactly whether the names are equal, the role matches the subject, or the subject reaches the role (or a name it matches) over at most limit-1 steps (recursive specification over the relation of one step: a link, a link to a pattern matching the name, a link of a pattern matching the name), with the recursion shown to terminate and every change of the links (AddLink, DeleteLink, SetMatcher, getRole) under contract as in C08. Bounded (replay): the whole against an independent reachability model.",["sync.Map behaves like a map used by one goroutine; Range visits each entry once","the name matcher answers deterministically (MM, IP)"])
json.dump(d,open(p,'w'),indent=1)
