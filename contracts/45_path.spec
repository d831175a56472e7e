// ---- path patterns ----
declare sindex(s string, t string) int
lemma indexRange(s string, t string)
  trigger {sindex(s, t)}
  ensures sindex(s, t) >= -1 && (sindex(s, t) >= 0 ==> sindex(s, t) + len(t) <= len(s))
  option native axiom
lemma indexStar(sep string, p string)
  trigger {"*" + (sep + p)}
  requires len(sep) == 1 && sep != "*"
  ensures sindex("*" + (sep + p), sep) == 1 && ("*" + (sep + p))[0:1] == "*" && ("*" + (sep + p))[2:len("*" + (sep + p))] == p
  option native axiom
lemma indexInStar(sep string)
  trigger {sindex("*", sep)}
  requires len(sep) == 1 && sep != "*"
  ensures sindex("*", sep) < 0
  option native axiom
contract strings.Index(s, t) (i) trusted
  option pure
  ensures i == sindex(s, t)

// the segments of a path
declare sg(s string, sep string) SeqS
axiom segments: forall s string, sep string :: {sg(s, sep), sindex(s, sep)} len(sg(s, sep)) >= 1 && (sindex(s, sep) < 0 ==> len(sg(s, sep)) == 1 && sg(s, sep)[0] == s) && (sindex(s, sep) >= 0 ==> len(sg(s, sep)) == 1 + len(sg(s[sindex(s, sep) + len(sep):len(s)], sep)) && sg(s, sep)[0] == s[0:sindex(s, sep)] && same(tail(sg(s, sep)), sg(s[sindex(s, sep) + len(sep):len(s)], sep)))
axiom segment: forall s string, sep string :: {sg(s, sep)} len(sg(s, sep)) >= 1

// a named segment
define dyn(s string, pre int, suf int) bool = len(s) > 0 && (pre == 0 || s[0] == pre) && (suf == 0 || s[len(s) - 1] == suf)
// the segments b of a pattern can be aligned with the segments a of a path:
// a plain segment equals its counterpart, a named segment stands for one segment, a star for one or more
declare am(a SeqS, b SeqS, pre int, suf int) bool
axiom aligned: forall a SeqS, b SeqS, pre int, suf int :: {am(a, b, pre, suf), tail(a), tail(b)} len(a) > 0 && len(b) > 0 ==> (am(a, b, pre, suf) <==> ite(b[0] == "*", len(b) == 1 || (len(a) > 1 && (am(tail(a), tail(b), pre, suf) || am(tail(a), b, pre, suf))), (a[0] == b[0] || dyn(b[0], pre, suf)) && ite(len(a) == 1 || len(b) == 1, len(a) == 1 && len(b) == 1, am(tail(a), tail(b), pre, suf))))
lemma alignedSelf(a SeqS, pre int, suf int) @C14
  trigger {am(a, a, pre, suf)}
  induct len(a)
  requires len(a) > 0
  ensures #hint len(tail(a)) >= 0
  ensures am(a, a, pre, suf)
  option axiom
// without stars and named segments only the pattern itself matches
define plain(b SeqS, pre int, suf int) bool = forall i int :: {b[i]} 0 <= i && i < len(b) ==> b[i] != "*" && !dyn(b[i], pre, suf)
lemma plainMatch(a SeqS, b SeqS, pre int, suf int) @C14
  trigger {am(a, b, pre, suf)}
  induct len(a)
  requires len(a) > 0 && len(b) > 0 && plain(b, pre, suf) && am(a, b, pre, suf)
  ensures #hint len(tail(a)) >= 0 && len(tail(b)) >= 0
  ensures a == b
  option axiom

contract util.PathMatchHelper(path, pattern, sep, prefix, suffix) (b) @C14
  requires len(sep) == 1 && sep != "*"
  requires #known len(tail(sg(path, sep))) >= 0 && len(tail(sg(pattern, sep))) >= 0 && sindex(path, sep) >= -1 && sindex(pattern, sep) >= -1
  option pure
  option hide=colon,cut,itoa_digits,itoa_distinct,segInj,cutAt,plainMatch
  ensures #aligned b <==> am(sg(path, sep), sg(pattern, sep), prefix, suffix)

lemma cutAt(s string, t string)
  trigger {sindex(s, t)}
  requires len(t) > 0 && sindex(s, t) >= 0
  ensures s == s[0:sindex(s, t)] + (t + s[sindex(s, t) + len(t):len(s)])
  option native axiom
// a path is known by its segments
lemma segInj(s string, u string, t string) @C14
  trigger {sg(s, t), sg(u, t)}
  induct len(s)
  requires len(t) > 0 && sg(s, t) == sg(u, t)
  ensures #hint sindex(s, t) >= -1 && sindex(u, t) >= -1 && len(tail(sg(s, t))) >= 0 && len(tail(sg(u, t))) >= 0
  ensures s == u
  option axiom
// the test for patterns agrees with the matching: what is no pattern matches itself only
lemma agree(path string, pattern string, sep string, pre int, suf int) @C14
  requires len(sep) == 1 && plain(sg(pattern, sep), pre, suf)
  ensures am(sg(path, sep), sg(pattern, sep), pre, suf) <==> path == pattern

contract util.IsPathPatternHelper(pattern, sep, prefix, suffix) (b) @C14
  requires len(sep) == 1
  ensures #pattern b <==> !plain(sg(pattern, sep), prefix, suffix)
  option hide=colon,cut,assoc,itoa_digits,itoa_distinct,segInj,cutAt,emptyleft,emptyright,plainMatch,segments
  loop 1
  var segments []string
  invariant len(segments) == len(sg(pattern, sep)) && ($k < len(segments) ==> segments[$k] == sg(pattern, sep)[$k])
  invariant forall i int :: {sg(pattern, sep)[i]} 0 <= i && i < $k ==> sg(pattern, sep)[i] != "*" && !dyn(sg(pattern, sep)[i], prefix, suffix)

contract util.PathMatch(path, pattern) (b) @C14
  option pure
  ensures #colon b <==> am(sg(path, "/"), sg(pattern, "/"), 58, 0)
contract util.PathMatch2(path, pattern) (b) @C14
  option pure
  ensures #braces b <==> am(sg(path, "/"), sg(pattern, "/"), 123, 125)
contract util.IsPathPattern(path) (b) @C14
  ensures #pattern b <==> !plain(sg(path, "/"), 58, 0)
contract util.IsPathPattern2(path) (b) @C14
  ensures #pattern b <==> !plain(sg(path, "/"), 123, 125)
