// ---- strings: facts proved with the string theories of the solvers ----
declare itoa(n int) string
declare isdig(s string) bool
lemma assoc(a string, b string, c string)
  trigger {(a + b) + c}
  ensures (a + b) + c == a + (b + c)
  option native axiom
lemma emptyright(a string)
  trigger {a + ""}
  ensures a + "" == a
  option native axiom
lemma emptyleft(a string)
  trigger {"" + a}
  ensures "" + a == a
  option native axiom
axiom itoa_digits: forall n int :: {itoa(n)} n >= 0 ==> isdig(itoa(n))
axiom itoa_distinct: forall n int, m int :: {itoa(n), itoa(m)} n >= 0 && m >= 0 && itoa(n) == itoa(m) ==> n == m
// a number ends at its first colon
lemma colon(a string, b string, x string, y string)
  trigger {a + (":" + x), b + (":" + y)}
  requires isdig(a) && isdig(b) && a + (":" + x) == b + (":" + y)
  ensures a == b && x == y
  option native axiom
// texts of equal length in front of equal texts
lemma cut(a string, b string, x string, y string)
  trigger {a + x, b + y}
  requires len(a) == len(b) && a + x == b + y
  ensures a == b && x == y
  option native axiom
contract strconv.Itoa(n) (s) trusted
  option pure
  ensures s == itoa(n)
// text written to a strings.Builder
ghost SB (Array Int Str) on strings.Builder = ""
contract (*strings.Builder).WriteString(b, s) (n, err) trusted
  modifies at(SB, b)
  ensures SB[b] == old(SB[b]) + s && err == nil
contract (*strings.Builder).WriteByte(b, c) (err) trusted
  modifies at(SB, b)
  ensures len(SB[b]) == old(len(SB[b])) + 1 && err == nil
contract (*strings.Builder).String(b) (s) trusted
  option pure
  ensures s == SB[b]
// what a function that does not deal with texts need not know
hideset text = hs_empty,hs_cons,nonempty,assoc,emptyright,emptyleft,colon,cut,hashinj,itoa_digits,itoa_distinct,cutAt,segInj,plainMatch,longer,pairKey
