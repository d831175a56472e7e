// Trusted contracts of the standard library and of third-party packages.
// These are assumptions; they are listed in the evidence as trusted.

contract errors.New(text) (err) trusted
  ensures err != nil
contract fmt.Errorf(format, a) (err) trusted
  ensures err != nil
contract fmt.Sprintf(format, a) (s) trusted
contract error.Error(e) (s) trusted
  option pure
  requires e != nil
contract time.Now() (t) trusted
contract time.Since(t) (d) trusted

contract strings.HasPrefix(s, p) (b) trusted
  option pure
  ensures b <==> len(p) <= len(s) && s[0:len(p)] == p
contract strings.HasSuffix(s, p) (b) trusted
  option pure
  ensures b <==> len(p) <= len(s) && s[len(s) - len(p):len(s)] == p
contract strings.Contains(s, t) (b) trusted
  option pure
  ensures b <==> sindex(s, t) >= 0
contract strings.TrimSpace(s) (r) trusted
  option pure
contract strings.ToLower(s) (r) trusted
  option pure
contract strings.EqualFold(s, t) (b) trusted
  option pure
  ensures s == t ==> b
contract strings.TrimPrefix(s, p) (r) trusted
  option pure
contract strings.TrimSuffix(s, p) (r) trusted
  option pure
contract strings.Count(s, t) (n) trusted
  option pure
  ensures n >= 0
contract strings.Fields(s) (parts) trusted
  ensures fresh(parts)
contract fmt.Sprint(a) (s) trusted
contract fmt.Println(a) (n, err) trusted
contract errors.Is(err, target) (b) trusted
  option pure
