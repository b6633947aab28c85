pkg tdt

// the six bits of a character: 32..63 as themselves, 64 and up less 64
spec code6(c rune) int = ite(c >= 64, int(c) - 64, int(c))
uninterp six6(r []rune, n int) []rune
axiom six6_0(r []rune, n int)
  requires: n <= 0
  trig: six6(r, n)
  ensures: six6(r, n) == empty([]rune)
axiom six6_step(r []rune, n int, m int)
  requires: m > 0 && n == m - 1
  trig: six6(r, n), six6(r, m)
  ensures: six6(r, m) == six6(r, n) + runes(field(code6(r[n]), 6))
lemma code6_range(c rune)
  requires: 32 <= c && c < 96
  trig: code6(c)
  ensures: 0 <= code6(c) && code6(c) < 64
lemma code6_nat(c rune)
  requires: 0 <= c && c < 128
  trig: code6(c)
  ensures: 0 <= code6(c) && code6(c) < 64
lemma six6_bin(r []rune, n int)
  requires: n <= len(r) && forall(i, imp(0 <= i && i < len(r), 32 <= r[i] && r[i] < 96), trig(r[i]))
  trig: six6(r, n)
  induct: n
  hide: code6
  use: six6_step(r, n - 1, n)
  use: binstr_width(code6(r[n - 1]), 6)
  ensures: imp(n >= 0, len(six6(r, n)) == 6 * n) && forall(j, imp(0 <= j && j < len(six6(r, n)), six6(r, n)[j] == 48 || six6(r, n)[j] == 49), trig(six6(r, n)[j]))
func binutil.ParseRuneTo6BinRuneSlice(r) (q)
  requires: 0 <= r && r < 128
  ensures bits: q == runes(field(code6(r), 6))
func binutil.ParseRuneSliceTo6BinRuneSlice(r) (q)
  requires: forall(i, imp(0 <= i && i < len(r), 0 <= r[i] && r[i] < 128), trig(r[i]))
  loop: ?q:[]rune == six6(r, ?i:int)
  ensures bits: q == six6(r, len(r))
// a field in the 6-bit character set
spec six6ok(f string) bool = len(f) > 0 && forall(i, imp(0 <= i && i < len(f), 32 <= f[i] && f[i] <= 95), trig(f[i]))
func tdt.check6BitFields(fields) (err)
  loop: forall(k, imp(0 <= k && k < ?i:int, six6ok(fields[k])), trig(fields[k]))
  loop: forall(k, imp(0 <= k && k < ?i:int, 32 <= ?f:string[k] && ?f:string[k] <= 95), trig(?f:string[k]))
  ensures err: (err == nil) == forall(k, imp(0 <= k && k < len(fields), six6ok(fields[k])), trig(fields[k]))
macro sx(f string) string = str(six6(runes(f), len(runes(f))))
func tdt.NewPrefixFilterISO17365(fields) (r, err)
  hide: six6_step
  ensures bits: imp(err == nil, bin(r) && len(r) > 0)
  ensures refused: imp(err != nil, r == "")
  ensures err: (err == nil) == (1 <= len(fields) && len(fields) <= 4 && forall(k, imp(0 <= k && k < len(fields), six6ok(fields[k])), trig(fields[k])))
  ensures one: imp(err == nil && len(fields) == 1, r == sx(fields[0]))
  ensures two: imp(err == nil && len(fields) == 2, r == sx(fields[0]) + sx(fields[1]))
  ensures three: imp(err == nil && len(fields) == 3, r == sx(fields[0]) + sx(fields[1]) + sx(fields[2]))
  ensures four: imp(err == nil && len(fields) == 4, r == sx(fields[0]) + sx(fields[1]) + sx(fields[2]) + sx(fields[3]))
// %v of a digit
axiom itoa_digit(n int)
  requires: 0 <= n && n <= 9
  trig: itoa(n)
  ensures: itoa(n) == unit(byte(48 + n))
macro csn6(s string) string = rep('0', 6 - len(s)) + s
macro cnum(f []string) string = f[1] + f[2] + csn6(f[3])
func tdt.NewPrefixFilterISO17363(fields) (r, err)
  hide: six6_step isoval isochar
  ensures bits: imp(err == nil, bin(r) && len(r) > 0)
  ensures refused: imp(err != nil, r == "")
  ensures err: (err == nil) == (1 <= len(fields) && len(fields) <= 4 && forall(k, imp(0 <= k && k < len(fields), six6ok(fields[k])), trig(fields[k])) && imp(len(fields) == 4, len(fields[3]) <= 6 && len(cnum(fields)) == 10 && isoall(cnum(fields))))
  ensures one: imp(err == nil && len(fields) == 1, r == sx(fields[0]))
  ensures two: imp(err == nil && len(fields) == 2, r == sx(fields[0]) + sx(fields[1]))
  ensures three: imp(err == nil && len(fields) == 3, r == sx(fields[0]) + sx(fields[1]) + sx(fields[2]))
  ensures four: imp(err == nil && len(fields) == 4, r == sx(fields[0]) + sx(fields[1]) + sx(fields[2]) + sx(csn6(fields[3]) + itoa(isosum(cnum(fields)) % 11 % 10)))
