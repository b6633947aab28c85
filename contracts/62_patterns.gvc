pkg tdt

// what a pattern's fields stand for, by type: whether they can be encoded, and the bit string
spec epcok3(f []string, t int) bool = 1 <= len(f) && len(f) <= 3 && pok(f, t)
spec epcok4(f []string) bool = 1 <= len(f) && len(f) <= 4 && pok(f, 44 - cpb(len(f[1])))
spec isook(f []string) bool = 1 <= len(f) && len(f) <= 4 && forall(k, imp(0 <= k && k < len(f), six6ok(f[k])), trig(f[k]))
spec contok(f []string) bool = isook(f) && imp(len(f) == 4, len(f[3]) <= 6 && len(cnum(f)) == 10 && isoall(cnum(f)))
spec epckey(h string, f []string, t int) string = ite(len(f) == 1, p1(h, f), ite(len(f) == 2, p2(h, f), ite(len(f) == 3, p3(h, f, t), p4(h, f, t))))
spec isokey(f []string, last string) string = ite(len(f) == 1, sx(f[0]), ite(len(f) == 2, sx(f[0]) + sx(f[1]), ite(len(f) == 3, sx(f[0]) + sx(f[1]) + sx(f[2]), sx(f[0]) + sx(f[1]) + sx(f[2]) + last)))
axiom mpfok_def(t string, f []string)
  ensures: mpfok(t, f) == ite(t == "giai-96", epcok3(f, 63), ite(t == "sscc-96", epcok3(f, 58 - cpb(len(f[1]))), ite(t == "grai-96" || t == "sgtin-96", epcok4(f), ite(t == "iso17365", isook(f), t == "iso17363" && contok(f)))))
axiom mpfkey_def(t string, f []string)
  ensures: mpfkey(t, f) == ite(t == "giai-96", epckey("00110100", f, 82), ite(t == "sscc-96", epckey("00110001", f, 58), ite(t == "grai-96", epckey("00110011", f, 44), ite(t == "sgtin-96", epckey("00110000", f, 44), ite(t == "iso17365", isokey(f, sx(f[3])), isokey(f, sx(csn6(f[3]) + itoa(isosum(cnum(f)) % 11 % 10))))))))

func tdt.MakePrefixFilterString(t, f) (r, err)
  hide: six6_step isoval isochar
  use: mpfok_def(t, f)
  use: mpfkey_def(t, f)
  ensures ok: (err == nil) == mpfok(t, f)
  ensures key: imp(err == nil, r == mpfkey(t, f) && bin(r) && len(r) > 0)
  ensures refused: imp(err != nil, r == "")

lemma sx_len(f string)
  requires: six6ok(f)
  trig: runes(f), six6ok(f)
  hide: six6_step
  use: six6_bin(runes(f), len(runes(f)))
  ensures: len(sx(f)) >= 6
lemma field_len(v int, w int)
  trig: binstr(v), pow2(w)
  ensures: imp(w >= 1, len(field(v, w)) >= w)
// the last field left out: the bit string is a proper prefix
lemma epckey_shorter(h string, f []string, t int, n int)
  requires: 1 <= n && n == len(f) - 1 && n <= 3 && (t == 44 || t == 58 || t == 82)
  cases: n == 1; n == 2
  use: field_len(decval(f[1]), cpb(len(f[1])))
  use: field_len(decval(f[2]), t - cpb(len(f[1])))
  use: field_len(decval(f[3]), 38)
  ensures: pre(epckey(h, f[0:n], t), epckey(h, f, t)) && len(epckey(h, f[0:n], t)) < len(epckey(h, f, t))
lemma isokey_shorter(f []string, last string, last2 string, n int)
  requires: 1 <= n && n == len(f) - 1 && n <= 3 && isook(f) && imp(len(f) == 4, len(last) > 0)
  hide: six6_step
  ensures: pre(isokey(f[0:n], last2), isokey(f, last)) && len(isokey(f[0:n], last2)) < len(isokey(f, last))
lemma csn_len(f string, n int)
  requires: six6ok(f) && 0 <= n && n <= 9 && len(f) <= 6
  hide: six6_step
  use: six6_bin(runes(csn6(f) + itoa(n)), len(runes(csn6(f) + itoa(n))))
  ensures: len(sx(csn6(f) + itoa(n))) > 0
lemma pat_shorter(t string, f []string, n int)
  requires: 1 <= n && n == len(f) - 1 && mpfok(t, f)
  hide: six6_step isoval isochar epckey isokey
  use: mpfok_def(t, f)
  use: mpfok_def(t, f[0:n])
  use: mpfkey_def(t, f)
  use: mpfkey_def(t, f[0:n])
  use: epckey_shorter("00110100", f, 82, n)
  use: epckey_shorter("00110001", f, 58, n)
  use: epckey_shorter("00110011", f, 44, n)
  use: epckey_shorter("00110000", f, 44, n)
  use: isokey_shorter(f, sx(f[3]), sx(f[0:n][3]), n)
  use: csn_len(f[3], isosum(cnum(f)) % 11 % 10)
  use: isokey_shorter(f, sx(csn6(f[3]) + itoa(isosum(cnum(f)) % 11 % 10)), sx(csn6(f[0:n][3]) + itoa(isosum(cnum(f[0:n])) % 11 % 10)), n)
  ensures: mpfok(t, f[0:n]) && pre(mpfkey(t, f[0:n]), mpfkey(t, f)) && len(mpfkey(t, f[0:n])) < len(mpfkey(t, f))
