pkg filtering

func binutil.ParseBinRuneSliceToUint8Slice(bs) (r, err)
  opt: fresh
  ensures ok: imp(len(bs) % 8 == 0 && len(bs) >= 8, err == nil && len(r) * 8 == len(bs))
  ensures bits: imp(err == nil, forall(k, imp(0 <= k && k < len(bs), idbit(r, k) == (bs[k] == '1')), trig(bs[k]), trig(idbit(r, k))))
  ensures bad: imp(len(bs) % 8 != 0 || len(bs) < 8, err != nil && len(r) == 0)
  loop: forall(k, imp(0 <= k && k < 8 * ?j:int, idbit(?u:string, k) == (bs[k] == '1')), trig(bs[k]), trig(idbit(?u, k)))

func filtering.(*FilterObject).HasByteAt(f, bo) (r)
  requires: f != nil
  ensures: r == (f.ByteOffset <= bo && bo < f.ByteOffset + f.ByteSize)

// a pattern is a string over 0, 1 and the wildcard x
spec patr(s []rune) bool = forall(j, imp(0 <= j && j < len(s), s[j] == '0' || s[j] == '1' || s[j] == 'x'), trig(s[j]))
spec pat(s string) bool = forall(j, imp(0 <= j && j < len(s), s[j] == '0' || s[j] == '1' || s[j] == 'x'), trig(s[j]))
macro nbytes(n int) int = ite(n == 0, 1, (n + 7) / 8)

func filtering.makeFilter(bs, offset) (r0, f, m)
  opt: fresh
  requires: offset >= 0 && patr(bs)
  variant: len(bs)
  ensures off: r0 == offset / 8
  ensures size: len(f) == 8 * nbytes(offset % 8 + len(bs)) && len(m) == len(f)
  ensures filter: forall(k, imp(0 <= k && k < len(f), f[k] == ite(offset % 8 <= k && k < offset % 8 + len(bs) && bs[k - offset % 8] == '0', '0', '1')), trig(f[k]))
  ensures mask: forall(k, imp(0 <= k && k < len(m), m[k] == ite(offset % 8 <= k && k < offset % 8 + len(bs) && bs[k - offset % 8] != 'x', '0', '1')), trig(m[k]))

// f is the filter object of pattern s placed at bit offset o
spec fwf(f FilterObject) bool = f != nil && 0 <= f.ByteOffset && 0 <= f.ByteSize && len(f.ByteFilter) == f.ByteSize && len(f.ByteMask) == f.ByteSize

spec fenc(f FilterObject, s string, o int) bool = f != nil && 0 <= o && f.String == s && f.Size == len(s) && f.Offset == o && f.ByteOffset == o / 8 && f.ByteSize == nbytes(o % 8 + len(s)) && len(f.ByteFilter) == f.ByteSize && len(f.ByteMask) == f.ByteSize
  && forall(k, imp(0 <= k && k < 8 * f.ByteSize, idbit(f.ByteFilter, k) == !(o % 8 <= k && k < o % 8 + len(s) && s[k - o % 8] == '0')), trig(idbit(f.ByteFilter, k)))
  && forall(k, imp(0 <= k && k < 8 * f.ByteSize, idbit(f.ByteMask, k) == !(o % 8 <= k && k < o % 8 + len(s) && s[k - o % 8] != 'x')), trig(idbit(f.ByteMask, k)))

// every non-wildcard bit of the pattern equals the bit of the id it is laid over
spec matches(s string, o int, id string) bool = forall(j, imp(0 <= j && j < len(s), s[j] == 'x' || (s[j] == '1') == idbit(id, o + j)), trig(s[j]))

func filtering.NewFilter(s, o) (r)
  opt: fresh
  requires: o >= 0 && pat(s)
  ensures: r != nil
  ensures enc: fenc(r, s, o)

// byte-level meaning of Match
spec fmatch(f FilterObject, id string) bool = len(id) >= f.ByteOffset + f.ByteSize && forall(i, imp(0 <= i && i < f.ByteSize, (id[f.ByteOffset + i] | f.ByteMask[i]) == f.ByteFilter[i]), trig(f.ByteFilter[i]))

func filtering.(*FilterObject).Match(f, id) (r)
  requires: f != nil && fwf(f)
  ensures: r == fmatch(f, id)

func filtering.(*FilterObject).GetByteAt(f, bo) (b, m, err)
  requires: f != nil && fwf(f)
  ensures: imp(f.ByteOffset <= bo && bo < f.ByteOffset + f.ByteSize, err == nil && b == f.ByteFilter[bo - f.ByteOffset] && m == f.ByteMask[bo - f.ByteOffset])
  ensures: imp(bo < f.ByteOffset || f.ByteOffset + f.ByteSize <= bo, err != nil)

func filtering.(*FilterObject).IsTransparent(f) (r)
  requires: f != nil && fwf(f)
  ensures: r == forall(i, imp(0 <= i && i < f.ByteSize, f.ByteFilter[i] == 255 && f.ByteMask[i] == 255), trig(f.ByteFilter[i]))

func filtering.(*FilterObject).ToString(f) (r)
  requires: f != nil

// a term that brings b into view of the instantiation triggers; always true
uninterp tick(b bool) bool
axiom tick_true(b bool)
  trig: tick(b)
  ensures: tick(b)

lemma match_bit(f FilterObject, s string, o int, id string, j int)
  requires: fenc(f, s, o) && pat(s) && fmatch(f, id) && 0 <= j && j < len(s)
  trig: fenc(f, s, o), fmatch(f, id), s[j]
  ensures: imp(tick(idbit(f.ByteFilter, o % 8 + j)) && tick(idbit(f.ByteMask, o % 8 + j)), s[j] == 'x' || (s[j] == '1') == idbit(id, o + j))

lemma match_byte(f FilterObject, s string, o int, id string, i int)
  requires: fenc(f, s, o) && pat(s) && matches(s, o, id) && 0 <= i && i < f.ByteSize && len(id) >= f.ByteOffset + f.ByteSize
  trig: fenc(f, s, o), matches(s, o, id), f.ByteFilter[i]
  ensures: imp(tick(idbit(f.ByteFilter, 8 * i + 0)) && tick(idbit(f.ByteMask, 8 * i + 0)) && tick(idbit(f.ByteFilter, 8 * i + 1)) && tick(idbit(f.ByteMask, 8 * i + 1)) && tick(idbit(f.ByteFilter, 8 * i + 2)) && tick(idbit(f.ByteMask, 8 * i + 2)) && tick(idbit(f.ByteFilter, 8 * i + 3)) && tick(idbit(f.ByteMask, 8 * i + 3)) && tick(idbit(f.ByteFilter, 8 * i + 4)) && tick(idbit(f.ByteMask, 8 * i + 4)) && tick(idbit(f.ByteFilter, 8 * i + 5)) && tick(idbit(f.ByteMask, 8 * i + 5)) && tick(idbit(f.ByteFilter, 8 * i + 6)) && tick(idbit(f.ByteMask, 8 * i + 6)) && tick(idbit(f.ByteFilter, 8 * i + 7)) && tick(idbit(f.ByteMask, 8 * i + 7)),
      (id[f.ByteOffset + i] | f.ByteMask[i]) == f.ByteFilter[i])

// the filter of a pattern accepts exactly the ids whose bits agree with it
lemma match_exact(f FilterObject, s string, o int, id string)
  requires: fenc(f, s, o) && pat(s)
  trig: fenc(f, s, o), fmatch(f, id)
  ensures: fmatch(f, id) == (len(id) >= o / 8 + nbytes(o % 8 + len(s)) && matches(s, o, id))

prop P01
  funcs: filtering.NewFilter filtering.(*FilterObject).Match filtering.(*FilterObject).GetByteAt filtering.(*FilterObject).HasByteAt filtering.(*FilterObject).IsTransparent
  lemmas: match_exact
  harness: filtering TestVerifP01
