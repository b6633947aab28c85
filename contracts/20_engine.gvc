pkg filtering

macro prefix(p string, s string) bool = pre(p, s)

lemma strlt_asym(a string, b string)
  requires: a < b
  trig: a < b
  ensures: !(b < a)

lemma strlt_irrefl(a string)
  ensures: !(a < a)

lemma strlt_total(a string, b string)
  requires: !(a < b) && !(b < a)
  trig: a < b, b < a
  ensures: a == b

lemma strle_trans(a string, b string, c string)
  requires: !(b < a) && !(c < b)
  trig: a < b, b < c
  trig: c < b, c < a
  trig: b < a, c < a
  ensures: !(c < a)

// a string between two strings agrees with the first as long as they agree with each other
lemma squeeze(a string, s string, b string)
  requires: !(s < a) && !(b < s)
  trig: s < a, b < s
  ensures: fd(a, s) >= fd(a, b)

// p is a common prefix of the strings, and no longer string is
func filtering.lcp(l) (r)
  loop: !(?n:string < ?m:string)
  loop: forall(k, imp(0 <= k && k < ?i:int, !(l[k] < ?m:string)), trig(l[k]))
  loop: forall(k, imp(0 <= k && k < ?i:int, !(?m:string < l[k])), trig(l[k]))
  loop: forall(k, imp(0 <= k && k <= ?i:int, !(l[k] < ?m:string)), trig(l[k]))
  loop: forall(k, imp(0 <= k && k <= ?i:int, !(?m:string < l[k])), trig(l[k]))
  loop: forall(k, imp(0 <= k && k <= ?i:int + 1, !(l[k] < ?m:string)), trig(l[k]))
  loop: forall(k, imp(0 <= k && k <= ?i:int + 1, !(?m:string < l[k])), trig(l[k]))
  loop: exists(k, 0 <= k && k < len(l) && l[k] == ?m:string, trig(l[k]))
  loop: forall(k, imp(0 <= k && k < ?i:int, ($m:string)[k] == ($n:string)[k]), trig($m[k]))
  ensures empty: imp(len(l) == 0, r == "")
  ensures common: forall(i, imp(0 <= i && i < len(l), prefix(r, l[i])), trig(l[i]))
  ensures first: imp(len(l) > 0, prefix(r, l[0]))
  ensures longest: imp(len(l) > 0, exists(i, 0 <= i && i < len(l) && len(l[i]) == len(r), trig(l[i])) || exists(i, exists(j, 0 <= i && i < len(l) && 0 <= j && j < len(l) && len(l[i]) > len(r) && len(l[j]) > len(r) && l[i][len(r)] != l[j][len(r)], trig(l[j])), trig(l[i])))

func filtering.getNextBit(id, nbo) (r, err)
  requires: nbo >= 0
  ensures: imp(nbo < 8 * len(id), err == nil && r == ite(idbit(id, nbo), '1', '0'))
  ensures: imp(nbo == 8 * len(id), err == nil && r == 'x')
  ensures: imp(nbo > 8 * len(id), err != nil)
