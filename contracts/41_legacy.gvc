pkg filtering

// how often x is among the first n strings of l
uninterp cnt(l []string, x string, n int) int
axiom cnt_0(l []string, x string, n int)
  requires: n <= 0
  trig: cnt(l, x, n)
  ensures: cnt(l, x, n) == 0
axiom cnt_step(l []string, x string, n int, m int)
  requires: 0 <= n && m == n + 1 && m <= len(l)
  trig: cnt(l, x, n), cnt(l, x, m)
  ensures: cnt(l, x, m) == cnt(l, x, n) + ite(l[n] == x, 1, 0)

lemma cnt_none(l []string, x string, n int)
  requires: n <= len(l) && forall(i, imp(0 <= i && i < n, l[i] != x), trig(l[i]))
  induct: n
  use: cnt_step(l, x, n - 1, n)
  trig: cnt(l, x, n)
  ensures: cnt(l, x, n) == 0
lemma cnt_nonneg(l []string, x string, n int)
  requires: n <= len(l)
  induct: n
  use: cnt_step(l, x, n - 1, n)
  trig: cnt(l, x, n)
  ensures: cnt(l, x, n) >= 0
lemma cnt_pos(l []string, x string, n int, i int)
  requires: 0 <= i && i < n && n <= len(l) && l[i] == x
  induct: n
  use: cnt_step(l, x, n - 1, n)
  trig: cnt(l, x, n), l[i]
  ensures: cnt(l, x, n) >= 1
lemma cnt_ext(a []string, b []string, x string, n int)
  requires: n <= len(a) && n <= len(b) && forall(i, imp(0 <= i && i < n, a[i] == b[i]), trig(a[i]), trig(b[i]))
  induct: n
  use: cnt_step(a, x, n - 1, n)
  use: cnt_step(b, x, n - 1, n)
  ensures: cnt(a, x, n) == cnt(b, x, n)
lemma cnt_app(l []string, d string, x string, n int)
  requires: n == len(l) + 1
  use: cnt_ext(l, l + unit(d), x, len(l))
  use: cnt_step(l + unit(d), x, len(l), len(l) + 1)
  trig: cnt(l + unit(d), x, n)
  ensures: cnt(l + unit(d), x, n) == cnt(l, x, len(l)) + ite(d == x, 1, 0)

// taking the i-th string out
lemma cnt_shift(l []string, x string, i int, n int)
  requires: 0 <= i && i <= n && n < len(l)
  induct: n
  use: cnt_ext(l, l[0:i] + l[i+1:len(l)], x, i)
  use: cnt_step(l, x, n, n + 1)
  use: cnt_step(l[0:i] + l[i+1:len(l)], x, n - 1, n)
  ensures: cnt(l[0:i] + l[i+1:len(l)], x, n) == cnt(l, x, n + 1) - ite(l[i] == x, 1, 0)
lemma cnt_cut(l []string, x string, i int, n int)
  requires: 0 <= i && i < len(l) && n == len(l) - 1
  use: cnt_shift(l, x, i, len(l) - 1)
  trig: cnt(l[0:i] + l[i+1:len(l)], x, n)
  ensures: cnt(l[0:i] + l[i+1:len(l)], x, n) == cnt(l, x, len(l)) - ite(l[i] == x, 1, 0)

// how often the table has destination x under key f
spec tcnt(m Subscriptions, f string, x string) int = ite(has(m, f), cnt(m[f], x, len(m[f])), 0)
lemma tcnt_store(m Subscriptions, k string, v []string, f string, x string)
  trig: tcnt(mstore(m, k, v), f, x)
  ensures: tcnt(mstore(m, k, v), f, x) == ite(f == k, cnt(v, x, len(v)), tcnt(m, f, x)) && tick(tcnt(m, f, x) == 0)
lemma tcnt_del(m Subscriptions, k string, f string, x string)
  trig: tcnt(mdel(m, k), f, x)
  ensures: tcnt(mdel(m, k), f, x) == ite(f == k, 0, tcnt(m, f, x)) && tick(tcnt(m, f, x) == 0)

func filtering.stringIndexInSlice(a, list) (r)
  loop: forall(j, imp(0 <= j && j < ?i:int, list[j] != a), trig(list[j]))
  ensures none: imp(r < 0, r == -1 && forall(j, imp(0 <= j && j < len(list), list[j] != a), trig(list[j])) && cnt(list, a, len(list)) == 0)
  ensures found: imp(r >= 0, r < len(list) && list[r] == a && cnt(list, a, len(list)) >= 1)

func filtering.(*LegacyEngine).AddSubscription(le, sub)
  requires: le != nil
  modifies: le
  loop: where(keysof(sub, $l:[]string), forall(f, string, forall(x, string, tick(cnt($l, f, ?n:int) > 0) && tick(tcnt(sub, f, x) > 0) && tcnt(?m:Subscriptions, f, x) == ite(cnt($l, f, ?n) > 0 && tcnt(sub, f, x) > 0 && tcnt(old(le.filters), f, x) == 0, 1, tcnt(old(le.filters), f, x)), trig(tcnt(?m, f, x)))))
  loop: where(sub[$l:[]string[$n:int]], forall(f, string, forall(x, string, tick(cnt($l, f, $n) > 0) && tick(tcnt(sub, f, x) > 0) && tick(cnt(sub[$l[$n]], x, ?i:int) > 0) && tcnt(?m:Subscriptions, f, x) == ite((cnt($l, f, $n) > 0 && tcnt(sub, f, x) > 0 || f == $l[$n] && cnt(sub[$l[$n]], x, ?i) > 0) && tcnt(old(le.filters), f, x) == 0, 1, tcnt(old(le.filters), f, x)), trig(tcnt(?m, f, x)))))
  loop: where(sub[$f:string], has(?m:Subscriptions, $f))
  ensures counts: forall(f, string, forall(x, string, tcnt(le.filters, f, x) == ite(tcnt(sub, f, x) > 0 && tcnt(old(le.filters), f, x) == 0, 1, tcnt(old(le.filters), f, x)), trig(tcnt(le.filters, f, x))))

func filtering.(*LegacyEngine).DeleteSubscription(le, sub)
  requires: le != nil
  modifies: le
  loop: where(keysof(sub, $l:[]string), forall(f, string, forall(x, string, tick(cnt($l:[]string, f, ?n:int) > 0) && tick(tcnt(sub, f, x) > 0) && tcnt(?m:Subscriptions, f, x) == ite(cnt($l:[]string, f, ?n:int) > 0 && tcnt(sub, f, x) > 0, 0, tcnt(old(le.filters), f, x)), trig(tcnt(?m, f, x)))))
  loop: where(sub[$l:[]string[$n:int]], forall(f, string, forall(x, string, tick(cnt($l, f, $n) > 0) && tick(tcnt(sub, f, x) > 0) && tick(cnt(sub[$l[$n]], x, ?i:int) > 0) && tcnt(?m:Subscriptions, f, x) == ite(cnt($l, f, $n) > 0 && tcnt(sub, f, x) > 0 || f == $l[$n] && cnt(sub[$l[$n]], x, ?i:int) > 0, 0, tcnt(old(le.filters), f, x)), trig(tcnt(?m, f, x)))))
  loop: where(sub[$l:[]string[$n:int]][$i:int], forall(f, string, forall(x, string, tick(cnt($l, f, $n) > 0) && tick(tcnt(sub, f, x) > 0) && tick(cnt(sub[$l[$n]], x, $i) > 0) && imp(f != $l[$n] || x != sub[$l[$n]][$i], tcnt(?m:Subscriptions, f, x) == ite(cnt($l, f, $n) > 0 && tcnt(sub, f, x) > 0 || f == $l[$n] && cnt(sub[$l[$n]], x, $i) > 0, 0, tcnt(old(le.filters), f, x))), trig(tcnt(?m, f, x)))))
  loop: where(sub[$f:string], has(?m:Subscriptions, $f))
  loop: where(sub[$f:string][$j:int], imp(?i:int < 0, cnt(?m:Subscriptions[$f], sub[$f][$j], len(?m[$f])) == 0) && imp(?i:int >= 0, ?i < len(?m:Subscriptions[$f]) && ?m[$f][?i] == sub[$f][$j]))
  ensures counts: forall(f, string, forall(x, string, tcnt(le.filters, f, x) == ite(tcnt(sub, f, x) > 0, 0, tcnt(old(le.filters), f, x)), trig(tcnt(le.filters, f, x))))

uninterp strjoin(l []string, sep string) string
external strings.Join(l, sep) (r)
  ensures join: r == strjoin(l, sep)
uninterp strreplace(s string, a string, b string, n int) string
external strings.Replace(s, a, b, n) (r)
  ensures replace: r == strreplace(s, a, b, n)

// the beginning of the identities that a pattern stands for
spec legrest(p string) string = strjoin(split(split(p, ":")[4], ".")[1:len(split(split(p, ":")[4], "."))], ".")
spec legtext(p string) string = ite(split(p, ":")[3] == "giai-96", "giai:" + legrest(p), ite(split(p, ":")[3] == "grai-96", "grai:" + legrest(p), ite(split(p, ":")[3] == "sgtin-96", "sgtin:" + legrest(p), ite(split(p, ":")[3] == "sscc-96", "sscc:" + legrest(p),
  ite(split(p, ":")[3] == "iso17363" || split(p, ":")[3] == "iso17365", split(p, ":")[3] + ":" + strreplace(split(p, ":")[4], ".", "", -1), split(p, ":")[4])))))
spec legmatch(p string, id string) bool = len(split(p, ":")) == 5 && pre(legtext(p), ite(pre("urn:epc:id:", id), id[11:len(id)], id))
axiom split_some(s string, sep string)
  trig: split(s, sep)
  ensures: imp(len(sep) > 0, len(split(s, sep)) >= 1)

spec legsub(m Subscriptions, id string, u string) bool = has(m, u) && exists(i, 0 <= i && i < len(m[u]) && legmatch(m[u][i], id), trig(m[u][i]))
lemma legsub_intro(m Subscriptions, id string, u string, i int)
  requires: has(m, u) && 0 <= i && i < len(m[u]) && legmatch(m[u][i], id)
  trig: legmatch(m[u][i], id), has(m, u)
  ensures: legsub(m, id, u)

func filtering.(*LegacyEngine).Search(le, re) (pi, r, err)
  hide: _pre _cat _sub
  requires: le != nil
  loop: forall(j, imp(0 <= j && j < len(?r:[]string), legsub(le.filters, $pi:string, ?r[j])), trig(?r[j]))
  loop: forall(j, forall(i, imp(0 <= j && j < ?n:int && 0 <= i && i < len(le.filters[($e:[]string)[j]]) && legmatch(le.filters[$e[j]][i], $pi:string), cnt(?r:[]string, $e[j], len(?r)) > 0), trig(legmatch(le.filters[$e[j]][i], $pi))))
  loop: forall(j, forall(i, imp(0 <= j && j < $n:int && 0 <= i && i < len(le.filters[($e:[]string)[j]]) && legmatch(le.filters[$e[j]][i], $pi:string), cnt(?r:[]string, $e[j], len(?r)) > 0), trig(legmatch(le.filters[$e[j]][i], $pi))))
  loop: forall(i, imp(0 <= i && i < ?n:int && legmatch(le.filters[$u:string][i], $pi:string), cnt(?r:[]string, $u, len(?r)) > 0), trig(legmatch(le.filters[$u][i], $pi)))
  ensures sound: forall(j, imp(0 <= j && j < len(r), legsub(le.filters, pi, r[j])), trig(r[j]))
  ensures complete: imp(tvalid(re.PC, re.ID), forall(u, string, forall(i, imp(has(le.filters, u) && 0 <= i && i < len(le.filters[u]) && legmatch(le.filters[u][i], pi), cnt(r, u, len(r)) > 0), trig(legmatch(le.filters[u][i], pi)))))
  ensures err: (err == nil) == (len(r) > 0)
