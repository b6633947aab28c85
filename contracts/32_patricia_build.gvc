pkg filtering

// where sort.Strings moves the elements to and where they come from
uninterp sortfrom(a []string, i int) int
uninterp sortto(a []string, i int) int

external sort.Strings(s)
  modifies: s
  ensures: len(s) == len(old(s))
  ensures: forall(i, forall(j, imp(0 <= i && i < j && j < len(s), !(s[j] < s[i])), trig(s[i], s[j])))
  ensures: forall(i, imp(0 <= i && i < len(s), 0 <= sortfrom(old(s), i) && sortfrom(old(s), i) < len(s) && s[i] == old(s)[sortfrom(old(s), i)] && sortto(old(s), sortfrom(old(s), i)) == i), trig(s[i]))
  ensures: forall(i, imp(0 <= i && i < len(s), 0 <= sortto(old(s), i) && sortto(old(s), i) < len(s) && old(s)[i] == s[sortto(old(s), i)] && sortfrom(old(s), sortto(old(s), i)) == i), trig(old(s)[i]))

func filtering.ByteSubscriptions.Keys(bsub) (r)
  ensures count: len(r) == len(bsub)
  ensures sorted: forall(i, forall(j, imp(0 <= i && i < j && j < len(r), r[i] < r[j]), trig(r[i], r[j])))
  ensures sound: forall(i, imp(0 <= i && i < len(r), has(bsub, r[i])), trig(r[i]))
  ensures complete: forall(k, string, imp(has(bsub, k), exists(i, 0 <= i && i < len(r) && r[i] == k, trig(r[i]))), trig(has(bsub, k)))

// a finite table has a longest key
uninterp maxlen(b ByteSubscriptions) int
axiom maxlen_def(b ByteSubscriptions, k string)
  requires: has(b, k)
  trig: maxlen(b), has(b, k)
  ensures: len(k) <= maxlen(b)

spec bsok(b ByteSubscriptions) bool = forall(k, string, imp(has(b, k), bin(k) && b[k] != nil), trig(has(b, k)))
// the report URI a table has for a bit string ("" is none)
spec uri(b ByteSubscriptions, k string) string = ite(has(b, k), b[k].ReportURI, "")

func filtering.(*PatriciaTrieNode).build(n, prefix, bsub)
  requires: n != nil && n.filterObject != nil && n.filterObject.Offset >= 0 && fenc(n.filterObject, n.filterObject.String, n.filterObject.Offset)
  requires: n.filterObject.Offset + len(n.filterObject.String) == len(prefix) && bin(n.filterObject.String) && n.one == nil && n.zero == nil && bsok(bsub)
  modifies: n
  hide: fenc fmatch fwf bin pat
  variant: maxlen(bsub) - len(prefix)
  loop: ?o:string == "" || ?o[0] == '1'
  loop: ?o:string == "" || ?o[0] == '0'
  loop: bin(?o:string)
  loop: forall(j, imp(0 <= j && j < ?i:int && pre(prefix, ($l:[]string)[j]) && len($l[j]) > len(prefix) && $l[j][len(prefix)] == '1', ?o:string != "" && pre(?o, $l[j][len(prefix):])), trig($l[j]))
  loop: forall(j, imp(0 <= j && j < ?i:int && pre(prefix, ($l:[]string)[j]) && len($l[j]) > len(prefix) && $l[j][len(prefix)] == '0', ?o:string != "" && pre(?o, $l[j][len(prefix):])), trig($l[j]))
  loop: ?o:string == "" || exists(j, 0 <= j && j < len($l:[]string) && pre(prefix + ?o, $l[j]), trig($l[j]))
  ensures shape: n != nil && n.filterObject == old(n.filterObject) && n.reportURI == old(n.reportURI) && wft(n, n.filterObject.Offset)
  ensures map: forall(k, string, imp(len(k) >= 1, ite(k[0] == '1', get(n.one, k), get(n.zero, k)) == uri(bsub, prefix + k)), trig(get(n.one, k)), trig(get(n.zero, k)), trig(uri(bsub, prefix + k)))

// ks lists the keys of s, each once, in ascending order
spec keysof(s Subscriptions, ks []string) bool = len(ks) == len(s)
  && forall(i, forall(j, imp(0 <= i && i < j && j < len(ks), ks[i] < ks[j]), trig(ks[i], ks[j])))
  && forall(i, imp(0 <= i && i < len(ks), has(s, ks[i])), trig(ks[i]))
  && forall(k, string, imp(has(s, k), exists(i, 0 <= i && i < len(ks) && ks[i] == k, trig(ks[i]))), trig(has(s, k)))

func filtering.Subscriptions.Keys(sub) (r)
  ensures count: len(r) == len(sub)
  ensures sorted: forall(i, forall(j, imp(0 <= i && i < j && j < len(r), r[i] < r[j]), trig(r[i], r[j])))
  ensures sound: forall(i, imp(0 <= i && i < len(r), has(sub, r[i])), trig(r[i]))
  ensures complete: forall(k, string, imp(has(sub, k), exists(i, 0 <= i && i < len(r) && r[i] == k, trig(r[i]))), trig(has(sub, k)))
  ensures keys: keysof(sub, r)

func filtering.Subscriptions.Clone(sub) (r)
  loop: forall(j, imp(0 <= j && j < ?i:int, has(?m:Subscriptions, ($l:[]string)[j]) && ?m[$l[j]] == sub[$l[j]]), trig($l[j]))
  loop: forall(j, imp(0 <= j && j < $i:int, has(?m:Subscriptions, ($l:[]string)[j]) && ?m[$l[j]] == sub[$l[j]]), trig($l[j]))
  loop: forall(k, string, imp(has(?m:Subscriptions, k), has(sub, k)), trig(has(?m, k)))
  loop: has(?m:Subscriptions, $f:string)
  loop: (?m:Subscriptions)[($f:string)] == sub[$f][0:?i:int]
  ensures same: forall(k, string, has(r, k) == has(sub, k), trig(has(r, k)), trig(has(sub, k)))
  ensures values: forall(k, string, imp(has(sub, k), r[k] == sub[k]), trig(has(sub, k)), trig(has(r, k)))
