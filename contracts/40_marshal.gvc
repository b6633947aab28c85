pkg filtering

// gob as a stream of values: what is decoded is what was encoded, in order, and
// a marshaller's bytes are shorter than the stream they are part of
axiom gob_roundtrip(s []any)
  trig: gobbytes(s)
  ensures: ungob(gobbytes(s)) == s
axiom gob_nested(d string, i int, b string)
  requires: 0 <= i && i < len(ungob(d)) && ungob(d)[i] == blob(b)
  trig: ungob(d)[i], blob(b)
  ensures: len(b) < len(d)

// the values a Patricia trie node is saved as
spec penc(n PatriciaTrieNode) []any by n = unit(anyv(n.reportURI))
  + unit(anyv(n.filterObject != nil)) + ite(n.filterObject != nil, unit(anyv(n.filterObject)), empty([]any))
  + unit(anyv(n.one != nil)) + ite(n.one != nil, unit(blob(gobbytes(penc(n.one)))), empty([]any))
  + unit(anyv(n.zero != nil)) + ite(n.zero != nil, unit(blob(gobbytes(penc(n.zero)))), empty([]any))

func filtering.(*PatriciaTrieNode).MarshalBinary(n) (r, err)
  requires: n != nil
  variant: tsize(n)
  ensures saved: err == nil && r == gobbytes(penc(n))

func filtering.(*PatriciaTrieNode).UnmarshalBinary(n, data) (err)
  requires: n != nil && n.filterObject == nil && n.one == nil && n.zero == nil
  modifies: n
  variant: len(data)
  ensures restored: forall(m, PatriciaTrieNode, imp(m != nil && ungob(data) == penc(m), err == nil && n == m), trig(penc(m)))

spec pstream(n PatriciaTrieNode) []any = unit(anyv("Engine:filtering.PatriciaTrie")) + unit(blob(gobbytes(penc(n))))

func filtering.(*PatriciaTrie).MarshalBinary(pt) (r, err)
  requires: pt != nil && pt.root != nil
  ensures saved: err == nil && r == gobbytes(pstream(pt.root))

func filtering.(*PatriciaTrie).UnmarshalBinary(pt, data) (err)
  requires: pt != nil && pt.root == nil
  modifies: pt
  ghost: m PatriciaTrieNode
  ensures restored: imp(m != nil && ungob(data) == pstream(m), err == nil && pt.root == m)
  ensures refused: imp(err == nil, len(ungob(data)) > 0 && ungob(data)[0] == anyv("Engine:filtering.PatriciaTrie"))

// the values a splay tree node is saved as
spec senc(n SplayTreeNode) []any by n = unit(anyv(n.reportURI))
  + unit(anyv(n.filterObject != nil)) + ite(n.filterObject != nil, unit(anyv(n.filterObject)), empty([]any))
  + unit(anyv(n.matchNext != nil)) + ite(n.matchNext != nil, unit(blob(gobbytes(senc(n.matchNext)))), empty([]any))
  + unit(anyv(n.mismatchNext != nil)) + ite(n.mismatchNext != nil, unit(blob(gobbytes(senc(n.mismatchNext)))), empty([]any))

spec stsize(n SplayTreeNode) int by n = ite(n == nil, 0, 1 + stsize(n.matchNext) + stsize(n.mismatchNext))
lemma stsize_pos(n SplayTreeNode)
  induct: n
  trig: stsize(n)
  ensures: stsize(n) >= 0

func filtering.(*SplayTreeNode).MarshalBinary(n) (r, err)
  requires: n != nil
  variant: stsize(n)
  ensures saved: err == nil && r == gobbytes(senc(n))

func filtering.(*SplayTreeNode).UnmarshalBinary(n, data) (err)
  requires: n != nil && n.filterObject == nil && n.matchNext == nil && n.mismatchNext == nil
  modifies: n
  variant: len(data)
  ensures restored: forall(m, SplayTreeNode, imp(m != nil && ungob(data) == senc(m), err == nil && n == m), trig(senc(m)))

spec sstream(n SplayTreeNode) []any = unit(anyv("Engine:filtering.SplayTree")) + unit(blob(gobbytes(senc(n))))

func filtering.(*SplayTree).MarshalBinary(st) (r, err)
  requires: st != nil && st.root != nil
  ensures saved: err == nil && r == gobbytes(sstream(st.root))

func filtering.(*SplayTree).UnmarshalBinary(st, data) (err)
  requires: st != nil && st.root == nil
  modifies: st
  ghost: m SplayTreeNode
  ensures restored: imp(m != nil && ungob(data) == sstream(m), err == nil && st.root == m)
  ensures refused: imp(err == nil, len(ungob(data)) > 0 && ungob(data)[0] == anyv("Engine:filtering.SplayTree"))

// the values the entries of a list are saved as
uninterp lenc(fs []ExactMatch, n int) []any
axiom lenc_0(fs []ExactMatch, n int)
  requires: n <= 0
  trig: lenc(fs, n)
  ensures: lenc(fs, n) == empty([]any)
axiom lenc_step(fs []ExactMatch, n int, m int)
  requires: 0 <= n && m == n + 1 && m <= len(fs)
  trig: lenc(fs, n), lenc(fs, m)
  ensures: lenc(fs, m) == lenc(fs, n) + unit(anyv(fs[n].reportURI)) + unit(anyv(fs[n].filter))
spec lstream(fs []ExactMatch) []any = unit(anyv("Engine:filtering.List")) + unit(anyv(len(fs))) + lenc(fs, len(fs))

func filtering.(*List).MarshalBinary(list) (r, err)
  requires: list != nil && lwf(list.filters)
  loop: ?b:[]any == unit(anyv("Engine:filtering.List")) + unit(anyv(len(list.filters))) + lenc(list.filters, ?n:int)
  ensures saved: err == nil && r == gobbytes(lstream(list.filters))
lemma lenc_len(fs []ExactMatch, n int)
  requires: 0 <= n && n <= len(fs)
  induct: n
  use: lenc_step(fs, n - 1, n)
  trig: lenc(fs, n)
  ensures: len(lenc(fs, n)) == 2 * n
lemma lenc_at(fs []ExactMatch, n int, i int)
  requires: 0 <= i && i < n && n <= len(fs)
  induct: n
  use: lenc_step(fs, n - 1, n)
  trig: lenc(fs, n), fs[i]
  ensures: lenc(fs, n)[2 * i] == anyv(fs[i].reportURI) && lenc(fs, n)[2 * i + 1] == anyv(fs[i].filter)

func filtering.(*List).UnmarshalBinary(list, data) (err)
  requires: list != nil && len(list.filters) == 0
  modifies: list
  ghost: m []ExactMatch
  loop: imp(lwf(m) && ungob(data) == lstream(m), list.filters == m[0:?i:int])
  loop: imp(lwf(m) && ungob(data) == lstream(m), ?p:int == 2 + 2 * ?i:int)
  loop: tick(m[?i:int].reportURI == "")
  loop: imp(lwf(m) && ungob(data) == lstream(m), ?i:int <= len(m))
  loop: imp(lwf(m) && ungob(data) == lstream(m), ?e:error == nil)
  ensures restored: imp(lwf(m) && ungob(data) == lstream(m), err == nil && list.filters == m)
  ensures refused: imp(err == nil, len(ungob(data)) > 0 && ungob(data)[0] == anyv("Engine:filtering.List"))

// the values the destinations of one key are saved as
uninterp denc(ds []string, n int) []any
axiom denc_0(ds []string, n int)
  requires: n <= 0
  trig: denc(ds, n)
  ensures: denc(ds, n) == empty([]any)
axiom denc_step(ds []string, n int, m int)
  requires: 0 <= n && m == n + 1 && m <= len(ds)
  trig: denc(ds, n), denc(ds, m)
  ensures: denc(ds, m) == denc(ds, n) + unit(anyv(ds[n]))
lemma denc_len(ds []string, n int)
  requires: 0 <= n && n <= len(ds)
  induct: n
  use: denc_step(ds, n - 1, n)
  trig: denc(ds, n)
  ensures: len(denc(ds, n)) == n
lemma denc_at(ds []string, n int, i int)
  requires: 0 <= i && i < n && n <= len(ds)
  induct: n
  use: denc_step(ds, n - 1, n)
  trig: denc(ds, n), ds[i]
  ensures: denc(ds, n)[i] == anyv(ds[i])

// the values the first n keys of a subscription table are saved as
uninterp tenc(s Subscriptions, ks []string, n int) []any
axiom tenc_0(s Subscriptions, ks []string, n int)
  requires: n <= 0
  trig: tenc(s, ks, n)
  ensures: tenc(s, ks, n) == empty([]any)
axiom tenc_step(s Subscriptions, ks []string, n int, m int)
  requires: 0 <= n && m == n + 1 && m <= len(ks)
  trig: tenc(s, ks, n), tenc(s, ks, m)
  ensures: tenc(s, ks, m) == tenc(s, ks, n) + unit(anyv(ks[n])) + unit(anyv(len(s[ks[n]]))) + denc(s[ks[n]], len(s[ks[n]]))

spec tstream(s Subscriptions, ks []string) []any = unit(anyv(len(s))) + tenc(s, ks, len(ks))

func filtering.Subscriptions.MarshalBinary(sub) (r, err)
  loop: ?b:[]any == unit(anyv(len(sub))) + tenc(sub, ($l:[]string), ?n:int)
  loop: ?b:[]any == unit(anyv(len(sub))) + tenc(sub, ($l:[]string), $n:int) + unit(anyv($l[$n])) + unit(anyv(len(sub[$l[$n]]))) + denc(sub[$l[$n]], ?i:int)
  ensures saved: err == nil && exists(ks, []string, keysof(sub, ks) && r == gobbytes(tstream(sub, ks)), trig(keysof(sub, ks)))

lemma tenc_at(s Subscriptions, ks []string, n int, i int)
  requires: 0 <= i && i < n && n <= len(ks)
  induct: n
  use: tenc_step(s, ks, n - 1, n)
  trig: tenc(s, ks, n), tenc(s, ks, i)
  ensures: len(tenc(s, ks, i)) + 2 + len(s[ks[i]]) <= len(tenc(s, ks, n))
  ensures: tenc(s, ks, n)[len(tenc(s, ks, i))] == anyv(ks[i]) && tenc(s, ks, n)[len(tenc(s, ks, i)) + 1] == anyv(len(s[ks[i]]))
  ensures: forall(j, imp(0 <= j && j < len(s[ks[i]]), tenc(s, ks, n)[len(tenc(s, ks, i)) + 2 + j] == anyv(s[ks[i]][j])), trig(s[ks[i]][j]))

macro saved(data string, m Subscriptions, ks []string) bool = keysof(m, ks) && ungob(data) == tstream(m, ks)

func filtering.Subscriptions.UnmarshalBinary(sub, data) (err)
  requires: forall(k, string, !has(sub, k), trig(has(sub, k)))
  modifies: sub
  ghost: m Subscriptions, ks []string
  loop: imp(saved(data, m, ks), ?p:int == 1 + len(tenc(m, ks, ?i:int)))
  loop: imp(saved(data, m, ks), ?i:int <= len(ks))
  loop: imp(saved(data, m, ks), forall(j, imp(0 <= j && j < ?i:int, has(sub, ks[j]) && sub[ks[j]] == m[ks[j]]), trig(ks[j])))
  loop: imp(saved(data, m, ks), forall(k, string, imp(has(sub, k), exists(j, 0 <= j && j < ?i:int && ks[j] == k, trig(ks[j]))), trig(has(sub, k))))
  loop: imp(saved(data, m, ks), ?p:int == 3 + len(tenc(m, ks, $i:int)) + ?j:int)
  loop: imp(saved(data, m, ks), ?j:int <= len(m[ks[$i:int]]))
  loop: imp(saved(data, m, ks), ?d:[]string == m[ks[$i:int]][0:?j:int])
  loop: tick(m[ks[$i:int]][?j:int] == "")
  loop: imp(saved(data, m, ks), ?e:error == nil)
  ensures restored: imp(saved(data, m, ks), err == nil && meq(sub, m))

spec estream(s Subscriptions, ks []string) []any = unit(anyv("Engine:filtering.LegacyEngine")) + unit(anyv(len(s))) + tenc(s, ks, len(ks))

func filtering.(*LegacyEngine).MarshalBinary(le) (r, err)
  requires: le != nil
  loop: ?b:[]any == unit(anyv("Engine:filtering.LegacyEngine")) + unit(anyv(len(le.filters))) + tenc(le.filters, ($l:[]string), ?n:int)
  loop: ?b:[]any == unit(anyv("Engine:filtering.LegacyEngine")) + unit(anyv(len(le.filters))) + tenc(le.filters, ($l:[]string), $n:int) + unit(anyv($l[$n])) + unit(anyv(len(le.filters[$l[$n]]))) + denc(le.filters[$l[$n]], ?i:int)
  ensures saved: err == nil && exists(ks, []string, keysof(le.filters, ks) && r == gobbytes(estream(le.filters, ks)), trig(keysof(le.filters, ks)))

macro savede(data string, m Subscriptions, ks []string) bool = keysof(m, ks) && ungob(data) == estream(m, ks)

func filtering.(*LegacyEngine).UnmarshalBinary(le, data) (err)
  requires: le != nil
  modifies: le
  ghost: m Subscriptions, ks []string
  loop: imp(savede(data, m, ks), ?p:int == 2 + len(tenc(m, ks, ?i:int)))
  loop: imp(savede(data, m, ks), ?i:int <= len(ks))
  loop: imp(savede(data, m, ks), forall(j, imp(0 <= j && j < ?i:int, has(le.filters, ks[j]) && le.filters[ks[j]] == m[ks[j]]), trig(ks[j])))
  loop: imp(savede(data, m, ks), forall(k, string, imp(has(le.filters, k), exists(j, 0 <= j && j < ?i:int && ks[j] == k, trig(ks[j]))), trig(has(le.filters, k))))
  loop: imp(savede(data, m, ks), ?p:int == 4 + len(tenc(m, ks, $i:int)) + ?j:int)
  loop: imp(savede(data, m, ks), ?j:int <= len(m[ks[$i:int]]))
  loop: imp(savede(data, m, ks), ?d:[]string == m[ks[$i:int]][0:?j:int])
  loop: tick(m[ks[$i:int]][?j:int] == "")
  loop: imp(savede(data, m, ks), ?e:error == nil)
  ensures restored: imp(savede(data, m, ks), err == nil && meq(le.filters, m))
  ensures refused: imp(err == nil, len(ungob(data)) > 0 && ungob(data)[0] == anyv("Engine:filtering.LegacyEngine"))

spec pastream(p PartialSubscription) []any = unit(anyv(p.Offset)) + unit(anyv(p.ReportURI)) + unit(anyv(p.Subset))

func filtering.(*PartialSubscription).MarshalBinary(p) (r, err)
  requires: p != nil
  ensures saved: err == nil && r == gobbytes(pastream(p))

func filtering.(*PartialSubscription).UnmarshalBinary(p, data) (err)
  requires: p != nil && len(p.Subset) == 0
  modifies: p
  ghost: m PartialSubscription
  ensures restored: imp(m != nil && ungob(data) == pastream(m), err == nil && p == m)
