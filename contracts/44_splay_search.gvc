pkg filtering

// the report URIs a search visits, in order
spec shits(n SplayTreeNode, id string) []string by n =
  ite(n == nil || n.filterObject == nil, empty(string), ite(fmatch(n.filterObject, id), ite(n.reportURI == "", empty(string), unit(n.reportURI)) + shits(n.matchNext, id), shits(n.mismatchNext, id)))

// the chain n followed by the chain x
spec sapp(n SplayTreeNode, x SplayTreeNode) SplayTreeNode by n = ite(n == nil, x, mk(SplayTreeNode, n.reportURI, n.filterObject, n.matchNext, sapp(n.mismatchNext, x)))

lemma apart_sapp(n SplayTreeNode, x SplayTreeNode, q string)
  induct: n
  trig: apart(sapp(n, x), q)
  ensures: apart(sapp(n, x), q) == (apart(n, q) && apart(x, q))

lemma swf_sapp(n SplayTreeNode, x SplayTreeNode, o int)
  requires: swf(sapp(n, x), o)
  induct: n
  hide: fenc bin
  trig: swf(sapp(n, x), o)
  ensures: swf(x, o)

// changing the end of a chain
lemma sapp_swf(n SplayTreeNode, x SplayTreeNode, y SplayTreeNode, o int)
  requires: swf(sapp(n, x), o) && swf(y, o) && forall(q, string, imp(apart(x, q), apart(y, q)), trig(apart(y, q)))
  induct: n
  hide: fenc bin
  trig: swf(sapp(n, x), o), sapp(n, y)
  ensures: swf(sapp(n, y), o)

lemma sapp_unrel(n SplayTreeNode, x SplayTreeNode, o int, q string)
  requires: swf(sapp(n, x), o) && forall(p, string, imp(apart(x, p), unrel(p, q)), trig(apart(x, p)))
  induct: n
  hide: fenc bin
  trig: swf(sapp(n, x), o), apart(n, q)
  ensures: apart(n, q)

lemma sapp_get(n SplayTreeNode, x SplayTreeNode, q string, k string)
  requires: apart(n, q) && pre(q, k)
  induct: n
  trig: apart(n, q), sget(sapp(n, x), k)
  ensures: sget(sapp(n, x), k) == sget(x, k)

lemma sapp_get2(n SplayTreeNode, x SplayTreeNode, y SplayTreeNode, k string)
  requires: sget(x, k) == sget(y, k)
  induct: n
  trig: sget(sapp(n, x), k), sget(sapp(n, y), k)
  ensures: sget(sapp(n, x), k) == sget(sapp(n, y), k)

// a bit string that continues the second node of the end of a chain is found there
lemma sapp_second(s SplayTreeNode, x SplayTreeNode, o int, k string)
  requires: swf(sapp(s, x), o) && x != nil && x.mismatchNext != nil && pre(x.mismatchNext.filterObject.String, k)
  use: sapp_unrel(s, x, o, x.mismatchNext.filterObject.String)
  use: sapp_get(s, x, x.mismatchNext.filterObject.String, k)
  hide: fenc bin
  trig: swf(sapp(s, x), o), sget(sapp(s, x), k)
  ensures: sget(sapp(s, x), k) == sget(x.mismatchNext, k)

// taking the second node of the end of a chain out leaves a chain apart from it
lemma sapp_out(s SplayTreeNode, x SplayTreeNode, y SplayTreeNode, o int)
  requires: swf(sapp(s, x), o) && x != nil && x.mismatchNext != nil && y == mk(SplayTreeNode, x.reportURI, x.filterObject, x.matchNext, x.mismatchNext.mismatchNext)
  use: sapp_unrel(s, x, o, x.mismatchNext.filterObject.String)
  use: sapp_swf(s, x, y, o)
  hide: fenc bin
  trig: swf(sapp(s, x), o), sapp(s, y)
  ensures: swf(sapp(s, y), o) && apart(sapp(s, y), x.mismatchNext.filterObject.String)

func filtering.(*SplayTreeNode).splaySearch(n, st, parent, id) (r)
  cursor: st.root parent.mismatchNext n sapp
  requires: n.filterObject != nil && n.filterObject.Offset >= 0 && swf(st.root, n.filterObject.Offset)
  modifies: st
  hide: fenc fmatch bin fwf
  variant: stsize(n)
  ensures hits: r == shits(n, id)
  ensures shape: st.root != nil && st.root.filterObject != nil && st.root.filterObject.Offset == n.filterObject.Offset && swf(st.root, n.filterObject.Offset)
  ensures ne: imp(ne(old(st.root)), ne(st.root))
  ensures core: st.tdtCore == old(st.tdtCore)
  ensures map: forall(k, string, sget(st.root, k) == sget(old(st.root), k), trig(sget(st.root, k)))

func filtering.(*SplayTree).Search(st, re) (pi, r, err)
  requires: st != nil && sroot(st.root)
  modifies: st
  hide: fenc fmatch bin fwf
  ensures hits: r == shits(old(st.root), re.ID)
  ensures none: imp(len(r) == 0, err != nil && pi == "")
  ensures shape: sroot(st.root)
  ensures map: forall(k, string, sget(st.root, k) == sget(old(st.root), k), trig(sget(st.root, k)))

lemma apart_below(n SplayTreeNode, p string, k string)
  requires: apart(n, p) && pre(k, p)
  induct: n
  trig: apart(n, p), sget(n, k)
  ensures: sget(n, k) == ""

lemma bits_pre(id string, o int, a int, b int)
  requires: 0 <= a && a <= b
  hide: idbit
  ensures: pre(bits(id, o, a), bits(id, o, b)) && bits(id, o, b)[a:] == bits(id, o + a, b - a)

// the lengths of the bit strings whose URIs a search visits
spec slens(n SplayTreeNode, id string) []int by n =
  ite(n == nil || n.filterObject == nil, empty([]int), ite(fmatch(n.filterObject, id), ite(n.reportURI == "", empty([]int), unit(n.filterObject.Offset + n.filterObject.Size)) + slens(n.matchNext, id), slens(n.mismatchNext, id)))

lemma shits_len(n SplayTreeNode, id string)
  induct: n
  hide: fmatch
  trig: shits(n, id)
  trig: slens(n, id)
  ensures: len(shits(n, id)) == len(slens(n, id))

lemma slens_low(n SplayTreeNode, o int, id string, i int)
  requires: swf(n, o) && (o == 0 || ne(n)) && 0 <= i && i < len(slens(n, id))
  induct: n
  hide: fmatch fenc bin
  trig: slens(n, id)[i], swf(n, o)
  ensures: slens(n, id)[i] >= o && imp(ne(n), slens(n, id)[i] > o)

lemma slens_inc(n SplayTreeNode, o int, id string, i int, j int)
  requires: swf(n, o) && (o == 0 || ne(n)) && o >= 0 && 0 <= i && i < j && j < len(slens(n, id))
  induct: n
  use: slens_low(n.matchNext, o + len(n.filterObject.String), id, j - 1)
  hide: fmatch fenc bin
  trig: slens(n, id)[i], slens(n, id)[j], swf(n, o)
  ensures: slens(n, id)[i] < slens(n, id)[j]

lemma slens_high(n SplayTreeNode, o int, id string, i int)
  requires: swf(n, o) && o >= 0 && len(id) >= 1 && (o == 0 || ne(n)) && 0 <= i && i < len(slens(n, id))
  induct: n
  hide: fenc bin fmatch
  trig: slens(n, id)[i], swf(n, o)
  ensures: slens(n, id)[i] <= 8 * len(id)

// every URI of a search is what the tree maps some prefix of the id to
lemma shits_sound(n SplayTreeNode, o int, id string, i int)
  requires: swf(n, o) && o >= 0 && len(id) >= 1 && (o == 0 || ne(n)) && 0 <= i && i < len(shits(n, id))
  induct: n
  use: bits_pre(id, o, len(n.filterObject.String), slens(n, id)[i] - o)
  use: frag_match(n.filterObject, n.filterObject.String, o, id)
  hide: fmatch fenc bin
  trig: shits(n, id)[i], swf(n, o)
  ensures: slens(n, id)[i] >= o && slens(n, id)[i] <= 8 * len(id) && shits(n, id)[i] != "" && shits(n, id)[i] == sget(n, bits(id, o, slens(n, id)[i] - o))

// where in the list of hits the prefix of length j of the id is
spec srank(n SplayTreeNode, id string, j int) int by n =
  ite(n == nil || n.filterObject == nil, 0, ite(fmatch(n.filterObject, id), ite(j <= n.filterObject.Size, 0, ite(n.reportURI == "", 0, 1) + srank(n.matchNext, id, j - n.filterObject.Size)), srank(n.mismatchNext, id, j)))

lemma srank_pos(n SplayTreeNode, id string, j int)
  induct: n
  hide: fmatch
  trig: srank(n, id, j)
  ensures: srank(n, id, j) >= 0

// every prefix of the id that the tree maps to a URI is visited
lemma shits_complete(n SplayTreeNode, o int, id string, j int)
  requires: swf(n, o) && o >= 0 && len(id) >= 1 && (o == 0 || ne(n)) && 0 <= j && j <= 8 * len(id) - o && sget(n, bits(id, o, j)) != ""
  induct: n
  use: bits_pre(id, o, len(n.filterObject.String), j)
  use: bits_pre(id, o, j, len(n.filterObject.String))
  use: frag_match(n.filterObject, n.filterObject.String, o, id)
  use: apart_below(n.mismatchNext, n.filterObject.String, bits(id, o, j))
  hide: fmatch fenc bin
  trig: sget(n, bits(id, o, j)), swf(n, o)
  ensures: srank(n, id, j) < len(slens(n, id))
  ensures: slens(n, id)[srank(n, id, j)] == o + j
