pkg filtering

// an entry of the list engine: the filter of bit string k, reporting to u
spec lent(e ExactMatch, k string, u string) bool = e != nil && fenc(e.filter, k, 0) && bin(k) && len(k) > 0 && e.reportURI == u
spec lwf(fs []ExactMatch) bool = forall(i, imp(0 <= i && i < len(fs), fs[i] != nil && fwf(fs[i].filter)), trig(fs[i]))

// the report URIs of the first n entries whose filter accepts the id, in order
uninterp lhits(fs []ExactMatch, id string, n int) []string
axiom lhits_0(fs []ExactMatch, id string, n int)
  requires: n <= 0
  trig: lhits(fs, id, n)
  ensures: lhits(fs, id, n) == empty(string)
axiom lhits_step(fs []ExactMatch, id string, n int, m int)
  requires: 0 <= n && m == n + 1 && m <= len(fs)
  trig: lhits(fs, id, n), lhits(fs, id, m)
  ensures: lhits(fs, id, m) == lhits(fs, id, n) + ite(fmatch(fs[n].filter, id), unit(fs[n].reportURI), empty(string))

func filtering.(*List).Search(list, re) (pi, r, err)
  requires: list != nil && lwf(list.filters)
  loop: ?r:[]string == lhits(list.filters, re.ID, ?n:int)
  ensures hits: r == lhits(list.filters, re.ID, len(list.filters))
  ensures none: imp(len(r) == 0, err != nil && pi == "")

// where a list holds an entry first, or -1
uninterp eidx(fs []ExactMatch, e ExactMatch) int
axiom eidx_def(fs []ExactMatch, e ExactMatch)
  trig: eidx(fs, e)
  ensures: -1 <= eidx(fs, e) && eidx(fs, e) < len(fs) && imp(eidx(fs, e) >= 0, fs[eidx(fs, e)] == e) && forall(i, imp(0 <= i && i < len(fs) && fs[i] == e, 0 <= eidx(fs, e) && eidx(fs, e) <= i), trig(fs[i]))

func filtering.ListFilters.IndexOf(lf, em) (r)
  loop: forall(j, imp(0 <= j && j < ?i:int, lf[j] != em), trig(lf[j]))
  ensures none: imp(r < 0, r == -1 && forall(j, imp(0 <= j && j < len(lf), lf[j] != em), trig(lf[j])))
  ensures found: imp(r >= 0, r < len(lf) && lf[r] == em && forall(j, imp(0 <= j && j < r, lf[j] != em), trig(lf[j])))
  ensures idx: r == eidx(lf, em)

// no entry twice
spec ldistinct(fs []ExactMatch) bool = forall(i, forall(j, imp(0 <= i && i < j && j < len(fs), fs[i] != fs[j]), trig(fs[i], fs[j])))

func filtering.NewList(sub) (r)
  hide: fenc fmatch fwf bin pat src patok patkey
  loop: len(?f:[]ExactMatch) == ?n:int
  loop: forall(j, imp(0 <= j && j < ?n:int, lent((?f:[]ExactMatch)[j], ($l:[]string)[j], $b:ByteSubscriptions[$l[j]].ReportURI)), trig(?f[j]), trig($l[j]))
  ensures sound: forall(i, imp(0 <= i && i < len(r.filters), lent(r.filters[i], r.filters[i].filter.String, r.filters[i].reportURI) && src(sub, r.filters[i].reportURI, r.filters[i].filter.String)), trig(r.filters[i]))
  ensures sorted: forall(i, forall(j, imp(0 <= i && i < j && j < len(r.filters), r.filters[i].filter.String < r.filters[j].filter.String), trig(r.filters[i], r.filters[j])))
  ensures distinct: ldistinct(r.filters)
  ensures complete: forall(u, string, forall(k, string, imp(src(sub, u, k), exists(i, 0 <= i && i < len(r.filters) && r.filters[i].filter.String == k, trig(r.filters[i]))), trig(src(sub, u, k))))


func filtering.(*List).AddSubscription(list, sub)
  requires: list != nil
  modifies: list
  hide: fenc fmatch fwf bin pat src patok patkey
  loop: len(?f:[]ExactMatch) >= len(old(list.filters)) && ?f[0:len(old(list.filters))] == old(list.filters)
  loop: forall(i, imp(len(old(list.filters)) <= i && i < len(?f:[]ExactMatch), lent(?f[i], ?f[i].filter.String, ?f[i].reportURI) && src(sub, ?f[i].reportURI, ?f[i].filter.String)), trig(?f[i]))
  loop: forall(i, forall(j, imp(len(old(list.filters)) <= j && j < len(?f:[]ExactMatch) && 0 <= i && i < j, ?f[i] != ?f[j]), trig(?f[i], ?f[j])))
  loop: forall(j, imp(0 <= j && j < ?n:int, exists(i, 0 <= i && i < len(?f:[]ExactMatch) && lent(?f[i], ($l:[]string)[j], $b:ByteSubscriptions[$l[j]].ReportURI), trig(?f[i]))), trig($l[j]))
  ensures kept: len(list.filters) >= len(old(list.filters)) && list.filters[0:len(old(list.filters))] == old(list.filters)
  ensures sound: forall(i, imp(len(old(list.filters)) <= i && i < len(list.filters), lent(list.filters[i], list.filters[i].filter.String, list.filters[i].reportURI) && src(sub, list.filters[i].reportURI, list.filters[i].filter.String)), trig(list.filters[i]))
  ensures once: forall(i, forall(j, imp(len(old(list.filters)) <= j && j < len(list.filters) && 0 <= i && i < j, list.filters[i] != list.filters[j]), trig(list.filters[i], list.filters[j])))
  ensures distinct: imp(ldistinct(old(list.filters)), ldistinct(list.filters))
  ensures complete: forall(u, string, forall(k, string, imp(src(sub, u, k), exists(i, 0 <= i && i < len(list.filters) && lent(list.filters[i], k, list.filters[i].reportURI) && src(sub, list.filters[i].reportURI, k), trig(list.filters[i]))), trig(src(sub, u, k))))

// a filter object is determined by its pattern and offset
lemma fenc_byte(f FilterObject, g FilterObject, s string, o int, i int)
  requires: fenc(f, s, o) && fenc(g, s, o) && 0 <= i && i < f.ByteSize
  trig: fenc(f, s, o), fenc(g, s, o), f.ByteFilter[i]
  trig: fenc(f, s, o), fenc(g, s, o), f.ByteMask[i]
  ensures: imp(tick(idbit(f.ByteFilter, 8 * i + 0)) && tick(idbit(f.ByteMask, 8 * i + 0)) && tick(idbit(f.ByteFilter, 8 * i + 1)) && tick(idbit(f.ByteMask, 8 * i + 1)) && tick(idbit(f.ByteFilter, 8 * i + 2)) && tick(idbit(f.ByteMask, 8 * i + 2)) && tick(idbit(f.ByteFilter, 8 * i + 3)) && tick(idbit(f.ByteMask, 8 * i + 3)) && tick(idbit(f.ByteFilter, 8 * i + 4)) && tick(idbit(f.ByteMask, 8 * i + 4)) && tick(idbit(f.ByteFilter, 8 * i + 5)) && tick(idbit(f.ByteMask, 8 * i + 5)) && tick(idbit(f.ByteFilter, 8 * i + 6)) && tick(idbit(f.ByteMask, 8 * i + 6)) && tick(idbit(f.ByteFilter, 8 * i + 7)) && tick(idbit(f.ByteMask, 8 * i + 7)),
      imp(tick(idbit(g.ByteFilter, 8 * i + 0)) && tick(idbit(g.ByteMask, 8 * i + 0)) && tick(idbit(g.ByteFilter, 8 * i + 1)) && tick(idbit(g.ByteMask, 8 * i + 1)) && tick(idbit(g.ByteFilter, 8 * i + 2)) && tick(idbit(g.ByteMask, 8 * i + 2)) && tick(idbit(g.ByteFilter, 8 * i + 3)) && tick(idbit(g.ByteMask, 8 * i + 3)) && tick(idbit(g.ByteFilter, 8 * i + 4)) && tick(idbit(g.ByteMask, 8 * i + 4)) && tick(idbit(g.ByteFilter, 8 * i + 5)) && tick(idbit(g.ByteMask, 8 * i + 5)) && tick(idbit(g.ByteFilter, 8 * i + 6)) && tick(idbit(g.ByteMask, 8 * i + 6)) && tick(idbit(g.ByteFilter, 8 * i + 7)) && tick(idbit(g.ByteMask, 8 * i + 7)),
      f.ByteFilter[i] == g.ByteFilter[i] && f.ByteMask[i] == g.ByteMask[i]))

lemma fenc_bytes(f FilterObject, g FilterObject, s string, o int)
  requires: fenc(f, s, o) && fenc(g, s, o)
  hide: idbit
  trig: fenc(f, s, o), fenc(g, s, o)
  ensures: f.ByteFilter == g.ByteFilter
  ensures: f.ByteMask == g.ByteMask

lemma fenc_unique(f FilterObject, g FilterObject, s string, o int)
  requires: fenc(f, s, o) && fenc(g, s, o)
  hide: idbit
  trig: fenc(f, s, o), fenc(g, s, o)
  ensures: f == g

lemma lent_unique(a ExactMatch, b ExactMatch, k string, u string)
  requires: lent(a, k, u) && lent(b, k, u)
  hide: fenc
  trig: lent(a, k, u), lent(b, k, u)
  ensures: a == b

// the entries of a list without repetition are where they are found first
lemma eidx_at(fs []ExactMatch, i int)
  requires: ldistinct(fs) && 0 <= i && i < len(fs)
  trig: ldistinct(fs), fs[i]
  ensures: eidx(fs, fs[i]) == i

func filtering.(*List).DeleteSubscription(list, sub)
  requires: list != nil && ldistinct(list.filters)
  modifies: list
  hide: fenc fmatch fwf bin pat src patok patkey
  loop: ldistinct(?f:[]ExactMatch)
  loop: forall(i, imp(0 <= i && i < len(?f:[]ExactMatch), eidx(old(list.filters), ?f[i]) >= 0), trig(?f[i]))
  loop: forall(i, forall(j, imp(0 <= i && i < j && j < len(?f:[]ExactMatch), eidx(old(list.filters), ?f[i]) < eidx(old(list.filters), ?f[j])), trig(?f[i], ?f[j])))
  loop: forall(i, imp(0 <= i && i < len(old(list.filters)), eidx(?f:[]ExactMatch, old(list.filters)[i]) >= 0 || exists(j, 0 <= j && j < ?n:int && lent(old(list.filters)[i], ($l:[]string)[j], $b:ByteSubscriptions[$l[j]].ReportURI), trig($l[j]))), trig(old(list.filters)[i]))
  loop: forall(j, forall(i, imp(0 <= j && j < ?n:int && 0 <= i && i < len(?f:[]ExactMatch), !lent(?f[i], ($l:[]string)[j], $b:ByteSubscriptions[$l[j]].ReportURI)), trig(?f[i], $l[j])))
  ensures distinct: ldistinct(list.filters)
  ensures sound: forall(i, imp(0 <= i && i < len(list.filters), eidx(old(list.filters), list.filters[i]) >= 0), trig(list.filters[i]))
  ensures order: forall(i, forall(j, imp(0 <= i && i < j && j < len(list.filters), eidx(old(list.filters), list.filters[i]) < eidx(old(list.filters), list.filters[j])), trig(list.filters[i], list.filters[j])))
  ensures kept: forall(i, imp(0 <= i && i < len(old(list.filters)), eidx(list.filters, old(list.filters)[i]) >= 0 || lent(old(list.filters)[i], old(list.filters)[i].filter.String, old(list.filters)[i].reportURI) && src(sub, old(list.filters)[i].reportURI, old(list.filters)[i].filter.String)), trig(old(list.filters)[i]))
  ensures gone: forall(u, string, forall(k, string, forall(i, imp(src(sub, u, k) && forall(v, string, imp(src(sub, v, k), u == v), trig(src(sub, v, k))) && 0 <= i && i < len(list.filters), !lent(list.filters[i], k, u)), trig(src(sub, u, k), list.filters[i]))))

// a list reports exactly the entries whose filters accept the id
spec lhas(fs []ExactMatch, id string, u string) bool = exists(i, 0 <= i && i < len(fs) && fmatch(fs[i].filter, id) && fs[i].reportURI == u, trig(fs[i]))
