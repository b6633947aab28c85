pkg filtering

macro unrel(a string, b string) bool = !pre(a, b) && !pre(b, a)

// what the splay tree below n maps the bit string k to ("" is nothing): the mismatch
// chain is searched in order
spec sget(n SplayTreeNode, k string) string by n =
  ite(n == nil || n.filterObject == nil, "", ite(pre(n.filterObject.String, k), ite(len(k) == len(n.filterObject.String), n.reportURI, sget(n.matchNext, k[len(n.filterObject.String):])), sget(n.mismatchNext, k)))

// no node of the mismatch chain is a prefix of p or has p as a prefix
spec apart(n SplayTreeNode, p string) bool by n = n == nil || n.filterObject != nil && unrel(n.filterObject.String, p) && apart(n.mismatchNext, p)
// no node of the mismatch chain is a prefix of p
spec nopre(n SplayTreeNode, p string) bool by n = n == nil || n.filterObject != nil && !pre(n.filterObject.String, p) && nopre(n.mismatchNext, p)

macro ne(n SplayTreeNode) bool = n == nil || n.filterObject.String != ""

// well formed below bit offset o: every filter object describes its bit string at its
// offset, no two nodes of a chain overlap, and what is nested is longer than what it is
// nested in
spec swf(n SplayTreeNode, o int) bool by n =
  n == nil || n.filterObject != nil && fenc(n.filterObject, n.filterObject.String, o) && bin(n.filterObject.String) && apart(n.mismatchNext, n.filterObject.String)
    && ne(n.matchNext) && swf(n.matchNext, o + len(n.filterObject.String)) && swf(n.mismatchNext, o)

lemma pre_pre(a string, b string, c string)
  requires: pre(a, b) && pre(b, c)
  trig: pre(a, b), pre(b, c)
  ensures: pre(a, c)
lemma pre_both(a string, b string, c string)
  requires: pre(a, c) && pre(b, c)
  trig: pre(a, c), pre(b, c)
  ensures: pre(a, b) || pre(b, a)

// what lies apart from p lies apart from its continuations
lemma apart_ext(n SplayTreeNode, p string, q string)
  requires: apart(n, p) && pre(p, q)
  induct: n
  trig: apart(n, p), apart(n, q)
  ensures: apart(n, q)
lemma apart_nopre(n SplayTreeNode, p string, q string)
  requires: apart(n, q) && pre(p, q)
  induct: n
  trig: apart(n, q), nopre(n, p)
  ensures: nopre(n, p)

lemma apart_sget(n SplayTreeNode, p string, k string)
  requires: apart(n, p) && pre(p, k)
  induct: n
  trig: apart(n, p), sget(n, k)
  ensures: sget(n, k) == ""

func filtering.(*SplayTreeNode).split(n, fs) (sub, rest)
  opt: consumes=n
  requires: imp(n != nil, n.filterObject != nil && n.filterObject.Offset >= 0 && swf(n, n.filterObject.Offset)) && bin(fs) && nopre(n, fs)
  hide: fenc fmatch fwf bin pat
  variant: stsize(n)
  ensures none: imp(n == nil, sub == nil && rest == nil)
  ensures sub: imp(n != nil, swf(sub, n.filterObject.Offset + len(fs)))
  ensures subne: ne(sub)
  ensures rest: imp(n != nil, swf(rest, n.filterObject.Offset)) && apart(rest, fs)
  ensures subapart: forall(p, string, imp(apart(n, fs + p), apart(sub, p)), trig(apart(sub, p)))
  ensures restapart: forall(p, string, imp(apart(n, p), apart(rest, p)), trig(apart(rest, p)))
  ensures submap: forall(k, string, sget(sub, k) == sget(n, fs + k), trig(sget(sub, k)))
  ensures restmap: forall(k, string, imp(!pre(fs, k), sget(rest, k) == sget(n, k)), trig(sget(rest, k)))

func filtering.(*SplayTreeNode).add(n, fs, uri)
  requires: n != nil && n.filterObject != nil && n.filterObject.Offset >= 0 && swf(n, n.filterObject.Offset) && bin(fs)
  modifies: n
  hide: fenc fmatch fwf bin pat
  variant: stsize(n)
  ensures shape: n != nil && n.filterObject != nil && n.filterObject.Offset == old(n.filterObject.Offset) && swf(n, n.filterObject.Offset)
  ensures ne: imp(old(n.filterObject.String) != "" && fs != "", n.filterObject.String != "")
  ensures apart: forall(p, string, imp(apart(old(n), p) && unrel(p, fs), apart(n, p)), trig(apart(n, p)))
  ensures map: forall(k, string, sget(n, k) == ite(k == fs, uri, sget(old(n), k)), trig(sget(n, k)))

func filtering.(*SplayTreeNode).delete(n, fs, uri)
  requires: n != nil && n.filterObject != nil && n.filterObject.Offset >= 0 && swf(n, n.filterObject.Offset) && bin(fs)
  modifies: n
  hide: fenc fmatch fwf bin pat
  variant: stsize(n)
  ensures shape: n != nil && n.filterObject != nil && n.filterObject.Offset == old(n.filterObject.Offset) && swf(n, n.filterObject.Offset)
  ensures ne: imp(old(n.filterObject.String) != "", n.filterObject.String != "")
  ensures apart: forall(p, string, imp(apart(old(n), p), apart(n, p)), trig(apart(n, p)))
  ensures map: forall(k, string, sget(n, k) == ite(k == fs, "", sget(old(n), k)), trig(sget(n, k)))

// the root of a well-formed tree
spec sroot(n SplayTreeNode) bool = n != nil && n.filterObject != nil && n.filterObject.Offset == 0 && swf(n, 0)

func filtering.(*SplayTree).AddSubscription(pt, sub)
  requires: pt != nil && sroot(pt.root)
  modifies: pt
  hide: fenc fmatch fwf bin pat src patok patkey
  loop: sroot(pt.root)
  loop: forall(j, imp(0 <= j && j < ?n:int, sget(pt.root, ($l:[]string)[j]) == $b:ByteSubscriptions[$l[j]].ReportURI), trig($l[j]))
  loop: forall(k, string, sget(pt.root, k) == sget(old(pt.root), k) || exists(j, 0 <= j && j < ?n:int && ($l:[]string)[j] == k, trig($l[j])), trig(sget(pt.root, k)))
  ensures shape: sroot(pt.root)
  ensures sound: forall(k, string, sget(pt.root, k) == sget(old(pt.root), k) || src(sub, sget(pt.root, k), k), trig(sget(pt.root, k)))
  ensures complete: forall(u, string, forall(k, string, imp(src(sub, u, k), src(sub, sget(pt.root, k), k)), trig(src(sub, u, k))))

func filtering.(*SplayTree).DeleteSubscription(pt, sub)
  requires: pt != nil && sroot(pt.root)
  modifies: pt
  hide: fenc fmatch fwf bin pat src patok patkey
  loop: sroot(pt.root)
  loop: forall(j, imp(0 <= j && j < ?n:int, sget(pt.root, ($l:[]string)[j]) == ""), trig($l[j]))
  loop: forall(k, string, sget(pt.root, k) == sget(old(pt.root), k) || exists(j, 0 <= j && j < ?n:int && ($l:[]string)[j] == k, trig($l[j])), trig(sget(pt.root, k)))
  ensures shape: sroot(pt.root)
  ensures kept: forall(k, string, sget(pt.root, k) == sget(old(pt.root), k) || exists(u, string, src(sub, u, k), trig(src(sub, u, k))), trig(sget(pt.root, k)))
  ensures gone: forall(u, string, forall(k, string, imp(src(sub, u, k), sget(pt.root, k) == ""), trig(src(sub, u, k))))
