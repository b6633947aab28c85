pkg filtering

// a trie node that stands at the root of a well-formed trie
spec troot(n PatriciaTrieNode) bool = n != nil && n.filterObject != nil && n.filterObject.Offset == 0 && wft(n, 0)

func filtering.NewPatriciaTrie(sub) (r)
  hide: fenc fmatch fwf bin pat src patok patkey
  ensures shape: troot(r.root)
  ensures sound: forall(k, string, imp(get(r.root, k) != "", src(sub, get(r.root, k), k)), trig(get(r.root, k)))
  ensures complete: forall(u, string, forall(k, string, imp(src(sub, u, k), src(sub, get(r.root, k), k)), trig(src(sub, u, k))))

func filtering.(*PatriciaTrie).AddSubscription(pt, sub)
  requires: pt != nil && troot(pt.root)
  modifies: pt
  hide: fenc fmatch fwf bin pat src patok patkey
  loop: troot(pt.root)
  loop: forall(j, imp(0 <= j && j < ?n:int, get(pt.root, ($l:[]string)[j]) == $b:ByteSubscriptions[$l[j]].ReportURI), trig($l[j]))
  loop: forall(k, string, get(pt.root, k) == get(old(pt.root), k) || exists(j, 0 <= j && j < ?n:int && ($l:[]string)[j] == k, trig($l[j])), trig(get(pt.root, k)))
  ensures shape: troot(pt.root)
  ensures sound: forall(k, string, get(pt.root, k) == get(old(pt.root), k) || src(sub, get(pt.root, k), k), trig(get(pt.root, k)))
  ensures complete: forall(u, string, forall(k, string, imp(src(sub, u, k), src(sub, get(pt.root, k), k)), trig(src(sub, u, k))))

func filtering.(*PatriciaTrie).DeleteSubscription(pt, sub)
  requires: pt != nil && troot(pt.root)
  modifies: pt
  hide: fenc fmatch fwf bin pat src patok patkey
  loop: troot(pt.root)
  loop: forall(j, imp(0 <= j && j < ?n:int, get(pt.root, ($l:[]string)[j]) == ""), trig($l[j]))
  loop: forall(k, string, get(pt.root, k) == get(old(pt.root), k) || exists(j, 0 <= j && j < ?n:int && ($l:[]string)[j] == k, trig($l[j])), trig(get(pt.root, k)))
  ensures shape: troot(pt.root)
  ensures kept: forall(k, string, get(pt.root, k) == get(old(pt.root), k) || exists(u, string, src(sub, u, k), trig(src(sub, u, k))), trig(get(pt.root, k)))
  ensures gone: forall(u, string, forall(k, string, imp(src(sub, u, k), get(pt.root, k) == ""), trig(src(sub, u, k))))

func filtering.(*PatriciaTrie).Search(pt, re) (pi, r, err)
  requires: pt != nil && troot(pt.root)
  ensures hits: r == hits(pt.root, re.ID)
  ensures none: imp(len(r) == 0, err != nil && pi == "")
