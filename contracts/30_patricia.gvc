pkg filtering

external strings.HasPrefix(s, p) (r)
  ensures: r == pre(p, s)

// bit strings: over 0 and 1 only
spec bin(s string) bool = forall(j, imp(0 <= j && j < len(s), s[j] == '0' || s[j] == '1'), trig(s[j]))
lemma bin_pat(s string)
  requires: bin(s)
  trig: bin(s), pat(s)
  ensures: pat(s)

macro frag(n PatriciaTrieNode) string = n.filterObject.String
macro branch(n PatriciaTrieNode, c byte) bool = n == nil || len(n.filterObject.String) >= 1 && n.filterObject.String[0] == c

spec tsize(n PatriciaTrieNode) int by n = ite(n == nil, 0, 1 + tsize(n.one) + tsize(n.zero))
lemma tsize_pos(n PatriciaTrieNode)
  induct: n
  trig: tsize(n)
  ensures: tsize(n) >= 0

// what the trie below n maps the bit string k to ("" is nothing)
spec get(n PatriciaTrieNode, k string) string by n =
  ite(n == nil || n.filterObject == nil, "", ite(pre(n.filterObject.String, k), ite(len(k) == len(n.filterObject.String), n.reportURI, ite(k[len(n.filterObject.String)] == '1', get(n.one, k[len(n.filterObject.String):]), ite(k[len(n.filterObject.String)] == '0', get(n.zero, k[len(n.filterObject.String):]), ""))), ""))

// well formed below bit offset o: every filter object describes its bit string at
// its offset, every child branches on its first bit
spec wft(n PatriciaTrieNode, o int) bool by n =
  n == nil || n.filterObject != nil && fenc(n.filterObject, n.filterObject.String, o) && bin(n.filterObject.String) && branch(n.one, '1') && branch(n.zero, '0')
    && wft(n.one, o + len(n.filterObject.String)) && wft(n.zero, o + len(n.filterObject.String))

lemma fenc_facts(f FilterObject, s string, o int)
  requires: fenc(f, s, o)
  trig: fenc(f, s, o)
  ensures: f != nil && fwf(f) && f.String == s && f.Size == len(s) && f.Offset == o && o >= 0

lemma bin_empty(s string)
  requires: len(s) == 0
  trig: bin(s)
  ensures: bin(s)

lemma bin_pre(p string, s string)
  requires: bin(s) && pre(p, s)
  trig: bin(s), pre(p, s)
  ensures: bin(p)

lemma bin_sub(s string, i int, j int)
  requires: bin(s) && 0 <= i && i <= j && j <= len(s)
  trig: bin(s), s[i:j]
  ensures: bin(s[i:j])

lemma bin_cat(a string, b string)
  requires: bin(a) && bin(b)
  trig: a + b, bin(a), bin(b)
  ensures: bin(a + b)

lemma bin_at(s string, i int)
  requires: bin(s) && 0 <= i && i < len(s)
  trig: bin(s), s[i]
  ensures: s[i] == '0' || s[i] == '1'

// the report URIs a search visits, in order
spec hits(n PatriciaTrieNode, id string) []string by n =
  ite(n == nil || n.filterObject == nil || !fmatch(n.filterObject, id), empty(string), ite(n.reportURI == "", empty(string), unit(n.reportURI)) +
    ite(n.filterObject.Offset + n.filterObject.Size >= 8 * len(id), empty(string), ite(idbit(id, n.filterObject.Offset + n.filterObject.Size), hits(n.one, id), hits(n.zero, id))))

func filtering.(*PatriciaTrieNode).search(n, id) (r)
  requires: n != nil && n.filterObject != nil && n.filterObject.Offset >= 0 && wft(n, n.filterObject.Offset)
  variant: tsize(n)
  ensures: r == hits(n, id)

func filtering.(*PatriciaTrieNode).add(n, fs, uri)
  requires: n != nil && n.filterObject != nil && n.filterObject.Offset >= 0 && wft(n, n.filterObject.Offset) && bin(fs)
  modifies: n
  hide: fenc fmatch fwf bin pat
  variant: tsize(n)
  ensures shape: n != nil && n.filterObject != nil && n.filterObject.Offset == old(n.filterObject.Offset) && wft(n, n.filterObject.Offset)
  ensures branch: imp(len(fs) > 0 && len(old(frag(n))) > 0 && fs[0] == old(frag(n))[0], len(frag(n)) > 0 && frag(n)[0] == fs[0])
  ensures map: forall(k, string, get(n, k) == ite(k == fs, uri, get(old(n), k)), trig(get(n, k)))

func filtering.(*PatriciaTrieNode).delete(n, fs, uri)
  requires: n != nil && n.filterObject != nil && n.filterObject.Offset >= 0 && wft(n, n.filterObject.Offset) && bin(fs)
  modifies: n
  hide: fenc fmatch fwf bin pat
  variant: tsize(n)
  ensures shape: n != nil && n.filterObject != nil && n.filterObject.Offset == old(n.filterObject.Offset) && wft(n, n.filterObject.Offset)
  ensures branch: imp(len(old(frag(n))) > 0, len(frag(n)) > 0 && frag(n)[0] == old(frag(n))[0])
  ensures map: forall(k, string, get(n, k) == ite(k == fs, "", get(old(n), k)), trig(get(n, k)))
