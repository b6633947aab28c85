pkg filtering

// the n bits of id from bit o on, as a bit string
uninterp bits(id string, o int, n int) string
axiom bits_def(id string, o int, n int)
  requires: 0 <= n
  trig: bits(id, o, n)
  ensures: len(bits(id, o, n)) == n && forall(j, imp(0 <= j && j < n, bits(id, o, n)[j] == ite(idbit(id, o + j), '1', '0')), trig(bits(id, o, n)[j]))

lemma bits_sub(id string, o int, n int, a int, b int)
  requires: 0 <= a && a <= b && b <= n
  hide: idbit
  trig: bits(id, o, n)[a:b]
  ensures: bits(id, o, n)[a:b] == bits(id, o + a, b - a)

lemma matches_bits(s string, o int, id string)
  requires: bin(s)
  trig: matches(s, o, id), bin(s)
  hide: idbit
  ensures: matches(s, o, id) == (s == bits(id, o, len(s)))

lemma frag_match(f FilterObject, s string, o int, id string)
  requires: fenc(f, s, o) && bin(s) && o >= 0 && len(id) >= 1 && (o == 0 || len(s) >= 1)
  hide: fenc fmatch matches pat bin
  trig: fenc(f, s, o), fmatch(f, id)
  ensures: fmatch(f, id) == (o + len(s) <= 8 * len(id) && s == bits(id, o, len(s)))

// the lengths of the bit strings whose URIs a search visits
spec lens(n PatriciaTrieNode, id string) []int by n =
  ite(n == nil || n.filterObject == nil || !fmatch(n.filterObject, id), empty([]int), ite(n.reportURI == "", empty([]int), unit(n.filterObject.Offset + n.filterObject.Size)) +
    ite(n.filterObject.Offset + n.filterObject.Size >= 8 * len(id), empty([]int), ite(idbit(id, n.filterObject.Offset + n.filterObject.Size), lens(n.one, id), lens(n.zero, id))))

lemma hits_len(n PatriciaTrieNode, id string)
  induct: n
  hide: fmatch idbit
  trig: hits(n, id)
  trig: lens(n, id)
  ensures: len(hits(n, id)) == len(lens(n, id))

lemma lens_low(n PatriciaTrieNode, o int, id string, i int)
  requires: wft(n, o) && 0 <= i && i < len(lens(n, id))
  induct: n
  hide: fmatch idbit fenc bin
  trig: lens(n, id)[i], wft(n, o)
  ensures: lens(n, id)[i] >= o + len(n.filterObject.String)

lemma lens_inc(n PatriciaTrieNode, o int, id string, i int, j int)
  requires: wft(n, o) && 0 <= i && i < j && j < len(lens(n, id))
  induct: n
  use: lens_low(n.one, o + len(n.filterObject.String), id, j - 1)
  use: lens_low(n.zero, o + len(n.filterObject.String), id, j - 1)
  hide: fmatch idbit fenc bin
  trig: lens(n, id)[i], lens(n, id)[j], wft(n, o)
  ensures: lens(n, id)[i] < lens(n, id)[j]

lemma lens_high(n PatriciaTrieNode, o int, id string, i int)
  requires: wft(n, o) && o >= 0 && len(id) >= 1 && (o == 0 || branch(n, '0') || branch(n, '1')) && 0 <= i && i < len(lens(n, id))
  induct: n
  hide: idbit fenc bin fmatch
  trig: lens(n, id)[i], wft(n, o)
  ensures: lens(n, id)[i] <= 8 * len(id)

// every URI of a search is what the trie maps some prefix of the id to
lemma hits_sound(n PatriciaTrieNode, o int, id string, i int)
  requires: wft(n, o) && o >= 0 && len(id) >= 1 && (o == 0 || branch(n, '0') || branch(n, '1')) && 0 <= i && i < len(hits(n, id))
  induct: n
  hide: fmatch idbit fenc bin
  trig: hits(n, id)[i], wft(n, o)
  ensures: lens(n, id)[i] >= o && lens(n, id)[i] <= 8 * len(id) && hits(n, id)[i] != "" && hits(n, id)[i] == get(n, bits(id, o, lens(n, id)[i] - o))

// where in the list of hits the prefix of length j of the id is
spec rank(n PatriciaTrieNode, id string, j int) int by n =
  ite(n == nil || n.filterObject == nil || j <= n.filterObject.Size, 0, ite(n.reportURI == "", 0, 1) + ite(idbit(id, n.filterObject.Offset + n.filterObject.Size), rank(n.one, id, j - n.filterObject.Size), rank(n.zero, id, j - n.filterObject.Size)))

// every prefix of the id that the trie maps to a URI is visited
lemma hits_complete(n PatriciaTrieNode, o int, id string, j int)
  requires: wft(n, o) && o >= 0 && len(id) >= 1 && (o == 0 || branch(n, '0') || branch(n, '1')) && 0 <= j && j <= 8 * len(id) - o && get(n, bits(id, o, j)) != ""
  induct: n
  hide: fmatch idbit fenc bin
  trig: get(n, bits(id, o, j)), wft(n, o)
  ensures: 0 <= rank(n, id, j)
  ensures: rank(n, id, j) < len(lens(n, id))
  ensures: lens(n, id)[rank(n, id, j)] == o + j
