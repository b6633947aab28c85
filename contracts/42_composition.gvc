pkg filtering

// eight characters: bit j of b, with x where bit j of m is set too
spec wchar(b byte, m byte, j int) byte = ite(bit8(b & m, j), byte('x'), ite(bit8(b, j), byte('1'), byte('0')))
// fmt's %.8b of a byte: its eight bits
axiom binpad_byte(b byte)
  trig: binpad(8, int(b))
  ensures: len(binpad(8, int(b))) == 8 && ascii(binpad(8, int(b))) && forall(j, imp(0 <= j && j < 8, binpad(8, int(b))[j] == ite(bit8(b, j), byte('1'), byte('0'))), trig(binpad(8, int(b))[j]))
func filtering.processWildcard(b, m) (r)
  loop: forall(j, imp(0 <= j && j < ?i:int, ?s:[]rune[j] == rune(wchar(b, m, j))), trig(?s[j]))
  loop: forall(j, imp(?i:int <= j && j < 8, ?s:[]rune[j] == ite(bit8(b, j), '1', '0')), trig(?s[j]))
  ensures len: len(r) == 8
  ensures chars: forall(j, imp(0 <= j && j < 8, r[j] == wchar(b, m, j)), trig(r[j]))

// a filter whose wildcard bits are set in the filter bytes, as NewFilter makes them
spec fok(f FilterObject) bool = fwf(f) && forall(i, imp(0 <= i && i < f.ByteSize, (f.ByteFilter[i] | f.ByteMask[i]) == f.ByteFilter[i]), trig(f.ByteFilter[i]), trig(f.ByteMask[i]))

// the union over the first n filters of the filter bytes at byte h + k, of the masks,
// and of the differences from the first filter
uninterp orf(fs []*FilterObject, h int, k int, n int) byte
axiom orf_0(fs []*FilterObject, h int, k int, n int)
  requires: n <= 0
  trig: orf(fs, h, k, n)
  ensures: orf(fs, h, k, n) == byte(0)
axiom orf_step(fs []*FilterObject, h int, k int, n int, m int)
  requires: 0 <= n && m == n + 1
  trig: orf(fs, h, k, n), orf(fs, h, k, m)
  ensures: orf(fs, h, k, m) == orf(fs, h, k, n) | fs[n].ByteFilter[h - fs[n].ByteOffset + k]
uninterp orm(fs []*FilterObject, h int, k int, n int) byte
axiom orm_0(fs []*FilterObject, h int, k int, n int)
  requires: n <= 0
  trig: orm(fs, h, k, n)
  ensures: orm(fs, h, k, n) == byte(0)
axiom orm_step(fs []*FilterObject, h int, k int, n int, m int)
  requires: 0 <= n && m == n + 1
  trig: orm(fs, h, k, n), orm(fs, h, k, m)
  ensures: orm(fs, h, k, m) == orm(fs, h, k, n) | fs[n].ByteMask[h - fs[n].ByteOffset + k]
uninterp orx(fs []*FilterObject, h int, k int, n int) byte
axiom orx_0(fs []*FilterObject, h int, k int, n int)
  requires: n <= 1
  trig: orx(fs, h, k, n)
  ensures: orx(fs, h, k, n) == byte(0)
axiom orx_step(fs []*FilterObject, h int, k int, n int, m int)
  requires: 1 <= n && m == n + 1
  trig: orx(fs, h, k, n), orx(fs, h, k, m)
  ensures: orx(fs, h, k, m) == orx(fs, h, k, n) | (fs[0].ByteFilter[h - fs[0].ByteOffset + k] ^ fs[n].ByteFilter[h - fs[n].ByteOffset + k])

lemma or_first(fs []*FilterObject, h int, k int, n int)
  requires: 1 <= n
  induct: n
  use: orf_step(fs, h, k, n - 1, n)
  use: orf_0(fs, h, k, 0)
  use: orx_step(fs, h, k, n - 1, n)
  use: orx_0(fs, h, k, 1)
  ensures: (orf(fs, h, k, n) | orx(fs, h, k, n)) == (fs[0].ByteFilter[h - fs[0].ByteOffset + k] | orx(fs, h, k, n))
lemma or_each(fs []*FilterObject, h int, k int, n int, j int)
  requires: 0 <= j && j < n
  induct: n
  use: orm_step(fs, h, k, n - 1, n)
  use: orx_step(fs, h, k, n - 1, n)
  use: orx_0(fs, h, k, 1)
  ensures: (orm(fs, h, k, n) | fs[j].ByteMask[h - fs[j].ByteOffset + k]) == orm(fs, h, k, n)
  ensures: (orx(fs, h, k, n) | (fs[0].ByteFilter[h - fs[0].ByteOffset + k] ^ fs[j].ByteFilter[h - fs[j].ByteOffset + k])) == orx(fs, h, k, n)

// what is wild in the composite: what is wild in some filter or differs between them
macro orw(fs []*FilterObject, h int, k int) byte = orm(fs, h, k, len(fs)) | orx(fs, h, k, len(fs))
macro cfchar(fs []*FilterObject, h int, k int) byte = wchar(orf(fs, h, k / 8, len(fs)) | orw(fs, h, k / 8), orw(fs, h, k / 8), k % 8)

// the child c of f under the composite pattern s at byte h: each bit as in f, or wild
// where the composite has the same bit
spec childok(c FilterObject, f FilterObject, s string, h int) bool = c != nil && fok(c) && c.ByteOffset == f.ByteOffset && c.ByteSize == f.ByteSize
  && forall(k, imp(0 <= k && k < 8 * f.ByteSize, idbit(c.ByteFilter, k) == idbit(f.ByteFilter, k) && idbit(c.ByteMask, k) == idbit(f.ByteMask, k)
    || idbit(c.ByteFilter, k) && idbit(c.ByteMask, k) && 0 <= k + 8 * (f.ByteOffset - h) && k + 8 * (f.ByteOffset - h) < len(s) && s[k + 8 * (f.ByteOffset - h)] == wchar(f.ByteFilter[k / 8], f.ByteMask[k / 8], k % 8)), trig(idbit(c.ByteFilter, k)), trig(idbit(c.ByteMask, k)))

// a character of a child's pattern: the filter's, or wild where the composite has it too
macro childchar(x byte, f FilterObject, s string, h int, k int) bool = x == wchar(f.ByteFilter[k / 8], f.ByteMask[k / 8], k % 8)
    || x == byte('x') && 0 <= k + 8 * (f.ByteOffset - h) && k + 8 * (f.ByteOffset - h) < len(s) && s[k + 8 * (f.ByteOffset - h)] == wchar(f.ByteFilter[k / 8], f.ByteMask[k / 8], k % 8)
// the pattern s at byte h lies within f and asks for nothing f does not ask for
spec weaker(s string, h int, f FilterObject) bool = f.ByteOffset <= h && 8 * h + len(s) <= 8 * (f.ByteOffset + f.ByteSize)
  && forall(k, imp(0 <= k && k < len(s), s[k] == byte('x') || s[k] == wchar(f.ByteFilter[h - f.ByteOffset + k / 8], f.ByteMask[h - f.ByteOffset + k / 8], k % 8)), trig(s[k]))

func filtering.NewComposition(filters) (r)
  ghost: b int
  requires: len(filters) > 0 && 0 <= b
  requires: forall(i, imp(0 <= i && i < len(filters), filters[i] != nil && fok(filters[i]) && filters[i].ByteOffset <= b && b < filters[i].ByteOffset + filters[i].ByteSize), trig(filters[i]))
  requires: forall(i, forall(j, imp(0 <= i && i < j && j < len(filters), filters[i].String != filters[j].String), trig(filters[i], filters[j])))
  loop: where(init(?h:int == -1), init(?n:int == 0), forall(j, imp(0 <= j && j < ?n:int, filters[j].ByteOffset <= ?h:int), trig(filters[j])))
  loop: where(init(?h:int == -1), ?h:int <= b)
  loop: where(init(?h:int == -1), init(?n:int == 0), imp(?n:int > 0, ?h:int >= 0))
  loop: where(init(?h:int == -1), init(?n:int == 0), forall(j, imp(0 <= j && j < ?n:int, filters[j].ByteOffset + filters[j].ByteSize >= ?h:int), trig(filters[j])))
  loop: where(init(?h:int == -1), ?h:int == -1 || ?h > b)
  loop: where(init(?h:int == -1), init(?n:int == 0), imp(?n:int > 0, ?h:int > 0))
  loop: where($t:int - $h:int, forall(k, imp(0 <= k && k < len(?p:[]byte), ?p[k] == orm(filters, $h, k, ?n:int)), trig(?p[k])))
  loop: where($t:int - $h:int, forall(k, imp(0 <= k && k < len(?p:[]byte), ?p[k] == orf(filters, $h, k, ?n:int)), trig(?p[k])))
  loop: where($t:int - $h:int, forall(k, imp(0 <= k && k < len(?p:[]byte), ?p[k] == orx(filters, $h, k, ?n:int)), trig(?p[k])))
  loop: where($t:int - $h:int, filters[$n:int], forall(k, imp(0 <= k && k < len(?p:[]byte), ?p[k] == ite(k < ?i:int, orm(filters, $h, k, $n + 1), orm(filters, $h, k, $n))), trig(?p[k])))
  loop: where($t:int - $h:int, filters[$n:int], forall(k, imp(0 <= k && k < len(?p:[]byte), ?p[k] == ite(k < ?i:int, orf(filters, $h, k, $n + 1), orf(filters, $h, k, $n))), trig(?p[k])))
  loop: where($t:int - $h:int, filters[$n:int], forall(k, imp(0 <= k && k < len(?p:[]byte), ?p[k] == ite(k < ?i:int, orx(filters, $h, k, $n + 1), orx(filters, $h, k, $n))), trig(?p[k])))
  loop: where($p:[]byte[$n:int] | $q:[]byte[$n], $d:[]byte[$n], forall(j, imp(0 <= j && j < ?i:int, ?s:[]rune[j] == rune(wchar($d[$n] | ($p[$n] | $q[$n]), $p[$n] | $q[$n], j))), trig(?s[j])))
  loop: where($p:[]byte[$n:int] | $q:[]byte[$n], $d:[]byte[$n], forall(j, imp(?i:int <= j && j < 8, ?s:[]rune[j] == ite(bit8($d[$n], j), '1', '0')), trig(?s[j])))
  loop: where(init(len(?s:string) == 0), init(?i:int == 0), len(?s:string) == 8 * ?i:int)
  loop: where(init(len(?s:string) == 0), init(?i:int == 0), $t:int - $h:int, forall(k, imp(0 <= k && k < 8 * ?i:int, ?s:string[k] == cfchar(filters, $h, k)), trig(?s[k])))
  loop: where(init(len(?s:string) == 0), init(?i:int == 0), init(?o:int == 0), filters[$n:int], imp(?i:int > 0, ?o:int == 8 * filters[$n].ByteOffset))
  loop: where(init(len(?s:string) == 0), init(?i:int == 0), fenc($g:*FilterObject, $c:string, $o:int), filters[$n:int], forall(k, imp(0 <= k && k < 8 * ?i:int, childchar(?s:string[k], filters[$n], $c, $o / 8, k)), trig(?s[k])))
  loop: where(fenc($g:*FilterObject, $c:string, $o:int), forall(j, imp(0 <= j && j < ?n:int, has(?m:map[string]*FilterObject, filters[j].String) && childok(?m[filters[j].String], filters[j], $c, $o / 8)), trig(filters[j])))
  ensures shape: r != nil && 0 <= r.offset && r.offset % 8 == 0 && pat(r.filter) && len(r.filter) % 8 == 0 && len(r.filter) > 0
  ensures covers: forall(i, imp(0 <= i && i < len(filters), weaker(r.filter, r.offset / 8, filters[i])), trig(filters[i]))
  ensures children: forall(i, imp(0 <= i && i < len(filters), has(r.children, filters[i].String) && childok(r.children[filters[i].String], filters[i], r.filter, r.offset / 8)), trig(filters[i]))
