pkg filtering

// what a tag pattern's type and fields stand for (defined in 62_patterns.gvc)
uninterp mpfok(t string, f []string) bool
uninterp mpfkey(t string, f []string) string

uninterp split(s string, sep string) []string
external strings.Split(s, sep) (r)
  ensures: r == split(s, sep)

// the type and the fields of a pattern
spec patparts(p string) []string = split(ite(pre("urn:epc:pat:", p), p[12:], p), ":")
// a pattern that can be turned into a filter, and its bit string
spec patok(p string) bool = len(patparts(p)) == 2 && mpfok(patparts(p)[0], split(upper(patparts(p)[1]), "."))
spec patkey(p string) string = mpfkey(patparts(p)[0], split(upper(patparts(p)[1]), "."))

// the report URI u has a pattern in the table whose bit string is k
spec src(sub Subscriptions, u string, k string) bool = has(sub, u) && exists(i, 0 <= i && i < len(sub[u]) && patok(sub[u][i]) && patkey(sub[u][i]) == k, trig(sub[u][i]))
lemma src_intro(sub Subscriptions, u string, i int)
  requires: has(sub, u) && 0 <= i && i < len(sub[u]) && patok(sub[u][i])
  trig: has(sub, u), sub[u][i]
  ensures: src(sub, u, patkey(sub[u][i]))

// b is the table of bit strings of the patterns in sub that can be encoded
spec tbs(sub Subscriptions, b ByteSubscriptions) bool = bsok(b)
  && forall(k, string, imp(has(b, k), len(k) > 0 && b[k].Offset == 0 && len(b[k].Subset) == 0 && src(sub, b[k].ReportURI, k)), trig(has(b, k)))
  && forall(u, string, forall(k, string, imp(src(sub, u, k), has(b, k)), trig(src(sub, u, k))))

func filtering.Subscriptions.ToByteSubscriptions(sub) (r)
  loop: forall(k, string, imp(has(?b:ByteSubscriptions, k), bin(k) && len(k) > 0 && ?b[k] != nil && ?b[k].Offset == 0 && len(?b[k].Subset) == 0 && src(sub, ?b[k].ReportURI, k)), trig(has(?b, k)))
  loop: forall(j, forall(i, imp(0 <= j && j < ?n:int && 0 <= i && i < len(sub[($e:[]string)[j]]) && patok(sub[$e[j]][i]), has(?b:ByteSubscriptions, patkey(sub[$e[j]][i]))), trig(sub[$e[j]][i])))
  loop: forall(j, forall(i, imp(0 <= j && j < $n:int && 0 <= i && i < len(sub[($e:[]string)[j]]) && patok(sub[$e[j]][i]), has(?b:ByteSubscriptions, patkey(sub[$e[j]][i]))), trig(sub[$e[j]][i])))
  loop: forall(i, imp(0 <= i && i < ?n:int && patok(($l:[]string)[i]), has(?b:ByteSubscriptions, patkey($l[i]))), trig($l[i]))
  ensures table: tbs(sub, r)
