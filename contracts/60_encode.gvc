pkg tdt

// decimal numerals: isdec(s) says s is one or more digits, decval(s) is its value
uninterp isdec(s string) bool
uninterp decval(s string) int
axiom decval_nat(s string)
  trig: decval(s)
  ensures: decval(s) >= 0
axiom isdec_nonempty(s string)
  trig: isdec(s)
  ensures: imp(isdec(s), len(s) > 0)
spec pow2(n int) int = ite(n == 0, 1, ite(n == 1, 2, ite(n == 2, 4, ite(n == 3, 8, ite(n == 4, 16, ite(n == 5, 32, ite(n == 6, 64, ite(n == 7, 128, ite(n == 8, 256, ite(n == 9, 512, ite(n == 10, 1024, ite(n == 11, 2048, ite(n == 12, 4096, ite(n == 13, 8192, ite(n == 14, 16384, ite(n == 15, 32768, ite(n == 16, 65536, ite(n == 17, 131072, ite(n == 18, 262144, ite(n == 19, 524288, ite(n == 20, 1048576, ite(n == 21, 2097152, ite(n == 22, 4194304, ite(n == 23, 8388608, ite(n == 24, 16777216, ite(n == 25, 33554432, ite(n == 26, 67108864, ite(n == 27, 134217728, ite(n == 28, 268435456, ite(n == 29, 536870912, ite(n == 30, 1073741824, ite(n == 31, 2147483648, ite(n == 32, 4294967296, ite(n == 33, 8589934592, ite(n == 34, 17179869184, ite(n == 35, 34359738368, ite(n == 36, 68719476736, ite(n == 37, 137438953472, ite(n == 38, 274877906944, ite(n == 39, 549755813888, ite(n == 40, 1099511627776, ite(n == 41, 2199023255552, ite(n == 42, 4398046511104, ite(n == 43, 8796093022208, ite(n == 44, 17592186044416, ite(n == 45, 35184372088832, ite(n == 46, 70368744177664, ite(n == 47, 140737488355328, ite(n == 48, 281474976710656, ite(n == 49, 562949953421312, ite(n == 50, 1125899906842624, ite(n == 51, 2251799813685248, ite(n == 52, 4503599627370496, ite(n == 53, 9007199254740992, ite(n == 54, 18014398509481984, ite(n == 55, 36028797018963968, ite(n == 56, 72057594037927936, ite(n == 57, 144115188075855872, ite(n == 58, 288230376151711744, ite(n == 59, 576460752303423488, ite(n == 60, 1152921504606846976, ite(n == 61, 2305843009213693952, ite(n == 62, 4611686018427387904, ite(n == 63, 9223372036854775808, ite(n == 64, 18446744073709551616, 0)))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))
lemma pow2_63(n int)
  trig: pow2(n)
  ensures: imp(0 <= n && n <= 63, 1 <= pow2(n) && pow2(n) <= pow2(63))
external strconv.ParseUint(s, base, bits) (n, err)
  ensures hex: imp(base == 16 && bits == 8 && (s == "A9" || s == "A2"), err == nil && n == ite(s == "A9", 169, 162))
  ensures dec: imp(base == 10 && 1 <= bits && bits <= 64, (err == nil) == (isdec(s) && decval(s) < pow2(bits)))
external strconv.ParseInt(s, base, bits) (n, err)
  ensures dec: imp(base == 10 && bits == 64 && isdec(s) && decval(s) < pow2(63), err == nil && n == decval(s))
  ensures bin32: imp(base == 2 && bits == 32 && 1 <= len(s) && len(s) <= 31 && forall(i, imp(0 <= i && i < len(s), s[i] == 48 || s[i] == 49), trig(s[i])), err == nil && 0 <= n)
  ensures dec32: imp(base == 10 && bits == 32 && isdec(s) && decval(s) < pow2(31), err == nil && n == decval(s))

// the w-bit binary numeral of v (fmt's %b, with zeros in front)
macro field(v int, w int) string = rep('0', w - len(binstr(v))) + binstr(v)
axiom binstr_width(v int, w int)
  trig: binstr(v), pow2(w)
  ensures: imp(0 <= v && 1 <= w && w <= 64 && v < pow2(w), len(binstr(v)) <= w)
axiom binpad_field(w int, v int)
  trig: binpad(w, v)
  ensures: imp(0 <= v, binpad(w, v) == field(v, w) && runes(binpad(w, v)) == runes(field(v, w)))
axiom binstr_runes(v int)
  trig: runes(binstr(v))
  ensures: len(runes(binstr(v))) == len(binstr(v))
axiom binpad_runes(w int, v int)
  trig: runes(binpad(w, v))
  ensures: len(runes(binpad(w, v))) == len(binpad(w, v))

func binutil.GenerateNLengthZeroPaddingRuneSlice(n) (r)
  requires: n >= 0
  ensures zeros: r == runes(rep('0', n))
trusted binutil.GenerateNLengthRandomBinRuneSlice(n, max) (r, sum)
  requires: n >= 0
  ensures bits: len(r) == n && forall(i, imp(0 <= i && i < n, r[i] == 48 || r[i] == 49), trig(r[i]))

axiom binstr_bin(v int, i int)
  requires: v >= 0 && 0 <= i && i < len(binstr(v))
  trig: binstr(v)[i]
  ensures: binstr(v)[i] == 48 || binstr(v)[i] == 49
lemma binstr_runes_bin(v int, i int)
  requires: v >= 0 && 0 <= i && i < len(runes(binstr(v)))
  trig: runes(binstr(v))[i]
  ensures: runes(binstr(v))[i] == 48 || runes(binstr(v))[i] == 49
macro isfield(s string, w int) bool = isdec(s) && decval(s) < pow2(w)
macro fld(s string, w int) string = field(decval(s), w)


// ---- the standard's partition table: n digits of company prefix
spec cpb(n int) int = ite(n == 12, 40, ite(n == 11, 37, ite(n == 10, 34, ite(n == 9, 30, ite(n == 8, 27, ite(n == 7, 24, 20))))))
macro cpok(f []string) bool = 6 <= len(f[1]) && len(f[1]) <= 12 && isfield(f[1], cpb(len(f[1])))
macro part(s string) string = ite(len(s) == 12, "000", ite(len(s) == 11, "001", ite(len(s) == 10, "010", ite(len(s) == 9, "011", ite(len(s) == 8, "100", ite(len(s) == 7, "101", "110"))))))
// n fields of a pattern fit: f[2] is u bits wide, f[3] 38
macro pok(f []string, u int) bool = isfield(f[0], 3) && imp(len(f) >= 2, cpok(f)) && imp(len(f) >= 3, isfield(f[2], u)) && imp(len(f) >= 4, isfield(f[3], 38))
macro p1(h string, f []string) string = h + fld(f[0], 3)
macro p2(h string, f []string) string = h + fld(f[0], 3) + part(f[1]) + fld(f[1], cpb(len(f[1])))
macro p3(h string, f []string, t int) string = h + fld(f[0], 3) + part(f[1]) + fld(f[1], cpb(len(f[1]))) + fld(f[2], t - cpb(len(f[1])))
macro p4(h string, f []string, t int) string = h + fld(f[0], 3) + part(f[1]) + fld(f[1], cpb(len(f[1]))) + fld(f[2], t - cpb(len(f[1]))) + fld(f[3], 38)

func tdt.NewPrefixFilterSGTIN96(fields) (r, err)
  ensures bits: imp(err == nil, bin(r) && len(r) > 0)
  ensures refused: imp(err != nil, r == "")
  ensures err: (err == nil) == (1 <= len(fields) && len(fields) <= 4 && pok(fields, 44 - cpb(len(fields[1]))))
  ensures one: imp(err == nil && len(fields) == 1, r == p1("00110000", fields))
  ensures two: imp(err == nil && len(fields) == 2, r == p2("00110000", fields))
  ensures three: imp(err == nil && len(fields) == 3, r == p3("00110000", fields, 44))
  ensures four: imp(err == nil && len(fields) == 4, r == p4("00110000", fields, 44))
func tdt.NewPrefixFilterGRAI96(fields) (r, err)
  ensures bits: imp(err == nil, bin(r) && len(r) > 0)
  ensures refused: imp(err != nil, r == "")
  ensures err: (err == nil) == (1 <= len(fields) && len(fields) <= 4 && pok(fields, 44 - cpb(len(fields[1]))))
  ensures one: imp(err == nil && len(fields) == 1, r == p1("00110011", fields))
  ensures two: imp(err == nil && len(fields) == 2, r == p2("00110011", fields))
  ensures three: imp(err == nil && len(fields) == 3, r == p3("00110011", fields, 44))
  ensures four: imp(err == nil && len(fields) == 4, r == p4("00110011", fields, 44))
func tdt.NewPrefixFilterSSCC96(fields) (r, err)
  ensures bits: imp(err == nil, bin(r) && len(r) > 0)
  ensures refused: imp(err != nil, r == "")
  ensures err: (err == nil) == (1 <= len(fields) && len(fields) <= 3 && pok(fields, 58 - cpb(len(fields[1]))))
  ensures one: imp(err == nil && len(fields) == 1, r == p1("00110001", fields))
  ensures two: imp(err == nil && len(fields) == 2, r == p2("00110001", fields))
  ensures three: imp(err == nil && len(fields) == 3, r == p3("00110001", fields, 58))
func tdt.NewPrefixFilterGIAI96(fields) (r, err)
  ensures bits: imp(err == nil, bin(r) && len(r) > 0)
  ensures refused: imp(err != nil, r == "")
  ensures err: (err == nil) == (1 <= len(fields) && len(fields) <= 3 && pok(fields, 63))
  ensures one: imp(err == nil && len(fields) == 1, r == p1("00110100", fields))
  ensures two: imp(err == nil && len(fields) == 2, r == p2("00110100", fields))
  ensures three: imp(err == nil && len(fields) == 3, r == p3("00110100", fields, 82))
func binutil.ParseDecimalStringToBinRuneSlice(s) (r)
  ensures val: imp(isfield(s, 63), r == runes(binstr(decval(s))))
func tdt.getFilter(fv) (r)
  requires: isfield(fv, 3)
  loop: ?o:[]rune == runes(rep('0', len(?o)))
  loop: ?a:[]rune == runes(field(decval(fv), len(?a))) && len(?a) >= len(binstr(decval(fv))) && len(?a) <= 3
  ensures val: r == runes(fld(fv, 3))
func tdt.getSerial(s, serialLength) (r)
  requires: 1 <= serialLength && serialLength <= 63 && isfield(s, serialLength)
  loop: ?o:[]rune == runes(rep('0', len(?o)))
  loop: ?a:[]rune == runes(field(decval(s), len(?a))) && len(?a) >= len(binstr(decval(s))) && len(?a) <= serialLength
  ensures val: r == runes(fld(s, serialLength))
func tdt.getItemReference(ir, pr) (r)
  requires: has(pr, 2) && 1 <= pr[2] && pr[2] <= 63 && isfield(ir, pr[2])
  loop: ?o:[]rune == runes(rep('0', len(?o)))
  loop: ?a:[]rune == runes(field(decval(ir), len(?a))) && len(?a) >= len(binstr(decval(ir))) && len(?a) <= pr[2]
  ensures val: r == runes(fld(ir, pr[2]))
func tdt.getAssetType(at, pr) (r)
  requires: has(pr, 6) && 1 <= pr[6] && pr[6] <= 63 && isfield(at, pr[6])
  loop: ?o:[]rune == runes(rep('0', len(?o)))
  loop: ?a:[]rune == runes(field(decval(at), len(?a))) && len(?a) >= len(binstr(decval(at))) && len(?a) <= pr[6]
  ensures val: r == runes(fld(at, pr[6]))
func tdt.getExtension(e, pr) (r)
  requires: has(pr, 4) && 1 <= pr[4] && pr[4] <= 63 && isfield(e, pr[4])
  loop: ?o:[]rune == runes(rep('0', len(?o)))
  loop: ?a:[]rune == runes(field(decval(e), len(?a))) && len(?a) >= len(binstr(decval(e))) && len(?a) <= pr[4]
  ensures val: r == runes(fld(e, pr[4]))
func tdt.getIndivisualAssetReference(iar, pr) (r)
  requires: has(pr, 8) && 1 <= pr[8] && pr[8] <= 63 && isfield(iar, 63)
  loop: ?o:[]rune == runes(rep('0', len(?o)))
  loop: ?a:[]rune == runes(field(decval(iar), len(?a))) && len(?a) >= len(binstr(decval(iar))) && len(?a) <= pr[8]
  ensures val: r == runes(fld(iar, pr[8]))
func tdt.getCompanyPrefix(cp, pt) (r)
  requires: has(pt, len(cp)) && has(pt[len(cp)], 1) && 1 <= pt[len(cp)][1] && pt[len(cp)][1] <= 63 && isfield(cp, pt[len(cp)][1])
  loop: ?o:[]rune == runes(rep('0', len(?o)))
  loop: ?a:[]rune == runes(field(decval(cp), len(?a))) && len(?a) >= len(binstr(decval(cp))) && len(?a) <= pt[len(cp)][1]
  ensures val: r == runes(fld(cp, pt[len(cp)][1]))
func tdt.checkFields(fields, pt, reference) (err)
  requires: imp(len(fields) >= 2 && has(pt, len(fields[1])), has(pt[len(fields[1])], 1) && 1 <= pt[len(fields[1])][1] && pt[len(fields[1])][1] <= 63)
  requires: imp(len(fields) >= 2 && has(pt, len(fields[1])) && reference != 8, has(pt[len(fields[1])], reference) && 1 <= pt[len(fields[1])][reference] && pt[len(fields[1])][reference] <= 63)
  ensures err: (err == nil) == (imp(len(fields) >= 1, isfield(fields[0], 3)) && imp(len(fields) >= 2, has(pt, len(fields[1])) && isfield(fields[1], pt[len(fields[1])][1])) && imp(len(fields) >= 3, isfield(fields[2], ite(reference == 8, 63, pt[len(fields[1])][reference]))) && imp(len(fields) >= 4, isfield(fields[3], 38)))
