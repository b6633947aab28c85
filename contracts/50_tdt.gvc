pkg tdt

// decimal numeral of a number, with zeros in front up to n digits
macro padz(s string, n int) string = rep('0', n - len(s)) + s
macro partition(id string) bv8 = (id[1] & 28) >> 2
// the numeral of the w bits from bit o on has at most d digits
macro fits(id string, o int, w int, d int) bool = len(decstr(ubits(id, o, w))) <= d

macro epc2(r string, id string, urn string, p bv8, cpw int, cpd int, rw int, rd int) bool = imp(partition(id) == p, r == urn + padz(decstr(ubits(id, 14, cpw)), cpd) + "." + padz(decstr(ubits(id, 14 + cpw, rw)), rd))
macro epc3(r string, id string, urn string, p bv8, cpw int, cpd int, rw int, rd int) bool = imp(partition(id) == p, r == urn + padz(decstr(ubits(id, 14, cpw)), cpd) + "." + padz(decstr(ubits(id, 14 + cpw, rw)), rd) + "." + decstr(ubits(id, 58, 38)))
macro epcg(r string, id string, p bv8, cpw int, cpd int, rw int) bool = imp(partition(id) == p, r == "urn:epc:id:giai:" + padz(decstr(ubits(id, 14, cpw)), cpd) + "." + decstr(ubits(id, 14 + cpw, rw)))
macro fit2(id string, p bv8, cpw int, cpd int, rw int, rd int) bool = partition(id) == p && fits(id, 14, cpw, cpd) && fits(id, 14 + cpw, rw, rd)
macro fit1(id string, p bv8, cpw int, cpd int) bool = partition(id) == p && fits(id, 14, cpw, cpd)

macro issgtin(r string, id string) bool = imp(id[0] == 48, epc3(r, id, "urn:epc:id:sgtin:", 0, 40, 12, 4, 1) && epc3(r, id, "urn:epc:id:sgtin:", 1, 37, 11, 7, 2) && epc3(r, id, "urn:epc:id:sgtin:", 2, 34, 10, 10, 3) && epc3(r, id, "urn:epc:id:sgtin:", 3, 30, 9, 14, 4) && epc3(r, id, "urn:epc:id:sgtin:", 4, 27, 8, 17, 5) && epc3(r, id, "urn:epc:id:sgtin:", 5, 24, 7, 20, 6) && epc3(r, id, "urn:epc:id:sgtin:", 6, 20, 6, 24, 7))
macro issscc(r string, id string) bool = imp(id[0] == 49, epc2(r, id, "urn:epc:id:sscc:", 0, 40, 12, 18, 5) && epc2(r, id, "urn:epc:id:sscc:", 1, 37, 11, 21, 6) && epc2(r, id, "urn:epc:id:sscc:", 2, 34, 10, 24, 7) && epc2(r, id, "urn:epc:id:sscc:", 3, 30, 9, 28, 8) && epc2(r, id, "urn:epc:id:sscc:", 4, 27, 8, 31, 9) && epc2(r, id, "urn:epc:id:sscc:", 5, 24, 7, 34, 10) && epc2(r, id, "urn:epc:id:sscc:", 6, 20, 6, 38, 11))
macro isgrai(r string, id string) bool = imp(id[0] == 51, imp(partition(id) == 0, r == "urn:epc:id:grai:" + padz(decstr(ubits(id, 14, 40)), 12) + "." + decstr(ubits(id, 58, 38))) && epc3(r, id, "urn:epc:id:grai:", 1, 37, 11, 7, 1) && epc3(r, id, "urn:epc:id:grai:", 2, 34, 10, 10, 2) && epc3(r, id, "urn:epc:id:grai:", 3, 30, 9, 14, 3) && epc3(r, id, "urn:epc:id:grai:", 4, 27, 8, 17, 4) && epc3(r, id, "urn:epc:id:grai:", 5, 24, 7, 20, 5) && epc3(r, id, "urn:epc:id:grai:", 6, 20, 6, 24, 6))
macro isgiai(r string, id string) bool = imp(id[0] == 52, epcg(r, id, 0, 40, 12, 42) && epcg(r, id, 1, 37, 11, 45) && epcg(r, id, 2, 34, 10, 48) && epcg(r, id, 3, 30, 9, 52) && epcg(r, id, 4, 27, 8, 55) && epcg(r, id, 5, 24, 7, 58) && epcg(r, id, 6, 20, 6, 62))
macro epcok(id string) bool = len(id) == 12 && ( id[0] == 48 && (fit2(id, 0, 40, 12, 4, 1) || fit2(id, 1, 37, 11, 7, 2) || fit2(id, 2, 34, 10, 10, 3) || fit2(id, 3, 30, 9, 14, 4) || fit2(id, 4, 27, 8, 17, 5) || fit2(id, 5, 24, 7, 20, 6) || fit2(id, 6, 20, 6, 24, 7)) || id[0] == 49 && (fit2(id, 0, 40, 12, 18, 5) || fit2(id, 1, 37, 11, 21, 6) || fit2(id, 2, 34, 10, 24, 7) || fit2(id, 3, 30, 9, 28, 8) || fit2(id, 4, 27, 8, 31, 9) || fit2(id, 5, 24, 7, 34, 10) || fit2(id, 6, 20, 6, 38, 11)) || id[0] == 51 && (fit1(id, 0, 40, 12) || fit2(id, 1, 37, 11, 7, 1) || fit2(id, 2, 34, 10, 10, 2) || fit2(id, 3, 30, 9, 14, 3) || fit2(id, 4, 27, 8, 17, 4) || fit2(id, 5, 24, 7, 20, 5) || fit2(id, 6, 20, 6, 24, 6)) || id[0] == 52 && (fit1(id, 0, 40, 12) || fit1(id, 1, 37, 11) || fit1(id, 2, 34, 10) || fit1(id, 3, 30, 9) || fit1(id, 4, 27, 8) || fit1(id, 5, 24, 7) || fit1(id, 6, 20, 6)))

func tdt.(*Core).buildEPC(c, id) (r, err)
  ensures sgtin: imp(err == nil, issgtin(r, id))
  ensures sscc: imp(err == nil, issscc(r, id))
  ensures grai: imp(err == nil, isgrai(r, id))
  ensures giai: imp(err == nil, isgiai(r, id))
  ensures refused: imp(err != nil, r == "")
  ensures valid: (err == nil) == epcok(id)

// the six bits from bit o on, as a number
spec six(id string, o int) byte = ite(idbit(id, o), byte(32), byte(0)) | ite(idbit(id, o + 1), byte(16), byte(0)) | ite(idbit(id, o + 2), byte(8), byte(0)) | ite(idbit(id, o + 3), byte(4), byte(0)) | ite(idbit(id, o + 4), byte(2), byte(0)) | ite(idbit(id, o + 5), byte(1), byte(0))
// their character: 32..63 stand for themselves, 0..31 for 64..95
spec sixchar(v byte) byte = ite(v >= 32, v, v + 64)
// the text of the groups of six bits before bit o; 100000 is padding
uninterp sixtext(id string, o int) string
axiom sixtext_0(id string, o int)
  requires: o <= 0
  trig: sixtext(id, o)
  ensures: sixtext(id, o) == ""
axiom sixtext_step(id string, o int, p int)
  requires: p > 0 && o == p - 6
  trig: sixtext(id, o), sixtext(id, p)
  ensures: sixtext(id, p) == sixtext(id, o) + ite(six(id, o) == 32, "", unit(sixchar(six(id, o))))

lemma six_0(id string, o int)
  requires: o >= 0 && o % 8 == 0
  trig: six(id, o)
  ensures: six(id, o) == id[o / 8] >> 2
lemma six_2(id string, o int)
  requires: o >= 0 && o % 8 == 2
  trig: six(id, o)
  ensures: six(id, o) == id[o / 8] & 63
lemma six_4(id string, o int)
  requires: o >= 0 && o % 8 == 4
  trig: six(id, o)
  ensures: six(id, o) == (id[o / 8] & 15) << 2 | id[o / 8 + 1] >> 6
lemma six_6(id string, o int)
  requires: o >= 0 && o % 8 == 6
  trig: six(id, o)
  ensures: six(id, o) == (id[o / 8] & 3) << 4 | id[o / 8 + 1] >> 4

lemma even6(id string, o int)
  requires: o >= 0 && o % 6 == 0
  trig: six(id, o)
  ensures: o % 8 == 0 || o % 8 == 2 || o % 8 == 4 || o % 8 == 6

lemma room6(id string, o int)
  requires: o >= 0 && o + 6 <= 8 * len(id)
  trig: sixtext(id, o)
  ensures: imp(o % 8 == 0 || o % 8 == 2, o / 8 + 1 <= len(id)) && imp(o % 8 == 4 || o % 8 == 6, o / 8 + 2 <= len(id))
lemma last6(id string, o int)
  requires: o >= 0 && o % 6 == 0 && o <= 8 * len(id) && 8 * len(id) < o + 6
  trig: sixtext(id, o)
  ensures: o == 8 * len(id) / 6 * 6

func tdt.parse6BitEncodedByteSliceToString(in) (r, err)
  hide: six
  loop: ?o:int % 6 == 0
  loop: ?b:string == sixtext(in, ?o:int)
  loop: 6 * ?n:int <= 8 * len(in)
  loop: ?b:string == sixtext(in, 6 * ?n:int)
  ensures text: err == nil && r == sixtext(in, 8 * len(in) / 6 * 6)

macro iso(a byte) string = ite(a == 161, "17367:", ite(a == 162, "17365:", ite(a == 163, "17364:", ite(a == 164, "17367h:", ite(a == 165, "17366:", ite(a == 166, "17366h:", ite(a == 167, "17365h:", ite(a == 168, "17364h:", ite(a == 169, "17363:", "17363h:")))))))))

func tdt.(*Core).buildUII(c, id, afi) (r, err)
  ensures valid: (err == nil) == (161 <= afi && afi <= 170)
  ensures refused: imp(err != nil, r == "")
  ensures text: imp(err == nil, r == "urn:epc:id:iso" + iso(afi) + sixtext(id, 8 * len(id) / 6 * 6))

// what Translate accepts
spec tvalid(pc []byte, id []byte) bool = len(pc) == 2 && ite(pc[0] & 1 == 0, epcok(id), 161 <= pc[1] && pc[1] <= 170)
func tdt.(*Core).Translate(c, pc, id) (r, err)
  ensures refused: imp(err != nil, r == "")
  ensures valid: (err == nil) == tvalid(pc, id)
  ensures sgtin: imp(err == nil && pc[0] & 1 == 0, issgtin(r, id))
  ensures sscc: imp(err == nil && pc[0] & 1 == 0, issscc(r, id))
  ensures grai: imp(err == nil && pc[0] & 1 == 0, isgrai(r, id))
  ensures giai: imp(err == nil && pc[0] & 1 == 0, isgiai(r, id))
  ensures iso: imp(err == nil && pc[0] & 1 == 1, r == "urn:epc:id:iso" + iso(pc[1]) + sixtext(id, 8 * len(id) / 6 * 6))

// ISO 6346: 0-9 stand for themselves, A to Z for 10 to 38 without the multiples of 11
spec isoval(c byte) int = ite(48 <= c && c <= 57, int(c) - 48, ite(c == 65, 10, ite(66 <= c && c <= 75, int(c) - 54, ite(76 <= c && c <= 85, int(c) - 53, int(c) - 52))))
spec isochar(c byte) bool = 48 <= c && c <= 57 || 65 <= c && c <= 90
macro isosum(cn string) int = isoval(cn[0]) + 2 * isoval(cn[1]) + 4 * isoval(cn[2]) + 8 * isoval(cn[3]) + 16 * isoval(cn[4]) + 32 * isoval(cn[5]) + 64 * isoval(cn[6]) + 128 * isoval(cn[7]) + 256 * isoval(cn[8]) + 512 * isoval(cn[9])
macro isoall(cn string) bool = isochar(cn[0]) && isochar(cn[1]) && isochar(cn[2]) && isochar(cn[3]) && isochar(cn[4]) && isochar(cn[5]) && isochar(cn[6]) && isochar(cn[7]) && isochar(cn[8]) && isochar(cn[9])

// strings.Index of a one-byte string in the code's table, character by character
uninterp strindex(h string, n string) int
external strings.Index(h, n) (r)
  ensures index: r == strindex(h, n) && r >= -1 && r < len(h) + 1
macro isotable() string = "0123456789A?BCDEFGHIJK?LMNOPQRSTU?VWXYZ"
axiom isotable_index(c byte)
  trig: strindex(isotable(), unit(c))
  ensures: strindex(isotable(), unit(c)) == litindex(isotable(), unit(c))
axiom isotable_high(c byte)
  trig: strindex(isotable(), bytestr(c))
  ensures: imp(c >= 128, strindex(isotable(), bytestr(c)) == -1)
lemma isotable_value(c byte)
  requires: isochar(c)
  trig: strindex(isotable(), bytestr(c))
  ensures: strindex(isotable(), bytestr(c)) == isoval(c) && isoval(c) >= 0 && c != 63
lemma isotable_none(c byte)
  requires: !isochar(c)
  trig: strindex(isotable(), bytestr(c))
  ensures: strindex(isotable(), bytestr(c)) == -1 || c == 63

func tdt.getISO6346CD(cn) (r, err)
  hide: isotable_index isotable_high bytestr_def isoval isochar
  ensures valid: (err == nil) == (len(cn) == 10 && isoall(cn))
  ensures sum: imp(err == nil, r == isosum(cn) % 11 % 10)

uninterp upper(s string) string
spec upperc(c byte) byte = ite(97 <= c && c <= 122, c - 32, c)
external strings.ToUpper(s) (r)
  ensures upper: r == upper(s)
axiom upper_ascii(s string)
  trig: upper(s)
  ensures: imp(ascii(s), len(upper(s)) == len(s))
axiom upper_at(s string, i int)
  trig: upper(s)[i]
  ensures: imp(ascii(s) && 0 <= i && i < len(s), upper(s)[i] == upperc(s[i]))

func scheme.GetISO6346CD(cn) (r, err)
  hide: isotable_index isotable_high bytestr_def isoval isochar
  ensures valid: (err == nil) == (len(upper(cn)) == 10 && isoall(upper(cn)))
  ensures sum: imp(err == nil, r == isosum(upper(cn)) % 11 % 10)

// strings.Index and its relatives where the string is ASCII
external strings.IndexByte(h, c) (r)
  ensures index: imp(ascii(h), r == strindex(h, bytestr(c))) && r >= -1 && r < len(h) + 1
external strings.Contains(h, n) (r)
  ensures contains: r == (strindex(h, n) >= 0)
external strings.ReplaceAll(s, a, b) (r)
  ensures replace: r == strreplace(s, a, b, -1)
