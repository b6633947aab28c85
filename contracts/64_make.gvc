pkg scheme

// r stands in the bit string s from o on
macro scarries(s string, o int, r []rune) bool = forall(k, imp(o <= k && k < o + len(r), (s[k] == 49) == (r[k - o] == 49)), trig(s[k]))

// hex and back to bits
uninterp hexs(b []byte) string
uninterp hexbin(s string) string
external hex.EncodeToString(b) (r)
  ensures hex: r == hexs(b)
trusted binutil.ParseHexStringToBinString(s) (r, err)
  ensures bits: r == hexbin(s)
axiom hexbin_len(b []byte)
  trig: hexbin(hexs(b))
  ensures: len(hexbin(hexs(b))) == 8 * len(b)
axiom hexbin_bit(b []byte, k int)
  requires: 0 <= k && k < 8 * len(b)
  trig: hexbin(hexs(b))[k]
  ensures: (hexbin(hexs(b))[k] == 49) == idbit(b, k) && (hexbin(hexs(b))[k] == 48 || hexbin(hexs(b))[k] == 49)

lemma cpb_range(n int)
  trig: cpb(n)
  ensures: 20 <= cpb(n) && cpb(n) <= 40
func scheme.MakeEPC(pf, cs, fv, cp, ir, ext, ser, iar, at) (s, o)
  hide: idbit bit8 cpb pow2
  ensures pc: imp(!pf, o == hexs(unit(byte(48)) + unit(byte(0))))
  ensures length: imp(!pf, len(s) == 0 || len(s) == 96 && bin(s))
  ensures sgtinrefused: imp(upper(cs) == "SGTIN-96" && !pf, (len(s) == 96) == (optf(fv, 3) && imp(cp == "", pf) && imp(cp != "", 6 <= len(cp) && len(cp) <= 12 && isfield(cp, cpb(len(cp))) && optf(ir, 44 - cpb(len(cp)))) && optf(ser, 38)))
  ensures sgtinheader: imp(upper(cs) == "SGTIN-96" && !pf && len(s) == 96, scarries(s, 0, runes("00110000")))
  ensures sgtinfilter: imp(upper(cs) == "SGTIN-96" && !pf && len(s) == 96 && fv != "", scarries(s, 8, runes(fld(fv, 3))))
  ensures sgtincompany: imp(upper(cs) == "SGTIN-96" && !pf && len(s) == 96, scarries(s, 11, ite(len(cp) == 12, runes("000"), ite(len(cp) == 11, runes("001"), ite(len(cp) == 10, runes("010"), ite(len(cp) == 9, runes("011"), ite(len(cp) == 8, runes("100"), ite(len(cp) == 7, runes("101"), runes("110")))))))) && scarries(s, 14, runes(fld(cp, cpb(len(cp))))))
  ensures sgtinreference: imp(upper(cs) == "SGTIN-96" && !pf && len(s) == 96 && ir != "", scarries(s, 14 + cpb(len(cp)), runes(fld(ir, 44 - cpb(len(cp))))))
  ensures sgtinserial: imp(upper(cs) == "SGTIN-96" && !pf && len(s) == 96 && ser != "", scarries(s, 58, runes(fld(ser, 38))))
  ensures grairefused: imp(upper(cs) == "GRAI-96" && !pf, (len(s) == 96) == (optf(fv, 3) && imp(cp == "", pf) && imp(cp != "", 6 <= len(cp) && len(cp) <= 12 && isfield(cp, cpb(len(cp))) && optf(at, 44 - cpb(len(cp)))) && optf(ser, 38)))
  ensures graiheader: imp(upper(cs) == "GRAI-96" && !pf && len(s) == 96, scarries(s, 0, runes("00110011")))
  ensures graifilter: imp(upper(cs) == "GRAI-96" && !pf && len(s) == 96 && fv != "", scarries(s, 8, runes(fld(fv, 3))))
  ensures graicompany: imp(upper(cs) == "GRAI-96" && !pf && len(s) == 96, scarries(s, 11, ite(len(cp) == 12, runes("000"), ite(len(cp) == 11, runes("001"), ite(len(cp) == 10, runes("010"), ite(len(cp) == 9, runes("011"), ite(len(cp) == 8, runes("100"), ite(len(cp) == 7, runes("101"), runes("110")))))))) && scarries(s, 14, runes(fld(cp, cpb(len(cp))))))
  ensures graireference: imp(upper(cs) == "GRAI-96" && !pf && len(s) == 96 && at != "", scarries(s, 14 + cpb(len(cp)), runes(fld(at, 44 - cpb(len(cp))))))
  ensures graiserial: imp(upper(cs) == "GRAI-96" && !pf && len(s) == 96 && ser != "", scarries(s, 58, runes(fld(ser, 38))))
  ensures ssccrefused: imp(upper(cs) == "SSCC-96" && !pf, (len(s) == 96) == (optf(fv, 3) && imp(cp == "", pf) && imp(cp != "", 6 <= len(cp) && len(cp) <= 12 && isfield(cp, cpb(len(cp))) && optf(ext, 58 - cpb(len(cp))))))
  ensures ssccheader: imp(upper(cs) == "SSCC-96" && !pf && len(s) == 96, scarries(s, 0, runes("00110001")))
  ensures ssccfilter: imp(upper(cs) == "SSCC-96" && !pf && len(s) == 96 && fv != "", scarries(s, 8, runes(fld(fv, 3))))
  ensures sscccompany: imp(upper(cs) == "SSCC-96" && !pf && len(s) == 96, scarries(s, 11, ite(len(cp) == 12, runes("000"), ite(len(cp) == 11, runes("001"), ite(len(cp) == 10, runes("010"), ite(len(cp) == 9, runes("011"), ite(len(cp) == 8, runes("100"), ite(len(cp) == 7, runes("101"), runes("110")))))))) && scarries(s, 14, runes(fld(cp, cpb(len(cp))))))
  ensures ssccreference: imp(upper(cs) == "SSCC-96" && !pf && len(s) == 96 && ext != "", scarries(s, 14 + cpb(len(cp)), runes(fld(ext, 58 - cpb(len(cp))))))
  ensures ssccreserved: imp(upper(cs) == "SSCC-96" && !pf && len(s) == 96, scarries(s, 72, runes("000000000000000000000000")))
  ensures giairefused: imp(upper(cs) == "GIAI-96" && !pf, (len(s) == 96) == (optf(fv, 3) && imp(cp == "", pf) && imp(cp != "", 6 <= len(cp) && len(cp) <= 12 && isfield(cp, cpb(len(cp))) && optf(iar, 82 - cpb(len(cp))))))
  ensures giaiheader: imp(upper(cs) == "GIAI-96" && !pf && len(s) == 96, scarries(s, 0, runes("00110100")))
  ensures giaifilter: imp(upper(cs) == "GIAI-96" && !pf && len(s) == 96 && fv != "", scarries(s, 8, runes(fld(fv, 3))))
  ensures giaicompany: imp(upper(cs) == "GIAI-96" && !pf && len(s) == 96, scarries(s, 11, ite(len(cp) == 12, runes("000"), ite(len(cp) == 11, runes("001"), ite(len(cp) == 10, runes("010"), ite(len(cp) == 9, runes("011"), ite(len(cp) == 8, runes("100"), ite(len(cp) == 7, runes("101"), runes("110")))))))) && scarries(s, 14, runes(fld(cp, cpb(len(cp))))))
  ensures giaireference: imp(upper(cs) == "GIAI-96" && !pf && len(s) == 96 && iar != "", scarries(s, 14 + cpb(len(cp)), runes(fld(iar, 82 - cpb(len(cp))))))
  ensures unknown: imp(!(upper(cs) == "SGTIN-96" || upper(cs) == "GRAI-96" || upper(cs) == "SSCC-96" || upper(cs) == "GIAI-96"), s == "")

// the PC bits announce the number of 16-bit words, and that an AFI follows
func scheme.MakeISOPC(length, afi) (r)
  requires: 0 <= length && length < 512
  usepre: binstr_width(length / 16, 5)
  ensures len: len(r) == 2
  ensures words: forall(k, imp(0 <= k && k < 5, idbit(r, k) == (runes(field(length / 16, 5))[k] == 49)), trig(idbit(r, k)))
  ensures kind: !idbit(r, 5) && !idbit(r, 6) && idbit(r, 7)
  ensures afi: imp(afi == "A9", carries(r, 8, runes("10101001"))) && imp(afi == "A2", carries(r, 8, runes("10100010")))
