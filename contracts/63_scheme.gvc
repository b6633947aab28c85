pkg scheme

macro isbit(c rune) bool = c == 48 || c == 49
macro rbits(r []rune, n int) bool = len(r) == n && forall(i, imp(0 <= i && i < len(r), r[i] == 48 || r[i] == 49), trig(r[i]))
macro optf(s string, w int) bool = s == "" || isfield(s, w)
func scheme.GetFilter(fv) (r)
  requires: optf(fv, 3)
  loop: ?o:[]rune == runes(rep('0', len(?o)))
  loop: ?a:[]rune == runes(field(decval(fv), len(?a))) && len(?a) >= len(binstr(decval(fv))) && len(?a) <= 3
  ensures val: imp(fv != "", r == runes(fld(fv, 3)))
  ensures rnd: imp(fv == "", rbits(r, 3))
func scheme.GetSerial(s, serialLength) (r)
  requires: 1 <= serialLength && serialLength <= 52 && optf(s, serialLength)
  loop: ?o:[]rune == runes(rep('0', len(?o)))
  loop: ?a:[]rune == runes(field(decval(s), len(?a))) && len(?a) >= len(binstr(decval(s))) && len(?a) <= serialLength
  ensures val: imp(s != "", r == runes(fld(s, serialLength)))
  ensures rnd: imp(s == "", rbits(r, serialLength))
func scheme.GetItemReference(ir, pr) (r)
  requires: has(pr, 2) && 1 <= pr[2] && pr[2] <= 63 && optf(ir, pr[2])
  loop: ?o:[]rune == runes(rep('0', len(?o)))
  loop: ?a:[]rune == runes(field(decval(ir), len(?a))) && len(?a) >= len(binstr(decval(ir))) && len(?a) <= pr[2]
  ensures val: imp(ir != "", r == runes(fld(ir, pr[2])))
  ensures rnd: imp(ir == "", rbits(r, pr[2]))
func scheme.GetAssetType(at, pr) (r)
  requires: has(pr, 6) && 1 <= pr[6] && pr[6] <= 63 && optf(at, pr[6])
  loop: ?o:[]rune == runes(rep('0', len(?o)))
  loop: ?a:[]rune == runes(field(decval(at), len(?a))) && len(?a) >= len(binstr(decval(at))) && len(?a) <= pr[6]
  ensures val: imp(at != "", r == runes(fld(at, pr[6])))
  ensures rnd: imp(at == "", rbits(r, pr[6]))
func scheme.GetExtension(e, pr) (r)
  requires: has(pr, 4) && 1 <= pr[4] && pr[4] <= 63 && optf(e, pr[4])
  loop: ?o:[]rune == runes(rep('0', len(?o)))
  loop: ?a:[]rune == runes(field(decval(e), len(?a))) && len(?a) >= len(binstr(decval(e))) && len(?a) <= pr[4]
  ensures val: imp(e != "", r == runes(fld(e, pr[4])))
  ensures rnd: imp(e == "", rbits(r, pr[4]))
func scheme.GetIndivisualAssetReference(iar, pr) (r)
  requires: has(pr, 8) && 1 <= pr[8] && pr[8] <= 63 && optf(iar, pr[8])
  loop: ?o:[]rune == runes(rep('0', len(?o)))
  loop: ?a:[]rune == runes(field(decval(iar), len(?a))) && len(?a) >= len(binstr(decval(iar))) && len(?a) <= pr[8]
  ensures val: imp(iar != "", r == runes(fld(iar, pr[8])))
  ensures rnd: imp(iar == "", rbits(r, pr[8]))
func scheme.GetCompanyPrefix(cp, pt) (r)
  requires: has(pt, len(cp)) && has(pt[len(cp)], 1) && 1 <= pt[len(cp)][1] && pt[len(cp)][1] <= 63 && isfield(cp, pt[len(cp)][1])
  loop: ?o:[]rune == runes(rep('0', len(?o)))
  loop: ?a:[]rune == runes(field(decval(cp), len(?a))) && len(?a) >= len(binstr(decval(cp))) && len(?a) <= pt[len(cp)][1]
  ensures val: r == runes(fld(cp, pt[len(cp)][1]))
func scheme.checkFields(pt, reference, fields) (err)
  requires: 3 <= len(fields) && len(fields) <= 4
  requires: imp(fields[1] != "" && has(pt, len(fields[1])), has(pt[len(fields[1])], 1) && 1 <= pt[len(fields[1])][1] && pt[len(fields[1])][1] <= 63 && has(pt[len(fields[1])], reference) && 1 <= pt[len(fields[1])][reference] && pt[len(fields[1])][reference] <= 63)
  loop: imp(?i:int > 0, optf(fields[0], 3))
  loop: imp(?i:int > 1 && fields[1] != "", isfield(fields[1], pt[len(fields[1])][1]))
  loop: imp(?i:int > 2 && fields[1] != "", optf(fields[2], pt[len(fields[1])][reference]))
  loop: imp(?i:int > 3, optf(fields[3], 38))
  ensures err: (err == nil) == (optf(fields[0], 3) && imp(fields[1] != "", has(pt, len(fields[1])) && isfield(fields[1], pt[len(fields[1])][1]) && optf(fields[2], pt[len(fields[1])][reference])) && imp(len(fields) == 4, optf(fields[3], 38)))

// the ID's bits
lemma idshift0(p []byte, k int)
  requires: 0 <= k && k < 8 + 8 * len(p)
  trig: idbit("0" + p, k)
  ensures: imp(k < 8, idbit("0" + p, k) == bit8(48, k)) && imp(k >= 8, idbit("0" + p, k) == idbit(p, k - 8))
lemma idhead0(p []byte, k int)
  requires: 0 <= k && k < 8
  trig: idbit("0" + p, k)
  cases: k == 0; k == 1; k == 2; k == 3; k == 4; k == 5; k == 6
  ensures: idbit("0" + p, k) == (runes("00110000")[k] == 49)
lemma idshift1(p []byte, k int)
  requires: 0 <= k && k < 8 + 8 * len(p)
  trig: idbit("1" + p, k)
  ensures: imp(k < 8, idbit("1" + p, k) == bit8(49, k)) && imp(k >= 8, idbit("1" + p, k) == idbit(p, k - 8))
lemma idhead1(p []byte, k int)
  requires: 0 <= k && k < 8
  trig: idbit("1" + p, k)
  cases: k == 0; k == 1; k == 2; k == 3; k == 4; k == 5; k == 6
  ensures: idbit("1" + p, k) == (runes("00110001")[k] == 49)
lemma idshift3(p []byte, k int)
  requires: 0 <= k && k < 8 + 8 * len(p)
  trig: idbit("3" + p, k)
  ensures: imp(k < 8, idbit("3" + p, k) == bit8(51, k)) && imp(k >= 8, idbit("3" + p, k) == idbit(p, k - 8))
lemma idhead3(p []byte, k int)
  requires: 0 <= k && k < 8
  trig: idbit("3" + p, k)
  cases: k == 0; k == 1; k == 2; k == 3; k == 4; k == 5; k == 6
  ensures: idbit("3" + p, k) == (runes("00110011")[k] == 49)
lemma idshift4(p []byte, k int)
  requires: 0 <= k && k < 8 + 8 * len(p)
  trig: idbit("4" + p, k)
  ensures: imp(k < 8, idbit("4" + p, k) == bit8(52, k)) && imp(k >= 8, idbit("4" + p, k) == idbit(p, k - 8))
lemma idhead4(p []byte, k int)
  requires: 0 <= k && k < 8
  trig: idbit("4" + p, k)
  cases: k == 0; k == 1; k == 2; k == 3; k == 4; k == 5; k == 6
  ensures: idbit("4" + p, k) == (runes("00110100")[k] == 49)
// r stands in the ID from bit o on
macro carries(id []byte, o int, r []rune) bool = forall(k, imp(o <= k && k < o + len(r), idbit(id, k) == (r[k - o] == 49)), trig(idbit(id, k)))
macro laycp(id []byte, cp string) bool = carries(id, 11, ite(len(cp) == 12, runes("000"), ite(len(cp) == 11, runes("001"), ite(len(cp) == 10, runes("010"), ite(len(cp) == 9, runes("011"), ite(len(cp) == 8, runes("100"), ite(len(cp) == 7, runes("101"), runes("110")))))))) && carries(id, 14, runes(fld(cp, cpb(len(cp)))))
macro layref(id []byte, cp string, x string, t int) bool = carries(id, 14 + cpb(len(cp)), runes(fld(x, t - cpb(len(cp)))))
macro layser(id []byte, x string) bool = carries(id, 58, runes(fld(x, 38)))
func scheme.MakeSGTIN96(pf, fv, cp, ir, ser) (id, s, el, err)
  hide: idbit bit8
  opt: fold=1
  ensures err: (err == nil) == (optf(fv, 3) && imp(cp == "", pf) && imp(cp != "", 6 <= len(cp) && len(cp) <= 12 && isfield(cp, cpb(len(cp))) && optf(ir, 44 - cpb(len(cp)))) && optf(ser, 38))
  ensures refused: imp(err != nil || pf, len(id) == 0) && imp(err != nil || !pf, s == "" && el == "")
  ensures header: imp(err == nil && !pf, len(id) == 12 && id[0] == 48)
  ensures headbits: imp(err == nil && !pf, carries(id, 0, runes("00110000")))
  split: fv != ""
  split: ir != ""
  split: ser != ""
  ensures filter: imp(err == nil && !pf && fv != "", carries(id, 8, runes(fld(fv, 3))))
  ensures company: imp(err == nil && !pf, laycp(id, cp))
  ensures reference: imp(err == nil && !pf && ir != "", layref(id, cp, ir, 44))
  ensures serial: imp(err == nil && !pf && ser != "", layser(id, ser))
  ensures one: imp(err == nil && pf && fv != "" && cp == "", s == "00110000" + fld(fv, 3) && el == "urn:epc:pat:sgtin-96:" + fv)
  ensures two: imp(err == nil && pf && fv != "" && cp != "" && ir == "", s == "00110000" + fld(fv, 3) + part(cp) + fld(cp, cpb(len(cp))) && el == "urn:epc:pat:sgtin-96:" + fv + "." + cp)
  ensures three: imp(err == nil && pf && fv != "" && cp != "" && ir != "" && ser == "", s == "00110000" + fld(fv, 3) + part(cp) + fld(cp, cpb(len(cp))) + fld(ir, 44 - cpb(len(cp))) && el == "urn:epc:pat:sgtin-96:" + fv + "." + cp + "." + ir)
  ensures four: imp(err == nil && pf && fv != "" && cp != "" && ir != "" && ser != "", s == "00110000" + fld(fv, 3) + part(cp) + fld(cp, cpb(len(cp))) + fld(ir, 44 - cpb(len(cp))) + fld(ser, 38) && el == "urn:epc:pat:sgtin-96:" + fv + "." + cp + "." + ir + "." + ser)
func scheme.MakeGRAI96(pf, fv, cp, at, ser) (id, s, el, err)
  hide: idbit bit8
  opt: fold=1
  ensures err: (err == nil) == (optf(fv, 3) && imp(cp == "", pf) && imp(cp != "", 6 <= len(cp) && len(cp) <= 12 && isfield(cp, cpb(len(cp))) && optf(at, 44 - cpb(len(cp)))) && optf(ser, 38))
  ensures refused: imp(err != nil || pf, len(id) == 0) && imp(err != nil || !pf, s == "" && el == "")
  ensures header: imp(err == nil && !pf, len(id) == 12 && id[0] == 51)
  ensures headbits: imp(err == nil && !pf, carries(id, 0, runes("00110011")))
  split: fv != ""
  split: at != ""
  split: ser != ""
  ensures filter: imp(err == nil && !pf && fv != "", carries(id, 8, runes(fld(fv, 3))))
  ensures company: imp(err == nil && !pf, laycp(id, cp))
  ensures reference: imp(err == nil && !pf && at != "", layref(id, cp, at, 44))
  ensures serial: imp(err == nil && !pf && ser != "", layser(id, ser))
  ensures one: imp(err == nil && pf && fv != "" && cp == "", s == "00110011" + fld(fv, 3) && el == "urn:epc:pat:grai-96:" + fv)
  ensures two: imp(err == nil && pf && fv != "" && cp != "" && at == "", s == "00110011" + fld(fv, 3) + part(cp) + fld(cp, cpb(len(cp))) && el == "urn:epc:pat:grai-96:" + fv + "." + cp)
  ensures three: imp(err == nil && pf && fv != "" && cp != "" && at != "" && ser == "", s == "00110011" + fld(fv, 3) + part(cp) + fld(cp, cpb(len(cp))) + fld(at, 44 - cpb(len(cp))) && el == "urn:epc:pat:grai-96:" + fv + "." + cp + "." + at)
  ensures four: imp(err == nil && pf && fv != "" && cp != "" && at != "" && ser != "", s == "00110011" + fld(fv, 3) + part(cp) + fld(cp, cpb(len(cp))) + fld(at, 44 - cpb(len(cp))) + fld(ser, 38) && el == "urn:epc:pat:grai-96:" + fv + "." + cp + "." + at + "." + ser)
func scheme.MakeSSCC96(pf, fv, cp, ext) (id, s, el, err)
  hide: idbit bit8
  opt: fold=1
  ensures err: (err == nil) == (optf(fv, 3) && imp(cp == "", pf) && imp(cp != "", 6 <= len(cp) && len(cp) <= 12 && isfield(cp, cpb(len(cp))) && optf(ext, 58 - cpb(len(cp)))))
  ensures refused: imp(err != nil || pf, len(id) == 0) && imp(err != nil || !pf, s == "" && el == "")
  ensures header: imp(err == nil && !pf, len(id) == 12 && id[0] == 49)
  ensures headbits: imp(err == nil && !pf, carries(id, 0, runes("00110001")))
  split: fv != ""
  split: ext != ""
  ensures filter: imp(err == nil && !pf && fv != "", carries(id, 8, runes(fld(fv, 3))))
  ensures company: imp(err == nil && !pf, laycp(id, cp))
  ensures reference: imp(err == nil && !pf && ext != "", layref(id, cp, ext, 58))
  ensures reserved: imp(err == nil && !pf, carries(id, 72, runes("000000000000000000000000")))
  ensures one: imp(err == nil && pf && fv != "" && cp == "", s == "00110001" + fld(fv, 3) && el == "urn:epc:pat:sscc-96:" + fv)
  ensures two: imp(err == nil && pf && fv != "" && cp != "" && ext == "", s == "00110001" + fld(fv, 3) + part(cp) + fld(cp, cpb(len(cp))) && el == "urn:epc:pat:sscc-96:" + fv + "." + cp)
  ensures three: imp(err == nil && pf && fv != "" && cp != "" && ext != "", s == "00110001" + fld(fv, 3) + part(cp) + fld(cp, cpb(len(cp))) + fld(ext, 58 - cpb(len(cp))) && el == "urn:epc:pat:sscc-96:" + fv + "." + cp + "." + ext)
func scheme.MakeGIAI96(pf, fv, cp, iar) (id, s, el, err)
  hide: idbit bit8
  opt: fold=1
  ensures err: (err == nil) == (optf(fv, 3) && imp(cp == "", pf) && imp(cp != "", 6 <= len(cp) && len(cp) <= 12 && isfield(cp, cpb(len(cp))) && optf(iar, 82 - cpb(len(cp)))))
  ensures refused: imp(err != nil || pf, len(id) == 0) && imp(err != nil || !pf, s == "" && el == "")
  ensures header: imp(err == nil && !pf, len(id) == 12 && id[0] == 52)
  ensures headbits: imp(err == nil && !pf, carries(id, 0, runes("00110100")))
  split: fv != ""
  split: iar != ""
  ensures filter: imp(err == nil && !pf && fv != "", carries(id, 8, runes(fld(fv, 3))))
  ensures company: imp(err == nil && !pf, laycp(id, cp))
  ensures reference: imp(err == nil && !pf && iar != "", layref(id, cp, iar, 82))
  ensures one: imp(err == nil && pf && fv != "" && cp == "", s == "00110100" + fld(fv, 3) && el == "urn:epc:pat:giai-96:" + fv)
  ensures two: imp(err == nil && pf && fv != "" && cp != "" && iar == "", s == "00110100" + fld(fv, 3) + part(cp) + fld(cp, cpb(len(cp))) && el == "urn:epc:pat:giai-96:" + fv + "." + cp)
  ensures three: imp(err == nil && pf && fv != "" && cp != "" && iar != "", s == "00110100" + fld(fv, 3) + part(cp) + fld(cp, cpb(len(cp))) + fld(iar, 82 - cpb(len(cp))) && el == "urn:epc:pat:giai-96:" + fv + "." + cp + "." + iar)
