pkg scheme

macro optsix(s string) bool = s == "" || six6ok(s)
// binutil's random texts
macro rtext(r string, n int) bool = len(r) == n && forall(i, imp(0 <= i && i < n, 48 <= r[i] && r[i] <= 57 || 65 <= r[i] && r[i] <= 90), trig(r[i]))
trusted binutil.GenerateNLengthAlphabetString(n) (r)
  ensures text: rtext(r, n)
trusted binutil.GenerateNLengthDigitString(n) (r)
  ensures text: rtext(r, n)
trusted binutil.GenerateNLengthHexString(n) (r)
  ensures text: rtext(r, n)

// zeros and ones up to the next multiple of 16 bits: the 6-bit code of a space, cut off
func scheme.Pad6BitEncodingRuneSlice(bs) (r, n)
  requires: forall(i, imp(0 <= i && i < len(bs), bs[i] == 48 || bs[i] == 49), trig(bs[i]))
  loop: ?i:int <= 16 - len(bs) % 16
  loop: len(?p:[]rune) == ?i:int && forall(k, imp(0 <= k && k < len(?p), ?p[k] == ite(k % 6 == 0, 49, 48)), trig(?p[k]))
  loop: ?i:int <= (16 - len(bs) % 16) % 16
  loop: len(?q:[]rune) == len(bs) + ?i:int && pre(bs, ?q) && forall(k, imp(len(bs) <= k && k < len(?q), ?q[k] == ite((k - len(bs)) % 6 == 0, 49, 48)), trig(?q[k]))
  ensures len: n == len(r) && n % 16 == 0 && len(bs) <= n && n < len(bs) + 16
  ensures text: pre(bs, r)
  ensures pad: forall(k, imp(len(bs) <= k && k < n, r[k] == ite((k - len(bs)) % 6 == 0, 49, 48)), trig(r[k]))

lemma upper_six(s string)
  requires: forall(i, imp(0 <= i && i < len(s), 32 <= s[i] && s[i] <= 95), trig(s[i]))
  trig: upper(s)
  ensures: upper(s) == s
macro isoid(id []byte, n int, text string) bool = len(id) * 8 == n && n % 16 == 0 && len(text) <= n && n < len(text) + 16 && carries(id, 0, runes(text)) && forall(k, imp(len(text) <= k && k < n, idbit(id, k) == ((k - len(text)) % 6 == 0)), trig(idbit(id, k)))
macro contnum(oc string, ei string, csn string) string = oc + ei + csn6(csn)
macro contvalid(oc string, ei string, csn string) bool = len(csn) <= 6 && len(contnum(oc, ei, csn)) == 10 && isoall(contnum(oc, ei, csn))
macro conttext(oc string, ei string, csn string) string = sx("7B") + sx(oc) + sx(ei) + sx(csn6(csn) + itoa(isosum(contnum(oc, ei, csn)) % 11 % 10))
func scheme.MakeISO17363(pf, oc, ei, csn) (id, n, s, el, err)
  requires: optsix(oc) && optsix(ei) && optsix(csn)
  hide: six6_step isoval isochar idbit
  split: oc != ""
  split: ei != ""
  split: csn != ""
  ensures pferr: imp(pf && (oc == "" || ei == "" || csn == ""), err == nil)
  ensures err: imp(oc != "" && ei != "" && csn != "" && len(csn) <= 6, upper(contnum(oc, ei, csn)) == contnum(oc, ei, csn)) && imp(oc != "" && ei != "" && csn != "", (err == nil) == contvalid(oc, ei, csn))
  ensures long: imp(err == nil && !pf, len(csn) <= 6)
  ensures refused: imp(err != nil || pf, len(id) == 0 && n == 0) && imp(err != nil || !pf, s == "" && el == "")
  ensures words: imp(!pf, 8 * len(id) == n && n % 16 == 0) && 0 <= n && n < 512
  ensures id: imp(err == nil && !pf && oc != "" && ei != "" && csn != "", upper(contnum(oc, ei, csn)) == contnum(oc, ei, csn)) && imp(err == nil && !pf && oc != "" && ei != "" && csn != "", isoid(id, n, conttext(oc, ei, csn)))
  ensures one: imp(pf && oc == "", s == sx("7B") && el == "urn:epc:pat:iso17363:7B")
  ensures two: imp(pf && oc != "" && ei == "", s == sx("7B") + sx(oc) && el == "urn:epc:pat:iso17363:7B." + oc)
  ensures three: imp(pf && oc != "" && ei != "" && csn == "", s == sx("7B") + sx(oc) + sx(ei) && el == "urn:epc:pat:iso17363:7B." + oc + "." + ei)
  ensures four: imp(pf && err == nil && oc != "" && ei != "" && csn != "", upper(contnum(oc, ei, csn)) == contnum(oc, ei, csn)) && imp(pf && err == nil && oc != "" && ei != "" && csn != "", s == conttext(oc, ei, csn) && el == "urn:epc:pat:iso17363:7B." + oc + "." + ei + "." + csn6(csn))
func scheme.MakeISO17365(pf, di, iac, cin, sn) (id, n, s, el, err)
  requires: optsix(di) && optsix(iac) && optsix(cin) && optsix(sn)
  hide: six6_step idbit
  split: iac != ""
  split: cin != ""
  split: sn != ""
  ensures err: imp(pf || iac == "" || cin == "" || sn != "", (err == nil) == (pf || iac != "" && cin != "" && 6 * (len(di) + len(iac) + len(cin) + len(sn)) <= 496))
  ensures refused: imp(err != nil || pf, len(id) == 0 && n == 0) && imp(err != nil || !pf, s == "" && el == "")
  ensures words: imp(!pf, 8 * len(id) == n && n % 16 == 0) && 0 <= n && n < 512
  ensures id: imp(err == nil && !pf && sn != "", isoid(id, n, sx(di) + sx(iac) + sx(cin) + sx(sn)))
  ensures one: imp(pf && iac == "", s == sx(di) && el == "urn:epc:pat:iso17365:" + di)
  ensures two: imp(pf && iac != "" && cin == "", s == sx(di) + sx(iac) && el == "urn:epc:pat:iso17365:" + di + "." + iac)
  ensures three: imp(pf && iac != "" && cin != "" && sn == "", s == sx(di) + sx(iac) + sx(cin) && el == "urn:epc:pat:iso17365:" + di + "." + iac + "." + cin)
  ensures four: imp(pf && iac != "" && cin != "" && sn != "", s == sx(di) + sx(iac) + sx(cin) + sx(sn) && el == "urn:epc:pat:iso17365:" + di + "." + iac + "." + cin + "." + sn)
func scheme.MakeISO(pf, std, oc, ei, csn, di, iac, cin, sn) (s, o)
  requires: optsix(oc) && optsix(ei) && optsix(csn) && optsix(di) && optsix(iac) && optsix(cin) && optsix(sn)
  hide: six6_step isoval isochar idbit
  use: binstr_width(len(s) / 16, 5)
  ensures pc: imp(!pf && (std == "17363" || std == "17365"), len(s) % 16 == 0 && len(s) < 512 && len(hexbin(o)) == 16 && scarries(hexbin(o), 0, runes(field(len(s) / 16, 5) + "001")) && scarries(hexbin(o), 8, runes(ite(std == "17363", "10101001", "10100010"))))
  ensures cont: imp(!pf && std == "17363" && oc != "" && ei != "" && csn != "", ite(contvalid(oc, ei, csn), scarries(s, 0, runes(conttext(oc, ei, csn))) && len(conttext(oc, ei, csn)) <= len(s), s == ""))
  ensures unit: imp(!pf && std == "17365" && iac != "" && cin != "" && sn != "", ite(6 * (len(di) + len(iac) + len(cin) + len(sn)) <= 496, scarries(s, 0, runes(sx(di) + sx(iac) + sx(cin) + sx(sn))) && 6 * (len(di) + len(iac) + len(cin) + len(sn)) <= len(s), s == ""))
