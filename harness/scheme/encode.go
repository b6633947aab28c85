package scheme

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"testing"
)

type vpt struct{ cp, ref, max int }

// company prefix and reference widths for partitions 0 to 6, and the width a
// reference is limited to
var vlayout = map[string]struct {
	header string
	total  int
	serial bool
	tail   string
}{
	"SGTIN-96": {"00110000", 44, true, ""},
	"GRAI-96":  {"00110011", 44, true, ""},
	"SSCC-96":  {"00110001", 58, false, strings.Repeat("0", 24)},
	"GIAI-96":  {"00110100", 82, false, ""},
}
var vcpbits = [7]int{40, 37, 34, 30, 27, 24, 20}

func vbin(s string, w int) (string, bool) {
	if s == "" || strings.Trim(s, "0123456789") != "" {
		return "", false
	}
	z, ok := new(big.Int).SetString(s, 10)
	if !ok || z.BitLen() > w {
		return "", false
	}
	b := z.Text(2)
	if len(b) < w {
		b = strings.Repeat("0", w-len(b)) + b
	}
	return b, true
}

// vEncode is what an encoder should make of its arguments; '?' is a bit left
// to chance (an argument not given). pf: the filter of the arguments given.
func vEncode(pf bool, cs, fv, cp, ref, ser string) (bits string, elem string, ok bool) {
	l := vlayout[cs]
	f := "???"
	if fv != "" {
		if f, ok = vbin(fv, 3); !ok {
			return "", "", false
		}
	}
	if l.serial && ser != "" {
		if _, ok = vbin(ser, 38); !ok {
			return "", "", false
		}
	}
	bits, elem = l.header+f, "urn:epc:pat:"+strings.ToLower(cs)+":"+fv
	if cp == "" {
		return bits, elem, pf // the reference is not looked at
	}
	p := 12 - len(cp)
	if p < 0 || p > 6 {
		return "", "", false
	}
	x, ok := vbin(cp, vcpbits[p])
	if !ok {
		return "", "", false
	}
	bits, elem = bits+fmt.Sprintf("%03b", p)+x, elem+"."+cp
	w := l.total - vcpbits[p]
	if ref == "" {
		if pf {
			return bits, elem, true
		}
		bits += strings.Repeat("?", w)
	} else {
		x, ok = vbin(ref, w)
		if !ok {
			return "", "", false
		}
		bits, elem = bits+x, elem+"."+ref
	}
	if !l.serial {
		if !pf {
			bits += l.tail
		}
		return bits, elem, true
	}
	if ser == "" {
		if pf {
			return bits, elem, true
		}
		return bits + strings.Repeat("?", 38), elem, true
	}
	x, _ = vbin(ser, 38)
	return bits + x, elem + "." + ser, true
}

func vmatch(want, got string) bool {
	if len(want) != len(got) {
		return false
	}
	for i := range want {
		if want[i] != '?' && want[i] != got[i] {
			return false
		}
	}
	return true
}

func vbitsof(id []byte) string {
	s := ""
	for _, b := range id {
		s += fmt.Sprintf("%08b", b)
	}
	return s
}

// a numeral: often at the edges of w bits, seldom not a numeral
func vnumeral(r *rand.Rand, w int) string {
	if r.Intn(6) == 0 {
		return ""
	}
	if r.Intn(25) == 0 {
		return []string{"x", "-1", "+1", "1_0", " 1", "0x1", "1.0", "٣"}[r.Intn(8)]
	}
	z := new(big.Int)
	switch k := r.Intn(w + 2); r.Intn(3) {
	case 0:
		z.SetBit(z, k, 1)
	case 1:
		z.SetBit(z, k, 1)
		z.Sub(z, big.NewInt(1))
	default:
		for i := 0; i < k; i++ {
			z.SetBit(z, i, uint(r.Intn(2)))
		}
	}
	return strings.Repeat("0", r.Intn(40)/18) + z.String()
}

func vprefix(r *rand.Rand) string {
	if r.Intn(7) == 0 {
		return vnumeral(r, 40)
	}
	n := 6 + r.Intn(7)
	b := make([]byte, n)
	k := r.Intn(4)
	for i := range b {
		b[i] = byte('0' + r.Intn(10))
		if k == 0 {
			b[i] = '9'
		} else if k == 1 && i < n-1 {
			b[i] = '0'
		}
	}
	return string(b)
}

func vsix6(s string) string {
	r := ""
	for i := 0; i < len(s); i++ {
		r += fmt.Sprintf("%06b", s[i]&63)
	}
	return r
}

func vpad16(s string) string {
	for i := 0; len(s)%16 != 0; i++ {
		if i%6 == 0 {
			s += "1"
		} else {
			s += "0"
		}
	}
	return s
}

func vsixtext(r *rand.Rand, max int) string {
	if r.Intn(6) == 0 {
		return ""
	}
	b := make([]byte, r.Intn(max+1))
	for i := range b {
		b[i] = byte(32 + r.Intn(64))
	}
	return string(b)
}

// an ISO tag: its identifier in bits and its PC bits
func vISO(s, pc, afi string) string {
	h, err := hex.DecodeString(pc)
	if err != nil || len(h) != 2 || len(s)%16 != 0 {
		return fmt.Sprintf("PC %q, %d bits", pc, len(s))
	}
	if w := fmt.Sprintf("%05b001%s", len(s)/16, afi); vbitsof(h) != w {
		return fmt.Sprintf("PC bits %s for %d words, want %s", vbitsof(h), len(s)/16, w)
	}
	return ""
}

func TestVerifP15(t *testing.T) {
	names := []string{"SGTIN-96", "GRAI-96", "SSCC-96", "GIAI-96"}
	vsearch(t, func(v *vrun) string {
		r := v.r
		pf := r.Intn(3) == 0
		switch r.Intn(4) {
		case 0:
			oc, ei, csn := "", "", ""
			cn := vcontainer(r)
			for len(cn) < 5 {
				cn += "0"
			}
			if r.Intn(6) > 0 {
				oc = cn[:3]
			}
			if r.Intn(6) > 0 {
				ei = cn[3:4]
			}
			if r.Intn(6) > 0 {
				csn = cn[4:]
				if r.Intn(2) == 0 {
					csn = csn[r.Intn(len(csn)):]
				}
			}
			for _, c := range oc + ei + csn {
				if c < 32 || c > 95 {
					return "" // outside the 6-bit set
				}
			}
			v.note("MakeISO(%v, 17363, %q, %q, %q)", pf, oc, ei, csn)
			s, o := MakeISO(pf, "17363", oc, ei, csn, "", "", "", "")
			c6 := csn
			for len(c6) < 6 {
				c6 = "0" + c6
			}
			all := oc != "" && ei != "" && csn != ""
			ok := !all || vcdok(oc+ei+c6)
			text, el := "7B", "urn:epc:pat:iso17363:7B"
			if oc != "" {
				text, el = text+oc, el+"."+oc
				if ei != "" {
					text, el = text+ei, el+"."+ei
					if csn != "" && ok {
						text, el = text+c6+fmt.Sprint(vcd(oc+ei+c6)), el+"."+c6
					}
				}
			}
			if pf {
				if !ok && (s != "" || o != "") || ok && (s != vsix6(text) || o != el) {
					return fmt.Sprintf("%q, %q; want %q, %q (valid: %v)", s, o, vsix6(text), el, ok)
				}
				return ""
			}
			if all && !ok && s != "" {
				return "an invalid container number is encoded as " + s
			}
			if all && ok && s != vpad16(vsix6(text)) {
				return fmt.Sprintf("%s; want %s", s, vpad16(vsix6(text)))
			}
			if s != "" {
				return vISO(s, o, "10101001")
			}
			return ""
		case 1:
			f := []string{vsixtext(r, 3), vsixtext(r, 4), vsixtext(r, 12), vsixtext(r, 90)}
			v.note("MakeISO(%v, 17365, %q)", pf, f)
			s, o := MakeISO(pf, "17365", "", "", "", f[0], f[1], f[2], f[3])
			bits, el, n := vsix6(f[0]), "urn:epc:pat:iso17365:"+f[0], 1
			for ; n < 4 && f[n] != ""; n++ {
				bits, el = bits+vsix6(f[n]), el+"."+f[n]
			}
			if pf {
				if s != bits || o != el {
					return fmt.Sprintf("%q, %q; want %q, %q", s, o, bits, el)
				}
				return ""
			}
			if n < 3 && s != "" {
				return "encoded without all fields: " + s
			}
			if n == 4 {
				w := vpad16(bits)
				if len(w) > 496 {
					w = ""
				}
				if s != w {
					return fmt.Sprintf("%q; want %q", s, w)
				}
			}
			if s != "" {
				return vISO(s, o, "10100010")
			}
			return ""
		}
		cs := names[r.Intn(4)]
		fv, cp, ser := vnumeral(r, 3), vprefix(r), vnumeral(r, 38)
		w := 30
		if p := 12 - len(cp); p >= 0 && p <= 6 {
			w = vlayout[cs].total - vcpbits[p]
		}
		ref := vnumeral(r, w)
		v.note("%s(%v, %q, %q, %q, %q)", cs, pf, fv, cp, ref, ser)
		var id []byte
		var s, el string
		var err error
		switch cs {
		case "SGTIN-96":
			id, s, el, err = MakeSGTIN96(pf, fv, cp, ref, ser)
		case "GRAI-96":
			id, s, el, err = MakeGRAI96(pf, fv, cp, ref, ser)
		case "SSCC-96":
			id, s, el, err = MakeSSCC96(pf, fv, cp, ref)
		case "GIAI-96":
			id, s, el, err = MakeGIAI96(pf, fv, cp, ref)
		}
		bits, elem, ok := vEncode(pf, cs, fv, cp, ref, ser)
		if (err == nil) != ok {
			return fmt.Sprintf("error %v, want encodable: %v", err, ok)
		}
		if err != nil || pf {
			if len(id) != 0 {
				return fmt.Sprintf("ID % x with error %v, prefix only %v", id, err, pf)
			}
		} else if !vmatch(bits, vbitsof(id)) {
			return fmt.Sprintf("ID %s, want %s", vbitsof(id), bits)
		}
		if err != nil || !pf {
			if s != "" || el != "" {
				return fmt.Sprintf("filter %q, %q with error %v, prefix only %v", s, el, err, pf)
			}
		} else if !vmatch(bits, s) || fv != "" && el != elem {
			return fmt.Sprintf("filter %q, %q, want %q, %q", s, el, bits, elem)
		}
		lower := cs
		if r.Intn(2) == 0 {
			lower = strings.ToLower(cs)
		}
		e, pc := MakeEPC(pf, lower, fv, cp, ref, ref, ser, ref, ref)
		if pf {
			if !ok && (e != "" || pc != "") || ok && (!vmatch(bits, e) || fv != "" && pc != elem) {
				return fmt.Sprintf("MakeEPC: filter %q, %q, want %q, %q", e, pc, bits, elem)
			}
			return ""
		}
		if pc != "3000" {
			return "MakeEPC: PC " + pc
		}
		if !ok && e != "" || ok && !vmatch(bits, e) {
			return fmt.Sprintf("MakeEPC: %q, want %q", e, bits)
		}
		return ""
	})
}
