package tdt

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"testing"
)

// vfield is the w-bit binary numeral of a decimal field (max bits wide at
// most), or ok=false.
func vfield(s string, w, max int) (string, bool) {
	if s == "" || strings.Trim(s, "0123456789") != "" {
		return "", false
	}
	z, ok := new(big.Int).SetString(s, 10)
	if !ok || z.BitLen() > max {
		return "", false
	}
	return vpadn(z.Text(2), w), true
}

func vsix(s string) (string, bool) {
	if s == "" {
		return "", false
	}
	r := ""
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c < 32 || c > 95 {
			return "", false
		}
		r += fmt.Sprintf("%06b", c&63)
	}
	return r, true
}

// vPattern is the bit string a pattern's fields stand for, or ok=false.
func vPattern(typ string, f []string) (string, bool) {
	if len(f) == 0 {
		return "", false
	}
	for _, c := range vschemes {
		if typ != c.name+"-96" {
			continue
		}
		max := 3
		if c.serial {
			max = 4
		}
		if len(f) > max {
			return "", false
		}
		r := fmt.Sprintf("%08b", c.header)
		x, ok := vfield(f[0], 3, 3)
		if !ok || len(f) == 1 {
			return r + x, ok
		}
		r += x
		p := 12 - len(f[1])
		if p < 0 || p > 6 {
			return "", false
		}
		q := c.parts[p]
		x, ok = vfield(f[1], q.cpBits, q.cpBits)
		if !ok {
			return "", false
		}
		r += fmt.Sprintf("%03b", p) + x
		if len(f) == 2 {
			return r, true
		}
		w := q.rBits
		if c.name == "giai" {
			w = 63
		}
		x, ok = vfield(f[2], q.rBits, w)
		if !ok {
			return "", false
		}
		r += x
		if len(f) == 3 {
			return r, true
		}
		x, ok = vfield(f[3], 38, 38)
		return r + x, ok
	}
	if typ != "iso17363" && typ != "iso17365" || len(f) > 4 {
		return "", false
	}
	r := ""
	for i, s := range f {
		if _, ok := vsix(s); !ok {
			return "", false
		}
		if i == 3 && typ == "iso17363" {
			if len(s) > 6 {
				return "", false
			}
			s = vpadn(s, 6)
			cn := f[1] + f[2] + s
			if len(cn) != 10 || strings.Trim(cn, "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ") != "" {
				return "", false
			}
			s += fmt.Sprint(vcd(cn))
		}
		x, _ := vsix(s)
		r += x
	}
	return r, true
}

func vpick(r *rand.Rand, l ...string) string { return l[r.Intn(len(l))] }
func vdigits(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + r.Intn(10))
	}
	return string(b)
}

// vnumber is a number of up to w bits (sometimes one more), with or without
// zeros in front.
func vnumber(r *rand.Rand, w int) string {
	switch r.Intn(12) {
	case 0:
		return "0"
	case 1:
		return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1)).String()
	case 2:
		return new(big.Int).Lsh(big.NewInt(1), uint(w)).String()
	case 3:
		return vpick(r, "", "-1", "+1", "1.", "x", "0x1", " 1", "1_0", "99999999999999999999", "018446744073709551616")
	}
	z := new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(1+r.Intn(w))))
	return strings.Repeat("0", r.Intn(3)) + z.String()
}

func vtext(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		switch r.Intn(30) {
		case 0:
			b[i] = byte(r.Intn(256))
		case 1, 2, 3:
			b[i] = byte(32 + r.Intn(64))
		case 4, 5, 6, 7, 8, 9, 10, 11, 12, 13:
			b[i] = byte('0' + r.Intn(10))
		default:
			b[i] = byte('A' + r.Intn(26))
		}
	}
	return string(b)
}

func vpattern(r *rand.Rand) (string, []string) {
	typ := vpick(r, "giai-96", "grai-96", "sgtin-96", "sscc-96", "iso17363", "iso17365")
	if r.Intn(20) == 0 {
		typ = vpick(r, "", "giai", "sgtin-198", "gdti-96", "iso17364", "SGTIN-96", "sgtin-96 ", "iso17367")
	}
	var f []string
	n := r.Intn(6)
	if r.Intn(2) == 0 {
		n = 1 + r.Intn(4)
	}
	for i := 0; i < n; i++ {
		s := ""
		if strings.HasPrefix(typ, "iso17363") {
			switch {
			case i == 0:
				s = "7B"
			case i == 1:
				s = vtext(r, 3)
			case i == 2:
				s = vpick(r, "U", "J", "Z", "U", vtext(r, 1))
			case i == 3:
				s = vdigits(r, 1+r.Intn(6))
			}
			if r.Intn(12) == 0 {
				s = vtext(r, r.Intn(9))
			}
		} else if strings.HasPrefix(typ, "iso") {
			s = vtext(r, r.Intn(9))
			if s == "" && r.Intn(3) > 0 {
				s = "A"
			}
		} else {
			switch i {
			case 0:
				s = fmt.Sprint(r.Intn(8))
				if r.Intn(10) == 0 {
					s = vnumber(r, 3)
				}
			case 1:
				s = vdigits(r, 6+r.Intn(7))
				if r.Intn(12) == 0 {
					s = vnumber(r, 40)
				}
			case 2:
				s = vnumber(r, []int{4, 7, 10, 14, 17, 20, 24, 42, 62, 63}[r.Intn(10)])
			default:
				s = vnumber(r, 38)
			}
		}
		f = append(f, s)
	}
	return typ, f
}

// TestVerifPattern: P16 and P17, MakePrefixFilterString.
func TestVerifPattern(t *testing.T) {
	vNoteEvery = 64
	vsearch(t, func(v *vrun) string {
		typ, f := vpattern(v.r)
		v.note("MakePrefixFilterString(%q, %q)", typ, f)
		got, err := MakePrefixFilterString(typ, f)
		want, ok := vPattern(typ, f)
		switch {
		case (err == nil) != ok:
			return fmt.Sprintf("gives %q, %v; want it accepted: %v", got, err, ok)
		case ok && got != want:
			return fmt.Sprintf("gives %q; want %q", got, want)
		case !ok && got != "":
			return fmt.Sprintf("gives %q with an error", got)
		}
		if ok && len(f) > 1 {
			short, err := MakePrefixFilterString(typ, f[:len(f)-1])
			if err != nil || len(short) >= len(got) || !strings.HasPrefix(got, short) {
				return fmt.Sprintf("gives %q, but with the last field left out %q, %v", got, short, err)
			}
		}
		return ""
	})
}
