package tdt

import (
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/iomz/gosstrak/scheme"
)

// a number below 2^bits with at most digits decimal digits, often at an edge
func vvalue(v *vrun, bits, digits int) *big.Int {
	max := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	if d := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(digits)), nil); d.Cmp(max) < 0 {
		max = d
	}
	z := new(big.Int)
	switch v.r.Intn(4) {
	case 0:
		z.Rand(v.r, max)
	case 1:
		z.Sub(max, big.NewInt(int64(1+v.r.Intn(3))))
	case 2:
		z.SetInt64(int64(v.r.Intn(12)))
	default:
		z.SetBit(z, v.r.Intn(bits), 1)
		if v.r.Intn(2) == 0 {
			z.Sub(z, big.NewInt(1))
		}
	}
	if z.Sign() < 0 || z.Cmp(max) >= 0 {
		return new(big.Int)
	}
	return z
}

func TestVerifP13(t *testing.T) {
	c := NewCore()
	vsearch(t, func(v *vrun) string {
		s := vschemes[v.r.Intn(len(vschemes))]
		p := v.r.Intn(7)
		q := s.parts[p]
		fv := fmt.Sprint(v.r.Intn(8))
		cp := vpadn(vvalue(v, q.cpBits, q.cpDigits).String(), q.cpDigits)
		ref, ser := "", vvalue(v, 38, 12).String()
		if s.fixed && q.rDigits > 0 {
			ref = vpadn(vvalue(v, q.rBits, q.rDigits).String(), q.rDigits)
		} else if s.fixed {
			ref = "0"
		} else {
			ref = vvalue(v, q.rBits, 19).String()
		}
		v.note("%s-96(%s, %s, %s, %s)", s.name, fv, cp, ref, ser)
		var id []byte
		var err error
		want := "urn:epc:id:" + s.name + ":" + cp
		if !s.fixed || q.rDigits > 0 {
			want += "." + ref
		}
		switch s.name {
		case "sgtin":
			id, _, _, err = scheme.MakeSGTIN96(false, fv, cp, ref, ser)
			want += "." + ser
		case "grai":
			id, _, _, err = scheme.MakeGRAI96(false, fv, cp, ref, ser)
			want += "." + ser
		case "sscc":
			id, _, _, err = scheme.MakeSSCC96(false, fv, cp, ref)
		case "giai":
			id, _, _, err = scheme.MakeGIAI96(false, fv, cp, ref)
		}
		if err != nil {
			return "not encoded: " + err.Error()
		}
		got, err := c.Translate([]byte{0x30, 0}, id)
		if err != nil {
			return fmt.Sprintf("encoded as % x, not translated: %v", id, err)
		}
		if strings.TrimSpace(got) != want {
			return fmt.Sprintf("encoded as % x, translated to %q, want %q", id, got, want)
		}
		return ""
	})
}
