package tdt

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"testing"
)

// An independent reading of the EPC Tag Data Standard's 96-bit schemes.

type vpart struct{ cpBits, cpDigits, rBits, rDigits int }
type vscheme struct {
	name   string
	header byte
	parts  [7]vpart
	serial bool // a 38-bit serial follows
	fixed  bool // the reference has a fixed number of digits
}

var vschemes = []vscheme{
	{"sgtin", 0x30, [7]vpart{{40, 12, 4, 1}, {37, 11, 7, 2}, {34, 10, 10, 3}, {30, 9, 14, 4}, {27, 8, 17, 5}, {24, 7, 20, 6}, {20, 6, 24, 7}}, true, true},
	{"sscc", 0x31, [7]vpart{{40, 12, 18, 5}, {37, 11, 21, 6}, {34, 10, 24, 7}, {30, 9, 28, 8}, {27, 8, 31, 9}, {24, 7, 34, 10}, {20, 6, 38, 11}}, false, true},
	{"grai", 0x33, [7]vpart{{40, 12, 4, 0}, {37, 11, 7, 1}, {34, 10, 10, 2}, {30, 9, 14, 3}, {27, 8, 17, 4}, {24, 7, 20, 5}, {20, 6, 24, 6}}, true, true},
	{"giai", 0x34, [7]vpart{{40, 12, 42, 0}, {37, 11, 45, 0}, {34, 10, 48, 0}, {30, 9, 52, 0}, {27, 8, 55, 0}, {24, 7, 58, 0}, {20, 6, 62, 0}}, false, false},
}

func vnum(id []byte, o, w int) string {
	z := new(big.Int)
	for k := o; k < o+w; k++ {
		z.Lsh(z, 1)
		if vbit(id, k) == '1' {
			z.SetBit(z, 0, 1)
		}
	}
	return z.String()
}

func vpadn(s string, n int) string {
	for len(s) < n {
		s = "0" + s
	}
	return s
}

// vEPC is the identity a 96-bit EPC stands for, or ok=false.
func vEPC(id []byte) (s string, ok bool) {
	if len(id) != 12 {
		return "", false
	}
	for _, c := range vschemes {
		if c.header != id[0] {
			continue
		}
		p := int(id[1] >> 2 & 7)
		if p > 6 {
			return "", false
		}
		q := c.parts[p]
		cp := vnum(id, 14, q.cpBits)
		r := vnum(id, 14+q.cpBits, q.rBits)
		if len(cp) > q.cpDigits {
			return "", false
		}
		s = "urn:epc:id:" + c.name + ":" + vpadn(cp, q.cpDigits)
		switch {
		case !c.fixed:
			s += "." + r
		case q.rDigits == 0:
		case len(r) > q.rDigits:
			return "", false
		default:
			s += "." + vpadn(r, q.rDigits)
		}
		if c.serial {
			s += "." + vnum(id, 58, 38)
		}
		return s, true
	}
	return "", false
}

func vset(id []byte, o, w int, v *big.Int) {
	for k := 0; k < w; k++ {
		if v.Bit(w-1-k) == 1 {
			id[(o+k)/8] |= 1 << (7 - uint((o+k)%8))
		}
	}
}

func vpow10(n int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil) }
func vpow2(n int) *big.Int  { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

// vval draws a value below lim, often a small or an extreme one.
func vval(r *rand.Rand, lim *big.Int) *big.Int {
	switch r.Intn(8) {
	case 0:
		return new(big.Int)
	case 1:
		return new(big.Int).Sub(lim, big.NewInt(1))
	case 2, 3:
		z := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(r.Intn(13))), nil)
		z.Sub(z, big.NewInt(int64(r.Intn(2))))
		if z.Cmp(lim) < 0 {
			return z
		}
	}
	if lim.Sign() == 0 {
		return new(big.Int)
	}
	return new(big.Int).Rand(r, lim)
}

func vmin(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}

// vID is a random tag ID: mostly a 96-bit EPC, often with valid fields.
func vID(r *rand.Rand) []byte {
	if r.Intn(10) == 0 {
		b := make([]byte, r.Intn(16))
		r.Read(b)
		if len(b) > 0 && r.Intn(2) == 0 {
			b[0] = []byte{0x30, 0x31, 0x33, 0x34, 0x2f}[r.Intn(5)]
		}
		return b
	}
	id := make([]byte, 12)
	if r.Intn(4) == 0 {
		r.Read(id)
		id[0] = vschemes[r.Intn(4)].header
		return id
	}
	c := vschemes[r.Intn(4)]
	p := r.Intn(7)
	q := c.parts[p]
	vset(id, 0, 8, big.NewInt(int64(c.header)))
	vset(id, 8, 3, big.NewInt(int64(r.Intn(8))))
	vset(id, 11, 3, big.NewInt(int64(p)))
	lim := vmin(vpow10(q.cpDigits), vpow2(q.cpBits))
	if r.Intn(6) == 0 {
		lim = vpow2(q.cpBits)
	}
	vset(id, 14, q.cpBits, vval(r, lim))
	lim = vpow2(q.rBits)
	if c.fixed && r.Intn(6) > 0 {
		lim = vmin(lim, vpow10(q.rDigits))
	}
	vset(id, 14+q.cpBits, q.rBits, vval(r, lim))
	if c.serial {
		vset(id, 58, 38, vval(r, vpow2(38)))
	} else if r.Intn(4) == 0 && 14+q.cpBits+q.rBits < 96 {
		w := 96 - 14 - q.cpBits - q.rBits
		vset(id, 96-w, w, vval(r, vpow2(w)))
	}
	return id
}

var visoNames = []string{"17367:", "17365:", "17364:", "17367h:", "17366:", "17366h:", "17365h:", "17364h:", "17363:", "17363h:"}

func vsixText(id []byte) string {
	var s strings.Builder
	for o := 0; o+6 <= 8*len(id); o += 6 {
		c := byte(0)
		for k := 0; k < 6; k++ {
			c = c<<1 | (vbit(id, o+k) - '0')
		}
		if c == 32 {
			continue
		}
		if c < 32 {
			c += 64
		}
		s.WriteByte(c)
	}
	return s.String()
}

// TestVerifTranslate: P13, P14.
func TestVerifTranslate(t *testing.T) {
	c := NewCore()
	vsearch(t, func(v *vrun) string {
		pc := []byte{byte(v.r.Intn(256)), byte(v.r.Intn(256))}
		switch v.r.Intn(4) {
		case 0:
			pc = []byte{0x30, 0}
		case 1:
			pc = []byte{0x31, byte(158 + v.r.Intn(15))}
		case 2:
			if v.r.Intn(4) == 0 {
				pc = pc[:v.r.Intn(2)]
			}
		}
		id := vID(v.r)
		v.note("Translate(%x, %x)", pc, id)
		got, err := c.Translate(pc, id)
		if err != nil && got != "" {
			return fmt.Sprintf("gives the identity %q with the error %v", got, err)
		}
		want, ok := "", false
		if len(pc) == 2 {
			if pc[0]&1 == 0 {
				want, ok = vEPC(id)
			} else if pc[1] >= 161 && pc[1] <= 170 {
				want, ok = "urn:epc:id:iso"+visoNames[pc[1]-161]+vsixText(id), true
			}
		}
		if ok != (err == nil) || ok && got != want {
			return fmt.Sprintf("gives %q, %v; want %q, valid=%v", got, err, want, ok)
		}
		return ""
	})
}

// TestVerifSix: P18, decoding and check digit.
func TestVerifSix(t *testing.T) {
	vsearch(t, func(v *vrun) string {
		if v.r.Intn(2) == 0 {
			id := make([]byte, v.r.Intn(24))
			v.r.Read(id)
			v.note("parse6BitEncodedByteSliceToString(%x)", id)
			got, err := parse6BitEncodedByteSliceToString(id)
			if err != nil || got != vsixText(id) {
				return fmt.Sprintf("gives %q, %v; want %q", got, err, vsixText(id))
			}
			return ""
		}
		cn := vcontainer(v.r)
		v.note("getISO6346CD(%q)", cn)
		got, err := getISO6346CD(cn)
		if !vcdok(cn) {
			if err == nil {
				return "is accepted"
			}
			return ""
		}
		if want := vcd(cn); err != nil || got != want {
			return fmt.Sprintf("gives %d, %v; want %d", got, err, want)
		}
		return ""
	})
}
