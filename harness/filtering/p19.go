package filtering

import (
	"fmt"
	"strings"
	"testing"
)

func TestVerifP19(t *testing.T) {
	vsearch(t, func(v *vrun) string {
		if v.r.Intn(2) == 0 {
			var l []string
			base := vbits(v.r, v.r.Intn(12))
			for i, n := 0, v.r.Intn(6); i < n; i++ {
				s := base[:len(base)-v.r.Intn(len(base)+1)*v.r.Intn(2)] + vbits(v.r, v.r.Intn(4))
				if v.r.Intn(4) == 0 {
					b := make([]byte, v.r.Intn(4))
					v.r.Read(b)
					s += string(b)
				}
				l = append(l, s)
			}
			v.note("lcp(%q)", l)
			got := lcp(append([]string{}, l...))
			if len(l) == 0 {
				if got != "" {
					return fmt.Sprintf("gives %q, want \"\"", got)
				}
				return ""
			}
			n := len(l[0])
			for _, s := range l {
				for n > 0 && !strings.HasPrefix(s, l[0][:n]) {
					n--
				}
			}
			if got != l[0][:n] {
				return fmt.Sprintf("gives %q, want %q", got, l[0][:n])
			}
			return ""
		}
		id := make([]byte, v.r.Intn(20))
		v.r.Read(id)
		o := v.r.Intn(8*len(id) + 20)
		v.note("getNextBit(%08b, %d)", id, o)
		got, err := getNextBit(id, o)
		switch {
		case o < 8*len(id):
			if err != nil || got != rune(vbit(id, o)) {
				return fmt.Sprintf("gives %q (%v)", got, err)
			}
		case o == 8*len(id):
			if err != nil || got != 'x' {
				return fmt.Sprintf("gives %q (%v), want x", got, err)
			}
		case err == nil:
			return fmt.Sprintf("gives %q and no error", got)
		}
		return ""
	})
}
