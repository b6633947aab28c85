package scheme

import (
	"fmt"
	"strings"
	"testing"
)

// TestVerifCD: P18, the encoder's check digit.
func TestVerifCD(t *testing.T) {
	vsearch(t, func(v *vrun) string {
		cn := vcontainer(v.r)
		if v.r.Intn(3) == 0 {
			cn = strings.ToLower(cn)
		}
		v.note("GetISO6346CD(%q)", cn)
		got, err := GetISO6346CD(cn)
		if !vcdok(strings.ToUpper(cn)) {
			if err == nil {
				return "is accepted"
			}
			return ""
		}
		if want := vcd(strings.ToUpper(cn)); err != nil || got != want {
			return fmt.Sprintf("gives %d, %v; want %d", got, err, want)
		}
		return ""
	})
}
