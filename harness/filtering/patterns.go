package filtering

import (
	"fmt"
	"io/ioutil"
	"log"
	"math/rand"
	"strings"
	"testing"

	"github.com/iomz/gosstrak/tdt"
)

func vpatString(r *rand.Rand) string {
	f := []string{fmt.Sprint(r.Intn(8))}
	typ := []string{"giai-96", "grai-96", "sgtin-96", "sscc-96"}[r.Intn(4)]
	num := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('0' + r.Intn(10))
		}
		return string(b)
	}
	f = append(f, num(6+r.Intn(7)), num(1+r.Intn(2)), num(1+r.Intn(8)))
	if r.Intn(3) == 0 {
		typ = "iso17365"
		f = []string{"25S", "un", "043325711", num(4)}
	}
	if r.Intn(4) == 0 {
		typ = "iso17363"
		f = []string{"7B", []string{"ABC", "abc", "A-C", "AB"}[r.Intn(4)], "U", num(1 + r.Intn(6))}
	}
	f = f[:1+r.Intn(len(f))]
	s := typ + ":" + strings.Join(f, ".")
	if r.Intn(8) > 0 {
		s = "urn:epc:pat:" + s
	}
	switch r.Intn(12) { // malformed ones
	case 0:
		s = []string{"", ":", "urn:epc:pat:", "urn:epc:pat:sgtin-96", "urn:epc:pat:sgtin-96:", "urn:epc:id:sgtin:1.2.3", "urn:epc:pat:gdti-96:3.0614141.1.2", "urn:epc:pat::3", "urn:epc:pat:iso17363:", "urn:epc:pat:iso17365:."}[r.Intn(10)]
	case 1:
		i := r.Intn(len(s))
		s = s[:i] + string([]byte{byte(r.Intn(256))}) + s[i:]
	case 2:
		s += []string{".", ".1", ":", ":1", ".9999999999999"}[r.Intn(5)]
	}
	return s
}

// vKey is the bit string a pattern stands for, or ok=false (the fields are
// the business of MakePrefixFilterString).
func vKey(p string) (string, bool) {
	if strings.HasPrefix(p, "urn:epc:pat:") {
		p = p[12:]
	}
	i := strings.IndexByte(p, ':')
	if i < 0 || strings.IndexByte(p[i+1:], ':') >= 0 {
		return "", false
	}
	k, err := tdt.MakePrefixFilterString(p[:i], strings.Split(strings.ToUpper(p[i+1:]), "."))
	return k, err == nil
}

// TestVerifP17: the preprocessed set holds exactly the valid patterns.
func TestVerifP17(t *testing.T) {
	log.SetOutput(ioutil.Discard)
	vNoteEvery = 16
	vsearch(t, func(v *vrun) string {
		sub := Subscriptions{}
		for n := v.r.Intn(4); n >= 0; n-- {
			var l []string
			for m := v.r.Intn(5); m > 0; m-- {
				l = append(l, vpatString(v.r))
			}
			sub[fmt.Sprintf("u%d", n)] = l
		}
		v.note("ToByteSubscriptions(%q)", map[string][]string(sub))
		got := sub.ToByteSubscriptions()
		want := map[string]map[string]bool{}
		for u, l := range sub {
			for _, p := range l {
				if k, ok := vKey(p); ok {
					if want[k] == nil {
						want[k] = map[string]bool{}
					}
					want[k][u] = true
				}
			}
		}
		for k, ps := range got {
			if k == "" {
				return "gives a filter that matches everything"
			}
			if strings.Trim(k, "01") != "" {
				return fmt.Sprintf("gives the filter %q", k)
			}
			if want[k] == nil {
				return fmt.Sprintf("gives the filter %q, which no valid pattern stands for", k)
			}
			if ps == nil || !want[k][ps.ReportURI] || ps.Offset != 0 || len(ps.Subset) != 0 {
				return fmt.Sprintf("gives the filter %q with %+v", k, ps)
			}
		}
		for k := range want {
			if got[k] == nil {
				return fmt.Sprintf("leaves out the filter %q", k)
			}
		}
		return ""
	})
}
