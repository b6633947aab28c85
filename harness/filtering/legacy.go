package filtering

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/iomz/go-llrp"
	"github.com/iomz/gosstrak/tdt"
)

// oLegText: the beginning of the identities that a pattern stands for
func oLegText(p string) (string, bool) {
	s := strings.Split(p, ":")
	if len(s) != 5 {
		return "", false
	}
	switch s[3] {
	case "giai-96", "grai-96", "sgtin-96", "sscc-96":
		f := strings.SplitN(s[4], ".", 2)
		rest := ""
		if len(f) == 2 {
			rest = f[1]
		}
		return strings.TrimSuffix(s[3], "-96") + ":" + rest, true
	case "iso17363", "iso17365":
		return s[3] + ":" + strings.Join(strings.Split(s[4], "."), ""), true
	}
	return s[4], true
}

func oCounts(m Subscriptions) map[string]int {
	r := map[string]int{}
	for u, ps := range m {
		for _, p := range ps {
			r[u+"\x00"+p]++
		}
	}
	return r
}

var legIDs = [][2][]byte{
	{{48, 0}, {48, 116, 37, 123, 247, 25, 78, 64, 0, 0, 26, 133}},
	{{48, 0}, {49, 116, 37, 123, 244, 73, 150, 2, 210, 0, 0, 0}},
	{{48, 0}, {51, 116, 37, 123, 244, 6, 15, 0, 0, 0, 0, 12}},
	{{48, 0}, {52, 116, 37, 123, 244, 0, 0, 0, 0, 0, 1, 200}},
	{{0x31, 0xA2}, {30, 11, 220, 3, 182, 31, 199, 0, 0}},
	{{48, 0}, {0, 1, 2}},
	{{48, 0}, {}},
}

func TestVerifP11(t *testing.T) {
	vsearch(t, func(v *vrun) string {
		uris := []string{"http://a", "http://b", "http://c", "http://d"}
		pats := []string{
			"urn:epc:pat:sgtin-96:3.0614141", "urn:epc:pat:sgtin-96:3.0614141.812345", "urn:epc:pat:sgtin-96:3", "urn:epc:pat:sgtin-96:3.06",
			"urn:epc:pat:sscc-96:3.0614141", "urn:epc:pat:grai-96:3.0614141.12345", "urn:epc:pat:giai-96:3.0614141", "urn:epc:pat:iso17365:25S.UN.ABC", "urn:epc:pat:iso17365:25S.UN.abc", "urn:epc:pat:iso17363:7B.MTR",
			"urn:epc:pat:other:sgtin:0614141", "sgtin-96:3.0614141", "", "a:b:c:d:e:f", "urn:epc:pat::",
		}
		table := func(empty bool) Subscriptions {
			m := Subscriptions{}
			for i := v.r.Intn(4); i >= 0; i-- {
				u := uris[v.r.Intn(len(uris))]
				l := []string{}
				for j := v.r.Intn(5); j > 0; j-- {
					l = append(l, pats[v.r.Intn(len(pats))])
				}
				m[u] = l
			}
			return m
		}
		show := func(m Subscriptions) string {
			return strings.Replace(fmt.Sprintf("%q", map[string][]string(m)), "\x00", " ", -1)
		}
		old, sub := table(true), table(true)
		le := &LegacyEngine{filters: old.Clone(), tdtCore: tdt.NewCore()}
		was, named := oCounts(old), oCounts(sub)
		want := map[string]int{}
		for k, n := range was {
			want[k] = n
		}
		op := v.r.Intn(3)
		switch op {
		case 0:
			v.note("legacy engine with %s, AddSubscription(%s)", show(old), show(sub))
			le.AddSubscription(sub)
			for k := range named {
				if was[k] == 0 {
					want[k] = 1
				}
			}
		case 1:
			v.note("legacy engine with %s, DeleteSubscription(%s)", show(old), show(sub))
			le.DeleteSubscription(sub)
			for k := range named {
				delete(want, k)
			}
		}
		if got := oCounts(le.filters); op < 2 && fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Sprintf("the table is %s", show(le.filters))
		}
		if op < 2 && fmt.Sprint(oCounts(sub)) != fmt.Sprint(named) {
			return "the argument has changed"
		}
		if op < 2 {
			return ""
		}
		tag := legIDs[v.r.Intn(len(legIDs))]
		// patterns made from the tag's own identity
		pi, terr := tdt.NewCore().Translate(tag[0], tag[1])
		v.note("legacy engine with %s, Search(PC %v, ID %v)", show(old), tag[0], tag[1])
		rpi, uris2, err := le.Search(llrp.ReadEvent{PC: tag[0], ID: tag[1]})
		got, exp := map[string]bool{}, map[string]bool{}
		for _, u := range uris2 {
			got[u] = true
		}
		if terr == nil {
			id := strings.TrimPrefix(pi, "urn:epc:id:")
			for u, ps := range old {
				for _, p := range ps {
					if x, ok := oLegText(p); ok && strings.HasPrefix(id, x) {
						exp[u] = true
					}
				}
			}
		}
		var gl, el []string
		for u := range got {
			gl = append(gl, u)
		}
		for u := range exp {
			el = append(el, u)
		}
		sort.Strings(gl)
		sort.Strings(el)
		if fmt.Sprint(gl) != fmt.Sprint(el) || (err == nil) != (len(el) > 0) {
			return fmt.Sprintf("the tag is %q (%v): reported %v, %v; subscribed %v", rpi, terr, gl, err, el)
		}
		return ""
	})
}
