package filtering

import (
	"fmt"
	"sort"
	"testing"

	"github.com/iomz/go-llrp"
	"github.com/iomz/gosstrak/tdt"
)

type oEntry struct{ k, u string }

// entry i of the list as pattern and report URI, with the filter object checked
func oEntries(list *List) ([]oEntry, string) {
	var l []oEntry
	for _, em := range list.filters {
		if em == nil || em.filter == nil {
			return nil, "nil entry"
		}
		if fmt.Sprintf("%+v", em.filter) != fmt.Sprintf("%+v", NewFilter(em.filter.String, 0)) {
			return nil, fmt.Sprintf("entry with filter %+v", em.filter)
		}
		l = append(l, oEntry{em.filter.String, em.reportURI})
	}
	return l, ""
}

func oListOf(es []oEntry) *List {
	list := &List{tdtCore: tdt.NewCore()}
	for _, e := range es {
		list.filters = append(list.filters, &ExactMatch{filter: NewFilter(e.k, 0), reportURI: e.u})
	}
	return list
}

func oAccepts(k string, id []byte) bool {
	if (len(k)+7)/8 > len(id) || len(id) == 0 {
		return false
	}
	for j := range k {
		if k[j] != vbit(id, j) {
			return false
		}
	}
	return true
}

func TestVerifP03(t *testing.T) {
	vsearch(t, func(v *vrun) string {
		if v.r.Intn(3) == 0 {
			sub, ref := oSub(v.r)
			v.note("NewList(%q)", sub)
			es, m := oEntries(NewList(sub).(*List))
			if m != "" {
				return m
			}
			var want []oEntry
			for _, k := range oKeys(ref) {
				want = append(want, oEntry{k, ref[k]})
			}
			if fmt.Sprint(es) != fmt.Sprint(want) {
				return fmt.Sprintf("list of %v, want %v", es, want)
			}
			return ""
		}
		ks := oPool(v.r, v.r.Intn(8))
		var es []oEntry
		for i, k := range ks {
			es = append(es, oEntry{k, fmt.Sprintf("u%d", i%5)})
		}
		id := oID(v.r, ks)
		pc := []byte{48, 0}
		v.note("list of %v searched with %08b", es, id)
		pi, got, err := oListOf(es).Search(llrp.ReadEvent{PC: pc, ID: id})
		var want []string
		for _, e := range es {
			if oAccepts(e.k, id) {
				want = append(want, e.u)
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Sprintf("search gives %q, want %q", got, want)
		}
		if len(want) == 0 && (err == nil || pi != "") {
			return fmt.Sprintf("no match, but identity %q and error %v", pi, err)
		}
		return ""
	})
}

func TestVerifP10(t *testing.T) {
	vsearch(t, func(v *vrun) string {
		_, pool := oSub(v.r)
		var es []oEntry
		for _, k := range oKeys(pool) {
			es = append(es, oEntry{k, pool[k]})
		}
		for i, k := range oPool(v.r, v.r.Intn(5)) {
			es = append(es, oEntry{k, fmt.Sprintf("http://h/%d", i%4)})
		}
		seen := map[oEntry]bool{}
		var d []oEntry
		for _, e := range es {
			if !seen[e] {
				seen[e] = true
				d = append(d, e)
			}
		}
		es = d
		v.r.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
		sub, ref := oSub(v.r)
		// sometimes delete or add again what is there
		if v.r.Intn(2) == 0 {
			for u, ps := range sub {
				for _, p := range ps {
					one, ok := Subscriptions{u: {p}}.ToByteSubscriptions(), true
					for k := range one {
						e := oEntry{k, u}
						for _, o := range es {
							if o == e {
								ok = false
							}
						}
						if ok {
							j := v.r.Intn(len(es) + 1)
							es = append(es[:j], append([]oEntry{e}, es[j:]...)...)
						}
					}
				}
			}
		}
		list := oListOf(es)
		var ks []string
		for k := range ref {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		want := append([]oEntry(nil), es...)
		if v.r.Intn(2) == 0 {
			v.note("list of %v, AddSubscription(%q)", es, sub)
			list.AddSubscription(sub)
			for _, k := range ks {
				has := false
				for _, e := range want {
					has = has || e == oEntry{k, ref[k]}
				}
				if !has {
					want = append(want, oEntry{k, ref[k]})
				}
			}
		} else {
			v.note("list of %v, DeleteSubscription(%q)", es, sub)
			list.DeleteSubscription(sub)
			for _, k := range ks {
				for i, e := range want {
					if e == (oEntry{k, ref[k]}) {
						want = append(want[:i], want[i+1:]...)
						break
					}
				}
			}
		}
		got, m := oEntries(list)
		if m != "" {
			return m
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Sprintf("list becomes %v, want %v", got, want)
		}
		return ""
	})
}
