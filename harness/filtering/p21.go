package filtering

import (
	"fmt"
	"reflect"
	"sort"
	"testing"
)

func vTable(v *vrun) Subscriptions {
	sub := Subscriptions{}
	for i, n := 0, v.r.Intn(7); i < n; i++ {
		k := fmt.Sprintf("http://h/%s", vbits(v.r, v.r.Intn(4)))
		l := make([]string, 0, v.r.Intn(8))
		for j, m := 0, v.r.Intn(5); j < m; j++ {
			l = append(l, vbits(v.r, v.r.Intn(5)))
		}
		sub[k] = l
	}
	return sub
}

func TestVerifP21(t *testing.T) {
	vsearch(t, func(v *vrun) string {
		sub := vTable(v)
		v.note("%q", sub)
		var want []string
		for k := range sub {
			want = append(want, k)
		}
		sort.Strings(want)
		if got := sub.Keys(); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			return fmt.Sprintf("Keys gives %q, want %q", got, want)
		}
		bsub := ByteSubscriptions{}
		for k := range sub {
			bsub[k] = &PartialSubscription{}
		}
		if got := bsub.Keys(); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			return fmt.Sprintf("ByteSubscriptions.Keys gives %q, want %q", got, want)
		}
		c := sub.Clone()
		if fmt.Sprintf("%q", c) != fmt.Sprintf("%q", sub) || len(c) != len(sub) {
			return fmt.Sprintf("Clone gives %q", c)
		}
		return ""
	})
}

func TestVerifP21Indep(t *testing.T) {
	vsearch(t, func(v *vrun) string {
		sub := vTable(v)
		c := sub.Clone()
		want := vCopy(sub)
		v.note("%q", sub)
		a, b := sub, c
		side := "the original"
		if v.r.Intn(2) == 0 {
			a, b = c, sub
			side = "the copy"
		}
		for k, l := range a {
			for i := range l {
				l[i] = "changed"
			}
			if v.r.Intn(2) == 0 {
				l = append(l, "added")
				for i := range l[:cap(l)] {
					l[:cap(l)][i] = "changed"
				}
			}
			if v.r.Intn(3) == 0 {
				delete(a, k)
			}
		}
		a["new"] = []string{"x"}
		if !reflect.DeepEqual(vCopy(b), want) {
			return fmt.Sprintf("after changes to %s the other is %q", side, b)
		}
		return ""
	})
}

func vCopy(s Subscriptions) map[string]string {
	m := map[string]string{}
	for k, l := range s {
		m[k] = fmt.Sprintf("%q", l)
	}
	return m
}
