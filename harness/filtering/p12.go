package filtering

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"math/rand"
	"testing"

	"github.com/iomz/gosstrak/tdt"
)

func oShowP(n *PatriciaTrieNode) string {
	if n == nil {
		return "-"
	}
	f := "-"
	if n.filterObject != nil {
		f = fmt.Sprintf("%+v", *n.filterObject)
	}
	return fmt.Sprintf("{%q %s %s %s}", n.reportURI, f, oShowP(n.one), oShowP(n.zero))
}

func oShowS(n *SplayTreeNode) string {
	if n == nil {
		return "-"
	}
	f := "-"
	if n.filterObject != nil {
		f = fmt.Sprintf("%+v", *n.filterObject)
	}
	return fmt.Sprintf("{%q %s %s %s}", n.reportURI, f, oShowS(n.matchNext), oShowS(n.mismatchNext))
}

func oShowL(l *List) string {
	s := ""
	for _, e := range l.filters {
		s += fmt.Sprintf("{%q %+v}", e.reportURI, *e.filter)
	}
	return s
}

func oShowT(s Subscriptions) string {
	r := ""
	for _, k := range s.Keys() {
		r += fmt.Sprintf("%q:%q,", k, s[k])
	}
	return r
}

func oRandP(r *rand.Rand, d, o int) *PatriciaTrieNode {
	if d < 0 || r.Intn(4) == 0 {
		return nil
	}
	s := vbits(r, r.Intn(12))
	n := &PatriciaTrieNode{filterObject: NewFilter(s, o), one: oRandP(r, d-1, o+len(s)), zero: oRandP(r, d-1, o+len(s))}
	if r.Intn(2) == 0 {
		n.reportURI = fmt.Sprintf("u%d", r.Intn(9))
	}
	return n
}

func oRandS(r *rand.Rand, d, o int) *SplayTreeNode {
	if d < 0 || r.Intn(4) == 0 {
		return nil
	}
	s := vbits(r, r.Intn(12))
	n := &SplayTreeNode{filterObject: NewFilter(s, o), matchNext: oRandS(r, d-1, o+len(s)), mismatchNext: oRandS(r, d-1, o+len(s))}
	if r.Intn(2) == 0 {
		n.reportURI = fmt.Sprintf("u%d", r.Intn(9))
	}
	return n
}

func oRandT(r *rand.Rand) Subscriptions {
	s := Subscriptions{}
	for i := r.Intn(5); i > 0; i-- {
		var ds []string
		for j := r.Intn(4); j > 0; j-- {
			ds = append(ds, fmt.Sprintf("urn:epc:pat:sgtin-96:3.%s", vbits(r, r.Intn(9))))
		}
		s[fmt.Sprintf("http://r%d", r.Intn(20))] = ds
	}
	return s
}

func TestVerifP12(t *testing.T) {
	vsearch(t, func(v *vrun) string {
		engines := []Engine{&List{}, &PatriciaTrie{}, &SplayTree{}, &LegacyEngine{}}
		show := func(e Engine) string {
			switch e := e.(type) {
			case *List:
				return oShowL(e)
			case *PatriciaTrie:
				return oShowP(e.root)
			case *SplayTree:
				return oShowS(e.root)
			case *LegacyEngine:
				return oShowT(e.filters)
			}
			return ""
		}
		k := v.r.Intn(6)
		var e Engine
		switch k {
		case 0:
			l := &List{tdtCore: tdt.NewCore()}
			for i := v.r.Intn(5); i > 0; i-- {
				l.filters = append(l.filters, &ExactMatch{filter: NewFilter(vbits(v.r, v.r.Intn(20)), 0), reportURI: fmt.Sprintf("u%d", v.r.Intn(9))})
			}
			e = l
		case 1:
			p := &PatriciaTrie{root: oRandP(v.r, 4, 0), tdtCore: tdt.NewCore()}
			if p.root == nil {
				p.root = &PatriciaTrieNode{filterObject: NewFilter("", 0)}
			}
			e = p
		case 2:
			p := &SplayTree{root: oRandS(v.r, 4, 0), tdtCore: tdt.NewCore()}
			if p.root == nil {
				p.root = &SplayTreeNode{filterObject: NewFilter("", 0)}
			}
			e = p
		case 3:
			e = &LegacyEngine{filters: oRandT(v.r), tdtCore: tdt.NewCore()}
		case 4:
			s := oRandT(v.r)
			v.note("subscription table %s saved and restored", oShowT(s))
			b, err := s.MarshalBinary()
			if err != nil {
				return err.Error()
			}
			got := Subscriptions{}
			if err := got.UnmarshalBinary(b); err != nil {
				return err.Error()
			}
			if oShowT(got) != oShowT(s) {
				return "restored as " + oShowT(got)
			}
			return ""
		case 5:
			p := &PartialSubscription{Offset: v.r.Intn(9), ReportURI: fmt.Sprintf("u%d", v.r.Intn(9)), Subset: ByteSubscriptions{}}
			for i := v.r.Intn(3); i > 0; i-- {
				p.Subset[vbits(v.r, 1+v.r.Intn(5))] = &PartialSubscription{Offset: v.r.Intn(9), ReportURI: "v", Subset: ByteSubscriptions{}}
			}
			v.note("partial subscription %s saved and restored", p.Subset.Dump())
			b, err := p.MarshalBinary()
			if err != nil {
				return err.Error()
			}
			got := &PartialSubscription{}
			if err := got.UnmarshalBinary(b); err != nil {
				return err.Error()
			}
			if got.Offset != p.Offset || got.ReportURI != p.ReportURI || got.Subset.Dump() != p.Subset.Dump() {
				return fmt.Sprintf("restored as %d %q %s", got.Offset, got.ReportURI, got.Subset.Dump())
			}
			return ""
		}
		v.note("%s %s saved and restored", e.Name(), show(e))
		var b []byte
		var err error
		whole := v.r.Intn(2) == 0
		if whole {
			var buf bytes.Buffer
			err = gob.NewEncoder(&buf).Encode(e)
			b = buf.Bytes()
		} else {
			b, err = e.MarshalBinary()
		}
		if err != nil {
			return err.Error()
		}
		other := v.r.Intn(4)
		got := engines[other]
		if other == k && whole {
			err = gob.NewDecoder(bytes.NewReader(b)).Decode(got)
		} else if whole {
			return ""
		} else {
			err = got.UnmarshalBinary(b)
		}
		if other != k {
			if err == nil {
				return fmt.Sprintf("accepted by %s", got.Name())
			}
			return ""
		}
		if err != nil {
			return err.Error()
		}
		if show(got) != show(e) {
			return "restored as " + show(got)
		}
		return ""
	})
}
