package filtering

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/iomz/go-llrp"
	"github.com/iomz/gosstrak/tdt"
)

// what a splay tree maps a bit string to: the chain of mismatches is searched in order
func oSGet(n *SplayTreeNode, k string) string {
	for n != nil {
		s := n.filterObject.String
		if k == s {
			return n.reportURI
		}
		if strings.HasPrefix(k, s) {
			k, n = k[len(s):], n.matchNext
		} else {
			n = n.mismatchNext
		}
	}
	return ""
}

func oSWf(n *SplayTreeNode, off int) string {
	var seen []string
	for ; n != nil; n = n.mismatchNext {
		f := n.filterObject
		if f == nil || f.Offset != off || f.Size != len(f.String) {
			return fmt.Sprintf("malformed node %+v at offset %d", f, off)
		}
		for _, s := range seen {
			if strings.HasPrefix(s, f.String) || strings.HasPrefix(f.String, s) {
				return fmt.Sprintf("siblings %q and %q overlap", s, f.String)
			}
		}
		seen = append(seen, f.String)
		if m := oSWf(n.matchNext, off+f.Size); m != "" {
			return m
		}
	}
	return ""
}

func oSCompare(v *vrun, n *SplayTreeNode, ref map[string]string) string {
	if m := oSWf(n, 0); m != "" {
		return m
	}
	try := func(k string) string {
		if got := oSGet(n, k); got != ref[k] {
			return fmt.Sprintf("tree maps %q to %q, want %q", k, got, ref[k])
		}
		return ""
	}
	for _, k := range oKeys(ref) {
		for i := 1; i <= len(k); i++ {
			if m := try(k[:i]); m != "" {
				return m
			}
		}
		for _, e := range []string{"0", "1", vbits(v.r, 3)} {
			if m := try(k + e); m != "" {
				return m
			}
		}
	}
	return ""
}

func oSBuild(ref map[string]string) *SplayTree {
	bsub := ByteSubscriptions{}
	for k, u := range ref {
		bsub[k] = &PartialSubscription{ReportURI: u, Subset: ByteSubscriptions{}}
	}
	bsub.linkSubset()
	st := &SplayTree{root: &SplayTreeNode{}, tdtCore: tdt.NewCore()}
	st.root = st.root.build(bsub)
	return st
}

func oSorted(l []string) string {
	s := append([]string(nil), l...)
	sort.Strings(s)
	return fmt.Sprintf("%q", s)
}

// a tree of random subscriptions, partly put in and taken out later
func oSTree(v *vrun) (*SplayTree, map[string]string, []string, string) {
	ref := map[string]string{}
	ks := oPool(v.r, 1+v.r.Intn(8))
	n := v.r.Intn(len(ks) + 1)
	for i, k := range ks[:n] {
		ref[k] = fmt.Sprintf("u%d", i)
	}
	log := fmt.Sprintf("splay tree of %q", ref)
	st := oSBuild(ref)
	for i, k := range ks[n:] {
		if k2 := ks[v.r.Intn(len(ks))]; v.r.Intn(3) == 0 {
			log += fmt.Sprintf(", delete(%q)", k2)
			v.note("%s", log)
			st.root.delete(k2, ref[k2])
			delete(ref, k2)
		}
		log += fmt.Sprintf(", add(%q, \"a%d\")", k, i)
		v.note("%s", log)
		st.root.add(k, fmt.Sprintf("a%d", i))
		ref[k] = fmt.Sprintf("a%d", i)
	}
	v.note("%s", log)
	return st, ref, ks, log
}

func TestVerifP08(t *testing.T) {
	vsearch(t, func(v *vrun) string {
		st, ref, ks, log := oSTree(v)
		if oSCompare(v, st.root, ref) != "" {
			return "" // construction is the concern of another property
		}
		for i := 0; i < 4; i++ {
			id := oID(v.r, ks)
			log += fmt.Sprintf(", search %08b", id)
			v.note("%s", log)
			_, got, err := st.Search(llrp.ReadEvent{PC: []byte{48, 0}, ID: id})
			want := oHits(ref, id)
			if oSorted(got) != oSorted(want) || len(want) == 0 && err == nil {
				return fmt.Sprintf("Search gives %q (%v), want %q", got, err, want)
			}
			if m := oSCompare(v, st.root, ref); m != "" {
				return "after the search: " + m
			}
		}
		return ""
	})
}

func TestVerifP09(t *testing.T) {
	vsearch(t, func(v *vrun) string {
		if v.r.Intn(3) == 0 {
			sub, ref := oSub(v.r)
			v.note("NewSplayTree(%q)", sub)
			st := NewSplayTree(sub).(*SplayTree)
			if m := oSCompare(v, st.root, ref); m != "" {
				return m
			}
			add, ref2 := oSub2(v, ref)
			v.note("NewSplayTree(%q), AddSubscription(%q)", sub, add)
			st.AddSubscription(add)
			for k, u := range ref2 {
				ref[k] = u
			}
			if m := oSCompare(v, st.root, ref); m != "" {
				return m
			}
			del, ref3 := oSub(v.r)
			v.note("NewSplayTree(%q), AddSubscription(%q), DeleteSubscription(%q)", sub, add, del)
			st.DeleteSubscription(del)
			for k := range ref3 {
				delete(ref, k)
			}
			return oSCompare(v, st.root, ref)
		}
		st, ref, _, _ := oSTree(v)
		return oSCompare(v, st.root, ref)
	})
}

// TestVerifP09Build: construction alone
func TestVerifP09Build(t *testing.T) {
	vsearch(t, func(v *vrun) string {
		if v.r.Intn(3) == 0 {
			sub, ref := oSub(v.r)
			v.note("NewSplayTree(%q)", sub)
			return oSCompare(v, NewSplayTree(sub).(*SplayTree).root, ref)
		}
		ref := map[string]string{}
		for i, k := range oPool(v.r, v.r.Intn(9)) {
			ref[k] = fmt.Sprintf("u%d", i)
		}
		v.note("splay tree of %q", ref)
		return oSCompare(v, oSBuild(ref).root, ref)
	})
}

func TestVerifP02(t *testing.T) {
	vsearch(t, func(v *vrun) string {
		if v.r.Intn(2) == 0 { // engines made of random bit strings, some whole bytes long
			ref := map[string]string{}
			ks := oPool(v.r, 1+v.r.Intn(6))
			for i := range ks {
				if v.r.Intn(3) == 0 {
					ks[i] += vbits(v.r, (8-len(ks[i])%8)%8)
				}
				ref[ks[i]] = fmt.Sprintf("u%d", i)
			}
			var es []oEntry
			for _, k := range oKeys(ref) {
				es = append(es, oEntry{k, ref[k]})
			}
			id := oID(v.r, ks)
			if n := len(ks[0]) / 8; v.r.Intn(2) == 0 && n <= len(id) {
				id = id[:n]
			}
			v.note("engines of %q searched with ID %08b", ref, id)
			pc := []byte{48, 0}
			(&PatriciaTrie{root: oBuild(ref), tdtCore: tdt.NewCore()}).Search(llrp.ReadEvent{PC: pc, ID: id})
			oListOf(es).Search(llrp.ReadEvent{PC: pc, ID: id})
			oSBuild(ref).Search(llrp.ReadEvent{PC: pc, ID: id})
			return ""
		}
		sub, _ := oSub(v.r)
		if v.r.Intn(3) == 0 {
			sub["http://h/odd"] = []string{[]string{"", "urn:epc:pat:sgtin-96", "urn:epc:pat:sgtin-96:x", "x:y", "urn:epc:pat:iso17363:ABC"}[v.r.Intn(5)]}
		}
		add, _ := oSub(v.r)
		del, _ := oSub(v.r)
		id := oID(v.r, nil)
		if v.r.Intn(2) == 0 {
			id = make([]byte, v.r.Intn(14))
			v.r.Read(id)
		}
		if len(id) > 0 && v.r.Intn(2) == 0 {
			id[0] = []byte{48, 49, 50, 51, 52, 53}[v.r.Intn(6)]
		}
		pc := make([]byte, v.r.Intn(4))
		v.r.Read(pc)
		for _, mk := range []func(Subscriptions) Engine{NewList, NewPatriciaTrie, NewSplayTree, NewLegacyEngine} {
			e := mk(sub)
			v.note("%s(%q) searched with PC %x ID %x", e.Name(), sub, pc, id)
			e.Search(llrp.ReadEvent{PC: pc, ID: id})
			v.note("%s(%q), then AddSubscription(%q), DeleteSubscription(%q), searched with PC %x ID %x", e.Name(), sub, add, del, pc, id)
			e.AddSubscription(add)
			e.Search(llrp.ReadEvent{PC: pc, ID: id})
			e.DeleteSubscription(del)
			e.Search(llrp.ReadEvent{PC: pc, ID: id})
		}
		return ""
	})
}

// TestVerifP02Splay: searches of splay trees made of random bit strings
func TestVerifP02Splay(t *testing.T) {
	vsearch(t, func(v *vrun) string {
		st, _, ks, log := oSTree(v)
		for i := 0; i < 4; i++ {
			id := oID(v.r, ks)
			pc := make([]byte, v.r.Intn(4))
			v.r.Read(pc)
			log += fmt.Sprintf(", search PC %x ID %x", pc, id)
			v.note("%s", log)
			st.Search(llrp.ReadEvent{PC: pc, ID: id})
		}
		return ""
	})
}
