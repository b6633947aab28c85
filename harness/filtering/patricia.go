package filtering

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"

	"github.com/iomz/go-llrp"
	"github.com/iomz/gosstrak/tdt"
)

// what a trie maps a bit string to
func oGet(n *PatriciaTrieNode, k string) string {
	for n != nil && n.filterObject != nil && strings.HasPrefix(k, n.filterObject.String) {
		k = k[len(n.filterObject.String):]
		if k == "" {
			return n.reportURI
		}
		if k[0] == '1' {
			n = n.one
		} else {
			n = n.zero
		}
	}
	return ""
}

func oWf(n *PatriciaTrieNode, off int, first string) string {
	if n == nil {
		return ""
	}
	f := n.filterObject
	if f == nil || f.Offset != off || f.Size != len(f.String) || !strings.HasPrefix(f.String, first) {
		return fmt.Sprintf("malformed node %+v at offset %d below branch %q", f, off, first)
	}
	if m := oWf(n.one, off+f.Size, "1"); m != "" {
		return m
	}
	return oWf(n.zero, off+f.Size, "0")
}

func oKeys(ref map[string]string) []string {
	var ks []string
	for k := range ref {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// compare checks the trie against the table, on the subscribed strings and on their neighbours.
func oCompare(r *rand.Rand, n *PatriciaTrieNode, ref map[string]string) string {
	if m := oWf(n, 0, ""); m != "" {
		return m
	}
	try := func(k string) string {
		if got := oGet(n, k); got != ref[k] {
			return fmt.Sprintf("trie maps %q to %q, want %q", k, got, ref[k])
		}
		return ""
	}
	for _, k := range oKeys(ref) {
		for i := 1; i <= len(k); i++ {
			if m := try(k[:i]); m != "" {
				return m
			}
		}
		for _, e := range []string{"0", "1", vbits(r, 3)} {
			if m := try(k + e); m != "" {
				return m
			}
		}
	}
	return ""
}

func oHits(ref map[string]string, id []byte) []string {
	var b []byte
	for i := 0; i < 8*len(id); i++ {
		b = append(b, vbit(id, i))
	}
	var w []string
	for i := 1; i <= len(b); i++ {
		if u := ref[string(b[:i])]; u != "" {
			w = append(w, u)
		}
	}
	return w
}

// bit strings that often share prefixes or are prefixes of each other
func oPool(r *rand.Rand, n int) []string {
	var ks []string
	max := 1 + r.Intn(20)
	for i := 0; i < n; i++ {
		k := vbits(r, 1+r.Intn(max))
		if len(ks) > 0 && r.Intn(2) == 0 {
			p := ks[r.Intn(len(ks))]
			k = p[:r.Intn(len(p)+1)] + vbits(r, r.Intn(6))
			if k == "" {
				k = vbits(r, 1)
			}
		}
		ks = append(ks, k)
	}
	return ks
}

func oID(r *rand.Rand, ks []string) []byte {
	id := make([]byte, r.Intn(5))
	r.Read(id)
	if len(ks) > 0 && r.Intn(3) > 0 {
		k := ks[r.Intn(len(ks))]
		if r.Intn(2) == 0 {
			id = make([]byte, (len(k)+7)/8+r.Intn(2))
			r.Read(id)
		}
		for j := 0; j < len(k) && j < 8*len(id); j++ {
			m := byte(1) << (7 - uint(j%8))
			id[j/8] &^= m
			if k[j] == '1' {
				id[j/8] |= m
			}
		}
	}
	return id
}

func oBuild(ref map[string]string) *PatriciaTrieNode {
	bsub := ByteSubscriptions{}
	for k, u := range ref {
		bsub[k] = &PartialSubscription{ReportURI: u, Subset: ByteSubscriptions{}}
	}
	root := &PatriciaTrieNode{}
	p := lcp(bsub.Keys())
	root.filterObject = NewFilter(p, 0)
	root.build(p, bsub)
	if s, ok := bsub[p]; ok {
		root.reportURI = s.ReportURI
	}
	return root
}

var oPats = []string{"sgtin-96:3", "sgtin-96:3.0614141", "sgtin-96:3.0614141.812345", "sgtin-96:3.0614141.812345.6789",
	"sgtin-96:3.0614141.812345.6788", "sgtin-96:1.0614141", "sscc-96:3", "sscc-96:3.0614141", "grai-96:3.0614141",
	"grai-96:3.0614141.12345", "giai-96:3.0614141", "giai-96:3.0614141.12345678", "giai-96:0", "giai-96"}

func oSub(r *rand.Rand) (Subscriptions, map[string]string) {
	sub := Subscriptions{}
	ref := map[string]string{}
	for i, n := 0, r.Intn(6); i < n; i++ {
		p := oPats[r.Intn(len(oPats))]
		tf := strings.Split(p, ":")
		if len(tf) != 2 {
			continue
		}
		k, err := tdt.MakePrefixFilterString(tf[0], strings.Split(tf[1], "."))
		if err != nil || ref[k] != "" {
			continue
		}
		u := fmt.Sprintf("http://h/%d", r.Intn(4))
		sub[u] = append(sub[u], "urn:epc:pat:"+p)
		ref[k] = u
	}
	return sub, ref
}

func TestVerifP04(t *testing.T) {
	vsearch(t, func(v *vrun) string {
		ref := map[string]string{}
		ks := oPool(v.r, 1+v.r.Intn(8))
		for i, k := range ks {
			ref[k] = fmt.Sprintf("u%d", i)
		}
		root := oBuild(ref)
		if m := oCompare(v.r, root, ref); m != "" {
			return "" // construction is the concern of another property
		}
		id := oID(v.r, ks)
		v.note("trie of %q searched with %08b", ref, id)
		got, want := root.search(id), oHits(ref, id)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Sprintf("search gives %q, want %q", got, want)
		}
		pt := &PatriciaTrie{root: root, tdtCore: tdt.NewCore()}
		_, uris, err := pt.Search(llrp.ReadEvent{PC: []byte{48, 0}, ID: id})
		if fmt.Sprint(uris) != fmt.Sprint(want) || len(want) == 0 && err == nil {
			return fmt.Sprintf("Search gives %q (%v), want %q", uris, err, want)
		}
		return ""
	})
}

func TestVerifP05(t *testing.T) {
	vsearch(t, func(v *vrun) string {
		if v.r.Intn(2) == 0 {
			sub, ref := oSub(v.r)
			v.note("NewPatriciaTrie(%q)", sub)
			pt := NewPatriciaTrie(sub).(*PatriciaTrie)
			return oCompare(v.r, pt.root, ref)
		}
		ref := map[string]string{}
		for i, k := range oPool(v.r, v.r.Intn(8)) {
			ref[k] = fmt.Sprintf("u%d", i)
		}
		v.note("trie of %q", ref)
		return oCompare(v.r, oBuild(ref), ref)
	})
}

// oSub2 is a second table whose patterns partly are those of the first one
func oSub2(v *vrun, ref map[string]string) (Subscriptions, map[string]string) {
	sub, ref2 := oSub(v.r)
	for _, u := range sub.Keys() {
		for _, p := range sub[u] {
			for k := range (Subscriptions{u: {p}}).ToByteSubscriptions() {
				if v.r.Intn(3) == 0 {
					ref[k] = u
				}
			}
		}
	}
	return sub, ref2
}

func TestVerifP06(t *testing.T) {
	vsearch(t, func(v *vrun) string {
		if v.r.Intn(3) == 0 {
			_, ref := oSub(v.r)
			sub, add := oSub2(v, ref)
			root := oBuild(ref)
			if oCompare(v.r, root, ref) != "" {
				return ""
			}
			v.note("trie of %q, then AddSubscription(%q)", ref, sub)
			(&PatriciaTrie{root: root}).AddSubscription(sub)
			for k, u := range add {
				ref[k] = u
			}
			return oCompare(v.r, root, ref)
		}
		ref := map[string]string{}
		ks := oPool(v.r, 1+v.r.Intn(8))
		for i, k := range ks[:len(ks)-1] {
			ref[k] = fmt.Sprintf("u%d", i)
		}
		root := oBuild(ref)
		if oCompare(v.r, root, ref) != "" {
			return ""
		}
		k := ks[len(ks)-1]
		if v.r.Intn(8) == 0 {
			k = ks[0]
		}
		v.note("trie of %q, then add(%q, \"new\")", ref, k)
		root.add(k, "new")
		ref[k] = "new"
		return oCompare(v.r, root, ref)
	})
}

func TestVerifP07(t *testing.T) {
	vsearch(t, func(v *vrun) string {
		if v.r.Intn(3) == 0 {
			_, ref := oSub(v.r)
			sub, del := oSub2(v, ref)
			root := oBuild(ref)
			if oCompare(v.r, root, ref) != "" {
				return ""
			}
			v.note("trie of %q, then DeleteSubscription(%q)", ref, sub)
			(&PatriciaTrie{root: root}).DeleteSubscription(sub)
			for k := range del {
				delete(ref, k)
			}
			if m := oCompare(v.r, root, ref); m != "" {
				return m
			}
			for k := range del {
				if got := oGet(root, k); got != "" {
					return fmt.Sprintf("%q still mapped to %q", k, got)
				}
			}
			return ""
		}
		ref := map[string]string{}
		ks := oPool(v.r, 1+v.r.Intn(8))
		for i, k := range ks {
			if i < len(ks)-1 || v.r.Intn(2) == 0 {
				ref[k] = fmt.Sprintf("u%d", i)
			}
		}
		root := oBuild(ref)
		if oCompare(v.r, root, ref) != "" {
			return ""
		}
		k := ks[len(ks)-1]
		v.note("trie of %q, then delete(%q)", ref, k)
		root.delete(k, ref[k])
		delete(ref, k)
		if m := oCompare(v.r, root, ref); m != "" {
			return m
		}
		if got := oGet(root, k); got != "" {
			return fmt.Sprintf("%q still mapped to %q", k, got)
		}
		return ""
	})
}
