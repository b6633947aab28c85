package filtering

import (
	"fmt"
	"testing"
)

// pattern semantics, straight from the property
func oMatches(s string, o int, id []byte) bool {
	n := (o%8 + len(s) + 7) / 8
	if n == 0 {
		n = 1
	}
	if len(id) < o/8+n {
		return false
	}
	for j := 0; j < len(s); j++ {
		if s[j] != 'x' && s[j] != vbit(id, o+j) {
			return false
		}
	}
	return true
}

func TestVerifP01(t *testing.T) {
	vsearch(t, func(v *vrun) string {
		r := v.r
		n := r.Intn(30)
		if r.Intn(4) == 0 {
			n = r.Intn(100)
		}
		s, o := vpat(r, n, r.Intn(6)), r.Intn(40)
		id := make([]byte, r.Intn(12))
		if r.Intn(2) == 0 {
			id = make([]byte, (o+len(s)+7)/8+r.Intn(3))
		}
		r.Read(id)
		// make near misses and matches frequent
		if r.Intn(4) > 0 {
			for j := 0; j < len(s); j++ {
				k := o + j
				if k/8 < len(id) && s[j] != 'x' {
					m := byte(1) << (7 - uint(k%8))
					id[k/8] &^= m
					if s[j] == '1' {
						id[k/8] |= m
					}
				}
			}
			if r.Intn(2) == 0 && len(id) > 0 {
				k := r.Intn(8 * len(id))
				id[k/8] ^= byte(1) << (7 - uint(k%8))
			}
		}
		v.note("NewFilter(%q, %d) on id %08b", s, o, id)
		f := NewFilter(s, o)
		if f.String != s || f.Offset != o || f.Size != len(s) {
			return fmt.Sprintf("filter describes %q at %d size %d", f.String, f.Offset, f.Size)
		}
		if got, want := f.Match(id), oMatches(s, o, id); got != want {
			return fmt.Sprintf("Match = %v, want %v", got, want)
		}
		lo := o / 8
		hi := lo + f.ByteSize
		for b := lo - 2; b < hi+2; b++ {
			if f.HasByteAt(b) != (lo <= b && b < hi) {
				return fmt.Sprintf("HasByteAt(%d) = %v", b, f.HasByteAt(b))
			}
			x, m, err := f.GetByteAt(b)
			if (err == nil) != (lo <= b && b < hi) {
				return fmt.Sprintf("GetByteAt(%d) error %v", b, err)
			}
			if err == nil {
				for k := 0; k < 8; k++ {
					j := b*8 + k - o
					care := j >= 0 && j < len(s) && s[j] != 'x'
					xb, mb := x>>(7-uint(k))&1 == 1, m>>(7-uint(k))&1 == 1
					if care && (mb || xb != (s[j] == '1')) || !care && (!mb || !xb) {
						return fmt.Sprintf("GetByteAt(%d) = %08b %08b", b, x, m)
					}
				}
			}
		}
		all := true
		for j := 0; j < len(s); j++ {
			if s[j] != 'x' {
				all = false
			}
		}
		if f.IsTransparent() != all {
			return fmt.Sprintf("IsTransparent = %v", f.IsTransparent())
		}
		return ""
	})
}
