package main

// Sequences (Go strings, slices) — term-level constructors with normalisation.
// A literal sequence has Op "lit", payload Lit = comma separated elements.

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"sync"
)

func LitSeq(vals []uint64, s *Sort) *Term {
	if len(vals) == 0 {
		return Empty(s)
	}
	var b strings.Builder
	for i, v := range vals {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(strconv.FormatUint(v, 10))
	}
	return mk("lit", s, nil, b.String())
}
func StrLit(x string) *Term {
	var v []uint64
	for i := 0; i < len(x); i++ {
		v = append(v, uint64(x[i]))
	}
	return LitSeq(v, SStr)
}
func Empty(s *Sort) *Term { return mk("lit", s, nil, "") }

func litVals(t *Term) []uint64 {
	if t.Lit == "" {
		return nil
	}
	var r []uint64
	for _, p := range strings.Split(t.Lit, ",") {
		n, _ := strconv.ParseUint(p, 10, 64)
		r = append(r, n)
	}
	return r
}
func isLit(t *Term) bool   { return t.Op == "lit" }
func isEmpty(t *Term) bool { return t.Op == "lit" && t.Lit == "" }
func litElem(v uint64, e *Sort) *Term {
	if e.Kind == KBV {
		return BVT(v, e.Bits)
	}
	return IntB(new(big.Int).SetUint64(v))
}
func elemLit(t *Term) (uint64, bool) {
	if (isBV(t) || isInt(t)) && t.Int.IsUint64() {
		return t.Int.Uint64(), true
	}
	return 0, false
}

func Unit(x *Term) *Term {
	if v, ok := elemLit(x); ok {
		return LitSeq([]uint64{v}, SeqOf(x.Sort))
	}
	return mk("unit", SeqOf(x.Sort), nil, "", x)
}

func catParts(t *Term) []*Term {
	if t.Op == "cat" {
		return t.Args
	}
	return []*Term{t}
}

func Cat(a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Cat sorts %s %s", a.Sort, b.Sort))
	}
	if isEmpty(a) {
		return b
	}
	if isEmpty(b) {
		return a
	}
	pa, pb := catParts(a), catParts(b)
	out := append([]*Term{}, pa...)
	for _, x := range pb {
		l := out[len(out)-1]
		if isLit(l) && isLit(x) {
			out[len(out)-1] = LitSeq(append(litVals(l), litVals(x)...), a.Sort)
			continue
		}
		// rejoin adjacent slices of one sequence
		if l.Op == "sub" && x.Op == "sub" && l.Args[0] == x.Args[0] && l.Args[2] == x.Args[1] && subOK(l) && subOK(x) {
			out[len(out)-1] = SubSeq(l.Args[0], l.Args[1], x.Args[2])
			continue
		}
		out = append(out, x)
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("cat", a.Sort, nil, "", out...)
}

// subOK: never known syntactically in general; kept conservative
func subOK(t *Term) bool { return false }

func Len(a *Term) *Term {
	switch a.Op {
	case "lit":
		return IntT(int64(len(litVals(a))))
	case "unit":
		return IntT(1)
	case "cat":
		r := IntT(0)
		for _, x := range a.Args {
			r = Add(r, Len(x))
		}
		return r
	case "upd":
		return Len(a.Args[0])
	case "ite":
		return Ite(a.Args[0], Len(a.Args[1]), Len(a.Args[2]))
	case "sub":
		if a.Lit == "ok" {
			return Sub(a.Args[2], a.Args[1])
		}
	case "rep":
		if a.Lit == "ok" {
			return a.Args[1]
		}
	case "const":
		lenMu.Lock()
		l := lenOf[a]
		lenMu.Unlock()
		if l != nil {
			return l
		}
	}
	return mk("len", SInt, nil, "", a)
}

// lenOf: lengths of havoced arrays (the state also carries the equation).
var lenOf = map[*Term]*Term{}
var lenMu sync.Mutex

// FreshLen: a fresh sequence of known length; eq must be assumed.
func FreshLen(hint string, so *Sort, l *Term) (c, eq *Term) {
	c = Fresh(hint, so)
	raw := mk("len", SInt, nil, "", c)
	lenMu.Lock()
	lenOf[c] = l
	lenMu.Unlock()
	return c, mk("=", SBool, nil, "", raw, l)
}

// SubOK: a subsequence whose bounds are known to be in range on this path.
func SubOK(a, i, j *Term) *Term {
	t := SubSeq(a, i, j)
	if t.Op == "sub" && t.Args[0] == a && t.Args[1] == i && t.Args[2] == j {
		return mk("sub", a.Sort, nil, "ok", a, i, j)
	}
	return t
}

// RepOK: a repetition whose count is known to be nonnegative on this path.
func RepOK(x, n *Term) *Term {
	t := Rep(x, n)
	if t.Op == "rep" {
		return mk("rep", t.Sort, nil, "ok", x, n)
	}
	return t
}

func At(a, i *Term) *Term {
	if n, ok := IntVal(i); ok && n >= 0 {
		switch a.Op {
		case "lit":
			v := litVals(a)
			if int(n) < len(v) {
				return litElem(v[n], a.Sort.Elem)
			}
		case "unit":
			if n == 0 {
				return a.Args[0]
			}
		case "cat":
			off := int64(0)
			for _, x := range a.Args {
				l, ok := IntVal(Len(x))
				if !ok {
					break
				}
				if n < off+l {
					return At(x, IntT(n-off))
				}
				off += l
			}
		case "upd":
			if m, ok := IntVal(a.Args[1]); ok && m != n {
				return At(a.Args[0], i)
			}
		case "rep":
			if l, ok := IntVal(a.Args[1]); ok && n < l {
				return a.Args[0]
			}
		}
	}
	if a.Op == "upd" && a.Args[1] == i {
		// valid index assumed (writes are bounds-checked)
		if n, ok := IntVal(i); ok {
			if l, ok2 := IntVal(Len(a)); ok2 && n >= 0 && n < l {
				return a.Args[2]
			}
		}
	}
	return mk("at", a.Sort.Elem, nil, "", a, i)
}

func SubSeq(a, i, j *Term) *Term {
	iv, iok := IntVal(i)
	jv, jok := IntVal(j)
	if iok && iv == 0 && j == Len(a) {
		return a
	}
	if iok && jok && iv == jv && iv >= 0 {
		if iv == 0 {
			return Empty(a.Sort)
		}
	}
	switch a.Op {
	case "lit":
		if iok && jok {
			v := litVals(a)
			if iv >= 0 && iv <= jv && int(jv) <= len(v) {
				return LitSeq(v[iv:jv], a.Sort)
			}
		}
	case "cat":
		// cut at component boundaries when offsets are syntactically exact
		off := IntT(0)
		si, ei := -1, -1
		for k := 0; k <= len(a.Args); k++ {
			if si < 0 && off == i {
				si = k
			}
			if off == j {
				ei = k
			}
			if k < len(a.Args) {
				off = Add(off, Len(a.Args[k]))
			}
		}
		if si >= 0 && ei >= si {
			r := Empty(a.Sort)
			for k := si; k < ei; k++ {
				r = Cat(r, a.Args[k])
			}
			return r
		}
		// constant cut inside leading literal(s)
		if iok && iv > 0 && isLit(a.Args[0]) && int(iv) <= len(litVals(a.Args[0])) && j == Len(a) {
			r := LitSeq(litVals(a.Args[0])[iv:], a.Sort)
			for _, x := range a.Args[1:] {
				r = Cat(r, x)
			}
			return r
		}
	case "rep":
		if iok && jok && iv >= 0 && iv <= jv {
			if l, ok := IntVal(a.Args[1]); ok && jv <= l {
				return Rep(a.Args[0], IntT(jv-iv))
			}
		}
	}
	return mk("sub", a.Sort, nil, "", a, i, j)
}

func Rep(x, n *Term) *Term {
	if v, ok := IntVal(n); ok {
		if v <= 0 {
			return Empty(SeqOf(x.Sort))
		}
		if c, ok2 := elemLit(x); ok2 && v <= 64 {
			vals := make([]uint64, v)
			for i := range vals {
				vals[i] = c
			}
			return LitSeq(vals, SeqOf(x.Sort))
		}
	}
	return mk("rep", SeqOf(x.Sort), nil, "", x, n)
}

func Upd(a, i, x *Term) *Term {
	if n, ok := IntVal(i); ok && n >= 0 {
		switch a.Op {
		case "lit":
			v := litVals(a)
			if int(n) < len(v) {
				pre := LitSeq(v[:n], a.Sort)
				post := LitSeq(v[n+1:], a.Sort)
				return Cat(Cat(pre, Unit(x)), post)
			}
		case "cat", "unit":
			off := int64(0)
			for k, p := range catParts(a) {
				l, ok := IntVal(Len(p))
				if !ok {
					break
				}
				if n < off+l {
					if p.Op == "lit" || p.Op == "unit" {
						var np *Term
						if p.Op == "unit" {
							np = Unit(x)
						} else {
							np = Upd(p, IntT(n-off), x)
						}
						r := Empty(a.Sort)
						for kk, q := range catParts(a) {
							if kk == k {
								r = Cat(r, np)
							} else {
								r = Cat(r, q)
							}
						}
						return r
					}
					break
				}
				off += l
			}
		}
	}
	return mk("upd", a.Sort, nil, "", a, i, x)
}

func seqEq(a, b *Term) *Term {
	if isLit(a) && isLit(b) {
		return BoolT(a.Lit == b.Lit)
	}
	la, lb := Len(a), Len(b)
	if n, ok := IntVal(la); ok {
		if m, ok2 := IntVal(lb); ok2 && n != m {
			return False
		}
	}
	if isEmpty(a) {
		return Eq(lb, IntT(0))
	}
	if isEmpty(b) {
		return Eq(la, IntT(0))
	}
	pa, pb := catParts(a), catParts(b)
	// strip common prefix / suffix
	i := 0
	for i < len(pa) && i < len(pb) && pa[i] == pb[i] {
		i++
	}
	j := 0
	for j < len(pa)-i && j < len(pb)-i && pa[len(pa)-1-j] == pb[len(pb)-1-j] {
		j++
	}
	if i > 0 || j > 0 {
		ra, rb := Empty(a.Sort), Empty(a.Sort)
		for _, x := range pa[i : len(pa)-j] {
			ra = Cat(ra, x)
		}
		for _, x := range pb[i : len(pb)-j] {
			rb = Cat(rb, x)
		}
		return seqEq2(ra, rb)
	}
	return seqEq2(a, b)
}

func seqEq2(a, b *Term) *Term {
	if a == b {
		return True
	}
	pa, pb := catParts(a), catParts(b)
	// leading literals: strip / refute
	if isLit(pa[0]) && isLit(pb[0]) && !isEmpty(pa[0]) && !isEmpty(pb[0]) {
		va, vb := litVals(pa[0]), litVals(pb[0])
		n := len(va)
		if len(vb) < n {
			n = len(vb)
		}
		for k := 0; k < n; k++ {
			if va[k] != vb[k] {
				return False
			}
		}
		ra, rb := LitSeq(va[n:], a.Sort), LitSeq(vb[n:], a.Sort)
		for _, x := range pa[1:] {
			ra = Cat(ra, x)
		}
		for _, x := range pb[1:] {
			rb = Cat(rb, x)
		}
		return seqEq(ra, rb)
	}
	// component-wise for equal, constant lengths
	if len(pa) > 1 || len(pb) > 1 {
		l0, ok0 := IntVal(Len(pa[0]))
		l1, ok1 := IntVal(Len(pb[0]))
		if ok0 && ok1 && l0 == l1 {
			ra, rb := Empty(a.Sort), Empty(a.Sort)
			for _, x := range pa[1:] {
				ra = Cat(ra, x)
			}
			for _, x := range pb[1:] {
				rb = Cat(rb, x)
			}
			return And(seqEq(pa[0], pb[0]), seqEq(ra, rb))
		}
	}
	if a.Op == "unit" && b.Op == "unit" {
		return Eq(a.Args[0], b.Args[0])
	}
	if a.Op == "unit" && isLit(b) {
		return Eq(a.Args[0], litElem(litVals(b)[0], a.Sort.Elem))
	}
	if b.Op == "unit" && isLit(a) {
		return seqEq2(b, a)
	}
	if isEmpty(a) || isEmpty(b) {
		return seqEq(a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("eqs", SBool, nil, "", a, b)
}

// Prefix predicate
func PrefixT(p, s *Term) *Term {
	if p == s || isEmpty(p) {
		return True
	}
	pp, ps := catParts(p), catParts(s)
	if pp[0] == ps[0] {
		rp, rs := Empty(p.Sort), Empty(p.Sort)
		for _, x := range pp[1:] {
			rp = Cat(rp, x)
		}
		for _, x := range ps[1:] {
			rs = Cat(rs, x)
		}
		return PrefixT(rp, rs)
	}
	if isLit(pp[0]) && isLit(ps[0]) && !isEmpty(ps[0]) {
		va, vb := litVals(pp[0]), litVals(ps[0])
		n := len(va)
		if len(vb) < n {
			n = len(vb)
		}
		for k := 0; k < n; k++ {
			if va[k] != vb[k] {
				return False
			}
		}
		rp, rs := LitSeq(va[n:], p.Sort), LitSeq(vb[n:], p.Sort)
		for _, x := range pp[1:] {
			rp = Cat(rp, x)
		}
		for _, x := range ps[1:] {
			rs = Cat(rs, x)
		}
		return PrefixT(rp, rs)
	}
	return mk("pre", SBool, nil, "", p, s)
}
