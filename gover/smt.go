package main

// SMT-LIB printing, theory prelude (sequences, maps, ADTs) and solver driver.

import (
	"bufio"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type printer struct {
	names map[*Term]string
	lits  map[*Term]string
}

func sym(s string) string {
	ok := true
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' || r == '?' || r == '$') {
			ok = false
		}
	}
	if ok {
		return s
	}
	return "|" + s + "|"
}

func (p *printer) str(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	return p.def(t)
}

// hasInterpBool: connectives cannot occur in patterns
func hasInterpBool(t *Term) bool {
	switch t.Op {
	case "ite", "and", "or", "not", "=", "<=", "=>", "forall", "exists":
		return true
	}
	for _, a := range t.Args {
		if hasInterpBool(a) {
			return true
		}
	}
	return false
}

func (p *printer) args(op string, as []*Term) string {
	var b strings.Builder
	b.WriteString("(" + op)
	for _, a := range as {
		b.WriteByte(' ')
		b.WriteString(p.str(a))
	}
	b.WriteByte(')')
	return b.String()
}

func (p *printer) def(t *Term) string {
	switch t.Op {
	case "true", "false":
		return t.Op
	case "int":
		if t.Int.Sign() < 0 {
			return fmt.Sprintf("(- %s)", strings.TrimPrefix(t.Int.String(), "-"))
		}
		return t.Int.String()
	case "real":
		s := t.Lit
		neg := strings.HasPrefix(s, "-")
		s = strings.TrimPrefix(s, "-")
		if i := strings.IndexByte(s, '/'); i >= 0 {
			s = "(/ " + s[:i] + ".0 " + s[i+1:] + ".0)"
		} else {
			s += ".0"
		}
		if neg {
			return "(- " + s + ")"
		}
		return s
	case "bv":
		return fmt.Sprintf("(_ bv%s %d)", t.Int.String(), t.Sort.Bits)
	case "const", "var":
		return sym(t.Lit)
	case "app":
		if len(t.Args) == 0 {
			return sym(t.Lit)
		}
		return p.args(sym(t.Lit), t.Args)
	case "not", "and", "or", "=>", "ite", "=", "+", "*", "<=", "div", "mod", "bvadd", "bvsub", "bvmul", "bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvudiv", "bvurem", "bvule", "bvsle", "concat":
		return p.args(t.Op, t.Args)
	case "r+", "r-", "r*", "r/":
		return p.args(t.Op[1:], t.Args)
	case "zext":
		return p.args(fmt.Sprintf("(_ zero_extend %d)", t.Sort.Bits-t.Args[0].Sort.Bits), t.Args)
	case "sext":
		return p.args(fmt.Sprintf("(_ sign_extend %d)", t.Sort.Bits-t.Args[0].Sort.Bits), t.Args)
	case "extract":
		n := t.Int.Int64()
		return p.args(fmt.Sprintf("(_ extract %d %d)", n/1000, n%1000), t.Args)
	case "bv2int":
		return p.args("bv2nat", t.Args)
	case "int2bv":
		return p.args(fmt.Sprintf("(_ int2bv %d)", t.Sort.Bits), t.Args)
	case "i2r":
		return p.args("to_real", t.Args)
	case "r2i":
		return p.args("to_int", t.Args)
	case "lit":
		if n, ok := p.lits[t]; ok {
			return n
		}
		if t.Lit == "" {
			return "empty." + t.Sort.Name
		}
		if t.Sort == SStr {
			var b []byte
			for _, v := range litVals(t) {
				b = append(b, byte(v))
			}
			return fmt.Sprintf("%q", string(b))
		}
		return "lit[" + t.Lit + "]"
	case "cat":
		n := "cat." + t.Sort.Name
		s := p.str(t.Args[len(t.Args)-1])
		for i := len(t.Args) - 2; i >= 0; i-- {
			s = "(" + n + " " + p.str(t.Args[i]) + " " + s + ")"
		}
		return s
	case "len", "at", "eqs", "pre", "sub", "upd":
		return p.args(t.Op+"."+t.Args[0].Sort.Name, t.Args)
	case "unit", "rep":
		return p.args(t.Op+"."+t.Sort.Name, t.Args)
	case "mhas", "mget", "mstore", "mdel", "meq", "mcard", "menum", "midx":
		return p.args(t.Op+"."+t.Args[0].Sort.Name, t.Args)
	case "mempty":
		return "mempty." + t.Sort.Name
	case "cons":
		if len(t.Args) == 0 {
			return sym(t.Lit)
		}
		return p.args(sym(t.Lit), t.Args)
	case "is":
		return p.args("(_ is "+sym(t.Lit)+")", t.Args)
	case "sel":
		return p.args(sym(t.Lit), t.Args)
	case "forall", "exists":
		var b strings.Builder
		b.WriteString("(" + t.Op + " (")
		for _, v := range t.Vars {
			fmt.Fprintf(&b, "(%s %s)", sym(v.Lit), v.Sort.Name)
		}
		b.WriteString(") ")
		var trigs [][]*Term
	trig:
		for _, tg := range t.Trigs {
			for _, m := range tg {
				if hasInterpBool(m) {
					continue trig
				}
			}
			trigs = append(trigs, tg)
		}
		if len(trigs) > 0 {
			b.WriteString("(! " + p.str(t.Args[0]))
			for _, tg := range trigs {
				b.WriteString(" :pattern (")
				for i, x := range tg {
					if i > 0 {
						b.WriteByte(' ')
					}
					b.WriteString(p.str(x))
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		} else {
			b.WriteString(p.str(t.Args[0]))
		}
		b.WriteString(")")
		return b.String()
	}
	return p.args("?"+t.Op, t.Args)
}

// ---- function / ADT / lemma registries ----

type SpecFun struct {
	Name   string
	Params []*Sort
	Ret    *Sort
	Axioms []*Term // definitional axioms (quantified)
	Macro  bool
	Defs   []SpecDef // defining equations by structural recursion
}

type SpecDef struct {
	Vars     []*Term
	Lhs, Rhs *Term
}

type ADTDef struct {
	Sort   *Sort
	Ctors  []Ctor
	GoName string
}
type Ctor struct {
	Name   string
	Fields []Fld
}
type Fld struct {
	Name string // Go field name
	Sel  string
	Sort *Sort
}

type AutoAxiom struct {
	Name string
	T    *Term
	Syms []string // required app symbols/ops for inclusion
}

type Theory struct {
	mu    sync.Mutex
	Funs  map[string]*SpecFun
	ADTs  map[*Sort]*ADTDef
	Autos []*AutoAxiom
}

var theory = &Theory{Funs: map[string]*SpecFun{}, ADTs: map[*Sort]*ADTDef{}}

type collector struct {
	seen  map[*Term]bool
	sorts map[*Sort]bool
	sortL []*Sort
	ops   map[string]bool // "op.Sort" and app names
	cst   []*Term
	lits  []*Term
	funs  []string
}

func (c *collector) sort(s *Sort) {
	if c.sorts[s] {
		return
	}
	c.sorts[s] = true
	if s.Elem != nil {
		c.sort(s.Elem)
	}
	if s.Key != nil {
		c.sort(s.Key)
		c.sort(SeqOf(s.Key))
	}
	if d := theory.ADTs[s]; d != nil {
		for _, ct := range d.Ctors {
			for _, f := range ct.Fields {
				c.sort(f.Sort)
			}
		}
	}
	c.sortL = append(c.sortL, s)
}

func (c *collector) term(t *Term) {
	if c.seen[t] {
		return
	}
	c.seen[t] = true
	c.sort(t.Sort)
	switch t.Op {
	case "const":
		c.cst = append(c.cst, t)
	case "lit":
		if t.Lit != "" {
			c.lits = append(c.lits, t)
		}
	case "app":
		if !c.ops[t.Lit] {
			c.ops[t.Lit] = true
			c.funs = append(c.funs, t.Lit)
		}
	case "cat", "unit", "rep":
		c.ops[t.Op+"."+t.Sort.Name] = true
	case "len", "at", "eqs", "pre", "sub", "upd", "mhas", "mget", "mstore", "mdel", "meq", "mcard", "menum", "midx":
		c.ops[t.Op+"."+t.Args[0].Sort.Name] = true
	}
	for _, a := range t.Args {
		c.term(a)
	}
	for _, v := range t.Vars {
		c.sort(v.Sort)
	}
	for _, tg := range t.Trigs {
		for _, x := range tg {
			c.term(x)
		}
	}
}

const seqAx = `
(declare-fun len.$S ($S) Int)
(declare-fun at.$S ($S Int) $E)
(declare-fun cat.$S ($S $S) $S)
(declare-fun sub.$S ($S Int Int) $S)
(declare-fun upd.$S ($S Int $E) $S)
(declare-fun unit.$S ($E) $S)
(declare-fun rep.$S ($E Int) $S)
(declare-fun eqs.$S ($S $S) Bool)
(declare-fun dif.$S ($S $S) Int)
(declare-fun pre.$S ($S $S) Bool)
(declare-const empty.$S $S)
(assert (= (len.$S empty.$S) 0))
(assert (forall ((s $S)) (! (and (>= (len.$S s) 0) (=> (= (len.$S s) 0) (= s empty.$S))) :pattern ((len.$S s)) :qid len_$S)))
#cat (assert (forall ((a $S)(b $S)) (! (and (= (len.$S (cat.$S a b)) (+ (len.$S a) (len.$S b))) (=> (= (len.$S a) 0) (= (cat.$S a b) b)) (=> (= (len.$S b) 0) (= (cat.$S a b) a))) :pattern ((cat.$S a b)) :qid catlen_$S)))
#cat (assert (forall ((a $S)(b $S)(i Int)) (! (= (at.$S (cat.$S a b) i) (ite (< i (len.$S a)) (at.$S a i) (at.$S b (- i (len.$S a))))) :pattern ((at.$S (cat.$S a b) i)) :qid catat_$S)))
#cat (assert (forall ((a $S)(b $S)(i Int)) (! (=> (and (<= 0 i) (< i (len.$S a))) (= (at.$S (cat.$S a b) i) (at.$S a i))) :pattern ((cat.$S a b) (at.$S a i)) :qid catat1_$S)))
#cat (assert (forall ((a $S)(b $S)(i Int)) (! (=> (and (<= 0 i) (< i (len.$S b))) (= (at.$S (cat.$S a b) (+ i (len.$S a))) (at.$S b i))) :pattern ((cat.$S a b) (at.$S b i)) :qid catat2_$S)))
#cat (assert (forall ((a $S)(b $S)(c $S)) (! (= (cat.$S (cat.$S a b) c) (cat.$S a (cat.$S b c))) :pattern ((cat.$S (cat.$S a b) c)) :qid catassoc_$S)))
#sub (assert (forall ((s $S)(i Int)(j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (len.$S s))) (and (= (len.$S (sub.$S s i j)) (- j i)) (=> (and (= i 0) (= j (len.$S s))) (= (sub.$S s i j) s)))) :pattern ((sub.$S s i j)) :qid sublen_$S)))
#sub (assert (forall ((s $S)(i Int)(j Int)(k Int)) (! (=> (and (<= 0 i) (<= j (len.$S s)) (<= 0 k) (< k (- j i))) (= (at.$S (sub.$S s i j) k) (at.$S s (+ i k)))) :pattern ((at.$S (sub.$S s i j) k)) :qid subat_$S)))
#sub (assert (forall ((s $S)(i Int)(j Int)(k Int)) (! (=> (and (<= 0 i) (<= j (len.$S s)) (<= i k) (< k j)) (= (at.$S (sub.$S s i j) (- k i)) (at.$S s k))) :pattern ((sub.$S s i j) (at.$S s k)) :qid subat2_$S)))
#sub#cat (assert (forall ((a $S)(b $S)(i Int)(j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (+ (len.$S a) (len.$S b)))) (= (sub.$S (cat.$S a b) i j) (ite (<= j (len.$S a)) (sub.$S a i j) (ite (<= (len.$S a) i) (sub.$S b (- i (len.$S a)) (- j (len.$S a))) (cat.$S (sub.$S a i (len.$S a)) (sub.$S b 0 (- j (len.$S a)))))))) :pattern ((sub.$S (cat.$S a b) i j)) :qid subcat_$S)))
#sub (assert (forall ((s $S)(i Int)(j Int)(k Int)(l Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (len.$S s)) (<= 0 k) (<= k l) (<= l (- j i))) (= (sub.$S (sub.$S s i j) k l) (sub.$S s (+ i k) (+ i l)))) :pattern ((sub.$S (sub.$S s i j) k l)) :qid subsub_$S)))
#sub#cat (assert (forall ((s $S)(i Int)(j Int)(k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j k) (<= k (len.$S s))) (= (cat.$S (sub.$S s i j) (sub.$S s j k)) (sub.$S s i k))) :pattern ((cat.$S (sub.$S s i j) (sub.$S s j k))) :qid subjoin_$S)))
#eqs (assert (forall ((a $S)(b $S)) (! (and (=> (eqs.$S a b) (= a b)) (or (eqs.$S a b) (not (= (len.$S a) (len.$S b))) (and (<= 0 (dif.$S a b)) (< (dif.$S a b) (len.$S a)) (not (= (at.$S a (dif.$S a b)) (at.$S b (dif.$S a b))))))) :pattern ((eqs.$S a b)) :qid eqs_$S)))
#pre (assert (forall ((p $S)(s $S)) (! (and (=> (pre.$S p s) (and (<= (len.$S p) (len.$S s)) (= (sub.$S s 0 (len.$S p)) p))) (or (pre.$S p s) (> (len.$S p) (len.$S s)) (not (eqs.$S (sub.$S s 0 (len.$S p)) p)))) :pattern ((pre.$S p s)) :qid pre_$S)))
#rep (assert (forall ((x $E)(n Int)) (! (= (len.$S (rep.$S x n)) (ite (<= n 0) 0 n)) :pattern ((rep.$S x n)) :qid replen_$S)))
#rep (assert (forall ((x $E)(n Int)(i Int)) (! (=> (and (<= 0 i) (< i n)) (= (at.$S (rep.$S x n) i) x)) :pattern ((at.$S (rep.$S x n) i)) :qid repat_$S)))
#upd (assert (forall ((s $S)(i Int)(x $E)) (! (= (len.$S (upd.$S s i x)) (len.$S s)) :pattern ((upd.$S s i x)) :qid updlen_$S)))
#upd (assert (forall ((s $S)(i Int)(x $E)(k Int)) (! (=> (and (<= 0 k) (< k (len.$S s))) (= (at.$S (upd.$S s i x) k) (ite (= k i) x (at.$S s k)))) :pattern ((at.$S (upd.$S s i x) k)) :pattern ((upd.$S s i x) (at.$S s k)) :qid updat_$S)))
#unit (assert (forall ((x $E)) (! (and (= (len.$S (unit.$S x)) 1) (= (at.$S (unit.$S x) 0) x)) :pattern ((unit.$S x)) :qid unit_$S)))
`

const mapAx = `
(declare-fun mhas.$S ($S $K) Bool)
(declare-fun mget.$S ($S $K) $V)
(declare-fun mstore.$S ($S $K $V) $S)
(declare-fun mdel.$S ($S $K) $S)
(declare-fun mcard.$S ($S) Int)
(declare-fun meq.$S ($S $S) Bool)
(declare-fun mdif.$S ($S $S) $K)
(declare-fun menum.$S ($S Int) $Q)
(declare-fun midx.$S ($S Int $K) Int)
(declare-const mempty.$S $S)
(assert (forall ((k $K)) (! (not (mhas.$S mempty.$S k)) :pattern ((mhas.$S mempty.$S k)))))
(assert (= (mcard.$S mempty.$S) 0))
(assert (forall ((m $S)) (! (and (>= (mcard.$S m) 0) (=> (= (mcard.$S m) 0) (= m mempty.$S))) :pattern ((mcard.$S m)))))
(assert (forall ((m $S)(k $K)) (! (=> (mhas.$S m k) (> (mcard.$S m) 0)) :pattern ((mhas.$S m k) (mcard.$S m)))))
(assert (forall ((m $S)(k $K)(v $V)(j $K)) (! (= (mhas.$S (mstore.$S m k v) j) (or (= j k) (mhas.$S m j))) :pattern ((mhas.$S (mstore.$S m k v) j)) :pattern ((mstore.$S m k v) (mhas.$S m j)))))
(assert (forall ((m $S)(k $K)(v $V)(j $K)) (! (= (mget.$S (mstore.$S m k v) j) (ite (= j k) v (mget.$S m j))) :pattern ((mget.$S (mstore.$S m k v) j)) :pattern ((mstore.$S m k v) (mget.$S m j)))))
(assert (forall ((m $S)(k $K)(v $V)) (! (= (mcard.$S (mstore.$S m k v)) (ite (mhas.$S m k) (mcard.$S m) (+ 1 (mcard.$S m)))) :pattern ((mcard.$S (mstore.$S m k v))))))
(assert (forall ((m $S)(k $K)(j $K)) (! (= (mhas.$S (mdel.$S m k) j) (and (not (= j k)) (mhas.$S m j))) :pattern ((mhas.$S (mdel.$S m k) j)) :pattern ((mdel.$S m k) (mhas.$S m j)))))
(assert (forall ((m $S)(k $K)(j $K)) (! (=> (not (= j k)) (= (mget.$S (mdel.$S m k) j) (mget.$S m j))) :pattern ((mget.$S (mdel.$S m k) j)) :pattern ((mdel.$S m k) (mget.$S m j)))))
(assert (forall ((m $S)(k $K)) (! (= (mcard.$S (mdel.$S m k)) (ite (mhas.$S m k) (- (mcard.$S m) 1) (mcard.$S m))) :pattern ((mcard.$S (mdel.$S m k))))))
(assert (forall ((a $S)(b $S)) (! (and (=> (meq.$S a b) (= a b)) (or (meq.$S a b) (not (= (mhas.$S a (mdif.$S a b)) (mhas.$S b (mdif.$S a b)))) (and (mhas.$S a (mdif.$S a b)) (not (= (mget.$S a (mdif.$S a b)) (mget.$S b (mdif.$S a b))))))) :pattern ((meq.$S a b)))))
#menum (assert (forall ((m $S)(t Int)) (! (= (len.$Q (menum.$S m t)) (mcard.$S m)) :pattern ((menum.$S m t)))))
#menum (assert (forall ((m $S)(t Int)(i Int)) (! (=> (and (<= 0 i) (< i (mcard.$S m))) (and (mhas.$S m (at.$Q (menum.$S m t) i)) (= (midx.$S m t (at.$Q (menum.$S m t) i)) i))) :pattern ((at.$Q (menum.$S m t) i)))))
#menum (assert (forall ((m $S)(t Int)(k $K)) (! (=> (mhas.$S m k) (and (<= 0 (midx.$S m t k)) (< (midx.$S m t k) (mcard.$S m)) (= (at.$Q (menum.$S m t) (midx.$S m t k)) k))) :pattern ((menum.$S m t) (mhas.$S m k)))))
`

const strltAx = `
(declare-fun fd (Seq_BV8 Seq_BV8) Int)
(declare-fun strlt (Seq_BV8 Seq_BV8) Bool)
(assert (forall ((a Seq_BV8)(b Seq_BV8)) (! (and (<= 0 (fd a b)) (<= (fd a b) (len.Seq_BV8 a)) (<= (fd a b) (len.Seq_BV8 b)) (or (= (fd a b) (len.Seq_BV8 a)) (= (fd a b) (len.Seq_BV8 b)) (not (= (at.Seq_BV8 a (fd a b)) (at.Seq_BV8 b (fd a b)))))) :pattern ((fd a b)))))
(assert (forall ((a Seq_BV8)(b Seq_BV8)(i Int)) (! (=> (and (<= 0 i) (< i (fd a b))) (= (at.Seq_BV8 a i) (at.Seq_BV8 b i))) :pattern ((fd a b) (at.Seq_BV8 a i)) :pattern ((fd a b) (at.Seq_BV8 b i)))))
(assert (forall ((a Seq_BV8)(b Seq_BV8)) (! (= (strlt a b) (ite (= (fd a b) (len.Seq_BV8 a)) (< (fd a b) (len.Seq_BV8 b)) (and (< (fd a b) (len.Seq_BV8 b)) (bvult (at.Seq_BV8 a (fd a b)) (at.Seq_BV8 b (fd a b)))))) :pattern ((strlt a b)))))
`

type Query struct {
	Hyps     []*Term
	Goal     *Term // nil: check satisfiability of hyps
	Ops      map[string]bool
	Skip     map[string]bool // lemma names not to be assumed (self / later)
	NoDefs bool
	NoLemma  bool
	Fallback bool // effort 0: ask the newer z3 when the first one gives up early
}

func buildSMT(q *Query, logicOpts string) string {
	var all []*Term
	for _, h := range q.Hyps {
		if h != True {
			all = append(all, h)
		}
	}
	if q.Goal != nil {
		all = append(all, Not(q.Goal))
	}
	c := &collector{seen: map[*Term]bool{}, sorts: map[*Sort]bool{}, ops: map[string]bool{}}
	for _, t := range all {
		c.term(t)
	}
	// closure over spec function axioms and auto lemmas
	var axioms []*Term
	doneF := map[string]bool{}
	doneA := map[*AutoAxiom]bool{}
	for {
		changed := false
		for i := 0; i < len(c.funs); i++ {
			f := c.funs[i]
			if doneF[f] {
				continue
			}
			doneF[f] = true
			changed = true
			sf := theory.Funs[f]
			if sf == nil {
				continue
			}
			for _, s := range sf.Params {
				c.sort(s)
			}
			c.sort(sf.Ret)
			if hiddenFuns[f] || q.NoDefs {
				continue
			}
			for _, a := range sf.Axioms {
				axioms = append(axioms, a)
				c.term(a)
			}
		}
		for _, a := range theory.Autos {
			if doneA[a] || q.NoLemma || q.Skip[a.Name] || hiddenFuns[a.Name] {
				continue
			}
			ok := true
			for _, s := range a.Syms {
				if !c.ops[s] {
					ok = false
				}
			}
			if ok {
				doneA[a] = true
				usedAutosMu.Lock()
				usedAutos[a.Name] = true
				usedAutosMu.Unlock()
				changed = true
				axioms = append(axioms, a.T)
				c.term(a.T)
			}
		}
		if !changed {
			break
		}
	}
	if c.ops["strlt"] || c.ops["fd"] {
		c.sort(SStr)
	}
	var b strings.Builder
	b.WriteString(logicOpts)
	// sorts: uninterpreted first, then datatypes together
	var adts []*Sort
	for _, s := range c.sortL {
		switch s.Kind {
		case KSeq, KMap, KOther:
			fmt.Fprintf(&b, "(declare-sort %s 0)\n", s.Name)
		case KADT:
			adts = append(adts, s)
		}
	}
	if len(adts) > 0 {
		b.WriteString("(declare-datatypes (")
		for _, s := range adts {
			fmt.Fprintf(&b, "(%s 0)", s.Name)
		}
		b.WriteString(") (")
		for _, s := range adts {
			b.WriteString("(")
			d := theory.ADTs[s]
			if d == nil {
				fmt.Fprintf(&b, "(dummy_%s)", s.Name)
			} else {
				for _, ct := range d.Ctors {
					fmt.Fprintf(&b, "(%s", ct.Name)
					for _, f := range ct.Fields {
						fmt.Fprintf(&b, " (%s %s)", f.Sel, f.Sort.Name)
					}
					b.WriteString(")")
				}
			}
			b.WriteString(")\n")
		}
		b.WriteString("))\n")
	}
	for _, s := range c.sortL {
		switch s.Kind {
		case KSeq:
			op := func(o string) bool { return c.ops[o+"."+s.Name] }
			has := map[string]bool{"cat": op("cat"), "sub": op("sub"), "upd": op("upd"), "unit": op("unit"), "rep": op("rep"), "eqs": op("eqs"), "pre": op("pre")}
			if has["pre"] {
				has["sub"], has["cat"], has["eqs"] = true, true, true
			}
			if has["sub"] && has["cat"] {
				has["eqs"] = true
			}
			for _, line := range strings.Split(seqAx, "\n") {
				if line == "" {
					continue
				}
				ok := true
				for strings.HasPrefix(line, "#") {
					line = line[1:]
					j := strings.IndexAny(line, "# ")
					if !has[line[:j]] || s == SStr && hiddenFuns["_"+line[:j]] && strings.Contains(line, "(assert") {
						ok = false
					}
					line = strings.TrimPrefix(line[j:], " ")
				}
				if ok {
					line = strings.ReplaceAll(line, "$S", s.Name)
					line = strings.ReplaceAll(line, "$E", s.Elem.Name)
					b.WriteString(line + "\n")
				}
			}
		}
	}
	for _, s := range c.sortL {
		if s.Kind == KMap {
			for _, line := range strings.Split(mapAx, "\n") {
				if line == "" {
					continue
				}
				if strings.HasPrefix(line, "#menum ") {
					if !c.ops["menum."+s.Name] && !c.ops["midx."+s.Name] {
						continue
					}
					line = line[7:]
				}
				line = strings.ReplaceAll(line, "$S", s.Name)
				line = strings.ReplaceAll(line, "$K", s.Key.Name)
				line = strings.ReplaceAll(line, "$V", s.Elem.Name)
				line = strings.ReplaceAll(line, "$Q", SeqOf(s.Key).Name)
				b.WriteString(line + "\n")
			}
		}
	}
	if c.ops["strlt"] || c.ops["fd"] {
		b.WriteString(strltAx)
	}
	p := &printer{names: map[*Term]string{}, lits: map[*Term]string{}}
	sort.Slice(c.lits, func(i, j int) bool { return c.lits[i].id < c.lits[j].id })
	for i, l := range c.lits {
		n := fmt.Sprintf("lit!%d", i)
		p.lits[l] = n
		fmt.Fprintf(&b, "(declare-const %s %s)\n", n, l.Sort.Name)
		v := litVals(l)
		fmt.Fprintf(&b, "(assert (and (= (len.%s %s) %d)", l.Sort.Name, n, len(v))
		for k, x := range v {
			fmt.Fprintf(&b, " (= (at.%s %s %d) %s)", l.Sort.Name, n, k, p.def(litElem(x, l.Sort.Elem)))
		}
		b.WriteString("))\n")
	}
	sort.Slice(c.cst, func(i, j int) bool { return c.cst[i].id < c.cst[j].id })
	declared := map[string]bool{}
	for _, k := range c.cst {
		if declared[k.Lit] {
			continue
		}
		declared[k.Lit] = true
		fmt.Fprintf(&b, "(declare-const %s %s)\n", sym(k.Lit), k.Sort.Name)
	}
	sort.Strings(c.funs)
	for _, f := range c.funs {
		if f == "strlt" || f == "fd" {
			continue
		}
		sf := theory.Funs[f]
		if sf == nil {
			panic("undeclared spec function " + f)
		}
		fmt.Fprintf(&b, "(declare-fun %s (", sym(f))
		for i, s := range sf.Params {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(s.Name)
		}
		fmt.Fprintf(&b, ") %s)\n", sf.Ret.Name)
	}
	for _, a := range axioms {
		fmt.Fprintf(&b, "(assert %s)\n", p.str(a))
	}
	// sharing
	cnt := map[*Term]int{}
	var count func(t *Term)
	var order []*Term
	count = func(t *Term) {
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		for _, a := range t.Args {
			count(a)
		}
		order = append(order, t)
	}
	for _, t := range all {
		count(t)
	}
	k := 0
	for _, t := range order {
		if cnt[t] > 1 && t.size > 4 && !t.bound {
			n := fmt.Sprintf("d!%d", k)
			k++
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, t.Sort.Name, p.def(t))
			p.names[t] = n
		}
	}
	for _, t := range all {
		fmt.Fprintf(&b, "(assert %s)\n", p.str(t))
	}
	// closed sequence terms that occur under quantifiers only: mentioned once in the
	// open, so that the triggers over them can fire
	ground, inQ := map[*Term]bool{}, map[*Term]bool{}
	var list []*Term
	var walk func(t *Term, q bool)
	walk = func(t *Term, q bool) {
		m := ground
		if q {
			m = inQ
		}
		if m[t] {
			return
		}
		m[t] = true
		if q && !t.bound && t.Sort.Kind == KSeq && (t.Op == "cat" || t.Op == "upd" || t.Op == "sub") {
			list = append(list, t)
		}
		isQ := t.Op == "forall" || t.Op == "exists"
		for _, a := range t.Args {
			walk(a, q || isQ)
		}
		for _, tr := range t.Trigs {
			for _, a := range tr {
				walk(a, true)
			}
		}
	}
	for _, t := range all {
		walk(t, false)
	}
	seenDecl := map[string]bool{}
	for _, t := range list {
		if ground[t] {
			continue
		}
		if !seenDecl[t.Sort.Name] {
			seenDecl[t.Sort.Name] = true
			fmt.Fprintf(&b, "(declare-fun seen.%s (%s) Bool)\n", t.Sort.Name, t.Sort.Name)
		}
		fmt.Fprintf(&b, "(assert (seen.%s %s))\n", t.Sort.Name, p.str(t))
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

// ---- solver driver ----

var (
	solverSem   = make(chan struct{}, 8)
	solverNanos int64
	solverCalls int64
	backendCnt  = map[string]int{}
	backendMu   sync.Mutex
	dumpDir     string
	cacheDir    string
	workDir     string
)

type SolveRes struct {
	Status  string // unsat sat unknown
	Backend string
	Out     string
	Dur     time.Duration
}

// jobserver bounds the solvers that run at a time over all worker processes:
// a pipe with one byte per slot, inherited as the descriptors 3 and 4.
type jobserver struct {
	once sync.Once
	r, w *os.File
}

var jobs jobserver

const jobsWait = 30 * time.Second // a worker that was killed does not return its slots

// acquire waits for a slot and returns the function that gives it back.
func (j *jobserver) acquire() func() {
	j.once.Do(func() {
		if os.Getenv("GOVER_JOBS") != "" {
			j.r, j.w = os.NewFile(3, "jobs-r"), os.NewFile(4, "jobs-w")
		}
	})
	if j.r == nil {
		return func() {}
	}
	var state int32 // 1: got a slot, 2: gave up
	got := make(chan bool, 1)
	go func() {
		var b [1]byte
		n, err := j.r.Read(b[:])
		ok := n == 1 && err == nil
		if !atomic.CompareAndSwapInt32(&state, 0, 1) {
			if ok {
				j.w.Write(b[:])
			}
			return
		}
		got <- ok
	}()
	release := func(ok bool) func() {
		return func() {
			if ok {
				j.w.Write([]byte{1})
			}
		}
	}
	select {
	case ok := <-got:
		return release(ok)
	case <-time.After(jobsWait):
		if atomic.CompareAndSwapInt32(&state, 0, 2) {
			return func() {}
		}
		return release(<-got)
	}
}

// newJobs makes the pipe the workers share.
func newJobs(n int) ([]*os.File, error) {
	r, w, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	if _, err := w.Write(make([]byte, n)); err != nil {
		return nil, err
	}
	return []*os.File{r, w}, nil
}

// solverProc is a solver kept running between queries, with a reset after each
type solverProc struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	uses int
}

var (
	procMu sync.Mutex
	procs  = map[string][]*solverProc{}
)

func getProc(name string, argv []string) (*solverProc, error) {
	procMu.Lock()
	if l := procs[name]; len(l) > 0 {
		p := l[len(l)-1]
		procs[name] = l[:len(l)-1]
		procMu.Unlock()
		return p, nil
	}
	procMu.Unlock()
	cmd := exec.Command(argv[0], argv[1:]...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &solverProc{cmd: cmd, in: in, out: bufio.NewReader(out)}, nil
}

func (p *solverProc) kill() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

func (p *solverProc) ask(text string, tmo time.Duration) (string, bool) {
	type ans struct {
		s  string
		ok bool
	}
	ch := make(chan ans, 1)
	go func() {
		if _, err := io.WriteString(p.in, "(reset)\n"+text+"\n(echo \"end-of-answer\")\n"); err != nil {
			ch <- ans{}
			return
		}
		var b strings.Builder
		for {
			l, err := p.out.ReadString('\n')
			if err != nil {
				ch <- ans{b.String(), false}
				return
			}
			if strings.Contains(l, "end-of-answer") {
				ch <- ans{b.String(), true}
				return
			}
			b.WriteString(l)
		}
	}()
	select {
	case a := <-ch:
		return a.s, a.ok
	case <-time.After(tmo):
		return "timeout", false
	}
}

func runSolver(name string, argv []string, text string, tmo time.Duration) (string, time.Duration) {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	defer jobs.acquire()()
	t0 := time.Now()
	var outS string
	if name == "cvc5" {
		ctx, cancel := context.WithTimeout(context.Background(), tmo)
		cmd := exec.CommandContext(ctx, argv[0], argv[1:]...)
		cmd.Stdin = strings.NewReader(text)
		b, _ := cmd.Output()
		outS = string(b)
		cancel()
	} else if p, err := getProc(name, argv); err == nil {
		var ok bool
		outS, ok = p.ask(text, tmo)
		p.uses++
		if !ok || p.uses > 300 {
			p.kill()
		} else {
			procMu.Lock()
			procs[name] = append(procs[name], p)
			procMu.Unlock()
		}
	}
	d := time.Since(t0)
	atomic.AddInt64(&solverNanos, int64(d))
	atomic.AddInt64(&solverCalls, 1)
	if os.Getenv("GOVER_SLOW") != "" && d > 400*time.Millisecond {
		h := sha256.Sum256([]byte(text))
		fmt.Fprintln(os.Stderr, "SLOW", name, d.Round(time.Millisecond), strings.TrimSpace(outS), hex.EncodeToString(h[:4]))
		os.WriteFile("/tmp/slow/"+hex.EncodeToString(h[:4])+".smt2", []byte(text), 0644)
	}
	s := strings.TrimSpace(outS)
	if strings.Contains(s, "error") && os.Getenv("GOVER_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "SOLVER ERROR:", s)
		os.WriteFile("/tmp/gover_err.smt2", []byte(text), 0644)
	}
	line := s
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		line = s[:i]
	}
	switch line {
	case "sat", "unsat", "unknown":
		return line, d
	}
	if strings.Contains(s, "error") {
		return "error: " + s, d
	}
	return "unknown", d
}

const optsZ3 = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.arith.solver 2)\n(set-option :rlimit %d)\n"

// quickSolve: bounded z3 (deterministic resource limit) used in invariant inference and path pruning.
func z3Solve(q *Query, rlimit int, tmo time.Duration) SolveRes {
	text := buildSMT(q, fmt.Sprintf(optsZ3, rlimit))
	if d := os.Getenv("GOVER_DUMP"); d != "" && q.Goal != nil && strings.Contains(q.Goal.String(), os.Getenv("GOVER_DUMPSUB")) {
		h := sha256.Sum256([]byte(text))
		os.WriteFile(filepath.Join(d, hex.EncodeToString(h[:4])+".smt2"), []byte("; "+q.Goal.String()+"\n"+text), 0644)
	}
	var ck string
	if cacheDir != "" {
		h := sha256.Sum256([]byte(text))
		ck = filepath.Join(cacheDir, hex.EncodeToString(h[:16]))
		if b, err := os.ReadFile(ck); err == nil {
			return SolveRes{Status: string(b), Backend: "z3"}
		}
	}
	r, d := runSolver("z3", []string{"z3", "-in"}, text, tmo)
	if ck != "" && !strings.HasPrefix(r, "error") {
		os.WriteFile(ck, []byte(r), 0644)
	}
	return SolveRes{Status: r, Backend: "z3", Dur: d, Out: r}
}

var quickRlimit = 3000000

// prove tries to discharge goal from hyps with the back ends in turn.
func prove(q *Query, effort int) SolveRes {
	if q.Goal == True {
		return SolveRes{Status: "unsat", Backend: "simplifier"}
	}
	if g := witnesses(q); g != q.Goal {
		q = &Query{Hyps: q.Hyps, Goal: g, Ops: q.Ops, Skip: q.Skip, NoLemma: q.NoLemma, Fallback: q.Fallback}
		if g == True {
			return SolveRes{Status: "unsat", Backend: "simplifier"}
		}
	}
	for _, h := range q.Hyps {
		if h == False {
			return SolveRes{Status: "unsat", Backend: "simplifier"}
		}
		if h == q.Goal {
			return SolveRes{Status: "unsat", Backend: "simplifier"}
		}
	}
	lim := 40000000
	if effort == 0 {
		lim = quickRlimit
	}
	r := z3Solve(q, lim, 60*time.Second)
	if r.Status == "unsat" || effort == 0 && !(q.Fallback && r.Status == "unknown") {
		return r
	}
	// second: newer z3, then cvc5
	text := buildSMT(q, fmt.Sprintf("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :rlimit %d)\n", lim))
	if cacheDir != "" {
		h := sha256.Sum256([]byte("n" + text))
		ck := filepath.Join(cacheDir, hex.EncodeToString(h[:16]))
		if b, err := os.ReadFile(ck); err == nil {
			if string(b) == "unsat" {
				return SolveRes{Status: "unsat", Backend: "z3-new"}
			}
		} else {
			s, _ := runSolver("z3-new", []string{"z3-new", "-in"}, text, 45*time.Second)
			os.WriteFile(ck, []byte(s), 0644)
			if s == "unsat" {
				return SolveRes{Status: "unsat", Backend: "z3-new"}
			}
		}
		return r
	}
	s, d := runSolver("z3-new", []string{"z3-new", "-in"}, text, 45*time.Second)
	if s == "unsat" {
		return SolveRes{Status: "unsat", Backend: "z3-new", Dur: d}
	}
	return r
}

// hiddenFuns: spec functions treated as uninterpreted in the current proof.
var hiddenFuns = map[string]bool{}

func hide(fs []string) {
	hiddenFuns = map[string]bool{}
	for _, f := range fs {
		known := theory.Funs[f] != nil || f == "_pre" || f == "_cat" || f == "_sub" // axioms about strings
		for _, a := range theory.Autos {
			known = known || a.Name == f
		}
		if !known {
			serr("hide: unknown spec function or lemma %s", f)
		}
		hiddenFuns[f] = true
	}
}
