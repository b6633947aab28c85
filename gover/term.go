package main

// Term language of the verifier: hash-consed first-order terms with a small,
// sound simplifier, printed as SMT-LIB for the back-end solvers.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
)

type SortKind int

const (
	KBool SortKind = iota
	KInt
	KReal
	KBV
	KSeq
	KADT   // algebraic data type (abstract value of a Go struct)
	KMap   // finite map (uninterpreted, axiomatised)
	KOther // uninterpreted
)

type Sort struct {
	Kind SortKind
	Name string
	Bits int
	Elem *Sort // KSeq; KMap: value
	Key  *Sort // KMap
}

func (s *Sort) String() string { return s.Name }

var (
	SBool  = &Sort{Kind: KBool, Name: "Bool"}
	SInt   = &Sort{Kind: KInt, Name: "Int"}
	SReal  = &Sort{Kind: KReal, Name: "Real"}
	SErr   = &Sort{Kind: KOther, Name: "Err"}
	SAny   = &Sort{Kind: KOther, Name: "Any"}
	sortMu sync.Mutex
	sorts  = map[string]*Sort{}
)

func BV(n int) *Sort {
	return internSort(&Sort{Kind: KBV, Name: fmt.Sprintf("(_ BitVec %d)", n), Bits: n})
}

func internSort(s *Sort) *Sort {
	sortMu.Lock()
	defer sortMu.Unlock()
	if o, ok := sorts[s.Name]; ok {
		return o
	}
	sorts[s.Name] = s
	return s
}

func mangle(s string) string {
	s = strings.NewReplacer("(_ BitVec ", "BV", ")", "", " ", "_").Replace(s)
	return s
}

func SeqOf(e *Sort) *Sort {
	return internSort(&Sort{Kind: KSeq, Name: "Seq_" + mangle(e.Name), Elem: e})
}
func MapOf(k, v *Sort) *Sort {
	return internSort(&Sort{Kind: KMap, Name: "Map_" + mangle(k.Name) + "_" + mangle(v.Name), Key: k, Elem: v})
}
func ADTSort(name string) *Sort {
	return internSort(&Sort{Kind: KADT, Name: "T_" + name})
}

var (
	SStr   = SeqOf(BV(8))
	SRunes = SeqOf(BV(32))
)

type Term struct {
	id    int
	Op    string
	Args  []*Term
	Sort  *Sort
	Int   *big.Int // int / bv / literals
	Lit   string   // name for const/var/app; string payload for "lit"
	Vars  []*Term  // quantifiers
	Trigs [][]*Term
	bound bool // contains a bound variable
	size  int
}

var (
	termMu  sync.Mutex
	termTab = map[string]*Term{}
	nextID  = 1
	freshN  = 0
)

func key(op string, args []*Term, s *Sort, i *big.Int, lit string, vars []*Term, trigs [][]*Term) string {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(s.Name)
	b.WriteByte('|')
	if i != nil {
		b.WriteString(i.String())
	}
	b.WriteByte('|')
	b.WriteString(lit)
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	for _, v := range vars {
		fmt.Fprintf(&b, ";%d", v.id)
	}
	for _, tg := range trigs {
		b.WriteByte('!')
		for _, t := range tg {
			fmt.Fprintf(&b, ".%d", t.id)
		}
	}
	return b.String()
}

func mk(op string, s *Sort, i *big.Int, lit string, args ...*Term) *Term {
	return mkq(op, s, i, lit, nil, nil, args...)
}

func mkq(op string, s *Sort, i *big.Int, lit string, vars []*Term, trigs [][]*Term, args ...*Term) *Term {
	k := key(op, args, s, i, lit, vars, trigs)
	termMu.Lock()
	defer termMu.Unlock()
	if t, ok := termTab[k]; ok {
		return t
	}
	t := &Term{id: nextID, Op: op, Args: args, Sort: s, Int: i, Lit: lit, Vars: vars, Trigs: trigs, size: 1}
	nextID++
	if op == "var" {
		t.bound = true
	}
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
		t.size += a.size
	}
	termTab[k] = t
	return t
}

// ---- constructors ----

var (
	True  = mk("true", SBool, nil, "")
	False = mk("false", SBool, nil, "")
)

func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}
func IntT(n int64) *Term    { return mk("int", SInt, big.NewInt(n), "") }
func IntB(n *big.Int) *Term { return mk("int", SInt, new(big.Int).Set(n), "") }
func RealB(r *big.Rat) *Term {
	return mk("real", SReal, nil, r.RatString())
}
func BVT(n uint64, bits int) *Term { return BVB(new(big.Int).SetUint64(n), bits) }
func BVB(n *big.Int, bits int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	r := new(big.Int).Mod(n, m)
	return mk("bv", BV(bits), r, "")
}
func Const(name string, s *Sort) *Term { return mk("const", s, nil, name) }
func Fresh(hint string, s *Sort) *Term {
	termMu.Lock()
	freshN++
	n := freshN
	termMu.Unlock()
	hint = strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' {
			return r
		}
		return '_'
	}, hint)
	return Const(fmt.Sprintf("%s!%d", hint, n), s)
}
func BoundVar(name string, s *Sort) *Term {
	termMu.Lock()
	freshN++
	n := freshN
	termMu.Unlock()
	return mk("var", s, nil, fmt.Sprintf("%s?%d", name, n))
}

func isInt(t *Term) bool { return t.Op == "int" }
func isBV(t *Term) bool  { return t.Op == "bv" }
func IntVal(t *Term) (int64, bool) {
	if t != nil && t.Op == "int" && t.Int.IsInt64() {
		return t.Int.Int64(), true
	}
	return 0, false
}

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.Args[0]
	case "<=": // not (a<=b) == b < a == b+1 <= a for Int
		if a.Args[0].Sort == SInt {
			return Le(Add(a.Args[1], IntT(1)), a.Args[0])
		}
	}
	return mk("not", SBool, nil, "", a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == True {
			return true
		}
		if a == False {
			return false
		}
		if a.Op == "and" {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[a] {
			return true
		}
		if seen[Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", SBool, nil, "", out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == False {
			return true
		}
		if a == True {
			return false
		}
		if a.Op == "or" {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[a] {
			return true
		}
		if seen[Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return True
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", SBool, nil, "", out...)
}

func Imp(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	if a == b {
		return True
	}
	if b.Op == "=>" {
		return Imp(And(a, b.Args[0]), b.Args[1])
	}
	return mk("=>", SBool, nil, "", a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if b == False {
			return And(c, a)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
	}
	return mk("ite", a.Sort, nil, "", c, a, b)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sorts differ: %s (%s) vs %s (%s)", a, a.Sort, b, b.Sort))
	}
	switch a.Sort.Kind {
	case KBool:
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	case KInt:
		if isInt(a) && isInt(b) {
			return BoolT(a.Int.Cmp(b.Int) == 0)
		}
		// bv2int(x) == c  <=>  x == c (when in range)
		if r := cmpBV2Int(a, b); r != nil {
			return r
		}
		d := Sub(a, b)
		if isInt(d) {
			return BoolT(d.Int.Sign() == 0)
		}
		if a.Op == "ite" && isInt(b) && (isInt(a.Args[1]) || isInt(a.Args[2])) {
			return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
		}
		if b.Op == "ite" && isInt(a) && (isInt(b.Args[1]) || isInt(b.Args[2])) {
			return Ite(b.Args[0], Eq(b.Args[1], a), Eq(b.Args[2], a))
		}
	case KBV:
		if isBV(a) && isBV(b) {
			return BoolT(a.Int.Cmp(b.Int) == 0)
		}
		if a.Op == "ite" && isBV(b) && isBV(a.Args[1]) && isBV(a.Args[2]) {
			return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
		}
		if b.Op == "ite" && isBV(a) && isBV(b.Args[1]) && isBV(b.Args[2]) {
			return Ite(b.Args[0], Eq(b.Args[1], a), Eq(b.Args[2], a))
		}
		if a.Op == "zext" && isBV(b) {
			n := a.Args[0].Sort.Bits
			if b.Int.BitLen() > n {
				return False
			}
			return Eq(a.Args[0], BVB(b.Int, n))
		}
		if b.Op == "zext" && isBV(a) {
			return Eq(b, a)
		}
		if a.Op == "zext" && b.Op == "zext" && a.Args[0].Sort == b.Args[0].Sort {
			return Eq(a.Args[0], b.Args[0])
		}
	case KReal:
		if a.Op == "real" && b.Op == "real" {
			return BoolT(a.Lit == b.Lit)
		}
	case KSeq:
		return seqEq(a, b)
	case KADT:
		if isCons(a) && isCons(b) {
			if a.Lit != b.Lit {
				return False
			}
			var cs []*Term
			for i := range a.Args {
				cs = append(cs, Eq(a.Args[i], b.Args[i]))
			}
			return And(cs...)
		}
		if isCons(b) && len(b.Args) == 0 {
			return IsCtor(b.Lit, a)
		}
		if isCons(a) && len(a.Args) == 0 {
			return IsCtor(a.Lit, b)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", SBool, nil, "", a, b)
}

func isCons(t *Term) bool { return t.Op == "cons" }

// linear integer normal form -------------------------------------------------

type lin struct {
	c  *big.Int
	co map[*Term]*big.Int
}

func toLin(t *Term) lin {
	l := lin{new(big.Int), map[*Term]*big.Int{}}
	addLin(&l, t, big.NewInt(1))
	return l
}

func addLin(l *lin, t *Term, k *big.Int) {
	switch t.Op {
	case "int":
		l.c.Add(l.c, new(big.Int).Mul(t.Int, k))
	case "+":
		for _, a := range t.Args {
			addLin(l, a, k)
		}
	case "*":
		if isInt(t.Args[0]) {
			addLin(l, t.Args[1], new(big.Int).Mul(k, t.Args[0].Int))
			return
		}
		fallthrough
	default:
		o, ok := l.co[t]
		if !ok {
			o = new(big.Int)
		}
		n := new(big.Int).Add(o, k)
		if n.Sign() == 0 {
			delete(l.co, t)
		} else {
			l.co[t] = n
		}
	}
}

func (l lin) term() *Term {
	var as []*Term
	for a := range l.co {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	var out []*Term
	for _, a := range as {
		k := l.co[a]
		if k.IsInt64() && k.Int64() == 1 {
			out = append(out, a)
		} else {
			out = append(out, mk("*", SInt, nil, "", IntB(k), a))
		}
	}
	if l.c.Sign() != 0 || len(out) == 0 {
		out = append(out, IntB(l.c))
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("+", SInt, nil, "", out...)
}

func Add(a, b *Term) *Term {
	switch a.Sort.Kind {
	case KInt:
		l := toLin(a)
		addLin(&l, b, big.NewInt(1))
		return l.term()
	case KBV:
		return bvop("bvadd", a, b)
	case KReal:
		return realop("+", a, b)
	case KSeq:
		return Cat(a, b)
	}
	panic("Add " + a.Sort.Name)
}

func Sub(a, b *Term) *Term {
	switch a.Sort.Kind {
	case KInt:
		l := toLin(a)
		addLin(&l, b, big.NewInt(-1))
		return l.term()
	case KBV:
		return bvop("bvsub", a, b)
	case KReal:
		return realop("-", a, b)
	}
	panic("Sub " + a.Sort.Name)
}

func Mul(a, b *Term) *Term {
	switch a.Sort.Kind {
	case KInt:
		if isInt(a) {
			l := lin{new(big.Int), map[*Term]*big.Int{}}
			if a.Int.Sign() != 0 {
				addLin(&l, b, a.Int)
			}
			return l.term()
		}
		if isInt(b) {
			return Mul(b, a)
		}
		return mk("*", SInt, nil, "", a, b)
	case KBV:
		return bvop("bvmul", a, b)
	case KReal:
		return realop("*", a, b)
	}
	panic("Mul")
}

func rat(t *Term) *big.Rat {
	r, _ := new(big.Rat).SetString(t.Lit)
	return r
}

func realop(op string, a, b *Term) *Term {
	if a.Op == "real" && b.Op == "real" {
		x, y := rat(a), rat(b)
		switch op {
		case "+":
			return RealB(new(big.Rat).Add(x, y))
		case "-":
			return RealB(new(big.Rat).Sub(x, y))
		case "*":
			return RealB(new(big.Rat).Mul(x, y))
		case "/":
			if y.Sign() != 0 {
				return RealB(new(big.Rat).Quo(x, y))
			}
		}
	}
	if op == "-" && a.Op == "real" && rat(a).Sign() == 0 && b.Op == "r/" && b.Args[1].Op == "real" {
		return realop("/", realop("-", a, b.Args[0]), b.Args[1])
	}
	return mk("r"+op, SReal, nil, "", a, b)
}

// intOf: a real term that is an integer by construction, as an integer term
func intOf(t *Term) (*Term, bool) {
	switch t.Op {
	case "real":
		if r := rat(t); r.IsInt() {
			return IntB(r.Num()), true
		}
	case "i2r":
		return t.Args[0], true
	case "r+", "r-", "r*":
		a, ok := intOf(t.Args[0])
		if !ok {
			return nil, false
		}
		b, ok := intOf(t.Args[1])
		if !ok {
			return nil, false
		}
		switch t.Op {
		case "r+":
			return Add(a, b), true
		case "r-":
			return Sub(a, b), true
		}
		return Mul(a, b), true
	}
	return nil, false
}

// quotOf: x / c for an integer x and a positive integer constant c
func quotOf(t *Term) (x, c *Term, ok bool) {
	if t.Op != "r/" || t.Args[1].Op != "real" {
		return
	}
	r := rat(t.Args[1])
	if !r.IsInt() || r.Sign() <= 0 {
		return
	}
	x, ok = intOf(t.Args[0])
	return x, IntB(r.Num()), ok
}

// RFloor: the greatest integer not above t
func RFloor(t *Term) *Term {
	if i, ok := intOf(t); ok {
		return i
	}
	if x, c, ok := quotOf(t); ok {
		return EDiv(x, c)
	}
	return mk("r2i", SInt, nil, "", t)
}

// Go integer division truncates toward zero.
func GoDiv(a, b *Term) *Term {
	if isInt(a) && isInt(b) && b.Int.Sign() != 0 {
		return IntB(new(big.Int).Quo(a.Int, b.Int))
	}
	if isInt(b) && b.Int.Sign() > 0 {
		if nonneg(a) {
			return mk("div", SInt, nil, "", a, b)
		}
		return Ite(Le(IntT(0), a), mk("div", SInt, nil, "", a, b), Sub(IntT(0), mk("div", SInt, nil, "", Sub(IntT(0), a), b)))
	}
	return mk("godiv", SInt, nil, "", a, b)
}

func GoMod(a, b *Term) *Term {
	if isInt(a) && isInt(b) && b.Int.Sign() != 0 {
		return IntB(new(big.Int).Rem(a.Int, b.Int))
	}
	if isInt(b) && b.Int.Sign() > 0 {
		if nonneg(a) {
			return mk("mod", SInt, nil, "", a, b)
		}
		return Ite(Le(IntT(0), a), mk("mod", SInt, nil, "", a, b), Sub(IntT(0), mk("mod", SInt, nil, "", Sub(IntT(0), a), b)))
	}
	return mk("gomod", SInt, nil, "", a, b)
}

// EDiv / EMod: mathematical floor division by a positive constant (spec level)
func EDiv(a, b *Term) *Term {
	if isInt(a) && isInt(b) && b.Int.Sign() > 0 {
		return IntB(new(big.Int).Div(a.Int, b.Int))
	}
	return mk("div", SInt, nil, "", a, b)
}
func EMod(a, b *Term) *Term {
	if isInt(a) && isInt(b) && b.Int.Sign() > 0 {
		return IntB(new(big.Int).Mod(a.Int, b.Int))
	}
	return mk("mod", SInt, nil, "", a, b)
}

// syntactic non-negativity
func nonneg(t *Term) bool {
	switch t.Op {
	case "int":
		return t.Int.Sign() >= 0
	case "len", "bv2int", "mod", "mcard":
		return true
	case "div":
		return nonneg(t.Args[0])
	case "+":
		for _, a := range t.Args {
			if !nonneg(a) {
				return false
			}
		}
		return true
	case "*":
		return nonneg(t.Args[0]) && nonneg(t.Args[1])
	case "ite":
		return nonneg(t.Args[1]) && nonneg(t.Args[2])
	}
	return false
}

func cmpBV2Int(a, b *Term) *Term {
	if a.Op == "bv2int" && isInt(b) {
		n := a.Args[0].Sort.Bits
		if b.Int.Sign() < 0 || b.Int.BitLen() > n {
			return False
		}
		return Eq(a.Args[0], BVB(b.Int, n))
	}
	if b.Op == "bv2int" && isInt(a) {
		return cmpBV2Int(b, a)
	}
	if a.Op == "bv2int" && b.Op == "bv2int" && a.Args[0].Sort == b.Args[0].Sort {
		return Eq(a.Args[0], b.Args[0])
	}
	return nil
}

func Le(a, b *Term) *Term {
	switch a.Sort.Kind {
	case KInt:
		l := toLin(b)
		addLin(&l, a, big.NewInt(-1)) // b - a >= 0
		if len(l.co) == 0 {
			return BoolT(l.c.Sign() >= 0)
		}
		if a.Op == "bv2int" && isInt(b) {
			n := a.Args[0].Sort.Bits
			if b.Int.Sign() < 0 {
				return False
			}
			if b.Int.BitLen() > n {
				return True
			}
			return BVULe(a.Args[0], BVB(b.Int, n))
		}
		if b.Op == "bv2int" && isInt(a) {
			n := b.Args[0].Sort.Bits
			if a.Int.Sign() <= 0 {
				return True
			}
			if a.Int.BitLen() > n {
				return False
			}
			return BVULe(BVB(a.Int, n), b.Args[0])
		}
		// canonical: pos <= neg sides
		var posL, negL = lin{new(big.Int), map[*Term]*big.Int{}}, lin{new(big.Int), map[*Term]*big.Int{}}
		for t, k := range l.co {
			if k.Sign() > 0 {
				posL.co[t] = k
			} else {
				negL.co[t] = new(big.Int).Neg(k)
			}
		}
		if l.c.Sign() >= 0 {
			posL.c = l.c
		} else {
			negL.c = new(big.Int).Neg(l.c)
		}
		p, n := posL.term(), negL.term()
		if isInt(n) && n.Int.Sign() == 0 && nonneg(p) {
			return True
		}
		return mk("<=", SBool, nil, "", n, p)
	case KReal:
		if a.Op == "real" && b.Op == "real" {
			return BoolT(rat(a).Cmp(rat(b)) <= 0)
		}
		if x, ok := intOf(a); ok {
			if y, ok := intOf(b); ok {
				return Le(x, y)
			}
			if y, _, ok := quotOf(b); ok && a.Op == "real" && rat(a).Sign() == 0 {
				return Le(IntT(0), y)
			}
		}
		return mk("<=", SBool, nil, "", a, b)
	}
	panic("Le " + a.Sort.Name)
}

func Lt(a, b *Term) *Term {
	if a.Sort == SInt {
		return Le(Add(a, IntT(1)), b)
	}
	return Not(Le(b, a))
}

func BVULe(a, b *Term) *Term {
	if isBV(a) && isBV(b) {
		return BoolT(a.Int.Cmp(b.Int) <= 0)
	}
	if isBV(b) && b.Int.BitLen() == b.Sort.Bits && isAllOnes(b) {
		return True
	}
	if isBV(a) && a.Int.Sign() == 0 {
		return True
	}
	return mk("bvule", SBool, nil, "", a, b)
}
func BVSLe(a, b *Term) *Term {
	if isBV(a) && isBV(b) {
		return BoolT(signed(a).Cmp(signed(b)) <= 0)
	}
	return mk("bvsle", SBool, nil, "", a, b)
}

func isAllOnes(t *Term) bool {
	m := new(big.Int).Lsh(big.NewInt(1), uint(t.Sort.Bits))
	m.Sub(m, big.NewInt(1))
	return t.Int.Cmp(m) == 0
}
func signed(t *Term) *big.Int {
	n := t.Sort.Bits
	if t.Int.Bit(n-1) == 1 {
		return new(big.Int).Sub(t.Int, new(big.Int).Lsh(big.NewInt(1), uint(n)))
	}
	return t.Int
}

func bvop(op string, a, b *Term) *Term {
	n := a.Sort.Bits
	if a.Sort != b.Sort {
		panic("bvop sorts " + op + " " + a.Sort.Name + " " + b.Sort.Name)
	}
	if isBV(a) && isBV(b) {
		x, y := a.Int, b.Int
		r := new(big.Int)
		switch op {
		case "bvadd":
			return BVB(r.Add(x, y), n)
		case "bvsub":
			return BVB(r.Sub(x, y), n)
		case "bvmul":
			return BVB(r.Mul(x, y), n)
		case "bvand":
			return BVB(r.And(x, y), n)
		case "bvor":
			return BVB(r.Or(x, y), n)
		case "bvxor":
			return BVB(r.Xor(x, y), n)
		case "bvudiv":
			if y.Sign() != 0 {
				return BVB(r.Quo(x, y), n)
			}
		case "bvurem":
			if y.Sign() != 0 {
				return BVB(r.Rem(x, y), n)
			}
		case "bvshl":
			if y.IsInt64() && y.Int64() < 4096 {
				return BVB(r.Lsh(x, uint(y.Int64())), n)
			}
		case "bvlshr":
			if y.IsInt64() && y.Int64() < 4096 {
				return BVB(r.Rsh(x, uint(y.Int64())), n)
			}
		}
	}
	zero := func(t *Term) bool { return isBV(t) && t.Int.Sign() == 0 }
	switch op {
	case "bvadd", "bvor", "bvxor":
		if zero(a) {
			return b
		}
		if zero(b) {
			return a
		}
	case "bvsub", "bvshl", "bvlshr":
		if zero(b) {
			return a
		}
	case "bvand":
		if zero(a) || zero(b) {
			return BVT(0, n)
		}
	}
	return mk(op, a.Sort, nil, "", a, b)
}

func Zext(a *Term, n int) *Term {
	if a.Sort.Bits == n {
		return a
	}
	if isBV(a) {
		return BVB(a.Int, n)
	}
	if a.Op == "zext" {
		return Zext(a.Args[0], n)
	}
	return mk("zext", BV(n), nil, "", a)
}
func Sext(a *Term, n int) *Term {
	if a.Sort.Bits == n {
		return a
	}
	if isBV(a) {
		return BVB(signed(a), n)
	}
	return mk("sext", BV(n), nil, "", a)
}
func Extract(a *Term, hi, lo int) *Term {
	if lo == 0 && hi == a.Sort.Bits-1 {
		return a
	}
	if isBV(a) {
		return BVB(new(big.Int).Rsh(a.Int, uint(lo)), hi-lo+1)
	}
	if a.Op == "zext" && hi < a.Args[0].Sort.Bits {
		return Extract(a.Args[0], hi, lo)
	}
	if a.Op == "ite" && isBV(a.Args[1]) && isBV(a.Args[2]) {
		return Ite(a.Args[0], Extract(a.Args[1], hi, lo), Extract(a.Args[2], hi, lo))
	}
	if a.Op == "zext" && lo == 0 && hi >= a.Args[0].Sort.Bits {
		return Zext(a.Args[0], hi+1)
	}
	return mk("extract", BV(hi-lo+1), big.NewInt(int64(hi)*1000+int64(lo)), "", a)
}
func ConcatBV(a, b *Term) *Term {
	if isBV(a) && isBV(b) {
		r := new(big.Int).Lsh(a.Int, uint(b.Sort.Bits))
		return BVB(r.Or(r, b.Int), a.Sort.Bits+b.Sort.Bits)
	}
	return mk("concat", BV(a.Sort.Bits+b.Sort.Bits), nil, "", a, b)
}
func BV2Int(a *Term) *Term {
	if isBV(a) {
		return IntB(a.Int)
	}
	if a.Op == "zext" {
		return BV2Int(a.Args[0])
	}
	if a.Op == "ite" && isBV(a.Args[1]) && isBV(a.Args[2]) {
		return Ite(a.Args[0], BV2Int(a.Args[1]), BV2Int(a.Args[2]))
	}
	return mk("bv2int", SInt, nil, "", a)
}
func Int2BV(a *Term, n int) *Term {
	if isInt(a) {
		return BVB(a.Int, n)
	}
	if a.Op == "bv2int" {
		m := a.Args[0].Sort.Bits
		if m == n {
			return a.Args[0]
		}
		if m < n {
			return Zext(a.Args[0], n)
		}
		return Extract(a.Args[0], n-1, 0)
	}
	return mk("int2bv", BV(n), nil, "", a)
}

// applications of declared functions
func App(name string, s *Sort, args ...*Term) *Term {
	if t := foldNumeral(name, args); t != nil {
		return t
	}
	return mk("app", s, nil, name, args...)
}

// foldNumeral: fmt's numerals of constants
func foldNumeral(name string, args []*Term) *Term {
	switch name {
	case "binstr", "itoa":
		if n, ok := IntVal(args[0]); ok && len(args) == 1 {
			if name == "itoa" {
				return StrLit(fmt.Sprintf("%d", n))
			}
			return StrLit(fmt.Sprintf("%b", n))
		}
	case "isdec", "decval":
		if len(args) == 1 && isLit(args[0]) && args[0].Sort == SStr {
			v := litVals(args[0])
			n := int64(0)
			ok := 0 < len(v) && len(v) <= 18
			for _, c := range v {
				if c < '0' || c > '9' {
					if name == "isdec" {
						return False
					}
					return nil
				}
				n = n*10 + int64(c-'0')
			}
			if !ok {
				return nil
			}
			if name == "isdec" {
				return True
			}
			return IntT(n)
		}
	case "binpad":
		if len(args) == 2 {
			w, ok := IntVal(args[0])
			n, ok2 := IntVal(args[1])
			if ok && ok2 && 0 <= w && w < 100 {
				return StrLit(fmt.Sprintf("%.*b", int(w), n))
			}
		}
	}
	return nil
}

func Forall(vars []*Term, trigs [][]*Term, body *Term) *Term {
	if body == True || body == False || len(vars) == 0 {
		return body
	}
	if body.Op == "=>" {
		if r := expandSmall(vars, trigs, body, body.Args[0], Forall, And, True); r != nil {
			return r
		}
	}
	if body.Op == "forall" && len(trigs) == 0 {
		// one block of variables: the inner patterns mention the outer ones
		dup := false
		for _, v := range vars {
			for _, w := range body.Vars {
				dup = dup || v == w
			}
			for _, tr := range body.Trigs {
				m := false
				for _, t := range tr {
					m = m || mentions(t, v)
				}
				dup = dup || !m
			}
		}
		if !dup {
			return Forall(append(append([]*Term(nil), vars...), body.Vars...), body.Trigs, body.Args[0])
		}
	}
	q := mkq("forall", SBool, nil, "", vars, trigs, body)
	fixBound(q)
	return q
}
func Exists(vars []*Term, trigs [][]*Term, body *Term) *Term {
	if body == True || body == False || len(vars) == 0 {
		return body
	}
	if body.Op == "or" && len(vars) > 0 {
		var out []*Term
		for _, a := range body.Args {
			out = append(out, Exists(vars, trigs, a))
		}
		return Or(out...)
	}
	if r := expandSmall(vars, trigs, body, body, Exists, Or, False); r != nil {
		return r
	}
	q := mkq("exists", SBool, nil, "", vars, trigs, body)
	fixBound(q)
	return q
}

// expandSmall: a quantifier over a variable that the guard confines to a few
// constants is the conjunction (disjunction) of its instances.
func expandSmall(vars []*Term, trigs [][]*Term, body, guard *Term, q func([]*Term, [][]*Term, *Term) *Term, join func(...*Term) *Term, unit *Term) *Term {
	cs := []*Term{guard}
	if guard.Op == "and" {
		cs = guard.Args
	}
	for vi, v := range vars {
		if v.Sort != SInt {
			continue
		}
		var lo, hi *big.Int
		for _, c := range cs {
			if c.Op != "<=" || c.Args[0].Sort != SInt {
				continue
			}
			l := toLin(c.Args[1])
			addLin(&l, c.Args[0], big.NewInt(-1))
			if len(l.co) != 1 || l.co[v] == nil {
				continue
			}
			switch {
			case l.co[v].Cmp(big.NewInt(1)) == 0:
				b := new(big.Int).Neg(l.c)
				if lo == nil || b.Cmp(lo) > 0 {
					lo = b
				}
			case l.co[v].Cmp(big.NewInt(-1)) == 0:
				if hi == nil || l.c.Cmp(hi) < 0 {
					hi = l.c
				}
			}
		}
		if lo == nil || hi == nil {
			continue
		}
		if hi.Cmp(lo) < 0 {
			return unit
		}
		n := new(big.Int).Sub(hi, lo)
		if n.Cmp(big.NewInt(3)) > 0 {
			continue
		}
		rest := append(append([]*Term(nil), vars[:vi]...), vars[vi+1:]...)
		var out []*Term
		for k := int64(0); k <= n.Int64(); k++ {
			m := map[*Term]*Term{v: IntB(new(big.Int).Add(lo, big.NewInt(k)))}
			var tr [][]*Term
			if len(rest) > 0 {
				for _, tg := range trigs {
					var t2 []*Term
					for _, t := range tg {
						t2 = append(t2, Subst(t, m))
					}
					tr = append(tr, t2)
				}
			}
			out = append(out, q(rest, tr, Subst(body, m)))
		}
		return join(out...)
	}
	return nil
}

func fixBound(q *Term) {
	fv := map[*Term]bool{}
	freeVars(q, map[*Term]bool{}, fv)
	q.bound = len(fv) > 0
}

func freeVars(t *Term, bound map[*Term]bool, out map[*Term]bool) {
	if t.Op == "var" {
		if !bound[t] {
			out[t] = true
		}
		return
	}
	if !t.bound && t.Op != "forall" && t.Op != "exists" {
		return
	}
	if len(t.Vars) > 0 {
		nb := map[*Term]bool{}
		for k := range bound {
			nb[k] = true
		}
		for _, v := range t.Vars {
			nb[v] = true
		}
		bound = nb
	}
	for _, a := range t.Args {
		freeVars(a, bound, out)
	}
}

// ADT
func Cons(ctor string, s *Sort, args ...*Term) *Term { return mk("cons", s, nil, ctor, args...) }
func IsCtor(ctor string, t *Term) *Term {
	if isCons(t) {
		return BoolT(t.Lit == ctor)
	}
	if t.Op == "ite" && (isCons(t.Args[1]) || isCons(t.Args[2])) {
		return Ite(t.Args[0], IsCtor(ctor, t.Args[1]), IsCtor(ctor, t.Args[2]))
	}
	return mk("is", SBool, nil, ctor, t)
}
func Sel(name string, idx int, s *Sort, t *Term) *Term {
	if isCons(t) && idx < len(t.Args) {
		return t.Args[idx]
	}
	return mk("sel", s, big.NewInt(int64(idx)), name, t)
}

// substitution of terms (constants or variables)
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = f(a)
			if args[i] != a {
				ch = true
			}
		}
		var trigs [][]*Term
		for _, tg := range t.Trigs {
			var n []*Term
			for _, x := range tg {
				y := f(x)
				if y != x {
					ch = true
				}
				n = append(n, y)
			}
			trigs = append(trigs, n)
		}
		r := t
		if ch {
			r = rebuild(t, args, trigs)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func rebuild(t *Term, a []*Term, trigs [][]*Term) *Term {
	switch t.Op {
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "=>":
		return Imp(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "=", "eqs":
		return Eq(a[0], a[1])
	case "+":
		r := a[0]
		for _, x := range a[1:] {
			r = Add(r, x)
		}
		return r
	case "*":
		return Mul(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "div":
		return EDiv(a[0], a[1])
	case "mod":
		return EMod(a[0], a[1])
	case "bvadd", "bvsub", "bvmul", "bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvudiv", "bvurem":
		return bvop(t.Op, a[0], a[1])
	case "bvule":
		return BVULe(a[0], a[1])
	case "zext":
		return Zext(a[0], t.Sort.Bits)
	case "sext":
		return Sext(a[0], t.Sort.Bits)
	case "extract":
		n := t.Int.Int64()
		return Extract(a[0], int(n/1000), int(n%1000))
	case "concat":
		return ConcatBV(a[0], a[1])
	case "bv2int":
		return BV2Int(a[0])
	case "int2bv":
		return Int2BV(a[0], t.Sort.Bits)
	case "r+", "r-", "r*", "r/":
		return realop(t.Op[1:], a[0], a[1])
	case "cat":
		r := a[0]
		for _, x := range a[1:] {
			r = Cat(r, x)
		}
		return r
	case "len":
		return Len(a[0])
	case "at":
		return At(a[0], a[1])
	case "sub":
		if t.Lit == "ok" {
			return SubOK(a[0], a[1], a[2])
		}
		return SubSeq(a[0], a[1], a[2])
	case "rep":
		if t.Lit == "ok" {
			return RepOK(a[0], a[1])
		}
		return Rep(a[0], a[1])
	case "upd":
		return Upd(a[0], a[1], a[2])
	case "unit":
		return Unit(a[0])
	case "is":
		return IsCtor(t.Lit, a[0])
	case "sel":
		return Sel(t.Lit, int(t.Int.Int64()), t.Sort, a[0])
	case "forall":
		return Forall(t.Vars, trigs, a[0])
	case "exists":
		return Exists(t.Vars, trigs, a[0])
	}
	return mkq(t.Op, t.Sort, t.Int, t.Lit, t.Vars, trigs, a...)
}

func (t *Term) String() string {
	p := &printer{}
	return p.str(t)
}

// mentions: v occurs in t
func mentions(t, v *Term) bool {
	if t == v {
		return true
	}
	for _, a := range t.Args {
		if mentions(a, v) {
			return true
		}
	}
	return false
}

// alphaKey: quantified formulas that differ only in the names of bound variables have
// the same key ("" for formulas without quantifiers)
func alphaKey(t *Term) string {
	quant := false
	var b strings.Builder
	var walk func(t *Term, env map[*Term]int)
	walk = func(t *Term, env map[*Term]int) {
		if k, ok := env[t]; ok {
			fmt.Fprintf(&b, "v%d ", k)
			return
		}
		if !t.bound && t.Op != "forall" && t.Op != "exists" {
			fmt.Fprintf(&b, "#%d ", t.id)
			return
		}
		if t.Op == "forall" || t.Op == "exists" {
			quant = true
			e2 := map[*Term]int{}
			for k, v := range env {
				e2[k] = v
			}
			for _, v := range t.Vars {
				e2[v] = len(e2)
			}
			env = e2
			for _, v := range t.Vars {
				fmt.Fprintf(&b, "%s,", v.Sort.Name)
			}
		}
		fmt.Fprintf(&b, "(%s %s %d %v %s ", t.Op, t.Lit, len(t.Args), t.Int, t.Sort.Name)
		for _, a := range t.Args {
			walk(a, env)
		}
		b.WriteString(") ")
	}
	walk(t, map[*Term]int{})
	if !quant {
		return ""
	}
	return b.String()
}
