package main

// Contract language: parsing of .gvc files and elaboration of specification
// expressions (Go expression syntax plus forall/exists/imp/ite/old/...).

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type Clause struct {
	Kind string // requires ensures loop modifies use ...
	Name string
	Src  string
	Expr ast.Expr
	Line string
}

type Contract struct {
	Key      string
	Pkg      string
	Params   []string
	Results  []string
	Clauses  []Clause
	Trusted  bool
	Inline   bool
	Pure     bool
	MayPanic bool
	External bool // not in /repo: dependency under assumed contract
	File     string
	Line     int
	Ghosts   [][2]string
	Opts     map[string]string
	Hide     []string // definitions not revealed to the solver in this proof
}

func (c *Contract) get(kind string) []Clause {
	var r []Clause
	for _, x := range c.Clauses {
		if x.Kind == kind {
			r = append(r, x)
		}
	}
	return r
}

type Lemma struct {
	Name     string
	Vars     []*Term
	VarNames []string
	Req, Ens []Clause
	Uses     []Clause
	Trigs    [][]*Term
	TrigSrc  []string
	Induct   string
	Measure  string
	Auto     bool
	Axiom    bool
	Pkg      string
	Term     *Term // closed statement
	ReqT     *Term
	EnsT     *Term
	Order    int
	Pos      string
	Cases    string
	Hide     []string
}

type SpecDB struct {
	Contracts map[string]*Contract
	Lemmas    map[string]*Lemma
	LemmaList []*Lemma
	Macros    map[string]*Macro
	Props     map[string]*PropDef
	P         *Program
}
type Macro struct {
	Params []string
	Sorts  []*Sort
	Ret    *Sort
	Body   ast.Expr
	Pkg    string
}
type PropDef struct {
	ID     string
	Funcs  []string
	Lemmas []string
	Opts   map[string]string
}

func newSpecDB(P *Program) *SpecDB {
	return &SpecDB{Contracts: map[string]*Contract{}, Lemmas: map[string]*Lemma{}, Macros: map[string]*Macro{}, Props: map[string]*PropDef{}, P: P}
}

type specErr struct{ msg string }

func serr(f string, a ...interface{}) { panic(specErr{fmt.Sprintf(f, a...)}) }

type rawBlock struct {
	head  string
	lines []string
	file  string
	line  int
	pkg   string
}

func (db *SpecDB) LoadDir(dir string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				err = fmt.Errorf("contract: %s", e.msg)
				return
			}
			panic(r)
		}
	}()
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	var blocks []rawBlock
	for _, f := range files {
		b, e := os.ReadFile(f)
		if e != nil {
			return e
		}
		pkg := ""
		for i, l := range strings.Split(string(b), "\n") {
			if j := strings.Index(l, "//"); j >= 0 && !strings.Contains(l[:j], "\"") {
				l = l[:j]
			}
			t := strings.TrimRight(l, " \t")
			if strings.TrimSpace(t) == "" {
				continue
			}
			if strings.HasPrefix(t, "pkg ") {
				pkg = strings.TrimSpace(t[4:])
				continue
			}
			ind := len(t) - len(strings.TrimLeft(t, " "))
			if ind == 0 {
				blocks = append(blocks, rawBlock{head: t, file: filepath.Base(f), line: i + 1, pkg: pkg})
				continue
			}
			if len(blocks) == 0 {
				return fmt.Errorf("%s:%d: stray line", f, i+1)
			}
			bl := &blocks[len(blocks)-1]
			if ind <= 2 && strings.Contains(t, ":") {
				bl.lines = append(bl.lines, strings.TrimSpace(t))
			} else if len(bl.lines) == 0 {
				bl.head += " " + strings.TrimSpace(t)
			} else {
				bl.lines[len(bl.lines)-1] += " " + strings.TrimSpace(t)
			}
		}
	}
	// pass 1: spec function signatures and macros, in order; pass 2: the rest
	for _, b := range blocks {
		w := strings.Fields(b.head)[0]
		if w == "spec" || w == "macro" || w == "uninterp" {
			db.specDecl(b, 1)
		}
	}
	for _, b := range blocks {
		w := strings.Fields(b.head)[0]
		if w == "spec" {
			db.specDecl(b, 2)
		}
	}
	for _, b := range blocks {
		w := strings.Fields(b.head)[0]
		switch w {
		case "spec", "macro", "uninterp":
		case "func", "trusted", "external":
			db.funcDecl(b)
		case "lemma", "axiom":
			db.lemmaDecl(b)
		case "prop":
			db.propDecl(b)
		default:
			serr("%s:%d: unknown block %q", b.file, b.line, w)
		}
	}
	return nil
}

func parseExpr(src, where string) ast.Expr {
	e, err := parser.ParseExpr(src)
	if err != nil {
		serr("%s: %v in %q", where, err, src)
	}
	return e
}

func (db *SpecDB) resolveSort(src, pkg string) *Sort {
	src = strings.TrimSpace(src)
	switch src {
	case "int":
		return SInt
	case "bool":
		return SBool
	case "byte":
		return BV(8)
	case "rune":
		return BV(32)
	case "string", "[]byte":
		return SStr
	case "[]rune":
		return SRunes
	case "real":
		return SReal
	case "error":
		return SErr
	case "any":
		return SAny
	}
	if strings.HasPrefix(src, "bv") {
		if n, err := strconv.Atoi(src[2:]); err == nil {
			return BV(n)
		}
	}
	if strings.HasPrefix(src, "[]") {
		return SeqOf(db.resolveSort(src[2:], pkg))
	}
	if strings.HasPrefix(src, "map[") {
		d := 0
		for i := 3; i < len(src); i++ {
			if src[i] == '[' {
				d++
			}
			if src[i] == ']' {
				d--
				if d == 0 {
					return MapOf(db.resolveSort(src[4:i], pkg), db.resolveSort(src[i+1:], pkg))
				}
			}
		}
	}
	t := strings.TrimPrefix(src, "*")
	if i := strings.IndexByte(t, '.'); i >= 0 {
		pkg, t = t[:i], t[i+1:]
	}
	sp := db.P.Pkgs[pkg]
	if sp == nil {
		serr("unknown package %q in type %q", pkg, src)
	}
	o := sp.Pkg.Scope().Lookup(t)
	if o == nil {
		serr("unknown type %q in package %s", t, pkg)
	}
	return sortOf(o.Type())
}

// split "a T, b T" at top level commas
func splitTop(s string, sep byte) []string {
	var out []string
	d := 0
	st := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		}
		if s[i] == sep && d == 0 {
			out = append(out, strings.TrimSpace(s[st:i]))
			st = i + 1
		}
	}
	if strings.TrimSpace(s[st:]) != "" {
		out = append(out, strings.TrimSpace(s[st:]))
	}
	return out
}

func matchParen(s string, i int) int {
	d := 0
	for ; i < len(s); i++ {
		if s[i] == '(' {
			d++
		}
		if s[i] == ')' {
			d--
			if d == 0 {
				return i
			}
		}
	}
	return -1
}

// spec name(a T, b T) R [by a] = body
func (db *SpecDB) specDecl(b rawBlock, pass int) {
	h := b.head
	for _, l := range b.lines {
		h += " " + l
	}
	kind := strings.Fields(h)[0]
	h = strings.TrimSpace(h[len(kind):])
	i := strings.IndexByte(h, '(')
	j := matchParen(h, i)
	name := strings.TrimSpace(h[:i])
	var names []string
	var ss []*Sort
	for _, p := range splitTop(h[i+1:j], ',') {
		f := strings.SplitN(p, " ", 2)
		names = append(names, f[0])
		ss = append(ss, db.resolveSort(f[1], b.pkg))
	}
	rest := strings.TrimSpace(h[j+1:])
	body := ""
	if k := strings.Index(rest, " = "); k >= 0 {
		body = strings.TrimSpace(rest[k+3:])
		rest = strings.TrimSpace(rest[:k])
	}
	by := ""
	if k := strings.Index(rest, " by "); k >= 0 {
		by = strings.TrimSpace(rest[k+4:])
		rest = strings.TrimSpace(rest[:k])
	}
	ret := db.resolveSort(rest, b.pkg)
	where := fmt.Sprintf("%s:%d", b.file, b.line)
	if kind == "macro" {
		db.Macros[name] = &Macro{Params: names, Sorts: ss, Ret: ret, Body: parseExpr(body, where), Pkg: b.pkg}
		return
	}
	if pass == 1 {
		if theory.Funs[name] != nil {
			serr("%s: duplicate spec function %s", where, name)
		}
		theory.Funs[name] = &SpecFun{Name: name, Params: ss, Ret: ret}
		return
	}
	if body == "" {
		return
	}
	ex := parseExpr(body, where)
	sf := theory.Funs[name]
	mkAx := func(binds map[int]*Term, extra []*Term) {
		env := &Env{db: db, pkg: b.pkg, vars: map[string]Value{}, where: where}
		var args, vars []*Term
		for k := range names {
			if t, ok := binds[k]; ok {
				args = append(args, t)
				env.vars[names[k]] = VT{t}
				continue
			}
			v := BoundVar(names[k], ss[k])
			vars = append(vars, v)
			args = append(args, v)
			env.vars[names[k]] = VT{v}
		}
		vars = append(vars, extra...)
		lhs := App(name, ret, args...)
		rhs := env.evalT(ex, ret)
		ax := Eq(lhs, rhs)
		if by != "" {
			sf.Defs = append(sf.Defs, SpecDef{vars, lhs, rhs})
		}
		sf.Axioms = append(sf.Axioms, Forall(vars, [][]*Term{{lhs}}, ax))
	}
	if by == "" {
		mkAx(nil, nil)
		return
	}
	for k := range names {
		if names[k] == by {
			d := theory.ADTs[ss[k]]
			if d == nil {
				serr("%s: 'by' parameter is not a data type", where)
			}
			mkAx(map[int]*Term{k: adtNil(ss[k])}, nil)
			var ex []*Term
			for _, f := range d.Ctors[1].Fields {
				ex = append(ex, BoundVar(f.Name, f.Sort))
			}
			mkAx(map[int]*Term{k: adtMk(ss[k], ex)}, ex)
		}
	}
}

func (db *SpecDB) funcDecl(b rawBlock) {
	h := b.head
	c := &Contract{Pkg: b.pkg, File: b.file, Line: b.line, Opts: map[string]string{}}
	for {
		w := strings.Fields(h)[0]
		if w == "trusted" {
			c.Trusted = true
		} else if w == "external" {
			c.Trusted, c.External = true, true
		} else {
			if w == "func" {
				h = strings.TrimSpace(h[len(w):])
			}
			break
		}
		h = strings.TrimSpace(h[len(w):])
	}
	// key may contain (*T)
	i := strings.IndexByte(h, '(')
	if strings.HasPrefix(h[i:], "(*") {
		i2 := strings.IndexByte(h[i+1:], '(')
		i = i + 1 + i2
	}
	c.Key = strings.TrimSpace(h[:i])
	j := matchParen(h, i)
	c.Params = splitTop(h[i+1:j], ',')
	rest := strings.TrimSpace(h[j+1:])
	if strings.HasPrefix(rest, "(") {
		k := matchParen(rest, 0)
		c.Results = splitTop(rest[1:k], ',')
	}
	where := fmt.Sprintf("%s:%d", b.file, b.line)
	for _, l := range b.lines {
		k := strings.IndexByte(l, ':')
		hd := strings.Fields(l[:k])
		src := strings.TrimSpace(l[k+1:])
		cl := Clause{Kind: hd[0], Src: src, Line: where}
		if len(hd) > 1 {
			cl.Name = hd[1]
		}
		switch cl.Kind {
		case "requires", "ensures", "use", "usepre", "assume", "variant", "split":
			cl.Expr = parseExpr(src, where)
		case "loop", "cursor":
		case "ghost":
			for _, g := range splitTop(src, ',') {
				f := strings.SplitN(g, " ", 2)
				c.Ghosts = append(c.Ghosts, [2]string{f[0], strings.TrimSpace(f[1])})
			}
		case "hide":
			c.Hide = append(c.Hide, strings.Fields(src)...)
		case "modifies", "opt":
			if cl.Kind == "opt" {
				for _, o := range strings.Fields(src) {
					kv := strings.SplitN(o, "=", 2)
					if len(kv) == 1 {
						kv = append(kv, "1")
					}
					c.Opts[kv[0]] = kv[1]
				}
			}
		default:
			serr("%s: unknown clause %q", where, cl.Kind)
		}
		c.Clauses = append(c.Clauses, cl)
	}
	if db.Contracts[c.Key] != nil {
		serr("%s: duplicate contract %s", where, c.Key)
	}
	db.Contracts[c.Key] = c
}

func (db *SpecDB) lemmaDecl(b rawBlock) {
	h := b.head
	kind := strings.Fields(h)[0]
	h = strings.TrimSpace(h[len(kind):])
	i := strings.IndexByte(h, '(')
	j := matchParen(h, i)
	where := fmt.Sprintf("%s:%d", b.file, b.line)
	lm := &Lemma{Name: strings.TrimSpace(h[:i]), Pkg: b.pkg, Axiom: kind == "axiom", Pos: where, Order: len(db.LemmaList)}
	env := &Env{db: db, pkg: b.pkg, vars: map[string]Value{}, where: where}
	for _, p := range splitTop(h[i+1:j], ',') {
		f := strings.SplitN(p, " ", 2)
		v := BoundVar(f[0], db.resolveSort(f[1], b.pkg))
		lm.Vars = append(lm.Vars, v)
		lm.VarNames = append(lm.VarNames, f[0])
		env.vars[f[0]] = VT{v}
	}
	req, ens := True, True
	for _, l := range b.lines {
		k := strings.IndexByte(l, ':')
		hd := strings.Fields(l[:k])
		src := strings.TrimSpace(l[k+1:])
		switch hd[0] {
		case "requires":
			e := parseExpr(src, where)
			lm.Req = append(lm.Req, Clause{Kind: "requires", Src: src, Expr: e})
			req = And(req, env.evalT(e, SBool))
		case "ensures":
			e := parseExpr(src, where)
			lm.Ens = append(lm.Ens, Clause{Kind: "ensures", Src: src, Expr: e})
			ens = And(ens, env.evalT(e, SBool))
		case "trig":
			lm.Auto = true
			var tg []*Term
			for _, p := range splitTop(src, ',') {
				tg = append(tg, env.evalT(parseExpr(p, where), nil))
			}
			lm.Trigs = append(lm.Trigs, tg)
		case "induct":
			lm.Induct = src
		case "hide":
			lm.Hide = strings.Fields(src)
		case "cases":
			lm.Cases = src
		case "use":
			lm.Uses = append(lm.Uses, Clause{Kind: "use", Src: src, Expr: parseExpr(src, where), Line: where})
		default:
			serr("%s: unknown lemma clause %q", where, hd[0])
		}
	}
	lm.ReqT, lm.EnsT = req, ens
	lm.Term = Forall(lm.Vars, lm.Trigs, Imp(req, ens))
	db.Lemmas[lm.Name] = lm
	db.LemmaList = append(db.LemmaList, lm)
	if lm.Auto {
		var syms []string
		for _, t := range lm.Trigs[0] {
			c := &collector{seen: map[*Term]bool{}, sorts: map[*Sort]bool{}, ops: map[string]bool{}}
			c.term(t)
			for o := range c.ops {
				if theory.Funs[o] != nil || strings.HasPrefix(o, "m") || strings.HasPrefix(o, "rep.") {
					syms = append(syms, o)
				}
			}
		}
		sort.Strings(syms)
		theory.Autos = append(theory.Autos, &AutoAxiom{Name: lm.Name, T: lm.Term, Syms: syms})
	}
}

func (db *SpecDB) propDecl(b rawBlock) {
	p := &PropDef{ID: strings.TrimSpace(b.head[5:]), Opts: map[string]string{}}
	for _, l := range b.lines {
		k := strings.IndexByte(l, ':')
		src := strings.TrimSpace(l[k+1:])
		switch strings.TrimSpace(l[:k]) {
		case "funcs":
			p.Funcs = append(p.Funcs, strings.Fields(src)...)
		case "lemmas":
			p.Lemmas = append(p.Lemmas, strings.Fields(src)...)
		default:
			p.Opts[strings.TrimSpace(l[:k])] = src
		}
	}
	db.Props[p.ID] = p
}

// ---- expression evaluation ----

type Env struct {
	db    *SpecDB
	pkg   string
	vars  map[string]Value
	types map[string]types.Type
	st    *State
	old   *State
	where string
	entry map[string]Value
}

func (e *Env) child() *Env {
	n := *e
	n.vars = map[string]Value{}
	for k, v := range e.vars {
		n.vars[k] = v
	}
	return &n
}

func (e *Env) evalT(x ast.Expr, want *Sort) *Term {
	v := e.eval(x, want)
	return e.term(v, want)
}

func (e *Env) term(v Value, want *Sort) *Term {
	switch v := v.(type) {
	case VT:
		return e.coerce(v.T, want)
	case VIface:
		if v.T != nil {
			return e.term(v.V, want)
		}
		if want == SErr {
			return errNil()
		}
	case VPtr:
		if v.Loc == 0 {
			if want == nil {
				serr("%s: nil without type", e.where)
			}
			if want.Kind == KADT {
				return adtNil(want)
			}
			if want == SErr {
				return errNil()
			}
		}
		if want != nil && want.Kind == KADT || v.Loc != 0 {
			return e.st.abs(v, nil)
		}
	case VTuple:
		serr("%s: tuple in term position", e.where)
	}
	if e.st == nil {
		serr("%s: no state for %T", e.where, v)
	}
	return e.st.abs(v, nil)
}

func (e *Env) coerce(t *Term, want *Sort) *Term {
	if want == nil || t.Sort == want {
		return t
	}
	if t.Op == "int" {
		switch want.Kind {
		case KBV:
			return BVB(t.Int, want.Bits)
		case KReal:
			return RealB(new(big.Rat).SetInt(t.Int))
		}
	}
	if t.Op == "lit" && want.Kind == KSeq && t.Sort.Kind == KSeq && (want.Elem.Kind == KBV || want.Elem.Kind == KInt || isEmpty(t)) {
		return LitSeq(litVals(t), want)
	}
	if t.Sort.Kind == KBV && want.Kind == KBV && t.Op == "bv" {
		return BVB(t.Int, want.Bits)
	}
	serr("%s: sort mismatch: %s has sort %s, want %s", e.where, t, t.Sort, want)
	return nil
}

func unify(e *Env, a, b *Term) (*Term, *Term) {
	if a.Sort == b.Sort {
		return a, b
	}
	if a.Op == "int" || a.Op == "bv" || (a.Op == "lit" && !(b.Op == "lit")) {
		return e.coerce(a, b.Sort), b
	}
	return a, e.coerce(b, a.Sort)
}

func (e *Env) eval(x ast.Expr, want *Sort) Value {
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.eval(x.X, want)
	case *ast.Ident:
		switch x.Name {
		case "true":
			return VT{True}
		case "false":
			return VT{False}
		case "nil":
			return VPtr{}
		}
		if v, ok := e.vars[x.Name]; ok {
			return v
		}
		if sf := theory.Funs[x.Name]; sf != nil && len(sf.Params) == 0 {
			return VT{App(x.Name, sf.Ret)}
		}
		if m := e.db.Macros[x.Name]; m != nil && len(m.Params) == 0 {
			n := &Env{db: e.db, pkg: m.Pkg, vars: map[string]Value{}, st: e.st, old: e.old, where: e.where}
			return VT{n.evalT(m.Body, m.Ret)}
		}
		serr("%s: unknown identifier %q", e.where, x.Name)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			n, _ := new(big.Int).SetString(x.Value, 0)
			return VT{e.coerceLit(IntB(n), want)}
		case token.CHAR:
			r, _, _, _ := strconv.UnquoteChar(x.Value[1:len(x.Value)-1], '\'')
			return VT{e.coerceLit(IntT(int64(r)), want)}
		case token.STRING:
			s, _ := strconv.Unquote(x.Value)
			t := StrLit(s)
			if want != nil && want.Kind == KSeq && want != SStr {
				t = LitSeq(litVals(t), want)
			}
			return VT{t}
		case token.FLOAT:
			r, _ := new(big.Rat).SetString(x.Value)
			return VT{RealB(r)}
		}
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return VT{Not(e.evalT(x.X, SBool))}
		case token.SUB:
			t := e.evalT(x.X, want)
			if t.Sort == SInt {
				return VT{Sub(IntT(0), t)}
			}
			if t.Sort.Kind == KBV {
				return VT{bvop("bvsub", BVT(0, t.Sort.Bits), t)}
			}
		}
	case *ast.BinaryExpr:
		return VT{e.binary(x, want)}
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, isVar := e.vars[id.Name]; !isVar {
				if sp := e.db.P.Pkgs[id.Name]; sp != nil {
					serr("%s: package-qualified %s.%s unsupported", e.where, id.Name, x.Sel.Name)
				}
			}
		}
		return e.field(e.eval(x.X, nil), x.Sel.Name)
	case *ast.StarExpr:
		return e.eval(x.X, want)
	case *ast.IndexExpr:
		v := e.eval(x.X, nil)
		s := e.term(v, nil)
		switch s.Sort.Kind {
		case KSeq:
			return VT{At(s, e.evalT(x.Index, SInt))}
		case KMap:
			return VT{mk("mget", s.Sort.Elem, nil, "", s, e.evalT(x.Index, s.Sort.Key))}
		}
		serr("%s: index on %s", e.where, s.Sort)
	case *ast.SliceExpr:
		s := e.evalT(x.X, nil)
		lo, hi := IntT(0), Len(s)
		if x.Low != nil {
			lo = e.evalT(x.Low, SInt)
		}
		if x.High != nil {
			hi = e.evalT(x.High, SInt)
		}
		return VT{SubSeq(s, lo, hi)}
	case *ast.CallExpr:
		return e.call(x, want)
	}
	serr("%s: unsupported expression %T", e.where, x)
	return nil
}

func (e *Env) coerceLit(t *Term, want *Sort) *Term {
	if want == nil {
		return t
	}
	switch want.Kind {
	case KBV, KReal:
		return e.coerce(t, want)
	}
	return t
}

func (e *Env) field(v Value, name string) Value {
	switch v := v.(type) {
	case VIface:
		if v.T != nil {
			return e.field(v.V, name)
		}
	case VStruct:
		st := structOf(v.T)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return v.F[i]
			}
		}
		serr("%s: no field %s", e.where, name)
	case VPtr:
		if v.Loc == 0 {
			serr("%s: field of nil", e.where)
		}
		switch o := e.st.heap[v.Loc].(type) {
		case *OStruct:
			if len(v.Path) > 0 {
				serr("%s: interior pointer", e.where)
			}
			st := structOf(o.T)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					return o.F[i]
				}
			}
			serr("%s: no field %s", e.where, name)
		case *OCtx:
			return e.field(VT{e.st.absLoc(v.Loc)}, name)
		case *OFolded:
			return e.field(VT{o.Term}, name)
		case *OCell:
			return e.field(o.V, name)
		}
		serr("%s: field of %T", e.where, e.st.heap[v.Loc])
	case VT:
		d := theory.ADTs[v.T.Sort]
		if d == nil {
			serr("%s: field %s of %s", e.where, name, v.T.Sort)
		}
		for i, f := range d.Ctors[1].Fields {
			if f.Name == name {
				return VT{adtSel(v.T, i)}
			}
		}
		serr("%s: no field %s in %s", e.where, name, v.T.Sort)
	}
	serr("%s: field %s of %T", e.where, name, v)
	return nil
}

func (e *Env) binary(x *ast.BinaryExpr, want *Sort) *Term {
	switch x.Op {
	case token.LAND:
		return And(e.evalT(x.X, SBool), e.evalT(x.Y, SBool))
	case token.LOR:
		return Or(e.evalT(x.X, SBool), e.evalT(x.Y, SBool))
	}
	isNil := func(y ast.Expr) bool { i, ok := y.(*ast.Ident); return ok && i.Name == "nil" }
	if x.Op == token.EQL || x.Op == token.NEQ {
		var r *Term
		if isNil(x.Y) || isNil(x.X) {
			o := x.X
			if isNil(x.X) {
				o = x.Y
			}
			r = e.isNil(e.eval(o, nil))
		} else {
			a, b := e.evalPair(x.X, x.Y)
			r = Eq(a, b)
		}
		if x.Op == token.NEQ {
			return Not(r)
		}
		return r
	}
	var a, b *Term
	switch x.Op {
	case token.SHL, token.SHR:
		a = e.evalT(x.X, want)
		b = e.evalT(x.Y, a.Sort)
	case token.ADD:
		if want != nil && want.Kind == KSeq {
			a, b = e.evalT(x.X, want), e.evalT(x.Y, want)
		} else {
			a, b = e.evalPair(x.X, x.Y)
		}
	case token.SUB, token.MUL, token.QUO, token.REM, token.AND, token.OR, token.XOR:
		if want != nil && (want.Kind == KBV || want.Kind == KReal) {
			a, b = e.evalT(x.X, want), e.evalT(x.Y, want)
		} else {
			a, b = e.evalPair(x.X, x.Y)
		}
	default:
		a, b = e.evalPair(x.X, x.Y)
	}
	bv := a.Sort.Kind == KBV
	switch x.Op {
	case token.ADD:
		return Add(a, b)
	case token.SUB:
		return Sub(a, b)
	case token.MUL:
		return Mul(a, b)
	case token.QUO:
		if a.Sort == SReal {
			return realop("/", a, b)
		}
		if bv {
			return bvop("bvudiv", a, b)
		}
		return EDiv(a, b)
	case token.REM:
		if bv {
			return bvop("bvurem", a, b)
		}
		return EMod(a, b)
	case token.AND:
		return bvop("bvand", a, b)
	case token.OR:
		return bvop("bvor", a, b)
	case token.XOR:
		return bvop("bvxor", a, b)
	case token.SHL:
		return bvop("bvshl", a, b)
	case token.SHR:
		return bvop("bvlshr", a, b)
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		op := x.Op
		if op == token.GTR || op == token.GEQ {
			a, b = b, a
			if op == token.GTR {
				op = token.LSS
			} else {
				op = token.LEQ
			}
		}
		switch {
		case bv:
			if op == token.LEQ {
				return BVULe(a, b)
			}
			return Not(BVULe(b, a))
		case a.Sort == SStr:
			if op == token.LSS {
				return App("strlt", SBool, a, b)
			}
			return Not(App("strlt", SBool, b, a))
		default:
			if op == token.LEQ {
				return Le(a, b)
			}
			return Lt(a, b)
		}
	}
	serr("%s: operator %s", e.where, x.Op)
	return nil
}

func (e *Env) evalPair(x, y ast.Expr) (*Term, *Term) {
	var isLit func(z ast.Expr) bool
	isLit = func(z ast.Expr) bool {
		for {
			switch w := z.(type) {
			case *ast.ParenExpr:
				z = w.X
				continue
			case *ast.BasicLit:
				return true
			case *ast.UnaryExpr:
				z = w.X
				continue
			case *ast.CallExpr:
				if id, ok := w.Fun.(*ast.Ident); ok && id.Name == "ite" && len(w.Args) == 3 {
					return isLit(w.Args[1]) && isLit(w.Args[2])
				}
			}
			return false
		}
	}
	if isLit(x) && !isLit(y) {
		b := e.evalT(y, nil)
		return e.evalT(x, b.Sort), b
	}
	isNil := func(z ast.Expr) bool { // a field or variable known to be nil
		switch z.(type) {
		case *ast.SelectorExpr, *ast.CallExpr, *ast.Ident:
			if id, ok := z.(*ast.Ident); ok && id.Name == "nil" {
				return false
			}
			if c, ok := z.(*ast.CallExpr); ok {
				if id, ok := c.Fun.(*ast.Ident); !ok || id.Name != "old" {
					return false
				}
			}
			v, ok := e.eval(z, nil).(VPtr)
			return ok && v.Loc == 0
		}
		return false
	}
	if !isLit(y) {
		nx, ny := isNil(x), isNil(y)
		if nx && ny {
			return True, True
		}
		if nx {
			b := e.evalT(y, nil)
			return e.evalT(x, b.Sort), b
		}
		if ny {
			a := e.evalT(x, nil)
			return a, e.evalT(y, a.Sort)
		}
	}
	a := e.evalT(x, nil)
	var b *Term
	if isLit(y) {
		b = e.evalT(y, a.Sort)
	} else {
		b = e.evalT(y, nil)
	}
	return unify(e, a, b)
}

func (e *Env) isNil(v Value) *Term {
	switch v := v.(type) {
	case VPtr:
		if v.Loc == 0 {
			return True
		}
		switch o := e.st.heap[v.Loc].(type) {
		case *OFolded:
			return adtIsNil(o.Term)
		case ONil:
			return True
		}
		return False
	case VT:
		if v.T.Sort == SErr {
			return Eq(v.T, errNil())
		}
		if v.T.Sort.Kind == KADT {
			return adtIsNil(v.T)
		}
	case VIface:
		return BoolT(v.T == nil)
	case VSlice:
		return v.Nil
	case VMap:
		return BoolT(v.Loc == 0)
	}
	serr("%s: isnil of %T", e.where, v)
	return nil
}

func (e *Env) call(x *ast.CallExpr, want *Sort) Value {
	fn, ok := x.Fun.(*ast.Ident)
	if !ok {
		if at, ok := x.Fun.(*ast.ArrayType); ok { // []rune(x) etc.
			id := at.Elt.(*ast.Ident).Name
			t := e.evalT(x.Args[0], nil)
			if id == "rune" {
				return VT{runesOf(t)}
			}
			if id == "byte" {
				return VT{t}
			}
		}
		serr("%s: call of %T", e.where, x.Fun)
	}
	n := len(x.Args)
	arg := func(i int, s *Sort) *Term { return e.evalT(x.Args[i], s) }
	switch fn.Name {
	case "len":
		v := e.eval(x.Args[0], nil)
		t := e.term(v, nil)
		if t.Sort.Kind == KMap {
			return VT{mk("mcard", SInt, nil, "", t)}
		}
		return VT{Len(t)}
	case "imp":
		return VT{Imp(arg(0, SBool), arg(1, SBool))}
	case "iff":
		return VT{Eq(arg(0, SBool), arg(1, SBool))}
	case "not":
		return VT{Not(arg(0, SBool))}
	case "ite":
		c := arg(0, SBool)
		var a, b *Term
		if want != nil {
			a, b = arg(1, want), arg(2, want)
		} else {
			a, b = e.evalPair(x.Args[1], x.Args[2])
		}
		return VT{Ite(c, a, b)}
	case "let":
		ch := e.child()
		ch.vars[x.Args[0].(*ast.Ident).Name] = e.eval(x.Args[1], nil)
		return ch.eval(x.Args[2], want)
	case "forall", "exists":
		ch := e.child()
		var vars []*Term
		i := 0
		isTrig := func(a ast.Expr) bool {
			c, ok := a.(*ast.CallExpr)
			if !ok {
				return false
			}
			id, ok := c.Fun.(*ast.Ident)
			return ok && id.Name == "trig"
		}
		// last non-trig argument is the body
		bi := n - 1
		for bi > 0 && isTrig(x.Args[bi]) {
			bi--
		}
		for i < bi {
			id, ok := x.Args[i].(*ast.Ident)
			if !ok {
				serr("%s: quantifier variable", e.where)
			}
			s := SInt
			if i+1 < bi {
				if ts, ok := typeSrc(x.Args[i+1]); ok {
					s = e.db.resolveSort(ts, e.pkg)
					i++
				}
			}
			i++
			v := BoundVar(id.Name, s)
			vars = append(vars, v)
			ch.vars[id.Name] = VT{v}
		}
		body := ch.evalT(x.Args[bi], SBool)
		var trigs [][]*Term
		for k := bi + 1; k < n; k++ {
			var tg []*Term
			for _, a := range x.Args[k].(*ast.CallExpr).Args {
				tg = append(tg, ch.evalT(a, nil))
			}
			trigs = append(trigs, tg)
		}
		if fn.Name == "exists" {
			return VT{Exists(vars, trigs, body)}
		}
		return VT{Forall(vars, trigs, body)}
	case "old":
		if e.old == nil {
			serr("%s: old outside two-state context", e.where)
		}
		ch := *e
		ch.st = e.old
		v := ch.eval(x.Args[0], want)
		if _, ok := v.(VT); ok {
			return v
		}
		if p, ok := v.(VPtr); ok && p.Loc == 0 && want == nil {
			return v
		}
		return VT{ch.term(v, want)}
	case "abs":
		v := e.eval(x.Args[0], nil)
		return VT{e.term(v, want)}
	case "pre":
		a, b := e.evalPair(x.Args[0], x.Args[1])
		return VT{PrefixT(a, b)}
	case "anyv": // a value as an element of a gob stream
		return VT{anyOf(arg(0, nil), nil)}
	case "blob": // the bytes a BinaryMarshaler puts in a gob stream
		return VT{anyOf2("blob", arg(0, SStr))}
	case "gobbytes":
		return VT{App("gobbytes", SStr, arg(0, SeqOf(SAny)))}
	case "ungob":
		return VT{App("ungob", SeqOf(SAny), arg(0, SStr))}
	case "unit":
		var es *Sort
		if want != nil && want.Kind == KSeq {
			es = want.Elem
		}
		return VT{Unit(arg(0, es))}
	case "seq":
		var es *Sort
		if want != nil && want.Kind == KSeq {
			es = want.Elem
		}
		var r *Term
		for i := range x.Args {
			u := Unit(arg(i, es))
			es = u.Sort.Elem
			if r == nil {
				r = u
			} else {
				r = Cat(r, u)
			}
		}
		return VT{r}
	case "empty":
		return VT{Empty(e.db.resolveSort(mustTypeSrc(x.Args[0]), e.pkg))}
	case "rep":
		var es *Sort
		if want != nil && want.Kind == KSeq {
			es = want.Elem
		} else {
			es = BV(8)
		}
		return VT{Rep(arg(0, es), arg(1, SInt))}
	case "upd":
		s := arg(0, nil)
		return VT{Upd(s, arg(1, SInt), arg(2, s.Sort.Elem))}
	case "runes":
		return VT{runesOf(arg(0, SStr))}
	case "str":
		return VT{strOf(arg(0, SRunes))}
	case "int":
		t := arg(0, nil)
		switch t.Sort.Kind {
		case KBV:
			return VT{BV2Int(t)}
		case KReal:
			return VT{RFloor(t)}
		}
		return VT{t}
	case "real":
		return VT{i2r(arg(0, SInt))}
	case "byte", "bv8", "bv16", "bv32", "bv64", "bv40", "bv128", "rune":
		bits := map[string]int{"byte": 8, "rune": 32}[fn.Name]
		if bits == 0 {
			bits, _ = strconv.Atoi(fn.Name[2:])
		}
		t := arg(0, nil)
		switch t.Sort.Kind {
		case KInt:
			return VT{Int2BV(t, bits)}
		case KBV:
			if t.Sort.Bits >= bits {
				return VT{Extract(t, bits-1, 0)}
			}
			return VT{Zext(t, bits)}
		}
		serr("%s: bv conversion of %s", e.where, t.Sort)
	case "extract":
		hi, _ := IntVal(arg(1, SInt))
		lo, _ := IntVal(arg(2, SInt))
		return VT{Extract(arg(0, nil), int(hi), int(lo))}
	case "concat":
		r := arg(0, nil)
		for i := 1; i < n; i++ {
			r = ConcatBV(r, arg(i, nil))
		}
		return VT{r}
	case "litindex": // litindex(h, n): where the short string n first occurs in the literal h, or -1
		h := arg(0, SStr)
		if !isLit(h) {
			serr("%s: litindex needs a literal", e.where)
		}
		t, ok := indexIn(litVals(h), arg(1, SStr))
		if !ok {
			serr("%s: litindex needs a literal or unit", e.where)
		}
		return VT{t}
	case "ubits": // ubits(s, o, w): the w bits of the bytes s from bit o on, as an unsigned number
		s := arg(0, SStr)
		o, k1 := IntVal(arg(1, SInt))
		w, k2 := IntVal(arg(2, SInt))
		if !k1 || !k2 || o < 0 || w < 1 || w > 128 {
			serr("%s: ubits needs literal offset and width", e.where)
		}
		var v *Term
		for i := o / 8; i <= (o+w-1)/8; i++ {
			b := At(s, IntT(i))
			if v == nil {
				v = b
			} else {
				v = ConcatBV(v, b)
			}
		}
		lo := int(7 - (o+w-1)%8)
		return VT{Zext(Extract(v, lo+int(w)-1, lo), 128)}
	case "has":
		m := arg(0, nil)
		return VT{mk("mhas", SBool, nil, "", m, arg(1, m.Sort.Key))}
	case "mstore":
		m := arg(0, nil)
		return VT{mk("mstore", m.Sort, nil, "", m, arg(1, m.Sort.Key), arg(2, m.Sort.Elem))}
	case "mdel":
		m := arg(0, nil)
		return VT{mk("mdel", m.Sort, nil, "", m, arg(1, m.Sort.Key))}
	case "meq":
		return VT{mk("meq", SBool, nil, "", arg(0, nil), arg(1, nil))}
	case "mempty":
		return VT{mk("mempty", e.db.resolveSort(mustTypeSrc(x.Args[0]), e.pkg), nil, "")}
	case "strlt":
		return VT{App("strlt", SBool, arg(0, SStr), arg(1, SStr))}
	case "fd":
		return VT{App("fd", SInt, arg(0, SStr), arg(1, SStr))}
	case "mk": // mk(Type, fields...)
		s := e.db.resolveSort(mustTypeSrc(x.Args[0]), e.pkg)
		var as []*Term
		for i, f := range theory.ADTs[s].Ctors[1].Fields {
			as = append(as, arg(i+1, f.Sort))
		}
		return VT{adtMk(s, as)}
	case "nilof":
		return VT{adtNil(e.db.resolveSort(mustTypeSrc(x.Args[0]), e.pkg))}
	case "isnil":
		return VT{e.isNil(e.eval(x.Args[0], nil))}
	case "entry":
		if id, ok := x.Args[0].(*ast.Ident); ok && e.entry != nil {
			if v, ok := e.entry[id.Name]; ok {
				return v
			}
		}
		serr("%s: entry() of non loop variable", e.where)
	}
	if m := e.db.Macros[fn.Name]; m != nil {
		if len(m.Params) != n {
			serr("%s: macro %s arity", e.where, fn.Name)
		}
		ne := &Env{db: e.db, pkg: m.Pkg, vars: map[string]Value{}, st: e.st, old: e.old, where: e.where + "/" + fn.Name}
		for i, p := range m.Params {
			ne.vars[p] = VT{arg(i, m.Sorts[i])}
		}
		return VT{ne.evalT(m.Body, m.Ret)}
	}
	if sf := theory.Funs[fn.Name]; sf != nil {
		if len(sf.Params) != n {
			serr("%s: %s arity", e.where, fn.Name)
		}
		var as []*Term
		for i := range x.Args {
			as = append(as, arg(i, sf.Params[i]))
		}
		return VT{App(fn.Name, sf.Ret, as...)}
	}
	if lm := e.db.Lemmas[fn.Name]; lm != nil {
		m := map[*Term]*Term{}
		for i := range x.Args {
			m[lm.Vars[i]] = arg(i, lm.Vars[i].Sort)
		}
		return VT{Subst(Imp(lm.ReqT, lm.EnsT), m)}
	}
	serr("%s: unknown function %q", e.where, fn.Name)
	return nil
}

func typeSrc(x ast.Expr) (string, bool) {
	switch t := x.(type) {
	case *ast.Ident:
		switch t.Name {
		case "int", "bool", "byte", "rune", "string", "error", "any", "real", "bv8", "bv16", "bv32", "bv64", "bv40", "bv128":
			return t.Name, true
		}
		if t.Name != "" && t.Name[0] >= 'A' && t.Name[0] <= 'Z' {
			return t.Name, true
		}
	case *ast.ArrayType:
		s, ok := typeSrc(t.Elt)
		return "[]" + s, ok
	case *ast.MapType:
		k, ok := typeSrc(t.Key)
		v, ok2 := typeSrc(t.Value)
		return "map[" + k + "]" + v, ok && ok2
	case *ast.StarExpr:
		s, ok := typeSrc(t.X)
		return "*" + s, ok
	case *ast.SelectorExpr:
		return t.X.(*ast.Ident).Name + "." + t.Sel.Name, true
	}
	return "", false
}
func mustTypeSrc(x ast.Expr) string {
	s, ok := typeSrc(x)
	if !ok {
		serr("type expected")
	}
	return s
}

func i2r(t *Term) *Term {
	if isInt(t) {
		return RealB(new(big.Rat).SetInt(t.Int))
	}
	return mk("i2r", SReal, nil, "", t)
}

// []rune(s) and string(r): element-wise on ASCII (axioms in prelude.gvc)
func runesOf(t *Term) *Term {
	if t.Sort == SRunes {
		return t
	}
	switch t.Op {
	case "lit":
		ok := true
		for _, v := range litVals(t) {
			if v >= 128 {
				ok = false
			}
		}
		if ok {
			return LitSeq(litVals(t), SRunes)
		}
	case "rep":
		if v, ok := elemLit(t.Args[0]); ok && v < 128 {
			return Rep(BVT(v, 32), t.Args[1])
		}
	case "cat":
		for _, x := range t.Args {
			if !knownASCII(x) {
				return App("runes", SRunes, t)
			}
		}
		r := Empty(SRunes)
		for _, x := range t.Args {
			r = Cat(r, runesOf(x))
		}
		return r
	}
	return App("runes", SRunes, t)
}

// knownASCII: a literal, a repetition or a numeral of ASCII characters
func knownASCII(t *Term) bool {
	switch t.Op {
	case "lit":
		for _, v := range litVals(t) {
			if v >= 128 {
				return false
			}
		}
		return true
	case "rep":
		v, ok := elemLit(t.Args[0])
		return ok && v < 128
	case "app":
		switch t.Lit {
		case "binstr", "binpad", "itoa", "decstr":
			return true
		}
	}
	return false
}
func strOf(t *Term) *Term {
	switch t.Op {
	case "lit":
		ok := true
		for _, v := range litVals(t) {
			if v >= 128 {
				ok = false
			}
		}
		if ok {
			return LitSeq(litVals(t), SStr)
		}
	case "cat":
		r := Empty(SStr)
		for _, x := range t.Args {
			r = Cat(r, strOf(x))
		}
		return r
	case "rep":
		if v, ok := elemLit(t.Args[0]); ok && v < 128 {
			return Rep(BVT(v, 8), t.Args[1])
		}
	}
	// numerals are ASCII
	if t.Op == "app" && t.Lit == "runes" && t.Args[0].Op == "app" {
		switch t.Args[0].Lit {
		case "binstr", "binpad", "itoa", "decstr":
			return t.Args[0]
		}
	}
	return App("str", SStr, t)
}

func (c *Contract) mentionsGhost(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			for _, g := range c.Ghosts {
				found = found || g[0] == id.Name
			}
		}
		return true
	})
	return found
}
