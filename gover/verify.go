package main

// Verification of contracted functions, proofs of lemmas, package
// initialisation.

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type FuncResult struct {
	Key     string
	Obls    []*Obl
	Inlined []string
	Called  []string
	Assumed []string
	Steps   int
}

func paramTypes(f *ssa.Function) []types.Type {
	var r []types.Type
	for _, p := range f.Params {
		r = append(r, p.Type())
	}
	return r
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func isPtrLike(t types.Type) bool {
	switch types.Unalias(t).Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map:
		return true
	}
	return false
}

func normVal(v Value, t types.Type) Value {
	if vi, ok := v.(VIface); ok && isErrorType(t) && vi.T == nil {
		return VT{errNil()}
	}
	if vp, ok := v.(VPtr); ok && vp.Loc == 0 {
		so := sortOf(t)
		if so.Kind == KADT {
			return VT{adtNil(so)}
		}
	}
	return v
}

// generate runs the function symbolically and collects its obligations.
func generate(db *SpecDB, con *Contract) *FuncResult {
	if len(con.get("cursor")) == 0 {
		return generate1(db, con, false)
	}
	a, b := generate1(db, con, true), generate1(db, con, false)
	a.Obls = append(a.Obls, b.Obls...)
	a.Inlined, a.Called, a.Assumed = union(a.Inlined, b.Inlined), union(a.Called, b.Called), union(a.Assumed, b.Assumed)
	a.Steps += b.Steps
	return a
}

func union(a, b []string) []string {
	m := map[string]bool{}
	for _, l := range [][]string{a, b} {
		for _, s := range l {
			m[s] = true
		}
	}
	return sortedKeys(m)
}

func generate1(db *SpecDB, con *Contract, nilParent bool) (res *FuncResult) {
	P := db.P
	fn := P.Funcs[con.Key]
	hide(con.Hide)
	res = &FuncResult{Key: con.Key}
	bad := func(kind, msg string) {
		res.Obls = append(res.Obls, &Obl{Name: con.Key + "/" + msg, Fn: con.Key, Kind: kind, Goal: False})
	}
	if fn == nil {
		bad("anchor", "anchor: function not found in the program")
		return
	}
	if len(fn.Params) != len(con.Params) {
		bad("anchor", fmt.Sprintf("anchor: contract names %d parameters, function has %d", len(con.Params), len(fn.Params)))
		return
	}
	x := &Exec{db: db, P: P, root: fn, con: con, oblSeen: map[string]bool{}, inlined: map[string]bool{}, called: map[string]bool{}, assumed: map[string]bool{}}
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsup:
				bad("unsupported", "supported: "+r.msg)
			case specErr:
				bad("contract", "contract: "+r.msg)
			case string:
				bad("unsupported", "supported: "+r)
			default:
				panic(r)
			}
		}
		res.Obls = append(res.Obls, x.obls...)
		res.Inlined, res.Called, res.Assumed = sortedKeys(x.inlined), sortedKeys(x.called), sortedKeys(x.assumed)
		res.Steps = x.steps
	}()
	st := newState()
	mods := x.modParams(con)
	var args []Value
	env := &Env{db: db, pkg: con.Pkg, vars: map[string]Value{}, st: st, where: con.File + ":" + fmt.Sprint(con.Line) + " " + con.Key}
	for i, p := range fn.Params {
		t := p.Type()
		so := sortOf(t)
		var v Value
		if so == SAny || so.Kind == KADT && types.IsInterface(t) {
			v = VOpaque{"parameter " + p.Name()}
			if st2 := knownPointee(t); st2 != nil {
				v = VPtr{Loc: st.alloc(st2)}
			}
		} else {
			c := Fresh(con.Params[i], so)
			v = st.materialise(c, t)
			if vp, ok := v.(VPtr); ok && vp.Loc == 0 {
				v = VPtr{Loc: st.alloc(&OFolded{T: t.Underlying().(*types.Pointer).Elem(), Term: c})}
			}
			if !mods[con.Params[i]] {
				for _, l := range valLocs(v) {
					st.frozen[l] = true
				}
			}
		}
		args = append(args, v)
		env.vars[con.Params[i]] = v
	}
	var ptypes []types.Type
	for _, p := range fn.Params {
		ptypes = append(ptypes, p.Type())
	}
	cur := cursorOf(con, ptypes)
	if cur != nil {
		x.cursorBody(st, cur, con, args, nilParent)
		env.vars[cur.Parent] = normVal(args[cur.pParent], ptypes[cur.pParent])
	}
	// ghosts: universally quantified over the whole contract (a caller gets no
	// clause that mentions one)
	for _, g := range con.Ghosts {
		env.vars[g[0]] = VT{Fresh(g[0], db.resolveSort(g[1], con.Pkg))}
	}
	env.old = st
	for _, cl := range con.get("requires") {
		for _, cj := range conjuncts(cl.Expr) {
			st.assume(x.specEval(env, cj))
		}
	}
	for _, kind := range []string{"usepre", "assume"} {
		for _, cl := range con.get(kind) {
			if kind == "usepre" {
				lemmaOnly(db, cl.Expr, 1<<30, env.where)
			}
			st.assume(x.specEval(env, cl.Expr))
			if kind == "assume" {
				x.assumed["assume in "+con.Key+": "+cl.Src] = true
			}
		}
	}
	// the precondition must not be contradictory
	vac := &Obl{Name: con.Key + "/precondition satisfiable", Fn: con.Key, Kind: "vacuity", Proved: "z3"}
	if prove(&Query{Hyps: st.pc, Goal: False}, 0).Status == "unsat" {
		bad("vacuity", "precondition satisfiable")
		return
	}
	res.Obls = append(res.Obls, vac)
	x.entry = st.clone()
	x.env0 = map[string]Value{}
	for k, v := range env.vars {
		x.env0[k] = v
	}
	env.old = x.entry
	if vs := con.get("variant"); len(vs) > 0 {
		x.decr0 = env.evalT(vs[0].Expr, SInt)
	}
	st.foldOn = con.Opts["fold"] != ""
	// split: the body is verified once where the condition holds and once where it does not
	sts := []*State{st}
	for _, cl := range con.get("split") {
		c := x.specEval(env, cl.Expr)
		var n []*State
		for _, s := range sts {
			s2 := s.clone()
			s.assume(c)
			s2.assume(Not(c))
			n = append(n, s, s2)
		}
		sts = n
	}
	var outs []Outcome
	for _, s := range sts {
		outs = append(outs, x.callBody(fn, args, nil, s, 0)...)
	}
	sig := fn.Signature
	nret := 0
	live := false
	for _, o := range outs {
		if o.kind != "ret" || o.st.dead() {
			continue
		}
		nret++
		o := o
		x.guard(o.st, o.fr, fn.Pos(), func() []Outcome {
			e2 := &Env{db: db, pkg: con.Pkg, vars: map[string]Value{}, st: o.st, old: x.entry, where: env.where}
			for k, v := range env.vars {
				e2.vars[k] = v
			}
			var rts []types.Type
			for i := 0; i < sig.Results().Len(); i++ {
				rt := sig.Results().At(i).Type()
				rts = append(rts, rt)
				nm := fmt.Sprintf("r%d", i)
				if i < len(con.Results) {
					nm = con.Results[i]
				}
				v := normVal(o.vals[i], rt)
				e2.vars[nm] = v
				if i == 0 {
					e2.vars["result"] = v
				}
			}
			for i, p := range con.Params {
				if p == con.Opts["consumes"] || cur != nil && (i == cur.pParent || i == cur.pNode) { // its value at entry
					e2.vars[p] = VT{x.entry.abs(args[i], fn.Params[i].Type())}
					continue
				}
				e2.vars[p] = normVal(e2.vars[p], fn.Params[i].Type())
			}
			x.checkFrame(con, fn, o, args, mods, rts)
			for _, cl := range con.get("use") {
				lemmaOnly(db, cl.Expr, 1<<30, env.where)
				o.st.assume(x.specEval(e2, cl.Expr))
			}
			if !live && prove(&Query{Hyps: o.st.pc, Goal: False}, 0).Status != "unsat" {
				live = true
			}
			for k, cl := range con.get("ensures") {
				nm := cl.Name
				if nm == "" {
					nm = fmt.Sprint(k + 1)
				}
				st2 := o.st.clone()
				for _, cj := range conjuncts(cl.Expr) {
					x.oblige(st2, "ensures", fmt.Sprintf("%s/ensures %s", con.Key, nm), x.specEval(e2, cj), o.pos)
				}
			}
			return nil
		})
	}
	if !live && con.Opts["noreturn"] == "" {
		x.obls = append(x.obls, &Obl{Name: con.Key + "/some return is reachable", Fn: con.Key, Kind: "vacuity", Goal: False})
	}
	return
}

func knownPointee(t types.Type) Obj {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "bytes.Buffer":
		return &OBuf{S: Fresh("buf", SeqOf(SAny))}
	}
	return nil
}

func shareable(o Obj) bool {
	switch o := o.(type) {
	case *OStruct:
		if n := namedStruct(o.T); n != nil && !mutableTypes[adtName(n)] {
			return true
		}
	case *OFolded:
		if n := namedStruct(o.T); n != nil && !mutableTypes[adtName(n)] {
			return true
		}
		if isCons(o.Term) && len(o.Term.Args) == 0 {
			return true
		}
	case *OSeq:
		return isEmpty(o.S) // nothing to share
	case *OBig, *OBuf, *OEnc, *ODec:
		return true
	case *OCell:
		return false
	case nil:
		return true
	}
	return false
}

// checkFrame: the heap graph handed back to the caller has the shape the
// caller-side contract application assumes.
func (x *Exec) checkFrame(con *Contract, fn *ssa.Function, o Outcome, args []Value, mods map[string]bool, rts []types.Type) {
	st := o.st
	owned := map[int]string{} // reachable from modified parameters
	problem := ""
	var walk func(l int, who string, m map[int]string, allowFrozen bool)
	walk = func(l int, who string, m map[int]string, allowFrozen bool) {
		if l == 0 || problem != "" {
			return
		}
		ob := st.heap[l]
		if shareable(ob) {
			return
		}
		if w := st.stale[l]; w != "" {
			problem = "stale object reachable from " + who
			return
		}
		if st.frozen[l] && !allowFrozen {
			problem = "borrowed object stored in " + who
			return
		}
		if _, dup := m[l]; dup {
			problem = "shared mutable object reachable twice from " + who
			return
		}
		m[l] = who
		for _, c := range childLocs(ob) {
			walk(c, who, m, allowFrozen)
		}
	}
	for i, p := range con.Params {
		if !mods[p] {
			continue
		}
		for _, l := range valLocs(args[i]) {
			walk(l, p, owned, false)
		}
	}
	res := map[int]string{}
	if cp := con.Opts["consumes"]; cp != "" {
		for i, p := range con.Params {
			if p == cp {
				for _, l := range valLocs(args[i]) {
					owned[l] = p
				}
			} else if len(valLocs(args[i])) > 0 && !x.immutableArg(fn.Params[i].Type()) {
				problem = "a consuming function with other reference parameters"
			}
		}
		for i, v := range o.vals {
			if isPtrLike(rts[i]) {
				for _, l := range valLocs(v) {
					walk(l, "result", owned, true)
				}
			}
		}
		if problem != "" {
			x.oblige(st, "frame", con.Key+"/frame: "+problem, False, fn.Pos())
		}
		return
	}
	for i, v := range o.vals {
		if !isPtrLike(rts[i]) {
			continue
		}
		if a := con.Opts["alias"]; a != "" && i == 0 {
			for k, p := range con.Params {
				if p == a && !valEq(v, args[k]) {
					problem = "first result is not the parameter " + a
				}
			}
			continue
		}
		if con.Opts["fresh"] != "" {
			for _, l := range valLocs(v) {
				if vs, ok := v.(VSlice); ok && vs.Nil == True {
					continue
				}
				walk(l, "result", owned, false)
			}
		} else {
			m := map[int]string{}
			for _, l := range valLocs(v) {
				walk(l, "result", m, true)
			}
			for l := range m {
				if _, bad := owned[l]; bad {
					problem = "result aliases a modified parameter"
				}
				res[l] = "result"
			}
		}
	}
	if problem != "" {
		x.oblige(st, "frame", con.Key+"/frame: "+problem, False, fn.Pos())
	}
}

// ---- lemmas ----

func hasField(s *Sort) *ADTDef { return theory.ADTs[s] }

// lemmaObls generates the proof obligations of a lemma.
func lemmaObls(db *SpecDB, lm *Lemma) (obls []*Obl) {
	hide(lm.Hide)
	skip := map[string]bool{}
	for _, l := range db.LemmaList {
		if l.Order >= lm.Order && !l.Axiom {
			skip[l.Name] = true
		}
	}
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				obls = append(obls, &Obl{Name: "lemma " + lm.Name + "/" + se.msg, Fn: "lemma " + lm.Name, Kind: "contract", Goal: False})
				return
			}
			panic(r)
		}
	}()
	base := map[*Term]*Term{}
	env := &Env{db: db, pkg: lm.Pkg, vars: map[string]Value{}, where: lm.Pos}
	for i, v := range lm.Vars {
		c := Fresh(lm.VarNames[i], v.Sort)
		base[v] = c
		env.vars[lm.VarNames[i]] = VT{c}
	}
	type vcase struct {
		name string
		m    map[*Term]*Term
		hyps []*Term
	}
	cases := []vcase{{"", base, nil}}
	selfInst := func(args []*Term) *Term { // instance of the lemma itself, guarded by the measure
		return nil
	}
	if lm.Induct != "" {
		var v *Term
		for i := range lm.Vars {
			if lm.VarNames[i] == lm.Induct {
				v = lm.Vars[i]
			}
		}
		if v != nil && v.Sort.Kind == KADT {
			d := theory.ADTs[v.Sort]
			cases = nil
			m1 := cloneM(base)
			m1[v] = adtNil(v.Sort)
			cases = append(cases, vcase{"nil", m1, nil})
			m2 := cloneM(base)
			var fs []*Term
			for _, f := range d.Ctors[1].Fields {
				fs = append(fs, Fresh(f.Name, f.Sort))
			}
			m2[v] = adtMk(v.Sort, fs)
			var hy []*Term
			for _, f := range fs {
				if f.Sort == v.Sort {
					// IH: for all other variables
					mm := map[*Term]*Term{v: f}
					var others []*Term
					for _, o := range lm.Vars {
						if o != v {
							others = append(others, o)
						}
					}
					body := Subst(Imp(lm.ReqT, lm.EnsT), mm)
					var trigs [][]*Term
					for _, tg := range lm.Trigs {
						var t2 []*Term
						for _, t := range tg {
							t2 = append(t2, Subst(t, mm))
						}
						trigs = append(trigs, t2)
					}
					hy = append(hy, Forall(others, trigs, body))
				}
			}
			cases = append(cases, vcase{"node", m2, hy})
		} else {
			// measure induction
			menv := &Env{db: db, pkg: lm.Pkg, vars: map[string]Value{}, where: lm.Pos}
			for i, v := range lm.Vars {
				menv.vars[lm.VarNames[i]] = VT{v}
			}
			mt := menv.evalT(parseExpr(lm.Induct, lm.Pos), SInt)
			m0 := Subst(mt, base)
			ih := Forall(lm.Vars, lm.Trigs, Imp(And(Le(IntT(0), mt), Lt(mt, m0)), Imp(lm.ReqT, lm.EnsT)))
			cases[0].hyps = []*Term{ih}
			selfInst = func(args []*Term) *Term {
				mm := map[*Term]*Term{}
				for i, v := range lm.Vars {
					mm[v] = args[i]
				}
				return Subst(Imp(And(Le(IntT(0), mt), Lt(mt, m0)), Imp(lm.ReqT, lm.EnsT)), mm)
			}
		}
	}
	if lm.Cases != "" {
		var nc []vcase
		for _, c := range cases {
			for k, src := range splitTop(lm.Cases, ';') {
				e := &Env{db: db, pkg: lm.Pkg, vars: map[string]Value{}, where: lm.Pos}
				for i, v := range lm.Vars {
					e.vars[lm.VarNames[i]] = VT{c.m[v]}
				}
				t := e.evalT(parseExpr(src, lm.Pos), SBool)
				for _, b := range []*Term{t, Not(t)} {
					if b == False {
						continue
					}
					nc = append(nc, vcase{fmt.Sprintf("%s case%d %v", c.name, k, b == t), c.m, append(append([]*Term(nil), c.hyps...), b)})
				}
			}
		}
		cases = nc
	}
	for _, c := range cases {
		hyps := append([]*Term(nil), c.hyps...)
		st := newState()
		st.pc = hyps
		st.assume(Subst(lm.ReqT, c.m))
		e := &Env{db: db, pkg: lm.Pkg, vars: map[string]Value{}, where: lm.Pos}
		for i, v := range lm.Vars {
			e.vars[lm.VarNames[i]] = VT{c.m[v]}
		}
		for _, u := range lm.Uses {
			if len(lm.Uses) > 0 {
				checkUse(db, lm, u, selfInst != nil)
			}
			st.assume(useInst(e, u, lm, selfInst))
		}
		for k, en := range lm.Ens {
			e0 := &Env{db: db, pkg: lm.Pkg, vars: map[string]Value{}, where: lm.Pos}
			for i, v := range lm.Vars {
				e0.vars[lm.VarNames[i]] = VT{c.m[v]}
			}
			st2 := st.clone()
			for _, cj := range conjuncts(en.Expr) {
				g := e0.evalT(cj, SBool)
				o := &Obl{Name: strings.TrimRight(fmt.Sprintf("lemma %s/%d %s", lm.Name, k+1, c.name), " "), Fn: "lemma " + lm.Name, Kind: "lemma", Hyps: append([]*Term(nil), st2.pc...), Goal: g, Skip: skip, Pos: lm.Pos}
				obls = append(obls, o)
				st2.assume(g)
			}
		}
	}
	return
}

func cloneM(m map[*Term]*Term) map[*Term]*Term {
	n := map[*Term]*Term{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func solveObls(obls []*Obl) {
	var wg sync.WaitGroup
	for _, o := range obls {
		if o.Proved != "" {
			continue
		}
		if o.Goal == True {
			o.Proved = "simplifier"
			continue
		}
		wg.Add(1)
		go func(o *Obl) {
			defer wg.Done()
			o.Res = proveSplit(&Query{Hyps: o.Hyps, Goal: o.Goal, Skip: o.Skip})
			if o.Res.Status == "unsat" {
				o.Proved = o.Res.Backend
			} else if os.Getenv("GOVER_ALL") == "" {
				atomic.AddInt32(&failedObls, 1)
			}
		}(o)
	}
	wg.Wait()
}

// runInit executes the initialisation of the packages' global variables.
func runInit(db *SpecDB, pkgs ...string) []string {
	var notes []string
	x := &Exec{db: db, P: db.P, oblSeen: map[string]bool{}, inlined: map[string]bool{}, called: map[string]bool{}, assumed: map[string]bool{}, initMode: true}
	st := newState()
	for _, p := range pkgs {
		sp := db.P.Pkgs[p]
		if sp == nil {
			continue
		}
		f := sp.Func("init")
		func() {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(unsup); ok {
						notes = append(notes, fmt.Sprintf("package init of %s: %s", p, u.msg))
						return
					}
					panic(r)
				}
			}()
			x.root = f
			s2 := st.clone()
			outs := x.callBody(f, nil, nil, s2, 0)
			if len(outs) != 1 || outs[0].kind != "ret" {
				notes = append(notes, "package init of "+p+": no single outcome")
				return
			}
			st = outs[0].st
		}()
	}
	globalState = st
	if os.Getenv("GOVER_INIT") != "" {
		fmt.Fprintln(os.Stderr, notes)
	}
	return notes
}

// a `use` clause in a lemma may only instantiate earlier lemmas (or, guarded
// by the measure, the lemma itself).
func useInst(e *Env, u Clause, lm *Lemma, self func([]*Term) *Term) *Term {
	if c, ok := u.Expr.(*ast.CallExpr); ok {
		if id, ok := c.Fun.(*ast.Ident); ok && id.Name == lm.Name {
			var as []*Term
			for i := range c.Args {
				as = append(as, e.evalT(c.Args[i], lm.Vars[i].Sort))
			}
			if t := self(as); t != nil {
				return t
			}
			serr("%s: self use without measure induction", lm.Pos)
		}
	}
	return e.evalT(u.Expr, SBool)
}

func checkUse(db *SpecDB, lm *Lemma, u Clause, _ bool) {
	if c, ok := u.Expr.(*ast.CallExpr); ok {
		if id, ok := c.Fun.(*ast.Ident); ok && id.Name == lm.Name {
			for _, a := range c.Args {
				noLemma(db, a, lm.Pos)
			}
			return
		}
	}
	lemmaOnly(db, u.Expr, lm.Order, lm.Pos)
}

// lemmaOnly: the expression is an instance of a (previously proved) lemma,
// possibly under forall or imp; anything else would be an assumption.
func lemmaOnly(db *SpecDB, e ast.Expr, order int, pos string) {
	c, ok := e.(*ast.CallExpr)
	if !ok {
		serr("%s: use clause must be a lemma instance", pos)
	}
	id, ok := c.Fun.(*ast.Ident)
	if !ok {
		serr("%s: use clause must be a lemma instance", pos)
	}
	if l := db.Lemmas[id.Name]; l != nil {
		if l.Order >= order && !l.Axiom {
			serr("%s: use of later lemma %s", pos, l.Name)
		}
		for _, a := range c.Args {
			noLemma(db, a, pos)
		}
		return
	}
	switch id.Name {
	case "forall":
		n := len(c.Args) - 1
		for n > 0 {
			if t, ok := c.Args[n].(*ast.CallExpr); ok {
				if ti, ok := t.Fun.(*ast.Ident); ok && ti.Name == "trig" {
					n--
					continue
				}
			}
			break
		}
		lemmaOnly(db, c.Args[n], order, pos)
	case "imp":
		noLemma(db, c.Args[0], pos)
		lemmaOnly(db, c.Args[1], order, pos)
	default:
		serr("%s: use of %s, which is not a lemma", pos, id.Name)
	}
}

func noLemma(db *SpecDB, e ast.Expr, pos string) {
	ast.Inspect(e, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && db.Lemmas[id.Name] != nil {
				serr("%s: lemma %s in term position", pos, id.Name)
			}
		}
		return true
	})
}
