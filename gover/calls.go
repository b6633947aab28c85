package main

// Calls: builtins, contracts, inlining and models of standard library functions.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) simpleCallBuiltin(fr *Frame, st *State, ins *ssa.Call, bi *ssa.Builtin) {
	if bi.Name() != "len" {
		fail("builtin %s", bi.Name())
	}
	fr.vals[ins] = VT{x.lenOf(st, x.val(fr, st, ins.Call.Args[0]))}
}

func (x *Exec) lenOf(st *State, v Value) *Term {
	switch v := v.(type) {
	case VT:
		return Len(v.T)
	case VSlice:
		return v.Len
	case VMap:
		if v.Loc == 0 {
			return IntT(0)
		}
		switch o := st.heap[v.Loc].(type) {
		case *OCMap:
			if x.allDistinct(o.K) {
				return IntT(int64(len(o.K)))
			}
			return mk("mcard", SInt, nil, "", x.toOMap(st, v.Loc).M)
		case *OMap:
			return mk("mcard", SInt, nil, "", o.M)
		}
	case VPtr:
		return x.backLen(st, v.Loc)
	}
	fail("len of %T", v)
	return nil
}

func (x *Exec) seqOf(st *State, v Value) *Term {
	switch v := v.(type) {
	case VT:
		return v.T
	case VSlice:
		return st.abs(v, nil)
	}
	fail("sequence expected, got %T", v)
	return nil
}

// escape: the value has been copied into a mathematical container; later
// in-place changes through the original reference are not allowed.
func (x *Exec) escape(st *State, v Value) {
	for _, l := range valLocs(v) {
		x.freeze(st, l, map[int]bool{})
	}
}
func (x *Exec) freeze(st *State, l int, seen map[int]bool) {
	if seen[l] {
		return
	}
	seen[l] = true
	if !st.frozen[l] {
		x.noteWrite(l, -3)
	}
	st.frozen[l] = true
	for _, c := range childLocs(st.heap[l]) {
		x.freeze(st, c, seen)
	}
}

func (x *Exec) appendOp(st *State, s VSlice, more Value, isStr bool) Value {
	var add *Term
	var addVec []Value
	switch m := more.(type) {
	case VT:
		add = m.T
	case VSlice:
		if o, ok := st.heap[m.Loc].(*OVec); ok {
			off, k1 := IntVal(m.Off)
			n, k2 := IntVal(m.Len)
			if k1 && k2 {
				addVec = o.E[off : off+n]
			}
		}
		if addVec == nil {
			add = st.abs(m, nil)
		}
	default:
		fail("append of %T", more)
	}
	if addVec != nil && len(addVec) == 0 || add != nil && isEmpty(add) {
		return s
	}
	// aliasing of the backing array
	if w := st.stale[s.Loc]; w != "" {
		fail("append after %s", w)
	}
	back := x.backLen(st, s.Loc)
	end := Add(s.Off, s.Len)
	whole := end == back
	var result VSlice
	if o, ok := st.heap[s.Loc].(*OVec); ok && addVec != nil && len(o.E) < 64 {
		off, k1 := IntVal(s.Off)
		n, k2 := IntVal(s.Len)
		if k1 && k2 {
			nv := &OVec{Elem: o.Elem, E: append(append([]Value(nil), o.E[off:off+n]...), addVec...)}
			result = VSlice{Loc: st.alloc(nv), Off: IntT(0), Len: IntT(int64(len(nv.E))), Nil: False, Elem: s.Elem}
		}
	}
	if result.Loc == 0 {
		if addVec != nil {
			add = Empty(SeqOf(sortOf(s.Elem)))
			for _, e := range addVec {
				add = Cat(add, Unit(x.tm(st, e, s.Elem)))
				x.escape(st, e)
			}
		}
		t := Cat(st.abs(s, nil), add)
		result = x.newSeq(st, t, s.Elem)
		if addVec == nil && s.Nil != False {
			// append(nil, empty...) stays nil
			result.Nil = And(s.Nil, Eq(Len(add), IntT(0)))
		}
	}
	if !whole {
		x.inPlace(st, s.Loc, "append into the middle of a shared array")
		if e, ok := st.heap[s.Loc].(*OSeq); ok {
			// in-place overwrite of the tail of a longer array
			c, eq := FreshLen("overwritten", e.S.Sort, Len(e.S))
			st.assume(eq)
			st.assume(Eq(SubSeq(c, IntT(0), end), SubSeq(e.S, IntT(0), end)))
			st.heap[s.Loc] = &OSeq{S: c, Elem: e.Elem}
			x.noteWrite(s.Loc, -1)
		} else {
			st.stale[s.Loc] = "append into a shared backing array"
			x.noteWrite(s.Loc, -2)
		}
	} else {
		// earlier appends from the same end share the spare capacity
		x.staleKids(st, s.Loc, map[int]bool{})
	}
	st.link(s.Loc, result.Loc)
	st.kids[s.Loc] = append(append([]int(nil), st.kids[s.Loc]...), result.Loc)
	return result
}

func (x *Exec) staleKids(st *State, l int, seen map[int]bool) {
	if seen[l] {
		return
	}
	seen[l] = true
	for _, a := range st.kids[l] {
		if st.frozen[a] {
			fail("a second append to a slice may overwrite what was stored after the first")
		}
		st.stale[a] = "a second append to the same slice"
		x.noteWrite(a, -2)
		x.staleKids(st, a, seen)
	}
}

// inPlace: the array at l is about to be written. Whatever may share memory
// with it can no longer be read; if some of it is the value of a map entry
// that has not changed since, that entry's value becomes unknown.
func (x *Exec) inPlace(st *State, l int, what string) {
	set := st.aliasSet(l)
	var locs []int
	for a := range set {
		locs = append(locs, a)
	}
	sort.Ints(locs)
	maps := map[int]bool{}
	for _, a := range locs {
		if st.frozen[a] && !x.initMode {
			og, ok := st.origin[a]
			if !ok {
				fail("%s", what)
			}
			o, isMap := st.heap[og.m].(*OMap)
			if !isMap || st.frozen[og.m] || o.M != og.mt && !maps[og.m] {
				fail("%s", what)
			}
			if !maps[og.m] {
				maps[og.m] = true
				st.heap[og.m] = &OMap{M: mk("mstore", o.M.Sort, nil, "", o.M, og.k, Fresh("overwritten", SeqOf(sortOf(o.T.Elem().Underlying().(*types.Slice).Elem())))), T: o.T}
				x.noteWrite(og.m, -1)
			} else {
				fail("%s", what)
			}
			for b, ob := range st.origin {
				if ob.m == og.m && b != l {
					st.stale[b] = "possible overwrite of the map entry it came from"
					x.noteWrite(b, -2)
				}
			}
		}
		if a != l {
			st.stale[a] = "possible overwrite through a shared backing array"
			x.noteWrite(a, -2)
		}
	}
}

func (x *Exec) staleAlias(st *State, l int) { x.inPlace(st, l, "write into a shared array") }

func (x *Exec) builtin(fr *Frame, st *State, name string, args []Value, cc *ssa.CallCommon, pos token.Pos) []vout {
	one := func(v Value) []vout { return []vout{{st, v}} }
	switch name {
	case "len":
		return one(VT{x.lenOf(st, args[0])})
	case "append":
		s, ok := args[0].(VSlice)
		if !ok {
			fail("append to %T", args[0])
		}
		return one(x.appendOp(st, s, args[1], false))
	case "delete":
		m := args[0].(VMap)
		if m.Loc == 0 {
			return one(VTuple{})
		}
		if st.frozen[m.Loc] {
			fail("delete from a borrowed map")
		}
		k := x.tm(st, args[1], cc.Args[1].Type())
		x.noteWrite(m.Loc, -1)
		if o, ok := st.heap[m.Loc].(*OCMap); ok {
			unknown := false
			n := &OCMap{T: o.T}
			for i := range o.K {
				switch keyCmp(o.K[i], k) {
				case 1:
					continue
				case -1:
					unknown = true
				}
				n.K = append(n.K, o.K[i])
				n.V = append(n.V, o.V[i])
			}
			if !unknown {
				st.heap[m.Loc] = n
				return one(VTuple{})
			}
		}
		o := x.toOMap(st, m.Loc)
		st.heap[m.Loc] = &OMap{M: mk("mdel", o.M.Sort, nil, "", o.M, k), T: o.T}
		return one(VTuple{})
	case "copy":
		d, ok := args[0].(VSlice)
		if !ok {
			fail("copy")
		}
		src := x.seqOf(st, args[1])
		if st.frozen[d.Loc] {
			fail("copy into a borrowed slice")
		}
		x.staleAlias(st, d.Loc)
		if _, ok := st.heap[d.Loc].(*OVec); ok {
			x.vecToSeq(st, d.Loc)
		}
		o := st.heap[d.Loc].(*OSeq)
		n := Ite(Le(Len(src), d.Len), Len(src), d.Len)
		end := Add(d.Off, n)
		st.heap[d.Loc] = &OSeq{S: Cat(Cat(SubOK(o.S, IntT(0), d.Off), SubOK(src, IntT(0), n)), SubOK(o.S, end, Len(o.S))), Elem: o.Elem}
		x.noteWrite(d.Loc, -1)
		return one(VT{n})
	case "ssa:wrapnilchk":
		return one(args[0])
	case "min", "max":
		a, b := x.tm(st, args[0], cc.Args[0].Type()), x.tm(st, args[1], cc.Args[1].Type())
		if a.Sort == SInt && len(args) == 2 {
			if name == "min" {
				return one(VT{Ite(Le(a, b), a, b)})
			}
			return one(VT{Ite(Le(a, b), b, a)})
		}
	case "cap":
		s, ok := args[0].(VSlice)
		if ok {
			c := Fresh("cap", SInt)
			st.assume(Le(s.Len, c))
			return one(VT{c})
		}
	}
	fail("builtin %s", name)
	return nil
}

func (x *Exec) call(fr *Frame, st *State, cc *ssa.CallCommon, ins ssa.Instruction, pos token.Pos) []vout {
	var args []Value
	if cc.IsInvoke() {
		recv := x.val(fr, st, cc.Value)
		for _, a := range cc.Args {
			args = append(args, x.val(fr, st, a))
		}
		if i, ok := recv.(VIface); ok && i.T != nil {
			f := x.P.Prog.LookupMethod(i.T, cc.Method.Pkg(), cc.Method.Name())
			if f == nil {
				fail("method %s not found", cc.Method)
			}
			return x.callFn(fr, st, f, append([]Value{i.V}, args...), nil, cc, pos)
		}
		if vt, ok := recv.(VT); ok && vt.T.Sort == SErr && cc.Method.Name() == "Error" {
			x.oblige(st, "nil", funcKey(fr.fn)+"/nil-deref", Not(Eq(vt.T, errNil())), pos)
			return []vout{{st, VT{Fresh("errtext", SStr)}}}
		}
		fail("dynamic call of %s", cc.Method.Name())
	}
	for _, a := range cc.Args {
		args = append(args, x.val(fr, st, a))
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		return x.builtin(fr, st, f.Name(), args, cc, pos)
	case *ssa.Function:
		return x.callFn(fr, st, f, args, nil, cc, pos)
	}
	v := x.val(fr, st, cc.Value)
	if f, ok := v.(VFunc); ok && f.Fn != nil {
		return x.callFn(fr, st, f.Fn, args, f.Free, cc, pos)
	}
	fail("call of %T", v)
	return nil
}

func isModule(f *ssa.Function) bool {
	var p *types.Package
	if f.Pkg != nil {
		p = f.Pkg.Pkg
	} else if f.Object() != nil {
		p = f.Object().Pkg()
	} else if f.Parent() != nil {
		return isModule(f.Parent())
	}
	if p == nil {
		return false
	}
	return p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/") || p.Path() == binutilPath
}

func (x *Exec) callFn(fr *Frame, st *State, f *ssa.Function, args, free []Value, cc *ssa.CallCommon, pos token.Pos) []vout {
	key := funcKey(f)
	if x.initMode && f.Name() == "init" {
		return []vout{{st, VTuple{}}}
	}
	con := x.db.Contracts[key]
	if con != nil && !con.Inline && !x.initMode {
		x.called[key] = true
		if con.Trusted {
			x.assumed[key] = true
		}
		return x.applyContract(fr, st, con, f, args, cc, pos)
	}
	if v, ok := x.model(fr, st, key, f, args, cc, pos); ok {
		return v
	}
	if isModule(f) && f.Blocks != nil {
		if !x.initMode {
			x.inlined[key] = true
		}
		// direct recursion without a contract is only unrolled
		outs := x.callBody(f, args, free, st, fr.depth+1)
		var r []vout
		for _, o := range outs {
			if o.kind != "ret" {
				fail("unexpected outcome %s from %s", o.kind, key)
			}
			r = append(r, vout{o.st, tupleOf(o.vals)})
		}
		return r
	}
	if v, ok := x.pureStd(st, f); ok {
		return []vout{{st, v}}
	}
	fail("call of %s without a contract", key)
	return nil
}

// pureStd: a library function of values that neither panics nor changes
// anything may return anything.
func (x *Exec) pureStd(st *State, f *ssa.Function) (Value, bool) {
	if f.Pkg == nil || f.Signature.Recv() != nil || f.Signature.TypeParams() != nil {
		return nil, false
	}
	switch f.Pkg.Pkg.Path() {
	case "strings", "strconv", "unicode", "unicode/utf8", "math", "math/bits", "bytes":
	default:
		return nil, false
	}
	if f.Name() == "Repeat" || strings.HasPrefix(f.Name(), "Div") || strings.HasPrefix(f.Name(), "Rem") {
		return nil, false // they panic on some values
	}
	basic := func(t types.Type) bool {
		_, ok := t.Underlying().(*types.Basic)
		return ok
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		t := f.Signature.Params().At(i).Type()
		if s, ok := t.Underlying().(*types.Slice); !basic(t) && !(ok && basic(s.Elem())) {
			return nil, false
		}
	}
	var vs []Value
	for i := 0; i < f.Signature.Results().Len(); i++ {
		t := f.Signature.Results().At(i).Type()
		s, isSlice := t.Underlying().(*types.Slice)
		switch {
		case basic(t), types.Identical(t, types.Universe.Lookup("error").Type()):
		case isSlice && f.Pkg.Pkg.Path() == "strings" && basic(s.Elem()): // always a new one
		default:
			return nil, false
		}
		so := sortOf(t)
		if so == nil {
			return nil, false
		}
		vs = append(vs, st.materialise(Fresh(f.Name(), so), t))
	}
	x.assumed[funcKey(f)] = true
	return tupleOf(vs), true
}

func tupleOf(vs []Value) Value {
	if len(vs) == 1 {
		return vs[0]
	}
	return VTuple{vs}
}

func conjuncts(e ast.Expr) []ast.Expr {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return conjuncts(e.X)
	case *ast.BinaryExpr:
		if e.Op == token.LAND {
			return append(conjuncts(e.X), conjuncts(e.Y)...)
		}
	}
	return []ast.Expr{e}
}

func (x *Exec) specEval(env *Env, e ast.Expr) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				fail("contract cannot be evaluated here: %s", se.msg)
			}
			panic(r)
		}
	}()
	return env.evalT(e, SBool)
}

func (x *Exec) modParams(con *Contract) map[string]bool {
	m := map[string]bool{}
	for _, c := range con.get("modifies") {
		for _, p := range strings.FieldsFunc(c.Src, func(r rune) bool { return r == ',' || r == ' ' }) {
			m[p] = true
		}
	}
	return m
}

func (x *Exec) applyContract(fr *Frame, st *State, con *Contract, f *ssa.Function, args []Value, cc *ssa.CallCommon, pos token.Pos) []vout {
	if len(con.Params) != len(args) {
		fail("contract %s has %d parameters, call has %d", con.Key, len(con.Params), len(args))
	}
	env := &Env{db: x.db, pkg: con.Pkg, vars: map[string]Value{}, st: st, old: st, where: con.File + " " + con.Key}
	var ptypes []types.Type
	sig := f.Signature
	if sig.Recv() != nil {
		ptypes = append(ptypes, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ptypes = append(ptypes, sig.Params().At(i).Type())
	}
	for i, p := range con.Params {
		v := args[i]
		if vi, ok := v.(VIface); ok && isErrorType(ptypes[i]) && vi.T == nil {
			v = VT{errNil()}
		}
		env.vars[p] = v
	}
	// nil pointers in parameter position need their sort
	for i, p := range con.Params {
		if vp, ok := env.vars[p].(VPtr); ok && vp.Loc == 0 {
			so := sortOf(ptypes[i])
			if so.Kind == KADT {
				env.vars[p] = VT{adtNil(so)}
			}
		}
		if vm, ok := env.vars[p].(VMap); ok && vm.Loc == 0 {
			env.vars[p] = VT{st.abs(vm, nil)}
		}
	}
	cur := cursorOf(con, ptypes)
	if cur != nil {
		x.nonNil(st, args[cur.pOwner], con.Key, pos, fr)
		x.nonNil(st, args[cur.pNode], con.Key, pos, fr)
		x.cursorCall(st, cur, con, args, f)
	}
	for k, cl := range con.get("requires") {
		nm := cl.Name
		if nm == "" {
			nm = fmt.Sprint(k + 1)
		}
		for _, cj := range conjuncts(cl.Expr) {
			x.oblige(st, "requires", fmt.Sprintf("%s/precondition %s of %s", funcKey(fr.fn), nm, con.Key), x.specEval(env, cj), pos)
		}
	}
	for _, cl := range con.get("variant") {
		if x.sameGroup(con) && x.decr0 != nil {
			m := env.evalT(cl.Expr, SInt)
			x.oblige(st, "termination", fmt.Sprintf("%s/recursion into %s terminates", funcKey(x.root), con.Key), And(Le(IntT(0), m), Lt(m, x.decr0)), pos)
		}
	}
	if con == x.con && len(con.get("variant")) == 0 && x.silent == 0 {
		x.oblige(st, "termination", fmt.Sprintf("%s/recursion terminates (no variant given)", funcKey(x.root)), False, pos)
	}
	if st.dead() {
		return []vout{{st, VTuple{}}}
	}
	old := st.clone()
	mods := x.modParams(con)
	hasPtrRes := false
	for i := 0; i < sig.Results().Len(); i++ {
		switch sig.Results().At(i).Type().Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map:
			hasPtrRes = true
		}
	}
	if len(mods) > 0 || hasPtrRes && con.Opts["fresh"] == "" {
		for i, p := range con.Params {
			if cur != nil && (i == cur.pParent || i == cur.pNode) {
				continue
			}
			if !mods[p] && con.Opts["alias"] != p && con.Opts["consumes"] != p {
				if x.immutableArg(ptypes[i]) {
					continue
				}
				x.escape(st, args[i])
			}
		}
	}
	// consumes=p: the results may be made of what lies below p, which is not used after
	borrow := con.Opts["fresh"] == ""
	var consumed Value
	if cp := con.Opts["consumes"]; cp != "" {
		for i, p := range con.Params {
			if p != cp {
				if len(valLocs(args[i])) > 0 && !x.immutableArg(ptypes[i]) {
					fail("%s: a consuming function with other reference parameters", con.Key)
				}
				continue
			}
			v, ok := args[i].(VPtr)
			if !ok || len(v.Path) > 0 {
				fail("%s consumes a %T", con.Key, args[i])
			}
			consumed = VT{st.abs(v, ptypes[i])}
			borrow = false
			if v.Loc != 0 {
				borrow = st.frozen[v.Loc]
				if o, ok := st.heap[v.Loc].(*OFolded); ok && !isCons(o.Term) {
					// everything below a record that is not looked into goes with it
					x.markStale(st, v.Loc, map[int]bool{}, "a call of "+con.Key)
				}
				seen := map[int]bool{v.Loc: true}
				for _, c := range childLocs(st.heap[v.Loc]) {
					x.markStale(st, c, seen, "a call of "+con.Key)
				}
			}
		}
	}
	if cur != nil && !mods[cur.Owner] {
		fail("%s: a cursor without modifies", con.Key)
	}
	env2 := &Env{db: x.db, pkg: con.Pkg, vars: map[string]Value{}, st: st, old: old, where: env.where}
	for k, v := range env.vars {
		env2.vars[k] = v
	}
	if cur != nil {
		for _, i := range []int{cur.pParent, cur.pNode} {
			env2.vars[con.Params[i]] = VT{old.abs(args[i], ptypes[i])}
		}
	}
	if consumed != nil { // the contract speaks of its value before the call
		env2.vars[con.Opts["consumes"]] = consumed
	}
	for i, p := range con.Params {
		if !mods[p] {
			continue
		}
		switch v := args[i].(type) {
		case VPtr:
			if v.Loc == 0 {
				continue
			}
			if len(v.Path) > 0 {
				fail("interior pointer passed to a modifying function")
			}
			if st.frozen[v.Loc] {
				fail("modifying call through a borrowed reference (%s)", con.Key)
			}
			var t types.Type
			switch o := st.heap[v.Loc].(type) {
			case *OStruct:
				t = o.T
			case *OFolded:
				t = o.T
			default:
				fail("modifying call on %T", o)
			}
			seen := map[int]bool{v.Loc: true}
			for _, c := range childLocs(st.heap[v.Loc]) {
				x.markStale(st, c, seen, "a call of "+con.Key)
			}
			so := sortOf(t)
			c := Fresh(p, so)
			st.heap[v.Loc] = &OFolded{T: t, Term: c}
			st.assume(Not(adtIsNil(c)))
			x.noteWrite(v.Loc, -1)
		case VMap:
			if v.Loc == 0 {
				fail("nil map passed to a modifying function")
			}
			if st.frozen[v.Loc] {
				fail("modifying call on a borrowed map (%s)", con.Key)
			}
			m := x.toOMap(st, v.Loc)
			st.heap[v.Loc] = &OMap{M: Fresh(p, m.M.Sort), T: m.T}
			x.noteWrite(v.Loc, -1)
		case VSlice:
			if st.frozen[v.Loc] {
				fail("modifying call on a borrowed slice (%s)", con.Key)
			}
			if _, ok := st.heap[v.Loc].(*OVec); ok {
				x.vecToSeq(st, v.Loc)
			}
			o := st.heap[v.Loc].(*OSeq)
			x.staleAlias(st, v.Loc)
			c, eq := FreshLen(p, o.S.Sort, v.Len)
			st.assume(eq)
			st.heap[v.Loc] = &OSeq{S: Cat(Cat(SubOK(o.S, IntT(0), v.Off), c), SubOK(o.S, Add(v.Off, v.Len), Len(o.S))), Elem: o.Elem}
			x.noteWrite(v.Loc, -1)
		default:
			fail("modifies on %T", v)
		}
	}
	// results
	var res []Value
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		nm := fmt.Sprintf("r%d", i)
		if i < len(con.Results) {
			nm = con.Results[i]
		}
		var v Value
		if a := con.Opts["alias"]; a != "" && i == 0 {
			for k, p := range con.Params {
				if p == a {
					v = args[k]
				}
			}
		} else if so := sortOf(rt); so == SAny || so.Kind == KADT && types.IsInterface(rt) {
			v = VOpaque{"result of " + con.Key}
		} else {
			c := x.definedResult(con, env2, st, nm, so)
			if c == nil {
				c = Fresh(nm, so)
			}
			v = st.materialise(c, rt)
			if borrow {
				for _, l := range valLocs(v) {
					if _, isSl := v.(VSlice); isSl {
						st.frozen[l] = true
					} else {
						st.frozen[l] = true
					}
				}
			}
		}
		res = append(res, v)
		env2.vars[nm] = v
		if i == 0 {
			env2.vars["result"] = v
		}
	}
	for _, cl := range con.get("ensures") {
		if con.mentionsGhost(cl.Expr) {
			continue
		}
		for _, cj := range conjuncts(cl.Expr) {
			st.assume(x.specEval(env2, cj))
		}
	}
	return []vout{{st, tupleOf(res)}}
}

// definedResult: the value of a result the contract defines by an equation
// (r == E, possibly under a condition that holds here), so that the caller
// computes with E itself; nil when there is none
func (x *Exec) definedResult(con *Contract, env *Env, st *State, nm string, so *Sort) *Term {
	if so.Kind != KSeq {
		return nil
	}
	bad := map[string]bool{"result": true}
	for _, r := range con.Results {
		bad[r] = true
	}
	for _, g := range con.Ghosts {
		bad[g[0]] = true
	}
	ok := func(e ast.Expr) bool {
		r := true
		ast.Inspect(e, func(n ast.Node) bool {
			if id, is := n.(*ast.Ident); is && bad[id.Name] {
				r = false
			}
			return r
		})
		return r
	}
	for _, cl := range con.get("ensures") {
		for _, cj := range conjuncts(cl.Expr) {
			var cond ast.Expr
			if c, is := cj.(*ast.CallExpr); is && len(c.Args) == 2 {
				if f, is := c.Fun.(*ast.Ident); is && f.Name == "imp" && ok(c.Args[0]) {
					cond, cj = c.Args[0], c.Args[1]
				}
			}
			b, is := cj.(*ast.BinaryExpr)
			if !is || b.Op != token.EQL {
				continue
			}
			if id, is := b.X.(*ast.Ident); !is || id.Name != nm || !ok(b.Y) {
				continue
			}
			if cond != nil {
				t := x.specEval(env, cond)
				if t != True && (t == False || !quickUnsat(st.pc, Not(t))) {
					continue
				}
			}
			v := func() (t *Term) {
				defer func() {
					if r := recover(); r != nil {
						if _, is := r.(specErr); !is {
							panic(r)
						}
						t = nil
					}
				}()
				return env.evalT(b.Y, so)
			}()
			if v != nil && v.Sort == so {
				return v
			}
		}
	}
	return nil
}

func (x *Exec) sameGroup(con *Contract) bool {
	if x.con == nil {
		return false
	}
	return con == x.con || con.Opts["group"] != "" && con.Opts["group"] == x.con.Opts["group"]
}

func (x *Exec) immutableArg(t types.Type) bool {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Pointer:
		if n := namedStruct(u.Elem()); n != nil {
			return !mutableTypes[adtName(n)]
		}
	}
	return false
}

func (x *Exec) markStale(st *State, l int, seen map[int]bool, why string) {
	if seen[l] || l == 0 {
		return
	}
	seen[l] = true
	switch o := st.heap[l].(type) {
	case *OStruct:
		if n := namedStruct(o.T); n != nil && !mutableTypes[adtName(n)] {
			return
		}
	case *OFolded:
		if n := namedStruct(o.T); n != nil && !mutableTypes[adtName(n)] {
			return
		}
	}
	st.stale[l] = why
	x.noteWrite(l, -2)
	for _, c := range childLocs(st.heap[l]) {
		x.markStale(st, c, seen, why)
	}
}

// mutableTypes: struct types some function of the module writes through a
// pointer it did not itself allocate.
var mutableTypes = map[string]bool{}

func findMutable(P *Program) {
	mutableGlobals = map[*ssa.Global]bool{}
	for _, f := range allFuncs(P) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch ins := ins.(type) {
				case *ssa.Store:
					if fa, ok := ins.Addr.(*ssa.FieldAddr); ok {
						if _, isAlloc := fa.X.(*ssa.Alloc); !isAlloc {
							if p, ok := fa.X.Type().Underlying().(*types.Pointer); ok {
								if n := namedStruct(p.Elem()); n != nil {
									mutableTypes[adtName(n)] = true
								}
							}
						}
					}
					if g, ok := ins.Addr.(*ssa.Global); ok && f.Name() != "init" {
						mutableGlobals[g] = true
					}
				case *ssa.MapUpdate:
					if u, ok := ins.Map.(*ssa.UnOp); ok && f.Name() != "init" {
						if g, ok := u.X.(*ssa.Global); ok {
							mutableGlobals[g] = true
						}
					}
				case *ssa.Call:
					// addresses of fields handed out (&x.f) count as writes
					for _, a := range ins.Call.Args {
						y := a
						if mi, ok := y.(*ssa.MakeInterface); ok {
							y = mi.X
						}
						if fa, ok := y.(*ssa.FieldAddr); ok {
							if p, ok := fa.X.Type().Underlying().(*types.Pointer); ok {
								if n := namedStruct(p.Elem()); n != nil {
									mutableTypes[adtName(n)] = true
								}
							}
						}
						if g, ok := y.(*ssa.Global); ok {
							mutableGlobals[g] = true
						}
					}
				}
			}
		}
	}
}

func allFuncs(P *Program) []*ssa.Function {
	var r []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		r = append(r, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, f := range P.Funcs {
		add(f)
	}
	return r
}

// ---- models of standard library functions ----

func strOfVal(x *Exec, st *State, v Value) (*Term, bool) {
	switch w := v.(type) {
	case VT:
		if w.T.Sort == SStr {
			return w.T, true
		}
	case VIface:
		if w.T != nil && isStringT(w.T) {
			return strOfVal(x, st, w.V)
		}
	}
	return nil, false
}

func variadic(st *State, v Value) ([]Value, bool) {
	s, ok := v.(VSlice)
	if !ok {
		return nil, false
	}
	o, ok := st.heap[s.Loc].(*OVec)
	if !ok {
		if n, ok := IntVal(s.Len); ok && n == 0 {
			return nil, true
		}
		return nil, false
	}
	off, k1 := IntVal(s.Off)
	n, k2 := IntVal(s.Len)
	if !k1 || !k2 {
		return nil, false
	}
	return o.E[off : off+n], true
}

func declFun(name string, ret *Sort, params ...*Sort) {
	theory.mu.Lock()
	if theory.Funs[name] == nil {
		theory.Funs[name] = &SpecFun{Name: name, Params: params, Ret: ret}
	}
	theory.mu.Unlock()
}

func (x *Exec) sprintf(st *State, format string, args []Value) *Term {
	out := Empty(SStr)
	ai := 0
	for i := 0; i < len(format); {
		if format[i] != '%' {
			j := i
			for j < len(format) && format[j] != '%' {
				j++
			}
			out = Cat(out, StrLit(format[i:j]))
			i = j
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			return Fresh("sprintf", SStr)
		}
		flags, verb := format[i+1:j], format[j]
		i = j + 1
		if verb == '%' {
			out = Cat(out, StrLit("%"))
			continue
		}
		if ai >= len(args) {
			return Fresh("sprintf", SStr)
		}
		a := args[ai]
		ai++
		iv, _ := a.(VIface)
		if s, ok := strOfVal(x, st, a); ok && flags == "" && (verb == 's' || verb == 'v') {
			out = Cat(out, s)
			continue
		}
		if p, ok := iv.V.(VPtr); ok && iv.T != nil && verb == 'b' && flags == "" {
			if o, ok := st.heap[p.Loc].(*OBig); ok && o.I != nil {
				out = Cat(out, App("binstr", SStr, o.I))
				continue
			}
		}
		if iv.T != nil {
			if b, ok := iv.T.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				t := toInt(x.tm(st, iv.V, iv.T), iv.T)
				switch {
				case flags == "" && (verb == 'd' || verb == 'v'):
					out = Cat(out, App("itoa", SStr, t))
					continue
				case verb == 'b' && flags == "":
					out = Cat(out, App("binstr", SStr, t))
					continue
				case verb == 'b' && len(flags) > 1 && flags[0] == '.':
					if n, err := strconv.Atoi(flags[1:]); err == nil {
						out = Cat(out, App("binpad", SStr, IntT(int64(n)), t))
						continue
					}
				}
			}
		}
		out = Cat(out, Fresh("fmt", SStr))
	}
	return out
}

func init() {
	for n, f := range map[string]*SpecFun{
		"itoa":     {Params: []*Sort{SInt}, Ret: SStr},
		"binstr":   {Params: []*Sort{SInt}, Ret: SStr},
		"binpad":   {Params: []*Sort{SInt, SInt}, Ret: SStr},
		"decstr":   {Params: []*Sort{BV(128)}, Ret: SStr},
		"gobbytes": {Params: []*Sort{SeqOf(SAny)}, Ret: SStr},
		"ungob":    {Params: []*Sort{SStr}, Ret: SeqOf(SAny)},
		"strlt":    {Params: []*Sort{SStr, SStr}, Ret: SBool},
		"fd":       {Params: []*Sort{SStr, SStr}, Ret: SInt},
	} {
		f.Name = n
		theory.Funs[n] = f
	}
}

func (x *Exec) bufLoc(st *State, v Value) (int, bool) {
	switch v := v.(type) {
	case VPtr:
		if _, ok := st.heap[v.Loc].(*OBuf); ok && v.Loc != 0 {
			return v.Loc, true
		}
	case VIface:
		if v.T != nil {
			return x.bufLoc(st, v.V)
		}
	}
	return 0, false
}

func (x *Exec) model(fr *Frame, st *State, key string, f *ssa.Function, args []Value, cc *ssa.CallCommon, pos token.Pos) ([]vout, bool) {
	one := func(v Value) ([]vout, bool) { return []vout{{st, v}}, true }
	str := func(i int) *Term {
		t, ok := strOfVal(x, st, args[i])
		if !ok {
			fail("string argument expected for %s", key)
		}
		return t
	}
	newErr := func() Value {
		e := Fresh("err", SErr)
		st.assume(Not(Eq(e, errNil())))
		return VT{e}
	}
	if f.Pkg == nil && f.Object() == nil {
		return nil, false
	}
	full := key
	if f.Pkg != nil {
		full = f.Pkg.Pkg.Path() + key[strings.Index(key, "."):]
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		full = f.Object().Pkg().Path() + key[strings.Index(key, "."):]
	}
	switch full {
	case "strings.HasPrefix":
		return one(VT{PrefixT(str(1), str(0))})
	case "strings.TrimPrefix":
		s, p := str(0), str(1)
		return one(VT{Ite(PrefixT(p, s), SubSeq(s, Len(p), Len(s)), s)})
	case "strings.CutPrefix":
		s, p := str(0), str(1)
		has := PrefixT(p, s)
		return one(VTuple{[]Value{VT{Ite(has, SubSeq(s, Len(p), Len(s)), s)}, VT{has}}})
	case "strings.HasSuffix", "strings.TrimSuffix":
		s, p := str(0), str(1)
		has := And(Le(Len(p), Len(s)), Eq(SubSeq(s, Sub(Len(s), Len(p)), Len(s)), p))
		if full == "strings.HasSuffix" {
			return one(VT{has})
		}
		return one(VT{Ite(has, SubSeq(s, IntT(0), Sub(Len(s), Len(p))), s)})
	case "bytes.Equal":
		return one(VT{Eq(x.seqOf(st, args[0]), x.seqOf(st, args[1]))})
	case "strings.(*Builder).WriteString", "strings.(*Builder).WriteByte", "strings.(*Builder).WriteRune":
		if l, ok := x.bufLoc(st, args[0]); ok {
			o := st.heap[l].(*OBuf)
			var add *Term
			switch f.Name() {
			case "WriteString":
				add = str(1)
			case "WriteByte":
				add = Unit(x.tm(st, args[1], types.Typ[types.Uint8]))
			default:
				r := x.tm(st, args[1], types.Typ[types.Int32])
				x.oblige(st, "ascii", funcKey(fr.fn)+"/ascii-rune-written", BVULe(r, BVT(127, 32)), pos)
				add = Unit(Extract(r, 7, 0))
			}
			st.heap[l] = &OBuf{S: Cat(o.S, add)}
			x.noteWrite(l, -1)
			switch f.Name() {
			case "WriteByte":
				return one(VT{errNil()})
			case "WriteRune":
				return one(VTuple{[]Value{VT{IntT(1)}, VT{errNil()}}})
			}
			return one(VTuple{[]Value{VT{Len(add)}, VT{errNil()}}})
		}
	case "strings.(*Builder).String":
		if l, ok := x.bufLoc(st, args[0]); ok {
			return one(VT{st.heap[l].(*OBuf).S})
		}
	case "strings.(*Builder).Len":
		if l, ok := x.bufLoc(st, args[0]); ok {
			return one(VT{Len(st.heap[l].(*OBuf).S)})
		}
	case "strings.(*Builder).Grow":
		if _, ok := x.bufLoc(st, args[0]); ok {
			x.oblige(st, "panic", funcKey(fr.fn)+"/grow-nonnegative", Le(IntT(0), x.tm(st, args[1], types.Typ[types.Int])), pos)
			return one(VTuple{})
		}
	case "strings.Repeat":
		s := str(0)
		n := x.tm(st, args[1], types.Typ[types.Int])
		x.oblige(st, "bounds", funcKey(fr.fn)+"/repeat-count-nonnegative", Le(IntT(0), n), pos)
		if isLit(s) && len(litVals(s)) == 1 {
			return one(VT{RepOK(litElem(litVals(s)[0], BV(8)), n)})
		}
		if k, ok := IntVal(n); ok && k >= 0 && k <= 64 {
			r := Empty(SStr)
			for i := int64(0); i < k; i++ {
				r = Cat(r, s)
			}
			return one(VT{r})
		}
		c := Fresh("repeated", SStr)
		return one(VT{c})
	case "errors.New", "fmt.Errorf":
		return one(newErr())
	case "fmt.Sprintf":
		fs, ok := strOfVal(x, st, args[0])
		va, ok2 := variadic(st, args[1])
		if ok && ok2 && isLit(fs) {
			var b []byte
			for _, c := range litVals(fs) {
				b = append(b, byte(c))
			}
			return one(VT{x.sprintf(st, string(b), va)})
		}
		return one(VT{Fresh("sprintf", SStr)})
	case "fmt.Sprint", "fmt.Sprintln":
		return one(VT{Fresh("sprint", SStr)})
	case "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint":
		if l, ok := x.bufLoc(st, args[0]); ok {
			o := st.heap[l].(*OBuf)
			if o.S.Sort == SStr { // a strings.Builder
				var t *Term
				if full == "fmt.Fprintf" {
					fs, ok := strOfVal(x, st, args[1])
					va, ok2 := variadic(st, args[2])
					if ok && ok2 && isLit(fs) {
						var b []byte
						for _, c := range litVals(fs) {
							b = append(b, byte(c))
						}
						t = x.sprintf(st, string(b), va)
					}
				}
				if t == nil {
					t = Fresh("text", SStr)
				}
				st.heap[l] = &OBuf{S: Cat(o.S, t)}
			} else {
				st.heap[l] = &OBuf{S: Cat(o.S, Unit(Fresh("text", SAny)))}
			}
			x.noteWrite(l, -1)
		}
		return one(VTuple{[]Value{VT{Fresh("n", SInt)}, VT{Fresh("werr", SErr)}}})
	case "log.Print", "log.Printf", "log.Println", "fmt.Print", "fmt.Printf", "fmt.Println":
		if strings.HasPrefix(full, "fmt") {
			return one(VTuple{[]Value{VT{Fresh("n", SInt)}, VT{Fresh("werr", SErr)}}})
		}
		return one(VTuple{})
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "os.Exit":
		x.oblige(st, "panic", funcKey(fr.fn)+"/no-exit", False, pos)
		st.assume(False)
		return one(VTuple{})
	case "math.Pow":
		a, b := x.tm(st, args[0], types.Typ[types.Float64]), x.tm(st, args[1], types.Typ[types.Float64])
		if a.Op == "real" && b.Op == "real" {
			ra, rb := rat(a), rat(b)
			if ra.IsInt() && rb.IsInt() && rb.Sign() >= 0 && rb.Num().IsInt64() && rb.Num().Int64() <= 52 && ra.Num().BitLen()*int(rb.Num().Int64()) <= 53+ra.Num().BitLen() {
				return one(VT{RealB(new(big.Rat).SetInt(new(big.Int).Exp(ra.Num(), rb.Num(), nil)))})
			}
		}
		if a.Op == "real" && rat(a).Cmp(big.NewRat(2, 1)) == 0 && b.Op == "i2r" {
			// 2^n for integer n in 0..52: exact
			n := b.Args[0]
			x.oblige(st, "float", funcKey(fr.fn)+"/pow-exact", And(Le(IntT(0), n), Le(n, IntT(52))), pos)
			return one(VT{i2r(App("pow2", SInt, n))})
		}
		return one(VT{Fresh("pow", SReal)})
	case "math.Floor":
		a := x.tm(st, args[0], types.Typ[types.Float64])
		if a.Op == "real" {
			r := rat(a)
			q := new(big.Int)
			m := new(big.Int)
			q.DivMod(r.Num(), r.Denom(), m)
			return one(VT{RealB(new(big.Rat).SetInt(q))})
		}
		return one(VT{i2r(RFloor(a))})
	case "math/big.NewInt":
		return one(VPtr{Loc: st.alloc(&OBig{I: x.tm(st, args[0], types.Typ[types.Int64])})})
	case "math/big.(*Int).SetBytes":
		p := args[0].(VPtr)
		b := x.seqOf(st, args[1])
		n, ok := IntVal(Len(b))
		if !ok || n > 16 {
			fail("big.Int.SetBytes of unknown length")
		}
		if _, ok := st.heap[p.Loc].(*OBig); !ok {
			fail("big.Int receiver")
		}
		v := BVT(0, 0+1)
		first := true
		for i := int64(0); i < n; i++ {
			e := At(b, IntT(i))
			if first {
				v, first = e, false
			} else {
				v = ConcatBV(v, e)
			}
		}
		if first {
			v = BVT(0, 8)
		}
		st.heap[p.Loc] = &OBig{V: Zext(v, 128)}
		x.noteWrite(p.Loc, -1)
		return one(args[0])
	case "math/big.(*Int).String":
		p := args[0].(VPtr)
		o, ok := st.heap[p.Loc].(*OBig)
		if !ok {
			fail("big.Int receiver")
		}
		if o.I != nil {
			return one(VT{App("itoa", SStr, o.I)})
		}
		t := App("decstr", SStr, o.V)
		st.assume(Le(IntT(1), Len(t)))
		return one(VT{t})
	case "github.com/iomz/go-llrp/binutil.Pack":
		// binary.Write of bytes and byte slices, big endian, into a buffer
		va, ok := variadic(st, args[0])
		if !ok {
			fail("Pack of a slice of unknown length")
		}
		out := Empty(SStr)
		// bytes read one after the other from one sequence are that part of it
		var rs, ri, rj *Term
		flush := func() {
			if rs == nil {
				return
			}
			if n := Len(rs); ri == IntT(0) && (n == rj || quickUnsat(st.pc, Not(Eq(n, rj)))) {
				out = Cat(out, rs)
			} else {
				out = Cat(out, SubOK(rs, ri, rj)) // checked to be in bounds when they were read
			}
			rs = nil
		}
		for _, a := range va {
			iv, ok := a.(VIface)
			if !ok || iv.T == nil {
				fail("Pack of a value of unknown type")
			}
			switch u := iv.T.Underlying().(type) {
			case *types.Basic:
				if u.Kind() == types.Uint8 {
					t := x.tm(st, iv.V, iv.T)
					if t.Op == "at" && rs == t.Args[0] && rj == t.Args[1] {
						rj = Add(rj, IntT(1))
						continue
					}
					flush()
					if t.Op == "at" {
						rs, ri, rj = t.Args[0], t.Args[1], Add(t.Args[1], IntT(1))
					} else {
						out = Cat(out, Unit(t))
					}
					continue
				}
			case *types.Slice:
				if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					flush()
					out = Cat(out, x.tm(st, iv.V, iv.T))
					continue
				}
			}
			fail("Pack of a %s", iv.T)
		}
		flush()
		return one(st.materialise(out, types.NewSlice(types.Typ[types.Uint8])))
	case "strconv.Itoa":
		return one(VT{App("itoa", SStr, x.tm(st, args[0], types.Typ[types.Int]))})
	case "strconv.FormatUint":
		v, base := x.tm(st, args[0], types.Typ[types.Uint64]), x.tm(st, args[1], types.Typ[types.Int])
		if b, ok := IntVal(base); !ok || b != 10 {
			fail("FormatUint base")
		}
		t := App("decstr", SStr, Zext(v, 128))
		st.assume(Le(IntT(1), Len(t)))
		return one(VT{t})
	case "reflect.DeepEqual":
		a, ok1 := args[0].(VIface)
		b, ok2 := args[1].(VIface)
		if ok1 && ok2 && a.T != nil && b.T != nil {
			if !types.Identical(a.T, b.T) {
				return one(VT{False})
			}
			return one(VT{Eq(x.tm(st, a.V, a.T), x.tm(st, b.V, b.T))})
		}
		fail("DeepEqual")
	case "encoding/gob.NewEncoder":
		if l, ok := x.bufLoc(st, args[0]); ok {
			return one(VPtr{Loc: st.alloc(&OEnc{Buf: l})})
		}
		fail("gob.NewEncoder on %T", args[0])
	case "encoding/gob.NewDecoder":
		if i, ok := args[0].(VIface); ok && i.T != nil {
			if p, ok := i.V.(VPtr); ok {
				if d, ok := st.heap[p.Loc].(*ODec); ok {
					return one(VPtr{Loc: st.alloc(&ODec{S: d.S, Pos: d.Pos})})
				}
			}
		}
		fail("gob.NewDecoder")
	case "bytes.NewReader":
		t := x.seqOf(st, args[0])
		return one(VPtr{Loc: st.alloc(&ODec{S: App("ungob", SeqOf(SAny), t), Pos: IntT(0)})})
	case "bytes.(*Buffer).Bytes":
		if l, ok := x.bufLoc(st, args[0]); ok {
			o := st.heap[l].(*OBuf)
			return one(x.newSeq(st, App("gobbytes", SStr, o.S), types.Typ[types.Uint8]))
		}
	case "bytes.(*Buffer).String":
		if _, ok := x.bufLoc(st, args[0]); ok {
			return one(VT{Fresh("bufstring", SStr)})
		}
	case "encoding/gob.(*Encoder).Encode":
		return x.gobEncode(fr, st, args, pos)
	case "encoding/gob.(*Decoder).Decode":
		return x.gobDecode(fr, st, args, pos)
	}
	return nil, false
}

// gob is modelled as a stream of values: Encode appends the value (the bytes of
// its MarshalBinary where the type has one), Decode takes the next one and
// fails when it is missing or of another type.
func (x *Exec) method(t types.Type, name string) *ssa.Function {
	ms := x.P.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return x.P.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (x *Exec) gobEncode(fr *Frame, st *State, args []Value, pos token.Pos) ([]vout, bool) {
	p, ok := args[0].(VPtr)
	if !ok {
		fail("gob encoder")
	}
	enc, ok := st.heap[p.Loc].(*OEnc)
	if !ok {
		fail("gob encoder")
	}
	v, ok := args[1].(VIface)
	if !ok || v.T == nil {
		fail("gob encode of %T", args[1])
	}
	put := func(s *State, t *Term) {
		o := s.heap[enc.Buf].(*OBuf)
		s.heap[enc.Buf] = &OBuf{S: Cat(o.S, Unit(t))}
		x.noteWrite(enc.Buf, -1)
	}
	if vp, ok := v.V.(VPtr); ok {
		x.oblige(st, "panic", funcKey(fr.fn)+"/gob-encode-nil-pointer", Not(x.isNilVal(st, vp)), pos)
	}
	if m := x.method(v.T, "MarshalBinary"); m != nil {
		var r []vout
		for _, o := range x.callFn(fr, st, m, []Value{v.V}, nil, nil, pos) {
			tp := o.v.(VTuple)
			put(o.st, anyOf2("blob", x.seqOf(o.st, tp.E[0])))
			r = append(r, vout{o.st, tp.E[1]})
		}
		return r, true
	}
	put(st, anyOf(x.tm(st, v.V, v.T), v.T))
	return []vout{{st, VT{errNil()}}}, true
}

// anyOf2: a value tagged as the payload of a BinaryMarshaler
func anyOf2(tag string, t *Term) *Term {
	name := "any." + tag
	un := "unany." + tag
	theory.mu.Lock()
	if theory.Funs[name] == nil {
		f := &SpecFun{Name: name, Params: []*Sort{t.Sort}, Ret: SAny}
		g := &SpecFun{Name: un, Params: []*Sort{SAny}, Ret: t.Sort}
		theory.Funs[name] = f
		theory.Funs[un] = g
		if theory.Funs["anytag"] == nil {
			theory.Funs["anytag"] = &SpecFun{Name: "anytag", Params: []*Sort{SAny}, Ret: SInt}
		}
		v := BoundVar("x", t.Sort)
		f.Axioms = []*Term{Forall([]*Term{v}, [][]*Term{{App(name, SAny, v)}}, And(Eq(App(un, t.Sort, App(name, SAny, v)), v), Eq(App("anytag", SInt, App(name, SAny, v)), IntT(-1))))}
	}
	theory.mu.Unlock()
	return App(name, SAny, t)
}

func (x *Exec) gobDecode(fr *Frame, st *State, args []Value, pos token.Pos) ([]vout, bool) {
	p, ok := args[0].(VPtr)
	if !ok {
		fail("gob decoder")
	}
	dec, ok := st.heap[p.Loc].(*ODec)
	if !ok {
		fail("gob decoder")
	}
	v, ok := args[1].(VIface)
	if !ok || v.T == nil {
		fail("gob decode target")
	}
	target := v.V.(VPtr)
	et := v.T.Underlying().(*types.Pointer).Elem()
	more := Lt(dec.Pos, Len(dec.S))
	item := At(dec.S, dec.Pos)
	advance := func(s *State) {
		s.heap[p.Loc] = &ODec{S: dec.S, Pos: Add(dec.Pos, IntT(1))}
		x.noteWrite(p.Loc, -1)
	}
	bad := func(s *State) vout {
		e := Fresh("decerr", SErr)
		s.assume(Not(Eq(e, errNil())))
		np := Fresh("dpos", SInt)
		s.assume(Le(dec.Pos, np))
		s.heap[p.Loc] = &ODec{S: dec.S, Pos: np}
		x.noteWrite(p.Loc, -1)
		return vout{s, VT{e}}
	}
	// BinaryUnmarshaler through the pointer?
	um := x.method(v.T, "UnmarshalBinary")
	if um == nil {
		um = x.method(et, "UnmarshalBinary")
	}
	if um != nil {
		blob := App("unany.blob", SStr, item)
		anyOf2("blob", Const("dummy!", SStr))
		isBlob := And(more, Eq(item, App("any.blob", SAny, blob)))
		s2 := st.clone()
		s2.assume(Not(isBlob))
		st.assume(isBlob)
		var r []vout
		if !s2.dead() && !quickUnsat(s2.pc[:len(s2.pc)-1], Not(isBlob)) {
			r = append(r, bad(s2))
		}
		advance(st)
		data := x.newSeq(st, blob, types.Typ[types.Uint8])
		recv := Value(target)
		rt := um.Signature.Recv().Type()
		if _, isPtr := rt.Underlying().(*types.Pointer); isPtr {
			if pp, ok := et.Underlying().(*types.Pointer); ok {
				// **T: allocate when nil
				cur := x.load(st, target, et)
				cp, ok := cur.(VPtr)
				if !ok {
					fail("gob decode target")
				}
				if n := x.isNilVal(st, cp); n == True {
					cp = VPtr{Loc: x.allocZero(st, pp.Elem())}
					x.store(st, target, cp)
				} else if n != False {
					s3 := st.clone()
					s3.assume(n)
					st.assume(Not(n))
					if !s3.dead() {
						cp3 := VPtr{Loc: x.allocZero(s3, pp.Elem())}
						x.store(s3, target, cp3)
						for _, o := range x.callFn(fr, s3, um, []Value{cp3, data}, nil, nil, pos) {
							r = append(r, o)
						}
					}
				}
				recv = cp
			}
			// target is *T itself when et is a struct: recv = target
		} else {
			// value receiver (map type): load it
			recv = x.load(st, target, et)
		}
		r = append(r, x.callFn(fr, st, um, []Value{recv, data}, nil, nil, pos)...)
		return r, true
	}
	// plain value; *T targets allocate
	var so *Sort
	vt := et
	if pp, ok := et.Underlying().(*types.Pointer); ok {
		vt = pp.Elem()
	}
	so = sortOf(vt)
	// register the injection for this sort
	anyOf(Const("dummy!"+mangle(so.Name), so), vt)
	un := App("unany."+mangle(so.Name), so, item)
	okc := And(more, Eq(item, App("any."+mangle(so.Name), SAny, un)))
	if so.Kind == KADT {
		okc = And(okc, Not(adtIsNil(un)))
	}
	s2 := st.clone()
	s2.assume(Not(okc))
	var r []vout
	if !s2.dead() && !quickUnsat(st.pc, Not(okc)) {
		r = append(r, bad(s2))
	}
	st.assume(okc)
	advance(st)
	if so.Kind == KADT {
		// decoding into an existing struct merges fields: only fresh targets are supported
		if _, isP := et.Underlying().(*types.Pointer); isP {
			cur := x.load(st, target, et)
			if n := x.isNilVal(st, cur); n != True {
				x.oblige(st, "gob", funcKey(fr.fn)+"/gob-decode-into-nil", n, pos)
			}
			x.store(st, target, st.materialise(un, et))
		} else {
			x.store(st, target, st.materialise(un, et))
		}
	} else {
		x.store(st, target, st.materialise(un, et))
	}
	r = append(r, vout{st, VT{errNil()}})
	return r, true
}

// indexIn is strings.Index of a short needle in a literal, exactly
func indexIn(h []uint64, n *Term) (*Term, bool) {
	if n.Op == "ite" {
		a, ok := indexIn(h, n.Args[1])
		b, ok2 := indexIn(h, n.Args[2])
		if !ok || !ok2 {
			return nil, false
		}
		return Ite(n.Args[0], a, b), true
	}
	var es []*Term
	switch {
	case isLit(n):
		for _, v := range litVals(n) {
			es = append(es, BVT(v, 8))
		}
	case n.Op == "unit":
		es = n.Args
	case n.Op == "cat" && n.Args[0].Op == "unit" && n.Args[1].Op == "unit":
		es = []*Term{n.Args[0].Args[0], n.Args[1].Args[0]}
	default:
		return nil, false
	}
	r := IntT(-1)
	for i := len(h) - len(es); i >= 0; i-- {
		m := True
		for j, e := range es {
			m = And(m, Eq(e, BVT(h[i+j], 8)))
		}
		r = Ite(m, IntT(int64(i)), r)
	}
	return r, true
}
