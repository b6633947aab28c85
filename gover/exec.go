package main

// Path-based symbolic execution of go/ssa functions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Name   string
	Fn     string
	Kind   string // requires ensures bounds nil inv lemma ...
	Hyps   []*Term
	Goal   *Term
	Pos    string
	Proved string // back end if already discharged
	Res    SolveRes
	Skip   map[string]bool
}

type Outcome struct {
	pos  token.Pos
	kind string // ret back exit
	st   *State
	fr   *Frame
	vals []Value
	hdr  *ssa.BasicBlock
	phis []Value
}

type Frame struct {
	fn     *ssa.Function
	vals   map[ssa.Value]Value
	free   []Value
	depth  int
	cut    map[*ssa.BasicBlock]*cutCtx
	unroll map[*ssa.BasicBlock]int
	loops  map[*ssa.BasicBlock]*Loop
	parent *Frame
	params map[string]Value // contract-level names visible in loop templates
}

func (f *Frame) clone() *Frame {
	n := *f
	n.vals = make(map[ssa.Value]Value, len(f.vals))
	for k, v := range f.vals {
		n.vals[k] = v
	}
	n.cut = make(map[*ssa.BasicBlock]*cutCtx, len(f.cut))
	for k, v := range f.cut {
		n.cut[k] = v
	}
	n.unroll = make(map[*ssa.BasicBlock]int, len(f.unroll))
	for k, v := range f.unroll {
		n.unroll[k] = v
	}
	return &n
}

type wkey struct{ loc, field int }

type Exec struct {
	db         *SpecDB
	P          *Program
	root       *ssa.Function
	con        *Contract
	unfolded   map[*Term][]*Term
	obls       []*Obl
	oblSeen    map[string]bool
	silent     int
	writes     []map[wkey]bool
	entry      *State
	env0       map[string]Value
	inlined    map[string]bool
	called     map[string]bool
	assumed    map[string]bool
	steps      int
	decr0      *Term
	loopN      int
	deadline   int
	initMode   bool
	loopNo     map[*ssa.BasicBlock]int
	deads      int
	skipLemmas map[string]bool
	memo       *loopMemo
	quick      bool
}

var globalState *State                // state after package initialisation
var globalLoc = map[*ssa.Global]int{} // location of the global's content cell
var mutableGlobals map[*ssa.Global]bool

func posOf(P *Program, p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := P.Prog.Fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	} else if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (x *Exec) oblige(st *State, kind, name string, goal *Term, pos token.Pos) {
	if x.silent > 0 {
		st.assume(goal)
		return
	}
	goal = st.folded(goal)
	o := &Obl{Name: name, Kind: kind, Fn: funcKey(x.root), Goal: goal, Pos: posOf(x.P, pos)}
	if goal != True {
		o.Hyps = append([]*Term(nil), st.pc...)
		var b strings.Builder
		fmt.Fprintf(&b, "%s|%d", name, goal.id)
		for _, h := range o.Hyps {
			fmt.Fprintf(&b, ",%d", h.id)
		}
		if x.oblSeen[b.String()] {
			st.assume(goal)
			return
		}
		x.oblSeen[b.String()] = true
	} else {
		o.Proved = "simplifier"
	}
	x.obls = append(x.obls, o)
	st.assume(goal)
}

func (x *Exec) noteWrite(loc, field int) {
	for _, w := range x.writes {
		w[wkey{loc, field}] = true
	}
}

// ---- loops ----

type Loop struct {
	hdr    *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	ifHdr  bool
	no     int
	writes map[wkey]bool
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	loops := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b->s
				l := loops[s]
				if l == nil {
					l = &Loop{hdr: s, body: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					y := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range y.Preds {
						if !l.body[p] {
							l.body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	var hs []*ssa.BasicBlock
	for h := range loops {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Index < hs[j].Index })
	for i, h := range hs {
		loops[h].no = i
	}
	return loops
}

var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}

func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	if l, ok := loopCache[fn]; ok {
		return l
	}
	l := findLoops(fn)
	loopCache[fn] = l
	return l
}

// ---- running ----

func (x *Exec) newFrame(fn *ssa.Function, args, free []Value, depth int) *Frame {
	fr := &Frame{fn: fn, vals: map[ssa.Value]Value{}, free: free, depth: depth, cut: map[*ssa.BasicBlock]*cutCtx{}, unroll: map[*ssa.BasicBlock]int{}, loops: loopsOf(fn)}
	for i, p := range fn.Params {
		fr.vals[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.vals[f] = free[i]
	}
	return fr
}

func (x *Exec) callBody(fn *ssa.Function, args, free []Value, st *State, depth int) []Outcome {
	if fn.Blocks == nil {
		fail("no body for %s", fn)
	}
	if depth > 60 {
		fail("inlining depth exceeded at %s", fn)
	}
	fr := x.newFrame(fn, args, free, depth)
	return x.enter(fr, fn.Blocks[0], nil, st)
}

// guard turns an unsupported construct on a path into an obligation that the
// path is infeasible.
func (x *Exec) guard(st *State, fr *Frame, pos token.Pos, f func() []Outcome) (res []Outcome) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsup); ok {
				if x.initMode {
					panic(r)
				}
				if os.Getenv("GOVER_TRACE") != "" {
					fmt.Fprintf(os.Stderr, "unsup %s in %s: %s\n", posOf(x.P, pos), fr.fn, u.msg)
				}
				x.oblige(st, "unsupported", fmt.Sprintf("%s/supported: %s", funcKey(fr.fn), u.msg), False, pos)
				res = nil
				return
			}
			panic(r)
		}
	}()
	return f()
}

func (x *Exec) enter(fr *Frame, b, prev *ssa.BasicBlock, st *State) []Outcome {
	// leaving cut loops?
	for h, c := range fr.cut {
		l := fr.loops[h]
		if !l.body[b] {
			delete(fr.cut, h)
			if c.trial {
				return []Outcome{{kind: "exit", st: st, fr: fr, hdr: h}}
			}
		}
	}
	var phis []Value
	nphi := 0
	if prev != nil {
		pi := -1
		for i, p := range b.Preds {
			if p == prev {
				pi = i
			}
		}
		for _, ins := range b.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			nphi++
			phis = append(phis, x.val(fr, st, ph.Edges[pi]))
		}
	}
	if l := fr.loops[b]; l != nil {
		inside := prev != nil && l.body[prev]
		if c := fr.cut[b]; c != nil && inside {
			return []Outcome{{kind: "back", st: st, fr: fr, hdr: b, phis: phis}}
		}
		if !inside {
			delete(fr.unroll, b)
		}
		fr.unroll[b]++
		if fr.unroll[b] > 400 || !x.concreteHeader(fr, b, phis, st) && !x.shortLoop(fr, l, b, phis, st) {
			if x.initMode {
				fail("symbolic loop in init")
			}
			return x.cutLoop(fr, b, phis, st)
		}
	}
	for i := 0; i < nphi; i++ {
		fr.vals[b.Instrs[i].(*ssa.Phi)] = phis[i]
	}
	return x.run(fr, b, nphi, st)
}

// shortLoop: does the loop leave when a counter, known here, reaches a known
// small bound? Then running through it ends, whatever else may leave it earlier.
func (x *Exec) shortLoop(fr *Frame, l *Loop, b *ssa.BasicBlock, phis []Value, st *State) bool {
	for i := range phis {
		ph := b.Instrs[i].(*ssa.Phi)
		v, ok := phis[i].(VT)
		if !ok {
			continue
		}
		if _, ok := IntVal(v.T); !ok {
			continue
		}
		// the counter moves up on every way back
		up := true
		var next ssa.Value
		for k, p := range b.Preds {
			if !l.body[p] {
				continue
			}
			bo, ok := ph.Edges[k].(*ssa.BinOp)
			if !ok || bo.Op != token.ADD || bo.X != ph {
				up = false
				break
			}
			if c, ok := bo.Y.(*ssa.Const); !ok || c.Value == nil || constant.Sign(c.Value) <= 0 {
				up = false
				break
			}
			next = bo
		}
		if !up {
			continue
		}
		for blk := range l.body {
			f, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
			if !ok || l.body[blk.Succs[0]] == l.body[blk.Succs[1]] {
				continue
			}
			// every way back passes this test
			dom := true
			for _, p := range b.Preds {
				if l.body[p] && !blk.Dominates(p) {
					dom = false
				}
			}
			bo, ok := f.Cond.(*ssa.BinOp)
			if !dom || !ok {
				continue
			}
			op, lim := bo.Op, bo.Y
			if bo.X != ph && bo.X != next {
				if bo.Y != ph && bo.Y != next {
					continue
				}
				lim = bo.X
				op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}[op]
			}
			if stays := l.body[blk.Succs[0]]; stays && op != token.LSS && op != token.LEQ || !stays && op != token.GEQ && op != token.GTR {
				continue
			}
			if n, ok := x.knownLen(fr, st, lim); ok && n <= 8 {
				return true
			}
		}
	}
	return false
}

// lenVal: the length of a sequence, where it or the path says which
func (x *Exec) lenVal(st *State, s *Term) (int64, bool) {
	return x.intOf(st, Len(s))
}

func (x *Exec) intOf(st *State, t *Term) (int64, bool) {
	if k, ok := IntVal(t); ok {
		return k, true
	}
	for _, h := range st.pc {
		if h.Op == "=" && len(h.Args) == 2 {
			if h.Args[0] == t {
				if k, ok := IntVal(h.Args[1]); ok {
					return k, true
				}
			}
			if h.Args[1] == t {
				if k, ok := IntVal(h.Args[0]); ok {
					return k, true
				}
			}
		}
	}
	return 0, false
}

// knownLen: the concrete value of an integer (a constant, or a length) outside the loop
func (x *Exec) knownLen(fr *Frame, st *State, v ssa.Value) (n int64, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unsup); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	if c, is := v.(*ssa.Call); is {
		bi, is := c.Call.Value.(*ssa.Builtin)
		if !is || bi.Name() != "len" {
			return 0, false
		}
		a, known := fr.vals[c.Call.Args[0]]
		if !known {
			return 0, false
		}
		if s, is := a.(VSlice); is {
			return x.intOf(st, s.Len)
		}
		if s, is := a.(VT); is && s.T.Sort.Kind == KSeq {
			return x.lenVal(st, s.T)
		}
		return 0, false
	}
	if _, is := v.(*ssa.Const); !is {
		if _, known := fr.vals[v]; !known {
			return 0, false
		}
	}
	if t, is := x.val(fr, st, v).(VT); is {
		return x.intOf(st, t.T)
	}
	return 0, false
}

// concreteHeader: does the loop header decide its branch concretely?
func (x *Exec) concreteHeader(fr *Frame, b *ssa.BasicBlock, phis []Value, st *State) (ok bool) {
	f2 := fr.clone()
	s2 := st.clone()
	for i, p := range phis {
		f2.vals[b.Instrs[i].(*ssa.Phi)] = p
	}
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unsup); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	x.silent++
	defer func() { x.silent-- }()
	for i := len(phis); i < len(b.Instrs); i++ {
		switch ins := b.Instrs[i].(type) {
		case *ssa.If:
			c := x.val(f2, s2, ins.Cond)
			t := c.(VT).T
			return t == True || t == False
		case *ssa.Next:
			it, isIt := x.val(f2, s2, ins.Iter).(VIter)
			if !isIt {
				return false
			}
			o := s2.heap[it.Loc].(*OIter)
			switch o.Kind {
			case "cmap":
				return len(o.M.(*OCMap).K) <= 1 && o.VisB == nil || x.initMode
			case "str":
				_, k1 := IntVal(o.Pos)
				k, k2 := x.lenVal(st, o.S)
				_, lit := IntVal(Len(o.S))
				return k1 && (lit || k2 && k <= 16)
			}
			return false
		case *ssa.BinOp, *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Index, *ssa.Extract, *ssa.Convert, *ssa.ChangeType:
			x.simple(f2, s2, ins.(ssa.Instruction))
		case *ssa.Call:
			if bi, ok := ins.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				x.simpleCallBuiltin(f2, s2, ins, bi)
				continue
			}
			return false
		default:
			return false
		}
	}
	return false
}

func (x *Exec) run(fr *Frame, b *ssa.BasicBlock, idx int, st *State) []Outcome {
	var pos token.Pos
	return x.guard(st, fr, pos, func() []Outcome { return x.run1(fr, b, idx, st) })
}

func (x *Exec) run1(fr *Frame, b *ssa.BasicBlock, idx int, st *State) []Outcome {
	for i := idx; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps > 3000000 {
			panic("step limit")
		}
		if st.dead() {
			return nil
		}
		ins := b.Instrs[i]
		switch ins := ins.(type) {
		case *ssa.Jump:
			return x.enter(fr, b.Succs[0], b, st)
		case *ssa.Return:
			var vs []Value
			for _, r := range ins.Results {
				vs = append(vs, x.val(fr, st, r))
			}
			return []Outcome{{kind: "ret", st: st, fr: fr, vals: vs, pos: ins.Pos()}}
		case *ssa.Panic:
			x.oblige(st, "panic", funcKey(fr.fn)+"/no-panic", False, ins.Pos())
			return nil
		case *ssa.If:
			c := x.val(fr, st, ins.Cond).(VT).T
			return x.branch(fr, b, st, c)
		case *ssa.Call:
			// calls may produce several outcomes
			outs := x.call(fr, st, &ins.Call, ins, ins.Pos())
			if len(outs) == 1 {
				st = outs[0].st
				fr.vals[ins] = outs[0].v
				continue
			}
			var res []Outcome
			for _, o := range outs {
				f2 := fr.clone()
				f2.vals[ins] = o.v
				if o.st.dead() {
					continue
				}
				res = append(res, x.run(f2, b, i+1, o.st)...)
			}
			return res
		case *ssa.Next:
			outs := x.next(fr, st, ins)
			if len(outs) == 1 {
				st = outs[0].st
				fr.vals[ins] = outs[0].v
				continue
			}
			var res []Outcome
			for _, o := range outs {
				f2 := fr.clone()
				f2.vals[ins] = o.v
				if o.st.dead() {
					continue
				}
				res = append(res, x.run(f2, b, i+1, o.st)...)
			}
			return res
		case *ssa.Lookup:
			outs := x.lookup(fr, st, ins)
			if len(outs) == 1 {
				st = outs[0].st
				fr.vals[ins] = outs[0].v
				continue
			}
			var res []Outcome
			for _, o := range outs {
				f2 := fr.clone()
				f2.vals[ins] = o.v
				if o.st.dead() {
					continue
				}
				res = append(res, x.run(f2, b, i+1, o.st)...)
			}
			return res
		case *ssa.Defer, *ssa.RunDefers:
			if _, ok := ins.(*ssa.RunDefers); ok {
				continue
			}
			fail("defer")
		case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
			fail("concurrency construct %T", ins)
		default:
			x.simple(fr, st, ins)
		}
	}
	fail("fell off block")
	return nil
}

func (x *Exec) branch(fr *Frame, b *ssa.BasicBlock, st *State, c *Term) []Outcome {
	if c == True {
		return x.enter(fr, b.Succs[0], b, st)
	}
	if c == False {
		return x.enter(fr, b.Succs[1], b, st)
	}
	nc := Not(c)
	if !x.initMode {
		if r, ok := x.merge(fr, b, st, c); ok {
			return r
		}
	}
	switch x.feasible(st, c, nc) {
	case 1:
		st.assume(c)
		return x.enter(fr, b.Succs[0], b, st)
	case 2:
		st.assume(nc)
		return x.enter(fr, b.Succs[1], b, st)
	case 0:
		return nil
	}
	st2 := st.clone()
	fr2 := fr.clone()
	st.assume(c)
	st2.assume(nc)
	r := x.guard(st, fr, 0, func() []Outcome { return x.enter(fr, b.Succs[0], b, st) })
	r2 := x.guard(st2, fr2, 0, func() []Outcome { return x.enter(fr2, b.Succs[1], b, st2) })
	return append(r, r2...)
}

// feasible: 3 both, 1 only c, 2 only not c, 0 none
func (x *Exec) feasible(st *State, c, nc *Term) int {
	for _, h := range st.pc {
		if h == c {
			return 1
		}
		if h == nc {
			return 2
		}
	}
	if x.initMode {
		return 3
	}
	r := 0
	uc := make(chan bool)
	go func() { uc <- quickUnsat(st.pc, c) }()
	un := quickUnsat(st.pc, nc)
	if !<-uc {
		r |= 1
	}
	if !un {
		r |= 2
	} else if r == 0 {
		return 0
	}
	return r
}

var pruneCache = map[string]bool{}
var pruneMu sync.Mutex

// quickUnsat: cheap check using only quantifier-free hypotheses.
func quickUnsat(pc []*Term, c *Term) (res bool) {
	var hs []*Term
	rel := relevant(pc, c)
	for _, h := range rel {
		if h.Op == "forall" || h.Op == "exists" || h.size > 3000 {
			continue
		}
		hs = append(hs, h)
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%d", c.id)
	for _, h := range hs {
		fmt.Fprintf(&b, ",%d", h.id)
	}
	kk := b.String()
	pruneMu.Lock()
	r, ok := pruneCache[kk]
	pruneMu.Unlock()
	if ok {
		return r
	}
	defer func() {
		pruneMu.Lock()
		pruneCache[kk] = res
		pruneMu.Unlock()
	}()
	// c contradicts an equality with another constant
	if k, v := eqConst(c); k != nil {
		for _, h := range hs {
			if k2, v2 := eqConst(h); k2 == k && v2 != v {
				return true
			}
		}
	}
	q := &Query{Hyps: append(hs, c), NoLemma: true, NoDefs: os.Getenv("NODEFS") != ""}
	return z3Solve(q, 300000, 5e9).Status == "unsat"
}

// eqConst: the two sides of an equation of something with a constant
func eqConst(t *Term) (*Term, *Term) {
	if t.Op != "=" {
		return nil, nil
	}
	isC := func(x *Term) bool { return x.Op == "int" || x.Op == "bv" }
	switch {
	case isC(t.Args[1]) && !isC(t.Args[0]):
		return t.Args[0], t.Args[1]
	case isC(t.Args[0]) && !isC(t.Args[1]):
		return t.Args[1], t.Args[0]
	}
	return nil, nil
}

// relevant hypotheses: connected to c through shared constants
func relevant(pc []*Term, c *Term) []*Term {
	syms := map[*Term]bool{}
	constsOf(c, syms)
	used := make([]bool, len(pc))
	for ch := true; ch; {
		ch = false
		for i, h := range pc {
			if used[i] {
				continue
			}
			s := map[*Term]bool{}
			constsOf(h, s)
			hit := len(s) == 0
			for k := range s {
				if syms[k] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				for k := range s {
					syms[k] = true
				}
			}
		}
	}
	var r []*Term
	for i, h := range pc {
		if used[i] {
			r = append(r, h)
		}
	}
	return r
}

var constsMu sync.Mutex
var constsCache = map[*Term][]*Term{}

func constsOf(t *Term, out map[*Term]bool) {
	constsMu.Lock()
	defer constsMu.Unlock()
	l, ok := constsCache[t]
	if !ok {
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.Op == "const" {
				l = append(l, t)
			}
			for _, a := range t.Args {
				walk(a)
			}
		}
		walk(t)
		constsCache[t] = l
	}
	for _, k := range l {
		out[k] = true
	}
}

// ---- values ----

func (x *Exec) val(fr *Frame, st *State, v ssa.Value) Value {
	if r, ok := fr.vals[v]; ok {
		return r
	}
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(st, v)
	case *ssa.Function:
		return VFunc{Fn: v, Name: funcKey(v)}
	case *ssa.Builtin:
		return VFunc{Name: "builtin." + v.Name()}
	case *ssa.Global:
		return x.globalAddr(st, v)
	}
	fail("unevaluated value %s = %s in %s", v.Name(), v, fr.fn)
	return nil
}

func (x *Exec) globalAddr(st *State, g *ssa.Global) Value {
	l, ok := globalLoc[g]
	if !ok {
		l = newLoc()
		globalLoc[g] = l
	}
	if _, ok := st.heap[l]; !ok {
		et := g.Type().(*types.Pointer).Elem()
		if x.initMode {
			st.heap[l] = &OCell{V: st.zero(et), T: et}
		} else if globalState != nil && globalState.heap[l] != nil && !mutableGlobals[g] {
			copyReach(globalState, st, l, map[int]bool{})
		} else {
			so := sortOf(et)
			if so == SAny {
				st.heap[l] = &OCell{V: VOpaque{"global " + g.Name()}, T: et}
			} else {
				st.heap[l] = &OCell{V: st.materialise(Fresh("glob_"+g.Name(), so), et), T: et}
			}
			st.frozen[l] = true
		}
	}
	return VPtr{Loc: l}
}

func copyReach(from, to *State, l int, seen map[int]bool) {
	if l == 0 || seen[l] {
		return
	}
	seen[l] = true
	o, ok := from.heap[l]
	if !ok {
		return
	}
	if _, have := to.heap[l]; !have {
		to.heap[l] = o
		to.frozen[l] = true
	}
	for _, c := range childLocs(o) {
		copyReach(from, to, c, seen)
	}
}

func valLocs(v Value) []int {
	switch v := v.(type) {
	case VPtr:
		if v.Loc != 0 {
			return []int{v.Loc}
		}
	case VSlice:
		return []int{v.Loc}
	case VMap:
		if v.Loc != 0 {
			return []int{v.Loc}
		}
	case VStruct:
		var r []int
		for _, f := range v.F {
			r = append(r, valLocs(f)...)
		}
		return r
	case VTuple:
		var r []int
		for _, f := range v.E {
			r = append(r, valLocs(f)...)
		}
		return r
	case VIface:
		if v.T != nil {
			return valLocs(v.V)
		}
	case VFunc:
		var r []int
		for _, f := range v.Free {
			r = append(r, valLocs(f)...)
		}
		return r
	}
	return nil
}

func childLocs(o Obj) []int {
	var r []int
	switch o := o.(type) {
	case *OStruct:
		for _, f := range o.F {
			r = append(r, valLocs(f)...)
		}
	case *OCell:
		r = valLocs(o.V)
	case *OVec:
		for _, f := range o.E {
			r = append(r, valLocs(f)...)
		}
	case *OCMap:
		for _, f := range o.V {
			r = append(r, valLocs(f)...)
		}
	case *OEnc:
		r = append(r, o.Buf)
	case *OCtx:
		r = append(r, o.Hole)
	}
	return r
}

func (x *Exec) constVal(st *State, c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return st.zero(t)
	}
	if _, isI := t.Underlying().(*types.Interface); isI {
		fail("interface constant")
	}
	so := sortOf(t)
	switch so.Kind {
	case KBool:
		return VT{BoolT(constant.BoolVal(c.Value))}
	case KInt:
		v := constant.ToInt(c.Value)
		n, _ := new(big.Int).SetString(v.ExactString(), 10)
		return VT{IntB(n)}
	case KBV:
		v := constant.ToInt(c.Value)
		n, _ := new(big.Int).SetString(v.ExactString(), 10)
		return VT{BVB(n, so.Bits)}
	case KReal:
		v := constant.ToFloat(c.Value)
		r, ok := new(big.Rat).SetString(v.ExactString())
		if !ok {
			fail("float const %s", v)
		}
		return VT{RealB(r)}
	case KSeq:
		if so == SStr {
			return VT{StrLit(constant.StringVal(c.Value))}
		}
	}
	fail("constant %s of type %s", c, t)
	return nil
}

func (x *Exec) term(fr *Frame, st *State, v ssa.Value) *Term {
	return x.tm(st, x.val(fr, st, v), v.Type())
}

func (x *Exec) tm(st *State, v Value, t types.Type) *Term {
	switch w := v.(type) {
	case VT:
		return w.T
	case VOpaque:
		fail("opaque value (%s)", w.Why)
	}
	return st.abs(v, t)
}

func isStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}
func isArray(t types.Type) bool {
	_, ok := t.Underlying().(*types.Array)
	return ok
}

func (x *Exec) allocZero(st *State, t types.Type) int {
	if a, ok := t.Underlying().(*types.Array); ok {
		if a.Len() > 4096 {
			fail("large array")
		}
		o := &OVec{Elem: a.Elem()}
		for i := int64(0); i < a.Len(); i++ {
			o.E = append(o.E, st.zero(a.Elem()))
		}
		return st.alloc(o)
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case "math/big.Int":
			return st.alloc(&OBig{V: BVT(0, 128)})
		case "bytes.Buffer":
			return st.alloc(&OBuf{S: Empty(SeqOf(SAny))})
		case "strings.Builder":
			return st.alloc(&OBuf{S: Empty(SStr)})
		}
	}
	if isStruct(t) {
		v := st.zero(t).(VStruct)
		return st.alloc(&OStruct{T: t, F: v.F})
	}
	return st.alloc(&OCell{V: st.zero(t), T: t})
}

// unfold makes loc an OStruct; the caller has established non-nilness.
func (x *Exec) unfold(st *State, loc int) *OStruct {
	switch o := st.heap[loc].(type) {
	case *OStruct:
		return o
	case *OFolded:
		stt := structOf(o.T)
		n := &OStruct{T: o.T}
		if isCons(o.Term) && len(o.Term.Args) > 0 {
			for i := 0; i < stt.NumFields(); i++ {
				n.F = append(n.F, st.materialise(o.Term.Args[i], stt.Field(i).Type()))
			}
		} else {
			// the field constants are a function of the unfolded term
			args := x.unfolded[o.Term]
			fresh := args == nil
			for i := 0; i < stt.NumFields(); i++ {
				f := stt.Field(i)
				if fresh {
					args = append(args, Fresh(f.Name(), sortOf(f.Type())))
				}
				n.F = append(n.F, st.materialise(args[i], f.Type()))
			}
			if fresh {
				if x.unfolded == nil {
					x.unfolded = map[*Term][]*Term{}
				}
				x.unfolded[o.Term] = args
			}
			st.assume(Eq(o.Term, adtMk(o.Term.Sort, args)))
		}
		if st.frozen[loc] {
			for _, f := range n.F {
				for _, l := range valLocs(f) {
					st.frozen[l] = true
				}
			}
		}
		st.heap[loc] = n
		return n
	}
	fail("unfold of %T", st.heap[loc])
	return nil
}

func (x *Exec) nonNil(st *State, v Value, what string, pos token.Pos, fr *Frame) VPtr {
	p, ok := v.(VPtr)
	if !ok {
		fail("dereference of %T (%v)", v, what)
	}
	if w := st.stale[p.Loc]; w != "" && p.Loc != 0 {
		fail("use of pointer after %s", w)
	}
	if p.Loc == 0 {
		x.oblige(st, "nil", funcKey(fr.fn)+"/nil-deref", False, pos)
		return p
	}
	if o, ok := st.heap[p.Loc].(*OFolded); ok && len(p.Path) == 0 {
		x.oblige(st, "nil", funcKey(fr.fn)+"/nil-deref", Not(adtIsNil(o.Term)), pos)
	}
	return p
}

// ---- memory access ----

func (x *Exec) load(st *State, p VPtr, t types.Type) Value {
	if w := st.stale[p.Loc]; w != "" {
		fail("read after %s", w)
	}
	o := st.heap[p.Loc]
	if len(p.Path) == 0 {
		switch o := o.(type) {
		case *OCell:
			return o.V
		case *OStruct:
			return VStruct{F: append([]Value(nil), o.F...), T: o.T}
		case *OFolded:
			s := x.unfold(st, p.Loc)
			return VStruct{F: append([]Value(nil), s.F...), T: s.T}
		case *OVec:
			fail("array load")
		}
		fail("load of %T", o)
	}
	e := p.Path[0]
	switch o := o.(type) {
	case *OStruct:
		return x.getPath(st, o.F[e.Field], p.Path[1:])
	case *OFolded:
		s := x.unfold(st, p.Loc)
		return x.getPath(st, s.F[e.Field], p.Path[1:])
	case *OVec:
		if n, ok := IntVal(e.Idx); ok && int(n) < len(o.E) {
			return x.getPath(st, o.E[n], p.Path[1:])
		}
		s := x.vecToSeq(st, p.Loc)
		return x.getPath(st, x.seqElem(st, s, e.Idx, p.Loc), p.Path[1:])
	case *OSeq:
		return x.getPath(st, x.seqElem(st, o, e.Idx, p.Loc), p.Path[1:])
	case *OCell:
		return x.getPath(st, o.V, p.Path)
	}
	fail("load path of %T", o)
	return nil
}

func (x *Exec) seqElem(st *State, o *OSeq, idx *Term, loc int) Value {
	v := st.materialise(At(o.S, idx), o.Elem)
	for _, l := range valLocs(v) {
		st.frozen[l] = true
	}
	return v
}

func (x *Exec) getPath(st *State, v Value, path []PE) Value {
	for _, e := range path {
		s, ok := v.(VStruct)
		if !ok || e.Idx != nil {
			fail("path into %T", v)
		}
		v = s.F[e.Field]
	}
	return v
}

func (x *Exec) vecToSeq(st *State, loc int) *OSeq {
	o := st.heap[loc].(*OVec)
	s := Empty(SeqOf(sortOf(o.Elem)))
	for _, e := range o.E {
		s = Cat(s, Unit(x.tm(st, e, o.Elem)))
		x.escape(st, e)
	}
	n := &OSeq{S: s, Elem: o.Elem}
	st.heap[loc] = n
	return n
}

func setPath(v Value, path []PE, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	s, ok := v.(VStruct)
	if !ok {
		fail("store path into %T", v)
	}
	f := append([]Value(nil), s.F...)
	f[path[0].Field] = setPath(f[path[0].Field], path[1:], nv)
	return VStruct{F: f, T: s.T}
}

func (x *Exec) store(st *State, p VPtr, v Value) {
	if _, arr := st.origin[p.Loc]; st.frozen[p.Loc] && !x.initMode && !arr {
		fail("write through a borrowed reference")
	}
	if w := st.stale[p.Loc]; w != "" {
		fail("write after %s", w)
	}
	if mm, ok := v.(VStruct); ok {
		_ = mm
	}
	o := st.heap[p.Loc]
	if len(p.Path) == 0 {
		switch o := o.(type) {
		case *OCell:
			st.heap[p.Loc] = &OCell{V: v, T: o.T}
			x.noteWrite(p.Loc, -1)
			return
		case *OStruct, *OFolded:
			s, ok := v.(VStruct)
			if !ok {
				fail("struct store of %T", v)
			}
			st.heap[p.Loc] = &OStruct{T: s.T, F: append([]Value(nil), s.F...)}
			x.noteWrite(p.Loc, -1)
			return
		}
		fail("store to %T", o)
	}
	e := p.Path[0]
	switch o := o.(type) {
	case *OFolded:
		x.unfold(st, p.Loc)
		x.store(st, p, v)
		return
	case *OStruct:
		n := &OStruct{T: o.T, F: append([]Value(nil), o.F...)}
		n.F[e.Field] = setPath(n.F[e.Field], p.Path[1:], v)
		st.heap[p.Loc] = n
		x.noteWrite(p.Loc, e.Field)
		return
	case *OVec:
		x.inPlace(st, p.Loc, "write into a shared array")
		if k, ok := IntVal(e.Idx); ok && int(k) < len(o.E) {
			n := &OVec{Elem: o.Elem, E: append([]Value(nil), o.E...)}
			n.E[k] = setPath(n.E[k], p.Path[1:], v)
			st.heap[p.Loc] = n
			x.noteWrite(p.Loc, -1)
			return
		}
		x.vecToSeq(st, p.Loc)
		x.store(st, p, v)
		return
	case *OSeq:
		if len(p.Path) > 1 {
			fail("store into struct element")
		}
		x.inPlace(st, p.Loc, "write into a shared array")
		st.heap[p.Loc] = &OSeq{S: Upd(o.S, e.Idx, x.tm(st, v, o.Elem)), Elem: o.Elem}
		x.escape(st, v)
		x.noteWrite(p.Loc, -1)
		return
	case *OCell:
		st.heap[p.Loc] = &OCell{V: setPath(o.V, p.Path, v), T: o.T}
		x.noteWrite(p.Loc, -1)
		return
	}
	fail("store path to %T", o)
}

// ---- simple instructions ----

func (x *Exec) simple(fr *Frame, st *State, ins ssa.Instruction) {
	switch ins := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := ins.Type().(*types.Pointer).Elem()
		fr.vals[ins] = VPtr{Loc: x.allocZero(st, t)}
	case *ssa.BinOp:
		fr.vals[ins] = x.binop(fr, st, ins)
	case *ssa.UnOp:
		fr.vals[ins] = x.unop(fr, st, ins)
	case *ssa.ChangeType:
		v := x.val(fr, st, ins.X)
		fr.vals[ins] = x.retype(v, ins.Type())
	case *ssa.ChangeInterface:
		fr.vals[ins] = x.val(fr, st, ins.X)
	case *ssa.Convert:
		fr.vals[ins] = x.convert(fr, st, ins)
	case *ssa.MakeInterface:
		v := x.val(fr, st, ins.X)
		if isErrorType(ins.Type()) {
			e := Fresh("err", SErr)
			st.assume(Not(Eq(e, errNil())))
			fr.vals[ins] = VT{e}
		} else {
			fr.vals[ins] = VIface{T: ins.X.Type(), V: v}
		}
	case *ssa.Extract:
		t, ok := x.val(fr, st, ins.Tuple).(VTuple)
		if !ok {
			fail("extract of %T", x.val(fr, st, ins.Tuple))
		}
		fr.vals[ins] = t.E[ins.Index]
	case *ssa.Field:
		v := x.val(fr, st, ins.X)
		s, ok := v.(VStruct)
		if !ok {
			fail("field of %T", v)
		}
		fr.vals[ins] = s.F[ins.Field]
	case *ssa.FieldAddr:
		p := x.nonNil(st, x.val(fr, st, ins.X), ins.String(), ins.Pos(), fr)
		if p.Loc == 0 {
			fail("nil dereference")
		}
		fr.vals[ins] = VPtr{Loc: p.Loc, Path: append(append([]PE(nil), p.Path...), PE{Field: ins.Field})}
	case *ssa.Index:
		v := x.val(fr, st, ins.X)
		i := x.intTerm(fr, st, ins.Index)
		if tv, ok := v.(VT); ok && tv.T.Sort.Kind == KSeq {
			x.oblige(st, "bounds", funcKey(fr.fn)+"/index-in-range", And(Le(IntT(0), i), Lt(i, Len(tv.T))), ins.Pos())
			fr.vals[ins] = VT{At(tv.T, i)}
			return
		}
		fail("index of %T", v)
	case *ssa.IndexAddr:
		fr.vals[ins] = x.indexAddr(fr, st, ins)
	case *ssa.Slice:
		fr.vals[ins] = x.sliceOp(fr, st, ins)
	case *ssa.Store:
		p := x.nonNil(st, x.val(fr, st, ins.Addr), ins.String(), ins.Pos(), fr)
		if p.Loc == 0 {
			fail("nil store")
		}
		x.store(st, p, x.val(fr, st, ins.Val))
	case *ssa.MakeMap:
		m := ins.Type().Underlying().(*types.Map)
		fr.vals[ins] = VMap{Loc: st.alloc(&OCMap{T: m}), T: m}
	case *ssa.MakeSlice:
		fr.vals[ins] = x.makeSlice(fr, st, ins)
	case *ssa.MapUpdate:
		x.mapUpdate(fr, st, ins)
	case *ssa.Range:
		fr.vals[ins] = x.rangeOp(fr, st, ins)
	case *ssa.MakeClosure:
		f := VFunc{Fn: ins.Fn.(*ssa.Function), Name: funcKey(ins.Fn.(*ssa.Function))}
		for _, b := range ins.Bindings {
			f.Free = append(f.Free, x.val(fr, st, b))
		}
		fr.vals[ins] = f
	case *ssa.TypeAssert:
		v := x.val(fr, st, ins.X)
		i, ok := v.(VIface)
		if !ok {
			fail("type assertion on %T", v)
		}
		hit := i.T != nil && types.Identical(i.T, ins.AssertedType)
		if types.IsInterface(ins.AssertedType) {
			fail("type assertion to interface")
		}
		if ins.CommaOk {
			if hit {
				fr.vals[ins] = VTuple{[]Value{i.V, VT{True}}}
			} else {
				fr.vals[ins] = VTuple{[]Value{st.zero(ins.AssertedType), VT{False}}}
			}
			return
		}
		if !hit {
			x.oblige(st, "panic", funcKey(fr.fn)+"/type-assertion", False, ins.Pos())
		}
		fr.vals[ins] = i.V
	default:
		fail("instruction %T", ins)
	}
}

func (x *Exec) retype(v Value, t types.Type) Value {
	switch v := v.(type) {
	case VStruct:
		return VStruct{F: v.F, T: t}
	case VMap:
		if m, ok := t.Underlying().(*types.Map); ok {
			return VMap{Loc: v.Loc, T: m}
		}
	case VTuple:
		return v
	}
	return v
}

func (x *Exec) intTerm(fr *Frame, st *State, v ssa.Value) *Term {
	t := x.term(fr, st, v)
	return toInt(t, v.Type())
}

func toInt(t *Term, ty types.Type) *Term {
	if t.Sort == SInt {
		return t
	}
	if t.Sort.Kind == KBV {
		_, signed, _ := isBVType(ty)
		if signed {
			return sBV2Int(t)
		}
		return BV2Int(t)
	}
	fail("integer expected, got %s", t.Sort)
	return nil
}

func sBV2Int(t *Term) *Term {
	n := t.Sort.Bits
	if isBV(t) {
		return IntB(signed(t))
	}
	if t.Op == "zext" {
		return BV2Int(t)
	}
	neg := Eq(Extract(t, n-1, n-1), BVT(1, 1))
	return Ite(neg, Sub(BV2Int(t), IntB(new(big.Int).Lsh(big.NewInt(1), uint(n)))), BV2Int(t))
}

func (x *Exec) unop(fr *Frame, st *State, ins *ssa.UnOp) Value {
	switch ins.Op {
	case token.MUL:
		p := x.nonNil(st, x.val(fr, st, ins.X), ins.String(), ins.Pos(), fr)
		if p.Loc == 0 {
			fail("nil load")
		}
		return x.load(st, p, ins.Type())
	case token.NOT:
		return VT{Not(x.term(fr, st, ins.X))}
	case token.SUB:
		t := x.term(fr, st, ins.X)
		switch t.Sort.Kind {
		case KInt:
			return VT{Sub(IntT(0), t)}
		case KReal:
			return VT{realop("-", RealB(new(big.Rat)), t)}
		case KBV:
			return VT{bvop("bvsub", BVT(0, t.Sort.Bits), t)}
		}
	case token.XOR:
		t := x.term(fr, st, ins.X)
		if t.Sort.Kind == KBV {
			return VT{bvop("bvxor", t, BVB(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(t.Sort.Bits)), big.NewInt(1)), t.Sort.Bits))}
		}
		if t.Sort == SInt {
			return VT{Sub(IntT(-1), t)}
		}
	}
	fail("unop %s", ins.Op)
	return nil
}

func (x *Exec) isNilVal(st *State, v Value) *Term {
	switch v := v.(type) {
	case VPtr:
		if v.Loc == 0 {
			return True
		}
		if len(v.Path) > 0 {
			return False
		}
		if w := st.stale[v.Loc]; w != "" {
			fail("nil test after %s", w)
		}
		if o, ok := st.heap[v.Loc].(*OFolded); ok {
			return adtIsNil(o.Term)
		}
		return False
	case VSlice:
		return v.Nil
	case VMap:
		if v.Loc == 0 {
			return True
		}
		if _, ok := st.heap[v.Loc].(*OCMap); ok {
			return False
		}
		return Fresh("nilmap", SBool)
	case VIface:
		return BoolT(v.T == nil)
	case VT:
		if v.T.Sort == SErr {
			return Eq(v.T, errNil())
		}
	case VFunc:
		return False
	}
	fail("nil test of %T", v)
	return nil
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (x *Exec) binop(fr *Frame, st *State, ins *ssa.BinOp) Value {
	switch ins.Op {
	case token.EQL, token.NEQ:
		var r *Term
		if isNilConst(ins.Y) && !isStruct(ins.X.Type()) {
			r = x.isNilVal(st, x.val(fr, st, ins.X))
		} else if isNilConst(ins.X) && !isStruct(ins.X.Type()) {
			r = x.isNilVal(st, x.val(fr, st, ins.Y))
		} else {
			a, b := x.val(fr, st, ins.X), x.val(fr, st, ins.Y)
			pa, ok1 := a.(VPtr)
			pb, ok2 := b.(VPtr)
			if ok1 && ok2 {
				if pa.Loc == pb.Loc && len(pa.Path) == 0 && len(pb.Path) == 0 {
					r = True
				} else {
					fail("pointer identity comparison")
				}
			} else {
				r = Eq(x.tm(st, a, ins.X.Type()), x.tm(st, b, ins.Y.Type()))
			}
		}
		if ins.Op == token.NEQ {
			r = Not(r)
		}
		return VT{r}
	}
	a := x.term(fr, st, ins.X)
	b := x.term(fr, st, ins.Y)
	bits, sgn, isbv := isBVType(ins.X.Type())
	_ = bits
	if ins.Op == token.SHL || ins.Op == token.SHR {
		return VT{x.shift(fr, st, ins, a, b)}
	}
	if isbv {
		switch ins.Op {
		case token.ADD:
			return VT{bvop("bvadd", a, b)}
		case token.SUB:
			return VT{bvop("bvsub", a, b)}
		case token.MUL:
			return VT{bvop("bvmul", a, b)}
		case token.AND:
			return VT{bvop("bvand", a, b)}
		case token.OR:
			return VT{bvop("bvor", a, b)}
		case token.XOR:
			return VT{bvop("bvxor", a, b)}
		case token.AND_NOT:
			return VT{bvop("bvand", a, bvop("bvxor", b, BVB(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(b.Sort.Bits)), big.NewInt(1)), b.Sort.Bits)))}
		case token.QUO, token.REM:
			if sgn {
				if ins.Op == token.REM && isBV(b) {
					fail("signed bv rem")
				}
				fail("signed bv division")
			}
			x.oblige(st, "div", funcKey(fr.fn)+"/no-division-by-zero", Not(Eq(b, BVT(0, b.Sort.Bits))), ins.Pos())
			if ins.Op == token.QUO {
				return VT{bvop("bvudiv", a, b)}
			}
			return VT{bvop("bvurem", a, b)}
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			op := ins.Op
			if op == token.GTR || op == token.GEQ {
				a, b = b, a
				if op == token.GTR {
					op = token.LSS
				} else {
					op = token.LEQ
				}
			}
			le := BVULe
			if sgn {
				le = BVSLe
			}
			if op == token.LEQ {
				return VT{le(a, b)}
			}
			return VT{Not(le(b, a))}
		}
	}
	switch a.Sort.Kind {
	case KInt:
		switch ins.Op {
		case token.ADD:
			return VT{Add(a, b)}
		case token.SUB:
			return VT{Sub(a, b)}
		case token.MUL:
			return VT{Mul(a, b)}
		case token.QUO, token.REM:
			if _, ok := IntVal(b); !ok {
				x.oblige(st, "div", funcKey(fr.fn)+"/no-division-by-zero", Not(Eq(b, IntT(0))), ins.Pos())
			}
			if n, ok := IntVal(b); ok && n > 0 && !isInt(a) && !x.initMode && quickUnsat(st.pc, Lt(a, IntT(0))) {
				if ins.Op == token.QUO {
					return VT{EDiv(a, b)}
				}
				return VT{EMod(a, b)}
			}
			if ins.Op == token.QUO {
				return VT{GoDiv(a, b)}
			}
			return VT{GoMod(a, b)}
		case token.LSS:
			return VT{Lt(a, b)}
		case token.LEQ:
			return VT{Le(a, b)}
		case token.GTR:
			return VT{Lt(b, a)}
		case token.GEQ:
			return VT{Le(b, a)}
		case token.AND:
			// x & (2^k-1) on ints
			if n, ok := IntVal(b); ok && n >= 0 && (n&(n+1)) == 0 {
				return VT{EMod(a, IntT(n+1))}
			}
			if n, ok := IntVal(a); ok && n >= 0 && (n&(n+1)) == 0 {
				return VT{EMod(b, IntT(n+1))}
			}
		}
		if va, ok := IntVal(a); ok {
			if vb, ok := IntVal(b); ok {
				switch ins.Op {
				case token.AND:
					return VT{IntT(va & vb)}
				case token.OR:
					return VT{IntT(va | vb)}
				case token.XOR:
					return VT{IntT(va ^ vb)}
				}
			}
		}
	case KReal:
		switch ins.Op {
		case token.ADD:
			return VT{realop("+", a, b)}
		case token.SUB:
			return VT{realop("-", a, b)}
		case token.MUL:
			return VT{realop("*", a, b)}
		case token.QUO:
			return VT{realop("/", a, b)}
		case token.LSS:
			return VT{Lt(a, b)}
		case token.LEQ:
			return VT{Le(a, b)}
		case token.GTR:
			return VT{Lt(b, a)}
		case token.GEQ:
			return VT{Le(b, a)}
		}
	case KSeq:
		switch ins.Op {
		case token.ADD:
			return VT{Cat(a, b)}
		case token.LSS:
			return VT{App("strlt", SBool, a, b)}
		case token.GTR:
			return VT{App("strlt", SBool, b, a)}
		case token.LEQ:
			return VT{Not(App("strlt", SBool, b, a))}
		case token.GEQ:
			return VT{Not(App("strlt", SBool, a, b))}
		}
	case KBool:
		switch ins.Op {
		case token.AND:
			return VT{And(a, b)}
		case token.OR:
			return VT{Or(a, b)}
		}
	}
	fail("binop %s on %s", ins.Op, a.Sort)
	return nil
}

func (x *Exec) shift(fr *Frame, st *State, ins *ssa.BinOp, a, b *Term) *Term {
	_, _, aBV := isBVType(ins.X.Type())
	if !aBV { // int shifts
		if b.Sort.Kind == KBV {
			b = BV2Int(b)
		}
		k, ok := IntVal(b)
		if !ok {
			if v, okv := IntVal(a); okv && v >= 0 && ins.Op == token.SHL {
				// constant << n with small n: enumerate 0..62
				x.oblige(st, "shift", funcKey(fr.fn)+"/shift-count", And(Le(IntT(0), b), Le(b, IntT(40))), ins.Pos())
				r := IntT(0)
				for n := int64(40); n >= 0; n-- {
					r = Ite(Eq(b, IntT(n)), IntT(v<<uint(n)), r)
				}
				return r
			}
			fail("int shift by symbolic amount")
		}
		p := IntB(new(big.Int).Lsh(big.NewInt(1), uint(k)))
		if ins.Op == token.SHL {
			return Mul(a, p)
		}
		return EDiv(a, p)
	}
	_, sgn, _ := isBVType(ins.X.Type())
	n := a.Sort.Bits
	var cnt *Term
	if b.Sort == SInt {
		if k, ok := IntVal(b); ok {
			if k < 0 {
				x.oblige(st, "shift", funcKey(fr.fn)+"/shift-count", False, ins.Pos())
			}
			if k >= int64(n) {
				cnt = BVT(uint64(n), n)
				if n < 8 {
					fail("small bv")
				}
			} else {
				cnt = BVT(uint64(k), n)
			}
		} else {
			x.oblige(st, "shift", funcKey(fr.fn)+"/shift-count", Le(IntT(0), b), ins.Pos())
			// count as an ite chain: avoids int/bit-vector mixing
			cnt = BVT(uint64(n), n)
			for k := n - 1; k >= 0; k-- {
				cnt = Ite(Eq(b, IntT(int64(k))), BVT(uint64(k), n), cnt)
			}
		}
	} else {
		switch {
		case b.Sort.Bits == n:
			cnt = b
		case b.Sort.Bits < n:
			cnt = Zext(b, n)
		default:
			big := Not(BVULe(b, BVT(uint64(n), b.Sort.Bits)))
			cnt = Ite(big, BVT(uint64(n), n), Extract(b, n-1, 0))
		}
	}
	if ins.Op == token.SHL {
		return bvop("bvshl", a, cnt)
	}
	if sgn {
		if isBV(a) && signed(a).Sign() >= 0 {
			return bvop("bvlshr", a, cnt)
		}
		fail("arithmetic shift right")
	}
	return bvop("bvlshr", a, cnt)
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func sliceElem(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

func (x *Exec) newSeq(st *State, s *Term, elem types.Type) VSlice {
	return VSlice{Loc: st.alloc(&OSeq{S: s, Elem: elem}), Off: IntT(0), Len: Len(s), Nil: False, Elem: elem}
}

func (x *Exec) convert(fr *Frame, st *State, ins *ssa.Convert) Value {
	from, to := ins.X.Type(), ins.Type()
	v := x.val(fr, st, ins.X)
	if isStringT(to) {
		if e := sliceElem(from); e != nil {
			t := x.tm(st, v, from)
			if t.Sort == SRunes {
				return VT{strOf(t)}
			}
			return VT{t}
		}
		if isStringT(from) {
			return v
		}
		// string(rune/byte)
		t := x.tm(st, v, from)
		if t.Sort.Kind == KBV {
			if n := t.Sort.Bits; n > 8 {
				x.oblige(st, "ascii", funcKey(fr.fn)+"/ascii-rune", BVULe(t, BVT(127, n)), ins.Pos())
				return VT{Unit(Extract(t, 7, 0))}
			}
			if t.Op == "bv" {
				if t.Int.Uint64() <= 127 {
					return VT{Unit(t)}
				}
			}
			return VT{App("bytestr", SStr, t)}
		}
		if t.Sort == SInt {
			x.oblige(st, "ascii", funcKey(fr.fn)+"/ascii-rune", And(Le(IntT(0), t), Le(t, IntT(127))), ins.Pos())
			return VT{Unit(Int2BV(t, 8))}
		}
		fail("string conversion")
	}
	if e := sliceElem(to); e != nil && isStringT(from) {
		t := x.tm(st, v, from)
		if sortOf(e) == BV(32) {
			return x.newSeq(st, runesOf(t), e)
		}
		return x.newSeq(st, t, e)
	}
	t := x.tm(st, v, from)
	ts := sortOf(to)
	switch {
	case t.Sort == ts:
		// int64 <-> int, uint <-> uint64, int32<->uint32: same sort
		return VT{t}
	case t.Sort.Kind == KBV && ts.Kind == KBV:
		if ts.Bits <= t.Sort.Bits {
			return VT{Extract(t, ts.Bits-1, 0)}
		}
		_, sgn, _ := isBVType(from)
		if sgn {
			return VT{Sext(t, ts.Bits)}
		}
		return VT{Zext(t, ts.Bits)}
	case t.Sort.Kind == KBV && ts == SInt:
		return VT{toInt(t, from)}
	case t.Sort == SInt && ts.Kind == KBV:
		return VT{Int2BV(t, ts.Bits)}
	case t.Sort == SInt && ts == SReal:
		return VT{i2r(t)}
	case t.Sort.Kind == KBV && ts == SReal:
		return VT{i2r(toInt(t, from))}
	case t.Sort == SReal && ts == SInt:
		return VT{r2i(t)}
	case t.Sort == SReal && ts.Kind == KBV:
		return VT{Int2BV(r2i(t), ts.Bits)}
	}
	fail("conversion %s -> %s", from, to)
	return nil
}

// float -> int truncates toward zero
func r2i(t *Term) *Term {
	if t.Op == "real" {
		r := rat(t)
		return IntB(new(big.Int).Quo(r.Num(), r.Denom()))
	}
	if t.Op == "i2r" {
		return t.Args[0]
	}
	fl := RFloor(t)
	zero := RealB(new(big.Rat))
	return Ite(Le(zero, t), fl, Sub(IntT(0), RFloor(realop("-", zero, t))))
}

func (x *Exec) indexAddr(fr *Frame, st *State, ins *ssa.IndexAddr) Value {
	v := x.val(fr, st, ins.X)
	i := x.intTerm(fr, st, ins.Index)
	switch v := v.(type) {
	case VSlice:
		x.oblige(st, "bounds", funcKey(fr.fn)+"/index-in-range", And(Le(IntT(0), i), Lt(i, v.Len)), ins.Pos())
		return VPtr{Loc: v.Loc, Path: []PE{{Idx: Add(v.Off, i)}}}
	case VPtr:
		if o, ok := st.heap[v.Loc].(*OVec); ok && len(v.Path) == 0 {
			x.oblige(st, "bounds", funcKey(fr.fn)+"/index-in-range", And(Le(IntT(0), i), Lt(i, IntT(int64(len(o.E))))), ins.Pos())
			return VPtr{Loc: v.Loc, Path: []PE{{Idx: i}}}
		}
		if o, ok := st.heap[v.Loc].(*OSeq); ok && len(v.Path) == 0 {
			x.oblige(st, "bounds", funcKey(fr.fn)+"/index-in-range", And(Le(IntT(0), i), Lt(i, Len(o.S))), ins.Pos())
			return VPtr{Loc: v.Loc, Path: []PE{{Idx: i}}}
		}
	}
	fail("index address of %T", v)
	return nil
}

func (x *Exec) backLen(st *State, loc int) *Term {
	switch o := st.heap[loc].(type) {
	case *OSeq:
		return Len(o.S)
	case *OVec:
		return IntT(int64(len(o.E)))
	}
	fail("backing %T", st.heap[loc])
	return nil
}

func (x *Exec) sliceOp(fr *Frame, st *State, ins *ssa.Slice) Value {
	v := x.val(fr, st, ins.X)
	var lo, hi *Term
	lo = IntT(0)
	if ins.Low != nil {
		lo = x.intTerm(fr, st, ins.Low)
	}
	if ins.High != nil {
		hi = x.intTerm(fr, st, ins.High)
	}
	if ins.Max != nil {
		fail("3-index slice")
	}
	switch v := v.(type) {
	case VT: // string
		if hi == nil {
			hi = Len(v.T)
		}
		x.oblige(st, "bounds", funcKey(fr.fn)+"/slice-in-range", And(Le(IntT(0), lo), Le(lo, hi), Le(hi, Len(v.T))), ins.Pos())
		return VT{SubOK(v.T, lo, hi)}
	case VSlice:
		if hi == nil {
			hi = v.Len
		}
		// Go allows hi up to capacity; we demand the stronger hi <= len
		x.oblige(st, "bounds", funcKey(fr.fn)+"/slice-in-range", And(Le(IntT(0), lo), Le(lo, hi), Le(hi, v.Len)), ins.Pos())
		return VSlice{Loc: v.Loc, Off: Add(v.Off, lo), Len: Sub(hi, lo), Nil: v.Nil, Elem: v.Elem}
	case VPtr: // pointer to array
		n := x.backLen(st, v.Loc)
		if hi == nil {
			hi = n
		}
		x.oblige(st, "bounds", funcKey(fr.fn)+"/slice-in-range", And(Le(IntT(0), lo), Le(lo, hi), Le(hi, n)), ins.Pos())
		et := ins.Type().Underlying().(*types.Slice).Elem()
		return VSlice{Loc: v.Loc, Off: lo, Len: Sub(hi, lo), Nil: False, Elem: et}
	}
	fail("slice of %T", v)
	return nil
}

func (x *Exec) makeSlice(fr *Frame, st *State, ins *ssa.MakeSlice) Value {
	n := x.intTerm(fr, st, ins.Len)
	et := ins.Type().Underlying().(*types.Slice).Elem()
	x.oblige(st, "bounds", funcKey(fr.fn)+"/make-nonnegative", Le(IntT(0), n), ins.Pos())
	if k, ok := IntVal(n); ok && k <= 64 {
		o := &OVec{Elem: et}
		for i := int64(0); i < k; i++ {
			o.E = append(o.E, st.zero(et))
		}
		return VSlice{Loc: st.alloc(o), Off: IntT(0), Len: n, Nil: False, Elem: et}
	}
	z := st.zero(et)
	var zt *Term
	switch z := z.(type) {
	case VT:
		zt = z.T
	default:
		zt = x.tm(st, z, et)
	}
	return VSlice{Loc: st.alloc(&OSeq{S: RepOK(zt, n), Elem: et}), Off: IntT(0), Len: n, Nil: False, Elem: et}
}

// ---- maps ----

func (x *Exec) toOMap(st *State, loc int) *OMap {
	switch o := st.heap[loc].(type) {
	case *OMap:
		return o
	case *OCMap:
		so := MapOf(sortOf(o.T.Key()), sortOf(o.T.Elem()))
		m := mk("mempty", so, nil, "")
		for i, k := range o.K {
			m = mk("mstore", so, nil, "", m, k, x.tm(st, o.V[i], o.T.Elem()))
			x.escape(st, o.V[i])
		}
		n := &OMap{M: m, T: o.T}
		st.heap[loc] = n
		return n
	}
	fail("map object %T", st.heap[loc])
	return nil
}

// distinctness of two key terms decided syntactically: 1 equal, 0 different, -1 unknown
func keyCmp(a, b *Term) int {
	e := Eq(a, b)
	if e == True {
		return 1
	}
	if e == False {
		return 0
	}
	return -1
}

type vout struct {
	st *State
	v  Value
}

func (x *Exec) lookup(fr *Frame, st *State, ins *ssa.Lookup) []vout {
	xv := x.val(fr, st, ins.X)
	if tv, ok := xv.(VT); ok && tv.T.Sort.Kind == KSeq {
		i := x.intTerm(fr, st, ins.Index)
		x.oblige(st, "bounds", funcKey(fr.fn)+"/index-in-range", And(Le(IntT(0), i), Lt(i, Len(tv.T))), ins.Pos())
		return []vout{{st, VT{At(tv.T, i)}}}
	}
	m, ok := xv.(VMap)
	if !ok {
		fail("lookup in %T", xv)
	}
	et := m.T.Elem()
	ret := func(v Value, ok *Term) Value {
		if ins.CommaOk {
			return VTuple{[]Value{v, VT{ok}}}
		}
		return v
	}
	if m.Loc == 0 {
		return []vout{{st, ret(st.zero(et), False)}}
	}
	k := x.term(fr, st, ins.Index)
	switch o := st.heap[m.Loc].(type) {
	case *OCMap:
		allKnown := true
		for i := len(o.K) - 1; i >= 0; i-- {
			switch keyCmp(o.K[i], k) {
			case 1:
				if allKnown {
					return []vout{{st, ret(o.V[i], True)}}
				}
			case -1:
				allKnown = false
			}
		}
		if allKnown {
			return []vout{{st, ret(st.zero(et), False)}}
		}
		if _, isPtr := et.Underlying().(*types.Pointer); !isPtr || true {
			// fork over the possible keys (small concrete maps)
			if len(o.K) <= 64 && x.allDistinct(o.K) {
				var outs []vout
				var negs []*Term
				for i := range o.K {
					c := Eq(o.K[i], k)
					if c == False {
						continue
					}
					s2 := st.clone()
					s2.assume(c)
					if !s2.dead() && !quickUnsat(st.pc, c) {
						outs = append(outs, vout{s2, ret(o.V[i], True)})
					}
					negs = append(negs, Not(c))
				}
				s2 := st.clone()
				for _, n := range negs {
					s2.assume(n)
				}
				outs = append(outs, vout{s2, ret(s2.zero(et), False)})
				return outs
			}
		}
		x.toOMap(st, m.Loc)
		return x.lookupOMap(st, m, k, ret)
	case *OMap:
		return x.lookupOMap(st, m, k, ret)
	}
	fail("lookup in %T", st.heap[m.Loc])
	return nil
}

func (x *Exec) allDistinct(ks []*Term) bool {
	for i := range ks {
		for j := 0; j < i; j++ {
			if keyCmp(ks[i], ks[j]) != 0 {
				return false
			}
		}
	}
	return true
}

func zeroTerm(st *State, t types.Type) *Term {
	switch z := st.zero(t).(type) {
	case VT:
		return z.T
	case VPtr:
		so := sortOf(t)
		if so.Kind == KADT {
			return adtNil(so)
		}
	case VSlice:
		return Empty(sortOf(t))
	case VMap:
		return mk("mempty", sortOf(t), nil, "")
	}
	return nil
}

func (x *Exec) lookupOMap(st *State, m VMap, k *Term, ret func(Value, *Term) Value) []vout {
	o := st.heap[m.Loc].(*OMap)
	et := m.T.Elem()
	has := mk("mhas", SBool, nil, "", o.M, k)
	get := mk("mget", sortOf(et), nil, "", o.M, k)
	for _, h := range st.pc {
		if h == has {
			has = True
		} else if h == Not(has) {
			has = False
		}
	}
	zt := zeroTerm(st, et)
	if zt == nil {
		fail("map element type %s", et)
	}
	if has != True && has != False {
		switch x.feasible(st, has, Not(has)) {
		case 1:
			has = True
		case 2:
			has = False
		}
	}
	tm := Ite(has, get, zt)
	v := st.materialise(tm, et)
	for _, l := range valLocs(v) {
		st.frozen[l] = true
	}
	x.setOrigin(st, v, m.Loc, k)
	return []vout{{st, ret(v, has)}}
}

// setOrigin lets in-place updates of a map value's pointee write back.
func (x *Exec) setOrigin(st *State, v Value, mloc int, k *Term) {
	if s, ok := v.(VSlice); ok {
		if o, ok := st.heap[mloc].(*OMap); ok {
			st.origin[s.Loc] = mapOrigin{mloc, k, o.M}
		}
	}
}

func (x *Exec) mapUpdate(fr *Frame, st *State, ins *ssa.MapUpdate) {
	v := x.val(fr, st, ins.Map)
	m, ok := v.(VMap)
	if !ok {
		fail("map update of %T", v)
	}
	if m.Loc == 0 {
		x.oblige(st, "nil", funcKey(fr.fn)+"/nil-map-write", False, ins.Pos())
		fail("nil map write")
	}
	if st.frozen[m.Loc] && !x.initMode {
		fail("write to a borrowed map")
	}
	k := x.term(fr, st, ins.Key)
	nv := x.val(fr, st, ins.Value)
	x.noteWrite(m.Loc, -1)
	if o, ok := st.heap[m.Loc].(*OCMap); ok {
		n := &OCMap{T: o.T}
		unknown := false
		hit := -1
		for i := range o.K {
			switch keyCmp(o.K[i], k) {
			case 1:
				hit = i
			case -1:
				unknown = true
			}
		}
		if !unknown || hit >= 0 && len(o.K) == 1 {
			n.K = append(n.K, o.K...)
			n.V = append(n.V, o.V...)
			if hit >= 0 {
				n.V[hit] = nv
			} else {
				n.K = append(n.K, k)
				n.V = append(n.V, nv)
			}
			st.heap[m.Loc] = n
			return
		}
	}
	o := x.toOMap(st, m.Loc)
	if s, ok := nv.(VSlice); ok {
		for a := range st.aliasSet(s.Loc) {
			if og, has := st.origin[a]; st.frozen[a] && !(has && og.m == m.Loc && og.k == k) {
				fail("a slice that is visible elsewhere is stored in a map")
			}
		}
	}
	st.heap[m.Loc] = &OMap{M: mk("mstore", o.M.Sort, nil, "", o.M, k, x.tm(st, nv, o.T.Elem())), T: o.T}
	x.escape(st, nv) // copied into the map's value
	x.setOrigin(st, nv, m.Loc, k)
}

func (x *Exec) rangeOp(fr *Frame, st *State, ins *ssa.Range) Value {
	v := x.val(fr, st, ins.X)
	switch v := v.(type) {
	case VT:
		return VIter{st.alloc(&OIter{Kind: "str", S: v.T, Pos: IntT(0)})}
	case VMap:
		if v.Loc == 0 {
			return VIter{st.alloc(&OIter{Kind: "cmap", MLoc: 0, M: &OCMap{T: v.T}})}
		}
		switch o := st.heap[v.Loc].(type) {
		case *OCMap:
			if x.allDistinct(o.K) {
				return VIter{st.alloc(&OIter{Kind: "cmap", MLoc: v.Loc, M: o})}
			}
			x.toOMap(st, v.Loc)
		}
		o := st.heap[v.Loc].(*OMap)
		tok := Fresh("order", SInt)
		s := mk("menum", SeqOf(o.M.Sort.Key), nil, "", o.M, tok)
		return VIter{st.alloc(&OIter{Kind: "map", S: s, Pos: IntT(0), MLoc: v.Loc, M: o})}
	}
	fail("range over %T", v)
	return nil
}

func (x *Exec) next(fr *Frame, st *State, ins *ssa.Next) []vout {
	it := x.val(fr, st, ins.Iter).(VIter)
	o := st.heap[it.Loc].(*OIter)
	switch o.Kind {
	case "str":
		n := Len(o.S)
		more := Lt(o.Pos, n)
		mk1 := func(s *State) []vout {
			ch := At(o.S, o.Pos)
			x.noteWrite(it.Loc, -1)
			asc := BVULe(ch, BVT(127, 8))
			x.oblige(s, "ascii", funcKey(fr.fn)+"/ascii-string-range", asc, ins.Pos())
			s.heap[it.Loc] = &OIter{Kind: "str", S: o.S, Pos: Add(o.Pos, IntT(1))}
			return []vout{{s, VTuple{[]Value{VT{True}, VT{o.Pos}, VT{Zext(ch, 32)}}}}}
		}
		mk0 := func(s *State) vout {
			return vout{s, VTuple{[]Value{VT{False}, VT{IntT(0)}, VT{BVT(0, 32)}}}}
		}
		switch x.feasible(st, more, Not(more)) {
		case 1:
			st.assume(more)
			return mk1(st)
		case 2:
			st.assume(Not(more))
			return []vout{mk0(st)}
		}
		s2 := st.clone()
		st.assume(more)
		s2.assume(Not(more))
		return append(mk1(st), mk0(s2))
	case "map":
		if cur, ok := st.heap[o.MLoc].(*OMap); !ok || cur.M != o.M.(*OMap).M {
			fail("map modified during iteration")
		}
		n := Len(o.S)
		more := Lt(o.Pos, n)
		tup := ins.Type().(*types.Tuple)
		_ = tup
		mt := o.M.(*OMap).T
		mk1 := func(s *State) vout {
			k := At(o.S, o.Pos)
			s.assume(mk("mhas", SBool, nil, "", o.M.(*OMap).M, k))
			v := s.materialise(mk("mget", sortOf(mt.Elem()), nil, "", o.M.(*OMap).M, k), mt.Elem())
			for _, l := range valLocs(v) {
				s.frozen[l] = true
			}
			x.noteWrite(it.Loc, -1)
			s.heap[it.Loc] = &OIter{Kind: "map", S: o.S, Pos: Add(o.Pos, IntT(1)), MLoc: o.MLoc, M: o.M}
			return vout{s, VTuple{[]Value{VT{True}, s.materialise(k, mt.Key()), v}}}
		}
		s2 := st.clone()
		st.assume(more)
		s2.assume(Not(more))
		zk, zv := s2.zero(mt.Key()), s2.zero(mt.Elem())
		r := []vout{}
		if !st.dead() {
			r = append(r, mk1(st))
		}
		if !s2.dead() {
			r = append(r, vout{s2, VTuple{[]Value{VT{False}, zk, zv}}})
		}
		return r
	case "cmap":
		om := o.M.(*OCMap)
		var outs []vout
		x.noteWrite(it.Loc, -1)
		if o.VisB != nil {
			for i, k := range om.K {
				if o.VisB[i] == True {
					continue
				}
				s := st.clone()
				s.assume(Not(o.VisB[i]))
				n := *o
				n.VisB = append([]*Term(nil), o.VisB...)
				n.VisB[i] = True
				s.heap[it.Loc] = &n
				outs = append(outs, vout{s, VTuple{[]Value{VT{True}, s.materialise(k, om.T.Key()), om.V[i]}}})
			}
			s := st.clone()
			for i := range om.K {
				s.assume(o.VisB[i])
			}
			outs = append(outs, vout{s, VTuple{[]Value{VT{False}, s.zero(om.T.Key()), s.zero(om.T.Elem())}}})
			return outs
		}
		left := 0
		for i, k := range om.K {
			vis := false
			for _, v := range o.Vis {
				if v == k {
					vis = true
				}
			}
			if vis {
				continue
			}
			left++
			s := st.clone()
			s.heap[it.Loc] = &OIter{Kind: "cmap", MLoc: o.MLoc, M: o.M, Vis: append(append([]*Term(nil), o.Vis...), k)}
			outs = append(outs, vout{s, VTuple{[]Value{VT{True}, s.materialise(k, om.T.Key()), om.V[i]}}})
		}
		if left == 0 {
			return []vout{{st, VTuple{[]Value{VT{False}, st.zero(om.T.Key()), st.zero(om.T.Elem())}}}}
		}
		return outs
	}
	fail("next")
	return nil
}
