package main

// Loop cutting: havoc of loop-carried state, invariant inference (Houdini over
// contract templates and generic candidates) and termination measures.

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type cutCtx struct {
	trial bool
	cands []*Cand
	lv    []*loopVar
	pcLen int
}

type Cand struct {
	name string
	t    *Term // over header constants
	user bool
	key  string
}

// loopVar: a havoced quantity, its header constant and how to read it in a
// later state.
type loopVar struct {
	c    *Term
	get  func(st *State, phis []Value) *Term
	name string
	phi  bool
	src  string
}

func valEq(a, b Value) bool {
	switch a := a.(type) {
	case VT:
		bb, ok := b.(VT)
		return ok && a.T == bb.T
	case VPtr:
		bb, ok := b.(VPtr)
		if !ok || a.Loc != bb.Loc || len(a.Path) != len(bb.Path) {
			return false
		}
		for i := range a.Path {
			if a.Path[i] != bb.Path[i] {
				return false
			}
		}
		return true
	case VSlice:
		bb, ok := b.(VSlice)
		return ok && a.Loc == bb.Loc && a.Off == bb.Off && a.Len == bb.Len
	case VMap:
		bb, ok := b.(VMap)
		return ok && a.Loc == bb.Loc
	case VIter:
		bb, ok := b.(VIter)
		return ok && a.Loc == bb.Loc
	case VFunc:
		bb, ok := b.(VFunc)
		return ok && a.Fn == bb.Fn && len(a.Free) == 0 && len(bb.Free) == 0
	case VStruct:
		bb, ok := b.(VStruct)
		if !ok || len(a.F) != len(bb.F) {
			return false
		}
		for i := range a.F {
			if !valEq(a.F[i], bb.F[i]) {
				return false
			}
		}
		return true
	case VIface:
		bb, ok := b.(VIface)
		if !ok {
			return false
		}
		if a.T == nil || bb.T == nil {
			return a.T == nil && bb.T == nil
		}
		return types.Identical(a.T, bb.T) && valEq(a.V, bb.V)
	}
	return false
}

// havoc produces an arbitrary value of Go type t, registering loop variables.
func (x *Exec) havoc(st *State, hint string, t types.Type, old Value, get func(st *State, phis []Value) Value, lv *[]*loopVar, phi, owned, shared bool) Value {
	term := func(s *State, p []Value) *Term { return x.tm(s, get(s, p), t) }
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Slice:
		es := sortOf(u.Elem())
		c := Fresh(hint, SeqOf(es))
		*lv = append(*lv, &loopVar{c: c, get: term, name: hint, phi: phi})
		nl := Fresh(hint+"_nil", SBool)
		*lv = append(*lv, &loopVar{c: nl, name: hint + ".nil", phi: phi, get: func(s *State, p []Value) *Term {
			v, ok := get(s, p).(VSlice)
			if !ok {
				fail("slice expected")
			}
			return v.Nil
		}})
		st.assume(Imp(nl, Eq(Len(c), IntT(0))))
		l := st.alloc(&OSeq{S: c, Elem: u.Elem()})
		if o, ok := old.(VSlice); ok {
			st.link(o.Loc, l)
		}
		if shared {
			st.frozen[l] = true
		}
		return VSlice{Loc: l, Off: IntT(0), Len: Len(c), Nil: nl, Elem: u.Elem()}
	case *types.Pointer:
		if structOf(u.Elem()) == nil {
			fail("loop-carried pointer %s", t)
		}
		so := sortOf(t)
		if so.Kind != KADT {
			fail("loop-carried pointer %s", t)
		}
		c := Fresh(hint, so)
		*lv = append(*lv, &loopVar{c: c, get: term, name: hint, phi: phi})
		l := st.alloc(&OFolded{T: u.Elem(), Term: c})
		if !owned {
			st.frozen[l] = true
		}
		return VPtr{Loc: l}
	case *types.Map:
		so := sortOf(t)
		c := Fresh(hint, so)
		*lv = append(*lv, &loopVar{c: c, get: term, name: hint, phi: phi})
		l := st.alloc(&OMap{M: c, T: u})
		if !owned {
			st.frozen[l] = true
		}
		return VMap{Loc: l, T: u}
	case *types.Struct:
		v := VStruct{T: t}
		o, _ := old.(VStruct)
		for i := 0; i < u.NumFields(); i++ {
			i := i
			var ov Value
			if i < len(o.F) {
				ov = o.F[i]
			}
			v.F = append(v.F, x.havoc(st, hint+"."+u.Field(i).Name(), u.Field(i).Type(), ov, func(s *State, p []Value) Value {
				w, ok := get(s, p).(VStruct)
				if !ok {
					fail("struct expected")
				}
				return w.F[i]
			}, lv, phi, owned, shared))
		}
		return v
	case *types.Interface:
		if !isErrorType(t) {
			fail("loop-carried interface")
		}
	case *types.Basic:
	default:
		fail("loop-carried %s", t)
	}
	c := Fresh(hint, sortOf(t))
	*lv = append(*lv, &loopVar{c: c, get: term, name: hint, phi: phi})
	return VT{c}
}

type cutState struct {
	fr     *Frame
	st     *State
	phis   []Value
	lv     []*loopVar
	basePC int
	iterC  []*loopVar // iterator position/visited flags
}

// header builds the arbitrary-iteration state.
func (x *Exec) header(fr *Frame, b *ssa.BasicBlock, entryPhis []Value, st0 *State, W, FZ map[wkey]bool, changed []bool) *cutState {
	cs := &cutState{fr: fr.clone(), st: st0.clone()}
	for i, ev := range entryPhis {
		ph := b.Instrs[i].(*ssa.Phi)
		i := i
		if !changed[i] {
			cs.phis = append(cs.phis, ev)
			continue
		}
		name := ph.Comment
		if name == "" {
			name = ph.Name()
		}
		v := x.havoc(cs.st, name, ph.Type(), ev, func(_ *State, p []Value) Value { return p[i] }, &cs.lv, true, false, st0.shared(ev) || FZ[wkey{-1, i}])
		cs.phis = append(cs.phis, v)
	}
	var ws []wkey
	for w := range W {
		ws = append(ws, w)
	}
	sort.Slice(ws, func(i, j int) bool {
		if ws[i].loc != ws[j].loc {
			return ws[i].loc < ws[j].loc
		}
		return ws[i].field < ws[j].field
	})
	for _, w := range ws {
		loc := w.loc
		if w.field == -3 {
			cs.st.frozen[loc] = true
			continue
		}
		if w.field == -2 {
			cs.st.stale[loc] = "possible modification in an earlier iteration"
			continue
		}
		switch o := cs.st.heap[loc].(type) {
		case *OStruct, *OFolded:
			if w.field < 0 {
				f := x.structAt(cs.st, loc)
				n := &OStruct{T: f.T}
				stt := structOf(f.T)
				for i := range f.F {
					i := i
					n.F = append(n.F, x.havoc(cs.st, stt.Field(i).Name(), stt.Field(i).Type(), f.F[i], func(s *State, _ []Value) Value { return x.structAt(s, loc).F[i] }, &cs.lv, false, true, st0.shared(f.F[i]) || FZ[w]))
				}
				cs.st.heap[loc] = n
				continue
			}
			f := x.structAt(cs.st, loc)
			stt := structOf(f.T)
			n := &OStruct{T: f.T, F: append([]Value(nil), f.F...)}
			i := w.field
			n.F[i] = x.havoc(cs.st, stt.Field(i).Name(), stt.Field(i).Type(), f.F[i], func(s *State, _ []Value) Value { return x.structAt(s, loc).F[i] }, &cs.lv, false, true, st0.shared(f.F[i]) || FZ[w])
			cs.st.heap[loc] = n
			_ = o
		case *OCell:
			v := x.havoc(cs.st, "cell", o.T, o.V, func(s *State, _ []Value) Value { return s.heap[loc].(*OCell).V }, &cs.lv, true, true, st0.shared(o.V) || FZ[w])
			cs.st.heap[loc] = &OCell{V: v, T: o.T}
		case *OVec, *OSeq:
			var sq *OSeq
			if _, ok := o.(*OVec); ok {
				sq = x.vecToSeq(cs.st, loc)
			} else {
				sq = o.(*OSeq)
			}
			c, eq := FreshLen("arr", sq.S.Sort, Len(sq.S))
			cs.st.assume(eq)
			cs.st.heap[loc] = &OSeq{S: c, Elem: sq.Elem}
			cs.lv = append(cs.lv, &loopVar{c: c, name: "arr", phi: true, get: func(s *State, _ []Value) *Term {
				if _, ok := s.heap[loc].(*OVec); ok {
					return x.vecToSeq(s, loc).S
				}
				return s.heap[loc].(*OSeq).S
			}})
		case *OMap, *OCMap:
			m := x.toOMap(cs.st, loc)
			c := Fresh("map", m.M.Sort)
			cs.st.heap[loc] = &OMap{M: c, T: m.T}
			cs.lv = append(cs.lv, &loopVar{c: c, name: "map", phi: true, get: func(s *State, _ []Value) *Term { return x.toOMap(s, loc).M }})
		case *OIter:
			switch o.Kind {
			case "str", "map":
				c := Fresh("pos", SInt)
				cs.st.assume(Le(IntT(0), c))
				cs.st.assume(Le(c, Len(o.S)))
				n := *o
				n.Pos = c
				cs.st.heap[loc] = &n
				lv := &loopVar{c: c, name: "pos", phi: true, get: func(s *State, _ []Value) *Term { return s.heap[loc].(*OIter).Pos }}
				cs.lv = append(cs.lv, lv)
			case "cmap":
				n := *o
				om := o.M.(*OCMap)
				n.VisB = nil
				for i := range om.K {
					i := i
					c := Fresh("vis", SBool)
					n.VisB = append(n.VisB, c)
					lv := &loopVar{c: c, name: "vis", get: func(s *State, _ []Value) *Term { return s.heap[loc].(*OIter).visited(i) }}
					cs.lv = append(cs.lv, lv)
					cs.iterC = append(cs.iterC, lv)
				}
				n.Vis = nil
				cs.st.heap[loc] = &n
			}
		case *OBig:
			if o.V == nil {
				fail("big.Int changed in a loop")
			}
			c := Fresh("big", o.V.Sort)
			cs.st.heap[loc] = &OBig{V: c}
			cs.lv = append(cs.lv, &loopVar{c: c, name: "big", get: func(s *State, _ []Value) *Term { return s.heap[loc].(*OBig).V }})
		case *OBuf:
			c := Fresh("buf", o.S.Sort)
			cs.st.heap[loc] = &OBuf{S: c}
			cs.lv = append(cs.lv, &loopVar{c: c, name: "buf", phi: true, get: func(s *State, _ []Value) *Term { return s.heap[loc].(*OBuf).S }})
		case *ODec:
			c := Fresh("dpos", SInt)
			cs.st.assume(Le(o.Pos, c))
			cs.st.heap[loc] = &ODec{S: o.S, Pos: c}
			cs.lv = append(cs.lv, &loopVar{c: c, name: "dpos", phi: true, get: func(s *State, _ []Value) *Term { return s.heap[loc].(*ODec).Pos }})
		default:
			fail("loop writes object %T", o)
		}
	}
	for i := range entryPhis {
		cs.fr.vals[b.Instrs[i].(*ssa.Phi)] = cs.phis[i]
	}
	cs.basePC = len(cs.st.pc)
	return cs
}

func (o *OIter) visited(i int) *Term {
	if o.VisB != nil {
		return o.VisB[i]
	}
	k := o.M.(*OCMap).K[i]
	for _, v := range o.Vis {
		if v == k {
			return True
		}
	}
	return False
}

func (x *Exec) structAt(st *State, loc int) *OStruct {
	switch o := st.heap[loc].(type) {
	case *OStruct:
		return o
	case *OFolded:
		return x.unfold(st, loc)
	}
	fail("struct expected at location, got %T", st.heap[loc])
	return nil
}

func (x *Exec) slotShared(st *State, w wkey) bool {
	switch o := st.heap[w.loc].(type) {
	case *OStruct:
		for i, f := range o.F {
			if (w.field == -1 || w.field == i) && st.shared(f) {
				return true
			}
		}
	case *OCell:
		return st.shared(o.V)
	}
	return false
}

// at evaluates a candidate over header constants in another state.
func (x *Exec) at(lv []*loopVar, t *Term, st *State, phis []Value) (r *Term, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(unsup); is {
				r, ok = nil, false
				return
			}
			panic(e)
		}
	}()
	m := map[*Term]*Term{}
	used := map[*Term]bool{}
	constsOf(t, used)
	for _, v := range lv {
		if used[v.c] {
			m[v.c] = v.get(st, phis)
		}
	}
	return Subst(t, m), true
}

func (x *Exec) cutLoop(fr *Frame, b *ssa.BasicBlock, phis []Value, st0 *State) []Outcome {
	outer := x.memo
	var id string
	if outer != nil {
		h := uint64(0)
		for _, v := range phis {
			if t, ok := v.(VT); ok {
				h = h*1099511628211 + shapeOf(t.T)
			}
		}
		id = fmt.Sprintf("%s/%s@%d:%x", outer.path, fr.fn.Name(), fr.loops[b].no, h)
		outer.visits[id]++
		id = fmt.Sprintf("%s#%d", id, outer.visits[id])
	}
	x.memo = nil // what the trial runs learn holds for them only
	defer func() { x.memo = outer }()
	W := map[wkey]bool{}
	FZ := map[wkey]bool{} // slots whose slice may be visible elsewhere after an iteration; {-1, i} is phi i
	changed := make([]bool, len(phis))
	baseLoc := locCounter
	_ = baseLoc
	var cs *cutState
	exists := func(l int) bool { _, ok := st0.heap[l]; return ok }
	trial := func(cands []*Cand) []Outcome {
		cs = x.header(fr, b, phis, st0, W, FZ, changed)
		for _, c := range cands {
			cs.st.assume(c.t)
		}
		ctx := &cutCtx{trial: true, lv: cs.lv, pcLen: len(cs.st.pc)}
		cs.fr.cut[b] = ctx
		w := map[wkey]bool{}
		x.writes = append(x.writes, w)
		x.silent++
		quick := x.quick
		x.quick = true
		outs := x.run(cs.fr.clone(), b, len(phis), cs.st.clone())
		x.quick = quick
		x.silent--
		x.writes = x.writes[:len(x.writes)-1]
		grew := false
		for k := range w {
			if exists(k.loc) && !W[k] {
				if k.field >= 0 && W[wkey{k.loc, -1}] {
					continue
				}
				W[k] = true
				grew = true
			}
		}
		for _, o := range outs {
			if o.kind == "back" && o.hdr == b {
				for i := range phis {
					if !changed[i] && !valEq(o.phis[i], phis[i]) {
						changed[i] = true
						grew = true
					}
					if k := (wkey{-1, i}); changed[i] && !FZ[k] && o.st.shared(o.phis[i]) {
						FZ[k] = true
						grew = true
					}
				}
				for w := range W {
					if !FZ[w] && x.slotShared(o.st, w) {
						FZ[w] = true
						grew = true
					}
				}
			}
		}
		if grew {
			return nil
		}
		if outs == nil {
			outs = []Outcome{}
		}
		return outs
	}
	var outs []Outcome
	for n := 0; ; n++ {
		if n > 30 {
			fail("loop state does not stabilise")
		}
		if outs = trial(nil); outs != nil {
			break
		}
	}
	// records the loop body looks into are unfolded before the loop, so that
	// invariants can speak about their fields
	for n := 0; n < 4; n++ {
		var locs []int
		for l, o := range st0.heap {
			if f, ok := o.(*OFolded); ok && !W[wkey{l, -1}] && structOf(f.T) != nil {
				for _, out := range outs {
					if _, ok := out.st.heap[l].(*OStruct); ok {
						locs = append(locs, l)
						break
					}
				}
			}
		}
		sort.Ints(locs)
		did := false
		for _, l := range locs {
			t := st0.heap[l].(*OFolded).Term
			if isCons(t) || prove(&Query{Hyps: append([]*Term(nil), st0.pc...), Goal: Not(adtIsNil(t)), Skip: x.skip()}, 0).Status == "unsat" {
				x.unfold(st0, l)
				did = true
			}
		}
		if !did {
			break
		}
		for k := 0; ; k++ {
			if k > 30 {
				fail("loop state does not stabilise")
			}
			if outs = trial(nil); outs != nil {
				break
			}
		}
	}
	// candidates over the header constants of this cs
	baseCS := cs
	cands := x.candidates(fr, b, phis, st0, cs, outs)
	if x.quick {
		// an enclosing loop is only being explored: what the templates say is not needed
		var keep []*Cand
		for _, c := range cands {
			if !c.user {
				keep = append(keep, c)
			}
		}
		cands = keep
	}
	var ckeys []string
	failed := map[string]bool{}
	if outer != nil {
		failed = outer.failed
		ckeys = outer.keys(id, cands)
		var keep []*Cand
		for i, c := range cands {
			if !failed[ckeys[i]] {
				c.key = ckeys[i]
				keep = append(keep, c)
			} else {
				memoHits++
			}
		}
		cands = keep
	}
	inner := func() *loopMemo {
		if !useMemo {
			return nil
		}
		return &loopMemo{failed: failed, visits: map[string]int{}, path: id}
	}
	// the header constants must stay fixed across rounds: rebuild a map from old
	// constants to the new round's constants each time.
	rename := func(ts []*Cand, from, to *cutState) []*Cand {
		m := map[*Term]*Term{}
		for i := range from.lv {
			m[from.lv[i].c] = to.lv[i].c
		}
		var r []*Cand
		for _, c := range ts {
			r = append(r, &Cand{name: c.name, t: Subst(c.t, m), user: c.user, key: c.key})
		}
		return r
	}
	// initiation
	ok := make([]bool, len(cands))
	var wg sync.WaitGroup
	for i, c := range cands {
		sc := st0.clone()
		t, good := x.at(cs.lv, c.t, sc, phis)
		if !good {
			continue
		}
		if t == True {
			ok[i] = true
			continue
		}
		q := &Query{Hyps: append([]*Term(nil), sc.pc...), Goal: t, Skip: x.skip(), Fallback: c.user}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ok[i] = prove(q, 0).Status == "unsat"
		}(i)
	}
	wg.Wait()
	var keep []*Cand
	for i, c := range cands {
		if ok[i] {
			keep = append(keep, c)
			continue
		}
		if c.key != "" {
			failed[c.key] = true
		}
		if os.Getenv("GOVER_LOOPS") != "" {
			fmt.Fprintf(os.Stderr, "loop %s@%d: not initial: %s  %s\n", fr.fn.Name(), fr.loops[b].no, c.name, c.t)
		}
	}
	cands = keep
	var wf map[wkey]bool
	for round := 0; ; round++ {
		if round > 25 {
			cands = nil
		}
		// assume cands at header
		var cs2 *cutState
		func() {
			cs2 = x.header(fr, b, phis, st0, W, FZ, changed)
			r := rename(cands, baseCS, cs2)
			for _, c := range r {
				cs2.st.assume(c.t)
			}
			ctx := &cutCtx{trial: true, lv: cs2.lv, pcLen: len(cs2.st.pc)}
			cs2.fr.cut[b] = ctx
			x.silent++
			wf = map[wkey]bool{}
			x.writes = append(x.writes, wf)
			x.memo = inner()
			outs = x.run(cs2.fr.clone(), b, len(phis), cs2.st.clone())
			x.memo = nil
			x.writes = x.writes[:len(x.writes)-1]
			x.silent--
			cands = r
			baseCS = cs2
		}()
		good := make([]bool, len(cands))
		for i := range good {
			good[i] = true
		}
		var mu sync.Mutex
		for _, o := range outs {
			if o.kind != "back" || o.hdr != b {
				continue
			}
			var ts []*Term
			var idx []int
			for i, c := range cands {
				if !good[i] {
					continue
				}
				t, g := x.at(cs2.lv, c.t, o.st, o.phis)
				if !g {
					good[i] = false
					continue
				}
				if t == True {
					continue
				}
				ts = append(ts, t)
				idx = append(idx, i)
			}
			if len(ts) == 0 {
				continue
			}
			hy := append([]*Term(nil), o.st.pc...)
			if len(ts) > 1 && prove(&Query{Hyps: hy, Goal: And(ts...), Skip: x.skip()}, 0).Status == "unsat" {
				continue
			}
			var wg sync.WaitGroup
			for k := range ts {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					if prove(&Query{Hyps: hy, Goal: ts[k], Skip: x.skip(), Fallback: cands[idx[k]].user}, 0).Status != "unsat" {
						mu.Lock()
						good[idx[k]] = false
						mu.Unlock()
					}
				}(k)
			}
			wg.Wait()
		}
		var keep []*Cand
		for i, c := range cands {
			if good[i] {
				keep = append(keep, c)
				continue
			}
			if c.key != "" {
				failed[c.key] = true
			}
			if os.Getenv("GOVER_LOOPS") != "" {
				fmt.Fprintf(os.Stderr, "loop %s@%d: not preserved: %s  %s\n", fr.fn.Name(), fr.loops[b].no, c.name, c.t)
			}
		}
		if len(keep) == len(cands) {
			break
		}
		cands = keep
	}
	if os.Getenv("GOVER_LOOPS") != "" {
		for _, c := range cands {
			fmt.Fprintf(os.Stderr, "loop %s@%d: KEPT %s  %s\n", fr.fn.Name(), fr.loops[b].no, c.name, c.t)
		}
	}
	loopName := fmt.Sprintf("%s/loop%d", funcKey(fr.fn), fr.loops[b].no)
	if x.silent == 0 {
		for _, c := range cands {
			x.obls = append(x.obls, &Obl{Name: loopName + "/invariant " + c.name, Kind: "invariant", Fn: funcKey(x.root), Goal: c.t, Proved: "z3"})
		}
	}
	for k := range wf {
		if exists(k.loc) && !W[k] && !(k.field >= 0 && W[wkey{k.loc, -1}]) {
			x.oblige(st0.clone(), "frame", loopName+"/loop frame is complete", False, 0)
		}
	}
	// termination: some measure decreases and is bounded below
	x.termination(fr, b, baseCS, outs, loopName)
	// final pass with obligations recorded; back edges end here
	final := x.header(fr, b, phis, st0, W, FZ, changed)
	for _, c := range rename(cands, baseCS, final) {
		final.st.assume(c.t)
	}
	final.fr.cut[b] = &cutCtx{lv: final.lv, pcLen: len(final.st.pc)}
	for _, w := range x.writes {
		for k := range W {
			w[k] = true
		}
	}
	// what follows the loop is run in here too, under the enclosing loop's memory
	x.memo = inner()
	res := x.run(final.fr, b, len(phis), final.st)
	var out []Outcome
	for _, o := range res {
		if o.kind == "back" && o.hdr == b {
			for i := range phis {
				if !changed[i] && !valEq(o.phis[i], phis[i]) {
					x.oblige(st0.clone(), "frame", loopName+"/loop frame is complete", False, 0)
				}
			}
			continue
		}
		out = append(out, o)
	}
	return out
}

func (x *Exec) skip() map[string]bool { return x.skipLemmas }

func (x *Exec) termination(fr *Frame, b *ssa.BasicBlock, cs *cutState, outs []Outcome, name string) {
	var backs []Outcome
	for _, o := range outs {
		if o.kind == "back" && o.hdr == b {
			backs = append(backs, o)
		}
	}
	if len(backs) == 0 {
		return
	}
	if len(cs.iterC) > 0 { // iteration over a finite concrete map
		return
	}
	for _, v := range cs.lv {
		if v.name == "pos" && v.c.Sort == SInt { // iterator: bounded by its sequence
			return
		}
	}
	// candidate measures: differences in path conditions at back edges
	var ms []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if !seen[t] {
			seen[t] = true
			ms = append(ms, t)
		}
	}
	hc := map[*Term]bool{}
	for _, v := range cs.lv {
		hc[v.c] = true
	}
	for _, h := range backs[0].st.pc {
		if h.Op == "<=" {
			us := map[*Term]bool{}
			constsOf(h, us)
			rel := false
			for k := range us {
				if hc[k] {
					rel = true
				}
			}
			if rel {
				add(Sub(h.Args[1], h.Args[0]))
			}
		}
	}
	for _, v := range cs.lv {
		if v.c.Sort == SInt {
			add(v.c)
			for _, k := range ms {
				_ = k
			}
		}
		if v.c.Sort.Kind == KSeq {
			add(Len(v.c))
		}
	}
	var lens func(t *Term)
	lseen := map[*Term]bool{}
	lens = func(t *Term) {
		if lseen[t] || t.bound {
			return
		}
		lseen[t] = true
		if t.Op == "len" {
			us := map[*Term]bool{}
			constsOf(t, us)
			for k := range us {
				if hc[k] {
					add(t)
					break
				}
			}
		}
		for _, a := range t.Args {
			lens(a)
		}
	}
	for _, h := range backs[0].st.pc {
		lens(h)
	}
	if m := x.con; m != nil {
		for _, cl := range m.get("variant") {
			if t := x.evalAt(fr, cs, cl.Expr); t != nil {
				add(t)
			}
		}
	}
	for _, m := range ms {
		all := true
		for _, o := range backs {
			m2, ok := x.at(cs.lv, m, o.st, o.phis)
			if !ok {
				all = false
				break
			}
			if prove(&Query{Hyps: append([]*Term(nil), o.st.pc...), Goal: And(Le(IntT(0), m), Lt(m2, m)), Skip: x.skip()}, 0).Status != "unsat" {
				all = false
				break
			}
		}
		if all {
			if x.silent == 0 {
				x.obls = append(x.obls, &Obl{Name: name + "/terminates", Kind: "termination", Fn: funcKey(x.root), Goal: True, Proved: "z3"})
			}
			return
		}
	}
	if x.silent == 0 {
		x.oblige(cs.st.clone(), "termination", name+"/terminates", False, 0)
	}
}

func (x *Exec) evalAt(fr *Frame, cs *cutState, e ast.Expr) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case unsup, specErr:
				t = nil
				return
			}
			panic(r)
		}
	}()
	env := x.envAt(fr, cs)
	return env.evalT(e, SInt)
}

func (x *Exec) envAt(fr *Frame, cs *cutState) *Env {
	env := &Env{db: x.db, vars: map[string]Value{}, st: cs.st.clone(), old: x.entry, where: "loop"}
	if x.con != nil {
		env.pkg = x.con.Pkg
	}
	for k, v := range x.env0 {
		env.vars[k] = v
	}
	return env
}

// candidates builds candidate invariants over the header constants.
func (x *Exec) candidates(fr *Frame, b *ssa.BasicBlock, phis []Value, st0 *State, cs *cutState, outs []Outcome) []*Cand {
	var cands []*Cand
	seen := map[*Term]bool{}
	seenA := map[string]bool{}
	add := func(name string, t *Term, user bool) {
		if t == nil || t == True || seen[t] {
			return
		}
		seen[t] = true
		if k := alphaKey(t); k != "" {
			if seenA[k] {
				return
			}
			seenA[k] = true
		}
		cands = append(cands, &Cand{name: name, t: t, user: user})
	}
	hc := map[*Term]bool{}
	for _, v := range cs.lv {
		hc[v.c] = true
	}
	// other in-scope integer terms (bounds): entry values, lengths
	type tv struct {
		t    *Term
		name string
	}
	var others []tv
	otherSeen := map[*Term]bool{}
	addOther := func(t *Term, n string) {
		if t != nil && !otherSeen[t] && t.size < 60 {
			otherSeen[t] = true
			others = append(others, tv{t, n})
		}
	}
	type sv struct {
		v ssa.Value
		n string
	}
	var svs []sv
	for v := range fr.vals {
		svs = append(svs, sv{v, v.Name()})
	}
	sort.Slice(svs, func(i, j int) bool {
		if len(svs[i].n) != len(svs[j].n) {
			return len(svs[i].n) < len(svs[j].n)
		}
		return svs[i].n < svs[j].n
	})
	for _, s := range svs {
		if ph, ok := s.v.(*ssa.Phi); ok && ph.Block() == b {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsup); !ok {
						panic(r)
					}
				}
			}()
			switch w := fr.vals[s.v].(type) {
			case VT:
				addOther(w.T, s.n)
			case VSlice:
				addOther(cs.st.abs(w, s.v.Type()), s.n)
			case VMap:
				addOther(cs.st.abs(w, s.v.Type()), s.n)
			case VPtr:
				if w.Loc != 0 && len(w.Path) == 0 {
					if o, ok := cs.st.heap[w.Loc].(*OFolded); ok {
						addOther(o.Term, s.n)
					}
					if o, ok := cs.st.heap[w.Loc].(*OStruct); ok {
						stt := structOf(o.T)
						for i, f := range o.F {
							switch fv := f.(type) {
							case VT:
								addOther(fv.T, s.n+"."+stt.Field(i).Name())
							case VSlice:
								addOther(cs.st.abs(fv, stt.Field(i).Type()), s.n+"."+stt.Field(i).Name())
							case VMap:
								addOther(cs.st.abs(fv, stt.Field(i).Type()), s.n+"."+stt.Field(i).Name())
							}
						}
					}
				}
			}
		}()
	}
	// parents' scopes are not visible: inlined helpers see their own arguments
	for k, v := range x.env0 {
		_ = k
		if w, ok := v.(VT); ok {
			addOther(w.T, k)
		}
	}
	// iterators' sequences
	for _, s := range svs {
		if it, ok := fr.vals[s.v].(VIter); ok {
			if o, ok := cs.st.heap[it.Loc].(*OIter); ok && o.S != nil {
				addOther(o.S, s.n)
				if o.Pos != nil {
					addOther(Sub(o.Pos, IntT(1)), s.n+".pos-1") // keys dealt with before the current one
				}
			}
		}
	}
	// generic integer bounds
	for _, v := range cs.lv {
		if v.c.Sort != SInt || v.name == "pos" {
			continue
		}
		if e, ok := x.at(cs.lv, v.c, st0.clone(), phis); ok {
			add(v.name+">=entry", Le(e, v.c), false)
			add(v.name+"<=entry", Le(v.c, e), false)
		}
		add(v.name+">=0", Le(IntT(0), v.c), false)
		add(v.name+">=-1", Le(IntT(-1), v.c), false)
		for _, o := range others {
			switch {
			case o.t.Sort == SInt:
				if _, isC := IntVal(o.t); isC {
					continue
				}
				add(v.name+"<="+o.name, Le(v.c, o.t), false)
				add(v.name+"<"+o.name, Lt(v.c, o.t), false)
			case o.t.Sort.Kind == KSeq:
				add(v.name+"<=len "+o.name, Le(v.c, Len(o.t)), false)
				add(v.name+"<len "+o.name, Lt(v.c, Len(o.t)), false)
			}
		}
		// bounds taken from header conditions of outgoing paths
		for _, o := range outs {
			for k := cs.basePC; k < len(o.st.pc); k++ {
				h := o.st.pc[k]
				if h.Op == "<=" && h.size < 40 {
					if hasOp(h, "div") || hasOp(h, "mod") {
						continue
					}
					add(v.name+" path bound", h, false)
					// weakened by one: p < n at the guard gives p <= n at the header
					add(v.name+" path bound+1", Le(Sub(h.Args[0], IntT(1)), h.Args[1]), false)
				}
			}
		}
	}
	for _, v := range cs.lv {
		if v.c.Sort.Kind == KSeq {
			for _, w := range cs.lv {
				if w.c.Sort == SInt {
					add("len "+v.name+"="+w.name, Eq(Len(v.c), w.c), false)
					add("len "+v.name+"="+w.name+"+1", Eq(Len(v.c), Add(w.c, IntT(1))), false)
					if e, ok := x.at(cs.lv, Len(v.c), st0.clone(), phis); ok {
						if f, ok := x.at(cs.lv, w.c, st0.clone(), phis); ok && (e != IntT(0) || f != IntT(0)) {
							add("len "+v.name+" grows with "+w.name, Eq(Len(v.c), Add(e, Sub(w.c, f))), false)
						}
					}
				}
			}
		}
	}
	// stay conditions
	x.stayConds(b, cs, outs, st0, phis, add)
	x.fillConds(b, cs, outs, st0, phis, add)
	// contract templates
	x.templates(fr, b, cs, st0, phis, func(n string, t *Term) { add(n, t, true) }, func(s *Sort) []*Term {
		var r []*Term
		for _, o := range others {
			if o.t.Sort == s {
				r = append(r, o.t)
			}
		}
		return r
	}, func() map[*Term]bool {
		have := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if !have[t] {
				have[t] = true
				for _, a := range t.Args {
					walk(a)
				}
			}
		}
		for _, o := range others {
			walk(o.t)
		}
		for _, v := range cs.lv {
			walk(v.c)
		}
		for _, h := range cs.st.pc {
			walk(h)
		}
		return have
	})
	// keep candidates that mention some header constant
	var r []*Cand
	for _, c := range cands {
		us := map[*Term]bool{}
		constsOf(c.t, us)
		for k := range us {
			if hc[k] {
				r = append(r, c)
				break
			}
		}
	}
	return r
}

// lockstep: the other integer variables that keep their distance from v on
// every way round the loop, expressed through v.
// unitStep tells that no iteration is known to move v by more than one: only
// then can every value between its first and its current one have been seen
func (x *Exec) unitStep(cs *cutState, outs []Outcome, b *ssa.BasicBlock, v *loopVar) bool {
	for _, o := range outs {
		if o.kind != "back" || o.hdr != b {
			continue
		}
		t2, ok := x.at(cs.lv, v.c, o.st.clone(), o.phis)
		if !ok {
			continue
		}
		if d, isC := IntVal(Sub(t2, v.c)); isC && (d > 1 || d < -1) {
			return false
		}
	}
	return true
}

func hasOp(t *Term, op string) bool {
	if t.Op == op {
		return true
	}
	for _, a := range t.Args {
		if hasOp(a, op) {
			return true
		}
	}
	return false
}

func (x *Exec) lockstep(b *ssa.BasicBlock, cs *cutState, outs []Outcome, st0 *State, phis []Value, v *loopVar) (map[*Term]*Term, map[*Term]*Term) {
	m, eqs := map[*Term]*Term{}, map[*Term]*Term{}
	ev, ok := x.at(cs.lv, v.c, st0.clone(), phis)
	if !ok || v.c.Sort != SInt {
		return m, eqs
	}
	for _, w := range cs.lv {
		if w == v || w.c.Sort != SInt {
			continue
		}
		ew, ok := x.at(cs.lv, w.c, st0.clone(), phis)
		if !ok {
			continue
		}
		n := 0
		for _, o := range outs {
			if o.kind != "back" || o.hdr != b {
				continue
			}
			n++
			a, ok1 := x.at(cs.lv, v.c, o.st.clone(), o.phis)
			c, ok2 := x.at(cs.lv, w.c, o.st.clone(), o.phis)
			if !ok1 || !ok2 || Sub(c, a) != Sub(w.c, v.c) {
				n = -1 << 30
			}
		}
		if n > 0 {
			t := Add(v.c, Sub(ew, ev))
			m[w.c] = t
			eqs[w.c] = Eq(w.c, t)
		}
	}
	return m, eqs
}

// stayConds: what held on the way round the loop for iteration j still holds
// for all earlier iterations.
func (x *Exec) stayConds(b *ssa.BasicBlock, cs *cutState, outs []Outcome, st0 *State, phis []Value, add func(string, *Term, bool)) {
	known := map[*Term]bool{}
	for _, h := range cs.st.pc {
		constsOf(h, known)
	}
	for _, v := range cs.lv {
		known[v.c] = true
	}
	var cmapDelta []map[int][]*Term
	for _, o := range outs {
		if o.kind != "back" || o.hdr != b {
			continue
		}
		_ = o
		break
	}
	_ = cmapDelta
	// cmap iteration: per key
	if len(cs.iterC) > 0 {
		per := map[int]*Term{}
		for _, o := range outs {
			if o.kind != "back" || o.hdr != b {
				continue
			}
			for i, lv := range cs.iterC {
				if lv.get(o.st, o.phis) == True {
					d := True
					for k := cs.basePC; k < len(o.st.pc); k++ {
						h := o.st.pc[k]
						us := map[*Term]bool{}
						constsOf(h, us)
						bad := false
						for _, w := range cs.lv {
							if us[w.c] {
								bad = true
							}
						}
						if !bad {
							d = And(d, h)
						}
					}
					if p, ok := per[i]; ok {
						per[i] = Or(p, d)
					} else {
						per[i] = d
					}
				}
			}
		}
		for i, d := range per {
			add(fmt.Sprintf("visited key %d stays", i), Imp(cs.iterC[i].c, d), false)
		}
		return
	}
	// integer-indexed iteration
	for _, v := range cs.lv {
		if v.c.Sort != SInt {
			continue
		}
		e, ok := x.at(cs.lv, v.c, st0.clone(), phis)
		if !ok {
			continue
		}
		if !x.unitStep(cs, outs, b, v) {
			continue
		}
		var disj *Term
		okAll := true
		ls, _ := x.lockstep(b, cs, outs, st0, phis, v)
		for _, o := range outs {
			if o.kind != "back" || o.hdr != b {
				continue
			}
			d := True
			for k := cs.basePC; k < len(o.st.pc); k++ {
				h := o.st.pc[k]
				if h.Op == "forall" || h.Op == "exists" || h.size > 200 {
					continue
				}
				h = Subst(h, ls)
				us := map[*Term]bool{}
				constsOf(h, us)
				if !us[v.c] {
					continue
				}
				bad := false
				for u := range us {
					if !known[u] {
						bad = true
					}
					for _, w := range cs.lv {
						if w != v && w.c == u {
							bad = true
						}
					}
				}
				if !bad {
					d = And(d, h)
				}
			}
			if disj == nil {
				disj = d
			} else {
				disj = Or(disj, d)
			}
		}
		if !okAll || disj == nil || disj == True {
			continue
		}
		j := BoundVar("j", SInt)
		body := Subst(disj, map[*Term]*Term{v.c: j})
		rng := And(Le(e, j), Lt(j, v.c))
		// quantify over the absolute position when the body reads s[off+j]
		if off := indexOffset(body, j); off != nil {
			k := BoundVar("k", SInt)
			m := map[*Term]*Term{j: Sub(k, off)}
			add("stay "+v.name+" (shifted)", Forall([]*Term{k}, nil, Imp(Subst(rng, m), Subst(body, m))), false)
		}
		add("stay "+v.name, Forall([]*Term{j}, nil, Imp(rng, body)), false)
		// descending loops
		rng2 := And(Lt(v.c, j), Le(j, e))
		add("stay(down) "+v.name, Forall([]*Term{j}, nil, Imp(rng2, body)), false)
	}
}

// fillConds: contents of arrays written (or sequences extended) at the
// iteration index.
func (x *Exec) fillConds(b *ssa.BasicBlock, cs *cutState, outs []Outcome, st0 *State, phis []Value, add func(string, *Term, bool)) {
	known := map[*Term]bool{}
	for _, h := range cs.st.pc {
		constsOf(h, known)
	}
	entry := map[*Term]*Term{}
	isLV := map[*Term]bool{}
	for _, v := range cs.lv {
		isLV[v.c] = true
		if e, ok := x.at(cs.lv, v.c, st0.clone(), phis); ok {
			entry[v.c] = e
		}
	}
	for _, v := range cs.lv {
		if v.c.Sort != SInt || entry[v.c] == nil {
			continue
		}
		e := entry[v.c]
		ls, eqs := x.lockstep(b, cs, outs, st0, phis, v)
		for _, w := range cs.lv {
			if eqs[w.c] != nil {
				add("lockstep "+v.name+" "+w.name, eqs[w.c], false)
			}
		}
		if !x.unitStep(cs, outs, b, v) {
			continue
		}
		// conditions of a back path that speak about v only
		cond := func(o Outcome) *Term {
			d := True
			for k := cs.basePC; k < len(o.st.pc); k++ {
				h := o.st.pc[k]
				if h.Op == "forall" || h.Op == "exists" || h.size > 200 {
					continue
				}
				h = Subst(h, ls)
				us := map[*Term]bool{}
				constsOf(h, us)
				ok := us[v.c]
				for u := range us {
					if u != v.c && (isLV[u] && u.Sort.Kind != KSeq || !known[u] && !isLV[u]) {
						ok = false
					}
				}
				if ok {
					d = And(d, h)
				}
			}
			return d
		}
		for _, w := range cs.lv {
			if w.c.Sort.Kind != KSeq || entry[w.c] == nil {
				continue
			}
			for _, o := range outs {
				if o.kind != "back" || o.hdr != b {
					continue
				}
				t2, ok := x.at(cs.lv, w.c, o.st.clone(), o.phis)
				if !ok {
					continue
				}
				t2 = Subst(t2, ls)
				k := BoundVar("k", SInt)
				toEntry := func(t, iv *Term) *Term {
					m := map[*Term]*Term{v.c: iv}
					for _, a := range cs.lv {
						if a.c.Sort.Kind == KSeq && entry[a.c] != nil {
							m[a.c] = entry[a.c]
						}
					}
					return Subst(t, m)
				}
				usable := func(t *Term) bool {
					us := map[*Term]bool{}
					constsOf(t, us)
					for u := range us {
						if u != v.c && (isLV[u] && u.Sort.Kind != KSeq || !known[u] && !isLV[u]) {
							return false
						}
					}
					return true
				}
				switch {
				case t2 == w.c:
					for _, d := range []*Term{IntT(0), IntT(1)} {
						iv := Sub(k, d)
						c := toEntry(cond(o), iv)
						add("unwritten "+w.name, Forall([]*Term{k}, [][]*Term{{At(w.c, k)}}, Imp(And(Le(Add(e, d), k), Lt(k, Add(v.c, d)), c), Eq(At(w.c, k), At(entry[w.c], k)))), false)
					}
				case t2.Op == "upd" && t2.Args[0] == w.c:
					d := Sub(t2.Args[1], v.c)
					us := map[*Term]bool{}
					constsOf(d, us)
					bad := us[v.c]
					for u := range us {
						if isLV[u] {
							bad = true
						}
					}
					if bad || !usable(t2.Args[2]) {
						continue
					}
					iv := Sub(k, d)
					c := toEntry(cond(o), iv)
					val := toEntry(t2.Args[2], iv)
					add("fill "+w.name, Forall([]*Term{k}, [][]*Term{{At(w.c, k)}}, Imp(And(Le(Add(e, d), k), Lt(k, Add(v.c, d)), c), Eq(At(w.c, k), val))), false)
					tr := [][]*Term{{At(w.c, k)}}
					if val.Op == "at" && val.Args[1] == k && val.Args[0].Op == "menum" {
						tr = append(tr, []*Term{val})
					}
					add("fill(uncond) "+w.name, Forall([]*Term{k}, tr, Imp(And(Le(Add(e, d), k), Lt(k, Add(v.c, d))), Eq(At(w.c, k), val))), false)
					add("rest "+w.name, Forall([]*Term{k}, [][]*Term{{At(w.c, k)}}, Imp(And(Le(Add(v.c, d), k), Lt(k, Len(w.c))), Eq(At(w.c, k), At(entry[w.c], k)))), false)
				case t2.Op == "cat" && t2.Args[0] == w.c && len(t2.Args) == 2 && t2.Args[1].Op == "unit":
					if !usable(t2.Args[1].Args[0]) {
						continue
					}
					n0 := Len(entry[w.c])
					add("grow "+w.name, Eq(Len(w.c), Add(n0, Sub(v.c, e))), false)
					iv := Add(Sub(k, n0), e)
					for _, dd := range []*Term{IntT(0)} {
						iv2 := Add(iv, dd)
						val := toEntry(t2.Args[1].Args[0], iv2)
						add("fill "+w.name, Forall([]*Term{k}, [][]*Term{{At(w.c, k)}}, Imp(And(Le(n0, k), Lt(k, Len(w.c))), Eq(At(w.c, k), val))), false)
					}
					add("rest "+w.name, Forall([]*Term{k}, [][]*Term{{At(w.c, k)}}, Imp(And(Le(IntT(0), k), Lt(k, n0)), Eq(At(w.c, k), At(entry[w.c], k)))), false)
				}
			}
		}
		// j != t for every earlier iteration j
		for _, o := range outs {
			if o.kind != "back" || o.hdr != b {
				continue
			}
			for k := cs.basePC; k < len(o.st.pc); k++ {
				h := o.st.pc[k]
				if h.Op != "not" || h.Args[0].Op != "=" || h.Args[0].Args[0].Sort != SInt {
					continue
				}
				d := Sub(h.Args[0].Args[0], h.Args[0].Args[1])
				for _, t := range []*Term{Sub(v.c, d), Add(v.c, d)} {
					us := map[*Term]bool{}
					constsOf(t, us)
					if us[v.c] {
						continue
					}
					add("not yet "+v.name, Not(And(Le(e, t), Lt(t, v.c))), false)
				}
			}
		}
	}
}

func indexOffset(t, j *Term) *Term {
	var off *Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "at" && t.Args[1] != j {
			d := Sub(t.Args[1], j)
			if !d.bound && off == nil {
				off = d
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
	return off
}

// templates: contract 'loop' clauses. ?x:type ranges over loop-carried values
// (for ints also value+1), $y:type over other values in scope.
func (x *Exec) templates(fr *Frame, b *ssa.BasicBlock, cs *cutState, st0 *State, phis []Value, add func(string, *Term), others func(*Sort) []*Term, subterms func() map[*Term]bool) {
	var have map[*Term]bool // terms of the state at the header
	con := x.db.Contracts[funcKey(fr.fn)]
	if con == nil {
		con = x.con
	}
	var cls []Clause
	if con != nil {
		cls = append(cls, con.get("loop")...)
	}
	if con != x.con && x.con != nil {
		cls = append(cls, x.con.get("loop")...)
	}
	for ci, cl := range cls {
		src := cl.Src
		type mv struct {
			name  string
			sort  *Sort
			carry bool
		}
		var mvs []mv
		seen := map[string]bool{}
		out := ""
		pkg := con.Pkg
		for i := 0; i < len(src); {
			c := src[i]
			if (c == '?' || c == '$') && i+1 < len(src) && isIdent(src[i+1]) {
				j := i + 1
				for j < len(src) && isIdent(src[j]) {
					j++
				}
				nm := src[i+1 : j]
				pre := "mvq_"
				if c == '$' {
					pre = "mvd_"
				}
				if j < len(src) && src[j] == ':' {
					k := j + 1
					for k < len(src) {
						if src[k] == '[' && k+1 < len(src) && src[k+1] == ']' {
							k += 2
						} else if strings.HasPrefix(src[k:], "map[") && strings.Contains(src[k:], "]") {
							k += strings.Index(src[k:], "]") + 1
						} else if isIdent(src[k]) || src[k] == '*' || src[k] == '.' {
							k++
						} else {
							break
						}
					}
					if !seen[pre+nm] {
						seen[pre+nm] = true
						mvs = append(mvs, mv{pre + nm, x.db.resolveSort(src[j+1:k], pkg), c == '?'})
					}
					j = k
				}
				out += pre + nm
				i = j
				continue
			}
			out += string(c)
			i++
		}
		ex := parseExpr(out, cl.Line)
		// where(t1, ..., body): instantiate only where the terms occur in the state
		var where []ast.Expr
		if c, ok := ex.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "where" {
				where, ex = c.Args[:len(c.Args)-1], c.Args[len(c.Args)-1]
				if have == nil {
					have = subterms()
				}
			}
		}
		name := cl.Name
		if name == "" {
			name = fmt.Sprintf("t%d", ci)
		}
		// enumerate bindings
		var rec func(k int, vars map[string]Value, entry map[string]Value)
		count := 0
		rec = func(k int, vars, entry map[string]Value) {
			if count > 600 {
				return
			}
			if k == len(mvs) {
				if where == nil {
					count++
				}
				func() {
					defer func() {
						if r := recover(); r != nil {
							switch e := r.(type) {
							case specErr:
								if os.Getenv("GOVER_TEMPL") != "" {
									fmt.Fprintln(os.Stderr, "template:", e.msg)
								}
								return
							case unsup:
								return
							}
							panic(r)
						}
					}()
					env := x.envAt(fr, cs)
					env.pkg = pkg
					env.entry = entry
					// parameters of an inlined or contracted function by name
					if c2 := x.db.Contracts[funcKey(fr.fn)]; c2 != nil && len(c2.Params) == len(fr.fn.Params) {
						for i, p := range fr.fn.Params {
							if _, have := env.vars[c2.Params[i]]; !have {
								env.vars[c2.Params[i]] = fr.vals[p]
							}
						}
					}
					for n, v := range vars {
						env.vars[n] = v
					}
					for _, w := range where {
						if c, ok := w.(*ast.CallExpr); ok {
							// init(cond): the condition on the values at loop entry
							if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "init" {
								e2 := *env
								e2.vars = map[string]Value{}
								for n, v := range env.vars {
									e2.vars[n] = v
								}
								for n, v := range entry {
									e2.vars[n] = v
								}
								if e2.evalT(c.Args[0], SBool) != True {
									return
								}
								continue
							}
						}
						if !have[env.evalT(w, nil)] {
							if d := os.Getenv("GOVER_WHERE"); d != "" && d == fmt.Sprintf("%s@%d", name, fr.loops[b].no) {
								fmt.Fprintln(os.Stderr, "where:", d, env.evalT(w, nil))
							}
							return
						}
					}
					if where != nil {
						count++
					}
					add(name, env.evalT(ex, SBool))
				}()
				return
			}
			m := mvs[k]
			if m.carry {
				for _, lv := range cs.lv {
					if lv.c.Sort != m.sort {
						continue
					}
					es, ok := x.at(cs.lv, lv.c, st0.clone(), phis)
					if !ok {
						continue
					}
					vars[m.name] = VT{lv.c}
					entry[m.name] = VT{es}
					rec(k+1, vars, entry)
					if lv.c.Sort == SInt {
						vars[m.name] = VT{Add(lv.c, IntT(1))}
						entry[m.name] = VT{Add(es, IntT(1))}
						rec(k+1, vars, entry)
					}
				}
			} else {
				for _, t := range others(m.sort) {
					vars[m.name] = VT{t}
					rec(k+1, vars, entry)
				}
			}
			delete(vars, m.name)
		}
		rec(0, map[string]Value{}, map[string]Value{})
	}
}

func isIdent(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_'
}

// Inferring an inner loop again for every round of the outer one mostly repeats failed
// proofs: the hypotheses only shrink from round to round, so a candidate that failed
// before fails again. loopMemo remembers them by shape (fresh constants up to their
// numbering). Skipping a candidate is always sound; when a function fails with the
// memory, it is verified again without (see work).
type loopMemo struct {
	failed map[string]bool
	visits map[string]int
	path   string
}

var useMemo = true
var shapeTab = map[*Term]uint64{}
var shapeMu sync.Mutex

func shapeOf(t *Term) uint64 {
	shapeMu.Lock()
	defer shapeMu.Unlock()
	return shape1(t)
}

func shape1(t *Term) uint64 {
	if h, ok := shapeTab[t]; ok {
		return h
	}
	h := uint64(14695981039346656037)
	str := func(s string) {
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 1099511628211
		}
		h = (h ^ 0xff) * 1099511628211
	}
	str(t.Op)
	lit := t.Lit
	for i := 0; i < len(lit); i++ {
		if (lit[i] == '!' || lit[i] == '?') && t.Op != "lit" {
			j := i + 1
			for j < len(lit) && lit[j] >= '0' && lit[j] <= '9' {
				j++
			}
			if j == len(lit) {
				lit = lit[:i]
				break
			}
		}
	}
	str(lit)
	str(t.Sort.Name)
	if t.Int != nil {
		str(t.Int.String())
	}
	mix := func(k uint64) { h = (h ^ k) * 1099511628211; h ^= h >> 29 }
	switch t.Op {
	case "and", "or", "+", "=", "distinct", "*":
		var s uint64
		for _, a := range t.Args {
			k := shape1(a)
			s += k*k + 0x9e3779b97f4a7c15*k
		}
		mix(s)
	default:
		for _, a := range t.Args {
			mix(shape1(a))
		}
	}
	for _, v := range t.Vars {
		mix(shape1(v))
	}
	shapeTab[t] = h
	return h
}

// keys of the candidates of this visit of the loop
func (m *loopMemo) keys(id string, cands []*Cand) []string {
	n := map[string]int{}
	r := make([]string, len(cands))
	for i, c := range cands {
		k := fmt.Sprintf("%s|%s|%x", id, c.name, shapeOf(c.t))
		n[k]++
		r[i] = fmt.Sprintf("%s|%d", k, n[k])
	}
	return r
}

var memoHits int

// verifyFunc generates and decides a function's obligations.
func verifyFunc(db *SpecDB, c *Contract) *FuncResult {
	fr := generate(db, c)
	solveObls(fr.Obls)
	if memoHits == 0 || !useMemo || os.Getenv("GOVER_NORETRY") != "" {
		return fr
	}
	for _, o := range fr.Obls {
		if o.Proved == "" {
			useMemo = false
			atomic.StoreInt32(&failedObls, 0)
			fr = generate(db, c)
			solveObls(fr.Obls)
			return fr
		}
	}
	return fr
}
