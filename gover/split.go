package main

import (
	"fmt"
	"os"
	"sync"
	"sync/atomic"
	"time"
)

// Goal splitting: a goal the solver does not prove in one piece is unfolded by
// computation (definitions applied to constructors), its quantified variables
// are replaced by fresh constants, conjunctions are proved in sequence and
// conditionals case by case.

type piece struct {
	hyps []*Term
	goal *Term
}

const maxPieces = 96

func splitQuery(q *Query) ([]piece, bool) {
	var out []piece
	over := false
	var rec func(hyps []*Term, g *Term, depth int)
	rec = func(hyps []*Term, g *Term, depth int) {
		if over || g == True {
			return
		}
		for _, h := range hyps {
			if h == False || h == g {
				return
			}
		}
		g = compute(g)
		if g == True {
			return
		}
		switch g.Op {
		case "and":
			hs := hyps
			for _, a := range g.Args {
				rec(hs, a, depth)
				hs = append(append([]*Term(nil), hs...), a)
			}
			return
		case "=>":
			hs := append([]*Term(nil), hyps...)
			for _, a := range conjT(g.Args[0]) {
				a = compute(a)
				for _, b := range conjT(a) {
					hs = append(hs, b)
				}
			}
			rec(hs, g.Args[1], depth)
			return
		case "forall":
			m := map[*Term]*Term{}
			for _, v := range g.Vars {
				m[v] = Fresh("w", v.Sort)
			}
			rec(hyps, Subst(g.Args[0], m), depth)
			return
		case "or":
			// prove the last disjunct from the negation of the others
			for i, a := range g.Args {
				if a.Op == "and" || a.Op == "forall" || a.Op == "=>" {
					hs := append([]*Term(nil), hyps...)
					for j, b := range g.Args {
						if j != i {
							hs = append(hs, Not(b))
						}
					}
					rec(hs, a, depth)
					return
				}
			}
		case "=":
			if g.Args[0].Sort == SBool {
				rec(append(append([]*Term(nil), hyps...), g.Args[0]), g.Args[1], depth)
				rec(append(append([]*Term(nil), hyps...), g.Args[1]), g.Args[0], depth)
				return
			}
		}
		if depth < 9 {
			if c := findCond(g); c != nil {
				pos, neg := true, true
				for _, h := range hyps {
					if h == c {
						neg = false
					}
					if h == Not(c) {
						pos = false
					}
				}
				if pos {
					hs := append([]*Term(nil), hyps...)
					hs = append(hs, conjT(c)...)
					if !pos || !neg {
						hs = hyps
					}
					rec(hs, assumeIn(g, c, True), depth+1)
				}
				if neg {
					rec(append(append([]*Term(nil), hyps...), conjT(Not(c))...), assumeIn(g, c, False), depth+1)
				}
				return
			}
		}
		out = append(out, piece{hyps, g})
		if len(out) > maxPieces {
			over = true
		}
	}
	rec(q.Hyps, q.Goal, 0)
	if over {
		return nil, false
	}
	return out, true
}

func conjT(t *Term) []*Term {
	if t.Op == "and" {
		var r []*Term
		for _, a := range t.Args {
			r = append(r, conjT(a)...)
		}
		return r
	}
	return []*Term{t}
}

// findCond returns a condition of an ite in t outside quantifiers.
func findCond(t *Term) *Term {
	if t.Op == "forall" || t.Op == "exists" {
		return nil
	}
	if t.Op == "ite" && !t.Args[0].bound {
		// innermost condition first
		if c := findCond(t.Args[0]); c != nil {
			return c
		}
		return t.Args[0]
	}
	for _, a := range t.Args {
		if c := findCond(a); c != nil {
			return c
		}
	}
	return nil
}

func assumeIn(t, c, v *Term) *Term {
	m := map[*Term]*Term{c: v}
	if c.Op == "not" {
		m[c.Args[0]] = Not(v)
	} else {
		m[Not(c)] = Not(v)
	}
	if v == True {
		for _, x := range conjT(c) {
			m[x] = True
		}
	}
	return Subst(t, m)
}

// compute unfolds definitions by structural recursion that are applied to constructors.
func compute(t *Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		m := map[*Term]*Term{}
		if t.Op != "forall" && t.Op != "exists" {
			for _, a := range t.Args {
				if b := f(a); b != a {
					m[a] = b
				}
			}
			if len(m) > 0 {
				r = Subst(t, m)
			}
			if u := unfoldCtor(r); u != nil {
				r = f(u)
			}
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func unfoldCtor(t *Term) *Term {
	if t.Op != "app" {
		return nil
	}
	sf := theory.Funs[t.Lit]
	if sf == nil || hiddenFuns[t.Lit] {
		return nil
	}
	for _, d := range sf.Defs {
		m := map[*Term]*Term{}
		if matchTerm(d.Lhs, t, d.Vars, m) {
			return Subst(d.Rhs, m)
		}
	}
	return nil
}

var failedObls int32

// proveSplit: in one piece with a small budget, then piece by piece, then in
// one piece with the full budget.
func proveSplit(q *Query) SolveRes {
	r := z3Solve(q0(q), 6000000, 10*time.Second)
	if r.Status == "unsat" {
		return r
	}
	if atomic.LoadInt32(&failedObls) >= 3 {
		return SolveRes{Status: "not attempted after other failures"}
	}
	ps, ok := splitQuery(q)
	if ok && len(ps) == 0 {
		return SolveRes{Status: "unsat", Backend: "simplifier"}
	}
	if len(ps) < 2 {
		if len(ps) == 1 {
			q = &Query{Hyps: ps[0].hyps, Goal: ps[0].goal, Skip: q.Skip}
		}
		return prove(q, 1)
	}
	res := make([]SolveRes, len(ps))
	var wg sync.WaitGroup
	var failed int32
	for i := range ps {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			if atomic.LoadInt32(&failedObls) >= 3 || atomic.LoadInt32(&failed) > 0 {
				res[i] = SolveRes{Status: "not attempted after other failures"}
				return
			}
			res[i] = prove(&Query{Hyps: ps[i].hyps, Goal: ps[i].goal, Skip: q.Skip}, 1)
			if res[i].Status != "unsat" {
				atomic.AddInt32(&failed, 1)
			}
		}(i)
	}
	wg.Wait()
	out := SolveRes{Status: "unsat", Backend: "z3"}
	for i, r := range res {
		out.Dur += r.Dur
		if r.Status != "unsat" {
			out.Status, out.Backend = r.Status, ""
			if os.Getenv("GOVER_SPLIT") != "" {
				fmt.Fprintf(os.Stderr, "PIECE %d/%d fails: %s\n", i+1, len(ps), ps[i].goal)
				for _, h := range ps[i].hyps[len(q.Hyps):] {
					fmt.Fprintf(os.Stderr, "    case %s\n", h)
				}
			}
		} else if r.Backend == "z3-new" && out.Backend == "z3" {
			out.Backend = "z3-new"
		}
	}
	return out
}

func q0(q *Query) *Query {
	if g := witnesses(q); g != q.Goal {
		return &Query{Hyps: q.Hyps, Goal: g, Ops: q.Ops, Skip: q.Skip, NoLemma: q.NoLemma}
	}
	return q
}
