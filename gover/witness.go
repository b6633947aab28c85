package main

// Existential goals: instances of the existential at ground terms that match
// its trigger are added as disjuncts (each implies the existential).

func witnesses(q *Query) *Term {
	if q.Goal == nil || !containsExists(q.Goal, map[*Term]bool{}) {
		return q.Goal
	}
	byOp := map[string][]*Term{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if !t.bound {
			byOp[t.Op+"/"+t.Lit] = append(byOp[t.Op+"/"+t.Lit], t)
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(q.Goal)
	for _, h := range q.Hyps {
		walk(h)
	}
	return expandEx(q.Goal, byOp, 0)
}

func containsExists(t *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if t.Op == "exists" {
		return true
	}
	for _, a := range t.Args {
		if containsExists(a, seen) {
			return true
		}
	}
	return false
}

func expandEx(t *Term, byOp map[string][]*Term, depth int) *Term {
	switch t.Op {
	case "and", "or":
		var as []*Term
		for _, a := range t.Args {
			as = append(as, expandEx(a, byOp, depth))
		}
		if t.Op == "and" {
			return And(as...)
		}
		return Or(as...)
	case "=>":
		return Imp(t.Args[0], expandEx(t.Args[1], byOp, depth))
	case "ite":
		if t.Sort == SBool {
			return Ite(t.Args[0], expandEx(t.Args[1], byOp, depth), expandEx(t.Args[2], byOp, depth))
		}
	case "exists":
		if depth > 3 || len(t.Trigs) == 0 || t.bound {
			return t
		}
		r := t
		insts := map[*Term]bool{}
		n := 0
		for _, tg := range t.Trigs {
			var rec func(k int, m map[*Term]*Term)
			rec = func(k int, m map[*Term]*Term) {
				if n > 24 {
					return
				}
				if k == len(tg) {
					for _, v := range t.Vars {
						if m[v] == nil {
							return
						}
					}
					b := Subst(t.Args[0], m)
					if !insts[b] {
						insts[b] = true
						n++
						r = Or(r, expandEx(b, byOp, depth+1))
					}
					return
				}
				for _, g := range byOp[tg[k].Op+"/"+tg[k].Lit] {
					m2 := map[*Term]*Term{}
					for a, b := range m {
						m2[a] = b
					}
					if matchTerm(tg[k], g, t.Vars, m2) {
						rec(k+1, m2)
					}
				}
			}
			rec(0, map[*Term]*Term{})
		}
		return r
	}
	return t
}

func matchTerm(p, g *Term, vars []*Term, m map[*Term]*Term) bool {
	for _, v := range vars {
		if p == v {
			if p.Sort != g.Sort {
				return false
			}
			if m[v] != nil {
				return m[v] == g
			}
			m[v] = g
			return true
		}
	}
	if p == g {
		return true
	}
	if p.Op != g.Op || p.Lit != g.Lit || p.Sort != g.Sort || len(p.Args) != len(g.Args) || len(p.Args) == 0 {
		return false
	}
	for i := range p.Args {
		if !matchTerm(p.Args[i], g.Args[i], vars, m) {
			return false
		}
	}
	return true
}
