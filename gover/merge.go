package main

// If-conversion: a pure diamond or triangle inside a loop is evaluated on both
// sides and joined with ite instead of forking the path.

import (
	"golang.org/x/tools/go/ssa"
)

func pureSide(b, join *ssa.BasicBlock) bool {
	if len(b.Succs) != 1 || b.Succs[0] != join || len(b.Preds) != 1 || len(b.Instrs) > 12 {
		return false
	}
	for i, ins := range b.Instrs {
		switch ins := ins.(type) {
		case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Index, *ssa.Extract, *ssa.DebugRef, *ssa.UnOp:
		case *ssa.Jump:
			if i != len(b.Instrs)-1 {
				return false
			}
		case *ssa.Call:
			if !pureCall(ins) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func pureCall(c *ssa.Call) bool {
	f, ok := c.Call.Value.(*ssa.Function)
	if !ok {
		return false
	}
	switch funcKey(f) {
	case "math.Pow", "math.Floor":
		return true
	}
	return false
}

// merge returns outcomes and true if the branch could be joined.
func (x *Exec) merge(fr *Frame, b *ssa.BasicBlock, st *State, c *Term) ([]Outcome, bool) {
	t, f := b.Succs[0], b.Succs[1]
	var join *ssa.BasicBlock
	var sides [2]*ssa.BasicBlock // nil: edge goes straight to join
	switch {
	case len(t.Succs) == 1 && pureSide(t, f):
		join, sides[0] = f, t
	case len(f.Succs) == 1 && pureSide(f, t):
		join, sides[1] = t, f
	case len(t.Succs) == 1 && len(f.Succs) == 1 && t.Succs[0] == f.Succs[0] && pureSide(t, t.Succs[0]) && pureSide(f, t.Succs[0]):
		join, sides[0], sides[1] = t.Succs[0], t, f
	default:
		return nil, false
	}
	if fr.loops[join] != nil {
		return nil, false
	}
	in := false
	for _, l := range fr.loops {
		if l.body[b] {
			if !l.body[join] {
				return nil, false
			}
			in = true
		} else if l.body[join] {
			return nil, false
		}
	}
	if !in {
		return nil, false
	}
	type side struct {
		fr   *Frame
		st   *State
		phis []Value
	}
	var sd [2]side
	nObl := len(x.obls)
	okAll := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(unsup); is {
					ok = false
					return
				}
				panic(r)
			}
		}()
		for k := 0; k < 2; k++ {
			s := side{fr.clone(), st.clone(), nil}
			cond := c
			if k == 1 {
				cond = Not(c)
			}
			s.st.assume(cond)
			if s.st.dead() {
				return false
			}
			from := b
			if sides[k] != nil {
				from = sides[k]
				for _, ins := range sides[k].Instrs {
					switch ins := ins.(type) {
					case *ssa.Jump:
					case *ssa.Call:
						outs := x.call(s.fr, s.st, &ins.Call, ins, ins.Pos())
						if len(outs) != 1 || outs[0].st != s.st {
							return false
						}
						s.fr.vals[ins] = outs[0].v
					default:
						x.simple(s.fr, s.st, ins)
					}
				}
			}
			pi := -1
			for i, p := range join.Preds {
				if p == from {
					pi = i
				}
			}
			for _, ins := range join.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				s.phis = append(s.phis, x.val(s.fr, s.st, ph.Edges[pi]))
			}
			for l, o := range s.st.heap {
				if o2, had := st.heap[l]; had && o2 != o {
					return false
				}
			}
			if len(s.st.stale) != len(st.stale) || len(s.st.frozen) != len(st.frozen) || len(s.st.alias) != len(st.alias) {
				return false
			}
			sd[k] = s
		}
		return true
	}()
	if !okAll {
		x.dropObls(nObl)
		return nil, false
	}
	var merged []Value
	for i := range sd[0].phis {
		a, b2 := sd[0].phis[i], sd[1].phis[i]
		if valEq(a, b2) {
			merged = append(merged, a)
			continue
		}
		va, ok1 := a.(VT)
		vb, ok2 := b2.(VT)
		if !ok1 || !ok2 || va.T.Sort != vb.T.Sort || va.T.Sort.Kind == KSeq || va.T.Sort.Kind == KInt && (isInt(va.T) || isInt(vb.T)) {
			x.dropObls(nObl)
			return nil, false
		}
		merged = append(merged, VT{Ite(c, va.T, vb.T)})
	}
	for k := 0; k < 2; k++ {
		cond := c
		if k == 1 {
			cond = Not(c)
		}
		for i := len(st.pc); i < len(sd[k].st.pc); i++ {
			h := sd[k].st.pc[i]
			if h != cond {
				st.assume(Imp(cond, h))
			}
		}
	}
	i := 0
	for _, ins := range join.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		fr.vals[ph] = merged[i]
		i++
	}
	return x.run(fr, join, i, st), true
}

func (x *Exec) dropObls(n int) {
	for _, o := range x.obls[n:] {
		_ = o
	}
	x.obls = x.obls[:n]
	x.oblSeen = map[string]bool{}
}
