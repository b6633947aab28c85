package main

// Cursors: a function that walks down a chain of records and rearranges it holds a
// pointer to the chain's head (in a field of an owner), to the record before the current
// one and to the current one. The contract clause
//
//	cursor: owner.root parent.next n app
//
// says: n is not nil; if parent is nil, owner.root is n; otherwise parent.next is n and
// parent is reached from owner.root by following next. In the body, the records between
// the head and parent are one object, a chain segment with a hole (OCtx), whose value is
// app(segment, value of the hole): app must be the structural "append along next". A
// caller has to exhibit the pointers in that arrangement. Everything below owner belongs
// to the callee: parent and n are not used by the caller afterwards. In the contract,
// parent and n stand for their values before the call.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type OCtx struct {
	T    types.Type // struct type of the chain's records
	App  string
	Seg  *Term // the records before the hole
	Hole int
}

type Cursor struct {
	Owner, Root, Parent, Next, Node, App string
	pOwner, pParent, pNode               int
	rec                                  types.Type // the record type
	root, next                           int        // field indices
}

func fieldIndex(t types.Type, name string) int {
	st := structOf(t)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func pointee(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// cursorOf reads the cursor clause of a contract (nil if there is none).
func cursorOf(con *Contract, ptypes []types.Type) *Cursor {
	cls := con.get("cursor")
	if len(cls) == 0 {
		return nil
	}
	f := strings.Fields(cls[0].Src)
	if len(f) != 4 {
		fail("malformed cursor clause of %s", con.Key)
	}
	c := &Cursor{Node: f[2], App: f[3], pOwner: -1, pParent: -1, pNode: -1}
	a, b := strings.SplitN(f[0], ".", 2), strings.SplitN(f[1], ".", 2)
	if len(a) != 2 || len(b) != 2 {
		fail("malformed cursor clause of %s", con.Key)
	}
	c.Owner, c.Root, c.Parent, c.Next = a[0], a[1], b[0], b[1]
	for i, p := range con.Params {
		switch p {
		case c.Owner:
			c.pOwner = i
		case c.Parent:
			c.pParent = i
		case c.Node:
			c.pNode = i
		default:
			if isPtrLike(ptypes[i]) {
				if s, ok := ptypes[i].Underlying().(*types.Slice); !ok || isPtrLike(s.Elem()) {
					fail("%s: a cursor with other reference parameters", con.Key)
				}
			}
		}
	}
	if c.pOwner < 0 || c.pParent < 0 || c.pNode < 0 {
		fail("cursor clause of %s names unknown parameters", con.Key)
	}
	ow := pointee(ptypes[c.pOwner])
	c.rec = pointee(ptypes[c.pNode])
	if ow == nil || c.rec == nil || !types.Identical(ptypes[c.pNode], ptypes[c.pParent]) {
		fail("cursor clause of %s: parameter types", con.Key)
	}
	c.root, c.next = fieldIndex(ow, c.Root), fieldIndex(c.rec, c.Next)
	if c.root < 0 || c.next < 0 || !types.Identical(structOf(ow).Field(c.root).Type(), ptypes[c.pNode]) ||
		!types.Identical(structOf(c.rec).Field(c.next).Type(), ptypes[c.pNode]) {
		fail("cursor clause of %s: fields", con.Key)
	}
	checkApp(c.App, c.rec, c.next, con.Key)
	return c
}

// checkApp: the specification function is the structural append along the field.
func checkApp(app string, rec types.Type, next int, who string) {
	sf := theory.Funs[app]
	so := sortOf(rec)
	if sf == nil || len(sf.Params) != 2 || sf.Params[0] != so || sf.Params[1] != so || sf.Ret != so || len(sf.Defs) != 2 {
		fail("%s: %s is not an append function", who, app)
	}
	for _, d := range sf.Defs {
		n, x := d.Lhs.Args[0], d.Lhs.Args[1]
		want := x
		if n != adtNil(so) {
			as := append([]*Term(nil), n.Args...)
			as[next] = App(app, so, as[next], x)
			want = adtMk(so, as)
		}
		if d.Rhs != want {
			fail("%s: %s is not an append function", who, app)
		}
	}
}

// cursorBody arranges the parameters of the function under proof.
func (x *Exec) cursorBody(st *State, c *Cursor, con *Contract, args []Value, nilParent bool) {
	ow, ok1 := args[c.pOwner].(VPtr)
	n, ok2 := args[c.pNode].(VPtr)
	pa, ok3 := args[c.pParent].(VPtr)
	if !ok1 || !ok2 || !ok3 {
		fail("cursor parameters of %s", con.Key)
	}
	st.assume(Not(x.isNilVal(st, ow)))
	st.assume(Not(x.isNilVal(st, n)))
	delete(st.frozen, n.Loc)
	delete(st.frozen, ow.Loc)
	delete(st.frozen, pa.Loc)
	o := x.unfold(st, ow.Loc)
	no := &OStruct{T: o.T, F: append([]Value(nil), o.F...)}
	if nilParent {
		args[c.pParent] = VPtr{}
		no.F[c.root] = n
	} else {
		st.assume(Not(x.isNilVal(st, pa)))
		po := x.unfold(st, pa.Loc)
		np := &OStruct{T: po.T, F: append([]Value(nil), po.F...)}
		np.F[c.next] = n
		st.heap[pa.Loc] = np
		so := sortOf(c.rec)
		l := st.alloc(&OCtx{T: c.rec, App: c.App, Seg: Fresh("segment", so), Hole: pa.Loc})
		no.F[c.root] = VPtr{Loc: l}
	}
	st.heap[ow.Loc] = no
}

// cursorCall checks the arrangement at a call.
func (x *Exec) cursorCall(st *State, c *Cursor, con *Contract, args []Value, f *ssa.Function) {
	ow, ok1 := args[c.pOwner].(VPtr)
	n, ok2 := args[c.pNode].(VPtr)
	pa, ok3 := args[c.pParent].(VPtr)
	if !ok1 || !ok2 || !ok3 || len(ow.Path)+len(n.Path)+len(pa.Path) > 0 || ow.Loc == 0 || n.Loc == 0 {
		fail("%s: cursor arguments are not plain pointers", con.Key)
	}
	for _, l := range []int{ow.Loc, n.Loc, pa.Loc} {
		if w := st.stale[l]; w != "" && l != 0 {
			fail("use of pointer after %s", w)
		}
		if l != 0 && st.frozen[l] {
			fail("modifying call through a borrowed reference (%s)", con.Key)
		}
	}
	o := x.unfold(st, ow.Loc)
	r, ok := o.F[c.root].(VPtr)
	if !ok || len(r.Path) > 0 {
		fail("%s: cursor root", con.Key)
	}
	if pa.Loc == 0 {
		if r.Loc != n.Loc {
			fail("%s: no parent is given and the root is another record", con.Key)
		}
		return
	}
	p, ok := st.heap[pa.Loc].(*OStruct)
	if !ok {
		fail("%s: the parent is not known to be a record", con.Key)
	}
	if nx, ok := p.F[c.next].(VPtr); !ok || len(nx.Path) > 0 || nx.Loc != n.Loc {
		fail("%s: the record does not follow the parent", con.Key)
	}
	seen := map[int]bool{}
	for cur := r.Loc; cur != pa.Loc; {
		if seen[cur] || st.stale[cur] != "" || st.frozen[cur] {
			fail("%s: the parent is not reached from the root", con.Key)
		}
		seen[cur] = true
		switch o := st.heap[cur].(type) {
		case *OCtx:
			if o.App != c.App {
				fail("%s: another kind of segment", con.Key)
			}
			cur = o.Hole
		case *OStruct:
			nx, ok := o.F[c.next].(VPtr)
			if !ok || len(nx.Path) > 0 {
				fail("%s: the parent is not reached from the root", con.Key)
			}
			cur = nx.Loc
		default:
			fail("%s: the parent is not reached from the root", con.Key)
		}
	}
}
