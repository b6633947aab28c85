package main

// Symbolic values, heap objects and states.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type VT struct{ T *Term } // scalar / string / abstract value

type PE struct {
	Field int
	Idx   *Term // nil => field
}
type VPtr struct {
	Loc  int
	Path []PE
}
type VSlice struct {
	Loc      int
	Off, Len *Term
	Nil      *Term // is the slice nil?
	Elem     types.Type
}
type VMap struct {
	Loc int
	T   *types.Map
}
type VStruct struct {
	F []Value
	T types.Type
}
type VTuple struct{ E []Value }
type VIface struct {
	T types.Type // nil: nil interface
	V Value
}
type VFunc struct {
	Fn   *ssa.Function
	Free []Value
	Name string
}
type VOpaque struct{ Why string }
type VIter struct{ Loc int }

type Obj interface{}
type OStruct struct {
	T types.Type
	F []Value
}
type OCell struct {
	V Value
	T types.Type
}
type OFolded struct {
	T    types.Type // struct type
	Term *Term
}
type ONil struct{}
type OSeq struct {
	S    *Term
	Elem types.Type
}
type OVec struct {
	E    []Value
	Elem types.Type
}
type OMap struct {
	M *Term
	T *types.Map
}
type OCMap struct {
	K []*Term
	V []Value
	T *types.Map
}
type OIter struct {
	Kind string // "str" "map" "cmap"
	S    *Term  // sequence iterated
	Pos  *Term
	MLoc int
	M    Obj
	Vis  []*Term
	VisB []*Term // visited flags per key (cut loops over concrete maps)
}
type OBig struct{ V, I *Term } // math/big.Int: an unsigned value (BV 128), or an integer I
type OBuf struct{ S *Term } // bytes.Buffer: written gob values (sequence of Any) or text
type OEnc struct{ Buf int } // *gob.Encoder
type ODec struct {          // *gob.Decoder
	S   *Term
	Pos *Term
}

// mapOrigin: the map, the key and the map's value when the slice was put in or
// looked up.
type mapOrigin struct {
	m  int
	k  *Term
	mt *Term
}

// aliasSet: l and every array that may share memory with it.
func (s *State) aliasSet(l int) map[int]bool {
	set := map[int]bool{}
	todo := []int{l}
	for len(todo) > 0 {
		a := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if set[a] {
			continue
		}
		set[a] = true
		todo = append(todo, s.alias[a]...)
	}
	return set
}

func (s *State) link(a, b int) {
	s.alias[a] = append(append([]int(nil), s.alias[a]...), b)
	s.alias[b] = append(append([]int(nil), s.alias[b]...), a)
}

// shared: some array the value refers to may be visible from elsewhere.
func (s *State) shared(v Value) bool {
	switch v := v.(type) {
	case VSlice:
		for a := range s.aliasSet(v.Loc) {
			if s.frozen[a] {
				return true
			}
		}
	case VStruct:
		for _, f := range v.F {
			if s.shared(f) {
				return true
			}
		}
	}
	return false
}

type State struct {
	heap   map[int]Obj
	pc     []*Term
	frozen map[int]bool
	stale  map[int]string
	alias  map[int][]int // backing arrays that may share memory after append
	kids   map[int][]int // results of appends to a slice: they may share its spare capacity
	origin map[int]mapOrigin // slices that are the value of a map entry
	fold   map[*Term]*Term   // see folded
	foldOn bool
	notes  []string
	depth  int // of absLoc
}

func newState() *State {
	return &State{heap: map[int]Obj{}, frozen: map[int]bool{}, stale: map[int]string{}, alias: map[int][]int{}, kids: map[int][]int{}, origin: map[int]mapOrigin{}}
}

func (s *State) clone() *State {
	n := &State{heap: make(map[int]Obj, len(s.heap)), frozen: make(map[int]bool, len(s.frozen)), stale: make(map[int]string, len(s.stale)), alias: make(map[int][]int, len(s.alias)), kids: make(map[int][]int, len(s.kids)), origin: make(map[int]mapOrigin, len(s.origin))}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.frozen {
		n.frozen[k] = v
	}
	for k, v := range s.stale {
		n.stale[k] = v
	}
	for k, v := range s.alias {
		n.alias[k] = v
	}
	for k, v := range s.kids {
		n.kids[k] = v
	}
	for k, v := range s.origin {
		n.origin[k] = v
	}
	n.fold, n.foldOn = s.fold, s.foldOn
	n.pc = append([]*Term(nil), s.pc...)
	n.notes = append([]string(nil), s.notes...)
	return n
}

func (s *State) assume(t *Term) {
	if t == True {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	if s.foldOn {
		if t2 := s.folded(t); t2 != t {
			s.assume(t2)
			return
		}
		if t.Op == "=" && len(t.Args) == 2 {
			a, b := t.Args[0], t.Args[1]
			if isInt(b) {
				a, b = b, a
			}
			if isInt(a) && strings.HasPrefix(b.Op, "len") && s.fold[b] == nil {
				f := map[*Term]*Term{b: a}
				for k, v := range s.fold {
					f[k] = v
				}
				s.fold = f
				pc := make([]*Term, len(s.pc))
				for i, h := range s.pc {
					pc[i] = s.folded(h)
				}
				s.pc = pc
			}
		}
	}
	s.pc = append(s.pc, t)
}

// folded (opt: fold): a length whose value this path has fixed is that number.
// The equation itself stays among the hypotheses.
func (s *State) folded(t *Term) *Term {
	if len(s.fold) == 0 || t.Op == "=" && len(t.Args) == 2 && (s.fold[t.Args[0]] == t.Args[1] || s.fold[t.Args[1]] == t.Args[0]) {
		return t
	}
	return Subst(t, s.fold)
}

func (s *State) dead() bool {
	for _, t := range s.pc {
		if t == False {
			return true
		}
	}
	return false
}

var locCounter = 0

func newLoc() int { locCounter++; return locCounter }

func (s *State) alloc(o Obj) int {
	l := newLoc()
	s.heap[l] = o
	return l
}

type unsup struct{ msg string }

func fail(f string, a ...interface{}) { panic(unsup{fmt.Sprintf(f, a...)}) }

func structOf(t types.Type) *types.Struct {
	s, _ := types.Unalias(t).Underlying().(*types.Struct)
	return s
}

// zero value of a Go type
func (s *State) zero(t types.Type) Value {
	t = types.Unalias(t)
	if isErrorType(t) {
		return VT{errNil()}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch so := sortOf(t); so.Kind {
		case KBool:
			return VT{False}
		case KInt:
			return VT{IntT(0)}
		case KBV:
			return VT{BVT(0, so.Bits)}
		case KReal:
			return VT{mk("real", SReal, nil, "0")}
		case KSeq:
			return VT{Empty(so)}
		}
		return VOpaque{"zero " + t.String()}
	case *types.Pointer:
		return VPtr{}
	case *types.Slice:
		return s.nilSlice(u.Elem())
	case *types.Map:
		return VMap{0, u}
	case *types.Interface:
		return VIface{}
	case *types.Struct:
		v := VStruct{T: t}
		for i := 0; i < u.NumFields(); i++ {
			v.F = append(v.F, s.zero(u.Field(i).Type()))
		}
		return v
	case *types.Array:
		return VOpaque{"array"}
	case *types.Signature:
		return VOpaque{"nil func"}
	}
	return VOpaque{"zero " + t.String()}
}

func (s *State) nilSlice(elem types.Type) Value {
	return VSlice{Loc: s.alloc(&OSeq{S: Empty(SeqOf(sortOf(elem))), Elem: elem}), Off: IntT(0), Len: IntT(0), Nil: True, Elem: elem}
}

func errNil() *Term { return App("err.nil", SErr) }

func init() {
	theory.Funs["err.nil"] = &SpecFun{Name: "err.nil", Ret: SErr}
}

// materialise turns an abstract value (term) of Go type t into a runtime value.
func (s *State) materialise(tm *Term, t types.Type) Value {
	t = types.Unalias(t)
	if isErrorType(t) {
		return VT{tm}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if st := structOf(u.Elem()); st != nil {
			if tm.Sort.Kind != KADT {
				return VOpaque{"ptr " + t.String()}
			}
			if isCons(tm) && len(tm.Args) == 0 && tm.Lit == theory.ADTs[tm.Sort].Ctors[0].Name {
				return VPtr{}
			}
			return VPtr{Loc: s.alloc(&OFolded{T: u.Elem(), Term: tm})}
		}
		return VOpaque{"ptr " + t.String()}
	case *types.Slice:
		return VSlice{Loc: s.alloc(&OSeq{S: tm, Elem: u.Elem()}), Off: IntT(0), Len: Len(tm), Nil: Fresh("isnil", SBool), Elem: u.Elem()}
	case *types.Map:
		return VMap{s.alloc(&OMap{M: tm, T: u}), u}
	case *types.Struct:
		v := VStruct{T: t}
		for i := 0; i < u.NumFields(); i++ {
			v.F = append(v.F, s.materialise(adtSel(tm, i), u.Field(i).Type()))
		}
		return v
	}
	return VT{tm}
}

// abs: abstract (deep) value of a runtime value.
func (s *State) abs(v Value, t types.Type) *Term {
	switch v := v.(type) {
	case VT:
		return v.T
	case VPtr:
		if v.Loc == 0 {
			so := sortOf(t)
			if so.Kind != KADT {
				fail("abs nil of %s", t)
			}
			return adtNil(so)
		}
		if len(v.Path) > 0 {
			fail("abs of interior pointer")
		}
		return s.absLoc(v.Loc)
	case VSlice:
		o := s.heap[v.Loc]
		if w := s.stale[v.Loc]; w != "" {
			fail("read of possibly overwritten backing array (%s)", w)
		}
		switch o := o.(type) {
		case *OSeq:
			return SubOK(o.S, v.Off, Add(v.Off, v.Len))
		case *OVec:
			off, ok1 := IntVal(v.Off)
			n, ok2 := IntVal(v.Len)
			so := SeqOf(sortOf(o.Elem))
			if ok1 && ok2 {
				r := Empty(so)
				for i := off; i < off+n; i++ {
					r = Cat(r, Unit(s.abs(o.E[i], o.Elem)))
				}
				return r
			}
		}
		fail("abs slice %T", o)
	case VMap:
		if v.Loc == 0 {
			return mk("mempty", MapOf(sortOf(v.T.Key()), sortOf(v.T.Elem())), nil, "")
		}
		switch o := s.heap[v.Loc].(type) {
		case *OMap:
			return o.M
		case *OCMap:
			so := MapOf(sortOf(v.T.Key()), sortOf(v.T.Elem()))
			m := mk("mempty", so, nil, "")
			for i, k := range o.K {
				m = mk("mstore", so, nil, "", m, k, s.abs(o.V[i], v.T.Elem()))
			}
			return m
		}
		fail("abs map")
	case VStruct:
		so := sortOf(v.T)
		st := structOf(v.T)
		var args []*Term
		for i := range v.F {
			args = append(args, s.abs(v.F[i], st.Field(i).Type()))
		}
		return adtMk(so, args)
	case VIface:
		if v.T == nil {
			if t != nil && isErrorType(t) {
				return errNil()
			}
			return App("any.nil", SAny)
		}
		if t != nil && isErrorType(t) {
			return Fresh("err", SErr)
		}
		return wrapAny(s, v)
	case VOpaque:
		return Fresh("opaque", sortOf(t))
	}
	fail("abs %T", v)
	return nil
}

func init() { theory.Funs["any.nil"] = &SpecFun{Name: "any.nil", Ret: SAny} }

// wrapAny injects a value into the sort Any with an injective tag function.
func wrapAny(s *State, v VIface) *Term {
	tm := s.abs(v.V, v.T)
	return anyOf(tm, v.T)
}

func anyOf(tm *Term, t types.Type) *Term {
	so := tm.Sort
	name := "any." + mangle(so.Name)
	un := "unany." + mangle(so.Name)
	tagName := "anytag"
	theory.mu.Lock()
	if theory.Funs[tagName] == nil {
		theory.Funs[tagName] = &SpecFun{Name: tagName, Params: []*Sort{SAny}, Ret: SInt}
	}
	if theory.Funs[name] == nil {
		f := &SpecFun{Name: name, Params: []*Sort{so}, Ret: SAny}
		g := &SpecFun{Name: un, Params: []*Sort{SAny}, Ret: so}
		theory.Funs[name] = f
		theory.Funs[un] = g
		x := BoundVar("x", so)
		f.Axioms = []*Term{Forall([]*Term{x}, [][]*Term{{App(name, SAny, x)}}, Eq(App(un, so, App(name, SAny, x)), x)),
			Forall([]*Term{x}, [][]*Term{{App(name, SAny, x)}}, Eq(App(tagName, SInt, App(name, SAny, x)), IntT(int64(len(theory.Funs)))))}
	}
	theory.mu.Unlock()
	return App(name, SAny, tm)
}

func (s *State) absLoc(l int) *Term {
	if s.depth++; s.depth > 2000 {
		fail("cyclic structure")
	}
	defer func() { s.depth-- }()
	if w := s.stale[l]; w != "" {
		fail("use of stale object (%s)", w)
	}
	switch o := s.heap[l].(type) {
	case *OFolded:
		return o.Term
	case *OCtx:
		return App(o.App, o.Seg.Sort, o.Seg, s.absLoc(o.Hole))
	case *OStruct:
		st := structOf(o.T)
		var args []*Term
		for i := range o.F {
			args = append(args, s.abs(o.F[i], st.Field(i).Type()))
		}
		return adtMk(sortOf(o.T), args)
	case *OCell:
		switch v := o.V.(type) {
		case VT:
			return v.T
		}
	case *OBig:
		if o.V != nil {
			return o.V
		}
	}
	fail("abs of object %T", s.heap[l])
	return nil
}
