package main

// Loading /repo with go/packages + go/ssa and mapping Go types to sorts.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	Prog  *ssa.Program
	Fset  *token.FileSet
	Pkgs  map[string]*ssa.Package // by path
	Funcs map[string]*ssa.Function
	Mod   string
}

const modPath = "github.com/iomz/gosstrak"
const binutilPath = "github.com/iomz/go-llrp/binutil"

func shortPkg(path string) string {
	if path == modPath {
		return "gosstrak"
	}
	if strings.HasPrefix(path, modPath+"/") {
		p := strings.TrimPrefix(path, modPath+"/")
		return p[strings.LastIndexByte(p, '/')+1:]
	}
	return path[strings.LastIndexByte(path, '/')+1:]
}

// funcKey: pkg.F or pkg.(*T).M or pkg.T.M
func funcKey(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if f.Parent() != nil {
		return funcKey(f.Parent()) + "$" + f.Name()
	}
	var pkg string
	if f.Pkg != nil {
		pkg = shortPkg(f.Pkg.Pkg.Path())
	} else if o := f.Object(); o != nil && o.Pkg() != nil {
		pkg = shortPkg(o.Pkg().Path())
	}
	if recv := f.Signature.Recv(); recv != nil {
		t := recv.Type()
		if p, ok := t.(*types.Pointer); ok {
			if n, ok := p.Elem().(*types.Named); ok {
				return fmt.Sprintf("%s.(*%s).%s", pkg, n.Obj().Name(), f.Name())
			}
		}
		if n, ok := t.(*types.Named); ok {
			return fmt.Sprintf("%s.%s.%s", pkg, n.Obj().Name(), f.Name())
		}
	}
	return pkg + "." + f.Name()
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  dir,
		Env:  os.Environ(),
	}
	if os.Getenv("GOVER_EXPORT") != "0" {
		cfg.Mode |= packages.NeedExportFile
		cfg.Mode &^= packages.NeedDeps
	}
	pkgs, err := packages.Load(cfg, modPath+"/filtering", modPath+"/tdt", modPath+"/scheme", modPath+"/scheme/sixenc2bin", modPath+"/cmd/gobtags", modPath+"/cmd/ale-ec", modPath+"/cmd/gosstrak-fc", binutilPath)
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{Prog: prog, Pkgs: map[string]*ssa.Package{}, Funcs: map[string]*ssa.Function{}, Mod: modPath}
	for _, sp := range spkgs {
		if sp == nil {
			continue
		}
		P.Pkgs[shortPkg(sp.Pkg.Path())] = sp
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				P.Funcs[funcKey(m)] = m
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
							P.Funcs[funcKey(f)] = f
						}
					}
				}
			}
		}
	}
	return P, nil
}

// ---- sorts of Go types ----

type TypeInfo struct {
	structs map[string]*types.Named // ADT sort name -> type
}

var tinfo = &TypeInfo{structs: map[string]*types.Named{}}

func namedStruct(t types.Type) *types.Named {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if _, ok := n.Underlying().(*types.Struct); ok {
			return n
		}
	}
	return nil
}

func adtName(n *types.Named) string {
	p := ""
	if n.Obj().Pkg() != nil {
		p = shortPkg(n.Obj().Pkg().Path()) + "_"
	}
	return p + n.Obj().Name()
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// sortOf maps a Go type to the sort of its abstract (deep) value.
func sortOf(t types.Type) *Sort {
	t = types.Unalias(t)
	if isErrorType(t) {
		return SErr
	}
	if n := namedStruct(t); n != nil {
		return adtOf(n)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return SBool
		case types.Int, types.Int64, types.UntypedInt:
			return SInt
		case types.Int32, types.UntypedRune, types.Uint32:
			return BV(32)
		case types.Uint8, types.Int8:
			return BV(8)
		case types.Uint16, types.Int16:
			return BV(16)
		case types.Uint, types.Uint64, types.Uintptr:
			return BV(64)
		case types.Float64, types.Float32, types.UntypedFloat:
			return SReal
		case types.String, types.UntypedString:
			return SStr
		}
	case *types.Slice:
		return SeqOf(sortOf(u.Elem()))
	case *types.Array:
		return SeqOf(sortOf(u.Elem()))
	case *types.Pointer:
		if n := namedStruct(u.Elem()); n != nil {
			return adtOf(n)
		}
		return SAny
	case *types.Map:
		return MapOf(sortOf(u.Key()), sortOf(u.Elem()))
	case *types.Struct:
		return adtAnon(u)
	}
	return SAny
}

func isBVType(t types.Type) (bits int, signed bool, ok bool) {
	b, isB := types.Unalias(t).Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Uint8:
		return 8, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

var anonNames = map[string]string{}

func adtAnon(u *types.Struct) *Sort {
	k := u.String()
	n, ok := anonNames[k]
	if !ok {
		n = fmt.Sprintf("anon%d", len(anonNames))
		anonNames[k] = n
	}
	return buildADT(n, u)
}

func adtOf(n *types.Named) *Sort {
	return buildADT(adtName(n), n.Underlying().(*types.Struct))
}

func buildADT(name string, st *types.Struct) *Sort {
	s := ADTSort(name)
	if theory.ADTs[s] != nil {
		return s
	}
	d := &ADTDef{Sort: s, GoName: name}
	theory.ADTs[s] = d
	d.Ctors = []Ctor{{Name: "nil_" + name}, {Name: "mk_" + name}}
	var fs []Fld
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		fs = append(fs, Fld{Name: f.Name(), Sel: name + "_" + f.Name(), Sort: sortOf(f.Type())})
	}
	d.Ctors[1].Fields = fs
	return s
}

func adtNil(s *Sort) *Term { return Cons(theory.ADTs[s].Ctors[0].Name, s) }
func adtMk(s *Sort, args []*Term) *Term {
	return Cons(theory.ADTs[s].Ctors[1].Name, s, args...)
}
func adtSel(t *Term, idx int) *Term {
	f := theory.ADTs[t.Sort].Ctors[1].Fields[idx]
	return Sel(f.Sel, idx, f.Sort, t)
}
func adtIsNil(t *Term) *Term { return IsCtor(theory.ADTs[t.Sort].Ctors[0].Name, t) }
