package main

// Loading /repo into SSA form, and Go types as sorts.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	fset    *token.FileSet
	prog    *ssa.Program
	pkgs    []*packages.Package
	byName  map[string]*ssa.Function // "pkgpath.Func" or "pkgpath.(*T).M"
	srcPkgs map[string]bool          // packages whose bodies may be inlined
	ipkgs   map[string]*types.Package
}

const modPath = "github.com/gmlewis/stldice/v4"

func load(repo string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedModule,
		Dir: repo,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	cfg.Env = append(cfg.Env, "GOFLAGS=-mod=readonly")
	pats := []string{
		modPath + "/binvox", modPath + "/vshell", modPath + "/stl", modPath + "/stl2svx/stl",
		modPath + "/stl2svx/agent", modPath + "/stl2svx/master", modPath + "/server/stldice-slave",
		modPath + "/cmd/voxcut", modPath + "/cmd/svx2stl", modPath + "/cmd/stldice", modPath + "/cmd/stldice-mr",
		modPath + "/stl2svx/proto", modPath + "/mr",
		"github.com/fogleman/fauxgl",
	}
	// Syntax is needed only for the packages themselves; dependencies come from export data.
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.Packages(pkgs, ssa.GlobalDebug|ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{fset: prog.Fset, prog: prog, pkgs: pkgs, byName: map[string]*ssa.Function{}, srcPkgs: map[string]bool{}, ipkgs: map[string]*types.Package{}}
	for _, p := range pkgs {
		P.srcPkgs[p.PkgPath] = true
		P.ipkgs[p.PkgPath] = p.Types
	}
	for fn := range ssautil.AllFunctions(prog) {
		P.byName[fn.String()] = fn
	}
	// methods of types that are not used as interfaces
	for _, p := range prog.AllPackages() {
		if !P.srcPkgs[p.Pkg.Path()] {
			continue
		}
		for _, m := range p.Members {
			tn, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			if n, ok := tn.Type().(*types.Named); ok && n.TypeParams().Len() == 0 {
				for i := 0; i < n.NumMethods(); i++ {
					if fn := prog.FuncValue(n.Method(i)); fn != nil {
						P.byName[fn.String()] = fn
						for _, a := range fn.AnonFuncs {
							P.byName[a.String()] = a
						}
					}
				}
			}
		}
	}
	return P, nil
}

// ---- sorts of Go types

func basicSort(b *types.Basic) *Sort {
	i := b.Info()
	switch {
	case i&types.IsBoolean != 0:
		return SBool
	case i&types.IsInteger != 0:
		return SInt
	case i&types.IsFloat != 0:
		return SReal
	case i&types.IsString != 0:
		return SStr
	case b.Kind() == types.UnsafePointer, b.Kind() == types.UntypedNil:
		return SInt
	}
	panic("basic " + b.String())
}

// bvTypes are named integer types represented as bit vectors.
func bvBits(t types.Type) int {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return 0
	}
	switch n.Obj().Name() {
	case "NeighborBitMap":
		return 32
	case "neighborBitMap":
		return 8
	}
	return 0
}

var dtNames = map[string]string{}

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func shortTypeName(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	if len(s) > 60 {
		s = s[:60]
	}
	s = sanitize(s)
	k := typeKey(t)
	if n, ok := dtNames[k]; ok {
		return n
	}
	for _, o := range dtNames {
		if o == s {
			s = fmt.Sprintf("%s_%d", s, len(dtNames))
		}
	}
	dtNames[k] = s
	return s
}

var dtCache = map[string]*Sort{}

func sortOf(t types.Type) *Sort {
	t = types.Unalias(t)
	if n := bvBits(t); n > 0 {
		return SBV(n)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return basicSort(u)
	case *types.Pointer:
		return SPtr
	case *types.Slice:
		return SSlice
	case *types.Map, *types.Chan, *types.Interface:
		return SInt
	case *types.Signature:
		return SInt
	case *types.Array:
		return SArr(SInt, sortOf(u.Elem()))
	case *types.Struct:
		k := typeKey(t)
		if s, ok := dtCache[k]; ok {
			return s
		}
		name := "T_" + shortTypeName(t)
		var fs []Field
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, Field{u.Field(i).Name() + fieldSuffix(u, i), sortOf(u.Field(i).Type())})
		}
		s := SDT(name, fs)
		dtCache[k] = s
		return s
	case *types.Tuple:
		return SInt
	}
	panic("sortOf " + t.String())
}

func fieldSuffix(u *types.Struct, i int) string {
	if u.Field(i).Name() == "_" {
		return fmt.Sprint(i)
	}
	return ""
}

func zeroTerm(t types.Type) *Term { return zeroSort(sortOf(t)) }
func zeroSort(s *Sort) *Term {
	switch s.Kind {
	case KBool:
		return False
	case KInt:
		return IntT(0)
	case KReal:
		return RealT(new(big.Rat))
	case KBV:
		return BVT(s.Bits, 0)
	case KUnint:
		return StrLit("")
	case KArr:
		return ConstArr(s, zeroSort(s.V))
	case KDT:
		var fs []*Term
		for _, f := range s.Fields {
			fs = append(fs, zeroSort(f.Sort))
		}
		return Mk(s, fs...)
	}
	panic("zero " + s.Name)
}

// intRange returns the inclusive range of an integer type whose values are represented as Int.
func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, is := types.Unalias(t).Underlying().(*types.Basic)
	if !is || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	mk := func(bits uint, signed bool) (*big.Int, *big.Int, bool) {
		one := big.NewInt(1)
		if signed {
			h := new(big.Int).Lsh(one, bits-1)
			return new(big.Int).Neg(h), new(big.Int).Sub(h, one), true
		}
		return new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(one, bits), one), true
	}
	switch b.Kind() {
	case types.Int8:
		return mk(8, true)
	case types.Int16:
		return mk(16, true)
	case types.Int32:
		return mk(32, true)
	case types.Int, types.Int64:
		return mk(64, true)
	case types.Uint8:
		return mk(8, false)
	case types.Uint16:
		return mk(16, false)
	case types.Uint32:
		return mk(32, false)
	case types.Uint, types.Uint64, types.Uintptr:
		return mk(64, false)
	}
	return nil, nil, false
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
