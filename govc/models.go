package main

// Models of library functions whose meaning is fixed, and package constants.

import (
	"go/ast"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type model func(x *Exec, fr *Frame, st *State, args []Val) Val

var models map[string]model

func real1(f func(t *Term) *Term) model {
	return func(x *Exec, fr *Frame, st *State, args []Val) Val { return f(x.asTerm(args[0])) }
}

func init() {
	half := func(t *Term) *Term { return ToReal(roundReal(t)) }
	fatal := func(x *Exec, fr *Frame, st *State, args []Val) Val { st.pc = False; return Tuple{} }
	noop := func(x *Exec, fr *Frame, st *State, args []Val) Val { return Tuple{} }
	newErr := func(x *Exec, fr *Frame, st *State, args []Val) Val {
		r := Fresh("err", SInt)
		x.gfact(Lt(IntT(0), r))
		return r
	}
	models = map[string]model{
		"math.Abs": real1(func(t *Term) *Term { return Ite(Ge(t, RealT(ratZero)), t, Neg(t)) }),
		"math.Floor": real1(func(t *Term) *Term { return ToReal(ToInt(t)) }),
		"math.Ceil":  real1(func(t *Term) *Term { return ToReal(Neg(ToInt(Neg(t)))) }),
		"math.Trunc": real1(func(t *Term) *Term { return ToReal(truncReal(t)) }),
		"math.Round": real1(half),
		"math.Max": func(x *Exec, fr *Frame, st *State, a []Val) Val {
			return Ite(Ge(x.asTerm(a[0]), x.asTerm(a[1])), x.asTerm(a[0]), x.asTerm(a[1]))
		},
		"math.Min": func(x *Exec, fr *Frame, st *State, a []Val) Val {
			return Ite(Le(x.asTerm(a[0]), x.asTerm(a[1])), x.asTerm(a[0]), x.asTerm(a[1]))
		},
		"math.Sqrt": func(x *Exec, fr *Frame, st *State, a []Val) Val {
			t := x.asTerm(a[0])
			r := Fn("sqrt", SReal, t)
			if !r.hasB {
				z := RealT(ratZero)
				x.gfact(Implies(Ge(t, z), And(Ge(r, z), Eq(Mul(r, r), t))))
			}
			return r
		},
		"math.IsNaN": func(x *Exec, fr *Frame, st *State, a []Val) Val { return False },
		"math.IsInf": func(x *Exec, fr *Frame, st *State, a []Val) Val { return False },
		"math.Inf": func(x *Exec, fr *Frame, st *State, a []Val) Val {
			return Fn("mathInf", SReal, x.asTerm(a[0]))
		},
		"math.Pow": func(x *Exec, fr *Frame, st *State, a []Val) Val {
			return Fn("mathPow", SReal, x.asTerm(a[0]), x.asTerm(a[1]))
		},

		"log.Printf": noop, "log.Println": noop, "log.Print": noop,
		"log.Fatalf": fatal, "log.Fatal": fatal, "log.Fatalln": fatal, "os.Exit": fatal,
		"log.SetFlags": noop,
		"fmt.Errorf":   newErr, "errors.New": newErr,

		"(*sync.Mutex).Lock":      func(x *Exec, fr *Frame, st *State, a []Val) Val { x.lockOp(fr, st, a[0], true, false); return Tuple{} },
		"(*sync.Mutex).Unlock":    func(x *Exec, fr *Frame, st *State, a []Val) Val { x.lockOp(fr, st, a[0], false, false); return Tuple{} },
		"(*sync.RWMutex).Lock":    func(x *Exec, fr *Frame, st *State, a []Val) Val { x.lockOp(fr, st, a[0], true, false); return Tuple{} },
		"(*sync.RWMutex).Unlock":  func(x *Exec, fr *Frame, st *State, a []Val) Val { x.lockOp(fr, st, a[0], false, false); return Tuple{} },
		"(*sync.RWMutex).RLock":   func(x *Exec, fr *Frame, st *State, a []Val) Val { x.lockOp(fr, st, a[0], true, true); return Tuple{} },
		"(*sync.RWMutex).RUnlock": func(x *Exec, fr *Frame, st *State, a []Val) Val { x.lockOp(fr, st, a[0], false, true); return Tuple{} },
		"(*sync.WaitGroup).Add":  func(x *Exec, fr *Frame, st *State, a []Val) Val { x.wgAdd(st, a[0], x.asTerm(a[1])); return Tuple{} },
		"(*sync.WaitGroup).Done": func(x *Exec, fr *Frame, st *State, a []Val) Val { x.wgDone(st, a[0]); return Tuple{} },
		"(*sync.WaitGroup).Wait": func(x *Exec, fr *Frame, st *State, a []Val) Val { x.sharedWait(fr, st, a[0]); return Tuple{} },
	}
}

// ---- package variables assigned only in their declaration

type globalUse struct {
	fn *ssa.Function
	in ssa.Instruction
}

var globalUses map[*ssa.Global][]globalUse
var constGlobals = map[*ssa.Global]Val{}

func (x *Exec) constGlobal(g *ssa.Global) (res Val) {
	if v, ok := constGlobals[g]; ok {
		return v
	}
	defer func() {
		if res == nil {
			constGlobals[g] = nil
		} else {
			constGlobals[g] = res
		}
	}()
	if globalUses == nil {
		globalUses = map[*ssa.Global][]globalUse{}
		for _, fn := range x.P.byName {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if u, ok := in.(*ssa.UnOp); ok {
						if _, isG := u.X.(*ssa.Global); isG {
							continue
						}
					}
					if _, ok := in.(*ssa.DebugRef); ok {
						continue
					}
					for _, op := range in.Operands(nil) {
						if gg, ok := (*op).(*ssa.Global); ok {
							globalUses[gg] = append(globalUses[gg], globalUse{fn, in})
						}
					}
				}
			}
		}
	}
	el := g.Type().Underlying().(*types.Pointer).Elem()
	switch el.Underlying().(type) {
	case *types.Basic, *types.Struct, *types.Interface:
	default:
		return nil
	}
	var cur *Term
	switch el.Underlying().(type) {
	case *types.Interface:
		// assigned once from a call: a fixed unknown value
		n := 0
		for _, u := range globalUses[g] {
			if _, ok := u.in.(*ssa.Store); !ok || u.fn.Name() != "init" {
				return nil
			}
			n++
		}
		t := Sym("glob$"+sanitize(g.String()), SInt)
		return t
	}
	cur = zeroTerm(el)
	for _, u := range globalUses[g] {
		if u.fn.Name() != "init" && !isInitFn(u.fn) {
			// reading a field is harmless
			if fa, ok := u.in.(*ssa.FieldAddr); ok && onlyLoaded(fa) {
				continue
			}
			return nil
		}
		switch s := u.in.(type) {
		case *ssa.Store:
			v := x.initValue(s.Val)
			if v == nil {
				return nil
			}
			cur = v
		case *ssa.FieldAddr:
			for _, r := range *s.Referrers() {
				switch rr := r.(type) {
				case *ssa.Store:
					c, ok := rr.Val.(*ssa.Const)
					if !ok || rr.Addr != s {
						return nil
					}
					cur = UpdF(cur, s.Field, x.asTerm(x.constVal(c)))
				case *ssa.DebugRef:
				default:
					return nil
				}
			}
		default:
			return nil
		}
	}
	return cur
}

// initValue evaluates a constant or a composite literal of constants.
func (x *Exec) initValue(v ssa.Value) *Term {
	switch c := v.(type) {
	case *ssa.Const:
		return x.asTerm(x.constVal(c))
	case *ssa.UnOp:
		a, ok := c.X.(*ssa.Alloc)
		if !ok {
			return nil
		}
		t := zeroTerm(a.Type().Underlying().(*types.Pointer).Elem())
		for _, r := range *a.Referrers() {
			switch f := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				for _, q := range *f.Referrers() {
					switch w := q.(type) {
					case *ssa.Store:
						e := x.initValue(w.Val)
						if e == nil || w.Addr != f {
							return nil
						}
						t = UpdF(t, f.Field, e)
					case *ssa.DebugRef:
					default:
						return nil
					}
				}
			default:
				return nil
			}
		}
		return t
	}
	return nil
}

func isInitFn(f *ssa.Function) bool { return f.Synthetic == "package initializer" }

func onlyLoaded(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch u := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !onlyLoaded(u) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func walkIdents(e ast.Expr, f func(string)) {
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			f(id.Name)
		}
		return true
	})
}
