package main

// Evaluation of specification expressions.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type SV struct {
	v     Val
	t     types.Type // nil for purely logical values
	isNil bool
}

func (s SV) term(x *Exec) *Term {
	return x.asTerm(s.v)
}

type specCtx struct {
	x         *Exec
	fr        *Frame
	st        *State
	old       *State
	loopEntry *State
	bound     map[string]SV
	results   []Val
	resTypes  []types.Type
	resNames  []string
	params    map[string]SV // overrides everything but bound
	onlyParam bool          // names resolve only to params (callee contracts)
	pkg       *types.Package
	trig      *[]*Term
	entryVars bool // parameters mean their entry values
	depth     int
}

func (c *specCtx) with(f func(n *specCtx)) *specCtx {
	n := *c
	f(&n)
	return &n
}

func specErr(f string, a ...interface{}) error { return unsupported("spec: "+f, a...) }

func (x *Exec) evalBool(e ast.Expr, c *specCtx) *Term {
	v := x.eval(e, c)
	t := v.term(x)
	if t.Sort != SBool {
		panic(specErr("expression %s is not boolean", exprStr(e)))
	}
	return t
}

func (x *Exec) evalTermIn(e ast.Expr, c *specCtx) *Term { return x.eval(e, c).term(x) }

func exprStr(e ast.Expr) string { return types.ExprString(e) }

func (x *Exec) ctxPkg(c *specCtx) *types.Package {
	if c.pkg != nil {
		return c.pkg
	}
	if c.fr != nil {
		f := c.fr
		for f.parent != nil {
			f = f.parent
		}
		if f.fn.Pkg != nil {
			return f.fn.Pkg.Pkg
		}
	}
	return nil
}

// typeOf resolves a type written in a contract.
func (x *Exec) typeByName(s string, pkg *types.Package) types.Type {
	if strings.HasPrefix(s, "*") {
		return types.NewPointer(x.typeByName(s[1:], pkg))
	}
	if strings.HasPrefix(s, "[]") {
		return types.NewSlice(x.typeByName(s[2:], pkg))
	}
	if s == "float" || s == "real" {
		s = "float64"
	}
	if o := types.Universe.Lookup(s); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	if i := strings.Index(s, "."); i >= 0 {
		p := x.pkgByAlias(s[:i])
		if p != nil {
			if o, ok := p.Scope().Lookup(s[i+1:]).(*types.TypeName); ok {
				return o.Type()
			}
		}
		return nil
	}
	if pkg != nil {
		if o, ok := pkg.Scope().Lookup(s).(*types.TypeName); ok {
			return o.Type()
		}
	}
	return nil
}

func (x *Exec) pkgByAlias(a string) *types.Package {
	if p, ok := aliases[a]; ok {
		return x.P.ipkgs[p]
	}
	for _, p := range x.P.ipkgs {
		if p.Name() == a {
			return p
		}
		for _, i := range p.Imports() {
			if i.Name() == a {
				return i
			}
		}
	}
	return nil
}

func (x *Exec) sortByName(s string, pkg *types.Package) *Sort {
	// set[T], map[K]V as arrays
	if strings.HasPrefix(s, "set[") {
		return SArr(x.sortByName(s[4:len(s)-1], pkg), SBool)
	}
	if strings.HasPrefix(s, "arr[") {
		i := strings.Index(s, "]")
		return SArr(x.sortByName(s[4:i], pkg), x.sortByName(s[i+1:], pkg))
	}
	t := x.typeByName(s, pkg)
	if t == nil {
		panic(specErr("unknown type %q", s))
	}
	return sortOf(t)
}

func num(n int64) SV { return SV{v: IntT(n)} }

func (x *Exec) lookupVar(name string, c *specCtx) (SV, bool) {
	if v, ok := c.bound[name]; ok {
		return v, true
	}
	if v, ok := c.params[name]; ok {
		return v, true
	}
	if len(c.results) > 0 {
		if name == "result" {
			return SV{v: c.results[0], t: c.resTypes[0]}, true
		}
		if strings.HasPrefix(name, "result") {
			var n int
			if _, err := fmt.Sscanf(name, "result%d", &n); err == nil && n < len(c.results) {
				return SV{v: c.results[n], t: c.resTypes[n]}, true
			}
		}
		for i, r := range c.resNames {
			if r == name && r != "" && r != "_" {
				return SV{v: c.results[i], t: c.resTypes[i]}, true
			}
		}
	}
	if c.st != nil {
		if g, ok := c.st.ghost[name]; ok {
			return SV{v: g, t: x.ghostT[name]}, true
		}
	}
	if c.onlyParam {
		return SV{}, false
	}
	if c.entryVars {
		if v, ok := x.pnames[name]; ok {
			return SV{v: v, t: x.ptypes[name]}, true
		}
	}
	if v, ok := x.lets[name]; ok {
		return v, true
	}
	if c.fr != nil {
		st := c.st
		for f := c.fr; f != nil; f = f.parent {
			if st != nil {
				if r, ok := st.vars[name]; ok {
					if r.isAddr {
						// contents in the context's memory
						p := x.asPtr(r.v, types.NewPointer(r.t))
						if isFunc(r.t) {
							if fv, ok := theFuncCells[p.blk]; ok {
								return SV{v: fv, t: r.t}, true
							}
						}
						return SV{v: x.load(c.st, p), t: r.t}, true
					}
					return SV{v: r.v, t: r.t}, true
				}
			}
			for fv, b := range f.binds {
				if fv.Name() == name {
					pt := fv.Type()
					if v, ok := fv.(*ssa.FreeVar); ok {
						_ = v
						p := x.asPtr(b, pt)
						el := pt.Underlying().(*types.Pointer).Elem()
						if isFunc(el) {
							if cv, ok := theFuncCells[p.blk]; ok {
								return SV{v: cv, t: el}, true
							}
						}
						return SV{v: x.load(c.st, p), t: el}, true
					}
				}
			}
			st = f.pstate
		}
	}
	if v, ok := x.pnames[name]; ok {
		return SV{v: v, t: x.ptypes[name]}, true
	}
	return SV{}, false
}

func (x *Exec) eval(e ast.Expr, c *specCtx) SV {
	switch n := e.(type) {
	case *ast.ParenExpr:
		return x.eval(n.X, c)
	case *ast.BasicLit:
		v := constant.MakeFromLiteral(n.Value, n.Kind, 0)
		switch n.Kind {
		case token.INT, token.CHAR:
			return SV{v: constTerm(constant.ToInt(v), SInt)}
		case token.FLOAT:
			// as Go rounds it
			f, _ := constant.Float64Val(v)
			return SV{v: constTerm(constant.MakeFloat64(f), SReal)}
		case token.STRING:
			return SV{v: StrLit(constant.StringVal(v)), t: types.Typ[types.String]}
		}
	case *ast.Ident:
		switch n.Name {
		case "true":
			return SV{v: True}
		case "false":
			return SV{v: False}
		case "nil":
			return SV{v: IntT(0), isNil: true}
		}
		if v, ok := x.lookupVar(n.Name, c); ok {
			return v
		}
		if d, ok := x.C.Defines[n.Name]; ok && len(d.Params) == 0 {
			return x.evalDefine(d, nil, c)
		}
		if u, ok := x.C.UFuns[n.Name]; ok && len(u.Args) == 0 {
			return x.applyUFun(u, nil, c)
		}
		if pkg := x.ctxPkg(c); pkg != nil {
			if o := pkg.Scope().Lookup(n.Name); o != nil {
				return x.pkgObject(o, c)
			}
		}
		panic(specErr("unknown name %q", n.Name))
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok {
			if _, isVar := x.lookupVar(id.Name, c); !isVar {
				if p := x.pkgByAlias(id.Name); p != nil {
					if o := p.Scope().Lookup(n.Sel.Name); o != nil {
						return x.pkgObject(o, c)
					}
				}
			}
		}
		b := x.eval(n.X, c)
		return x.selField(b, n.Sel.Name, c)
	case *ast.StarExpr:
		b := x.eval(n.X, c)
		p := x.asPtr(b.v, b.t)
		el := b.t.Underlying().(*types.Pointer).Elem()
		return SV{v: x.load(c.st, p), t: el}
	case *ast.IndexExpr:
		return x.evalIndex(n, c)
	case *ast.UnaryExpr:
		if n.Op == token.AND {
			// the address of a local variable kept in memory
			if id, ok := n.X.(*ast.Ident); ok && c.fr != nil {
				st := c.st
				for f := c.fr; f != nil && st != nil; f = f.parent {
					if r, ok := st.vars[id.Name]; ok && r.isAddr {
						return SV{v: x.asTerm(r.v), t: types.NewPointer(r.t)}
					}
					st = f.pstate
				}
			}
			if ix, ok := n.X.(*ast.IndexExpr); ok { // the address of a slice element
				b := x.eval(ix.X, c)
				if sl, ok := b.t.Underlying().(*types.Slice); ok {
					s := b.term(x)
					i := x.eval(ix.Index, c).term(x)
					return SV{v: Mk(SPtr, SelN(s, "sblk"), Add(SelN(s, "soff"), i)), t: types.NewPointer(sl.Elem())}
				}
			}
			panic(specErr("address of %s", exprStr(n.X)))
		}
		v := x.eval(n.X, c)
		switch n.Op {
		case token.NOT:
			return SV{v: Not(v.term(x))}
		case token.SUB:
			return SV{v: Neg(v.term(x))}
		case token.XOR:
			return SV{v: BVNot(v.term(x)), t: v.t}
		}
	case *ast.BinaryExpr:
		return x.evalBinary(n, c)
	case *ast.CallExpr:
		return x.evalCall(n, c)
	case *ast.CompositeLit:
		var t types.Type
		switch tt := n.Type.(type) {
		case *ast.Ident:
			t = x.typeByName(tt.Name, x.ctxPkg(c))
		case *ast.SelectorExpr:
			t = x.typeByName(exprStr(tt), x.ctxPkg(c))
		}
		if t == nil {
			panic(specErr("type of %s", exprStr(e)))
		}
		s := sortOf(t)
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			panic(specErr("composite %s", exprStr(e)))
		}
		fs := make([]*Term, len(s.Fields))
		for i := range fs {
			fs[i] = zeroSort(s.Fields[i].Sort)
		}
		for i, el := range n.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				for j := 0; j < st.NumFields(); j++ {
					if st.Field(j).Name() == kv.Key.(*ast.Ident).Name {
						fs[j] = coerce(x.eval(kv.Value, c).term(x), s.Fields[j].Sort)
					}
				}
				continue
			}
			fs[i] = coerce(x.eval(el, c).term(x), s.Fields[i].Sort)
		}
		return SV{v: Mk(s, fs...), t: t}
	}
	panic(specErr("unsupported expression %s", exprStr(e)))
}

func coerce(t *Term, s *Sort) *Term {
	if t.Sort == s {
		return t
	}
	if t.Sort == SInt && s == SReal {
		return ToReal(t)
	}
	if t.Sort == SInt && s.Kind == KBV && t.IsConst() {
		return BVT(s.Bits, new(big.Int).And(t.Val.Num(), new(big.Int).SetUint64(^uint64(0))).Uint64())
	}
	if t.Sort == SInt && t.IsConst() && t.Val.Sign() == 0 && (s == SPtr || s == SSlice) {
		return zeroSort(s)
	}
	panic(specErr("sort %s where %s is expected: %v", t.Sort.Name, s.Name, t))
}

func (x *Exec) pkgObject(o types.Object, c *specCtx) SV {
	switch v := o.(type) {
	case *types.Const:
		t := v.Type()
		if n := bvBits(t); n > 0 {
			u, _ := constant.Uint64Val(constant.ToInt(v.Val()))
			return SV{v: BVT(n, u), t: t}
		}
		b, ok := t.Underlying().(*types.Basic)
		if !ok {
			break
		}
		s := basicSort(b)
		if s == SReal && v.Val().Kind() == constant.Float { // as the code uses it
			f, _ := constant.Float64Val(v.Val())
			return SV{v: constTerm(constant.MakeFloat64(f), s), t: t}
		}
		return SV{v: constTerm(v.Val(), s), t: t}
	case *types.Var:
		pk := x.P.prog.Package(v.Pkg())
		if pk != nil {
			if g, ok := pk.Members[v.Name()].(*ssa.Global); ok {
				if gv := x.globalValue(c.st, g); gv != nil {
					return SV{v: gv, t: v.Type()}
				}
				p := x.val(nil, nil, g).(*Ptr)
				if p.arr {
					return SV{v: x.load(c.st, p), t: v.Type()}
				}
				return SV{v: x.load(c.st, p), t: v.Type()}
			}
		}
		// global of a dependency: fixed unknown value
		return SV{v: x.depGlobal(v), t: v.Type()}
	case *types.Func:
		pk := x.P.prog.Package(v.Pkg())
		if pk != nil {
			if f := pk.Func(v.Name()); f != nil {
				return SV{v: &Closure{fn: f}, t: v.Type()}
			}
		}
	}
	panic(specErr("object %v", o))
}

func (x *Exec) depGlobal(v *types.Var) *Term {
	t := Sym("glob$"+sanitize(v.Pkg().Path()+"."+v.Name()), sortOf(v.Type()))
	if _, ok := v.Type().Underlying().(*types.Interface); ok {
		x.gfact(Lt(IntT(0), t))
	}
	return t
}

func (x *Exec) selField(b SV, name string, c *specCtx) SV {
	if b.t == nil {
		if t, ok := b.v.(*Term); ok && t.Sort.Kind == KDT {
			if i := t.Sort.field(name); i >= 0 {
				return SV{v: SelF(t, i)}
			}
		}
		panic(specErr("field %s of a logical value", name))
	}
	t := b.t
	isPtr := false
	if p, ok := t.Underlying().(*types.Pointer); ok {
		isPtr = true
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic(specErr("field %s of %v", name, b.t))
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() == name {
			if isPtr {
				p := x.asPtr(b.v, b.t)
				q := *p
				q.path = append(append([]pathElem(nil), p.path...), pathElem{field: i, typ: f.Type()})
				return SV{v: x.load(c.st, &q), t: f.Type()}
			}
			return SV{v: SelF(x.asTerm(b.v), i), t: f.Type()}
		}
	}
	for i := 0; i < st.NumFields(); i++ { // embedded
		f := st.Field(i)
		if f.Embedded() {
			return x.selField(x.selField(b, f.Name(), c), name, c)
		}
	}
	panic(specErr("no field %s in %v", name, b.t))
}

func (x *Exec) evalIndex(n *ast.IndexExpr, c *specCtx) SV {
	b := x.eval(n.X, c)
	if b.t == nil {
		t := b.v.(*Term)
		if t.Sort.Kind == KArr {
			i := coerce(x.eval(n.Index, c).term(x), t.Sort.K)
			r := Select(t, i)
			x.noteTrig(c, r)
			return SV{v: r}
		}
		panic(specErr("index of logical value %s", exprStr(n)))
	}
	iv := x.eval(n.Index, c)
	switch u := b.t.Underlying().(type) {
	case *types.Slice:
		s := x.asTerm(b.v)
		p := &Ptr{blk: SelN(s, "sblk"), idx: Add(SelN(s, "soff"), iv.term(x)), root: u.Elem()}
		r := x.load(c.st, p)
		return SV{v: r, t: u.Elem()}
	case *types.Array:
		return SV{v: Select(x.asTerm(b.v), iv.term(x)), t: u.Elem()}
	case *types.Pointer:
		if at, ok := u.Elem().Underlying().(*types.Array); ok {
			p := x.asPtr(b.v, b.t)
			return SV{v: x.load(c.st, &Ptr{blk: p.blk, idx: iv.term(x), root: at.Elem()}), t: at.Elem()}
		}
	case *types.Map:
		k := coerce(iv.term(x), sortOf(u.Key()))
		_, v := x.mapGet(c.st, u, x.asTerm(b.v), k)
		return SV{v: v, t: u.Elem()}
	case *types.Basic:
		return SV{v: Fn("strAt", SInt, x.asTerm(b.v), iv.term(x)), t: types.Typ[types.Byte]}
	}
	panic(specErr("index %s", exprStr(n)))
}

func (x *Exec) noteTrig(c *specCtx, t *Term) {}

func (x *Exec) evalBinary(n *ast.BinaryExpr, c *specCtx) SV {
	switch n.Op {
	case token.LAND:
		return SV{v: And(x.evalBool(n.X, c), x.evalBool(n.Y, c))}
	case token.LOR:
		return SV{v: Or(x.evalBool(n.X, c), x.evalBool(n.Y, c))}
	}
	a, b := x.eval(n.X, c), x.eval(n.Y, c)
	if n.Op == token.EQL || n.Op == token.NEQ {
		var r *Term
		switch {
		case a.isNil && b.isNil:
			r = True
		case b.isNil:
			r = x.isNilTerm(a)
		case a.isNil:
			r = x.isNilTerm(b)
		default:
			a, b = x.toIface(c, a, b.t), x.toIface(c, b, a.t)
			if _, ok := a.v.(*Ptr); ok {
				r = x.equal(c.st, a.v, b.v)
			} else if _, ok := b.v.(*Ptr); ok {
				r = x.equal(c.st, a.v, b.v)
			} else {
				at, bt := unify(a.term(x), b.term(x))
				r = Eq(at, bt)
			}
		}
		if n.Op == token.NEQ {
			r = Not(r)
		}
		return SV{v: r}
	}
	at, bt := a.term(x), b.term(x)
	rt := a.t
	if at.Sort != bt.Sort && n.Op != token.SHL && n.Op != token.SHR {
		if at.Sort.Kind == KBV {
			rt = a.t
		} else if bt.Sort.Kind == KBV {
			rt = b.t
		} else {
			rt = nil
		}
		at, bt = unify(at, bt)
	}
	if at.Sort.Kind == KBV {
		return SV{v: x.binop(c.st, n.Op, at, bt, nil, nil, nil), t: rt}
	}
	switch n.Op {
	case token.ADD:
		if at.Sort == SStr {
			return SV{v: x.binop(c.st, n.Op, at, bt, nil, nil, nil), t: a.t}
		}
		return SV{v: Add(at, bt)}
	case token.SUB:
		return SV{v: Sub(at, bt)}
	case token.MUL:
		return SV{v: Mul(at, bt)}
	case token.QUO:
		if at.Sort == SReal {
			return SV{v: RDiv(at, bt)}
		}
		return SV{v: truncDiv(at, bt)}
	case token.REM:
		return SV{v: truncRem(at, bt)}
	case token.LSS:
		return SV{v: Lt(at, bt)}
	case token.LEQ:
		return SV{v: Le(at, bt)}
	case token.GTR:
		return SV{v: Gt(at, bt)}
	case token.GEQ:
		return SV{v: Ge(at, bt)}
	case token.AND, token.OR, token.SHL, token.SHR:
		return SV{v: x.binop(c.st, n.Op, at, bt, types.Typ[types.Int], types.Typ[types.Int], types.Typ[types.Int])}
	}
	panic(specErr("operator %v", n.Op))
}

func unify(a, b *Term) (*Term, *Term) {
	if a.Sort == b.Sort {
		return a, b
	}
	if a.Sort == SInt {
		return coerce(a, b.Sort), b
	}
	return a, coerce(b, a.Sort)
}

func (x *Exec) isNilTerm(a SV) *Term {
	switch p := a.v.(type) {
	case *Ptr:
		return Eq(p.blk, IntT(0))
	case *Closure:
		return False
	case *Term:
		if p.Sort == SPtr || p.Sort == SSlice {
			return Eq(SelF(p, 0), IntT(0))
		}
		return Eq(p, IntT(0))
	case *FuncSym:
		return False
	}
	panic(specErr("nil comparison of %T", a.v))
}

func (x *Exec) evalDefine(d *Define, args []SV, c *specCtx) SV {
	if c.depth > 60 {
		panic(specErr("define recursion"))
	}
	nb := map[string]SV{}
	for k, v := range c.bound {
		nb[k] = v
	}
	for i, p := range d.Params {
		nb[p] = args[i]
	}
	return x.eval(d.Body, c.with(func(n *specCtx) { n.bound = nb; n.depth++ }))
}

// ghostType is the Go type of a ghost variable, for the types whose values have parts.
func (x *Exec) ghostType(name string, pkg *types.Package) types.Type {
	if strings.HasPrefix(name, "set[") || strings.HasPrefix(name, "arr[") {
		return nil
	}
	t := x.typeByName(name, pkg)
	if t == nil {
		return nil
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Struct, *types.Slice, *types.Interface, *types.Map:
		return t
	}
	return nil
}

func (x *Exec) applyUFun(u *UFun, args []SV, c *specCtx) SV {
	pkg := x.ctxPkg(c)
	if u.Alias != "" {
		pkg = x.P.ipkgs[aliases[u.Alias]]
	}
	ret := x.sortByName(u.Ret, pkg)
	var ts []*Term
	if len(args) != len(u.Args) {
		panic(specErr("arity of %s", u.Name))
	}
	for i, a := range args {
		a = x.toIface(c, a, x.typeByName(u.Args[i], pkg))
		ts = append(ts, coerce(a.term(x), x.sortByName(u.Args[i], pkg)))
	}
	return SV{v: Fn("u$"+u.Name, ret, ts...), t: x.typeByName(u.Ret, pkg)}
}

func (x *Exec) evalCall(n *ast.CallExpr, c *specCtx) SV {
	id, _ := n.Fun.(*ast.Ident)
	if id != nil {
		if d, ok := x.C.Defines[id.Name]; ok {
			if len(d.Params) != len(n.Args) {
				panic(specErr("arity of %s", id.Name))
			}
			var args []SV
			for _, a := range n.Args {
				args = append(args, x.eval(a, c))
			}
			return x.evalDefine(d, args, c)
		}
		if u, ok := x.C.UFuns[id.Name]; ok {
			var args []SV
			for _, a := range n.Args {
				args = append(args, x.eval(a, c))
			}
			return x.applyUFun(u, args, c)
		}
		if v, ok := x.builtinSpec(id.Name, n, c); ok {
			return v
		}
	}
	// Go functions and methods, executed symbolically without obligations
	if sel, ok := n.Fun.(*ast.SelectorExpr); ok {
		isPkg := false
		if pid, ok := sel.X.(*ast.Ident); ok {
			if _, isVar := x.lookupVar(pid.Name, c); !isVar && x.pkgByAlias(pid.Name) != nil {
				isPkg = true
			}
		}
		if !isPkg {
			recv := x.eval(sel.X, c)
			if recv.t != nil {
				ms := x.P.prog.MethodSets.MethodSet(recv.t)
				var s *types.Selection
				for i := 0; i < ms.Len(); i++ {
					if ms.At(i).Obj().Name() == sel.Sel.Name {
						s = ms.At(i)
					}
				}
				if _, ok := recv.t.Underlying().(*types.Interface); ok && s != nil {
					return x.specInvoke(recv, s.Obj().(*types.Func), n.Args, c)
				}
				if s != nil {
					fn := x.P.prog.MethodValue(s)
					args := []Val{recv.v}
					for i, a := range n.Args {
						v := x.eval(a, c)
						args = append(args, x.argVal(c, v, fn.Signature.Params().At(i).Type()))
					}
					return x.specCallGo(fn, args, c)
				}
			}
			panic(specErr("method %s", exprStr(n)))
		}
	}
	f := x.eval(n.Fun, c)
	if cl, ok := f.v.(*Closure); ok {
		var args []Val
		for i, a := range n.Args {
			v := x.eval(a, c)
			args = append(args, x.argVal(c, v, cl.fn.Signature.Params().At(i).Type()))
		}
		return x.specCallGo(cl.fn, args, c)
	}
	panic(specErr("call %s", exprStr(n)))
}

// specInvoke evaluates a method of an interface that is declared pure.
func (x *Exec) specInvoke(recv SV, m *types.Func, as []ast.Expr, c *specCtx) SV {
	name := fmt.Sprintf("(%s).%s", types.TypeString(recv.t, nil), m.Name())
	if e := x.C.Externs[name]; e == nil || e.Kind != "pure" {
		panic(specErr("%s is not pure", name))
	}
	sig := m.Type().(*types.Signature)
	args := []Val{x.asTerm(recv.v)}
	for i, a := range as {
		args = append(args, x.argVal(c, x.eval(a, c), sig.Params().At(i).Type()))
	}
	x.inSpec++
	defer func() { x.inSpec-- }()
	r := x.callNamed2(c.fr, c.st.copy(), name, sig, args, nil)
	if sig.Results().Len() == 1 {
		return SV{v: r, t: sig.Results().At(0).Type()}
	}
	return SV{v: r, t: sig.Results()}
}

// toIface boxes a value of a concrete type where an interface is expected.
func (x *Exec) toIface(c *specCtx, v SV, t types.Type) SV {
	if t == nil || v.t == nil || v.isNil {
		return v
	}
	if _, ok := t.Underlying().(*types.Interface); !ok {
		return v
	}
	if _, ok := v.t.Underlying().(*types.Interface); ok {
		return v
	}
	if b, ok := v.t.Underlying().(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return v
	}
	return SV{v: x.box(c.st, v.v, v.t), t: t}
}

func (x *Exec) argVal(c *specCtx, v SV, t types.Type) Val {
	v = x.toIface(c, v, t)
	if tm, ok := v.v.(*Term); ok {
		return coerce(tm, sortOf(t))
	}
	return v.v
}

func (x *Exec) specCallGo(fn *ssa.Function, args []Val, c *specCtx) SV {
	x.inSpec++
	saveW, saveG := x.writes, x.guards
	x.writes, x.guards = nil, nil
	defer func() { x.inSpec--; x.writes, x.guards = saveW, saveG }()
	st := c.st.copy()
	fr := c.fr
	if fr == nil {
		fr = &Frame{fn: fn}
	}
	r := x.callFn(fr, st, fn, args, nil, nil)
	t := fn.Signature.Results()
	if t.Len() == 1 {
		return SV{v: r, t: t.At(0).Type()}
	}
	return SV{v: r, t: t}
}

func (x *Exec) quantVar(a ast.Expr, c *specCtx) (string, SV) {
	switch q := a.(type) {
	case *ast.Ident:
		return q.Name, SV{v: BoundVar(q.Name, SInt)}
	case *ast.CallExpr: // k(Type)
		name := q.Fun.(*ast.Ident).Name
		ts := exprStr(q.Args[0])
		s := x.sortByName(ts, x.ctxPkg(c))
		t := x.typeByName(ts, x.ctxPkg(c))
		if s.Kind == KDT && s != SPtr && s != SSlice && false {
			return name, SV{}
		}
		return name, SV{v: BoundVar(name, s), t: t}
	}
	panic(specErr("quantified variable %s", exprStr(a)))
}

func (x *Exec) builtinSpec(name string, n *ast.CallExpr, c *specCtx) (SV, bool) {
	arg := func(i int) *Term { return x.eval(n.Args[i], c).term(x) }
	switch name {
	case "forall", "exists", "all":
		nb := map[string]SV{}
		for k, v := range c.bound {
			nb[k] = v
		}
		var bs []*Term
		var trigs [][]*Term
		nc := c.with(func(m *specCtx) { m.bound = nb })
		for _, a := range n.Args[:len(n.Args)-1] {
			if q, ok := a.(*ast.CallExpr); ok {
				if id, ok := q.Fun.(*ast.Ident); ok && id.Name == "trig" {
					var tr []*Term
					for _, ta := range q.Args {
						tr = append(tr, x.eval(ta, nc).term(x))
					}
					trigs = append(trigs, tr)
					continue
				}
			}
			nm, v := x.quantVar(a, c)
			nb[nm] = v
			bs = append(bs, v.v.(*Term))
		}
		// facts about terms under a quantifier are not recorded
		body := x.evalBool(n.Args[len(n.Args)-1], nc)
		if name == "exists" {
			return SV{v: mkQuant(OExists, bs, trigs, body)}, true
		}
		return SV{v: mkQuant(OForall, bs, trigs, body)}, true
	case "old":
		oc := c.with(func(m *specCtx) { m.st = c.old; m.entryVars = true })
		return x.eval(n.Args[0], oc), true
	case "entry":
		return x.eval(n.Args[0], c.with(func(m *specCtx) { m.st = c.loopEntry })), true
	case "now":
		return x.eval(n.Args[0], c), true
	case "imp":
		return SV{v: Implies(x.evalBool(n.Args[0], c), x.evalBool(n.Args[1], c))}, true
	case "iff":
		return SV{v: Eq(x.evalBool(n.Args[0], c), x.evalBool(n.Args[1], c))}, true
	case "ite":
		a, b := x.eval(n.Args[1], c), x.eval(n.Args[2], c)
		at, bt := unify(a.term(x), b.term(x))
		t := a.t
		if t == nil {
			t = b.t
		}
		return SV{v: Ite(x.evalBool(n.Args[0], c), at, bt), t: t}, true
	case "has":
		m := x.eval(n.Args[0], c)
		if m.t == nil { // logical set
			mt := m.term(x)
			return SV{v: Select(mt, coerce(arg(1), mt.Sort.K))}, true
		}
		mt := mapTypes(m.t)
		k := coerce(arg(1), sortOf(mt.Key()))
		has, _ := x.mapGet(c.st, mt, x.asTerm(m.v), k)
		return SV{v: has}, true
	case "dom":
		m := x.eval(n.Args[0], c)
		_, d := c.st.domOf(mapTypes(m.t))
		x.nilMapFact(d, x.asTerm(m.v))
		return SV{v: x.mapDom(d, x.asTerm(m.v))}, true
	case "raw": // value array of a map, also outside its domain
		m := x.eval(n.Args[0], c)
		_, d := c.st.valOf(mapTypes(m.t))
		return SV{v: Select(d, x.asTerm(m.v))}, true
	case "store":
		a := arg(0)
		return SV{v: Store(a, coerce(arg(1), a.Sort.K), coerce(arg(2), a.Sort.V))}, true
	case "emptyset":
		s := x.sortByName(exprStr(n.Args[0]), x.ctxPkg(c))
		return SV{v: ConstArr(SArr(s, SBool), False)}, true
	case "len":
		v := x.eval(n.Args[0], c)
		switch u := v.t.Underlying().(type) {
		case *types.Slice:
			return SV{v: SelN(x.asTerm(v.v), "slen")}, true
		case *types.Map:
			_, d := c.st.domOf(u)
			dm := x.mapDom(d, x.asTerm(v.v))
			x.nilMapFact(d, x.asTerm(v.v))
			return SV{v: x.cardFacts(dm)}, true
		case *types.Array:
			return num(u.Len()), true
		case *types.Basic:
			return SV{v: strLen(x.asTerm(v.v))}, true
		}
	case "card":
		return SV{v: x.cardFacts(arg(0))}, true
	case "cap":
		if v := x.eval(n.Args[0], c); v.t != nil {
			if _, ok := v.t.Underlying().(*types.Chan); ok {
				return SV{v: chanCap(v.term(x))}, true
			}
		}
		return SV{v: SelN(arg(0), "scap")}, true
	case "member": // some member of a set that has any
		d := arg(0)
		x.cardFacts(d)
		return SV{v: Fn("cardw$"+sanitize(d.Sort.K.Name), d.Sort.K, d)}, true
	case "blk":
		return SV{v: blkOf(arg(0))}, true
	case "off":
		return SV{v: SelN(arg(0), "soff")}, true
	case "float", "float64", "real":
		return SV{v: ToReal(coerceNum(arg(0)))}, true
	case "int", "byte", "uint32", "uint8", "int64":
		v := x.eval(n.Args[0], c)
		t := v.term(x)
		if t.Sort.Kind == KBV {
			return SV{v: x.bv2int(t)}, true
		}
		if t.Sort == SReal {
			return SV{v: truncReal(t)}, true
		}
		if name == "byte" || name == "uint8" {
			return SV{v: x.wrap(t, types.Typ[types.Byte])}, true
		}
		return SV{v: t}, true
	case "bv32":
		return SV{v: x.int2bv(arg(0), 32)}, true
	case "bv8":
		return SV{v: x.int2bv(arg(0), 8)}, true
	case "floor":
		return SV{v: ToInt(coerce(arg(0), SReal))}, true
	case "ceil":
		return SV{v: Neg(ToInt(Neg(coerce(arg(0), SReal))))}, true
	case "trunc":
		return SV{v: truncReal(coerce(arg(0), SReal))}, true
	case "round":
		return SV{v: roundReal(coerce(arg(0), SReal))}, true
	case "abs":
		a := arg(0)
		return SV{v: Ite(Ge(a, zeroSort(a.Sort)), a, Neg(a))}, true
	case "min", "max":
		a, b := unify(arg(0), arg(1))
		if name == "min" {
			return SV{v: Ite(Le(a, b), a, b)}, true
		}
		return SV{v: Ite(Ge(a, b), a, b)}, true
	case "div":
		return SV{v: EDiv(arg(0), arg(1))}, true
	case "mod":
		return SV{v: EMod(arg(0), arg(1))}, true
	case "fresh":
		return SV{v: Ge(blkOf(arg(0)), c.old.alloc)}, true
	case "isold":
		return SV{v: Lt(blkOf(arg(0)), c.old.alloc)}, true
	case "heapkept": // heapkept(T, r, cond): blocks r of T's memory with cond that existed before are as they were
		t := x.typeByName(exprStr(n.Args[0]), x.ctxPkg(c))
		if t == nil {
			panic(specErr("type %s", exprStr(n.Args[0])))
		}
		_, a := c.st.memOf(t)
		_, b := c.old.memOf(t)
		r := BoundVar("r", SInt)
		nb := map[string]SV{}
		for k, v := range c.bound {
			nb[k] = v
		}
		nb[exprStr(n.Args[1])] = SV{v: r}
		cond := x.evalBool(n.Args[2], c.with(func(m *specCtx) { m.bound = nb }))
		body := Implies(And(Lt(r, c.old.alloc), Ne(r, IntT(0)), cond), Eq(Select(a, r), Select(b, r)))
		ts := [][]*Term{{intern(&Term{Op: OSelect, Sort: a.Sort.V, Args: []*Term{a, r}})}}
		if a == b {
			return SV{v: True}, true
		}
		ts = append(ts, []*Term{intern(&Term{Op: OSelect, Sort: b.Sort.V, Args: []*Term{b, r}})})
		return SV{v: mkQuant(OForall, []*Term{r}, ts, body)}, true
	case "unchanged":
		var cs []*Term
		for i := range n.Args {
			a := x.eval(n.Args[i], c)
			b := x.eval(n.Args[i], c.with(func(m *specCtx) { m.st = c.old; m.entryVars = true }))
			cs = append(cs, Eq(a.term(x), b.term(x)))
		}
		return SV{v: And(cs...)}, true
	case "samecontents": // map or slice contents unchanged since entry
		var cs []*Term
		for i := range n.Args {
			a := x.eval(n.Args[i], c)
			b := x.eval(n.Args[i], c.with(func(m *specCtx) { m.st = c.old; m.entryVars = true }))
			cs = append(cs, x.sameContents(a, c.st, b, c.old))
		}
		return SV{v: And(cs...)}, true
	case "visited":
		// visited(k): k was already produced by the innermost map range of the current function
		it := x.iterOf(c)
		return SV{v: Select(it.visited, coerce(arg(0), it.visited.Sort.K))}, true
	case "visited2":
		k := arg(1)
		cnt, _ := arg(0).Int64()
		it := x.iterN(c, int(cnt))
		return SV{v: Select(it.visited, coerce(k, it.visited.Sort.K))}, true
	case "iterdom":
		it := x.iterOf(c)
		return SV{v: it.dom0}, true
	case "visitedset":
		it := x.iterOf(c)
		return SV{v: it.visited}, true
	case "isnil":
		return SV{v: x.isNilTerm(x.eval(n.Args[0], c))}, true
	case "str":
		return SV{v: arg(0)}, true
	case "inner": // contents of a slice's block as a logical array
		v := x.eval(n.Args[0], c)
		_, m := c.st.memOf(v.t.Underlying().(*types.Slice).Elem())
		return SV{v: Select(m, SelF(x.asTerm(v.v), 0))}, true
	case "unbox":
		t := x.typeByName(exprStr(n.Args[1]), x.ctxPkg(c))
		return SV{v: Fn("unbox$"+shortTypeName(t), sortOf(t), arg(0)), t: t}, true
	case "istype":
		t := x.typeByName(exprStr(n.Args[1]), x.ctxPkg(c))
		return SV{v: Fn("isType$"+shortTypeName(t), SBool, arg(0))}, true
	case "held":
		v := x.eval(n.Args[0], c)
		_ = v
	case "apply":
		return SV{v: x.lemmaInstance(n, c)}, true
	case "defval": // default value of a type
		t := x.typeByName(exprStr(n.Args[0]), x.ctxPkg(c))
		return SV{v: zeroTerm(t), t: t}, true
	case "substr":
		return SV{v: Fn("substr", SStr, arg(0), arg(1), arg(2)), t: types.Typ[types.String]}, true
	}
	return SV{}, false
}

func coerceNum(t *Term) *Term { return t }

func roundReal(t *Term) *Term {
	h := RealT(big.NewRat(1, 2))
	return Ite(Ge(t, RealT(ratZero)), ToInt(Add(t, h)), Neg(ToInt(Add(Neg(t), h))))
}

func (x *Exec) sameContents(a SV, as *State, b SV, bs *State) *Term {
	switch u := a.t.Underlying().(type) {
	case *types.Map:
		_, d1 := as.domOf(u)
		_, d2 := bs.domOf(u)
		r := Eq(Select(d1, x.asTerm(a.v)), Select(d2, x.asTerm(b.v)))
		if !isUnit(u.Elem()) {
			_, v1 := as.valOf(u)
			_, v2 := bs.valOf(u)
			r = And(r, Eq(Select(v1, x.asTerm(a.v)), Select(v2, x.asTerm(b.v))))
		}
		return r
	case *types.Slice:
		_, m1 := as.memOf(u.Elem())
		_, m2 := bs.memOf(u.Elem())
		return Eq(Select(m1, SelF(x.asTerm(a.v), 0)), Select(m2, SelF(x.asTerm(b.v), 0)))
	case *types.Pointer:
		p := x.asPtr(a.v, a.t)
		q := x.asPtr(b.v, b.t)
		return Eq(x.asTerm(x.load(as, p)), x.asTerm(x.load(bs, q)))
	}
	panic(specErr("samecontents of %v", a.t))
}

func (x *Exec) iterOf(c *specCtx) *iterState { return x.iterN(c, 0) }

// iterN: the n-th most recently started map range still known (0 = last).
func (x *Exec) iterN(c *specCtx, n int) *iterState {
	var best []*ssa.Range
	for r := range c.st.iters {
		best = append(best, r)
	}
	// order of start
	for i := 0; i < len(best); i++ {
		for j := i + 1; j < len(best); j++ {
			if x.iterSeq[best[j]] > x.iterSeq[best[i]] {
				best[i], best[j] = best[j], best[i]
			}
		}
	}
	if n >= len(best) {
		panic(specErr("no map iteration %d", n))
	}
	return c.st.iters[best[n]]
}

// patterns gives the parts of a trigger term that a solver can match: applications without
// conditionals, arithmetic only as an index.
func patterns(t *Term, out []*Term) []*Term {
	if !t.hasB {
		return out
	}
	var clean func(t *Term, idx bool) bool
	clean = func(t *Term, idx bool) bool {
		if !t.hasB {
			return true
		}
		switch t.Op {
		case OBound:
			return true
		case OSelect:
			return clean(t.Args[0], false) && clean(t.Args[1], true)
		case OFn, OSel, OMk:
			for _, a := range t.Args {
				if !clean(a, true) {
					return false
				}
			}
			return true
		case OLin:
			if !idx {
				return false
			}
			for _, a := range t.children() {
				if !clean(a, true) {
					return false
				}
			}
			return true
		}
		return false
	}
	switch t.Op {
	case OSelect, OFn, OSel:
		if clean(t, false) {
			for _, o := range out {
				if o == t {
					return out
				}
			}
			return append(out, t)
		}
	}
	for _, a := range t.children() {
		out = patterns(a, out)
	}
	return out
}

func patternsOf(t []*Term) (o []*Term) {
	for _, e := range t {
		o = patterns(e, o)
	}
	return o
}

func hasIte(t *Term) bool { return hasOp(t, OIte, map[*Term]bool{}) }

func hasOp(t *Term, op Op, seen map[*Term]bool) bool {
	if t.Op == op {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	for _, a := range t.children() {
		if hasOp(a, op, seen) {
			return true
		}
	}
	return false
}

// printTrigs gives the triggers of a quantifier as the solver gets them.
func printTrigs(q *Term) (out [][]*Term) {
	for _, t := range q.Trig {
		o := t
		for _, e := range t {
			if hasIte(e) {
				o = patternsOf(t)
				break
			}
		}
		ok := len(o) > 0
		for _, b := range q.Bound {
			in := false
			for _, e := range o {
				in = in || mentions(e, b)
			}
			ok = ok && in
		}
		if ok {
			out = append(out, o)
		}
	}
	return out
}

// mkQuant builds a quantifier with usable triggers; a bound index i that occurs in them as
// off + i is replaced by j - off, so that every access to the memory matches.
func mkQuant(op Op, bs []*Term, trigs [][]*Term, body *Term) *Term {
	var tr [][]*Term
	for _, t := range trigs {
		o := patternsOf(t)
		for _, e := range t {
			if hasIte(e) { // cleaned when the conditions are decided, or when printed
				o = append([]*Term(nil), t...)
				break
			}
		}
		if len(o) > 0 {
			tr = append(tr, o)
		}
	}
	if op == OForall && len(tr) > 1 {
		// alternatives with different offsets: one formula for each, so that either way of
		// writing the index matches
		for n, b := range bs {
			if b.Sort != SInt || indexRest(tr, b) != nil {
				continue
			}
			var groups [][][]*Term
			var rests []*Term
		next:
			for _, t := range tr {
				r := indexRest([][]*Term{t}, b)
				for g := range groups {
					if rests[g] == r {
						groups[g] = append(groups[g], t)
						continue next
					}
				}
				groups, rests = append(groups, [][]*Term{t}), append(rests, r)
			}
			if len(groups) < 2 || len(groups) > 3 {
				continue
			}
			var fs []*Term
			for _, g := range groups {
				nb := append([]*Term(nil), bs...)
				nb[n] = BoundVar(b.Name, SInt)
				m := map[*Term]*Term{b: nb[n]}
				var gt [][]*Term
				for _, t := range g {
					var o []*Term
					for _, e := range t {
						o = append(o, Subst(e, m))
					}
					gt = append(gt, o)
				}
				fs = append(fs, mkQuant(op, nb, gt, Subst(body, m)))
			}
			return And(fs...)
		}
	}
	sub := map[*Term]*Term{}
	nbs := append([]*Term(nil), bs...)
	for n, b := range bs {
		if b.Sort != SInt {
			continue
		}
		rest := indexRest(tr, b)
		if rest == nil {
			continue
		}
		j := BoundVar(b.Name, SInt)
		sub[b] = Sub(j, rest)
		nbs[n] = j
		m := map[*Term]*Term{b: sub[b]}
		body = Subst(body, m)
		for i := range tr {
			for k := range tr[i] {
				tr[i][k] = Subst(tr[i][k], m)
			}
		}
	}
	return Quant(op, nbs, tr, body)
}

// indexRest: the one non-constant offset that b has in the indexes of the triggers.
func indexRest(tr [][]*Term, b *Term) *Term {
	var rest *Term
	bad := false
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.hasB || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OSelect && t.Args[1].Op == OLin && t.Args[1].hasB {
			r := Sub(t.Args[1], b)
			if !mentions(r, b) && mentions(t.Args[1], b) {
				if r.IsConst() || r.Op == OLin && r.Val.Sign() != 0 {
					bad = true
				} else if rest == nil {
					rest = r
				} else if rest != r {
					bad = true
				}
			}
		} else if t.Op == OSelect && t.Args[1] == b {
			bad = true
		}
		for _, a := range t.children() {
			walk(a)
		}
	}
	for _, t := range tr {
		for _, e := range t {
			walk(e)
		}
	}
	if bad {
		return nil
	}
	return rest
}

func mentions(t, b *Term) bool {
	if !t.hasB {
		return false
	}
	if t == b {
		return true
	}
	for _, a := range t.children() {
		if mentions(a, b) {
			return true
		}
	}
	return false
}
