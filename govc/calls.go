package main

// Calls, built-in functions, external functions, goroutines, channels, locks.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) call(fr *Frame, st *State, cc *ssa.CallCommon, in ssa.Instruction) Val {
	var args []Val
	for _, a := range cc.Args {
		args = append(args, x.val(st, fr, a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, st, b, cc, args)
	}
	return x.callWith(fr, st, cc, x.val(st, fr, cc.Value), args, in)
}

func (x *Exec) callWith(fr *Frame, st *State, cc *ssa.CallCommon, fv Val, args []Val, in ssa.Instruction) Val {
	if b, ok := fv.(*ssa.Builtin); ok {
		return x.builtin(fr, st, b, cc, args)
	}
	if cc.IsInvoke() {
		recv := x.asTerm(fv)
		x.safety(st, "nil", "invoke", Ne(recv, IntT(0)))
		name := fmt.Sprintf("(%s).%s", types.TypeString(cc.Value.Type(), nil), cc.Method.Name())
		if bx, ok := boxTab[recv]; ok {
			if fn := x.P.prog.LookupMethod(bx.t, cc.Method.Pkg(), cc.Method.Name()); fn != nil {
				if x.C.Externs[name] == nil {
					return x.callFn(fr, st, fn, append([]Val{bx.v}, args...), nil, cc)
				}
			}
		}
		return x.callNamed(fr, st, name, cc.Signature(), append([]Val{recv}, args...), cc.Method)
	}
	switch f := fv.(type) {
	case *Closure:
		return x.callFn(fr, st, f.fn, args, f.binds, cc)
	case *FuncSym:
		return x.callSym(fr, st, f, args)
	case *Term:
		return x.callSym(fr, st, &FuncSym{name: "f", sig: cc.Signature(), id: f}, args)
	}
	panic(unsupported("call of %T", fv))
}

// runHooks executes contract hooks for an event.
func (x *Exec) runHooks(fr *Frame, st *State, ev, target string, vals []SV, cond *Term) {
	if x.fc == nil || x.inSpec > 0 {
		return
	}
	for _, h := range x.fc.Hooks {
		if h.Event != ev || (h.Target != "" && h.Target != target && !strings.HasSuffix(target, "."+h.Target)) {
			continue
		}
		nb := map[string]SV{}
		for i, p := range h.Params {
			if i < len(vals) {
				nb[p] = vals[i]
			}
		}
		x.hooked[ev+" "+h.Target] = true
		for i, a := range h.Acts {
			ctx := &specCtx{x: x, fr: fr, st: st, old: x.entry, bound: nb}
			switch a.Kind {
			case "assert":
				g := x.evalBool(a.Expr, ctx)
				if cond != nil {
					g = Implies(cond, g)
				}
				o := x.oblig(st, "on."+ev+"."+shortName(target), a.label(i), g)
				if o != nil {
					o.By = a.By
					o.Props = a.Props
				}
			case "assume":
				g := x.evalBool(a.Expr, ctx)
				if cond != nil {
					g = Implies(cond, g)
				}
				x.factL(st, g, a.Lab)
			case "apply":
				x.factL(st, x.lemmaCall(a.Expr, ctx), lemmaName(a.Expr))
			case "set":
				old, ok := st.ghost[a.Ghost]
				if !ok {
					panic(specErr("ghost %s not declared", a.Ghost))
				}
				nv := coerce(x.eval(a.Expr, ctx).term(x), old.Sort)
				if cond != nil {
					nv = Ite(cond, nv, old)
				}
				st.ghost[a.Ghost] = nv
				x.noteGhost(a.Ghost)
				x.sharedGhost(st, a.Ghost)
			}
		}
	}
}

func shortName(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return strings.Trim(s, "()*")
}

func svArgs(args []Val, sig *types.Signature) []SV {
	var out []SV
	var ts []types.Type
	if sig.Recv() != nil {
		ts = append(ts, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	for i, a := range args {
		var t types.Type
		if i < len(ts) {
			t = ts[i]
		}
		out = append(out, SV{v: a, t: t})
	}
	return out
}

func svResults(r Val, sig *types.Signature) []SV {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return []SV{{v: r, t: sig.Results().At(0).Type()}}
	}
	var out []SV
	for i, v := range r.(Tuple) {
		out = append(out, SV{v: v, t: sig.Results().At(i).Type()})
	}
	return out
}

func (x *Exec) callFn(fr *Frame, st *State, fn *ssa.Function, args, binds []Val, cc *ssa.CallCommon) Val {
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	sa := svArgs(args, fn.Signature)
	x.runHooks(fr, st, "call", name, sa, nil)
	r := x.callFn2(fr, st, fn, name, args, binds)
	if st.pc != False {
		x.runHooks(fr, st, "ret", name, append(sa, svResults(r, fn.Signature)...), nil)
	}
	return r
}

func (x *Exec) callFn2(fr *Frame, st *State, fn *ssa.Function, name string, args, binds []Val) Val {
	fc := x.C.Funcs[name]
	if fc != nil && !(x.fc != nil && x.fc.inlines(name)) && x.inSpec == 0 {
		x.usedFns[name] = true
		var pn []string
		var pv []Val
		for i, p := range fn.Params {
			pn = append(pn, p.Name())
			pv = append(pv, args[i])
		}
		for i, fv := range fn.FreeVars {
			if i < len(binds) {
				pn = append(pn, "&"+fv.Name())
				pv = append(pv, binds[i])
			}
		}
		return x.modular(fr, st, fc, fn.Signature, fn, pn, pv)
	}
	if _, ok := x.C.Externs[name]; ok {
		return x.callNamed2(fr, st, name, fn.Signature, args, fn)
	}
	if m, ok := models[name]; ok {
		x.trusted[name] = true
		return m(x, fr, st, args)
	}
	if fn.Blocks != nil && fn.Pkg != nil && x.P.srcPkgs[fn.Pkg.Pkg.Path()] || fn.Blocks != nil && fn.Parent() != nil || fn.Synthetic != "" && fn.Blocks != nil {
		return x.inline(fr, st, fn, args, binds)
	}
	panic(unsupported("call of %s: no contract", name))
}

func (x *Exec) inline(fr *Frame, st *State, fn *ssa.Function, args, binds []Val) Val {
	d := 0
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			panic(unsupported("recursive call of %s needs a contract", fn))
		}
		d++
	}
	if d > 40 {
		panic(unsupported("calls nested too deeply at %s", fn))
	}
	x.inlined[fn.String()] = true
	nf := &Frame{fn: fn, parent: fr, pstate: st, loops: findLoops(fn), binds: map[ssa.Value]Val{}}
	for i, fv := range fn.FreeVars {
		nf.binds[fv] = binds[i]
	}
	cs := st.copyHeap()
	cs.env = map[ssa.Value]Val{}
	cs.vars = map[string]varRef{}
	for i, p := range fn.Params {
		cs.env[p] = args[i]
		cs.vars[p.Name()] = varRef{v: args[i], t: p.Type()}
	}
	save := x.curPos
	x.runRegion(nf, nil, fn.Blocks[0], cs)
	x.curPos = save
	st2, res := joinExits(nf)
	if st2 == nil {
		st.pc = False
		return zeroResults(fn.Signature)
	}
	st.takeHeap(st2)
	switch len(res) {
	case 0:
		return Tuple{}
	case 1:
		return res[0]
	}
	return Tuple(res)
}

var resKeys []*ssa.Alloc

func resKey(i int) ssa.Value {
	for len(resKeys) <= i {
		resKeys = append(resKeys, &ssa.Alloc{})
	}
	return resKeys[i]
}

func joinExits(f *Frame) (*State, []Val) {
	var ss []*State
	n := f.fn.Signature.Results().Len()
	for _, e := range f.exits {
		if e.st.pc == False {
			continue
		}
		s := e.st.copy()
		for i, r := range e.res {
			s.env[resKey(i)] = r
		}
		ss = append(ss, s)
	}
	if len(ss) == 0 {
		return nil, nil
	}
	m := mergeStates(ss)
	var res []Val
	for i := 0; i < n; i++ {
		v, ok := m.env[resKey(i)]
		if !ok {
			panic(unsupported("results of %s cannot be joined", f.fn))
		}
		delete(m.env, resKey(i))
		res = append(res, v)
	}
	return m, res
}

func zeroResults(sig *types.Signature) Val {
	switch sig.Results().Len() {
	case 0:
		return Tuple{}
	case 1:
		return zeroVal(sig.Results().At(0).Type())
	}
	var t Tuple
	for i := 0; i < sig.Results().Len(); i++ {
		t = append(t, zeroVal(sig.Results().At(i).Type()))
	}
	return t
}

func zeroVal(t types.Type) Val { return zeroTerm(t) }

// modular uses a callee's contract.
func (x *Exec) modular(fr *Frame, st *State, fc *FuncContract, sig *types.Signature, fn *ssa.Function, pn []string, pv []Val) Val {
	params := map[string]SV{}
	for i, n := range pn {
		if strings.HasPrefix(n, "&") {
			el := fn.FreeVars[i-len(fn.Params)].Type()
			et := el.Underlying().(*types.Pointer).Elem()
			p := x.asPtr(pv[i], el)
			params[n] = SV{v: pv[i], t: el}
			if isFunc(et) {
				continue
			}
			params[n[1:]] = SV{v: x.load(st, p), t: et}
			continue
		}
		var t types.Type
		if fn != nil {
			t = fn.Params[i].Type()
		} else {
			t = x.sigType(sig, i)
		}
		params[n] = SV{v: pv[i], t: t}
	}
	var pkg *types.Package
	if fc.Alias != "" {
		pkg = x.P.ipkgs[aliases[fc.Alias]]
	}
	pre := st.copy()
	ctx := &specCtx{x: x, fr: fr, st: st, old: pre, params: params, onlyParam: true, pkg: pkg}
	saveLets := x.lets
	x.lets = map[string]SV{}
	defer func() { x.lets = saveLets }()
	// the functions that the callee's assumptions define are its own, for every call
	var views []*FuncContract
	if !fc.isExtern {
		for _, n := range x.C.Order {
			if v := x.C.Funcs[n]; v.View && v.Name == fc.Name {
				views = append(views, v)
				x.usedFns[n] = true
			}
		}
	}
	all := append([]*FuncContract{fc}, views...)
	for _, c := range all {
		for _, g := range c.Ghosts { // fixed unknown values
			if _, ok := params[g.Name]; ok || !c.constGhost(g) || contains(fc.ModGhost, g.Name) {
				continue
			}
			gp := pkg
			if fn != nil && fn.Pkg != nil {
				gp = fn.Pkg.Pkg
			}
			params[g.Name] = SV{v: Fresh("g."+g.Name, x.sortByName(g.Type, gp)), t: x.ghostType(g.Type, gp)}
		}
	}
	for _, c := range all {
		for _, l := range c.Lets {
			if _, ok := x.lets[l.Name]; ok {
				continue
			}
			x.lets[l.Name] = x.eval(l.Expr, ctx)
			params[l.Name] = x.lets[l.Name]
		}
	}
	ren := newRenamer()
	var defs []*Term
	for i, c := range all {
		as := c.Assumes
		if i > 0 { // the rest is the main contract's
			as = as[len(fc.Assumes):]
		}
		for _, a := range as {
			defs = append(defs, x.evalBool(a.Expr, ctx))
		}
	}
	for i, d := range defs {
		defs[i] = ren.apply(d, true)
	}
	for i, r := range fc.Requires {
		g := x.evalBool(r.Expr, ctx)
		if x.fc != nil && x.fc.View { // checked with the main contract
			x.fact(st, g)
			continue
		}
		o := x.oblig(st, "call."+shortName(fc.Name)+".requires", r.label(i), g)
		if o != nil && r.Props != nil {
			o.Props = r.Props
		}
	}
	for _, g := range sortedKeys(fc.Guards) { // it takes the lock itself
		if strings.Contains(g, ".") && !(x.fc != nil && x.fc.View) {
			if h, ok := st.ghost["lock:"+fc.Guards[g]]; ok {
				x.oblig(st, "call."+shortName(fc.Name)+".lock.notheld", fc.Guards[g], Not(h))
			}
		}
	}
	// havoc
	x.havocMods(fr, st, fc, sig, ctx)
	for _, g := range fc.ModGhost {
		if old, ok := st.ghost[g]; ok {
			st.ghost[g] = Fresh("g."+g, old.Sort)
			x.noteGhost(g)
		} else {
			panic(specErr("ghost %s modified by %s is not known here", g, fc.Short))
		}
	}
	var res []Val
	var rts []types.Type
	var rns []string
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		res = append(res, x.symbolic(st, "r."+shortName(fc.Name), rt))
		rts = append(rts, rt)
		rns = append(rns, sig.Results().At(i).Name())
	}
	if fc.ResN != nil {
		rns = fc.ResN
		for i := range rns {
			rns[i] = firstWord(rns[i])
		}
	}
	post := &specCtx{x: x, fr: fr, st: st, old: pre, params: params, onlyParam: true, pkg: pkg, results: res, resTypes: rts, resNames: rns}
	for _, d := range defs {
		x.fact(st, d)
	}
	for _, c := range append([]*FuncContract{fc}, views...) {
		own := *post
		if len(c.Ghosts) > 0 { // what the callee's ghost variables hold in the end
			own.params = map[string]SV{}
			for n, v := range params {
				own.params[n] = v
			}
			for _, g := range c.Ghosts {
				if contains(fc.ModGhost, g.Name) { // shared with the caller
					continue
				}
				if _, ok := own.params[g.Name]; !ok {
					gp := pkg
					if fn != nil && fn.Pkg != nil {
						gp = fn.Pkg.Pkg
					}
					own.params[g.Name] = SV{v: Fresh("g."+g.Name, x.sortByName(g.Type, gp)), t: x.ghostType(g.Type, gp)}
				}
			}
		}
		for _, l := range c.Lets {
			if _, ok := x.lets[l.Name]; !ok {
				x.lets[l.Name] = x.eval(l.Expr, ctx)
				params[l.Name] = x.lets[l.Name]
				own.params[l.Name] = x.lets[l.Name]
			}
		}
		for _, e := range c.Ensures {
			x.factL(st, ren.apply(x.evalBool(e.Expr, &own), false), e.Lab)
		}
	}
	if fc.Kind == "fatal" {
		st.pc = False
	}
	switch len(res) {
	case 0:
		return Tuple{}
	case 1:
		return res[0]
	}
	return Tuple(res)
}

func (x *Exec) sigType(sig *types.Signature, i int) types.Type {
	if sig.Recv() != nil {
		if i == 0 {
			return sig.Recv().Type()
		}
		i--
	}
	return sig.Params().At(i).Type()
}

// reach collects the memory keys reachable through values of type t.
func reach(t types.Type, out map[string]*Sort, seen map[string]bool) {
	t = types.Unalias(t)
	k := typeKey(t)
	if seen[k] {
		return
	}
	seen[k] = true
	if bvBits(t) > 0 {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		el := u.Elem()
		if at, ok := el.Underlying().(*types.Array); ok {
			el = at.Elem()
		}
		out[typeKey(el)] = memSort(el)
		reach(el, out, seen)
	case *types.Slice:
		out[typeKey(u.Elem())] = memSort(u.Elem())
		reach(u.Elem(), out, seen)
	case *types.Map:
		out[domKey(u)] = SArr(SInt, SArr(sortOf(u.Key()), SBool))
		if !isUnit(u.Elem()) {
			out[valKey(u)] = SArr(SInt, SArr(sortOf(u.Key()), sortOf(u.Elem())))
		}
		reach(u.Key(), out, seen)
		reach(u.Elem(), out, seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			reach(u.Field(i).Type(), out, seen)
		}
	case *types.Array:
		reach(u.Elem(), out, seen)
	}
}

type modTarget struct {
	key  string
	sort *Sort
	blk  *Term
	idx  *Term // nil: whole block
	fld  int   // -1: whole element
	all  bool  // whole memory
	typ  types.Type
}

func (x *Exec) modTargets(fc *FuncContract, ctx *specCtx) (out []modTarget) {
	for _, e := range fc.Modifies {
		switch n := e.(type) {
		case *ast.CallExpr:
			id := exprStr(n.Fun)
			switch id {
			case "elems":
				v := x.eval(n.Args[0], ctx)
				el := v.t.Underlying().(*types.Slice).Elem()
				k, m := ctx.st.memOf(el)
				out = append(out, modTarget{key: k, sort: m.Sort, blk: SelF(x.asTerm(v.v), 0), fld: -1, typ: el})
			case "contents":
				v := x.eval(n.Args[0], ctx)
				mt := mapTypes(v.t)
				k, m := ctx.st.domOf(mt)
				out = append(out, modTarget{key: k, sort: m.Sort, blk: x.asTerm(v.v), fld: -1, typ: v.t})
				if !isUnit(mt.Elem()) {
					k, m := ctx.st.valOf(mt)
					out = append(out, modTarget{key: k, sort: m.Sort, blk: x.asTerm(v.v), fld: -1, typ: v.t})
				}
			case "heap":
				t := x.typeByName(exprStr(n.Args[0]), x.ctxPkg(ctx))
				k, m := ctx.st.memOf(t)
				out = append(out, modTarget{key: k, sort: m.Sort, all: true, fld: -1, typ: t})
			case "var": // captured variable
				nm := exprStr(n.Args[0])
				if v, ok := ctx.params["&"+nm]; ok {
					p := x.asPtr(v.v, v.t)
					k, m := ctx.st.memOf(p.root)
					out = append(out, modTarget{key: k, sort: m.Sort, blk: p.blk, idx: p.idx, fld: -1, typ: p.root})
				} else {
					panic(specErr("captured variable %s", nm))
				}
			default:
				panic(specErr("modifies %s", exprStr(e)))
			}
		case *ast.StarExpr:
			v := x.eval(n.X, ctx)
			p := x.asPtr(v.v, v.t)
			k, m := ctx.st.memOf(p.root)
			if p.arr {
				out = append(out, modTarget{key: k, sort: m.Sort, blk: p.blk, fld: -1, typ: p.root})
			} else {
				out = append(out, modTarget{key: k, sort: m.Sort, blk: p.blk, idx: p.idx, fld: -1, typ: p.root})
			}
		case *ast.SelectorExpr:
			v := x.eval(n.X, ctx)
			p := x.asPtr(v.v, v.t)
			k, m := ctx.st.memOf(p.root)
			s := sortOf(p.root)
			f := s.field(n.Sel.Name)
			if f < 0 {
				panic(specErr("modifies %s", exprStr(e)))
			}
			out = append(out, modTarget{key: k, sort: m.Sort, blk: p.blk, idx: p.idx, fld: f, typ: p.root})
		default:
			panic(specErr("modifies %s", exprStr(e)))
		}
	}
	return out
}

func (x *Exec) havocMods(fr *Frame, st *State, fc *FuncContract, sig *types.Signature, ctx *specCtx) {
	batchNo++
	targets := x.modTargets(fc, ctx)
	keys := map[string]*Sort{}
	seen := map[string]bool{}
	allocs := false
	for i := 0; i < sig.Results().Len(); i++ {
		reach(sig.Results().At(i).Type(), keys, seen)
	}
	for _, t := range targets {
		reach(t.typ, keys, seen)
	}
	if len(keys) > 0 || len(targets) > 0 {
		allocs = true
	}
	bound := st.alloc
	if allocs {
		a := Fresh("alloc", SInt)
		allocLower[a] = bound
		st.alloc = a
		x.gfact(Le(bound, a))
		for _, w := range x.writes {
			w.alloc = true
		}
	}
	byKey := map[string][]modTarget{}
	for _, t := range targets {
		byKey[t.key] = append(byKey[t.key], t)
		keys[t.key] = t.sort
	}
	for _, k := range sortedKeys(keys) {
		m, ok := st.mem[k]
		if !ok {
			m = initMem(k, keys[k])
		}
		memSorts[k] = keys[k]
		nm := Fresh("callmem", m.Sort)
		memAlloc[nm] = st.alloc
		var ex []*Term
		all := false
		for _, t := range byKey[k] {
			if t.all {
				all = true
			} else {
				ex = append(ex, t.blk)
			}
		}
		for _, w := range x.writes {
			if w.mem[k] == nil {
				w.mem[k] = map[*Term]bool{}
				w.idx[k] = map[*Term]*Term{}
			}
		}
		if all {
			st.mem[k] = nm
			x.noteWrite(st, k, Fresh("anyblk", SInt))
			continue
		}
		havocTab[nm] = &havocInfo{base: m, bound: bound, except: ex}
		r := BoundVar("r", SInt)
		cs := []*Term{Lt(r, bound)}
		for _, e := range ex {
			cs = append(cs, Ne(r, e))
		}
		sel := intern(&Term{Op: OSelect, Sort: nm.Sort.V, Args: []*Term{nm, r}})
		x.gfact(Forall([]*Term{r}, [][]*Term{{sel}}, Implies(And(cs...), Eq(sel, Select(m, r)))))
		// fresh part
		x.noteWrite(st, k, bound)
		for _, t := range byKey[k] {
			x.noteWriteAt(st, k, t.blk, t.idx)
			if t.idx == nil {
				continue
			}
			// other elements of the block keep their values
			oin, nin := Select(m, t.blk), Select(nm, t.blk)
			one := true
			for _, o := range byKey[k] {
				if o.blk == t.blk && (o.idx == nil || o.idx != t.idx) {
					one = false
				}
			}
			if one {
				i := BoundVar("i", SInt)
				s := Select(nin, i)
				x.gfact(Forall([]*Term{i}, [][]*Term{{s}}, Implies(Ne(i, t.idx), Eq(s, Select(oin, i)))))
			}
			if t.fld >= 0 {
				fields := map[int]bool{}
				for _, o := range byKey[k] {
					if o.blk == t.blk && o.idx == t.idx {
						if o.fld < 0 {
							fields = nil
							break
						}
						fields[o.fld] = true
					}
				}
				if fields != nil {
					for f := range sortOf(t.typ).Fields {
						if !fields[f] {
							x.gfact(Eq(SelF(Select(nin, t.idx), f), SelF(Select(oin, t.idx), f)))
						}
					}
				}
			}
		}
		st.mem[k] = nm
	}
}

// callNamed calls a function known only by name.
func (x *Exec) callNamed(fr *Frame, st *State, name string, sig *types.Signature, args []Val, obj types.Object) Val {
	sa := svArgs(args, sig)
	if sig.Recv() == nil && len(args) > sig.Params().Len() {
		sa = append([]SV{{v: args[0]}}, svArgs(args[1:], sig)...)
	}
	x.runHooks(fr, st, "call", name, sa, nil)
	r := x.callNamed2(fr, st, name, sig, args, nil)
	if st.pc != False {
		x.runHooks(fr, st, "ret", name, append(sa, svResults(r, sig)...), nil)
	}
	return r
}

func (x *Exec) callNamed2(fr *Frame, st *State, name string, sig *types.Signature, args []Val, fn *ssa.Function) Val {
	e, ok := x.C.Externs[name]
	for _, a := range args { // a contract for a parameter of this dynamic type
		if t, isT := a.(*Term); isT {
			if bx, boxed := boxTab[t]; boxed {
				if es := x.C.Externs[name+"@"+types.TypeString(bx.t, func(p *types.Package) string { return p.Name() })]; es != nil {
					e, ok = es, true
				}
			}
		}
	}
	if !ok {
		if m, ok := models[name]; ok {
			x.trusted[name] = true
			return m(x, fr, st, args)
		}
		panic(unsupported("call of %s: no contract", name))
	}
	x.trusted[name] = true
	switch e.Kind {
	case "noop":
		return zeroResults(sig)
	case "fatal":
		st.pc = False
		return zeroResults(sig)
	case "error":
		r := Fresh("err", SInt)
		x.gfact(Lt(IntT(0), r))
		return r
	case "havoc":
		return x.havocResults(st, name, sig)
	case "fresh": // returns newly allocated objects, changes nothing else
		fc := &FuncContract{Name: name, Short: name}
		x.havocMods(fr, st, fc, sig, &specCtx{x: x, st: st, old: st})
		return x.havocResults(st, name, sig)
	case "pure":
		var ts []*Term
		for _, a := range args {
			ts = append(ts, x.asTerm(a))
		}
		mk := func(i int, t types.Type) Val {
			r := Fn(fmt.Sprintf("pure$%s$%d", shortName(name), i), sortOf(t), ts...)
			x.typeFacts(st, r, t, st.alloc)
			return r
		}
		switch sig.Results().Len() {
		case 0:
			return Tuple{}
		case 1:
			return mk(0, sig.Results().At(0).Type())
		}
		var t Tuple
		for i := 0; i < sig.Results().Len(); i++ {
			t = append(t, mk(i, sig.Results().At(i).Type()))
		}
		return t
	}
	return x.modularNamed(fr, st, e, sig, args)
}

func (x *Exec) modularNamed(fr *Frame, st *State, e *FuncContract, sig *types.Signature, args []Val) Val {
	// parameters by position with the names given in the contract
	params := map[string]SV{}
	for i, n := range e.ParamN {
		if i >= len(args) {
			break
		}
		var t types.Type
		j := i
		if sig.Recv() != nil || len(args) > sig.Params().Len() {
			j--
		}
		if j < 0 {
			if sig.Recv() != nil {
				t = sig.Recv().Type()
			}
		} else if j < sig.Params().Len() {
			t = sig.Params().At(j).Type()
		}
		params[firstWord(n)] = SV{v: args[i], t: t}
	}
	var pkg *types.Package
	if e.Alias != "" {
		pkg = x.P.ipkgs[aliases[e.Alias]]
	}
	pre := st.copy()
	ctx := &specCtx{x: x, fr: fr, st: st, old: pre, params: params, onlyParam: true, pkg: pkg}
	for i, r := range e.Requires {
		x.oblig(st, "call."+shortName(e.Name)+".requires", r.label(i), x.evalBool(r.Expr, ctx))
	}
	x.havocMods(fr, st, e, sig, ctx)
	for _, g := range e.ModGhost {
		if old, ok := st.ghost[g]; ok {
			st.ghost[g] = Fresh("g."+g, old.Sort)
			x.noteGhost(g)
		} else if t, ok := x.C.Ghosts[g]; ok {
			_ = t // not tracked in this function
		} else {
			panic(specErr("ghost %s", g))
		}
	}
	var res []Val
	var rts []types.Type
	var rns []string
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		res = append(res, x.symbolic(st, "r."+shortName(e.Name), rt))
		rts = append(rts, rt)
		if i < len(e.ResN) {
			rns = append(rns, firstWord(e.ResN[i]))
		} else {
			rns = append(rns, "")
		}
	}
	post := &specCtx{x: x, fr: fr, st: st, old: pre, params: params, onlyParam: true, pkg: pkg, results: res, resTypes: rts, resNames: rns}
	for _, en := range e.Ensures {
		if !x.ghostsKnown(en, st) {
			continue
		}
		x.fact(st, x.evalBool(en.Expr, post))
	}
	switch len(res) {
	case 0:
		return Tuple{}
	case 1:
		return res[0]
	}
	return Tuple(res)
}

// ghostsKnown: a clause of an external contract that mentions a global ghost is used only where the ghost is tracked.
func (x *Exec) ghostsKnown(c clause, st *State) bool {
	ok := true
	walkIdents(c.Expr, func(n string) {
		if _, g := x.C.Ghosts[n]; g {
			if _, has := st.ghost[n]; !has {
				ok = false
			}
		}
	})
	return ok
}

func (x *Exec) havocResults(st *State, name string, sig *types.Signature) Val {
	switch sig.Results().Len() {
	case 0:
		return Tuple{}
	case 1:
		return x.symbolic(st, "r."+shortName(name), sig.Results().At(0).Type())
	}
	return x.symbolic(st, "r."+shortName(name), sig.Results())
}

// callSym calls an unknown function value.
func (x *Exec) callSym(fr *Frame, st *State, f *FuncSym, args []Val) Val {
	var cb *FuncContract
	if x.fc != nil {
		if c, ok := x.fc.Callbacks[f.name]; ok {
			cb = c
		} else if c, ok := x.fc.Callbacks["."]; ok && len(x.fc.Callbacks) == 2 {
			cb = c
		}
	}
	if cb == nil {
		panic(unsupported("call of the function value %s: no callback contract", f.name))
	}
	x.runHooks(fr, st, "call", cb.Name, svArgs(args, f.sig), nil)
	r := x.modularNamed(fr, st, cb, f.sig, args)
	x.runHooks(fr, st, "ret", cb.Name, append(svArgs(args, f.sig), svResults(r, f.sig)...), nil)
	return r
}

// ---- built-in functions

func (x *Exec) builtin(fr *Frame, st *State, b *ssa.Builtin, cc *ssa.CallCommon, args []Val) Val {
	switch b.Name() {
	case "len", "cap":
		t := cc.Args[0].Type()
		switch u := t.Underlying().(type) {
		case *types.Slice:
			f := "slen"
			if b.Name() == "cap" {
				f = "scap"
			}
			return SelN(x.asTerm(args[0]), f)
		case *types.Map:
			x.checkGuarded(fr, st, cc.Args[0], false)
			_, d := st.domOf(u)
			x.nilMapFact(d, x.asTerm(args[0]))
			return x.cardFacts(x.mapDom(d, x.asTerm(args[0])))
		case *types.Basic:
			n := strLen(x.asTerm(args[0]))
			x.gfact(Le(IntT(0), n))
			return n
		case *types.Array:
			return IntT(u.Len())
		case *types.Pointer:
			return IntT(u.Elem().Underlying().(*types.Array).Len())
		case *types.Chan:
			if b.Name() == "cap" {
				return chanCap(x.asTerm(args[0]))
			}
			r := Fresh("chanlen", SInt)
			x.gfact(Le(IntT(0), r))
			return r
		}
	case "append":
		return x.appendB(fr, st, cc, args)
	case "copy":
		return x.copyB(fr, st, cc, args)
	case "delete":
		x.checkGuarded(fr, st, cc.Args[0], true)
		mt := mapTypes(cc.Args[0].Type())
		m := x.asTerm(args[0])
		// deleting from a nil map does nothing
		if m.IsConst() && m.Val.Sign() == 0 {
			return Tuple{}
		}
		x.mapDelete(st, mt, m, x.asTerm(args[1]))
		return Tuple{}
	case "close":
		x.closeChan(fr, st, x.asTerm(args[0]))
		return Tuple{}
	case "print", "println":
		return Tuple{}
	case "min", "max":
		r := x.asTerm(args[0])
		for _, a := range args[1:] {
			t := x.asTerm(a)
			if b.Name() == "min" {
				r = Ite(Le(r, t), r, t)
			} else {
				r = Ite(Ge(r, t), r, t)
			}
		}
		return r
	case "ssa:wrapnilchk":
		return args[0]
	}
	panic(unsupported("builtin %s", b.Name()))
}

func (x *Exec) appendB(fr *Frame, st *State, cc *ssa.CallCommon, args []Val) Val {
	el := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	s := x.asTerm(args[0])
	t := x.asTerm(args[1])
	key, m := st.memOf(el)
	blk, off, ln, cp := SelF(s, 0), SelF(s, 1), SelF(s, 2), SelF(s, 3)
	var n *Term
	var get func(i *Term) *Term
	if t.Sort == SStr {
		n = strLen(t)
		x.gfact(Le(IntT(0), n))
		get = func(i *Term) *Term { return Fn("strAt", SInt, t, i) }
	} else {
		n = SelF(t, 2)
		tin := Select(m, SelF(t, 0))
		toff := SelF(t, 1)
		get = func(i *Term) *Term { return Select(tin, Add(toff, i)) }
	}
	if n == IntT(0) {
		return s
	}
	fits := Le(Add(ln, n), cp)
	fresh := x.newBlk(st)
	var nblk *Term
	if fits == False {
		nblk = fresh
	} else if fits == True {
		nblk = blk
	} else {
		nblk = Fresh("apblk", SInt)
		refUpper[nblk] = st.alloc
		x.gfact(Lt(nblk, st.alloc))
		x.gfact(Ite(fits, Eq(nblk, blk), Eq(nblk, fresh)))
		// appending nothing to nil
	}
	ncap := Fresh("apcap", SInt)
	x.gfact(Ite(fits, Eq(ncap, cp), Le(Add(ln, n), ncap)))
	old := Select(m, blk)
	inner := old
	if c, ok := n.Int64(); ok && c <= 32 {
		for i := int64(0); i < c; i++ {
			inner = Store(inner, Add(off, Add(ln, IntT(i))), get(IntT(i)))
		}
	} else {
		f := Fresh("apin", old.Sort)
		memAlloc[f] = st.alloc
		j := BoundVar("j", SInt)
		sel := Select(f, j)
		lo := Add(off, ln)
		x.gfact(Forall([]*Term{j}, [][]*Term{{sel}}, Implies(Or(Lt(j, lo), Ge(j, Add(lo, n))), Eq(sel, Select(old, j)))))
		x.gfact(Forall([]*Term{j}, [][]*Term{{sel}}, Implies(And(Ge(j, lo), Lt(j, Add(lo, n))), Eq(sel, get(Sub(j, lo))))))
		inner = f
	}
	memSorts[key] = m.Sort
	x.noteWrite(st, key, nblk)
	st.mem[key] = Store(m, nblk, inner)
	// a nil slice to which nothing is appended stays nil; n may be zero only in the dynamic case
	r := Mk(SSlice, nblk, off, Add(ln, n), ncap)
	if _, ok := n.Int64(); !ok {
		r = Ite(Eq(n, IntT(0)), s, r)
	}
	return r
}

func (x *Exec) copyB(fr *Frame, st *State, cc *ssa.CallCommon, args []Val) Val {
	el := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	d, s := x.asTerm(args[0]), x.asTerm(args[1])
	key, m := st.memOf(el)
	var sl *Term
	var get func(i *Term) *Term
	if s.Sort == SStr {
		sl = strLen(s)
		get = func(i *Term) *Term { return Fn("strAt", SInt, s, i) }
	} else {
		sl = SelF(s, 2)
		sin := Select(m, SelF(s, 0))
		get = func(i *Term) *Term { return Select(sin, Add(SelF(s, 1), i)) }
	}
	dl := SelF(d, 2)
	n := Ite(Le(dl, sl), dl, sl)
	old := Select(m, SelF(d, 0))
	f := Fresh("cpin", old.Sort)
	memAlloc[f] = st.alloc
	j := BoundVar("j", SInt)
	sel := Select(f, j)
	lo := SelF(d, 1)
	x.gfact(Forall([]*Term{j}, [][]*Term{{sel}}, Implies(Or(Lt(j, lo), Ge(j, Add(lo, n))), Eq(sel, Select(old, j)))))
	x.gfact(Forall([]*Term{j}, [][]*Term{{sel}}, Implies(And(Ge(j, lo), Lt(j, Add(lo, n))), Eq(sel, get(Sub(j, lo))))))
	memSorts[key] = m.Sort
	x.noteWrite(st, key, SelF(d, 0))
	st.mem[key] = Store(m, SelF(d, 0), f)
	return n
}

// ---- channels

func chanCap(b *Term) *Term { return Fn("chancap", SInt, b) }

func (x *Exec) send(fr *Frame, st *State, ch *Term, v Val, ct types.Type) {
	el := ct.Underlying().(*types.Chan).Elem()
	x.runHooks(fr, st, "send", chanName(el), []SV{{v: v, t: el}}, nil)
}

func chanName(el types.Type) string {
	if isUnit(el) {
		return "token"
	}
	return shortTypeName(el)
}

func (x *Exec) closeChan(fr *Frame, st *State, ch *Term) {
	x.safety(st, "nil", "close", Ne(ch, IntT(0)))
	x.runHooks(fr, st, "close", "", nil, nil)
}

func (x *Exec) recv(fr *Frame, st *State, ch *Term, ct types.Type, commaOk bool) Val {
	el := ct.Underlying().(*types.Chan).Elem()
	v := x.symbolic(st, "recv", el)
	ok := Fresh("open", SBool)
	if !commaOk {
		ok = True
	}
	x.runHooks(fr, st, "recv", chanName(el), []SV{{v: v, t: el}}, ok)
	if commaOk {
		x.runHooks(fr, st, "drained", chanName(el), nil, Not(ok))
		vt, isT := v.(*Term)
		if isT {
			return Tuple{Ite(ok, vt, zeroTerm(el)), ok}
		}
		return Tuple{v, ok}
	}
	return v
}

// ---- goroutines: fork-join bodies are executed at the go statement, under race obligations

func (x *Exec) goCall(fr *Frame, st *State, g *ssa.Go) {
	var args []Val
	for _, a := range g.Call.Args {
		args = append(args, x.val(st, fr, a))
	}
	var fv Val
	if g.Call.IsInvoke() {
		panic(unsupported("go through an interface"))
	}
	fv = x.val(st, fr, g.Call.Value)
	if c, ok := fv.(*Closure); ok {
		if fc := x.C.Funcs[c.fn.String()]; fc != nil && (x.fc == nil || !x.fc.inlines(c.fn.String())) {
			x.callWith(fr, st, &g.Call, fv, args, nil)
			return
		}
	}
	x.goBody(fr, st, g, fv, args)
}

// ---- locks

func (fc *FuncContract) inlines(name string) bool {
	return fc.Inlines[name] || fc.Inlines[name[strings.LastIndex(name, ".")+1:]]
}

func lockKey(x *Exec, p *Ptr) string {
	s := fmt.Sprintf("lock:%d.%s", p.blk.id, typeKey(p.root))
	for _, e := range p.path {
		s += fmt.Sprintf(".%d", e.field)
	}
	return s
}

func ptrName(p *Ptr) string {
	t := p.root
	var name string
	for _, e := range p.path {
		if st, ok := t.Underlying().(*types.Struct); ok && e.index == nil {
			name = st.Field(e.field).Name()
		}
		t = e.typ
	}
	return name
}

func (x *Exec) lockOp(fr *Frame, st *State, v Val, lock bool, rd bool) {
	t := types.NewPointer(types.Typ[types.Int])
	p := x.asPtr(v, t)
	k := lockKey(x, p)
	cur, ok := st.ghost[k]
	if !ok {
		cur = False
	}
	nm := ptrName(p)
	if nm == "" {
		nm = x.lockVar(fr, st, p)
	}
	if lock {
		x.oblig(st, "lock.notheld", nm, Not(cur))
		st.ghost[k] = True
		x.noteGhost(k)
		if nm != "" {
			st.ghost["lock:"+nm] = True
			x.noteGhost("lock:" + nm)
		}
		x.afterDone(st, nm)
		x.lockAcquired(st, p, nm)
		x.sharedLock(fr, st, nm)
		x.runHooks(fr, st, "lock", nm, nil, nil)
		return
	}
	x.oblig(st, "lock.held", nm, cur)
	x.runHooks(fr, st, "unlock", nm, nil, nil)
	x.sharedUnlock(fr, st, nm)
	st.ghost[k] = False
	x.noteGhost(k)
	if nm != "" {
		st.ghost["lock:"+nm] = False
		x.noteGhost("lock:" + nm)
	}
}

// lockAcquired forgets the contents of the maps in fields guarded by the lock just taken: other
// goroutines may have changed them since the lock was last held here.
func (x *Exec) lockAcquired(st *State, p *Ptr, nm string) {
	if x.fc == nil || nm == "" || len(p.path) == 0 {
		return
	}
	q := *p
	q.path = p.path[:len(p.path)-1]
	t := q.root
	for _, e := range q.path {
		t = e.typ
	}
	nt, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return
	}
	s, ok := nt.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if x.fc.Guards[nt.Obj().Name()+"."+f.Name()] != nm {
			continue
		}
		mt, ok := f.Type().Underlying().(*types.Map)
		if !ok {
			panic(unsupported("guarded field %s is not a map", f.Name()))
		}
		r := q
		r.path = append(append([]pathElem(nil), q.path...), pathElem{field: i, typ: f.Type()})
		m := x.asTerm(x.load(st, &r))
		x.havocMap(st, mt, m)
	}
}

// guardedElsewhere finds a function that uses a guarded field without a contract that says so.
func (x *Exec) guardedElsewhere(guard string, pkg *ssa.Package) string {
	callers := map[*ssa.Function][]*ssa.Function{}
	asValue := map[*ssa.Function]bool{}
	var users []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, fn := range x.P.byName {
		if fn.Pkg != pkg || seen[fn] {
			continue
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					_, fresh := fa.X.(*ssa.Alloc)
					if !fresh && guardName(fa)[0] == guard {
						users = append(users, fn)
					}
				}
				var call *ssa.Function
				if c, ok := in.(ssa.CallInstruction); ok {
					call = c.Common().StaticCallee()
					if call != nil {
						callers[call] = append(callers[call], fn)
					}
				}
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && f != call {
						asValue[f] = true
					}
				}
			}
		}
	}
	var covered func(fn *ssa.Function, depth int) bool
	covered = func(fn *ssa.Function, depth int) bool {
		for f := fn; f != nil; f = f.Parent() {
			for _, c := range x.C.Funcs {
				if c.Name == f.String() && c.Guards[guard] != "" {
					return true
				}
			}
		}
		if depth > 8 || asValue[fn] || fn.Object() == nil || fn.Object().Exported() || len(callers[fn]) == 0 {
			return false
		}
		for _, c := range callers[fn] {
			if !covered(c, depth+1) {
				return false
			}
		}
		return true
	}
	for _, fn := range users {
		if !covered(fn, 0) {
			return fn.String()
		}
	}
	return ""
}

func (x *Exec) lockVar(fr *Frame, st *State, p *Ptr) string {
	s := st
	for f := fr; f != nil; f = f.parent {
		for n, r := range s.vars {
			if q, ok := r.v.(*Ptr); ok && r.isAddr && q.blk == p.blk {
				return n
			}
		}
		for fv, b := range f.binds {
			if q, ok := b.(*Ptr); ok && q.blk == p.blk {
				return fv.Name()
			}
		}
		if f.pstate == nil {
			break
		}
		s = f.pstate
	}
	return ""
}

// guardName finds the guarded variable or field an address or loaded value refers to.
func guardName(v ssa.Value) []string {
	switch a := v.(type) {
	case *ssa.FieldAddr:
		st := a.X.Type().Underlying().(*types.Pointer).Elem()
		n := ""
		if nt, ok := types.Unalias(st).(*types.Named); ok {
			n = nt.Obj().Name() + "." + nt.Underlying().(*types.Struct).Field(a.Field).Name()
		}
		return append([]string{n}, guardName(a.X)...)
	case *ssa.UnOp:
		if a.Op == token.MUL {
			return guardName(a.X)
		}
	case *ssa.IndexAddr:
		return guardName(a.X)
	case *ssa.Alloc:
		return []string{a.Comment}
	case *ssa.FreeVar:
		return []string{a.Name()}
	case *ssa.Global:
		return []string{a.Name()}
	}
	return nil
}

func (x *Exec) checkGuarded(fr *Frame, st *State, v ssa.Value, write bool) {
	if x.fc == nil || x.inSpec > 0 || len(x.fc.Guards) == 0 {
		return
	}
	for _, n := range guardName(v) {
		l, ok := x.fc.Guards[n]
		if !ok {
			continue
		}
		x.afterDone(st, n)
		held, has := st.ghost["lock:"+l]
		if !has {
			held = False
		}
		if strings.Contains(n, ".") { // field of a shared object: always
			// freshly created objects are not shared yet
			if base := baseOf(v); base != nil {
				if pv, ok := st.env[base]; ok {
					if p, ok := pv.(*Ptr); ok && isAllocTerm(p.blk) && allocGE(p.blk, x.entry.alloc) {
						continue
					}
				}
			}
			x.oblig(st, "guarded", n, held)
		} else {
			act, has := st.ghost["goactive"]
			if !has {
				act = False
			}
			x.oblig(st, "guarded", n, Implies(act, held))
		}
	}
}

func baseOf(v ssa.Value) ssa.Value {
	switch a := v.(type) {
	case *ssa.FieldAddr:
		return a.X
	case *ssa.UnOp:
		return baseOf(a.X)
	case *ssa.IndexAddr:
		return baseOf(a.X)
	}
	return nil
}

// globalValue folds package variables that are only ever assigned constants in their declaration.
func (x *Exec) globalValue(st *State, g *ssa.Global) Val {
	if x.P.ipkgs[g.Pkg.Pkg.Path()] == nil || !x.P.srcPkgs[g.Pkg.Pkg.Path()] {
		el := g.Type().Underlying().(*types.Pointer).Elem()
		t := Sym("glob$"+sanitize(g.String()), sortOf(el))
		if _, ok := el.Underlying().(*types.Interface); ok {
			x.gfact(Lt(IntT(0), t))
		}
		return t
	}
	return x.constGlobal(g)
}

// renamer gives the uninterpreted functions that a callee's assumptions define new names.
type renamer struct {
	names map[string]string
	memo  map[*Term]*Term
}

var renameNo int

func newRenamer() *renamer {
	return &renamer{map[string]string{}, map[*Term]*Term{}}
}

func (r *renamer) apply(t *Term, collect bool) *Term {
	if collect {
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if (t.Op == OFn || t.Op == OSym) && strings.HasPrefix(t.Name, "u$") && !strings.Contains(t.Name, "@") {
				if r.names[t.Name] == "" {
					if len(r.names) == 0 {
						renameNo++
					}
					r.names[t.Name] = fmt.Sprintf("%s@%d", t.Name, renameNo)
				}
			}
			for _, a := range t.children() {
				walk(a)
			}
			for _, tr := range t.Trig {
				for _, a := range tr {
					walk(a)
				}
			}
		}
		walk(t)
		r.memo = map[*Term]*Term{}
	}
	if len(r.names) == 0 {
		return t
	}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t.Op == OSym {
			if n := r.names[t.Name]; n != "" {
				return Fn(n, t.Sort)
			}
			return t
		}
		if len(t.Args) == 0 && len(t.Monos) == 0 {
			return t
		}
		if q, ok := r.memo[t]; ok {
			return q
		}
		q := rebuild(t, rec)
		if t.Op == OFn {
			if n := r.names[t.Name]; n != "" {
				q = Fn(n, t.Sort, q.Args...)
			}
		}
		r.memo[t] = q
		return q
	}
	return rec(t)
}
