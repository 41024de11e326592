package main

// Verification of one function or lemma: obligations from contract and code.

import (
	"os"
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var memEpoch int

type FuncResult struct {
	Name     string
	Kind     string // function or lemma
	Obls     []*Obligation
	Err      string // outside the verifier's reach
	Trusted  []string
	Used     []string
	Inlined  []string
	Lemmas   []string
	Assumes  []string
	Pos      string
	ExtDecls []string
}

func newExec(P *Program, C *Contracts, name string) *Exec {
	memEpoch++
	x := &Exec{P: P, C: C, fname: name, names: map[string]int{}, loopIDs: map[string]int{}, ghostT: map[string]types.Type{}, pnames: map[string]Val{}, ptypes: map[string]types.Type{},
		trusted: map[string]bool{}, usedFns: map[string]bool{}, inlined: map[string]bool{}, gfacts: map[*Term]bool{}, flab: map[*Term]string{}, oncall: map[string]int{},
		lets: map[string]SV{}, iterSeq: map[*ssa.Range]int{}, hooked: map[string]bool{}, usedLem: map[string]bool{}}
	a0 := Fresh("A0", SInt)
	allocLower[a0] = IntT(1)
	curEntryAlloc = a0
	x.gfact(Le(IntT(1), a0))
	pendingFacts = nil
	return x
}

func (x *Exec) newState() *State {
	return &State{pc: True, mem: map[string]*Term{}, alloc: curEntryAlloc, ghost: map[string]*Term{}, iters: map[*ssa.Range]*iterState{}, env: map[ssa.Value]Val{}, vars: map[string]varRef{}}
}

func verifyFunc(P *Program, C *Contracts, fc *FuncContract) (fr *FuncResult) {
	x := newExec(P, C, fc.Short)
	fr = &FuncResult{Name: fc.Short, Kind: "function"}
	defer func() {
		fr.Obls = x.obls
		fr.Trusted = sortedKeys(x.trusted)
		fr.Used = sortedKeys(x.usedFns)
		fr.Inlined = sortedKeys(x.inlined)
		fr.Lemmas = sortedKeys(x.usedLem)
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				fr.Err = u.msg + " (" + x.P.fset.Position(x.curPos).String() + ")"
				return
			}
			if debugPanics {
				panic(r)
			}
			fr.Err = fmt.Sprintf("internal: %v (%s)", r, x.P.fset.Position(x.curPos))
		}
	}()
	x.fc = fc
	x.noSafety = fc.NoSafety || fc.View
	fn := P.byName[fc.Name]
	if fn == nil {
		panic(unsupported("function %s does not exist", fc.Name))
	}
	if fn.Blocks == nil {
		panic(unsupported("function %s has no body", fc.Name))
	}
	fr.Pos = P.fset.Position(fn.Pos()).String()
	st := x.newState()
	f := &Frame{fn: fn, loops: findLoops(fn), binds: map[ssa.Value]Val{}}
	for _, p := range fn.Params {
		v := x.symbolic(st, p.Name(), p.Type())
		st.env[p] = v
		st.vars[p.Name()] = varRef{v: v, t: p.Type()}
		x.pnames[p.Name()] = v
		x.ptypes[p.Name()] = p.Type()
	}
	var fvBlks []*Term
	for _, fv := range fn.FreeVars {
		b := Fresh("fv."+fv.Name(), SInt)
		refUpper[b] = st.alloc
		x.gfact(And(Lt(IntT(0), b), Lt(b, st.alloc)))
		for _, o := range fvBlks {
			x.gfact(Ne(o, b))
		}
		fvBlks = append(fvBlks, b)
		el := fv.Type().Underlying().(*types.Pointer).Elem()
		p := &Ptr{blk: b, idx: IntT(0), root: el}
		if at, ok := el.Underlying().(*types.Array); ok {
			p = &Ptr{blk: b, idx: IntT(0), root: at.Elem(), arr: true, arrLen: at.Len()}
		}
		if isFunc(el) {
			theFuncCells[b] = &FuncSym{name: fv.Name(), sig: el.Underlying().(*types.Signature), id: Fresh(fv.Name(), SInt)}
		}
		f.binds[fv] = p
		x.pnames["&"+fv.Name()] = p
		x.ptypes["&"+fv.Name()] = fv.Type()
	}
	for _, g := range fc.Ghosts {
		s := x.sortByName(g.Type, fn.Pkg.Pkg)
		x.ghostT[g.Name] = x.ghostType(g.Type, fn.Pkg.Pkg)
		if g.Init != nil {
			st.ghost[g.Name] = coerce(x.eval(g.Init, &specCtx{x: x, fr: f, st: st, old: st}).term(x), s)
		} else {
			st.ghost[g.Name] = Fresh("g."+g.Name, s)
		}
	}
	if len(fc.Guards) > 0 || fc.Shared != nil {
		st.ghost[goKey] = False
	}
	if fc.Shared != nil && fc.Shared.Thread != nil {
		st.ghost["threads"] = zeroSort(SArr(SInt, SBool))
		x.ghostT["threads"] = x.ghostType("set[int]", fn.Pkg.Pkg)
	}
	x.entry = st.copy()
	ctx := &specCtx{x: x, fr: f, st: st, old: x.entry}
	for _, l := range fc.Lets {
		x.lets[l.Name] = x.eval(l.Expr, ctx)
	}
	for _, r := range fc.Requires {
		x.factL(st, x.evalBool(r.Expr, ctx), r.Lab)
	}
	for _, r := range fc.Assumes {
		x.factL(st, x.evalBool(r.Expr, ctx), r.Lab)
		fr.Assumes = append(fr.Assumes, r.Src)
	}
	if !fc.View {
		for _, g := range sortedKeys(fc.Guards) {
			if strings.Contains(g, ".") {
				w := x.guardedElsewhere(g, fn.Pkg)
				goal := True
				if w != "" {
					goal = False
				}
				x.oblig(st, "guarded.everywhere", strings.TrimSpace(g+" "+w), goal)
			}
		}
	}
	x.useLemmas(fc.Uses)
	x.reveal(fc.Reveals)
	for _, a := range fc.Applies {
		x.factL(st, x.lemmaCall(a.Expr, ctx), lemmaName(a.Expr))
	}
	if !fc.CoverOff {
		if o := x.oblig(st, "cover.entry", "", True); o != nil {
			o.Cover = true
		}
	}
	x.entry = st.copy()
	for _, l := range findLoops(fn).headers {
		_ = l
	}
	x.runRegion(f, nil, fn.Blocks[0], st)
	post, res := joinExits(f)
	for n := range fc.Loops {
		if n > x.loopN {
			panic(unsupported("contract names loop %d but only %d loops are executed", n, x.loopN))
		}
	}
	if post == nil {
		if len(fc.Ensures) > 0 {
			panic(unsupported("function never returns"))
		}
		return fr
	}
	sig := fn.Signature
	var rts []types.Type
	var rns []string
	for i := 0; i < sig.Results().Len(); i++ {
		rts = append(rts, sig.Results().At(i).Type())
		rns = append(rns, sig.Results().At(i).Name())
	}
	pctx := &specCtx{x: x, fr: f, st: post, old: x.entry, results: res, resTypes: rts, resNames: rns, entryVars: true}
	pctx.params = map[string]SV{}
	for n, v := range x.pnames {
		if !strings.HasPrefix(n, "&") {
			pctx.params[n] = SV{v: v, t: x.ptypes[n]}
		}
	}
	x.curPos = fn.Pos()
	for _, h := range fc.Hooks { // actions at the end of the function
		if h.Event != "return" {
			continue
		}
		x.hooked[h.Event+" "+h.Target] = true
		for i, a := range h.Acts {
			switch a.Kind {
			case "assert":
				if o := x.oblig(post, "on.return", a.label(i), x.evalBool(a.Expr, pctx)); o != nil {
					o.By = a.By
				}
			case "assume":
				x.factL(post, x.evalBool(a.Expr, pctx), a.Lab)
			case "apply":
				x.factL(post, x.lemmaCall(a.Expr, pctx), lemmaName(a.Expr))
			case "set":
				old, ok := post.ghost[a.Ghost]
				if !ok {
					panic(specErr("ghost %s not declared", a.Ghost))
				}
				post.ghost[a.Ghost] = coerce(x.eval(a.Expr, pctx).term(x), old.Sort)
				x.noteGhost(a.Ghost)
			}
		}
	}
	for _, h := range fc.Hooks {
		if !x.hooked[h.Event+" "+h.Target] && h.Event != "drained" && h.Event != "recv" {
			x.oblig(post, "hook.reached", h.Event+" "+shortName(h.Target), False)
		}
	}
	if !fc.View {
		x.frameObligs(fc, f, post)
	}
	for i, e := range fc.Ensures {
		o := x.oblig(post, "ensures", e.label(i), x.evalBool(e.Expr, pctx))
		if o != nil {
			o.By = e.By
			o.Props = e.Props
		}
	}
	if !fc.View {
		for _, k := range sortedKeys(post.ghost) {
			if n := strings.TrimPrefix(k, "lock:"); n != k && n != "" && n[0] != '#' && (n[0] < '0' || n[0] > '9') {
				x.oblig(post, "lock.released", n, Not(post.ghost[k]))
			}
		}
	}
	if !fc.CoverOff {
		if o := x.oblig(post, "cover.exit", "", True); o != nil {
			o.Cover = true
		}
	}
	return fr
}

func (x *Exec) frameObligs(fc *FuncContract, f *Frame, post *State) {
	ctx := &specCtx{x: x, fr: f, st: x.entry, old: x.entry}
	ctx.params = map[string]SV{}
	for n, v := range x.pnames {
		ctx.params[n] = SV{v: v, t: x.ptypes[n]}
	}
	targets := x.modTargets(fc, ctx)
	by := map[string][]modTarget{}
	for _, t := range targets {
		by[t.key] = append(by[t.key], t)
	}
	for _, k := range sortedKeys(post.mem) {
		m1 := post.mem[k]
		m0, ok := x.entry.mem[k]
		if !ok {
			m0 = initMem(k, m1.Sort)
		}
		if m0 == m1 {
			continue
		}
		all := false
		r := Fresh("frame.r", SInt)
		refUpper[r] = x.entry.alloc
		conds := []*Term{Lt(r, x.entry.alloc), Ne(r, IntT(0))}
		var inBlk []modTarget
		for _, t := range by[k] {
			if t.all {
				all = true
			} else if t.idx == nil {
				conds = append(conds, Ne(r, t.blk))
			} else {
				inBlk = append(inBlk, t)
			}
		}
		if all {
			continue
		}
		a, b := Select(m1, r), Select(m0, r)
		goal := Eq(a, b)
		if len(inBlk) > 0 {
			i := Fresh("frame.i", SInt)
			ea, eb := Select(a, i), Select(b, i)
			goal = Eq(ea, eb)
			for _, t := range inBlk {
				here := And(Eq(r, t.blk), Eq(i, t.idx))
				if t.fld < 0 {
					goal = Or(here, goal)
				} else {
					var fs []*Term
					allowed := map[int]bool{}
					for _, o := range inBlk {
						if o.blk == t.blk && o.idx == t.idx && o.fld >= 0 {
							allowed[o.fld] = true
						}
					}
					for j := range ea.Sort.Fields {
						if !allowed[j] {
							fs = append(fs, Eq(SelF(ea, j), SelF(eb, j)))
						}
					}
					goal = Or(goal, And(here, And(fs...)))
				}
			}
		}
		if goal == True {
			continue
		}
		save := len(x.facts)
		x.oblig(post, "frame", shortName(k), Implies(And(conds...), goal))
		x.facts = x.facts[:save:save]
	}
	for _, g := range fc.ModGhost {
		_ = g
	}
	for k, v := range post.ghost {
		if strings.HasPrefix(k, "lock:") && !strings.HasPrefix(k, "lock:#") {
			if e, ok := x.entry.ghost[k]; ok {
				if e != v {
					x.oblig(post, "lock.balanced", "", Eq(e, v))
				}
			} else if v != False {
				x.oblig(post, "lock.balanced", "", Not(v))
			}
		}
	}
}

// ---- lemmas

func (x *Exec) lemmaParams(l *Lemma) (map[string]SV, []*Term, *types.Package) {
	var pkg *types.Package
	if l.Alias != "" {
		pkg = x.P.ipkgs[aliases[l.Alias]]
	}
	b := map[string]SV{}
	var bs []*Term
	for _, p := range l.Params {
		s := x.sortByName(p.Type, pkg)
		v := BoundVar(p.Name, s)
		var t types.Type
		if !strings.HasPrefix(p.Type, "set[") && !strings.HasPrefix(p.Type, "arr[") {
			t = x.typeByName(p.Type, pkg)
		}
		b[p.Name] = SV{v: v, t: t}
		bs = append(bs, v)
	}
	return b, bs, pkg
}

func (x *Exec) useLemmas(names []string) {
	for _, n := range names {
		l := x.C.Lemmas[n]
		if l == nil {
			panic(specErr("unknown lemma %s", n))
		}
		if x.lem != nil && l.Seq >= x.lem.Seq {
			panic(specErr("lemma %s is stated after %s", n, x.lem.Name))
		}
		x.usedLem[n] = true
		b, bs, pkg := x.lemmaParams(l)
		ctx := &specCtx{x: x, st: x.newState(), bound: b, onlyParam: true, pkg: pkg}
		var req, ens []*Term
		for _, r := range l.Requires {
			req = append(req, x.evalBool(r.Expr, ctx))
		}
		for _, r := range l.Ensures {
			ens = append(ens, x.evalBool(r.Expr, ctx))
		}
		var tr []*Term
		for _, t := range l.Trig {
			tr = append(tr, x.eval(t, ctx).term(x))
		}
		var trigs [][]*Term
		if len(tr) > 0 {
			trigs = append(trigs, tr)
		}
		x.factL(nil, Forall(bs, trigs, Implies(And(req...), And(ens...))), n)
	}
}

// reveal makes the definition of opaque functions known.
func (x *Exec) reveal(names []string) {
	for _, n := range names {
		u := x.C.UFuns[n]
		if u == nil || u.Body == nil {
			panic(specErr("nothing to reveal: %s", n))
		}
		var pkg *types.Package
		if u.Alias != "" {
			pkg = x.P.ipkgs[aliases[u.Alias]]
		}
		b := map[string]SV{}
		var bs []*Term
		var args []SV
		for i, p := range u.Params {
			v := BoundVar(p, x.sortByName(u.Args[i], pkg))
			b[p] = SV{v: v, t: x.typeByName(u.Args[i], pkg)}
			bs = append(bs, v)
			args = append(args, b[p])
		}
		ctx := &specCtx{x: x, st: x.newState(), bound: b, onlyParam: true, pkg: pkg}
		app := x.applyUFun(u, args, ctx).term(x)
		x.gfact(Forall(bs, [][]*Term{{app}}, Eq(app, coerce(x.eval(u.Body, ctx).term(x), app.Sort))))
	}
}

func lemmaName(e ast.Expr) string {
	if n, ok := e.(*ast.CallExpr); ok {
		return exprStr(n.Fun)
	}
	return ""
}

// lemmaCall is the instance of a proved lemma.
func (x *Exec) lemmaCall(e ast.Expr, c *specCtx) *Term {
	n, ok := e.(*ast.CallExpr)
	if !ok {
		panic(specErr("apply needs lemma(args)"))
	}
	l := x.C.Lemmas[exprStr(n.Fun)]
	if l == nil {
		panic(specErr("unknown lemma %s", exprStr(n.Fun)))
	}
	if x.lem != nil && l.Seq >= x.lem.Seq && !(l == x.lem && l.Induct != "") {
		panic(specErr("lemma %s is stated after %s", l.Name, x.lem.Name))
	}
	x.usedLem[l.Name] = true
	if len(n.Args) != len(l.Params) {
		panic(specErr("arity of lemma %s", l.Name))
	}
	var pkg *types.Package
	if l.Alias != "" {
		pkg = x.P.ipkgs[aliases[l.Alias]]
	}
	b := map[string]SV{}
	for i, p := range l.Params {
		v := x.eval(n.Args[i], c)
		s := x.sortByName(p.Type, pkg)
		t := v.t
		if t == nil && !strings.HasPrefix(p.Type, "set[") && !strings.HasPrefix(p.Type, "arr[") {
			t = x.typeByName(p.Type, pkg)
		}
		b[p.Name] = SV{v: coerce(v.term(x), s), t: t}
	}
	ctx := &specCtx{x: x, st: c.st, bound: b, onlyParam: true, pkg: pkg}
	var req, ens []*Term
	for _, r := range l.Requires {
		req = append(req, x.evalBool(r.Expr, ctx))
	}
	for _, r := range l.Ensures {
		ens = append(ens, x.evalBool(r.Expr, ctx))
	}
	if l == x.lem { // the induction hypothesis
		n := b[l.Induct].term(x)
		req = append(req, Le(IntT(0), n), Lt(n, x.lemN))
	}
	return Implies(And(req...), And(ens...))
}

func (x *Exec) lemmaInstance(n *ast.CallExpr, c *specCtx) *Term { return x.lemmaCall(n.Args[0], c) }

func verifyLemma(P *Program, C *Contracts, l *Lemma) (fr *FuncResult) {
	x := newExec(P, C, "lemma "+l.Name)
	fr = &FuncResult{Name: "lemma " + l.Name, Kind: "lemma", Pos: l.Pos}
	defer func() {
		fr.Obls = x.obls
		fr.Lemmas = sortedKeys(x.usedLem)
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				fr.Err = u.msg
				return
			}
			if debugPanics {
				panic(r)
			}
			fr.Err = fmt.Sprintf("internal: %v", r)
		}
	}()
	var pkg *types.Package
	if l.Alias != "" {
		pkg = P.ipkgs[aliases[l.Alias]]
	}
	st := x.newState()
	b := map[string]SV{}
	for _, p := range l.Params {
		var t types.Type
		if !strings.HasPrefix(p.Type, "set[") && !strings.HasPrefix(p.Type, "arr[") {
			t = x.typeByName(p.Type, pkg)
		}
		b[p.Name] = SV{v: Fresh(p.Name, x.sortByName(p.Type, pkg)), t: t}
	}
	ctx := &specCtx{x: x, st: st, bound: b, onlyParam: true, pkg: pkg}
	for _, r := range l.Requires {
		x.fact(st, x.evalBool(r.Expr, ctx))
	}
	x.lem = l
	if l.Induct != "" {
		x.lemN = b[l.Induct].term(x)
	}
	x.useLemmas(l.Uses)
	x.reveal(l.Reveals)
	for _, a := range l.Applies {
		x.factL(st, x.lemmaCall(a.Expr, ctx), lemmaName(a.Expr))
	}
	if l.Induct != "" {
		// strong induction over a non-negative parameter; the others are universally quantified
		qb, qs, _ := x.lemmaParams(l)
		qctx := &specCtx{x: x, st: st, bound: qb, onlyParam: true, pkg: pkg}
		n, qn := b[l.Induct].term(x), qb[l.Induct].term(x)
		var req, ens []*Term
		for _, r := range l.Requires {
			req = append(req, x.evalBool(r.Expr, qctx))
		}
		for _, r := range l.Ensures {
			ens = append(ens, x.evalBool(r.Expr, qctx))
		}
		var tr []*Term
		for _, t := range l.Trig {
			tr = append(tr, x.eval(t, qctx).term(x))
		}
		var trigs [][]*Term
		if len(tr) > 0 {
			trigs = [][]*Term{tr}
		}
		x.gfact(Forall(qs, trigs, Implies(And(And(req...), Le(IntT(0), qn), Lt(qn, n)), And(ens...))))
		// the predecessor instance, spelled out
		pb := map[string]SV{}
		for k, v := range b {
			pb[k] = v
		}
		pb[l.Induct] = SV{v: Sub(n, IntT(1)), t: b[l.Induct].t}
		pctx := &specCtx{x: x, st: st, bound: pb, onlyParam: true, pkg: pkg}
		req, ens = nil, nil
		for _, r := range l.Requires {
			req = append(req, x.evalBool(r.Expr, pctx))
		}
		for _, r := range l.Ensures {
			ens = append(ens, x.evalBool(r.Expr, pctx))
		}
		x.gfact(Implies(And(And(req...), Le(IntT(1), n)), And(ens...)))
		// well-founded only on the non-negative part
		o := x.oblig(st, "induct.nonneg", "", Le(IntT(0), n))
		_ = o
	}
	if o := x.oblig(st, "cover", "", True); o != nil {
		o.Cover = true
	}
	for i, e := range l.Ensures {
		o := x.oblig(st, "ensures", e.label(i), x.evalBool(e.Expr, ctx))
		if o != nil {
			o.Timeout = l.Timeout
			o.Props = e.Props
		}
	}
	return fr
}

// ---- solving

type OblResult struct {
	O      *Obligation
	Status string // proved, failed, unknown
	Solver string
	Secs   float64
	Model  string
}

var debugPanics bool

func solveAll(obls []*Obligation, workers int, deadline time.Time) []OblResult {
	out := make([]OblResult, len(obls))
	var wg sync.WaitGroup
	idx := make(chan int)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range idx {
				out[i] = solveOne(obls[i], deadline)
			}
		}()
	}
	for i := range obls {
		idx <- i
	}
	close(idx)
	wg.Wait()
	return out
}

func solveOne(o *Obligation, deadline time.Time) OblResult {
	secs := o.Timeout
	if secs == 0 {
		secs = defaultTimeout
	}
	if left := int(time.Until(deadline).Seconds()); left < secs {
		secs = left
		if secs < 5 {
			secs = 5
		}
	}
	r := OblResult{O: o}
	if o.Cover {
		asserts := append(append([]*Term(nil), o.Facts...), o.PC)
		cs := 3
		if secs < cs {
			cs = secs
		}
		termMu.Lock()
		in := script(asserts, false)
		termMu.Unlock()
		solverSem <- struct{}{}
		s := runSolver(solvers(cs)[0], in, cs, nil)
		<-solverSem
		r.Secs, r.Solver = s.secs, s.solver
		switch s.status {
		case "unsat":
			r.Status = "failed"
			r.Model = "the assumptions are contradictory"
		case "sat":
			r.Status = "proved"
		default:
			r.Status = "proved" // not shown contradictory
			r.Solver = "none (not refuted)"
		}
		return r
	}
	if o.Goal == True || o.PC == False {
		r.Status, r.Solver = "proved", "simplifier"
		return r
	}
	if o.By != nil { // fewer facts first
		var fs []*Term
		termMu.Lock()
		for _, f := range o.Facts {
			if l := o.Labels[f]; l == "" || quantDepth(f) == 0 || contains(o.By, l) {
				fs = append(fs, f)
			}
		}
		termMu.Unlock()
		t := 0.0
		s := smtResult{status: "unsat", solver: "simplifier"}
		for _, q := range pieces(fs, o.PC, o.Goal, 16, false) {
			s = solveAbs(o.Name, q, secs)
			t += s.secs
			if s.status != "unsat" {
				break
			}
		}
		if s.status == "unsat" {
			r.Status, r.Solver, r.Secs = "proved", s.solver, t
			return r
		}
		if os.Getenv("GOVC_BYONLY") != "" {
			r.Status, r.Solver, r.Secs = "unknown", s.solver+"/"+s.status, t
			return r
		}
	}
	pre := append(append([]*Term(nil), o.Facts...), o.PC)
	asserts := prepL(o.Facts, o.PC, notL(o.Goal))
	s := solveAbs(o.Name, asserts, min(secs, 1))
	if s.status == "sat" { // with every fact
		s = solve(o.Name, append(pre[:len(pre):len(pre)], notL(o.Goal)), secs, true)
	}
	if s.status != "unsat" && s.status != "sat" && secs > 1 {
		t := s.secs
		s = smtResult{status: "unsat", solver: "simplifier"}
		for _, q := range pieces(o.Facts, o.PC, o.Goal, 16, true) {
			s = solveAbs(o.Name, q, secs)
			t += s.secs
			if s.status != "unsat" {
				break
			}
		}
		if s.status == "sat" {
			s = solve(o.Name, append(pre[:len(pre):len(pre)], notL(o.Goal)), secs, true)
			t += s.secs
		}
		s.secs = t
	}
	r.Secs, r.Solver = s.secs, s.solver
	switch s.status {
	case "unsat":
		r.Status = "proved"
	case "sat":
		r.Status = "failed"
		r.Model = s.out
	default:
		r.Status = "unknown"
		r.Model = s.out
	}
	return r
}

// solveAbs tries without nonlinear arithmetic first.
func solveAbs(name string, q []*Term, secs int) smtResult {
	t := 0.0
	if a := abstractL(q); a != nil {
		s := solve(name, a, secs, true)
		if s.status == "unsat" {
			return s
		}
		t = s.secs
	}
	s := solve(name, q, secs, true)
	s.secs += t
	return s
}

func prepL(facts []*Term, goal ...*Term) []*Term {
	termMu.Lock()
	defer termMu.Unlock()
	return propagate(prune(propagate2(facts, goal), goal))
}

// pieces are the queries that together decide the goal.
func pieces(facts []*Term, pc, goal *Term, n int, drop bool) [][]*Term {
	prune := prune
	if !drop {
		prune = func(f, g []*Term) []*Term { return append(append([]*Term(nil), f...), g...) }
	}
	termMu.Lock()
	defer termMu.Unlock()
	var out [][]*Term
	for _, l := range cases(prune(propagate2(facts, []*Term{pc, Not(goal)}), []*Term{pc, Not(goal)}), pc, goal, n) {
		for _, g := range splitGoal(l.goal) {
			ng := append(append([]*Term(nil), l.conds...), Not(g))
			q := propagate(prune(propagate2(l.facts, ng), ng))
			if len(q) == 1 && q[0] == False {
				continue
			}
			out = append(out, q)
		}
	}
	return out
}

// propagate2 simplifies the facts under the path condition.
func propagate2(facts, goal []*Term) []*Term {
	return propagate(append(append([]*Term(nil), goal...), facts...))
}

func notL(t *Term) *Term {
	termMu.Lock()
	defer termMu.Unlock()
	return Not(t)
}

var defaultTimeout = 30

// splitGoal breaks a goal into conjuncts, opening universal quantifiers.
func splitGoal(g *Term) []*Term {
	var rec func(g *Term) []*Term
	rec = func(g *Term) []*Term {
		switch g.Op {
		case OAnd:
			var out []*Term
			for _, a := range g.Args {
				out = append(out, rec(a)...)
			}
			return out
		case OForall:
			m := map[*Term]*Term{}
			for _, b := range g.Bound {
				m[b] = Fresh("sk", b.Sort)
			}
			return rec(Subst(g.Args[0], m))
		case OOr:
			for i, a := range g.Args {
				if a.Op == OAnd || a.Op == OForall || a.Op == ONot && a.Args[0].Op == OOr {
					var out []*Term
					for _, p := range rec(a) {
						as := append([]*Term(nil), g.Args...)
						as[i] = p
						n := Or(as...)
						if n.Op == OOr && len(n.Args) >= len(g.Args) && p == a {
							out = append(out, n)
						} else {
							out = append(out, rec(n)...)
						}
					}
					return out
				}
			}
		case OIte:
			if g.Sort == SBool {
				return append(rec(Or(Not(g.Args[0]), g.Args[1])), rec(Or(g.Args[0], g.Args[2]))...)
			}
		}
		return []*Term{g}
	}
	out := rec(g)
	if len(out) > 24 {
		return []*Term{g}
	}
	return out
}

func sortedFuncs(m map[string]bool) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}
