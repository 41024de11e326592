package main

// Symbolic execution of SSA functions and generation of proof obligations.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	Name    string
	Func    string
	Kind    string
	Goal    *Term // facts and pc imply goal
	PC      *Term
	NFacts  int
	Facts   []*Term
	Pos     string
	Props   []string // empty: all of the function's properties
	Cover   bool     // must be satisfiable (reachability), goal ignored
	Extra   []*Term
	Timeout int
	By      []string // try first with only the quantified facts of these labels
	Labels  map[*Term]string
}

type Frame struct {
	fn     *ssa.Function
	parent *Frame
	pstate *State // caller state at the call
	loops  *loopInfo
	depth  int
	exits  []retEdge
	binds  map[ssa.Value]Val
}

type retEdge struct {
	st  *State
	res []Val
}

type writeSet struct {
	mem   map[string]map[*Term]bool
	idx   map[string]map[*Term]*Term // the only element written in a block; nil: any
	ghost map[string]bool
	iters map[*ssa.Range]bool
	alloc bool
}

func newWriteSet() *writeSet {
	return &writeSet{mem: map[string]map[*Term]bool{}, idx: map[string]map[*Term]*Term{}, ghost: map[string]bool{}, iters: map[*ssa.Range]bool{}}
}

type loopGuard struct { // active loop frame restrictions on stores
	bound  *Term
	except map[string][]*Term // per memory key
	exact  map[string]map[*Term]bool
	only   map[string]map[*Term]*Term // the only element of an exact block that may be written
	mark   int
	name   string
	all    map[string]bool // keys without a frame
}

type Exec struct {
	P        *Program
	C        *Contracts
	fc       *FuncContract
	lem      *Lemma // the lemma being proved
	lemN     *Term  // its induction variable
	facts    []*Term
	obls     []*Obligation
	dry      int
	writes   []*writeSet
	guards   []*loopGuard
	names    map[string]int
	loopN    int
	loopIDs  map[string]int // frame path + loop header -> number
	entry    *State
	fname    string
	pnames   map[string]Val
	ghostT   map[string]types.Type
	ptypes   map[string]types.Type
	iterSeq  map[*ssa.Range]int
	iterCnt  int
	hooked   map[string]bool
	usedLem  map[string]bool
	trusted  map[string]bool // external functions relied upon
	usedFns  map[string]bool // contracts relied upon
	inlined  map[string]bool
	gfacts   map[*Term]bool
	lab      string
	flab     map[*Term]string
	inSpec   int
	oncall   map[string]int
	goDepth  int
	goEntry  *Term
	wgs      map[string]int
	wgSite   map[*Term]string
	goThread *Term
	goState  *State
	goFrame  *Frame
	goFirst  bool
	goSlots  map[string]*Term
	resNames []string
	lets     map[string]SV
	noSafety bool
	curPos   token.Pos
	retState *State
}

func (x *Exec) fact(st *State, f *Term) {
	for _, p := range pendingFacts {
		x.facts = append(x.facts, p)
	}
	pendingFacts = nil
	if f == True {
		return
	}
	g := f
	if st != nil {
		g = Implies(st.pc, f)
	}
	if g != True && x.lab != "" {
		if l, ok := x.flab[g]; !x.gfacts[g] || ok && strings.HasPrefix(l, "@") {
			x.flab[g] = x.lab
		}
	}
	if g == True || x.gfacts[g] {
		return
	}
	x.gfacts[g] = true
	x.facts = append(x.facts, g)
}

// factL adds a fact under a label (see Obligation.By).
func (x *Exec) factL(st *State, f *Term, label string) {
	old := x.lab
	x.lab = label
	x.fact(st, f)
	x.lab = old
}

// gfact adds an unconditional fact (true of the term itself).
func (x *Exec) gfact(f *Term) { x.fact(nil, f) }

func (x *Exec) oblig(st *State, kind, label string, goal *Term) *Obligation {
	if x.dry > 0 || x.inSpec > 0 {
		return nil
	}
	for _, p := range pendingFacts {
		x.facts = append(x.facts, p)
	}
	pendingFacts = nil
	name := x.fname + "/" + kind
	if label != "" {
		name += "[" + label + "]"
	}
	x.names[name]++
	if n := x.names[name]; n > 1 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	o := &Obligation{Name: name, Func: x.fname, Kind: kind, Goal: goal, PC: st.pc, Facts: x.facts[:len(x.facts):len(x.facts)], Pos: x.P.fset.Position(x.curPos).String()}
	x.obls = append(x.obls, o)
	// once checked, the goal may be used below
	o.Labels = x.flab
	l := label
	if strings.HasSuffix(kind, ".entry") || strings.HasSuffix(kind, ".preserved") {
		l = "@" + label
	}
	x.factL(st, goal, l)
	return o
}

func (x *Exec) safety(st *State, kind, label string, goal *Term) {
	if x.noSafety {
		x.fact(st, goal)
		return
	}
	if goal == True {
		return
	}
	x.oblig(st, "safe."+kind, label, goal)
}

func (x *Exec) assume(st *State, f *Term) {
	st.pc = And(st.pc, f)
}

// ---- memory access

func (x *Exec) noteWrite(st *State, key string, blk *Term) { x.noteWriteAt(st, key, blk, nil) }

// addWrite records a write to an element of a block (nil: any element).
func (w *writeSet) addWrite(key string, blk, idx *Term) {
	m := w.mem[key]
	if m == nil {
		m = map[*Term]bool{}
		w.mem[key] = m
		w.idx[key] = map[*Term]*Term{}
	}
	if !m[blk] {
		w.idx[key][blk] = idx
	} else if w.idx[key][blk] != idx {
		w.idx[key][blk] = nil
	}
	m[blk] = true
}

func (x *Exec) noteWriteAt(st *State, key string, blk, idx *Term) {
	for _, w := range x.writes {
		w.addWrite(key, blk, idx)
	}
	for _, g := range x.guards {
		if g.all[key] {
			continue
		}
		if g.exact[key][blk] {
			if want := g.only[key][blk]; want != nil && want != idx && x.dry == 0 {
				if idx == nil {
					panic(unsupported("write to %s inside loop %s missed by the loop summary", key, g.name))
				}
				x.safety(st, "frame", g.name, Eq(idx, want))
			}
			continue
		}
		if isAllocTerm(blk) && allocGE(blk, g.bound) {
			continue
		}
		ex, ok := g.except[key]
		if !ok && x.dry == 0 {
			panic(unsupported("write to %s inside loop %s missed by the loop summary", key, g.name))
		}
		if x.dry == 0 {
			alts := []*Term{Ge(blk, g.bound)}
			for _, e := range ex {
				alts = append(alts, Eq(blk, e))
			}
			x.safety(st, "frame", g.name, Or(alts...))
		}
	}
}

func (x *Exec) noteGhost(k string) {
	for _, w := range x.writes {
		w.ghost[k] = true
	}
}

func (x *Exec) newBlk(st *State) *Term {
	b := st.alloc
	st.alloc = Add(st.alloc, IntT(1))
	for _, w := range x.writes {
		w.alloc = true
	}
	return b
}

func (x *Exec) typeFacts(st *State, v *Term, t types.Type, upper *Term) {
	if v.hasB {
		return
	}
	t = types.Unalias(t)
	if bvBits(t) > 0 {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if v.IsConst() {
			return
		}
		if lo, hi, ok := intRange(t); ok && hi.BitLen() <= 32 {
			x.gfact(And(Le(NumT(SInt, new(big.Rat).SetInt(lo)), v), Le(v, NumT(SInt, new(big.Rat).SetInt(hi)))))
		} else if ok && lo.Sign() == 0 {
			x.gfact(Le(IntT(0), v))
		}
	case *types.Pointer:
		x.refFact(SelF(v, 0), upper)
		x.gfact(Implies(Eq(SelF(v, 0), IntT(0)), Eq(SelF(v, 1), IntT(0))))
	case *types.Slice:
		x.refFact(SelF(v, 0), upper)
		off, ln, cp := SelF(v, 1), SelF(v, 2), SelF(v, 3)
		x.gfact(And(Le(IntT(0), off), Le(IntT(0), ln), Le(ln, cp)))
		x.gfact(Implies(Eq(SelF(v, 0), IntT(0)), Eq(cp, IntT(0))))
	case *types.Map, *types.Chan:
		x.refFact(v, upper)
	case *types.Interface:
		x.gfact(Le(IntT(0), v))
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			x.typeFacts(st, SelF(v, i), u.Field(i).Type(), upper)
		}
	}
}

func (x *Exec) refFact(b *Term, upper *Term) {
	if b.IsConst() || isAllocTerm(b) {
		return
	}
	if b.Op == OIte {
		x.refFact(b.Args[1], upper)
		x.refFact(b.Args[2], upper)
		return
	}
	if _, ok := refUpper[b]; ok {
		return
	}
	refUpper[b] = upper
	x.gfact(Lt(b, upper))
}

func (x *Exec) load(st *State, p *Ptr) Val {
	_, m := st.memOf(p.root)
	inner := Select(m, p.blk)
	var v *Term
	var t types.Type = p.root
	if p.arr {
		v = inner
		t = types.NewArray(p.root, p.arrLen)
	} else {
		v = Select(inner, p.idx)
	}
	for _, e := range p.path {
		if e.index != nil {
			v = Select(v, e.index)
		} else {
			v = SelF(v, e.field)
		}
		t = e.typ
	}
	if v.hasB {
		x.memAxioms(m, p.root, st.alloc)
	}
	x.typeFacts(st, v, t, baseAlloc(v, st.alloc))
	return v
}

// typeConds are the type facts of a value as one formula.
func (x *Exec) typeConds(v *Term, t types.Type, upper *Term) (out []*Term) {
	t = types.Unalias(t)
	if bvBits(t) > 0 {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if lo, hi, ok := intRange(t); ok && hi.BitLen() <= 32 {
			out = append(out, And(Le(NumT(SInt, new(big.Rat).SetInt(lo)), v), Le(v, NumT(SInt, new(big.Rat).SetInt(hi)))))
		} else if ok && lo.Sign() == 0 {
			out = append(out, Le(IntT(0), v))
		}
	case *types.Pointer:
		out = append(out, Lt(SelF(v, 0), upper), Implies(Eq(SelF(v, 0), IntT(0)), Eq(SelF(v, 1), IntT(0))))
	case *types.Slice:
		off, ln, cp := SelF(v, 1), SelF(v, 2), SelF(v, 3)
		out = append(out, Lt(SelF(v, 0), upper), And(Le(IntT(0), off), Le(IntT(0), ln), Le(ln, cp)), Implies(Eq(SelF(v, 0), IntT(0)), Eq(cp, IntT(0))))
	case *types.Map, *types.Chan:
		out = append(out, Lt(v, upper))
	case *types.Interface:
		out = append(out, Le(IntT(0), v))
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, x.typeConds(SelF(v, i), u.Field(i).Type(), upper)...)
		}
	}
	return out
}

type memAxKey struct {
	t *Term
	k string
}

var memAxTab = map[memAxKey]*Term{}

// memAxioms states the type facts of every value held in a memory, for loads under quantifiers.
func (x *Exec) memAxioms(m *Term, elem types.Type, cur *Term) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || t.Sort == nil || t.Sort.K == nil {
			return
		}
		seen[t] = true
		if a, ok := memAlloc[t]; ok && t.Op == OSym {
			if f, ok := memAxTab[memAxKey{t, typeKey(elem)}]; ok {
				if f != nil {
					x.gfact(f)
				}
				return
			}
			memAxTab[memAxKey{t, typeKey(elem)}] = nil
			var bs []*Term
			v := t
			for n := 0; v.Sort.K != nil && v.Sort.V != nil && v.Sort != sortOf(elem); n++ {
				b := BoundVar(fmt.Sprintf("mx%d", n), v.Sort.K)
				bs = append(bs, b)
				v = intern(&Term{Op: OSelect, Sort: v.Sort.V, Args: []*Term{v, b}})
			}
			if v.Sort == sortOf(elem) {
				if cs := x.typeConds(v, elem, a); len(cs) > 0 {
					f := Forall(bs, [][]*Term{{v}}, And(cs...))
					memAxTab[memAxKey{t, typeKey(elem)}] = f
					x.gfact(f)
				}
			}
			return
		}
		switch t.Op {
		case OStore:
			walk(t.Args[0])
			walk(t.Args[2])
		case OIte:
			walk(t.Args[1])
			walk(t.Args[2])
		case OSelect:
			walk(t.Args[0])
		}
	}
	walk(m)
}

func updPath(v *Term, path []pathElem, nv *Term) *Term {
	if len(path) == 0 {
		return nv
	}
	e := path[0]
	if e.index != nil {
		return Store(v, e.index, updPath(Select(v, e.index), path[1:], nv))
	}
	return UpdF(v, e.field, updPath(SelF(v, e.field), path[1:], nv))
}

func (x *Exec) store(st *State, p *Ptr, v *Term) {
	k, m := st.memOf(p.root)
	if p.arr {
		x.noteWrite(st, k, p.blk)
	} else {
		x.noteWriteAt(st, k, p.blk, p.idx)
	}
	inner := Select(m, p.blk)
	if p.arr {
		st.mem[k] = Store(m, p.blk, updPath(inner, p.path, v))
		return
	}
	cur := Select(inner, p.idx)
	st.mem[k] = Store(m, p.blk, Store(inner, p.idx, updPath(cur, p.path, v)))
}

// asPtr turns a pointer value into its address form.
func (x *Exec) asPtr(v Val, t types.Type) *Ptr {
	switch p := v.(type) {
	case *Ptr:
		return p
	case *Term:
		el := t.Underlying().(*types.Pointer).Elem()
		if at, ok := el.Underlying().(*types.Array); ok {
			return &Ptr{blk: SelF(p, 0), idx: IntT(0), root: at.Elem(), arr: true, arrLen: at.Len()}
		}
		return &Ptr{blk: SelF(p, 0), idx: SelF(p, 1), root: el}
	}
	panic(unsupported("pointer value %T", v))
}

// asTerm turns a value into a term for storing or comparing.
func (x *Exec) asTerm(v Val) *Term {
	switch p := v.(type) {
	case *Term:
		return p
	case *Ptr:
		if len(p.path) == 0 {
			return Mk(SPtr, p.blk, p.idx)
		}
		panic(unsupported("interior pointer stored or compared"))
	case *Closure:
		return Fn("closure$"+p.fn.String(), SInt)
	case *FuncSym:
		return p.id
	}
	panic(unsupported("value %T used as a term", v))
}

func (x *Exec) nilCheck(st *State, p *Ptr, what string) {
	if p.blk.IsConst() && p.blk.Val.Sign() < 0 {
		return
	}
	if eq, known := decideEq(p.blk, IntT(0)); known && !eq {
		return
	}
	x.safety(st, "nil", what, Ne(p.blk, IntT(0)))
}

// ---- values

func (x *Exec) constVal(c *ssa.Const) Val {
	t := types.Unalias(c.Type())
	if c.Value == nil {
		if _, ok := t.Underlying().(*types.Signature); ok {
			return IntT(0)
		}
		if tp, ok := t.(*types.TypeParam); ok {
			panic(unsupported("type param %v", tp))
		}
		return zeroTerm(t)
	}
	if n := bvBits(t); n > 0 {
		u, _ := constant.Uint64Val(constant.ToInt(c.Value))
		return BVT(n, u)
	}
	switch b := t.Underlying().(type) {
	case *types.Basic:
		return constTerm(c.Value, basicSort(b))
	}
	panic(unsupported("constant %v", c))
}

func constTerm(v constant.Value, s *Sort) *Term {
	switch s.Kind {
	case KBool:
		return BoolT(constant.BoolVal(v))
	case KInt, KReal:
		r, ok := new(big.Rat).SetString(constant.ToFloat(v).ExactString())
		if !ok {
			f := constant.Val(constant.ToFloat(v))
			switch q := f.(type) {
			case *big.Rat:
				r = q
			case *big.Float:
				r, _ = q.Rat(nil)
			default:
				panic(unsupported("constant %v", v))
			}
		}
		return NumT(s, r)
	case KUnint:
		return StrLit(constant.StringVal(v))
	}
	panic(unsupported("const sort %s", s.Name))
}

var globalIDs = map[string]int64{}

func globalBlk(g *ssa.Global) *Term {
	k := g.String()
	id, ok := globalIDs[k]
	if !ok {
		id = -int64(len(globalIDs) + 1)
		globalIDs[k] = id
	}
	return IntT(id)
}

func (x *Exec) val(st *State, fr *Frame, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		el := c.Type().Underlying().(*types.Pointer).Elem()
		if at, ok := el.Underlying().(*types.Array); ok {
			return &Ptr{blk: globalBlk(c), idx: IntT(0), root: at.Elem(), arr: true, arrLen: at.Len()}
		}
		return &Ptr{blk: globalBlk(c), idx: IntT(0), root: el}
	case *ssa.Function:
		return &Closure{fn: c}
	case *ssa.Builtin:
		return c
	case *ssa.FreeVar:
		if b, ok := fr.binds[v]; ok {
			return b
		}
	}
	if r, ok := st.env[v]; ok {
		return r
	}
	panic(unsupported("value %s (%T) of %s not available", v.Name(), v, fr.fn))
}

func (x *Exec) term(st *State, fr *Frame, v ssa.Value) *Term { return x.asTerm(x.val(st, fr, v)) }

// symbolic creates an unknown value of type t.
func (x *Exec) symbolic(st *State, name string, t types.Type) Val {
	if sig, ok := t.Underlying().(*types.Signature); ok {
		id := Fresh(name, SInt)
		return &FuncSym{name: name, sig: sig, id: id}
	}
	if tup, ok := t.(*types.Tuple); ok {
		var out Tuple
		for i := 0; i < tup.Len(); i++ {
			out = append(out, x.symbolic(st, fmt.Sprintf("%s.%d", name, i), tup.At(i).Type()))
		}
		return out
	}
	v := Fresh(name, sortOf(t))
	if v.Sort.Kind == KDT && len(v.Sort.Fields) > 0 && v.Sort != SPtr && v.Sort != SSlice {
		// expand structs for better simplification
	}
	if v.Sort == SPtr {
		v = Mk(SPtr, Fresh(name+".p", SInt), Fresh(name+".i", SInt))
	} else if v.Sort == SSlice {
		v = Mk(SSlice, Fresh(name+".blk", SInt), Fresh(name+".off", SInt), Fresh(name+".len", SInt), Fresh(name+".cap", SInt))
	}
	x.typeFacts(st, v, t, st.alloc)
	return v
}

// ---- loops

type loopInfo struct {
	headers map[*ssa.BasicBlock]*loop
	inner   map[*ssa.BasicBlock]*loop // innermost loop of a block
	rpo     map[*ssa.BasicBlock]int
}

type loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	parent *loop
	ord    int
}

var loopCache = map[*ssa.Function]*loopInfo{}

func findLoops(fn *ssa.Function) *loopInfo {
	if li, ok := loopCache[fn]; ok {
		return li
	}
	li := &loopInfo{headers: map[*ssa.BasicBlock]*loop{}, inner: map[*ssa.BasicBlock]*loop{}, rpo: map[*ssa.BasicBlock]int{}}
	// reverse postorder
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, b := range post {
		li.rpo[b] = len(post) - 1 - i
	}
	for _, b := range fn.Blocks {
		if !seen[b] {
			continue
		}
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.headers[s]
				if l == nil {
					l = &loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					li.headers[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					c := work[len(work)-1]
					work = work[:len(work)-1]
					if l.body[c] {
						continue
					}
					l.body[c] = true
					work = append(work, c.Preds...)
				}
			}
		}
	}
	var ls []*loop
	for _, l := range li.headers {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return len(ls[i].body) < len(ls[j].body) })
	for _, l := range ls {
		for b := range l.body {
			if li.inner[b] == nil {
				li.inner[b] = l
			}
		}
		for _, o := range ls {
			if o != l && o.body[l.header] && len(o.body) > len(l.body) {
				l.parent = o
				break
			}
		}
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].header.Index < ls[j].header.Index })
	for i, l := range ls {
		l.ord = i + 1
	}
	loopCache[fn] = li
	return li
}

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
}

// runRegion executes blocks of region (nil: whole function) from the given entry edges.
// skipHeader: the region's own header is entered through `start` with state st0.
func (x *Exec) runRegion(fr *Frame, region *loop, start *ssa.BasicBlock, st0 *State) (out []edge) {
	pending := map[*ssa.BasicBlock][]edge{}
	inRegion := func(b *ssa.BasicBlock) bool { return region == nil || region.body[b] }
	add := func(es []edge) {
		for _, e := range es {
			if e.st.pc == False {
				continue
			}
			if !inRegion(e.to) || (region != nil && e.to == region.header) {
				out = append(out, e)
				continue
			}
			pending[e.to] = append(pending[e.to], e)
		}
	}
	add(x.runBlock(fr, start, st0))
	for len(pending) > 0 {
		var b *ssa.BasicBlock
		for c := range pending {
			if b == nil || fr.loops.rpo[c] < fr.loops.rpo[b] {
				b = c
			}
		}
		es := pending[b]
		delete(pending, b)
		st := x.enter(fr, b, es)
		if st == nil || st.pc == False {
			continue
		}
		if l := fr.loops.headers[b]; l != nil && l != region {
			add(x.runLoop(fr, l, st))
		} else {
			add(x.runBlock(fr, b, st))
		}
	}
	return out
}

// enter merges edges into block b and evaluates its phis.
func (x *Exec) enter(fr *Frame, b *ssa.BasicBlock, es []edge) *State {
	var ss []*State
	for _, e := range es {
		st := e.st
		if len(es) > 1 || len(b.Instrs) > 0 {
			st = st.copy()
		}
		pi := -1
		for i, p := range b.Preds {
			if p == e.from {
				pi = i
				// several edges from the same predecessor carry equal phi inputs only by accident; use matching count
			}
		}
		var vals []Val
		var phis []*ssa.Phi
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, ph)
			vals = append(vals, x.val(e.st, fr, ph.Edges[pi]))
		}
		for i, ph := range phis {
			v := vals[i]
			if t, ok := ph.Type().Underlying().(*types.Signature); ok && t != nil {
				if tv, ok := v.(*Term); ok && tv.IsConst() {
					v = tv
				}
			}
			st.env[ph] = v
			if ph.Comment != "" {
				st.vars[ph.Comment] = varRef{v: v, t: ph.Type()}
			}
		}
		ss = append(ss, st)
	}
	return mergeStates(ss)
}

func (x *Exec) runBlock(fr *Frame, b *ssa.BasicBlock, st *State) []edge {
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		if st.pc == False {
			return nil
		}
		if in.Pos() != token.NoPos {
			x.curPos = in.Pos()
		}
		switch i := in.(type) {
		case *ssa.If:
			c := x.term(st, fr, i.Cond)
			a := st
			e := st.copy()
			a.pc = And(a.pc, c)
			e.pc = And(e.pc, Not(c))
			return []edge{{b, b.Succs[0], a}, {b, b.Succs[1], e}}
		case *ssa.Jump:
			return []edge{{b, b.Succs[0], st}}
		case *ssa.Return:
			var res []Val
			for _, r := range i.Results {
				res = append(res, x.val(st, fr, r))
			}
			fr.exits = append(fr.exits, retEdge{st, res})
			return nil
		case *ssa.Panic:
			x.safety(st, "panic", "", False)
			return nil
		default:
			x.instr(fr, st, in)
		}
	}
	return nil
}

func (x *Exec) loopNumber(fr *Frame, l *loop) int {
	var sb strings.Builder
	for f := fr; f != nil; f = f.parent {
		fmt.Fprintf(&sb, "%s@%p;", f.fn.String(), callID(f))
	}
	fmt.Fprintf(&sb, "%d", l.header.Index)
	k := sb.String()
	if n, ok := x.loopIDs[k]; ok {
		return n
	}
	x.loopN++
	x.loopIDs[k] = x.loopN
	return x.loopN
}

func callID(f *Frame) *ssa.Function { return f.fn }

func (x *Exec) runLoop(fr *Frame, l *loop, st *State) []edge {
	n := x.loopNumber(fr, l)
	spec := x.fc.loopSpec(n)
	if spec == nil || spec.Unroll {
		return x.unroll(fr, l, st, n)
	}
	return x.invLoop(fr, l, st, n, spec)
}

func (x *Exec) unroll(fr *Frame, l *loop, st *State, n int) []edge {
	var exits []edge
	cur := st
	for k := 0; ; k++ {
		if k > 300 {
			panic(unsupported("loop %d of %s has no invariant and does not unroll", n, fr.fn))
		}
		var back []edge
		for _, e := range x.runRegion(fr, l, l.header, cur) {
			if e.to == l.header {
				back = append(back, e)
			} else {
				exits = append(exits, e)
			}
		}
		if len(back) == 0 {
			return exits
		}
		if k > 8 && x.symbolicLoop(back) {
			panic(unsupported("loop %d of %s has no invariant", n, fr.fn))
		}
		cur = x.enter(fr, l.header, back)
		if cur == nil || cur.pc == False {
			return exits
		}
	}
}

func (x *Exec) symbolicLoop(back []edge) bool { return len(x.fc.Loops) > 0 || true && len(back) > 40 }

func (x *Exec) invLoop(fr *Frame, l *loop, st *State, n int, spec *LoopSpec) []edge {
	lname := fmt.Sprintf("loop%d", n)
	if spec.Name != "" {
		lname = spec.Name
	}
	// number of completed iterations, as a ghost
	itn := fmt.Sprintf("it%d", n)
	st.ghost[itn] = IntT(0)
	x.noteGhost(itn)
	if loopHasGo(l) {
		x.sharedStart(fr, st)
	}
	entry := st.copy()
	mark := termCount
	bound := st.alloc

	// 1. invariants hold on entry
	for i, inv := range spec.Invs {
		g := x.evalBool(inv.Expr, &specCtx{x: x, fr: fr, st: st, old: x.entry, loopEntry: entry})
		o := x.oblig(st, lname+".entry", inv.label(i), g)
		if o != nil {
			o.By = inv.By
			o.Props = inv.Props
		}
	}

	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			phis = append(phis, ph)
		} else {
			break
		}
	}

	havoc := func(ws *writeSet) (*State, *loopGuard) {
		batchNo++
		h := entry.copy()
		g := &loopGuard{bound: bound, except: map[string][]*Term{}, exact: map[string]map[*Term]bool{}, only: map[string]map[*Term]*Term{}, mark: mark, name: lname, all: map[string]bool{}}
		for _, e := range spec.Writes {
			if c, ok := e.(*ast.CallExpr); ok && exprStr(c.Fun) == "heap" && !spec.NoFrame {
				t := x.typeByName(exprStr(c.Args[0]), x.ctxPkg(&specCtx{x: x, fr: fr, st: entry, old: x.entry}))
				k, _ := entry.memOf(t)
				g.all[k] = true
			}
		}
		if ws.alloc {
			a := Fresh("alloc", SInt)
			allocLower[a] = bound
			h.alloc = a
			x.gfact(Le(bound, a))
		}
		// slice blocks that may be appended to
		entryBlks := map[string][]*Term{}
		for _, ph := range phis {
			if sl, ok := ph.Type().Underlying().(*types.Slice); ok {
				if t, ok := entry.env[ph].(*Term); ok {
					ek := typeKey(sl.Elem())
					entryBlks[ek] = append(entryBlks[ek], SelF(t, 0))
				}
			}
		}
		for _, k := range sortedKeys(ws.mem) {
			blks := ws.mem[k]
			m := entry.mem[k]
			var exact []*Term
			var other, fresh bool
			for b := range blks {
				if maxSymID(b) <= mark && !(isAllocTerm(b) && allocGE(b, bound)) {
					exact = append(exact, b)
				} else if isAllocTerm(b) && allocGE(b, bound) {
					fresh = true
				} else {
					other = true
				}
			}
			sortTerms(exact)
			if m == nil {
				// first touched inside the loop
				m = x.memByKey(entry, k, h)
			}
			g.exact[k] = map[*Term]bool{}
			for _, b := range exact {
				g.exact[k][b] = true
			}
			if !other && !fresh && !g.all[k] {
				nm := m
				g.only[k] = map[*Term]*Term{}
				for _, b := range exact {
					if i := ws.idx[k][b]; i != nil && maxSymID(i) <= mark { // one element only
						f := Fresh("hv", m.Sort.V.V)
						memAlloc[f] = h.alloc
						g.only[k][b] = i
						nm = Store(nm, b, Store(Select(nm, b), i, f))
						continue
					}
					f := Fresh("hv", m.Sort.V)
					memAlloc[f] = h.alloc
					nm = Store(nm, b, f)
				}
				h.mem[k] = nm
				g.except[k] = exact
				continue
			}
			ex := append([]*Term(nil), exact...)
			if other {
				ex = append(ex, entryBlks[k]...)
				for _, e := range spec.Writes {
					if c, ok := e.(*ast.CallExpr); ok && exprStr(c.Fun) == "heap" {
						continue
					}
					v := x.evalTermIn(e, &specCtx{x: x, fr: fr, st: entry, old: x.entry})
					ex = append(ex, blkOf(v))
				}
			}
			nm := Fresh("hvmem", m.Sort)
			memAlloc[nm] = h.alloc
			if !spec.NoFrame && !g.all[k] {
				havocTab[nm] = &havocInfo{base: m, bound: bound, except: ex}
				r := BoundVar("r", SInt)
				cs := []*Term{Lt(r, bound)}
				for _, e := range ex {
					cs = append(cs, Ne(r, e))
				}
				sel := intern(&Term{Op: OSelect, Sort: nm.Sort.V, Args: []*Term{nm, r}})
				x.gfact(Forall([]*Term{r}, [][]*Term{{sel}}, Implies(And(cs...), Eq(sel, Select(m, r)))))
			}
			h.mem[k] = nm
			g.except[k] = ex
		}
		for k := range ws.ghost {
			if strings.HasPrefix(k, "lock:") { // every iteration leaves the locks as it found them
				h.ghost[k] = lockAt(entry, k)
			} else if e := entry.ghost[k]; e != nil {
				h.ghost[k] = Fresh("g."+k, e.Sort)
			} else if gv := h.ghost[k]; gv != nil {
				h.ghost[k] = Fresh("g."+k, gv.Sort)
			} else if isIterGhost(k) {
				delete(h.ghost, k)
			} else {
				delete(h.ghost, k)
				panic(unsupported("ghost %s first written inside a loop", k))
			}
		}
		it := Fresh("g."+itn, SInt)
		x.gfact(Le(IntT(0), it))
		h.ghost[itn] = it
		for r := range ws.iters {
			if it, ok := entry.iters[r]; ok {
				nv := Fresh("visited", it.visited.Sort)
				ni := *it
				ni.visited = nv
				h.iters[r] = &ni
				k := BoundVar("k", nv.Sort.K)
				x.fact(h, Forall([]*Term{k}, [][]*Term{{Select(nv, k)}}, Implies(Select(nv, k), Select(it.dom0, k))))
			}
		}
		for _, ph := range phis {
			old := entry.env[ph]
			var nv Val
			switch o := old.(type) {
			case *Term:
				if c, ok := l.induction(ph); ok && o.Sort == SInt {
					// the value after `it` iterations of a counter
					nv = Add(o, Mul(IntT(c), it))
					break
				}
				nv = x.symbolic(h, ph.Comment+"."+lname, ph.Type())
				if o.Sort == SSlice {
					b := SelF(nv.(*Term), 0)
					x.fact(h, Or(Eq(b, SelF(o, 0)), Ge(b, bound)))
				}
			case *Ptr:
				nv = x.symbolic(h, ph.Comment+"."+lname, ph.Type())
			default:
				nv = old
			}
			h.env[ph] = nv
			if ph.Comment != "" {
				h.vars[ph.Comment] = varRef{v: nv, t: ph.Type()}
			}
		}
		return h, g
	}

	// 2. find what the loop writes
	ws := newWriteSet()
	wgStep := map[string]int64{}
	for iter := 0; ; iter++ {
		if iter > 6 {
			panic(unsupported("write set of loop %d of %s does not stabilise", n, fr.fn))
		}
		nf := len(x.facts)
		saveLoop := x.loopN
		x.dry++
		h, g := havoc(ws)
		w := newWriteSet()
		x.writes = append(x.writes, w)
		x.guards = append(x.guards, g)
		nex := len(fr.exits)
		wgStep = map[string]int64{}
		for _, e := range x.runRegion(fr, l, l.header, h) {
			if e.to != l.header {
				continue
			}
			for k, v := range e.st.ghost { // a wait group counted up or down in every iteration
				if !strings.HasPrefix(k, wgPrefix) || h.ghost[k] == nil {
					continue
				}
				if c, ok := Sub(v, h.ghost[k]).Int64(); ok {
					if o, has := wgStep[k]; has && o != c {
						c = 0
					}
					wgStep[k] = c
				}
			}
		}
		fr.exits = fr.exits[:nex]
		x.writes = x.writes[:len(x.writes)-1]
		x.guards = x.guards[:len(x.guards)-1]
		x.dry--
		x.dropFacts(nf, mark)
		_ = saveLoop
		if writesSubset(w, ws, mark, bound) {
			break
		}
		ws = unionWrites(ws, w)
	}

	// 3. arbitrary iteration
	h, g := havoc(ws)
	for k, c := range wgStep {
		if h.ghost[k] != nil && c != 0 {
			h.ghost[k] = Add(h.ghost[k], Mul(IntT(c), h.ghost[itn]))
		}
	}
	ctxFor := func(s *State) *specCtx { return &specCtx{x: x, fr: fr, st: s, old: x.entry, loopEntry: entry} }
	for _, inv := range spec.Invs {
		x.factL(h, x.evalBool(inv.Expr, ctxFor(h)), inv.Lab)
	}
	for _, a := range spec.Assume {
		x.factL(h, x.evalBool(a.Expr, ctxFor(h)), a.Lab)
	}
	for _, a := range spec.Applies {
		x.factL(h, x.lemmaCall(a.Expr, ctxFor(h)), lemmaName(a.Expr))
	}
	if x.dry == 0 && x.inSpec == 0 {
		// vacuity guard: the invariants are satisfiable together
		o := x.oblig(h, lname+".cover", "", True)
		if o != nil {
			o.Cover = true
		}
	}
	// propagate writes to enclosing loops
	for _, w := range x.writes {
		mergeWrites(w, ws)
	}
	for k, blks := range ws.mem {
		if x.dry == 0 {
			for b := range blks {
				if maxSymID(b) <= mark {
					// checked against enclosing guards
					saved := x.writes
					x.writes = nil
					x.noteWriteAt(entry, k, b, ws.idx[k][b])
					x.writes = saved
				}
			}
		}
	}
	x.guards = append(x.guards, g)
	sliceEntry := map[*ssa.Phi]*Term{}
	for _, ph := range phis {
		if t, ok := entry.env[ph].(*Term); ok && t.Sort == SSlice {
			sliceEntry[ph] = SelF(t, 0)
		}
	}
	res := x.runRegion(fr, l, l.header, h)
	x.guards = x.guards[:len(x.guards)-1]
	var exits, back []edge
	for _, e := range res {
		if e.to == l.header {
			back = append(back, e)
		} else {
			exits = append(exits, e)
		}
	}
	// 4. invariants are preserved
	if len(back) > 0 {
		b := x.enter(fr, l.header, back)
		if b != nil && b.pc != False {
			if g, ok := b.ghost[itn]; ok {
				b.ghost[itn] = Add(g, IntT(1))
			}
			for k := range ws.ghost {
				want := lockAt(entry, k)
				if c := wgStep[k]; c != 0 && b.ghost[itn] != nil {
					want = Add(want, Mul(IntT(c), b.ghost[itn]))
				}
				if strings.HasPrefix(k, "lock:") && lockAt(b, k) != want {
					x.oblig(b, lname+".preserved", k, Eq(lockAt(b, k), want))
				}
			}
			for ph, eb := range sliceEntry {
				if t, ok := b.env[ph].(*Term); ok {
					nb := SelF(t, 0)
					x.safety(b, "frame", lname, Or(Eq(nb, eb), Ge(nb, bound)))
				}
			}
			for i, inv := range spec.Invs {
				gl := x.evalBool(inv.Expr, ctxFor(b))
				o := x.oblig(b, lname+".preserved", inv.label(i), gl)
				if o != nil {
					o.By = inv.By
					o.Props = inv.Props
				}
			}
		}
	}
	return exits
}

func lockAt(st *State, k string) *Term {
	if t, ok := st.ghost[k]; ok {
		return t
	}
	return ghostDefault(k, False)
}

var iterGhost = regexp.MustCompile(`^it[0-9]+$`)

func isIterGhost(k string) bool { return iterGhost.MatchString(k) }

// induction recognises counters: every back edge adds the same constant.
func (l *loop) induction(ph *ssa.Phi) (int64, bool) {
	if b, ok := ph.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Int && b.Kind() != types.Int64 {
		return 0, false
	}
	var c int64
	seen := false
	for i, e := range ph.Edges {
		if !l.body[ph.Block().Preds[i]] {
			continue
		}
		op, ok := e.(*ssa.BinOp)
		if !ok || op.X != ph || op.Op != token.ADD && op.Op != token.SUB {
			return 0, false
		}
		k, ok := op.Y.(*ssa.Const)
		if !ok || k.Value == nil {
			return 0, false
		}
		d, exact := constant.Int64Val(k.Value)
		if !exact {
			return 0, false
		}
		if op.Op == token.SUB {
			d = -d
		}
		if seen && d != c {
			return 0, false
		}
		c, seen = d, true
	}
	return c, seen
}

func blkOf(v *Term) *Term {
	if v.Sort == SInt {
		return v
	}
	return SelF(v, 0)
}

func (x *Exec) memByKey(st *State, k string, h *State) *Term {
	s := memSorts[k]
	if s == nil {
		panic(unsupported("memory %s unknown before loop", k))
	}
	m := initMem(k, s)
	st.mem[k] = m
	h.mem[k] = m
	return m
}

var memSorts = map[string]*Sort{}

func (x *Exec) dropFacts(n, mark int) {
	tail := append([]*Term(nil), x.facts[n:]...)
	x.facts = x.facts[:n:n]
	for _, f := range tail {
		if maxSymID(f) <= mark { // about values that exist outside the loop
			x.facts = append(x.facts, f)
		} else {
			delete(x.gfacts, f)
		}
	}
}

func mergeWrites(dst, src *writeSet) {
	for k, m := range src.mem {
		if dst.mem[k] == nil {
			dst.mem[k] = map[*Term]bool{}
			dst.idx[k] = map[*Term]*Term{}
		}
		for b := range m {
			dst.addWrite(k, b, src.idx[k][b])
		}
	}
	for k := range src.ghost {
		dst.ghost[k] = true
	}
	for k := range src.iters {
		dst.iters[k] = true
	}
	dst.alloc = dst.alloc || src.alloc
}

func unionWrites(a, b *writeSet) *writeSet {
	n := newWriteSet()
	mergeWrites(n, a)
	mergeWrites(n, b)
	return n
}

// writesSubset: w's effects are covered by ws. Loop-variant blocks count as one class.
func writesSubset(w, ws *writeSet, mark int, bound *Term) bool {
	class := func(b *Term) *Term {
		if maxSymID(b) <= mark && !(isAllocTerm(b) && allocGE(b, bound)) {
			return b
		}
		if isAllocTerm(b) && allocGE(b, bound) {
			return True
		}
		return False
	}
	for k, m := range w.mem {
		have := map[*Term]bool{}
		for b := range ws.mem[k] {
			have[class(b)] = true
		}
		for b := range m {
			if !have[class(b)] {
				return false
			}
			if ws.mem[k][b] && ws.idx[k][b] != nil && ws.idx[k][b] != w.idx[k][b] {
				return false
			}
		}
	}
	for k := range w.ghost {
		if !ws.ghost[k] {
			return false
		}
	}
	for k := range w.iters {
		if !ws.iters[k] {
			return false
		}
	}
	return !w.alloc || ws.alloc
}
