package main

// Goroutines that share state under a lock. A goroutine's body is executed once, at its go statement,
// for every schedule: whenever it takes the lock, everything other goroutines may change is arbitrary
// but for the invariant of the lock, which it must have established again when it lets go of the lock.
// Of the ghost arrays called slots each goroutine changes only its own element; after the go statement
// those elements hold what they hold when the goroutine has ended. Waiting for all goroutines gives
// the invariant to the main goroutine.

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const goKey = "goactive"

// sharedCtx evaluates the clauses over the variables of the function that starts the goroutines.
func (x *Exec) sharedCtx(fr *Frame, st *State) *specCtx {
	if x.goDepth == 0 {
		return &specCtx{x: x, fr: fr, st: st, old: x.entry}
	}
	s := st.copyHeap()
	s.vars, s.env = x.goState.vars, x.goState.env
	return &specCtx{x: x, fr: x.goFrame, st: s, old: x.entry}
}

func (x *Exec) sharedInvs(fr *Frame, st *State, kind string) {
	ctx := x.sharedCtx(fr, st)
	for i, c := range x.fc.Shared.Invs {
		if o := x.oblig(st, "shared."+kind, c.label(i), x.evalBool(c.Expr, ctx)); o != nil {
			o.Props = c.Props
		}
	}
}

func (x *Exec) assumeShared(fr *Frame, st *State) {
	ctx := x.sharedCtx(fr, st)
	for _, c := range x.fc.Shared.Invs {
		x.fact(st, x.evalBool(c.Expr, ctx))
	}
}

// cellOf finds a variable kept in memory.
func (x *Exec) cellOf(c *specCtx, name string) (*Ptr, types.Type) {
	st := c.st
	for f := c.fr; f != nil; f = f.parent {
		if st != nil {
			if r, ok := st.vars[name]; ok && r.isAddr {
				return x.asPtr(r.v, types.NewPointer(r.t)), r.t
			}
		}
		for fv, b := range f.binds {
			if v, ok := fv.(*ssa.FreeVar); ok && v.Name() == name {
				return x.asPtr(b, v.Type()), v.Type().Underlying().(*types.Pointer).Elem()
			}
		}
		st = f.pstate
	}
	panic(specErr("no shared variable %s", name))
}

// havocShared makes the shared state arbitrary; slots are left to the caller.
func (x *Exec) havocShared(fr *Frame, st *State, private bool) {
	sp := x.fc.Shared
	before := st.alloc
	a := Fresh("alloc", SInt)
	allocLower[a] = before
	x.gfact(Le(before, a))
	st.alloc = a
	for _, w := range x.writes {
		w.alloc = true
	}
	for _, m := range sp.Mods {
		c, ok := m.(*ast.CallExpr)
		if !ok || exprStr(c.Fun) != "heap" {
			continue
		}
		t := x.typeByName(exprStr(c.Args[0]), x.ctxPkg(x.sharedCtx(fr, st)))
		k, mem := st.memOf(t)
		nm := Fresh("shared", mem.Sort)
		memAlloc[nm] = st.alloc
		memSorts[k] = mem.Sort
		x.noteWrite(st, k, Fresh("anyblk", SInt))
		if private && x.goEntry != nil {
			r := BoundVar("r", SInt)
			sel := intern(&Term{Op: OSelect, Sort: nm.Sort.V, Args: []*Term{nm, r}})
			x.gfact(Forall([]*Term{r}, [][]*Term{{sel}}, Implies(And(Le(x.goEntry, r), Lt(r, before)), Eq(sel, Select(mem, r)))))
		}
		st.mem[k] = nm
	}
	for _, m := range sp.Mods {
		c, ok := m.(*ast.CallExpr)
		if !ok {
			panic(specErr("shared writes %s", exprStr(m)))
		}
		switch exprStr(c.Fun) {
		case "heap":
		case "variable":
			p, t := x.cellOf(x.sharedCtx(fr, st), exprStr(c.Args[0]))
			x.store(st, p, x.asTerm(x.symbolic(st, "shared."+exprStr(c.Args[0]), t)))
		case "contents":
			v := x.eval(c.Args[0], x.sharedCtx(fr, st))
			x.havocMap(st, mapTypes(v.t), x.asTerm(v.v))
		default:
			panic(specErr("shared writes %s", exprStr(m)))
		}
	}
	for _, g := range sp.Ghosts {
		old, ok := st.ghost[g]
		if !ok {
			panic(specErr("ghost %s not declared", g))
		}
		st.ghost[g] = Fresh("g."+g, old.Sort)
		x.noteGhost(g)
	}
}

func (x *Exec) havocMap(st *State, mt *types.Map, m *Term) {
	dk, d := st.domOf(mt)
	memSorts[dk] = d.Sort
	x.noteWrite(st, dk, m)
	st.mem[dk] = Store(d, m, Fresh("shared", d.Sort.V))
	if !isUnit(mt.Elem()) {
		vk, v := st.valOf(mt)
		memSorts[vk] = v.Sort
		x.noteWrite(st, vk, m)
		st.mem[vk] = Store(v, m, Fresh("shared", v.Sort.V))
	}
}

func (x *Exec) sharedLock(fr *Frame, st *State, nm string) {
	if x.fc == nil || x.inSpec > 0 || x.fc.Shared == nil || nm != x.fc.Shared.Lock {
		return
	}
	if x.goDepth == 0 {
		if st.ghost[goKey] == False {
			return
		}
		panic(unsupported("the lock is taken outside the goroutines"))
	}
	before := st.alloc
	x.havocShared(fr, st, x.goFirst)
	for _, g := range x.fc.Shared.Slots {
		old := st.ghost[g]
		if old == nil {
			panic(specErr("ghost %s not declared", g))
		}
		n := Fresh("g."+g, old.Sort)
		st.ghost[g] = Store(n, x.goThread, Select(old, x.goThread))
		x.noteGhost(g)
	}
	x.assumeShared(fr, st)
	if x.goFirst {
		ctx := x.sharedCtx(fr, st)
		for _, f := range x.fc.Shared.Foreign {
			b := blkOf(x.evalTermIn(f, ctx))
			x.fact(st, Or(Lt(b, x.goEntry), Ge(b, before)))
		}
	}
	x.goFirst = false
	if x.dry == 0 {
		if o := x.oblig(st, "shared.cover", "", True); o != nil { // the invariants are satisfiable together
			o.Cover = true
		}
	}
	x.goSlots = map[string]*Term{}
	for _, g := range x.fc.Shared.Slots {
		x.goSlots[g] = st.ghost[g]
	}
}

func (x *Exec) sharedUnlock(fr *Frame, st *State, nm string) {
	if x.fc == nil || x.inSpec > 0 || x.fc.Shared == nil || nm != x.fc.Shared.Lock || x.goDepth == 0 {
		return
	}
	x.sharedInvs(fr, st, "inv")
	for _, g := range x.fc.Shared.Slots {
		at := x.goSlots[g]
		if at == nil {
			at = st.ghost[g]
		}
		x.oblig(st, "shared.own", g, Eq(st.ghost[g], Store(at, x.goThread, Select(st.ghost[g], x.goThread))))
	}
}

// sharedGhost: a ghost variable that may only be set while the lock is held.
func (x *Exec) sharedGhost(st *State, g string) {
	sp := x.fc.Shared
	if sp == nil || !contains(sp.Ghosts, g) && !contains(sp.Slots, g) {
		return
	}
	if x.goDepth > 0 {
		h, ok := st.ghost["lock:"+sp.Lock]
		if !ok {
			h = False
		}
		x.oblig(st, "shared.set", g, h)
		return
	}
	if st.ghost[goKey] != False {
		panic(specErr("shared ghost %s set while goroutines run", g))
	}
}

// sharedStart: from here on goroutines may run.
func (x *Exec) sharedStart(fr *Frame, st *State) {
	if x.fc == nil || x.inSpec > 0 || x.fc.Shared == nil || x.goDepth > 0 || st.ghost[goKey] != False {
		return
	}
	x.sharedInvs(fr, st, "init")
	st.ghost[goKey] = True
	x.noteGhost(goKey)
}

func loopHasGo(l *loop) bool {
	for b := range l.body {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Go); ok {
				return true
			}
		}
	}
	return false
}

// ---- wait groups: counted per wait group. "#wg:": what is still to be signalled, "#done:": whether the
// running goroutine has signalled, "#loose:": goroutines started that do not signal.

const wgPrefix, donePrefix, looseKey = "lock:#wg:", "lock:#done:", "lock:#wgloose"

// wgID names a wait group; newly made ones belong to the goroutine that made them.
func (x *Exec) wgID(v Val) string {
	p := x.asPtr(v, types.NewPointer(types.Typ[types.Int]))
	if n, ok := x.wgSite[p.blk]; ok && len(p.path) == 0 {
		return n
	}
	return strings.TrimPrefix(lockKey(x, p), "lock:")
}

func (x *Exec) wgDepth(id string) int { return x.wgs[id] }

func (x *Exec) newWaitGroup(st *State, v Val, in *ssa.Alloc) {
	if x.wgs == nil {
		x.wgs, x.wgSite = map[string]int{}, map[*Term]string{}
	}
	x.wgSite[x.asPtr(v, in.Type()).blk] = fmt.Sprintf("%s.%s.%d", in.Parent().Name(), in.Comment, in.Pos())
	id := x.wgID(v)
	x.wgs[id] = x.goDepth
	st.ghost[wgPrefix+id] = IntT(0)
	st.ghost[donePrefix+id] = False
}

// sharedWait: all goroutines have ended.
func (x *Exec) sharedWait(fr *Frame, st *State, v Val) {
	if x.inSpec > 0 {
		return
	}
	id := x.wgID(v)
	if x.wgDepth(id) != x.goDepth {
		if x.goDepth > 0 {
			x.oblig(st, "wait.inside", "", False) // a goroutine waits for itself
		}
		return
	}
	x.oblig(st, "wait.balanced", "", Eq(lockAt(st, wgPrefix+id), IntT(0)))
	if x.goDepth > 0 || x.fc == nil {
		return
	}
	if x.fc.Shared != nil && st.ghost[goKey] != False {
		x.oblig(st, "wait.all", "", Eq(lockAt(st, looseKey), IntT(0)))
		x.havocShared(fr, st, false)
		x.assumeShared(fr, st)
	}
	if len(x.fc.Guards) > 0 || x.fc.Shared != nil {
		st.ghost[goKey] = False
		x.noteGhost(goKey)
	}
}

func (x *Exec) wgAdd(st *State, v Val, n *Term) {
	if x.inSpec > 0 {
		return
	}
	id := x.wgID(v)
	if x.wgDepth(id) != x.goDepth { // too late: the wait may be over
		x.oblig(st, "wait.add", "", False)
		return
	}
	st.ghost[wgPrefix+id] = Add(lockAt(st, wgPrefix+id), n)
	x.noteGhost(wgPrefix + id)
}

func (x *Exec) wgDone(st *State, v Val) {
	if x.inSpec > 0 {
		return
	}
	id := x.wgID(v)
	if x.wgDepth(id) == x.goDepth {
		st.ghost[wgPrefix+id] = Sub(lockAt(st, wgPrefix+id), IntT(1))
		x.noteGhost(wgPrefix + id)
		return
	}
	x.oblig(st, "wait.done", "once", Not(lockAt(st, donePrefix+id)))
	x.oblig(st, "wait.done", "added", Lt(IntT(0), lockAt(st, wgPrefix+id)))
	st.ghost[donePrefix+id] = True
	x.noteGhost(donePrefix + id)
}

// afterDone: what a goroutine shares may not be used once it is done.
func (x *Exec) afterDone(st *State, what string) {
	if x.goDepth == 0 || x.inSpec > 0 {
		return
	}
	for _, k := range sortedKeys(st.ghost) {
		if strings.HasPrefix(k, donePrefix) && st.ghost[k] != False {
			x.oblig(st, "wait.afterdone", what, Not(st.ghost[k]))
		}
	}
}

// wgStart and wgEnd enclose the body of a goroutine.
func (x *Exec) wgEnd(st *State) {
	all := []*Term{}
	for _, k := range sortedKeys(st.ghost) {
		id := strings.TrimPrefix(k, donePrefix)
		if id == k || x.wgDepth(id) != x.goDepth {
			continue
		}
		d := st.ghost[k]
		if d != False {
			all = append(all, d)
			st.ghost[wgPrefix+id] = Sub(lockAt(st, wgPrefix+id), Ite(d, IntT(1), IntT(0)))
			x.noteGhost(wgPrefix + id)
			st.ghost[k] = False
			x.noteGhost(k)
		}
	}
	if x.goDepth == 0 && x.fc.Shared != nil {
		st.ghost[looseKey] = Add(lockAt(st, looseKey), Ite(Or(all...), IntT(0), IntT(1)))
		x.noteGhost(looseKey)
	}
}

func (x *Exec) goBody(fr *Frame, st *State, g *ssa.Go, fv Val, args []Val) {
	if x.fc != nil && len(x.fc.Guards) > 0 && x.fc.Shared == nil {
		st.ghost[goKey] = True
		x.noteGhost(goKey)
	}
	if x.goDepth > 0 || x.fc == nil {
		if x.fc != nil && x.fc.Shared != nil {
			panic(unsupported("goroutines started by goroutines"))
		}
		save, saveE := x.goDepth, x.goEntry
		x.goDepth++
		x.goEntry = st.alloc
		x.callWith(fr, st, &g.Call, fv, args, nil)
		x.goDepth, x.goEntry = save, saveE
		x.wgEnd(st)
		return
	}
	sp := x.fc.Shared
	slots := map[string]*Term{}
	if sp != nil {
		x.sharedStart(fr, st)
		if sp.Thread != nil {
			x.goThread = coerce(x.eval(sp.Thread, &specCtx{x: x, fr: fr, st: st, old: x.entry}).term(x), SInt)
			x.oblig(st, "shared.thread", "new", Not(Select(st.ghost["threads"], x.goThread)))
			st.ghost["threads"] = Store(st.ghost["threads"], x.goThread, True)
			x.noteGhost("threads")
		}
		for _, n := range sp.Slots {
			slots[n] = st.ghost[n]
		}
		x.goState = st.copy()
		x.goFrame = fr
		x.goFirst = true
	}
	x.goDepth, x.goEntry = 1, st.alloc
	me := x.goThread
	x.callWith(fr, st, &g.Call, fv, args, nil)
	x.goDepth, x.goEntry = 0, nil
	x.wgEnd(st)
	if sp != nil {
		x.havocShared(fr, st, false)
		for _, n := range sp.Slots {
			st.ghost[n] = Store(slots[n], me, Select(st.ghost[n], me))
			x.noteGhost(n)
		}
	}
}
