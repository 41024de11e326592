package main

// Symbolic values, heap and states.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type pathElem struct {
	field int
	index *Term // when not nil: array index
	typ   types.Type
}

// Ptr is a pointer into block blk of memory mem[root], at element idx, following path.
type Ptr struct {
	blk, idx *Term
	root     types.Type
	path     []pathElem
	arr      bool // points to the whole block seen as an array
	arrLen   int64
}

type Closure struct {
	fn    *ssa.Function
	binds []Val
}

type FuncSym struct { // unknown function value: a parameter
	name string
	sig  *types.Signature
	id   *Term
}

type BoundMethod struct { // method value through an interface is not supported
	name string
}

type Tuple []Val

type IterRef struct{ r *ssa.Range }

type iterState struct {
	mapID   *Term
	mtyp    *types.Map
	dom0    *Term
	visited *Term
}

type deferred struct {
	call *ssa.CallCommon
	args []Val
	fn   Val
}

type varRef struct {
	v      Val
	t      types.Type
	isAddr bool
	obj    types.Object
}

type State struct {
	pc     *Term
	mem    map[string]*Term
	alloc  *Term
	ghost  map[string]*Term
	iters  map[*ssa.Range]*iterState
	env    map[ssa.Value]Val
	vars   map[string]varRef
	defers []deferred
}

func (s *State) copyHeap() *State {
	n := &State{pc: s.pc, alloc: s.alloc, mem: map[string]*Term{}, ghost: map[string]*Term{}, iters: map[*ssa.Range]*iterState{}}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	for k, v := range s.iters {
		c := *v
		n.iters[k] = &c
	}
	return n
}

func (s *State) copy() *State {
	n := s.copyHeap()
	n.env = make(map[ssa.Value]Val, len(s.env))
	for k, v := range s.env {
		n.env[k] = v
	}
	n.vars = make(map[string]varRef, len(s.vars))
	for k, v := range s.vars {
		n.vars[k] = v
	}
	n.defers = append([]deferred(nil), s.defers...)
	return n
}

// takeHeap replaces the heap part of s by that of o.
func (s *State) takeHeap(o *State) {
	s.pc, s.mem, s.alloc, s.ghost, s.iters = o.pc, o.mem, o.alloc, o.ghost, o.iters
}

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *Ptr:
		y, ok := b.(*Ptr)
		if !ok || x.blk != y.blk || x.idx != y.idx || len(x.path) != len(y.path) || x.arr != y.arr || typeKey(x.root) != typeKey(y.root) {
			return false
		}
		for i := range x.path {
			if x.path[i].field != y.path[i].field || x.path[i].index != y.path[i].index {
				return false
			}
		}
		return true
	case *Closure:
		y, ok := b.(*Closure)
		if !ok || x.fn != y.fn || len(x.binds) != len(y.binds) {
			return false
		}
		for i := range x.binds {
			if !sameVal(x.binds[i], y.binds[i]) {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return a == b
}

func iteVal(c *Term, a, b Val) (Val, bool) {
	if sameVal(a, b) {
		return a, true
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.Sort == y.Sort {
			return Ite(c, x, y), true
		}
		if y, ok := b.(*Ptr); ok && x.Sort == SPtr && len(y.path) == 0 && !y.arr {
			return Ite(c, x, Mk(SPtr, y.blk, y.idx)), true
		}
	case *Ptr:
		if y, ok := b.(*Ptr); ok && len(x.path) == 0 && len(y.path) == 0 && !x.arr && !y.arr && typeKey(x.root) == typeKey(y.root) {
			return &Ptr{blk: Ite(c, x.blk, y.blk), idx: Ite(c, x.idx, y.idx), root: x.root}, true
		}
		if y, ok := b.(*Term); ok && y.Sort == SPtr && len(x.path) == 0 && !x.arr {
			return Ite(c, Mk(SPtr, x.blk, x.idx), y), true
		}
	case Tuple:
		if y, ok := b.(Tuple); ok && len(x) == len(y) {
			out := make(Tuple, len(x))
			for i := range x {
				v, ok := iteVal(c, x[i], y[i])
				if !ok {
					return nil, false
				}
				out[i] = v
			}
			return out, true
		}
	}
	return nil, false
}

// mergeStates joins states reaching the same point (same frame).
func mergeStates(ss []*State) *State {
	var live []*State
	for _, s := range ss {
		if s.pc != False {
			live = append(live, s)
		}
	}
	if len(live) == 0 {
		if len(ss) == 0 {
			return nil
		}
		return ss[0]
	}
	if len(live) == 1 {
		return live[0]
	}
	r := live[0]
	for _, s := range live[1:] {
		r = merge2(r, s)
	}
	return r
}

func distinguishing(a, b *Term) *Term {
	in := map[*Term]bool{}
	for _, c := range conjuncts(b) {
		in[c] = true
	}
	var rest []*Term
	for _, c := range conjuncts(a) {
		if !in[c] {
			rest = append(rest, c)
		}
	}
	// prefer a single complementary literal
	for _, c := range rest {
		if in[Not(c)] {
			return c
		}
	}
	return And(rest...)
}

func merge2(a, b *State) *State {
	c := distinguishing(a.pc, b.pc)
	n := &State{pc: Or(a.pc, b.pc), mem: map[string]*Term{}, ghost: map[string]*Term{}, iters: map[*ssa.Range]*iterState{}, env: map[ssa.Value]Val{}, vars: map[string]varRef{}}
	n.alloc = mergeAlloc(c, a.alloc, b.alloc)
	for _, k := range unionKeys(a.mem, b.mem) {
		x, y := a.mem[k], b.mem[k]
		if x == nil {
			x = initMem(k, y.Sort)
		}
		if y == nil {
			y = initMem(k, x.Sort)
		}
		n.mem[k] = Ite(c, x, y)
	}
	for _, k := range unionKeys(a.ghost, b.ghost) {
		x, y := a.ghost[k], b.ghost[k]
		if x == nil {
			x = ghostDefault(k, y)
		}
		if y == nil {
			y = ghostDefault(k, x)
		}
		n.ghost[k] = Ite(c, x, y)
	}
	for k, x := range a.iters {
		if y, ok := b.iters[k]; ok {
			n.iters[k] = &iterState{mapID: Ite(c, x.mapID, y.mapID), mtyp: x.mtyp, dom0: Ite(c, x.dom0, y.dom0), visited: Ite(c, x.visited, y.visited)}
		} else {
			n.iters[k] = x
		}
	}
	for k, y := range b.iters {
		if _, ok := n.iters[k]; !ok {
			n.iters[k] = y
		}
	}
	for k, x := range a.env {
		if y, ok := b.env[k]; ok {
			if v, ok := iteVal(c, x, y); ok {
				n.env[k] = v
			}
		}
	}
	for k, x := range a.vars {
		if y, ok := b.vars[k]; ok && (x.obj == y.obj || x.obj == nil || y.obj == nil) && x.isAddr == y.isAddr {
			if v, ok := iteVal(c, x.v, y.v); ok {
				n.vars[k] = varRef{v, x.t, x.isAddr, x.obj}
			}
		} else if !ok {
			n.vars[k] = x
		}
	}
	for k, y := range b.vars {
		if _, ok := a.vars[k]; !ok {
			n.vars[k] = y
		}
	}
	if len(a.defers) == len(b.defers) {
		n.defers = a.defers
	} else if len(a.defers) > len(b.defers) {
		n.defers = a.defers
		if len(a.defers) != 0 && len(b.defers) != len(a.defers) {
			panic(unsupported("merge of different deferred calls"))
		}
	} else {
		panic(unsupported("merge of different deferred calls"))
	}
	return n
}

// mergeAlloc returns an allocation bound valid on both sides.
func mergeAlloc(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	if allocGE(a, b) {
		return a
	}
	if allocGE(b, a) {
		return b
	}
	f := Fresh("alloc", SInt)
	// both are lower bounds; keep a syntactic one that exists on both sides
	allocLower[f] = commonAllocLower(a, b)
	pendingFacts = append(pendingFacts, Le(a, f), Le(b, f))
	return f
}

var pendingFacts []*Term

func commonAllocLower(a, b *Term) *Term {
	// walk down a until it is <= b
	t := a
	for i := 0; i < 100; i++ {
		if allocGE(b, t) {
			return t
		}
		c, ms := poly(t)
		if c.Sign() > 0 {
			t = mkPoly(SInt, ratZero, ms)
			continue
		}
		if len(ms) == 1 {
			if lo, ok := allocLower[ms[0].Atoms[0]]; ok && lo != t {
				t = lo
				continue
			}
		}
		break
	}
	return IntT(1)
}

func unionKeys(a, b map[string]*Term) []string {
	m := map[string]bool{}
	for k := range a {
		m[k] = true
	}
	for k := range b {
		m[k] = true
	}
	return sortedKeys(m)
}

func ghostDefault(k string, other *Term) *Term {
	if strings.HasPrefix(k, "lock:#wg") {
		return IntT(0)
	}
	if strings.HasPrefix(k, "lock:") {
		return False
	}
	return Sym("ghost0$"+sanitize(k), other.Sort)
}

// ---- memory

var memAlloc = map[*Term]*Term{} // memory symbol -> alloc bound of refs it contains
type havocInfo struct {
	base   *Term
	bound  *Term
	except []*Term
}

var havocTab = map[*Term]*havocInfo{}

var curEntryAlloc *Term // alloc bound at function entry

func initMem(k string, s *Sort) *Term {
	memSorts[k] = s
	t := Sym(fmt.Sprintf("mem0$%d$%s", memEpoch, sanitize(k)), s)
	if memAlloc[t] == nil {
		memAlloc[t] = curEntryAlloc
	}
	return t
}

func memSort(elem types.Type) *Sort { return SArr(SInt, SArr(SInt, sortOf(elem))) }

func (st *State) memOf(elem types.Type) (string, *Term) {
	k := typeKey(elem)
	m, ok := st.mem[k]
	if !ok {
		m = initMem(k, memSort(elem))
		st.mem[k] = m
	}
	return k, m
}

func domKey(mt types.Type) string { return "dom:" + typeKey(mt) }
func valKey(mt types.Type) string { return "val:" + typeKey(mt) }

func mapTypes(t types.Type) *types.Map { return t.Underlying().(*types.Map) }

// mapMemKey identifies the memory of a map type: maps with identical underlying types share it.
func (st *State) domOf(mt *types.Map) (string, *Term) {
	k := domKey(mt)
	m, ok := st.mem[k]
	if !ok {
		m = initMem(k, SArr(SInt, SArr(sortOf(mt.Key()), SBool)))
		st.mem[k] = m
	}
	return k, m
}
func (st *State) valOf(mt *types.Map) (string, *Term) {
	k := valKey(mt)
	m, ok := st.mem[k]
	if !ok {
		m = initMem(k, SArr(SInt, SArr(sortOf(mt.Key()), sortOf(mt.Elem()))))
		st.mem[k] = m
	}
	return k, m
}

type unsupportedErr struct{ msg string }

func (u unsupportedErr) Error() string { return u.msg }
func unsupported(f string, a ...interface{}) error {
	return unsupportedErr{fmt.Sprintf(f, a...)}
}

// baseAlloc finds the alloc bound of references contained in a memory-typed term.
func baseAlloc(t *Term, cur *Term) *Term {
	for {
		if a, ok := memAlloc[t]; ok {
			return a
		}
		switch t.Op {
		case OSelect, OSel:
			t = t.Args[0]
			continue
		}
		return cur
	}
}

func maxSymID(t *Term) int {
	if v, ok := maxSymMemo[t]; ok {
		return v
	}
	m := 0
	if t.Op == OSym {
		m = t.id
	}
	for _, c := range t.children() {
		if v := maxSymID(c); v > m {
			m = v
		}
	}
	maxSymMemo[t] = m
	return m
}

var maxSymMemo = map[*Term]int{}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}
