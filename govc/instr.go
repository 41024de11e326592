package main

// Instructions and calls.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) instr(fr *Frame, st *State, in ssa.Instruction) {
	switch i := in.(type) {
	case *ssa.DebugRef:
		x.debugRef(fr, st, i)
	case *ssa.Alloc:
		el := i.Type().Underlying().(*types.Pointer).Elem()
		st.env[i] = x.alloc(st, el)
		if n, ok := el.(*types.Named); ok && n.String() == "sync.WaitGroup" && x.inSpec == 0 {
			x.newWaitGroup(st, st.env[i], i)
		}
		if i.Comment != "" && !strings.Contains(i.Comment, " ") && i.Comment != "complit" && i.Comment != "varargs" && i.Comment != "new" && i.Comment != "makeslice" && i.Comment != "slicelit" {
			if _, has := st.vars[i.Comment]; !has {
				st.vars[i.Comment] = varRef{v: st.env[i], t: el, isAddr: true}
			}
		}
	case *ssa.Store:
		p := x.asPtr(x.val(st, fr, i.Addr), i.Addr.Type())
		x.nilCheck(st, p, "store")
		x.checkGuarded(fr, st, i.Addr, true)
		v := x.val(st, fr, i.Val)
		if isFunc(i.Val.Type()) || p.blkHoldsFunc(st) {
			st.env[funcCell{p.blk}.key()] = v
			if _, ok := v.(*Closure); ok {
				x.funcCells()[p.blk] = v
			}
		}
		x.store(st, p, x.asTerm(v))
	case *ssa.UnOp:
		st.env[i] = x.unop(fr, st, i)
	case *ssa.BinOp:
		st.env[i] = x.binop(st, i.Op, x.val(st, fr, i.X), x.val(st, fr, i.Y), i.X.Type(), i.Y.Type(), i.Type())
	case *ssa.FieldAddr:
		p := x.asPtr(x.val(st, fr, i.X), i.X.Type())
		x.nilCheck(st, p, "field")
		stt := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		st.env[i] = &Ptr{blk: p.blk, idx: p.idx, root: p.root, arr: p.arr, arrLen: p.arrLen, path: append(append([]pathElem(nil), p.path...), pathElem{field: i.Field, typ: stt.Field(i.Field).Type()})}
	case *ssa.Field:
		v := x.term(st, fr, i.X)
		st.env[i] = SelF(v, i.Field)
	case *ssa.IndexAddr:
		st.env[i] = x.indexAddr(fr, st, i)
	case *ssa.Index:
		v := x.term(st, fr, i.X)
		idx := x.term(st, fr, i.Index)
		switch u := i.X.Type().Underlying().(type) {
		case *types.Array:
			x.safety(st, "bounds", "", And(Le(IntT(0), idx), Lt(idx, IntT(u.Len()))))
			st.env[i] = Select(v, idx)
		case *types.Basic: // string
			n := strLen(v)
			x.gfact(Le(IntT(0), n))
			x.safety(st, "bounds", "", And(Le(IntT(0), idx), Lt(idx, n)))
			b := Fn("strAt", SInt, v, idx)
			x.gfact(And(Le(IntT(0), b), Lt(b, IntT(256))))
			st.env[i] = b
		default:
			panic(unsupported("index of %v", i.X.Type()))
		}
	case *ssa.Lookup:
		st.env[i] = x.lookup(fr, st, i)
	case *ssa.MapUpdate:
		x.checkGuarded(fr, st, i.Map, true)
		mt := mapTypes(i.Map.Type())
		m := x.term(st, fr, i.Map)
		x.safety(st, "nilmap", "", Ne(m, IntT(0)))
		x.mapSet(st, mt, m, x.term(st, fr, i.Key), x.term(st, fr, i.Value))
	case *ssa.MakeMap:
		mt := mapTypes(i.Type())
		b := x.newBlk(st)
		dk, d := st.domOf(mt)
		memSorts[dk] = d.Sort
		x.noteWrite(st, dk, b)
		st.mem[dk] = Store(d, b, ConstArr(d.Sort.V, False))
		if !isUnit(mt.Elem()) {
			vk, vm := st.valOf(mt)
			memSorts[vk] = vm.Sort
			x.noteWrite(st, vk, b)
			st.mem[vk] = Store(vm, b, ConstArr(vm.Sort.V, zeroTerm(mt.Elem())))
		}
		st.env[i] = b
	case *ssa.MakeSlice:
		ln, cp := x.term(st, fr, i.Len), x.term(st, fr, i.Cap)
		x.safety(st, "makeslice", "", And(Le(IntT(0), ln), Le(ln, cp)))
		el := i.Type().Underlying().(*types.Slice).Elem()
		b := x.newBlk(st)
		k, m := st.memOf(el)
		memSorts[k] = m.Sort
		x.noteWrite(st, k, b)
		st.mem[k] = Store(m, b, ConstArr(m.Sort.V, zeroTerm(el)))
		st.env[i] = Mk(SSlice, b, IntT(0), ln, cp)
	case *ssa.MakeChan:
		b := x.newBlk(st)
		n := x.term(st, fr, i.Size)
		x.safety(st, "makechan", "", Le(IntT(0), n))
		x.fact(st, Eq(chanCap(b), n))
		st.env[i] = b
	case *ssa.MakeInterface:
		st.env[i] = x.box(st, x.val(st, fr, i.X), i.X.Type())
	case *ssa.MakeClosure:
		c := &Closure{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			c.binds = append(c.binds, x.val(st, fr, b))
		}
		st.env[i] = c
	case *ssa.Slice:
		st.env[i] = x.slice(fr, st, i)
	case *ssa.Convert:
		st.env[i] = x.convert(st, x.val(st, fr, i.X), i.X.Type(), i.Type())
	case *ssa.ChangeType:
		v := x.val(st, fr, i.X)
		if t, ok := v.(*Term); ok && t.Sort != sortOf(i.Type()) {
			v = x.convert(st, v, i.X.Type(), i.Type())
		}
		st.env[i] = v
	case *ssa.ChangeInterface:
		st.env[i] = x.val(st, fr, i.X)
	case *ssa.TypeAssert:
		v := x.term(st, fr, i.X)
		var r *Term
		ok := Fn("isType$"+shortTypeName(i.AssertedType), SBool, v)
		if _, isIface := i.AssertedType.Underlying().(*types.Interface); isIface {
			r = v
		} else {
			r = Fn("unbox$"+shortTypeName(i.AssertedType), sortOf(i.AssertedType), v)
		}
		x.typeFacts(st, r, i.AssertedType, st.alloc)
		if i.CommaOk {
			st.env[i] = Tuple{Ite(ok, r, zeroTerm(i.AssertedType)), ok}
		} else {
			x.safety(st, "typeassert", "", ok)
			st.env[i] = r
		}
	case *ssa.Extract:
		t, ok := x.val(st, fr, i.Tuple).(Tuple)
		if !ok {
			panic(unsupported("extract from non-tuple"))
		}
		st.env[i] = t[i.Index]
	case *ssa.Range:
		mt, ok := i.X.Type().Underlying().(*types.Map)
		if !ok {
			panic(unsupported("range over string"))
		}
		x.checkGuarded(fr, st, i.X, false)
		m := x.term(st, fr, i.X)
		_, d := st.domOf(mt)
		dom := x.mapDom(d, m)
		st.iters[i] = &iterState{mapID: m, mtyp: mt, dom0: dom, visited: ConstArr(dom.Sort, False)}
		for _, w := range x.writes {
			w.iters[i] = true
		}
		x.iterCnt++
		x.iterSeq[i] = x.iterCnt
		st.env[i] = IterRef{i}
	case *ssa.Next:
		st.env[i] = x.next(fr, st, i)
	case *ssa.Call:
		st.env[i] = x.call(fr, st, &i.Call, i)
	case *ssa.Go:
		x.goCall(fr, st, i)
	case *ssa.Defer:
		d := deferred{call: &i.Call}
		if !i.Call.IsInvoke() {
			d.fn = x.val(st, fr, i.Call.Value)
		} else {
			d.fn = x.val(st, fr, i.Call.Value)
		}
		for _, a := range i.Call.Args {
			d.args = append(d.args, x.val(st, fr, a))
		}
		st.defers = append(append([]deferred(nil), st.defers...), d)
	case *ssa.RunDefers:
		ds := st.defers
		st.defers = nil
		for k := len(ds) - 1; k >= 0; k-- {
			x.callWith(fr, st, ds[k].call, ds[k].fn, ds[k].args, nil)
		}
	case *ssa.Send:
		x.send(fr, st, x.term(st, fr, i.Chan), x.val(st, fr, i.X), i.Chan.Type())
	default:
		panic(unsupported("instruction %T", in))
	}
}

type funcCell struct{ blk *Term }

var funcCellKeys = map[*Term]*ssa.Alloc{}

func (c funcCell) key() ssa.Value {
	k, ok := funcCellKeys[c.blk]
	if !ok {
		k = &ssa.Alloc{}
		funcCellKeys[c.blk] = k
	}
	return k
}

var theFuncCells = map[*Term]Val{}

func (x *Exec) funcCells() map[*Term]Val { return theFuncCells }

func (p *Ptr) blkHoldsFunc(st *State) bool { return false }

func isFunc(t types.Type) bool {
	_, ok := t.Underlying().(*types.Signature)
	return ok
}

func strLen(v *Term) *Term {
	if s, ok := strLits[v]; ok {
		return IntT(int64(len(s)))
	}
	return Fn("strLen", SInt, v)
}

func (x *Exec) debugRef(fr *Frame, st *State, d *ssa.DebugRef) {
	o := d.Object()
	if o == nil {
		return
	}
	if _, ok := o.(*types.Var); !ok {
		return
	}
	if o.Parent() == nil || o.Parent() == o.Pkg().Scope() {
		return // field or package variable
	}
	var v Val
	switch d.X.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function:
		v = x.val(st, fr, d.X)
	default:
		if b, ok := fr.binds[d.X]; ok {
			v = b
		} else if r, ok := st.env[d.X]; ok {
			v = r
		} else {
			return
		}
	}
	if !d.IsAddr {
		// a variable kept in memory stays there
		if old, ok := st.vars[o.Name()]; ok && old.isAddr && (old.obj == nil || old.obj == o) {
			return
		}
	}
	st.vars[o.Name()] = varRef{v: v, t: o.Type(), isAddr: d.IsAddr, obj: o}
}

func (x *Exec) alloc(st *State, el types.Type) Val {
	b := x.newBlk(st)
	if at, ok := el.Underlying().(*types.Array); ok {
		k, m := st.memOf(at.Elem())
		memSorts[k] = m.Sort
		x.noteWrite(st, k, b)
		st.mem[k] = Store(m, b, ConstArr(m.Sort.V, zeroTerm(at.Elem())))
		return &Ptr{blk: b, idx: IntT(0), root: at.Elem(), arr: true, arrLen: at.Len()}
	}
	k, m := st.memOf(el)
	memSorts[k] = m.Sort
	x.noteWrite(st, k, b)
	st.mem[k] = Store(m, b, ConstArr(m.Sort.V, zeroTerm(el)))
	return &Ptr{blk: b, idx: IntT(0), root: el}
}

func (x *Exec) unop(fr *Frame, st *State, i *ssa.UnOp) Val {
	switch i.Op {
	case token.MUL:
		p := x.asPtr(x.val(st, fr, i.X), i.X.Type())
		x.nilCheck(st, p, "load")
		x.checkGuarded(fr, st, i.X, false)
		if isFunc(i.Type()) {
			if v, ok := theFuncCells[p.blk]; ok {
				return v
			}
		}
		if g, ok := i.X.(*ssa.Global); ok {
			if v := x.globalValue(st, g); v != nil {
				return v
			}
		}
		return x.load(st, p)
	case token.ARROW:
		return x.recv(fr, st, x.term(st, fr, i.X), i.X.Type(), i.CommaOk)
	}
	v := x.term(st, fr, i.X)
	switch i.Op {
	case token.NOT:
		return Not(v)
	case token.SUB:
		if v.Sort.Kind == KBV {
			return BVOp("bvsub", BVT(v.Sort.Bits, 0), v)
		}
		return x.wrap(Neg(v), i.Type())
	case token.XOR:
		if v.Sort.Kind == KBV {
			return BVNot(v)
		}
		return Sub(IntT(-1), v)
	}
	panic(unsupported("unop %v", i.Op))
}

// wrap reduces an integer result to its type; int, int64 and uint64 are treated as mathematical.
func (x *Exec) wrap(v *Term, t types.Type) *Term {
	if v.Sort != SInt {
		return v
	}
	lo, hi, ok := intRange(t)
	if !ok || hi.BitLen() >= 63 {
		return v
	}
	if n, ok := v.Int64(); ok {
		if big.NewInt(n).Cmp(lo) >= 0 && big.NewInt(n).Cmp(hi) <= 0 {
			return v
		}
	}
	size := new(big.Rat).SetInt(new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1)))
	if lo.Sign() == 0 {
		return EMod(v, NumT(SInt, size))
	}
	l := NumT(SInt, new(big.Rat).SetInt(lo))
	return Add(EMod(Sub(v, l), NumT(SInt, size)), l)
}

func truncDiv(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		q := new(big.Int).Quo(a.Val.Num(), b.Val.Num())
		return NumT(SInt, new(big.Rat).SetInt(q))
	}
	return Ite(Ge(a, IntT(0)), EDiv(a, b), Neg(EDiv(Neg(a), b)))
}

func truncRem(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		q := new(big.Int).Rem(a.Val.Num(), b.Val.Num())
		return NumT(SInt, new(big.Rat).SetInt(q))
	}
	return Ite(Ge(a, IntT(0)), EMod(a, b), Neg(EMod(Neg(a), b)))
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (x *Exec) binop(st *State, op token.Token, av, bv Val, at, bt, rt types.Type) Val {
	// pointers to known locations and closures against nil
	if op == token.EQL || op == token.NEQ {
		r := x.equal(st, av, bv)
		if op == token.NEQ {
			r = Not(r)
		}
		return r
	}
	a, b := x.asTerm(av), x.asTerm(bv)
	if a.Sort.Kind == KBV {
		if op == token.SHL || op == token.SHR {
			if b.Sort == SInt {
				n, ok := b.Int64()
				if !ok {
					panic(unsupported("bit-vector shift by a variable"))
				}
				b = BVT(a.Sort.Bits, uint64(n))
			} else if b.Sort != a.Sort {
				panic(unsupported("bit-vector shift"))
			}
		}
		switch op {
		case token.AND:
			return BVOp("bvand", a, b)
		case token.OR:
			return BVOp("bvor", a, b)
		case token.XOR:
			return BVOp("bvxor", a, b)
		case token.AND_NOT:
			return BVOp("bvand", a, BVNot(b))
		case token.SHL:
			return BVOp("bvshl", a, b)
		case token.SHR:
			return BVOp("bvlshr", a, b)
		case token.ADD:
			return BVOp("bvadd", a, b)
		case token.SUB:
			return BVOp("bvsub", a, b)
		case token.LSS:
			return BVOp("bvult", a, b)
		case token.LEQ:
			return BVOp("bvule", a, b)
		case token.GTR:
			return BVOp("bvult", b, a)
		case token.GEQ:
			return BVOp("bvule", b, a)
		}
		panic(unsupported("bit-vector op %v", op))
	}
	if a.Sort == SStr {
		switch op {
		case token.ADD:
			if s1, ok := strLits[a]; ok {
				if s2, ok := strLits[b]; ok {
					return StrLit(s1 + s2)
				}
			}
			return Fn("strCat", SStr, a, b)
		case token.LSS:
			return Fn("strLt", SBool, a, b)
		case token.GTR:
			return Fn("strLt", SBool, b, a)
		}
		panic(unsupported("string op %v", op))
	}
	if a.Sort == SBool {
		switch op {
		case token.AND, token.LAND:
			return And(a, b)
		case token.OR, token.LOR:
			return Or(a, b)
		}
	}
	switch op {
	case token.ADD:
		return x.wrap(Add(a, b), rt)
	case token.SUB:
		return x.wrap(Sub(a, b), rt)
	case token.MUL:
		return x.wrap(Mul(a, b), rt)
	case token.QUO:
		if a.Sort == SReal {
			// floating division by zero does not trap; the quotient is then unspecified
			return RDiv(a, b)
		}
		x.safety(st, "div0", "", Ne(b, IntT(0)))
		if isUnsigned(rt) {
			return EDiv(a, b)
		}
		return truncDiv(a, b)
	case token.REM:
		x.safety(st, "div0", "", Ne(b, IntT(0)))
		if isUnsigned(rt) {
			return EMod(a, b)
		}
		return truncRem(a, b)
	case token.LSS:
		return Lt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GTR:
		return Gt(a, b)
	case token.GEQ:
		return Ge(a, b)
	case token.SHL:
		if n, ok := b.Int64(); ok && n < 62 {
			return x.wrap(Scale(a, big.NewRat(1<<uint(n), 1)), rt)
		}
	case token.SHR:
		if n, ok := b.Int64(); ok && n < 62 {
			return EDiv(a, IntT(1<<uint(n)))
		}
	case token.AND:
		if n, ok := b.Int64(); ok {
			if m, ok := a.Int64(); ok {
				return IntT(m & n)
			}
			if n >= 0 && n&(n+1) == 0 {
				return EMod(a, IntT(n+1))
			}
			if n > 0 && n&(n-1) == 0 { // single bit
				return Sub(EMod(a, IntT(2*n)), EMod(a, IntT(n)))
			}
		}
	case token.OR:
		if n, ok := b.Int64(); ok {
			if m, ok := a.Int64(); ok {
				return IntT(m | n)
			}
			if n > 0 && n&(n-1) == 0 {
				bit := Sub(EMod(a, IntT(2*n)), EMod(a, IntT(n)))
				return Add(a, Sub(IntT(n), bit))
			}
		}
	}
	return Fn("intop$"+op.String(), SInt, a, b)
}

func (x *Exec) equal(st *State, av, bv Val) *Term {
	switch a := av.(type) {
	case *Closure:
		if t, ok := bv.(*Term); ok && t.IsConst() {
			return False
		}
		return BoolT(sameVal(av, bv))
	case *Ptr:
		if t, ok := bv.(*Term); ok {
			if len(a.path) > 0 {
				if SelF(t, 0) == IntT(0) {
					return False
				}
			}
			return Eq(x.asTerm(a), t)
		}
		if b, ok := bv.(*Ptr); ok && len(a.path) == 0 && len(b.path) == 0 {
			return Eq(x.asTerm(a), x.asTerm(b))
		}
		panic(unsupported("pointer comparison"))
	}
	if _, ok := bv.(*Ptr); ok {
		return x.equal(st, bv, av)
	}
	if _, ok := bv.(*Closure); ok {
		return x.equal(st, bv, av)
	}
	a, b := x.asTerm(av), x.asTerm(bv)
	if a.Sort == SSlice { // only comparison with nil
		if SelF(b, 0) == IntT(0) {
			return Eq(SelF(a, 0), IntT(0))
		}
		return Eq(SelF(b, 0), IntT(0))
	}
	return Eq(a, b)
}

func (x *Exec) indexAddr(fr *Frame, st *State, i *ssa.IndexAddr) Val {
	idx := x.term(st, fr, i.Index)
	switch u := i.X.Type().Underlying().(type) {
	case *types.Slice:
		s := x.term(st, fr, i.X)
		x.safety(st, "bounds", "", And(Le(IntT(0), idx), Lt(idx, SelN(s, "slen"))))
		return &Ptr{blk: SelN(s, "sblk"), idx: Add(SelN(s, "soff"), idx), root: u.Elem()}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		p := x.asPtr(x.val(st, fr, i.X), i.X.Type())
		x.safety(st, "bounds", "", And(Le(IntT(0), idx), Lt(idx, IntT(at.Len()))))
		if p.arr && len(p.path) == 0 {
			return &Ptr{blk: p.blk, idx: idx, root: at.Elem()}
		}
		return &Ptr{blk: p.blk, idx: p.idx, root: p.root, arr: p.arr, arrLen: p.arrLen, path: append(append([]pathElem(nil), p.path...), pathElem{index: idx, typ: at.Elem()})}
	}
	panic(unsupported("indexaddr"))
}

func (x *Exec) mapDom(d, m *Term) *Term {
	// the nil map is empty
	if m.IsConst() && m.Val.Sign() == 0 {
		return ConstArr(d.Sort.V, False)
	}
	return Select(d, m)
}

func (x *Exec) nilMapFact(d, m *Term) {
	if m.IsConst() || isAllocTerm(m) {
		return
	}
	dom := Select(d, m)
	x.gfact(Implies(Eq(m, IntT(0)), Eq(dom, ConstArr(dom.Sort, False))))
}

func (x *Exec) lookup(fr *Frame, st *State, i *ssa.Lookup) Val {
	mt, ok := i.X.Type().Underlying().(*types.Map)
	if !ok {
		v := x.term(st, fr, i.X)
		idx := x.term(st, fr, i.Index)
		x.safety(st, "bounds", "", And(Le(IntT(0), idx), Lt(idx, strLen(v))))
		b := Fn("strAt", SInt, v, idx)
		x.gfact(And(Le(IntT(0), b), Lt(b, IntT(256))))
		return b
	}
	x.checkGuarded(fr, st, i.X, false)
	m := x.term(st, fr, i.X)
	k := x.term(st, fr, i.Index)
	has, v := x.mapGet(st, mt, m, k)
	if i.CommaOk {
		return Tuple{v, has}
	}
	return v
}

func isUnit(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

func (x *Exec) mapGet(st *State, mt *types.Map, m, k *Term) (has, v *Term) {
	_, d := st.domOf(mt)
	x.nilMapFact(d, m)
	has = Select(x.mapDom(d, m), k)
	if isUnit(mt.Elem()) {
		return has, zeroTerm(mt.Elem())
	}
	_, vm := st.valOf(mt)
	if m.IsConst() && m.Val.Sign() == 0 {
		return has, zeroTerm(mt.Elem())
	}
	raw := Select(Select(vm, m), k)
	if raw.hasB {
		x.memAxioms(vm, mt.Elem(), st.alloc)
	}
	x.typeFacts(st, raw, mt.Elem(), baseAlloc(raw, st.alloc))
	x.absentFact(d, vm, m, zeroTerm(mt.Elem()))
	return has, raw
}

type absentKey struct{ d, v, m *Term }

var absentTab = map[absentKey]*Term{}

// absentFact: outside its domain a map holds the zero value (the representation keeps it so).
func (x *Exec) absentFact(dm, vm, m, zero *Term) {
	d, v := Select(dm, m), Select(vm, m)
	for d.Op == OStore && v.Op == OStore && d.Args[1] == v.Args[1] {
		d, v = d.Args[0], v.Args[0]
	}
	if v.Op == OConstArr {
		return
	}
	if v.hasB {
		if dm.hasB || vm.hasB {
			return
		}
		m = nil // state it for every map
	}
	key := absentKey{d, v, m}
	if m == nil {
		key = absentKey{dm, vm, nil}
	} else {
		key.m = nil
	}
	f, ok := absentTab[key]
	if !ok {
		if m == nil {
			b := BoundVar("am", SInt)
			k := BoundVar("ak", dm.Sort.V.K)
			sel := Select(Select(vm, b), k)
			var tr [][]*Term
			if sel.Op == OSelect {
				tr = append(tr, []*Term{sel})
			}
			f = Forall([]*Term{b, k}, tr, Or(Select(Select(dm, b), k), Eq(sel, zero)))
		} else {
			k := BoundVar("ak", dm.Sort.V.K)
			sel := Select(v, k)
			var tr [][]*Term
			if sel.Op == OSelect {
				tr = append(tr, []*Term{sel})
			}
			f = Forall([]*Term{k}, tr, Or(Select(d, k), Eq(sel, zero)))
		}
		absentTab[key] = f
	}
	x.gfact(f)
}

func card(dom *Term) *Term { return Fn("card$"+sanitize(dom.Sort.K.Name), SInt, dom) }

func (x *Exec) cardFacts(dom *Term) *Term {
	c := card(dom)
	if dom.hasB {
		return c
	}
	if dom.Op == OIte {
		x.cardFacts(dom.Args[1])
		x.cardFacts(dom.Args[2])
	}
	x.gfact(Le(IntT(0), c))
	w := Fn("cardw$"+sanitize(dom.Sort.K.Name), dom.Sort.K, dom)
	x.gfact(Implies(Lt(IntT(0), c), Select(dom, w)))
	k := BoundVar("k", dom.Sort.K)
	x.gfact(Implies(Eq(c, IntT(0)), Forall([]*Term{k}, nil, Not(Select(dom, k)))))
	// peel stores of members
	for d := dom; d.Op == OStore; d = d.Args[0] {
		base := d.Args[0]
		cb := card(base)
		x.gfact(Le(IntT(0), cb))
		in := Select(base, d.Args[1])
		if d.Args[2] == True {
			x.gfact(Eq(card(d), Add(cb, Ite(in, IntT(0), IntT(1)))))
		} else if d.Args[2] == False {
			x.gfact(Eq(card(d), Sub(cb, Ite(in, IntT(1), IntT(0)))))
		} else {
			break
		}
		if base.Op == OConstArr {
			x.gfact(Eq(card(base), IntT(0)))
		}
	}
	if dom.Op == OConstArr && dom.Args[0] == False {
		x.gfact(Eq(c, IntT(0)))
	}
	return c
}

func (x *Exec) mapSet(st *State, mt *types.Map, m, k, v *Term) {
	dk, d := st.domOf(mt)
	memSorts[dk] = d.Sort
	x.noteWrite(st, dk, m)
	st.mem[dk] = Store(d, m, Store(Select(d, m), k, True))
	if !isUnit(mt.Elem()) {
		vk, vm := st.valOf(mt)
		memSorts[vk] = vm.Sort
		x.noteWrite(st, vk, m)
		st.mem[vk] = Store(vm, m, Store(Select(vm, m), k, v))
	}
}

func (x *Exec) mapDelete(st *State, mt *types.Map, m, k *Term) {
	dk, d := st.domOf(mt)
	memSorts[dk] = d.Sort
	x.noteWrite(st, dk, m)
	st.mem[dk] = Store(d, m, Store(Select(d, m), k, False))
	if !isUnit(mt.Elem()) {
		vk, vm := st.valOf(mt)
		memSorts[vk] = vm.Sort
		x.noteWrite(st, vk, m)
		st.mem[vk] = Store(vm, m, Store(Select(vm, m), k, zeroTerm(mt.Elem())))
	}
}

func (x *Exec) next(fr *Frame, st *State, i *ssa.Next) Val {
	r := i.Iter.(*ssa.Range)
	it := st.iters[r]
	if it == nil {
		panic(unsupported("iterator"))
	}
	tup := i.Type().(*types.Tuple)
	ks := it.dom0.Sort.K
	ok := Fresh("more", SBool)
	k := Fresh("key", ks)
	x.typeFacts(st, k, it.mtyp.Key(), st.alloc)
	x.fact(st, Implies(ok, And(Select(it.dom0, k), Not(Select(it.visited, k)))))
	b := BoundVar("k", ks)
	vis := Select(it.visited, b)
	in := Select(it.dom0, b)
	var trig [][]*Term
	if in.Op == OSelect {
		trig = append(trig, []*Term{in})
	}
	if vis.Op == OSelect {
		trig = append(trig, []*Term{vis})
	}
	x.fact(st, Implies(Not(ok), Forall([]*Term{b}, trig, Implies(in, vis))))
	x.fact(st, Implies(Not(ok), Eq(it.visited, it.dom0))) // the keys visited are always among them
	n := *it
	n.visited = Ite(ok, Store(it.visited, k, True), it.visited)
	st.iters[r] = &n
	for _, w := range x.writes {
		w.iters[r] = true
	}
	var v Val = zeroTerm(it.mtyp.Elem())
	if tup.At(2).Type() != types.Typ[types.Invalid] && !isUnit(it.mtyp.Elem()) {
		_, vm := st.valOf(it.mtyp)
		raw := Select(Select(vm, it.mapID), k)
		x.typeFacts(st, raw, it.mtyp.Elem(), baseAlloc(raw, st.alloc))
		_, dm := st.domOf(it.mtyp)
		x.absentFact(dm, vm, it.mapID, zeroTerm(it.mtyp.Elem()))
		v = raw
	}
	return Tuple{ok, k, v}
}

func (x *Exec) slice(fr *Frame, st *State, i *ssa.Slice) Val {
	var lo, hi, mx *Term
	if i.Low != nil {
		lo = x.term(st, fr, i.Low)
	} else {
		lo = IntT(0)
	}
	if i.High != nil {
		hi = x.term(st, fr, i.High)
	}
	if i.Max != nil {
		mx = x.term(st, fr, i.Max)
	}
	switch u := i.X.Type().Underlying().(type) {
	case *types.Slice:
		s := x.term(st, fr, i.X)
		if hi == nil {
			hi = SelN(s, "slen")
		}
		cp := SelN(s, "scap")
		if mx != nil {
			cp = mx
		}
		x.safety(st, "slice", "", And(Le(IntT(0), lo), Le(lo, hi), Le(hi, cp), Le(cp, SelN(s, "scap"))))
		return Mk(SSlice, SelN(s, "sblk"), Add(SelN(s, "soff"), lo), Sub(hi, lo), Sub(cp, lo))
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		p := x.asPtr(x.val(st, fr, i.X), i.X.Type())
		if !p.arr || len(p.path) > 0 {
			panic(unsupported("slice of an array inside a struct"))
		}
		n := IntT(at.Len())
		if hi == nil {
			hi = n
		}
		x.safety(st, "slice", "", And(Le(IntT(0), lo), Le(lo, hi), Le(hi, n)))
		return Mk(SSlice, p.blk, lo, Sub(hi, lo), Sub(n, lo))
	case *types.Basic:
		v := x.term(st, fr, i.X)
		if hi == nil {
			hi = strLen(v)
		}
		x.safety(st, "slice", "", And(Le(IntT(0), lo), Le(lo, hi), Le(hi, strLen(v))))
		return Fn("substr", SStr, v, lo, hi)
	}
	panic(unsupported("slice expr"))
}

func (x *Exec) convert(st *State, v Val, from, to types.Type) Val {
	fs, ts := sortOf(from), sortOf(to)
	if isFunc(to) {
		return v
	}
	if _, ok := v.(*Ptr); ok {
		return v
	}
	t := x.asTerm(v)
	switch {
	case fs.Kind == KBV && ts.Kind == KBV:
		if fs == ts {
			return t
		}
		panic(unsupported("bv conversion"))
	case fs.Kind == KBV && ts == SInt:
		return x.bv2int(t)
	case fs == SInt && ts.Kind == KBV:
		return x.int2bv(t, ts.Bits)
	case fs == SInt && ts == SInt:
		fl, fh, ok1 := intRange(from)
		tl, th, ok2 := intRange(to)
		if ok1 && ok2 && fl.Cmp(tl) >= 0 && fh.Cmp(th) <= 0 {
			return t
		}
		return x.wrap(t, to)
	case fs == SInt && ts == SReal:
		return ToReal(t)
	case fs == SReal && ts == SReal:
		return t
	case fs == SReal && ts == SInt:
		return x.wrap(truncReal(t), to)
	case fs == SStr && ts == SStr:
		return t
	case fs == SInt && ts == SStr:
		return Fn("runeStr", SStr, t)
	case fs == SStr && ts == SSlice:
		b := x.newBlk(st)
		el := to.Underlying().(*types.Slice).Elem()
		k, m := st.memOf(el)
		memSorts[k] = m.Sort
		x.noteWrite(st, k, b)
		st.mem[k] = Store(m, b, Fn("strBytes", m.Sort.V, t))
		return Mk(SSlice, b, IntT(0), strLen(t), strLen(t))
	case fs == SSlice && ts == SStr:
		el := from.Underlying().(*types.Slice).Elem()
		_, m := st.memOf(el)
		return Fn("bytesStr", SStr, Select(m, SelF(t, 0)), SelF(t, 1), SelF(t, 2))
	}
	if fs == ts {
		return t
	}
	panic(unsupported("convert %v to %v", from, to))
}

func truncReal(t *Term) *Term {
	return Ite(Ge(t, RealT(ratZero)), ToInt(t), Neg(ToInt(Neg(t))))
}

func (x *Exec) bv2int(t *Term) *Term {
	n := t.Sort.Bits
	if t.IsConst() {
		return NumT(SInt, t.Val)
	}
	if t.Op == OIte {
		return Ite(t.Args[0], x.bv2int(t.Args[1]), x.bv2int(t.Args[2]))
	}
	if t.Op == OFn && t.Name == fmt.Sprintf("int2bv%d", n) {
		// defined only on the range
		a := t.Args[0]
		lim := NumT(SInt, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(n))))
		return EMod(a, lim)
	}
	r := Fn(fmt.Sprintf("bv2int%d", n), SInt, t)
	lim := NumT(SInt, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(n))))
	if !t.hasB {
		x.gfact(And(Le(IntT(0), r), Lt(r, lim)))
		x.gfact(Eq(Fn(fmt.Sprintf("int2bv%d", n), t.Sort, r), t))
		x.gfact(Eq(Eq(r, IntT(0)), Eq(t, BVT(n, 0))))
		if t.Op == OBV && t.Name == "bvand" {
			for _, a := range t.Args {
				if a.IsConst() {
					x.gfact(Le(r, NumT(SInt, a.Val)))
				}
			}
		}
	}
	return r
}

func (x *Exec) int2bv(t *Term, n int) *Term {
	if t.IsConst() {
		return BVT(n, new(big.Int).And(t.Val.Num(), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(n)), big.NewInt(1))).Uint64())
	}
	if t.Op == OFn && t.Name == fmt.Sprintf("bv2int%d", n) {
		return t.Args[0]
	}
	r := Fn(fmt.Sprintf("int2bv%d", n), SBV(n), t)
	if !t.hasB {
		lim := NumT(SInt, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(n))))
		x.gfact(Eq(Fn(fmt.Sprintf("bv2int%d", n), SInt, r), EMod(t, lim)))
		x.gfact(Implies(Eq(EMod(t, lim), IntT(0)), Eq(r, BVT(n, 0))))
	}
	return r
}

// box turns a concrete value into an interface value.
func (x *Exec) box(st *State, v Val, t types.Type) *Term {
	var a *Term
	switch p := v.(type) {
	case *Ptr:
		if len(p.path) > 0 {
			var parts []string
			for _, e := range p.path {
				parts = append(parts, fmt.Sprint(e.field))
			}
			a = Fn("addr$"+strings.Join(parts, "."), SPtr, Mk(SPtr, p.blk, p.idx))
		} else {
			a = Mk(SPtr, p.blk, p.idx)
		}
	default:
		a = x.asTerm(v)
	}
	r := Fn("box$"+shortTypeName(t), SInt, a)
	if !r.hasB {
		x.gfact(Lt(IntT(0), r))
		x.gfact(Eq(Fn("unbox$"+shortTypeName(t), a.Sort, r), a))
		x.gfact(Fn("isType$"+shortTypeName(t), SBool, r))
	}
	x.boxed()[r] = boxedVal{v, t}
	return r
}

type boxedVal struct {
	v Val
	t types.Type
}

var boxTab = map[*Term]boxedVal{}

func (x *Exec) boxed() map[*Term]boxedVal { return boxTab }
