package main

// Terms: a hash-consed, simplifying term language for SMT-LIB.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type SortKind int

const (
	KBool SortKind = iota
	KInt
	KReal
	KBV
	KArr
	KDT
	KUnint
)

type Field struct {
	Name string
	Sort *Sort
}

type Sort struct {
	Kind   SortKind
	Name   string
	Bits   int
	K, V   *Sort
	Fields []Field
}

var sortTab = map[string]*Sort{}
var sortOrder []*Sort // datatypes and uninterpreted sorts in creation order

func mkSort(s *Sort) *Sort {
	if o, ok := sortTab[s.Name]; ok {
		return o
	}
	sortTab[s.Name] = s
	if s.Kind == KDT || s.Kind == KUnint {
		sortOrder = append(sortOrder, s)
	}
	return s
}

var (
	SBool = mkSort(&Sort{Kind: KBool, Name: "Bool"})
	SInt  = mkSort(&Sort{Kind: KInt, Name: "Int"})
	SReal = mkSort(&Sort{Kind: KReal, Name: "Real"})
	SStr  = mkSort(&Sort{Kind: KUnint, Name: "Str"})
)

func SBV(n int) *Sort {
	return mkSort(&Sort{Kind: KBV, Name: fmt.Sprintf("(_ BitVec %d)", n), Bits: n})
}
func SArr(k, v *Sort) *Sort {
	return mkSort(&Sort{Kind: KArr, Name: "(Array " + k.Name + " " + v.Name + ")", K: k, V: v})
}
func SDT(name string, fields []Field) *Sort {
	return mkSort(&Sort{Kind: KDT, Name: name, Fields: fields})
}

var (
	SPtr   = SDT("Ptr", []Field{{"blk", SInt}, {"idx", SInt}})
	SSlice = SDT("Slice", []Field{{"sblk", SInt}, {"soff", SInt}, {"slen", SInt}, {"scap", SInt}})
)

func (s *Sort) field(name string) int {
	for i, f := range s.Fields {
		if f.Name == name {
			return i
		}
	}
	return -1
}

type Op int

const (
	OConst Op = iota // Int/Real/Bool/BV constant
	OSym             // free symbol
	OBound           // bound variable
	OFn              // uninterpreted function application (Name)
	OAnd
	OOr
	ONot
	OEq
	OIte
	OLin   // polynomial: Val + sum coef*mono
	OLe    // arg <= 0   (Args[0] is a lin)
	OLt    // arg < 0
	ODiv   // euclidean div by positive constant/any
	OMod
	ORDiv  // real division
	OToReal
	OToInt // floor
	OSelect
	OStore
	OConstArr
	OMk  // datatype constructor
	OSel // datatype selector (I = field index)
	OBV  // bitvector op (Name)
	OForall
	OExists
)

type Mono struct {
	Coef  *big.Rat
	Atoms []*Term // sorted by id
}

type Term struct {
	Op    Op
	Sort  *Sort
	Args  []*Term
	Name  string
	Val   *big.Rat
	I     int
	Monos []Mono
	Bound []*Term
	Trig  [][]*Term
	id    int
	hasB  bool // contains bound variables (free in this term)
	key   string
}

var termTab = map[string]*Term{}
var termCount int

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(int(t.Op)))
	sb.WriteByte('|')
	sb.WriteString(t.Sort.Name)
	sb.WriteByte('|')
	sb.WriteString(t.Name)
	sb.WriteByte('|')
	if t.Val != nil {
		sb.WriteString(t.Val.RatString())
	}
	sb.WriteByte('|')
	sb.WriteString(strconv.Itoa(t.I))
	for _, a := range t.Args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	for _, m := range t.Monos {
		sb.WriteByte(';')
		sb.WriteString(m.Coef.RatString())
		for _, a := range m.Atoms {
			sb.WriteByte('*')
			sb.WriteString(strconv.Itoa(a.id))
		}
	}
	for _, b := range t.Bound {
		sb.WriteByte('#')
		sb.WriteString(strconv.Itoa(b.id))
	}
	for _, tr := range t.Trig {
		sb.WriteByte('!')
		for _, a := range tr {
			sb.WriteByte(' ')
			sb.WriteString(strconv.Itoa(a.id))
		}
	}
	k := sb.String()
	if o, ok := termTab[k]; ok {
		return o
	}
	termCount++
	t.id = termCount
	t.key = k
	switch t.Op {
	case OBound:
		t.hasB = true
	case OForall, OExists:
		t.hasB = freeBoundExcept(t.Args[0], t.Bound)
	default:
		for _, a := range t.Args {
			t.hasB = t.hasB || a.hasB
		}
		for _, m := range t.Monos {
			for _, a := range m.Atoms {
				t.hasB = t.hasB || a.hasB
			}
		}
	}
	termTab[k] = t
	return t
}

func (t *Term) children() []*Term {
	if len(t.Monos) == 0 {
		return t.Args
	}
	out := append([]*Term(nil), t.Args...)
	for _, m := range t.Monos {
		out = append(out, m.Atoms...)
	}
	return out
}

func freeBoundExcept(t *Term, bs []*Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term, bs map[*Term]bool) bool
	rec = func(t *Term, b map[*Term]bool) bool {
		if !t.hasB {
			return false
		}
		if t.Op == OBound {
			return !b[t]
		}
		if t.Op == OForall || t.Op == OExists {
			nb := map[*Term]bool{}
			for k := range b {
				nb[k] = true
			}
			for _, k := range t.Bound {
				nb[k] = true
			}
			return rec(t.Args[0], nb)
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.children() {
			if rec(a, b) {
				return true
			}
		}
		return false
	}
	m := map[*Term]bool{}
	for _, b := range bs {
		m[b] = true
	}
	return rec(t, m)
}

// ---- constants and symbols

var (
	True  = intern(&Term{Op: OConst, Sort: SBool, Val: big.NewRat(1, 1)})
	False = intern(&Term{Op: OConst, Sort: SBool, Val: big.NewRat(0, 1)})
)

func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}
func IntT(n int64) *Term { return NumT(SInt, big.NewRat(n, 1)) }
func NumT(s *Sort, r *big.Rat) *Term {
	return intern(&Term{Op: OConst, Sort: s, Val: new(big.Rat).Set(r)})
}
func RealT(r *big.Rat) *Term { return NumT(SReal, r) }
func BVT(n int, v uint64) *Term {
	if n < 64 {
		v &= (1 << uint(n)) - 1
	}
	return intern(&Term{Op: OConst, Sort: SBV(n), Val: new(big.Rat).SetInt(new(big.Int).SetUint64(v))})
}

var symCount = map[string]int{}

func Sym(name string, s *Sort) *Term { return intern(&Term{Op: OSym, Sort: s, Name: name}) }

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '!', r == '$', r == '@':
			sb.WriteRune(r)
		default:
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func Fresh(name string, s *Sort) *Term {
	name = sanitize(name)
	symCount[name]++
	t := Sym(fmt.Sprintf("%s!%d", name, symCount[name]), s)
	symBatch[t] = batchNo
	return t
}

// symbols made for the same event (a call, a loop) belong together
var symBatch = map[*Term]int{}
var batchNo int

func BoundVar(name string, s *Sort) *Term {
	name = sanitize(name)
	symCount["?"+name]++
	return intern(&Term{Op: OBound, Sort: s, Name: fmt.Sprintf("%s?%d", name, symCount["?"+name])})
}

func (t *Term) IsConst() bool { return t.Op == OConst }
func (t *Term) Int64() (int64, bool) {
	if t.Op == OConst && t.Val.IsInt() && t.Val.Num().IsInt64() {
		return t.Val.Num().Int64(), true
	}
	return 0, false
}

// ---- uninterpreted functions

type FnDecl struct {
	Name string
	Args []*Sort
	Ret  *Sort
}

var fnTab = map[string]*FnDecl{}

func Fn(name string, ret *Sort, args ...*Term) *Term {
	name = sanitize(name)
	d, ok := fnTab[name]
	if !ok {
		d = &FnDecl{Name: name, Ret: ret}
		for _, a := range args {
			d.Args = append(d.Args, a.Sort)
		}
		fnTab[name] = d
	}
	if len(d.Args) != len(args) || d.Ret != ret {
		panic("function redeclared: " + name)
	}
	for i := range args {
		if args[i].Sort != d.Args[i] {
			panic(fmt.Sprintf("fn %s arg %d sort %s want %s", name, i, args[i].Sort.Name, d.Args[i].Name))
		}
	}
	if len(args) == 0 {
		return Sym(name, ret)
	}
	return intern(&Term{Op: OFn, Sort: ret, Name: name, Args: args})
}

// ---- booleans

func Not(a *Term) *Term {
	if a == True {
		return False
	}
	if a == False {
		return True
	}
	switch a.Op {
	case ONot:
		return a.Args[0]
	case OLe: // !(x<=0) == -x<0
		return Lt0(Neg(a.Args[0]))
	case OLt:
		return Le0(Neg(a.Args[0]))
	}
	return intern(&Term{Op: ONot, Sort: SBool, Args: []*Term{a}})
}

func And(as ...*Term) *Term { return nary(OAnd, as) }
func Or(as ...*Term) *Term  { return nary(OOr, as) }

func nary(op Op, as []*Term) *Term {
	unit, zero := True, False
	if op == OOr {
		unit, zero = False, True
	}
	seen := map[*Term]bool{}
	var out []*Term
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == nil || a == unit || seen[a] {
			return true
		}
		if a == zero {
			return false
		}
		if a.Op == op {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if a.Sort != SBool {
			panic("nary: not bool: " + a.String())
		}
		if !add(a) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	if op == OOr {
		if r := factorOr(out); r != nil {
			return r
		}
	}
	return intern(&Term{Op: op, Sort: SBool, Args: out})
}

func conjuncts(t *Term) []*Term {
	if t.Op == OAnd {
		return t.Args
	}
	if t == True {
		return nil
	}
	return []*Term{t}
}

// factorOr pulls common conjuncts out of a disjunction and resolves
// (p and c) or (p and not c) to p.
func factorOr(ds []*Term) *Term {
	common := map[*Term]int{}
	for _, d := range ds {
		for _, c := range conjuncts(d) {
			common[c]++
		}
	}
	var com []*Term
	for _, c := range conjuncts(ds[0]) {
		if common[c] == len(ds) {
			com = append(com, c)
		}
	}
	if len(com) == 0 {
		return nil
	}
	var rest []*Term
	for _, d := range ds {
		var r []*Term
		for _, c := range conjuncts(d) {
			if common[c] != len(ds) {
				r = append(r, c)
			}
		}
		rest = append(rest, And(r...))
	}
	return And(append(com, Or(rest...))...)
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }
func Iff(a, b *Term) *Term     { return Eq(a, b) }

// ---- arithmetic: polynomials

func poly(t *Term) (*big.Rat, []Mono) {
	switch t.Op {
	case OConst:
		return t.Val, nil
	case OLin:
		return t.Val, t.Monos
	}
	return new(big.Rat), []Mono{{big.NewRat(1, 1), []*Term{t}}}
}

func monoKey(m Mono) string {
	var sb strings.Builder
	for _, a := range m.Atoms {
		sb.WriteString(strconv.Itoa(a.id))
		sb.WriteByte('*')
	}
	return sb.String()
}

func mkPoly(s *Sort, c *big.Rat, ms []Mono) *Term {
	acc := map[string]*Mono{}
	var keys []string
	for _, m := range ms {
		k := monoKey(m)
		if o, ok := acc[k]; ok {
			o.Coef = new(big.Rat).Add(o.Coef, m.Coef)
		} else {
			mm := Mono{new(big.Rat).Set(m.Coef), m.Atoms}
			acc[k] = &mm
			keys = append(keys, k)
		}
	}
	var out []Mono
	for _, k := range keys {
		if acc[k].Coef.Sign() != 0 {
			out = append(out, *acc[k])
		}
	}
	if len(out) == 0 {
		return NumT(s, c)
	}
	if len(out) == 1 && c.Sign() == 0 && out[0].Coef.Cmp(big.NewRat(1, 1)) == 0 && len(out[0].Atoms) == 1 {
		return out[0].Atoms[0]
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i].Atoms, out[j].Atoms
		for x := 0; x < len(a) && x < len(b); x++ {
			if a[x].id != b[x].id {
				return a[x].id < b[x].id
			}
		}
		return len(a) < len(b)
	})
	return intern(&Term{Op: OLin, Sort: s, Val: new(big.Rat).Set(c), Monos: out})
}

func Add(as ...*Term) *Term {
	s := as[0].Sort
	c := new(big.Rat)
	var ms []Mono
	for _, a := range as {
		if a.Sort != s {
			panic(fmt.Sprintf("Add sorts: %s vs %s (%v + %v)", s.Name, a.Sort.Name, as[0], a))
		}
		ac, am := poly(a)
		c.Add(c, ac)
		ms = append(ms, am...)
	}
	return mkPoly(s, c, ms)
}

func Scale(a *Term, r *big.Rat) *Term {
	c, ms := poly(a)
	var out []Mono
	for _, m := range ms {
		out = append(out, Mono{new(big.Rat).Mul(m.Coef, r), m.Atoms})
	}
	return mkPoly(a.Sort, new(big.Rat).Mul(c, r), out)
}
func Neg(a *Term) *Term    { return Scale(a, big.NewRat(-1, 1)) }
func Sub(a, b *Term) *Term { return Add(a, Neg(b)) }
func Mul(a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic("Mul sorts")
	}
	ac, am := poly(a)
	bc, bm := poly(b)
	am = append(append([]Mono(nil), am...), Mono{ac, nil})
	bm = append(append([]Mono(nil), bm...), Mono{bc, nil})
	var out []Mono
	c := new(big.Rat)
	for _, x := range am {
		for _, y := range bm {
			k := new(big.Rat).Mul(x.Coef, y.Coef)
			if k.Sign() == 0 {
				continue
			}
			at := append(append([]*Term(nil), x.Atoms...), y.Atoms...)
			if len(at) == 0 {
				c.Add(c, k)
				continue
			}
			sort.Slice(at, func(i, j int) bool { return at[i].id < at[j].id })
			out = append(out, Mono{k, at})
		}
	}
	return mkPoly(a.Sort, c, out)
}

func Le0(a *Term) *Term {
	if a.IsConst() {
		return BoolT(a.Val.Sign() <= 0)
	}
	a = normScale(a)
	if a.Sort == SInt {
		a = tighten(a)
	}
	return intern(&Term{Op: OLe, Sort: SBool, Args: []*Term{a}})
}

// normScale divides an inequality by the absolute value of its leading coefficient when integral gcd allows.
func normScale(a *Term) *Term {
	if a.Op != OLin {
		return a
	}
	if a.Sort == SReal {
		l := new(big.Rat).Abs(a.Monos[0].Coef)
		return Scale(a, new(big.Rat).Inv(l))
	}
	return a
}

// tighten: sum + c <= 0 over ints with gcd g of coefficients: divide and ceil.
func tighten(a *Term) *Term {
	if a.Op != OLin {
		return a
	}
	g := new(big.Int)
	for _, m := range a.Monos {
		if !m.Coef.IsInt() {
			return a
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(m.Coef.Num()))
	}
	if g.Cmp(big.NewInt(1)) <= 0 {
		return a
	}
	var ms []Mono
	gr := new(big.Rat).SetInt(g)
	for _, m := range a.Monos {
		ms = append(ms, Mono{new(big.Rat).Quo(m.Coef, gr), m.Atoms})
	}
	// ceil(c/g)
	c := a.Val.Num()
	q, r := new(big.Int).QuoRem(c, g, new(big.Int))
	if r.Sign() > 0 {
		q.Add(q, big.NewInt(1))
	}
	return mkPoly(a.Sort, new(big.Rat).SetInt(q), ms)
}

func Lt0(a *Term) *Term {
	if a.IsConst() {
		return BoolT(a.Val.Sign() < 0)
	}
	if a.Sort == SInt {
		return Le0(Add(a, IntT(1)))
	}
	a = normScale(a)
	return intern(&Term{Op: OLt, Sort: SBool, Args: []*Term{a}})
}
func Le(a, b *Term) *Term { return Le0(Sub(a, b)) }
func Lt(a, b *Term) *Term { return Lt0(Sub(a, b)) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func floorDiv(a, b *big.Int) *big.Int { // euclidean for b>0
	return new(big.Int).Div(a, b)
}

// EDiv/EMod: SMT-LIB euclidean semantics.
func EDiv(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.Val.Sign() != 0 {
		return NumT(SInt, new(big.Rat).SetInt(new(big.Int).Div(a.Val.Num(), b.Val.Num())))
	}
	if v, ok := b.Int64(); ok && v == 1 {
		return a
	}
	return intern(&Term{Op: ODiv, Sort: SInt, Args: []*Term{a, b}})
}
func EMod(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.Val.Sign() != 0 {
		return NumT(SInt, new(big.Rat).SetInt(new(big.Int).Mod(a.Val.Num(), b.Val.Num())))
	}
	if v, ok := b.Int64(); ok && v == 1 {
		return IntT(0)
	}
	if a.Op == OMod && a.Args[1] == b {
		return a
	}
	return intern(&Term{Op: OMod, Sort: SInt, Args: []*Term{a, b}})
}

// RDiv: real division.
func RDiv(a, b *Term) *Term {
	if b.IsConst() && b.Val.Sign() != 0 {
		return Scale(a, new(big.Rat).Inv(b.Val))
	}
	if a.IsConst() && a.Val.Cmp(big.NewRat(1, 1)) != 0 {
		return Scale(RDiv(RealT(big.NewRat(1, 1)), b), a.Val)
	}
	return intern(&Term{Op: ORDiv, Sort: SReal, Args: []*Term{a, b}})
}
func ToReal(a *Term) *Term {
	if a.Sort == SReal {
		return a
	}
	if a.IsConst() {
		return RealT(a.Val)
	}
	if a.Op == OLin { // distribute
		acc := RealT(a.Val)
		for _, m := range a.Monos {
			p := RealT(m.Coef)
			for _, x := range m.Atoms {
				p = Mul(p, ToReal(x))
			}
			acc = Add(acc, p)
		}
		return acc
	}
	if a.Op == OIte {
		return Ite(a.Args[0], ToReal(a.Args[1]), ToReal(a.Args[2]))
	}
	return intern(&Term{Op: OToReal, Sort: SReal, Args: []*Term{a}})
}
func ToInt(a *Term) *Term { // floor
	if a.Sort == SInt {
		return a
	}
	if a.IsConst() {
		return NumT(SInt, new(big.Rat).SetInt(floorDiv(a.Val.Num(), a.Val.Denom())))
	}
	if a.Op == OToReal {
		return a.Args[0]
	}
	if a.Op == OLin {
		// split integral part: toreal atoms with integer coefs
		in := IntT(0)
		var rest []Mono
		ok := false
		for _, m := range a.Monos {
			isInt := m.Coef.IsInt()
			for _, x := range m.Atoms {
				isInt = isInt && x.Op == OToReal
			}
			if isInt {
				p := NumT(SInt, m.Coef)
				for _, x := range m.Atoms {
					p = Mul(p, x.Args[0])
				}
				in = Add(in, p)
				ok = true
			} else {
				rest = append(rest, m)
			}
		}
		if ok {
			return Add(in, ToInt(mkPoly(SReal, a.Val, rest)))
		}
	}
	return intern(&Term{Op: OToInt, Sort: SInt, Args: []*Term{a}})
}

// ---- equality and ite

// allocation-order facts used to decide disequality of references
var refUpper = map[*Term]*Term{} // ref term -> alloc term it is below
var allocLower = map[*Term]*Term{} // alloc symbol -> earlier alloc term it is >= of

// allocGE reports whether f >= b is known for alloc terms.
func allocGE(f, b *Term) bool {
	for i := 0; i < 50; i++ {
		d := Sub(f, b)
		if d.IsConst() {
			return d.Val.Sign() >= 0
		}
		// replace an alloc symbol in f with its lower bound
		c, ms := poly(f)
		rep := false
		for _, m := range ms {
			if len(m.Atoms) == 1 && m.Coef.Cmp(big.NewRat(1, 1)) == 0 {
				if lo, ok := allocLower[m.Atoms[0]]; ok {
					var rest []Mono
					for _, o := range ms {
						if monoKey(o) != monoKey(m) {
							rest = append(rest, o)
						}
					}
					f = Add(mkPoly(SInt, c, rest), lo)
					rep = true
					break
				}
			}
		}
		if !rep {
			return false
		}
	}
	return false
}

// freshAtLeast: t = allocsym + c form?
func isAllocTerm(t *Term) bool {
	_, ms := poly(t)
	if len(ms) != 1 || len(ms[0].Atoms) != 1 || ms[0].Coef.Cmp(big.NewRat(1, 1)) != 0 {
		return false
	}
	a := ms[0].Atoms[0]
	_, ok := allocLower[a]
	return ok
}

func refDistinct(a, b *Term) bool {
	// a fresh (alloc term), b bounded
	chk := func(f, r *Term) bool {
		if !isAllocTerm(f) {
			return false
		}
		if r.IsConst() && r.Val.Sign() <= 0 {
			return true
		}
		if u, ok := refUpper[r]; ok && allocGE(f, u) {
			return true
		}
		// two alloc terms: f >= r+1
		if isAllocTerm(r) && allocGE(f, Add(r, IntT(1))) {
			return true
		}
		return false
	}
	return chk(a, b) || chk(b, a)
}

func decideEq(a, b *Term) (eq, known bool) {
	if a == b {
		return true, true
	}
	if a.IsConst() && b.IsConst() {
		return a.Val.Cmp(b.Val) == 0, true
	}
	switch a.Sort.Kind {
	case KInt, KReal:
		d := Sub(a, b)
		if d.IsConst() {
			return d.Val.Sign() == 0, true
		}
		if a.Sort == SInt && refDistinct(a, b) {
			return false, true
		}
	case KUnint:
		if a.Sort == SStr && isStrLit(a) && isStrLit(b) {
			return a == b, true
		}
	}
	if a.Op == OMk && b.Op == OMk {
		all := true
		for i := range a.Args {
			eq, known := decideEq(a.Args[i], b.Args[i])
			if known && !eq {
				return false, true
			}
			if !known {
				all = false
			}
		}
		if all {
			return true, true
		}
	}
	return false, false
}

var strLits = map[*Term]string{}

func isStrLit(t *Term) bool { _, ok := strLits[t]; return ok }
func StrLit(s string) *Term {
	name := fmt.Sprintf("str$%x", s)
	if len(name) > 60 {
		name = fmt.Sprintf("str$%d$%x", len(strLits), s[:10])
		for t, v := range strLits {
			if v == s {
				return t
			}
		}
	}
	t := Sym(name, SStr)
	strLits[t] = s
	return t
}

func Eq(a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sorts: %s vs %s: %v = %v", a.Sort.Name, b.Sort.Name, a, b))
	}
	if eq, known := decideEq(a, b); known {
		return BoolT(eq)
	}
	if a.Sort == SBool {
		if a.IsConst() {
			a, b = b, a
		}
		if b == True {
			return a
		}
		if b == False {
			return Not(a)
		}
		if a == Not(b) {
			return False
		}
	}
	if a.Op == OMk && b.Op == OMk {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	if (a.Op == OMk || b.Op == OMk) && a.Sort.Kind == KDT {
		var cs []*Term
		for i := range a.Sort.Fields {
			cs = append(cs, Eq(SelF(a, i), SelF(b, i)))
		}
		return And(cs...)
	}
	// ite with constant branches against a constant
	if a.Op == OIte && b.IsConst() {
		a, b = b, a
	}
	if b.Op == OIte && a.IsConst() && (b.Args[1].IsConst() || b.Args[2].IsConst()) {
		return Ite(b.Args[0], Eq(a, b.Args[1]), Eq(a, b.Args[2]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{Op: OEq, Sort: SBool, Args: []*Term{a, b}})
}
func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

func Ite(c, a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Ite sorts %s vs %s", a.Sort.Name, b.Sort.Name))
	}
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if c.Op == ONot {
		return Ite(c.Args[0], b, a)
	}
	if c.Op == OLt { // one form only
		return Ite(Not(c), b, a)
	}
	if a.Sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if a.Op == OIte && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == OIte && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	if a.Sort.Kind == KDT && (a.Op == OMk || b.Op == OMk) && len(a.Sort.Fields) > 0 {
		var fs []*Term
		for i := range a.Sort.Fields {
			fs = append(fs, Ite(c, SelF(a, i), SelF(b, i)))
		}
		return Mk(a.Sort, fs...)
	}
	if a.Sort.Kind == KArr {
		if a.Op == OStore && a.Args[0] == b {
			return Store(b, a.Args[1], Ite(c, a.Args[2], Select(b, a.Args[1])))
		}
		if b.Op == OStore && b.Args[0] == a {
			return Store(a, b.Args[1], Ite(c, Select(a, b.Args[1]), b.Args[2]))
		}
		if a.Op == OStore && b.Op == OStore && a.Args[1] == b.Args[1] {
			return Store(Ite(c, a.Args[0], b.Args[0]), a.Args[1], Ite(c, a.Args[2], b.Args[2]))
		}
		// common base below several stores
		if base := commonBase(a, b); base != nil {
			t := base
			idxs := append(storeIdx(a, base), storeIdx(b, base)...)
			ok := true
			seen := map[*Term]bool{}
			var uniq []*Term
			for _, i := range idxs {
				if !seen[i] {
					seen[i] = true
					uniq = append(uniq, i)
				}
			}
			for x := 0; x < len(uniq) && ok; x++ {
				for y := x + 1; y < len(uniq); y++ {
					if eq, known := decideEq(uniq[x], uniq[y]); !known || eq {
						ok = false
						break
					}
				}
			}
			if ok {
				for _, i := range uniq {
					t = Store(t, i, Ite(c, Select(a, i), Select(b, i)))
				}
				return t
			}
		}
	}
	return intern(&Term{Op: OIte, Sort: a.Sort, Args: []*Term{c, a, b}})
}

func storeIdx(a, base *Term) []*Term {
	var out []*Term
	for a != base {
		out = append(out, a.Args[1])
		a = a.Args[0]
	}
	return out
}

func commonBase(a, b *Term) *Term {
	seen := map[*Term]bool{}
	n := 0
	for t := a; ; t = t.Args[0] {
		seen[t] = true
		n++
		if t.Op != OStore || n > 400 {
			break
		}
	}
	n = 0
	for t := b; ; t = t.Args[0] {
		if seen[t] {
			return t
		}
		n++
		if t.Op != OStore || n > 400 {
			return nil
		}
	}
}

// ---- arrays

func Select(a, i *Term) *Term {
	if a.Sort.Kind != KArr {
		panic("select on " + a.Sort.Name)
	}
	if a.Sort.K != i.Sort {
		panic(fmt.Sprintf("select index sort %s want %s", i.Sort.Name, a.Sort.K.Name))
	}
	for {
		switch a.Op {
		case OStore:
			eq, known := decideEq(a.Args[1], i)
			if known && eq {
				return a.Args[2]
			}
			if known {
				a = a.Args[0]
				continue
			}
		case OConstArr:
			return a.Args[0]
		case OSym:
			if h, ok := havocTab[a]; ok && i.Sort == SInt {
				if havocKeeps(h, i) {
					a = h.base
					continue
				}
			}
		case OIte:
			if arrShape(a.Args[1]) || arrShape(a.Args[2]) {
				return Ite(a.Args[0], Select(a.Args[1], i), Select(a.Args[2], i))
			}
		}
		break
	}
	return intern(&Term{Op: OSelect, Sort: a.Sort.V, Args: []*Term{a, i}})
}

var ratZero = new(big.Rat)

// havocKeeps: index i is certainly outside what a loop changed.
func havocKeeps(h *havocInfo, i *Term) bool {
	if h.bound != nil {
		ok := i.IsConst() && i.Val.Sign() <= 0
		if !ok {
			if u, has := refUpper[i]; has && allocGE(h.bound, u) {
				ok = true
			} else if isAllocTerm(i) && allocGE(h.bound, Add(i, IntT(1))) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	for _, e := range h.except {
		eq, known := decideEq(e, i)
		if !known || eq {
			return false
		}
	}
	return true
}

func arrShape(a *Term) bool { return a.Op == OStore || a.Op == OConstArr || a.Op == OIte }

func Store(a, i, v *Term) *Term {
	if a.Sort.V != v.Sort || a.Sort.K != i.Sort {
		panic(fmt.Sprintf("store sorts: %s [%s] := %s", a.Sort.Name, i.Sort.Name, v.Sort.Name))
	}
	if a.Op == OStore {
		if eq, known := decideEq(a.Args[1], i); known && eq {
			return Store(a.Args[0], i, v)
		}
		// keep chains short: replace a provably distinct deeper store of the same index
		d := a
		var chain []*Term
		n := 0
		for d.Op == OStore && n < 64 {
			eq, known := decideEq(d.Args[1], i)
			if known && eq {
				r := d.Args[0]
				r = Store(r, i, v)
				for k := len(chain) - 1; k >= 0; k-- {
					r = intern(&Term{Op: OStore, Sort: a.Sort, Args: []*Term{r, chain[k].Args[1], chain[k].Args[2]}})
				}
				return r
			}
			if !known {
				break
			}
			chain = append(chain, d)
			d = d.Args[0]
			n++
		}
	}
	if v.Op == OSelect && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return intern(&Term{Op: OStore, Sort: a.Sort, Args: []*Term{a, i, v}})
}
func ConstArr(s *Sort, v *Term) *Term {
	return intern(&Term{Op: OConstArr, Sort: s, Args: []*Term{v}})
}

// ---- datatypes

func Mk(s *Sort, fs ...*Term) *Term {
	if len(fs) != len(s.Fields) {
		panic("Mk arity " + s.Name)
	}
	for i := range fs {
		if fs[i].Sort != s.Fields[i].Sort {
			panic(fmt.Sprintf("Mk %s.%s: sort %s want %s", s.Name, s.Fields[i].Name, fs[i].Sort.Name, s.Fields[i].Sort.Name))
		}
	}
	// eta: mk(sel0 x, sel1 x, ...) = x
	if len(fs) > 0 && fs[0].Op == OSel && fs[0].I == 0 && fs[0].Args[0].Sort == s {
		x := fs[0].Args[0]
		ok := true
		for i, f := range fs {
			if f.Op != OSel || f.I != i || f.Args[0] != x {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	return intern(&Term{Op: OMk, Sort: s, Args: fs})
}
func SelF(t *Term, i int) *Term {
	if t.Sort.Kind != KDT {
		panic("SelF on " + t.Sort.Name)
	}
	if t.Op == OMk {
		return t.Args[i]
	}
	if t.Op == OIte {
		return Ite(t.Args[0], SelF(t.Args[1], i), SelF(t.Args[2], i))
	}
	return intern(&Term{Op: OSel, Sort: t.Sort.Fields[i].Sort, I: i, Args: []*Term{t}})
}
func SelN(t *Term, name string) *Term {
	i := t.Sort.field(name)
	if i < 0 {
		panic("no field " + name + " in " + t.Sort.Name)
	}
	return SelF(t, i)
}
func UpdF(t *Term, i int, v *Term) *Term {
	fs := make([]*Term, len(t.Sort.Fields))
	for j := range fs {
		if j == i {
			fs[j] = v
		} else {
			fs[j] = SelF(t, j)
		}
	}
	return Mk(t.Sort, fs...)
}

// ---- bitvectors

func bvVal(t *Term) uint64 { return t.Val.Num().Uint64() }

func BVOp(op string, a, b *Term) *Term {
	n := a.Sort.Bits
	if a.IsConst() && b.IsConst() {
		x, y := bvVal(a), bvVal(b)
		switch op {
		case "bvand":
			return BVT(n, x&y)
		case "bvor":
			return BVT(n, x|y)
		case "bvxor":
			return BVT(n, x^y)
		case "bvshl":
			if y >= uint64(n) {
				return BVT(n, 0)
			}
			return BVT(n, x<<y)
		case "bvlshr":
			if y >= uint64(n) {
				return BVT(n, 0)
			}
			return BVT(n, x>>y)
		case "bvadd":
			return BVT(n, x+y)
		case "bvsub":
			return BVT(n, x-y)
		case "bvmul":
			return BVT(n, x*y)
		case "bvult":
			return BoolT(x < y)
		case "bvule":
			return BoolT(x <= y)
		}
	}
	if op == "bvor" {
		if a.IsConst() && bvVal(a) == 0 {
			return b
		}
		if b.IsConst() && bvVal(b) == 0 {
			return a
		}
		if a == b {
			return a
		}
	}
	if op == "bvand" {
		if a.IsConst() && bvVal(a) == 0 || b.IsConst() && bvVal(b) == 0 {
			return BVT(n, 0)
		}
		if a == b {
			return a
		}
	}
	s := a.Sort
	if op == "bvult" || op == "bvule" {
		s = SBool
	}
	return intern(&Term{Op: OBV, Sort: s, Name: op, Args: []*Term{a, b}})
}
func BVNot(a *Term) *Term {
	if a.IsConst() {
		return BVT(a.Sort.Bits, ^bvVal(a))
	}
	return intern(&Term{Op: OBV, Sort: a.Sort, Name: "bvnot", Args: []*Term{a}})
}

// ---- quantifiers

func Quant(op Op, bs []*Term, trig [][]*Term, body *Term) *Term {
	if body.IsConst() {
		return body
	}
	// drop unused variables
	used := map[*Term]bool{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if !t.hasB || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OBound {
			used[t] = true
		}
		for _, a := range t.children() {
			rec(a)
		}
	}
	rec(body)
	var ub []*Term
	for _, b := range bs {
		if used[b] {
			ub = append(ub, b)
		}
	}
	if len(ub) == 0 {
		return body
	}
	// drop triggers that do not mention all variables
	var tr [][]*Term
	for _, t := range trig {
		u := map[*Term]bool{}
		s := map[*Term]bool{}
		var r func(t *Term)
		r = func(t *Term) {
			if s[t] {
				return
			}
			s[t] = true
			if t.Op == OBound {
				u[t] = true
			}
			for _, a := range t.children() {
				r(a)
			}
		}
		ok := true
		for _, x := range t {
			r(x)
		}
		for _, b := range ub {
			ok = ok && u[b]
		}
		if ok {
			tr = append(tr, t)
		}
	}
	// canonical names, so that equal formulas are one term
	d := quantDepth(body) + 1
	for clash := true; clash; {
		clash = false
		for u := range used {
			mine := false
			for _, b := range ub {
				mine = mine || b == u
			}
			if !mine && strings.HasPrefix(u.Name, fmt.Sprintf("q%d.", d)) {
				clash = true
			}
		}
		if clash {
			d++
		}
	}
	m := map[*Term]*Term{}
	nb := make([]*Term, len(ub))
	for i, b := range ub {
		nb[i] = intern(&Term{Op: OBound, Sort: b.Sort, Name: fmt.Sprintf("q%d.%d", d, i)})
		m[b] = nb[i]
	}
	body = Subst(body, m)
	for i := range tr {
		t := make([]*Term, len(tr[i]))
		for j, e := range tr[i] {
			t[j] = Subst(e, m)
		}
		tr[i] = t
	}
	return intern(&Term{Op: op, Sort: SBool, Bound: nb, Trig: tr, Args: []*Term{body}})
}

var quantDepthTab = map[*Term]int{}

func quantDepth(t *Term) int {
	if d, ok := quantDepthTab[t]; ok {
		return d
	}
	d := 0
	for _, c := range t.children() {
		if n := quantDepth(c); n > d {
			d = n
		}
	}
	if t.Op == OForall || t.Op == OExists {
		d++
	}
	quantDepthTab[t] = d
	return d
}
func Forall(bs []*Term, trig [][]*Term, body *Term) *Term { return Quant(OForall, bs, trig, body) }
func Exists(bs []*Term, body *Term) *Term                 { return Quant(OExists, bs, nil, body) }

// ---- substitution

func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 && len(t.Monos) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := rebuild(t, rec)
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, rec func(*Term) *Term) *Term {
	as := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		as[i] = rec(a)
		ch = ch || as[i] != a
	}
	if t.Op == OLin {
		acc := NumT(t.Sort, t.Val)
		for _, m := range t.Monos {
			p := NumT(t.Sort, m.Coef)
			for _, x := range m.Atoms {
				y := rec(x)
				ch = ch || x != y
				p = Mul(p, y)
			}
			acc = Add(acc, p)
		}
		if !ch {
			return t
		}
		return acc
	}
	if !ch {
		return t
	}
	switch t.Op {
	case OFn:
		return Fn(t.Name, t.Sort, as...)
	case OAnd:
		return And(as...)
	case OOr:
		return Or(as...)
	case ONot:
		return Not(as[0])
	case OEq:
		return Eq(as[0], as[1])
	case OIte:
		return Ite(as[0], as[1], as[2])
	case OLe:
		return Le0(as[0])
	case OLt:
		return Lt0(as[0])
	case ODiv:
		return EDiv(as[0], as[1])
	case OMod:
		return EMod(as[0], as[1])
	case ORDiv:
		return RDiv(as[0], as[1])
	case OToReal:
		return ToReal(as[0])
	case OToInt:
		return ToInt(as[0])
	case OSelect:
		return Select(as[0], as[1])
	case OStore:
		return Store(as[0], as[1], as[2])
	case OConstArr:
		return ConstArr(t.Sort, as[0])
	case OMk:
		return Mk(t.Sort, as...)
	case OSel:
		return SelF(as[0], t.I)
	case OBV:
		if len(as) == 1 {
			return BVNot(as[0])
		}
		return BVOp(t.Name, as[0], as[1])
	case OForall, OExists:
		var tr [][]*Term
		for _, x := range t.Trig {
			var y []*Term
			for _, z := range x {
				y = append(y, rec(z))
			}
			tr = append(tr, y)
		}
		return mkQuant(t.Op, t.Bound, tr, as[0])
	}
	panic("rebuild")
}

// symbols collects the free symbols of t.
func symbols(t *Term, out map[*Term]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.Op == OSym {
		out[t] = true
	}
	for _, a := range t.children() {
		symbols(a, out, seen)
	}
}

func (t *Term) String() string {
	p := &printer{defs: map[*Term]string{}}
	s := p.str(t)
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}
