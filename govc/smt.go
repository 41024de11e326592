package main

// SMT-LIB printing and the solver portfolio.

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

type printer struct {
	defs map[*Term]string // terms printed by name
}

func ratStr(s *Sort, r *big.Rat) string {
	if s == SInt {
		if r.Sign() < 0 {
			return "(- " + new(big.Int).Neg(r.Num()).String() + ")"
		}
		return r.Num().String()
	}
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	var t string
	if a.IsInt() {
		t = a.Num().String() + ".0"
	} else {
		t = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
	}
	if neg {
		return "(- " + t + ")"
	}
	return t
}

func smtName(s string) string {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' || r == '$' || r == '@' || r == '?') {
			return "|" + s + "|"
		}
	}
	return s
}

func (p *printer) str(t *Term) string {
	if n, ok := p.defs[t]; ok {
		return n
	}
	args := func(name string) string {
		var sb strings.Builder
		sb.WriteString("(" + name)
		for _, a := range t.Args {
			sb.WriteString(" " + p.str(a))
		}
		sb.WriteString(")")
		return sb.String()
	}
	switch t.Op {
	case OConst:
		switch t.Sort.Kind {
		case KBool:
			if t == True {
				return "true"
			}
			return "false"
		case KBV:
			return fmt.Sprintf("(_ bv%s %d)", t.Val.Num().String(), t.Sort.Bits)
		}
		return ratStr(t.Sort, t.Val)
	case OSym, OBound:
		return smtName(t.Name)
	case OFn:
		return args(smtName(t.Name))
	case OAnd:
		return args("and")
	case OOr:
		return args("or")
	case ONot:
		return args("not")
	case OEq:
		return args("=")
	case OIte:
		return args("ite")
	case OLin:
		var parts []string
		for _, m := range t.Monos {
			var fs []string
			if m.Coef.Cmp(big.NewRat(1, 1)) != 0 {
				fs = append(fs, ratStr(t.Sort, m.Coef))
			}
			for _, a := range m.Atoms {
				fs = append(fs, p.str(a))
			}
			if len(fs) == 1 {
				parts = append(parts, fs[0])
			} else {
				parts = append(parts, "(* "+strings.Join(fs, " ")+")")
			}
		}
		if t.Val.Sign() != 0 {
			parts = append(parts, ratStr(t.Sort, t.Val))
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(+ " + strings.Join(parts, " ") + ")"
	case OLe, OLt:
		op := "<="
		if t.Op == OLt {
			op = "<"
		}
		// move negative monomials to the right for readability
		a := t.Args[0]
		c, ms := poly(a)
		var l, r []Mono
		for _, m := range ms {
			if m.Coef.Sign() > 0 {
				l = append(l, m)
			} else {
				r = append(r, Mono{new(big.Rat).Neg(m.Coef), m.Atoms})
			}
		}
		lt := mkPolyRaw(a.Sort, new(big.Rat), l)
		rt := mkPolyRaw(a.Sort, new(big.Rat).Neg(c), r)
		return "(" + op + " " + p.str(lt) + " " + p.str(rt) + ")"
	case ODiv:
		return args("div")
	case OMod:
		return args("mod")
	case ORDiv:
		return args("/")
	case OToReal:
		return args("to_real")
	case OToInt:
		return args("to_int")
	case OSelect:
		return args("select")
	case OStore:
		return args("store")
	case OConstArr:
		return "((as const " + t.Sort.Name + ") " + p.str(t.Args[0]) + ")"
	case OMk:
		if len(t.Args) == 0 {
			return "mk$" + t.Sort.Name
		}
		return args("mk$" + t.Sort.Name)
	case OSel:
		s := t.Args[0].Sort
		return args(s.Name + "$" + s.Fields[t.I].Name)
	case OBV:
		return args(t.Name)
	case OForall, OExists:
		q := "forall"
		if t.Op == OExists {
			q = "exists"
		}
		var sb strings.Builder
		sb.WriteString("(" + q + " (")
		for _, b := range t.Bound {
			sb.WriteString("(" + smtName(b.Name) + " " + b.Sort.Name + ")")
		}
		sb.WriteString(") ")
		body := p.letBody(t.Args[0])
		if trigs := printTrigs(t); len(trigs) > 0 {
			sb.WriteString("(! " + body)
			for _, tr := range trigs {
				sb.WriteString(" :pattern (")
				for i, x := range tr {
					if i > 0 {
						sb.WriteByte(' ')
					}
					sb.WriteString((&printer{defs: p.defs}).str(x))
				}
				sb.WriteByte(')')
			}
			sb.WriteByte(')')
		} else {
			sb.WriteString(body)
		}
		sb.WriteByte(')')
		return sb.String()
	}
	panic("print op")
}

func mkPolyRaw(s *Sort, c *big.Rat, ms []Mono) *Term {
	if len(ms) == 0 {
		return NumT(s, c)
	}
	return mkPoly(s, c, ms)
}

// letBody prints a quantifier body, sharing subterms that contain bound variables with let.
func (p *printer) letBody(b *Term) string {
	cnt := map[*Term]int{}
	var order []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if !t.hasB || t.Op == OBound {
			return
		}
		if _, ok := p.defs[t]; ok {
			return
		}
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		if t.Op == OForall || t.Op == OExists {
			order = append(order, t)
			return
		}
		for _, c := range t.children() {
			rec(c)
		}
		order = append(order, t)
	}
	rec(b)
	var lets []string
	saved := map[*Term]bool{}
	for _, t := range order {
		if cnt[t] > 1 && t != b {
			s := p.str(t)
			if len(s) < 40 {
				continue
			}
			n := fmt.Sprintf("l!%d", t.id)
			lets = append(lets, "(let (("+n+" "+s+")) ")
			p.defs[t] = n
			saved[t] = true
		}
	}
	body := p.str(b)
	for t := range saved {
		delete(p.defs, t)
	}
	return strings.Join(lets, "") + body + strings.Repeat(")", len(lets))
}

// script builds an SMT-LIB script asserting all of asserts.
func script(asserts []*Term, wantModel bool) string {
	cnt := map[*Term]int{}
	syms := map[*Term]bool{}
	fns := map[string]bool{}
	sorts := map[*Sort]bool{}
	var addSort func(s *Sort)
	addSort = func(s *Sort) {
		if sorts[s] {
			return
		}
		sorts[s] = true
		if s.K != nil {
			addSort(s.K)
			addSort(s.V)
		}
		for _, f := range s.Fields {
			addSort(f.Sort)
		}
	}
	var order []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		addSort(t.Sort)
		for _, b := range t.Bound {
			addSort(b.Sort)
		}
		if t.Op == OSym {
			syms[t] = true
		}
		if t.Op == OFn {
			fns[t.Name] = true
		}
		for _, c := range t.children() {
			rec(c)
		}
		for _, tr := range t.Trig {
			for _, x := range tr {
				rec(x)
			}
		}
		order = append(order, t)
	}
	for _, a := range asserts {
		rec(a)
	}
	var sb strings.Builder
	sb.WriteString("(set-option :print-success false)\n")
	if wantModel {
		sb.WriteString("(set-option :produce-models true)\n")
	}
	sb.WriteString("(set-logic ALL)\n")
	for _, f := range fnTab {
		if fns[f.Name] {
			for _, a := range f.Args {
				addSort(a)
			}
			addSort(f.Ret)
		}
	}
	for _, s := range sortOrder {
		if !sorts[s] {
			continue
		}
		if s.Kind == KUnint {
			sb.WriteString("(declare-sort " + s.Name + " 0)\n")
			continue
		}
		sb.WriteString("(declare-datatypes ((" + s.Name + " 0)) (((mk$" + s.Name)
		for _, f := range s.Fields {
			sb.WriteString(" (" + s.Name + "$" + f.Name + " " + f.Sort.Name + ")")
		}
		sb.WriteString("))))\n")
	}
	var sl []*Term
	for s := range syms {
		sl = append(sl, s)
	}
	sort.Slice(sl, func(i, j int) bool { return sl[i].Name < sl[j].Name })
	var lits []string
	for _, s := range sl {
		sb.WriteString("(declare-const " + smtName(s.Name) + " " + s.Sort.Name + ")\n")
		if isStrLit(s) {
			lits = append(lits, smtName(s.Name))
		}
	}
	if len(lits) > 1 {
		sb.WriteString("(assert (distinct " + strings.Join(lits, " ") + "))\n")
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	for _, n := range fl {
		f := fnTab[n]
		sb.WriteString("(declare-fun " + smtName(n) + " (")
		for i, a := range f.Args {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(a.Name)
		}
		sb.WriteString(") " + f.Ret.Name + ")\n")
	}
	p := &printer{defs: map[*Term]string{}}
	for _, t := range order {
		if cnt[t] < 2 || t.hasB || t.Op == OSym || t.Op == OConst || t.Op == OBound {
			continue
		}
		s := p.str(t)
		if len(s) < 30 {
			continue
		}
		n := fmt.Sprintf("d!%d", t.id)
		sb.WriteString("(define-fun " + n + " () " + t.Sort.Name + " " + s + ")\n")
		p.defs[t] = n
	}
	for _, a := range asserts {
		sb.WriteString("(assert " + p.str(a) + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	if wantModel {
		sb.WriteString("(get-model)\n")
	}
	return sb.String()
}

type solverCfg struct {
	name string
	args []string
}

type smtResult struct {
	status string // unsat, sat, unknown
	solver string
	secs   float64
	out    string
}

// hardStop, when set, is when every solver call gives up: a check answers in
// time whatever the solvers do.
var hardStop time.Time

func runSolver(cfg solverCfg, in string, secs int, cancel <-chan struct{}) smtResult {
	if !hardStop.IsZero() {
		left := int(time.Until(hardStop).Seconds())
		if left <= 0 {
			return smtResult{"unknown", cfg.name, 0, "out of time"}
		}
		secs = min(secs, left)
	}
	ctx, cf := context.WithTimeout(context.Background(), time.Duration(secs)*time.Second+500*time.Millisecond)
	defer cf()
	cmd := exec.CommandContext(ctx, cfg.args[0], cfg.args[1:]...)
	cmd.Stdin = strings.NewReader(in)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.WaitDelay = time.Second
	t0 := time.Now()
	if err := cmd.Start(); err != nil {
		return smtResult{"unknown", cfg.name, 0, err.Error()}
	}
	done := make(chan struct{})
	go func() {
		select {
		case <-cancel:
			cf()
		case <-done:
		}
	}()
	cmd.Wait()
	close(done)
	s := out.String()
	r := smtResult{"unknown", cfg.name, time.Since(t0).Seconds(), s}
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" || l == "unknown" || l == "timeout" {
			if l != "timeout" {
				r.status = l
			}
			break
		}
		if strings.HasPrefix(l, "(error") {
			r.status = "error"
			break
		}
	}
	return r
}

var solverSem = make(chan struct{}, 8)

func solvers(secs int) []solverCfg {
	return []solverCfg{
		{"z3-5.3.2", []string{"z3-new", "-in", fmt.Sprintf("-T:%d", secs)}},
		{"cvc5-1.1.2", []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", secs*1000)}},
		{"z3-4.8.12", []string{"z3", "-in", fmt.Sprintf("-T:%d", secs)}},
		{"z3-5.3.2/noauto", []string{"z3-new", "-in", fmt.Sprintf("-T:%d", secs), "smt.auto_config=false", "smt.mbqi=false", "smt.case_split=3"}},
		{"z3-5.3.2/noext", []string{"z3-new", "-in", fmt.Sprintf("-T:%d", secs), "smt.array.extensional=false"}},
		{"cvc5-1.1.2/enum", []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", secs*1000), "--no-e-matching", "--enum-inst"}},
	}
}

// solve decides whether the conjunction of asserts is unsatisfiable.
func solve(name string, asserts []*Term, secs int, wantModel bool) (res smtResult) {
	for _, a := range asserts {
		if a == False {
			return smtResult{status: "unsat", solver: "simplifier"}
		}
	}
	termMu.Lock()
	in := script(asserts, wantModel)
	termMu.Unlock()
	if d := os.Getenv("GOVC_DUMP"); d != "" {
		dumpMu.Lock()
		dumpN++
		n := dumpN
		dumpMu.Unlock()
		defer func() {
			os.WriteFile(fmt.Sprintf("%s/q%04d-%s-%d-%s-%.1f.smt2", d, n, res.status, secs, strings.ReplaceAll(res.solver, "/", "_"), res.secs), []byte("; "+name+"\n"+in), 0o644)
		}()
	}
	ss := solvers(1)
	if secs <= 1 {
		ss = solvers(secs)
	}
	var r smtResult
	total := 0.0
	solverSem <- struct{}{}
	for i, n := range []int{0, 3, 4, 5} {
		if i > 1 && secs <= 1 {
			break
		}
		q := runSolver(ss[n], in, 1, nil)
		total += q.secs
		if i == 0 || q.status == "unsat" {
			r = q
		}
		if q.status == "unsat" || i == 0 && q.status == "sat" {
			break
		}
	}
	<-solverSem
	if r.status == "unsat" || r.status == "sat" || secs <= 1 {
		r.secs = total
		return r
	}
	// portfolio in parallel
	ss = solvers(secs)
	cancel := make(chan struct{})
	ch := make(chan smtResult, len(ss))
	for _, c := range ss {
		go func(c solverCfg) {
			solverSem <- struct{}{}
			defer func() { <-solverSem }()
			select {
			case <-cancel:
				ch <- smtResult{status: "unknown", solver: c.name}
				return
			default:
			}
			ch <- runSolver(c, in, secs, cancel)
		}(c)
	}
	best := r
	var closed bool
	for range ss {
		x := <-ch
		total += x.secs
		if !closed && (x.status == "unsat" || x.status == "sat") {
			best = x
			closed = true
			close(cancel)
		}
		if !closed && x.status == "error" && best.status != "error" {
			best.out += "\n[" + x.solver + "] " + x.out
		}
	}
	if !closed {
		close(cancel)
	}
	best.secs = total
	return best
}

var dumpMu sync.Mutex
var dumpN int
var termMu sync.Mutex
