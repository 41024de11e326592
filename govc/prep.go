package main

import "fmt"

// Preparing a query: unit propagation and case splits on merged states.

// propagate flattens conjunctions and simplifies the disjunctions by what is known to hold.
func propagate(as []*Term) []*Term {
	known := map[*Term]bool{}
	inOut := map[*Term]bool{}
	var out []*Term
	var pending []*Term
	var eval func(t *Term) int // 1 true, -1 false, 0 unknown
	eval = func(t *Term) int {
		if t == True {
			return 1
		}
		if t == False {
			return -1
		}
		if known[t] {
			return 1
		}
		switch t.Op {
		case ONot:
			return -eval(t.Args[0])
		case OAnd:
			r := 1
			for _, a := range t.Args {
				switch eval(a) {
				case -1:
					return -1
				case 0:
					r = 0
				}
			}
			if r == 1 {
				return 1
			}
		case OOr:
			r := -1
			for _, a := range t.Args {
				switch eval(a) {
				case 1:
					return 1
				case 0:
					r = 0
				}
			}
			if r == -1 {
				return -1
			}
		}
		if t.Sort == SBool && !t.hasB && known[Not(t)] {
			return -1
		}
		return 0
	}
	var add func(t *Term)
	add = func(t *Term) {
		if t == True || inOut[t] {
			return
		}
		switch t.Op {
		case OAnd:
			for _, a := range t.Args {
				add(a)
			}
			return
		case ONot:
			if t.Args[0].Op == OOr {
				for _, a := range t.Args[0].Args {
					add(Not(a))
				}
				return
			}
		case OOr:
			if !known[t] {
				known[t] = true
				pending = append(pending, t)
			}
			return
		}
		inOut[t] = true
		known[t] = true
		out = append(out, t)
	}
	for _, a := range as {
		add(a)
	}
	for round := 0; round < 20; round++ {
		todo := pending
		pending = nil
		changed := false
		for _, t := range todo {
			var keep []*Term
			sat := false
			for _, a := range t.Args {
				switch eval(a) {
				case 1:
					sat = true
				case 0:
					if a.Op == OAnd { // drop what is known
						var ks []*Term
						for _, b := range a.Args {
							if eval(b) != 1 {
								ks = append(ks, b)
							}
						}
						a = And(ks...)
					}
					keep = append(keep, a)
				}
			}
			if sat {
				changed = true
				continue
			}
			n := Or(keep...)
			if n != t {
				changed = true
			}
			if n == False {
				return []*Term{False}
			}
			if n.Op == OOr {
				pending = append(pending, n)
				known[n] = true
			} else {
				add(n)
			}
		}
		if !changed {
			break
		}
	}
	for _, t := range pending {
		if !inOut[t] {
			inOut[t] = true
			out = append(out, t)
		}
	}
	return out
}

// mergeConds are the conditions that merged memories and values depend on.
func mergeConds(as []*Term) []*Term {
	seen := map[*Term]bool{}
	cs := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OIte && !t.Args[0].hasB && !cs[t.Args[0]] && (t.Sort.K != nil || t.Sort.Kind == KDT || hasSelect(t.Args[1]) && hasSelect(t.Args[2])) {
			cs[t.Args[0]] = true
			out = append(out, t.Args[0])
		}
		for _, a := range t.children() {
			rec(a)
		}
	}
	for _, a := range as {
		rec(a)
	}
	return out
}

type leaf struct {
	facts []*Term // simplified, with the conditions of the case
	conds []*Term
	goal  *Term
}

// cases splits a proof of goal on the merge conditions.
func cases(facts []*Term, pc, goal *Term, max int) []leaf {
	out := []leaf{{facts, []*Term{pc}, goal}}
	for {
		var next []leaf
		split := false
		for _, q := range out {
			cs := mergeConds(append(append([]*Term{q.goal}, q.conds...), q.facts...))
			if len(cs) == 0 || len(out)+len(next) >= max {
				next = append(next, q)
				continue
			}
			split = true
			c := cs[0]
			for _, v := range []*Term{True, False} {
				m := map[*Term]*Term{c: v}
				sub := func(ts []*Term) []*Term {
					n := make([]*Term, 0, len(ts)+1)
					for _, a := range ts {
						n = append(n, Subst(a, m))
					}
					return n
				}
				l := leaf{goal: Subst(q.goal, m), conds: sub(q.conds)}
				if v == True {
					l.conds = append(l.conds, c)
				} else {
					l.conds = append(l.conds, Not(c))
				}
				l.facts = propagate(append(append([]*Term(nil), l.conds...), sub(q.facts)...))
				if l.goal == True || len(l.facts) == 1 && l.facts[0] == False {
					continue
				}
				next = append(next, l)
			}
		}
		out = next
		if !split {
			return out
		}
	}
}

// prune keeps the facts that say something about what the goal depends on: a fact counts as
// describing the newest symbol it mentions.
func prune(facts, goal []*Term) []*Term {
	rel := map[*Term]bool{}
	seen := map[*Term]bool{}
	for _, g := range goal {
		symbols(g, rel, seen)
	}
	type fi struct {
		t    *Term
		syms map[*Term]bool
		top  []*Term
		pos  int
	}
	var fs []fi
	for i, f := range facts {
		m := map[*Term]bool{}
		symbols(f, m, map[*Term]bool{})
		var top []*Term
		n := -1
		for s := range m {
			switch b := symBatch[s]; {
			case b > n:
				n, top = b, []*Term{s}
			case b == n:
				top = append(top, s)
			}
		}
		fs = append(fs, fi{f, m, top, i})
	}
	keep := make([]bool, len(facts))
	for changed := true; changed; {
		changed = false
		for _, f := range fs {
			if keep[f.pos] {
				continue
			}
			ok := len(f.top) == 0
			for _, s := range f.top {
				ok = ok || rel[s]
			}
			if !ok {
				continue
			}
			keep[f.pos] = true
			changed = true
			for s := range f.syms {
				rel[s] = true
			}
		}
	}
	var out []*Term
	for i, f := range facts {
		if keep[i] {
			out = append(out, f)
		}
	}
	return append(out, goal...)
}

// abstractNL replaces ground nonlinear subterms by symbols; nil when there are none.
func abstractNL(as []*Term) []*Term {
	memo := map[*Term]*Term{}
	mono := map[string]*Term{}
	nl := map[*Term]bool{}
	n := 0
	sym := func(s *Sort) *Term {
		n++
		return Sym(fmt.Sprintf("nl!%s!%d", sanitize(s.Name), n), s)
	}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if len(t.Args) == 0 && len(t.Monos) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		if t.Op == OLin {
			acc := NumT(t.Sort, t.Val)
			ch := false
			for _, m := range t.Monos {
				p := NumT(t.Sort, m.Coef)
				ground := true
				key := t.Sort.Name
				for _, x := range m.Atoms {
					ground = ground && !x.hasB
					key += fmt.Sprintf(" %d", x.id)
				}
				if len(m.Atoms) > 1 && ground {
					if mono[key] == nil {
						mono[key] = sym(t.Sort)
						nl[mono[key]] = true
					}
					p = Mul(p, mono[key])
					ch = true
				} else {
					for _, x := range m.Atoms {
						y := rec(x)
						ch = ch || x != y
						p = Mul(p, y)
					}
				}
				acc = Add(acc, p)
			}
			if !ch {
				acc = t
			}
			memo[t] = acc
			return acc
		}
		r := rebuild(t, rec)
		if t.Op == OToInt && !t.hasB && r != t {
			r = sym(t.Sort)
		}
		memo[t] = r
		return r
	}
	out := make([]*Term, len(as))
	for i, a := range as {
		out[i] = rec(a)
	}
	if n == 0 {
		return nil
	}
	return propagate(out)
}

func abstractL(as []*Term) []*Term {
	termMu.Lock()
	defer termMu.Unlock()
	return abstractNL(as)
}

func hasSelect(t *Term) bool { return hasOp(t, OSelect, map[*Term]bool{}) }
