package main

// Contract files: parsing.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type clause struct {
	Expr  ast.Expr
	Src   string
	Lab   string
	Props []string
	Pos   string
	By    []string // the labels of the quantified facts to try first
}

func (c clause) label(i int) string {
	if c.Lab != "" {
		return c.Lab
	}
	return fmt.Sprint(i + 1)
}

type LoopSpec struct {
	Unroll  bool
	Name    string
	Invs    []clause
	Assume  []clause
	Applies []clause
	Writes  []ast.Expr
	NoFrame bool
}

type hookAct struct {
	Kind  string // assert, set, assume, apply
	Ghost string
	clause
}

type Hook struct {
	Event  string // call, ret, send, recv, close, lock, unlock
	Target string
	Params []string
	Acts   []hookAct
}

type ghostDecl struct {
	Name string
	Type string
	Init ast.Expr
}

type sigParam struct {
	Name string
	Type string
}

type FuncContract struct {
	Name      string
	Short     string
	Alias     string
	Props     []string
	Requires  []clause
	Ensures   []clause
	Assumes   []clause // assumed at entry, counted as assumptions
	Modifies  []ast.Expr
	ModGhost  []string
	Applies   []clause
	Loops     map[int]*LoopSpec
	Ghosts    []ghostDecl
	Hooks     []*Hook
	Callbacks map[string]*FuncContract
	Uses      []string
	Reveals   []string
	Lets      []namedExpr
	Guards    map[string]string // variable or Type.field -> lock name
	Shared    *SharedSpec
	Trusted   bool
	NoSafety  bool
	InlineAll bool
	Inlines   map[string]bool
	Elsewhere map[string]bool
	Pure      bool
	Kind      string // extern kinds: contract, pure, havoc, noop, fatal
	ParamN    []string
	ResN      []string
	Timeout   int
	Pos       string
	Note      string
	CoverOff  bool
	isExtern  bool
	View      bool
	Seq       []string // channel terms run sequentially
}

// SharedSpec says what goroutines share under a lock.
type SharedSpec struct {
	Lock    string
	Mods    []ast.Expr // memory other goroutines may change: var(x), contents(m), heap(T)
	Ghosts  []string   // ghost variables any of them may change
	Slots   []string   // ghost arrays of which each changes its own element
	Thread  ast.Expr   // which element is a goroutine's own, at its go statement
	Foreign []ast.Expr // references that cannot be to what the goroutine itself made before
	Invs    []clause
}

type namedExpr struct {
	Name string
	Expr ast.Expr
}

func (fc *FuncContract) loopSpec(n int) *LoopSpec {
	if fc == nil {
		return nil
	}
	return fc.Loops[n]
}

type Define struct {
	Name   string
	Params []string
	Body   ast.Expr
}

type UFun struct {
	Name   string
	Args   []string
	Ret    string
	Alias  string
	Params []string
	Body   ast.Expr // opaque definition, used where revealed
}

type Lemma struct {
	Seq      int // a lemma may rely only on those stated before it
	Name     string
	Alias    string
	Params   []sigParam
	Props    []string
	Requires []clause
	Ensures  []clause
	Induct   string
	Trig     []ast.Expr
	Uses     []string
	Reveals  []string
	Applies  []clause
	Axiom    bool
	Timeout  int
	Pos      string
	Note     string
}

type Contracts struct {
	Funcs   map[string]*FuncContract
	Order   []string
	Externs map[string]*FuncContract
	Defines map[string]*Define
	UFuns   map[string]*UFun
	Lemmas  map[string]*Lemma
	LemOrd  []string
	Ghosts  map[string]string // global ghosts: name -> type
	P       *Program
}

var aliases = map[string]string{
	"binvox":  modPath + "/binvox",
	"vshell":  modPath + "/vshell",
	"stl":     modPath + "/stl",
	"sstl":    modPath + "/stl2svx/stl",
	"agent":   modPath + "/stl2svx/agent",
	"master":  modPath + "/stl2svx/master",
	"slave":   modPath + "/server/stldice-slave",
	"voxcut":  modPath + "/cmd/voxcut",
	"svx2stl": modPath + "/cmd/svx2stl",
	"dice":    modPath + "/cmd/stldice",
	"dicemr":  modPath + "/cmd/stldice-mr",
	"gl":      "github.com/fogleman/fauxgl",
}

// expandName turns alias:rest into the SSA function name.
func expandName(s string) (name, alias string) {
	i := strings.Index(s, ":")
	if i < 0 {
		return s, ""
	}
	alias = s[:i]
	rest := s[i+1:]
	path, ok := aliases[alias]
	if !ok {
		return s, ""
	}
	if strings.HasPrefix(rest, "(*") {
		return "(*" + path + "." + rest[2:], alias
	}
	if strings.HasPrefix(rest, "(") {
		return "(" + path + "." + rest[1:], alias
	}
	return path + "." + rest, alias
}

var topWords = map[string]bool{"func": true, "extern": true, "ufun": true, "define": true, "lemma": true, "axiom": true, "ghostvar": true, "opaque": true}
var clauseWords = map[string]bool{"props": true, "requires": true, "ensures": true, "assumes": true, "modifies": true, "loop": true, "ghost": true, "on": true,
	"use": true, "let": true, "guard": true, "trusted": true, "nosafety": true, "inline": true, "callback": true, "induct": true, "trig": true, "timeout": true, "note": true, "apply": true, "nocover": true, "reveal": true, "callinv": true, "elsewhere": true, "shared": true}

type rawLine struct {
	text string
	pos  string
}

func parseContracts(dir string, P *Program) (*Contracts, error) {
	C := &Contracts{Funcs: map[string]*FuncContract{}, Externs: map[string]*FuncContract{}, Defines: map[string]*Define{}, UFuns: map[string]*UFun{}, Lemmas: map[string]*Lemma{}, Ghosts: map[string]string{}, P: P}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := C.parseFile(filepath.Base(f), string(b)); err != nil {
			return nil, err
		}
	}
	return C, nil
}

func (C *Contracts) parseFile(name, src string) error {
	var lines []rawLine
	for i, l := range strings.Split(src, "\n") {
		if j := strings.Index(l, "//"); j >= 0 {
			l = l[:j]
		}
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		w := firstWord(t)
		indented := l[0] == ' ' || l[0] == '\t'
		if !indented && topWords[w] || indented && clauseWords[w] {
			lines = append(lines, rawLine{t, fmt.Sprintf("%s:%d", name, i+1)})
		} else {
			if len(lines) == 0 {
				return fmt.Errorf("%s:%d: unexpected %q", name, i+1, t)
			}
			lines[len(lines)-1].text += " " + t
		}
	}
	var fc *FuncContract
	var lem *Lemma
	var cb *FuncContract
	for _, ln := range lines {
		w := firstWord(ln.text)
		rest := strings.TrimSpace(ln.text[len(w):])
		fail := func(err error) error { return fmt.Errorf("%s: %v: %q", ln.pos, err, ln.text) }
		if topWords[w] {
			fc, lem, cb = nil, nil, nil
		}
		switch w {
		case "func":
			// a view "name #label" is a further contract of the same function, with the same preconditions
			view := ""
			if i := strings.Index(rest, " #"); i > 0 {
				view = rest[i:]
			}
			full, al := expandName(strings.TrimSuffix(rest, view))
			n := full + view
			fc = &FuncContract{Name: full, Short: rest, Alias: al, Loops: map[int]*LoopSpec{}, Callbacks: map[string]*FuncContract{}, Guards: map[string]string{}, Inlines: map[string]bool{}, Elsewhere: map[string]bool{}, Kind: "contract", Pos: ln.pos}
			if C.Funcs[n] != nil {
				return fail(fmt.Errorf("duplicate contract"))
			}
			if view != "" {
				base := C.Funcs[full]
				if base == nil {
					return fail(fmt.Errorf("view of a function without contract"))
				}
				fc.Requires = append(fc.Requires, base.Requires...)
				fc.Assumes = append(fc.Assumes, base.Assumes...)
				fc.Lets = append(fc.Lets, base.Lets...)
				for n, l := range base.Loops {
					fc.Loops[n] = &LoopSpec{Writes: l.Writes, NoFrame: l.NoFrame, Unroll: l.Unroll, Name: l.Name}
				}
				for _, g := range base.Ghosts {
					if base.constGhost(g) {
						fc.Ghosts = append(fc.Ghosts, g)
					}
				}
				fc.Shared = base.Shared
				for n := range base.Elsewhere {
					fc.Elsewhere[n] = true
				}
				for n := range base.Inlines {
					fc.Inlines[n] = true
				}
				fc.View = true
			}
			C.Funcs[n] = fc
			C.Order = append(C.Order, n)
		case "extern":
			kind := firstWord(rest)
			switch kind {
			case "pure", "havoc", "noop", "fatal", "fresh", "error":
				for _, n := range strings.Fields(rest)[1:] {
					nm, _ := expandName(n)
					if o := C.Externs[nm]; o != nil && o.Kind != kind {
						return fail(fmt.Errorf("extern %s given twice", nm))
					}
					C.Externs[nm] = &FuncContract{Name: nm, Short: n, Kind: kind, Pos: ln.pos, isExtern: true}
				}
			default:
				// extern name(params)(results)
				m := regexp.MustCompile(`^(.*?)\s+\(([^()]*)\)\s*\(([^()]*)\)$`).FindStringSubmatch(rest)
				if m == nil {
					return fail(fmt.Errorf("extern syntax"))
				}
				nm, al := expandName(m[1])
				fc = &FuncContract{Name: nm, Short: m[1], Alias: al, Kind: "contract", Loops: map[int]*LoopSpec{}, Callbacks: map[string]*FuncContract{}, Guards: map[string]string{}, Inlines: map[string]bool{}, Elsewhere: map[string]bool{}, Pos: ln.pos, isExtern: true, Trusted: true}
				fc.ParamN = splitComma(m[2])
				fc.ResN = splitComma(m[3])
				if C.Externs[nm] != nil {
					return fail(fmt.Errorf("extern %s given twice", nm))
				}
				C.Externs[nm] = fc
			}
		case "ufun":
			m := regexp.MustCompile(`^(\w+)\(([^()]*)\)\s*(\S+)$`).FindStringSubmatch(rest)
			if m == nil {
				return fail(fmt.Errorf("ufun syntax"))
			}
			if C.UFuns[m[1]] != nil || C.Defines[m[1]] != nil {
				return fail(fmt.Errorf("%s defined twice", m[1]))
			}
			C.UFuns[m[1]] = &UFun{Name: m[1], Args: splitComma(m[2]), Ret: m[3]}
		case "opaque": // opaque name(p type, ...) result [alias] = expr
			m := regexp.MustCompile(`^(\w+)\(([^()]*)\)\s*(\S+)\s*(\w*)\s*=\s*(.*)$`).FindStringSubmatch(rest)
			if m == nil {
				return fail(fmt.Errorf("opaque syntax"))
			}
			e, err := parser.ParseExpr(m[5])
			if err != nil {
				return fail(err)
			}
			u := &UFun{Name: m[1], Ret: m[3], Alias: m[4], Body: e}
			for _, p := range splitComma(m[2]) {
				f := strings.Fields(p)
				t := "int"
				if len(f) > 1 {
					t = f[1]
				}
				u.Params = append(u.Params, f[0])
				u.Args = append(u.Args, t)
			}
			if C.UFuns[m[1]] != nil || C.Defines[m[1]] != nil {
				return fail(fmt.Errorf("%s defined twice", m[1]))
			}
			C.UFuns[m[1]] = u
		case "ghostvar":
			f := strings.Fields(strings.ReplaceAll(rest, ",", " "))
			if C.Ghosts[f[0]] != "" {
				return fail(fmt.Errorf("%s defined twice", f[0]))
			}
			C.Ghosts[f[0]] = f[1]
		case "define":
			m := regexp.MustCompile(`^(\w+)\(([^()]*)\)\s*=\s*(.*)$`).FindStringSubmatch(rest)
			if m == nil {
				return fail(fmt.Errorf("define syntax"))
			}
			e, err := parser.ParseExpr(m[3])
			if err != nil {
				return fail(err)
			}
			if C.Defines[m[1]] != nil || C.UFuns[m[1]] != nil {
				return fail(fmt.Errorf("%s defined twice", m[1]))
			}
			C.Defines[m[1]] = &Define{Name: m[1], Params: splitComma(m[2]), Body: e}
		case "lemma", "axiom":
			m := regexp.MustCompile(`^(\w+)\(([^()]*)\)\s*(\w*)$`).FindStringSubmatch(rest)
			if m == nil {
				return fail(fmt.Errorf("lemma syntax"))
			}
			if C.Lemmas[m[1]] != nil {
				return fail(fmt.Errorf("%s defined twice", m[1]))
			}
			lem = &Lemma{Name: m[1], Alias: m[3], Axiom: w == "axiom", Pos: ln.pos}
			for _, p := range splitComma(m[2]) {
				f := strings.Fields(p)
				t := "int"
				if len(f) > 1 {
					t = f[1]
				}
				lem.Params = append(lem.Params, sigParam{f[0], t})
			}
			lem.Seq = len(C.Lemmas)
			C.Lemmas[m[1]] = lem
			C.LemOrd = append(C.LemOrd, m[1])
		default:
			var err error
			if lem != nil {
				err = C.lemmaClause(lem, w, rest, ln.pos)
			} else if fc != nil {
				if w == "callback" {
					m := regexp.MustCompile(`^(\w+)\s*\(([^()]*)\)\s*\(([^()]*)\)$`).FindStringSubmatch(rest)
					if m == nil {
						return fail(fmt.Errorf("callback syntax"))
					}
					cb = &FuncContract{Name: m[1], Short: m[1], Alias: fc.Alias, Kind: "contract", ParamN: splitComma(m[2]), ResN: splitComma(m[3]), Loops: map[int]*LoopSpec{}, Callbacks: map[string]*FuncContract{}, Guards: map[string]string{}, Pos: ln.pos, isExtern: true, Trusted: true}
					fc.Callbacks[m[1]] = cb
					fc.Callbacks["."] = cb
					continue
				}
				if strings.HasPrefix(rest, "cb ") && cb != nil { // "ensures cb ..." belongs to the last callback
					err = C.funcClause(cb, w, strings.TrimSpace(rest[3:]), ln.pos)
				} else {
					err = C.funcClause(fc, w, rest, ln.pos)
				}
			} else {
				err = fmt.Errorf("clause outside a block")
			}
			if err != nil {
				return fail(err)
			}
		}
	}
	return nil
}

func firstWord(s string) string {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c >= '0' && c <= '9') {
			return s[:i]
		}
	}
	return s
}

func splitComma(s string) []string {
	var out []string
	for _, p := range strings.Split(s, ",") {
		p = strings.TrimSpace(p)
		if p != "" {
			out = append(out, p)
		}
	}
	return out
}

var tagRE = regexp.MustCompile(`^\[([\w ,.-]+)\]\s*`)
var byRE = regexp.MustCompile(`^\[([\w.-]+)\s*<([\w@ ,.-]*)\]\s*`)
var propRE = regexp.MustCompile(`^C\d\d$`)

// parseClause parses "[label] [C01,C02] expr".
func parseClause(s, pos string) (clause, error) {
	c := clause{Pos: pos}
	for {
		if m := byRE.FindStringSubmatch(s); m != nil {
			s = s[len(m[0]):]
			c.Lab = m[1]
			c.By = append([]string{}, strings.Fields(strings.ReplaceAll(m[2], ",", " "))...)
			continue
		}
		m := tagRE.FindStringSubmatch(s)
		if m == nil {
			break
		}
		s = s[len(m[0]):]
		parts := splitComma(m[1])
		if len(parts) > 0 && propRE.MatchString(parts[0]) {
			c.Props = parts
		} else {
			c.Lab = m[1]
		}
	}
	e, err := parser.ParseExpr(s)
	if err != nil {
		return c, err
	}
	c.Expr, c.Src = e, s
	return c, nil
}

func (C *Contracts) lemmaClause(l *Lemma, w, rest, pos string) error {
	switch w {
	case "props":
		l.Props = strings.Fields(strings.ReplaceAll(rest, ",", " "))
	case "requires", "ensures":
		c, err := parseClause(rest, pos)
		if err != nil {
			return err
		}
		if w == "requires" {
			l.Requires = append(l.Requires, c)
		} else {
			l.Ensures = append(l.Ensures, c)
		}
	case "induct":
		l.Induct = rest
	case "trig":
		e, err := parser.ParseExpr("f(" + rest + ")")
		if err != nil {
			return err
		}
		l.Trig = append(l.Trig, e.(*ast.CallExpr).Args...)
	case "use":
		l.Uses = append(l.Uses, strings.Fields(rest)...)
	case "reveal":
		l.Reveals = append(l.Reveals, strings.Fields(rest)...)
	case "apply":
		c, err := parseClause(rest, pos)
		if err != nil {
			return err
		}
		l.Applies = append(l.Applies, c)
	case "timeout":
		fmt.Sscan(rest, &l.Timeout)
	case "note":
		l.Note += rest
	default:
		return fmt.Errorf("clause %s not allowed in a lemma", w)
	}
	return nil
}

func (C *Contracts) funcClause(fc *FuncContract, w, rest, pos string) error {
	switch w {
	case "props":
		fc.Props = strings.Fields(strings.ReplaceAll(rest, ",", " "))
	case "requires", "ensures", "assumes":
		c, err := parseClause(rest, pos)
		if err != nil {
			return err
		}
		switch w {
		case "requires":
			fc.Requires = append(fc.Requires, c)
		case "ensures":
			fc.Ensures = append(fc.Ensures, c)
		default:
			fc.Assumes = append(fc.Assumes, c)
		}
	case "modifies":
		e, err := parser.ParseExpr("f(" + rest + ")")
		if err != nil {
			return err
		}
		for _, a := range e.(*ast.CallExpr).Args {
			if id, ok := a.(*ast.Ident); ok {
				fc.ModGhost = append(fc.ModGhost, id.Name)
				continue
			}
			fc.Modifies = append(fc.Modifies, a)
		}
	case "ghost":
		m := regexp.MustCompile(`^(\w+)\s+(\S+)(\s*=\s*(.*))?$`).FindStringSubmatch(rest)
		if m == nil {
			return fmt.Errorf("ghost syntax")
		}
		g := ghostDecl{Name: m[1], Type: m[2]}
		if m[4] != "" {
			e, err := parser.ParseExpr(m[4])
			if err != nil {
				return err
			}
			g.Init = e
		}
		fc.Ghosts = append(fc.Ghosts, g)
	case "loop":
		// loop N: inv|assume|writes|unroll|name|apply ...
		i := strings.Index(rest, ":")
		if i < 0 {
			return fmt.Errorf("loop syntax")
		}
		var n int
		fmt.Sscan(rest[:i], &n)
		ls := fc.Loops[n]
		if ls == nil {
			ls = &LoopSpec{}
			fc.Loops[n] = ls
		}
		body := strings.TrimSpace(rest[i+1:])
		k := firstWord(body)
		body = strings.TrimSpace(body[len(k):])
		switch k {
		case "unroll":
			ls.Unroll = true
		case "noframe":
			ls.NoFrame = true
		case "name":
			ls.Name = body
		case "inv", "assume", "apply":
			c, err := parseClause(body, pos)
			if err != nil {
				return err
			}
			switch k {
			case "inv":
				ls.Invs = append(ls.Invs, c)
			case "assume":
				ls.Assume = append(ls.Assume, c)
			default:
				ls.Applies = append(ls.Applies, c)
			}
		case "writes":
			e, err := parser.ParseExpr("f(" + body + ")")
			if err != nil {
				return err
			}
			ls.Writes = append(ls.Writes, e.(*ast.CallExpr).Args...)
		default:
			return fmt.Errorf("loop clause %q", k)
		}
	case "on":
		// on call NAME(params): act; act
		i := strings.Index(rest, "):")
		if i < 0 {
			return fmt.Errorf("hook syntax")
		}
		head, body := rest[:i+1], rest[i+2:]
		ev := firstWord(head)
		head = strings.TrimSpace(head[len(ev):])
		j := strings.LastIndex(head, "(")
		h := &Hook{Event: ev, Target: strings.TrimSpace(head[:j]), Params: splitComma(head[j+1 : len(head)-1])}
		h.Target, _ = expandName(h.Target)
		for _, a := range strings.Split(body, ";") {
			a = strings.TrimSpace(a)
			if a == "" {
				continue
			}
			k := firstWord(a)
			a = strings.TrimSpace(a[len(k):])
			act := hookAct{Kind: k}
			if k == "set" {
				m := regexp.MustCompile(`^(\w+)\s*=\s*(.*)$`).FindStringSubmatch(a)
				if m == nil {
					return fmt.Errorf("set syntax")
				}
				act.Ghost = m[1]
				a = m[2]
			}
			c, err := parseClause(a, pos)
			if err != nil {
				return err
			}
			act.clause = c
			h.Acts = append(h.Acts, act)
		}
		fc.Hooks = append(fc.Hooks, h)
	case "use":
		fc.Uses = append(fc.Uses, strings.Fields(rest)...)
	case "apply": // a lemma instance at the start
		c, err := parseClause(rest, pos)
		if err != nil {
			return err
		}
		fc.Applies = append(fc.Applies, c)
	case "reveal":
		fc.Reveals = append(fc.Reveals, strings.Fields(rest)...)
	case "let":
		m := regexp.MustCompile(`^(\w+)\s*=\s*(.*)$`).FindStringSubmatch(rest)
		if m == nil {
			return fmt.Errorf("let syntax")
		}
		e, err := parser.ParseExpr(m[2])
		if err != nil {
			return err
		}
		fc.Lets = append(fc.Lets, namedExpr{m[1], e})
	case "guard":
		f := strings.Fields(rest) // guard X by L
		if len(f) != 3 || f[1] != "by" {
			return fmt.Errorf("guard syntax")
		}
		fc.Guards[f[0]] = f[2]
	case "trusted":
		fc.Trusted = true
	case "nosafety":
		fc.NoSafety = true
	case "nocover":
		fc.CoverOff = true
	case "inline":
		for _, n := range strings.Fields(rest) {
			nm, _ := expandName(n)
			fc.Inlines[nm] = true
		}
	case "shared": // shared LOCK: inv|writes|ghosts|slots|foreign ...
		i := strings.Index(rest, ":")
		if i < 0 {
			return fmt.Errorf("shared syntax")
		}
		if fc.Shared == nil {
			fc.Shared = &SharedSpec{Lock: strings.TrimSpace(rest[:i])}
		}
		body := strings.TrimSpace(rest[i+1:])
		k := firstWord(body)
		body = strings.TrimSpace(body[len(k):])
		list := func(s string) ([]ast.Expr, error) {
			e, err := parser.ParseExpr("f(" + s + ")")
			if err != nil {
				return nil, err
			}
			return e.(*ast.CallExpr).Args, nil
		}
		var err error
		switch k {
		case "inv":
			c, err := parseClause(body, pos)
			if err != nil {
				return err
			}
			fc.Shared.Invs = append(fc.Shared.Invs, c)
		case "writes":
			fc.Shared.Mods, err = list(body)
		case "foreign":
			fc.Shared.Foreign, err = list(body)
		case "ghosts":
			fc.Shared.Ghosts = splitComma(body)
		case "slots":
			j := strings.LastIndex(body, " by ")
			if j < 0 {
				return fmt.Errorf("slots ... by ...")
			}
			fc.Shared.Slots = splitComma(body[:j])
			fc.Shared.Thread, err = parser.ParseExpr(body[j+4:])
		default:
			err = fmt.Errorf("shared clause %q", k)
		}
		if err != nil {
			return err
		}
	case "elsewhere": // the contracts of these callees are discharged by the checks of their own properties
		for _, n := range strings.Fields(rest) {
			nm, _ := expandName(n)
			fc.Elsewhere[nm] = true
		}
	case "timeout":
		fmt.Sscan(rest, &fc.Timeout)
	case "note":
		fc.Note += rest
	default:
		return fmt.Errorf("clause %s not allowed", w)
	}
	return nil
}

// constGhost: a ghost that stands for a fixed unknown value, described by the assumptions.
func (fc *FuncContract) constGhost(g ghostDecl) bool {
	if g.Init != nil || contains(fc.ModGhost, g.Name) {
		return false
	}
	for _, h := range fc.Hooks {
		for _, a := range h.Acts {
			if a.Kind == "set" && a.Ghost == g.Name {
				return false
			}
		}
	}
	return true
}
