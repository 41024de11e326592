package main

// The check of one property: proof obligations from /repo's current source, plus the search for a
// failing input on the real code (in-package tests laid over /repo with go test -overlay).

import (
	"context"
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

type finding struct{ prop, key, what string }

func knownFindings(file, prop string) []finding {
	f, err := os.Open(file)
	if err != nil {
		return nil
	}
	defer f.Close()
	re := regexp.MustCompile(`^KNOWN-FINDING: property=(\S+) key=(\S+) (.*)$`)
	var out []finding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		if m := re.FindStringSubmatch(strings.TrimSpace(sc.Text())); m != nil && m[1] == prop {
			out = append(out, finding{m[1], m[2], m[3]})
		}
	}
	return out
}

type harnessResult struct {
	Ran      bool
	Cmd      string
	Note     string
	Cases    int
	Distinct int
	Rules    []string
	Samples  []string
	Fails    []hfail
	Secs     float64
	Exhaust  []string
	Dropped  []string
}

type hfail struct{ Key, Desc string }

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// runHarness lays the property's test files over the repository's packages and runs them.
func runHarness(verif, repo, prop, tier string, seed int, limit time.Duration) harnessResult {
	var h harnessResult
	start := time.Now()
	dir := filepath.Join(verif, "harness", prop)
	byPkg := map[string][]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, "_test.go") {
			rel, _ := filepath.Rel(dir, filepath.Dir(p))
			byPkg[rel] = append(byPkg[rel], p)
		}
		return nil
	})
	if len(byPkg) == 0 {
		return h
	}
	kit, err := os.ReadFile(filepath.Join(verif, "harness", "kit.go.txt"))
	if err != nil {
		h.Note = err.Error()
		return h
	}
	tmp, err := os.MkdirTemp("", "govc-harness-")
	if err != nil {
		h.Note = err.Error()
		return h
	}
	defer os.RemoveAll(tmp)
	for _, pkg := range sortedKeys(byPkg) {
		files := byPkg[pkg]
		for try := 0; try < 4 && len(files) > 0; try++ {
			name := ""
			for _, l := range strings.Split(mustRead(files[0]), "\n") {
				if strings.HasPrefix(l, "package ") {
					name = strings.TrimSpace(strings.TrimPrefix(l, "package "))
					break
				}
			}
			kf := filepath.Join(tmp, strings.ReplaceAll(pkg, "/", "_")+"_kit_test.go")
			os.WriteFile(kf, append([]byte("package "+name+"\n"), kit...), 0o644)
			ov := map[string]map[string]string{"Replace": {filepath.Join(repo, pkg, "zz_kit_verif_test.go"): kf}}
			for i, f := range files {
				ov["Replace"][filepath.Join(repo, pkg, fmt.Sprintf("zz_verif%d_test.go", i))] = f
			}
			oj, _ := json.Marshal(ov)
			of := filepath.Join(tmp, "overlay.json")
			os.WriteFile(of, oj, 0o644)
			outf := filepath.Join(tmp, fmt.Sprintf("out-%s-%d", strings.ReplaceAll(pkg, "/", "_"), try))
			args := []string{"test", "-overlay", of, "-vet=off", "-count=1", "-timeout", fmt.Sprintf("%ds", int(limit.Seconds())), "-run", "^TestVerif", "./" + pkg}
			if fileHas(files, "//verif:race") {
				args = append(args[:1], append([]string{"-race"}, args[1:]...)...)
			}
			h.Cmd = fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s go %s", seed, tier, strings.Join(args, " "))
			ctx, cancel := context.WithTimeout(context.Background(), limit+60*time.Second)
			defer cancel()
			cmd := exec.CommandContext(ctx, "go", args...)
			cmd.WaitDelay = 5 * time.Second
			cmd.Dir = repo
			cmd.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off",
				"VERIF_SEED="+strconv.Itoa(seed), "VERIF_TIER="+tier, "VERIF_OUT="+outf, "VERIF_SCRATCH="+tmp)
			if fileHas(files, "//verif:race") {
				cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
			}
			var buf bytes.Buffer
			cmd.Stdout, cmd.Stderr = &buf, &buf
			rerr := cmd.Run()
			out := buf.String()
			if rerr != nil && (strings.Contains(out, "[build failed]") || strings.Contains(out, "[setup failed]")) {
				var keep []string
				for i, f := range files {
					if strings.Contains(out, fmt.Sprintf("zz_verif%d_test.go", i)) || strings.Contains(out, filepath.Base(f)) {
						h.Dropped = append(h.Dropped, filepath.Base(f)+": "+firstLines(out, 6))
					} else {
						keep = append(keep, f)
					}
				}
				if len(keep) == len(files) {
					h.Note += "harness does not build: " + firstLines(out, 20)
					break
				}
				files = keep
				continue
			}
			h.Ran = true
			done := h.readOut(outf)
			if !done {
				key := "crash"
				if strings.Contains(out, "panic: test timed out") {
					key = "hang"
				}
				h.Fails = append(h.Fails, hfail{key, "the code under test ended the harness: " + lastLines(out, 60)})
			}
			if strings.Contains(out, "WARNING: DATA RACE") {
				h.Fails = append(h.Fails, hfail{"race", firstLines(out[strings.Index(out, "WARNING: DATA RACE"):], 50)})
			}
			break
		}
	}
	h.Secs = time.Since(start).Seconds()
	return h
}

func mustRead(f string) string {
	b, err := os.ReadFile(f)
	if err != nil {
		return ""
	}
	return string(b)
}

func fileHas(files []string, s string) bool {
	for _, f := range files {
		if strings.Contains(mustRead(f), s) {
			return true
		}
	}
	return false
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func lastLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return strings.Join(l, "\n")
}

// readOut reads what the harness wrote; false if it did not come to its end.
func (h *harnessResult) readOut(f string) bool {
	done := false
	b, err := os.ReadFile(f)
	if err != nil {
		return false
	}
	for _, l := range strings.Split(string(b), "\n") {
		var m struct {
			T, Key, S string
			N, D      int
		}
		if json.Unmarshal([]byte(l), &m) != nil {
			continue
		}
		switch m.T {
		case "fail":
			h.Fails = append(h.Fails, hfail{m.Key, m.S})
		case "count":
			h.Cases += m.N
			h.Distinct += m.D
			h.Rules = append(h.Rules, m.S)
		case "exhaustive":
			h.Exhaust = append(h.Exhaust, m.S)
		case "sample":
			h.Samples = append(h.Samples, m.S)
		case "done":
			done = true
		}
	}
	return done
}

var trustedBase = []string{
	"the govc condition generator in /verif/govc (go/ssa form of /repo's source to SMT-LIB)",
	"golang.org/x/tools/go/ssa and go/packages", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2",
	"int and int64 are mathematical integers (no overflow); 8-, 16- and 32-bit unsigned integers wrap",
	"float64 and float32 are real numbers (no rounding, no NaN or infinity); integer conversions truncate",
	"the Go compiler, runtime and memory model for properly locked code",
}

func checkProp(args map[string]string) int {
	prop, tier, repo, verif := args["prop"], args["tier"], args["repo"], args["verif"]
	start := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if t := os.Getenv("VERIF_TIER"); t != "" {
		tier = t
	}
	limit := 240 * time.Second
	budget := 420 * time.Second
	if tier == "thorough" {
		limit, budget = 540*time.Second, 780*time.Second
		defaultTimeout = 60
	}
	hardStop = start.Add(budget + 240*time.Second)
	if tier == "thorough" {
		hardStop = start.Add(budget + 60*time.Second)
	}
	hch := make(chan harnessResult, 1)
	go func() { hch <- runHarness(verif, repo, prop, tier, seed, limit) }()

	type bad struct{ key, text string }
	var bads []bad
	P, err := load(repo)
	if err != nil {
		fmt.Println("cannot load the repository:", err)
		return 2
	}
	C, err := parseContracts(filepath.Join(verif, "contracts"), P)
	if err != nil {
		fmt.Println("contracts:", err)
		return 2
	}
	var results []*FuncResult
	done := map[string]bool{}
	var queue []string
	for _, n := range C.Order {
		if contains(C.Funcs[n].Props, prop) {
			queue = append(queue, n)
		}
	}
	direct := map[string]bool{}
	for _, n := range queue {
		direct[C.Funcs[n].Short] = true
	}
	var lq []string
	for _, n := range C.LemOrd {
		if contains(C.Lemmas[n].Props, prop) {
			lq = append(lq, n)
		}
	}
	var assumptions []string
	add := func(l *[]string, s string) {
		if !contains(*l, s) {
			*l = append(*l, s)
		}
	}
	trusted := append([]string(nil), trustedBase...)
	short := map[string]string{}
	for n, fc := range C.Funcs {
		short[fc.Short] = n
	}
	for len(queue) > 0 || len(lq) > 0 {
		if len(queue) > 0 {
			n := queue[0]
			queue = queue[1:]
			if done[n] {
				continue
			}
			done[n] = true
			fc := C.Funcs[n]
			if fc.Trusted {
				add(&trusted, "trusted contract of "+fc.Short)
				continue
			}
			if fc.View {
				queue = append(queue, fc.Name)
			}
			fr := verifyFunc(P, C, fc)
			results = append(results, fr)
			for _, u := range fr.Used {
				if m, ok := short[u]; ok {
					u = m
				}
				if C.Funcs[u] == nil {
					continue
				}
				if base, _, _ := strings.Cut(u, " #"); fc.Elsewhere[base] {
					add(&assumptions, "contract of "+C.Funcs[u].Short+": discharged by the checks of "+strings.Join(C.Funcs[u].Props, ", "))
					continue
				}
				queue = append(queue, u)
			}
			lq = append(lq, fr.Lemmas...)
			for _, a := range fr.Assumes {
				add(&assumptions, fc.Short+" assumes: "+a)
			}
			if fc.NoSafety {
				add(&assumptions, fc.Short+": index, nil and division safety not checked")
			}
			continue
		}
		n := lq[0]
		lq = lq[1:]
		l := C.Lemmas[n]
		if l == nil || done["lemma "+n] {
			continue
		}
		done["lemma "+n] = true
		if l.Axiom {
			add(&assumptions, "axiom "+n)
			continue
		}
		fr := verifyLemma(P, C, l)
		results = append(results, fr)
		lq = append(lq, fr.Lemmas...)
	}
	var all []*Obligation
	for _, fr := range results {
		for _, o := range fr.Obls {
			if len(o.Props) > 0 && !contains(o.Props, prop) {
				continue
			}
			all = append(all, o)
		}
		for _, t := range fr.Trusted {
			add(&trusted, t)
		}
		if fr.Err != "" {
			bads = append(bads, bad{fr.Name + "/reach", "the function no longer fits its contract: " + fr.Err})
		}
	}
	solveStart := time.Now()
	rs := solveAll(all, runtime.NumCPU(), start.Add(budget))
	solveWall := time.Since(solveStart).Seconds()
	proved, covers, coverOK := 0, 0, 0
	solverN := map[string]int{}
	solverSecs := 0.0
	slow := 0.0
	slowName := ""
	for _, r := range rs {
		solverSecs += r.Secs
		if r.Secs > slow {
			slow, slowName = r.Secs, r.O.Name
		}
		if r.O.Cover {
			covers++
			if r.Status == "proved" {
				coverOK++
			} else {
				bads = append(bads, bad{r.O.Name, "vacuous: " + r.Model})
			}
			continue
		}
		if r.Status == "proved" {
			proved++
			solverN[r.Solver]++
			continue
		}
		bads = append(bads, bad{r.O.Name, fmt.Sprintf("%s at %s by %s after %.1fs\n%s", r.Status, r.O.Pos, r.Solver, r.Secs, firstLines(r.Model, 80))})
	}
	if len(results) == 0 && !fileExists(filepath.Join(verif, "harness", prop)) {
		fmt.Println("no contract for", prop)
		return 2
	}
	h := <-hch

	known := knownFindings(filepath.Join(verif, "known_findings.txt"), prop)
	isKnown := map[string]bool{}
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.what)
		isKnown[k.key] = true
	}
	var inputs []hfail
	suppressed := 0
	for _, f := range h.Fails {
		if isKnown[f.Key] {
			suppressed++
			continue
		}
		inputs = append(inputs, f)
	}
	var open []bad
	for _, b := range bads {
		if isKnown[b.key] {
			suppressed++
			continue
		}
		open = append(open, b)
	}

	var rep strings.Builder
	fmt.Fprintf(&rep, "property %s, tier %s, seed %d\n", prop, tier, seed)
	for _, f := range inputs {
		fmt.Fprintf(&rep, "\nFAILING INPUT on the real code [%s]\n%s\n", f.Key, f.Desc)
	}
	if h.Cmd != "" {
		fmt.Fprintf(&rep, "\nto replay: %s/bin/govc check -prop %s (the harness is run by: %s)\n", verif, prop, h.Cmd)
	}
	for _, b := range open {
		fmt.Fprintf(&rep, "\nFAILED OBLIGATION %s\n%s\n", b.key, b.text)
	}
	replay := filepath.Join(verif, "evidence", prop+".replay.txt")
	os.MkdirAll(filepath.Dir(replay), 0o755)
	viol := 0
	rc := 0
	if len(inputs) > 0 || len(open) > 0 {
		os.WriteFile(replay, []byte(rep.String()), 0o644)
		for i, b := range open {
			if i == 12 {
				fmt.Printf("  ... %d more\n", len(open)-i)
				break
			}
			fmt.Printf("  obligation not discharged: %s: %s\n", b.key, firstLines(b.text, 1))
		}
		for i, f := range inputs {
			if i < 8 {
				fmt.Printf("  failing input [%s] %s\n", f.Key, firstLines(f.Desc, 3))
			}
		}
		viol = len(inputs) + len(open)
		rc = 1
		if len(inputs) > 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, replay)
		}
	} else {
		os.Remove(replay)
	}

	var funcs, lemmas, inl []string
	per := map[string]int{}
	for _, fr := range results {
		if fr.Kind == "function" {
			funcs = append(funcs, fr.Name)
		} else {
			lemmas = append(lemmas, strings.TrimPrefix(fr.Name, "lemma "))
		}
		for _, i := range fr.Inlined {
			add(&inl, i)
		}
		for _, o := range fr.Obls {
			per[fr.Name+" "+o.Kind]++
		}
	}
	sort.Strings(inl)
	cov := map[string]any{
		"obligations":               len(rs) - covers,
		"discharged":                proved,
		"checker_cmd":               "./check.sh " + prop + " " + tier,
		"trusted_base":              trusted,
		"functions_under_contract":  funcs,
		"functions_inlined":         inl,
		"lemmas":                    lemmas,
		"vacuity_guards":            covers,
		"vacuity_guards_ok":         coverOK,
		"discharged_by":             solverN,
		"solver_cpu_s":              round1(solverSecs),
		"solve_wall_s":              round1(solveWall),
		"slowest_obligation":        fmt.Sprintf("%s (%.1fs)", slowName, slow),
		"obligation_kinds":          per,
		"known_findings_suppressed": suppressed,
	}
	if h.Ran || h.Note != "" || len(h.Dropped) > 0 {
		cov["evaluations"] = h.Cases
		cov["distinct_nontrivial"] = h.Distinct
		cov["rule"] = strings.Join(h.Rules, "; ")
		cov["samples"] = h.Samples
		cov["bounded_search"] = "real code run on generated inputs, checked against the property's oracle; bounded, never counted as proved"
		cov["bounded_search_wall_s"] = round1(h.Secs)
		if len(h.Exhaust) > 0 {
			cov["exhaustive_parts"] = h.Exhaust
		}
		if h.Note != "" || len(h.Dropped) > 0 {
			cov["bounded_search_note"] = h.Note + strings.Join(h.Dropped, "; ")
		}
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
		"assumptions": assumptions, "wall_s": round1(time.Since(start).Seconds()), "violations": viol}
	if assumptions == nil {
		ev["assumptions"] = []string{}
	}
	j, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(j, '\n'), 0o644)
	fmt.Printf("%s: %d/%d obligations discharged (%d functions, %d lemmas), %d cases run, %.1fs\n", prop, proved, len(rs)-covers, len(funcs), len(lemmas), h.Cases, time.Since(start).Seconds())
	return rc
}

func round1(f float64) float64 { return float64(int(f*10+0.5)) / 10 }

func fileExists(f string) bool { _, err := os.Stat(f); return err == nil }
