package main

import (
	"flag"
	"fmt"
	"os"
	"time"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		m := map[string]*string{
			"prop": fs.String("prop", "", ""), "tier": fs.String("tier", "quick", ""),
			"repo": fs.String("repo", "/repo", ""), "verif": fs.String("verif", "/verif", ""),
		}
		fs.Parse(os.Args[2:])
		a := map[string]string{}
		for k, v := range m {
			a[k] = *v
		}
		os.Exit(checkProp(a))
	}
	repo := flag.String("repo", "/repo", "")
	dir := flag.String("contracts", "/verif/contracts", "")
	fn := flag.String("func", "", "verify only this function or lemma (contract name)")
	flag.BoolVar(&debugPanics, "debug", false, "")
	dump := flag.String("dump", "", "print the SSA form of a function")
	flag.IntVar(&defaultTimeout, "timeout", 20, "")
	verbose := flag.Bool("v", false, "")
	flag.Parse()
	P, err := load(*repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if *dump != "" {
		n, _ := expandName(*dump)
		if f := P.byName[n]; f != nil {
			f.WriteTo(os.Stdout)
		}
		return
	}
	C, err := parseContracts(*dir, P)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for _, n := range C.Order {
		fc := C.Funcs[n]
		if *fn != "" && fc.Short != *fn {
			continue
		}
		report(verifyFunc(P, C, fc), *verbose)
	}
	for _, n := range C.LemOrd {
		l := C.Lemmas[n]
		if *fn != "" && n != *fn || l.Axiom {
			continue
		}
		report(verifyLemma(P, C, l), *verbose)
	}
}

func report(fr *FuncResult, verbose bool) {
	t := time.Now()
	rs := solveAll(fr.Obls, 8, time.Now().Add(time.Hour))
	bad := 0
	for _, r := range rs {
		if r.Status != "proved" {
			bad++
		}
		if r.Status != "proved" || verbose {
			fmt.Printf("  %-8s %-60s %s %.1fs %s\n", r.Status, r.O.Name, r.Solver, r.Secs, r.O.Pos)
			if verbose && r.Status == "failed" {
				m := r.Model
				if len(m) > 3000 {
					m = m[:3000]
				}
				fmt.Println(m)
			}
		}
	}
	st := "OK"
	if bad > 0 || fr.Err != "" {
		st = "FAIL"
	}
	fmt.Printf("%s %s: %d obligations, %d not proved, %.1fs %s\n", st, fr.Name, len(rs), bad, time.Since(t).Seconds(), fr.Err)
	if verbose {
		fmt.Println("  inlined", fr.Inlined, "used", fr.Used, "trusted", fr.Trusted, "lemmas", fr.Lemmas)
	}
}
