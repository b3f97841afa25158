package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strings"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		os.Exit(checkMain(os.Args[2:]))
	}
	if len(os.Args) > 1 && os.Args[1] == "root" {
		rootMain(os.Args[2:])
		return
	}
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("specs", "/verif/specs", "contract files")
	only := flag.String("fn", "", "verify only functions whose key contains this")
	prop := flag.String("prop", "", "property")
	dbg := flag.Bool("inv", false, "debug invariants")
	prof := flag.String("cpuprofile", "", "write a CPU profile")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	v, err := loadRepo(*repo, corePatterns)
	if err != nil {
		fmt.Println("LOAD-ERROR", err)
		os.Exit(2)
	}
	v.debugInv = *dbg
	db, err := loadSpecs(*specs)
	if err != nil {
		fmt.Println("SPEC-ERROR", err)
		os.Exit(2)
	}
	v.db = db
	var keys []string
	for k, c := range db.Contracts {
		if c.Trusted != "" || c.Inline {
			continue
		}
		if *prop != "" && !contains(c.Props, *prop) {
			continue
		}
		if *only != "" && !strings.Contains(k, *only) {
			continue
		}
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		r := v.verifyRoot(db.Contracts[k], 1)
		printRoot(r)
	}
	for _, n := range v.initNotes {
		fmt.Println("init:", n)
	}
	var as []string
	for a := range v.assumed {
		as = append(as, a)
	}
	sort.Strings(as)
	for _, a := range as {
		fmt.Println("assume:", a)
	}
	fmt.Printf("quick queries %d in %v; solver queries %d %v\n", qs.n, qs.time, nQueries, solverTime)
}

var corePatterns = []string{"./parse", "./parse/read", "./parse/skip", "./msgfmt", "./msgfmt/jsonfmt", "./reflect2", "./gls", "./concurrent", "./countlog", "./countlog/loglog", "./countlog/spi", "./countlog/stats", "./countlog/output", "./countlog/output/async", "./countlog/output/compact", "./countlog/output/hrf", "./countlog/output/json", "./countlog/output/lumberjack", "./countlog/output/printf", "./clock", "."}

func printRoot(r *RootResult) {
	st := "OK"
	if !r.OK() {
		st = "FAIL"
	}
	if r.Missing {
		st = "MISSING"
	}
	fmt.Printf("%-7s %s: %d obligations, %d failed, exits %d, panic-exits %d, %.1fs\n", st, r.Key, len(r.Obls), len(r.Failed()), r.Exits, r.Panics, r.Wall)
	if r.Unsupported != "" {
		fmt.Println("   unsupported:", r.Unsupported)
	}
	if r.SpecErr != "" {
		fmt.Println("   spec error:", r.SpecErr)
	}
	if r.Vacuous != "" {
		fmt.Println("   vacuous:", r.Vacuous)
	}
	for _, f := range r.TermFails {
		fmt.Println("   termination not shown:", f)
	}
	for _, f := range r.Loops {
		fmt.Println("   loop", f)
	}
	for _, f := range r.Lost {
		fmt.Println("   lost", f)
	}
	for _, o := range r.Failed() {
		fmt.Printf("   FAILED %s (%s by %s) goal %.1500s\n", o.Name, o.Res.Status, o.Res.Backend, o.Goal)
		if d := os.Getenv("GOVC_FAILDUMP"); d != "" {
			os.WriteFile(d+"/fail.smt2", []byte(o.Res.Script), 0644)
		}
	}
}
