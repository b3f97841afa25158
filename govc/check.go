package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---------- one contract per child process ----------

type oblJSON struct {
	Name    string                 `json:"name"`
	Status  string                 `json:"status"`
	Backend string                 `json:"backend"`
	Wall    float64                `json:"wall"`
	Goal    string                 `json:"goal,omitempty"`
	Model   map[string]interface{} `json:"model,omitempty"`
	Output  string                 `json:"output,omitempty"`
}
type rootJSON struct {
	Key         string             `json:"key"`
	File        string             `json:"file"`
	OK          bool               `json:"ok"`
	Missing     bool               `json:"missing"`
	Unsupported string             `json:"unsupported,omitempty"`
	SpecErr     string             `json:"spec_error,omitempty"`
	Vacuous     string             `json:"vacuous,omitempty"`
	TermFails   []string           `json:"termination_not_shown,omitempty"`
	Obls        []oblJSON          `json:"obligations"`
	LoopFacts   int                `json:"loop_facts"`
	Loops       []string           `json:"loops,omitempty"`
	Lost        []string           `json:"lost,omitempty"`
	Terms       []string           `json:"termination,omitempty"`
	Exits       int                `json:"exits"`
	Panics      int                `json:"panic_exits"`
	Phase       int                `json:"phase"`
	Wall        float64            `json:"wall"`
	Inlined     []string           `json:"inlined"`
	Used        []string           `json:"used_contracts"`
	Assumed     []string           `json:"assumed"`
	TableRows   int                `json:"table_rows"`
	Notes       []string           `json:"notes,omitempty"`
	SolverTime  map[string]float64 `json:"solver_s"`
	Queries     int                `json:"queries"`
	TimedOut    bool               `json:"timed_out,omitempty"`
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func rootMain(args []string) {
	fs := flag.NewFlagSet("root", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	specs := fs.String("specs", "", "")
	key := fs.String("key", "", "")
	phase := fs.Int("phase", 1, "")
	out := fs.String("out", "", "")
	onlyCase := fs.Int("case", -1, "")
	fs.Parse(args)
	debug.SetGCPercent(200)
	emit := func(r *rootJSON) {
		b, _ := json.Marshal(r)
		os.WriteFile(*out, b, 0644)
	}
	v, err := loadRepo(*repo, corePatterns)
	if err != nil {
		emit(&rootJSON{Key: *key, SpecErr: "load: " + err.Error()})
		return
	}
	db, err := loadSpecs(*specs)
	if err != nil {
		emit(&rootJSON{Key: *key, SpecErr: "specs: " + err.Error()})
		return
	}
	v.db = db
	v.onlyCase = *onlyCase
	ct := db.Contracts[*key]
	if *phase > 1 {
		v.invTimeout, v.oblTimeout = 15*time.Second, 40*time.Second
		for k, c := range db.Contracts {
			if c.MayMiss && k != *key {
				delete(db.Contracts, k)
			}
		}
	}
	r := v.verifyRoot(ct, *phase)
	j := &rootJSON{Key: r.Key, File: ct.File, OK: r.OK() && !r.Missing, Missing: r.Missing, Unsupported: r.Unsupported, SpecErr: r.SpecErr, Vacuous: r.Vacuous,
		TermFails: r.TermFails, Loops: r.Loops, Lost: r.Lost, Terms: r.Term, Exits: r.Exits, Panics: r.Panics, Phase: *phase, Wall: r.Wall,
		LoopFacts: r.LoopFacts, TableRows: tableRows, Notes: append(v.initNotes, tableNotes...), SolverTime: solverTime, Queries: nQueries + qs.n}
	solverTime["z3-new (incremental)"] = qs.time.Seconds()
	j.Inlined = sortedKeys(v.inlined)
	j.Used = sortedKeys(v.usedC)
	j.Assumed = sortedKeys(v.assumed)
	models := 0
	for _, o := range r.Obls {
		oj := oblJSON{Name: o.Name, Status: o.Res.Status, Backend: o.Res.Backend, Wall: o.Res.Wall}
		if o.Res.Status != "unsat" {
			oj.Goal = o.Goal
			oj.Output = o.Res.Model
			if len(oj.Output) > 4000 {
				oj.Output = oj.Output[:4000]
			}
			if models < 4 {
				models++
				oj.Model = o.model(r.rc)
			}
		}
		j.Obls = append(j.Obls, oj)
	}
	emit(j)
}

func (o *Obligation) model(rc *RootCtx) map[string]interface{} {
	if rc == nil {
		return nil
	}
	var names []string
	var vals []*Term
	for _, p := range rc.params {
		switch x := p.v.(type) {
		case *Term:
			if x.sort == SInt && isIntT(p.T) || x.sort == SeqOf(SInt) {
				names = append(names, p.name)
				vals = append(vals, x)
			}
		case *SliceV:
			if sortOf(x.elem) == SInt {
				names = append(names, p.name)
				vals = append(vals, rc.entry.view(x))
			}
		}
	}
	if len(vals) == 0 {
		return nil
	}
	return modelOf(o.pc, o.goal, names, vals, 5*time.Second)
}

// ---------- check driver ----------

type harnessCfg struct {
	Pkg  string   `json:"pkg"`  // package directory relative to /repo
	File string   `json:"file"` // test file under /verif/harness
	Run  string   `json:"run"`
	Also []string `json:"also"` // further files of the same package the harness uses
}
type propCfg struct {
	Harness     []harnessCfg `json:"harness"`
	Bounded     []string     `json:"bounded"`
	Assumptions []string     `json:"assumptions"`
	Rule        string       `json:"rule"`
}

type finding struct{ prop, key, text string }

func loadFindings(path string) (known []finding, fixed []string) {
	b, _ := os.ReadFile(path)
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "known: ") {
			f := strings.SplitN(l[7:], " ", 3)
			if len(f) == 3 && strings.HasPrefix(f[0], "property=") && strings.HasPrefix(f[1], "key=") {
				known = append(known, finding{f[0][9:], f[1][4:], f[2]})
			}
		} else if strings.HasPrefix(l, "fixed: ") {
			fixed = append(fixed, l)
		}
	}
	return
}

type harnessRes struct {
	ran, failed, buildFailed bool
	cexs                     [][2]string // key, text
	evals, distinct          int64
	samples                  []string
	out                      string
	wall                     float64
}

type checker struct {
	prop, tier, verif, repo string
	seed                    int64
	start                   time.Time
	db                      *SpecDB
	cfg                     propCfg
	work                    string
	par                     int
}

// child verifies one function; the cases of its contract are verified by processes of their own
func (c *checker) child(key string, phase int, limit time.Duration, sem chan struct{}) *rootJSON {
	one := func(i int) *rootJSON {
		if sem != nil {
			sem <- struct{}{}
			defer func() { <-sem }()
		}
		return c.childCase(key, phase, limit, i)
	}
	ct := c.db.Contracts[key]
	if ct == nil || len(ct.Cases) == 0 {
		return one(-1)
	}
	rs := make([]*rootJSON, 1<<len(ct.Cases))
	var wg sync.WaitGroup
	for i := range rs {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			rs[i] = one(i)
		}()
	}
	wg.Wait()
	r := rs[0]
	for i, o := range rs[1:] {
		r.OK = r.OK && o.OK
		r.Missing = r.Missing || o.Missing
		if r.Unsupported == "" {
			r.Unsupported, r.TimedOut = o.Unsupported, o.TimedOut
		}
		if r.SpecErr == "" {
			r.SpecErr = o.SpecErr
		}
		r.TermFails = append(r.TermFails, o.TermFails...)
		r.Lost = append(r.Lost, o.Lost...)
		r.Exits += o.Exits
		r.Panics += o.Panics
		r.LoopFacts += o.LoopFacts
		r.Queries += o.Queries
		if o.Wall > r.Wall {
			r.Wall = o.Wall
		}
		for k, t := range o.SolverTime {
			if r.SolverTime == nil {
				r.SolverTime = map[string]float64{}
			}
			r.SolverTime[k] += t
		}
		for _, ob := range o.Obls {
			ob.Name += fmt.Sprintf(" case %d", i+1)
			r.Obls = append(r.Obls, ob)
		}
	}
	return r
}

func (c *checker) childCase(key string, phase int, limit time.Duration, cs int) *rootJSON {
	out := filepath.Join(c.work, fmt.Sprintf("%s-%d-%d.json", sanitizeFile(key), phase, cs+1))
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	self, _ := os.Executable()
	cmd := exec.CommandContext(ctx, self, "root", "-repo", c.repo, "-specs", filepath.Join(c.verif, "specs"), "-key", key, "-phase", strconv.Itoa(phase), "-case", strconv.Itoa(cs), "-out", out)
	slots := 8 / c.par
	if slots < 2 {
		slots = 2
	}
	cmd.Env = append(os.Environ(), "GOVC_SLOTS="+strconv.Itoa(slots))
	cmd.SysProcAttr = newGroup()
	cmd.Cancel = func() error { return killGroup(cmd) }
	cmd.WaitDelay = 5 * time.Second
	var eb bytes.Buffer
	cmd.Stderr = &eb
	err := cmd.Run()
	b, rerr := os.ReadFile(out)
	r := &rootJSON{Key: key, Phase: phase}
	if rerr != nil || json.Unmarshal(b, r) != nil {
		if ctx.Err() != nil {
			r.Unsupported = fmt.Sprintf("time limit of %v reached", limit)
			r.TimedOut = true
		} else {
			t := eb.String()
			if len(t) > 1500 {
				t = t[:1500]
			}
			r.Unsupported = fmt.Sprintf("verifier stopped: %v %s", err, t)
		}
	}
	return r
}

func sanitizeFile(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, s)
}

func (c *checker) runRoots(keys []string) map[string]*rootJSON {
	res := map[string]*rootJSON{}
	var mu sync.Mutex
	sem := make(chan struct{}, c.par)
	var wg sync.WaitGroup
	for _, k := range keys {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := c.child(k, 1, 280*time.Second, sem)
			mu.Lock()
			res[k] = r
			mu.Unlock()
		}()
	}
	wg.Wait()
	// second attempt: every template instantiation, longer solver limits, one at a time
	for _, k := range keys {
		r := res[k]
		if r.OK || r.Missing || r.SpecErr != "" {
			continue
		}
		left := 560*time.Second - time.Since(c.start)
		if c.tier == "thorough" {
			left = 1800 * time.Second
		}
		if left < 30*time.Second {
			continue
		}
		if left > 300*time.Second && c.tier != "thorough" {
			left = 300 * time.Second
		}
		save := c.par
		c.par = 1
		r2 := c.child(k, 2, left, nil)
		c.par = save
		if r2.OK || r.Unsupported != "" && r2.Unsupported == "" {
			res[k] = r2
		} else if r2.Unsupported == "" && len(r2.failed()) < len(r.failed()) {
			res[k] = r2
		}
	}
	return res
}

func (r *rootJSON) failed() []oblJSON {
	var out []oblJSON
	for _, o := range r.Obls {
		if o.Status != "unsat" {
			out = append(out, o)
		}
	}
	return out
}

func (c *checker) runHarness(models []map[string]interface{}) []*harnessRes {
	var out []*harnessRes
	for i, h := range c.cfg.Harness {
		hr := &harnessRes{ran: true}
		out = append(out, hr)
		t0 := time.Now()
		ov := filepath.Join(c.work, fmt.Sprintf("overlay%d.json", i))
		src := filepath.Join(c.verif, "harness", h.File)
		dst := filepath.Join(c.repo, h.Pkg, "zz_verif_"+strings.ToLower(c.prop)+"_test.go")
		repl := map[string]string{dst: src}
		// the package's own tests are left out: they may not even build
		if own, err := filepath.Glob(filepath.Join(c.repo, h.Pkg, "*_test.go")); err == nil {
			for _, f := range own {
				repl[f] = ""
			}
		}
		for k, a := range h.Also {
			repl[filepath.Join(c.repo, h.Pkg, fmt.Sprintf("zz_verifalso%d_test.go", k))] = filepath.Join(c.verif, "harness", a)
		}
		// shared helpers, in the harness's package
		if ub, err := os.ReadFile(filepath.Join(c.verif, "harness", "util.txt")); err == nil {
			hb, _ := os.ReadFile(src)
			pkg := "main"
			for _, l := range strings.Split(string(hb), "\n") {
				if strings.HasPrefix(l, "package ") {
					pkg = strings.TrimSpace(l[8:])
					break
				}
			}
			up := filepath.Join(c.work, fmt.Sprintf("util%d_test.go", i))
			os.WriteFile(up, []byte(strings.Replace(string(ub), "package PKG", "package "+pkg, 1)), 0644)
			repl[filepath.Join(c.repo, h.Pkg, "zz_verifutil_test.go")] = up
		}
		// the repository's own test files are left out: only the harness is compiled
		if olds, err := filepath.Glob(filepath.Join(c.repo, h.Pkg, "*_test.go")); err == nil {
			for _, o := range olds {
				repl[o] = ""
			}
		}
		b, _ := json.Marshal(map[string]interface{}{"Replace": repl})
		os.WriteFile(ov, b, 0644)
		cex := filepath.Join(c.work, "cex.json")
		mb, _ := json.Marshal(models)
		os.WriteFile(cex, mb, 0644)
		limit := 200 * time.Second
		if c.tier == "thorough" {
			limit = 1200 * time.Second
		}
		ctx, cancel := context.WithTimeout(context.Background(), limit+30*time.Second)
		cmd := exec.CommandContext(ctx, "go", "test", "-vet=off", "-count=1", "-v", "-timeout", limit.String(), "-overlay", ov, "-run", "^"+h.Run+"$", "./"+h.Pkg)
		cmd.Dir = c.repo
		scratch := filepath.Join(c.work, "scratch")
		os.MkdirAll(scratch, 0755)
		cmd.Env = append(os.Environ(), "VERIF_CEX="+cex, "VERIF_SEED="+strconv.FormatInt(c.seed, 10), "VERIF_TIER="+c.tier, "VERIF_SCRATCH="+scratch, "TMPDIR="+scratch, "TZ=Asia/Shanghai")
		cmd.SysProcAttr = newGroup()
		cmd.Cancel = func() error { return killGroup(cmd) }
		cmd.WaitDelay = 5 * time.Second
		o, err := cmd.CombinedOutput()
		cancel()
		hr.wall = time.Since(t0).Seconds()
		hr.out = string(o)
		seen := map[string]bool{}
		done := false
		for _, l := range strings.Split(hr.out, "\n") {
			l = strings.TrimSpace(l)
			if k := strings.Index(l, "VERIF-CEX "); k >= 0 {
				f := strings.SplitN(l[k+10:], " ", 2)
				if len(f) == 2 && !seen[l] && len(hr.cexs) < 40 {
					seen[l] = true
					hr.cexs = append(hr.cexs, [2]string{strings.TrimPrefix(f[0], "key="), f[1]})
				}
			}
			if k := strings.Index(l, "VERIF-STATS "); k >= 0 {
				var a, b int64
				fmt.Sscanf(l[k:], "VERIF-STATS evaluations=%d distinct=%d", &a, &b)
				hr.evals += a
				hr.distinct += b
				done = true
			}
			if k := strings.Index(l, "VERIF-SAMPLE "); k >= 0 && len(hr.samples) < 6 {
				hr.samples = append(hr.samples, l[k+13:])
			}
		}
		if err != nil {
			hr.failed = true
			if len(hr.cexs) == 0 {
				switch {
				case strings.Contains(hr.out, "[build failed]") || strings.Contains(hr.out, "[setup failed]"):
					hr.buildFailed = true
				case strings.Contains(hr.out, "panic: test timed out") || ctx.Err() != nil:
					hr.cexs = append(hr.cexs, [2]string{"hang", "the code under test did not return within " + limit.String() + " (see output)"})
				default:
					hr.cexs = append(hr.cexs, [2]string{"crash", firstLines(hr.out, 12)})
				}
			}
		} else if !done {
			hr.failed, hr.buildFailed = true, true
		}
	}
	return out
}
func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, " | ")
}

func checkMain(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	verif := fs.String("verif", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	par := fs.Int("par", 4, "")
	fs.Parse(args)
	c := &checker{prop: *prop, tier: *tier, verif: *verif, repo: *repo, start: time.Now(), par: *par}
	c.seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if c.seed == 0 {
		c.seed = 1
	}
	w, err := os.MkdirTemp("", "verif-"+c.prop+"-")
	if err != nil {
		fmt.Println("cannot create scratch directory:", err)
		return 1
	}
	c.work = w
	defer os.RemoveAll(w)
	db, err := loadSpecs(filepath.Join(c.verif, "specs"))
	if err != nil {
		fmt.Println("SPEC-ERROR", err)
		return 1
	}
	c.db = db
	if b, err := os.ReadFile(filepath.Join(c.verif, "props", c.prop+".json")); err == nil {
		if err := json.Unmarshal(b, &c.cfg); err != nil {
			fmt.Println("CONFIG-ERROR", err)
			return 1
		}
	}
	return c.run()
}

func (c *checker) run() int {
	known, _ := loadFindings(filepath.Join(c.verif, "KNOWN_FINDINGS.txt"))
	var keys []string
	for k, ct := range c.db.Contracts {
		if ct.Trusted == "" && !ct.Inline && contains(ct.Props, c.prop) {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	all := map[string]*rootJSON{}
	trusted := map[string]bool{}
	todo := keys
	for len(todo) > 0 {
		for k, r := range c.runRoots(todo) {
			all[k] = r
		}
		next := map[string]bool{}
		for _, k := range todo {
			for _, u := range all[k].Used {
				ct := c.db.Contracts[u]
				if ct == nil || all[u] != nil {
					continue
				}
				if ct.Trusted != "" {
					trusted["assumed contract "+u+": "+ct.Trusted] = true
					continue
				}
				if !ct.Inline {
					next[u] = true
				}
			}
		}
		todo = sortedKeys(next)
	}
	type viol struct{ key, text string }
	var viols []viol
	var bounded []string
	var models []map[string]interface{}
	var report strings.Builder
	nObl, nDis := 0, 0
	backends := map[string]int{}
	solver := map[string]float64{}
	assumed := map[string]bool{}
	inlined := map[string]bool{}
	var fns []map[string]interface{}
	rows := 0
	var ks []string
	for k := range all {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r := all[k]
		ct := c.db.Contracts[k]
		n, d := r.LoopFacts+len(r.Obls), r.LoopFacts
		for _, o := range r.Obls {
			if o.Status == "unsat" {
				d++
				backends[o.Backend]++
			}
		}
		if r.LoopFacts > 0 {
			backends["loop induction (z3-new/cvc5/rewriter)"] += r.LoopFacts
		}
		nObl += n
		nDis += d
		if r.TableRows > rows {
			rows = r.TableRows
		}
		for b, t := range r.SolverTime {
			solver[b] += t
		}
		for _, a := range r.Assumed {
			assumed[a] = true
		}
		for _, a := range r.Inlined {
			inlined[a] = true
		}
		st := "proved"
		fmt.Fprintf(&report, "== %s (contract in specs/%s, phase %d): %d obligations, %d discharged, %d normal exits, %d panic exits, %.1fs\n", k, r.File, r.Phase, n, d, r.Exits, r.Panics, r.Wall)
		for _, l := range r.Loops {
			fmt.Fprintf(&report, "   loop %s\n", l)
		}
		for _, l := range r.Notes {
			fmt.Fprintf(&report, "   note %s\n", l)
		}
		switch {
		case r.OK:
		case r.Missing && ct.MayMiss:
			st = "absent (helper; its body, wherever it went, is verified inside the callers)"
		case r.Missing:
			st = "missing"
			bounded = append(bounded, k+": function under contract not found in the source; only the bounded stand-in applies")
			if len(c.cfg.Harness) == 0 {
				viols = append(viols, viol{k + "/missing", "the function under contract no longer exists"})
			}
		case r.SpecErr != "":
			st = "contract no longer applies: " + r.SpecErr
			bounded = append(bounded, k+": contract cannot be evaluated ("+r.SpecErr+"); only the bounded stand-in applies")
		case r.Unsupported != "":
			st = "outside the verifier's reach: " + r.Unsupported
			bounded = append(bounded, k+": "+r.Unsupported+"; only the bounded stand-in applies")
		case r.Vacuous != "":
			st = "vacuous: " + r.Vacuous
			viols = append(viols, viol{k + "/vacuous", r.Vacuous})
		default:
			st = "failed"
			names := map[string]bool{}
			for _, o := range r.failed() {
				if !names[o.Name] {
					names[o.Name] = true
					viols = append(viols, viol{o.Name, "obligation not discharged (" + o.Status + " by " + o.Backend + ")"})
				}
				fmt.Fprintf(&report, "   FAILED %s: %s by %s\n      goal: %s\n      verifier output: %s\n      model: %v\n", o.Name, o.Status, o.Backend, o.Goal, o.Output, o.Model)
				if o.Model != nil {
					models = append(models, map[string]interface{}{"fn": k, "args": o.Model})
				}
			}
			for _, t := range r.TermFails {
				viols = append(viols, viol{t + "/termination", "termination not shown"})
				fmt.Fprintf(&report, "   FAILED %s: no decreasing measure\n", t)
			}
			for _, l := range r.Lost {
				fmt.Fprintf(&report, "   %s\n", l)
			}
		}
		fmt.Fprintf(&report, "   status: %s\n", st)
		fns = append(fns, map[string]interface{}{"function": k, "status": st, "obligations": n, "discharged": d, "phase": r.Phase, "wall_s": r.Wall})
	}
	ranHarness := false
	var hrs []*harnessRes
	if len(c.cfg.Harness) > 0 && (len(viols) > 0 || len(bounded) > 0 || len(c.cfg.Bounded) > 0 || c.tier == "thorough") {
		hrs = c.runHarness(models)
		ranHarness = true
	}
	if !ranHarness && len(bounded) > 0 {
		for _, b := range bounded {
			viols = append(viols, viol{"undecided", b})
		}
	}
	isKnown := func(key string) *finding {
		for i, f := range known {
			if f.prop == c.prop && f.key == key {
				return &known[i]
			}
		}
		return nil
	}
	printed := map[string]bool{}
	note := func(f *finding) {
		if !printed[f.key] {
			printed[f.key] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, f.text)
		}
	}
	var open []viol
	for _, v := range viols {
		if f := isKnown(v.key); f != nil {
			note(f)
			continue
		}
		open = append(open, v)
	}
	var cexs [][2]string
	var evals, distinct int64
	var samples []string
	hbroken := ""
	for _, h := range hrs {
		evals += h.evals
		distinct += h.distinct
		samples = append(samples, h.samples...)
		if h.buildFailed {
			hbroken = h.out
		}
		for _, x := range h.cexs {
			if f := isKnown(x[0]); f != nil {
				note(f)
				continue
			}
			cexs = append(cexs, x)
		}
	}
	nviol := len(open) + len(cexs)
	exit := 0
	if hbroken != "" && nviol == 0 {
		nviol++
		open = append(open, viol{"harness", "the replay harness no longer builds against the exported API: " + firstLines(hbroken, 10)})
	}
	if nviol > 0 {
		exit = 1
		rd := filepath.Join(c.verif, "evidence", "replay")
		os.MkdirAll(rd, 0755)
		rp := filepath.Join(rd, c.prop+".txt")
		var b strings.Builder
		fmt.Fprintf(&b, "property %s violated on the tree in %s\n\n", c.prop, c.repo)
		for _, v := range open {
			fmt.Fprintf(&b, "failed obligation: %s: %s\n", v.key, v.text)
		}
		for _, x := range cexs {
			fmt.Fprintf(&b, "failing input on the real code [%s]: %s\n", x[0], x[1])
		}
		if len(cexs) > 0 {
			fmt.Fprintf(&b, "\nreplay: cd %s && VERIF_SEED=%d ./check.sh %s %s\n", c.verif, c.seed, c.prop, c.tier)
		}
		fmt.Fprintf(&b, "\n--- verifier output ---\n%s", report.String())
		for _, h := range hrs {
			if h.failed {
				o := h.out
				if len(o) > 20000 {
					o = o[:20000]
				}
				fmt.Fprintf(&b, "\n--- harness output ---\n%s", o)
			}
		}
		os.WriteFile(rp, []byte(b.String()), 0644)
		for _, v := range open {
			fmt.Printf("failed: %s: %s\n", v.key, v.text)
		}
		for _, x := range cexs {
			fmt.Printf("failing input [%s]: %s\n", x[0], x[1])
		}
		if len(cexs) > 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, rp)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", c.prop, rp)
		}
	}
	// evidence
	as := sortedKeys(assumed)
	as = append(as, c.cfg.Assumptions...)
	as = append(as, "no slice, string or backing array is longer than 2^47-1 elements",
		"append never overwrites bytes another live slice can see (spare capacity is not aliased)",
		"no other goroutine writes the objects a verified function reads while it runs",
		"functions outside the module return arbitrary values, do not panic and do not write the module's objects, unless a contract says otherwise")
	tb := []string{"govc (the verifier in /verif/govc: SSA semantics, simplifier, sequence rewriter, loop cutting)", "golang.org/x/tools/go/ssa", "z3 (z3-new)", "cvc5 1.1.2", "the Go type checker and compiler"}
	tb = append(tb, sortedKeys(trusted)...)
	level := "proof"
	if nObl == 0 {
		level = "other"
	}
	cov := map[string]interface{}{
		"obligations": nObl, "discharged": nDis,
		"checker_cmd":              "./check.sh " + c.prop + " " + c.tier,
		"trusted_base":             tb,
		"functions_under_contract": fns,
		"inlined_functions":        sortedKeys(inlined),
		"discharged_by":            backends,
		"solver_time_s":            solver,
		"table_rows_enumerated":    rows,
	}
	if ranHarness {
		cov["bounded_stand_in"] = map[string]interface{}{"label": "bounded, not counted as proved", "covers": append(append([]string{}, c.cfg.Bounded...), bounded...), "evaluations": evals, "distinct_nontrivial": distinct, "rule": c.cfg.Rule, "samples": samples}
	}
	if level == "other" {
		cov["explanation"] = "no contract of this property is currently within the verifier's reach; see bounded_stand_in"
	}
	ev := map[string]interface{}{"property": c.prop, "tier": c.tier, "seed": c.seed, "level": level, "coverage": cov, "assumptions": as, "wall_s": time.Since(c.start).Seconds(), "violations": nviol}
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(c.verif, "evidence", c.prop+".json"), append(b, '\n'), 0644)
	fmt.Printf("%s: %d functions under contract, %d/%d obligations discharged, %d table rows, harness evaluations %d, %.1fs\n", c.prop, len(fns), nDis, nObl, rows, evals, time.Since(c.start).Seconds())
	for _, b := range bounded {
		fmt.Println("bounded stand-in:", b)
	}
	return exit
}
