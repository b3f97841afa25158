package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// recursive spec functions: one-step unfolding
type recFn struct {
	name   string
	sort   Sort
	unfold func(args []*Term) *Term
	lemmas []func(args []*Term) *Term // proved facts instantiated at each application
	fuel   int
}

var recFns = map[string]*recFn{}

const maxFuel = 2

// closure collects every subterm of the roots together with attached facts and unfoldings.
// closure collects all subterms, their attached facts and (ground) unfoldings of recursive
// specification functions. fuel < 0 selects "connecting" unfolding: an application outside
// the goal is unfolded only when that relates it to another application already present.
func closure(roots []*Term, goal *Term, fuel int) (terms []*Term, facts []*Term) {
	connect := fuel < 0
	if connect {
		fuel = maxFuel
	}
	seen := map[*Term]bool{}
	depth := map[*Term]int{} // unfolding depth at which an application was discovered
	factSeen := map[*Term]bool{}
	var queue []*Term
	var visit func(t *Term, d int)
	visit = func(t *Term, d int) {
		if seen[t] {
			return
		}
		seen[t] = true
		depth[t] = d
		for _, a := range t.args {
			visit(a, d)
		}
		terms = append(terms, t)
		queue = append(queue, t)
	}
	addFact := func(f *Term, d int) {
		if f == True || factSeen[f] {
			return
		}
		factSeen[f] = true
		facts = append(facts, f)
		visit(f, d)
	}
	visit(goal, 0)
	inGoal := map[*Term]bool{}
	for t := range seen {
		inGoal[t] = true
	}
	for _, r := range roots {
		visit(r, 0)
	}
	type pend struct {
		t *Term
		u *Term
		d int
	}
	var pending []pend
	for qi := 0; ; qi++ {
		if qi >= len(queue) {
			// try pending unfoldings that now connect
			grew := false
			for k, p := range pending {
				if p.t == nil {
					continue
				}
				if mentionsSeenApp(p.u, p.t.name, seen) {
					pending[k].t = nil
					addFact(Eq(p.t, p.u), p.d+1)
					grew = true
				}
			}
			if !grew || qi >= len(queue) {
				break
			}
		}
		t := queue[qi]
		d := depth[t]
		if hasBV(t) {
			continue
		}
		for i := 0; i < len(t.facts); i++ {
			addFact(t.facts[i], d)
		}
		if strings.HasPrefix(t.op, "box:") {
			tn := t.op[4:]
			addFact(mk("<", "", SBool, t, Int(0)), d)
			if !strings.HasPrefix(tn, "slice") {
				addFact(mk("=", "", SBool, mk("typeof", "", SInt, t), Int(int64(typeID(tn)))), d)
			}
			for k, a := range t.args {
				addFact(mk("=", "", SBool, mk(fmt.Sprintf("sel:%s:%d", tn, k), "", a.sort, t), a), d)
			}
		}
		if t.op == "app" {
			if rf, ok := recFns[t.name]; ok {
				fl := fuel
				if rf.fuel > 0 {
					fl = rf.fuel
				}
				if d < fl {
					// unfold; applications introduced get depth d+1
					u := rf.unfold(t.args)
					if connect && !(inGoal[t] && d == 0) && rf.fuel == 0 {
						pending = append(pending, pend{t, u, d})
					} else {
						addFact(Eq(t, u), d+1)
					}
				}
				for _, l := range rf.lemmas {
					addFact(l(t.args), d+1)
				}
			}
		}
	}
	return
}

func mentionsSeenApp(u *Term, name string, seen map[*Term]bool) bool {
	found := false
	vis := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if found || vis[t] {
			return
		}
		vis[t] = true
		if t.op == "app" && t.name == name && seen[t] {
			found = true
			return
		}
		for _, a := range t.args {
			w(a)
		}
	}
	w(u)
	return found
}

var bvMemo = map[*Term]bool{}

// hasBV: t contains a bound variable free (facts about it must not be hoisted)
func hasBV(t *Term) bool {
	if r, ok := bvMemo[t]; ok {
		return r
	}
	r := false
	if t.op == "bvar" {
		r = true
	} else if t.op == "forall" || t.op == "exists" {
		r = freeBV(t.args[1], map[*Term]bool{t.args[0]: true})
	} else {
		for _, a := range t.args {
			if hasBV(a) {
				r = true
				break
			}
		}
	}
	bvMemo[t] = r
	return r
}
func freeBV(t *Term, bound map[*Term]bool) bool {
	if t.op == "bvar" {
		return !bound[t]
	}
	if t.op == "forall" || t.op == "exists" {
		nb := map[*Term]bool{t.args[0]: true}
		for k := range bound {
			nb[k] = true
		}
		return freeBV(t.args[1], nb)
	}
	if !hasBV(t) {
		return false
	}
	for _, a := range t.args {
		if freeBV(a, bound) {
			return true
		}
	}
	return false
}

func smtName(s string) string {
	return "|" + strings.ReplaceAll(s, "|", "_") + "|"
}

type printer struct {
	b     bytes.Buffer
	decl  map[string]bool
	names map[*Term]string
	z3    bool
}

func (p *printer) ref(t *Term) string {
	switch t.op {
	case "#int":
		if t.ival.Sign() < 0 {
			return fmt.Sprintf("(- %s)", new(big.Int).Neg(t.ival))
		}
		return t.ival.String()
	case "#real":
		return realStr(t.rval)
	case "true", "false":
		return t.op
	case "sym":
		return smtName(t.name)
	case "seq.empty":
		return "(as seq.empty " + string(t.sort) + ")"
	}
	if n, ok := p.names[t]; ok {
		return n
	}
	return p.expr(t)
}
func (p *printer) declare(name string, args []*Term, res Sort) {
	if p.decl[name] {
		return
	}
	p.decl[name] = true
	var as []string
	for _, a := range args {
		as = append(as, string(a.sort))
	}
	fmt.Fprintf(&p.b, "(declare-fun %s (%s) %s)\n", smtName(name), strings.Join(as, " "), res)
}
func (p *printer) expr(t *Term) string {
	var op string
	args := t.args
	switch t.op {
	case "app":
		op = smtName(t.name)
	case "bvar":
		return smtName(t.name)
	case "forall", "exists":
		return "(" + t.op + " ((" + smtName(t.args[0].name) + " Int)) " + p.ref(t.args[1]) + ")"
	case "named":
		return p.ref(t.args[0])
	case "havocold":
		return p.ref(t.args[0])
	case "constarr":
		return "((as const " + string(t.sort) + ") " + p.ref(t.args[0]) + ")"
	case "table":
		ti := tables[t.name]
		var ps []string
		for _, v := range ti.vals {
			ps = append(ps, "(seq.unit "+p.ref(v)+")")
		}
		return "(seq.++ " + strings.Join(ps, " ") + ")"
	default:
		op = t.op
		if strings.HasPrefix(op, "box:") || strings.HasPrefix(op, "sel:") || op == "typeof" {
			op = smtName(op)
		}
	}
	var ps []string
	for _, a := range args {
		ps = append(ps, p.ref(a))
	}
	return "(" + op + " " + strings.Join(ps, " ") + ")"
}

func buildScript(assumps []*Term, goal *Term, fuel int, getModel bool) string {
	terms, facts := closure(assumps, goal, fuel)
	p := &printer{decl: map[string]bool{}, names: map[*Term]string{}}
	if getModel {
		p.b.WriteString("(set-option :produce-models true)\n")
	}
	p.b.WriteString("(set-logic ALL)\n")
	// count references for sharing
	cnt := map[*Term]int{}
	for _, t := range terms {
		for _, a := range t.args {
			cnt[a]++
		}
	}
	for _, t := range terms {
		switch {
		case t.op == "sym":
			p.declare(t.name, nil, t.sort)
		case t.op == "app":
			p.declare(t.name, t.args, t.sort)
		case strings.HasPrefix(t.op, "box:") || strings.HasPrefix(t.op, "sel:") || t.op == "typeof":
			p.declare(t.op, t.args, t.sort)
		}
	}
	// order terms topologically: "terms" appends children before parents
	for _, t := range terms {
		if len(t.args) > 0 && cnt[t] > 1 && !hasBV(t) && t.op != "havocold" && t.op != "named" {
			n := fmt.Sprintf("t%d", t.id)
			fmt.Fprintf(&p.b, "(define-fun %s () %s %s)\n", n, t.sort, p.expr(t))
			p.names[t] = n
		}
	}
	for _, f := range facts {
		fmt.Fprintf(&p.b, "(assert %s)\n", p.ref(f))
	}
	for _, a := range assumps {
		fmt.Fprintf(&p.b, "(assert %s)\n", p.ref(a))
	}
	fmt.Fprintf(&p.b, "(assert (not %s))\n", p.ref(goal))
	p.b.WriteString("(check-sat)\n")
	return p.b.String()
}

// modelOf asks for concrete parameter values falsifying goal (best effort, for replay).
func modelOf(assumps []*Term, goal *Term, names []string, vals []*Term, timeout time.Duration) map[string]interface{} {
	// make sure every value term is declared by mentioning it
	var extra []*Term
	for _, v := range vals {
		f := Fresh("mv", v.sort)
		extra = append(extra, mk("=", "", SBool, f, v))
	}
	script := buildScript(append(append([]*Term{}, assumps...), extra...), goal, maxFuel, true)
	var b strings.Builder
	b.WriteString(script)
	b.WriteString("(get-value (")
	for _, e := range extra {
		b.WriteString(" |" + e.args[0].name + "|")
	}
	b.WriteString("))\n")
	for _, be := range []string{"cvc5", "z3-new"} {
		ctx, cancel := context.WithTimeout(context.Background(), timeout)
		st, out := runOne(ctx, be, b.String())
		cancel()
		if st != "sat" {
			continue
		}
		se := parseSexp(strings.TrimPrefix(out, "sat"))
		if se == nil || len(se.list) != len(extra) {
			continue
		}
		m := map[string]interface{}{}
		for i, e := range se.list {
			if len(e.list) == 2 {
				if v := sexpVal(e.list[1]); v != nil {
					m[names[i]] = v
				}
			}
		}
		return m
	}
	return nil
}

type sexp struct {
	atom string
	list []*sexp
}

func parseSexp(s string) *sexp {
	pos := 0
	var rd func() *sexp
	rd = func() *sexp {
		for pos < len(s) && strings.IndexByte(" \n\t\r", s[pos]) >= 0 {
			pos++
		}
		if pos >= len(s) {
			return nil
		}
		if s[pos] == '(' {
			pos++
			e := &sexp{list: []*sexp{}}
			for {
				for pos < len(s) && strings.IndexByte(" \n\t\r", s[pos]) >= 0 {
					pos++
				}
				if pos >= len(s) {
					return nil
				}
				if s[pos] == ')' {
					pos++
					return e
				}
				c := rd()
				if c == nil {
					return nil
				}
				e.list = append(e.list, c)
			}
		}
		st := pos
		if s[pos] == '|' {
			pos++
			for pos < len(s) && s[pos] != '|' {
				pos++
			}
			pos++
			return &sexp{atom: s[st:pos]}
		}
		for pos < len(s) && strings.IndexByte(" \n\t\r()", s[pos]) < 0 {
			pos++
		}
		return &sexp{atom: s[st:pos]}
	}
	return rd()
}

// sexpVal: integers become decimal strings, sequences of integers become []interface{}
func sexpVal(e *sexp) interface{} {
	if e.list == nil {
		return e.atom
	}
	if len(e.list) == 0 {
		return nil
	}
	switch e.list[0].atom {
	case "-":
		if len(e.list) == 2 && e.list[1].atom != "" {
			return "-" + e.list[1].atom
		}
	case "as":
		return []interface{}{}
	case "seq.unit":
		return []interface{}{sexpVal(e.list[1])}
	case "seq.++":
		out := []interface{}{}
		for _, a := range e.list[1:] {
			if l, ok := sexpVal(a).([]interface{}); ok {
				out = append(out, l...)
			}
		}
		return out
	}
	return nil
}

type Result struct {
	Status  string // unsat, sat, unknown
	Backend string
	Wall    float64
	Model   string
	Script  string
}

var (
	solverSlots  = make(chan struct{}, envInt("GOVC_SLOTS", 8))
	solverMu     sync.Mutex
	solverTime   = map[string]float64{}
	queryCache   = map[string]Result{}
	scratchDir   string
	queryTimeout = 10 * time.Second
	// statistics
	nQueries int
)

func runOne(ctx context.Context, backend, script string) (string, string) {
	var cmd *exec.Cmd
	switch backend {
	case "cvc5":
		cmd = exec.CommandContext(ctx, "cvc5", "--lang=smt2", "-")
	case "z3-new":
		cmd = exec.CommandContext(ctx, "z3-new", "-smt2", "-in")
	case "z3":
		cmd = exec.CommandContext(ctx, "z3", "-smt2", "-in")
	}
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	s := strings.TrimSpace(out.String())
	first := s
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		first = s[:i]
	}
	switch first {
	case "unsat", "sat":
		return first, s
	}
	return "unknown", s
}

// prove checks assumps |= goal with a portfolio.
func prove(assumps []*Term, goal *Term, fuel int, timeout time.Duration) Result {
	if goal == True {
		return Result{Status: "unsat", Backend: "simplifier"}
	}
	for _, a := range assumps {
		if a == False || a == Not(goal) && false {
			return Result{Status: "unsat", Backend: "simplifier"}
		}
		if a == goal {
			return Result{Status: "unsat", Backend: "simplifier"}
		}
	}
	script := buildScript(assumps, goal, fuel, false)
	return proveScript(script, timeout)
}

func proveScript(script string, timeout time.Duration) Result {
	h := sha256.Sum256([]byte(script))
	key := hex.EncodeToString(h[:])
	solverMu.Lock()
	if r, ok := queryCache[key]; ok {
		solverMu.Unlock()
		return r
	}
	nQueries++
	solverMu.Unlock()
	solverSlots <- struct{}{}
	defer func() { <-solverSlots }()
	start := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	backends := []string{"cvc5", "z3-new"}
	if !strings.Contains(script, "Seq") {
		backends = []string{"z3-new", "cvc5"}
	}
	type res struct{ st, out, be string }
	ch := make(chan res, len(backends))
	launch := func(be string) {
		st, out := runOne(ctx, be, script)
		ch <- res{st, out, be}
	}
	go launch(backends[0])
	got := 0
	launched := 1
	timer := time.NewTimer(1500 * time.Millisecond)
	defer timer.Stop()
	var final res
	var unk []string
loop:
	for got < len(backends) {
		select {
		case r := <-ch:
			got++
			if r.st == "unsat" || r.st == "sat" {
				final = r
				break loop
			}
			unk = append(unk, r.be+": "+r.out)
			if launched < len(backends) {
				go launch(backends[launched])
				launched++
			}
		case <-timer.C:
			if launched < len(backends) {
				go launch(backends[launched])
				launched++
			}
		}
	}
	if final.st == "" {
		final = res{"unknown", strings.Join(unk, "\n"), "none"}
	}
	r := Result{Status: final.st, Backend: final.be, Wall: time.Since(start).Seconds(), Model: final.out, Script: script}
	solverMu.Lock()
	solverTime[final.be] += r.Wall
	queryCache[key] = r
	solverMu.Unlock()
	if os.Getenv("GOVC_DUMP") != "" {
		os.MkdirAll(os.Getenv("GOVC_DUMP"), 0755)
		os.WriteFile(filepath.Join(os.Getenv("GOVC_DUMP"), key[:12]+"."+final.st+".smt2"), []byte(script), 0644)
	}
	return r
}

// ---------- quick arithmetic solver (persistent z3) on an abstraction without sequences ----------

type quick struct {
	in    io.WriteCloser
	out   *bufio.Reader
	cmd   *exec.Cmd
	cache map[string]bool
	n     int
	time  time.Duration
	decl  map[*Term]bool // declared constants (global declarations)
	have  map[*Term]bool // opaque terms whose facts are asserted on the current stack
	stack []*qlevel
	memo  map[*Term]*qstr
	ufs   map[string]string
}
type qlevel struct {
	t     *Term
	facts []*Term // opaque terms whose facts were asserted at this level
}

// qstr: printed form and the opaque terms it mentions
type qstr struct {
	s   string
	ops []*Term
}

var qs = &quick{cache: map[string]bool{}}

func (q *quick) start() {
	q.cmd = exec.Command("z3-new", "-smt2", "-in", "-t:300")
	q.in, _ = q.cmd.StdinPipe()
	o, _ := q.cmd.StdoutPipe()
	q.out = bufio.NewReader(o)
	if err := q.cmd.Start(); err != nil {
		panic(err)
	}
	q.decl, q.have, q.stack, q.memo, q.ufs = map[*Term]bool{}, map[*Term]bool{}, nil, map[*Term]*qstr{}, map[string]string{}
	io.WriteString(q.in, "(set-option :global-declarations true)\n")
}

type qprinter struct {
	q *quick
	b bytes.Buffer
}

func (p *qprinter) opaque(t *Term) *qstr {
	n := fmt.Sprintf("o%d", t.id)
	if !p.q.decl[t] {
		p.q.decl[t] = true
		s := t.sort
		if s != SInt && s != SBool && s != SReal {
			s = SInt
		}
		fmt.Fprintf(&p.b, "(declare-const %s %s)\n", n, s)
	}
	return &qstr{n, []*Term{t}}
}

// bring asserts the facts of the opaque terms mentioned by x at the current level.
func (p *qprinter) bring(x *qstr, lv *qlevel) {
	for _, t := range x.ops {
		if p.q.have[t] {
			continue
		}
		p.q.have[t] = true
		lv.facts = append(lv.facts, t)
		for _, f := range t.facts {
			if quickable(f) {
				fs := p.p(f)
				p.bring(fs, lv)
				fmt.Fprintf(&p.b, "(assert %s)\n", fs.s)
			}
		}
	}
}
func quickable(t *Term) bool {
	switch t.op {
	case "<=", "<", "and", "not", "or", "=>":
		return true
	case "=":
		return t.args[0].sort == SInt || t.args[0].sort == SBool || t.args[0].sort == SReal
	}
	return false
}
func (p *qprinter) p(t *Term) *qstr {
	if s, ok := p.q.memo[t]; ok {
		return s
	}
	s := p.p0(t)
	p.q.memo[t] = s
	return s
}

// uf prints an application as that of an uninterpreted function (its structured arguments are
// opaque constants), so that congruence applies; t's own facts come with it.
func (p *qprinter) uf(t *Term, name string) *qstr {
	sortName := func(s Sort) Sort {
		if s == SInt || s == SBool || s == SReal {
			return s
		}
		return SInt
	}
	r := &qstr{ops: []*Term{t}}
	seen := map[*Term]bool{t: true}
	var ps, ss []string
	for _, a := range t.args {
		var x *qstr
		if a.sort == SInt || a.sort == SBool || a.sort == SReal {
			x = p.p(a)
		} else {
			x = p.opaque(a)
		}
		ps = append(ps, x.s)
		ss = append(ss, string(sortName(a.sort)))
		for _, o := range x.ops {
			if !seen[o] {
				seen[o] = true
				r.ops = append(r.ops, o)
			}
		}
	}
	if name == "" {
		key := t.op + ":" + t.name + ":" + strings.Join(ss, ",") + ":" + string(t.sort)
		n, ok := p.q.ufs[key]
		if !ok {
			n = fmt.Sprintf("f%d", len(p.q.ufs))
			p.q.ufs[key] = n
			fmt.Fprintf(&p.b, "(declare-fun %s (%s) %s)\n", n, strings.Join(ss, " "), t.sort)
		}
		name = n
	}
	r.s = "(" + name + " " + strings.Join(ps, " ") + ")"
	n := fmt.Sprintf("d%d", t.id)
	fmt.Fprintf(&p.b, "(define-fun %s () %s %s)\n", n, t.sort, r.s)
	r.s = n
	return r
}
func (p *qprinter) p0(t *Term) *qstr {
	switch t.op {
	case "#int", "#real", "true", "false":
		return &qstr{t.String(), nil}
	case "forall", "exists", "to_int", "to_real":
		return p.opaque(t)
	case "=":
		s := t.args[0].sort
		if s.IsSeq() {
			return p.uf(t, "=")
		}
		if s != SInt && s != SBool {
			return p.opaque(t)
		}
	case "app", "seq.nth", "seq.len":
		for _, a := range t.args {
			if a.sort == SReal {
				return p.opaque(t)
			}
		}
		if len(t.args) > 0 && (t.sort == SInt || t.sort == SBool || t.sort == SReal) {
			return p.uf(t, "")
		}
		return p.opaque(t)
	case "and", "or", "not", "+", "*", "<=", "<", "div", "mod", "-", "/":
	case "ite":
		if t.sort != SInt && t.sort != SBool && t.sort != SReal {
			return p.opaque(t)
		}
	default:
		return p.opaque(t)
	}
	// arithmetic on reals is left to the other solvers
	if t.sort == SReal || t.op == "<=" && t.args[0].sort == SReal || t.op == "<" && t.args[0].sort == SReal {
		return p.opaque(t)
	}
	r := &qstr{}
	var ps []string
	seen := map[*Term]bool{}
	for _, a := range t.args {
		x := p.p(a)
		ps = append(ps, x.s)
		for _, o := range x.ops {
			if !seen[o] {
				seen[o] = true
				r.ops = append(r.ops, o)
			}
		}
	}
	r.s = "(" + t.op + " " + strings.Join(ps, " ") + ")"
	if len(r.s) > 400 {
		// share large terms
		n := fmt.Sprintf("d%d", t.id)
		fmt.Fprintf(&p.b, "(define-fun %s () %s %s)\n", n, t.sort, r.s)
		r.s = n
	}
	return r
}

// implied: quickly decide pc |= goal on the arithmetic abstraction (sound: true means proved).
func (q *quick) implied(pc []*Term, goal *Term) bool {
	if goal == True {
		return true
	}
	for _, a := range pc {
		if a == goal || a == False {
			return true
		}
	}
	ids := make([]int, 0, len(pc))
	for _, a := range pc {
		ids = append(ids, a.id)
	}
	sort.Ints(ids)
	key := fmt.Sprint(ids, goal.id)
	if r, ok := q.cache[key]; ok {
		return r
	}
	st := time.Now()
	if q.cmd == nil {
		q.start()
	}
	p := &qprinter{q: q}
	k := 0
	for k < len(q.stack) && k < len(pc) && q.stack[k].t == pc[k] {
		k++
	}
	pop := func(n int) {
		if n == 0 {
			return
		}
		for _, l := range q.stack[len(q.stack)-n:] {
			for _, t := range l.facts {
				delete(q.have, t)
			}
		}
		q.stack = q.stack[:len(q.stack)-n]
		fmt.Fprintf(&p.b, "(pop %d)\n", n)
	}
	push := func(t *Term, neg bool) {
		lv := &qlevel{t: t}
		p.b.WriteString("(push 1)\n")
		x := p.p(t)
		p.bring(x, lv)
		if neg {
			fmt.Fprintf(&p.b, "(assert (not %s))\n", x.s)
		} else {
			fmt.Fprintf(&p.b, "(assert %s)\n", x.s)
		}
		q.stack = append(q.stack, lv)
	}
	pop(len(q.stack) - k)
	for _, a := range pc[k:] {
		push(a, false)
	}
	push(goal, true)
	p.b.WriteString("(check-sat)\n(echo \"done\")\n")
	pop(1)
	io.WriteString(q.in, p.b.String())
	res := false
	for {
		line, err := q.out.ReadString('\n')
		if err != nil {
			q.cmd = nil
			break
		}
		line = strings.TrimSpace(line)
		if strings.HasPrefix(line, "(error") {
			if os.Getenv("GOVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "quick:", line)
			}
		}
		if line == "unsat" {
			res = true
		}
		if line == "done" || line == `"done"` {
			break
		}
	}
	q.n++
	if os.Getenv("GOVC_QSTAT") != "" {
		fmt.Fprintf(os.Stderr, "Q %d %v %d pushed %d\n", time.Since(st).Microseconds(), res, len(pc)-k, len(pc))
	}
	q.time += time.Since(st)
	q.cache[key] = res
	return res
}
func (q *quick) infeasible(pc []*Term) bool { return q.implied(pc, False) }

func envInt(k string, d int) int {
	if n, err := strconv.Atoi(os.Getenv(k)); err == nil && n > 0 {
		return n
	}
	return d
}
