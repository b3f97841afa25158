package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	body map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> blocks
	back map[[2]*ssa.BasicBlock]bool
}

func (li *loopInfo) isBackEdge(from, to *ssa.BasicBlock) bool {
	return from != nil && li.back[[2]*ssa.BasicBlock{from, to}]
}

func findLoops(fn *ssa.Function) *loopInfo {
	li := &loopInfo{map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, map[[2]*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li.back[[2]*ssa.BasicBlock{b, s}] = true
				m := li.body[s]
				if m == nil {
					m = map[*ssa.BasicBlock]bool{s: true}
					li.body[s] = m
				}
				// natural loop
				var stack []*ssa.BasicBlock
				if !m[b] {
					m[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !m[p] {
							m[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	return li
}

type LoopCut struct {
	name string
}

// candidate invariant
type cand struct {
	tpl     string // template name
	desc    string
	eval    func(st *State, fr *Frame) (*Term, bool)
	quick   bool
	user    bool
	measure bool
	mEval   func(st *State, fr *Frame) (*Term, bool)
}

func (ex *Exec) loopName(fr *Frame, h *ssa.BasicBlock) string {
	n := 0
	for _, b := range fr.fn.Blocks {
		if ex.V.loopsOf(fr.fn).body[b] != nil {
			n++
			if b == h {
				break
			}
		}
	}
	return fmt.Sprintf("%s/loop%d", fnKey(fr.fn), n)
}

func (ex *Exec) atHeader(st *State, fr *Frame, from, h *ssa.BasicBlock, li *loopInfo) bool {
	if _, ok := fr.cuts[h]; ok && li.isBackEdge(from, h) {
		return false // preserved: established by the inductiveness check when the loop was cut
	}
	limit := 70
	if ex.initMode {
		limit = 200000
	}
	if fr.unrolled[h] < limit && ex.tryConst(st, h) {
		fr.unrolled[h]++
		return true
	}
	if n := ex.unrollOf(fr); n > 0 {
		if fr.unrolled[h] < n {
			fr.unrolled[h]++
			return true
		}
		if ex.infeasible(st) {
			return false
		}
	}
	if ex.initMode {
		unsup("non-constant loop during package initialisation")
	}
	return ex.enterLoop(st, fr, h, li)
}

// tryConst: is the loop condition tested in the header a constant at this visit?
func (ex *Exec) tryConst(st *State, h *ssa.BasicBlock) bool {
	if _, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); !ok {
		return false
	}
	for _, in := range h.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.UnOp, *ssa.If, *ssa.DebugRef, *ssa.Convert, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Extract:
		case *ssa.Call:
			if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
				return false
			}
		default:
			return false
		}
	}
	saved := ex.work
	ex.work = nil
	ex.dry++
	defer func() { ex.work = saved; ex.dry-- }()
	c := st
	if !ex.initMode {
		c = st.clone()
	}
	fr := c.top()
	ip := fr.ip
	defer func() { fr.ip = ip }()
	for {
		in := fr.block.Instrs[fr.ip]
		if i, ok := in.(*ssa.If); ok {
			t := ex.term(c, i.Cond)
			return t == True || t == False
		}
		if !ex.instr(c, fr, in) || c.top() != fr {
			return false
		}
	}
}

func phisOf(h *ssa.BasicBlock) (ps []*ssa.Phi) {
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			ps = append(ps, p)
		} else {
			break
		}
	}
	return
}

type havocPlan struct {
	point map[string]map[*Term]bool // key -> old refs (loop-invariant)
	fresh map[string]bool           // key written at refs allocated in the loop
	full  map[string]bool
	ghost map[string]bool
}

func (ex *Exec) enterLoop(st *State, fr *Frame, h *ssa.BasicBlock, li *loopInfo) bool {
	name := ex.loopName(fr, h)
	ex.debugf("loop %s: enter (dry=%d)", name, ex.dry)
	depth := len(st.frames) - 1
	threshold := termSeq
	cands := ex.candidates(st, fr, h, li.body[h])
	// 1. initialisation
	live := ex.filterInit(st, fr, cands, name)
	plan := &havocPlan{map[string]map[*Term]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}}
	var s *State
	start := time.Now()
	for iter := 0; ; iter++ {
		if iter > 60 || time.Since(start) > 240*time.Second {
			unsup("loop invariant inference did not converge for %s", name)
		}
		s = ex.havocState(st, h, plan, depth)
		assumed := map[*Term]*cand{}
		sf := s.frames[depth]
		for _, c := range live {
			if t, ok := c.eval(s, sf); ok {
				n := len(s.pc)
				s.assume(t)
				for _, h := range s.pc[n:] {
					if assumed[h] == nil || c.user {
						assumed[h] = c
					}
				}
			}
		}
		headLen := len(s.pc)
		if ex.V.debugInv {
			for _, c := range live {
				t, _ := c.eval(s, sf)
				ex.debugf("   live %s: %s", c.desc, t)
			}
		}
		// dry run
		sc := &dryScope{depth: depth, header: h, body: li.body[h]}
		d := s.clone()
		wl := newWriteLog(nil)
		d.writes = wl
		d.frames[depth].cuts[h] = &LoopCut{name}
		savedWork, savedStop := ex.work, ex.stopAt
		ex.work = []*State{d}
		ex.stopAt = sc
		ex.dry++
		func() {
			defer func() { ex.work, ex.stopAt = savedWork, savedStop; ex.dry-- }()
			ex.runAll()
		}()
		if ex.extendPlan(plan, wl, threshold) {
			continue
		}
		// 2. preservation at every back edge
		if len(sc.backs) == 0 {
			break
		}
		failed := ex.filterBacks(sc.backs, depth, live, name, headLen, assumed)
		if len(failed) == 0 {
			// termination measures: at least one must work on every back edge
			if ex.dry == 0 && ex.root != nil && ex.root.needTerm(fr) {
				ex.checkMeasure(st, s, fr, sc.backs, depth, h, name)
			}
			break
		}
		var next []*cand
		for _, c := range live {
			if !failed[c] {
				next = append(next, c)
			}
		}
		live = next
	}
	if ex.dry == 0 && ex.root != nil {
		ex.root.noteLoop(name, live, cands)
	}
	for k := range plan.point {
		for r := range plan.point[k] {
			st.writes.add(k, r)
		}
	}
	for k := range plan.full {
		st.writes.add(k, Fresh("anyref", SInt))
	}
	for g := range plan.ghost {
		st.writes.addGhost(g)
	}
	for k := range plan.fresh {
		st.writes.add(k, FreshRef(s.epoch, 1))
	}
	s.writes = st.writes
	s.frames[depth].cuts[h] = &LoopCut{name}
	*st = *s
	return true
}

// extendPlan merges newly observed writes; reports whether it grew.
func (ex *Exec) extendPlan(p *havocPlan, w *writeLog, threshold int) bool {
	grew := false
	for key, refs := range w.locs {
		if p.full[key] {
			continue
		}
		for r := range refs {
			if ri, ok := refTab[r]; ok && ri.fresh && r.id > threshold {
				// allocated during the loop
				if !p.fresh[key] {
					p.fresh[key] = true
					grew = true
				}
				continue
			}
			if symsBelow(r, threshold) {
				if p.point[key] == nil {
					p.point[key] = map[*Term]bool{}
				}
				if !p.point[key][r] {
					p.point[key][r] = true
					grew = true
				}
				continue
			}
			p.full[key] = true
			grew = true
			break
		}
	}
	for g := range w.ghosts {
		if !p.ghost[g] {
			p.ghost[g] = true
			grew = true
		}
	}
	return grew
}

func symsBelow(t *Term, th int) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t.id <= th || seen[t] {
			return true
		}
		seen[t] = true
		if t.op == "sym" {
			return !strings.Contains(t.name, "!") // initial heap arrays and globals are fixed
		}
		for _, a := range t.args {
			if !rec(a) {
				return false
			}
		}
		return true
	}
	return rec(t)
}

func (ex *Exec) havocState(st *State, h *ssa.BasicBlock, p *havocPlan, depth int) *State {
	s := st.clone()
	pe, pk := s.epoch, s.k
	s.epoch = NewEpoch(pe, pk)
	s.k = 0
	if p.full["$everything"] || p.point["$everything"] != nil || p.fresh["$everything"] {
		ex.havocEverything(s)
	}
	for key := range p.full {
		a := s.heap[key]
		if a == nil {
			if a = heapSorts[key]; a == nil {
				continue
			}
			a = s.initArr(key, a.sort)
		}
		s.heap[key] = withConstHeap(key, Fresh("H:"+key, a.sort))
	}
	keys := map[string]bool{}
	for key := range p.point {
		keys[key] = true
	}
	for key := range p.fresh {
		keys[key] = true
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, key := range ks {
		if p.full[key] {
			continue
		}
		a, ok := s.heap[key]
		if !ok {
			// written but not yet materialised before the loop: determine the sort lazily
			a = heapSorts[key]
			if a == nil {
				continue
			}
			a = s.initArr(key, a.sort)
			s.heap[key] = a
		}
		if p.fresh[key] {
			a = mk("havocold", fmt.Sprint(s.epoch), a.sort, Fresh("H:"+key, a.sort), a)
		}
		var refs []*Term
		for r := range p.point[key] {
			refs = append(refs, r)
		}
		sort.Slice(refs, func(i, j int) bool { return refs[i].id < refs[j].id })
		for _, r := range refs {
			fv := Fresh("hv:"+key, a.sort.Elem())
			if k := strings.TrimPrefix(key, "M:"); k != key && a.sort.Elem().IsSeq() {
				// backing arrays never change length
				fv.attach(Eq(SeqLen(fv), SeqLen(Select(a, r))))
			}
			a = Store(a, r, fv)
		}
		s.heap[key] = a
	}
	for g := range p.ghost {
		if cur, ok := s.ghost[g]; ok {
			ng := Fresh("g:"+g, cur.sort)
			s.ghost[g] = ng
			if strings.HasPrefix(g, "$iter") {
				setRange(ng, Int(0).ival, maxLen)
			}
		}
	}
	fr := s.frames[depth]
	for _, ph := range phisOf(h) {
		if _, ok := fr.env[ph].(*IterV); ok {
			continue
		}
		if _, ok := fr.env[ph].(*PtrV); ok {
			// interior pointers: keep when invariant, otherwise outside the subset
			unsup("interior pointer varies in loop")
		}
		nm := ph.Comment
		if nm == "" {
			nm = ph.Name()
		}
		v := symVal(s, nm, ph.Type())
		if sl, ok := v.(*SliceV); ok {
			s.nameSlice(nm, sl)
		}
		fr.env[ph] = v
	}
	return s
}

// filterInit keeps the candidates that hold on loop entry.
func (ex *Exec) filterInit(st *State, fr *Frame, cs []*cand, name string) []*cand {
	keep := make([]bool, len(cs))
	var jobs []job
	for i, c := range cs {
		t, ok := c.eval(st, fr)
		if !ok {
			continue
		}
		if t == True || qs.implied(st.pc, t) {
			keep[i] = true
			continue
		}
		if c.quick || t == False {
			continue
		}
		if t = reduceGoal(st.pc, t); t == True {
			keep[i] = true
			continue
		}
		jobs = append(jobs, mkJob(i, st.pc, t, nil))
	}
	for i, r := range runJobs(jobs, ex.V.invTimeout) {
		keep[i] = r.Status == "unsat"
	}
	var out []*cand
	for i, c := range cs {
		if keep[i] {
			out = append(out, c)
		} else if c.user && ex.V.debugInv {
			ex.debugf("%s: candidate fails initially: %s", name, c.desc)
			if t, ok := c.eval(st, fr); ok {
				ex.debugf("   reduced: %.600s", reduceGoal(st.pc, t))
				if os.Getenv("GOVC_PC") != "" {
					for _, h := range st.pc {
						ex.debugf("     hyp %.300s", h)
					}
				}
			} else {
				ex.debugf("   not evaluable")
			}
		}
	}
	return out
}

type job struct {
	idx     int
	script  string
	goal    *Term
	reduced string // the same goal from a subset of the hypotheses, tried first
}

func (j job) prove(to time.Duration) Result {
	if j.reduced != "" {
		if r := proveScript(j.reduced, to*2/3); r.Status == "unsat" {
			return r
		}
	}
	return proveScript(j.script, to)
}

// mkJob: full query plus a reduced variant
func mkJob(i int, pc []*Term, goal *Term, reduced []*Term) job {
	j := job{idx: i, goal: goal, script: buildScript(pc, goal, maxFuel, false)}
	if reduced == nil {
		reduced = pc
	}
	if r := buildScript(reduced, goal, -1, false); r != j.script {
		j.reduced = r
	}
	return j
}

func runJobs(jobs []job, to time.Duration) map[int]Result {
	out := map[int]Result{}
	type rr struct {
		i int
		r Result
	}
	ch := make(chan rr)
	for _, j := range jobs {
		go func(j job) { ch <- rr{j.idx, j.prove(to)} }(j)
	}
	for range jobs {
		x := <-ch
		if prev, ok := out[x.i]; ok && prev.Status != "unsat" {
			continue
		}
		out[x.i] = x.r
	}
	return out
}

// reducedHyps drops sequence equations that predate the loop and other user candidates.
func reducedHyps(pc []*Term, headLen int, assumed map[*Term]*cand, self *cand) []*Term {
	var out []*Term
	for i, h := range pc {
		if o := assumed[h]; o != nil {
			if o == self || !o.user {
				out = append(out, h)
			}
			continue
		}
		if i < headLen && !quickable(h) {
			continue
		}
		out = append(out, h)
	}
	return out
}

func (ex *Exec) filterBacks(backs []*State, depth int, live []*cand, name string, headLen int, assumed map[*Term]*cand) map[*cand]bool {
	failed := map[*cand]bool{}
	var jobs []job
	var owner []*cand
	for _, b := range backs {
		fr := b.frames[depth]
		for _, c := range live {
			if failed[c] {
				continue
			}
			t, ok := c.eval(b, fr)
			if !ok {
				failed[c] = true
				continue
			}
			if t == True || qs.implied(b.pc, t) {
				continue
			}
			if !c.quick {
				if t = reduceGoal(b.pc, t); t == True {
					continue
				}
				if pc := withInstances(b.pc, t); len(pc) > len(b.pc) && reduceGoal(pc, t) == True {
					continue
				}
			}
			if c.quick {
				failed[c] = true
				continue
			}
			jobs = append(jobs, mkJob(len(owner), b.pc, t, reducedHyps(b.pc, headLen, assumed, c)))
			owner = append(owner, c)
			if ex.root != nil && ex.dry == 0 {
				ex.root.invQueries++
			}
		}
	}
	if len(failed) > 0 {
		// settle the cheap candidates first: user templates are re-checked in the next round
		return failed
	}
	for i, r := range runJobs(jobs, ex.V.invTimeout) {
		if r.Status != "unsat" {
			if !failed[owner[i]] && owner[i].user && ex.V.debugInv {
				ex.debugf("%s: not preserved (%s): %s", name, r.Status, owner[i].desc)
				for _, j := range jobs {
					if j.idx == i && os.Getenv("GOVC_GOAL") != "" {
						ex.debugf("   goal %s", j.goal.String())
					}
				}
				if d := os.Getenv("GOVC_FAILDUMP"); d != "" {
					os.WriteFile(fmt.Sprintf("%s/%s-%d.smt2", d, sanitize(strings.ReplaceAll(owner[i].tpl, "/", "_")), i), []byte(r.Script), 0644)
					for _, j := range jobs {
						if j.idx == i {
							os.WriteFile(fmt.Sprintf("%s/%s-%d-reduced.smt2", d, sanitize(strings.ReplaceAll(owner[i].tpl, "/", "_")), i), []byte(j.reduced), 0644)
						}
					}
				}
			}
			failed[owner[i]] = true
		}
	}
	return failed
}

// checkMeasure proves that some measure strictly decreases on every back edge and is bounded below.
func (ex *Exec) checkMeasure(entry, head *State, fr *Frame, backs []*State, depth int, h *ssa.BasicBlock, name string) {
	ms := ex.measures(head, head.frames[depth], h)
	ex.root.nobl++
	for _, m := range ms {
		ok := true
		m0, good := m.mEval(head, head.frames[depth])
		if !good {
			continue
		}
		for _, b := range backs {
			m1, good := m.mEval(b, b.frames[depth])
			if !good {
				ok = false
				break
			}
			goal := And(Lt(m1, m0), Le(Int(0), m0))
			if qs.implied(b.pc, goal) {
				continue
			}
			if prove(b.pc, goal, maxFuel, ex.V.invTimeout).Status == "unsat" {
				continue
			}
			ok = false
			break
		}
		if ok {
			ex.root.noteTerm(name, m.desc)
			return
		}
	}
	ex.root.failTerm(name)
}

// ---------- candidate generation ----------

type atom struct {
	name string
	T    types.Type
	phi  bool
	get  func(st *State, fr *Frame) (Val, bool)
}

func (ex *Exec) atoms(st *State, fr *Frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) []atom {
	var out []atom
	for _, ph := range phisOf(h) {
		ph := ph
		nm := ph.Comment
		out = append(out, atom{nm, ph.Type(), true, func(s *State, f *Frame) (Val, bool) { v, ok := f.env[ph]; return v, ok }})
	}
	// string iterators
	for _, in := range h.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			if it, ok := fr.env[n.Iter].(*IterV); ok && it.m != nil {
				out = append(out, atom{"visited", setType, true, func(s *State, f *Frame) (Val, bool) { v, ok := s.ghost[it.ghost]; return v, ok }})
				out = append(out, atom{"visitednum", types.Typ[types.Int], true, func(s *State, f *Frame) (Val, bool) { v, ok := s.ghost[it.ghost+"#"]; return v, ok }})
			}
			if it, ok := fr.env[n.Iter].(*IterV); ok && it.str != nil {
				out = append(out, atom{"rangepos", types.Typ[types.Int], true, func(s *State, f *Frame) (Val, bool) { return s.ghost[it.pos], true }})
			}
		}
	}
	// values defined outside the loop and used inside
	seen := map[ssa.Value]bool{}
	for _, b := range fr.fn.Blocks {
		if !body[b] {
			continue
		}
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				v := *op
				if v == nil || seen[v] {
					continue
				}
				seen[v] = true
				if ins, ok := v.(ssa.Instruction); ok && body[ins.Block()] {
					continue
				}
				if _, ok := v.(*ssa.Const); ok {
					continue
				}
				cur, ok := fr.env[v]
				if !ok {
					if fv, isfv := v.(*ssa.FreeVar); isfv {
						for i, f := range fr.fn.FreeVars {
							if f == fv && i < len(fr.bind) {
								cur, ok = fr.bind[i], true
							}
						}
					}
				}
				if !ok {
					continue
				}
				nm := v.Name()
				if a, isA := v.(*ssa.Alloc); isA {
					nm = a.Comment
				}
				if ph, isP := v.(*ssa.Phi); isP && ph.Comment != "" {
					nm = ph.Comment
				}
				// address-taken local (or captured) variables: their content is an atom
				if pt, isP := v.Type().Underlying().(*types.Pointer); isP {
					if ref, isT := cur.(*Term); isT {
						if ri, okr := refTab[ref]; okr && ri.fresh {
							if _, isS := isStruct(pt.Elem()); !isS {
								ET := pt.Elem()
								out = append(out, atom{nm, ET, true, func(s *State, f *Frame) (Val, bool) { return s.load(ref, ET), true }})
								continue
							}
						}
					}
				}
				cv := cur
				out = append(out, atom{nm, v.Type(), false, func(s *State, f *Frame) (Val, bool) { return cv, true }})
			}
		}
	}
	// the variables of enclosing loops that this one does not use
	for _, b := range fr.fn.Blocks {
		if b == h || !b.Dominates(h) || body[b] || !encloses(b, h) {
			continue
		}
		for _, ph := range phisOf(b) {
			cur, ok := fr.env[ph]
			if seen[ph] || !ok {
				continue
			}
			seen[ph] = true
			out = append(out, atom{ph.Comment, ph.Type(), false, func(s *State, f *Frame) (Val, bool) { return cur, true }})
		}
	}
	sort.SliceStable(out, func(i, j int) bool {
		if out[i].phi != out[j].phi {
			return out[i].phi
		}
		return false
	})
	return out
}

// encloses: b heads a loop that contains h
func encloses(b, h *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var reach func(x *ssa.BasicBlock) bool
	reach = func(x *ssa.BasicBlock) bool {
		for _, y := range x.Succs {
			if y == b {
				return true
			}
			if !seen[y] && b.Dominates(y) {
				seen[y] = true
				if reach(y) {
					return true
				}
			}
		}
		return false
	}
	return reach(h)
}

func isIntT(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isSeqT(T types.Type) bool {
	switch u := T.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		return true
	}
	return false
}

func (ex *Exec) candidates(st *State, fr *Frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) []*cand {
	ats := ex.atoms(st, fr, h, body)
	var out []*cand
	tm := func(a atom, off int64) func(s *State, f *Frame) (*Term, bool) {
		return func(s *State, f *Frame) (*Term, bool) {
			v, ok := a.get(s, f)
			if !ok {
				return nil, false
			}
			t, ok := v.(*Term)
			if !ok {
				return nil, false
			}
			return Add(t, Int(off)), true
		}
	}
	// lengths in scope
	type lenT struct {
		desc string
		get  func(s *State, f *Frame) (*Term, bool)
	}
	var lens []lenT
	seqLenOf := func(a atom) func(s *State, f *Frame) (*Term, bool) {
		return func(s *State, f *Frame) (*Term, bool) {
			v, ok := a.get(s, f)
			if !ok {
				return nil, false
			}
			switch x := v.(type) {
			case *SliceV:
				return x.len, true
			case *Term:
				if x.sort.IsSeq() {
					return SeqLen(x), true
				}
			}
			return nil, false
		}
	}
	for _, a := range ats {
		if isSeqT(a.T) {
			lens = append(lens, lenT{"len(" + a.name + ")", seqLenOf(a)})
		} else if !a.phi && isIntT(a.T) {
			lens = append(lens, lenT{a.name, tm(a, 0)})
		}
	}
	if ex.root != nil {
		for _, p := range ex.root.params {
			if isSeqT(p.T) {
				v := p.v
				lens = append(lens, lenT{"len(param " + p.name + ")", func(s *State, f *Frame) (*Term, bool) {
					switch x := v.(type) {
					case *SliceV:
						return x.len, true
					case *Term:
						return SeqLen(x), true
					}
					return nil, false
				}})
			}
		}
	}
	addQ := func(desc string, ev func(s *State, f *Frame) (*Term, bool)) {
		out = append(out, &cand{tpl: "auto", desc: desc, eval: ev, quick: true})
	}
	for _, a := range ats {
		a := a
		if !a.phi {
			continue
		}
		if isIntT(a.T) {
			v0, ok := tm(a, 0)(st, fr)
			if !ok {
				continue
			}
			addQ(a.name+" >= entry", func(s *State, f *Frame) (*Term, bool) {
				t, ok := tm(a, 0)(s, f)
				if !ok {
					return nil, false
				}
				return Le(v0, t), true
			})
			addQ(a.name+" <= entry", func(s *State, f *Frame) (*Term, bool) {
				t, ok := tm(a, 0)(s, f)
				if !ok {
					return nil, false
				}
				return Le(t, v0), true
			})
			for _, c := range []int64{-1, 0} {
				c := c
				addQ(fmt.Sprintf("%s >= %d", a.name, c), func(s *State, f *Frame) (*Term, bool) {
					t, ok := tm(a, 0)(s, f)
					if !ok {
						return nil, false
					}
					return Le(Int(c), t), true
				})
			}
			for _, l := range lens {
				l := l
				for _, off := range []int64{0, 1} {
					off := off
					addQ(fmt.Sprintf("%s+%d <= %s", a.name, off, l.desc), func(s *State, f *Frame) (*Term, bool) {
						t, ok := tm(a, off)(s, f)
						if !ok {
							return nil, false
						}
						n, ok := l.get(s, f)
						if !ok {
							return nil, false
						}
						return Le(t, n), true
					})
				}
			}
			for _, b := range ats {
				b := b
				if b.phi && isIntT(b.T) && a.name+"" != b.name {
					for _, off := range []int64{0, -1} {
						off := off
						addQ(fmt.Sprintf("%s <= %s%+d", a.name, b.name, -off), func(s *State, f *Frame) (*Term, bool) {
							t, ok := tm(a, off)(s, f)
							u, ok2 := tm(b, 0)(s, f)
							if !ok || !ok2 {
								return nil, false
							}
							return Le(t, u), true
						})
					}
				}
			}
		}
		if isSeqT(a.T) {
			v0, ok := seqLenOf(a)(st, fr)
			if ok {
				addQ("len("+a.name+") >= entry", func(s *State, f *Frame) (*Term, bool) {
					t, ok := seqLenOf(a)(s, f)
					if !ok {
						return nil, false
					}
					return Le(v0, t), true
				})
			}
		}
		if isRefType(a.T) || types.IsInterface(a.T) {
			addQ(a.name+" != nil", func(s *State, f *Frame) (*Term, bool) {
				v, ok := a.get(s, f)
				if !ok {
					return nil, false
				}
				t, ok := v.(*Term)
				if !ok {
					return nil, false
				}
				return Not(Eq(t, Int(0))), true
			})
		}
	}
	if ex.root != nil {
		out = append(out, ex.root.templateCands(ex, st, fr, ats)...)
	}
	return out
}

func (ex *Exec) measures(st *State, fr *Frame, h *ssa.BasicBlock) []*cand {
	li := ex.V.loopsOf(fr.fn)
	ats := ex.atoms(st, fr, h, li.body[h])
	var out []*cand
	if ex.root != nil {
		out = append(out, ex.root.measureCands(ex, st, fr, ats)...)
	}
	// automatic: len(seq) - i, i
	for _, a := range ats {
		a := a
		if !a.phi || !isIntT(a.T) {
			continue
		}
		get := func(s *State, f *Frame) (*Term, bool) {
			v, ok := a.get(s, f)
			t, ok2 := v.(*Term)
			return t, ok && ok2
		}
		out = append(out, &cand{desc: a.name, mEval: func(s *State, f *Frame) (*Term, bool) {
			t, ok := get(s, f)
			if !ok {
				return nil, false
			}
			return Add(t, Int(1)), true
		}})
		for _, b := range ats {
			b := b
			if isSeqT(b.T) || (isIntT(b.T) && b.name != a.name) {
				out = append(out, &cand{desc: "bound(" + b.name + ")-" + a.name, mEval: func(s *State, f *Frame) (*Term, bool) {
					t, ok := get(s, f)
					if !ok {
						return nil, false
					}
					v, ok := b.get(s, f)
					if !ok {
						return nil, false
					}
					switch x := v.(type) {
					case *SliceV:
						return Sub(x.len, t), true
					case *Term:
						if x.sort.IsSeq() {
							return Sub(SeqLen(x), t), true
						}
						if x.sort == SInt {
							return Sub(x, t), true
						}
					}
					return nil, false
				}})
			}
		}
	}
	return out
}

func (ex *Exec) unrollOf(fr *Frame) int {
	if ex.root == nil || ex.root.C == nil {
		return 0
	}
	return ex.root.C.Unroll
}

// infeasible: the assumptions of the path contradict each other
func (ex *Exec) infeasible(st *State) bool {
	if qs.implied(st.pc, False) {
		return true
	}
	for _, p := range st.pc {
		if p == False {
			return true
		}
	}
	return prove(instForalls(st.pc, False), False, 4, 20*time.Second).Status == "unsat"
}
