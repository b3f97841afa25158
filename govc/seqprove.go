package main

import (
	"fmt"
	"os"
	"sort"
	"time"
)

// A small rewriting prover for sequence equations. It only ever replaces a goal by an
// equivalent one under the path condition: ite conditions are decided by the arithmetic
// solver, equations among the hypotheses are used as rewrite rules, and recursive
// specification functions are unfolded by their definition. What it cannot close goes to
// the SMT portfolio unchanged.

type seqProver struct {
	pc      []*Term
	eqs     [][2]*Term
	apps    map[*Term]bool
	nths    []*Term
	visited map[*Term]bool
	steps   int
	imemo   map[*Term]bool
	smemo   map[*Term]*Term
}

func newSeqProver(pc []*Term) *seqProver {
	p := &seqProver{pc: pc, apps: map[*Term]bool{}, visited: map[*Term]bool{}, imemo: map[*Term]bool{}, smemo: map[*Term]*Term{}}
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "app" && recFns[t.name] != nil {
			p.apps[t] = true
		}
		if t.op == "seq.nth" && !hasBV(t) {
			p.nths = append(p.nths, t)
		}
		for _, a := range t.args {
			w(a)
		}
	}
	for _, h := range pc {
		w(h)
		p.addEq(h)
	}
	return p
}
func (p *seqProver) addEq(h *Term) {
	if h.op == "and" {
		for _, a := range h.args {
			p.addEq(a)
		}
		return
	}
	if h.op == "or" && hardGoal(h) && len(h.args) <= 4 {
		// unit resolution
		var rest *Term
		for _, d := range h.args {
			if p.imp(Not(d)) {
				continue
			}
			if rest != nil {
				return
			}
			rest = d
		}
		if rest != nil {
			p.addEq(rest)
		}
		return
	}
	if h.op == "=" && h.args[0].sort.IsSeq() && !hasBV(h) {
		p.eqs = append(p.eqs, [2]*Term{h.args[0], h.args[1]})
	}
}

func (p *seqProver) imp(g *Term) bool {
	if g == True {
		return true
	}
	if g == False {
		return false
	}
	if r, ok := p.imemo[g]; ok {
		return r
	}
	r := qs.implied(p.pc, g)
	p.imemo[g] = r
	return r
}

// simp decides ite conditions under the path condition.
func (p *seqProver) simp(t *Term) *Term {
	if r, ok := p.smemo[t]; ok {
		return r
	}
	r := p.simp0(t)
	p.smemo[t] = r
	return r
}
func (p *seqProver) simp0(t *Term) *Term {
	switch t.op {
	case "select":
		// skip stores at provably different references
		a, ch := t.args[0], false
		for {
			if a.op == "store" && a.args[1].sort == SInt && p.imp(Not(Eq(a.args[1], t.args[1]))) {
				a, ch = a.args[0], true
				continue
			}
			break
		}
		if ch {
			return p.simp(Select(a, t.args[1]))
		}
		return t
	case "ite":
		c := t.args[0]
		if p.imp(c) {
			return p.simp(t.args[1])
		}
		if p.imp(Not(c)) {
			return p.simp(t.args[2])
		}
		return Ite(c, p.simp(t.args[1]), p.simp(t.args[2]))
	case "seq.++":
		var ps []*Term
		for _, a := range t.args {
			ps = append(ps, p.simp(a))
		}
		return Cat(ps...)
	case "seq.unit":
		return SeqUnit(p.simp(t.args[0]))
	case "seq.extract":
		if t.args[0].op == "select" && t.name == "wf" {
			if b := p.simp(t.args[0]); b != t.args[0] {
				return p.simp(SubSeq(b, t.args[1], Add(t.args[1], t.args[2])))
			}
		}
		if t.args[2].ival == nil && p.imp(Eq(t.args[2], Int(0))) {
			return SeqEmpty(t.sort)
		}
		if t.name != "wf" {
			s, o, n := t.args[0], t.args[1], t.args[2]
			if p.imp(And(Le(Int(0), o), Le(Int(0), n), Le(Add(o, n), SeqLen(s)))) {
				return p.simp(SubSeq(s, o, Add(o, n)))
			}
		}
		// a slice of a concatenation whose boundaries are decided by the path condition
		if t.args[0].op == "seq.++" {
			if r := p.cutCat(t); r != nil {
				return r
			}
		}
	case "seq.nth":
		if t.args[0].op == "seq.++" {
			pos := Int(0)
			for _, q := range t.args[0].args {
				nx := Add(pos, SeqLen(q))
				d := Sub(t.args[1], pos)
				if p.imp(And(Le(Int(0), d), Lt(d, SeqLen(q)))) {
					return p.simp(Nth(q, d))
				}
				if !p.imp(Le(nx, t.args[1])) {
					break
				}
				pos = nx
			}
		}
	}
	return t
}

func (p *seqProver) cutCat(t *Term) *Term {
	if t.name != "wf" {
		return nil
	}
	lo, hi := t.args[1], Add(t.args[1], t.args[2])
	pos := Int(0)
	var out []*Term
	for _, q := range t.args[0].args {
		nx := Add(pos, SeqLen(q))
		switch {
		case p.imp(Le(nx, lo)) || p.imp(Le(hi, pos)):
		case p.imp(And(Le(lo, pos), Le(nx, hi))):
			out = append(out, q)
		default:
			var a, b *Term
			if p.imp(Le(lo, pos)) {
				a = Int(0)
			} else if p.imp(Le(pos, lo)) {
				a = Sub(lo, pos)
			} else {
				return nil
			}
			if p.imp(Le(nx, hi)) {
				b = SeqLen(q)
			} else if p.imp(Le(hi, nx)) {
				b = Sub(hi, pos)
			} else {
				return nil
			}
			out = append(out, SubSeq(q, a, b))
		}
		pos = nx
	}
	return catOrEmpty(t.sort, out)
}

// norm turns in-range units s[k] into one-element extracts so that they merge.
func (p *seqProver) norm(t *Term) *Term {
	var out []*Term
	for _, q := range parts(t) {
		if q.op == "seq.unit" && q.args[0].op == "seq.nth" {
			n := q.args[0]
			if p.imp(And(Le(Int(0), n.args[1]), Lt(n.args[1], SeqLen(n.args[0])))) {
				q = SubSeq(n.args[0], n.args[1], Add(n.args[1], Int(1)))
			}
		}
		out = append(out, q)
	}
	r := catOrEmpty(t.sort, out)
	// drop extracts that cover nothing, replace those that cover everything
	out = nil
	for _, q := range parts(r) {
		if q.op == "seq.extract" && q.name == "wf" {
			if p.imp(Eq(q.args[2], Int(0))) {
				continue
			}
			if q.args[1].ival == nil || q.args[2] != SeqLen(q.args[0]) {
				if p.imp(And(Eq(q.args[1], Int(0)), Eq(q.args[2], SeqLen(q.args[0])))) {
					q = q.args[0]
				}
			}
		}
		out = append(out, q)
	}
	return catOrEmpty(t.sort, out)
}

func (p *seqProver) partEq(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op != b.op || a.name != b.name || len(a.args) != len(b.args) || len(a.args) == 0 || a.sort != b.sort {
		return false
	}
	for i := range a.args {
		x, y := a.args[i], b.args[i]
		if x == y {
			continue
		}
		if x.sort == SInt && y.sort == SInt {
			if p.imp(Eq(x, y)) {
				continue
			}
		}
		return false
	}
	return true
}

// appEq: two applications with provably equal arguments (sequences through the equations
// among the hypotheses).
func (p *seqProver) appEq(a, b *Term) bool {
	if a.op != b.op || a.name != b.name || len(a.args) != len(b.args) {
		return false
	}
	for i := range a.args {
		x, y := a.args[i], b.args[i]
		if x == y || x.sort == SInt && p.imp(Eq(x, y)) {
			continue
		}
		if !x.sort.IsSeq() {
			return false
		}
		ok := false
		for _, eq := range p.eqs {
			if eq[0] == x && eq[1] == y || eq[0] == y && eq[1] == x {
				ok = true
				break
			}
		}
		if !ok {
			sx, sy := p.simp(x), p.simp(y)
			ok = sx == sy
			for _, eq := range p.eqs {
				l, r := p.simp(eq[0]), p.simp(eq[1])
				if sx == sy || l == sx && r == sy || l == sy && r == sx {
					ok = true
					break
				}
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func (p *seqProver) strip(x, y *Term) (*Term, *Term) {
	a, b := parts(x), parts(y)
	for len(a) > 0 && len(b) > 0 && p.partEq(a[0], b[0]) {
		a, b = a[1:], b[1:]
	}
	for len(a) > 0 && len(b) > 0 && p.partEq(a[len(a)-1], b[len(b)-1]) {
		a, b = a[:len(a)-1], b[:len(b)-1]
	}
	return catOrEmpty(x.sort, a), catOrEmpty(x.sort, b)
}

func (p *seqProver) solve(x, y *Term, depth int) bool {
	p.steps++
	if p.steps > 120 {
		return false
	}
	x, y = p.simp(x), p.simp(y)
	x, y = p.strip(x, y)
	e := Eq(x, y)
	if e == True {
		return true
	}
	if e == False {
		return false
	}
	if quickable(e) && p.imp(e) {
		return true
	}
	if p.visited[e] {
		return false
	}
	p.visited[e] = true
	nx, ny := p.strip(p.norm(x), p.norm(y))
	if ne := Eq(nx, ny); ne == True || quickable(ne) && p.imp(ne) {
		return true
	}
	// empty on one side: every part of the other side must be empty
	if x.op == "seq.empty" || y.op == "seq.empty" {
		o := x
		if x.op == "seq.empty" {
			o = y
		}
		if p.imp(Eq(SeqLen(o), Int(0))) {
			return true
		}
	}
	if depth == 0 {
		return false
	}
	// unfold
	for side, s := range []*Term{x, y} {
		for i, q := range parts(s) {
			if q.op != "app" || recFns[q.name] == nil {
				continue
			}
			u := p.simp(recFns[q.name].unfold(q.args))
			if u.op == "ite" || !p.connects(u, q) {
				continue
			}
			ps := append([]*Term{}, parts(s)...)
			ps[i] = u
			n := Cat(ps...)
			if side == 0 && p.solve(n, y, depth-1) || side == 1 && p.solve(x, n, depth-1) {
				return true
			}
		}
	}
	// rewrite with hypotheses
	try := func(x, y *Term) bool {
		for _, eq := range p.eqs {
			for dir := 0; dir < 2; dir++ {
				a, b := p.simp(eq[dir]), p.simp(eq[1-dir])
				for side := 0; side < 2; side++ {
					s, o := x, y
					if side == 1 {
						s, o = y, x
					}
					if n := p.replace(s, a, b); n != nil {
						if p.solve(n, o, depth-1) {
							return true
						}
					} else if n := p.replaceSub(s, a, b); n != nil && p.solve(n, o, depth-1) {
						return true
					} else if n := p.replaceSlice(s, eq[dir], a, eq[1-dir]); n != nil && p.solve(n, o, depth-1) {
						return true
					}
				}
			}
		}
		return false
	}
	if try(x, y) {
		return true
	}
	if nx != x || ny != y {
		return try(nx, ny)
	}
	return false
}

func (p *seqProver) connects(u, self *Term) bool {
	any, ok := false, false
	vis := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if vis[t] {
			return
		}
		vis[t] = true
		if t.op == "app" && recFns[t.name] != nil {
			any = true
			if p.apps[t] {
				ok = true
			}
			for a := range p.apps {
				if !ok && a.name == t.name && p.partEq(a, t) {
					ok = true
				}
			}
		}
		for _, a := range t.args {
			w(a)
		}
	}
	w(u)
	return !any || ok
}

// replace the first contiguous occurrence of a's parts in s by b (nil when absent)
func (p *seqProver) replace(s, a, b *Term) *Term {
	ps, as := parts(s), parts(a)
	if len(as) == 0 || len(as) > len(ps) {
		return nil
	}
	for i := 0; i+len(as) <= len(ps); i++ {
		ok := true
		for j := range as {
			if !p.partEq(ps[i+j], as[j]) {
				ok = false
				break
			}
		}
		if ok {
			var out []*Term
			out = append(out, ps[:i]...)
			out = append(out, parts(b)...)
			out = append(out, ps[i+len(as):]...)
			return catOrEmpty(s.sort, out)
		}
	}
	return nil
}

// within: q is a slice of P starting at the returned offset (nil when not recognised).
func (p *seqProver) within(q, P *Term) *Term {
	if p.partEq(q, P) {
		return Int(0)
	}
	if q.op != "seq.extract" || q.name != "wf" {
		return nil
	}
	if q.args[0] == P {
		return q.args[1]
	}
	if P.op == "seq.extract" && P.name == "wf" && P.args[0] == q.args[0] {
		d := Sub(q.args[1], P.args[1])
		if p.imp(And(Le(Int(0), d), Le(Add(d, q.args[2]), P.args[2]))) {
			return d
		}
	}
	return nil
}

// replaceSlice: a part of s that is a slice of the whole of a (simplified: sa) becomes the
// same slice of b (a == b), composed with the slice b may itself be.
func (p *seqProver) replaceSlice(s, a, sa, b *Term) *Term {
	ps := parts(s)
	for k, q := range ps {
		if q.op != "seq.extract" || q.name != "wf" || (q.args[0] != a && q.args[0] != sa) {
			continue
		}
		o, n := q.args[1], q.args[2]
		if b.op == "seq.extract" && (b.name == "wf" || p.imp(And(Le(Int(0), b.args[1]), Le(Int(0), b.args[2]), Le(Add(b.args[1], b.args[2]), SeqLen(b.args[0]))))) {
			o, b = Add(o, b.args[1]), b.args[0]
		}
		var out []*Term
		out = append(out, ps[:k]...)
		out = append(out, parts(p.simp(SubSeq(b, o, Add(o, n))))...)
		out = append(out, ps[k+1:]...)
		return catOrEmpty(s.sort, out)
	}
	return nil
}

// replaceSub: a run of parts of s that is a slice of a becomes the same slice of b (a == b).
func (p *seqProver) replaceSub(s, a, b *Term) *Term {
	ps, as := parts(s), parts(a)
	if len(as) < 2 {
		return nil
	}
	pos := Int(0)
	for i := range as {
		for k := range ps {
			off := p.within(ps[k], as[i])
			if off == nil {
				continue
			}
			// extend to the right while the run covers as[i..j] completely up to the last part
			j, last := i, k
			end := Add(off, SeqLen(ps[k]))
			for j+1 < len(as) && last+1 < len(ps) && p.imp(Eq(end, SeqLen(as[j]))) {
				o := p.within(ps[last+1], as[j+1])
				if o == nil || !p.imp(Eq(o, Int(0))) {
					break
				}
				j++
				last++
				end = SeqLen(ps[last])
			}
			if j == i {
				continue // a slice of a single part says nothing new
			}
			lo := Add(pos, off)
			n := Int(0)
			for _, q := range ps[k : last+1] {
				n = Add(n, SeqLen(q))
			}
			var out []*Term
			out = append(out, ps[:k]...)
			out = append(out, parts(p.simp(SubSeq(b, lo, Add(lo, n))))...)
			out = append(out, ps[last+1:]...)
			return catOrEmpty(s.sort, out)
		}
		pos = Add(pos, SeqLen(as[i]))
	}
	return nil
}

// rw rewrites inside a goal: recursive functions are unfolded where the recursive call is
// already known, and sequence elements are read through equations among the hypotheses.
func (p *seqProver) rw(t *Term, depth int) *Term {
	if hasBV(t) {
		return t
	}
	sub := func() []*Term {
		out := make([]*Term, len(t.args))
		for i, a := range t.args {
			out[i] = p.rw(a, depth)
		}
		return out
	}
	switch t.op {
	case "and":
		return And(sub()...)
	case "or":
		return Or(sub()...)
	case "not":
		return Not(p.rw(t.args[0], depth))
	case "=":
		if t.args[0].sort.IsSeq() || t.args[0].sort.IsArray() {
			return t
		}
		a := sub()
		return Eq(a[0], a[1])
	case "<=":
		a := sub()
		return Le(a[0], a[1])
	case "+":
		if t.sort == SInt {
			return Add(sub()...)
		}
	case "*":
		if a := sub(); t.sort == SInt && len(a) == 2 {
			return Mul(a[0], a[1])
		}
	case "ite":
		if p.imp(t.args[0]) {
			return p.rw(t.args[1], depth)
		}
		if p.imp(Not(t.args[0])) {
			return p.rw(t.args[2], depth)
		}
		return Ite(p.rw(t.args[0], depth), p.rw(t.args[1], depth), p.rw(t.args[2], depth))
	case "app":
		if f := recFns[t.name]; f != nil && depth > 0 && !p.apps[t] {
			u := f.unfold(t.args)
			if u.op == "or" {
				for _, d := range u.args {
					if quickable(d) && p.imp(d) {
						return True
					}
				}
			}
			if u.ival != nil || u.op == "true" || u.op == "false" {
				return u
			}
			if u.op == "ite" && u.args[1].ival != nil && p.imp(u.args[0]) {
				return u.args[1]
			}
			for _, a := range sortedApps(p.apps) {
				if a.name == t.name && p.appEq(a, t) {
					return a
				}
			}
			if u.op == "ite" {
				if p.imp(u.args[0]) {
					u = u.args[1]
				} else if p.imp(Not(u.args[0])) {
					u = u.args[2]
				} else {
					return t
				}
				if u.ival != nil {
					return u
				}
			}
			if p.connects(u, t) {
				return p.rw(u, depth-1)
			}
		}
	case "seq.nth":
		return p.nthVia(t)
	}
	return t
}

// nthVia reads an element through the equations among the hypotheses, and as an element the
// hypotheses already mention where the index is provably the same.
func (p *seqProver) nthVia(t *Term) *Term {
	alts := p.nthAlts(t)
	for _, a := range alts {
		if a.op != "seq.nth" {
			return a
		}
	}
	for _, a := range alts {
		for _, h := range p.nths {
			if h == a {
				return h
			}
		}
	}
	for _, a := range alts {
		for _, h := range p.nths {
			if h.args[0] == a.args[0] || p.simp(h.args[0]) == a.args[0] {
				if p.imp(Eq(h.args[1], a.args[1])) {
					return h
				}
			}
		}
	}
	for _, a := range alts {
		if a.args[0].op != "seq.++" {
			return a
		}
	}
	return alts[0]
}

// nthAlts: the same element, read through equations among the hypotheses.
func (p *seqProver) nthAlts(t *Term) []*Term {
	t = p.simp(t)
	out := []*Term{t}
	if t.op != "seq.nth" {
		return out
	}
	s, j := t.args[0], t.args[1]
	for _, eq := range p.eqs {
		for dir := 0; dir < 2; dir++ {
			e, o := eq[dir], eq[1-dir]
			off := Int(0)
			switch {
			case e == s:
			case e.op == "seq.extract" && e.args[0] == s && (e.name == "wf" || p.imp(And(Le(Int(0), e.args[1]), Le(Int(0), e.args[2]), Le(Add(e.args[1], e.args[2]), SeqLen(s))))):
				off = e.args[1]
			default:
				continue
			}
			d := Sub(j, off)
			if p.imp(And(Le(Int(0), d), Lt(d, SeqLen(e)))) {
				out = append(out, p.simp(Nth(o, d)))
			}
		}
	}
	return out
}

// reduceGoal removes conjuncts it can prove; the result is equivalent to goal under pc.
var predDepth int

// known: goal is made of terms in have
func known(have map[*Term]bool, goal *Term) bool {
	if goal == True || have[goal] || have[False] {
		return true
	}
	switch goal.op {
	case "or":
		for _, a := range goal.args {
			if known(have, a) {
				return true
			}
		}
	case "and":
		for _, a := range goal.args {
			if !known(have, a) {
				return false
			}
		}
		return true
	}
	return false
}

func reduceGoal(pc []*Term, goal *Term) *Term {
	if goal == True {
		return goal
	}
	if goal.op == "or" || goal.op == "and" {
		have := make(map[*Term]bool, len(pc))
		for _, p := range pc {
			have[p] = true
		}
		if known(have, goal) {
			return True
		}
	}
	cs := []*Term{goal}
	if goal.op == "and" {
		cs = goal.args
	}
	var p *seqProver
	var out []*Term
	for _, c := range cs {
		if c.op == "app" && c.sort == SBool && recFns[c.name] != nil && predDepth < 3 {
			// a predicate: by its definition
			predDepth++
			r := reduceGoal(pc, recFns[c.name].unfold(c.args))
			predDepth--
			if r == True {
				continue
			}
		}
		if c.op == "exists" {
			if reduceBV(pc, c) != True {
				out = append(out, c)
			}
			continue
		}
		if c.op == "forall" && !hasBV(c) {
			if proveForall(pc, c) {
				continue
			}
			out = append(out, c)
			continue
		}
		if hasBV(c) {
			out = append(out, c)
			continue
		}
		if (quickable(c) || c.op == "app" || c.op == "ite") && qs.implied(pc, c) {
			continue
		}
		if c.op == "ite" && c.sort == SBool {
			a := append(underCond(pc, c.args[0], true), flatten(c.args[0])...)
			b := append(underCond(pc, c.args[0], false), flatten(Not(c.args[0]))...)
			if (qs.infeasible(a) || reduceGoal(a, c.args[1]) == True) && (qs.infeasible(b) || reduceGoal(b, c.args[2]) == True) {
				continue
			}
		}
		if c.op == "=" && c.args[0].sort.IsSeq() {
			if p == nil {
				p = newSeqProver(pc)
			}
			p.steps = 0
			p.visited = map[*Term]bool{}
			if p.solve(c.args[0], c.args[1], 4) {
				continue
			}
		}
		if c.op == "app" && c.sort == SBool {
			if p == nil {
				p = newSeqProver(pc)
			}
			done := false
			for _, h := range pc {
				if h.op == "app" && h.name == c.name && p.appEq(c, h) {
					done = true
					break
				}
			}
			if done {
				continue
			}
		}
		if !(c.op == "=" && c.args[0].sort.IsSeq()) {
			if p == nil {
				p = newSeqProver(pc)
			}
			r := p.rw(c, 3)
			if r != c && (r == True || qs.implied(pc, r)) {
				continue
			}
			if quickable(r) {
				if rpc := rewriteReads(p, pc); len(rpc) > len(pc) && qs.implied(rpc, r) {
					continue
				}
			}
		}
		if c.op == "or" {
			// prove one disjunct from the negation of the others
			done := false
			var soft, hard []*Term
			for _, d := range c.args {
				m := map[string]bool{}
				appNames(d, m)
				if len(m) == 0 {
					soft = append(soft, flatten(Not(d))...)
				} else {
					hard = append(hard, d)
				}
			}
			if len(soft) > 0 && len(hard) > 1 && reduceGoal(append(pc[:len(pc):len(pc)], soft...), Or(hard...)) == True {
				continue
			}
			for i, d := range c.args {
				if !hardGoal(d) {
					continue
				}
				pc2 := pc[:len(pc):len(pc)]
				for j, o := range c.args {
					if j != i {
						pc2 = append(pc2, flatten(Not(o))...)
					}
				}
				if qs.infeasible(pc2) || reduceGoal(pc2, d) == True {
					done = true
					break
				}
			}
			if done {
				continue
			}
		}
		if caseSplit(pc, c) {
			continue
		}
		if os.Getenv("GOVC_RW") != "" {
			fmt.Fprintf(os.Stderr, "LEFT %d %s\n", splitDepth, c)
			if os.Getenv("GOVC_RW") == fmt.Sprint(splitDepth+2) {
				for _, h := range pc {
					fmt.Fprintf(os.Stderr, "  HYP %s\n", h)
				}
				os.Exit(3)
			}
		}
		out = append(out, c)
	}
	return And(out...)
}

// reduceBV proves an existential goal (possibly under a disjunction) from a witness: an
// integer some recursive function is applied to in the hypotheses at the position where the
// goal applies it to the bound variable, or a neighbour of it.
func reduceBV(pc []*Term, c *Term) *Term {
	switch c.op {
	case "exists":
		bv, body := c.args[0], c.args[1]
		type pos struct {
			f string
			i int
		}
		want := map[pos]bool{}
		vis := map[*Term]bool{}
		var w func(t *Term)
		w = func(t *Term) {
			if vis[t] {
				return
			}
			vis[t] = true
			if t.op == "app" {
				for i, a := range t.args {
					if a == bv {
						want[pos{t.name, i}] = true
					}
				}
			}
			for _, a := range t.args {
				w(a)
			}
		}
		w(body)
		p := newSeqProver(pc)
		tried := map[*Term]bool{}
		for _, t := range sortedApps(p.apps) {
			for i, a := range t.args {
				if !want[pos{t.name, i}] || hasBV(a) {
					continue
				}
				for _, d := range []int64{0, 1} {
					x := Add(a, Int(d))
					if tried[x] {
						continue
					}
					tried[x] = true
					if len(tried) > 24 {
						return c
					}
					if reduceGoal(pc, substTerm(body, bv, x)) == True {
						return True
					}
				}
			}
		}
	}
	return c
}

func sortedApps(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id > out[j].id })
	return out
}

func flatten(t *Term) []*Term {
	if t.op == "and" {
		var out []*Term
		for _, a := range t.args {
			out = append(out, flatten(a)...)
		}
		return out
	}
	if t.op == "exists" && !hasBV(t) && t.args[0].sort == SInt {
		// a hypothesis: name its witness
		return append(flatten(substTerm(t.args[1], t.args[0], NamedSym(fmt.Sprintf("wit:%d", t.id), SInt))), t)
	}
	return []*Term{t}
}

// hardGoal: needs more than the arithmetic abstraction
func hardGoal(t *Term) bool {
	vis := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if vis[t] {
			return false
		}
		vis[t] = true
		if t.op == "exists" || t.op == "app" && recFns[t.name] != nil || t.op == "=" && t.args[0].sort.IsSeq() {
			return true
		}
		for _, a := range t.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

// splitDepth bounds the nesting of case splits over hypotheses; splitEnd their time.
var (
	splitDepth int
	splitEnd   time.Time
)

func richOr(h *Term) bool {
	if h.op != "or" || len(h.args) > 4 || hasBV(h) {
		return false
	}
	for _, d := range h.args {
		if d.op == "and" || d.op == "app" || d.op == "or" {
			return true
		}
	}
	return false
}

// caseSplit tries to close a goal by case analysis over one disjunctive hypothesis.
func caseSplit(pc []*Term, c *Term) bool {
	if splitDepth >= 2 {
		return false
	}
	if splitDepth == 0 {
		splitEnd = time.Now().Add(time.Duration(envInt("GOVC_SPLIT", 3)) * time.Second)
	}
	splitDepth++
	defer func() { splitDepth-- }()
	// hypotheses with a single live case first
	var ors []int
	for i := len(pc) - 1; i >= 0 && len(ors) < 6; i-- {
		if richOr(pc[i]) {
			ors = append(ors, i)
		}
	}
	names := map[string]bool{}
	appNames(c, names)
	sort.SliceStable(ors, func(i, j int) bool {
		return relevance(pc[ors[i]], names) > relevance(pc[ors[j]], names)
	})
	var hs [][][]*Term
	decided := false
	base := append([]*Term{}, pc...)
	for _, i := range ors {
		var live [][]*Term
		for _, d := range pc[i].args {
			fl := flatten(d)
			if !qs.infeasible(append(base[:len(base):len(base)], fl...)) {
				live = append(live, fl)
			}
		}
		switch len(live) {
		case 0:
			return true
		case 1:
			base[i] = True
			base = append(base, live[0]...)
			decided = true
		default:
			hs = append(hs, live)
		}
		if time.Now().After(splitEnd) {
			return false
		}
	}
	if decided && reduceGoal(base, c) == True {
		return true
	}
	for _, live := range hs {
		ok := true
		for _, fl := range live {
			if time.Now().After(splitEnd) || reduceGoal(append(base[:len(base):len(base)], fl...), c) != True {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func appNames(t *Term, out map[string]bool) {
	seen := map[*Term]bool{}
	var w func(*Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "app" {
			out[t.name] = true
		}
		if t.op == "seq.nth" || t.op == "=" && t.args[0].sort.IsSeq() {
			out[t.op] = true
		}
		for _, a := range t.args {
			w(a)
		}
	}
	w(t)
}

func relevance(h *Term, names map[string]bool) int {
	m := map[string]bool{}
	appNames(h, m)
	n := 0
	for k := range m {
		if names[k] {
			n++
		}
	}
	return n
}

// underCond replaces hypotheses that are conditionals on c by the branch taken.
func underCond(pc []*Term, c *Term, taken bool) []*Term {
	out := make([]*Term, 0, len(pc)+8)
	for _, p := range pc {
		if p.op == "ite" && p.args[0] == c {
			if taken {
				out = append(out, flatten(p.args[1])...)
			} else {
				out = append(out, flatten(p.args[2])...)
			}
			continue
		}
		out = append(out, p)
	}
	return out
}

// proveForall proves the body for an arbitrary constant, with instances of the hypotheses.
func proveForall(pc []*Term, c *Term) bool {
	for _, p := range pc {
		if p == c {
			return true
		}
	}
	sk := Fresh("sk", SInt)
	body := substTerm(c.args[1], c.args[0], sk)
	hyp := pc[:len(pc):len(pc)]
	var goals []*Term
	ds := []*Term{body}
	if body.op == "or" {
		ds = body.args
	}
	for _, d := range ds {
		if d.op == "<=" || d.op == "not" && d.args[0].op == "<=" {
			hyp = append(hyp, flatten(Not(d))...)
		} else {
			goals = append(goals, d)
		}
	}
	g := Or(goals...)
	if len(goals) == 0 {
		g = False
	}
	return proveReads(hyp, g, 6)
}

// proveReads proves g after splitting on which part of a concatenation its reads are in.
func proveReads(hyp []*Term, g *Term, depth int) bool {
	if g == True {
		return true
	}
	if g.op == "and" {
		for _, a := range g.args {
			if !proveReads(hyp, a, depth) {
				return false
			}
		}
		return true
	}
	if r := catRead(g, map[*Term]bool{}); r != nil && depth > 0 {
		c, i := r.args[0], r.args[1]
		last := c.args[len(c.args)-1]
		front := Cat(c.args[:len(c.args)-1]...)
		in := Lt(i, SeqLen(front))
		h1 := append(hyp[:len(hyp):len(hyp)], flatten(in)...)
		h2 := append(hyp[:len(hyp):len(hyp)], flatten(Not(in))...)
		if !qs.implied(hyp, Not(in)) && !proveReads(h1, substTerm(g, r, Nth(front, i)), depth-1) {
			return false
		}
		if qs.implied(hyp, in) {
			return true
		}
		if last.op == "seq.unit" {
			// the index is in range of the whole (an index beyond it is not the last element)
			if !qs.implied(h2, Eq(i, SeqLen(front))) {
				return false
			}
			return proveReads(h2, substTerm(g, r, last.args[0]), depth-1)
		}
		return proveReads(h2, substTerm(g, r, Nth(last, Sub(i, SeqLen(front)))), depth-1)
	}
	hyp = instForalls(hyp, g)
	if quickable(g) && qs.implied(hyp, g) {
		return true
	}
	return g != False && reduceGoal(hyp, g) == True
}

func catRead(t *Term, seen map[*Term]bool) *Term {
	if seen[t] || t.op == "forall" || t.op == "exists" {
		return nil
	}
	seen[t] = true
	if t.op == "seq.nth" && t.args[0].op == "seq.++" && !hasBV(t) {
		return t
	}
	for _, a := range t.args {
		if r := catRead(a, seen); r != nil {
			return r
		}
	}
	return nil
}

// rewriteReads adds the rewritten form of the hypotheses that read a part of a sequence.
func rewriteReads(p *seqProver, pc []*Term) []*Term {
	out := pc[:len(pc):len(pc)]
	for _, h := range pc {
		if hasBV(h) || h.op == "forall" || h.op == "exists" || !readsPart(h, map[*Term]bool{}) {
			continue
		}
		if r := p.rw(h, 3); r != h && r != True {
			out = append(out, flatten(r)...)
		}
	}
	return out
}

func readsPart(t *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if t.op == "seq.nth" && t.args[0].op == "seq.extract" {
		return true
	}
	for _, a := range t.args {
		if readsPart(a, seen) {
			return true
		}
	}
	return false
}
