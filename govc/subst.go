package main

import (
	"strconv"
	"strings"
)

// substTerm replaces x by w in t, rebuilding with the simplifying constructors.
func substTerm(t, x, w *Term) *Term {
	return (&substituter{x: x, w: w, memo: map[*Term]*Term{}}).do(t)
}

type substituter struct {
	x, w *Term
	memo map[*Term]*Term
}

func (s *substituter) do(t *Term) *Term {
	if t == s.x {
		return s.w
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	as := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		as[i] = s.do(a)
		ch = ch || as[i] != a
	}
	r := t
	if ch {
		r = rebuild(t, as)
		if r.sort == SInt && r.ival == nil && (t.lo != nil || t.hi != nil) && r.op == t.op {
			setRange(r, t.lo, t.hi)
		}
	}
	s.memo[t] = r
	return r
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "not":
		return Not(a[0])
	case "=":
		return Eq(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "+":
		if t.sort == SInt {
			return Add(a...)
		}
	case "*":
		if t.sort == SInt && len(a) == 2 {
			return Mul(a[0], a[1])
		}
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "seq.++":
		return Cat(a...)
	case "seq.unit":
		return SeqUnit(a[0])
	case "seq.len":
		return SeqLen(a[0])
	case "seq.nth":
		return Nth(a[0], a[1])
	case "seq.extract":
		if t.name != "wf" {
			break
		}
		return SubSeq(a[0], a[1], Add(a[1], a[2]))
	case "select":
		return Select(a[0], a[1])
	}
	if strings.HasPrefix(t.op, "sel:") && len(a) == 1 {
		if i := strings.LastIndexByte(t.op, ':'); i > 4 {
			if k, err := strconv.Atoi(t.op[i+1:]); err == nil {
				return sel(t.op[4:i], k, t.sort, a[0])
			}
		}
	}
	switch t.op {
	case "store":
		return Store(a[0], a[1], a[2])
	}
	return mk(t.op, t.name, t.sort, a...)
}
