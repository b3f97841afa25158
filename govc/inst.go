package main

import "sort"

// Ground instances of universally quantified hypotheses: forall k: body is
// instantiated at the indexes at which the goal and the quantifier-free
// hypotheses read a sequence or memory array of the same sort as one that body
// reads at k plus something. Adding instances of a hypothesis is always sound.

type idxUse struct {
	sort Sort
	idx  *Term
}

func indexUses(ts []*Term, out map[idxUse]bool, seen map[*Term]bool) {
	for _, t := range ts {
		if seen[t] {
			continue
		}
		seen[t] = true
		if (t.op == "seq.nth" || t.op == "select") && t.args[1].sort == SInt {
			out[idxUse{t.args[0].sort, t.args[1]}] = true
			// position in the sequence it is a part of
			idx := t.args[1]
			for q := t.args[0]; q.op == "seq.extract"; q = q.args[0] {
				idx = Add(idx, q.args[1])
				out[idxUse{t.args[0].sort, idx}] = true
			}
		}
		indexUses(t.args, out, seen)
	}
}

// instForalls returns pc extended with instances of its forall hypotheses.
func instForalls(pc []*Term, goal *Term) []*Term {
	var foralls []*Term
	for _, p := range pc {
		if p.op == "forall" {
			foralls = append(foralls, p)
		}
	}
	if len(foralls) == 0 {
		return pc
	}
	uses := map[idxUse]bool{}
	seen := map[*Term]bool{}
	indexUses([]*Term{goal}, uses, seen)
	indexUses(pc, uses, seen)
	order := []idxUse{}
	for u := range uses {
		if !hasBV(u.idx) {
			order = append(order, u)
		}
	}
	sortUses(order)
	have := map[*Term]bool{}
	for _, p := range pc {
		have[p] = true
	}
	out := pc[:len(pc):len(pc)]
	for _, f := range foralls {
		bv, body := f.args[0], f.args[1]
		pats := map[idxUse]bool{}
		indexUses([]*Term{body}, pats, map[*Term]bool{})
		n := 0
		for p := range pats {
			rest := Sub(p.idx, bv)
			if hasBV(rest) {
				continue
			}
			for _, u := range order {
				if u.sort != p.sort || n > 60 {
					continue
				}
				inst := substTerm(body, bv, Sub(u.idx, rest))
				for _, c := range flatten(inst) {
					if c != True && !have[c] && !hasBV(c) {
						have[c] = true
						out = append(out, c)
						n++
					}
				}
			}
		}
	}
	return out
}

// withInstances is instForalls with the disjunctive instances reduced to the disjuncts
// that the hypotheses do not refute: a single one left is known to hold.
func withInstances(pc []*Term, goal *Term) []*Term {
	out := instForalls(pc, goal)
	n := len(out)
	for _, c := range out[len(pc):n:n] {
		if c.op != "or" {
			continue
		}
		var left []*Term
		for _, d := range c.args {
			if quickable(d) && qs.implied(pc, Not(d)) {
				continue
			}
			if left = append(left, d); len(left) > 1 {
				break
			}
		}
		if len(left) == 1 {
			out = append(out, flatten(left[0])...)
		}
	}
	return out
}

func sortUses(us []idxUse) {
	key := func(u idxUse) string { return string(u.sort) + u.idx.String() }
	ks := make(map[idxUse]string, len(us))
	for _, u := range us {
		ks[u] = key(u)
	}
	sort.Slice(us, func(i, j int) bool { return ks[us[i]] < ks[us[j]] })
}
