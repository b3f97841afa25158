package main

// Terms: hash-consed first-order terms with light simplification.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SReal Sort = "Real"
	SSeq  Sort = "(Seq Int)"
)

func SeqOf(e Sort) Sort      { return Sort("(Seq " + string(e) + ")") }
func ArrOf(k, v Sort) Sort   { return Sort("(Array " + string(k) + " " + string(v) + ")") }
func (s Sort) IsSeq() bool   { return strings.HasPrefix(string(s), "(Seq ") }
func (s Sort) IsArray() bool { return strings.HasPrefix(string(s), "(Array ") }
func (s Sort) Elem() Sort {
	if s.IsSeq() {
		return Sort(strings.TrimSuffix(strings.TrimPrefix(string(s), "(Seq "), ")"))
	}
	if s.IsArray() {
		_, v := s.arrParts()
		return v
	}
	panic("Elem of " + string(s))
}
func (s Sort) arrParts() (Sort, Sort) {
	in := strings.TrimSuffix(strings.TrimPrefix(string(s), "(Array "), ")")
	depth := 0
	for i, c := range in {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(in[:i]), Sort(in[i+1:])
			}
		}
	}
	panic("bad array sort " + string(s))
}

type Term struct {
	id   int
	op   string // SMT operator or symbol name
	args []*Term
	sort Sort
	ival *big.Int // for integer constants (op "#int")
	rval *big.Rat // op "#real"
	// symbol (declared constant) when op=="sym"
	name string
	// known constant bounds for integer terms (optional)
	lo, hi *big.Int
	// facts universally valid about this term, added to each query containing it
	facts []*Term
}

var (
	termTab = map[string]*Term{}
	termSeq int
)

func mk(op, name string, sort Sort, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(string(sort))
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termSeq++
	t := &Term{id: termSeq, op: op, name: name, sort: sort, args: args}
	termTab[k] = t
	return t
}

func BigInt(v *big.Int) *Term {
	t := mk("#int", v.String(), SInt)
	if t.ival == nil {
		t.ival = new(big.Int).Set(v)
		t.lo, t.hi = t.ival, t.ival
	}
	return t
}
func Int(v int64) *Term { return BigInt(big.NewInt(v)) }
func Real(v *big.Rat) *Term {
	t := mk("#real", v.RatString(), SReal)
	if t.rval == nil {
		t.rval = new(big.Rat).Set(v)
	}
	return t
}

var True = mk("true", "", SBool)
var False = mk("false", "", SBool)

func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

var symCount = map[string]int{}

// Sym makes a fresh symbol.
func Fresh(base string, sort Sort) *Term {
	base = sanitize(base)
	symCount[base]++
	return mk("sym", fmt.Sprintf("%s!%d", base, symCount[base]), sort)
}
func NamedSym(name string, sort Sort) *Term { return mk("sym", sanitize(name), sort) }

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '!', r == '$', r == '/', r == '-', r == '@':
			b.WriteRune(r)
		case r == '*':
			b.WriteByte('^')
		default:
			b.WriteByte('_')
		}
	}
	return b.String()
}

// FreshInt with constant bounds.
func FreshRange(base string, lo, hi *big.Int) *Term {
	t := Fresh(base, SInt)
	setRange(t, lo, hi)
	return t
}

// setRange records constant bounds of t for the simplifier and, as raw facts, for the solver.
func setRange(t *Term, lo, hi *big.Int) {
	if t.ival != nil {
		return
	}
	if lo != nil && (t.lo == nil || t.lo.Cmp(lo) < 0) {
		t.lo = lo
		t.attach(mk("<=", "", SBool, BigInt(lo), t))
	}
	if hi != nil && (t.hi == nil || t.hi.Cmp(hi) > 0) {
		t.hi = hi
		t.attach(mk("<=", "", SBool, t, BigInt(hi)))
	}
}

func (t *Term) attach(f *Term) {
	if f == True {
		return
	}
	for _, g := range t.facts {
		if g == f {
			return
		}
	}
	t.facts = append(t.facts, f)
}

func (t *Term) isConst() bool {
	return t.op == "#int" || t.op == "true" || t.op == "false" || t.op == "#real"
}

// ---------- bounds ----------

func bounds(t *Term) (lo, hi *big.Int) {
	if t.sort != SInt {
		return nil, nil
	}
	if t.lo != nil || t.hi != nil {
		return t.lo, t.hi
	}
	switch t.op {
	case "+":
		lo, hi = big.NewInt(0), big.NewInt(0)
		for _, a := range t.args {
			l, h := bounds(a)
			if lo != nil {
				if l == nil {
					lo = nil
				} else {
					lo = new(big.Int).Add(lo, l)
				}
			}
			if hi != nil {
				if h == nil {
					hi = nil
				} else {
					hi = new(big.Int).Add(hi, h)
				}
			}
		}
	case "*":
		if t.args[0].ival != nil {
			l, h := bounds(t.args[1])
			c := t.args[0].ival
			if c.Sign() < 0 {
				l, h = h, l
			}
			if l != nil {
				lo = new(big.Int).Mul(c, l)
			}
			if h != nil {
				hi = new(big.Int).Mul(c, h)
			}
		} else {
			l1, h1 := bounds(t.args[0])
			l2, h2 := bounds(t.args[1])
			if l1 != nil && l2 != nil && l1.Sign() >= 0 && l2.Sign() >= 0 {
				lo = new(big.Int).Mul(l1, l2)
				if h1 != nil && h2 != nil {
					hi = new(big.Int).Mul(h1, h2)
				}
			}
		}
	case "div":
		if c := t.args[1].ival; c != nil && c.Sign() > 0 {
			l, h := bounds(t.args[0])
			if l != nil {
				lo = floorDiv(l, c)
			}
			if h != nil {
				hi = floorDiv(h, c)
			}
		}
	case "mod":
		if c := t.args[1].ival; c != nil && c.Sign() > 0 {
			lo = big.NewInt(0)
			hi = new(big.Int).Sub(c, big.NewInt(1))
			l, h := bounds(t.args[0])
			if l != nil && l.Sign() >= 0 && h != nil && h.Cmp(hi) < 0 {
				hi = h
			}
		}
	case "ite":
		l1, h1 := bounds(t.args[1])
		l2, h2 := bounds(t.args[2])
		if l1 != nil && l2 != nil {
			lo = minB(l1, l2)
		}
		if h1 != nil && h2 != nil {
			hi = maxB(h1, h2)
		}
	}
	t.lo, t.hi = lo, hi
	return
}

// platform assumption: no slice or string is longer than 2^47-1 elements (amd64 address space)
var maxLen = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 47), big.NewInt(1))

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}
func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(a, b, new(big.Int))
	_ = m
	return q
}

// ---------- integers ----------

type lin struct {
	c     *big.Int
	coef  map[*Term]*big.Int
	atoms []*Term
}

func linOf(t *Term) *lin {
	l := &lin{c: new(big.Int), coef: map[*Term]*big.Int{}}
	l.add(t, big.NewInt(1))
	return l
}
func (l *lin) add(t *Term, k *big.Int) {
	switch {
	case t.ival != nil:
		l.c.Add(l.c, new(big.Int).Mul(k, t.ival))
	case t.op == "+":
		for _, a := range t.args {
			l.add(a, k)
		}
	case t.op == "*" && t.args[0].ival != nil:
		l.add(t.args[1], new(big.Int).Mul(k, t.args[0].ival))
	default:
		if c, ok := l.coef[t]; ok {
			c.Add(c, k)
		} else {
			l.coef[t] = new(big.Int).Set(k)
			l.atoms = append(l.atoms, t)
		}
	}
}
func (l *lin) sorted() []*Term {
	var out []*Term
	for _, a := range l.atoms {
		if l.coef[a].Sign() != 0 {
			out = append(out, a)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// foldDivMod rewrites k*a - k*c*(a div c) to k*(a mod c) and k*(a mod c) + k*c*(a div c) to k*a.
func (l *lin) foldDivMod() {
	for again := true; again; {
		again = false
		for _, d := range l.sorted() {
			if d.op != "div" || d.args[1].ival == nil || d.args[1].ival.Sign() <= 0 {
				continue
			}
			a, c, q := d.args[0], d.args[1], l.coef[d]
			if m, r := new(big.Int).QuoRem(q, c.ival, new(big.Int)); r.Sign() == 0 {
				if k := l.coef[a]; k != nil && k.Sign() != 0 && k.Cmp(new(big.Int).Neg(m)) == 0 {
					kk := new(big.Int).Set(k)
					k.SetInt64(0)
					q.SetInt64(0)
					l.add(ModE(a, c), kk)
					again = true
					break
				}
				md := mk("mod", "", SInt, a, c)
				if k := l.coef[md]; k != nil && k.Sign() != 0 && k.Cmp(m) == 0 {
					kk := new(big.Int).Set(k)
					k.SetInt64(0)
					q.SetInt64(0)
					l.add(a, kk)
					again = true
					break
				}
			}
		}
	}
}
func (l *lin) term() *Term {
	var args []*Term
	for _, a := range l.atoms {
		if a.op == "div" {
			l.foldDivMod()
			break
		}
	}
	for _, a := range l.sorted() {
		c := l.coef[a]
		if c.IsInt64() && c.Int64() == 1 {
			args = append(args, a)
		} else {
			args = append(args, mk("*", "", SInt, BigInt(c), a))
		}
	}
	if l.c.Sign() != 0 || len(args) == 0 {
		args = append(args, BigInt(l.c))
	}
	if len(args) == 1 {
		return args[0]
	}
	return mk("+", "", SInt, args...)
}

func Add(ts ...*Term) *Term {
	l := &lin{c: new(big.Int), coef: map[*Term]*big.Int{}}
	for _, t := range ts {
		if t.sort == SReal {
			return realOp("+", ts...)
		}
		l.add(t, big.NewInt(1))
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	if a.sort == SReal {
		return realOp("-", a, b)
	}
	l := linOf(a)
	l.add(b, big.NewInt(-1))
	return l.term()
}
func Neg(a *Term) *Term {
	if a.sort == SReal {
		return realOp("-", Real(new(big.Rat)), a)
	}
	return Sub(Int(0), a)
}
func Mul(a, b *Term) *Term {
	if a.sort == SReal {
		return realOp("*", a, b)
	}
	if b.ival != nil {
		a, b = b, a
	}
	if a.ival != nil {
		l := &lin{c: new(big.Int), coef: map[*Term]*big.Int{}}
		l.add(b, a.ival)
		return l.term()
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("*", "", SInt, a, b)
}

func realOp(op string, args ...*Term) *Term {
	all := true
	for _, a := range args {
		if a.rval == nil {
			all = false
		}
	}
	if all {
		r := new(big.Rat).Set(args[0].rval)
		for _, a := range args[1:] {
			switch op {
			case "+":
				r.Add(r, a.rval)
			case "-":
				r.Sub(r, a.rval)
			case "*":
				r.Mul(r, a.rval)
			case "/":
				if a.rval.Sign() == 0 {
					return mk(op, "", SReal, args...)
				}
				r.Quo(r, a.rval)
			}
		}
		return Real(r)
	}
	return mk(op, "", SReal, args...)
}

// Euclidean/floor division by positive divisor (SMT semantics).
func DivE(a, b *Term) *Term {
	if b.ival != nil && b.ival.Sign() > 0 {
		if b.ival.IsInt64() && b.ival.Int64() == 1 {
			return a
		}
		if a.ival != nil {
			return BigInt(floorDiv(a.ival, b.ival))
		}
		if lo, hi := bounds(a); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.ival) < 0 {
			return Int(0)
		}
	}
	return mk("div", "", SInt, a, b)
}
func ModE(a, b *Term) *Term {
	if b.ival != nil && b.ival.Sign() > 0 {
		if a.ival != nil {
			return BigInt(new(big.Int).Mod(a.ival, b.ival))
		}
		if lo, hi := bounds(a); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.ival) < 0 {
			return a
		}
	}
	return mk("mod", "", SInt, a, b)
}

func ToReal(a *Term) *Term {
	if a.ival != nil {
		return Real(new(big.Rat).SetInt(a.ival))
	}
	return mk("to_real", "", SReal, a)
}
func ToIntFloor(a *Term) *Term {
	if a.rval != nil {
		return BigInt(floorDiv(a.rval.Num(), a.rval.Denom()))
	}
	return mk("to_int", "", SInt, a)
}

func Le(a, b *Term) *Term {
	if a.sort == SReal {
		if a.rval != nil && b.rval != nil {
			return BoolT(a.rval.Cmp(b.rval) <= 0)
		}
		return mk("<=", "", SBool, a, b)
	}
	// a <= b  <=>  a - b <= 0 ; normal form: lin <= const
	l := linOf(a)
	l.add(b, big.NewInt(-1))
	k := new(big.Int).Neg(l.c)
	l.c = new(big.Int)
	t := l.term()
	if t.ival != nil {
		return BoolT(t.ival.Cmp(k) <= 0)
	}
	lo, hi := bounds(t)
	if hi != nil && hi.Cmp(k) <= 0 {
		return True
	}
	if lo != nil && lo.Cmp(k) > 0 {
		return False
	}
	return mk("<=", "", SBool, t, BigInt(k))
}
func Lt(a, b *Term) *Term {
	if a.sort == SReal {
		return Not(Le(b, a))
	}
	return Le(Add(a, Int(1)), b)
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.args[0]
	case "<=":
		if a.args[0].sort == SInt {
			// !(t <= k)  ->  t >= k+1 -> -t <= -k-1
			return Le(Add(a.args[1], Int(1)), a.args[0])
		}
	}
	return mk("not", "", SBool, a)
}
func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == True {
			return true
		}
		if t == False {
			return false
		}
		if t.op == "and" {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if !seen[t] {
			if seen[Not(t)] {
				return false
			}
			seen[t] = true
			out = append(out, t)
		}
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", "", SBool, out...)
}
func Or(ts ...*Term) *Term {
	var neg []*Term
	for _, t := range ts {
		neg = append(neg, Not(t))
	}
	a := And(neg...)
	if a == True {
		return False
	}
	if a == False {
		return True
	}
	var out []*Term
	if a.op == "and" {
		for _, x := range a.args {
			out = append(out, Not(x))
		}
	} else {
		return Not(a)
	}
	return mk("or", "", SBool, out...)
}
func Implies(a, b *Term) *Term { return Or(Not(a), b) }
func Iff(a, b *Term) *Term     { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	return mk("ite", "", a.sort, c, a, b)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts %s vs %s: %s == %s", a.sort, b.sort, a, b))
	}
	if a.ival != nil && b.ival != nil {
		return BoolT(a.ival.Cmp(b.ival) == 0)
	}
	if a.rval != nil && b.rval != nil {
		return BoolT(a.rval.Cmp(b.rval) == 0)
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		if a == Not(b) {
			return False
		}
	}
	if a.sort == SInt {
		if distinctRefs(a, b) {
			return False
		}
		l := linOf(a)
		l.add(b, big.NewInt(-1))
		at := l.sorted()
		if len(at) == 0 {
			return BoolT(l.c.Sign() == 0)
		}
		la, ha := bounds(a)
		lb, hb := bounds(b)
		if (ha != nil && lb != nil && ha.Cmp(lb) < 0) || (hb != nil && la != nil && hb.Cmp(la) < 0) {
			return False
		}
		if a.op == "ite" && b.ival != nil && (a.args[1].ival != nil || a.args[2].ival != nil) {
			return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
		}
		if b.op == "ite" && a.ival != nil && (b.args[1].ival != nil || b.args[2].ival != nil) {
			return Ite(b.args[0], Eq(b.args[1], a), Eq(b.args[2], a))
		}
		if len(at) == 1 && a.ival == nil && b.ival == nil {
			// k*x + c = 0
			c := l.coef[at[0]]
			q, m := new(big.Int).QuoRem(new(big.Int).Neg(l.c), c, new(big.Int))
			if m.Sign() != 0 {
				return False
			}
			return Eq(at[0], BigInt(q))
		}
	}
	if a.sort.IsSeq() {
		if r := seqEq(a, b); r != nil {
			return r
		}
	}
	// injective constructors
	if strings.HasPrefix(a.op, "box:") && strings.HasPrefix(b.op, "box:") {
		if a.op != b.op || len(a.args) != len(b.args) {
			return False
		}
		var es []*Term
		for i := range a.args {
			es = append(es, Eq(a.args[i], b.args[i]))
		}
		return And(es...)
	}
	if strings.HasPrefix(a.op, "box:") && b.ival != nil && b.ival.Sign() >= 0 {
		return False
	}
	if strings.HasPrefix(b.op, "box:") && a.ival != nil && a.ival.Sign() >= 0 {
		return False
	}
	if a.id > b.id {
		a, b = b, a
	}
	e := mk("=", "", SBool, a, b)
	if a.sort.IsSeq() && len(e.facts) == 0 {
		e.attach(Implies(e, Eq(SeqLen(a), SeqLen(b))))
	}
	return e
}

// ---------- sequences ----------

func SeqEmpty(s Sort) *Term { return mk("seq.empty", "", s) }
func SeqUnit(e *Term) *Term { return mk("seq.unit", "", SeqOf(e.sort), e) }
func SeqLit(s string) *Term {
	var ts []*Term
	for i := 0; i < len(s); i++ {
		ts = append(ts, SeqUnit(Int(int64(s[i]))))
	}
	if len(ts) == 0 {
		return SeqEmpty(SSeq)
	}
	return Cat(ts...)
}

func parts(t *Term) []*Term {
	switch t.op {
	case "seq.++":
		return t.args
	case "seq.empty":
		return nil
	}
	return []*Term{t}
}

func Cat(ts ...*Term) *Term {
	if len(ts) == 0 {
		panic("Cat of nothing")
	}
	var out []*Term
	srt := ts[0].sort
	for _, t := range ts {
		if t.sort != srt {
			panic(fmt.Sprintf("Cat sorts %s %s (%s)", srt, t.sort, t))
		}
		for _, p := range parts(t) {
			if n := len(out); n > 0 {
				if m := mergeExtract(out[n-1], p); m != nil {
					out[n-1] = m
					continue
				}
			}
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		return SeqEmpty(srt)
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("seq.++", "", srt, out...)
}

// extract(s,a,n) ++ extract(s,a+n,m) is extract(s,a,n+m) when n, m >= 0 by constant bounds.
func mergeExtract(a, b *Term) *Term {
	if a.op == "seq.extract" && b.op == "seq.extract" && a.args[0] == b.args[0] && a.name == "wf" && b.name == "wf" {
		if Add(a.args[1], a.args[2]) == b.args[1] {
			return mkExtract(a.args[0], a.args[1], Add(a.args[2], b.args[2]), true)
		}
	}
	return nil
}

func SeqLen(t *Term) *Term {
	switch t.op {
	case "seq.empty":
		return Int(0)
	case "seq.unit":
		return Int(1)
	case "seq.++":
		var ls []*Term
		for _, a := range t.args {
			ls = append(ls, SeqLen(a))
		}
		return Add(ls...)
	case "seq.extract":
		if t.name == "wf" {
			return t.args[2]
		}
	case "ite":
		a, b := SeqLen(t.args[1]), SeqLen(t.args[2])
		if a == b {
			return a
		}
		return Ite(t.args[0], a, b)
	case "table":
		return Int(int64(len(tables[t.name].vals)))
	}
	r := mk("seq.len", "", SInt, t)
	if t.op == "seq.extract" && len(r.facts) == 0 {
		s, o, n := t.args[0], t.args[1], t.args[2]
		r.attach(Implies(And(Le(Int(0), o), Le(Int(0), n), Le(Add(o, n), SeqLen(s))), Eq(r, n)))
	}
	setRange(r, big.NewInt(0), maxLen)
	return r
}

func mkExtract(s, off, n *Term, wf bool) *Term {
	nm := ""
	if wf {
		nm = "wf"
	}
	return mk("seq.extract", nm, s.sort, s, off, n)
}

// SubSeq s[lo:hi], caller guarantees (has obligated) 0<=lo<=hi<=len(s).
func SubSeq(s, lo, hi *Term) *Term {
	n := Sub(hi, lo)
	if n.ival != nil && n.ival.Sign() == 0 {
		return SeqEmpty(s.sort)
	}
	if lo.ival != nil && lo.ival.Sign() == 0 && hi == SeqLen(s) {
		return s
	}
	if s.op == "seq.extract" && s.name == "wf" {
		return SubSeq(s.args[0], Add(s.args[1], lo), Add(s.args[1], hi))
	}
	if s.op == "table" && lo.ival != nil && hi.ival != nil {
		var out []*Term
		vs := tables[s.name].vals
		for i := lo.ival.Int64(); i < hi.ival.Int64() && i >= 0 && i < int64(len(vs)); i++ {
			out = append(out, SeqUnit(vs[i]))
		}
		return Cat(out...)
	}
	if s.op == "seq.++" {
		// drop leading parts entirely before lo
		ps := s.args
		pos := Int(0)
		i := 0
		for i < len(ps) {
			nx := Add(pos, SeqLen(ps[i]))
			if d := Sub(lo, nx); d.ival != nil && d.ival.Sign() >= 0 {
				pos = nx
				i++
				continue
			} else if lo, _ := bounds(d); lo != nil && lo.Sign() >= 0 {
				pos = nx
				i++
				continue
			}
			break
		}
		// drop trailing parts entirely after hi
		j := len(ps)
		end := SeqLen(s)
		for j > i {
			pv := Sub(end, SeqLen(ps[j-1]))
			if d := Sub(pv, hi); d.ival != nil && d.ival.Sign() >= 0 {
				end = pv
				j--
				continue
			} else if lo, _ := bounds(d); lo != nil && lo.Sign() >= 0 {
				end = pv
				j--
				continue
			}
			break
		}
		if i >= j {
			return SeqEmpty(s.sort)
		}
		rest := ps[i:j]
		lo2, hi2 := Sub(lo, pos), Sub(hi, pos)
		if len(rest) < len(ps) {
			return SubSeq(Cat(rest...), lo2, hi2)
		}
		// lo inside first part? split when boundaries are syntactically clear
		if lo2.ival != nil && lo2.ival.Sign() == 0 && len(rest) > 1 {
			// try: hi inside the last part, at or after its beginning
			preLen := Sub(SeqLen(s), SeqLen(rest[len(rest)-1]))
			d := Sub(hi2, preLen)
			if l, _ := bounds(d); l != nil && l.Sign() >= 0 {
				return Cat(Cat(rest[:len(rest)-1]...), SubSeq(rest[len(rest)-1], Int(0), d))
			}
		}
		if len(rest) > 1 {
			d := Sub(SeqLen(rest[0]), lo2)
			if l, _ := bounds(d); l != nil && l.Sign() >= 0 && hi2 == SeqLen(s) {
				return Cat(SubSeq(rest[0], lo2, SeqLen(rest[0])), Cat(rest[1:]...))
			}
		}
	}
	return mkExtract(s, lo, n, true)
}

func Nth(s, i *Term) *Term {
	switch s.op {
	case "seq.unit":
		if i.ival != nil && i.ival.Sign() == 0 {
			return s.args[0]
		}
	case "seq.++":
		if i.ival != nil && i.ival.IsInt64() {
			if k := i.ival.Int64(); k >= 0 && k < int64(len(s.args)) && unitPrefix(s.args, int(k)+1) {
				return s.args[k].args[0]
			}
		}
		pos := Int(0)
		for _, p := range s.args {
			nx := Add(pos, SeqLen(p))
			d := Sub(i, pos) // need 0<=d<len(p)
			if lo, _ := bounds(d); lo != nil && lo.Sign() >= 0 {
				if lt := Lt(d, SeqLen(p)); lt == True {
					return Nth(p, d)
				}
			}
			if ge := Le(nx, i); ge != True {
				break
			}
			pos = nx
		}
		if i.ival == nil {
			all := true
			vs := make([]*Term, len(s.args))
			for k, p := range s.args {
				if p.op != "seq.unit" || p.args[0].ival == nil {
					all = false
					break
				}
				vs[k] = p.args[0]
			}
			if lo, hi := bounds(i); all && lo != nil && lo.Sign() >= 0 && hi != nil && hi.Cmp(big.NewInt(int64(len(vs)))) < 0 {
				if t := runTable(vs, i, 40); t != nil {
					return t
				}
			}
		}
	case "seq.extract":
		if s.name == "wf" {
			return Nth(s.args[0], Add(s.args[1], i))
		}
	case "table":
		if i.ival != nil && i.ival.IsInt64() {
			vs := tables[s.name].vals
			k := i.ival.Int64()
			if k >= 0 && k < int64(len(vs)) {
				return vs[k]
			}
		}
		return tableLookup(s.name, i)
	case "ite":
		return Ite(s.args[0], Nth(s.args[1], i), Nth(s.args[2], i))
	}
	return mk("seq.nth", "", s.sort.Elem(), s, i)
}

func seqEq(a, b *Term) *Term {
	pa, pb := parts(a), parts(b)
	if len(pa) == 0 && len(pb) == 0 {
		return True
	}
	// strip common prefix/suffix
	i := 0
	for i < len(pa) && i < len(pb) && pa[i] == pb[i] {
		i++
	}
	ja, jb := len(pa), len(pb)
	for ja > i && jb > i && pa[ja-1] == pb[jb-1] {
		ja--
		jb--
	}
	if i == 0 && ja == len(pa) && jb == len(pb) {
		// constant units compare
		if pa != nil && pb != nil && len(pa) > 0 && len(pb) > 0 && pa[0].op == "seq.unit" && pb[0].op == "seq.unit" {
			x, y := pa[0].args[0], pb[0].args[0]
			e := Eq(x, y)
			if e == False {
				return False
			}
			return And(e, Eq(catOrEmpty(a.sort, pa[1:]), catOrEmpty(b.sort, pb[1:])))
		}
		if n := len(pa); n > 0 && len(pb) > 0 && pa[n-1].op == "seq.unit" && pb[len(pb)-1].op == "seq.unit" {
			x, y := pa[n-1].args[0], pb[len(pb)-1].args[0]
			e := Eq(x, y)
			if e == False {
				return False
			}
			return And(e, Eq(catOrEmpty(a.sort, pa[:n-1]), catOrEmpty(b.sort, pb[:len(pb)-1])))
		}
		d := Sub(SeqLen(a), SeqLen(b))
		if lo, hi := bounds(d); (lo != nil && lo.Sign() > 0) || (hi != nil && hi.Sign() < 0) {
			return False
		}
		return nil
	}
	return Eq(catOrEmpty(a.sort, pa[i:ja]), catOrEmpty(b.sort, pb[i:jb]))
}
func catOrEmpty(s Sort, ps []*Term) *Term {
	if len(ps) == 0 {
		return SeqEmpty(s)
	}
	return Cat(ps...)
}

// ---------- constant tables (from package initialisation) ----------

type tableInfo struct {
	name  string
	vals  []*Term
	elem  Sort
	facts []func(i, v *Term) *Term // contract-provided facts, proved by enumeration
}

var tables = map[string]*tableInfo{}

// runTable expresses vals[i] (i in range) as an ite over runs that are constant or have slope one.
func runTable(vals []*Term, i *Term, max int) *Term {
	type run struct {
		lo    int
		v     *Term
		slope bool
	}
	var runs []run
	n := len(vals)
	isNext := func(k int) bool { // vals[k] == vals[k-1]+1
		a, b := vals[k-1], vals[k]
		return a.ival != nil && b.ival != nil && new(big.Int).Sub(b.ival, a.ival).Cmp(big.NewInt(1)) == 0
	}
	for k := 0; k < n; {
		j := k + 1
		for j < n && vals[j] == vals[k] {
			j++
		}
		if j == k+1 {
			m := j
			for m < n && isNext(m) {
				m++
			}
			if m > j {
				// leave the last element when it starts a constant run
				if m < n && vals[m] == vals[m-1] {
					m--
				}
				runs = append(runs, run{k, Sub(vals[k], Int(int64(k))), true})
				k = m
				if len(runs) > max {
					return nil
				}
				continue
			}
		}
		runs = append(runs, run{k, vals[k], false})
		k = j
		if len(runs) > max {
			return nil
		}
	}
	val := func(r run) *Term {
		if r.slope {
			return Add(r.v, i)
		}
		return r.v
	}
	t := val(runs[len(runs)-1])
	for k := len(runs) - 2; k >= 0; k-- {
		t = Ite(Lt(i, Int(int64(runs[k+1].lo))), val(runs[k]), t)
	}
	return t
}

func tableLookup(name string, i *Term) *Term {
	ti := tables[name]
	if t := runTable(ti.vals, i, 96); t != nil {
		return t
	}
	t := mk("app", "tbl_"+sanitize(name), ti.elem, i)
	if len(t.facts) == 0 {
		in := And(Le(Int(0), i), Lt(i, Int(int64(len(ti.vals)))))
		if ti.elem == SInt {
			lo, hi := ti.vals[0].ival, ti.vals[0].ival
			for _, v := range ti.vals {
				if v.ival == nil {
					return t
				}
				lo, hi = minB(lo, v.ival), maxB(hi, v.ival)
			}
			t.attach(Implies(in, And(Le(BigInt(lo), t), Le(t, BigInt(hi)))))
		}
		for _, f := range ti.facts {
			t.attach(Implies(in, f(i, t)))
		}
	}
	return t
}

// ---------- arrays ----------

var constRefs = map[*Term]bool{}

func Select(a, i *Term) *Term {
	for {
		switch a.op {
		case "store":
			e := Eq(a.args[1], i)
			if e == True {
				return a.args[2]
			}
			if e == False {
				a = a.args[0]
				continue
			}
			// no slice value in the program denotes the storage of an immutable global table
			if a.sort.Elem().IsSeq() && constRefs[a.args[1]] && i.ival == nil && i.op != "ite" {
				a = a.args[0]
				continue
			}
		case "named": // args: array, ref, content ; equal to args[0]
			if a.args[1] == i {
				return a.args[2]
			}
			a = a.args[0]
			continue
		case "havocold": // args: new symbol array, old array ; name: epoch
			if refOlder(i, a.name) {
				a = a.args[1]
				continue
			}
			r := mk("select", "", a.sort.Elem(), a.args[0], i)
			// if i is an old reference the content is unchanged
			if rr, ok := refTab[i]; !ok || !rr.fresh {
				r.attach(Implies(Le(epochBounds[epochIdx(a.name)], i), Eq(r, Select(a.args[1], i))))
			}
			return r
		case "ite":
			return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
		case "constarr":
			return a.args[0]
		}
		break
	}
	r := mk("select", "", a.sort.Elem(), a, i)
	return r
}
func Store(a, i, v *Term) *Term {
	if a.sort.Elem() != v.sort {
		panic(fmt.Sprintf("Store sort %s into %s", v.sort, a.sort))
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if a.op == "named" && a.args[1] == i {
		a = a.args[0]
	}
	return mk("store", "", a.sort, a, i, v)
}
func ConstArr(s Sort, v *Term) *Term { return mk("constarr", "", s, v) }

// ---------- references ----------
// Allocation order is modelled by negative integers: epoch terms A0=0 > A1 > ...; a
// fresh object is epochTerm - k.  refEpoch records, for reference symbols, the epoch in
// which they are known to exist already.

type refInfo struct {
	fresh bool // allocated exactly at (epoch,k); otherwise known to exist at time (epoch,k)
	epoch int
	k     int
}

var refTab = map[*Term]refInfo{}

func distinctRefs(a, b *Term) bool {
	ra, oka := refTab[a]
	rb, okb := refTab[b]
	if oka && okb {
		if ra.fresh && rb.fresh {
			return ra != rb
		}
		if rb.fresh {
			ra, rb = rb, ra
		}
		if ra.fresh { // rb existed at (e,k): distinct when ra was allocated later
			return ra.epoch > rb.epoch || (ra.epoch == rb.epoch && ra.k > rb.k)
		}
		return false
	}
	// fresh refs are never nil/global constants (>=0)
	if oka && ra.fresh && b.ival != nil && b.ival.Sign() >= 0 {
		return true
	}
	if okb && rb.fresh && a.ival != nil && a.ival.Sign() >= 0 {
		return true
	}
	return false
}

var epochTerms []*Term  // allocation counter at the start of the epoch
var epochBounds []*Term // allocation counter when the loop opening the epoch was entered

func epochIdx(name string) int {
	var e int
	fmt.Sscanf(name, "%d", &e)
	return e
}

// refOlder: the object existed before the loop that opened epoch e was entered.
func refOlder(i *Term, name string) bool {
	e := epochIdx(name)
	if i.ival != nil && i.ival.Sign() >= 0 {
		return true
	}
	r, ok := refTab[i]
	return ok && r.epoch < e
}

// NewEpoch opens an allocation epoch at a loop head entered at time (pe,pk).
func NewEpoch(pe, pk int) int {
	e := len(epochTerms)
	if e == 0 {
		epochTerms = append(epochTerms, Int(0))
		epochBounds = append(epochBounds, Int(0))
		return 0
	}
	bound := Sub(epochTerms[pe], Int(int64(pk)))
	t := Fresh("alloc", SInt)
	t.attach(Le(t, bound))
	epochTerms = append(epochTerms, t)
	epochBounds = append(epochBounds, bound)
	return e
}
func FreshRef(epoch, k int) *Term {
	t := Sub(epochTerms[epoch], Int(int64(k)))
	// make an opaque named symbol so that it can carry refInfo
	s := mk("sym", fmt.Sprintf("ref!%d!%d", epoch, k), SInt)
	if _, ok := refTab[s]; !ok {
		refTab[s] = refInfo{true, epoch, k}
		s.attach(Eq(s, t))
	}
	return s
}

// markOld records that a reference-typed term denotes an object existing at time (e,k).
func markOld(t *Term, e, k int) {
	if t.ival != nil || t.op == "ite" {
		return
	}
	if _, ok := refTab[t]; ok {
		return
	}
	refTab[t] = refInfo{false, e, k}
	t.attach(mk("<=", "", SBool, Sub(epochTerms[e], Int(int64(k))), t))
}

// App: uninterpreted function application
func App(fn string, sort Sort, args ...*Term) *Term { return mk("app", fn, sort, args...) }

func (t *Term) String() string {
	var b strings.Builder
	t.write(&b, 0)
	return b.String()
}
func (t *Term) write(b *strings.Builder, depth int) {
	if depth > 40 {
		b.WriteString("...")
		return
	}
	switch t.op {
	case "#int":
		if t.ival.Sign() < 0 {
			fmt.Fprintf(b, "(- %s)", new(big.Int).Neg(t.ival))
		} else {
			b.WriteString(t.ival.String())
		}
		return
	case "#real":
		b.WriteString(realStr(t.rval))
		return
	case "sym":
		b.WriteString(t.name)
		return
	case "true", "false":
		b.WriteString(t.op)
		return
	case "table":
		b.WriteString("table:" + t.name)
		return
	case "seq.empty":
		b.WriteString("<>")
		return
	}
	b.WriteByte('(')
	if t.op == "app" {
		b.WriteString(t.name)
	} else {
		b.WriteString(t.op)
	}
	for _, a := range t.args {
		b.WriteByte(' ')
		a.write(b, depth+1)
	}
	b.WriteByte(')')
}
func realStr(r *big.Rat) string {
	s := func(n *big.Int) string { return n.String() + ".0" }
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	var o string
	if a.IsInt() {
		o = s(a.Num())
	} else {
		o = "(/ " + s(a.Num()) + " " + s(a.Denom()) + ")"
	}
	if neg {
		return "(- " + o + ")"
	}
	return o
}
