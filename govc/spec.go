package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// ---------- contract files ----------

type Clause struct {
	Name string
	Src  string
	Expr ast.Expr
	Vars []tvar // metavariables (templates)
	Own  bool   // shown of the function, not told to its callers
}
type tvar struct{ name, typ, hint string }

type Contract struct {
	Key      string
	Params   []string
	Results  []string
	Props    []string
	Requires []Clause
	Ensures  []Clause
	Invs     []Clause
	Decr     []Clause
	Modifies []string
	Panics   *Clause  // nil: never
	MayPanic *Clause  // a panic implies it
	XEnsures []Clause // hold when it panics
	PanicAny bool
	Trusted  string
	Inline   bool
	Term     bool
	Let      []Clause
	File     string
	MayMiss  bool     // function may be absent (internal helper)
	Cases    []Clause // verified separately for each combination of these
	Unroll   int      // loops are unrolled up to this number of visits; more must be infeasible
	Uses     []Clause
}

type SpecFn struct {
	Name   string
	Params []tvar
	Ret    string
	Body   ast.Expr
	Src    string
	Rec    bool
	Fuel   int
}

type Lemma struct {
	Name   string
	Params []tvar
	Induct string
	Reqs   []Clause
	Ens    []Clause
	Props  []string
	Trig   string // spec function at whose applications it is instantiated
}

type TableSpec struct {
	Global string
	I, V   string
	Src    string
	Expr   ast.Expr
	Props  []string
}

type SpecDB struct {
	Contracts map[string]*Contract
	Fns       map[string]*SpecFn
	Ghosts    map[string]string
	Guarded   map[string]string
	Stable    map[string]string
	Tables    []*TableSpec
	Lemmas    []*Lemma
	Aliases   map[string]string
	Globals   map[string]bool // package variables the specifications name
}

var globalRE = regexp.MustCompile(`global\("([^"]+)"\)`)

func loadSpecs(dir string) (*SpecDB, error) {
	db := &SpecDB{Contracts: map[string]*Contract{}, Fns: map[string]*SpecFn{}, Ghosts: map[string]string{}, Guarded: map[string]string{}, Stable: map[string]string{}, Aliases: map[string]string{}, Globals: map[string]bool{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	for _, f := range files {
		if err := db.loadFile(f); err != nil {
			return nil, fmt.Errorf("%s: %v", f, err)
		}
	}
	for _, f := range db.Fns {
		if f.Rec {
			db.registerRec(f)
		}
	}
	return db, nil
}

var keywords = map[string]bool{"contract": true, "prop": true, "requires": true, "ensures": true, "proves": true, "inv": true, "decr": true, "modifies": true,
	"panics": true, "maypanic": true, "xensures": true, "trusted": true, "inline": true, "end": true, "stable": true, "fn": true, "rec": true, "ghost": true, "guarded": true, "table": true, "lemma": true, "terminates": true, "maymiss": true, "unroll": true, "cases": true, "let": true, "induct": true, "trigger": true, "use": true}

func (db *SpecDB) loadFile(path string) error {
	data, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	for _, m := range globalRE.FindAllStringSubmatch(string(data), -1) {
		db.Globals[m[1]] = true
	}
	// logical lines
	var lines []string
	for _, l := range strings.Split(string(data), "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "//") || t == "" {
			continue
		}
		if i := strings.Index(t, " // "); i >= 0 {
			t = strings.TrimSpace(t[:i])
		}
		w := t
		if i := strings.IndexAny(t, " \t("); i > 0 {
			w = t[:i]
		}
		if keywords[w] || len(lines) == 0 {
			lines = append(lines, t)
		} else {
			lines[len(lines)-1] += " " + t
		}
	}
	var cur *Contract
	var lem *Lemma
	for _, l := range lines {
		w, rest := l, ""
		if i := strings.IndexAny(l, " \t"); i > 0 {
			w, rest = l[:i], strings.TrimSpace(l[i:])
		}
		fail := func(err error) error { return fmt.Errorf("%q: %v", l, err) }
		switch w {
		case "contract":
			c, err := parseHeader(rest)
			if err != nil {
				return fail(err)
			}
			c.File = filepath.Base(path)
			cur, lem = c, nil
			if db.Contracts[c.Key] != nil {
				return fail(fmt.Errorf("duplicate"))
			}
			db.Contracts[c.Key] = c
		case "end":
			cur, lem = nil, nil
		case "prop":
			if lem != nil {
				lem.Props = append(lem.Props, strings.Fields(rest)...)
			} else {
				cur.Props = append(cur.Props, strings.Fields(rest)...)
			}
		case "requires", "ensures", "proves", "let", "use":
			cl, err := parseClause(rest)
			if err != nil {
				return fail(err)
			}
			switch {
			case lem != nil && w == "requires":
				lem.Reqs = append(lem.Reqs, cl)
			case lem != nil:
				lem.Ens = append(lem.Ens, cl)
			case w == "requires":
				cur.Requires = append(cur.Requires, cl)
			case w == "let":
				cur.Let = append(cur.Let, cl)
			case w == "use":
				cur.Uses = append(cur.Uses, cl)
			default:
				cl.Own = w == "proves"
				cur.Ensures = append(cur.Ensures, cl)
			}
		case "inv", "decr":
			vars, body := splitVars(rest)
			cl, err := parseClause(body)
			if err != nil {
				return fail(err)
			}
			cl.Vars = vars
			if w == "inv" {
				if cl.Name == "" {
					cl.Name = fmt.Sprintf("inv%d", len(cur.Invs)+1)
				}
				cur.Invs = append(cur.Invs, cl)
			} else {
				cur.Decr = append(cur.Decr, cl)
				cur.Term = true
			}
		case "terminates":
			cur.Term = true
		case "modifies":
			for _, m := range splitTop(rest, ',') {
				cur.Modifies = append(cur.Modifies, strings.TrimSpace(m))
			}
		case "panics":
			if rest == "any" {
				cur.PanicAny = true
				break
			}
			cl, err := parseClause(rest)
			if err != nil {
				return fail(err)
			}
			cur.Panics = &cl
		case "maypanic", "xensures":
			cl, err := parseClause(rest)
			if err != nil {
				return fail(err)
			}
			if w == "maypanic" {
				cur.MayPanic = &cl
			} else {
				cur.XEnsures = append(cur.XEnsures, cl)
			}
		case "trusted":
			cur.Trusted = rest
			if rest == "" {
				cur.Trusted = "assumed"
			}
		case "inline":
			cur.Inline = true
		case "maymiss":
			cur.MayMiss = true
		case "cases":
			cl, err := parseClause(rest)
			if err != nil {
				return fail(err)
			}
			cur.Cases = append(cur.Cases, cl)
		case "unroll":
			cur.Unroll, _ = strconv.Atoi(rest)
		case "induct":
			lem.Induct = rest
		case "trigger":
			lem.Trig = rest
		case "guarded":
			// guarded KEY GHOST: maps read from field KEY are only used while the bool ghost holds
			f := strings.Fields(rest)
			db.Guarded[f[0]] = strings.Join(f[1:], " ")
		case "stable":
			// stable T PKG: elements of []T are only written by functions of PKG, none of which is reached
			// through the calls those functions make to code that may modify everything
			f := strings.Fields(rest)
			db.Stable[f[0]] = f[1]
		case "ghost":
			f := strings.Fields(rest)
			db.Ghosts[f[0]] = f[1]
		case "fn", "rec":
			rec := w == "rec"
			fuel := 0
			if rec {
				rest = strings.TrimSpace(strings.TrimPrefix(rest, "fn"))
				if strings.HasPrefix(rest, "fuel=") {
					i := strings.IndexByte(rest, ' ')
					fuel, _ = strconv.Atoi(rest[5:i])
					rest = strings.TrimSpace(rest[i:])
				}
			}
			eq := strings.Index(rest, "=")
			head, body := rest, ""
			if eq >= 0 {
				head, body = strings.TrimSpace(rest[:eq]), strings.TrimSpace(rest[eq+1:])
			}
			op := strings.IndexByte(head, '(')
			cp := strings.LastIndexByte(head, ')')
			sf := &SpecFn{Name: strings.TrimSpace(head[:op]), Ret: strings.TrimSpace(head[cp+1:]), Rec: rec, Src: body, Fuel: fuel}
			sf.Params = parseVars(head[op+1 : cp])
			if body != "" {
				e, err := parser.ParseExpr(body)
				if err != nil {
					return fail(err)
				}
				sf.Body = e
			}
			db.Fns[sf.Name] = sf
		case "table":
			// table GLOBAL(i, v) C01: expr
			op := strings.IndexByte(rest, '(')
			cp := strings.IndexByte(rest, ')')
			co := strings.IndexByte(rest, ':')
			iv := strings.Split(rest[op+1:cp], ",")
			e, err := parser.ParseExpr(rest[co+1:])
			if err != nil {
				return fail(err)
			}
			db.Tables = append(db.Tables, &TableSpec{Global: strings.TrimSpace(rest[:op]), I: strings.TrimSpace(iv[0]), V: strings.TrimSpace(iv[1]),
				Src: rest[co+1:], Expr: e, Props: strings.Fields(rest[cp+1 : co])})
		case "lemma":
			op := strings.IndexByte(rest, '(')
			cp := strings.LastIndexByte(rest, ')')
			lem = &Lemma{Name: strings.TrimSpace(rest[:op]), Params: parseVars(rest[op+1 : cp])}
			cur = nil
			db.Lemmas = append(db.Lemmas, lem)
		default:
			return fail(fmt.Errorf("unknown keyword %q", w))
		}
	}
	return nil
}

func parseVars(s string) (out []tvar) {
	for _, p := range splitTop(s, ',') {
		f := strings.Fields(p)
		if len(f) == 0 {
			continue
		}
		v := tvar{name: f[0], typ: "int"}
		v.hint = v.name
		if i := strings.IndexByte(v.name, '='); i > 0 {
			v.name, v.hint = v.name[:i], v.name[i+1:]
		}
		if len(f) > 1 {
			v.typ = strings.Join(f[1:], " ")
		}
		out = append(out, v)
	}
	return
}
func splitVars(s string) ([]tvar, string) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "(") {
		// only a variable list when followed by ':'
		d := 0
		for i, c := range s {
			if c == '(' {
				d++
			}
			if c == ')' {
				d--
				if d == 0 {
					r := strings.TrimSpace(s[i+1:])
					if strings.HasPrefix(r, ":") {
						return parseVars(s[1:i]), strings.TrimSpace(r[1:])
					}
					break
				}
			}
		}
	}
	return nil, s
}
func splitTop(s string, sep byte) (out []string) {
	d, last := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case sep:
			if d == 0 {
				out = append(out, s[last:i])
				last = i + 1
			}
		}
	}
	return append(out, s[last:])
}
func parseClause(s string) (Clause, error) {
	c := Clause{Src: s}
	// optional "name: expr"
	if i := strings.IndexByte(s, ':'); i > 0 && isIdent(s[:i]) && !strings.HasPrefix(s[i:], ":=") {
		c.Name = s[:i]
		s = strings.TrimSpace(s[i+1:])
		c.Src = s
	}
	e, err := parser.ParseExpr(s)
	c.Expr = e
	return c, err
}
func isIdent(s string) bool {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '-') {
			return false
		}
	}
	return s != ""
}

// contract KEY(p1, p2) r1, r2   — KEY may itself contain parentheses "(*T).M"
func parseHeader(s string) (*Contract, error) {
	c := &Contract{}
	// parameter list is the last top-level parenthesised group that directly follows the key
	start := 0
	if strings.HasPrefix(s, "(") {
		d := 0
		for i, ch := range s {
			if ch == '(' {
				d++
			}
			if ch == ')' {
				d--
				if d == 0 {
					start = i + 1
					break
				}
			}
		}
	}
	if strings.HasPrefix(s, "funcvalue:") {
		i := strings.Index(s, " ~ ")
		if i < 0 {
			return nil, fmt.Errorf("funcvalue contract needs ' ~ '")
		}
		c.Key = s[:i]
		s = s[i+3:]
		start = 0
	}
	op := strings.IndexByte(s[start:], '(') + start
	d := 0
	cp := -1
	for i := op; i < len(s); i++ {
		if s[i] == '(' {
			d++
		}
		if s[i] == ')' {
			d--
			if d == 0 {
				cp = i
				break
			}
		}
	}
	if cp < 0 {
		return nil, fmt.Errorf("bad header")
	}
	if c.Key == "" {
		c.Key = strings.TrimSpace(s[:op])
	}
	for _, p := range strings.Split(s[op+1:cp], ",") {
		if p = strings.TrimSpace(p); p != "" {
			c.Params = append(c.Params, p)
		}
	}
	for _, p := range strings.Split(s[cp+1:], ",") {
		if p = strings.TrimSpace(p); p != "" {
			c.Results = append(c.Results, p)
		}
	}
	return c, nil
}

// ---------- evaluation ----------

type SV struct {
	v Val
	T types.Type // may be nil for spec-level values
}

type evalCtx struct {
	ex   *Exec
	db   *SpecDB
	st   *State // current heap
	old  *State // entry heap
	vars map[string]SV
	inst int
}

type specErr struct{ msg string }

func (c *evalCtx) err(f string, a ...interface{}) { panic(specErr{fmt.Sprintf(f, a...)}) }

func (c *evalCtx) with(name string, v SV) *evalCtx {
	n := *c
	n.vars = make(map[string]SV, len(c.vars)+1)
	for k, x := range c.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	return &n
}

// under evaluates in a context where cond is assumed (it only guides simplification).
func (c *evalCtx) under(cond *Term) *evalCtx {
	if c.st == specState || cond == True || !quickable(cond) {
		return c
	}
	n := *c
	st := *c.st
	st.pc = st.pc[:len(st.pc):len(st.pc)]
	st.assume(cond)
	n.st = &st
	return &n
}

func (c *evalCtx) boolean(e ast.Expr) *Term {
	t := c.term(e)
	if t.sort != SBool {
		c.err("not boolean: %s", exprStr(e))
	}
	return t
}
func (c *evalCtx) term(e ast.Expr) *Term { return c.toTerm(c.eval(e)) }
func (c *evalCtx) toTerm(v SV) *Term {
	switch x := v.v.(type) {
	case *Term:
		return x
	case *SliceV:
		return c.st.view(x)
	}
	return packT(v.v, v.T)
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

func specSort(t string) Sort {
	switch t {
	case "int", "ref":
		return SInt
	case "bool":
		return SBool
	case "real":
		return SReal
	case "seq", "bytes", "string":
		return SSeq
	case "seqseq":
		return SeqOf(SSeq)
	}
	if strings.HasPrefix(t, "sort ") {
		return Sort(t[5:])
	}
	return SInt
}

func (c *evalCtx) eval(e ast.Expr) SV {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return c.eval(x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			b := new(big.Int)
			b.SetString(x.Value, 0)
			return SV{BigInt(b), nil}
		case token.FLOAT:
			r := new(big.Rat)
			r.SetString(x.Value)
			return SV{Real(r), nil}
		case token.STRING:
			s, _ := strconv.Unquote(x.Value)
			return SV{SeqLit(s), nil}
		case token.CHAR:
			s, _, _, _ := strconv.UnquoteChar(x.Value[1:len(x.Value)-1], '\'')
			return SV{Int(int64(s)), nil}
		}
	case *ast.Ident:
		if v, ok := c.vars[x.Name]; ok {
			return v
		}
		switch x.Name {
		case "true":
			return SV{True, nil}
		case "false":
			return SV{False, nil}
		case "nil":
			return SV{Int(0), nil}
		case "empty":
			return SV{SeqEmpty(SSeq), nil}
		}
		if g, ok := c.st.ghost[x.Name]; ok {
			return SV{g, nil}
		}
		if f, ok := c.db.Fns[x.Name]; ok && len(f.Params) == 0 {
			return c.eval(f.Body)
		}
		c.err("unknown name %s", x.Name)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return SV{Not(c.term(x.X)), nil}
		case token.SUB:
			return SV{Neg(c.term(x.X)), nil}
		case token.AND:
			// address of a field: interior pointer as packed term
			v := c.eval(x.X)
			_ = v
		}
	case *ast.BinaryExpr:
		return c.binary(x)
	case *ast.IndexExpr:
		b := c.eval(x.X)
		i := c.term(x.Index)
		var s *Term
		var et types.Type
		switch bx := b.v.(type) {
		case *SliceV:
			s, et = c.st.view(bx), bx.elem
		case *Term:
			s = bx
			if b.T != nil {
				switch u := b.T.Underlying().(type) {
				case *types.Array:
					et = u.Elem()
				case *types.Basic:
					et = types.Typ[types.Uint8]
				case *types.Map:
					_, v := c.st.mapGet(bx, u, i)
					return SV{c.st.unpack(v, u.Elem()), u.Elem()}
				}
			}
		}
		if s == nil {
			c.err("index of %s", exprStr(x.X))
		}
		if s.sort.IsArray() {
			return SV{Select(s, i), nil}
		}
		t := Nth(s, i)
		if et != nil {
			return SV{c.st.unpack(t, et), et}
		}
		if s.sort == SSeq {
			// spec-level byte sequences
			if t.op == "seq.nth" && false {
				setRange(t, big.NewInt(0), big.NewInt(255))
			}
		}
		return SV{t, nil}
	case *ast.SliceExpr:
		b := c.eval(x.X)
		s := c.toTerm(b)
		lo, hi := Int(0), SeqLen(s)
		if x.Low != nil {
			lo = c.term(x.Low)
		}
		if x.High != nil {
			hi = c.term(x.High)
		}
		// spec-level slicing is total: outside bounds it denotes an arbitrary sequence
		return SV{c.specSub(s, lo, hi), nil}
	case *ast.SelectorExpr:
		b := c.eval(x.X)
		return c.field(b, x.Sel.Name)
	case *ast.StarExpr:
		b := c.eval(x.X)
		pt, ok := b.T.Underlying().(*types.Pointer)
		if !ok {
			c.err("deref of non-pointer %s", exprStr(x.X))
		}
		return SV{c.st.load(b.v, pt.Elem()), pt.Elem()}
	case *ast.CallExpr:
		return c.call(x)
	}
	c.err("cannot evaluate %s (%T)", exprStr(e), e)
	return SV{}
}

// specSub: s[lo:hi]. Sequence laws for well-formed extracts are used only when the bounds
// are implied by the current path condition; otherwise it is a plain SMT extract.
func (c *evalCtx) specSub(s, lo, hi *Term) *Term {
	n := Sub(hi, lo)
	if n.ival != nil && n.ival.Sign() == 0 {
		return SeqEmpty(s.sort)
	}
	if lo.ival != nil && lo.ival.Sign() == 0 && hi == SeqLen(s) {
		return s
	}
	wf := And(Le(Int(0), lo), Le(lo, hi), Le(hi, SeqLen(s)))
	if wf == True || (c.st != specState && qs.implied(c.st.pc, wf)) {
		return SubSeq(s, lo, hi)
	}
	return mkExtract(s, lo, n, false)
}

func (c *evalCtx) field(b SV, name string) SV {
	if b.T == nil {
		c.err("field %s of untyped value", name)
	}
	T := b.T
	if pt, ok := T.Underlying().(*types.Pointer); ok {
		u, ok := isStruct(pt.Elem())
		if !ok {
			c.err("field %s of %s", name, T)
		}
		path, ft := findField(u, name)
		if ft == nil {
			c.err("no field %s in %s", name, T)
		}
		switch p := b.v.(type) {
		case *Term:
			return SV{c.st.loadAt(tkey(pt.Elem()), path, p, ft), ft}
		case *PtrV:
			if len(p.steps) == 0 {
				return SV{c.st.loadAt(p.owner, p.path+path, p.ref, ft), ft}
			}
			v := c.st.load(p, pt.Elem())
			return c.field(SV{v, pt.Elem()}, name)
		}
	}
	if u, ok := isStruct(T); ok {
		sv := c.st.asStruct(b.v, T)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				return SV{sv.fields[i], u.Field(i).Type()}
			}
		}
		// embedded
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Embedded() {
				if _, ok := isStruct(u.Field(i).Type()); ok {
					if p, ft := findField(u.Field(i).Type().Underlying().(*types.Struct), name); ft != nil && p != "" {
						return c.field(SV{sv.fields[i], u.Field(i).Type()}, name)
					}
				}
			}
		}
	}
	c.err("field %s of %s", name, T)
	return SV{}
}
func findField(u *types.Struct, name string) (string, types.Type) {
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return "." + name, u.Field(i).Type()
		}
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Embedded() {
			if s, ok := isStruct(u.Field(i).Type()); ok {
				if p, t := findField(s, name); t != nil {
					return "." + u.Field(i).Name() + p, t
				}
			}
		}
	}
	return "", nil
}

func (c *evalCtx) binary(x *ast.BinaryExpr) SV {
	switch x.Op {
	case token.LAND:
		a := c.boolean(x.X)
		if a == False {
			return SV{False, nil}
		}
		return SV{And(a, c.boolean(x.Y)), nil}
	case token.LOR:
		return SV{Or(c.boolean(x.X), c.boolean(x.Y)), nil}
	}
	l, r := c.eval(x.X), c.eval(x.Y)
	if x.Op == token.EQL || x.Op == token.NEQ {
		// slice compared with nil: base test
		if s, ok := l.v.(*SliceV); ok && isNilIdent(x.Y) {
			e := Eq(s.base, Int(0))
			if x.Op == token.NEQ {
				e = Not(e)
			}
			return SV{e, nil}
		}
		a, b := c.toTerm(l), c.toTerm(r)
		a, b = coerce(a, b)
		if a.sort != b.sort {
			c.err("comparison of %s and %s in %s", a.sort, b.sort, exprStr(x))
		}
		e := Eq(a, b)
		if x.Op == token.NEQ {
			e = Not(e)
		}
		return SV{e, nil}
	}
	a, b := c.toTerm(l), c.toTerm(r)
	a, b = coerce(a, b)
	switch x.Op {
	case token.ADD:
		if a.sort.IsSeq() {
			return SV{Cat(a, b), nil}
		}
		return SV{Add(a, b), nil}
	case token.SUB:
		return SV{Sub(a, b), nil}
	case token.MUL:
		return SV{Mul(a, b), nil}
	case token.QUO:
		if a.sort == SReal {
			return SV{realOp("/", a, b), nil}
		}
		return SV{DivE(a, b), nil}
	case token.REM:
		return SV{ModE(a, b), nil}
	case token.LSS:
		return SV{Lt(a, b), nil}
	case token.LEQ:
		return SV{Le(a, b), nil}
	case token.GTR:
		return SV{Gt(a, b), nil}
	case token.GEQ:
		return SV{Ge(a, b), nil}
	case token.SHL:
		if a.ival != nil && b.ival != nil {
			return SV{BigInt(new(big.Int).Lsh(a.ival, uint(b.ival.Uint64()))), nil}
		}
	}
	c.err("operator %s", x.Op)
	return SV{}
}
func isNilIdent(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "nil"
}
func coerce(a, b *Term) (*Term, *Term) {
	if a.sort == SReal && b.sort == SInt {
		return a, ToReal(b)
	}
	if a.sort == SInt && b.sort == SReal {
		return ToReal(a), b
	}
	// empty sequences of another element sort
	if a.sort.IsSeq() && b.op == "seq.empty" && b.sort != a.sort {
		return a, SeqEmpty(a.sort)
	}
	if b.sort.IsSeq() && a.op == "seq.empty" && b.sort != a.sort {
		return SeqEmpty(b.sort), b
	}
	return a, b
}

func (c *evalCtx) call(x *ast.CallExpr) SV {
	name := ""
	switch f := x.Fun.(type) {
	case *ast.Ident:
		name = f.Name
	default:
		c.err("call of %s", exprStr(x.Fun))
	}
	arg := func(i int) *Term { return c.term(x.Args[i]) }
	switch name {
	case "old":
		n := *c
		n.st = c.old
		r := n.eval(x.Args[0])
		if sl, ok := r.v.(*SliceV); ok && sl.frozen == nil {
			f := *sl
			f.frozen = c.old.view(sl) // the content at entry
			r.v = &f
		}
		return r
	case "len":
		v := c.eval(x.Args[0])
		switch y := v.v.(type) {
		case *SliceV:
			return SV{y.len, nil}
		case *Term:
			if y.sort.IsSeq() {
				return SV{SeqLen(y), nil}
			}
			if v.T != nil {
				if u, ok := v.T.Underlying().(*types.Map); ok {
					return SV{Select(c.st.arr("maplen:"+mapKey(u), SInt), y), nil}
				}
			}
		}
		c.err("len of %s", exprStr(x.Args[0]))
	case "cap":
		if s, ok := c.eval(x.Args[0]).v.(*SliceV); ok {
			return SV{s.cap, nil}
		}
	case "base":
		if s, ok := c.eval(x.Args[0]).v.(*SliceV); ok {
			return SV{s.base, nil}
		}
		c.err("base of non-slice")
	case "offset":
		if s, ok := c.eval(x.Args[0]).v.(*SliceV); ok {
			return SV{s.off, nil}
		}
	case "cat":
		var ts []*Term
		for i := range x.Args {
			ts = append(ts, arg(i))
		}
		for _, t := range ts {
			if !t.sort.IsSeq() {
				c.err("cat of non-sequence %s", t)
			}
		}
		for i := range ts {
			if ts[i].op == "seq.empty" {
				for _, o := range ts {
					if o.op != "seq.empty" {
						ts[i] = SeqEmpty(o.sort)
					}
				}
			}
		}
		return SV{Cat(ts...), nil}
	case "unit":
		return SV{SeqUnit(arg(0)), nil}
	case "implies":
		a := c.boolean(x.Args[0])
		if a == False {
			return SV{True, nil}
		}
		return SV{Implies(a, c.under(a).boolean(x.Args[1])), nil}
	case "iff":
		return SV{Eq(c.boolean(x.Args[0]), c.boolean(x.Args[1])), nil}
	case "ite":
		cond := c.boolean(x.Args[0])
		if c.st != nil && !hasBV(cond) {
			for _, p := range c.st.pc {
				if p == cond {
					cond = True
					break
				}
				if p == Not(cond) {
					cond = False
					break
				}
			}
		}
		if cond == True {
			return c.eval(x.Args[1])
		}
		if cond == False {
			return c.eval(x.Args[2])
		}
		a, b := coerce(c.under(cond).term(x.Args[1]), c.under(Not(cond)).term(x.Args[2]))
		return SV{Ite(cond, a, b), nil}
	case "not":
		return SV{Not(c.boolean(x.Args[0])), nil}
	case "real":
		return SV{ToReal(arg(0)), nil}
	case "floor":
		return SV{ToIntFloor(arg(0)), nil}
	case "abs":
		a := arg(0)
		z := Int(0)
		if a.sort == SReal {
			z = Real(new(big.Rat))
		}
		return SV{Ite(Le(z, a), a, Neg(a)), nil}
	case "min":
		a, b := arg(0), arg(1)
		return SV{Ite(Le(a, b), a, b), nil}
	case "max":
		a, b := arg(0), arg(1)
		return SV{Ite(Le(a, b), b, a), nil}
	case "select":
		return SV{Select(arg(0), arg(1)), nil}
	case "cell":
		// cell(T, ptr): content of memory at ptr read as type T
		T := c.typeArg(x.Args[0])
		p := c.eval(x.Args[1])
		return SV{c.st.load(p.v, T), T}
	case "field":
		// field("pkg.T", "f", ptr)
		T := c.typeArg(x.Args[0])
		fn, _ := strconv.Unquote(x.Args[1].(*ast.BasicLit).Value)
		return c.field(SV{arg(2), types.NewPointer(T)}, fn)
	case "as":
		T := c.typeArg(x.Args[0])
		return SV{c.st.unpack(arg(1), T), T}
	case "typeid":
		return SV{ifaceTid(c.typeArg(x.Args[0])), nil}
	case "typeof":
		return SV{typeofT(arg(0)), nil}
	case "made":
		return SV{madeErr(arg(0)), nil}
	case "root":
		// root(p): the object an interior pointer points into
		p := c.eval(x.Args[0])
		if pv, ok := p.v.(*PtrV); ok {
			return SV{pv.ref, nil}
		}
		return SV{c.toTerm(p), nil}
	case "implements":
		return SV{implTerm(arg(1), c.typeArg(x.Args[0])), nil}
	case "payload":
		// payload(T, iface)
		T := c.typeArg(x.Args[0])
		return SV{c.st.unpack(sel("I:"+tkey(T), 0, sortOf(T), arg(1)), T), T}
	case "box":
		T := c.typeArg(x.Args[0])
		v := c.eval(x.Args[1])
		return SV{c.ex.mkIface(v.v, T), nil}
	case "haskey":
		m := c.eval(x.Args[0])
		if m.T == nil {
			c.err("haskey: not a map")
		}
		if _, ok := m.T.Underlying().(*types.Map); !ok {
			c.err("haskey: not a map")
		}
		in, _ := c.st.mapGet(m.v.(*Term), m.T.Underlying().(*types.Map), arg(1))
		return SV{in, nil}
	case "global":
		g, _ := strconv.Unquote(x.Args[0].(*ast.BasicLit).Value)
		gl := c.ex.V.findGlobal(g)
		if gl == nil {
			c.err("no global %s", g)
		}
		T := gl.Type().(*types.Pointer).Elem()
		if v, ok := c.ex.V.constGlobal(c.st, c.ex, gl); ok {
			return SV{v, T}
		}
		return SV{c.st.load(c.ex.V.globalRef(gl), T), T}
	case "globalptr":
		g, _ := strconv.Unquote(x.Args[0].(*ast.BasicLit).Value)
		gl := c.ex.V.findGlobal(g)
		if gl == nil {
			c.err("no global %s", g)
		}
		return SV{c.ex.V.globalRef(gl), gl.Type()}
	case "forall", "exists":
		// forall(k, lo, hi, body)
		id := x.Args[0].(*ast.Ident)
		bvCount++
		bv := mk("bvar", fmt.Sprintf("%s?%d", id.Name, bvCount), SInt)
		if len(x.Args) == 2 {
			// forall(k, body): over all integers (interface values and pointers are integers)
			body := c.with(id.Name, SV{bv, types.Typ[types.Int]}).boolean(x.Args[1])
			cbv := mk("bvar", fmt.Sprintf("%s?q%d", "k", quantDepth(body)), SInt)
			body = substTerm(body, bv, cbv)
			return SV{mk(name, cbv.name, SBool, cbv, body), nil}
		}
		lo, hi := arg(1), arg(2)
		if lo.ival != nil && hi.ival != nil && hi.ival.Int64()-lo.ival.Int64() <= 64 {
			var cs []*Term
			for k := lo.ival.Int64(); k < hi.ival.Int64(); k++ {
				cs = append(cs, c.with(id.Name, SV{Int(k), types.Typ[types.Int]}).boolean(x.Args[3]))
			}
			if name == "forall" {
				return SV{And(cs...), nil}
			}
			return SV{Or(cs...), nil}
		}
		body := c.with(id.Name, SV{bv, types.Typ[types.Int]}).boolean(x.Args[3])
		// a canonical bound variable, so that equal formulas are equal terms
		cbv := mk("bvar", fmt.Sprintf("%s?q%d", "k", quantDepth(body)), SInt)
		body = substTerm(body, bv, cbv)
		bv = cbv
		rng := And(Le(lo, bv), Lt(bv, hi))
		if name == "forall" {
			return SV{mk("forall", bv.name, SBool, bv, Implies(rng, body)), nil}
		}
		return SV{mk("exists", bv.name, SBool, bv, And(rng, body)), nil}
	case "heap":
		// heap("key", sort): raw heap array
		k, _ := strconv.Unquote(x.Args[0].(*ast.BasicLit).Value)
		s, _ := strconv.Unquote(x.Args[1].(*ast.BasicLit).Value)
		return SV{c.st.arr(k, specSort(s)), nil}
	case "fl64", "fl32":
		x := arg(0)
		if x.sort == SInt {
			x = ToReal(x)
		}
		return SV{roundTerm(c.st, x, name == "fl32"), nil}
	case "trunc":
		x := arg(0)
		return SV{truncTerm(c.st, x), nil}
	case "runeat":
		r, _ := runeAt(arg(0), arg(1))
		return SV{r, nil}
	case "runewidth":
		_, w := runeAt(arg(0), arg(1))
		return SV{w, nil}
	case "member":
		// member(v, k): the range over a map has visited key k
		return SV{Select(c.term(x.Args[0]), c.term(x.Args[1])), nil}
	case "freevar":
		// freevar("T"): the only variable of type T that the closure captures
		g, _ := strconv.Unquote(x.Args[0].(*ast.BasicLit).Value)
		if sv, ok := c.vars["freevar:"+g]; ok && sv.v != nil {
			return sv
		}
		c.err("no single captured variable of type %s", g)
	case "captured":
		// captured(f, "x"): the variable x of the closure f; captured(f, "type:T"): the only one of type T
		g, _ := strconv.Unquote(x.Args[1].(*ast.BasicLit).Value)
		v := c.eval(x.Args[0]).v
		if t, ok := v.(*Term); ok {
			if f, ok := funcTab[t]; ok {
				v = f
			}
		}
		f, ok := v.(*FuncV)
		if !ok {
			c.err("captured: not a known closure")
		}
		want := -1
		for i, fv := range f.fn.FreeVars {
			pt, isP := fv.Type().Underlying().(*types.Pointer)
			if fv.Name() == g || isP && g == "type:"+pt.Elem().String() {
				if want >= 0 {
					c.err("more than one captured variable %s", g)
				}
				want = i
			}
		}
		for i, fv := range f.fn.FreeVars {
			if i != want {
				continue
			}
			if pt, isP := fv.Type().Underlying().(*types.Pointer); isP {
				if ref, isT := f.bind[i].(*Term); isT {
					return SV{c.st.load(ref, pt.Elem()), pt.Elem()}
				}
			}
			return SV{f.bind[i], fv.Type()}
		}
		c.err("no captured variable %s", g)
	case "chancap":
		return SV{Select(c.st.arr("chancap", SInt), c.term(x.Args[0])), types.Typ[types.Int]}
	case "fresh":
		// fresh(x): reference/slice allocated during the call
		v := c.eval(x.Args[0])
		var t *Term
		switch y := v.v.(type) {
		case *SliceV:
			t = y.base
		case *Term:
			t = y
		default:
			c.err("fresh")
		}
		return SV{Lt(t, Sub(epochTerms[c.old.epoch], Int(int64(c.old.k)))), nil}
	}
	if f, ok := c.db.Fns[name]; ok {
		if len(f.Params) != len(x.Args) {
			c.err("%s: %d args expected", name, len(f.Params))
		}
		var args []*Term
		var svs []SV
		for i := range x.Args {
			sv := c.eval(x.Args[i])
			svs = append(svs, sv)
			t := c.toTerm(sv)
			if specSort(f.Params[i].typ) == SReal && t.sort == SInt {
				t = ToReal(t)
			}
			if t.op == "seq.empty" {
				t = SeqEmpty(specSort(f.Params[i].typ))
			}
			args = append(args, t)
		}
		if f.Rec && f.Body != nil {
			if t := c.db.unfoldEager(f, args, 0); t != nil {
				return SV{t, nil}
			}
		}
		if f.Rec || f.Body == nil {
			return SV{App(f.Name, specSort(f.Ret), args...), nil}
		}
		n := *c
		n.vars = map[string]SV{}
		for k, v := range c.vars {
			n.vars[k] = v
		}
		for i, p := range f.Params {
			if p.typ == "any" {
				n.vars[p.name] = svs[i]
			} else {
				n.vars[p.name] = SV{args[i], nil}
			}
		}
		return n.eval(f.Body)
	}
	c.err("unknown spec function %s", name)
	return SV{}
}

var bvCount int

func (c *evalCtx) typeArg(e ast.Expr) types.Type {
	var s string
	switch x := e.(type) {
	case *ast.BasicLit:
		s, _ = strconv.Unquote(x.Value)
	case *ast.Ident:
		s = x.Name
	}
	T := c.ex.V.findType(s)
	if T == nil {
		c.err("unknown type %s", s)
	}
	return T
}

// unfoldEager applies the defining equation of a recursive specification function when
// its guard (the condition of the outermost ite) is decided by simplification alone.
var eagerDepth int

func (db *SpecDB) unfoldEager(f *SpecFn, args []*Term, _ int) *Term {
	call, ok := f.Body.(*ast.CallExpr)
	if !ok || len(call.Args) != 3 || eagerDepth > 70 {
		return nil
	}
	if id, ok := call.Fun.(*ast.Ident); !ok || id.Name != "ite" {
		return nil
	}
	c := &evalCtx{db: db, st: specState, old: specState, vars: map[string]SV{}, ex: specExec}
	for i, p := range f.Params {
		c.vars[p.name] = SV{args[i], nil}
	}
	eagerDepth++
	defer func() { eagerDepth-- }()
	g := c.boolean(call.Args[0])
	switch g {
	case True:
		return c.term(call.Args[1])
	case False:
		return c.term(call.Args[2])
	}
	return nil
}

func (db *SpecDB) registerRec(f *SpecFn) {
	rf := &recFn{name: f.Name, sort: specSort(f.Ret), fuel: f.Fuel}
	rf.unfold = func(args []*Term) *Term {
		c := &evalCtx{db: db, st: specState, old: specState, vars: map[string]SV{}, ex: specExec}
		for i, p := range f.Params {
			c.vars[p.name] = SV{args[i], nil}
		}
		return c.toTerm(c.eval(f.Body))
	}
	recFns[f.Name] = rf
}

var specState = &State{heap: map[string]*Term{}, ghost: map[string]*Term{}}
var specExec *Exec

var qdMemo = map[*Term]int{}

func quantDepth(t *Term) int {
	if len(t.args) == 0 {
		return 0
	}
	if d, ok := qdMemo[t]; ok {
		return d
	}
	d := 0
	for _, a := range t.args {
		if n := quantDepth(a); n > d {
			d = n
		}
	}
	if t.op == "forall" || t.op == "exists" {
		d++
	}
	qdMemo[t] = d
	return d
}
