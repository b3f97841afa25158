package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Verifier struct {
	onlyCase   int // verify only this case of the contract, all of them if negative
	prog       *ssa.Program
	pkgs       []*packages.Package
	spkgs      map[string]*ssa.Package // short path -> ssa package
	db         *SpecDB
	loops      map[*ssa.Function]*loopInfo
	inlined    map[string]bool
	assumed    map[string]bool
	debugInv   bool
	stableMemo map[string]bool
	invTimeout time.Duration
	oblTimeout time.Duration
	grefs      map[*ssa.Global]*Term
	inited     map[string]bool
	initNotes  []string
	mutable    map[*ssa.Global]bool
	phase      int
	allFns     map[*ssa.Function]bool
	immut      map[string]bool
	typeCache  map[string]types.Type
	usedC      map[string]bool // contracts applied at call sites
}

func loadRepo(dir string, patterns []string) (*Verifier, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir,
	}
	cfg.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off")
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.Module == nil || !strings.HasPrefix(p.PkgPath, modPrefix) {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	v := &Verifier{onlyCase: -1, spkgs: map[string]*ssa.Package{}, loops: map[*ssa.Function]*loopInfo{}, inlined: map[string]bool{}, assumed: map[string]bool{},
		invTimeout: 6 * time.Second, oblTimeout: 10 * time.Second, grefs: map[*ssa.Global]*Term{}, inited: map[string]bool{}, mutable: map[*ssa.Global]bool{},
		typeCache: map[string]types.Type{}, usedC: map[string]bool{}}
	v.pkgs = pkgs
	prog := ssa.NewProgram(pkgs[0].Fset, ssa.InstantiateGenerics)
	v.prog = prog
	seen := map[*types.Package]bool{}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.Types == nil || seen[p.Types] || p.IllTyped && !strings.HasPrefix(p.PkgPath, modPrefix) {
			if p.Types == nil {
				return
			}
		}
		if seen[p.Types] {
			return
		}
		seen[p.Types] = true
		if strings.HasPrefix(p.PkgPath, modPrefix) && len(p.Syntax) > 0 {
			sp := prog.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
			v.spkgs[short(p.PkgPath)] = sp
		} else {
			prog.CreatePackage(p.Types, nil, nil, true)
		}
	})
	prog.Build()
	if len(epochTerms) == 0 {
		NewEpoch(0, 0)
	}
	v.allFns = ssautil.AllFunctions(prog)
	v.scanGlobals()
	return v, nil
}

func (v *Verifier) loopsOf(fn *ssa.Function) *loopInfo {
	if l, ok := v.loops[fn]; ok {
		return l
	}
	l := findLoops(fn)
	v.loops[fn] = l
	return l
}
func (v *Verifier) contract(key string) *Contract {
	c := v.db.Contracts[key]
	if c != nil {
		v.usedC[key] = true
	}
	return c
}
func (v *Verifier) assumption(s string) { v.assumed[s] = true }

func (v *Verifier) findFn(key string) *ssa.Function {
	for f := range v.allFns {
		if fnKey(f) == key {
			return f
		}
	}
	return nil
}
func (v *Verifier) findGlobal(name string) *ssa.Global {
	i := strings.LastIndexByte(name, '.')
	sp := v.spkgs[name[:i]]
	if sp == nil {
		if sp = v.prog.ImportedPackage(name[:i]); sp == nil {
			return nil
		}
	}
	return sp.Var(name[i+1:])
}

func (v *Verifier) findType(s string) types.Type {
	if t, ok := v.typeCache[s]; ok {
		return t
	}
	t := v.findType0(s)
	v.typeCache[s] = t
	return t
}
func (v *Verifier) findType0(s string) types.Type {
	if strings.HasPrefix(s, "*") {
		if t := v.findType(s[1:]); t != nil {
			return types.NewPointer(t)
		}
		return nil
	}
	if strings.HasPrefix(s, "[]") {
		if t := v.findType(s[2:]); t != nil {
			return types.NewSlice(t)
		}
		return nil
	}
	if s == "interface{}" {
		return types.NewInterfaceType(nil, nil)
	}
	if s == "unsafe.Pointer" {
		return types.Typ[types.UnsafePointer]
	}
	if o := types.Universe.Lookup(s); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	i := strings.LastIndexByte(s, '.')
	if i < 0 {
		return nil
	}
	for _, p := range v.prog.AllPackages() {
		if short(p.Pkg.Path()) == s[:i] {
			if o := p.Pkg.Scope().Lookup(s[i+1:]); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

// ---------- globals ----------

func (v *Verifier) globalRef(g *ssa.Global) *Term {
	if t, ok := v.grefs[g]; ok {
		return t
	}
	t := Int(int64(1000000 + len(v.grefs)))
	v.grefs[g] = t
	return t
}

// scanGlobals marks globals that may be written (or whose address escapes) outside package initialisation.
func (v *Verifier) scanGlobals() {
	isInit := func(f *ssa.Function) bool {
		for f.Parent() != nil {
			f = f.Parent()
		}
		return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
	}
	var readOnly func(val ssa.Value, depth int) bool
	readOnly = func(val ssa.Value, depth int) bool {
		if depth > 6 || val.Referrers() == nil {
			return false
		}
		for _, r := range *val.Referrers() {
			switch x := r.(type) {
			case *ssa.UnOp:
				if _, isSlice := x.Type().Underlying().(*types.Slice); isSlice {
					if !readOnly(x, depth+1) {
						return false
					}
				}
			case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Slice:
				if !readOnly(x.(ssa.Value), depth+1) {
					return false
				}
			case *ssa.DebugRef:
			case *ssa.Call:
				b, ok := x.Call.Value.(*ssa.Builtin)
				if !ok || (b.Name() != "len" && b.Name() != "cap" && !(b.Name() == "append" && len(x.Call.Args) == 2 && x.Call.Args[1] == val)) {
					return false
				}
			case *ssa.Range, *ssa.Index, *ssa.BinOp, *ssa.Phi, *ssa.Return:
				if _, isPhi := r.(*ssa.Phi); isPhi {
					return false
				}
				if _, isRet := r.(*ssa.Return); isRet {
					if _, isSlice := val.Type().Underlying().(*types.Slice); isSlice {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	for _, sp := range v.spkgs {
		for _, m := range sp.Members {
			// the importing program may assign exported variables
			if g, ok := m.(*ssa.Global); ok && ast.IsExported(g.Name()) {
				v.mutable[g] = true
			}
		}
	}
	for f := range v.allFns {
		init := isInit(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if init {
						// initialisation may write it, but its address must not be handed out
						switch x := in.(type) {
						case *ssa.UnOp, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.DebugRef:
						case *ssa.Store:
							if x.Val == ssa.Value(g) {
								v.mutable[g] = true
							}
						default:
							v.mutable[g] = true
						}
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						if _, isSlice := x.Type().Underlying().(*types.Slice); isSlice && !readOnly(x, 0) {
							v.mutable[g] = true
						}
					case *ssa.IndexAddr:
						if !readOnly(x, 0) {
							v.mutable[g] = true
						}
					case *ssa.FieldAddr:
						if !readOnly(x, 0) {
							v.mutable[g] = true
						}
					case *ssa.DebugRef:
					default:
						v.mutable[g] = true
					}
				}
			}
		}
	}
}

// runInit executes a package's initialisation concretely and records immutable global contents.
func (v *Verifier) runInit(path string) {
	if v.inited[path] {
		return
	}
	v.inited[path] = true
	sp := v.spkgs[path]
	if sp == nil {
		return
	}
	fn := sp.Func("init")
	ex := &Exec{V: v, initMode: true, maxSteps: 5000000}
	st := &State{heap: map[string]*Term{}, ghost: map[string]*Term{}, writes: newWriteLog(nil), zeroInit: true}
	for _, m := range sp.Members {
		if g, ok := m.(*ssa.Global); ok {
			T := g.Type().(*types.Pointer).Elem()
			if _, isA := isArray(T); isA {
				st.storeAt(objKey(T), "", v.globalRef(g), T, zeroVal(T))
			}
		}
	}
	complete := true
	func() {
		defer func() {
			if r := recover(); r != nil {
				complete = false
				if u, ok := r.(Unsupported); ok {
					v.initNotes = append(v.initNotes, path+": "+u.msg)
				} else {
					v.initNotes = append(v.initNotes, fmt.Sprintf("%s: %v", path, r))
				}
			}
		}()
		st.frames = []*Frame{newFrame(fn, nil, nil)}
		ex.run(st)
	}()
	if !complete {
		return
	}
	for _, m := range sp.Members {
		g, ok := m.(*ssa.Global)
		if !ok || v.mutable[g] || strings.HasPrefix(g.Name(), "init$") {
			continue
		}
		T := g.Type().(*types.Pointer).Elem()
		ref := v.globalRef(g)
		v.recordConst(st, objKey(T), "", ref, T, path+"."+g.Name())
	}
}

func (v *Verifier) recordConst(st *State, owner, path string, ref *Term, T types.Type, name string) {
	if u, ok := isStruct(T); ok {
		for i := 0; i < u.NumFields(); i++ {
			v.recordConst(st, owner, path+"."+u.Field(i).Name(), ref, u.Field(i).Type(), name+"."+u.Field(i).Name())
		}
		return
	}
	key := owner + path
	a := st.arr(key, sortOf(T))
	val := Select(a, ref)
	if !groundTerm(val) {
		return
	}
	if val.sort.IsSeq() && T.Underlying().String() != "string" {
		val = mkTable(name, val)
	}
	constHeap[key] = append(constHeap[key], constEntry{ref, val})
	if strings.HasPrefix(key, "M:") {
		constRefs[ref] = true
	}
	if sl, ok := T.Underlying().(*types.Slice); ok && val.op == "box:slice" && val.args[0].ival != nil && val.args[0].ival.Sign() > 0 {
		mkey := "M:" + tkey(sl.Elem())
		c := Select(st.arr(mkey, SeqOf(sortOf(sl.Elem()))), val.args[0])
		if groundTerm(c) {
			constHeap[mkey] = append(constHeap[mkey], constEntry{val.args[0], mkTable(name, c)})
			constRefs[val.args[0]] = true
		}
	}
}

func mkTable(name string, c *Term) *Term {
	ps := parts(c)
	if len(ps) < 4 {
		return c
	}
	ti := &tableInfo{name: name, elem: c.sort.Elem()}
	for _, p := range ps {
		if p.op != "seq.unit" {
			return c
		}
		ti.vals = append(ti.vals, p.args[0])
	}
	tables[name] = ti
	return mk("table", name, c.sort)
}

func groundTerm(t *Term) bool {
	switch t.op {
	case "#int", "#real", "true", "false", "seq.empty":
		return true
	case "seq.unit", "seq.++":
	default:
		if !strings.HasPrefix(t.op, "box:") {
			return false
		}
	}
	for _, a := range t.args {
		if !groundTerm(a) {
			return false
		}
	}
	return true
}

// constGlobal: value of an immutable global, if known.
func (v *Verifier) constGlobal(st *State, ex *Exec, g *ssa.Global) (Val, bool) {
	// sentinel errors of dependencies: fixed, distinct from nil
	if p := g.Pkg; p != nil && !strings.HasPrefix(p.Pkg.Path(), modPrefix) {
		T := g.Type().(*types.Pointer).Elem()
		if tkey(T) == "error" && (g.Name() == "EOF" || strings.HasPrefix(g.Name(), "Err")) {
			t := NamedSym("ext:"+p.Pkg.Path()+"."+g.Name(), SInt)
			if len(t.facts) == 0 {
				t.attach(Not(Eq(t, Int(0))))
				t.attach(Not(madeErr(t)))
			}
			v.assumption("sentinel error " + p.Pkg.Path() + "." + g.Name() + " is a fixed non-nil value")
			return t, true
		}
	}
	return nil, false
}

// ---------- roots ----------

type param struct {
	name string
	T    types.Type
	v    Val
}

type Obligation struct {
	Name   string
	Kind   string
	Script string
	Res    Result
	Pos    string
	Goal   string
	pc     []*Term
	goal   *Term
}

type RootCtx struct {
	V          *Verifier
	C          *Contract
	fn         *ssa.Function
	params     []param
	entry      *State
	vars       map[string]SV
	obls       []*Obligation
	nobl       int
	loops      []string
	lost       []string
	invQueries int
	terms      []string
	termFails  []string
	exits      int
	panics     int
	canary     bool
	canaryPC   [][]*Term
	specErrs   []string
	phase      int
}

type RootResult struct {
	Key         string
	Obls        []*Obligation
	Unsupported string
	Missing     bool
	Loops       []string
	Lost        []string
	Term        []string
	TermFails   []string
	Exits       int
	Panics      int
	Vacuous     string
	InvQueries  int
	Phase       int
	Wall        float64
	SpecErr     string
	LoopFacts   int
	rc          *RootCtx
}

func (r *RootResult) Failed() []*Obligation {
	var out []*Obligation
	for _, o := range r.Obls {
		if o.Res.Status != "unsat" {
			out = append(out, o)
		}
	}
	return out
}
func (r *RootResult) OK() bool {
	return r.Unsupported == "" && len(r.Failed()) == 0 && len(r.TermFails) == 0 && r.Vacuous == "" && r.SpecErr == ""
}

func (rc *RootCtx) needTerm(fr *Frame) bool { return rc.C.Term }
func (rc *RootCtx) noteLoop(name string, live, all []*cand) {
	var ds []string
	surv := map[string]bool{}
	for _, c := range live {
		if c.user {
			ds = append(ds, c.desc)
			surv[c.tpl] = true
		}
	}
	rc.nobl += len(live)
	rc.loops = append(rc.loops, fmt.Sprintf("%s: %d inductive facts; %s", name, len(live), strings.Join(ds, " ;; ")))
	for _, c := range all {
		if c.user && !surv[c.tpl] {
			surv[c.tpl] = true
			rc.lost = append(rc.lost, name+": template "+c.tpl+" has no inductive instance")
		}
	}
}
func (rc *RootCtx) noteTerm(name, desc string) { rc.terms = append(rc.terms, name+": "+desc) }
func (rc *RootCtx) failTerm(name string)       { rc.termFails = append(rc.termFails, name) }

func (rc *RootCtx) ctx(ex *Exec, st *State) *evalCtx {
	return &evalCtx{ex: ex, db: rc.V.db, st: st, old: rc.entry, vars: rc.vars}
}

func (rc *RootCtx) typeMatch(typ string, T types.Type) bool {
	switch typ {
	case "int":
		return isIntT(T)
	case "bytes":
		if s, ok := T.Underlying().(*types.Slice); ok {
			return tkey(s.Elem()) == "uint8"
		}
		return false
	case "seq":
		if s, ok := T.Underlying().(*types.Slice); ok {
			return tkey(s.Elem()) == "uint8"
		}
		return isSeqT(T)
	case "slice":
		_, ok := T.Underlying().(*types.Slice)
		return ok
	case "bool":
		b, ok := T.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsBoolean != 0
	case "real":
		b, ok := T.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsFloat != 0
	case "ref":
		return isRefType(T)
	case "set":
		// the keys a range over a map has visited
		return T == setType
	case "map":
		_, ok := T.Underlying().(*types.Map)
		return ok
	case "iface":
		return types.IsInterface(T)
	}
	return tkey(T) == typ
}

// setType marks the atom for the keys a range over a map has visited
var setType types.Type = types.NewStruct(nil, nil)

type binding map[string]atom

func (rc *RootCtx) instantiate(vars []tvar, ats []atom) []binding {
	out := []binding{{}}
	for _, v := range vars {
		var cs []atom
		exact := false
		plus1 := func(a atom) atom {
			b := a
			b.name = a.name + "+1"
			b.get = func(s *State, f *Frame) (Val, bool) {
				x, ok := a.get(s, f)
				if !ok {
					return nil, false
				}
				return Add(x.(*Term), Int(1)), true
			}
			return b
		}
		for _, a := range ats {
			if rc.typeMatch(v.typ, a.T) && a.name == v.hint && a.phi {
				cs = append(cs, a)
				exact = true
			} else if a.name == "rangeindex" && v.typ == "int" && v.name == v.hint {
				cs = append(cs, plus1(a))
			}
		}
		if !exact || rc.phase > 1 {
			cs = nil
			for _, a := range ats {
				if !rc.typeMatch(v.typ, a.T) {
					continue
				}
				if !a.phi && rc.phase <= 1 && a.name != v.hint && v.typ == "int" {
					continue
				}
				if a.name == "rangeindex" && v.typ == "int" {
					cs = append(cs, plus1(a))
				}
				cs = append(cs, a)
			}
		}
		var next []binding
		for _, b := range out {
			for _, a := range cs {
				dup := false
				for _, o := range b {
					if o.name == a.name && a.name != "" && a.phi && o.phi {
						dup = true
					}
				}
				if dup {
					continue
				}
				n := binding{v.name: a}
				for k, x := range b {
					n[k] = x
				}
				next = append(next, n)
			}
		}
		out = next
		if len(out) > 150 {
			out = out[:150]
		}
	}
	return out
}

func (rc *RootCtx) evalTemplate(ex *Exec, cl Clause, b binding, s *State, f *Frame) (t *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if e, is := r.(specErr); is {
				ex.debugf("template %s: %s", cl.Src, e.msg)
				t, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	c := rc.ctx(ex, s)
	for _, v := range cl.Vars {
		a := b[v.name]
		x, good := a.get(s, f)
		if !good {
			return nil, false
		}
		c = c.with(v.name, SV{x, a.T})
	}
	return c.term(cl.Expr), true
}

func descOf(cl Clause, b binding) string {
	var bs []string
	for _, v := range cl.Vars {
		bs = append(bs, v.name+"="+b[v.name].name)
	}
	return cl.Src + " [" + strings.Join(bs, ",") + "]"
}

func (rc *RootCtx) templateCands(ex *Exec, st *State, fr *Frame, ats []atom) []*cand {
	var out []*cand
	for _, cl := range rc.C.Invs {
		cl := cl
		for _, b := range rc.instantiate(cl.Vars, ats) {
			b := b
			out = append(out, &cand{tpl: cl.Name, desc: descOf(cl, b), user: true, eval: func(s *State, f *Frame) (*Term, bool) {
				return rc.evalTemplate(ex, cl, b, s, f)
			}})
		}
	}
	return out
}
func (rc *RootCtx) measureCands(ex *Exec, st *State, fr *Frame, ats []atom) []*cand {
	var out []*cand
	for _, cl := range rc.C.Decr {
		cl := cl
		for _, b := range rc.instantiate(cl.Vars, ats) {
			b := b
			out = append(out, &cand{tpl: cl.Name, desc: descOf(cl, b), user: true, mEval: func(s *State, f *Frame) (*Term, bool) {
				return rc.evalTemplate(ex, cl, b, s, f)
			}})
		}
	}
	return out
}

func (rc *RootCtx) oblige(st *State, kind, name, pos string, goal *Term) {
	o := &Obligation{Name: rc.C.Key + "/" + kind + ":" + name, Kind: kind, Pos: pos}
	o.pc = st.pc
	o.goal = goal
	rc.obls = append(rc.obls, o)
}

func (ex *Exec) oblige(st *State, kind, name, pos string, goal *Term) {
	if ex.dry > 0 || ex.root == nil {
		return
	}
	ex.root.oblige(st, kind, name, pos, goal)
}

// ---------- contract application at call sites ----------

func paramTypes(sig *types.Signature, recvT types.Type) []types.Type {
	var out []types.Type
	if recvT != nil {
		out = append(out, recvT)
	} else if sig.Recv() != nil {
		out = append(out, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		out = append(out, sig.Params().At(i).Type())
	}
	return out
}

func (ex *Exec) applyContract(st *State, fr *Frame, in ssa.Instruction, ct *Contract, sig *types.Signature, recvT types.Type, args []Val, res ssa.Value, isDefer bool) bool {
	ex.V.usedC[ct.Key] = true
	pts := paramTypes(sig, recvT)
	if len(ct.Params) != len(args) {
		unsup("contract %s: %d parameters declared, call has %d", ct.Key, len(ct.Params), len(args))
	}
	vars := map[string]SV{}
	for i, p := range ct.Params {
		vars[p] = SV{args[i], pts[i]}
	}
	pre := st.clone()
	c := &evalCtx{ex: ex, db: ex.V.db, st: st, old: pre, vars: vars}
	for _, l := range ct.Let {
		c.vars[l.Name] = c.eval(l.Expr)
	}
	pos := ex.site(fr, in, "call")
	for i, r := range ct.Requires {
		g := c.boolean(r.Expr)
		nm := r.Name
		if nm == "" {
			nm = fmt.Sprint(i + 1)
		}
		ex.oblige(st, "precondition", ct.Key+"#"+nm+" at "+pos, pos, g)
		st.assume(g)
	}
	// effects
	for _, m := range ct.Modifies {
		ex.havocLoc(st, c, m)
	}
	// results
	rs := sig.Results()
	var tv TupleV
	defined := map[int]bool{}
	for i := 0; i < rs.Len(); i++ {
		T := rs.At(i).Type()
		nm := fmt.Sprintf("r%d", i)
		if i < len(ct.Results) {
			nm = ct.Results[i]
		}
		// definitional clause  r == E
		var val Val
		for k, e := range ct.Ensures {
			if rhs := defClause(e, nm); rhs != nil && !e.Own {
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(specErr); ok {
								return
							}
							panic(r)
						}
					}()
					sv := c.eval(rhs)
					if sl, ok := T.Underlying().(*types.Slice); ok {
						if x, isS := sv.v.(*SliceV); isS {
							_ = x
						}
						val = st.newSlice(sl.Elem(), c.toTerm(sv))
					} else {
						val = st.unpack(c.toTerm(sv), T)
					}
					defined[k] = true
				}()
				break
			}
		}
		if val == nil {
			val = ex.prefixResult(st, c, ct, nm, T)
		}
		if val == nil {
			val = ex.freshVal(st, nm, T)
		}
		tv = append(tv, val)
		c.vars[nm] = SV{val, T}
	}
	// panicking outcome
	if ct.PanicAny || ct.Panics != nil || ct.MayPanic != nil {
		o := st.clone()
		cond := True
		if ct.MayPanic != nil {
			cc := *c
			cc.st = o
			cond = cc.boolean(ct.MayPanic.Expr)
		}
		if ct.Panics != nil {
			cc := *c
			cc.st = o
			cond = cc.boolean(ct.Panics.Expr)
		}
		o.assume(cond)
		if !o.dead() && !qs.infeasible(o.pc) {
			pv := Fresh("panicValue", SInt)
			o.assume(Not(Eq(pv, Int(0))))
			for _, e := range ct.XEnsures {
				cc := *c.with("panicvalue", SV{pv, nil})
				cc.st = o
				o.assume(cc.boolean(e.Expr))
			}
			if ex.raise(o, pv, ex.site(fr, in, "callee-panic")) {
				ex.push(o)
			}
		}
		if ct.Panics != nil {
			st.assume(Not(cond))
		}
	}
	for k, e := range ct.Ensures {
		if defined[k] || e.Own {
			continue
		}
		st.assume(c.boolean(e.Expr))
	}
	// again, with the form the clauses take when all of them are known
	for k, e := range ct.Ensures {
		if !defined[k] && !e.Own && !st.dead() {
			st.assume(c.boolean(e.Expr))
		}
	}
	if st.dead() {
		return false
	}
	var v Val = tv
	if len(tv) == 1 {
		v = tv[0]
	} else if len(tv) == 0 {
		v = TupleV{}
	}
	return ex.finish(st, res, v, isDefer)
}

// ---------- root verification ----------

func (ex *Exec) atExit(st *State) {
	if ex.dry > 0 || ex.root == nil {
		return
	}
	rc := ex.root
	ex.npaths++
	if ex.npaths > 4000 {
		unsup("too many paths")
	}
	c := rc.ctx(ex, st)
	if st.exit.panicked {
		rc.panics++
		for i, e := range rc.C.XEnsures {
			nm := e.Name
			if nm == "" {
				nm = fmt.Sprint(i + 1)
			}
			rc.oblige(st, "ensures-on-panic", nm, "", c.boolean(e.Expr))
		}
		if rc.C.PanicAny {
			return
		}
		goal := False
		if rc.C.MayPanic != nil {
			goal = c.boolean(rc.C.MayPanic.Expr)
		}
		if rc.C.Panics != nil {
			goal = c.boolean(rc.C.Panics.Expr)
		}
		rc.oblige(st, "no-panic", st.exit.site, st.exit.site, goal)
		return
	}
	rc.exits++
	rc.canaryPC = append(rc.canaryPC, st.pc)
	rs := rc.fn.Signature.Results()
	var rv []Val
	switch rs.Len() {
	case 0:
	case 1:
		rv = []Val{st.exit.ret}
	default:
		rv = st.exit.ret.(TupleV)
	}
	for i := range rv {
		nm := fmt.Sprintf("r%d", i)
		if i < len(rc.C.Results) {
			nm = rc.C.Results[i]
		}
		c = c.with(nm, SV{rv[i], rs.At(i).Type()})
	}
	earlier := map[*Term]bool{}
	for i, e := range rc.C.Ensures {
		nm := e.Name
		if nm == "" {
			nm = fmt.Sprint(i + 1)
		}
		g := c.boolean(e.Expr)
		if g.op == "app" && recFns[g.name] != nil && known(earlier, recFns[g.name].unfold(g.args)) {
			g = True // by definition the same as an earlier clause, which is an obligation of its own
		}
		for _, a := range flatten(g) {
			earlier[a] = true
		}
		// conjunctions are split into separate obligations
		if g.op == "and" {
			for _, a := range g.args {
				rc.oblige(st, "ensures", nm, "", a)
			}
			continue
		}
		rc.oblige(st, "ensures", nm, "", g)
	}
	if rc.C.Panics != nil {
		// "panics E" is exact: a normal return implies not E
		cc := *c
		cc.st = rc.entry
		rc.oblige(st, "must-panic", "normal-return", "", Not(cc.boolean(rc.C.Panics.Expr)))
	}
	ex.checkFrame(st, c)
}

// checkFrame: every location written is either freshly allocated or listed in modifies.
func (ex *Exec) checkFrame(st *State, c *evalCtx) {
	rc := ex.root
	for _, m := range rc.C.Modifies {
		if m == "everything" {
			return
		}
	}
	if st.gen != 0 {
		rc.oblige(st, "frame", "calls a function that may modify everything", "", False)
		return
	}
	allowed := map[string][]*Term{}
	all := map[string]bool{}
	cc := *c
	cc.st = rc.entry
	for _, m := range rc.C.Modifies {
		ex.locRefs(&cc, m, allowed, all)
	}
	var keys []string
	for k := range st.heap {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if all[k] {
			continue
		}
		if k == "chancap" {
			continue
		}
		a := st.heap[k]
		base := rc.entry.heap[k]
		done := map[*Term]bool{}
		for a != base && a != nil {
			switch a.op {
			case "store":
				r := a.args[1]
				if !done[r] {
					done[r] = true
					if ri, ok := refTab[r]; ok && ri.fresh {
					} else if base == nil && isConstEntry(k, r, a.args[2]) {
					} else {
						var alts []*Term
						for _, l := range allowed[k] {
							alts = append(alts, Eq(l, r))
						}
						alts = append(alts, Lt(r, Int(0)))
						if b0 := rc.entry.heap[k]; b0 != nil {
							alts = append(alts, Eq(Select(st.heap[k], r), Select(b0, r)))
						} else {
							alts = append(alts, Eq(Select(st.heap[k], r), Select(withConstHeap(k, NamedSym("H:"+k, a.sort)), r)))
						}
						rc.oblige(st, "frame", k, "", Or(alts...))
					}
				}
				a = a.args[0]
				continue
			case "named":
				a = a.args[0]
				continue
			case "havocold":
				a = a.args[1]
				continue
			case "sym":
				if a.name != "H:"+sanitize(k) && a != NamedSym("H:"+k, a.sort) {
					rc.oblige(st, "frame", k+" (unknown location)", "", False)
				}
			}
			break
		}
	}
}
func isConstEntry(k string, r, v *Term) bool {
	for _, e := range constHeap[k] {
		if e.ref == r && e.val == v {
			return true
		}
	}
	return false
}

func (v *Verifier) verifyRoot(ct *Contract, phase int) (res *RootResult) {
	res = &RootResult{Key: ct.Key, Phase: phase}
	start := time.Now()
	defer func() { res.Wall = time.Since(start).Seconds() }()
	fn := v.findFn(ct.Key)
	if fn == nil || len(fn.Blocks) == 0 {
		res.Missing = true
		return
	}
	if fn.Package() != nil {
		v.initDeps(fn.Package())
	}
	for _, g := range sortedKeys(v.db.Globals) {
		if gl := v.findGlobal(g); gl != nil && strings.HasPrefix(gl.Pkg.Pkg.Path(), modPrefix) {
			v.initDeps(gl.Pkg)
		}
	}
	v.applyTables()
	rc := &RootCtx{V: v, C: ct, fn: fn, vars: map[string]SV{}, phase: phase}
	res.rc = rc
	ex := &Exec{V: v, root: rc, maxSteps: 400000}
	specExec = ex
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case Unsupported:
				res.Unsupported = e.msg
			case specErr:
				res.SpecErr = e.msg
			default:
				if os.Getenv("GOVC_TRACE") != "" {
					panic(r)
				}
				res.Unsupported = fmt.Sprintf("internal: %v", r)
			}
			res.Obls = nil
		}
		res.Loops, res.Lost, res.Term, res.TermFails, res.Exits, res.Panics, res.InvQueries = rc.loops, rc.lost, rc.terms, rc.termFails, rc.exits, rc.panics, rc.invQueries
	}()
	st := &State{heap: map[string]*Term{}, ghost: map[string]*Term{}, writes: newWriteLog(nil)}
	for g, s := range v.db.Ghosts {
		st.ghost[g] = NamedSym("ghost:"+g, specSort(s))
	}
	if len(ct.Params) != len(fn.Params) {
		res.Unsupported = fmt.Sprintf("signature changed: contract names %d parameters, function has %d", len(ct.Params), len(fn.Params))
		return
	}
	var args []Val
	for i, p := range fn.Params {
		a := symVal(st, ct.Params[i], p.Type())
		if s, ok := a.(*SliceV); ok {
			st.nameSlice(ct.Params[i], s)
		}
		args = append(args, a)
		rc.vars[ct.Params[i]] = SV{a, p.Type()}
		rc.params = append(rc.params, param{ct.Params[i], p.Type(), a})
	}
	// the variables a closure captures: any values, in cells of their own
	var bind []Val
	for i, fv := range fn.FreeVars {
		p := symVal(st, fv.Name(), fv.Type())
		if ref, ok := p.(*Term); ok {
			st.assume(Lt(Int(0), ref))
			for j := 0; j < i; j++ {
				if o, ok := bind[j].(*Term); ok {
					st.assume(Not(Eq(ref, o)))
				}
			}
			if pt, ok := fv.Type().Underlying().(*types.Pointer); ok {
				sv := SV{st.load(ref, pt.Elem()), pt.Elem()}
				rc.vars[fv.Name()] = sv
				k := "freevar:" + pt.Elem().String()
				if _, dup := rc.vars[k]; !dup {
					rc.vars[k] = sv
				} else {
					rc.vars[k] = SV{}
				}
			}
		}
		bind = append(bind, p)
	}
	starts := []*State{st}
	for _, e := range ct.Cases {
		var next []*State
		for _, s := range starts {
			t := rc.ctx(ex, s).boolean(e.Expr)
			for _, f := range []*Term{t, Not(t)} {
				n := s.clone()
				n.writes = newWriteLog(nil)
				n.assume(f)
				next = append(next, n)
			}
		}
		starts = next
	}
	for i, st := range starts {
		if v.onlyCase >= 0 && i != v.onlyCase {
			continue
		}
		rc.entry = st
		c := rc.ctx(ex, st)
		for _, l := range ct.Let {
			rc.vars[l.Name] = c.eval(l.Expr)
		}
		for _, r := range ct.Requires {
			st.assume(c.boolean(r.Expr))
		}
		rc.entry = st.clone()
		rc.entry.writes = newWriteLog(nil)
		nf := newFrame(fn, args, bind)
		st.frames = []*Frame{nf}
		// vacuity: the precondition must be satisfiable
		if len(st.pc) > 0 && len(ct.Cases) == 0 {
			r := prove(st.pc, False, 1, 5*time.Second)
			if r.Status == "unsat" {
				res.Vacuous = "precondition unsatisfiable"
				return
			}
		}
		if v.loopsOf(fn).body[fn.Blocks[0]] != nil {
			if ex.atHeader(st, nf, nil, fn.Blocks[0], v.loopsOf(fn)) {
				ex.push(st)
			}
		} else {
			ex.push(st)
		}
		ex.runAll()
	}
	// discharge
	v.discharge(rc.obls, v.oblTimeout)
	res.Obls = rc.obls
	// loop facts count as discharged obligations (initialisation and preservation)
	res.LoopFacts = rc.nobl
	// vacuity: some normal exit must not be refutable
	if rc.exits > 0 {
		vac := true
		for i, pc := range rc.canaryPC {
			if i > 12 {
				vac = false
				break
			}
			if r := prove(pc, False, 1, 3*time.Second); r.Status != "unsat" {
				vac = false
				break
			}
		}
		if vac {
			res.Vacuous = "no reachable normal exit"
		}
	}
	if rc.exits == 0 && rc.panics == 0 {
		res.Vacuous = "no exit reached"
	}
	if len(rc.obls) == 0 && res.Vacuous == "" {
		res.Vacuous = "no obligations generated"
	}
	return
}

func (v *Verifier) discharge(obls []*Obligation, to time.Duration) {
	var jobs []job
	for i, o := range obls {
		g := o.goal
		o.Goal = g.String()
		if len(o.Goal) > 4000 {
			o.Goal = o.Goal[:4000] + "..."
		}
		done := g == True
		for _, p := range o.pc {
			if p == g || p == False {
				done = true
			}
		}
		if done {
			o.Res = Result{Status: "unsat", Backend: "simplifier"}
			continue
		}
		if quickable(g) && qs.implied(o.pc, g) {
			o.Res = Result{Status: "unsat", Backend: "z3-new"}
			continue
		}
		if os.Getenv("GOVC_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "discharge %d/%d %s (%d assumptions) t=%s %.3000s\n", i, len(obls), o.Name, len(o.pc), time.Now().Format("04:05.0"), g)
		}
		if g = reduceGoal(o.pc, g); g == True {
			o.Res = Result{Status: "unsat", Backend: "rewriter+z3-new"}
			continue
		}
		if pc := withInstances(o.pc, g); len(pc) > len(o.pc) {
			o.pc = pc
			if quickable(g) && qs.implied(pc, g) {
				o.Res = Result{Status: "unsat", Backend: "instances+z3-new"}
				continue
			}
			if g = reduceGoal(pc, g); g == True {
				o.Res = Result{Status: "unsat", Backend: "instances+rewriter+z3-new"}
				continue
			}
		}
		jobs = append(jobs, mkJob(i, o.pc, g, nil))
	}
	for i, r := range runJobs(jobs, to) {
		obls[i].Res = r
	}
}

func (v *Verifier) initDeps(p *ssa.Package) {
	v.runInit(short(p.Pkg.Path()))
	for _, imp := range p.Pkg.Imports() {
		if strings.HasPrefix(imp.Path(), modPrefix) {
			if sp := v.spkgs[short(imp.Path())]; sp != nil && !v.inited[short(imp.Path())] {
				v.initDeps(sp)
			}
		}
	}
}

// ---------- locations ----------

// locRefs resolves a modifies clause into heap keys and references.
func (ex *Exec) locRefs(c *evalCtx, m string, allowed map[string][]*Term, all map[string]bool) {
	switch {
	case strings.HasPrefix(m, "ghost "):
		return
	case strings.HasPrefix(m, "all "):
		all[strings.TrimSpace(m[4:])] = true
		return
	case strings.HasPrefix(m, "elems("):
		e, err := parseClause(m[6 : len(m)-1])
		if err != nil {
			c.err("modifies %s: %v", m, err)
		}
		s, ok := c.eval(e.Expr).v.(*SliceV)
		if !ok {
			c.err("modifies %s: not a slice", m)
		}
		k := c.st.memKey(s.elem)
		allowed[k] = append(allowed[k], s.base)
		return
	case strings.HasPrefix(m, "map("):
		e, err := parseClause(m[4 : len(m)-1])
		if err != nil {
			c.err("modifies %s: %v", m, err)
		}
		sv := c.eval(e.Expr)
		mt := sv.T.Underlying().(*types.Map)
		for _, p := range []string{"mapdom:", "mapval:", "maplen:"} {
			k := p + mapKey(mt)
			allowed[k] = append(allowed[k], sv.v.(*Term))
		}
		return
	}
	ref, owner, path, T := ex.resolveLoc(c, m)
	ex.leafKeys(owner, path, T, func(key string, s Sort) {
		allowed[key] = append(allowed[key], ref)
	})
}

func (ex *Exec) leafKeys(owner, path string, T types.Type, f func(key string, s Sort)) {
	if u, ok := isStruct(T); ok {
		for i := 0; i < u.NumFields(); i++ {
			ex.leafKeys(owner, path+"."+u.Field(i).Name(), u.Field(i).Type(), f)
		}
		return
	}
	f(owner+path, sortOf(T))
}

// resolveLoc: "p.f.g", "*p", "*p.f" (pointee) -> object reference, heap key, type
func (ex *Exec) resolveLoc(c *evalCtx, m string) (*Term, string, string, types.Type) {
	cl, err := parseClause(m)
	if err != nil {
		c.err("modifies %s: %v", m, err)
	}
	e := cl.Expr
	switch x := e.(type) {
	case *starExprT:
		v := c.eval(x.X)
		pt := v.T.Underlying().(*types.Pointer)
		switch p := v.v.(type) {
		case *Term:
			return p, objKey(pt.Elem()), "", pt.Elem()
		case *PtrV:
			if len(p.steps) > 0 {
				c.err("modifies through element pointer")
			}
			return p.ref, p.owner, p.path, pt.Elem()
		}
	case *selExprT:
		v := c.eval(x.X)
		pt, ok := v.T.Underlying().(*types.Pointer)
		if !ok {
			// nested struct value: resolve the parent location
			r, o, p, T := ex.resolveLoc(c, exprStr(x.X))
			u, _ := isStruct(T)
			fp, ft := findField(u, x.Sel.Name)
			return r, o, p + fp, ft
		}
		u, _ := isStruct(pt.Elem())
		fp, ft := findField(u, x.Sel.Name)
		if ft == nil {
			c.err("modifies %s: no field", m)
		}
		switch p := v.v.(type) {
		case *Term:
			return p, tkey(pt.Elem()), fp, ft
		case *PtrV:
			if len(p.steps) > 0 {
				c.err("modifies through element pointer")
			}
			return p.ref, p.owner, p.path + fp, ft
		}
	case *callExprT:
		if id, ok := x.Fun.(*identT); ok && id.Name == "global" {
			s := strings.Trim(exprStr(x.Args[0]), "\"")
			g := ex.V.findGlobal(s)
			if g == nil {
				c.err("no global %s", s)
			}
			T := g.Type().(*types.Pointer).Elem()
			return ex.V.globalRef(g), objKey(T), "", T
		}
	}
	c.err("modifies %s: unsupported location", m)
	return nil, "", "", nil
}

func (ex *Exec) havocLoc(st *State, c *evalCtx, m string) {
	switch {
	case m == "everything":
		ex.havocEverything(st)
		return
	case strings.HasPrefix(m, "ghost "):
		g := strings.TrimSpace(m[6:])
		if cur, ok := st.ghost[g]; ok {
			st.ghost[g] = Fresh("g:"+g, cur.sort)
			st.writes.addGhost(g)
		}
		return
	case strings.HasPrefix(m, "all "):
		k := strings.TrimSpace(m[4:])
		a, ok := st.heap[k]
		if !ok {
			if a = heapSorts[k]; a == nil && k == "M:string" {
				a = st.arr(k, SeqOf(sortOf(types.Typ[types.String])))
			}
			if a == nil {
				if T := ex.V.findType(k); T != nil {
					if _, basic := T.Underlying().(*types.Basic); basic {
						a = st.arr(k, sortOf(T))
					}
				}
			}
			if a == nil {
				unsup("modifies all %s: nothing of this kind known yet", k)
			}
		}
		st.heap[k] = withConstHeap(k, Fresh("H:"+k, a.sort))
		st.writes.add(k, Fresh("anyref", SInt))
		return
	}
	allowed := map[string][]*Term{}
	ex.locRefs(c, m, allowed, map[string]bool{})
	for k, refs := range allowed {
		a, ok := st.heap[k]
		if !ok {
			if a = heapSorts[k]; a == nil {
				// not yet materialised: find the sort from the location's type
				a = ex.arrForKey(st, c, m, k)
			} else {
				a = withConstHeap(k, st.initArr(k, a.sort))
			}
		}
		for _, r := range refs {
			a = Store(a, r, Fresh("hv:"+k, a.sort.Elem()))
			st.writes.add(k, r)
		}
		st.heap[k] = a
	}
}
func (ex *Exec) arrForKey(st *State, c *evalCtx, m, key string) *Term {
	if strings.HasPrefix(m, "elems(") {
		e, _ := parseClause(m[6 : len(m)-1])
		s := c.eval(e.Expr).v.(*SliceV)
		return st.arr(key, SeqOf(sortOf(s.elem)))
	}
	if strings.HasPrefix(m, "map(") {
		e, _ := parseClause(m[4 : len(m)-1])
		mt := c.eval(e.Expr).T.Underlying().(*types.Map)
		switch {
		case strings.HasPrefix(key, "mapdom:"):
			return st.arr(key, ArrOf(sortOf(mt.Key()), SBool))
		case strings.HasPrefix(key, "mapval:"):
			return st.arr(key, ArrOf(sortOf(mt.Key()), sortOf(mt.Elem())))
		}
		return st.arr(key, SInt)
	}
	_, o, p, T := ex.resolveLoc(c, m)
	var out *Term
	ex.leafKeys(o, p, T, func(k string, s Sort) {
		if k == key {
			out = st.arr(k, s)
		}
	})
	return out
}

// prefixResult: a clause r[:len(E)] == E makes the result E followed by something
func (ex *Exec) prefixResult(st *State, c *evalCtx, ct *Contract, nm string, T types.Type) (out Val) {
	sl, ok := T.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	for _, e := range ct.Ensures {
		b, ok := e.Expr.(*binExprT)
		if !ok || b.Op.String() != "==" || mentions(b.Y, nm) {
			continue
		}
		x, ok := b.X.(*ast.SliceExpr)
		if !ok || x.Low != nil || x.High == nil {
			continue
		}
		if id, ok := x.X.(*identT); !ok || id.Name != nm {
			continue
		}
		call, ok := x.High.(*ast.CallExpr)
		if !ok || len(call.Args) != 1 {
			continue
		}
		if id, ok := call.Fun.(*identT); !ok || id.Name != "len" {
			continue
		}
		a, ok1 := call.Args[0].(*identT)
		y, ok2 := b.Y.(*identT)
		if !ok1 || !ok2 || a.Name != y.Name {
			continue
		}
		pre := c.toTerm(c.eval(b.Y))
		v, ok := symVal(st, nm, T).(*SliceV)
		if !ok {
			return nil
		}
		st.nameSliceAs(nm, v, Cat(pre, Fresh(nm+".tail", SeqOf(sortOf(sl.Elem())))))
		return v
	}
	return nil
}

func defClause(e Clause, res string) exprT {
	b, ok := e.Expr.(*binExprT)
	if !ok || b.Op.String() != "==" {
		return nil
	}
	if id, ok := b.X.(*identT); ok && id.Name == res && !mentions(b.Y, res) {
		return b.Y
	}
	return nil
}
