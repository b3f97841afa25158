package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type deferRec struct {
	fn   Val
	args []Val
	call *ssa.CallCommon
	site ssa.Instruction
}

type Frame struct {
	fn        *ssa.Function
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	ip        int
	env       map[ssa.Value]Val
	defers    []deferRec
	panicking bool
	panicVal  *Term
	recovered bool
	isDefer   bool      // invoked as deferred call
	callInstr ssa.Value // value in the caller's frame receiving the result (nil for defer)
	cuts      map[*ssa.BasicBlock]*LoopCut
	unrolled  map[*ssa.BasicBlock]int
	bind      []Val
	viaGo     bool
	onRet     func(st *State, v Val) Val // adapter applied to the result
}

type State struct {
	pc       []*Term
	heap     map[string]*Term
	ghost    map[string]*Term
	epoch    int
	k        int
	frames   []*Frame
	writes   *writeLog
	notes    []string // trail of branch decisions (for reports)
	exit     *exitInfo
	zeroInit bool
	priv     []privRef // local variables nothing else can reach
	gen      int       // number of the last havoc of all memory
}

func zeroOfSort(s Sort) *Term {
	switch {
	case s == SInt:
		return Int(0)
	case s == SBool:
		return False
	case s == SReal:
		return Real(new(big.Rat))
	case s.IsSeq():
		return SeqEmpty(s)
	case s.IsArray():
		return ConstArr(s, zeroOfSort(s.Elem()))
	}
	panic("zeroOfSort " + string(s))
}

// constHeap: contents of globals fixed by package initialisation and never written afterwards.
type constEntry struct{ ref, val *Term }

var constHeap = map[string][]constEntry{}

func withConstHeap(key string, a *Term) *Term {
	for _, e := range constHeap[key] {
		if a.sort.Elem() == e.val.sort {
			a = Store(a, e.ref, e.val)
		}
	}
	return a
}

type exitInfo struct {
	panicked bool
	panicVal *Term
	site     string
	ret      Val
}

// writeLog accumulates heap locations written (shared across clones within one recording scope)
type writeLog struct {
	parent *writeLog
	locs   map[string]map[*Term]bool // heap key -> refs
	ghosts map[string]bool
	iters  map[string]bool
}

func newWriteLog(p *writeLog) *writeLog {
	return &writeLog{parent: p, locs: map[string]map[*Term]bool{}, ghosts: map[string]bool{}}
}
func (w *writeLog) add(key string, ref *Term) {
	for l := w; l != nil; l = l.parent {
		m := l.locs[key]
		if m == nil {
			m = map[*Term]bool{}
			l.locs[key] = m
		}
		m[ref] = true
	}
}
func (w *writeLog) addGhost(g string) {
	for l := w; l != nil; l = l.parent {
		l.ghosts[g] = true
	}
}

func (st *State) clone() *State {
	n := *st
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	n.heap = make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.ghost = make(map[string]*Term, len(st.ghost))
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]Val, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = f.defers[:len(f.defers):len(f.defers)]
		g.cuts = make(map[*ssa.BasicBlock]*LoopCut, len(f.cuts))
		for k, v := range f.cuts {
			g.cuts[k] = v
		}
		g.unrolled = make(map[*ssa.BasicBlock]int, len(f.unrolled))
		for k, v := range f.unrolled {
			g.unrolled[k] = v
		}
		n.frames[i] = &g
	}
	n.notes = st.notes[:len(st.notes):len(st.notes)]
	return &n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) assume(t *Term) {
	if t == True {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			st.assume(a)
		}
		return
	}
	for _, p := range st.pc {
		if p == t {
			return
		}
	}
	st.pc = append(st.pc, t)
}
func (st *State) dead() bool {
	for _, p := range st.pc {
		if p == False {
			return true
		}
	}
	return false
}

// ---------- heap ----------

func (st *State) arr(key string, vs Sort) *Term {
	if a, ok := st.heap[key]; ok {
		return a
	}
	a := st.initArr(key, ArrOf(SInt, vs))
	heapSorts[key] = a
	if st.zeroInit {
		z := zeroOfSort(vs)
		a = ConstArr(ArrOf(SInt, vs), z)
	} else {
		a = withConstHeap(key, a)
	}
	st.heap[key] = a
	return a
}

// initArr is the content of a heap array nothing has written yet: that of entry, or what the last
// call that may modify everything left there.
func (st *State) initArr(key string, s Sort) *Term {
	if st.gen != 0 && !specExec.V.immutableKey(key) {
		return NamedSym(fmt.Sprintf("H@%d:%s", st.gen, key), s)
	}
	return NamedSym("H:"+key, s)
}

var lastGen int

type privRef struct {
	ref   *Term
	owner string
	T     types.Type
}

func leafKeys(owner, path string, T types.Type, f func(key string)) {
	if u, ok := isStruct(T); ok {
		for i := 0; i < u.NumFields(); i++ {
			leafKeys(owner, path+"."+u.Field(i).Name(), u.Field(i).Type(), f)
		}
		return
	}
	f(owner + path)
}

// havocEverything forgets all memory but what no callee can change (see frame.go).
func (ex *Exec) havocEverything(st *State) {
	privs := map[string][]*Term{}
	for _, p := range st.priv {
		leafKeys(p.owner, "", p.T, func(k string) { privs[k] = append(privs[k], p.ref) })
	}
	for k, a := range st.heap {
		if ex.V.immutableKey(k) {
			continue
		}
		n := withConstHeap(k, Fresh("H:"+k, a.sort))
		for _, r := range privs[k] {
			n = Store(n, r, Select(a, r))
		}
		st.heap[k] = n
	}
	lastGen++
	st.gen = lastGen
	st.writes.add("$everything", Int(0))
}

var initRefs int
var heapSorts = map[string]*Term{}

func (st *State) newRef() *Term {
	st.k++
	if st.zeroInit {
		initRefs++
		return Int(int64(2000000 + initRefs))
	}
	return FreshRef(st.epoch, st.k)
}

// curTime: an object loaded now exists at time (epoch,k).

func isStruct(T types.Type) (*types.Struct, bool) {
	u, ok := T.Underlying().(*types.Struct)
	return u, ok
}
func isArray(T types.Type) (*types.Array, bool) {
	u, ok := T.Underlying().(*types.Array)
	return u, ok
}

func objKey(T types.Type) string {
	if a, ok := isArray(T); ok {
		return "M:" + tkey(a.Elem())
	}
	return tkey(T)
}

// loadObj loads a value of type T stored in the object with type key owner at path.
func (st *State) loadAt(owner, path string, ref *Term, T types.Type) Val {
	if u, ok := isStruct(T); ok {
		sv := &StructV{T: u}
		for i := 0; i < u.NumFields(); i++ {
			sv.fields = append(sv.fields, st.loadAt(owner, path+"."+u.Field(i).Name(), ref, u.Field(i).Type()))
		}
		return sv
	}
	a := st.arr(owner+path, sortOf(T))
	return st.unpack(Select(a, ref), T)
}
func (st *State) storeAt(owner, path string, ref *Term, T types.Type, v Val) {
	if u, ok := isStruct(T); ok {
		sv := st.asStruct(v, T)
		for i := 0; i < u.NumFields(); i++ {
			st.storeAt(owner, path+"."+u.Field(i).Name(), ref, u.Field(i).Type(), sv.fields[i])
		}
		return
	}
	key := owner + path
	a := st.arr(key, sortOf(T))
	st.heap[key] = Store(a, ref, packT(v, T))
	st.writes.add(key, ref)
}
func (st *State) asStruct(v Val, T types.Type) *StructV {
	if sv, ok := v.(*StructV); ok {
		return sv
	}
	return st.unpack(v.(*Term), T).(*StructV)
}

func (st *State) load(p Val, T types.Type) Val {
	switch x := p.(type) {
	case *Term:
		return st.loadAt(objKey(T), "", x, T)
	case *PtrV:
		if len(x.steps) == 0 {
			return st.loadAt(x.owner, x.path, x.ref, T)
		}
		root := Select(st.arr(x.owner+x.path, sortOf(x.RT)), x.ref)
		if x.sl != nil && x.sl.vb == root && len(x.steps) == 1 {
			// in bounds by the check made when the address was taken
			return st.navLoad(x.sl.vw, x.RT, []pstep{{field: -1, index: x.idx, T: x.steps[0].T}}, T)
		}
		return st.navLoad(root, x.RT, x.steps, T)
	}
	unsup("load through %T", p)
	return nil
}
func (st *State) navLoad(root *Term, RT types.Type, steps []pstep, T types.Type) Val {
	cur := root
	ct := RT
	for _, s := range steps {
		if s.index != nil {
			cur = Nth(cur, s.index)
			ct = s.T
			if lo, hi, _, _, ok := intRange(ct); ok {
				setRange(cur, lo, hi)
			}
		} else {
			u, _ := isStruct(ct)
			ft := u.Field(s.field).Type()
			cur = sel(structKey(ct), s.field, sortOf(ft), cur)
			ct = ft
		}
	}
	return st.unpack(cur, T)
}
func (st *State) store(p Val, T types.Type, v Val) {
	switch x := p.(type) {
	case *Term:
		st.storeAt(objKey(T), "", x, T, v)
		return
	case *PtrV:
		if len(x.steps) == 0 {
			st.storeAt(x.owner, x.path, x.ref, T, v)
			return
		}
		key := x.owner + x.path
		a := st.arr(key, sortOf(x.RT))
		root := Select(a, x.ref)
		nv := st.navStore(root, x.RT, x.steps, packT(v, T))
		st.heap[key] = Store(a, x.ref, nv)
		st.writes.add(key, x.ref)
		return
	}
	unsup("store through %T", p)
}
func (st *State) navStore(root *Term, RT types.Type, steps []pstep, v *Term) *Term {
	if len(steps) == 0 {
		return v
	}
	s := steps[0]
	if s.index != nil {
		old := Nth(root, s.index)
		nv := st.navStore(old, s.T, steps[1:], v)
		return seqUpdate(root, s.index, nv)
	}
	u, _ := isStruct(RT)
	sv := st.unpack(root, RT).(*StructV)
	n := &StructV{T: u, fields: append([]Val{}, sv.fields...)}
	ft := u.Field(s.field).Type()
	n.fields[s.field] = st.unpack(st.navStore(packT(sv.fields[s.field], ft), ft, steps[1:], v), ft)
	return packT(n, RT)
}
func seqUpdate(s, i, v *Term) *Term {
	n := SeqLen(s)
	// constant-position update of a concatenation of units is exact through SubSeq/Cat
	if s.op == "seq.++" || s.op == "seq.unit" {
		if i.ival != nil && i.ival.IsInt64() {
			if k, ps := i.ival.Int64(), parts(s); k >= 0 && k < int64(len(ps)) && unitPrefix(ps, int(k)+1) {
				if ps[k].args[0] == v {
					return s
				}
				np := append([]*Term{}, ps...)
				np[k] = SeqUnit(v)
				if len(np) == 1 {
					return np[0]
				}
				return mk("seq.++", "", s.sort, np...)
			}
		}
	}
	return Cat(SubSeq(s, Int(0), i), SeqUnit(v), SubSeq(s, Add(i, Int(1)), n))
}

func unitPrefix(ps []*Term, n int) bool {
	for _, p := range ps[:n] {
		if p.op != "seq.unit" {
			return false
		}
	}
	return true
}

// ---------- slices ----------

func (st *State) memKey(elem types.Type) string { return "M:" + tkey(elem) }
func (st *State) backing(s *SliceV) *Term {
	if s.base.ival != nil && s.base.ival.Sign() == 0 {
		return SeqEmpty(SeqOf(sortOf(s.elem)))
	}
	return Select(st.arr(st.memKey(s.elem), SeqOf(sortOf(s.elem))), s.base)
}

// view is the content of a slice as a sequence.
func (st *State) view(s *SliceV) *Term {
	if s.frozen != nil {
		return s.frozen
	}
	if s.len.ival != nil && s.len.ival.Sign() == 0 {
		return SeqEmpty(SeqOf(sortOf(s.elem)))
	}
	b := st.backing(s)
	if s.vb == b {
		return s.vw
	}
	if b.op != "seq.++" && b.op != "seq.unit" && b.op != "seq.extract" {
		// backing arrays hold at least off+cap elements
		b.attach(mk("<=", "", SBool, Add(s.off, s.len), SeqLen(b)))
	}
	return SubSeq(b, s.off, Add(s.off, s.len))
}

// newSlice allocates a slice holding content.
func (st *State) newSlice(elem types.Type, content *Term) *SliceV {
	ref := st.newRef()
	key := st.memKey(elem)
	a := st.arr(key, SeqOf(sortOf(elem)))
	n := SeqLen(content)
	if st.zeroInit {
		st.heap[key] = Store(a, ref, content)
		return &SliceV{base: ref, off: Int(0), len: n, cap: n, elem: elem}
	}
	c := Fresh("cap", SInt)
	setRange(c, new(big.Int), maxLen)
	c.attach(mk("<=", "", SBool, n, c))
	spare := Fresh("spare", SeqOf(sortOf(elem)))
	spare.attach(Eq(SeqLen(spare), Sub(c, n)))
	full := Cat(content, spare)
	st.heap[key] = Store(a, ref, full)
	st.writes.add(key, ref)
	return &SliceV{base: ref, off: Int(0), len: n, cap: c, elem: elem, vw: content, vb: full}
}

// nameSlice gives a symbolic slice a named content so that its view is a plain symbol.
func (st *State) nameSlice(name string, s *SliceV) { st.nameSliceAs(name, s, nil) }

// nameSliceAs: the content is v when it is given
func (st *State) nameSliceAs(name string, s *SliceV, v *Term) {
	if s.base.ival != nil {
		return
	}
	key := st.memKey(s.elem)
	es := SeqOf(sortOf(s.elem))
	a := st.arr(key, es)
	raw := Select(a, s.base)
	pre := Fresh(name+".pre", es)
	post := Fresh(name+".post", es)
	if v == nil {
		v = Fresh(name, es)
		v.attach(mk("=", "", SBool, mk("seq.len", "", SInt, v), s.len))
	} else {
		s.len = SeqLen(v)
	}
	pre.attach(mk("=", "", SBool, mk("seq.len", "", SInt, pre), s.off))
	post.attach(Implies(Not(Eq(s.base, Int(0))), Eq(SeqLen(post), Sub(s.cap, s.len))))
	raw.attach(Implies(Not(Eq(s.base, Int(0))), mk("=", "", SBool, raw, mk("seq.++", "", es, pre, v, post))))
	s.off = SeqLen(pre)
	s.len = SeqLen(v)
	s.cap.attach(mk("<=", "", SBool, s.len, s.cap))
	s.len.attach(Implies(Eq(s.base, Int(0)), Eq(s.len, Int(0))))
	nm := mk("named", "", a.sort, a, s.base, Cat(pre, v, post))
	nm.attach(Implies(Not(Eq(s.base, Int(0))), mk("=", "", SBool, raw, mk("seq.++", "", es, pre, v, post))))
	st.heap[key] = nm
	if b := st.backing(s); b == Cat(pre, v, post) {
		s.vw, s.vb = v, b
	}
}

// ---------- machine ----------

type Exec struct {
	V        *Verifier
	work     []*State
	dry      int
	steps    int
	maxSteps int
	onBack   func(st *State, fr *Frame, h *ssa.BasicBlock, lc *LoopCut) // dry-run hook
	stopAt   *dryScope
	initMode bool
	root     *RootCtx
	exits    []*State
	npaths   int
}

type dryScope struct {
	depth  int // frame index
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	backs  []*State
	exited bool
}

func (ex *Exec) push(st *State) { ex.work = append(ex.work, st) }

func (ex *Exec) runAll() {
	for len(ex.work) > 0 {
		st := ex.work[len(ex.work)-1]
		ex.work = ex.work[:len(ex.work)-1]
		ex.run(st)
	}
}

func (ex *Exec) val(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(st, x)
	case *ssa.Global:
		return ex.V.globalRef(x)
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Builtin:
		return &BuiltinV{x.Name()}
	case *ssa.FreeVar:
		fr := st.top()
		for i, f := range fr.fn.FreeVars {
			if f == x {
				return fr.bind[i]
			}
		}
	}
	if r, ok := st.top().env[v]; ok {
		return r
	}
	panic(fmt.Sprintf("no value for %s = %s in %s", v.Name(), v, st.top().fn))
}
func (ex *Exec) term(st *State, v ssa.Value) *Term {
	x := ex.val(st, v)
	if t, ok := x.(*Term); ok {
		return t
	}
	return packT(x, v.Type())
}

func (ex *Exec) constVal(st *State, c *ssa.Const) Val {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	switch u := c.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolT(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			return SeqLit(constant.StringVal(c.Value))
		case u.Info()&types.IsFloat != 0:
			return Real(ratOf(c.Value))
		case u.Info()&types.IsInteger != 0:
			return BigInt(bigOf(constant.ToInt(c.Value)))
		}
	}
	unsup("const %s", c)
	return nil
}
func bigOf(v constant.Value) *big.Int {
	if i, ok := constant.Int64Val(v); ok {
		return big.NewInt(i)
	}
	b := new(big.Int)
	b.SetString(v.ExactString(), 10)
	return b
}
func ratOf(v constant.Value) *big.Rat {
	r := new(big.Rat)
	s := constant.ToFloat(v).ExactString()
	if _, ok := r.SetString(s); !ok {
		f, _ := constant.Float64Val(v)
		r.SetFloat64(f)
	}
	return r
}

func (ex *Exec) run(st *State) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Unsupported); ok {
				loc := ""
				if len(st.frames) > 0 && st.top().fn != nil {
					fr := st.top()
					loc = short(fr.fn.String())
					if fr.ip < len(fr.block.Instrs) {
						loc += " @ " + fr.block.Instrs[fr.ip].String()
					}
				}
				if !strings.Contains(u.msg, " in ") {
					u.msg += " in " + loc
				}
				panic(u)
			}
			panic(r)
		}
	}()
	for {
		if st.exit != nil || len(st.frames) == 0 {
			return
		}
		ex.steps++
		if ex.steps > ex.maxSteps {
			unsup("step budget exceeded")
		}
		fr := st.top()
		if fr.ip >= len(fr.block.Instrs) {
			panic("fell off block")
		}
		in := fr.block.Instrs[fr.ip]
		if !ex.instr(st, fr, in) {
			return
		}
	}
}

// instr executes one instruction. Returns false when the path ended (or was handed to the worklist).
func (ex *Exec) instr(st *State, fr *Frame, in ssa.Instruction) bool {
	set := func(v Val) { fr.env[in.(ssa.Value)] = v; fr.ip++ }
	switch i := in.(type) {
	case *ssa.DebugRef:
		fr.ip++
	case *ssa.Alloc:
		ref := st.newRef()
		T := i.Type().(*types.Pointer).Elem()
		st.storeAt(objKey(T), "", ref, T, zeroVal(T))
		if privateAlloc(i) {
			st.priv = append(st.priv[:len(st.priv):len(st.priv)], privRef{ref, objKey(T), T})
		}
		set(ref)
	case *ssa.Phi:
		panic("phi executed directly")
	case *ssa.BinOp:
		return ex.binop(st, fr, i)
	case *ssa.UnOp:
		return ex.unop(st, fr, i)
	case *ssa.Convert:
		set(ex.convert(st, ex.val(st, i.X), i.X.Type(), i.Type()))
	case *ssa.ChangeType:
		set(ex.val(st, i.X))
	case *ssa.ChangeInterface:
		set(ex.val(st, i.X))
	case *ssa.MakeInterface:
		set(ex.mkIface(ex.val(st, i.X), i.X.Type()))
	case *ssa.Extract:
		set(ex.val(st, i.Tuple).(TupleV)[i.Index])
	case *ssa.Field:
		sv := st.asStruct(ex.val(st, i.X), i.X.Type())
		set(sv.fields[i.Field])
	case *ssa.FieldAddr:
		return ex.fieldAddr(st, fr, i)
	case *ssa.Index:
		return ex.index(st, fr, i)
	case *ssa.IndexAddr:
		return ex.indexAddr(st, fr, i)
	case *ssa.Lookup:
		return ex.lookup(st, fr, i)
	case *ssa.MapUpdate:
		return ex.mapUpdate(st, fr, i)
	case *ssa.Slice:
		return ex.slice(st, fr, i)
	case *ssa.MakeSlice:
		return ex.makeSlice(st, fr, i)
	case *ssa.MakeMap:
		mt := i.Type().Underlying().(*types.Map)
		ref := st.newRef()
		ks, vs := sortOf(mt.Key()), sortOf(mt.Elem())
		mk := mapKey(mt)
		d := st.arr("mapdom:"+mk, ArrOf(ks, SBool))
		st.heap["mapdom:"+mk] = Store(d, ref, ConstArr(ArrOf(ks, SBool), False))
		st.writes.add("mapdom:"+mk, ref)
		v := st.arr("mapval:"+mk, ArrOf(ks, vs))
		st.heap["mapval:"+mk] = Store(v, ref, ConstArr(ArrOf(ks, vs), packT(zeroVal(mt.Elem()), mt.Elem())))
		st.writes.add("mapval:"+mk, ref)
		n := st.arr("maplen:"+mk, SInt)
		st.heap["maplen:"+mk] = Store(n, ref, Int(0))
		st.writes.add("maplen:"+mk, ref)
		set(ref)
	case *ssa.MakeChan:
		ref := st.newRef()
		st.heap["chancap"] = Store(st.arr("chancap", SInt), ref, ex.term(st, i.Size))
		st.writes.add("chancap", ref)
		set(ref)
	case *ssa.MakeClosure:
		f := &FuncV{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			f.bind = append(f.bind, ex.val(st, b))
		}
		set(f)
	case *ssa.TypeAssert:
		return ex.typeAssert(st, fr, i)
	case *ssa.Store:
		p := ex.val(st, i.Addr)
		if !ex.nilCheck(st, fr, p, in) {
			return false
		}
		T := i.Val.Type()
		if pt, ok := i.Addr.Type().Underlying().(*types.Pointer); ok {
			T = pt.Elem()
		}
		st.store(p, T, ex.val(st, i.Val))
		fr.ip++
	case *ssa.Call:
		return ex.call(st, fr, i, i.Common(), i)
	case *ssa.Defer:
		d := deferRec{call: i.Common(), site: i}
		d.fn, d.args = ex.callOperands(st, i.Common())
		fr.defers = append(fr.defers, d)
		fr.ip++
	case *ssa.Go:
		fn, args := ex.callOperands(st, i.Common())
		ex.spawn(st, fr, i, fn, args)
		fr.ip++
	case *ssa.RunDefers:
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			return ex.invokeDeferred(st, fr, d)
		}
		fr.ip++
	case *ssa.Jump:
		return ex.jump(st, fr, fr.block.Succs[0])
	case *ssa.If:
		return ex.branch(st, fr, ex.term(st, i.Cond))
	case *ssa.Return:
		var v Val
		switch len(i.Results) {
		case 0:
			v = TupleV{}
		case 1:
			v = ex.val(st, i.Results[0])
		default:
			tv := TupleV{}
			for _, r := range i.Results {
				tv = append(tv, ex.val(st, r))
			}
			v = tv
		}
		return ex.ret(st, v)
	case *ssa.Panic:
		return ex.raise(st, ex.term(st, i.X), ex.site(fr, in, "panic"))
	case *ssa.Range:
		switch u := i.X.Type().Underlying().(type) {
		case *types.Basic:
			iterCount++
			it := &IterV{id: iterCount, str: ex.term(st, i.X), pos: fmt.Sprintf("$iter%d", iterCount)}
			st.ghost[it.pos] = Int(0)
			set(it)
		case *types.Map:
			iterCount++
			it := &IterV{id: iterCount, m: ex.term(st, i.X), mt: u, ghost: fmt.Sprintf("$mapiter%d", iterCount)}
			st.ghost[it.ghost] = ConstArr(ArrOf(sortOf(u.Key()), SBool), False)
			st.ghost[it.ghost+"#"] = Int(0)
			it.dom = st.mapDom(it.m, u)
			set(it)
		default:
			unsup("range")
		}
	case *ssa.Next:
		return ex.next(st, fr, i)
	case *ssa.Send:
		ex.chanSend(st, ex.val(st, i.Chan), ex.val(st, i.X), i.X.Type())
		fr.ip++
	case *ssa.Select:
		return ex.selectStmt(st, fr, i)
	default:
		unsup("instruction %T", in)
	}
	return true
}

var iterCount int

func (ex *Exec) site(fr *Frame, in ssa.Instruction, kind string) string {
	pos := ""
	if ex.V != nil && in != nil && in.Pos() != token.NoPos {
		p := ex.V.prog.Fset.Position(in.Pos())
		f := p.Filename
		if i := strings.LastIndexByte(f, '/'); i >= 0 {
			f = f[i+1:]
		}
		pos = fmt.Sprintf("@%s:%d", f, p.Line)
	}
	return kind + ":" + short(fr.fn.String()) + pos
}

// branch forks on a boolean term at an If.
func (ex *Exec) branch(st *State, fr *Frame, c *Term) bool {
	t, f := fr.block.Succs[0], fr.block.Succs[1]
	if c == True {
		return ex.jump(st, fr, t)
	}
	if c == False {
		return ex.jump(st, fr, f)
	}
	tFeasible := !qs.implied(st.pc, Not(c))
	fFeasible := !qs.implied(st.pc, c)
	if tFeasible && fFeasible {
		if ex.initMode {
			unsup("symbolic branch during package initialisation")
		}
		o := st.clone()
		o.assume(Not(c))
		of := o.top()
		if ex.jump(o, of, f) {
			ex.push(o)
		}
		st.assume(c)
		return ex.jump(st, fr, t)
	}
	if tFeasible {
		return ex.jump(st, fr, t)
	}
	if fFeasible {
		return ex.jump(st, fr, f)
	}
	return false // dead path
}

// guard forks a potential runtime panic: if cond may fail, a panicking path is created.
// Returns false when the current path cannot continue.
func (ex *Exec) guard(st *State, fr *Frame, cond *Term, in ssa.Instruction, kind string) bool {
	if cond == True || qs.implied(st.pc, cond) {
		return true
	}
	// the other path panics
	o := st.clone()
	o.assume(Not(cond))
	if !o.dead() {
		pv := Fresh("runtimeError", SInt)
		o.assume(Not(Eq(pv, Int(0))))
		if ex.raise(o, pv, ex.site(fr, in, kind)) {
			ex.push(o)
		}
	}
	st.assume(cond)
	return !st.dead()
}

func (ex *Exec) nilCheck(st *State, fr *Frame, p Val, in ssa.Instruction) bool {
	t, ok := p.(*Term)
	if !ok {
		if pv, ok := p.(*PtrV); ok {
			t = pv.ref
			if strings.HasPrefix(pv.owner, "M:") {
				return true
			}
		} else {
			return true
		}
	}
	if r, ok := refTab[t]; ok && r.fresh {
		return true
	}
	if t.ival != nil && t.ival.Sign() > 0 {
		return true
	}
	return ex.guard(st, fr, Not(Eq(t, Int(0))), in, "nil-deref")
}

func (ex *Exec) jump(st *State, fr *Frame, to *ssa.BasicBlock) bool {
	from := fr.block
	// leaving loops: drop cut markers of loops that do not contain the target
	li := ex.V.loopsOf(fr.fn)
	if sc := ex.stopAt; sc != nil && len(st.frames)-1 == sc.depth && fr.fn == sc.header.Parent() {
		if to == sc.header && li.isBackEdge(from, to) {
			ex.setPhis(st, fr, from, to)
			fr.prev, fr.block = from, to
			fr.ip = firstNonPhi(to)
			sc.backs = append(sc.backs, st)
			return false
		}
		if !sc.body[to] {
			sc.exited = true
			return false
		}
	}
	for h := range fr.cuts {
		if !li.body[h][to] {
			delete(fr.cuts, h)
		}
	}
	for h := range fr.unrolled {
		if !li.body[h][to] {
			delete(fr.unrolled, h)
		}
	}
	ex.setPhis(st, fr, from, to)
	fr.prev, fr.block = from, to
	fr.ip = firstNonPhi(to)
	if li.body[to] != nil {
		return ex.atHeader(st, fr, from, to, li)
	}
	return true
}
func firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}
func (ex *Exec) setPhis(st *State, fr *Frame, from, to *ssa.BasicBlock) {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	var phis []*ssa.Phi
	var vals []Val
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, ex.val(st, p.Edges[idx]))
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
}

func (ex *Exec) ret(st *State, v Val) bool {
	n := len(st.frames)
	fr := st.frames[n-1]
	if sc := ex.stopAt; sc != nil && n-1 == sc.depth {
		sc.exited = true
		return false
	}
	st.frames = st.frames[:n-1]
	if fr.onRet != nil {
		v = fr.onRet(st, v)
	}
	if n == 1 {
		st.exit = &exitInfo{ret: v}
		ex.atExit(st)
		return false
	}
	caller := st.top()
	if fr.isDefer {
		if caller.panicking {
			return ex.unwind(st)
		}
		return true // RunDefers re-executes
	}
	if fr.callInstr != nil {
		caller.env[fr.callInstr] = v
	}
	caller.ip++
	return true
}

func (ex *Exec) raise(st *State, pv *Term, site string) bool {
	if len(st.frames) == 0 {
		st.exit = &exitInfo{panicked: true, panicVal: pv, site: site}
		ex.atExit(st)
		return false
	}
	if sc := ex.stopAt; sc != nil && len(st.frames)-1 < sc.depth {
		sc.exited = true
		return false
	}
	fr := st.top()
	fr.panicking = true
	fr.panicVal = pv
	fr.recovered = false
	st.ghost["$panicsite"] = NamedSym("site:"+site, SInt)
	return ex.unwind(st)
}

// unwind continues panic processing in the top frame.
func (ex *Exec) unwind(st *State) bool {
	fr := st.top()
	if fr.recovered {
		fr.panicking = false
		// remaining defers run, then the recover block
		if fr.fn.Recover == nil {
			// return zero results
			if n := len(fr.defers); n > 0 {
				unsup("recover with pending defers and no recover block")
			}
			res := fr.fn.Signature.Results()
			var v Val = TupleV{}
			if res.Len() == 1 {
				v = zeroVal(res.At(0).Type())
			} else if res.Len() > 1 {
				v = zeroVal(res)
			}
			return ex.ret(st, v)
		}
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			fr.panicking = true // keep unwinding through the rest, already recovered
			return ex.invokeDeferred(st, fr, d)
		}
		fr.prev = fr.block
		fr.block = fr.fn.Recover
		fr.ip = 0
		if sc := ex.stopAt; sc != nil && len(st.frames)-1 == sc.depth && !sc.body[fr.block] {
			sc.exited = true
			return false
		}
		fr.cuts = map[*ssa.BasicBlock]*LoopCut{}
		return true
	}
	if n := len(fr.defers); n > 0 {
		d := fr.defers[n-1]
		fr.defers = fr.defers[:n-1]
		return ex.invokeDeferred(st, fr, d)
	}
	// pop frame, continue in caller
	pv := fr.panicVal
	site := "panic"
	if g := st.ghost["$panicsite"]; g != nil {
		site = strings.TrimPrefix(g.name, "site:")
	}
	n := len(st.frames)
	if sc := ex.stopAt; sc != nil && n-1 == sc.depth {
		sc.exited = true
		return false
	}
	st.frames = st.frames[:n-1]
	if n == 1 {
		st.exit = &exitInfo{panicked: true, panicVal: pv, site: site}
		ex.atExit(st)
		return false
	}
	caller := st.top()
	caller.panicking = true
	caller.panicVal = pv
	caller.recovered = false
	return ex.unwind(st)
}

func (ex *Exec) invokeDeferred(st *State, fr *Frame, d deferRec) bool {
	return ex.dispatch(st, fr, d.site, d.call, d.fn, d.args, nil, true)
}

// ---------- arithmetic ----------

func (ex *Exec) wrap(st *State, t *Term, T types.Type) *Term {
	lo, hi, bits, signed, ok := intRange(T)
	if !ok {
		return t
	}
	if t.ival != nil {
		return BigInt(wrapBig(t.ival, bits, signed))
	}
	l, h := bounds(t)
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return t
	}
	if qs.implied(st.pc, And(Le(BigInt(lo), t), Le(t, BigInt(hi)))) {
		return t
	}
	m := BigInt(pow2(bits))
	if signed {
		half := BigInt(pow2(bits - 1))
		return Sub(ModE(Add(t, half), m), half)
	}
	return ModE(t, m)
}
func wrapBig(v *big.Int, bits uint, signed bool) *big.Int {
	m := pow2(bits)
	r := new(big.Int).Mod(v, m)
	if signed && r.Cmp(pow2(bits-1)) >= 0 {
		r.Sub(r, m)
	}
	return r
}

// nonneg: is t provably >= 0 here?
func nonneg(st *State, t *Term) bool {
	if lo, _ := bounds(t); lo != nil && lo.Sign() >= 0 {
		return true
	}
	return qs.implied(st.pc, Le(Int(0), t))
}
func (ex *Exec) quo(st *State, a, b *Term) *Term {
	if a.ival != nil && b.ival != nil && b.ival.Sign() != 0 {
		return BigInt(new(big.Int).Quo(a.ival, b.ival))
	}
	if nonneg(st, a) && nonneg(st, b) {
		return DivE(a, b)
	}
	if b.ival != nil && b.ival.Sign() > 0 {
		return Ite(Le(Int(0), a), DivE(a, b), Neg(DivE(Neg(a), b)))
	}
	// general truncated division
	ab := Ite(Le(Int(0), b), b, Neg(b))
	aa := Ite(Le(Int(0), a), a, Neg(a))
	q := DivE(aa, ab)
	return Ite(Eq(Le(Int(0), a), Le(Int(0), b)), q, Neg(q))
}
func (ex *Exec) rem(st *State, a, b *Term) *Term {
	if a.ival != nil && b.ival != nil && b.ival.Sign() != 0 {
		return BigInt(new(big.Int).Rem(a.ival, b.ival))
	}
	if nonneg(st, a) && b.ival != nil && b.ival.Sign() > 0 {
		return ModE(a, b)
	}
	return Sub(a, Mul(b, ex.quo(st, a, b)))
}

func (ex *Exec) binop(st *State, fr *Frame, i *ssa.BinOp) bool {
	x, y := ex.val(st, i.X), ex.val(st, i.Y)
	set := func(t *Term) bool { fr.env[i] = t; fr.ip++; return true }
	T := i.X.Type()
	switch i.Op {
	case token.EQL, token.NEQ:
		var e *Term
		if i.X.Type().Underlying() != nil {
			e = ex.eqVals(st, x, y, i.X.Type(), i.Y.Type())
		}
		if i.Op == token.NEQ {
			e = Not(e)
		}
		return set(e)
	}
	a, b := packT(x, T), packT(y, i.Y.Type())
	if a.sort == SSeq && b.sort == SSeq {
		switch i.Op {
		case token.ADD:
			return set(Cat(a, b))
		case token.LSS:
			return set(App("str.less", SBool, a, b))
		case token.GTR:
			return set(App("str.less", SBool, b, a))
		case token.LEQ:
			return set(Not(App("str.less", SBool, b, a)))
		case token.GEQ:
			return set(Not(App("str.less", SBool, a, b)))
		}
		unsup("string op %s", i.Op)
	}
	if a.sort == SReal {
		switch i.Op {
		case token.ADD:
			return set(ex.round(st, Add(a, b), T))
		case token.SUB:
			return set(ex.round(st, Sub(a, b), T))
		case token.MUL:
			return set(ex.round(st, Mul(a, b), T))
		case token.QUO:
			return set(ex.round(st, realOp("/", a, b), T))
		case token.LSS:
			return set(Lt(a, b))
		case token.LEQ:
			return set(Le(a, b))
		case token.GTR:
			return set(Gt(a, b))
		case token.GEQ:
			return set(Ge(a, b))
		}
		unsup("float op %s", i.Op)
	}
	if a.sort == SBool {
		switch i.Op {
		case token.AND, token.LAND:
			return set(And(a, b))
		case token.OR, token.LOR:
			return set(Or(a, b))
		}
		unsup("bool op %s", i.Op)
	}
	switch i.Op {
	case token.ADD:
		return set(ex.wrap(st, Add(a, b), T))
	case token.SUB:
		return set(ex.wrap(st, Sub(a, b), T))
	case token.MUL:
		return set(ex.wrap(st, Mul(a, b), T))
	case token.QUO, token.REM:
		if !ex.guard(st, fr, Not(Eq(b, Int(0))), i, "div-by-zero") {
			return false
		}
		if i.Op == token.QUO {
			return set(ex.wrap(st, ex.quo(st, a, b), T))
		}
		return set(ex.rem(st, a, b))
	case token.LSS:
		return set(Lt(a, b))
	case token.LEQ:
		return set(Le(a, b))
	case token.GTR:
		return set(Gt(a, b))
	case token.GEQ:
		return set(Ge(a, b))
	case token.SHL, token.SHR, token.AND, token.OR, token.XOR, token.AND_NOT:
		return set(ex.bitop(st, i.Op, a, b, T))
	}
	unsup("binop %s", i.Op)
	return false
}

func (ex *Exec) bitop(st *State, op token.Token, a, b *Term, T types.Type) *Term {
	lo, hi, bits, signed, _ := intRange(T)
	if a.ival != nil && b.ival != nil {
		r := new(big.Int)
		switch op {
		case token.SHL:
			r.Lsh(a.ival, uint(b.ival.Uint64()))
		case token.SHR:
			r.Rsh(a.ival, uint(b.ival.Uint64()))
		case token.AND:
			r.And(a.ival, b.ival)
		case token.OR:
			r.Or(a.ival, b.ival)
		case token.XOR:
			r.Xor(a.ival, b.ival)
		case token.AND_NOT:
			r.AndNot(a.ival, b.ival)
		}
		return BigInt(wrapBig(r, bits, signed))
	}
	switch op {
	case token.SHL:
		if b.ival != nil {
			if b.ival.Cmp(big.NewInt(int64(bits))) >= 0 {
				return Int(0)
			}
			return ex.wrap(st, Mul(BigInt(pow2(uint(b.ival.Uint64()))), a), T)
		}
	case token.SHR:
		if b.ival != nil {
			if b.ival.Cmp(big.NewInt(200)) > 0 {
				b = Int(200)
			}
			return DivE(a, BigInt(pow2(uint(b.ival.Uint64()))))
		}
	case token.AND:
		if a.ival != nil {
			a, b = b, a
		}
		if b.ival != nil && b.ival.Sign() >= 0 {
			m := new(big.Int).Add(b.ival, big.NewInt(1))
			if m.Sign() > 0 && new(big.Int).And(m, b.ival).Sign() == 0 {
				return ModE(a, BigInt(m))
			}
			// single contiguous run of bits: ((a div 2^k) mod 2^n) * 2^k
			k := b.ival.TrailingZeroBits()
			run := new(big.Int).Rsh(b.ival, k)
			m = new(big.Int).Add(run, big.NewInt(1))
			if new(big.Int).And(m, run).Sign() == 0 {
				return Mul(BigInt(pow2(k)), ModE(DivE(a, BigInt(pow2(k))), BigInt(m)))
			}
		}
	case token.OR:
		// disjoint bits: x | c when x < 2^k and c multiple of 2^k
		if s := orDisjoint(a, b); s != nil {
			return s
		}
	case token.AND_NOT:
		if b.ival != nil && b.ival.Sign() >= 0 {
			return Sub(a, ex.bitop(st, token.AND, a, b, T))
		}
	}
	r := App("bit"+op.String()+fmt.Sprint(bits), SInt, a, b)
	setRange(r, lo, hi)
	if op == token.AND {
		if l, h := bounds(a); l != nil && l.Sign() >= 0 && h != nil {
			setRange(r, new(big.Int), h)
		}
		if l, h := bounds(b); l != nil && l.Sign() >= 0 && h != nil {
			setRange(r, new(big.Int), h)
		}
	}
	return r
}

// low bits known zero of a term
func trailingZeros(t *Term) uint {
	if t.ival != nil {
		if t.ival.Sign() == 0 {
			return 1000
		}
		return t.ival.TrailingZeroBits()
	}
	switch t.op {
	case "*":
		if t.args[0].ival != nil {
			return t.args[0].ival.TrailingZeroBits() + trailingZeros(t.args[1])
		}
	case "+":
		m := uint(1000)
		for _, a := range t.args {
			if z := trailingZeros(a); z < m {
				m = z
			}
		}
		return m
	}
	return 0
}
func orDisjoint(a, b *Term) *Term {
	try := func(x, y *Term) *Term {
		z := trailingZeros(x)
		if z == 0 {
			return nil
		}
		if z >= 1000 {
			return y
		}
		l, h := bounds(y)
		if l != nil && h != nil && l.Sign() >= 0 && h.Cmp(pow2(z)) < 0 {
			return Add(x, y)
		}
		return nil
	}
	if r := try(a, b); r != nil {
		return r
	}
	return try(b, a)
}

// round: result of a floating point operation. Exact for constants that are exactly representable.
func (ex *Exec) round(st *State, t *Term, T types.Type) *Term {
	b, ok := T.Underlying().(*types.Basic)
	return roundTerm(st, t, ok && b.Kind() == types.Float32)
}

// roundTerm: the double (or float) nearest to t is a function of t, within half a unit in the last place
// (overflow to infinity is not modelled).
func roundTerm(st *State, t *Term, single bool) *Term {
	if t.rval != nil {
		f, exact := t.rval.Float64()
		if single {
			var g float32
			g, exact = t.rval.Float32()
			f = float64(g)
		}
		if exact {
			return t
		}
		r := new(big.Rat)
		r.SetFloat64(f)
		return Real(r)
	}
	u := new(big.Rat).SetFrac(big.NewInt(1), pow2(53))
	name := "fl64"
	if single {
		u = new(big.Rat).SetFrac(big.NewInt(1), pow2(24))
		name = "fl32"
	}
	r := App(name, SReal, t)
	if st == nil {
		return r
	}
	tiny := new(big.Rat).SetFrac(big.NewInt(1), pow2(140))
	abs := Ite(Le(Real(new(big.Rat)), t), t, Neg(t))
	err := Add(Mul(Real(u), abs), Real(tiny))
	st.assume(Le(Sub(t, err), r))
	st.assume(Le(r, Add(t, err)))
	// monotone rounding: sign and exactness of zero are preserved
	zero := Real(new(big.Rat))
	st.assume(Implies(Le(zero, t), Le(zero, r)))
	st.assume(Implies(Le(t, zero), Le(r, zero)))
	return r
}

func (ex *Exec) eqVals(st *State, x, y Val, T, T2 types.Type) *Term {
	switch u := T.Underlying().(type) {
	case *types.Slice:
		// comparison with nil
		a, b := x.(*SliceV), y.(*SliceV)
		return Eq(a.base, b.base)
	case *types.Struct:
		a, b := st.asStruct(x, T), st.asStruct(y, T)
		var es []*Term
		for i := range a.fields {
			es = append(es, ex.eqVals(st, a.fields[i], b.fields[i], u.Field(i).Type(), u.Field(i).Type()))
		}
		return And(es...)
	}
	return Eq(packT(x, T), packT(y, T2))
}

func (ex *Exec) unop(st *State, fr *Frame, i *ssa.UnOp) bool {
	set := func(v Val) bool { fr.env[i] = v; fr.ip++; return true }
	switch i.Op {
	case token.MUL:
		if g, ok := i.X.(*ssa.Global); ok {
			if v, ok := ex.V.constGlobal(st, ex, g); ok {
				return set(v)
			}
		}
		p := ex.val(st, i.X)
		if !ex.nilCheck(st, fr, p, i) {
			return false
		}
		return set(st.load(p, i.Type()))
	case token.NOT:
		return set(Not(ex.term(st, i.X)))
	case token.SUB:
		x := ex.term(st, i.X)
		if x.sort == SReal {
			return set(Neg(x))
		}
		return set(ex.wrap(st, Neg(x), i.Type()))
	case token.XOR:
		x := ex.term(st, i.X)
		_, hi, _, signed, _ := intRange(i.Type())
		if signed {
			return set(Sub(Int(-1), x))
		}
		return set(Sub(BigInt(hi), x))
	case token.ARROW:
		ch := ex.term(st, i.X)
		v := ex.chanRecv(st, ch, i.X.Type().Underlying().(*types.Chan).Elem())
		if i.CommaOk {
			return set(TupleV{v, Fresh("chok", SBool)})
		}
		return set(v)
	}
	unsup("unop %s", i.Op)
	return false
}

func (ex *Exec) convert(st *State, v Val, from, to types.Type) Val {
	fu, tu := from.Underlying(), to.Underlying()
	fb, _ := fu.(*types.Basic)
	tb, _ := tu.(*types.Basic)
	switch {
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		return ex.wrap(st, v.(*Term), to)
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
		t := ToReal(v.(*Term))
		// integers up to 2^53 are exact in float64
		if l, h := bounds(v.(*Term)); l != nil && h != nil && tb.Kind() == types.Float64 &&
			h.Cmp(pow2(53)) <= 0 && l.Cmp(new(big.Int).Neg(pow2(53))) >= 0 {
			return t
		}
		return ex.round(st, t, to)
	case fb != nil && tb != nil && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
		t := v.(*Term)
		return ex.wrapF(st, truncTerm(st, t), to)
	case fb != nil && tb != nil && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
		if tb.Kind() == types.Float32 && fb.Kind() != types.Float32 {
			return ex.round(st, v.(*Term), to)
		}
		return v
	case tb != nil && tb.Info()&types.IsString != 0:
		if sl, ok := v.(*SliceV); ok {
			if tkey(sl.elem) == "uint8" {
				return st.view(sl)
			}
			return App("runes2string", SSeq, packT(v, from))
		}
		if fb != nil && fb.Info()&types.IsString != 0 {
			return v
		}
		if fb != nil && fb.Info()&types.IsInteger != 0 {
			return App("rune2string", SSeq, v.(*Term))
		}
	case fb != nil && fb.Info()&types.IsString != 0:
		if sl, ok := tu.(*types.Slice); ok && tkey(sl.Elem()) == "uint8" {
			return st.newSlice(sl.Elem(), v.(*Term))
		}
		if sl, ok := tu.(*types.Slice); ok {
			c := App("string2runes", SeqOf(SInt), v.(*Term))
			return st.newSlice(sl.Elem(), c)
		}
	case isPtrLike(fu) && isPtrLike(tu):
		return ex.ptrConvert(st, v, from, to)
	}
	unsup("convert %s -> %s", from, to)
	return nil
}

// truncTerm: the integer part of a real
func truncTerm(st *State, t *Term) *Term {
	zero := Real(new(big.Rat))
	if t.rval != nil {
		if t.rval.Sign() >= 0 {
			return ToIntFloor(t)
		}
		return Neg(ToIntFloor(Neg(t)))
	}
	r := App("trunc", SInt, t)
	if st != nil {
		one := Real(big.NewRat(1, 1))
		rr := ToReal(r)
		st.assume(Implies(Le(zero, t), And(Le(Int(0), r), Le(rr, t), Lt(t, Add(rr, one)))))
		st.assume(Implies(Le(t, zero), And(Le(r, Int(0)), Le(t, rr), Lt(Sub(rr, one), t))))
	}
	return r
}

// wrapF: float to integer conversion is only defined in range
func (ex *Exec) wrapF(st *State, t *Term, T types.Type) *Term {
	lo, hi, _, _, _ := intRange(T)
	if t.ival != nil {
		return t
	}
	in := And(Le(BigInt(lo), t), Le(t, BigInt(hi)))
	if qs.implied(st.pc, in) || prove(st.pc, in, 1, 10*time.Second).Status == "unsat" {
		st.assume(in)
		return t
	}
	r := Fresh("f2i", SInt)
	setRange(r, lo, hi)
	st.assume(Implies(And(Le(BigInt(lo), t), Le(t, BigInt(hi))), Eq(r, t)))
	return r
}

func isPtrLike(T types.Type) bool {
	switch u := T.(type) {
	case *types.Pointer:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer || u.Kind() == types.Uintptr
	}
	return false
}

func (ex *Exec) ptrConvert(st *State, v Val, from, to types.Type) Val {
	if p, ok := v.(*PtrV); ok {
		if pt, ok := to.Underlying().(*types.Pointer); ok {
			if types.Identical(pt.Elem(), p.T) {
				return p
			}
			return ex.reinterpret(st, p, pt.Elem())
		}
		return p
	}
	if to, ok := to.Underlying().(*types.Pointer); ok {
		if from, ok := from.Underlying().(*types.Pointer); ok {
			_ = from
			_ = to
		}
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
		// addresses are machine integers
		t := v.(*Term)
		return t
	}
	return v
}

func (ex *Exec) mkIface(v Val, T types.Type) *Term {
	if types.IsInterface(T) {
		return packT(v, T)
	}
	key := tkey(T)
	typeID(key)
	typeByKey[key] = T
	if sv, ok := v.(*StructV); ok {
		// struct payload: single packed argument
		return mk("box:"+"I:"+key, "", SInt, packT(sv, T))
	}
	return mk("box:I:"+key, "", SInt, packT(v, T))
}

func ifaceTid(T types.Type) *Term {
	key := tkey(T)
	typeByKey[key] = T
	return Int(int64(typeID("I:" + key)))
}
func typeofT(x *Term) *Term {
	if x.ival != nil && x.ival.Sign() == 0 {
		return Int(0)
	}
	if strings.HasPrefix(x.op, "box:I:") {
		return Int(int64(typeID(x.op[4:])))
	}
	if x.op == "ite" {
		return Ite(x.args[0], typeofT(x.args[1]), typeofT(x.args[2]))
	}
	t := mk("typeof", "", SInt, x)
	t.attach(mk("<=", "", SBool, Int(0), t))
	t.attach(mk("=", "", SBool, mk("=", "", SBool, t, Int(0)), mk("=", "", SBool, x, Int(0))))
	return t
}

func (ex *Exec) typeAssert(st *State, fr *Frame, i *ssa.TypeAssert) bool {
	x := ex.term(st, i.X)
	T := i.AssertedType
	var ok *Term
	var v Val
	if types.IsInterface(T) {
		it := T.Underlying().(*types.Interface)
		if it.NumMethods() == 0 {
			ok = Not(Eq(x, Int(0)))
		} else if strings.HasPrefix(x.op, "box:I:") {
			ok = BoolT(types.Implements(typeByKey[x.op[6:]], it))
		} else if x.ival != nil {
			ok = False
		} else {
			ok = implTerm(x, T)
		}
		v = x
	} else {
		ok = Eq(typeofT(x), ifaceTid(T))
		key := tkey(T)
		p := sel("I:"+key, 0, sortOf(T), x)
		// a value known to have dynamic type T is the box of its payload
		if ok != True && ok != False {
			st.assume(Implies(ok, mk("=", "", SBool, x, mk("box:I:"+key, "", SInt, p))))
		}
		v = st.unpack(p, T)
	}
	if i.CommaOk {
		z := zeroVal(T)
		// merge: value is zero when !ok
		if ok == True {
			fr.env[i] = TupleV{v, True}
		} else if ok == False {
			fr.env[i] = TupleV{z, False}
		} else if ys, no := qs.implied(st.pc, ok), qs.implied(st.pc, Not(ok)); no {
			fr.env[i] = TupleV{z, False}
		} else if ys {
			fr.env[i] = TupleV{v, True}
		} else if !ex.initMode {
			o := st.clone()
			o.assume(Not(ok))
			of := o.top()
			of.env[i] = TupleV{z, False}
			of.ip++
			if !o.dead() {
				ex.push(o)
			}
			st.assume(ok)
			fr.env[i] = TupleV{v, True}
			fr.ip++
			return !st.dead()
		} else {
			fr.env[i] = TupleV{st.iteVal(ok, v, z, T), ok}
		}
		fr.ip++
		return true
	}
	if !ex.guard(st, fr, ok, i, "type-assert") {
		return false
	}
	fr.env[i] = v
	fr.ip++
	return true
}
func implTerm(x *Term, T types.Type) *Term {
	r := App("impl:"+tkey(T), SBool, typeofT(x))
	r.attach(Implies(r, Not(Eq(x, Int(0)))))
	if it, ok := T.Underlying().(*types.Interface); ok {
		var keys []string
		for k := range typeByKey {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if CT := typeByKey[k]; CT != nil && !types.IsInterface(CT) && (strings.Contains(k, "plz/") || k == "string" || k == "[]uint8" || k == "time.Time") {
				is := Eq(typeofT(x), ifaceTid(CT))
				if is != False {
					r.attach(Implies(is, mk("=", "", SBool, r, BoolT(types.Implements(CT, it)))))
				}
			}
		}
	}
	return r
}

func (st *State) iteVal(c *Term, a, b Val, T types.Type) Val {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	switch x := a.(type) {
	case *SliceV:
		y := b.(*SliceV)
		return &SliceV{base: Ite(c, x.base, y.base), off: Ite(c, x.off, y.off), len: Ite(c, x.len, y.len), cap: Ite(c, x.cap, y.cap), elem: x.elem}
	case *StructV:
		y := st.asStruct(b, T)
		sv := &StructV{T: x.T}
		for i := range x.fields {
			sv.fields = append(sv.fields, st.iteVal(c, x.fields[i], y.fields[i], x.T.Field(i).Type()))
		}
		return sv
	}
	return Ite(c, packT(a, T), packT(b, T))
}

// ---------- addressing ----------

func (ex *Exec) fieldAddr(st *State, fr *Frame, i *ssa.FieldAddr) bool {
	p := ex.val(st, i.X)
	if !ex.nilCheck(st, fr, p, i) {
		return false
	}
	ST := i.X.Type().Underlying().(*types.Pointer).Elem()
	u, _ := isStruct(ST)
	f := u.Field(i.Field)
	var r *PtrV
	switch x := p.(type) {
	case *Term:
		r = &PtrV{ref: x, owner: tkey(ST), path: "." + f.Name(), T: f.Type()}
	case *PtrV:
		if len(x.steps) == 0 {
			r = &PtrV{ref: x.ref, owner: x.owner, path: x.path + "." + f.Name(), T: f.Type()}
		} else {
			r = &PtrV{ref: x.ref, owner: x.owner, path: x.path, RT: x.RT, T: f.Type()}
			r.steps = append(append([]pstep{}, x.steps...), pstep{field: i.Field, T: f.Type()})
		}
	default:
		unsup("fieldaddr on %T", p)
	}
	fr.env[i] = r
	fr.ip++
	return true
}

func (ex *Exec) indexAddr(st *State, fr *Frame, i *ssa.IndexAddr) bool {
	x := ex.val(st, i.X)
	idx := ex.term(st, i.Index)
	switch xt := i.X.Type().Underlying().(type) {
	case *types.Slice:
		s := x.(*SliceV)
		if !ex.guard(st, fr, And(Le(Int(0), idx), Lt(idx, s.len)), i, "index") {
			return false
		}
		RT := types.NewArray(xt.Elem(), 0)
		fr.env[i] = &PtrV{ref: s.base, owner: st.memKey(xt.Elem()), T: xt.Elem(), RT: RT, sl: s, idx: idx,
			steps: []pstep{{field: -1, index: Add(s.off, idx), T: xt.Elem()}}}
	case *types.Pointer:
		at := xt.Elem().Underlying().(*types.Array)
		if !ex.guard(st, fr, And(Le(Int(0), idx), Lt(idx, Int(at.Len()))), i, "index") {
			return false
		}
		step := pstep{field: -1, index: idx, T: at.Elem()}
		switch p := x.(type) {
		case *Term:
			fr.env[i] = &PtrV{ref: p, owner: st.memKey(at.Elem()), T: at.Elem(), RT: xt.Elem(), steps: []pstep{step}}
		case *PtrV:
			r := &PtrV{ref: p.ref, owner: p.owner, path: p.path, T: at.Elem(), RT: p.RT}
			if len(p.steps) == 0 {
				r.RT = xt.Elem()
			}
			r.steps = append(append([]pstep{}, p.steps...), step)
			fr.env[i] = r
		default:
			unsup("indexaddr")
		}
	default:
		unsup("indexaddr on %s", i.X.Type())
	}
	fr.ip++
	return true
}

func (ex *Exec) index(st *State, fr *Frame, i *ssa.Index) bool {
	x := ex.val(st, i.X)
	idx := ex.term(st, i.Index)
	s := x.(*Term) // string or array value
	n := SeqLen(s)
	if at, ok := isArray(i.X.Type()); ok {
		// an array value has as many elements as its type says
		n = Int(at.Len())
		st.assume(Eq(SeqLen(s), n))
	}
	if !ex.guard(st, fr, And(Le(Int(0), idx), Lt(idx, n)), i, "index") {
		return false
	}
	t := Nth(s, idx)
	fr.env[i] = st.unpackElem(t, i.Type())
	fr.ip++
	return true
}
func (st *State) unpackElem(t *Term, T types.Type) Val {
	return st.unpack(t, T)
}

func (ex *Exec) slice(st *State, fr *Frame, i *ssa.Slice) bool {
	x := ex.val(st, i.X)
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return ex.term(st, v)
	}
	switch xt := i.X.Type().Underlying().(type) {
	case *types.Basic: // string
		s := x.(*Term)
		lo, hi := get(i.Low, Int(0)), get(i.High, SeqLen(s))
		if !ex.guard(st, fr, And(Le(Int(0), lo), Le(lo, hi), Le(hi, SeqLen(s))), i, "slice-bounds") {
			return false
		}
		fr.env[i] = SubSeq(s, lo, hi)
	case *types.Slice:
		s := x.(*SliceV)
		lo, hi := get(i.Low, Int(0)), get(i.High, s.len)
		mx := get(i.Max, s.cap)
		if !ex.guard(st, fr, And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, s.cap)), i, "slice-bounds") {
			return false
		}
		n := &SliceV{base: s.base, off: Add(s.off, lo), len: Sub(hi, lo), cap: Sub(mx, lo), elem: s.elem}
		if hi == s.len || Le(hi, s.len) == True || qs.implied(st.pc, Le(hi, s.len)) {
			n.vw, n.vb = SubSeq(st.view(s), lo, hi), st.backing(s)
		}
		if hi != s.len {
			// reslicing up to cap: backing array has at least off+cap elements
			b := st.backing(s)
			b.attach(Implies(Not(Eq(s.base, Int(0))), mk("<=", "", SBool, Add(s.off, s.cap), SeqLen(b))))
		}
		fr.env[i] = n
	case *types.Pointer: // *array
		at := xt.Elem().Underlying().(*types.Array)
		n := Int(at.Len())
		lo, hi := get(i.Low, Int(0)), get(i.High, n)
		mx := get(i.Max, n)
		if !ex.guard(st, fr, And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, n)), i, "slice-bounds") {
			return false
		}
		p, ok := x.(*Term)
		if !ok {
			pv := x.(*PtrV)
			if len(pv.steps) != 0 {
				unsup("slice of interior array")
			}
			// array stored inside a struct object: alias it through a derived base
			unsup("slice of array field %s%s", pv.owner, pv.path)
		}
		fr.env[i] = &SliceV{base: p, off: lo, len: Sub(hi, lo), cap: Sub(mx, lo), elem: at.Elem()}
	default:
		unsup("slice of %s", i.X.Type())
	}
	fr.ip++
	return true
}

func (ex *Exec) makeSlice(st *State, fr *Frame, i *ssa.MakeSlice) bool {
	n, c := ex.term(st, i.Len), ex.term(st, i.Cap)
	if !ex.guard(st, fr, And(Le(Int(0), n), Le(n, c), Le(c, BigInt(maxLen))), i, "makeslice") {
		return false
	}
	elem := i.Type().Underlying().(*types.Slice).Elem()
	z := packT(zeroVal(elem), elem)
	var content *Term
	if n.ival != nil && n.ival.IsInt64() && (n.ival.Int64() <= 64 || ex.initMode) {
		content = SeqEmpty(SeqOf(z.sort))
		for k := int64(0); k < n.ival.Int64(); k++ {
			content = Cat(content, SeqUnit(z))
		}
	} else {
		content = mk("app", "zeros", SeqOf(z.sort), z, n)
		content.attach(Eq(SeqLen(content), n))
	}
	s := st.newSlice(elem, content)
	if n == c || c.ival != nil {
		s2 := *s
		st.assume(Eq(s.cap, c))
		s2.cap = c
		s = &s2
	} else {
		st.assume(Eq(s.cap, c))
	}
	fr.env[i] = s
	fr.ip++
	return true
}

// ---------- maps ----------

func mapKey(mt *types.Map) string { return tkey(mt.Key()) + "=>" + tkey(mt.Elem()) }

func (ex *Exec) lookup(st *State, fr *Frame, i *ssa.Lookup) bool {
	if b, ok := i.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		s := ex.term(st, i.X)
		idx := ex.term(st, i.Index)
		if !ex.guard(st, fr, And(Le(Int(0), idx), Lt(idx, SeqLen(s))), i, "index") {
			return false
		}
		t := Nth(s, idx)
		setRange(t, big.NewInt(0), big.NewInt(255))
		fr.env[i] = t
		fr.ip++
		return true
	}
	mt := i.X.Type().Underlying().(*types.Map)
	m := ex.term(st, i.X)
	ex.guardedMap(st, fr, i, m)
	k := packT(ex.val(st, i.Index), mt.Key())
	in, v := st.mapGet(m, mt, k)
	val := st.unpack(v, mt.Elem())
	z := zeroVal(mt.Elem())
	rv := st.iteVal(in, val, z, mt.Elem())
	if i.CommaOk {
		fr.env[i] = TupleV{rv, in}
	} else {
		fr.env[i] = rv
	}
	fr.ip++
	return true
}
func (st *State) mapGet(m *Term, mt *types.Map, k *Term) (in, v *Term) {
	ks, vs := sortOf(mt.Key()), sortOf(mt.Elem())
	key := mapKey(mt)
	d := Select(st.arr("mapdom:"+key, ArrOf(ks, SBool)), m)
	in = And(Not(Eq(m, Int(0))), Select(d, k))
	v = Select(Select(st.arr("mapval:"+key, ArrOf(ks, vs)), m), k)
	return
}

// guardedMap: a map read from a guarded field is only used while its ghost holds.
func (ex *Exec) guardedMap(st *State, fr *Frame, in ssa.Instruction, m *Term) {
	if ex.root == nil || ex.initMode {
		return
	}
	// maps of a guarded type: read while the first ghost holds, written while the second one does
	for _, op := range in.Operands(nil) {
		if *op == nil {
			continue
		}
		n, ok := (*op).Type().(*types.Named)
		if !ok {
			continue
		}
		if _, ok := n.Underlying().(*types.Map); !ok {
			continue
		}
		key := "type:" + tkey(n)
		if gs, ok := ex.V.db.Guarded[key]; ok {
			rg, wg, _ := strings.Cut(gs, " ")
			g := rg
			switch in.(type) {
			case *ssa.MapUpdate, *ssa.Call:
				g = wg
			}
			if t := st.ghost[g]; t != nil {
				site := ex.site(fr, in, "guarded")
				ex.oblige(st, "guarded", key+" used while "+g+" at "+site, site, t)
				st.assume(t)
			}
		}
		break
	}
	if m.op != "select" {
		return
	}
	a := m.args[0]
	for a.op == "store" || a.op == "named" || a.op == "ite" {
		a = a.args[0]
	}
	for key, g := range ex.V.db.Guarded {
		if !strings.Contains(a.String(), key) {
			continue
		}
		if t := st.ghost[g]; t != nil {
			site := ex.site(fr, in, "guarded")
			ex.oblige(st, "guarded", key+" used while "+g+" at "+site, site, t)
			st.assume(t)
		}
	}
}
func (st *State) mapDom(m *Term, mt *types.Map) *Term {
	return Select(st.arr("mapdom:"+mapKey(mt), ArrOf(sortOf(mt.Key()), SBool)), m)
}
func (st *State) mapSet(m *Term, mt *types.Map, k, v *Term) {
	ks, vs := sortOf(mt.Key()), sortOf(mt.Elem())
	key := mapKey(mt)
	da := st.arr("mapdom:"+key, ArrOf(ks, SBool))
	d := Select(da, m)
	na := st.arr("maplen:"+key, SInt)
	n := Select(na, m)
	st.heap["maplen:"+key] = Store(na, m, Ite(Select(d, k), n, Add(n, Int(1))))
	st.heap["mapdom:"+key] = Store(da, m, Store(d, k, True))
	va := st.arr("mapval:"+key, ArrOf(ks, vs))
	st.heap["mapval:"+key] = Store(va, m, Store(Select(va, m), k, v))
	for _, p := range []string{"mapdom:", "mapval:", "maplen:"} {
		st.writes.add(p+key, m)
	}
}
func (st *State) mapDelete(m *Term, mt *types.Map, k *Term) {
	ks := sortOf(mt.Key())
	key := mapKey(mt)
	da := st.arr("mapdom:"+key, ArrOf(ks, SBool))
	d := Select(da, m)
	na := st.arr("maplen:"+key, SInt)
	n := Select(na, m)
	st.heap["maplen:"+key] = Store(na, m, Ite(Select(d, k), Sub(n, Int(1)), n))
	st.heap["mapdom:"+key] = Store(da, m, Store(d, k, False))
	st.writes.add("mapdom:"+key, m)
	st.writes.add("maplen:"+key, m)
}
func (ex *Exec) mapUpdate(st *State, fr *Frame, i *ssa.MapUpdate) bool {
	mt := i.Map.Type().Underlying().(*types.Map)
	m := ex.term(st, i.Map)
	if !ex.nilCheck(st, fr, m, i) {
		return false
	}
	ex.guardedMap(st, fr, i, m)
	k := packT(ex.val(st, i.Key), mt.Key())
	v := packT(ex.val(st, i.Value), mt.Elem())
	st.mapSet(m, mt, k, v)
	fr.ip++
	return true
}

func (ex *Exec) next(st *State, fr *Frame, i *ssa.Next) bool {
	it := ex.val(st, i.Iter).(*IterV)
	if i.IsString {
		pos := st.ghost[it.pos]
		n := SeqLen(it.str)
		ok := Lt(pos, n)
		r, w := runeAt(it.str, pos)
		st.ghost[it.pos] = Ite(ok, Add(pos, w), pos)
		st.writes.addGhost(it.pos)
		fr.env[i] = TupleV{ok, pos, r}
		fr.ip++
		return true
	}
	ex.guardedMap(st, fr, i, it.m)
	ks := sortOf(it.mt.Key())
	vis := st.ghost[it.ghost]
	ok := Fresh("mapnext.ok", SBool)
	k := st.unpack(Fresh("mapnext.k", ks), it.mt.Key())
	kt := packT(k, it.mt.Key())
	in, v := st.mapGet(it.m, it.mt, kt)
	st.assume(Implies(ok, And(in, Not(Select(vis, kt)))))
	// exhaustion: when the map kept its keys since the range began, exactly those were visited
	d := st.mapDom(it.m, it.mt)
	kept := d == it.dom
	if !kept && !deletes(fr.fn) {
		kept = true
	}
	if kept {
		st.assume(Implies(And(Not(ok), Not(Eq(it.m, Int(0))), Eq(d, it.dom)), Eq(vis, d)))
	}
	// the number of visited keys against the length of the map
	num := st.ghost[it.ghost+"#"]
	mlen := Select(st.arr("maplen:"+mapKey(it.mt), SInt), it.m)
	st.assume(Implies(And(Not(Eq(it.m, Int(0))), Eq(d, it.dom)), And(Implies(ok, Lt(num, mlen)), Implies(Not(ok), Eq(num, mlen)))))
	st.ghost[it.ghost] = Ite(ok, Store(vis, kt, True), vis)
	st.ghost[it.ghost+"#"] = Ite(ok, Add(num, Int(1)), num)
	st.writes.addGhost(it.ghost)
	st.writes.addGhost(it.ghost + "#")
	fr.env[i] = TupleV{ok, k, st.unpack(v, it.mt.Elem())}
	fr.ip++
	return true
}

// deletes: the function might delete keys of a map while it ranges over one
func deletes(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
					return true
				}
			}
		}
	}
	return false
}

// runeAt: UTF-8 decoding at a position; width 1..4, ASCII exact.
func runeAt(s, i *Term) (r, w *Term) {
	r = App("utf8.rune", SInt, s, i)
	w = App("utf8.width", SInt, s, i)
	if len(r.facts) == 0 {
		setRange(r, big.NewInt(0), big.NewInt(0x10ffff))
		setRange(w, big.NewInt(1), big.NewInt(4))
		b := Nth(s, i)
		setRange(b, big.NewInt(0), big.NewInt(255))
		r.attach(Implies(Lt(b, Int(128)), And(Eq(r, b), Eq(w, Int(1)))))
		r.attach(Implies(Le(Int(128), b), Le(Int(128), r)))
		w.attach(Implies(Lt(i, SeqLen(s)), Le(Add(i, w), SeqLen(s))))
	}
	return
}

func (ex *Exec) debugf(f string, a ...interface{}) {
	if os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

var _ = sort.Strings
