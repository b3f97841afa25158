package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type invokeTarget struct {
	recv   *Term
	method *types.Func
	iface  types.Type
}

func (ex *Exec) callOperands(st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	if c.IsInvoke() {
		recv := ex.term(st, c.Value)
		for _, a := range c.Args {
			args = append(args, ex.val(st, a))
		}
		return &invokeTarget{recv, c.Method, c.Value.Type()}, args
	}
	for _, a := range c.Args {
		args = append(args, ex.val(st, a))
	}
	return ex.val(st, c.Value), args
}

func (ex *Exec) call(st *State, fr *Frame, in ssa.Instruction, c *ssa.CallCommon, res ssa.Value) bool {
	fn, args := ex.callOperands(st, c)
	return ex.dispatch(st, fr, in, c, fn, args, res, false)
}

// finish delivers the result of a call that needed no frame.
func (ex *Exec) finish(st *State, res ssa.Value, v Val, isDefer bool) bool {
	fr := st.top()
	if isDefer {
		if fr.panicking {
			return ex.unwind(st)
		}
		return true
	}
	if res != nil {
		fr.env[res] = v
	}
	fr.ip++
	return true
}

func (ex *Exec) dispatch(st *State, fr *Frame, in ssa.Instruction, c *ssa.CallCommon, fn Val, args []Val, res ssa.Value, isDefer bool) bool {
	switch f := fn.(type) {
	case *BuiltinV:
		v, ok := ex.builtin(st, fr, in, f.name, c, args, isDefer)
		if !ok {
			return false
		}
		return ex.finish(st, res, v, isDefer)
	case *invokeTarget:
		recv := f.recv
		// a path condition may fix the dynamic type
		if !strings.HasPrefix(recv.op, "box:I:") {
			for _, p := range st.pc {
				if p.op == "=" && (p.args[0] == recv || p.args[1] == recv) {
					o := p.args[0]
					if o == recv {
						o = p.args[1]
					}
					if strings.HasPrefix(o.op, "box:I:") {
						recv = o
						break
					}
				}
			}
		}
		if strings.HasPrefix(recv.op, "box:I:") {
			T := typeByKey[recv.op[6:]]
			m := ex.V.prog.LookupMethod(T, f.method.Pkg(), f.method.Name())
			if m == nil {
				unsup("method %s of %s", f.method.Name(), T)
			}
			rv := st.unpack(recv.args[0], T)
			return ex.callStatic(st, fr, in, m, append([]Val{rv}, args...), nil, res, isDefer)
		}
		if !ex.guard(st, fr, Not(Eq(recv, Int(0))), in, "nil-interface-call") {
			return false
		}
		key := "(" + tkey(f.iface) + ")." + f.method.Name()
		if ct := ex.V.contract(key); ct != nil {
			all := append([]Val{recv}, args...)
			sig := f.method.Type().(*types.Signature)
			return ex.applyContract(st, fr, in, ct, sig, f.iface, all, res, isDefer)
		}
		ex.V.assumption("interface method " + key + ": arbitrary result, no effect on tracked state, does not panic")
		return ex.finish(st, res, ex.havocResult(st, f.method.Type().(*types.Signature), f.method.Name()), isDefer)
	case *FuncV:
		return ex.callStatic(st, fr, in, f.fn, args, f.bind, res, isDefer)
	case *Term:
		if fv, ok := funcTab[f]; ok {
			return ex.callStatic(st, fr, in, fv.fn, args, fv.bind, res, isDefer)
		}
		if f.op == "ite" {
			// fork over the possible function values
			o := st.clone()
			o.assume(Not(f.args[0]))
			if !o.dead() && ex.dispatch(o, o.top(), in, c, f.args[2], args, res, isDefer) {
				ex.push(o)
			}
			st.assume(f.args[0])
			return ex.dispatch(st, fr, in, c, f.args[1], args, res, isDefer)
		}
		if !ex.guard(st, fr, Not(Eq(f, Int(0))), in, "nil-func-call") {
			return false
		}
		sig := c.Signature()
		key := "funcvalue:" + tkey(sig)
		if n, ok := c.Value.Type().(*types.Named); ok {
			if ct := ex.V.contract("funcvalue:" + tkey(n)); ct != nil {
				return ex.applyContract(st, fr, in, ct, sig, sig, append([]Val{f}, args...), res, isDefer)
			}
		}
		if ct := ex.V.contract(key); ct != nil {
			return ex.applyContract(st, fr, in, ct, sig, sig, append([]Val{f}, args...), res, isDefer)
		}
		ex.V.assumption("function value of type " + tkey(sig) + ": arbitrary result, no effect on tracked state, does not panic")
		return ex.finish(st, res, ex.havocResult(st, sig, "fv"), isDefer)
	}
	unsup("call of %T", fn)
	return false
}

func (ex *Exec) havocResult(st *State, sig *types.Signature, name string) Val {
	r := sig.Results()
	switch r.Len() {
	case 0:
		return TupleV{}
	case 1:
		return ex.freshVal(st, name, r.At(0).Type())
	}
	tv := TupleV{}
	for i := 0; i < r.Len(); i++ {
		tv = append(tv, ex.freshVal(st, fmt.Sprintf("%s.%d", name, i), r.At(i).Type()))
	}
	return tv
}
func (ex *Exec) freshVal(st *State, name string, T types.Type) Val {
	v := symVal(st, name, T)
	if s, ok := v.(*SliceV); ok {
		st.nameSlice(name, s)
	}
	return v
}

func fnKey(fn *ssa.Function) string {
	k := short(fn.String())
	return k
}

func inModule(fn *ssa.Function) bool {
	p := fn.Package()
	if p == nil {
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			return strings.HasPrefix(fn.Object().Pkg().Path(), modPrefix+"plz")
		}
		return fn.Synthetic != ""
	}
	return strings.HasPrefix(p.Pkg.Path(), modPrefix+"plz")
}

func (ex *Exec) callStatic(st *State, fr *Frame, in ssa.Instruction, fn *ssa.Function, args []Val, bind []Val, res ssa.Value, isDefer bool) bool {
	key := fnKey(fn)
	if h, ok := intrinsics[key]; ok {
		v, cont := h(ex, st, fr, in, fn, args)
		if !cont {
			return false
		}
		return ex.finish(st, res, v, isDefer)
	}
	if ct := ex.V.contract(key); ct != nil && !ct.Inline && !ex.initMode && len(fn.FreeVars) == 0 {
		return ex.applyContract(st, fr, in, ct, fn.Signature, nil, args, res, isDefer)
	}
	if ex.initMode && fn.Pkg != nil && len(st.frames) > 0 && st.frames[0].fn.Pkg != fn.Pkg && !(inModule(fn) && isConstructor(fn)) {
		// another package's function: opaque during package initialisation
		return ex.finish(st, res, ex.havocResult(st, fn.Signature, "init."+fn.Name()), isDefer)
	}
	if len(fn.Blocks) > 0 && (inModule(fn) || fn.Synthetic != "") {
		n := 0
		for _, f := range st.frames {
			if f.fn == fn {
				n++
			}
		}
		if n >= 1 && !ex.initMode {
			unsup("recursive call of %s without a contract", key)
		}
		if len(st.frames) > 24 {
			unsup("inline depth exceeded at %s", key)
		}
		ex.V.inlined[key] = true
		nf := newFrame(fn, args, bind)
		nf.callInstr = res
		nf.isDefer = isDefer
		st.frames = append(st.frames, nf)
		if ex.V.loopsOf(fn).body[fn.Blocks[0]] != nil {
			return ex.atHeader(st, nf, nil, fn.Blocks[0], ex.V.loopsOf(fn))
		}
		return true
	}
	if ex.initMode {
		return ex.finish(st, res, ex.havocResult(st, fn.Signature, "init."+fn.Name()), isDefer)
	}
	ex.V.assumption("external " + key + ": arbitrary result, no effect on tracked state, does not panic")
	return ex.finish(st, res, ex.havocResult(st, fn.Signature, fn.Name()), isDefer)
}

func newFrame(fn *ssa.Function, args, bind []Val) *Frame {
	nf := &Frame{fn: fn, block: fn.Blocks[0], env: map[ssa.Value]Val{}, cuts: map[*ssa.BasicBlock]*LoopCut{}, unrolled: map[*ssa.BasicBlock]int{}, bind: bind}
	for i, p := range fn.Params {
		nf.env[p] = args[i]
	}
	return nf
}

func (ex *Exec) seqOfVal(st *State, v Val) *Term {
	switch x := v.(type) {
	case *SliceV:
		return st.view(x)
	case *Term:
		return x
	}
	unsup("seq of %T", v)
	return nil
}

func (ex *Exec) builtin(st *State, fr *Frame, in ssa.Instruction, name string, c *ssa.CallCommon, args []Val, isDefer bool) (Val, bool) {
	switch name {
	case "len":
		switch x := args[0].(type) {
		case *SliceV:
			return x.len, true
		case *Term:
			switch u := c.Args[0].Type().Underlying().(type) {
			case *types.Map:
				n := Select(st.arr("maplen:"+mapKey(u), SInt), x)
				setRange(n, new(big.Int), maxLen)
				return Ite(Eq(x, Int(0)), Int(0), n), true
			case *types.Chan:
				n := Fresh("chanlen", SInt)
				setRange(n, new(big.Int), maxLen)
				return n, true
			case *types.Pointer:
				if at, ok := isArray(u.Elem()); ok {
					return Int(at.Len()), true
				}
			}
			return SeqLen(x), true
		}
	case "cap":
		if s, ok := args[0].(*SliceV); ok {
			return s.cap, true
		}
		return Select(st.arr("chancap", SInt), args[0].(*Term)), true
	case "append":
		s := args[0].(*SliceV)
		if len(args) == 1 {
			return s, true
		}
		var add *Term
		var addLen *Term
		switch x := args[1].(type) {
		case *SliceV:
			add, addLen = st.view(x), x.len
		case *Term:
			add, addLen = x, SeqLen(x)
		}
		if addLen.ival != nil && addLen.ival.Sign() == 0 {
			return s, true
		}
		return st.newSlice(s.elem, Cat(st.view(s), add)), true
	case "copy":
		d := args[0].(*SliceV)
		src := ex.seqOfVal(st, args[1])
		sl := SeqLen(src)
		var n *Term
		switch {
		case qs.implied(st.pc, Le(sl, d.len)):
			n = sl
		case qs.implied(st.pc, Le(d.len, sl)):
			n = d.len
		default:
			n = Ite(Le(sl, d.len), sl, d.len)
		}
		if d.len.ival != nil && d.len.ival.Sign() == 0 {
			return Int(0), true
		}
		key := st.memKey(d.elem)
		a := st.arr(key, SeqOf(sortOf(d.elem)))
		b := Select(a, d.base)
		nb := Cat(SubSeq(b, Int(0), d.off), SubSeq(src, Int(0), n), SubSeq(b, Add(d.off, n), SeqLen(b)))
		st.heap[key] = Store(a, d.base, nb)
		st.writes.add(key, d.base)
		return n, true
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		m := args[0].(*Term)
		ex.guardedMap(st, fr, in, m)
		st.mapDelete(m, mt, packT(args[1], mt.Key()))
		return TupleV{}, true
	case "recover":
		// legal only in a function invoked directly as a deferred call of a panicking frame
		n := len(st.frames)
		cur := st.frames[n-1]
		if n >= 2 && cur.isDefer {
			p := st.frames[n-2]
			if p.panicking && !p.recovered {
				p.recovered = true
				return p.panicVal, true
			}
		}
		return Int(0), true
	case "panic":
		ex.raise(st, packT(args[0], c.Args[0].Type()), ex.site(fr, in, "panic"))
		return nil, false
	case "ssa:wrapnilchk":
		if !ex.nilCheck(st, fr, args[0], in) {
			return nil, false
		}
		return args[0], true
	case "print", "println":
		return TupleV{}, true
	case "close":
		return TupleV{}, true
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if name == "min" {
				r = Ite(Le(r, t), r, t)
			} else {
				r = Ite(Le(t, r), r, t)
			}
		}
		return r, true
	}
	unsup("builtin %s", name)
	return nil, false
}

func (ex *Exec) spawn(st *State, fr *Frame, in ssa.Instruction, fn Val, args []Val) {
	if g, ok := st.ghost["spawned"]; ok {
		var name string
		switch f := fn.(type) {
		case *FuncV:
			name = packT(f, nil).op
			ev := packT(f, nil)
			st.ghost["spawned"] = Cat(g, SeqUnit(ev))
		case *Term:
			st.ghost["spawned"] = Cat(g, SeqUnit(f))
		default:
			name = "?"
			st.ghost["spawned"] = Cat(g, SeqUnit(Fresh("spawn"+name, SInt)))
		}
		st.writes.addGhost("spawned")
	}
	ex.V.assumption("goroutines started with go are not interleaved with the function under verification (their bodies are verified separately)")
}

// channels: sends are recorded in the ghost sequence "sent" (if declared); receives are arbitrary.
func (ex *Exec) chanSend(st *State, ch, v Val, T types.Type) {
	st.assume(Not(Eq(ch.(*Term), Int(0)))) // nothing is ever sent to a nil channel
	if g, ok := st.ghost["sent"]; ok {
		st.ghost["sent"] = Cat(g, SeqUnit(packT(v, T)))
		st.writes.addGhost("sent")
	}
	if _, ok := st.ghost["sentto"]; ok {
		st.ghost["sentto"] = ch.(*Term)
		st.writes.addGhost("sentto")
	}
	ex.V.assumption("channel sends complete (no deadlock); receives deliver arbitrary values")
}
func isBytes(T types.Type) bool {
	s, ok := T.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), types.Typ[types.Uint8])
}
func (ex *Exec) chanRecv(st *State, ch *Term, T types.Type) Val {
	v := ex.freshVal(st, "recv", T)
	if ch != nil {
		st.assume(Not(Eq(ch, Int(0)))) // nothing is ever received from a nil channel
	}
	// byte slices received are counted in the ghost "received" (if declared), with the bytes of the last one in "receivedtext"
	if _, ok := st.ghost["timedout"]; ok && T.String() == "time.Time" {
		st.ghost["timedout"] = True
		st.writes.addGhost("timedout")
	}
	if isBytes(T) {
		if _, ok := st.ghost["emptied"]; ok {
			st.ghost["emptied"] = False
			st.writes.addGhost("emptied")
		}
		if g, ok := st.ghost["received"]; ok {
			st.ghost["received"] = Add(g, Int(1))
			st.writes.addGhost("received")
		}
		if _, ok := st.ghost["receivedtext"]; ok {
			st.ghost["receivedtext"] = ex.seqOfVal(st, v)
			st.writes.addGhost("receivedtext")
		}
		if _, ok := st.ghost["receivedfrom"]; ok {
			st.ghost["receivedfrom"] = ch
			st.writes.addGhost("receivedfrom")
		}
	}
	return v
}
func (ex *Exec) selectStmt(st *State, fr *Frame, i *ssa.Select) bool {
	// fork over the ready case; -1 for default
	n := len(i.States)
	mkRes := func(s *State, idx int) {
		f := s.top()
		tv := TupleV{Int(int64(idx)), Fresh("recvOk", SBool)}
		for k, sst := range i.States {
			if sst.Dir == types.RecvOnly {
				T := sst.Chan.Type().Underlying().(*types.Chan).Elem()
				if k == idx {
					tv = append(tv, ex.chanRecv(s, ex.term(s, sst.Chan), T))
				} else {
					tv = append(tv, zeroVal(T))
				}
			}
		}
		f.env[i] = tv
		f.ip++
	}
	for idx := 0; idx < n; idx++ {
		o := st.clone()
		sst := i.States[idx]
		if sst.Dir == types.SendOnly {
			ex.chanSend(o, ex.val(o, sst.Chan), ex.val(o, sst.Send), sst.Send.Type())
		}
		mkRes(o, idx)
		if idx == n-1 && i.Blocking {
			*st = *o
			return true
		}
		ex.push(o)
	}
	if i.Blocking {
		return false
	}
	for _, sst := range i.States {
		// "emptied": the default case was taken where byte slices could have been received
		if _, ok := st.ghost["emptied"]; ok && sst.Dir == types.RecvOnly && isBytes(sst.Chan.Type().Underlying().(*types.Chan).Elem()) {
			st.ghost["emptied"] = True
			st.writes.addGhost("emptied")
		}
	}
	mkRes(st, -1)
	return true
}

// isConstructor: fn only allocates an object, sets its fields and returns it.
func isConstructor(fn *ssa.Function) bool {
	if len(fn.Blocks) != 1 {
		return false
	}
	for _, in := range fn.Blocks[0].Instrs {
		switch in.(type) {
		case *ssa.Alloc, *ssa.FieldAddr, *ssa.Store, *ssa.Return, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}
