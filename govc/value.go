package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type SliceV struct {
	base, off, len, cap *Term
	elem                types.Type
	frozen              *Term // content fixed by old()
	vw, vb              *Term // cached view, valid while the backing sequence is vb
}
type StructV struct {
	fields []Val
	T      *types.Struct
}
type TupleV []Val

// PtrV is an interior pointer: into a struct field (path) and/or an element of a backing array.
type PtrV struct {
	ref   *Term
	owner string // heap-array key prefix (type key of the root object), or "M:<elem>" for backing arrays
	path  string // ".f.g" flattened struct path
	steps []pstep
	T     types.Type // pointee type
	RT    types.Type // type of the value held in the root array at (owner+path) when steps non-empty
	sl    *SliceV    // the slice and index it was derived from, when it is &slice[idx]
	idx   *Term
}
type pstep struct {
	field int   // -1 when index
	index *Term // element index
	T     types.Type
}
type FuncV struct {
	fn   *ssa.Function
	bind []Val
}
type IterV struct {
	id    int
	str   *Term // string being ranged over
	pos   string
	m     *Term
	mt    *types.Map
	dom   *Term // keys when the range began
	ghost string
}
type BuiltinV struct{ name string }

const modPrefix = "github.com/v2pro/"

func short(s string) string { return strings.ReplaceAll(s, modPrefix, "") }

func qual(p *types.Package) string { return short(p.Path()) }
func tkey(T types.Type) string {
	T = types.Unalias(T)
	if b, ok := T.(*types.Basic); ok {
		switch b.Kind() {
		case types.Byte:
			return "uint8"
		case types.Rune:
			return "int32"
		}
	}
	s := types.TypeString(T, qual)
	if strings.Contains(s, "byte") || strings.Contains(s, "rune") {
		s = reByte.ReplaceAllString(s, "${1}uint8")
		s = reRune.ReplaceAllString(s, "${1}int32")
	}
	return s
}

var reByte = regexp.MustCompile(`(^|[^\w./])byte\b`)
var reRune = regexp.MustCompile(`(^|[^\w./])rune\b`)

var (
	typeIDs   = map[string]int{}
	typeNames []string
	typeByKey = map[string]types.Type{}
)

func typeID(key string) int {
	if id, ok := typeIDs[key]; ok {
		return id
	}
	id := len(typeIDs) + 1
	typeIDs[key] = id
	typeNames = append(typeNames, key)
	return id
}

type Unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

func sortOf(T types.Type) Sort {
	switch u := T.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsFloat != 0:
			return SReal
		case u.Info()&types.IsString != 0:
			return SSeq
		}
		return SInt
	case *types.Array:
		return SeqOf(sortOf(u.Elem()))
	}
	return SInt
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func intRange(T types.Type) (lo, hi *big.Int, bits uint, signed bool, ok bool) {
	b, isb := T.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return
	}
	ok = true
	switch b.Kind() {
	case types.Int8:
		bits, signed = 8, true
	case types.Int16:
		bits, signed = 16, true
	case types.Int32, types.UntypedRune:
		bits, signed = 32, true
	case types.Int, types.Int64, types.UntypedInt:
		bits, signed = 64, true
	case types.Uint8:
		bits = 8
	case types.Uint16:
		bits = 16
	case types.Uint32:
		bits = 32
	case types.Uint, types.Uint64, types.Uintptr:
		bits = 64
	}
	if signed {
		lo = new(big.Int).Neg(pow2(bits - 1))
		hi = new(big.Int).Sub(pow2(bits-1), big.NewInt(1))
	} else {
		lo = new(big.Int)
		hi = new(big.Int).Sub(pow2(bits), big.NewInt(1))
	}
	return
}

func isRefType(T types.Type) bool {
	switch u := T.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

// typed records the type invariant of a scalar term of Go type T, seen at time (e,k).
func (st *State) typed(t *Term, T types.Type) *Term {
	if lo, hi, _, _, ok := intRange(T); ok {
		setRange(t, lo, hi)
		return t
	}
	if isRefType(T) && t.sort == SInt {
		markOld(t, st.epoch, st.k)
	}
	return t
}

func zeroVal(T types.Type) Val {
	switch u := T.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsFloat != 0:
			return Real(new(big.Rat))
		case u.Info()&types.IsString != 0:
			return SeqEmpty(SSeq)
		}
		return Int(0)
	case *types.Slice:
		return &SliceV{base: Int(0), off: Int(0), len: Int(0), cap: Int(0), elem: u.Elem()}
	case *types.Struct:
		sv := &StructV{T: u}
		for i := 0; i < u.NumFields(); i++ {
			sv.fields = append(sv.fields, zeroVal(u.Field(i).Type()))
		}
		return sv
	case *types.Array:
		if u.Len() == 0 {
			return SeqEmpty(sortOf(T))
		}
		z := packT(zeroVal(u.Elem()), u.Elem())
		if u.Len() > 4096 {
			unsup("big array")
		}
		ts := make([]*Term, u.Len())
		for i := range ts {
			ts[i] = SeqUnit(z)
		}
		return Cat(ts...)
	case *types.Tuple:
		tv := TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, zeroVal(u.At(i).Type()))
		}
		return tv
	}
	return Int(0)
}

// packT converts a value to a single term of sort sortOf(T).
func packT(v Val, T types.Type) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *SliceV:
		s := func(k int, t *Term) (*Term, bool) {
			if t.op == fmt.Sprintf("sel:slice:%d", k) {
				return t.args[0], true
			}
			return nil, false
		}
		b, ok0 := s(0, x.base)
		o, ok1 := s(1, x.off)
		l, ok2 := s(2, x.len)
		c, ok3 := s(3, x.cap)
		if ok0 && ok1 && ok2 && ok3 && b == o && b == l && b == c {
			return b
		}
		return mk("box:slice", "", SInt, x.base, x.off, x.len, x.cap)
	case *StructV:
		var args []*Term
		u := x.T
		key := structKey(T)
		var common *Term
		same := true
		for i, f := range x.fields {
			p := packT(f, u.Field(i).Type())
			args = append(args, p)
			if p.op == fmt.Sprintf("sel:%s:%d", key, i) && (common == nil || common == p.args[0]) {
				common = p.args[0]
			} else {
				same = false
			}
		}
		if same && common != nil {
			return common
		}
		if len(args) == 0 {
			args = nil
		}
		return mk("box:"+key, "", SInt, args...)
	case *FuncV:
		var args []*Term
		for i, b := range x.bind {
			args = append(args, packT(b, x.fn.FreeVars[i].Type()))
		}
		t := mk("box:fn:"+x.fn.String(), "", SInt, args...)
		funcTab[t] = x
		return t
	case *PtrV:
		args := []*Term{x.ref}
		key := "box:iptr:" + x.owner + x.path
		for _, s := range x.steps {
			if s.index != nil {
				args = append(args, s.index)
			} else {
				key += fmt.Sprintf(".#%d", s.field)
			}
		}
		t := mk(key, "", SInt, args...)
		ptrTab[t] = x
		return t
	}
	panic(Unsupported{fmt.Sprintf("pack %T", v)})
}

var funcTab = map[*Term]*FuncV{}
var ptrTab = map[*Term]*PtrV{}

func structKey(T types.Type) string { return tkey(T) }

func sel(key string, k int, s Sort, t *Term) *Term {
	if t.op == "box:"+key && k < len(t.args) {
		return t.args[k]
	}
	if t.op == "ite" {
		return Ite(t.args[0], sel(key, k, s, t.args[1]), sel(key, k, s, t.args[2]))
	}
	return mk(fmt.Sprintf("sel:%s:%d", key, k), "", s, t)
}

func (st *State) unpack(t *Term, T types.Type) Val {
	switch u := T.Underlying().(type) {
	case *types.Slice:
		if t.op == "box:slice" {
			return &SliceV{base: t.args[0], off: t.args[1], len: t.args[2], cap: t.args[3], elem: u.Elem()}
		}
		s := &SliceV{elem: u.Elem()}
		s.base = sel("slice", 0, SInt, t)
		s.off = sel("slice", 1, SInt, t)
		s.len = sel("slice", 2, SInt, t)
		s.cap = sel("slice", 3, SInt, t)
		st.sliceFacts(s)
		return s
	case *types.Struct:
		sv := &StructV{T: u}
		key := structKey(T)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			sv.fields = append(sv.fields, st.unpack(sel(key, i, sortOf(ft), t), ft))
		}
		return sv
	case *types.Signature:
		if f, ok := funcTab[t]; ok {
			return f
		}
		return t
	case *types.Pointer:
		if p, ok := ptrTab[t]; ok {
			return p
		}
		st.typed(t, T)
		return t
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			if p, ok := ptrTab[t]; ok {
				return p
			}
		}
	}
	return st.typed(t, T)
}

func (st *State) sliceFacts(s *SliceV) {
	zero := new(big.Int)
	for _, x := range []*Term{s.off, s.len, s.cap} {
		if x.ival == nil && x.op != "ite" {
			setRange(x, zero, maxLen)
		}
	}
	if s.cap.ival == nil {
		s.cap.attach(mk("<=", "", SBool, s.len, s.cap))
	}
	if s.len.ival == nil {
		s.len.attach(mk("<=", "", SBool, s.len, s.cap))
		// nil slices are empty
		s.len.attach(Implies(Eq(s.base, Int(0)), Eq(s.len, Int(0))))
	}
	if s.base.ival == nil && s.base.op != "ite" {
		markOld(s.base, st.epoch, st.k)
	}
}

func symVal(st *State, name string, T types.Type) Val {
	switch u := T.Underlying().(type) {
	case *types.Slice:
		s := &SliceV{elem: u.Elem()}
		s.base = Fresh(name+".base", SInt)
		s.off = Fresh(name+".off", SInt)
		s.len = Fresh(name+".len", SInt)
		s.cap = Fresh(name+".cap", SInt)
		st.sliceFacts(s)
		return s
	case *types.Struct:
		sv := &StructV{T: u}
		for i := 0; i < u.NumFields(); i++ {
			sv.fields = append(sv.fields, symVal(st, name+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return sv
	case *types.Tuple:
		tv := TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, symVal(st, fmt.Sprintf("%s.%d", name, i), u.At(i).Type()))
		}
		return tv
	}
	t := Fresh(name, sortOf(T))
	return st.typed(t, T)
}
