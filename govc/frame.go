package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What a call that "modifies everything" cannot modify.
//
// 1. Fields that are only ever set on an object its own function has just allocated (a scan of every
//    function of the packages under verification): a callee can set them only on objects it allocates
//    itself. Unexported fields only; no store of a whole struct through a pointer; address not taken.
// 2. Local variables whose address is used for nothing but loads and stores, by the function itself and
//    by closures that are only called or deferred by it.

type fieldID struct {
	T *types.Named
	f int
}

func (v *Verifier) immutableFields() map[string]bool {
	if v.immut != nil {
		return v.immut
	}
	bad := map[fieldID]bool{}
	seen := map[fieldID]bool{}
	badT := map[*types.Named]bool{}
	named := func(T types.Type) *types.Named {
		n, _ := types.Unalias(T).(*types.Named)
		return n
	}
	var kill func(T types.Type)
	kill = func(T types.Type) {
		if n := named(T); n != nil {
			badT[n] = true
		}
		if u, ok := T.Underlying().(*types.Struct); ok {
			for i := 0; i < u.NumFields(); i++ {
				if _, ok := u.Field(i).Type().Underlying().(*types.Struct); ok {
					kill(u.Field(i).Type())
				}
			}
		}
	}
	for fn := range v.allFns {
		if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPrefix) {
			if fn.Pkg != nil || fn.Origin() == nil {
				// wrappers and the like have no package; they store nothing
				continue
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.FieldAddr:
					n := named(i.X.Type().Underlying().(*types.Pointer).Elem())
					if n == nil {
						continue
					}
					id := fieldID{n, i.Field}
					seen[id] = true
					if !fieldUseOK(i, baseIsAlloc(i.X)) {
						bad[id] = true
					}
				case *ssa.Store:
					T := i.Val.Type()
					if _, ok := T.Underlying().(*types.Struct); ok && !baseIsAlloc(i.Addr) {
						kill(T)
					}
				case *ssa.Convert:
					// a struct reached through an unsafe pointer can be written field by field elsewhere
					if p, ok := i.X.Type().Underlying().(*types.Pointer); ok {
						kill(p.Elem())
					}
					if p, ok := i.Type().Underlying().(*types.Pointer); ok {
						if b, ok := i.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer && !readOnly(i) {
							kill(p.Elem())
						}
					}
				case *ssa.ChangeType:
					if p, ok := i.X.Type().Underlying().(*types.Pointer); ok {
						kill(p.Elem())
						if q, ok := i.Type().Underlying().(*types.Pointer); ok {
							kill(q.Elem())
						}
					}
				}
			}
		}
	}
	v.immut = map[string]bool{}
	for id := range seen {
		u := id.T.Underlying().(*types.Struct)
		if bad[id] || badT[id.T] || u.Field(id.f).Exported() {
			continue
		}
		v.immut[tkey(id.T)+"."+u.Field(id.f).Name()] = true
	}
	return v.immut
}

// readOnly: the pointer is used for loads only.
func readOnly(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch u := r.(type) {
		case *ssa.UnOp:
			if u.Op != token.MUL {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func baseIsAlloc(x ssa.Value) bool {
	switch v := x.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return baseIsAlloc(v.X)
	}
	return false
}

func fieldUseOK(i ssa.Value, alloc bool) bool {
	if i.Referrers() == nil {
		return false
	}
	for _, r := range *i.Referrers() {
		switch u := r.(type) {
		case *ssa.UnOp:
			if u.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if u.Addr != i || u.Val == i || !alloc {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// stableElems: the element types no function outside the named package writes elements of.
func (v *Verifier) stableElems() map[string]bool {
	if v.stableMemo != nil {
		return v.stableMemo
	}
	v.stableMemo = map[string]bool{}
	for T := range v.db.Stable {
		v.stableMemo["M:"+T] = true
	}
	drop := func(fn *ssa.Function, T types.Type) {
		if sl, ok := T.Underlying().(*types.Slice); ok {
			k := tkey(sl.Elem())
			if pkg, ok := v.db.Stable[k]; ok && tkeyPkg(fn.Pkg.Pkg.Path()) != pkg {
				delete(v.stableMemo, "M:"+k)
			}
		}
	}
	for fn := range v.allFns {
		if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPrefix) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.IndexAddr:
					if !readOnly(i) {
						drop(fn, i.X.Type())
					}
				case *ssa.Call:
					if bi, ok := i.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "append" || bi.Name() == "copy") {
						drop(fn, i.Call.Args[0].Type())
					}
				}
			}
		}
	}
	return v.stableMemo
}

func tkeyPkg(path string) string {
	return strings.TrimPrefix(path, "github.com/v2pro/")
}

func (v *Verifier) immutableKey(key string) bool {
	if v.db != nil && len(v.db.Stable) > 0 && strings.HasPrefix(key, "M:") && v.stableElems()[key] {
		return true
	}
	m := v.immutableFields()
	if m[key] {
		return true
	}
	// a field of struct type: its leaves
	for i := len(key) - 1; i > 0; i-- {
		if key[i] == '.' && m[key[:i]] {
			return true
		}
	}
	return false
}

var privMemo = map[*ssa.Alloc]bool{}

func privateAlloc(a *ssa.Alloc) bool {
	r, ok := privMemo[a]
	if !ok {
		r = privateUse(a, 0)
		privMemo[a] = r
	}
	return r
}

func privateUse(v ssa.Value, depth int) bool {
	if v.Referrers() == nil || depth > 6 {
		return false
	}
	for _, r := range *v.Referrers() {
		switch u := r.(type) {
		case *ssa.UnOp:
			if u.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if u.Val == v {
				return false
			}
		case *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !privateUse(u, depth+1) {
				return false
			}
		case *ssa.MakeClosure:
			fn := u.Fn.(*ssa.Function)
			for i, b := range u.Bindings {
				if b == v && !privateUse(fn.FreeVars[i], depth+1) {
					return false
				}
			}
			if u.Referrers() == nil {
				return false
			}
			for _, cr := range *u.Referrers() {
				switch c := cr.(type) {
				case *ssa.Defer:
					if c.Call.Value != u {
						return false
					}
					for _, a := range c.Call.Args {
						if a == u {
							return false
						}
					}
				case *ssa.Call:
					if c.Call.Value != u {
						return false
					}
					for _, a := range c.Call.Args {
						if a == u {
							return false
						}
					}
				case *ssa.DebugRef:
				default:
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}
