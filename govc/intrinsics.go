package main

import (
	"fmt"
	"go/types"
	"golang.org/x/tools/go/ssa"
)

type intrinsic func(ex *Exec, st *State, fr *Frame, in ssa.Instruction, fn *ssa.Function, args []Val) (Val, bool)

func freshErr(ex *Exec, st *State, fr *Frame, in ssa.Instruction, fn *ssa.Function, args []Val) (Val, bool) {
	e := Fresh("err", SInt)
	st.assume(Not(Eq(e, Int(0))))
	st.assume(madeErr(e))
	return e, true
}

// madeErr: e was created by errors.New or fmt.Errorf while the verified code ran.
func madeErr(e *Term) *Term {
	if e.ival != nil {
		return False
	}
	t := App("made", SBool, e)
	if len(t.facts) == 0 {
		t.attach(Or(Not(t), Not(Eq(e, Int(0)))))
	}
	return t
}
func noop(ex *Exec, st *State, fr *Frame, in ssa.Instruction, fn *ssa.Function, args []Val) (Val, bool) {
	return TupleV{}, true
}

var intrinsics = map[string]intrinsic{}

func init() {
	intrinsics["errors.New"] = freshErr
	intrinsics["fmt.Errorf"] = freshErr
}

func (ex *Exec) reinterpret(st *State, p *PtrV, T types.Type) Val {
	unsup("reinterpretation of %s%s as %s", p.owner, p.path, T)
	return nil
}

var tableChecked = map[*TableSpec]bool{}
var tableRows int
var tableNotes []string

// applyTables proves every table contract by complete enumeration of the initialised table
// and only then makes it available to the proofs.
func (v *Verifier) applyTables() {
	for _, ts := range v.db.Tables {
		ti := tables[ts.Global]
		if ti == nil || tableChecked[ts] {
			continue
		}
		tableChecked[ts] = true
		ts := ts
		ok := true
		for k, val := range ti.vals {
			c := &evalCtx{db: v.db, st: specState, old: specState, vars: map[string]SV{ts.I: {Int(int64(k)), nil}, ts.V: {val, nil}}, ex: specExec}
			tableRows++
			if t := c.boolean(ts.Expr); t != True {
				ok = false
				tableNotes = append(tableNotes, fmt.Sprintf("%s[%d] = %s does not satisfy its table contract", ts.Global, k, val))
				break
			}
		}
		if !ok {
			continue
		}
		ti.facts = append(ti.facts, func(i, val *Term) *Term {
			c := &evalCtx{db: v.db, st: specState, old: specState, vars: map[string]SV{ts.I: {i, nil}, ts.V: {val, nil}}, ex: specExec}
			return c.boolean(ts.Expr)
		})
	}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
