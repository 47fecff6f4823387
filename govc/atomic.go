package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Cells that other goroutines change at any time ("shared p rely R guarantee G"): they are read and written only
// by atomic operations; between two operations of this function the cell moves from prev to next by any steps
// allowed by R, and every write of this function is a step allowed by G. The ghost added_p is the sum (modulo
// 2^64) of what the function's own writes added to the cell.
type sharedDecl struct {
	name       string
	rely, guar ast.Expr
	text       string
}

type sharedCell struct {
	d     *sharedDecl
	added string
}

func parseShared(s string) (*sharedDecl, error) {
	n, rest, ok := strings.Cut(s, " rely ")
	r, g, ok2 := strings.Cut(rest, " guarantee ")
	if !ok || !ok2 {
		return nil, fmt.Errorf("shared p rely R guarantee G expected, have %q", s)
	}
	d := &sharedDecl{name: strings.TrimSpace(n), text: s}
	var err error
	if d.rely, err = parser.ParseExpr(r); err != nil {
		return nil, err
	}
	d.guar, err = parser.ParseExpr(g)
	return d, err
}

func (ct *Contract) sharedOf(n string) *sharedDecl {
	for _, d := range ct.shared {
		if d.name == n {
			return d
		}
	}
	return nil
}

// initShared sets up the shared cells of the function under verification.
func (ex *Exec) initShared(st *State, ct *Contract, at func(string) Value) {
	if len(ct.shared) == 0 {
		return
	}
	for _, d := range ct.shared {
		p, ok := at(d.name).(*PtrV)
		if !ok || p.obj < 0 || len(p.path) > 0 || p.idx != nil {
			panic(unsupported("shared " + d.name + " is not a pointer to a whole variable"))
		}
		a := "added_" + d.name
		o := st.newObj(OGhost, a, nil)
		o.seq = ex.c.zero
		ex.ghostObj[a] = o.id
		ex.entryVals[a] = o.seq
		ex.sharedCells[p.obj] = &sharedCell{d: d, added: a}
	}
	ex.assumption("sync/atomic operations are indivisible and sequentially consistent")
}

func (ex *Exec) stepEv(st *State, vars map[string]*Term, prev, next *Term) *Ev {
	m := mergeVars(nil, vars)
	m["prev"], m["next"] = prev, next
	return &Ev{st: st, dec: st.decide, vars: m, lookup: st.ghostName}
}

func (st *State) cellTerm(p *PtrV) *Term {
	t, ok := st.load(p).(*Term)
	if !ok {
		panic(unsupported("shared variable of this type"))
	}
	return t
}

// envStep lets the other goroutines move the cell.
func (st *State) envStep(p *PtrV, sc *sharedCell) *Term {
	ex := st.ex
	old := st.cellTerm(p)
	v, ok := st.fromDeep(ex.freshDeep("shared_"+sc.d.name, st.typeOfPtr(p)), st.typeOfPtr(p), false, sc.d.name).(*Term)
	if !ok {
		panic(unsupported("shared variable of this type"))
	}
	var t *Term
	if e := guardSpec(func() { t = ex.stepEv(st, ex.entryVals, old, v).boolE(sc.d.rely) }); e != "" {
		panic(unsupported("rely of " + sc.d.name + ": " + e))
	}
	st.assume(t)
	st.store(p, v)
	return v
}

// ownStep checks a write of this function against its guarantee and performs it.
func (st *State) ownStep(p *PtrV, sc *sharedCell, prev, next, cond *Term) {
	ex := st.ex
	c := ex.c
	var t *Term
	if e := guardSpec(func() { t = ex.stepEv(st, ex.entryVals, prev, next).boolE(sc.d.guar) }); e != "" {
		panic(unsupported("guarantee of " + sc.d.name + ": " + e))
	}
	ex.check(st, "every write to "+sc.d.name+" is a permitted step", c.Imp(cond, t))
	nv := c.Ite(cond, next, prev)
	st.store(p, nv)
	o := st.mut(ex.ghostObj[sc.added])
	o.seq = ex.wrap64(c.Add(o.seq, c.Sub2(nv, prev)))
}

func (ex *Exec) wrap64(t *Term) *Term { return ex.c.Wrap(t, ex.it(64, false)) }

func (st *State) sharedAt(v Value) (*PtrV, *sharedCell) {
	p, ok := v.(*PtrV)
	if !ok || p.obj < 0 {
		return nil, nil
	}
	return p, st.ex.sharedCells[p.obj]
}

// plainAccess reports an access to a shared cell that is not an atomic operation.
func (st *State) plainAccess(v Value, what string) {
	if _, sc := st.sharedAt(v); sc != nil {
		st.ex.fail(st, sc.d.name+" is accessed only by atomic operations", what+" of "+sc.d.name)
	}
}

// atomicOp performs an atomic operation on a shared cell.
func (r *runner) atomicOp(st *State, n string, args []Value) (Value, bool) {
	if len(r.ex.sharedCells) == 0 || !strings.HasPrefix(n, "atomic.") || len(args) == 0 {
		return nil, false
	}
	p, sc := st.sharedAt(args[0])
	if sc == nil {
		return nil, false
	}
	ex := r.ex
	c := ex.c
	if p.idx != nil || len(p.path) > 0 {
		panic(unsupported("atomic operation on a part of " + sc.d.name))
	}
	if !strings.HasSuffix(n, "Uint64") {
		panic(unsupported(n + " on a shared variable"))
	}
	tm := func(i int) *Term { return args[i].(*Term) }
	ex.ob("every access to "+sc.d.name+" is atomic").N++
	v := st.envStep(p, sc)
	switch strings.TrimSuffix(n[7:], "Uint64") {
	case "Load":
		return v, true
	case "Store":
		st.ownStep(p, sc, v, tm(1), c.T)
		return nil, true
	case "Add":
		x := ex.wrap64(c.Add(v, tm(1)))
		st.ownStep(p, sc, v, x, c.T)
		return x, true
	case "Swap":
		st.ownStep(p, sc, v, tm(1), c.T)
		return v, true
	case "CompareAndSwap":
		ok := c.Eq(v, tm(1))
		st.ownStep(p, sc, v, tm(2), ok)
		return ok, true
	}
	panic(unsupported(n + " on a shared variable"))
}

// callShared applies the shared clauses of a callee's contract: old is evaluated after the step of the others that
// precedes the call.
func (r *runner) callSharedPre(st *State, ct *Contract, args []Value) {
	ex := r.ex
	for i, a := range args {
		p, sc := st.sharedAt(a)
		if sc == nil {
			continue
		}
		if i >= len(ct.params) || ct.sharedOf(ct.params[i]) == nil {
			ex.fail(st, sc.d.name+" is accessed only by atomic operations", "passed to "+ct.fn)
			continue
		}
		st.envStep(p, sc)
	}
}

func (r *runner) callSharedEffect(st *State, ct *Contract, args []Value, vars map[string]*Term, done map[string]bool) {
	ex := r.ex
	c := ex.c
	for _, d := range ct.shared {
		i := ct.paramIndex(d.name)
		if i < 0 {
			panic(unsupported("shared captured variable at a call of " + ct.fn))
		}
		p, ok := args[i].(*PtrV)
		if !ok || p.obj < 0 {
			panic(unsupported("shared argument of " + ct.fn))
		}
		if sc := ex.sharedCells[p.obj]; sc != nil {
			u := types.Typ[types.Uint64]
			a, b := ex.freshDeep("prev", u), ex.freshDeep("next", u)
			a, b = st.fromDeep(a, u, false, "prev").(*Term), st.fromDeep(b, u, false, "next").(*Term)
			var rc, rq, gc, gq *Term
			if e := guardSpec(func() {
				rc = ex.stepEv(st, ex.entryVals, a, b).boolE(sc.d.rely)
				gc = ex.stepEv(st, ex.entryVals, a, b).boolE(sc.d.guar)
				rq = ex.stepEv(st, vars, a, b).boolE(d.rely)
				gq = ex.stepEv(st, vars, a, b).boolE(d.guar)
			}); e != "" {
				panic(unsupported(e))
			}
			ex.check(st, "the steps of others on "+sc.d.name+" are those "+ct.fn+" expects", c.Imp(rc, rq))
			ex.check(st, "every write to "+sc.d.name+" is a permitted step", c.Imp(gq, gc))
			o := st.mut(ex.ghostObj[sc.added])
			if t := vars["added_"+d.name]; t != nil {
				o.seq = ex.wrap64(c.Add(o.seq, t))
			} else {
				o.seq = c.Fresh("added", c.Int())
			}
		}
		st.store(p, st.fromDeep(ex.freshDeep("shared_"+d.name, st.typeOfPtr(p)), st.typeOfPtr(p), false, d.name))
		done["added_"+d.name] = true
	}
}

// checkMemo: the fields a function keeps a result in ("memo p.Field") are touched by no other function, so that
// callers need not know they change.
func (ex *Exec) checkMemo(fn *ssa.Function, ct *Contract) {
	for _, cl := range ct.clauses {
		if cl.kind != "memo" {
			continue
		}
		base, field, _ := strings.Cut(cl.name, ".")
		i := ct.paramIndex(base)
		if i < 0 {
			panic(unsupported("memo " + cl.name))
		}
		pt, ok := fn.Params[i].Type().Underlying().(*types.Pointer)
		if !ok {
			panic(unsupported("memo " + cl.name))
		}
		o := ex.ob("only " + ct.fn + " touches " + field)
		o.N++
		for _, f := range ex.p.funcs {
			if f == fn || !ex.p.inRepo(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var s types.Type
					k := -1
					switch x := in.(type) {
					case *ssa.FieldAddr:
						s, k = x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field
					case *ssa.Field:
						s, k = x.X.Type(), x.Field
					}
					if k >= 0 && types.Identical(s, pt.Elem()) && s.Underlying().(*types.Struct).Field(k).Name() == field {
						o.Failed++
						o.Msg = ex.p.fnName(f) + " uses it"
						return
					}
				}
			}
		}
		ex.assumption("the data a memo field is computed from is not replaced after the memo was filled")
	}
}
