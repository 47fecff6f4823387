package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Result1 struct {
	Name        string
	Kind        string // function, lemma, definition
	Obs         []*Obligation
	Failed      []*Obligation
	Err         string
	Used        []string
	Lemmas      []string
	Inlined     []string
	Assumptions []string
	Trusted     []string
	Paths       int
	Exits       int
	SolverMs    int64
	Queries     int
	Hits        int
	Ms          int64
	Covers      []string
	By          map[string]int
	Absent      bool
	Pos         string
}

func keys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (ex *Exec) finish(res *Result1, t0 time.Time) {
	for _, n := range ex.obOrder {
		o := ex.obs[n]
		res.Obs = append(res.Obs, o)
		if o.Failed > 0 {
			res.Failed = append(res.Failed, o)
		}
	}
	res.Used = keys(ex.used)
	res.Lemmas = keys(ex.usedLemmas)
	res.Inlined = keys(ex.inlined)
	res.Assumptions = keys(ex.assumptions)
	res.Trusted = keys(ex.trusted)
	res.Covers = keys(ex.covers)
	res.Paths = ex.paths
	res.SolverMs = ex.solver.Time.Milliseconds()
	res.Queries = ex.solver.Queries
	res.Hits = ex.solver.Hits
	res.Ms = time.Since(t0).Milliseconds()
	res.By = ex.solver.fallback
	ex.solver.Close()
}

// verifyFn checks one function of the program against its contract.
func verifyFn(p *Prog, db *SpecDB, ct *Contract, limit time.Duration, breakBody bool) (res *Result1) {
	t0 := time.Now()
	ex := newExec(p, db, ct.bv)
	if ct.headers {
		ex.initHeaders()
	}
	ex.deadline = t0.Add(limit)
	ex.ct = ct
	ex.breakBody = breakBody
	res = &Result1{Name: ct.fn, Kind: "function", Pos: ct.pos}
	defer func() {
		if x := recover(); x != nil {
			switch e := x.(type) {
			case unsupportedErr:
				res.Err = e.msg
			case specErr:
				res.Err = "specification: " + e.msg
			case goPanic:
				res.Err = "stops: " + e.msg
			default:
				res.Err = fmt.Sprintf("internal error: %v", x)
				if debugProve {
					panic(x)
				}
			}
		}
		if res.Err == "" && ex.entry != nil && (ex.dry != 0 || ex.safe != ex.entrySafe) {
			res.Err = "internal error: checking was switched off part of the way"
		}
		if res.Err != "" {
			o := ex.ob("the function is within the verifier's reach")
			o.N++
			o.Failed++
			o.Msg = res.Err
		}
		ex.finish(res, t0)
	}()
	fn := p.funcs[ct.fn]
	if fn == nil || fn.Blocks == nil {
		res.Absent = true
		panic(unsupported("function " + ct.fn + " not found in the program"))
	}
	ex.fn = fn
	if len(ct.params) != len(fn.Params) {
		panic(unsupported(fmt.Sprintf("contract has %d parameters, the function %d", len(ct.params), len(fn.Params))))
	}
	ex.numberLoops(fn, "", map[*ssa.Function]bool{})
	c := ex.c
	st := ex.newState()
	st.quick = false
	fr := &Frame{fn: fn, regs: map[ssa.Value]Value{}, names: map[string]Value{}, loops: map[*ssa.BasicBlock]*LoopAct{}, unroll: map[*ssa.BasicBlock]int{}}
	if fn.Parent() != nil {
		fr.key = ""
	}
	st.frames = []*Frame{fr}
	ex.entryVals = map[string]*Term{}
	for _, g := range db.ghosts {
		o := st.newObj(OGhost, g.name, nil)
		o.seq = c.Var("ghost_"+g.name, ex.specSort(g.typ))
		ex.ghostObj[g.name] = o.id
		ex.entryVals[g.name] = o.seq
	}
	var ats []types.Type
	mkArg := func(name string, t types.Type, isRecv bool) Value {
		switch u := t.Underlying().(type) {
		case *types.Chan:
			o := st.newObj(OChanObj, name, u.Elem())
			o.elemS = ex.elemSort(u.Elem())
			s := c.Seq(o.elemS)
			o.seq = c.Empty(s)
			o.seq2 = c.Var("recv_"+name, s)
			o.n = c.zero
			ex.chans[name] = o.id
			ex.entryVals["recv_"+name] = o.seq2
			return &RefV{obj: o.id, isnil: c.F}
		case *types.Pointer:
			s := ex.deepSort(t)
			if s.kind == KUn {
				return c.Var("p_"+name, s)
			}
			if ct.nilable[name] {
				return st.fromDeep(c.Var("p_"+name, s), t, false, name)
			}
			return st.fromDeep(c.Mk(s, c.F, c.Var("p_"+name, s.fields[1].sort)), t, false, name)
		}
		return st.fromDeep(c.Var("p_"+name, ex.deepSort(t)), t, false, name)
	}
	for i, prm := range fn.Params {
		v := mkArg(ct.params[i], prm.Type(), i == 0 && fn.Signature.Recv() != nil)
		fr.regs[prm] = v
		fr.names[prm.Name()] = v
		ex.entryArgs = append(ex.entryArgs, v)
		ats = append(ats, prm.Type())
	}
	ex.assumption("pointer parameters are not nil and parameters do not overlap in memory unless the contract says so; slices are shorter than 2^48")
	var fvTypes []types.Type
	for _, fv := range fn.FreeVars {
		t := fv.Type().Underlying().(*types.Pointer).Elem()
		o := st.newObj(OCell, fv.Name(), t)
		o.val = mkArg(fv.Name(), t, false)
		b := &PtrV{obj: o.id}
		fr.binds = append(fr.binds, b)
		fr.names["&"+fv.Name()] = b
		fvTypes = append(fvTypes, t)
	}
	deepVars := func(s *State) map[string]*Term {
		m := map[string]*Term{}
		for i, a := range ex.entryArgs {
			switch ats[i].Underlying().(type) {
			case *types.Chan:
				continue
			case *types.Signature:
				if ct.payloadOf(ct.params[i]) != "" {
					continue
				}
			}
			m[ct.params[i]] = s.argDeep(a, ats[i])
		}
		for i, fv := range fn.FreeVars {
			switch fvTypes[i].Underlying().(type) {
			case *types.Chan, *types.Signature:
				continue
			}
			m[fv.Name()] = s.argDeep(s.load(fr.binds[i].(*PtrV)), fvTypes[i])
		}
		return m
	}
	for k, v := range deepVars(st) {
		ex.entryVals[k] = v
	}
	sharedPtr := func(n string) Value {
		for i, q := range ct.params {
			if q == n {
				return ex.entryArgs[i]
			}
		}
		for i, fv := range fn.FreeVars {
			if fv.Name() == n {
				return st.load(fr.binds[i].(*PtrV))
			}
		}
		return nil
	}
	ex.initShared(st, ct, sharedPtr)
	ex.checkMemo(fn, ct)
	for i, prm := range ct.params {
		if n := ct.payloadOf(prm); n != "" {
			f := ex.entryArgs[i].(*Term)
			st.assume(c.Not(ex.isNilFn(f)))
			P := ex.fnPayload(f)
			ex.payloads[n] = P
			ex.entryVals[n] = P
			ex.assumption("a function passed as " + prm + " only appends its payload to the buffer it is given (checked at every call site)")
		}
	}
	for i, a := range ex.entryArgs {
		if f, ok := a.(*Term); ok && f.sort.kind == KUn && f.sort.name == "Fn" {
			if prm := fn.Params[i]; isEmbedder0(prm.Type()) {
				st.assume(c.Not(ex.isNilFn(f)))
			}
		}
	}
	pre := &Ev{st: st, dec: st.decide, vars: ex.entryVals}
	ex.safe = c.T
	nsafe := 0
	for _, cl := range ct.clauses {
		switch cl.kind {
		case "requires":
			st.assume(pre.boolE(cl.e))
		}
	}
	for _, cl := range ct.clauses {
		if cl.kind == "safe" {
			t := pre.boolE(cl.e)
			if nsafe == 0 {
				ex.safe = t
			} else {
				ex.safe = c.And(ex.safe, t)
			}
			nsafe++
		}
	}
	for _, u := range ct.lemmas {
		if !mentionsResult(u) {
			st.useLemma(u, ex.entryVals, nil)
		}
	}
	if st.infeasible() {
		o := ex.ob("precondition is satisfiable")
		o.N++
		o.Failed++
		o.Msg = "the precondition is contradictory"
		return
	}
	ex.entry, ex.entrySafe = st.clone(), ex.safe
	fr.block = fn.Blocks[0]
	r := &runner{}
	r.onExit = func(s *State, rs []Value) {
		res.Exits++
		if !s.infeasible() {
			ex.covers["normal return"] = true
		}
		if ex.breakBody && res.Exits > 0 {
			rs = ex.corrupt(s, rs, fn)
		}
		ex.atExit(s, rs, deepVars, ats)
	}
	ex.run(st, r)
	o := ex.ob("some execution returns normally")
	o.N++
	if !ex.covers["normal return"] {
		if ct.neverReturns {
		} else {
			o.Failed++
			o.Msg = "no normal return is reachable: the contract would hold vacuously"
		}
	}
	return
}

func isEmbedder0(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	return ok && isEmbedder(s)
}

// canCorrupt: the self-test knows how to damage what the function returns or changes.
func canCorrupt(p *Prog, ct *Contract) bool {
	fn := p.funcs[ct.fn]
	if fn == nil || len(ct.clauses) == 0 {
		return false
	}
	for _, c := range ct.clauses {
		if c.kind == "returns" || c.kind == "appends" {
			return true
		}
		if c.kind == "sets" {
			return true
		}
	}
	return false
}

// corrupt damages the first result, or what the first "sets" clause of the contract names: a check that still
// passes proves nothing.
func (ex *Exec) corrupt(s *State, rs []Value, fn *ssa.Function) []Value {
	out := append([]Value{}, rs...)
	c := ex.c
	damage := func(x Value, t types.Type) Value {
		d := s.argDeep(x, t)
		if d == nil {
			return nil
		}
		switch v := x.(type) {
		case *Term:
			switch v.sort.kind {
			case KInt:
				return c.Add(v, c.one)
			case KBool:
				return c.Not(v)
			case KSeq:
				junk := c.Fresh("junk", v.sort)
				s.assume(c.Eq(c.Len(junk), c.one))
				return c.Cat(v.sort, v, junk)
			}
		case *SliceV:
			els := s.sliceEls(v)
			junk := c.Fresh("junk", els.sort)
			s.assume(c.Eq(c.Len(junk), c.one))
			return s.appendTo(v, junk, s.objs[v.arr].typ)
		}
		return s.fromDeep(c.Fresh("junk", d.sort), t, false, "junk")
	}
	if len(out) > 0 {
		if v := damage(out[0], fn.Signature.Results().At(0).Type()); v != nil {
			out[0] = v
			return out
		}
	}
	for _, cl := range ex.ct.clauses {
		if cl.kind != "sets" {
			continue
		}
		if id, ok := ex.ghostObj[cl.name]; ok {
			o := s.mut(id)
			o.seq = c.Fresh("junk", o.seq.sort)
			return out
		}
		base := strings.Split(cl.name, ".")[0]
		i := ex.ct.paramIndex(base)
		if i < 0 {
			continue
		}
		switch v := ex.entryArgs[i].(type) {
		case *PtrV:
			t := s.typeOfPtr(v)
			s.store(v, s.fromDeep(c.Fresh("junk", ex.deepSort(t)), t, false, "junk"))
			return out
		case *SliceV:
			s.havocArr(v.arr, "junk")
			return out
		}
	}
	return out
}

func (ex *Exec) atExit(s *State, rs []Value, deepVars func(*State) map[string]*Term, ats []types.Type) {
	c := ex.c
	ct := ex.ct
	fn := ex.fn
	sig := fn.Signature
	for _, d := range ct.shared {
		for id, sc := range ex.sharedCells {
			if sc.d == d {
				s.envStep(&PtrV{obj: id}, sc)
			}
		}
	}
	vars := mergeVars(nil, ex.entryVals)
	now := deepVars(s)
	for k := range rs {
		t := s.argDeep(rs[k], sig.Results().At(k).Type())
		vars[fmt.Sprintf("result%d", k)] = t
		if len(rs) == 1 {
			vars["result"] = t
		}
	}
	ev := &Ev{st: s, dec: s.decide, vars: vars}
	ev.lookup = func(n string) *Term { return s.ghostName(n) }
	ev.old = &Ev{st: s, dec: s.decide, vars: ex.entryVals}
	nvars := mergeVars(nil, vars)
	for k, v := range now {
		nvars[k] = v
	}
	for g, id := range ex.ghostObj {
		nvars[g] = s.objs[id].seq
	}
	ev.new_ = &Ev{st: s, dec: s.decide, vars: nvars, lookup: ev.lookup}
	fail := func(name, err string) { ex.fail(s, name, err) }
	written := map[string][]string{}
	freshResult := map[int]bool{}
	for i := 0; i < len(rs); i++ {
		freshResult[i] = true
	}
	// lemmas about the results
	for _, u := range ct.lemmas {
		if mentionsResult(u) {
			if e := guardSpec(func() { s.useLemmaEv(u, ev, nil) }); e != "" {
				fail("use", e)
			}
		}
	}
	for i, cl := range ct.clauses {
		nm := cl.label
		if nm == "" {
			nm = cl.kind
			if cl.kind == "ensures" {
				nm = fmt.Sprintf("postcondition %d", i)
			}
		}
		switch cl.kind {
		case "sets", "havocs", "memo":
			base := strings.Split(cl.name, ".")[0]
			written[base] = append(written[base], cl.name)
		}
		switch cl.kind {
		case "ensures":
			var t *Term
			if e := guardSpec(func() { t = ev.boolE(cl.e) }); e != "" {
				fail(nm, e)
				continue
			}
			ex.check(s, nm, t)
		case "returns":
			for k, e := range returnList(cl) {
				n := nm
				if k > 0 || len(returnList(cl)) > 1 {
					n = fmt.Sprintf("%s %d", nm, k)
				}
				if k >= len(rs) {
					fail(n, "the function has fewer results")
					continue
				}
				var t *Term
				if e := guardSpec(func() {
					want := ev.eval(e)
					t = ev.eq(vars[fmt.Sprintf("result%d", k)], coerceEq(ev, want, vars[fmt.Sprintf("result%d", k)].sort))
				}); e != "" {
					fail(n, e)
					continue
				}
				ex.check(s, n, t)
			}
		case "appends":
			var t *Term
			if e := guardSpec(func() {
				b := ev.els(ex.entryVals[cl.name])
				t = ev.eq(ev.els(vars["result0"]), c.Cat(b.sort, b, ev.els(ev.eval(cl.e))))
			}); e != "" {
				fail(nm, e)
				continue
			}
			ex.check(s, nm, t)
			if e := s.ownedBy(rs[0].(*SliceV), ex.entryArgs, ct.paramIndex(cl.name), ex.entry); e != "" {
				fail("memory ownership", e)
			} else {
				ex.ob("memory ownership").N++
			}
			freshResult[0] = false
		case "aliases":
			k := resultIndex(cl.name)
			se := cl.e.(*ast.SliceExpr)
			i := ct.paramIndex(se.X.(*ast.Ident).Name)
			src := ex.entryArgs[i].(*SliceV)
			got, ok := rs[k].(*SliceV)
			if !ok || got.arr != src.arr {
				// a copy with the same content is as good for every caller that does not write through it
				fail("result is a view of "+ct.params[i], "the result does not share the memory of "+ct.params[i])
				continue
			}
			lo, hi := c.zero, src.len
			if e := guardSpec(func() {
				if se.Low != nil {
					lo = ev.val(ev.eval(se.Low))
				}
				if se.High != nil {
					hi = ev.val(ev.eval(se.High))
				}
			}); e != "" {
				fail(nm, e)
				continue
			}
			ex.check(s, "result is a view of "+ct.params[i], c.And(c.Eq(got.off, c.Add(src.off, lo)), c.Eq(got.len, c.Sub2(hi, lo))))
			freshResult[k] = false
		case "sets":
			var t *Term
			if e := guardSpec(func() {
				have := nvars[cl.name]
				if id, ok := ex.ghostObj[cl.name]; ok {
					have = s.objs[id].seq
				} else if have == nil {
					parts := strings.Split(cl.name, ".")
					have = nvars[parts[0]]
					if have == nil {
						panic(specErr{"unknown " + cl.name})
					}
					for _, f := range parts[1:] {
						have = c.Get(ev.val(have), f)
					}
				}
				have = ev.val2(have, c.Int())
				want := ev.val2(ev.eval(cl.e), c.Int())
				t = ev.eq(have, coerceEq(ev, want, have.sort))
			}); e != "" {
				fail(nm+" "+cl.name, e)
				continue
			}
			ex.check(s, nm+" "+cl.name, t)
		}
	}
	// frame: what the contract does not mention is unchanged
	for i, prm := range ct.params {
		a, ok1 := ex.entryVals[prm]
		b, ok2 := now[prm]
		if !ok1 || !ok2 || a == b || ct.sharedOf(prm) != nil {
			continue
		}
		ex.frameCheck(s, prm, a, b, written[prm], ats[i])
	}
	for _, fv := range fn.FreeVars {
		a, ok1 := ex.entryVals[fv.Name()]
		b, ok2 := now[fv.Name()]
		if ok1 && ok2 && a != b && ct.sharedOf(fv.Name()) == nil {
			ex.frameCheck(s, fv.Name(), a, b, written[fv.Name()], nil)
		}
	}
	for g, id := range ex.ghostObj {
		if len(written[g]) == 0 && s.objs[id].seq != ex.entryVals[g] {
			ex.check(s, "frame: ghost "+g+" is unchanged", c.Eq(s.objs[id].seq, ex.entryVals[g]))
		}
	}
	for g, id := range s.glob {
		o := s.objs[id]
		e0 := ex.entry.glob[g]
		var was *Term
		t := g.Type().Underlying().(*types.Pointer).Elem()
		if e0 != 0 {
			was = s.toDeep(ex.entry.objs[e0].val, t, false)
		} else {
			was = c0(c, "glob_"+g.String(), ex.deepSort(t))
			if ex.p.constGlobals[g] {
				continue
			}
		}
		is := s.toDeep(o.val, t, false)
		if is != was {
			if len(written["global"]) > 0 {
				continue
			}
			ex.check(s, "frame: global "+g.Name()+" is unchanged", ex.eqT(was, is))
		}
	}
	// results must not share memory with parameters unless declared
	for i := range rs {
		if sl, ok := rs[i].(*SliceV); ok && ct.exact {
			ex.check(s, "the result has no spare capacity", c.Eq(sl.len, sl.cap))
		}
		if sl, ok := rs[i].(*SliceV); ok && freshResult[i] && !ct.shares {
			if e := s.ownedBy(sl, ex.entryArgs, -1, ex.entry); e != "" {
				fail("memory ownership", e)
			}
		}
	}
}

func coerceEq(ev *Ev, t *Term, s *Sort) *Term {
	if t.sort.kind == KInt && s.kind == KBV && t.ival != nil {
		return ev.st.ex.bvBig(t.ival, s.bits)
	}
	return t
}

func (ex *Exec) frameCheck(s *State, prm string, a, b *Term, written []string, t types.Type) {
	c := ex.c
	ev := &Ev{st: s, dec: s.decide}
	for _, w := range written {
		if w == prm {
			return
		}
	}
	if len(written) > 0 {
		a, b = ev.val(a), ev.val(b)
		for _, w := range written {
			f := strings.Split(w, ".")[1]
			a = c.With(a, f, c.Get(b, f))
		}
	}
	var g *Term
	if e := guardSpec(func() { g = ev.eq(a, b) }); e != "" {
		ex.fail(s, "frame: "+prm+" is unchanged", e)
		return
	}
	ex.check(s, "frame: "+prm+" is unchanged", g)
}

// ownedBy: the array of a result is new, or (own >= 0) grown from parameter own.
func (st *State) ownedBy(sl *SliceV, args []Value, own int, entry *State) string {
	if sl.isnil.op == OTrue {
		return ""
	}
	id := sl.arr
	for id >= 0 {
		if _, inEntry := entry.objs[id]; inEntry {
			if own >= 0 {
				if p, ok := args[own].(*SliceV); ok && p.arr == id {
					return ""
				}
			}
			if st.ex.c.Eq(sl.cap, st.ex.c.zero).op == OTrue {
				return ""
			}
			return "the result shares memory with " + st.objs[id].name
		}
		o := st.objs[id]
		if o == nil || o.parent < 0 {
			return ""
		}
		id = o.parent
	}
	return ""
}

// ---------------------------------------------------------------- lemmas

// useLemma assumes an instance of a proved lemma.
func (st *State) useLemma(e ast.Expr, vars map[string]*Term, self func(s *State, l *Lemma, args map[string]*Term) bool) {
	st.useLemmaEv(e, &Ev{st: st, dec: st.decide, vars: vars}, self)
}

func (st *State) useLemmaEv(e ast.Expr, ev *Ev, self func(s *State, l *Lemma, args map[string]*Term) bool) {
	ex := st.ex
	ce, ok := e.(*ast.CallExpr)
	if !ok {
		panic(specErr{"use expects lemma(args)"})
	}
	name := ce.Fun.(*ast.Ident).Name
	if name == "imp" || name == "if" {
		cond := ev.boolE(ce.Args[0])
		if st.no(cond) {
			return
		}
		if !st.yes(cond) {
			s2 := st.clone()
			s2.assume(cond)
			n := len(s2.pc)
			ev2 := *ev
			ev2.st, ev2.dec = s2, s2.decide
			s2.useLemmaEv(ce.Args[1], &ev2, self)
			for _, x := range s2.pc[n:] {
				st.assume(ex.c.Imp(cond, x))
			}
			return
		}
		st.useLemmaEv(ce.Args[1], ev, self)
		return
	}
	l := ex.db.lemmas[name]
	if l == nil {
		panic(specErr{"unknown lemma " + name})
	}
	if len(ce.Args) != len(l.params) {
		panic(specErr{"lemma " + name + ": argument count"})
	}
	args := map[string]*Term{}
	for i, a := range ce.Args {
		args[l.params[i].name] = ev.coerce(ev.eval(a), ex.specSort(l.params[i].typ))
	}
	if self != nil && !self(st, l, args) {
		return
	}
	lev := &Ev{st: st, dec: st.decide, vars: args}
	for _, rq := range l.req {
		ex.check(st, "premise of lemma "+l.name, lev.boolE(rq))
	}
	rule := func(x, y *Term) {
		n := map[int]*Term{x.id: y}
		for k, v := range st.rw {
			if k != x.id {
				n[k] = v
			}
		}
		st.rw = n
	}
	for _, en := range l.ens {
		st.assume(lev.boolE(en))
		if be, ok := en.(*ast.BinaryExpr); ok && be.Op == token.EQL {
			if _, ok := be.X.(*ast.CallExpr); ok {
				x, y := lev.eval(be.X), lev.eval(be.Y)
				if x.op == OApp && (x.sort.kind == KInt && y.sort.kind == KInt || x.sort.kind == KRec && x.sort == y.sort && !(y.op == OApp && y.name == x.name)) && !contains(y, x) {
					rule(x, y)
				}
			}
		} else if _, ok := en.(*ast.CallExpr); ok {
			if x := lev.eval(en); x.op == OApp && !isQuant(x) {
				rule(x, ex.c.T)
			}
		}
	}
	ex.usedLemmas[l.name] = true
	if l.trusted {
		ex.trust("axiom " + l.name + " (" + l.pos + ")")
	}
}

func proveLemma(p *Prog, db *SpecDB, l *Lemma, limit time.Duration) (res *Result1) {
	t0 := time.Now()
	ex := newExec(p, db, l.bv)
	ex.deadline = t0.Add(limit)
	ex.safe = ex.c.F
	res = &Result1{Name: "lemma " + l.name, Kind: "lemma", Pos: l.pos}
	ex.lemmaOff = func(m *Lemma) bool { return m.ord >= l.ord }
	defer func() {
		if x := recover(); x != nil {
			switch e := x.(type) {
			case unsupportedErr:
				res.Err = e.msg
			case specErr:
				res.Err = e.msg
			default:
				res.Err = fmt.Sprintf("internal error: %v", x)
				if debugProve {
					panic(x)
				}
			}
			o := ex.ob("lemma is within the verifier's reach")
			o.N++
			o.Failed++
			o.Msg = res.Err
		}
		ex.finish(res, t0)
	}()
	c := ex.c
	st := ex.newState()
	vars := map[string]*Term{}
	for _, pr := range l.params {
		vars[pr.name] = c.Var("l_"+pr.name, ex.specSort(pr.typ))
	}
	ev := &Ev{st: st, dec: st.decide, vars: vars}
	for _, rq := range l.req {
		st.assume(ev.boolE(rq))
	}
	if st.infeasible() {
		o := ex.ob("premises are satisfiable")
		o.N++
		o.Failed++
		o.Msg = "contradictory premises"
		return
	}
	var branches func(s *State, splits []ast.Expr)
	branches = func(s *State, splits []ast.Expr) {
		if len(splits) > 0 {
			e := &Ev{st: s, dec: s.decide, vars: vars}
			cond := e.boolE(splits[0])
			a := s.clone()
			a.assume(cond)
			if !a.infeasible() {
				branches(a, splits[1:])
			}
			s.assume(c.Not(cond))
			if !s.infeasible() {
				branches(s, splits[1:])
			}
			return
		}
		e := &Ev{st: s, dec: s.decide, vars: vars}
		rw := map[*Term]*Term{}
		for _, u := range l.unfold {
			ce := u.(*ast.CallExpr)
			f := db.fns[ce.Fun.(*ast.Ident).Name]
			as := e.args(ce)
			for i := range as {
				as[i] = e.coerce(as[i], ex.specSort(f.params[i].typ))
			}
			b := e.body(f, as)
			s.assume(ex.eqT(ex.appOf(f, as), b))
			rw[ex.appOf(f, as)] = b
		}
		for _, u := range l.use {
			s.useLemma(u, vars, func(s *State, m *Lemma, args map[string]*Term) bool {
				if m == l {
					if l.dec == nil {
						panic(specErr{"induction without decreases"})
					}
					d0 := (&Ev{st: s, dec: s.decide, vars: vars}).val(e.eval(l.dec))
					d1 := (&Ev{st: s, dec: s.decide, vars: args}).eval(l.dec)
					return ex.check(s, "induction is well-founded", c.And(c.Le(c.zero, d1), c.Lt(d1, d0)))
				}
				if m.ord >= l.ord {
					panic(specErr{"lemma " + m.name + " is not proved before " + l.name})
				}
				return true
			})
		}
		for i, en := range l.ens {
			g := (&Ev{st: s, dec: s.decide, vars: vars}).boolE(en)
			if len(rw) > 0 {
				g = s.subst(g, rw)
			}
			if ex.check(s, fmt.Sprintf("conclusion %d", i), g) {
				s.assume(g)
			}
		}
	}
	branches(st, l.split)
	return
}

// checkFn verifies that a recursive specification function is well defined: its measure falls at every
// recursive call and stays non-negative.
func checkFn(p *Prog, db *SpecDB, f *FnDef, limit time.Duration) (res *Result1) {
	t0 := time.Now()
	ex := newExec(p, db, false)
	ex.deadline = t0.Add(limit)
	ex.safe = ex.c.F
	ex.lemmaOff = func(m *Lemma) bool { return m.ord >= f.ord }
	res = &Result1{Name: "definition " + f.name, Kind: "definition", Pos: f.pos}
	defer func() {
		if x := recover(); x != nil {
			if debugProve {
				panic(x)
			}
			o := ex.ob("definition is well-formed")
			o.N++
			o.Failed++
			o.Msg = fmt.Sprint(x)
		}
		ex.finish(res, t0)
	}()
	c := ex.c
	st := ex.newState()
	vars := map[string]*Term{}
	for _, pr := range f.params {
		vars[pr.name] = c.Var("d_"+pr.name, ex.specSort(pr.typ))
	}
	scc := func(g *FnDef) bool {
		return g == f || (g.body != nil && db.reaches(g, f.name, map[string]bool{}) && db.reaches(f, g.name, map[string]bool{}))
	}
	d0 := (&Ev{st: st, dec: st.decide, vars: vars}).eval(f.dec)
	// the result must fit its declared type
	var walk func(s *State, e ast.Expr, vs map[string]*Term)
	walk = func(s *State, e ast.Expr, vs map[string]*Term) {
		ev := func() *Ev { return &Ev{st: s, dec: s.decide, vars: vs} }
		switch x := e.(type) {
		case *ast.CallExpr:
			id, _ := x.Fun.(*ast.Ident)
			if id != nil {
				switch id.Name {
				case "ite":
					walk(s, x.Args[0], vs)
					cond := ev().boolE(x.Args[0])
					a := s.clone()
					a.assume(cond)
					if !a.infeasible() {
						walk(a, x.Args[1], vs)
					}
					b := s.clone()
					b.assume(c.Not(cond))
					if !b.infeasible() {
						walk(b, x.Args[2], vs)
					}
					return
				case "imp":
					walk(s, x.Args[0], vs)
					a := s.clone()
					a.assume(ev().boolE(x.Args[0]))
					if !a.infeasible() {
						walk(a, x.Args[1], vs)
					}
					return
				case "let":
					walk(s, x.Args[1], vs)
					v := ev().eval(x.Args[1])
					walk(s, x.Args[2], mergeVars(map[string]*Term{x.Args[0].(*ast.Ident).Name: v}, vs))
					return
				case "forall":
					walk(s, x.Args[1], vs)
					walk(s, x.Args[2], vs)
					k := c.Fresh("k", c.Int())
					a := s.clone()
					a.assume(c.And(c.Le(ev().eval(x.Args[1]), k), c.Lt(k, ev().eval(x.Args[2]))))
					walk(a, x.Args[3], mergeVars(map[string]*Term{x.Args[0].(*ast.Ident).Name: k}, vs))
					return
				}
				if g := db.fns[id.Name]; g != nil {
					for _, a := range x.Args {
						walk(s, a, vs)
					}
					if g.body != nil && scc(g) {
						args := map[string]*Term{}
						for i, a := range x.Args {
							args[g.params[i].name] = ev().coerce(ev().eval(a), ex.specSort(g.params[i].typ))
						}
						if g.rec && g.dec != nil {
							d1 := (&Ev{st: s, dec: s.decide, vars: args}).eval(g.dec)
							ex.check(s, "measure of "+g.name+" decreases", c.And(c.Le(c.zero, d1), c.Lt(d1, d0)))
						} else if g != f {
							walk(s, g.body, args)
						}
					}
					return
				}
			}
			for i, a := range x.Args {
				if id != nil && id.Name == "with" && i%2 == 1 {
					continue
				}
				if id != nil && (id.Name == "mk" || id.Name == "emptyof" || id.Name == "zero") && i == 0 {
					continue
				}
				walk(s, a, vs)
			}
		case *ast.BinaryExpr:
			walk(s, x.X, vs)
			if x.Op.String() == "&&" || x.Op.String() == "||" {
				cond := ev().boolE(x.X)
				if x.Op.String() == "||" {
					cond = c.Not(cond)
				}
				a := s.clone()
				a.assume(cond)
				if !a.infeasible() {
					walk(a, x.Y, vs)
				}
				return
			}
			walk(s, x.Y, vs)
		case *ast.ParenExpr:
			walk(s, x.X, vs)
		case *ast.UnaryExpr:
			walk(s, x.X, vs)
		case *ast.SelectorExpr:
			walk(s, x.X, vs)
		case *ast.IndexExpr:
			walk(s, x.X, vs)
			walk(s, x.Index, vs)
		case *ast.SliceExpr:
			walk(s, x.X, vs)
			if x.Low != nil {
				walk(s, x.Low, vs)
			}
			if x.High != nil {
				walk(s, x.High, vs)
			}
		}
	}
	walk(st, f.body, vars)
	return
}
