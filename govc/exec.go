package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	Name   string
	N      int // path instances
	Failed int
	Msg    string
	Model  []string
	By     string
}

type Exec struct {
	p          *Prog
	c          *Ctx
	db         *SpecDB
	solver     *Solver
	bv         bool
	sortCache  map[types.Type]*Sort
	inProgress map[string]bool
	tags       map[string]int
	modPath    string
	factsDone  map[int]bool
	usedLemmas map[string]bool
	lemmaOff   func(*Lemma) bool
	quants     []*quantDef
	quantIdx   map[string]int
	fallbackOK bool
	dry        int

	fn          *ssa.Function
	ct          *Contract
	obs         map[string]*Obligation
	obOrder     []string
	assumptions map[string]bool
	trusted     map[string]bool
	inlined     map[string]bool
	used        map[string]bool // contracts applied
	covers      map[string]bool // reachability witnesses
	loopIds     map[string]int
	paths       int
	deadline    time.Time
	entry       *State
	entryVals   map[string]*Term
	entryArgs   []Value
	safe        *Term
	payloads    map[string]*Term
	closedCh    map[int]bool
	entrySafe   *Term // ex.safe as it was when the body began
	breakBody   bool
	steps       int
	globInit    *State
	ghostObj    map[string]int
	sharedCells map[int]*sharedCell
	chans       map[string]int
	loopMemo    map[string]*loopMemo
	memoChanged int
	headers     bool // slices and empty interfaces are the machine words they consist of
	hdrSlice    types.Type
	hdrIface    types.Type
}

func newExec(p *Prog, db *SpecDB, bv bool) *Exec {
	ex := &Exec{p: p, c: newCtx(), db: db, bv: bv, sortCache: map[types.Type]*Sort{}, inProgress: map[string]bool{}, tags: map[string]int{},
		modPath: p.modPath, factsDone: map[int]bool{}, usedLemmas: map[string]bool{}, quantIdx: map[string]int{},
		obs: map[string]*Obligation{}, assumptions: map[string]bool{}, trusted: map[string]bool{}, inlined: map[string]bool{},
		used: map[string]bool{}, covers: map[string]bool{}, loopIds: map[string]int{}, payloads: map[string]*Term{}, fallbackOK: true, ghostObj: map[string]int{}, sharedCells: map[int]*sharedCell{}, chans: map[string]int{}, loopMemo: map[string]*loopMemo{}}
	ex.c.spec = db
	if len(db.literal) > 0 {
		ex.c.foldApp = func(t *Term) *Term {
			if !db.literal[t.name] || len(t.args) == 0 || t.args[0].op != OInt {
				return t
			}
			st := ex.newState()
			st.quick = true
			if r, _ := st.unfoldApp(t); r != nil {
				return r
			}
			return t
		}
	}
	ex.solver = newSolver(ex.c, "z3-new", 4000)
	ex.solver.oneshot = bv
	ex.solver.expired = ex.timedOut
	return ex
}

func (ex *Exec) assumption(m string) {
	if ex.dry == 0 {
		ex.assumptions[m] = true
	}
}

func (ex *Exec) ob(name string) *Obligation {
	o := ex.obs[name]
	if o == nil {
		o = &Obligation{Name: name}
		ex.obs[name] = o
		ex.obOrder = append(ex.obOrder, name)
	}
	return o
}

// check records and discharges one obligation instance.
func (ex *Exec) check(st *State, name string, g *Term) bool {
	if ex.dry > 0 {
		return true
	}
	o := ex.ob(name)
	o.N++
	if ex.timedOut() {
		o.Failed++
		o.Msg = "time limit"
		return false
	}
	if debugLoops {
		t0 := time.Now()
		defer func() { fmt.Fprintf(os.Stderr, "CHECK %s: %v (o.Failed %d)\n", name, time.Since(t0), o.Failed) }()
	}
	s2 := st.clone()
	if s2.prove(g) {
		return true
	}
	if s3, g3 := st.solved(g); s3 != nil && s3.prove(g3) {
		return true
	}
	o.Failed++
	if o.Msg == "" {
		o.Msg = trunc("cannot prove "+ex.c.str(g), 1500)
		o.Model = ex.modelOf(st, g)
		if debugProve {
			fmt.Fprintf(os.Stderr, "FAILED %s\n  goal %s\n", name, trunc(ex.c.str(g), 3000))
			for _, p := range st.pc {
				fmt.Fprintf(os.Stderr, "    pc: %s\n", trunc(ex.c.str(p), 600))
			}
			if s3, g3 := st.solved(g); s3 != nil {
				fmt.Fprintf(os.Stderr, "  solved goal %s\n", trunc(ex.c.str(g3), 3000))
				for _, p := range s3.pc {
					fmt.Fprintf(os.Stderr, "    spc: %s\n", trunc(ex.c.str(p), 900))
				}
			}
			fmt.Fprintf(os.Stderr, "    trace %v\n", st.trace)
		}
	}
	return false
}

// solved eliminates the variables the path condition defines by an equation.
func (st *State) solved(g *Term) (*State, *Term) {
	m := map[*Term]*Term{}
	for _, p := range st.pc {
		if p.op != OEq {
			continue
		}
		switch p.args[0].sort.kind {
		case KSeq, KUn, KRec:
		default:
			continue
		}
		a, b := p.args[0], p.args[1]
		if len(m) > 0 {
			a, b = st.subst(a, m), st.subst(b, m)
		}
		atom := func(t *Term) bool {
			for t.op == OField {
				t = t.args[0]
			}
			return t.op == OVar
		}
		if !atom(a) {
			a, b = b, a
		}
		if !atom(a) || a == b {
			continue
		}
		occurs := false
		collect([]*Term{b}, func(x *Term) { occurs = occurs || x == a })
		if occurs {
			continue
		}
		for k, v := range m {
			m[k] = st.subst(v, map[*Term]*Term{a: b})
		}
		m[a] = b
	}
	if len(m) == 0 {
		return nil, nil
	}
	s := st.clone()
	pc := s.pc
	s.pc = nil
	s.cache = map[int]int8{}
	for _, p := range pc {
		q := st.subst(p, m)
		if q.op == OEq && q.args[0] == q.args[1] {
			continue
		}
		s.assume(q)
	}
	return s, st.subst(g, m)
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (ex *Exec) timedOut() bool {
	now := time.Now()
	if end := proofsEnd.Load(); end != 0 && now.UnixNano() > end {
		return true
	}
	return !ex.deadline.IsZero() && now.After(ex.deadline)
}

// proofsEnd is when every proof still running is given up (0: never).
var proofsEnd atomic.Int64

func endProofs(d time.Duration) {
	t := time.Now().Add(d).UnixNano()
	if old := proofsEnd.Load(); old == 0 || t < old {
		proofsEnd.Store(t)
	}
}

func (ex *Exec) fail(st *State, kind, msg string) {
	if ex.dry > 0 {
		return
	}
	o := ex.ob(kind)
	o.N++
	o.Failed++
	if o.Msg == "" {
		o.Msg = msg
		if st != nil {
			o.Model = ex.modelOf(st, ex.c.F)
		}
	}
}

// modelOf evaluates the entry parameters in a model of pc and not g.
func (ex *Exec) modelOf(st *State, g *Term) []string {
	var want []*Term
	var names []string
	for _, p := range ex.paramNames() {
		t := ex.entryVals[p]
		if t == nil {
			continue
		}
		var leaf func(n string, t *Term, d int)
		leaf = func(n string, t *Term, d int) {
			switch t.sort.kind {
			case KInt, KBool:
				want = append(want, t)
				names = append(names, n)
			case KSeq:
				want = append(want, ex.c.Len(t))
				names = append(names, "len("+n+")")
				if t.sort.elem.kind == KInt {
					for i := int64(0); i < 6; i++ {
						want = append(want, ex.c.nthRaw(t, ex.c.I(i)))
						names = append(names, fmt.Sprintf("%s[%d]", n, i))
					}
				}
			case KRec:
				if d < 3 {
					for _, f := range t.sort.fields {
						leaf(n+"."+f.name, ex.c.Get(t, f.name), d+1)
					}
				}
			}
		}
		leaf(p, t, 0)
		if len(want) > 60 {
			break
		}
	}
	m := ex.solver.Model(append(append([]*Term{}, st.pc...), ex.c.Not(g)), want)
	var out []string
	for i, w := range want {
		if v, ok := m[w]; ok {
			out = append(out, names[i]+" = "+v)
		}
	}
	return out
}

func (ex *Exec) paramNames() []string {
	if ex.ct == nil {
		return nil
	}
	return ex.ct.params
}

// mayPanic: the program stops here when bad holds.
func (ex *Exec) mayPanic(st *State, bad *Term, msg string) {
	if bad == ex.c.F || st.no(bad) {
		return
	}
	if ex.dry > 0 || ex.safe == ex.c.F {
		return
	}
	goal := ex.c.Or(ex.c.Not(bad), ex.c.Not(ex.safe))
	ex.check(st, "no unexpected stop", goal)
	if o := ex.obs["no unexpected stop"]; o != nil && o.Failed > 0 && !strings.Contains(o.Msg, ";") {
		o.Msg = msg + "; " + o.Msg
	}
}

// ---------------------------------------------------------------- running

// exploreFrom runs all paths from st; done is called for states whose bottom frame returned.
type runner struct {
	ex     *Exec
	work   []*State
	onExit func(st *State, results []Value) // bottom frame returned
	limit  int
	depth  int // loop discovery: depth of the frame that owns the loop
	body   map[*ssa.BasicBlock]bool
}

func (ex *Exec) run(st *State, r *runner) {
	r.ex = ex
	r.work = append(r.work, st)
	for len(r.work) > 0 {
		s := r.work[len(r.work)-1]
		r.work = r.work[:len(r.work)-1]
		ex.paths++
		if ex.paths > 20000 {
			panic(unsupported("too many paths"))
		}
		if ex.timedOut() {
			panic(unsupported("time limit reached"))
		}
		if s.resume != nil {
			f := s.resume
			s.resume = nil
			s.run = r
			if !r.guard(s, f) {
				continue
			}
		}
		r.path(s)
	}
}

func (r *runner) guard(st *State, f func() bool) (ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if gp, is := x.(goPanic); is {
				r.ex.mayPanic(st, r.ex.c.T, gp.msg)
				ok = false
				return
			}
			panic(x)
		}
	}()
	return f()
}

func (r *runner) path(st *State) {
	defer func() {
		if x := recover(); x != nil {
			if gp, ok := x.(goPanic); ok {
				r.ex.mayPanic(st, r.ex.c.T, gp.msg)
				return
			}
			panic(x)
		}
	}()
	for !st.dead && len(st.frames) > 0 {
		st.run = r
		fr := st.top()
		if fr.pc >= len(fr.block.Instrs) {
			panic("fell off block")
		}
		in := fr.block.Instrs[fr.pc]
		fr.pc++
		st.steps++
		r.ex.steps++
		if st.steps > 200000 {
			panic(unsupported("path too long"))
		}
		if st.steps%64 == 0 && r.ex.timedOut() {
			panic(unsupported("time limit reached"))
		}
		if !r.step(st, fr, in) {
			return
		}
	}
}

func (r *runner) push(st *State) { r.work = append(r.work, st) }

// jump moves the top frame to block b; false when the path was taken over.
func (r *runner) jump(st *State, b *ssa.BasicBlock) bool {
	fr := st.top()
	fr.prev, fr.block, fr.pc = fr.block, b, 0
	if r.depth == len(st.frames) && r.body != nil && !r.body[b] {
		return false
	}
	return r.enter(st)
}

// enter evaluates phis and handles loop headers.
func (r *runner) enter(st *State) bool {
	fr := st.top()
	b := fr.block
	if li := r.ex.p.loopOf(fr.fn, b); li != nil {
		if li.body[fr.prev] && fr.loops[b] != nil {
			// back edge of a cut loop
			return fr.loops[b].backEdge(r, st)
		}
		evalPhis(st, fr)
		return r.loopEntry(st, fr, li)
	}
	evalPhis(st, fr)
	return true
}

func phiOps(fr *Frame, b, prev *ssa.BasicBlock) map[*ssa.Phi]ssa.Value {
	k := -1
	for i, p := range b.Preds {
		if p == prev {
			k = i
		}
	}
	m := map[*ssa.Phi]ssa.Value{}
	for _, in := range b.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			m[ph] = ph.Edges[k]
		}
	}
	return m
}

func evalPhis(st *State, fr *Frame) {
	ops := phiOps(fr, fr.block, fr.prev)
	vals := map[*ssa.Phi]Value{}
	for ph, v := range ops {
		vals[ph] = st.val(fr, v)
	}
	for ph, v := range vals {
		fr.regs[ph] = v
	}
	fr.pc = 0
	for fr.pc < len(fr.block.Instrs) {
		if _, ok := fr.block.Instrs[fr.pc].(*ssa.Phi); ok {
			fr.pc++
			continue
		}
		break
	}
}

// mergeIf joins an if whose branches only compute values, without splitting the path.
func (r *runner) mergeIf(st *State, fr *Frame, cond *Term, t, f *ssa.BasicBlock) bool {
	from := fr.block
	pure := func(b *ssa.BasicBlock) bool {
		if len(b.Preds) != 1 || len(b.Succs) != 1 {
			return false
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				if x.Op == token.QUO || x.Op == token.REM {
					return false
				}
			case *ssa.Convert, *ssa.DebugRef, *ssa.Jump, *ssa.ChangeType:
			default:
				return false
			}
		}
		return true
	}
	tp, fp := from, from
	join := t
	switch {
	case pure(t) && t.Succs[0] == f:
		tp, join = t, f
	case pure(f) && f.Succs[0] == t:
		fp, join = f, t
	case pure(t) && pure(f) && t.Succs[0] == f.Succs[0]:
		tp, fp, join = t, f, t.Succs[0]
	default:
		return false
	}
	if r.ex.p.loopOf(fr.fn, join) != nil || join == from || (r.depth == len(st.frames) && r.body != nil && !r.body[join]) {
		return false
	}
	for _, b := range []*ssa.BasicBlock{tp, fp} {
		if b == from {
			continue
		}
		fr.block = b
		for i, in := range b.Instrs[:len(b.Instrs)-1] {
			fr.pc = i + 1
			if !r.step(st, fr, in) {
				panic(unsupported("merged branch"))
			}
		}
	}
	vt, vf := phiOps(fr, join, tp), phiOps(fr, join, fp)
	vals := map[*ssa.Phi]Value{}
	for ph := range vt {
		a, ok1 := st.val(fr, vt[ph]).(*Term)
		b, ok2 := st.val(fr, vf[ph]).(*Term)
		if !ok1 || !ok2 {
			fr.block, fr.pc = from, len(from.Instrs)
			return false
		}
		vals[ph] = r.ex.c.Ite(cond, a, b)
	}
	fr.block, fr.prev, fr.pc = join, tp, 0
	for _, in := range join.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		fr.regs[ph] = vals[ph]
		fr.pc++
	}
	return true
}

// val evaluates an SSA operand.
func (st *State) val(fr *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return st.constVal(x)
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Global:
		return st.globalPtr(x)
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				return fr.binds[i]
			}
		}
	case *ssa.Builtin:
		return x
	}
	r, ok := fr.regs[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("undefined value %s in %s", v.Name(), fr.fn)))
	}
	return r
}

func (st *State) constVal(x *ssa.Const) Value {
	ex := st.ex
	c := ex.c
	if x.Value == nil {
		return st.zero(x.Type())
	}
	switch x.Value.Kind() {
	case constant.Bool:
		return c.B(constant.BoolVal(x.Value))
	case constant.String:
		return c.Lit(constant.StringVal(x.Value))
	case constant.Int:
		n, _ := new(big.Int).SetString(x.Value.ExactString(), 10)
		b, _ := x.Type().Underlying().(*types.Basic)
		if b != nil && b.Info()&types.IsInteger != 0 {
			s := ex.intSort(b)
			if s.kind == KBV {
				return ex.bvBig(n, s.bits)
			}
			return c.Big(n)
		}
	}
	s := ex.deepSort(x.Type())
	return c.Var("const_"+x.Value.ExactString()+"_"+s.smt, s)
}

func (st *State) term(fr *Frame, v ssa.Value) *Term {
	x := st.val(fr, v)
	t, ok := x.(*Term)
	if !ok {
		return st.toDeep(x, v.Type(), true)
	}
	return t
}

// ---------------------------------------------------------------- globals

func (st *State) globalPtr(g *ssa.Global) Value {
	ex := st.ex
	if id, ok := st.glob[g]; ok {
		return &PtrV{obj: id}
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	o := st.newObj(OCell, g.Name(), t)
	st.glob[g] = o.id
	if st.initPkg != nil && st.initPkg == g.Pkg {
		o.val = st.zero(t)
		return &PtrV{obj: o.id}
	}
	if ex.p.constGlobals[g] {
		if v, ok := ex.initGlobal(g); ok {
			// the initial value is concrete: rebuild it in this state
			if sl, ok := t.Underlying().(*types.Slice); ok && v.sort.kind == KRec && ex.c.Get(v, "nil") == ex.c.F {
				o.val = st.exactSlice(ex.c.Get(v, "els"), sl.Elem(), g.Name()) // only ever indexed: spare room is out of reach
			} else {
				o.val = st.fromDeep(v, t, false, g.Name())
			}
			ex.assumption("package-level variable " + g.String() + " keeps the value computed by the package initialiser (it is stored nowhere else)")
			return &PtrV{obj: o.id}
		}
	}
	s := ex.deepSort(t)
	// every occurrence of a mutable or external global is an unknown of its own name
	o.val = st.fromDeep(c0(ex.c, "glob_"+g.String(), s), t, false, g.Name())
	return &PtrV{obj: o.id}
}

func c0(c *Ctx, n string, s *Sort) *Term { return c.Var(mangle(n), s) }

// initGlobal evaluates the package initialiser concretely.
func (ex *Exec) initGlobal(g *ssa.Global) (t *Term, ok bool) {
	init := g.Pkg.Func("init")
	if init == nil || init.Blocks == nil {
		return nil, false
	}
	defer func() {
		if x := recover(); x != nil {
			t, ok = nil, false
		}
	}()
	if ex.bv { // evaluate over the integers, then turn the constants into bit vectors
		sc := ex.sortCache
		ex.sortCache, ex.bv = map[types.Type]*Sort{}, false
		it, iok := ex.initGlobal(g)
		ex.sortCache, ex.bv = sc, true
		if !iok {
			return nil, false
		}
		return ex.toBV(it, ex.deepSort(g.Type().Underlying().(*types.Pointer).Elem()))
	}
	if ex.globInit == nil || ex.globPkg() != g.Pkg {
		st := ex.newState()
		st.initPkg = g.Pkg
		st.quick = false
		fr := &Frame{fn: init, regs: map[ssa.Value]Value{}, names: map[string]Value{}, loops: map[*ssa.BasicBlock]*LoopAct{}, unroll: map[*ssa.BasicBlock]int{}}
		fr.block = init.Blocks[0]
		st.frames = []*Frame{fr}
		var fin *State
		ex.dry++
		defer func() { ex.dry-- }()
		r := &runner{onExit: func(s *State, _ []Value) { fin = s }}
		sd := ex.safe
		ex.safe = ex.c.F
		defer func() { ex.safe = sd }() // also when the evaluation gives up
		ex.run(st, r)
		if fin == nil {
			return nil, false
		}
		ex.globInit = fin
	}
	fin := ex.globInit
	id, has := fin.glob[g]
	if !has {
		return nil, false
	}
	return fin.toDeep(fin.objs[id].val, g.Type().Underlying().(*types.Pointer).Elem(), false), true
}

// toBV rebuilds a constant integer term (or a sequence of them) over bit vectors.
func (ex *Exec) toBV(t *Term, s *Sort) (*Term, bool) {
	switch {
	case s.kind == KBV && t.ival != nil:
		return ex.bvBig(t.ival, s.bits), true
	case s.kind == KSeq && t.sort.kind == KSeq:
		var us []*Term
		for _, g := range segs(t) {
			if g.op != OUnit {
				return nil, false
			}
			v, ok := ex.toBV(g.args[0], s.elem)
			if !ok {
				return nil, false
			}
			us = append(us, ex.c.Unit(s, v))
		}
		return ex.c.Cat(s, us...), true
	case s.kind == KRec && t.sort.kind == KRec && len(s.fields) == len(t.sort.fields):
		var fs []*Term
		for i, f := range s.fields {
			v := ex.c.Get(t, f.name)
			if f.sort != t.sort.fields[i].sort {
				w, ok := ex.toBV(v, f.sort)
				if !ok {
					return nil, false
				}
				v = w
			}
			fs = append(fs, v)
		}
		return ex.c.Mk(s, fs...), true
	}
	return nil, false
}

func (ex *Exec) globPkg() *ssa.Package {
	if ex.globInit == nil {
		return nil
	}
	return ex.globInit.initPkg
}

func (ex *Exec) newState() *State {
	return &State{ex: ex, cache: map[int]int8{}, objs: map[int]*Obj{}, glob: map[*ssa.Global]int{}, ghost: map[string]*Term{}}
}

// ---------------------------------------------------------------- instructions

func (r *runner) step(st *State, fr *Frame, in ssa.Instruction) bool {
	ex := r.ex
	c := ex.c
	switch x := in.(type) {
	case *ssa.DebugRef:
		if id, ok := debugName(x); ok {
			if v, ok := fr.regs[x.X]; ok {
				if x.IsAddr {
					fr.names["&"+id] = v
				} else {
					fr.names[id] = v
				}
			} else if !x.IsAddr {
				switch x.X.(type) {
				case *ssa.Const:
					fr.names[id] = st.val(fr, x.X)
				}
			}
		}
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		o := st.newObj(OCell, x.Comment, t)
		o.val = st.zero(t)
		if av, ok := o.val.(*arrayV); ok {
			// arrays are addressed directly
			fr.regs[x] = &PtrV{obj: o.id}
			_ = av
			break
		}
		fr.regs[x] = &PtrV{obj: o.id}
		if x.Comment != "" {
			fr.names["&"+x.Comment] = fr.regs[x]
		}
	case *ssa.BinOp:
		fr.regs[x] = r.binop(st, fr, x)
	case *ssa.UnOp:
		return r.unop(st, fr, x)
	case *ssa.Convert:
		fr.regs[x] = r.convert(st, fr, x.X, x.Type())
	case *ssa.ChangeType:
		v := st.val(fr, x.X)
		if sv, ok := v.(*StructV); ok {
			v = &StructV{typ: x.Type(), fields: sv.fields}
		}
		fr.regs[x] = v
	case *ssa.MakeInterface:
		fr.regs[x] = &IfaceV{typ: x.X.Type(), val: st.val(fr, x.X)}
	case *ssa.ChangeInterface:
		fr.regs[x] = st.val(fr, x.X)
	case *ssa.TypeAssert:
		return r.typeAssert(st, fr, x)
	case *ssa.FieldAddr:
		p := st.val(fr, x.X)
		switch pv := p.(type) {
		case *PtrV:
			if !r.notNil(st, pv) {
				return false
			}
			fr.regs[x] = &PtrV{obj: pv.obj, idx: pv.idx, path: append(append([]int{}, pv.path...), x.Field)}
		case *Term:
			// field of an external structure
			t := x.Type().Underlying().(*types.Pointer).Elem()
			o := st.newObj(OCell, "extfield", t)
			o.val = st.fromDeep(c.App("extfield_"+mangle(typeName(x.X.Type()))+fmt.Sprint(x.Field), ex.deepSort(t), pv), t, false, "ext")
			fr.regs[x] = &PtrV{obj: o.id}
		default:
			panic(unsupported(fmt.Sprintf("FieldAddr of %T", p)))
		}
	case *ssa.Field:
		v := st.val(fr, x.X)
		if sv, ok := v.(*StructV); ok {
			fr.regs[x] = sv.fields[x.Field]
		} else {
			fr.regs[x] = st.fromDeep(c.App("extfield_"+mangle(typeName(x.X.Type()))+fmt.Sprint(x.Field), ex.deepSort(x.Type()), v.(*Term)), x.Type(), false, "ext")
		}
	case *ssa.IndexAddr:
		idx := st.term(fr, x.Index)
		switch sv := st.val(fr, x.X).(type) {
		case *SliceV:
			if !ex.bv {
				if !r.inBounds(st, idx, sv.len, "index out of range") {
					return false
				}
				fr.regs[x] = &PtrV{obj: sv.arr, idx: c.Add(sv.off, idx)}
			} else {
				fr.regs[x] = &PtrV{obj: sv.arr, idx: idx}
			}
		case *PtrV: // pointer to array
			o := st.objs[sv.obj]
			av, ok := getPath(o.val, sv.path).(*arrayV)
			if !ok {
				panic(unsupported("index of non-array pointer"))
			}
			n := c.Len(st.objs[av.obj].seq)
			if ex.bv {
				// index range by type width: checked by the table reader
			} else if !r.inBounds(st, idx, n, "index out of range") {
				return false
			}
			fr.regs[x] = &PtrV{obj: av.obj, idx: idx}
		default:
			panic(unsupported(fmt.Sprintf("IndexAddr of %T", sv)))
		}
	case *ssa.Index:
		v := st.val(fr, x.X)
		idx := st.term(fr, x.Index)
		switch y := v.(type) {
		case *Term:
			if !r.inBounds(st, idx, c.Len(y), "index out of range") {
				return false
			}
			fr.regs[x] = st.fromDeep(st.q().Nth(y, idx), x.Type(), true, "idx")
		case *arrayV:
			fr.regs[x] = st.loadElem(y.obj, idx)
		default:
			panic(unsupported(fmt.Sprintf("Index of %T", v)))
		}
	case *ssa.Slice:
		return r.slice(st, fr, x)
	case *ssa.Lookup:
		return r.lookup(st, fr, x)
	case *ssa.MapUpdate:
		return r.mapUpdate(st, fr, x)
	case *ssa.MakeMap:
		o := st.newObj(OMapObj, "map", x.Type())
		st.emptyMap(o)
		fr.regs[x] = &RefV{obj: o.id, isnil: c.F}
	case *ssa.MakeSlice:
		n, k := st.term(fr, x.Len), st.term(fr, x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		ex.mayPanic(st, c.Or(c.Lt(n, c.zero), c.Gt(n, k)), "makeslice: len out of range")
		st.assume(c.And(c.Le(c.zero, n), c.Le(n, k), c.Le(k, c.I(maxLen))))
		if st.dead {
			return false
		}
		o := st.newObj(OArr, "make", et)
		o.elemS = ex.elemSort(et)
		z := st.zeroElem(et)
		o.seq = c.Rep(c.Seq(o.elemS), z, k)
		fr.regs[x] = &SliceV{arr: o.id, off: c.zero, len: n, cap: k, isnil: c.F}
	case *ssa.MakeChan:
		o := st.newObj(OChanObj, "chan", x.Type().Underlying().(*types.Chan).Elem())
		o.elemS = ex.elemSort(o.typ)
		o.seq = c.Empty(c.Seq(o.elemS))
		fr.regs[x] = &RefV{obj: o.id, isnil: c.F}
	case *ssa.MakeClosure:
		var bs []Value
		for _, b := range x.Bindings {
			bs = append(bs, st.val(fr, b))
		}
		fr.regs[x] = &FuncV{fn: x.Fn.(*ssa.Function), binds: bs}
	case *ssa.Extract:
		fr.regs[x] = st.val(fr, x.Tuple).(TupleV)[x.Index]
	case *ssa.Store:
		p, ok := st.val(fr, x.Addr).(*PtrV)
		if !ok {
			panic(unsupported("store to external memory"))
		}
		st.plainAccess(p, "plain write")
		if !r.notNil(st, p) {
			return false
		}
		v := st.val(fr, x.Val)
		if p.idx != nil && len(p.path) == 0 {
			switch x.Val.Type().Underlying().(type) {
			case *types.Pointer, *types.Slice:
				st.store(p, v)
				st.freeze(v, "it was stored in a container")
				return true
			}
		}
		st.store(p, v)
	case *ssa.Jump:
		return r.jump(st, fr.block.Succs[0])
	case *ssa.If:
		cond := st.term(fr, x.Cond)
		t, f := fr.block.Succs[0], fr.block.Succs[1]
		if cond == c.T {
			return r.jump(st, t)
		}
		if cond == c.F {
			return r.jump(st, f)
		}
		if ex.bv && r.mergeIf(st, fr, cond, t, f) {
			return true
		}
		nc := c.Not(cond)
		s2 := st.clone()
		takeT, takeF := !st.no(cond), !st.no(nc)
		if takeT && takeF {
			s2.assume(nc)
			if !s2.dead {
				r.forkJump(s2, f)
			}
			st.assume(cond)
			if st.dead {
				return false
			}
			return r.jump(st, t)
		}
		if takeT {
			st.assume(cond)
			return r.jump(st, t)
		}
		if takeF {
			st.assume(nc)
			return r.jump(st, f)
		}
		return false // infeasible path
	case *ssa.Return:
		var rs []Value
		for _, v := range x.Results {
			rs = append(rs, st.val(fr, v))
		}
		return r.ret(st, fr, rs)
	case *ssa.RunDefers:
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			fr.pc-- // run again until empty
			return r.callValue(st, fr, nil, &d.call, d.fn, d.args)
		}
	case *ssa.Defer:
		fv, args := r.callee(st, fr, &x.Call)
		fr.defers = append(fr.defers, &deferred{fn: fv, call: x.Call, args: args})
	case *ssa.Panic:
		ex.mayPanic(st, c.T, "explicit panic at "+ex.p.pos(x.Pos()))
		return false
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && st.initPkg != nil && f.Synthetic == "package initializer" && f.Pkg != st.initPkg {
			return true // only a package's own initialiser stores to the variables evaluated here
		}
		return r.call(st, fr, x)
	case *ssa.Send:
		st.send(st.val(fr, x.Chan), st.val(fr, x.X), x.X.Type())
	case *ssa.Range:
		return r.rangeInit(st, fr, x)
	case *ssa.Next:
		return r.rangeNext(st, fr, x)
	case *ssa.Go:
		ex.startable(x)
		ex.assumption("goroutines started by a function under contract do not write its variables (checked on their code); they interact with it through channels, wait groups and atomics only")
	case *ssa.Select:
		return r.selectStmt(st, fr, x)
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
	return true
}

func (st *State) send(ch, v Value, t types.Type) {
	c := st.ex.c
	rv, ok := ch.(*RefV)
	if !ok || rv.obj < 0 {
		panic(unsupported("send to a channel of unknown origin"))
	}
	o := st.mut(rv.obj)
	d := st.toDeep(v, t, true)
	o.seq = c.Cat(o.seq.sort, o.seq, c.Unit(o.seq.sort, d))
	st.freeze(v, "it was sent to a channel")
}

// startable refuses goroutines that write variables of the function that starts them.
func (ex *Exec) startable(x *ssa.Go) {
	isSync := func(t types.Type) bool {
		n, ok := t.(*types.Named)
		return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync"
	}
	for _, a := range x.Call.Args {
		if p, ok := a.Type().Underlying().(*types.Pointer); ok && !isSync(p.Elem()) {
			panic(unsupported("go statement with a pointer argument"))
		}
	}
	mc, ok := x.Call.Value.(*ssa.MakeClosure)
	if !ok {
		return
	}
	fn := mc.Fn.(*ssa.Function)
	for _, fv := range fn.FreeVars {
		if p, ok := fv.Type().Underlying().(*types.Pointer); ok && isSync(p.Elem()) {
			continue
		}
		for _, u := range *fv.Referrers() {
			switch y := u.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				panic(unsupported(fmt.Sprintf("goroutine uses %s other than by reading it (%T)", fv.Name(), y)))
			}
		}
	}
}

// selectStmt: any ready case may be taken; a receive from a channel of unknown origin records that it was possible.
func (r *runner) selectStmt(st *State, fr *Frame, x *ssa.Select) bool {
	ex := r.ex
	c := ex.c
	tup := x.Type().(*types.Tuple)
	n := len(x.States)
	last := n - 1
	if !x.Blocking {
		last = n
	}
	for i := 0; i <= last; i++ {
		s := st
		if i < last {
			s = st.clone()
		}
		f := s.top()
		vals := TupleV{c.I(int64(i)), c.F}
		if i == n {
			vals[0] = c.I(-1)
		}
		recv := 2
		for k, cs := range x.States {
			if cs.Dir == types.SendOnly {
				if k == i {
					s.send(s.val(f, cs.Chan), s.val(f, cs.Send), cs.Send.Type())
				}
				continue
			}
			et := tup.At(recv).Type()
			recv++
			if k != i {
				vals = append(vals, s.zero(et))
				continue
			}
			ch, ok := s.val(f, cs.Chan).(*Term)
			if !ok {
				panic(unsupported("select receives from a local channel"))
			}
			s.assume(c.App("recvable", c.Bool(), ch))
			ok2 := c.Fresh("recvok", c.Bool())
			vals[1] = ok2
			vals = append(vals, s.fromDeep(ex.freshDeep("recvd", et), et, false, "recv"))
		}
		f.regs[x] = vals
		if i < last {
			r.push(s)
		}
	}
	return true
}

func (r *runner) forkJump(st *State, b *ssa.BasicBlock) {
	st.pendingJump = b
	// run the jump when the state is picked up
	r.work = append(r.work, st)
	st.resume = func() bool { return r.jump(st, b) }
}

func debugName(x *ssa.DebugRef) (string, bool) {
	if o := x.Object(); o != nil {
		return o.Name(), true
	}
	return "", false
}

func (st *State) zeroElem(et types.Type) *Term {
	if _, ok := et.Underlying().(*types.Pointer); ok {
		s := st.ex.elemSort(et)
		return st.ex.c.Var("nilelem_"+s.smt, s)
	}
	return st.toDeep(st.zero(et), et, true)
}

func (r *runner) notNil(st *State, p *PtrV) bool {
	if p.obj < 0 {
		r.ex.mayPanic(st, r.ex.c.T, "nil pointer dereference")
		return false
	}
	if p.isnil != nil {
		r.ex.mayPanic(st, p.isnil, "nil pointer dereference")
		st.assume(r.ex.c.Not(p.isnil))
		return !st.dead
	}
	return true
}

func (r *runner) inBounds(st *State, idx, n *Term, msg string) bool {
	c := r.ex.c
	ok := c.And(c.Le(c.zero, idx), c.Lt(idx, n))
	if st.yes(ok) {
		return true
	}
	r.ex.mayPanic(st, c.Not(ok), msg)
	st.assume(ok)
	return !st.dead && !st.infeasible()
}

func (st *State) infeasible() bool {
	if st.dead {
		return true
	}
	if st.ex.solver.Check(st.pc) == Unsat {
		st.dead = true
	}
	return st.dead
}

func (r *runner) binop(st *State, fr *Frame, x *ssa.BinOp) Value {
	ex := r.ex
	c := ex.c
	a, b := st.val(fr, x.X), st.val(fr, x.Y)
	ta, oka := a.(*Term)
	tb, okb := b.(*Term)
	if oka && okb {
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return st.compare(x.Op, ta, tb, x.X.Type())
		}
		return st.arith(x.Op, ta, tb, x.Type(), x.Y.Type())
	}
	var eq *Term
	switch {
	case isNilV(b):
		eq = st.isNil(a)
	case isNilV(a):
		eq = st.isNil(b)
	default:
		pa, ok1 := a.(*PtrV)
		pb, ok2 := b.(*PtrV)
		if ok1 && ok2 {
			eq = c.B(pa.obj == pb.obj)
		} else {
			eq = ex.eqT(st.toDeep(a, x.X.Type(), false), st.toDeep(b, x.Y.Type(), false))
		}
	}
	if x.Op == token.NEQ {
		return c.Not(eq)
	}
	return eq
}

func isNilV(v Value) bool {
	switch x := v.(type) {
	case *PtrV:
		return x.obj < 0
	case *IfaceV:
		return x.typ == nil
	case *FuncV:
		return x.isnil
	case *RefV:
		return x.isnil != nil && x.isnil.op == OTrue
	case *SliceV:
		return x.isnil.op == OTrue
	}
	return false
}

func (st *State) isNil(v Value) *Term {
	c := st.ex.c
	switch x := v.(type) {
	case *PtrV:
		if x.obj < 0 {
			return c.T
		}
		if x.isnil != nil {
			return x.isnil
		}
		return c.F
	case *IfaceV:
		return c.B(x.typ == nil)
	case *FuncV:
		return c.B(x.isnil)
	case *RefV:
		if x.isnil != nil {
			return x.isnil
		}
		return c.F
	case *SliceV:
		return x.isnil
	case *Term:
		if x.sort.kind == KUn && x.sort.name == "Any" {
			return c.Eq(x, c.Var("nilAny", x.sort))
		}
		return c.App("isnil_"+x.sort.smt, c.Bool(), x)
	}
	panic(unsupported(fmt.Sprintf("nil comparison of %T", v)))
}

func (r *runner) unop(st *State, fr *Frame, x *ssa.UnOp) bool {
	ex := r.ex
	c := ex.c
	v := st.val(fr, x.X)
	switch x.Op {
	case token.MUL:
		p, ok := v.(*PtrV)
		if !ok {
			if t, ok := v.(*Term); ok {
				fr.regs[x] = st.fromDeep(c.App("deref_"+t.sort.smt, ex.deepSort(x.Type()), t), x.Type(), false, "deref")
				return true
			}
			panic(unsupported(fmt.Sprintf("load from %T", v)))
		}
		st.plainAccess(p, "plain read")
		if !r.notNil(st, p) {
			return false
		}
		if ex.bv && p.idx != nil {
			o := st.objs[p.obj]
			if sg := segs(o.seq); len(sg) >= 1 {
				var tab []*Term // the known elements; what may follow is spare capacity
				for _, s := range sg {
					if s.op != OUnit || s.args[0].ival == nil {
						break
					}
					tab = append(tab, s.args[0])
				}
				ok := len(tab) > 0
				if ok {
					if p.idx.ival != nil {
						i := p.idx.ival.Int64()
						if i >= int64(len(tab)) {
							ex.mayPanic(st, c.T, "index out of range")
							return false
						}
						fr.regs[x] = tab[i]
						return true
					}
					ex.mayPanic(st, c.Not(ex.bvInTable(p.idx, len(tab))), "index out of range")
					fr.regs[x] = ex.bvTable(tab, p.idx)
					return true
				}
			}
			panic(unsupported("bit-vector mode: indexing"))
		}
		fr.regs[x] = st.load(p)
		if av, ok := fr.regs[x].(*arrayV); ok {
			fr.regs[x] = st.copyArray(av)
		}
	case token.NOT:
		fr.regs[x] = c.Not(v.(*Term))
	case token.SUB:
		t := v.(*Term)
		if t.sort.kind == KBV {
			fr.regs[x] = ex.rawOp("bvneg", t.sort, t)
		} else {
			fr.regs[x] = st.arith(token.SUB, c.zero, t, x.Type(), x.Type())
		}
	case token.XOR:
		t := v.(*Term)
		if t.sort.kind == KBV {
			fr.regs[x] = ex.rawOp("bvnot", t.sort, t)
		} else {
			s := ex.intSort(x.Type().Underlying().(*types.Basic))
			if s.lo != nil && s.lo.Sign() < 0 {
				fr.regs[x] = c.Sub2(c.I(-1), t)
			} else {
				fr.regs[x] = c.Sub2(c.Big(s.hi), t)
			}
		}
	case token.ARROW:
		ch := v.(*RefV)
		o := st.mut(ch.obj)
		if o.seq2 == nil {
			panic(unsupported("receive from a channel without ghost input"))
		}
		// a receive either yields the next element or, when the input is exhausted, the zero value (closed)
		more := c.Lt(o.n, c.Len(o.seq2))
		et := o.typ
		if x.CommaOk {
			s2 := st.clone()
			if !s2.no(c.Not(more)) {
				s2.assume(c.Not(more))
				s2.top().regs[x] = TupleV{s2.zero(et), c.F}
				r.push(s2)
			}
			if st.no(more) {
				return false
			}
			st.assume(more)
			el := st.fromDeep(st.q().Nth(o.seq2, o.n), et, true, "recv")
			o.n = c.Add(o.n, c.one)
			fr.regs[x] = TupleV{el, c.T}
			return true
		}
		panic(unsupported("plain channel receive"))
	default:
		panic(unsupported("unop " + x.Op.String()))
	}
	return true
}

func (ex *Exec) bvInTable(idx *Term, n int) *Term {
	if idx.sort.bits < 62 && 1<<idx.sort.bits <= n {
		return ex.c.T
	}
	return ex.rawOp("bvult", ex.c.Bool(), idx, ex.bvConst(int64(n), idx.sort.bits))
}

func (r *runner) convert(st *State, fr *Frame, xv ssa.Value, to types.Type) Value {
	ex := r.ex
	c := ex.c
	v := st.val(fr, xv)
	from := xv.Type()
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	if fok && tok {
		t := v.(*Term)
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			if t.sort.kind == KBV {
				return ex.bvConvert(t, from, to)
			}
			s := ex.intSort(tb)
			w := c.Wrap(t, s)
			if w != t && st.yes(c.And(c.rawLe(c.Big(s.lo), t), c.rawLe(t, c.Big(s.hi)))) {
				return t
			}
			return w
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return t
		}
		return c.App("conv_"+fb.Name()+"_"+tb.Name(), ex.deepSort(to), t)
	}
	if sv, ok := v.(*SliceV); ok && tok && tb.Info()&types.IsString != 0 {
		return st.sliceEls(sv)
	}
	if fok && fb.Info()&types.IsString != 0 {
		if sl, ok := to.Underlying().(*types.Slice); ok {
			s := st.mkSlice(v.(*Term), c.F, sl.Elem(), "bytes")
			return s
		}
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		if p, ok := v.(*PtrV); ok {
			if ex.headers && fok && fb.Kind() == types.UnsafePointer {
				ex.reinterpret(to)
			}
			return p
		}
	}
	if fok && fb.Kind() == types.UnsafePointer || tok && tb.Kind() == types.UnsafePointer {
		return v
	}
	panic(unsupported("conversion " + from.String() + " to " + to.String()))
}

func (r *runner) typeAssert(st *State, fr *Frame, x *ssa.TypeAssert) bool {
	ex := r.ex
	c := ex.c
	v := st.val(fr, x.X)
	if iv, ok := v.(*IfaceV); ok {
		match := iv.typ != nil && types.Identical(iv.typ, x.AssertedType)
		if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			match = iv.typ != nil && types.Implements(iv.typ, x.AssertedType.Underlying().(*types.Interface))
			if match {
				if x.CommaOk {
					fr.regs[x] = TupleV{iv, c.T}
				} else {
					fr.regs[x] = iv
				}
				return true
			}
		}
		if match {
			if x.CommaOk {
				fr.regs[x] = TupleV{iv.val, c.T}
			} else {
				fr.regs[x] = iv.val
			}
			return true
		}
		if x.CommaOk {
			fr.regs[x] = TupleV{st.zero(x.AssertedType), c.F}
			return true
		}
		ex.mayPanic(st, c.T, "interface conversion")
		return false
	}
	t := v.(*Term)
	is := c.Eq(ex.anyTag(t), ex.typeTag(x.AssertedType))
	got := func(s *State) Value {
		return s.fromDeep(ex.unbox(x.AssertedType, t), x.AssertedType, true, "unbox")
	}
	if x.CommaOk {
		s2 := st.clone()
		if !s2.no(c.Not(is)) {
			s2.assume(c.Not(is))
			s2.top().regs[x] = TupleV{s2.zero(x.AssertedType), c.F}
			r.push(s2)
		}
		if st.no(is) {
			return false
		}
		st.assume(is)
		fr.regs[x] = TupleV{got(st), c.T}
		return true
	}
	ex.mayPanic(st, c.Not(is), "interface conversion")
	st.assume(is)
	fr.regs[x] = got(st)
	return !st.infeasible()
}

func (r *runner) slice(st *State, fr *Frame, x *ssa.Slice) bool {
	ex := r.ex
	c := ex.c
	v := st.val(fr, x.X)
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return st.term(fr, v)
	}
	switch y := v.(type) {
	case *SliceV:
		lo, hi, mx := get(x.Low, c.zero), get(x.High, y.len), get(x.Max, y.cap)
		ok := c.And(c.Le(c.zero, lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, y.cap))
		if !st.yes(ok) {
			ex.mayPanic(st, c.Not(ok), "slice bounds out of range")
			st.assume(ok)
			if st.infeasible() {
				return false
			}
		}
		fr.regs[x] = &SliceV{arr: y.arr, off: c.Add(y.off, lo), len: c.Sub2(hi, lo), cap: c.Sub2(mx, lo), isnil: y.isnil}
	case *Term: // string
		lo, hi := get(x.Low, c.zero), get(x.High, c.Len(y))
		ok := c.And(c.Le(c.zero, lo), c.Le(lo, hi), c.Le(hi, c.Len(y)))
		if !st.yes(ok) {
			ex.mayPanic(st, c.Not(ok), "slice bounds out of range")
			st.assume(ok)
			if st.infeasible() {
				return false
			}
		}
		fr.regs[x] = st.q().Sub(y, lo, hi)
	case *PtrV: // pointer to array
		av, ok := getPath(st.objs[y.obj].val, y.path).(*arrayV)
		if !ok {
			panic(unsupported("slice of pointer"))
		}
		n := c.Len(st.objs[av.obj].seq)
		lo, hi := get(x.Low, c.zero), get(x.High, n)
		cond := c.And(c.Le(c.zero, lo), c.Le(lo, hi), c.Le(hi, n))
		if !st.yes(cond) {
			ex.mayPanic(st, c.Not(cond), "slice bounds out of range")
			st.assume(cond)
			if st.infeasible() {
				return false
			}
		}
		fr.regs[x] = &SliceV{arr: av.obj, off: lo, len: c.Sub2(hi, lo), cap: c.Sub2(n, lo), isnil: c.F}
	default:
		panic(unsupported(fmt.Sprintf("slice of %T", v)))
	}
	return true
}

// ---------------------------------------------------------------- maps

func (r *runner) lookup(st *State, fr *Frame, x *ssa.Lookup) bool {
	ex := r.ex
	c := ex.c
	v := st.val(fr, x.X)
	if s, ok := v.(*Term); ok && s.sort.kind == KSeq {
		idx := st.term(fr, x.Index)
		if !r.inBounds(st, idx, c.Len(s), "index out of range") {
			return false
		}
		fr.regs[x] = st.q().Nth(s, idx)
		return true
	}
	m, ok := v.(*RefV)
	if !ok {
		panic(unsupported(fmt.Sprintf("lookup in %T", v)))
	}
	o := st.objs[m.obj]
	vt := o.typ.Underlying().(*types.Map).Elem()
	k := st.toDeep(st.val(fr, x.Index), x.Index.Type(), true)
	has := st.selD(o.dom, k)
	set := func(s *State, present bool) {
		var val Value
		if present {
			val = s.fromDeep(s.selD(o.mval, k), vt, true, "mapval")
		} else {
			val = s.zero(vt)
		}
		if x.CommaOk {
			s.top().regs[x] = TupleV{val, c.B(present)}
		} else {
			s.top().regs[x] = val
		}
	}
	switch st.decide(has) {
	case 1:
		set(st, true)
	case -1:
		set(st, false)
	default:
		s2 := st.clone()
		s2.assume(c.Not(has))
		set(s2, false)
		r.push(s2)
		st.assume(has)
		set(st, true)
	}
	return true
}

// selD reads a map at k deciding key equalities on the path.
func (st *State) selD(m, k *Term) *Term {
	ex := st.ex
	for m.op == ORaw && m.name == "store" {
		e := ex.eqT(m.args[1], k)
		if st.yes(e) {
			return m.args[2]
		}
		if st.no(e) {
			m = m.args[0]
			continue
		}
		break
	}
	return ex.sel(m, k)
}

func (r *runner) mapUpdate(st *State, fr *Frame, x *ssa.MapUpdate) bool {
	ex := r.ex
	c := ex.c
	m, ok := st.val(fr, x.Map).(*RefV)
	if !ok {
		panic(unsupported("map update"))
	}
	if m.isnil != nil && m.isnil != c.F {
		ex.mayPanic(st, m.isnil, "assignment to entry in nil map")
		st.assume(c.Not(m.isnil))
	}
	k := st.toDeep(st.val(fr, x.Key), x.Key.Type(), true)
	v := st.toDeep(st.val(fr, x.Value), x.Value.Type(), true)
	st.mapSet(m.obj, k, v)
	return true
}

func (st *State) mapSet(obj int, k, v *Term) {
	ex := st.ex
	c := ex.c
	o := st.mut(obj)
	has := st.selD(o.dom, k)
	switch st.decide(has) {
	case 1:
	case -1:
		o.mlen = c.Add(o.mlen, c.one)
	default:
		o.mlen = c.Add(o.mlen, c.Ite(has, c.zero, c.one))
	}
	if has != c.T {
		o.dom = ex.sto(o.dom, k, c.T)
	}
	o.mval = ex.sto(o.mval, k, v)
}

// rangeInit: iteration over a map visits its keys once each, in an arbitrary order (ghost sequence).
func (r *runner) rangeInit(st *State, fr *Frame, x *ssa.Range) bool {
	ex := r.ex
	c := ex.c
	switch v := st.val(fr, x.X).(type) {
	case *RefV:
		m := st.objs[v.obj]
		ks := ex.elemSort(m.typ.Underlying().(*types.Map).Key())
		o := st.newObj(OIterObj, "iter", x.X.Type())
		// every range has its own order; sorted, all orders of one key set agree
		o.seq = c.Fresh("keyorder", c.Seq(ks))
		st.assume(c.Eq(c.Len(o.seq), m.mlen))
		if s, k := ex.db.fns["sortedStrings"], ex.db.fns["sortedKeys"]; s != nil && k != nil && ks == c.Seq(ex.it(8, false)) {
			st.assume(c.Eq(ex.appOf(s, []*Term{o.seq}), ex.appOf(k, []*Term{m.dom})))
		}
		if id, ok := ex.ghostObj["rangeOrders"]; ok && ex.ct != nil && ex.ct.writes("rangeOrders") && ks == c.Seq(ex.it(8, false)) {
			g := st.mut(id) // ghost: the order, for contracts that speak of it
			g.seq = c.Cat(g.seq.sort, g.seq, c.Unit(g.seq.sort, o.seq))
		}
		o.n = c.zero
		o.parent = v.obj
		o.dom = m.dom
		fr.regs[x] = &IterV{obj: o.id}
		st.ex.assumption("ranging over a map visits every key exactly once in an arbitrary order, and the map is not changed meanwhile")
	default:
		panic(unsupported("range over string"))
	}
	return true
}

func (r *runner) rangeNext(st *State, fr *Frame, x *ssa.Next) bool {
	ex := r.ex
	c := ex.c
	it := st.val(fr, x.Iter).(*IterV)
	o := st.objs[it.obj]
	more := c.Lt(o.n, c.Len(o.seq))
	mt := o.typ.Underlying().(*types.Map)
	s2 := st.clone()
	if !s2.no(c.Not(more)) {
		s2.assume(c.Not(more))
		s2.top().regs[x] = TupleV{c.F, s2.zeroOr(mt.Key()), s2.zeroOr(mt.Elem())}
		r.push(s2)
	}
	if st.no(more) {
		return false
	}
	st.assume(more)
	k := st.q().Nth(o.seq, o.n)
	m := st.objs[o.parent]
	st.assume(ex.sel(o.dom, k))
	val := st.fromDeep(ex.sel(m.mval, k), mt.Elem(), true, "mapval")
	st.mut(it.obj).n = c.Add(o.n, c.one)
	fr.regs[x] = TupleV{c.T, st.fromDeep(k, mt.Key(), true, "key"), val}
	return true
}

func (st *State) zeroOr(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return st.ex.c.zero
	}
	return st.zero(t)
}

// ---------------------------------------------------------------- returning

func (r *runner) ret(st *State, fr *Frame, rs []Value) bool {
	if r.depth > 0 && len(st.frames) <= r.depth {
		return false
	}
	if len(st.frames) == 1 || fr.onReturn != nil {
		st.frames = st.frames[:len(st.frames)-1]
		if fr.onReturn != nil {
			fr.onReturn(st, rs)
			return !st.dead && len(st.frames) > 0
		}
		r.onExit(st, rs)
		return false
	}
	st.frames = st.frames[:len(st.frames)-1]
	caller := st.top()
	if fr.call != nil {
		setResult(caller, fr.call, rs)
	}
	return true
}

func setResult(fr *Frame, call *ssa.Call, rs []Value) {
	switch len(rs) {
	case 0:
	case 1:
		fr.regs[call] = rs[0]
	default:
		fr.regs[call] = TupleV(rs)
	}
}
