package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type SliceV struct {
	arr                  int // object id, -1 for a literal nil slice
	off, len, cap, isnil *Term
}

type PtrV struct {
	obj   int // -1: nil constant
	idx   *Term
	path  []int
	isnil *Term // nil means known non-nil
}

type StructV struct {
	typ    types.Type
	fields []Value
}

type FuncV struct {
	fn    *ssa.Function
	binds []Value
	isnil bool
}

type IfaceV struct {
	typ types.Type // nil: nil interface
	val Value
}

type RefV struct { // map or channel
	obj   int
	isnil *Term
}

type TupleV []Value

type IterV struct {
	obj int // object holding iteration state
}

type ObjKind int

const (
	OCell ObjKind = iota
	OArr
	OMapObj
	OChanObj
	OIterObj
	OGhost
)

type Obj struct {
	id    int
	kind  ObjKind
	name  string
	typ   types.Type // cell type / element type / map type / chan elem
	val   Value      // OCell
	seq   *Term      // OArr: content over the whole capacity; OChanObj: sent
	seq2  *Term      // OChanObj: received sequence
	n     *Term      // OChanObj: number received; OIterObj: position
	dom   *Term      // maps: array key->bool
	mval  *Term      // maps: array key->val
	mlen  *Term
	param bool

	parent   int   // array this one was appended from (-1)
	shared   *Term // length of the prefix possibly shared with parent
	children []int
	frozen   string
	linkArr  int // container link: array object and index this object is an element of (-1)
	linkIdx  *Term
	origin   ssa.Value
	released bool
	elemS    *Sort
	ext      map[string]*Term // ghost fields
}

type view struct {
	arr   int
	idx   *Term
	obj   int
	dirty bool
	stale bool
}

type Frame struct {
	fn       *ssa.Function
	regs     map[ssa.Value]Value
	names    map[string]Value
	block    *ssa.BasicBlock
	prev     *ssa.BasicBlock
	pc       int
	defers   []*deferred
	call     *ssa.Call // call instruction in the caller to receive the result
	loops    map[*ssa.BasicBlock]*LoopAct
	unroll   map[*ssa.BasicBlock]int
	binds    []Value
	onReturn func(st *State, results []Value) // overrides returning to the caller
	depth    int
	result   Value
	key      string
}

type deferred struct {
	fn   Value
	call ssa.CallCommon
	args []Value
}

type State struct {
	ex     *Exec
	light  bool // prove without unfolding
	pc     []*Term
	cache  map[int]int8
	objs   map[int]*Obj
	nobj   int
	views  []view
	frames []*Frame
	glob   map[*ssa.Global]int
	trace  []string
	writes map[int]bool // objects written (for loop discovery)
	dead   bool
	ghost  map[string]*Term
	steps  int
	unfold map[int]bool

	quick       bool // decide without the solver
	skolem      []*Term
	run         *runner
	initPkg     *ssa.Package
	pendingJump *ssa.BasicBlock
	resume      func() bool
	inFuncTerm  bool
	rw          map[int]*Term // applications replaced on evaluation (equations of used lemmas)
}

func (st *State) clone() *State {
	n := &State{ex: st.ex, light: st.light, rw: st.rw, inFuncTerm: st.inFuncTerm, nobj: st.nobj, quick: st.quick, skolem: st.skolem, initPkg: st.initPkg, run: st.run, dead: st.dead, steps: st.steps}
	n.pc = append([]*Term(nil), st.pc...)
	n.cache = make(map[int]int8, len(st.cache))
	for k, v := range st.cache {
		if v == 1 || v == -1 {
			n.cache[k] = v
		}
	}
	n.objs = make(map[int]*Obj, len(st.objs))
	for k, v := range st.objs {
		n.objs[k] = v
	}
	n.views = append([]view(nil), st.views...)
	n.glob = make(map[*ssa.Global]int, len(st.glob))
	for k, v := range st.glob {
		n.glob[k] = v
	}
	n.trace = append([]string(nil), st.trace...)
	if st.writes != nil {
		n.writes = st.writes // shared on purpose: discovery accumulates over all paths
	}
	n.ghost = make(map[string]*Term, len(st.ghost))
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.regs = make(map[ssa.Value]Value, len(f.regs))
		for k, v := range f.regs {
			g.regs[k] = v
		}
		g.names = make(map[string]Value, len(f.names))
		for k, v := range f.names {
			g.names[k] = v
		}
		g.defers = append([]*deferred(nil), f.defers...)
		g.loops = map[*ssa.BasicBlock]*LoopAct{}
		for k, v := range f.loops {
			g.loops[k] = v
		}
		g.unroll = map[*ssa.BasicBlock]int{}
		for k, v := range f.unroll {
			g.unroll[k] = v
		}
		n.frames[i] = &g
	}
	return n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) q() SeqOps { return SeqOps{st.ex.c, st.decide, st.yes} }

func (st *State) newObj(kind ObjKind, name string, typ types.Type) *Obj {
	st.nobj++
	o := &Obj{id: st.nobj, kind: kind, name: name, typ: typ, parent: -1, linkArr: -1}
	st.objs[o.id] = o
	return o
}

// mut returns a private copy of an object to be modified.
func (st *State) mut(id int) *Obj {
	o := *st.objs[id]
	o.children = append([]int(nil), o.children...)
	st.objs[id] = &o
	if st.writes != nil {
		st.writes[id] = true
	}
	return &o
}

func (st *State) assume(t *Term) {
	if t.op == OTrue {
		return
	}
	if t.op == OAnd {
		for _, x := range t.args {
			st.assume(x)
		}
		return
	}
	for _, x := range st.pc {
		if x == t {
			return
		}
	}
	st.pc = append(st.pc, t)
	st.cache[t.id] = 1
	for k, v := range st.cache {
		if v == 0 || v == 2 || v == 3 {
			delete(st.cache, k)
		}
	}
	if t.op == OFalse {
		st.dead = true
	}
}

// yes: t follows from the path condition.
func (st *State) yes(t *Term) bool {
	switch t.op {
	case OTrue:
		return true
	case OFalse:
		return false
	}
	if v, ok := st.cache[t.id]; ok {
		if v == 1 {
			return true
		}
		if v == -1 || v == 2 || v == 0 {
			return false
		}
	}
	if t.op == OAnd {
		for _, x := range t.args {
			if !st.yes(x) {
				return false
			}
		}
		return true
	}
	n := st.ex.c.Not(t)
	if v, ok := st.cache[n.id]; ok && v == -1 {
		st.cache[t.id] = 1
		return true
	}
	if st.quick {
		return false
	}
	r := st.ex.solver.CheckRel(st.pc, n)
	if r == Unsat {
		st.cache[t.id] = 1
		return true
	}
	if v, ok := st.cache[t.id]; ok && v == 3 {
		st.cache[t.id] = 0
	} else {
		st.cache[t.id] = 2 // not provable
	}
	return false
}

func (st *State) no(t *Term) bool {
	switch t.op {
	case OTrue:
		return false
	case OFalse:
		return true
	}
	if v, ok := st.cache[t.id]; ok {
		if v == -1 {
			return true
		}
		if v == 1 || v == 3 || v == 0 {
			return false
		}
	}
	if st.quick {
		return st.decideQuick(t) < 0
	}
	r := st.ex.solver.CheckRel(st.pc, t)
	if r == Unsat {
		st.cache[t.id] = -1
		return true
	}
	if v, ok := st.cache[t.id]; ok && v == 2 {
		st.cache[t.id] = 0
	} else {
		st.cache[t.id] = 3 // not refutable
	}
	return false
}

func (st *State) decide(t *Term) int {
	if st.yes(t) {
		return 1
	}
	if st.no(t) {
		return -1
	}
	return 0
}

// ---------------------------------------------------------------- sorts of Go types

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func isRepoType(ex *Exec, t *types.Named) bool {
	p := t.Obj().Pkg()
	return p != nil && strings.HasPrefix(p.Path(), ex.modPath)
}

func (ex *Exec) intSort(b *types.Basic) *Sort {
	c := ex.c
	switch b.Kind() {
	case types.Int8:
		return ex.it(8, true)
	case types.Int16:
		return ex.it(16, true)
	case types.Int32, types.UntypedRune:
		return ex.it(32, true)
	case types.Int, types.Int64, types.UntypedInt:
		return ex.it(64, true)
	case types.Uint8:
		return ex.it(8, false)
	case types.Uint16:
		return ex.it(16, false)
	case types.Uint32:
		return ex.it(32, false)
	case types.Uint, types.Uint64, types.Uintptr:
		return ex.it(64, false)
	case types.Bool, types.UntypedBool:
		return c.Bool()
	case types.String, types.UntypedString:
		return c.Seq(c.IntT(8, false))
	}
	return c.Un("basic_" + b.Name())
}

func (ex *Exec) it(bits int, signed bool) *Sort {
	if ex.bv {
		return ex.c.BV(bits)
	}
	return ex.c.IntT(bits, signed)
}

func (ex *Exec) deepSort(t types.Type) *Sort {
	if s, ok := ex.sortCache[t]; ok {
		return s
	}
	s := ex.deepSort0(t)
	ex.sortCache[t] = s
	return s
}

// words is the type a value is treated as by a contract with headers: slices and empty interfaces are the machine
// words they consist of.
func (ex *Exec) words(t types.Type) types.Type {
	if !ex.headers {
		return t
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return ex.hdrSlice
	case *types.Interface:
		if u.NumMethods() == 0 {
			return ex.hdrIface
		}
	}
	return t
}

func (ex *Exec) initHeaders() {
	ex.headers = true
	pkg := types.NewPackage(ex.modPath+"/headers", "headers")
	mk := func(name string, fs ...*types.Var) *types.Named {
		return types.NewNamed(types.NewTypeName(token.NoPos, pkg, name, nil), types.NewStruct(fs, nil), nil)
	}
	v := func(name string, t types.Type) *types.Var { return types.NewField(token.NoPos, pkg, name, t, false) }
	ex.hdrSlice = mk("SliceWords", v("Data", types.Typ[types.Uintptr]), v("Len", types.Typ[types.Int]), v("Cap", types.Typ[types.Int]))
	ex.hdrIface = mk("IfaceWords", v("Table", types.Typ[types.Uintptr]), v("Data", types.NewPointer(ex.hdrSlice)))
}

// reinterpret is the conversion of unsafe.Pointer to a pointer to a structure of words over the same memory.
func (ex *Exec) reinterpret(to types.Type) {
	st, ok := to.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	if !ok {
		panic(unsupported("memory seen as " + to.String()))
	}
	sz := types.SizesFor("gc", "amd64")
	for i := 0; i < st.NumFields(); i++ {
		if sz.Sizeof(st.Field(i).Type()) != 8 {
			panic(unsupported("memory seen as " + to.String()))
		}
	}
}

func (ex *Exec) deepSort0(t types.Type) *Sort {
	c := ex.c
	t = ex.words(t)
	name := typeName(t)
	if n, ok := t.(*types.Named); ok {
		if _, isStruct := n.Underlying().(*types.Struct); isStruct && !isRepoType(ex, n) {
			return c.Un("ext_" + name)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return ex.intSort(u)
	case *types.Struct:
		if ex.inProgress[name] {
			return c.Un("rec_" + name)
		}
		ex.inProgress[name] = true
		defer delete(ex.inProgress, name)
		var fs []Field
		for i := 0; i < u.NumFields(); i++ {
			if sl, ok := u.Field(i).Type().Underlying().(*types.Slice); ok && ex.db.nonil[name+"."+u.Field(i).Name()] {
				fs = append(fs, Field{u.Field(i).Name(), c.Seq(ex.elemSort(sl.Elem()))})
				continue
			}
			fs = append(fs, Field{u.Field(i).Name(), ex.deepSort(u.Field(i).Type())})
		}
		if _, ok := t.(*types.Named); !ok {
			name = fmt.Sprintf("anon%d_%s", u.NumFields(), mangle(name))
		}
		return c.Rec(name, fs)
	case *types.Pointer:
		if n, ok := u.Elem().(*types.Named); ok {
			if _, isStruct := n.Underlying().(*types.Struct); isStruct && !isRepoType(ex, n) {
				return c.Un("ptr_" + typeName(n))
			}
		}
		e := ex.deepSort(u.Elem())
		return c.Rec("opt<"+e.name+">", []Field{{"nil", c.Bool()}, {"v", e}})
	case *types.Slice:
		return ex.slSort(ex.elemSort(u.Elem()))
	case *types.Array:
		return c.Seq(ex.elemSort(u.Elem()))
	case *types.Map:
		k, v := ex.elemSort(u.Key()), ex.elemSort(u.Elem())
		return c.Rec("mp<"+k.name+","+v.name+">", []Field{{"nil", c.Bool()}, {"dom", c.Map(k, c.Bool())}, {"val", c.Map(k, v)}, {"n", c.Int()}})
	case *types.Signature:
		return c.Un("Fn")
	case *types.Interface:
		return c.Un("Any")
	case *types.Chan:
		return c.Un("Chan")
	}
	return c.Un("other_" + mangle(name))
}

func (ex *Exec) slSort(e *Sort) *Sort {
	return ex.c.Rec("sl<"+e.name+">", []Field{{"nil", ex.c.Bool()}, {"els", ex.c.Seq(e)}})
}

func (ex *Exec) elemSort(t types.Type) *Sort {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		s := ex.deepSort(t)
		if s.kind == KUn {
			return s
		}
		return ex.deepSort(u.Elem())
	case *types.Slice:
		return ex.c.Seq(ex.elemSort(u.Elem()))
	}
	return ex.deepSort(t)
}

func isScalar(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Struct, *types.Slice, *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Array:
		_ = u
		return false
	case *types.Interface:
		return false
	}
	return false
}

// ---------------------------------------------------------------- conversions

// fromDeep builds an executable value of Go type t from a logical value.
func (st *State) fromDeep(x *Term, t types.Type, elem bool, hint string) Value {
	ex := st.ex
	c := ex.c
	t = ex.words(t)
	if n, ok := t.(*types.Named); ok {
		if _, isStruct := n.Underlying().(*types.Struct); isStruct && !isRepoType(ex, n) {
			return x
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if x.sort.kind != KRec {
			return x
		}
		sv := &StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.fields = append(sv.fields, st.fromDeep(c.Get(x, u.Field(i).Name()), u.Field(i).Type(), false, hint+"."+u.Field(i).Name()))
		}
		return sv
	case *types.Pointer:
		if x.sort.kind == KUn {
			return x
		}
		var isnil *Term
		inner := x
		if !elem {
			isnil = c.Get(x, "nil")
			inner = c.Get(x, "v")
			if isnil == c.T {
				return &PtrV{obj: -1, isnil: c.T}
			}
			if isnil == c.F {
				isnil = nil
			}
		}
		o := st.newObj(OCell, hint, u.Elem())
		o.val = st.fromDeep(inner, u.Elem(), false, hint)
		return &PtrV{obj: o.id, isnil: isnil}
	case *types.Slice:
		els := x
		var isnil *Term
		if x.sort.kind == KRec {
			els = c.Get(x, "els")
			isnil = c.Get(x, "nil")
		} else { // representations without the nil flag
			isnil = c.Fresh("isnil", c.Bool())
		}
		return st.mkSlice(els, isnil, u.Elem(), hint)
	case *types.Array:
		o := st.newObj(OArr, hint, u.Elem())
		o.seq = x
		o.elemS = x.sort.elem
		return &arrayV{obj: o.id}
	case *types.Map:
		o := st.newObj(OMapObj, hint, t)
		o.dom, o.mval, o.mlen = c.Get(x, "dom"), c.Get(x, "val"), c.Get(x, "n")
		st.assume(c.Le(c.zero, o.mlen))
		st.assume(c.Le(o.mlen, c.I(maxLen)))
		return &RefV{obj: o.id, isnil: c.Get(x, "nil")}
	}
	return x
}

type arrayV struct{ obj int }

const maxLen = int64(1) << 48

// mkSlice makes a slice over a fresh array holding els (plus unknown spare capacity).
func (st *State) mkSlice(els, isnil *Term, elemT types.Type, hint string) *SliceV {
	c := st.ex.c
	n := c.Len(els)
	if isnil == c.T {
		return st.nilSlice(elemT)
	}
	o := st.newObj(OArr, hint, elemT)
	o.elemS = els.sort.elem
	spare := c.Fresh("spare", els.sort)
	o.seq = c.Cat(els.sort, els, spare)
	st.assume(c.Le(n, c.I(maxLen)))
	st.assume(c.Le(c.Len(spare), c.I(maxLen)))
	if isnil != c.F {
		st.assume(c.Imp(isnil, c.Eq(c.Add(n, c.Len(spare)), c.zero)))
	}
	return &SliceV{arr: o.id, off: c.zero, len: n, cap: c.Len(o.seq), isnil: isnil}
}

// exactSlice makes a slice whose capacity is its length.
func (st *State) exactSlice(els *Term, elemT types.Type, hint string) *SliceV {
	c := st.ex.c
	o := st.newObj(OArr, hint, elemT)
	o.elemS = els.sort.elem
	o.seq = els
	n := c.Len(els)
	return &SliceV{arr: o.id, off: c.zero, len: n, cap: n, isnil: c.F}
}

func (st *State) nilSlice(elemT types.Type) *SliceV {
	c := st.ex.c
	o := st.newObj(OArr, "nil", elemT)
	o.elemS = st.ex.elemSort(elemT)
	o.seq = c.Empty(c.Seq(o.elemS))
	return &SliceV{arr: o.id, off: c.zero, len: c.zero, cap: c.zero, isnil: c.T}
}

// arrSeq reads the content of an array object, folding back modified elements.
func (st *State) arrSeq(id int) *Term {
	st.flush(id)
	return st.objs[id].seq
}

func (st *State) flush(id int) {
	for i := range st.views {
		v := &st.views[i]
		if v.arr == id && v.dirty {
			v.dirty = false
			o := st.mut(id)
			el := st.toDeep(&PtrV{obj: v.obj}, types.NewPointer(st.objs[v.obj].typ), true)
			o.seq = st.q().Upd(o.seq, v.idx, el)
		}
	}
}

func (st *State) sliceEls(s *SliceV) *Term {
	return st.q().Sub(st.arrSeq(s.arr), s.off, st.ex.c.Add(s.off, s.len))
}

// toDeep is the logical value of an executable value.
func (st *State) toDeep(v Value, t types.Type, elem bool) *Term {
	ex := st.ex
	c := ex.c
	t = ex.words(t)
	switch x := v.(type) {
	case *Term:
		if x.sort.kind == KUn && !elem {
			return x
		}
		return x
	case *StructV:
		u := x.typ.Underlying().(*types.Struct)
		s := ex.deepSort(x.typ)
		fs := make([]*Term, len(x.fields))
		for i := range x.fields {
			_, isSl := x.fields[i].(*SliceV)
			fs[i] = st.toDeep(x.fields[i], u.Field(i).Type(), isSl && s.fields[i].sort.kind == KSeq)
		}
		return c.Mk(s, fs...)
	case *SliceV:
		els := st.sliceEls(x)
		if elem {
			return els
		}
		return c.Mk(ex.slSort(els.sort.elem), x.isnil, els)
	case *PtrV:
		u, ok := t.Underlying().(*types.Pointer)
		if !ok {
			panic(unsupported("toDeep pointer as " + t.String()))
		}
		s := ex.deepSort(t)
		if s.kind == KUn {
			return c.Fresh("ptr", s)
		}
		if x.obj < 0 {
			if elem {
				panic(unsupported("nil element pointer"))
			}
			return c.Mk(s, c.T, c.Var("nilv_"+s.name, s.fields[1].sort))
		}
		inner := st.toDeep(st.load(x), u.Elem(), false)
		if elem {
			return inner
		}
		n := c.F
		if x.isnil != nil {
			n = x.isnil
		}
		return c.Mk(s, n, inner)
	case *RefV:
		o := st.objs[x.obj]
		s := ex.deepSort(t)
		if o.kind == OMapObj {
			n := c.F
			if x.isnil != nil {
				n = x.isnil
			}
			return c.Mk(s, n, o.dom, o.mval, o.mlen)
		}
		return c.Var(fmt.Sprintf("chan%d", x.obj), s)
	case *IfaceV:
		if x.typ == nil {
			return c.Var("nilAny", c.Un("Any"))
		}
		return ex.box(x.typ, st.toDeep(x.val, x.typ, true))
	case *FuncV:
		return st.funcTerm(x)
	case *arrayV:
		return st.arrSeq(x.obj)
	}
	panic(unsupported(fmt.Sprintf("toDeep %T", v)))
}

func (ex *Exec) typeTag(t types.Type) *Term {
	n := typeName(t)
	id, ok := ex.tags[n]
	if !ok {
		id = len(ex.tags) + 1
		ex.tags[n] = id
	}
	return ex.c.I(int64(id))
}

func (ex *Exec) box(t types.Type, v *Term) *Term {
	c := ex.c
	n := mangle(typeName(t))
	// box(unbox(x)) = x
	if v.op == OApp && v.name == "unbox_"+n {
		return v.args[0]
	}
	b := c.App("box_"+n, c.Un("Any"), v)
	if b.facts == nil {
		b.facts = []*Term{
			c.Eq(c.App("anytag", c.Int(), b), ex.typeTag(t)),
		}
		u := c.mk(&Term{op: OApp, name: "unbox_" + n, args: []*Term{b}, sort: v.sort})
		b.facts = append(b.facts, c.mkEqRaw(u, v))
	}
	return b
}

func (ex *Exec) unbox(t types.Type, a *Term) *Term {
	c := ex.c
	n := mangle(typeName(t))
	if a.op == OApp && a.name == "box_"+n {
		return a.args[0]
	}
	return c.App("unbox_"+n, ex.elemSort(t), a)
}

func (ex *Exec) anyTag(a *Term) *Term {
	c := ex.c
	if a.op == OApp && strings.HasPrefix(a.name, "box_") {
		for n, id := range ex.tags {
			if "box_"+mangle(n) == a.name {
				return c.I(int64(id))
			}
		}
	}
	return c.App("anytag", c.Int(), a)
}

type unsupportedErr struct{ msg string }

func unsupported(m string) unsupportedErr { return unsupportedErr{m} }

// ---------------------------------------------------------------- memory access

func (st *State) zero(t types.Type) Value {
	ex := st.ex
	c := ex.c
	t = ex.words(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		s := ex.intSort(u)
		switch s.kind {
		case KInt:
			return c.zero
		case KBool:
			return c.F
		case KSeq:
			return c.Empty(s)
		case KBV:
			return ex.bvConst(0, s.bits)
		}
		return c.Var("zero_"+s.name, s)
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && !isRepoType(ex, n) {
			return c.Var("zero_"+typeName(t), ex.deepSort(t))
		}
		sv := &StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.fields = append(sv.fields, st.zero(u.Field(i).Type()))
		}
		return sv
	case *types.Pointer:
		return &PtrV{obj: -1, isnil: c.T}
	case *types.Slice:
		return st.nilSlice(u.Elem())
	case *types.Map:
		o := st.newObj(OMapObj, "nilmap", t)
		st.emptyMap(o)
		return &RefV{obj: o.id, isnil: c.T}
	case *types.Chan:
		return &RefV{obj: -1, isnil: c.T}
	case *types.Signature:
		return &FuncV{isnil: true}
	case *types.Interface:
		return &IfaceV{}
	case *types.Array:
		o := st.newObj(OArr, "array", u.Elem())
		o.elemS = ex.elemSort(u.Elem())
		z := st.zeroElem(u.Elem())
		o.seq = c.Rep(c.Seq(o.elemS), z, c.I(u.Len()))
		return &arrayV{obj: o.id}
	}
	panic(unsupported("zero of " + t.String()))
}

func getPath(v Value, path []int) Value {
	for _, i := range path {
		sv, ok := v.(*StructV)
		if !ok {
			panic(unsupported(fmt.Sprintf("field path into %T", v)))
		}
		v = sv.fields[i]
	}
	return v
}

func setPath(v Value, path []int, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	sv, ok := v.(*StructV)
	if !ok {
		panic(unsupported(fmt.Sprintf("field path into %T", v)))
	}
	n := &StructV{typ: sv.typ, fields: append([]Value(nil), sv.fields...)}
	n.fields[path[0]] = setPath(n.fields[path[0]], path[1:], nv)
	return n
}

func (st *State) load(p *PtrV) Value {
	o := st.objs[p.obj]
	if o == nil {
		panic(unsupported("load through unknown pointer"))
	}
	if o.kind == OArr && p.idx != nil {
		el := st.loadElem(p.obj, p.idx)
		return getPath(el, p.path)
	}
	return getPath(o.val, p.path)
}

func (st *State) loadElem(arr int, idx *Term) Value {
	o := st.objs[arr]
	if _, isPtr := o.typ.Underlying().(*types.Pointer); isPtr && st.ex.deepSort(o.typ).kind != KUn {
		for i := range st.views {
			v := &st.views[i]
			if v.arr == arr && !v.stale && (v.idx == idx || st.yes(st.ex.c.Eq(v.idx, idx))) {
				return &PtrV{obj: v.obj}
			}
		}
		seq := st.arrSeq(arr)
		x := st.q().Nth(seq, idx)
		for i := range st.views {
			v := &st.views[i]
			if v.arr == arr && !v.stale && !st.no(st.ex.c.Eq(v.idx, idx)) {
				v.stale = true
			}
		}
		p := st.fromDeep(x, o.typ, true, o.name+"[]").(*PtrV)
		vo := st.mut(p.obj)
		vo.linkArr, vo.linkIdx = arr, idx
		st.views = append(st.views, view{arr: arr, idx: idx, obj: p.obj})
		return p
	}
	seq := st.arrSeq(arr)
	return st.fromDeep(st.q().Nth(seq, idx), o.typ, true, o.name+"[]")
}

func (st *State) store(p *PtrV, v Value) {
	o := st.objs[p.obj]
	if o == nil {
		panic(unsupported("store through unknown pointer"))
	}
	if o.frozen != "" {
		st.ex.fail(st, "frozen", "write to "+o.name+" after "+o.frozen)
	}
	if o.kind == OArr && p.idx != nil {
		if len(p.path) > 0 {
			el := st.loadElem(p.obj, p.idx)
			v = setPath(el, p.path, v)
		}
		st.arrWrite(p.obj, p.idx, st.toDeep(v, o.typ, true))
		return
	}
	// keep embedded array storage in place
	n := st.mut(p.obj)
	if av, ok := v.(*arrayV); ok {
		v = st.copyArray(av)
	}
	n.val = setPath(n.val, p.path, v)
	st.markDirty(p.obj)
}

func (st *State) copyArray(a *arrayV) *arrayV {
	src := st.objs[a.obj]
	o := st.newObj(OArr, src.name, src.typ)
	o.seq = st.arrSeq(a.obj)
	o.elemS = src.elemS
	return &arrayV{obj: o.id}
}

// markDirty records that an object reachable from a container element changed.
func (st *State) markDirty(obj int) {
	for i := range st.views {
		v := &st.views[i]
		if v.obj == obj {
			if v.stale {
				panic(unsupported("write through a possibly aliased element pointer"))
			}
			v.dirty = true
			if st.writes != nil {
				st.writes[v.arr] = true
			}
			// the container itself may be held by another element
			st.markOwner(v.arr)
		}
	}
}

// markOwner marks objects whose fields hold slices over arr dirty.
func (st *State) markOwner(arr int) {
	for i := range st.views {
		v := &st.views[i]
		if v.dirty {
			continue
		}
		if holds(st.objs[v.obj].val, arr) {
			if v.stale {
				panic(unsupported("write through a possibly aliased element"))
			}
			v.dirty = true
			if st.writes != nil {
				st.writes[v.arr] = true
			}
			st.markOwner(v.arr)
		}
	}
}

func holds(v Value, arr int) bool {
	switch x := v.(type) {
	case *SliceV:
		return x.arr == arr
	case *StructV:
		for _, f := range x.fields {
			if holds(f, arr) {
				return true
			}
		}
	}
	return false
}

// arrWrite stores an element; idx must be known to be within the array.
func (st *State) arrWrite(arr int, idx, v *Term) {
	c := st.ex.c
	seq := st.arrSeq(arr)
	if f := st.objs[arr].frozen; f != "" {
		st.ex.fail(st, "memory ownership", "write to "+st.objs[arr].name+" after "+f)
	}
	o := st.mut(arr)
	o.seq = st.q().Upd(seq, idx, v)
	for i := range st.views {
		w := &st.views[i]
		if w.arr == arr && !w.stale && !st.no(c.Eq(w.idx, idx)) {
			w.stale = true
		}
	}
	st.relatives(arr, idx)
	st.markOwner(arr)
	_ = c
}

// relatives havocs arrays that may share storage with the written index.
func (st *State) relatives(arr int, idx *Term) {
	c := st.ex.c
	o := st.objs[arr]
	if o.parent >= 0 && st.objs[o.parent] != nil {
		if !st.yes(c.Ge(idx, o.shared)) {
			st.havocArr(o.parent, "shared storage")
		}
	}
	for _, ch := range o.children {
		if st.objs[ch] != nil && !st.yes(c.Ge(idx, st.objs[ch].shared)) {
			st.havocArr(ch, "shared storage")
		}
	}
}

func (st *State) havocArr(id int, why string) {
	c := st.ex.c
	if f := st.objs[id].frozen; f != "" && why == "shared storage" {
		st.ex.fail(st, "memory ownership", "write to storage shared with "+st.objs[id].name+" after "+f)
	}
	o := st.mut(id)
	n := c.Len(o.seq)
	o.seq = c.Fresh("hv_"+o.name, o.seq.sort)
	st.assume(c.Eq(c.Len(o.seq), n))
}

// appendTo models append(s, els...): the result owns a new array whose prefix may be shared.
func (st *State) appendTo(s *SliceV, els *Term, elemT types.Type) *SliceV {
	c := st.ex.c
	old := st.sliceEls(s)
	n := c.Len(els)
	if n == c.zero {
		return s
	}
	src := st.objs[s.arr]
	o := st.newObj(OArr, src.name, elemT)
	o.elemS = src.elemS
	spare := c.Fresh("spare", old.sort)
	o.seq = c.Cat(old.sort, old, els, spare)
	st.assume(c.Le(c.Len(spare), c.I(maxLen)))
	total := c.Add(s.len, n)
	st.assume(c.Le(total, c.I(maxLen)))
	o.parent = s.arr
	o.shared = s.len
	// storage beyond the end of the old slice may have been overwritten
	ps := st.mut(s.arr)
	ps.children = append(ps.children, o.id)
	end := c.Add(s.off, s.len)
	full := c.Len(ps.seq)
	if end != full {
		pre := st.q().Sub(ps.seq, c.zero, end)
		tail := c.Fresh("tail", old.sort)
		st.assume(c.Eq(c.Len(tail), c.Sub2(full, end)))
		ps.seq = c.Cat(old.sort, pre, tail)
	}
	isnil := s.isnil
	if isnil != c.F {
		isnil = c.And(isnil, c.Eq(n, c.zero))
	}
	return &SliceV{arr: o.id, off: c.zero, len: total, cap: c.Len(o.seq), isnil: isnil}
}

// ---------------------------------------------------------------- maps

func (ex *Exec) rawOp(op string, s *Sort, args ...*Term) *Term {
	return ex.c.mk(&Term{op: ORaw, name: op, args: args, sort: s})
}

func (st *State) emptyMap(o *Obj) {
	ex := st.ex
	c := ex.c
	m := o.typ.Underlying().(*types.Map)
	k, v := ex.elemSort(m.Key()), ex.elemSort(m.Elem())
	o.dom = ex.rawOp("(as const "+c.Map(k, c.Bool()).smt+")", c.Map(k, c.Bool()), c.F)
	o.mval = c.Var("map0_"+k.name+"_"+v.name, c.Map(k, v))
	o.mlen = c.zero
}

func (ex *Exec) sel(m, k *Term) *Term {
	c := ex.c
	for m.op == ORaw && m.name == "store" {
		if m.args[1] == k {
			return m.args[2]
		}
		if c.Eq(m.args[1], k) == c.F {
			m = m.args[0]
			continue
		}
		break
	}
	if m.op == ORaw && len(m.args) == 1 && m.sort.kind == KMap {
		return m.args[0]
	}
	return ex.rawOp("select", m.sort.elem, m, k)
}
func (ex *Exec) sto(m, k, v *Term) *Term {
	if m.op == ORaw && m.name == "store" && m.args[1] == k {
		return ex.sto(m.args[0], k, v)
	}
	// an earlier store at the same key below stores at other keys
	for x := m; x.op == ORaw && x.name == "store"; x = x.args[0] {
		if x.args[1] == k {
			var over func(y *Term) *Term
			over = func(y *Term) *Term {
				if y == x {
					return y.args[0]
				}
				return ex.rawOp("store", y.sort, over(y.args[0]), y.args[1], y.args[2])
			}
			m = over(m)
			break
		}
		if ex.c.Eq(x.args[1], k) != ex.c.F {
			break
		}
	}
	if v == ex.sel(m, k) {
		return m
	}
	return ex.rawOp("store", m.sort, m, k, v)
}

func (ex *Exec) bvConst(v int64, bits int) *Term {
	return ex.bvBig(bigInt(v), bits)
}
