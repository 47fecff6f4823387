package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- static loop information

type LoopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	pos    token.Pos
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*LoopInfo {
	out := map[*ssa.BasicBlock]*LoopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			li := out[s]
			if li == nil {
				li = &LoopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
				out[s] = li
			}
			stack := []*ssa.BasicBlock{b}
			for len(stack) > 0 {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if li.body[x] {
					continue
				}
				li.body[x] = true
				stack = append(stack, x.Preds...)
			}
		}
	}
	for _, li := range out {
		for b := range li.body {
			for _, in := range b.Instrs {
				switch in.(type) {
				case *ssa.Phi, *ssa.DebugRef, *ssa.Alloc: // positions of declarations
					continue
				}
				if p := in.Pos(); p.IsValid() && (!li.pos.IsValid() || p < li.pos) {
					li.pos = p
				}
			}
		}
	}
	return out
}

type loopItem struct {
	pos token.Pos
	li  *LoopInfo
	fn  *ssa.Function
	key string
}

// numberLoops assigns ordinals to the loops of fn and of the functions inlined into it, in source order.
func (ex *Exec) numberLoops(fn *ssa.Function, key string, seen map[*ssa.Function]bool) {
	if seen[fn] || fn.Blocks == nil {
		return
	}
	seen[fn] = true
	defer delete(seen, fn)
	var items []loopItem
	for _, li := range ex.p.loops(fn) {
		items = append(items, loopItem{pos: li.pos, li: li})
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				if f := x.Call.StaticCallee(); f != nil && ex.inlinable(f) {
					items = append(items, loopItem{pos: x.Pos(), fn: f, key: key + "/" + fmt.Sprint(int(x.Pos()))})
				}
			case *ssa.MakeClosure:
				f := x.Fn.(*ssa.Function)
				if ex.inlinable(f) {
					p := x.Pos()
					if f.Pos().IsValid() && f.Parent() == fn {
						p = f.Pos()
					}
					items = append(items, loopItem{pos: p, fn: f, key: "~" + f.String()})
				}
			}
		}
	}
	sort.SliceStable(items, func(i, j int) bool { return items[i].pos < items[j].pos })
	for _, it := range items {
		if it.li != nil {
			k := key + "#" + fmt.Sprint(it.li.header.Index)
			if _, ok := ex.loopIds[k]; !ok {
				ex.loopIds[k] = len(ex.loopIds)
			}
		} else {
			ex.numberLoops(it.fn, it.key, seen)
		}
	}
}

// ---------------------------------------------------------------- active loops

type LoopAct struct {
	li       *LoopInfo
	ord      int
	spec     *LoopSpec
	iter     *Term
	discover bool
	backs    []*State
	entry    *State
	hav      map[string]int
	leaves   []*leaf // integer leaves of the havoced header
	cands    []*cand
	depth    int
	key      string
	memo     *loopMemo
	tails    map[string]*Term
	sorts    map[string]*Sort
	aff      map[string]*bigI
	hdrState *State
	mark     int // variables created later belong to the iteration
}

type bigI = big.Int

type leaf struct {
	key   string
	hdr   *Term // value at the header
	entry *Term
}

type cand struct {
	mk   func(get func(key string, st *State) *Term, iter *Term) *Term
	desc string
}

func (r *runner) loopEntry(st *State, fr *Frame, li *LoopInfo) bool {
	ex := r.ex
	b := fr.block
	key := fr.key + "#" + fmt.Sprint(b.Index)
	ord, ok := ex.loopIds[key]
	if !ok {
		ord = len(ex.loopIds) + 100
	}
	var spec *LoopSpec
	if ex.ct != nil && ok {
		spec = ex.ct.loops[ord]
	}
	if spec == nil && r.constCond(st) {
		fr.unroll[b]++
		if fr.unroll[b] > 600 {
			panic(unsupported("loop unrolled too often"))
		}
		delete(fr.loops, b)
		return true
	}
	act := &LoopAct{li: li, ord: ord, spec: spec, depth: len(st.frames)}
	for i := range st.views {
		if !st.views[i].stale {
			st.views[i].dirty = true
		}
	}
	act.entry = st.clone()
	act.key = key
	ex.cutLoop(st, act)
	if spec != nil {
		// the invariants hold on entry
		e2 := st.clone()
		act.iter = ex.c.zero
		for i, inv := range spec.invs {
			t, err := ex.evalInv(e2, act, inv)
			if err != "" {
				ex.fail(st, act.name(i, inv)+" is expressible", err)
				continue
			}
			ex.check(e2, act.name(i, inv)+" holds initially", t)
		}
	}
	hs, iter := ex.havocState(act.entry, act)
	act.iter = iter
	if ex.dry == 0 {
		ex.covers["loop "+fmt.Sprint(ord)+" reached"] = true
	}
	ex.assumeInvs(hs, act)
	act.hdrState = hs.clone()
	if ex.dry == 0 {
		ev := ex.leafVals(act.entry, act, false)
		get := func(k string, _ *State) *Term { return ev[k] }
		for _, k := range act.cands {
			if !act.entry.yes(k.mk(get, ex.c.zero)) {
				ex.fail(st, fmt.Sprintf("loop %d: bounds found hold initially", act.ord), "")
			}
		}
	}
	*st = *hs
	st.run = r
	return !st.infeasible()
}

func (a *LoopAct) name(i int, inv Clause) string {
	l := inv.label
	if l == "" {
		l = fmt.Sprint(i)
	}
	return fmt.Sprintf("loop %d invariant %s", a.ord, l)
}

// constCond: the exit test of the loop is decided by constants here.
func (r *runner) constCond(st *State) bool {
	b := st.top().block
	for _, in := range b.Instrs[st.top().pc:] {
		switch in.(type) {
		case *ssa.BinOp, *ssa.DebugRef, *ssa.If, *ssa.UnOp, *ssa.Call, *ssa.Phi, *ssa.Convert, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Extract:
		default:
			return false
		}
		if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
			return false
		}
		if cl, ok := in.(*ssa.Call); ok {
			if _, bi := cl.Call.Value.(*ssa.Builtin); !bi {
				return false
			}
		}
	}
	if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); !ok {
		return false
	}
	sim := st.clone()
	fr := sim.top()
	r.ex.dry++
	defer func() { r.ex.dry-- }()
	ok := true
	func() {
		defer func() {
			if x := recover(); x != nil {
				ok = false
			}
		}()
		for fr.pc < len(b.Instrs)-1 {
			in := b.Instrs[fr.pc]
			fr.pc++
			sub := &runner{ex: r.ex}
			if !sub.step(sim, fr, in) || len(sub.work) > 0 {
				ok = false
				return
			}
		}
	}()
	if !ok {
		return false
	}
	iff := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	t, isT := fr.regs[iff.Cond].(*Term)
	if !isT {
		if cst, isC := iff.Cond.(*ssa.Const); isC {
			_ = cst
		}
		return false
	}
	return t.op == OTrue || t.op == OFalse
}

// ---------------------------------------------------------------- discovery of the loop's effect

func (ex *Exec) cutLoop(st *State, act *LoopAct) {
	act.hav = map[string]int{}
	act.tails = map[string]*Term{}
	act.sorts = map[string]*Sort{}
	act.aff = map[string]*bigI{}
	// While the effect of an outer loop is being found, what was found here before is taken over; it is checked
	// where the body reaches its back edge, and the outer loop goes another round if it was incomplete.
	if memo := ex.loopMemo[act.key]; ex.dry > 0 && memo != nil && !memo.slow {
		act.memo = memo
		for k, v := range memo.hav {
			act.hav[k] = v
		}
		for k, v := range memo.aff {
			act.aff[k] = v
		}
		for n := range memo.spare {
			if sv, ok := act.phiSlice(n); ok {
				k := fmt.Sprintf("obj%d", sv.arr)
				act.hav[k] = 1
				act.tails[k] = ex.c.Add(sv.off, sv.len)
			}
		}
		return
	}
	act.discover = true
	ex.dry++
	defer func() {
		ex.dry--
		act.discover = false
		m := &loopMemo{spare: map[string]bool{}, hav: map[string]int{}, aff: map[string]*bigI{}}
		for k, v := range act.hav {
			var id int
			if n, _ := fmt.Sscanf(k, "obj%d", &id); n == 1 && k == fmt.Sprintf("obj%d", id) {
				if o := act.entry.objs[id]; o == nil || o.kind != OCell {
					if n := act.spareOf(id); n != "" && v == 1 && act.tails[k] != nil {
						if sv, ok := act.phiSlice(n); ok && act.tails[k] == ex.c.Add(sv.off, sv.len) {
							m.spare[n] = true
							continue
						}
					}
					m.slow = true // found afresh each time
					continue
				}
			}
			m.hav[k] = v
		}
		for k, v := range act.aff {
			m.aff[k] = v
		}
		if old := ex.loopMemo[act.key]; old != nil {
			m.slow = m.slow || old.slow
			for k := range old.spare {
				m.spare[k] = true
			}
			for k, v := range old.hav {
				m.hav[k] = max(m.hav[k], v)
				if _, ok := m.aff[k]; ok && act.hav[k] == 0 {
					delete(m.aff, k)
				}
			}
			for k, v := range m.aff {
				if _, was := old.hav[k]; was && (old.aff[k] == nil || old.aff[k].Cmp(v) != 0) {
					delete(m.aff, k)
				}
			}
		}
		ex.loopMemo[act.key] = m
	}()
	for round := 0; ; round++ {
		if round > 12 {
			panic(unsupported("loop effect does not stabilise"))
		}
		gen := ex.memoChanged
		backs := ex.oneIteration(act)
		changed := ex.memoChanged != gen
		for _, bs := range backs {
			// globals first touched inside the loop
			for g := range bs.glob {
				if _, ok := act.entry.glob[g]; !ok {
					act.entry.globalPtr(g)
					changed = true
				}
			}
		}
		if changed {
			continue
		}
		for _, bs := range backs {
			if ex.diffState(act, bs) {
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	// affine and bound candidates
	ex.houdini(act)
}

type loopMemo struct {
	spare map[string]bool // loop variables behind whose slices the loop writes
	slow  bool
	hav   map[string]int
	aff   map[string]*bigI
}

// oneIteration runs the loop body once from the havoced header and returns the back edge states.
func (ex *Exec) oneIteration(act *LoopAct) []*State {
	if debugLoops {
		q0, t0 := ex.solver.Queries, time.Now()
		fmt.Fprintf(os.Stderr, "%*sloop %s dry=%d memo=%v\n", ex.dry*2, "", act.key[max(0, len(act.key)-12):], ex.dry, ex.loopMemo[act.key] != nil)
		defer func() {
			fmt.Fprintf(os.Stderr, "%*sdone %s q=%d backs=%d %v\n", ex.dry*2, "", act.key[max(0, len(act.key)-12):], ex.solver.Queries-q0, len(act.backs), time.Since(t0))
		}()
	}
	hs, iter := ex.havocState(act.entry, act)
	act.iter = iter
	ex.assumeInvs(hs, act)
	act.backs = nil
	act.hdrState = hs.clone()
	if hs.infeasible() {
		return nil
	}
	sub := &runner{ex: ex, depth: act.depth, body: act.li.body, onExit: func(*State, []Value) {}}
	ex.run(hs, sub)
	return act.backs
}

func (ex *Exec) assumeInvs(hs *State, act *LoopAct) {
	for _, k := range act.cands {
		hs.assume(k.mk(act.getter(), act.iter))
	}
	if act.spec != nil {
		for _, inv := range act.spec.invs {
			t, err := ex.evalInv(hs, act, inv)
			if err == "" {
				hs.assume(t)
			}
		}
		if ex.dry == 0 && !hs.quick {
			for _, u := range act.spec.uses {
				ev := ex.stateEv(hs.clone())
				ev.dec = hs.decide
				ev.vars["iter"] = act.iter
				act.bindOrder(hs, ev)
				ev.begin = ex.stateEv(act.entry.clone())
				if e := guardSpec(func() { hs.useLemmaEv(u, ev, nil) }); e != "" {
					ex.fail(hs, "loop lemma is applicable", e)
				}
			}
		}
	}
}

// bindOrder: rangeOrder names the order in which a loop over a map visits the keys.
func (a *LoopAct) bindOrder(st *State, ev *Ev) {
	// a variable carried by the loop, not one of the same name whose address is taken
	for _, ph := range ev.st.ex.phis(st.top(), a.li.header) {
		if v := st.top().regs[ph]; v != nil && st.top().names["&"+ph.Comment] != nil {
			ev.vars[ph.Comment] = st.deepNamed(v)
		}
	}
	for _, in := range a.li.header.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if it, ok := st.top().regs[nx.Iter].(*IterV); ok {
				ev.vars["rangeOrder"] = st.objs[it.obj].seq
			}
		}
	}
}

func (a *LoopAct) getter() func(string, *State) *Term {
	return func(key string, st *State) *Term {
		for _, l := range a.leaves {
			if l.key == key {
				return l.hdr
			}
		}
		return nil
	}
}

// walk visits the leaves of the loop state; f gets the key and the value and returns the replacement.
type visitor struct {
	wf   func(*SliceV)
	ct   types.Type // Go type of the value being visited
	st   *State
	term func(key string, t *Term) *Term
	// pointers replaced by the loop
	ref func(key string, x *RefV) Value
	ptr func(key string, t types.Type) Value
	// interface values replaced
	iface func(key string) Value
	// slices whose array is replaced
	slice func(key string, s *SliceV) *SliceV
}

func (v *visitor) val(key string, x Value, t types.Type) Value {
	switch y := x.(type) {
	case *Term:
		v.ct = t
		defer func() { v.ct = nil }()
		return v.term(key, y)
	case *SliceV:
		if n := v.slice(key, y); n != nil {
			return n
		}
		n := &SliceV{arr: y.arr, off: v.term(key+".off", y.off), len: v.term(key+".len", y.len), cap: v.term(key+".cap", y.cap), isnil: v.term(key+".nil", y.isnil)}
		if v.wf != nil && (n.off != y.off || n.len != y.len || n.cap != y.cap) {
			v.wf(n)
		}
		return n
	case *PtrV:
		if v.ptr != nil {
			if n := v.ptr(key, t); n != nil {
				return n
			}
		}
		n := *y
		if y.idx != nil {
			n.idx = v.term(key+".idx", y.idx)
		}
		if y.isnil != nil && y.obj >= 0 {
			n.isnil = v.term(key+".isnil", y.isnil)
		}
		return &n
	case *StructV:
		n := &StructV{typ: y.typ}
		for i, f := range y.fields {
			var ft types.Type
			if u, ok := y.typ.Underlying().(*types.Struct); ok && i < u.NumFields() {
				ft = u.Field(i).Type()
			}
			n.fields = append(n.fields, v.val(fmt.Sprintf("%s.%d", key, i), f, ft))
		}
		return n
	case *RefV:
		if v.ref != nil {
			if n := v.ref(key, y); n != nil {
				return n
			}
		}
		return y
	case *IfaceV:
		if v.iface != nil {
			if n := v.iface(key); n != nil {
				return n
			}
		}
	}
	return x
}

func (ex *Exec) phis(fr *Frame, b *ssa.BasicBlock) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			ps = append(ps, p)
		}
	}
	return ps
}

func (st *State) isMapRef(x *RefV) bool {
	return x.obj >= 0 && st.objs[x.obj] != nil && st.objs[x.obj].kind == OMapObj
}

func sortedObjs(st *State) []int {
	var ids []int
	for id := range st.objs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	return ids
}

// havocState builds the header state of an arbitrary iteration.
func (ex *Exec) havocState(entry *State, act *LoopAct) (*State, *Term) {
	c := ex.c
	st := entry.clone()
	fr := st.top()
	act.mark = c.fresh
	iter := c.Fresh("iter", c.Int())
	st.assume(c.Le(c.zero, iter))
	st.assume(c.Le(iter, c.I(1<<62)))
	ex.assumption("no loop runs for more than 2^62 iterations")
	act.leaves = nil
	frozen := map[int]*Term{}
	_ = frozen
	fl := map[string]bool{}
	vis := &visitor{st: st}
	vis.term = func(key string, t *Term) *Term {
		m, ok := act.hav[key]
		if !ok {
			return t
		}
		if k, isAff := act.affine(key); isAff && t.sort.kind == KInt {
			return c.Add(t, c.MulC(iter, k))
		}
		_ = m
		ls := leafSort(c, act, key, t)
		if vis.ct != nil && ls.kind == KInt {
			if b, ok := vis.ct.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				ls = ex.deepSort(vis.ct)
			}
		}
		n := c.Fresh("h_"+key, ls)
		if t.sort.kind == KInt && !fl[key] {
			act.leaves = append(act.leaves, &leaf{key, n, t})
		}
		return n
	}
	vis.wf = func(s *SliceV) { // every slice value is within its array
		if s.arr >= 0 && st.objs[s.arr] != nil {
			st.assume(c.Le(c.zero, s.off))
			st.assume(c.Le(c.zero, s.len))
			st.assume(c.Le(s.len, s.cap))
			st.assume(c.Le(c.Add(s.off, s.cap), c.Len(st.arrSeq(s.arr))))
		}
	}
	vis.iface = func(key string) Value {
		if act.hav[key+".iface"] == 0 {
			return nil
		}
		return c.Fresh("h_"+key, c.Un("Any"))
	}
	vis.ptr = func(key string, t types.Type) Value {
		if act.hav[key+".ptr"] == 0 {
			return nil
		}
		if t == nil {
			panic(unsupported("pointer variable changed by a loop"))
		}
		p, ok := st.fromDeep(ex.freshDeep("h_"+key, t), t, false, "h_"+key).(*PtrV)
		if !ok {
			panic(unsupported("pointer variable changed by a loop"))
		}
		if p.obj >= 0 {
			st.freeze(p, "the loop carried the pointer into another iteration")
		}
		return p
	}
	vis.ref = func(key string, x *RefV) Value {
		if act.hav[key+".ref"] == 0 {
			return nil
		}
		t := st.objs[x.obj].typ
		return st.fromDeep(ex.freshDeep("h_"+key, t), t, false, "h_"+key)
	}
	vis.slice = func(key string, s *SliceV) *SliceV {
		if act.hav[key+".arr"] == 0 {
			return nil
		}
		src := st.objs[s.arr]
		o := st.newObj(OArr, src.name, src.typ)
		o.elemS = src.elemS
		els := c.Fresh("h_"+key, c.Seq(src.elemS))
		spare := c.Fresh("spare", c.Seq(src.elemS))
		o.seq = c.Cat(els.sort, els, spare)
		o.parent, o.shared = s.arr, s.len
		st.assume(c.Le(c.Len(els), c.I(maxLen)))
		st.assume(c.Le(c.Len(spare), c.I(maxLen)))
		n := c.Len(els)
		if k, ok := act.affine(key + ".len"); ok {
			st.assume(c.Eq(n, c.Add(s.len, c.MulC(iter, k))))
		}
		act.leaves = append(act.leaves, &leaf{key + ".len", n, s.len})
		isnil := s.isnil
		if act.hav[key+".nil"] != 0 || isnil != c.F {
			isnil = c.Fresh("isnil", c.Bool())
			st.assume(c.Imp(isnil, c.Eq(c.Len(o.seq), c.zero)))
		}
		return &SliceV{arr: o.id, off: c.zero, len: n, cap: c.Len(o.seq), isnil: isnil}
	}
	// objects first (arrays referred to by slices keep their identity)
	for _, id := range sortedObjs(entry) {
		o := st.objs[id]
		key := fmt.Sprintf("obj%d", id)
		switch o.kind {
		case OCell:
			if o.val != nil {
				nv := vis.val(key, o.val, o.typ)
				st.mut(id).val = nv
			}
		case OArr:
			if m := act.hav[key]; m != 0 {
				n := st.mut(id)
				full := c.Len(n.seq)
				h := c.Fresh("h_"+o.name, n.seq.sort)
				if m == 1 && act.tails[key] != nil {
					l := act.tails[key]
					st.assume(c.Eq(c.Len(h), c.Sub2(full, l)))
					n.seq = c.Cat(n.seq.sort, st.q().Sub(n.seq, c.zero, l), h)
				} else {
					st.assume(c.Eq(c.Len(h), full))
					n.seq = h
				}
			}
		case OMapObj:
			if act.hav[key+".dom"] != 0 {
				n := st.mut(id)
				n.dom = c.Fresh("hdom", o.dom.sort)
				n.mlen = vis.term(key+".n", o.mlen)
				if act.hav[key+".n"] != 0 {
					st.assume(c.Le(c.zero, n.mlen))
				}
			}
			if act.hav[key+".val"] != 0 {
				st.mut(id).mval = c.Fresh("hval", o.mval.sort)
			}
		case OChanObj:
			n := st.mut(id)
			if act.hav[key+".sent"] != 0 {
				n.seq = c.Fresh("h_sent", o.seq.sort)
				st.assume(c.Le(c.Len(n.seq), c.I(1<<62)))
				ex.assumption("no channel carries more than 2^62 messages")
			}
			if o.n != nil {
				n.n = vis.term(key+".n", o.n)
			}
		case OIterObj:
			st.mut(id).n = vis.term(key+".n", o.n)
			if act.hav[key+".n"] != 0 {
				st.assume(c.Le(c.zero, st.objs[id].n))
				st.assume(c.Le(st.objs[id].n, c.Len(o.seq)))
			}
		case OGhost:
			if act.hav[key] != 0 {
				st.mut(id).seq = c.Fresh("h_ghost", o.seq.sort)
			}
		}
	}
	for _, ph := range ex.phis(fr, act.li.header) {
		fr.regs[ph] = vis.val("phi_"+ph.Name(), fr.regs[ph], ph.Type())
	}
	for _, ph := range ex.phis(fr, act.li.header) {
		if ph.Comment != "" {
			fr.names[ph.Comment] = fr.regs[ph]
		}
	}
	fr.loops[act.li.header] = act
	return st, iter
}

func flushNew(st *State, from int) {
	for i := from; i < len(st.views); i++ {
		if st.views[i].dirty {
			st.flush(st.views[i].arr)
		}
	}
}

func leafSort(c *Ctx, act *LoopAct, key string, t *Term) *Sort {
	if s := act.sorts[key]; s != nil {
		return s
	}
	return t.sort
}

// diffState compares a back edge state with the header's; reports whether new leaves have to be havoced.
func (ex *Exec) diffState(act *LoopAct, bs *State) bool {
	c := ex.c
	changed := false
	hs := act.hdrState
	add := func(key string, m int) {
		if act.hav[key] < m {
			act.hav[key] = m
			changed = true
		}
	}
	same := func(a, b *Term) bool {
		if a == b {
			return true
		}
		if a.sort.kind == KSeq && a.sort.smt == b.sort.smt {
			s := bs.clone()
			s.light = true
			return s.proveSeq(a, b, 5)
		}
		if a.sort.smt != b.sort.smt {
			return false
		}
		return bs.yes(ex.eqT(a, b))
	}
	var cmp func(key string, a, b Value)
	cmp = func(key string, a, b Value) {
		switch x := a.(type) {
		case *Term:
			y, ok := b.(*Term)
			if !ok {
				y = bs.toDeep(b, nil, true)
			}
			if act.hav[key] == 0 && !same(x, y) {
				add(key, 1)
			}
		case *SliceV:
			y := b.(*SliceV)
			if x.arr != y.arr {
				add(key+".arr", 1)
				if !same(x.isnil, y.isnil) {
					add(key+".nil", 1)
				}
				return
			}
			for _, p := range []struct {
				n    string
				a, b *Term
			}{{".off", x.off, y.off}, {".len", x.len, y.len}, {".cap", x.cap, y.cap}, {".nil", x.isnil, y.isnil}} {
				if act.hav[key+p.n] == 0 && !same(p.a, p.b) {
					add(key+p.n, 1)
				}
			}
		case *PtrV:
			y, ok := b.(*PtrV)
			if !ok {
				panic(unsupported("pointer variable changed by a loop"))
			}
			if x.obj != y.obj || len(x.path) != len(y.path) {
				if len(x.path) > 0 || len(y.path) > 0 || x.idx != nil || y.idx != nil {
					panic(unsupported("pointer variable changed by a loop"))
				}
				add(key+".ptr", 1)
				return
			}
			if x.idx != nil && !same(x.idx, y.idx) {
				add(key+".idx", 1)
			}
			if x.isnil != nil && y.isnil != nil && !same(x.isnil, y.isnil) {
				add(key+".isnil", 1)
			}
		case *StructV:
			y, ok := b.(*StructV)
			if !ok {
				panic(unsupported("structure variable changed by a loop"))
			}
			for i := range x.fields {
				cmp(fmt.Sprintf("%s.%d", key, i), x.fields[i], y.fields[i])
			}
		case *RefV:
			y, ok := b.(*RefV)
			if !ok || y.obj != x.obj {
				if ok && hs.isMapRef(x) && bs.isMapRef(y) {
					add(key+".ref", 1)
					return
				}
				panic(unsupported("map or channel variable changed by a loop"))
			}
		case *arrayV:
			y, ok := b.(*arrayV)
			if !ok {
				panic(unsupported("array variable"))
			}
			if y.obj != x.obj {
				if !same(hs.objs[x.obj].seq, bs.arrSeq(y.obj)) {
					panic(unsupported("array variable replaced in a loop"))
				}
			}
		case *IfaceV:
			y, ok := b.(*IfaceV)
			if !ok || x.typ != y.typ || x.typ != nil && !same(bs.toDeep(x, nil, true), bs.toDeep(y, nil, true)) {
				add(key+".iface", 1)
			}
		}
	}
	flushNew(bs, len(hs.views))
	for _, id := range sortedObjs(hs) {
		a, b := hs.objs[id], bs.objs[id]
		if a == b || b == nil {
			continue
		}
		if _, inEntry := act.entry.objs[id]; !inEntry {
			continue // arrays made by the havoc itself are compared through the slices
		}
		key := fmt.Sprintf("obj%d", id)
		switch a.kind {
		case OCell:
			if a.val != nil {
				cmp(key, a.val, b.val)
			}
		case OArr:
			sb := bs.arrSeq(id)
			if act.hav[key] >= 2 {
				continue // already taken to hold anything
			}
			if same(a.seq, sb) {
				continue
			}
			if act.hav[key] == 0 {
				if l := commonPrefix(c, act, a.seq, sb); l != nil && l != c.zero {
					act.tails[key] = l
					add(key, 1)
					continue
				}
			} else if act.hav[key] == 1 && act.tails[key] != nil {
				l := act.tails[key]
				if same(bs.q().Sub(a.seq, c.zero, l), bs.q().Sub(sb, c.zero, l)) && same(c.Len(a.seq), c.Len(sb)) {
					continue
				}
			}
			add(key, 2)
		case OMapObj:
			if act.hav[key+".dom"] == 0 && !same(a.dom, b.dom) {
				add(key+".dom", 1)
			}
			if act.hav[key+".n"] == 0 && !same(a.mlen, b.mlen) {
				add(key+".n", 1)
				add(key+".dom", 1)
			}
			if act.hav[key+".val"] == 0 && !same(a.mval, b.mval) {
				add(key+".val", 1)
			}
		case OChanObj:
			if act.hav[key+".sent"] == 0 && !same(a.seq, b.seq) {
				add(key+".sent", 1)
			}
			if a.n != nil && !same(a.n, b.n) {
				add(key+".n", 1)
			}
		case OIterObj:
			if !same(a.n, b.n) {
				add(key+".n", 1)
			}
		case OGhost:
			if act.hav[key] == 0 && !same(a.seq, b.seq) {
				add(key, 1)
			}
		}
	}
	hf, bf := hs.frames[act.depth-1], bs.frames[act.depth-1]
	ops := phiOps(bf, act.li.header, bf.prev)
	for _, ph := range ex.phis(hf, act.li.header) {
		cmp("phi_"+ph.Name(), hf.regs[ph], bs.val(bf, ops[ph]))
	}
	return changed
}

// commonPrefix: length of the leading part of a that b keeps.
func commonPrefix(c *Ctx, act *LoopAct, a, b *Term) *Term {
	sb := segs(b)
	if len(sb) < 2 {
		return nil
	}
	off := c.zero
	for i, s := range sb {
		base, lo, hi := subParts(c, s)
		if base == a || a == s {
			if lo == off || c.Sub2(lo, off) == c.zero {
				off = hi
				continue
			}
		}
		if len(segs(a)) > i && segs(a)[i] == s {
			off = c.Add(off, c.Len(s))
			continue
		}
		// a prefix of the i-th segment
		if len(segs(a)) > i && s.op == OSub && s.args[0] == segs(a)[i] && s.args[1] == c.zero {
			off = c.Add(off, s.args[2])
		}
		break
	}
	return off
}

func (a *LoopAct) affine(key string) (k *bigI, ok bool) {
	k, ok = a.aff[key]
	return
}

func (a *LoopAct) backEdge(r *runner, st *State) bool {
	ex := r.ex
	if a.discover {
		a.backs = append(a.backs, st)
		return false
	}
	if ex.dry == 0 {
		a.recheck(ex, st)
	} else if a.memo != nil {
		a.memoCheck(ex, st)
	}
	// verification: the invariants are preserved
	flushNew(st, len(a.entry.views))
	fr := st.top()
	evalPhis(st, fr)
	for _, ph := range ex.phis(fr, a.li.header) {
		if ph.Comment != "" {
			fr.names[ph.Comment] = fr.regs[ph]
		}
	}
	if a.spec != nil {
		it := a.iter
		a2 := *a
		a2.iter = ex.c.Add(it, ex.c.one)
		for i, inv := range a.spec.invs {
			t, err := ex.evalInv(st, &a2, inv)
			if err != "" {
				ex.fail(st, a.name(i, inv)+" is expressible", err)
				continue
			}
			if ex.check(st, a.name(i, inv)+" is preserved", t) {
				st.assume(t)
			}
		}
	}
	return false
}

// memoCheck extends what was taken over from an earlier round where it turns out to be incomplete.
func (a *LoopAct) memoCheck(ex *Exec, st *State) {
	c := ex.c
	bs := st.clone()
	m := ex.loopMemo[a.key]
	if ex.diffState(a, bs) {
		for k, v := range a.hav {
			var id int
			if n, _ := fmt.Sscanf(k, "obj%d", &id); n == 1 && k == fmt.Sprintf("obj%d", id) {
				if o := a.entry.objs[id]; o == nil || o.kind != OCell {
					if n := a.spareOf(id); n != "" && v == 1 && !m.slow {
						if sv, ok := a.phiSlice(n); ok && a.tails[k] == c.Add(sv.off, sv.len) {
							if !m.spare[n] {
								m.spare[n] = true
								ex.memoChanged++
							}
							continue
						}
					}
					if !m.slow {
						m.slow = true
						ex.memoChanged++
					}
					continue
				}
			}
			if m.hav[k] < v {
				m.hav[k] = v
				ex.memoChanged++
			}
		}
	}
	hv, bv := ex.leafVals(a.hdrState, a, false), ex.leafVals(bs, a, true)
	for k, v := range a.aff {
		x, y := hv[k], bv[k]
		if x != nil && y != nil && !bs.yes(c.Eq(c.Sub2(y, x), c.Big(v))) {
			if _, ok := m.aff[k]; ok {
				delete(m.aff, k)
				ex.memoChanged++
			}
		}
	}
}

// phiSlice is the slice a loop variable holds at the entry.
func (a *LoopAct) phiSlice(name string) (*SliceV, bool) {
	fr := a.entry.frames[a.depth-1]
	for _, in := range a.li.header.Instrs {
		if ph, ok := in.(*ssa.Phi); ok && ph.Name() == name {
			sv, ok := fr.regs[ph].(*SliceV)
			return sv, ok
		}
	}
	return nil, false
}

// spareOf names the loop variable which is a slice of an array at the entry.
func (a *LoopAct) spareOf(id int) string {
	for _, in := range a.li.header.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			if sv, ok := a.phiSlice(ph.Name()); ok && sv.arr == id {
				return ph.Name()
			}
		}
	}
	return ""
}

// recheck: what discovery found out about the loop holds in the iteration that is verified.
func (a *LoopAct) recheck(ex *Exec, st *State) {
	c := ex.c
	bs := st.clone()
	n := len(a.hav)
	if ex.diffState(a, bs) {
		ex.fail(st, fmt.Sprintf("loop %d: its effect was found completely", a.ord), fmt.Sprint(n, len(a.hav)))
		return
	}
	hv, bv := ex.leafVals(a.hdrState, a, false), ex.leafVals(bs, a, true)
	for k, v := range a.aff {
		x, y := hv[k], bv[k]
		if x == nil || y == nil {
			continue
		}
		if !bs.yes(c.Eq(c.Sub2(y, x), c.Big(v))) {
			ex.fail(st, fmt.Sprintf("loop %d: stride of %s", a.ord, k), c.str(c.Sub2(y, x)))
		}
	}
	get := func(k string, _ *State) *Term { return bv[k] }
	for _, k := range a.cands {
		t := k.mk(get, c.Add(a.iter, c.one))
		if !bs.yes(t) {
			ex.fail(st, fmt.Sprintf("loop %d: bounds found are preserved", a.ord), c.str(t))
		}
	}
}

func (ex *Exec) evalInv(st *State, act *LoopAct, inv Clause) (t *Term, err string) {
	defer func() {
		if x := recover(); x != nil {
			if se, ok := x.(specErr); ok {
				err = se.msg
				return
			}
			panic(x)
		}
	}()
	ev := ex.stateEv(st.clone())
	ev.dec = st.decide
	ev.vars["iter"] = act.iter
	act.bindOrder(st, ev)
	ev.begin = ex.stateEv(act.entry.clone())
	return ev.boolE(inv.e), ""
}

// stateEv evaluates names in the current program state; old() refers to the entry of the function.
func (ex *Exec) stateEv(st *State) *Ev {
	ev := &Ev{st: st, dec: st.decide, vars: map[string]*Term{}}
	ev.old = &Ev{st: st, dec: st.decide, vars: ex.entryVals}
	ev.lookup = func(n string) *Term {
		for i := len(st.frames) - 1; i >= 0; i-- {
			fr := st.frames[i]
			if v, ok := fr.names["&"+n]; ok {
				if p, ok := v.(*PtrV); ok && p.obj >= 0 {
					cell := st.load(p)
					return st.deepOf(cell, st.typeOfPtr(p))
				}
			}
			if v, ok := fr.names[n]; ok {
				return st.deepNamed(v)
			}
		}
		for i, p := range ex.paramNames() {
			if p == n {
				return st.deepOf(ex.entryArgs[i], ex.fn.Params[i].Type())
			}
		}
		if t, ok := ex.payloads[n]; ok {
			return t
		}
		return st.ghostName(n)
	}
	return ev
}

var debugLoops = os.Getenv("GOVC_LOOPS") != ""
