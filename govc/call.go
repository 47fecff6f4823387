package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// invokeV is a method of an interface value whose dynamic type is unknown.
type invokeV struct{ name string }

func (ex *Exec) inlinable(f *ssa.Function) bool {
	if f.Blocks == nil {
		return false
	}
	n := ex.p.fnName(f)
	if n != "" && ex.db.contracts[n] != nil && f.Synthetic == "" {
		return false
	}
	if f.Synthetic != "" && (strings.HasPrefix(f.Synthetic, "bound") || strings.HasPrefix(f.Synthetic, "thunk") || strings.HasPrefix(f.Synthetic, "wrapper")) {
		return true
	}
	if ex.p.inRepo(f) {
		return true
	}
	return ex.db.inline[n]
}

func (r *runner) callee(st *State, fr *Frame, cc *ssa.CallCommon) (Value, []Value) {
	var args []Value
	for _, a := range cc.Args {
		args = append(args, st.val(fr, a))
	}
	if cc.IsInvoke() {
		recv := st.val(fr, cc.Value)
		if iv, ok := recv.(*IfaceV); ok && iv.typ != nil {
			m := r.ex.p.prog.LookupMethod(iv.typ, cc.Method.Pkg(), cc.Method.Name())
			if m != nil {
				return &FuncV{fn: m}, append([]Value{iv.val}, args...)
			}
		}
		if iv, ok := recv.(*IfaceV); ok && iv.typ == nil {
			panic(goPanic{"method call on a nil interface"})
		}
		tn := typeName(cc.Value.Type())
		return &invokeV{tn + "." + cc.Method.Name()}, append([]Value{recv}, args...)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return b, args
	}
	return st.val(fr, cc.Value), args
}

func (r *runner) call(st *State, fr *Frame, x *ssa.Call) bool {
	fv, args := r.callee(st, fr, &x.Call)
	return r.callValue(st, fr, x, &x.Call, fv, args)
}

func (r *runner) callValue(st *State, fr *Frame, call *ssa.Call, cc *ssa.CallCommon, fn Value, args []Value) bool {
	ex := r.ex
	switch f := fn.(type) {
	case *ssa.Builtin:
		v, ok := r.builtin(st, fr, f, cc, args)
		if !ok {
			return false
		}
		if call != nil && v != nil {
			fr.regs[call] = v
		}
		return true
	case *invokeV:
		if ct := ex.db.contracts[f.name]; ct != nil {
			return r.applyContract(st, fr, call, cc, ct, nil, args, cc.Signature())
		}
		return r.unknownCall(st, fr, call, cc, f.name, args)
	case *FuncV:
		if f.isnil {
			panic(goPanic{"call of a nil function"})
		}
		n := ex.p.fnName(f.fn)
		if v, done := r.atomicOp(st, n, args); done {
			if st.dead || st.infeasible() {
				return false
			}
			if call != nil && v != nil {
				fr.regs[call] = v
			}
			return true
		}
		if f.fn.Synthetic == "" || !ex.inlinable(f.fn) {
			if ct := ex.db.contracts[n]; ct != nil && (!ct.headers || ex.headers) {
				return r.applyContract(st, fr, call, cc, ct, f, args, f.fn.Signature)
			}
		}
		if v, done := r.intrinsic(st, fr, f.fn, n, cc, args); done {
			if st.dead {
				return false
			}
			if call != nil && v != nil {
				fr.regs[call] = v
			}
			return true
		}
		if ex.inlinable(f.fn) {
			return r.inline(st, fr, call, cc, f, args, nil)
		}
		return r.unknownCall(st, fr, call, cc, n, args)
	case *Term:
		if f.sort.kind == KUn && f.sort.name == "Fn" {
			sig := cc.Signature()
			if isEmbedder(sig) {
				ex.mayPanic(st, ex.isNilFn(f), "call of a nil function")
				st.assume(ex.c.Not(ex.isNilFn(f)))
				if st.infeasible() {
					return false
				}
				out := st.appendTo(args[0].(*SliceV), ex.fnPayload(f), types.Typ[types.Uint8])
				if call != nil {
					fr.regs[call] = out
				}
				return true
			}
			return r.unknownCall(st, fr, call, cc, "function value", args)
		}
	}
	panic(unsupported(fmt.Sprintf("call of %T", fn)))
}

func isEmbedder(sig *types.Signature) bool {
	isB := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return sig.Params().Len() == 1 && sig.Results().Len() == 1 && isB(sig.Params().At(0).Type()) && isB(sig.Results().At(0).Type())
}

func (ex *Exec) isNilFn(f *Term) *Term { return ex.c.App("isnil_Fn", ex.c.Bool(), f) }
func (ex *Exec) fnPayload(f *Term) *Term {
	return ex.c.App("payload", ex.c.Seq(ex.it(8, false)), f)
}

func (r *runner) inline(st *State, fr *Frame, call *ssa.Call, cc *ssa.CallCommon, f *FuncV, args []Value, onRet func(*State, []Value)) bool {
	ex := r.ex
	if len(st.frames) > 40 {
		panic(unsupported("inlining too deep"))
	}
	if n := ex.p.fnName(f.fn); n != "" && f.fn.Synthetic == "" && f.fn.Parent() == nil {
		ex.inlined[n] = true
	}
	key := fr.key + "/"
	if call != nil {
		key += fmt.Sprint(int(call.Pos()))
	}
	if f.fn.Parent() != nil {
		key = "~" + f.fn.String()
	}
	nf := &Frame{fn: f.fn, regs: map[ssa.Value]Value{}, names: map[string]Value{}, loops: map[*ssa.BasicBlock]*LoopAct{}, unroll: map[*ssa.BasicBlock]int{}, key: key, call: call, binds: f.binds, onReturn: onRet}
	if len(args) != len(f.fn.Params) {
		panic(unsupported("argument count of " + f.fn.String()))
	}
	for i, p := range f.fn.Params {
		nf.regs[p] = args[i]
		nf.names[p.Name()] = args[i]
	}
	for i, fv := range f.fn.FreeVars {
		nf.names["&"+fv.Name()] = f.binds[i]
	}
	if len(f.fn.Blocks) == 0 {
		panic(unsupported("no body: " + f.fn.String()))
	}
	nf.block = f.fn.Blocks[0]
	st.frames = append(st.frames, nf)
	return true
}

// ---------------------------------------------------------------- builtins

func (r *runner) builtin(st *State, fr *Frame, b *ssa.Builtin, cc *ssa.CallCommon, args []Value) (Value, bool) {
	ex := r.ex
	c := ex.c
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case *SliceV:
			if b.Name() == "cap" {
				return x.cap, true
			}
			return x.len, true
		case *Term:
			return c.Len(x), true
		case *StructV:
			if ex.headers && types.Identical(x.typ, ex.hdrSlice) {
				return x.fields[map[string]int{"len": 1, "cap": 2}[b.Name()]], true
			}
		case *RefV:
			if o := st.objs[x.obj]; o != nil && o.kind == OMapObj {
				if o.mlen.op != OInt { // a map of length 0 has no keys
					st.assume(c.Le(c.zero, o.mlen))
					e := &Obj{typ: o.typ}
					st.emptyMap(e)
					st.assume(c.Imp(c.Eq(o.mlen, c.zero), c.Eq(o.dom, e.dom)))
				}
				return o.mlen, true
			}
			return c.Fresh("chanlen", ex.it(64, true)), true
		case *arrayV:
			return c.Len(st.objs[x.obj].seq), true
		case *PtrV:
			if av, ok := getPath(st.objs[x.obj].val, x.path).(*arrayV); ok {
				return c.Len(st.objs[av.obj].seq), true
			}
		}
	case "append":
		s := args[0].(*SliceV)
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		if len(args) < 2 {
			return s, true
		}
		switch y := args[1].(type) {
		case *SliceV:
			st.freezeElems(y, et)
			return st.appendTo(s, st.sliceEls(y), et), true
		case *Term:
			return st.appendTo(s, y, et), true
		}
	case "copy":
		dst := args[0].(*SliceV)
		var src *Term
		switch y := args[1].(type) {
		case *SliceV:
			src = st.sliceEls(y)
		case *Term:
			src = y
		}
		q := st.q()
		n := c.Len(src)
		switch st.decide(c.Le(n, dst.len)) {
		case 1:
		case -1:
			n = dst.len
		default:
			s2 := st.clone()
			le := c.Le(n, dst.len)
			s2.assume(c.Not(le))
			if !s2.dead {
				s2.top().pc--
				r.push(s2)
			}
			st.assume(le)
			q = st.q()
		}
		full := st.arrSeq(dst.arr)
		o := st.mut(dst.arr)
		end := c.Add(dst.off, n)
		o.seq = c.Cat(full.sort, q.Sub(full, c.zero, dst.off), q.Sub(src, c.zero, n), q.Sub(full, end, c.Len(full)))
		st.rangeWritten(dst.arr, dst.off, end)
		return n, true
	case "delete":
		m := args[0].(*RefV)
		k := st.toDeep(args[1], cc.Args[1].Type(), true)
		o := st.mut(m.obj)
		has := st.selD(o.dom, k)
		switch st.decide(has) {
		case 1:
			o.mlen = c.Sub2(o.mlen, c.one)
			o.dom = ex.sto(o.dom, k, c.F)
		case -1:
		default:
			o.mlen = c.Sub2(o.mlen, c.Ite(has, c.one, c.zero))
			o.dom = ex.sto(o.dom, k, c.F)
		}
		return nil, true
	case "print", "println":
		return nil, true
	case "min", "max":
		a, b2 := args[0].(*Term), args[1].(*Term)
		le := c.Le(a, b2)
		if b.Name() == "max" {
			le = c.Ge(a, b2)
		}
		switch st.decide(le) {
		case 1:
			return a, true
		case -1:
			return b2, true
		}
		return c.Ite(le, a, b2), true
	case "close":
		if ch, ok := args[0].(*RefV); ok {
			o := st.mut(ch.obj)
			if o.ext == nil {
				o.ext = map[string]*Term{}
			}
			o.ext["closed"] = c.T
		}
		return nil, true
	case "ssa:wrapnilchk":
		return args[0], true
	case "recover":
		return &IfaceV{}, true
	}
	panic(unsupported("builtin " + b.Name()))
}

// rangeWritten invalidates element views and related arrays after a bulk write.
func (st *State) rangeWritten(arr int, lo, hi *Term) {
	for i := range st.views {
		if st.views[i].arr == arr {
			st.views[i].stale = true
		}
	}
	if st.objs[arr].frozen != "" {
		st.ex.fail(st, "memory ownership", "write to "+st.objs[arr].name+" after "+st.objs[arr].frozen)
	}
	st.relatives(arr, lo)
	st.markOwner(arr)
}

// freezeElems: pointers and slices stored inside a container are owned by it from then on.
func (st *State) freezeElems(s *SliceV, et types.Type) {
}

// freeze marks the memory behind a value that was copied into a container.
func (st *State) freeze(v Value, why string) {
	switch x := v.(type) {
	case *PtrV:
		if x.obj >= 0 && x.idx == nil {
			if o := st.objs[x.obj]; o != nil && o.frozen == "" {
				st.mut(x.obj).frozen = why
				st.freeze(o.val, why)
			}
		}
	case *SliceV:
		if o := st.objs[x.arr]; o != nil && o.frozen == "" {
			st.mut(x.arr).frozen = why
		}
	case *StructV:
		for _, f := range x.fields {
			st.freeze(f, why)
		}
	}
}

// ---------------------------------------------------------------- deep values of names

func (st *State) deepOf(v Value, t types.Type) *Term { return st.toDeep(v, t, false) }

func (st *State) typeOfPtr(p *PtrV) types.Type {
	o := st.objs[p.obj]
	t := o.typ
	for _, i := range p.path {
		t = t.Underlying().(*types.Struct).Field(i).Type()
	}
	return t
}

func (st *State) deepNamed(v Value) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *SliceV:
		els := st.sliceEls(x)
		return st.ex.c.Mk(st.ex.slSort(els.sort.elem), x.isnil, els)
	case *PtrV:
		if x.obj < 0 {
			return nil
		}
		return st.toDeep(x, types.NewPointer(st.typeOfPtr(x)), false)
	case *StructV:
		return st.toDeep(x, x.typ, false)
	case *RefV:
		o := st.objs[x.obj]
		if o != nil && o.kind == OMapObj {
			return st.toDeep(x, o.typ, false)
		}
		return nil
	case *arrayV:
		return st.arrSeq(x.obj)
	case *IfaceV:
		return st.toDeep(x, nil, false)
	case *FuncV:
		return st.funcTerm(x)
	}
	return nil
}

// ghostName: ghost variables, channel histories (sent_x, recv_x, n_x for a channel x).
func (st *State) ghostName(n string) *Term {
	if t, ok := st.ghost[n]; ok {
		return t
	}
	if id, ok := st.ex.ghostObj[n]; ok {
		o := st.objs[id]
		if o.kind == OGhost {
			return o.seq
		}
	}
	if n == "sent_local" {
		// what was sent to the channels made here (those of the first one's element type), one after the other
		var ids []int
		for id, o := range st.objs {
			if o.kind == OChanObj && o.name == "chan" {
				ids = append(ids, id)
			}
		}
		sort.Ints(ids)
		var t *Term
		for _, id := range ids {
			o := st.objs[id]
			if t == nil {
				t = o.seq
			} else if o.seq.sort == t.sort {
				t = st.ex.c.Cat(t.sort, t, o.seq)
			}
		}
		return t
	}
	for _, pre := range []string{"sent_", "recv_", "nrecv_"} {
		if strings.HasPrefix(n, pre) {
			if id, ok := st.ex.chans[n[len(pre):]]; ok {
				o := st.objs[id]
				switch pre {
				case "sent_":
					return o.seq
				case "recv_":
					return o.seq2
				default:
					return o.n
				}
			}
		}
	}
	return nil
}

// funcTerm is the logical value of a function value.
func (st *State) funcTerm(f *FuncV) *Term {
	ex := st.ex
	c := ex.c
	s := c.Un("Fn")
	if f.isnil {
		t := c.Var("nilFn", s)
		st.assume(ex.isNilFn(t))
		return t
	}
	name := ex.p.fnName(f.fn)
	if name == "" {
		name = f.fn.String()
	}
	if !isEmbedder(f.fn.Signature) || st.inFuncTerm {
		return c.Fresh("fn_"+mangle(name), s)
	}
	// an embedder: what it appends to any buffer is its payload
	P, err := st.payloadOf(f)
	if err != "" {
		panic(unsupported("function value " + name + ": " + err))
	}
	t := c.App("closure_"+mangle(name), s, P)
	st.assume(c.Not(ex.isNilFn(t)))
	st.assume(ex.mkEq(ex.fnPayload(t), P))
	return t
}

func (ex *Exec) mkEq(a, b *Term) *Term { return ex.c.Eq(a, b) }

// payloadOf runs an embedder on an arbitrary buffer (in a scratch copy of the state) and returns what it appends.
func (st *State) payloadOf(f *FuncV) (P *Term, err string) {
	ex := st.ex
	c := ex.c
	s2 := st.clone()
	s2.inFuncTerm = true
	s2.resume = nil
	bs := c.Seq(ex.it(8, false))
	b := c.Fresh("anybuf", bs)
	sl := s2.mkSlice(b, c.F, types.Typ[types.Uint8], "anybuf")
	nf := len(s2.frames)
	var outs []*Term
	var fin []*State
	dummy := &Frame{fn: f.fn, regs: map[ssa.Value]Value{}, names: map[string]Value{}, loops: map[*ssa.BasicBlock]*LoopAct{}, unroll: map[*ssa.BasicBlock]int{}, key: "~payload"}
	s2.frames = []*Frame{}
	_ = nf
	r := &runner{ex: ex}
	if ct := ex.db.contracts[ex.p.fnName(f.fn)]; ct != nil && f.fn.Synthetic == "" {
		dummy.fn = f.fn
		s2.frames = []*Frame{dummy}
		if !r.applyContractRet(s2, dummy, ct, f, []Value{sl}, f.fn.Signature, func(s *State, rs []Value) {
			outs = append(outs, s.sliceEls(rs[0].(*SliceV)))
			fin = append(fin, s)
		}) {
		}
	} else {
		s2.frames = []*Frame{}
		r.onExit = func(s *State, rs []Value) {
			outs = append(outs, s.sliceEls(rs[0].(*SliceV)))
			fin = append(fin, s)
		}
		r.inline(s2, dummy, nil, nil, f, []Value{sl}, nil)
		ex.run(s2, r)
	}
	if len(outs) != 1 {
		return nil, fmt.Sprintf("%d outcomes", len(outs))
	}
	o := outs[0]
	q := fin[0].q()
	pre := q.Sub(o, c.zero, c.Len(b))
	if !fin[0].clone().proveSeq(pre, b, 4) {
		return nil, "does not keep the buffer it appends to"
	}
	P = q.Sub(o, c.Len(b), c.Len(o))
	dep := false
	collect([]*Term{P}, func(t *Term) {
		if t == b {
			dep = true
		}
	})
	if dep {
		return nil, "what it appends depends on the buffer"
	}
	// facts learnt about fresh variables of the payload remain valid
	for _, p := range fin[0].pc {
		st.assume(p)
	}
	return P, ""
}

// ---------------------------------------------------------------- unknown and external calls

func (r *runner) unknownCall(st *State, fr *Frame, call *ssa.Call, cc *ssa.CallCommon, name string, args []Value) bool {
	ex := r.ex
	if ex.p.isRepoName(name) && ex.p.funcs[name] != nil && ex.p.funcs[name].Blocks == nil {
		ex.assumption("assembly function " + name + " returns arbitrary values and has no other effect")
	} else {
		ex.assumption("external function " + name + ": arbitrary results, no panic, no effect on memory other than the content of byte buffers passed to it")
	}
	if !strings.HasPrefix(name, "fmt.") && !strings.HasPrefix(name, "errors.") && !strings.HasPrefix(name, "strings.") {
		for _, a := range args {
			if sl, ok := a.(*SliceV); ok {
				st.havocArr(sl.arr, name)
			}
			if p, ok := a.(*PtrV); ok && p.obj >= 0 {
				st.havocPtr(p)
			}
		}
	}
	sig := cc.Signature()
	var rs []Value
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		rs = append(rs, st.fromDeep(ex.c.Fresh("ext_"+mangle(name), ex.deepSort(t)), t, false, "ext"))
	}
	if call != nil {
		setResult(fr, call, rs)
	}
	return true
}

func (p *Prog) isRepoName(n string) bool { f := p.funcs[n]; return f != nil && p.inRepo(f) }

func (st *State) havocPtr(p *PtrV) {
	ex := st.ex
	if p.idx != nil {
		st.havocArr(p.obj, "external")
		return
	}
	t := st.typeOfPtr(p)
	st.store(p, st.fromDeep(ex.c.Fresh("hv", ex.deepSort(t)), t, false, "hv"))
}

// intrinsic: language-level models that contracts cannot express.
func (r *runner) intrinsic(st *State, fr *Frame, f *ssa.Function, n string, cc *ssa.CallCommon, args []Value) (Value, bool) {
	ex := r.ex
	c := ex.c
	switch n {
	case "sort.Strings":
		// in-place permutation into ascending order
		s := args[0].(*SliceV)
		els := st.sliceEls(s)
		fn := ex.db.fns["sortedStrings"]
		if fn == nil {
			return nil, false
		}
		ex.trust("sort.Strings: the slice becomes sortedStrings(old content)")
		srt := ex.appOf(fn, []*Term{els})
		st.sortInto(s, srt)
		return nil, true
	case "sort.Slice":
		// in-place sort by a comparator whose contract names the result
		iv, ok := args[0].(*IfaceV)
		f, ok2 := args[1].(*FuncV)
		if !ok || !ok2 || f.fn == nil || ex.bv {
			return nil, false
		}
		s, ok3 := iv.val.(*SliceV)
		ct := ex.db.contracts[ex.p.fnName(f.fn)]
		if !ok3 || ct == nil || ct.sorter == nil {
			return nil, false
		}
		ex.trust("sort.Slice: the slice becomes the function its comparator's contract names (the axioms of that function say it is sorted by the comparator and a permutation)")
		if ex.dry == 0 {
			ex.used[ct.fn] = true
		}
		ev := &Ev{st: st, dec: st.decide, vars: ex.bindParams(st, &Contract{fn: ct.fn, pos: ct.pos}, f, nil, f.fn.Signature), lookup: st.ghostName}
		els := st.sliceEls(s)
		ce := ct.sorter.(*ast.CallExpr)
		if !st.yes(c.Eq(ev.val(ev.eval(ce.Args[0])), els)) {
			panic(unsupported("sort.Slice: the comparator is not about the sorted slice"))
		}
		st.sortInto(s, ev.val(ev.eval(ce)))
		return nil, true
	case "iunsafe.ByteSliceAsInt64Slice", "iunsafe.Int64SliceAsByteSlice", "iunsafe.Uint64SliceAsByteSlice":
		s, ok := args[0].(*SliceV)
		name := map[string]string{"iunsafe.ByteSliceAsInt64Slice": "view_i64", "iunsafe.Int64SliceAsByteSlice": "viewbytes_i64", "iunsafe.Uint64SliceAsByteSlice": "viewbytes_u64"}[n]
		fn := ex.db.fns[name]
		if !ok || fn == nil || ex.bv {
			return nil, false
		}
		ex.trust("memory views (iunsafe): a view is read as the function " + name + " of the viewed elements, and nothing writes through it (see C25)")
		v := ex.appOf(fn, []*Term{st.sliceEls(s)})
		et := f.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
		if name == "view_i64" {
			st.assume(c.Eq(c.Len(v), c.Div(s.len, c.I(8))))
		} else {
			st.assume(c.Eq(c.Len(v), c.Mul(s.len, c.I(8))))
		}
		return st.exactSlice(v, et, "view"), true
	case "iunsafe.ByteSliceAsArbSlice":
		s, ok := args[0].(*SliceV)
		iv, ok2 := args[1].(*IfaceV)
		if !ok || !ok2 || ex.bv {
			return nil, false
		}
		pt, ok3 := iv.typ.(*types.Pointer)
		if !ok3 {
			return nil, false
		}
		sl, ok4 := pt.Elem().Underlying().(*types.Slice)
		pv, ok5 := iv.val.(*PtrV)
		if !ok4 || !ok5 {
			return nil, false
		}
		tn := typeName(sl.Elem())
		fn := ex.db.fns["view_"+tn[strings.LastIndex(tn, ".")+1:]]
		if fn == nil {
			return nil, false
		}
		ex.trust("memory views (iunsafe): a view is read as the function " + fn.name + " of the viewed elements, and nothing writes through it (see C25)")
		size := types.SizesFor("gc", "amd64").Sizeof(sl.Elem())
		v := ex.appOf(fn, []*Term{st.sliceEls(s)})
		st.assume(c.Eq(c.Len(v), c.Div(s.len, c.I(size))))
		st.store(pv, st.exactSlice(v, sl.Elem(), "view"))
		return nil, true
	case "sync.Mutex.Lock", "sync.Mutex.Unlock", "sync.RWMutex.RLock", "sync.RWMutex.RUnlock", "sync.RWMutex.Lock", "sync.RWMutex.Unlock", "sync.WaitGroup.Done", "sync.WaitGroup.Add", "sync.WaitGroup.Wait":
		ex.trust("sync: lock operations have no effect on the data they guard")
		return nil, true
	}
	return nil, false
}

// sortInto overwrites the elements of a slice.
func (st *State) sortInto(s *SliceV, srt *Term) {
	c := st.ex.c
	st.assume(c.Eq(c.Len(srt), s.len))
	full := st.arrSeq(s.arr)
	o := st.mut(s.arr)
	q := st.q()
	end := c.Add(s.off, s.len)
	o.seq = c.Cat(full.sort, q.Sub(full, c.zero, s.off), srt, q.Sub(full, end, c.Len(full)))
	st.rangeWritten(s.arr, s.off, end)
}

func (ex *Exec) trust(m string) {
	if ex.dry == 0 {
		ex.trusted[m] = true
	}
}

// ---------------------------------------------------------------- contracts at call sites

func (r *runner) applyContract(st *State, fr *Frame, call *ssa.Call, cc *ssa.CallCommon, ct *Contract, f *FuncV, args []Value, sig *types.Signature) bool {
	return r.applyContractRet(st, fr, ct, f, args, sig, func(s *State, rs []Value) {
		if call != nil {
			setResult(s.top(), call, rs)
		}
	})
}

// bindParams binds the parameter names of a contract to the logical values of the arguments.
func (ex *Exec) bindParams(st *State, ct *Contract, f *FuncV, args []Value, sig *types.Signature) map[string]*Term {
	m := map[string]*Term{}
	ts := ex.paramTypes(f, sig, len(args))
	for i, p := range ct.params {
		if i >= len(args) {
			panic(specErr{fmt.Sprintf("%s: contract of %s has more parameters than the function", ct.pos, ct.fn)})
		}
		if _, isFn := ts[i].Underlying().(*types.Signature); isFn {
			if ct.payloadOf(p) != "" {
				continue
			}
		}
		if ch, ok := ts[i].Underlying().(*types.Chan); ok {
			_ = ch
			continue
		}
		if m[p] = st.argDeep(args[i], ts[i]); m[p] == nil {
			delete(m, p)
		}
	}
	if f != nil {
		for i, fv := range f.fn.FreeVars {
			if p, ok := f.binds[i].(*PtrV); ok && p.obj >= 0 {
				if _, has := m[fv.Name()]; !has {
					v := st.load(p)
					t := st.typeOfPtr(p)
					if _, isFn := t.Underlying().(*types.Signature); isFn {
						continue
					}
					m[fv.Name()] = st.argDeep(v, t)
				}
			}
		}
	}
	return m
}

func (st *State) argDeep(v Value, t types.Type) *Term {
	if st.ex.bv {
		if x, ok := v.(*Term); ok {
			return x
		}
	}
	return st.toDeep(v, t, false)
}

func (ex *Exec) paramTypes(f *FuncV, sig *types.Signature, n int) []types.Type {
	var ts []types.Type
	if f != nil {
		for _, p := range f.fn.Params {
			ts = append(ts, p.Type())
		}
		return ts
	}
	if n > sig.Params().Len() { // interface method: receiver first
		ts = append(ts, types.NewInterfaceType(nil, nil))
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	return ts
}

func (ct *Contract) payloadOf(p string) string {
	for _, cl := range ct.clauses {
		if cl.kind == "payload" && cl.name == p {
			return cl.text
		}
	}
	return ""
}

func guardSpec(f func()) (err string) {
	defer func() {
		if x := recover(); x != nil {
			if se, ok := x.(specErr); ok {
				err = se.msg
				return
			}
			panic(x)
		}
	}()
	f()
	return ""
}

func (r *runner) applyContractRet(st *State, fr *Frame, ct *Contract, f *FuncV, args []Value, sig *types.Signature, done func(*State, []Value)) bool {
	ex := r.ex
	c := ex.c
	if ex.dry == 0 {
		ex.used[ct.fn] = true
	}
	if ct.trusted {
		ex.trust("contract of " + ct.fn + " (" + ct.pos + ")")
	}
	if ct.bv && !ex.bv { // its postconditions speak of bit vectors: here it is a function of its arguments
		if len(ct.as) != sig.Results().Len() {
			panic(unsupported("bit-vector contract of " + ct.fn + " has no 'as' clause"))
		}
		ev := &Ev{st: st, dec: st.decide, vars: map[string]*Term{}, lookup: st.ghostName}
		for k, v := range ex.bindParams(st, ct, f, args, sig) {
			ev.vars[k] = v
		}
		ex.assumption("over the integers " + ct.fn + " is an uninterpreted function of its arguments; its contract is decided over bit vectors")
		var rs []Value
		for i, n := range ct.as {
			fd := ex.db.fns[n]
			if fd == nil {
				panic(unsupported("unknown function " + n))
			}
			var ts []*Term
			for j, q := range ct.params {
				ts = append(ts, ev.coerce(ev.vars[q], ex.specSort(fd.params[j].typ)))
			}
			rs = append(rs, st.fromDeep(c.App(n, ex.specSort(fd.res), ts...), sig.Results().At(i).Type(), false, n))
		}
		done(st, rs)
		return !st.dead
	}
	if len(ex.sharedCells) > 0 {
		r.callSharedPre(st, ct, args)
	}
	var pre map[string]*Term
	pay := map[string]*Term{}
	if e := guardSpec(func() { pre = ex.bindParams(st, ct, f, args, sig) }); e != "" {
		panic(unsupported(e))
	}
	for i, p := range ct.params {
		if n := ct.payloadOf(p); n != "" {
			var P *Term
			switch g := args[i].(type) {
			case *FuncV:
				if g.isnil {
					panic(goPanic{"call of a nil function"})
				}
				var err string
				P, err = st.payloadOf(g)
				if err != "" {
					ex.fail(st, "embedded function appends to its buffer", ex.p.fnName(g.fn)+": "+err)
					P = c.Fresh("payload", c.Seq(ex.it(8, false)))
				}
			case *Term:
				ex.mayPanic(st, ex.isNilFn(g), "call of a nil function")
				P = ex.fnPayload(g)
			default:
				panic(unsupported("function argument"))
			}
			pay[n] = P
		}
	}
	ev := &Ev{st: st, dec: st.decide, vars: map[string]*Term{}}
	for k, v := range pre {
		ev.vars[k] = v
	}
	for k, v := range pay {
		ev.vars[k] = v
	}
	for g, id := range ex.ghostObj {
		ev.vars[g] = st.objs[id].seq
	}
	ev.lookup = st.ghostName
	short := ct.fn
	bad := func(cl Clause, err string) {
		panic(unsupported(fmt.Sprintf("contract of %s: %s: %s", ct.fn, cl.text, err)))
	}
	// preconditions and the safety condition
	for _, cl := range ct.clauses {
		if cl.kind != "requires" {
			continue
		}
		var t *Term
		if e := guardSpec(func() { t = ev.boolE(cl.e) }); e != "" {
			bad(cl, e)
		}
		nm := "precondition of " + short
		if cl.label != "" {
			nm += " (" + cl.label + ")"
		}
		ex.check(st, nm, t)
		st.assume(t)
	}
	for _, cl := range ct.clauses {
		if cl.kind != "safe" {
			continue
		}
		var t *Term
		if e := guardSpec(func() { t = ev.boolE(cl.e) }); e != "" {
			bad(cl, e)
		}
		ex.mayPanic(st, c.Not(t), "call of "+short+" outside its safe condition")
	}
	// a refusal condition holds whenever the call returns
	for _, cl := range ct.clauses {
		if cl.kind != "ensures" || cl.label != "refusal" {
			continue
		}
		var t *Term
		if e := guardSpec(func() { t = ev.boolE(cl.e) }); e != "" {
			bad(cl, e)
		}
		st.assume(t)
	}
	if st.infeasible() {
		return false
	}
	// effects
	post := map[string]*Term{}
	type setop struct {
		name string
		v    *Term
	}
	var sets []setop
	late := false // effects that depend on the results
	shDone := map[string]bool{}
	if len(ct.shared) > 0 {
		sv := mergeVars(nil, ev.vars)
		for _, d := range ct.shared {
			delete(sv, "added_"+d.name)
			for _, cl := range ct.clauses {
				if cl.kind == "sets" && cl.name == "added_"+d.name {
					if e := guardSpec(func() { sv["added_"+d.name] = ev.val(ev.eval(cl.e)) }); e != "" {
						bad(cl, e)
					}
				}
			}
		}
		r.callSharedEffect(st, ct, args, sv, shDone)
	}
	for _, cl := range ct.clauses {
		if shDone[cl.name] {
			continue
		}
		switch cl.kind {
		case "sets":
			if mentionsResult(cl.e) {
				late = true
				continue
			}
			var t *Term
			if e := guardSpec(func() { t = ev.eval(cl.e) }); e != "" {
				bad(cl, e)
			}
			sets = append(sets, setop{cl.name, t})
		case "havocs":
			sets = append(sets, setop{cl.name, nil})
		}
	}
	for _, so := range sets {
		if err := st.setName(ct, args, f, so.name, so.v, sig); err != "" {
			panic(unsupported("contract of " + ct.fn + ": " + err))
		}
	}
	// results
	n := sig.Results().Len()
	rs := make([]Value, n)
	for _, cl := range ct.clauses {
		switch cl.kind {
		case "appends":
			i := ct.paramIndex(cl.name)
			var els *Term
			if e := guardSpec(func() { els = ev.els(ev.eval(cl.e)) }); e != "" {
				bad(cl, e)
			}
			et := sig.Results().At(0).Type().Underlying().(*types.Slice).Elem()
			rs[0] = st.appendTo(args[i].(*SliceV), els, et)
		case "aliases":
			k := resultIndex(cl.name)
			se, ok := cl.e.(*ast.SliceExpr)
			if !ok {
				bad(cl, "aliases needs a slice expression")
			}
			i := ct.paramIndex(se.X.(*ast.Ident).Name)
			s := args[i].(*SliceV)
			lo, hi := c.zero, s.len
			if e := guardSpec(func() {
				if se.Low != nil {
					lo = ev.val(ev.eval(se.Low))
				}
				if se.High != nil {
					hi = ev.val(ev.eval(se.High))
				}
			}); e != "" {
				bad(cl, e)
			}
			rs[k] = &SliceV{arr: s.arr, off: c.Add(s.off, lo), len: c.Sub2(hi, lo), cap: c.Sub2(s.cap, lo), isnil: s.isnil}
		case "returns":
			for k, e := range returnList(cl) {
				var t *Term
				if err := guardSpec(func() {
					t = ev.eval(e)
					rt := sig.Results().At(k).Type()
					want := ex.deepSort(rt)
					if t.sort.kind == KSeq && want.kind == KRec && strings.HasPrefix(want.name, "sl<") {
						nn := c.Fresh("rnil", c.Bool())
						st.assume(c.Imp(nn, c.Eq(c.Len(t), c.zero)))
						t = c.Mk(want, nn, t)
					} else {
						t = ev.coerce(t, want)
					}
					rs[k] = st.fromDeep(t, rt, false, "r_"+f0(ct.fn))
				}); err != "" {
					bad(cl, err)
				}
			}
		}
	}
	for k := range rs {
		if rs[k] == nil {
			t := sig.Results().At(k).Type()
			rs[k] = st.fromDeep(ex.freshDeep("r_"+f0(ct.fn), t), t, false, "r_"+f0(ct.fn))
		}
	}
	if ct.exact {
		for k := range rs {
			if sl, ok := rs[k].(*SliceV); ok && sl.arr >= 0 && sl.isnil != c.T {
				o := st.mut(sl.arr)
				rs[k] = &SliceV{arr: sl.arr, off: sl.off, len: sl.len, cap: sl.len, isnil: sl.isnil}
				o.seq = st.q().Sub(o.seq, c.zero, sl.len)
			}
		}
	}
	// postconditions
	hasEns := late
	for _, cl := range ct.clauses {
		if cl.kind == "ensures" {
			hasEns = true
		}
	}
	if hasEns {
		for k := range rs {
			t := st.argDeep(rs[k], sig.Results().At(k).Type())
			post[fmt.Sprintf("result%d", k)] = t
			if n == 1 {
				post["result"] = t
			}
		}
		ev2 := &Ev{st: st, dec: st.decide, vars: mergeVars(post, ev.vars), lookup: st.ghostName}
		ev2.old = ev
		ev2.new_ = ex.newEv(st, ct, f, args, sig, ev2.vars)
		for _, cl := range ct.clauses {
			if cl.kind == "sets" && mentionsResult(cl.e) {
				var t *Term
				if e := guardSpec(func() { t = ev2.eval(cl.e) }); e != "" {
					bad(cl, e)
				}
				if err := st.setName(ct, args, f, cl.name, t, sig); err != "" {
					panic(unsupported("contract of " + ct.fn + ": " + err))
				}
				ev2.new_ = ex.newEv(st, ct, f, args, sig, ev2.vars)
				continue
			}
			if cl.kind != "ensures" || cl.label == "refusal" || cl.label == "memo" {
				continue
			}
			var t *Term
			if e := guardSpec(func() { t = ev2.boolE(cl.e) }); e != "" {
				bad(cl, e)
			}
			st.assume(t)
			st.defines(t)
		}
	}
	if st.infeasible() {
		return false
	}
	done(st, rs)
	return !st.dead
}

// defines makes the value that a contract gives to an uninterpreted function of a fresh result the normal form of
// that application.
func (st *State) defines(t *Term) {
	if t.op != OEq || len(t.args) != 2 {
		return
	}
	for k := 0; k < 2; k++ {
		x, y := t.args[k], t.args[1-k]
		if x.op != OApp || len(x.args) != 1 || x.args[0].op != OVar || !strings.HasPrefix(x.args[0].name, "r_") || contains(y, x) {
			continue
		}
		f := st.ex.db.fns[x.name]
		if f == nil || f.body != nil || y.op == OApp && y.name == x.name {
			continue
		}
		n := map[int]*Term{x.id: y}
		for k, v := range st.rw {
			if k != x.id {
				n[k] = v
			}
		}
		st.rw = n
		return
	}
}

func mentionsResult(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && (id.Name == "result" || len(id.Name) == 7 && strings.HasPrefix(id.Name, "result")) {
			found = true
		}
		return true
	})
	return found
}

func f0(n string) string { return mangle(n[strings.LastIndex(n, ".")+1:]) }

// freshDeep is an arbitrary value of a type.
func (ex *Exec) freshDeep(hint string, t types.Type) *Term {
	return ex.c.Fresh(hint, ex.deepSort(t))
}

func (ct *Contract) paramIndex(n string) int {
	for i, p := range ct.params {
		if p == n {
			return i
		}
	}
	panic(unsupported("contract of " + ct.fn + ": no parameter " + n))
}

func resultIndex(n string) int {
	if n == "result" {
		return 0
	}
	return int(n[len(n)-1] - '0')
}

// returnList: "returns E" or "returns tuple(E1, E2)".
func returnList(cl Clause) []ast.Expr {
	if ce, ok := cl.e.(*ast.CallExpr); ok {
		if id, ok := ce.Fun.(*ast.Ident); ok && id.Name == "tuple" {
			return ce.Args
		}
	}
	return []ast.Expr{cl.e}
}

// newEv evaluates names in the state after a call.
func (ex *Exec) newEv(st *State, ct *Contract, f *FuncV, args []Value, sig *types.Signature, vars map[string]*Term) *Ev {
	m := ex.bindParams(st, ct, f, args, sig)
	e := &Ev{st: st, dec: st.decide, vars: mergeVars(m, vars), lookup: st.ghostName}
	for g, id := range ex.ghostObj {
		e.vars[g] = st.objs[id].seq
	}
	return e
}

// setName assigns a logical value (nil: arbitrary) to the memory a contract name denotes: a pointer parameter's
// target, a field path below it, the elements of a slice parameter, a captured variable or a ghost variable.
func (st *State) setName(ct *Contract, args []Value, f *FuncV, name string, v *Term, sig *types.Signature) string {
	ex := st.ex
	c := ex.c
	if id, ok := ex.ghostObj[name]; ok {
		o := st.mut(id)
		if v == nil {
			v = c.Fresh("g_"+name, o.seq.sort)
		}
		o.seq = v
		return ""
	}
	parts := strings.Split(name, ".")
	base := parts[0]
	var target Value
	var tt types.Type
	for i, p := range ct.params {
		if p == base {
			target = args[i]
			tt = ex.paramTypes(f, sig, len(args))[i]
		}
	}
	if target == nil && f != nil {
		for i, fv := range f.fn.FreeVars {
			if fv.Name() == base {
				target = f.binds[i]
				tt = fv.Type()
			}
		}
	}
	switch t := target.(type) {
	case *PtrV:
		if t.obj < 0 {
			return "nil pointer argument"
		}
		p := &PtrV{obj: t.obj, idx: t.idx, path: append([]int{}, t.path...)}
		ty := tt.Underlying().(*types.Pointer).Elem()
		for _, fn := range parts[1:] {
			if pt, isP := ty.Underlying().(*types.Pointer); isP { // through a pointer field
				q, ok := st.load(p).(*PtrV)
				if !ok || q.obj < 0 {
					return "pointer field in " + name
				}
				p = &PtrV{obj: q.obj, idx: q.idx, path: append([]int{}, q.path...)}
				ty = pt.Elem()
			}
			s, ok := ty.Underlying().(*types.Struct)
			if !ok {
				return "field of a non-structure in " + name
			}
			k := -1
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == fn {
					k = i
				}
			}
			if k < 0 {
				return "no field " + fn
			}
			p.path = append(p.path, k)
			ty = s.Field(k).Type()
		}
		want := ex.deepSort(ty)
		if v == nil {
			v = ex.freshDeep("hv_"+name, ty)
		} else {
			ev := &Ev{st: st, dec: st.decide}
			e := guardSpec(func() {
				v = ev.val2(v, want)
				if v.sort.kind == KSeq && want.kind == KRec {
					nn := c.Fresh("rnil", c.Bool())
					st.assume(c.Imp(nn, c.Eq(c.Len(v), c.zero)))
					v = c.Mk(want, nn, v)
				} else {
					v = ev.coerce(v, want)
				}
			})
			if e != "" {
				return e
			}
		}
		st.storeDeep(p, v, ty, name)
		return ""
	case *SliceV:
		full := st.arrSeq(t.arr)
		q := st.q()
		if v == nil {
			v = c.Fresh("hv_"+name, full.sort)
		} else {
			ev := &Ev{st: st, dec: st.decide}
			v = ev.els(v)
		}
		st.assume(c.Eq(c.Len(v), t.len))
		end := c.Add(t.off, t.len)
		o := st.mut(t.arr)
		o.seq = c.Cat(full.sort, q.Sub(full, c.zero, t.off), v, q.Sub(full, end, c.Len(full)))
		st.rangeWritten(t.arr, t.off, end)
		return ""
	case *RefV:
		o := st.objs[t.obj]
		if o != nil && o.kind == OMapObj {
			s := ex.deepSort(tt)
			if v == nil {
				v = c.Fresh("hv_"+name, s)
			}
			o = st.mut(t.obj)
			o.dom, o.mval, o.mlen = c.Get(v, "dom"), c.Get(v, "val"), c.Get(v, "n")
			return ""
		}
	}
	return "cannot set " + name
}

// val2 strips optional pointers unless one is wanted.
func (ev *Ev) val2(t *Term, want *Sort) *Term {
	if want.kind == KRec && strings.HasPrefix(want.name, "opt<") {
		return t
	}
	return ev.val(t)
}

// storeDeep writes a logical value; maps and nested cells are rebuilt in place.
func (st *State) storeDeep(p *PtrV, v *Term, t types.Type, hint string) {
	st.store(p, st.fromDeep(v, t, false, hint))
}
