package main

import (
	"fmt"
	"strconv"
	"strings"
)

// leafVals reads the integer leaves of the loop state at a back edge (or at the header / entry).
func (ex *Exec) leafVals(st *State, act *LoopAct, back bool) map[string]*Term {
	out := map[string]*Term{}
	rec := func(s *State) *visitor {
		v := &visitor{st: s}
		v.term = func(key string, t *Term) *Term {
			if t.sort.kind == KInt {
				out[key] = t
			}
			return t
		}
		v.slice = func(key string, s *SliceV) *SliceV {
			if act.hav[key+".arr"] != 0 {
				out[key+".len"] = s.len
				return s
			}
			return nil
		}
		return v
	}
	v := rec(st)
	for id, o := range st.objs {
		if _, ok := act.entry.objs[id]; !ok {
			continue
		}
		key := fmt.Sprintf("obj%d", id)
		switch o.kind {
		case OCell:
			if o.val != nil {
				v.val(key, o.val, o.typ)
			}
		case OMapObj:
			out[key+".n"] = o.mlen
		case OChanObj, OIterObj:
			if o.n != nil {
				out[key+".n"] = o.n
			}
		}
	}
	fr := st.frames[act.depth-1]
	if back {
		ops := phiOps(fr, act.li.header, fr.prev)
		for ph, x := range ops {
			v.val("phi_"+ph.Name(), st.val(fr, x), ph.Type())
		}
	} else {
		for _, ph := range ex.phis(fr, act.li.header) {
			v.val("phi_"+ph.Name(), fr.regs[ph], ph.Type())
		}
	}
	return out
}

func freshIndex(t *Term) int {
	if t.op != OVar {
		return 0
	}
	i := strings.LastIndex(t.name, "!")
	if i < 0 {
		return 0
	}
	n, _ := strconv.Atoi(t.name[i+1:])
	return n
}

func newerThan(t *Term, mark int) bool {
	found := false
	collect([]*Term{t}, func(x *Term) {
		if freshIndex(x) > mark {
			found = true
		}
	})
	return found
}

type linCand struct {
	desc  string
	atoms []string // leaf keys
	coefs []*bigI
	rest  *Term // loop-invariant part; sum + rest <= 0
}

func (lc *linCand) at(c *Ctx, vals map[string]*Term) *Term {
	t := lc.rest
	for i, k := range lc.atoms {
		v := vals[k]
		if v == nil {
			return nil
		}
		t = c.Add(t, c.MulC(v, lc.coefs[i]))
	}
	return c.le0(t)
}

func (ex *Exec) houdini(act *LoopAct) {
	c := ex.c
	// affine leaves
	for round := 0; round < 4; round++ {
		hv := act.hdrVals(ex)
		bad := false
		next := map[string]*bigI{}
		first := true
		for _, bs := range act.backs {
			bv := ex.leafVals(bs, act, true)
			for k := range act.hav {
				key := k
				if strings.HasSuffix(k, ".arr") {
					key = strings.TrimSuffix(k, ".arr") + ".len"
				}
				a, b := hv[key], bv[key]
				if a == nil || b == nil {
					continue
				}
				d := c.Sub2(b, a)
				if strings.HasSuffix(k, ".arr") {
					// the length of the fresh array is a term of its own
					if d.op != OInt && act.aff[key] != nil {
						kk := act.aff[key]
						if bs.yes(c.Eq(d, c.Big(kk))) {
							d = c.Big(kk)
						}
					}
				}
				if d.op != OInt && round == 0 {
					d = c.Sub2(c.noWrap(b), a)
				}
				if d.op != OInt {
					next[key] = nil
					continue
				}
				if o, ok := next[key]; ok && (o == nil || o.Cmp(d.ival) != 0) {
					next[key] = nil
				} else {
					next[key] = d.ival
				}
			}
			first = false
		}
		_ = first
		if round == 0 {
			for k, v := range next {
				if v != nil {
					act.aff[k] = v
				}
			}
			if len(act.aff) == 0 {
				break
			}
		} else {
			for k, v := range act.aff {
				if nv, ok := next[k]; ok && (nv == nil || nv.Cmp(v) != 0) {
					delete(act.aff, k)
					bad = true
				}
			}
			if !bad {
				break
			}
		}
		ex.oneIteration(act)
	}
	if ex.dry > 1 {
		return // only the effect of the loop is wanted
	}
	// linear candidates
	mark := act.mark
	ev := ex.leafVals(act.entry, act, false)
	ev["iter"] = c.zero
	hv := act.hdrVals(ex)
	atomKey := map[*Term]string{act.iter: "iter"}
	keys := []string{"iter"}
	for _, l := range act.leaves {
		if l.hdr.op == OVar || l.hdr.op == OLen {
			atomKey[l.hdr] = l.key
			keys = append(keys, l.key)
		}
	}
	var cs []*linCand
	seen := map[string]bool{}
	add := func(lc *linCand) {
		s := fmt.Sprint(lc.atoms, lc.coefs, lc.rest.id)
		if seen[s] || len(cs) > 60 {
			return
		}
		seen[s] = true
		t := lc.at(c, ev)
		if t == nil || !act.entry.yes(t) {
			return
		}
		cs = append(cs, lc)
	}
	one := func(n int64) *bigI { return bigInt(n) }
	for _, l := range act.leaves {
		if e := ev[l.key]; e != nil {
			add(&linCand{atoms: []string{l.key}, coefs: []*bigI{one(-1)}, rest: e})
			add(&linCand{atoms: []string{l.key}, coefs: []*bigI{one(1)}, rest: c.Neg(e)})
		}
	}
	backVals := func(bs *State) map[string]*Term {
		bv := ex.leafVals(bs, act, true)
		bv["iter"] = c.Add(act.iter, c.one)
		return bv
	}
	for _, bs := range act.backs {
		bv := backVals(bs)
		for _, p := range bs.pc[min(len(act.hdrState.pc), len(bs.pc)):] {
			if p.op != OLe {
				continue
			}
			as, co, k := linOf(p.args[0])
			lc := &linCand{rest: c.Big(k)}
			shift := c.zero
			ok := true
			for i, a := range as {
				if key, is := atomKey[a]; is {
					lc.atoms = append(lc.atoms, key)
					lc.coefs = append(lc.coefs, co[i])
					if b := bv[key]; b != nil {
						if d := c.Sub2(b, a); d.op == OInt {
							shift = c.Sub2(shift, c.MulC(d, co[i]))
						}
					}
				} else if newerThan(a, mark) {
					ok = false
					break
				} else {
					lc.rest = c.Add(lc.rest, c.MulC(a, co[i]))
				}
			}
			if !ok || len(lc.atoms) == 0 {
				continue
			}
			n := *lc
			n.rest = c.Add(lc.rest, shift)
			add(&n)
			m := *lc
			m.rest = c.Sub2(lc.rest, c.one)
			add(&m)
			add(lc)
		}
	}
	if len(keys) <= 7 {
		for _, a := range keys {
			for _, b := range keys {
				if a != b {
					// a - a0 <= b - b0 style relations and plain a <= b
					add(&linCand{atoms: []string{a, b}, coefs: []*bigI{one(1), one(-1)}, rest: c.zero})
					if ea, eb := ev[a], ev[b]; ea != nil && eb != nil {
						add(&linCand{atoms: []string{a, b}, coefs: []*bigI{one(1), one(-1)}, rest: c.Sub2(eb, ea)})
					}
				}
			}
		}
	}
	_ = hv
	for round := 0; round < 8 && len(cs) > 0; round++ {
		act.cands = nil
		for _, lc := range cs {
			lc := lc
			act.cands = append(act.cands, &cand{mk: func(get func(string, *State) *Term, iter *Term) *Term {
				vals := map[string]*Term{"iter": iter}
				for _, k := range lc.atoms {
					if k != "iter" {
						vals[k] = get(k, nil)
						if vals[k] == nil {
							return c.T
						}
					}
				}
				return lc.at(c, vals)
			}})
		}
		ex.oneIteration(act)
		var keep []*linCand
		for _, lc := range cs {
			ok := true
			for _, bs := range act.backs {
				t := lc.at(c, backVals(bs))
				if t == nil || !bs.yes(t) {
					ok = false
					break
				}
			}
			if ok {
				keep = append(keep, lc)
			}
		}
		if len(keep) == len(cs) {
			return
		}
		cs = keep
	}
	act.cands = nil
}

func (a *LoopAct) hdrVals(ex *Exec) map[string]*Term {
	return ex.leafVals(a.hdrState, a, false)
}

// noWrap replaces machine wrapping by the mathematical value (used to guess strides only).
func (c *Ctx) noWrap(t *Term) *Term {
	as, co, k := linOf(t)
	r := c.Big(k)
	for i, a := range as {
		if a.op == OMod {
			a = a.args[0]
		}
		r = c.Add(r, c.MulC(a, co[i]))
	}
	return r
}
