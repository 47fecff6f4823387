package main

// Sequence terms are kept as ropes: flattened concatenations of segments.
// Positions are compared with the decision procedure of the current path (ctx.decide).

type Decider func(*Term) int // 1 true, -1 false, 0 unknown

var noDecide Decider = func(t *Term) int {
	switch t.op {
	case OTrue:
		return 1
	case OFalse:
		return -1
	}
	return 0
}

type SeqOps struct {
	*Ctx
	dec Decider
	pos func(*Term) bool // the positive half of dec
}

func (c *Ctx) Empty(s *Sort) *Term { return c.mk(&Term{op: OEmpty, sort: s}) }
func (c *Ctx) Unit(s *Sort, x *Term) *Term {
	if s.elem.kind == KInt {
		x = c.Wrap(x, s.elem)
	}
	return c.mk(&Term{op: OUnit, args: []*Term{x}, sort: s})
}
func (c *Ctx) Lit(v string) *Term {
	s := c.Seq(c.IntT(8, false))
	if v == "" {
		return c.Empty(s)
	}
	return c.mk(&Term{op: OLit, name: v, sort: s})
}
func (c *Ctx) Rep(s *Sort, x, n *Term) *Term {
	if n.op == OInt && n.ival.Sign() <= 0 {
		return c.Empty(s)
	}
	if n.op == OInt && n.ival.IsInt64() && n.ival.Int64() <= 8 {
		var us []*Term
		for i := int64(0); i < n.ival.Int64(); i++ {
			us = append(us, c.Unit(s, x))
		}
		return c.Cat(s, us...)
	}
	return c.mk(&Term{op: ORep, args: []*Term{x, n}, sort: s})
}

func segs(t *Term) []*Term {
	switch t.op {
	case OEmpty:
		return nil
	case OCat:
		return t.args
	}
	return []*Term{t}
}

func (c *Ctx) Cat(s *Sort, ts ...*Term) *Term {
	var xs []*Term
	for _, t := range ts {
		for _, x := range segs(t) {
			if n := len(xs); n > 0 {
				if m := c.mergeSeg(xs[n-1], x); m != nil {
					xs[n-1] = m
					continue
				}
			}
			xs = append(xs, x)
		}
	}
	if len(xs) == 0 {
		return c.Empty(s)
	}
	if len(xs) == 1 {
		return xs[0]
	}
	return c.mk(&Term{op: OCat, args: xs, sort: s})
}

func (c *Ctx) mergeSeg(a, b *Term) *Term {
	if a.op == OSub && b.op == OSub && a.args[0] == b.args[0] && a.args[2] == b.args[1] {
		return c.subRaw(a.args[0], a.args[1], b.args[2])
	}
	if a.op == ORep && b.op == ORep && a.args[0] == b.args[0] {
		return c.mk(&Term{op: ORep, args: []*Term{a.args[0], c.Add(a.args[1], b.args[1])}, sort: a.sort})
	}
	return nil
}

// Len is exact for every rope; it relies on OSub segments being well formed and ORep counts
// being non-negative, which their constructors establish.
func (c *Ctx) Len(t *Term) *Term {
	switch t.op {
	case OEmpty:
		return c.zero
	case OUnit:
		return c.one
	case OLit:
		return c.I(int64(len(t.name)))
	case OCat:
		ls := make([]*Term, len(t.args))
		for i, a := range t.args {
			ls[i] = c.Len(a)
		}
		return c.Add(ls...)
	case OSub:
		return c.Sub2(t.args[2], t.args[1])
	case ORep:
		return t.args[1]
	case OIte:
		return c.Ite(t.args[0], c.Len(t.args[1]), c.Len(t.args[2]))
	}
	if t.op == OApp && c.spec != nil {
		if l := c.spec.knownLen(c, t); l != nil {
			return l
		}
	}
	return c.mk(&Term{op: OLen, args: []*Term{t}, sort: c.Int()})
}

// subRaw builds base[lo:hi], known to be well formed.
func (c *Ctx) subRaw(b, lo, hi *Term) *Term {
	if lo == hi {
		return c.Empty(b.sort)
	}
	if lo == c.zero && hi == c.Len(b) {
		return b
	}
	switch b.op {
	case OSub:
		return c.subRaw(b.args[0], c.Add(b.args[1], lo), c.Add(b.args[1], hi))
	case ORep:
		return c.Rep(b.sort, b.args[0], c.Sub2(hi, lo))
	case OLit:
		if lo.op == OInt && hi.op == OInt {
			return c.Lit(b.name[lo.ival.Int64():hi.ival.Int64()])
		}
	case OUnit:
		if lo.op == OInt && hi.op == OInt {
			if lo.ival.Sign() == 0 && hi.ival.Cmp(bigOne) == 0 {
				return b
			}
		}
	}
	return c.mk(&Term{op: OSub, args: []*Term{b, lo, hi}, sort: b.sort})
}

func (c *Ctx) subUnk(b, lo, hi *Term) *Term {
	t := c.App("sub?"+b.sort.smt, b.sort, b, lo, hi)
	if t.facts == nil {
		l := c.Len(t)
		wf := c.And(c.Le(c.zero, lo), c.Le(lo, hi), c.Le(hi, c.Len(b)))
		raw := c.mk(&Term{op: OSub, args: []*Term{b, lo, hi}, sort: b.sort})
		t.facts = append(t.facts, c.Imp(wf, c.Eq(l, c.Sub2(hi, lo))), c.Imp(wf, c.mkEqRaw(t, raw)))
	}
	return t
}

func (c *Ctx) mkEqRaw(a, b *Term) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OEq, args: []*Term{a, b}, sort: c.Bool()})
}

func (q SeqOps) yes(t *Term) bool {
	if q.pos != nil {
		return q.pos(t)
	}
	return q.dec(t) > 0
}

// Sub is base[lo:hi] for a rope; when the bounds cannot be decided it is left opaque.
func (q SeqOps) Sub(t, lo, hi *Term) *Term {
	c := q.Ctx
	n := c.Len(t)
	if lo == c.zero && (hi == n || q.yes(c.Eq(hi, n))) {
		return t
	}
	if lo == hi && q.yes(c.And(c.Le(c.zero, lo), c.Le(lo, n))) {
		return c.Empty(t.sort)
	}
	if !q.yes(c.And(c.Le(c.zero, lo), c.Le(lo, hi), c.Le(hi, n))) {
		return c.subUnk(t, lo, hi)
	}
	return q.subWF(t, lo, hi)
}

func (q SeqOps) subWF(t, lo, hi *Term) *Term {
	c := q.Ctx
	if t.op != OCat {
		if t.op == OUnit {
			if q.yes(c.Lt(lo, hi)) {
				return t
			}
			if q.yes(c.Eq(lo, hi)) {
				return c.Empty(t.sort)
			}
		}
		return c.subRaw(t, lo, hi)
	}
	// cut the rope
	off := c.zero
	var out []*Term
	i := 0
	xs := t.args
	// find the segment containing lo
	for i < len(xs) {
		end := c.Add(off, c.Len(xs[i]))
		if q.yes(c.Le(end, lo)) {
			off = end
			i++
			continue
		}
		break
	}
	start := lo
	for i < len(xs) {
		end := c.Add(off, c.Len(xs[i]))
		// start is within [off, end] if decided
		if !q.yes(c.Le(off, start)) {
			return c.subRawCat(t, lo, hi)
		}
		if q.yes(c.Le(hi, end)) {
			if !q.yes(c.Le(start, hi)) {
				return c.subRawCat(t, lo, hi)
			}
			out = append(out, q.subWF(xs[i], c.Sub2(start, off), c.Sub2(hi, off)))
			return c.Cat(t.sort, out...)
		}
		if !q.yes(c.Le(end, hi)) || !q.yes(c.Le(start, end)) {
			return c.subRawCat(t, lo, hi)
		}
		out = append(out, q.subWF(xs[i], c.Sub2(start, off), c.Len(xs[i])))
		start = end
		off = end
		i++
	}
	return c.Cat(t.sort, out...)
}

func (c *Ctx) subRawCat(t, lo, hi *Term) *Term {
	return c.mk(&Term{op: OSub, args: []*Term{t, lo, hi}, sort: t.sort})
}

// Upd is t with element i replaced (0 <= i < len must be decided by the caller).
func (q SeqOps) Upd(t, i, v *Term) *Term {
	c := q.Ctx
	n := c.Len(t)
	i1 := c.Add(i, c.one)
	if q.Nth(t, i) == v {
		return t
	}
	return c.Cat(t.sort, q.subWF0(t, c.zero, i), c.Unit(t.sort, v), q.subWF0(t, i1, n))
}

func (q SeqOps) subWF0(t, lo, hi *Term) *Term {
	if lo == hi {
		return q.Empty(t.sort)
	}
	if lo == q.zero && hi == q.Len(t) {
		return t
	}
	if q.yes(q.Eq(lo, hi)) {
		return q.Empty(t.sort)
	}
	return q.subWF(t, lo, hi)
}

func (q SeqOps) Nth(t, i *Term) *Term {
	c := q.Ctx
	switch t.op {
	case OUnit:
		if i == c.zero || q.yes(c.Eq(i, c.zero)) {
			return t.args[0]
		}
	case OSub:
		return q.Nth(t.args[0], c.Add(t.args[1], i))
	case ORep:
		if q.yes(c.And(c.Le(c.zero, i), c.Lt(i, t.args[1]))) {
			return t.args[0]
		}
	case OLit:
		if i.op == OInt && i.ival.Sign() >= 0 && i.ival.Cmp(c.Len(t).ival) < 0 {
			return c.I(int64(t.name[i.ival.Int64()]))
		}
	case OCat:
		off := c.zero
		for _, x := range t.args {
			end := c.Add(off, c.Len(x))
			in := q.dec(c.Lt(i, end))
			if in > 0 {
				if !q.yes(c.Le(off, i)) {
					break
				}
				return q.Nth(x, c.Sub2(i, off))
			}
			if in == 0 {
				break
			}
			off = end
		}
	case OIte:
		return c.Ite(t.args[0], q.Nth(t.args[1], i), q.Nth(t.args[2], i))
	case OApp:
		if c.spec != nil {
			if v := c.spec.knownNth(q, t, i); v != nil {
				return v
			}
		}
	}
	return c.nthRaw(t, i)
}

func (c *Ctx) nthRaw(t, i *Term) *Term {
	return c.mk(&Term{op: ONth, args: []*Term{t, i}, sort: t.sort.elem})
}
