package main

import "math/big"

// subst rebuilds t with the given terms replaced; equal terms only (the caller knows the equations hold).
func (st *State) subst(t *Term, m map[*Term]*Term) *Term {
	c := st.ex.c
	q := SeqOps{c, st.decide, st.yes}
	memo := map[*Term]*Term{}
	var w func(t *Term) *Term
	w = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		as := make([]*Term, len(t.args))
		same := true
		for i, a := range t.args {
			as[i] = w(a)
			same = same && as[i] == a
		}
		r := t
		if !same {
			r = st.rebuild(q, t, as)
		}
		memo[t] = r
		return r
	}
	return w(t)
}

func (st *State) rebuild(q SeqOps, t *Term, as []*Term) *Term {
	c := q.Ctx
	switch t.op {
	case OApp:
		if f := st.ex.db.fns[t.name]; f != nil {
			return st.ex.appOf(f, as)
		}
		return c.App(t.name, t.sort, as...)
	case OAdd:
		s := c.zero
		if t.ival != nil {
			s = c.Big(t.ival)
		}
		for i, a := range as {
			k := big.NewInt(1)
			if t.coefs != nil {
				k = t.coefs[i]
			}
			s = c.Add(s, c.MulC(a, k))
		}
		return s
	case OMul:
		r := as[0]
		for _, a := range as[1:] {
			r = c.Mul(r, a)
		}
		return r
	case ODiv:
		return c.Div(as[0], as[1])
	case OMod:
		return c.Mod(as[0], as[1])
	case OLe:
		return c.Le(as[0], c.zero)
	case OEq:
		return st.ex.eqT(as[0], as[1])
	case OEq0:
		return c.Eq(as[0], c.zero)
	case ONot:
		return c.Not(as[0])
	case OAnd:
		return c.And(as...)
	case OOr:
		return c.Or(as...)
	case OIte:
		return c.Ite(as[0], as[1], as[2])
	case OUnit:
		return c.Unit(t.sort, as[0])
	case OCat:
		return c.Cat(t.sort, as...)
	case OSub:
		return q.subWF(as[0], as[1], as[2])
	case ORep:
		return c.Rep(t.sort, as[0], as[1])
	case OLen:
		return c.Len(as[0])
	case ONth:
		return q.Nth(as[0], as[1])
	case OMk:
		return c.Mk(t.sort, as...)
	case OField:
		return c.Get(as[0], t.name)
	case ORaw:
		if t.name == "select" {
			return st.selD(as[0], as[1])
		}
		if t.name == "store" {
			return st.ex.sto(as[0], as[1], as[2])
		}
	}
	n := *t
	n.args = as
	n.facts = nil
	return c.mk(&n)
}
