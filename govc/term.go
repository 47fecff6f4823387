package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- sorts

type SortKind int

const (
	KInt SortKind = iota
	KBool
	KSeq
	KRec
	KMap
	KUn
	KBV
)

type Field struct {
	name string
	sort *Sort
}

type Sort struct {
	kind   SortKind
	name   string // unique display name (with typing info)
	smt    string // erased SMT name
	lo, hi *big.Int
	elem   *Sort // seq elem / map value
	key    *Sort
	fields []Field
	bits   int
}

func (s *Sort) String() string { return s.name }

type sortTab struct {
	m    map[string]*Sort
	recs []*Sort // in dependency order
	uns  []*Sort
	seqs []*Sort
	maps []*Sort
}

var bigOne = big.NewInt(1)
var bigZero = big.NewInt(0)

func pow2(n int) *big.Int { return new(big.Int).Lsh(bigOne, uint(n)) }

func newSortTab() *sortTab { return &sortTab{m: map[string]*Sort{}} }

func (st *sortTab) intern(s *Sort) *Sort {
	if o, ok := st.m[s.name]; ok {
		return o
	}
	st.m[s.name] = s
	return s
}

func (st *sortTab) Int() *Sort {
	return st.intern(&Sort{kind: KInt, name: "int", smt: "Int"})
}
func (st *sortTab) Bool() *Sort { return st.intern(&Sort{kind: KBool, name: "bool", smt: "Bool"}) }
func (st *sortTab) IntT(bits int, signed bool) *Sort {
	n := fmt.Sprintf("u%d", bits)
	lo, hi := big.NewInt(0), new(big.Int).Sub(pow2(bits), bigOne)
	if signed {
		n = fmt.Sprintf("i%d", bits)
		lo, hi = new(big.Int).Neg(pow2(bits-1)), new(big.Int).Sub(pow2(bits-1), bigOne)
	}
	return st.intern(&Sort{kind: KInt, name: n, smt: "Int", lo: lo, hi: hi})
}
func (st *sortTab) BV(bits int) *Sort {
	return st.intern(&Sort{kind: KBV, name: fmt.Sprintf("bv%d", bits), smt: fmt.Sprintf("(_ BitVec %d)", bits), bits: bits})
}
func (st *sortTab) Seq(e *Sort) *Sort {
	n := "seq<" + e.name + ">"
	if o, ok := st.m[n]; ok {
		return o
	}
	s := &Sort{kind: KSeq, name: n, smt: "Seq_" + mangle(e.smt), elem: e}
	st.m[n] = s
	dup := false
	for _, q := range st.seqs {
		if q.smt == s.smt {
			dup = true
		}
	}
	if !dup {
		st.seqs = append(st.seqs, s)
		st.recs = append(st.recs, s)
	}
	return s
}
func (st *sortTab) Map(k, v *Sort) *Sort {
	n := "map<" + k.name + "," + v.name + ">"
	if o, ok := st.m[n]; ok {
		return o
	}
	s := &Sort{kind: KMap, name: n, smt: "Map_" + mangle(k.smt) + "_" + mangle(v.smt), elem: v, key: k}
	st.m[n] = s
	st.recs = append(st.recs, s)
	return s
}
func (st *sortTab) Un(name string) *Sort {
	if o, ok := st.m[name]; ok {
		return o
	}
	s := &Sort{kind: KUn, name: name, smt: mangle(name)}
	st.m[name] = s
	st.recs = append(st.recs, s)
	return s
}
func (st *sortTab) Rec(name string, fs []Field) *Sort {
	if o, ok := st.m[name]; ok {
		return o
	}
	s := &Sort{kind: KRec, name: name, smt: "R_" + mangle(name), fields: fs}
	st.m[name] = s
	st.recs = append(st.recs, s)
	return s
}

func mangle(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_':
			b.WriteRune(r)
		default:
			b.WriteByte('_')
		}
	}
	return b.String()
}

func (s *Sort) fieldIndex(n string) int {
	for i, f := range s.fields {
		if f.name == n {
			return i
		}
	}
	return -1
}

// ---------------------------------------------------------------- terms

type Op int

const (
	OInt Op = iota
	OTrue
	OFalse
	OVar
	OApp // spec or uninterpreted function, name
	OAdd // linear: sum coefs[i]*args[i] + ival
	OMul
	ODiv // by any term; Euclidean/floor for positive divisor
	OMod
	OLe // args[0] <= 0
	OEq // args[0] = args[1]; for ints args[0] = 0 form is OEq0
	OEq0
	ONot
	OAnd
	OOr
	OIte
	OEmpty
	OUnit
	OCat
	OSub
	OUpd
	ORep
	OLit
	OLen
	ONth
	OMk
	OField
	ORaw // raw SMT operator named by name (bit-vectors)
)

type Term struct {
	id    int
	op    Op
	args  []*Term
	coefs []*big.Int
	ival  *big.Int
	name  string
	sort  *Sort
	lo    *big.Int // interval
	hi    *big.Int
	facts []*Term // ground facts about this term (valid in every state)
	quant bool
	size  int
}

type Ctx struct {
	*sortTab
	tab     map[string]*Term
	foldApp func(*Term) *Term
	terms   []*Term
	fresh   int
	T, F    *Term
	zero    *Term
	one     *Term
	lits    map[string]*Term
	// range facts of function results
	spec *SpecDB
}

func newCtx() *Ctx {
	c := &Ctx{sortTab: newSortTab(), tab: map[string]*Term{}, lits: map[string]*Term{}}
	c.T = c.mk(&Term{op: OTrue, sort: c.Bool()})
	c.F = c.mk(&Term{op: OFalse, sort: c.Bool()})
	c.zero = c.I(0)
	c.one = c.I(1)
	return c
}

func (c *Ctx) mk(t *Term) *Term {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s|%s", t.op, t.name, t.sort.name)
	if t.ival != nil {
		b.WriteByte('|')
		b.WriteString(t.ival.String())
	}
	for i, a := range t.args {
		fmt.Fprintf(&b, ",%d", a.id)
		if t.coefs != nil {
			b.WriteByte('*')
			b.WriteString(t.coefs[i].String())
		}
	}
	k := b.String()
	if o, ok := c.tab[k]; ok {
		return o
	}
	t.id = len(c.terms)
	t.size = 1
	for _, a := range t.args {
		t.size += a.size
	}
	c.terms = append(c.terms, t)
	c.tab[k] = t
	c.interval(t)
	return t
}

func (c *Ctx) I(n int64) *Term { return c.Big(big.NewInt(n)) }
func (c *Ctx) Big(n *big.Int) *Term {
	return c.mk(&Term{op: OInt, ival: n, sort: c.Int()})
}
func (c *Ctx) B(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}

func (c *Ctx) Var(name string, s *Sort) *Term {
	return c.mk(&Term{op: OVar, name: name, sort: s})
}
func (c *Ctx) Fresh(hint string, s *Sort) *Term {
	c.fresh++
	return c.Var(fmt.Sprintf("%s!%d", mangle(hint), c.fresh), s)
}

func (t *Term) isConst() bool { return t.op == OInt }

func (c *Ctx) isInt(s *Sort) bool { return s.kind == KInt }

// linear view of an int term
func linOf(t *Term) ([]*Term, []*big.Int, *big.Int) {
	switch t.op {
	case OInt:
		return nil, nil, t.ival
	case OAdd:
		return t.args, t.coefs, t.ival
	}
	return []*Term{t}, []*big.Int{bigOne}, bigZero
}

func (c *Ctx) mkLin(m map[*Term]*big.Int, k *big.Int) *Term {
	var as []*Term
	for a, co := range m {
		if co.Sign() != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return c.Big(k)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && k.Sign() == 0 && m[as[0]].Cmp(bigOne) == 0 {
		return as[0]
	}
	cs := make([]*big.Int, len(as))
	for i, a := range as {
		cs[i] = m[a]
	}
	return c.mk(&Term{op: OAdd, args: as, coefs: cs, ival: k, sort: c.Int()})
}

func (c *Ctx) addScaled(m map[*Term]*big.Int, k *big.Int, t *Term, s *big.Int) *big.Int {
	as, cs, k0 := linOf(t)
	for i, a := range as {
		v := new(big.Int).Mul(cs[i], s)
		if o, ok := m[a]; ok {
			v.Add(v, o)
		}
		m[a] = v
	}
	return new(big.Int).Add(k, new(big.Int).Mul(k0, s))
}

func (c *Ctx) Add(ts ...*Term) *Term {
	m := map[*Term]*big.Int{}
	k := big.NewInt(0)
	for _, t := range ts {
		k = c.addScaled(m, k, t, bigOne)
	}
	return c.mkLin(m, k)
}
func (c *Ctx) Sub2(a, b *Term) *Term {
	m := map[*Term]*big.Int{}
	k := c.addScaled(m, big.NewInt(0), a, bigOne)
	k = c.addScaled(m, k, b, big.NewInt(-1))
	return c.mkLin(m, k)
}
func (c *Ctx) Neg(a *Term) *Term { return c.Sub2(c.zero, a) }
func (c *Ctx) MulC(a *Term, k *big.Int) *Term {
	m := map[*Term]*big.Int{}
	k0 := c.addScaled(m, big.NewInt(0), a, k)
	return c.mkLin(m, k0)
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.op == OInt {
		return c.MulC(b, a.ival)
	}
	if b.op == OInt {
		return c.MulC(a, b.ival)
	}
	// distribute over sums so that products of atoms are canonical
	as, ac, ak := linOf(a)
	bs, bc, bk := linOf(b)
	if a.op == OAdd || b.op == OAdd {
		m := map[*Term]*big.Int{}
		k := new(big.Int).Mul(ak, bk)
		for i := range as {
			for j := range bs {
				p := c.mulAtoms(as[i], bs[j])
				k = c.addScaled(m, k, p, new(big.Int).Mul(ac[i], bc[j]))
			}
		}
		for i := range as {
			k = c.addScaled(m, k, as[i], new(big.Int).Mul(ac[i], bk))
		}
		for j := range bs {
			k = c.addScaled(m, k, bs[j], new(big.Int).Mul(bc[j], ak))
		}
		return c.mkLin(m, k)
	}
	return c.mulAtoms(a, b)
}
func (c *Ctx) mulAtoms(a, b *Term) *Term {
	var fs []*Term
	for _, x := range []*Term{a, b} {
		if x.op == OMul {
			fs = append(fs, x.args...)
		} else {
			fs = append(fs, x)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	return c.mk(&Term{op: OMul, args: fs, sort: c.Int()})
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int).QuoRem(a, b, new(big.Int))
	if m.Sign() != 0 && (m.Sign() < 0) != (b.Sign() < 0) {
		q.Sub(q, bigOne)
	}
	return q
}
func floorMod(a, b *big.Int) *big.Int {
	return new(big.Int).Sub(a, new(big.Int).Mul(b, floorDiv(a, b)))
}

// Div is floor division; the divisor is required to be positive.
func (c *Ctx) Div(a, b *Term) *Term {
	if b.op == OInt && b.ival.Sign() > 0 {
		if b.ival.Cmp(bigOne) == 0 {
			return a
		}
		if a.op == OInt {
			return c.Big(floorDiv(a.ival, b.ival))
		}
		if a.lo != nil && a.hi != nil {
			l, h := floorDiv(a.lo, b.ival), floorDiv(a.hi, b.ival)
			if l.Cmp(h) == 0 {
				return c.Big(l)
			}
		}
		if a.op == ODiv && a.args[1].op == OInt {
			return c.Div(a.args[0], c.Big(new(big.Int).Mul(a.args[1].ival, b.ival)))
		}
		// pull out multiples of the divisor
		as, cs, k := linOf(a)
		if a.op == OAdd {
			m := map[*Term]*big.Int{}
			rest := map[*Term]*big.Int{}
			moved := false
			for i, x := range as {
				q, r := new(big.Int).QuoRem(cs[i], b.ival, new(big.Int))
				if r.Sign() == 0 {
					m[x] = q
					moved = true
				} else {
					rest[x] = cs[i]
				}
			}
			kq, kr := floorDiv(k, b.ival), floorMod(k, b.ival)
			if kq.Sign() != 0 {
				moved = true
			}
			if moved {
				return c.Add(c.mkLin(m, kq), c.Div(c.mkLin(rest, kr), b))
			}
		}
	} else if a.op == OMul || a.op == OAdd {
		// exact division of products by one of their factors: (x*b) div b = x (b > 0 required)
		if b.op != OInt {
			as, cs, k := linOf(a)
			if k.Sign() == 0 {
				m := map[*Term]*big.Int{}
				ok := len(as) > 0
				kk := big.NewInt(0)
				for i, x := range as {
					q := c.divFactor(x, b)
					if q == nil {
						ok = false
						break
					}
					kk = c.addScaled(m, kk, q, cs[i])
				}
				if ok {
					return c.mkLin(m, kk)
				}
			}
		}
	}
	if a.op == OInt && a.ival.Sign() == 0 {
		return c.zero
	}
	return c.mk(&Term{op: ODiv, args: []*Term{a, b}, sort: c.Int()})
}

func (c *Ctx) divFactor(x, b *Term) *Term {
	if x == b {
		return c.one
	}
	if x.op != OMul {
		return nil
	}
	for i, f := range x.args {
		if f == b {
			rest := append(append([]*Term{}, x.args[:i]...), x.args[i+1:]...)
			r := rest[0]
			for _, y := range rest[1:] {
				r = c.mulAtoms(r, y)
			}
			return r
		}
	}
	return nil
}

func (c *Ctx) Mod(a, b *Term) *Term {
	if b.op == OInt && b.ival.Sign() > 0 {
		if a.op == OInt {
			return c.Big(floorMod(a.ival, b.ival))
		}
		if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(b.ival) < 0 {
			return a
		}
		if a.lo != nil && a.hi != nil {
			l, h := floorDiv(a.lo, b.ival), floorDiv(a.hi, b.ival)
			if l.Cmp(h) == 0 {
				return c.Sub2(a, c.Big(new(big.Int).Mul(l, b.ival)))
			}
		}
		if a.op == OMod && a.args[1].op == OInt {
			if new(big.Int).Rem(a.args[1].ival, b.ival).Sign() == 0 {
				return c.Mod(a.args[0], b)
			}
		}
		if a.op == OAdd {
			as, cs, k := linOf(a)
			rest := map[*Term]*big.Int{}
			changed := false
			kk := k
			for i, x := range as {
				r := floorMod(cs[i], b.ival)
				// replace (y mod n) by y when b | n
				y := x
				if x.op == OMod && x.args[1].op == OInt && new(big.Int).Rem(x.args[1].ival, b.ival).Sign() == 0 {
					y = x.args[0]
					changed = true
				}
				if r.Sign() == 0 {
					changed = true
					continue
				}
				// keep -1 style small coefficients as they are
				if r.Cmp(cs[i]) != 0 {
					alt := new(big.Int).Sub(r, b.ival)
					if new(big.Int).Abs(alt).Cmp(r) < 0 {
						r = alt
					}
					if r.Cmp(cs[i]) != 0 {
						changed = true
					}
				}
				kk = c.addScaled(rest, kk, y, r)
			}
			kr := floorMod(kk, b.ival)
			if kr.Cmp(k) != 0 {
				changed = true
			}
			if changed {
				return c.Mod(c.mkLin(rest, kr), b)
			}
		}
	}
	return c.mk(&Term{op: OMod, args: []*Term{a, b}, sort: c.Int()})
}

// Wrap reduces t to the range of a machine integer type.
func (c *Ctx) Wrap(t *Term, s *Sort) *Term {
	if s.lo == nil || (t.lo != nil && t.hi != nil && t.lo.Cmp(s.lo) >= 0 && t.hi.Cmp(s.hi) <= 0) {
		return t
	}
	n := new(big.Int).Add(new(big.Int).Sub(s.hi, s.lo), bigOne)
	if s.lo.Sign() == 0 {
		return c.Mod(t, c.Big(n))
	}
	l := c.Big(s.lo)
	return c.Add(c.Mod(c.Sub2(t, l), c.Big(n)), l)
}

// ---------------------------------------------------------------- booleans

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return c.F
	case OFalse:
		return c.T
	case ONot:
		return a.args[0]
	case OLe: // not (t <= 0)  ==  t >= 1  == 1 - t <= 0
		return c.le0(c.Sub2(c.one, a.args[0]))
	case OAnd:
		var xs []*Term
		for _, x := range a.args {
			xs = append(xs, c.Not(x))
		}
		return c.Or(xs...)
	case OOr:
		var xs []*Term
		for _, x := range a.args {
			xs = append(xs, c.Not(x))
		}
		return c.And(xs...)
	}
	return c.mk(&Term{op: ONot, args: []*Term{a}, sort: c.Bool()})
}

func (c *Ctx) nary(op Op, unit, absorb *Term, ts []*Term) *Term {
	var xs []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t == absorb {
			return absorb
		}
		if t == unit {
			continue
		}
		ys := []*Term{t}
		if t.op == op {
			ys = t.args
		}
		for _, y := range ys {
			if !seen[y] {
				seen[y] = true
				xs = append(xs, y)
			}
		}
	}
	for _, x := range xs {
		if x.op == ONot && seen[x.args[0]] {
			return absorb
		}
	}
	if len(xs) == 0 {
		return unit
	}
	if len(xs) == 1 {
		return xs[0]
	}
	return c.mk(&Term{op: op, args: xs, sort: c.Bool()})
}
func (c *Ctx) And(ts ...*Term) *Term { return c.nary(OAnd, c.T, c.F, ts) }
func (c *Ctx) Or(ts ...*Term) *Term  { return c.nary(OOr, c.F, c.T, ts) }
func (c *Ctx) Imp(a, b *Term) *Term  { return c.Or(c.Not(a), b) }

func (c *Ctx) le0(t *Term) *Term {
	if t.op == OInt {
		return c.B(t.ival.Sign() <= 0)
	}
	if t.hi != nil && t.hi.Sign() <= 0 {
		return c.T
	}
	if t.lo != nil && t.lo.Sign() > 0 {
		return c.F
	}
	// divide by gcd of coefficients
	as, cs, k := linOf(t)
	g := new(big.Int).Abs(cs[0])
	for _, x := range cs[1:] {
		g.GCD(nil, nil, g, new(big.Int).Abs(x))
	}
	if g.Cmp(bigOne) > 0 {
		m := map[*Term]*big.Int{}
		for i, a := range as {
			m[a] = new(big.Int).Quo(cs[i], g)
		}
		// sum + k <= 0  <=>  sum/g <= floor(-k/g)
		b := floorDiv(new(big.Int).Neg(k), g)
		return c.le0(c.mkLin(m, new(big.Int).Neg(b)))
	}
	return c.mk(&Term{op: OLe, args: []*Term{t}, sort: c.Bool()})
}
func (c *Ctx) Le(a, b *Term) *Term { return c.le0(c.Sub2(a, b)) }
func (c *Ctx) Lt(a, b *Term) *Term { return c.le0(c.Add(c.Sub2(a, b), c.one)) }
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.sort.kind != b.sort.kind {
		panic(fmt.Sprintf("Eq: sort mismatch %s (%s) vs %s (%s)", c.str(a), a.sort, c.str(b), b.sort))
	}
	switch a.sort.kind {
	case KInt:
		d := c.Sub2(a, b)
		if d.op == OInt {
			return c.B(d.ival.Sign() == 0)
		}
		if (d.lo != nil && d.lo.Sign() > 0) || (d.hi != nil && d.hi.Sign() < 0) {
			return c.F
		}
		as, cs, k := linOf(d)
		g := new(big.Int).Abs(cs[0])
		for _, x := range cs[1:] {
			g.GCD(nil, nil, g, new(big.Int).Abs(x))
		}
		neg := cs[0].Sign() < 0
		if g.Cmp(bigOne) > 0 || neg {
			if new(big.Int).Rem(k, g).Sign() != 0 {
				return c.F
			}
			if neg {
				g = new(big.Int).Neg(g)
			}
			m := map[*Term]*big.Int{}
			for i, x := range as {
				m[x] = new(big.Int).Quo(cs[i], g)
			}
			d = c.mkLin(m, new(big.Int).Quo(k, g))
		}
		return c.mk(&Term{op: OEq0, args: []*Term{d}, sort: c.Bool()})
	case KBool:
		if a == c.T {
			return b
		}
		if b == c.T {
			return a
		}
		if a == c.F {
			return c.Not(b)
		}
		if b == c.F {
			return c.Not(a)
		}
	case KRec:
		if a.op == OMk && b.op == OMk {
			var xs []*Term
			for i := range a.args {
				xs = append(xs, c.Eq(a.args[i], b.args[i]))
			}
			return c.And(xs...)
		}
	case KSeq:
		if a.op == OLit && b.op == OLit {
			return c.B(a.name == b.name)
		}
		if a.op == OEmpty {
			return c.Eq(c.Len(b), c.zero)
		}
		if b.op == OEmpty {
			return c.Eq(c.Len(a), c.zero)
		}
		if la, lb := c.Len(a), c.Len(b); c.Eq(la, lb) == c.F {
			return c.F
		}
		if a.op == OUnit && b.op == OUnit {
			return c.Eq(a.args[0], b.args[0])
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	if a.op == OIte && b.op != OIte && a.args[1] == b {
		return c.Or(a.args[0], c.Eq(a.args[2], b))
	}
	return c.mk(&Term{op: OEq, args: []*Term{a, b}, sort: c.Bool()})
}

func (c *Ctx) Ite(x, a, b *Term) *Term {
	if x == c.T || a == b {
		return a
	}
	if x == c.F {
		return b
	}
	if a.sort.kind == KBool {
		if a == c.T {
			return c.Or(x, b)
		}
		if a == c.F {
			return c.And(c.Not(x), b)
		}
		if b == c.T {
			return c.Or(c.Not(x), a)
		}
		if b == c.F {
			return c.And(x, a)
		}
	}
	if x.op == ONot {
		return c.Ite(x.args[0], b, a)
	}
	s := a.sort
	if s.kind == KInt {
		s = c.Int()
	}
	return c.mk(&Term{op: OIte, args: []*Term{x, a, b}, sort: s})
}

// ---------------------------------------------------------------- records

func (c *Ctx) Mk(s *Sort, fs ...*Term) *Term {
	if len(fs) != len(s.fields) {
		panic("Mk: arity " + s.name)
	}
	// eta: Mk(f0(x), f1(x), ..) = x
	var x *Term
	for i, f := range fs {
		if f.op == OField && f.args[0].sort.smt == s.smt && f.name == s.fields[i].name && (x == nil || x == f.args[0]) {
			x = f.args[0]
			continue
		}
		x = nil
		break
	}
	if x != nil && len(fs) > 0 {
		return x
	}
	return c.mk(&Term{op: OMk, args: fs, sort: s, name: s.name})
}

func (c *Ctx) Get(t *Term, field string) *Term {
	i := t.sort.fieldIndex(field)
	if i < 0 {
		panic(fmt.Sprintf("no field %s in %s (%s)", field, t.sort, c.str(t)))
	}
	if t.op == OMk {
		return t.args[i]
	}
	if t.op == OIte {
		return c.Ite(t.args[0], c.Get(t.args[1], field), c.Get(t.args[2], field))
	}
	fs := t.sort.fields[i].sort
	return c.mk(&Term{op: OField, name: field, args: []*Term{t}, sort: fs})
}

func (c *Ctx) With(t *Term, field string, v *Term) *Term {
	fs := make([]*Term, len(t.sort.fields))
	for i, f := range t.sort.fields {
		if f.name == field {
			fs[i] = v
		} else {
			fs[i] = c.Get(t, f.name)
		}
	}
	return c.Mk(t.sort, fs...)
}

// ---------------------------------------------------------------- applications

func (c *Ctx) App(name string, s *Sort, args ...*Term) *Term {
	t := c.mk(&Term{op: OApp, name: name, args: args, sort: s})
	if c.foldApp != nil {
		return c.foldApp(t)
	}
	return t
}

// ---------------------------------------------------------------- intervals

func (c *Ctx) interval(t *Term) {
	if t.sort.kind != KInt {
		return
	}
	switch t.op {
	case OInt:
		t.lo, t.hi = t.ival, t.ival
		return
	case OAdd:
		lo, hi := new(big.Int).Set(t.ival), new(big.Int).Set(t.ival)
		okl, okh := true, true
		for i, a := range t.args {
			co := t.coefs[i]
			l, h := a.lo, a.hi
			if co.Sign() < 0 {
				l, h = h, l
			}
			if l == nil {
				okl = false
			} else {
				lo.Add(lo, new(big.Int).Mul(co, l))
			}
			if h == nil {
				okh = false
			} else {
				hi.Add(hi, new(big.Int).Mul(co, h))
			}
		}
		if okl {
			t.lo = lo
		}
		if okh {
			t.hi = hi
		}
		return
	case OMul:
		allNonNeg := true
		hi := big.NewInt(1)
		lo := big.NewInt(1)
		for _, a := range t.args {
			if a.lo == nil || a.lo.Sign() < 0 {
				allNonNeg = false
				break
			}
			lo = new(big.Int).Mul(lo, a.lo)
			if a.hi == nil {
				hi = nil
			} else if hi != nil {
				hi = new(big.Int).Mul(hi, a.hi)
			}
		}
		if allNonNeg {
			t.lo, t.hi = lo, hi
		}
		return
	case OMod:
		if b := t.args[1]; b.op == OInt && b.ival.Sign() > 0 {
			t.lo, t.hi = bigZero, new(big.Int).Sub(b.ival, bigOne)
		} else if b.lo != nil && b.lo.Sign() > 0 {
			t.lo = bigZero
			if b.hi != nil {
				t.hi = new(big.Int).Sub(b.hi, bigOne)
			}
		}
		return
	case ODiv:
		a, b := t.args[0], t.args[1]
		if b.op == OInt && b.ival.Sign() > 0 {
			if a.lo != nil {
				t.lo = floorDiv(a.lo, b.ival)
			}
			if a.hi != nil {
				t.hi = floorDiv(a.hi, b.ival)
			}
		} else if b.lo != nil && b.lo.Sign() > 0 && a.lo != nil && a.lo.Sign() >= 0 {
			t.lo = bigZero
			if a.hi != nil {
				t.hi = a.hi
			}
		}
		return
	case OIte:
		a, b := t.args[1], t.args[2]
		if a.lo != nil && b.lo != nil {
			t.lo = a.lo
			if b.lo.Cmp(a.lo) < 0 {
				t.lo = b.lo
			}
		}
		if a.hi != nil && b.hi != nil {
			t.hi = a.hi
			if b.hi.Cmp(a.hi) > 0 {
				t.hi = b.hi
			}
		}
		return
	case OLen:
		t.lo = bigZero
		return
	}
	// variables, applications, nth, fields: range of the declared sort
	if t.sort.lo != nil {
		t.lo, t.hi = t.sort.lo, t.sort.hi
	}
}

// rangeFacts returns the ground facts that hold of t because of its sort.
func (c *Ctx) rangeFacts(t *Term) []*Term {
	var fs []*Term
	switch t.op {
	case OVar, OApp, ONth, OField:
		if t.sort.kind == KInt && t.lo != nil {
			fs = append(fs, c.rawLe(c.Big(t.lo), t), c.rawLe(t, c.Big(t.hi)))
		}
	case OLen:
		fs = append(fs, c.rawLe(c.zero, t))
	case OMod:
	}
	return fs
}

// rawLe builds a <= b without interval simplification.
func (c *Ctx) rawLe(a, b *Term) *Term {
	return c.mk(&Term{op: OLe, args: []*Term{c.Sub2(a, b)}, sort: c.Bool()})
}

// ---------------------------------------------------------------- printing

func (c *Ctx) str(t *Term) string {
	var b strings.Builder
	c.pr(&b, t, 0)
	return b.String()
}

func (c *Ctx) pr(b *strings.Builder, t *Term, d int) {
	if d > 12 {
		b.WriteString("…")
		return
	}
	list := func(name string, as []*Term) {
		b.WriteString(name)
		b.WriteByte('(')
		for i, a := range as {
			if i > 0 {
				b.WriteString(", ")
			}
			c.pr(b, a, d+1)
		}
		b.WriteByte(')')
	}
	switch t.op {
	case OInt:
		b.WriteString(t.ival.String())
	case OTrue:
		b.WriteString("true")
	case OFalse:
		b.WriteString("false")
	case OVar:
		b.WriteString(t.name)
	case OApp, ORaw:
		list(t.name, t.args)
	case OAdd:
		b.WriteByte('(')
		for i, a := range t.args {
			if i > 0 {
				b.WriteString(" + ")
			}
			if t.coefs[i].Cmp(bigOne) != 0 {
				b.WriteString(t.coefs[i].String() + "*")
			}
			c.pr(b, a, d+1)
		}
		if t.ival.Sign() != 0 {
			b.WriteString(" + " + t.ival.String())
		}
		b.WriteByte(')')
	case OMul:
		list("mul", t.args)
	case ODiv:
		list("div", t.args)
	case OMod:
		list("mod", t.args)
	case OLe:
		c.pr(b, t.args[0], d+1)
		b.WriteString(" <= 0")
	case OEq0:
		c.pr(b, t.args[0], d+1)
		b.WriteString(" == 0")
	case OEq:
		c.pr(b, t.args[0], d+1)
		b.WriteString(" == ")
		c.pr(b, t.args[1], d+1)
	case ONot:
		list("!", t.args)
	case OAnd:
		list("and", t.args)
	case OOr:
		list("or", t.args)
	case OIte:
		list("ite", t.args)
	case OEmpty:
		b.WriteString("[]")
	case OUnit:
		b.WriteByte('[')
		c.pr(b, t.args[0], d+1)
		b.WriteByte(']')
	case OCat:
		list("cat", t.args)
	case OSub:
		c.pr(b, t.args[0], d+1)
		b.WriteByte('[')
		c.pr(b, t.args[1], d+1)
		b.WriteByte(':')
		c.pr(b, t.args[2], d+1)
		b.WriteByte(']')
	case OUpd:
		list("upd", t.args)
	case ORep:
		list("rep", t.args)
	case OLit:
		fmt.Fprintf(b, "%q", t.name)
	case OLen:
		list("len", t.args)
	case ONth:
		c.pr(b, t.args[0], d+1)
		b.WriteByte('[')
		c.pr(b, t.args[1], d+1)
		b.WriteByte(']')
	case OMk:
		list(t.name, t.args)
	case OField:
		c.pr(b, t.args[0], d+1)
		b.WriteString("." + t.name)
	}
}
