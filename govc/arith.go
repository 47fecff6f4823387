package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func bigInt(v int64) *big.Int { return big.NewInt(v) }

func (ex *Exec) bvBig(v *big.Int, bits int) *Term {
	m := new(big.Int).Mod(v, pow2(bits))
	t := ex.rawOp(fmt.Sprintf("(_ bv%s %d)", m.String(), bits), ex.c.BV(bits))
	t.ival = m
	return t
}

func signedOf(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

// maskRuns decomposes a non-negative constant into runs of one bits.
func maskRuns(k *big.Int) [][2]int {
	var out [][2]int
	i := 0
	for i < k.BitLen() {
		if k.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for k.Bit(j) == 1 {
			j++
		}
		out = append(out, [2]int{i, j - i})
		i = j
	}
	return out
}

// andConst is x & k for the two's complement reading of x (k non-negative).
func (c *Ctx) andConst(x *Term, k *big.Int) *Term {
	r := c.zero
	for _, run := range maskRuns(k) {
		part := c.Mod(c.Div(x, c.Big(pow2(run[0]))), c.Big(pow2(run[1])))
		r = c.Add(r, c.MulC(part, pow2(run[0])))
	}
	return r
}

// lowZero: number of low bits known to be zero.
func lowZero(t *Term) int {
	as, cs, k := linOf(t)
	n := 200
	tz := func(b *big.Int) int {
		if b.Sign() == 0 {
			return 200
		}
		return int(new(big.Int).Abs(b).TrailingZeroBits())
	}
	if v := tz(k); v < n {
		n = v
	}
	for i, a := range as {
		v := tz(cs[i])
		if a.op == OMod && a.args[1].op == OInt {
			// (x mod 2^m) with x multiple of 2^z
			z := lowZero(a.args[0])
			if m := int(a.args[1].ival.TrailingZeroBits()); m < z {
				z = m
			}
			v += z
		}
		if v < n {
			n = v
		}
	}
	return n
}

func (st *State) arith(op token.Token, x, y *Term, t types.Type, yt types.Type) *Term {
	ex := st.ex
	if ex.bv && x.sort.kind == KBV {
		return ex.bvArith(op, x, y, signedOf(t), signedOf(yt))
	}
	c := ex.c
	if x.sort.kind == KSeq && op == token.ADD {
		return c.Cat(x.sort, x, y)
	}
	if x.sort.kind == KUn {
		return c.App("op"+mangle(fmt.Sprint(int(op)))+x.sort.smt, x.sort, x, y)
	}
	s := ex.intSort(t.Underlying().(*types.Basic))
	wrap := func(r *Term) *Term {
		if s.lo == nil {
			return r
		}
		w := c.Wrap(r, s)
		if w != r {
			// drop the reduction when the path condition bounds the value
			if st.yes(c.And(c.rawLe(c.Big(s.lo), r), c.rawLe(r, c.Big(s.hi)))) {
				return r
			}
		}
		return w
	}
	switch op {
	case token.ADD:
		return wrap(c.Add(x, y))
	case token.SUB:
		return wrap(c.Sub2(x, y))
	case token.MUL:
		return wrap(c.Mul(x, y))
	case token.QUO, token.REM:
		return st.quoRem(op, x, y, wrap)
	case token.SHL:
		if y.op == OInt {
			if y.ival.Cmp(bigInt(200)) > 0 {
				return c.zero
			}
			return wrap(c.MulC(x, pow2(int(y.ival.Int64()))))
		}
		if f := ex.db.fns["shl"]; f != nil && s.name == "i64" {
			ex.assumption("shift amounts that are not constants are between 0 and 62")
			return ex.appOf(f, []*Term{x, y})
		}
		return wrap(c.Mul(x, st.pow2Of(y)))
	case token.SHR:
		if y.op == OInt {
			return c.Div(x, c.Big(pow2(int(y.ival.Int64()))))
		}
		if f := ex.db.fns["shr"]; f != nil && s.name == "i64" {
			ex.assumption("shift amounts that are not constants are between 0 and 62")
			return ex.appOf(f, []*Term{x, y})
		}
		return c.Div(x, st.pow2Of(y))
	case token.AND, token.AND_NOT:
		if op == token.AND_NOT {
			if y.op == OInt {
				return c.Sub2(x, c.andConst(x, y.ival))
			}
			break
		}
		if x.op == OInt {
			x, y = y, x
		}
		if y.op == OInt {
			k := y.ival
			if k.Sign() < 0 { // x & -2^n
				k = new(big.Int).Mod(k, pow2(64))
				if s.hi != nil {
					k = new(big.Int).Mod(k, new(big.Int).Add(new(big.Int).Sub(s.hi, s.lo), bigOne))
				}
				return c.Wrap(c.andConst(x, k), s)
			}
			if x.op == OInt && x.ival.Sign() >= 0 {
				return c.Big(new(big.Int).And(x.ival, k))
			}
			return c.andConst(x, k)
		}
	case token.OR, token.XOR:
		if x.op == OInt {
			x, y = y, x
		}
		if x.op == OInt && y.op == OInt && x.ival.Sign() >= 0 && y.ival.Sign() >= 0 {
			if op == token.OR {
				return c.Big(new(big.Int).Or(x.ival, y.ival))
			}
			return c.Big(new(big.Int).Xor(x.ival, y.ival))
		}
		if y.op == OInt {
			k := y.ival
			n := new(big.Int)
			if s.hi != nil {
				n = new(big.Int).Add(new(big.Int).Sub(s.hi, s.lo), bigOne)
			} else {
				n = pow2(64)
			}
			k = new(big.Int).Mod(k, n)
			a := c.andConst(x, k)
			if op == token.OR {
				return wrap(c.Sub2(c.Add(x, c.Big(k)), a))
			}
			return wrap(c.Sub2(c.Add(x, c.Big(k)), c.MulC(a, bigInt(2))))
		}
		// disjoint bits
		for i := 0; i < 2; i++ {
			lz := lowZero(x)
			if lz > 0 && lz < 200 {
				k := c.Big(pow2(lz))
				if st.yes(c.And(c.rawLe(c.zero, y), c.Lt(y, k))) {
					return wrap(c.Add(x, y))
				}
			}
			if x == c.zero {
				return y
			}
			x, y = y, x
		}
		// all-zeros or all-ones
		var ones *Term
		if s.lo != nil && s.lo.Sign() < 0 {
			ones = c.I(-1)
		} else if s.hi != nil {
			ones = c.Big(s.hi)
		}
		if ones != nil {
			for i := 0; i < 2; i++ {
				if st.yes(c.Or(c.Eq(y, c.zero), c.Eq(y, ones))) {
					alt := c.Sub2(ones, x)
					if op == token.OR {
						alt = ones
					}
					return c.Ite(c.Eq(y, c.zero), x, alt)
				}
				x, y = y, x
			}
		}
	}
	// exact but uninterpreted
	a, b := x, y
	if a.id > b.id && op != token.AND_NOT {
		a, b = b, a
	}
	return c.App(fmt.Sprintf("bit%d_%s", int(op), s.name), s, a, b)
}

// pow2Of is 2^y for a symbolic shift; shifts are required to be in [0,62].
func (st *State) pow2Of(y *Term) *Term {
	c := st.ex.c
	if y.op == OInt {
		return c.Big(pow2(int(y.ival.Int64())))
	}
	p := c.App("pow2", c.Int(), y)
	if p.lo == nil {
		p.lo = bigOne
		p.hi = pow2(62)
		p.facts = append(p.facts, c.rawLe(c.one, p), c.rawLe(p, c.Big(pow2(62))))
	}
	st.ex.assumption("shift amounts that are not constants are between 0 and 62")
	return p
}

func (st *State) quoRem(op token.Token, x, y *Term, wrap func(*Term) *Term) *Term {
	c := st.ex.c
	ynz := c.Gt(y, c.zero)
	if !st.yes(ynz) {
		if st.yes(c.Eq(y, c.zero)) {
			panic(goPanic{"division by zero"})
		}
		// truncated division in general form is not needed here
		if !st.yes(c.Ge(y, c.zero)) {
			return c.App(fmt.Sprintf("quo%d", int(op)), c.IntT(64, true), x, y)
		}
		st.ex.mayPanic(st, c.Eq(y, c.zero), "division by zero")
		st.assume(ynz)
	}
	q := c.Div(x, y)
	if !st.yes(c.Ge(x, c.zero)) {
		// truncation towards zero
		nq := c.Neg(c.Div(c.Neg(x), y))
		if st.yes(c.Le(x, c.zero)) {
			q = nq
		} else {
			q = c.Ite(c.Ge(x, c.zero), q, nq)
		}
	}
	if op == token.QUO {
		return wrap(q)
	}
	if st.yes(c.Ge(x, c.zero)) && y.op == OInt {
		return c.Mod(x, y)
	}
	if st.yes(c.Ge(x, c.zero)) {
		m := c.Mod(x, y)
		m.facts = append(m.facts, c.rawLe(c.zero, m), c.Lt(m, y))
		return m
	}
	return c.Sub2(x, c.Mul(q, y))
}

func (st *State) compare(op token.Token, x, y *Term, t types.Type) *Term {
	ex := st.ex
	c := ex.c
	if x.sort.kind == KBV {
		sg := signedOf(t)
		n := map[token.Token][2]string{token.LSS: {"bvult", "bvslt"}, token.LEQ: {"bvule", "bvsle"}, token.GTR: {"bvugt", "bvsgt"}, token.GEQ: {"bvuge", "bvsge"}}
		switch op {
		case token.EQL:
			return ex.bvEq(x, y)
		case token.NEQ:
			return c.Not(ex.bvEq(x, y))
		}
		i := 0
		if sg {
			i = 1
		}
		if x.ival != nil && y.ival != nil {
			a, b := x.ival, y.ival
			if sg {
				a, b = toSigned(a, x.sort.bits), toSigned(b, x.sort.bits)
			}
			k := a.Cmp(b)
			return c.B(map[token.Token]bool{token.LSS: k < 0, token.LEQ: k <= 0, token.GTR: k > 0, token.GEQ: k >= 0}[op])
		}
		return ex.rawOp(n[op][i], c.Bool(), x, y)
	}
	switch op {
	case token.EQL:
		return c.Eq(x, y)
	case token.NEQ:
		return c.Not(c.Eq(x, y))
	}
	if x.sort.kind != KInt {
		return c.App(fmt.Sprintf("cmp%d%s", int(op), x.sort.smt), c.Bool(), x, y)
	}
	switch op {
	case token.LSS:
		return c.Lt(x, y)
	case token.LEQ:
		return c.Le(x, y)
	case token.GTR:
		return c.Gt(x, y)
	case token.GEQ:
		return c.Ge(x, y)
	}
	panic(unsupported("compare " + op.String()))
}

func toSigned(v *big.Int, bits int) *big.Int {
	if v.Bit(bits-1) == 1 {
		return new(big.Int).Sub(v, pow2(bits))
	}
	return v
}

func (ex *Exec) bvEq(x, y *Term) *Term {
	if x == y {
		return ex.c.T
	}
	if x.ival != nil && y.ival != nil {
		return ex.c.B(x.ival.Cmp(y.ival) == 0)
	}
	return ex.c.mkEqRaw(x, y)
}

func (ex *Exec) bvArith(op token.Token, x, y *Term, signed, ySigned bool) *Term {
	c := ex.c
	w := x.sort.bits
	// shift counts may have another width
	if op == token.SHL || op == token.SHR {
		if y.ival != nil {
			y = ex.bvBig(y.ival, w)
			if x.ival != nil {
				n := uint(y.ival.Int64())
				if op == token.SHL {
					return ex.bvBig(new(big.Int).Lsh(x.ival, n), w)
				}
				v := x.ival
				if signed {
					v = toSigned(v, w)
				}
				return ex.bvBig(new(big.Int).Rsh(v, n), w)
			}
		} else if y.sort.bits < w {
			y = ex.rawOp(fmt.Sprintf("(_ zero_extend %d)", w-y.sort.bits), c.BV(w), y)
		} else if y.sort.bits > w {
			y = ex.rawOp(fmt.Sprintf("(_ extract %d 0)", w-1), c.BV(w), y)
		}
	}
	if x.ival != nil && y.ival != nil {
		r := new(big.Int)
		switch op {
		case token.ADD:
			return ex.bvBig(r.Add(x.ival, y.ival), w)
		case token.SUB:
			return ex.bvBig(r.Sub(x.ival, y.ival), w)
		case token.MUL:
			return ex.bvBig(r.Mul(x.ival, y.ival), w)
		case token.AND:
			return ex.bvBig(r.And(x.ival, y.ival), w)
		case token.OR:
			return ex.bvBig(r.Or(x.ival, y.ival), w)
		case token.XOR:
			return ex.bvBig(r.Xor(x.ival, y.ival), w)
		}
	}
	n := map[token.Token]string{token.ADD: "bvadd", token.SUB: "bvsub", token.MUL: "bvmul", token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor", token.SHL: "bvshl"}[op]
	switch op {
	case token.SHR:
		n = "bvlshr"
		if signed {
			n = "bvashr"
		}
	case token.QUO:
		n = "bvudiv"
		if signed {
			n = "bvsdiv"
		}
	case token.REM:
		n = "bvurem"
		if signed {
			n = "bvsrem"
		}
	case token.AND_NOT:
		return ex.rawOp("bvand", x.sort, x, ex.rawOp("bvnot", y.sort, y))
	}
	if n == "" {
		panic(unsupported("bv op " + op.String()))
	}
	return ex.rawOp(n, x.sort, x, y)
}

func (ex *Exec) bvConvert(x *Term, from, to types.Type) *Term {
	c := ex.c
	w := ex.deepSort(to).bits
	if x.ival != nil {
		v := x.ival
		if signedOf(from) {
			v = toSigned(v, x.sort.bits)
		}
		return ex.bvBig(v, w)
	}
	if x.sort.bits == w {
		return x
	}
	if x.sort.bits > w {
		return ex.rawOp(fmt.Sprintf("(_ extract %d 0)", w-1), c.BV(w), x)
	}
	if signedOf(from) {
		return ex.rawOp(fmt.Sprintf("(_ sign_extend %d)", w-x.sort.bits), c.BV(w), x)
	}
	return ex.rawOp(fmt.Sprintf("(_ zero_extend %d)", w-x.sort.bits), c.BV(w), x)
}

// bvTable reads a constant table at a symbolic index.
func (ex *Exec) bvTable(tab []*Term, idx *Term) *Term {
	c := ex.c
	w := tab[0].sort.bits
	lin := len(tab) >= 2 && len(tab)&(len(tab)-1) == 0
	nb := 0
	for 1<<nb < len(tab) {
		nb++
	}
	if lin {
		for i := range tab {
			want := new(big.Int)
			for b := 0; b < nb; b++ {
				if i>>b&1 == 1 {
					want.Or(want, tab[1<<b].ival)
				}
			}
			if want.Cmp(tab[i].ival) != 0 {
				lin = false
				break
			}
		}
	}
	if lin {
		r := ex.bvConst(0, w)
		for b := 0; b < nb; b++ {
			bit := ex.rawOp(fmt.Sprintf("(_ extract %d %d)", b, b), c.BV(1), idx)
			r = ex.bvArith(token.OR, r, c.Ite(ex.bvEq(bit, ex.bvConst(1, 1)), tab[1<<b], ex.bvConst(0, w)), false, false)
		}
		return r
	}
	r := tab[len(tab)-1]
	for i := len(tab) - 2; i >= 0; i-- {
		r = c.Ite(ex.bvEq(idx, ex.bvConst(int64(i), idx.sort.bits)), tab[i], r)
	}
	return r
}

type goPanic struct{ msg string }

var _ ssa.Value
