package main

import (
	"fmt"
	"os"
	"strings"
)

var debugProve = os.Getenv("GOVC_PROVE") != ""

func (st *State) dbg(f string, a ...interface{}) {
	if debugProve {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

// seqEqs returns the sequence equations among the hypotheses.
func (st *State) seqEqs() [][2]*Term {
	var out [][2]*Term
	for _, p := range st.pc {
		if p.op == OEq && p.args[0].sort.kind == KSeq {
			out = append(out, [2]*Term{p.args[0], p.args[1]})
		}
	}
	return out
}

func (st *State) recEqs() [][2]*Term {
	var out [][2]*Term
	for _, p := range st.pc {
		if p.op == OEq && (p.args[0].sort.kind == KRec || p.args[0].sort.kind == KUn) {
			out = append(out, [2]*Term{p.args[0], p.args[1]})
		}
	}
	return out
}

func complexGoal(t *Term) bool {
	return isQuant(t) || t.op == OAnd || (t.op == OEq && (t.args[0].sort.kind == KSeq || t.args[0].sort.kind == KRec || t.args[0].sort.kind == KUn || t.args[0].sort.kind == KMap))
}

const maxProveDepth = 10

// prove tries to discharge g under the path condition.
func (st *State) prove(g *Term) bool { return st.proveD(g, 0) }

func (st *State) contradictory() bool {
	if st.dead {
		return true
	}
	return st.ex.solver.Check(st.pc) == Unsat
}

func (st *State) proveD(g *Term, d int) bool {
	c := st.ex.c
	if d > maxProveDepth {
		return false
	}
	if g == c.T {
		return true
	}
	if st.dead {
		return true
	}
	if st.ex.timedOut() {
		return false
	}
	if d == 0 && g.op != OFalse {
		g = st.dropNone(st.inRange(g))
	}
	if d == 0 && g.op != OAnd && g.op != OFalse {
		st = st.normHyps()
		if g2 := st.innerRewrite(g); g2 != g && st.proveD(g2, 1) {
			return true
		}
	}
	switch g.op {
	case OAnd:
		for _, x := range g.args {
			if !st.proveD(x, d) {
				return false
			}
			st.assume(x)
		}
		return true
	case OOr:
		if st.yes(g) {
			return true
		}
		var cx []*Term
		for _, x := range g.args {
			if complexGoal(x) {
				cx = append(cx, x)
			}
		}
		if len(cx) > 0 {
			for _, m := range cx {
				s2 := st.clone()
				for _, x := range g.args {
					if x != m {
						s2.assume(c.Not(x))
					}
				}
				if s2.contradictory() || s2.proveD(m, d+1) {
					return true
				}
			}
			return false
		}
	case OIte:
		return st.splitOn(g.args[0], d, func(s *State) bool {
			if s.yes(g.args[0]) {
				return s.proveD(g.args[1], d+1)
			}
			return s.proveD(g.args[2], d+1)
		})
	case OEq:
		switch g.args[0].sort.kind {
		case KSeq:
			return st.proveSeq(g.args[0], g.args[1], d)
		case KRec, KUn, KMap:
			return st.proveEq(g.args[0], g.args[1], d)
		case KBool:
			a, b := g.args[0], g.args[1]
			if complexGoal(a) || complexGoal(b) || a.op == OOr || b.op == OOr {
				s2 := st.clone()
				s2.assume(a)
				if !s2.contradictory() && !s2.proveD(b, d+1) {
					return false
				}
				s3 := st.clone()
				s3.assume(b)
				return s3.contradictory() || s3.proveD(a, d+1)
			}
		}
	}
	if isQuant(g) {
		s2 := st.clone()
		j := c.Fresh("sk", c.Int())
		s2.assume(c.Le(g.args[0], j))
		s2.assume(c.Lt(j, g.args[1]))
		if s2.contradictory() {
			return true
		}
		s2.skolem = append(append([]*Term(nil), s2.skolem...), j)
		return s2.proveD(s2.inst(g, j), d+1)
	}
	return st.smtProve(g)
}

func (st *State) splitOn(cond *Term, d int, f func(*State) bool) bool {
	if d > maxProveDepth || st.ex.timedOut() {
		return false
	}
	c := st.ex.c
	for _, x := range []*Term{cond, c.Not(cond)} {
		s2 := st.clone()
		s2.assume(x)
		if s2.dead || s2.contradictory() {
			continue
		}
		if !f(s2) {
			return false
		}
	}
	return true
}

// proveEq: equality of values of any sort.
func (st *State) proveEq(a, b *Term, d int) bool {
	c := st.ex.c
	if a == b {
		return true
	}
	if d > maxProveDepth || st.ex.timedOut() {
		return false
	}
	switch a.sort.kind {
	case KMap:
		// two chains of stores on the same map agree when they agree at every stored key
		var keys []*Term
		base := func(m *Term) *Term {
			for m.op == ORaw && m.name == "store" {
				keys = append(keys, m.args[1])
				m = m.args[0]
			}
			return m
		}
		if x, y := base(a), base(b); x == y {
			seen := map[int]bool{}
			for _, k := range keys {
				if seen[k.id] {
					continue
				}
				seen[k.id] = true
				if !st.proveD(st.ex.eqT(st.selD(a, k), st.selD(b, k)), d+1) {
					return false
				}
			}
			return true
		}
		// follow equations between maps
		for i, h := range st.pc {
			if h.op != OEq || h.args[0].sort != a.sort && h.args[0].sort.smt != a.sort.smt {
				continue
			}
			for k := 0; k < 2; k++ {
				l, r := h.args[k], h.args[1-k]
				if l.op != OVar {
					continue
				}
				m := map[*Term]*Term{l: r}
				a2, b2 := st.subst(a, m), st.subst(b, m)
				if a2 == a && b2 == b {
					continue
				}
				s2 := st.clone()
				s2.pc = append(append([]*Term{}, st.pc[:i]...), st.pc[i+1:]...)
				if s2.proveEq(a2, b2, d+1) {
					return true
				}
			}
		}
		return st.smtProve(st.ex.eqT(a, b))
	case KSeq:
		return st.proveSeq(a, b, d)
	case KRec:
		if c.Eq(a, b) == c.T || (a.op != OMk && b.op != OMk && st.yes(c.Eq(a, b))) {
			return true
		}
		if (a.op == ONth || b.op == ONth) && st.viaSub(a, b, d) {
			return true
		}
		if a.op == OIte {
			a, b = b, a
		}
		if b.op == OIte {
			cond := b.args[0]
			return st.splitOn(cond, d, func(s *State) bool {
				if s.yes(cond) {
					return s.proveEq(a, b.args[1], d+1)
				}
				return s.proveEq(a, b.args[2], d+1)
			})
		}
		if strings.HasPrefix(a.sort.name, "opt<") {
			na, nb := c.Get(a, "nil"), c.Get(b, "nil")
			if !st.smtProve(c.Eq(na, nb)) {
				return false
			}
			if st.yes(na) {
				return true
			}
			s2 := st.clone()
			s2.assume(c.Not(na))
			return s2.proveEq(c.Get(a, "v"), c.Get(b, "v"), d+1)
		}
		if a.op == OApp || b.op == OApp {
			if st.recChain(a, b, d) {
				return true
			}
		}
		for _, x := range []*Term{a, b} {
			if x.op == OApp {
				if r, cond := st.unfoldApp(x); r != nil && r != x {
					if x == a {
						return st.proveEq(r, b, d+1)
					}
					return st.proveEq(a, r, d+1)
				} else if cond != nil && d < maxProveDepth {
					return st.splitOn(cond, d+1, func(s *State) bool { return s.proveEq(a, b, d+1) })
				}
			}
		}
		// hypotheses
		for _, h := range st.recEqs() {
			for k := 0; k < 2; k++ {
				l, r := h[k], h[1-k]
				if l.sort.smt != a.sort.smt {
					continue
				}
				if l == b && r != a && d < 3 {
					s2 := st.without(h)
					if s2.proveEq(a, r, d+1) {
						return true
					}
				}
			}
		}
		if a.op == OMk || b.op == OMk || len(a.sort.fields) > 0 {
			for _, f := range a.sort.fields {
				if !st.proveEq(c.Get(a, f.name), c.Get(b, f.name), d+1) {
					st.dbg("  field %s of %s differs: %s vs %s", f.name, a.sort.name, c.str(c.Get(a, f.name)), c.str(c.Get(b, f.name)))
					return false
				}
			}
			return true
		}
		return st.smtProve(c.Eq(a, b))
	}
	if a.sort.kind == KUn && a.op == OIte || b.sort.kind == KUn && b.op == OIte {
		x := a
		if x.op != OIte {
			x = b
		}
		return st.splitOn(x.args[0], d, func(s *State) bool {
			y := x.args[2]
			if s.yes(x.args[0]) {
				y = x.args[1]
			}
			if x == a {
				return s.proveEq(y, b, d+1)
			}
			return s.proveEq(a, y, d+1)
		})
	}
	if a.op == OApp && b.op == OApp && a.name == b.name && strings.HasPrefix(a.name, "box_") && st.proveEq(a.args[0], b.args[0], d+1) {
		return true
	}
	return st.smtProve(st.ex.eqT(a, b))
}

// recChain connects a and b by hypotheses and decided unfoldings of definitions.
func (st *State) recChain(a, b *Term, d int) bool {
	edges := map[*Term][]*Term{}
	var nodes []*Term
	add := func(t *Term) {
		if _, ok := edges[t]; !ok && len(nodes) < 60 {
			edges[t] = nil
			nodes = append(nodes, t)
		}
	}
	link := func(x, y *Term) {
		add(x)
		add(y)
		edges[x] = append(edges[x], y)
		edges[y] = append(edges[y], x)
	}
	add(a)
	add(b)
	for _, h := range st.recEqs() {
		if h[0].sort.smt == a.sort.smt {
			link(h[0], h[1])
		}
	}
	for i := 0; i < len(nodes) && i < 40; i++ {
		if nodes[i].op == OApp {
			if r, _ := st.unfoldApp(nodes[i]); r != nil && r != nodes[i] && r.sort.smt == a.sort.smt {
				link(nodes[i], r)
			}
		}
	}
	comp := func(x *Term) []*Term {
		seen := map[*Term]bool{x: true}
		out := []*Term{x}
		for i := 0; i < len(out); i++ {
			for _, y := range edges[out[i]] {
				if !seen[y] {
					seen[y] = true
					out = append(out, y)
				}
			}
		}
		return out
	}
	ca, cb := comp(a), comp(b)
	in := map[*Term]bool{}
	for _, x := range ca {
		in[x] = true
	}
	for _, y := range cb {
		if in[y] {
			return true
		}
	}
	if d > 3 {
		return false
	}
	tries := 0
	for i := len(ca) - 1; i >= 0; i-- {
		for j := len(cb) - 1; j >= 0; j-- {
			x, y := ca[i], cb[j]
			if x.op != y.op || tries > 6 {
				continue
			}
			switch {
			case x.op == OApp && x.name == y.name && len(x.args) == len(y.args):
				tries++
				ok := true
				for k := range x.args {
					if x.args[k] != y.args[k] && x.args[k].sort.kind == KInt && !st.yes(st.ex.c.Eq(x.args[k], y.args[k])) {
						ok = false
						break
					}
				}
				for k := range x.args {
					if ok && x.args[k] != y.args[k] && x.args[k].sort.kind != KInt && !st.proveEq(x.args[k], y.args[k], d+2) {
						ok = false
					}
				}
				if ok {
					return true
				}
			case x.op == OMk:
				tries++
				ok := true
				for k := range x.args {
					if ok && x.args[k] != y.args[k] && !st.proveEq(x.args[k], y.args[k], d+2) {
						ok = false
					}
				}
				if ok {
					return true
				}
			}
		}
	}
	return false
}

func (ex *Exec) eqT(a, b *Term) *Term {
	if a.sort.kind == KBV {
		return ex.bvEq(a, b)
	}
	return ex.c.Eq(a, b)
}

func (st *State) without(h [2]*Term) *State {
	s2 := st.clone()
	var pc []*Term
	for _, p := range s2.pc {
		if p.op == OEq && p.args[0] == h[0] && p.args[1] == h[1] || p.op == OEq && p.args[0] == h[1] && p.args[1] == h[0] {
			continue
		}
		pc = append(pc, p)
	}
	s2.pc = pc
	return s2
}

// ---------------------------------------------------------------- SMT with instantiation and unfolding

func collect(ts []*Term, f func(*Term)) {
	seen := map[int]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.args {
			w(a)
		}
		f(t)
	}
	for _, t := range ts {
		w(t)
	}
}

func (st *State) smtProve(g *Term) bool {
	c := st.ex.c
	if st.yes(g) {
		return true
	}
	if g == c.F && len(st.quants()) == 0 {
		// fallthrough: unfolding may still show a contradiction
	}
	if st.light {
		return false
	}
	if st.unitProve(g) {
		return true
	}
	hyps := append([]*Term{}, st.pc...)
	hyps = append(hyps, c.Not(g))
	done := map[int]bool{}
	last := Unknown
	check := func() bool {
		last = st.ex.solver.Check(hyps)
		return last == Unsat
	}
	for round := 0; round < 3; round++ {
		extra := st.saturate(hyps, done, round)
		if len(extra) == 0 && round > 0 {
			break
		}
		hyps = append(hyps, extra...)
		if len(extra) > 0 && check() {
			return true
		}
	}
	// follow chains of definitions whose conditions are decided
	deep := st.clone()
	deep.assume(c.Not(g))
	for round := 0; round < 12; round++ {
		if deep.dead {
			return true
		}
		var more []*Term
		collect(hyps, func(t *Term) {
			if t.op != OApp || isQuant(t) || done[-t.id-1] || t.sort.kind == KSeq || len(more) > 8 {
				return
			}
			f := st.ex.db.fns[t.name]
			if f == nil || !f.rec {
				return
			}
			if r, _ := deep.unfoldApp(t); r != nil && r != t {
				done[-t.id-1] = true
				more = append(more, st.ex.eqT(t, r))
			}
		})
		if len(more) == 0 {
			break
		}
		hyps = append(hyps, more...)
		if check() {
			return true
		}
	}
	if last == Unknown && st.ex.fallbackOK && st.ex.dry == 0 {
		if r, _ := st.ex.solver.Fallback(hyps); r == Unsat {
			return true
		}
	}
	return false
}

// normHyps adds the sequence equations with the parts dropped that are empty on this path.
func (st *State) normHyps() *State {
	c := st.ex.c
	s := st
	for _, h := range st.seqEqs() {
		n0, n1 := st.dropEmpties(h[0]), st.dropEmpties(h[1])
		if n0 == h[0] && n1 == h[1] || n0 == n1 {
			continue
		}
		if s == st {
			s = st.clone()
		}
		s.assume(c.Eq(c.Len(n0), c.Len(n1)))
		s.assume(c.mkEqRaw(n0, n1))
	}
	return s
}

// dropNone removes the parts of the goal's concatenations that are empty here.
func (st *State) dropNone(g *Term) *Term {
	if g.op != OEq || g.args[0].sort.kind != KSeq {
		return g
	}
	c := st.ex.c
	d := func(t *Term) *Term {
		xs := segs(t)
		if len(xs) < 2 {
			return t
		}
		var out []*Term
		for _, x := range xs {
			if x.op != OUnit && x.op != OVar && st.yes(c.Eq(c.Len(x), c.zero)) {
				continue
			}
			out = append(out, x)
		}
		if len(out) == len(xs) {
			return t
		}
		return c.Cat(t.sort, out...)
	}
	a, b := d(g.args[0]), d(g.args[1])
	if a == g.args[0] && b == g.args[1] {
		return g
	}
	return c.Eq(a, b)
}

// inRange resolves the cuts of the goal whose bounds have turned out to be in range.
func (st *State) inRange(g *Term) *Term {
	m := map[*Term]*Term{}
	collect([]*Term{g}, func(x *Term) {
		if x.op == OApp && strings.HasPrefix(x.name, "sub?") {
			if y := st.q().Sub(x.args[0], x.args[1], x.args[2]); y != x {
				m[x] = y
			}
		}
	})
	if len(m) == 0 {
		return g
	}
	return st.subst(g, m)
}

// innerRewrite replaces computed sequences below applications in the goal by the defined terms they equal.
func (st *State) innerRewrite(g *Term) *Term {
	inner := map[int]bool{} // sequences below applications
	collect([]*Term{g}, func(t *Term) {
		if t.op == OApp && !isQuant(t) {
			for _, a := range t.args {
				collect([]*Term{a}, func(x *Term) {
					if x.sort.kind == KSeq {
						inner[x.id] = true
					}
				})
			}
		}
	})
	if len(inner) == 0 {
		return g
	}
	m := map[*Term]*Term{}
	isDef := func(t *Term) bool {
		if t.op != OApp {
			return false
		}
		f := st.ex.db.fns[t.name]
		return f != nil && f.rec
	}
	for _, h := range st.seqEqs() {
		for k := 0; k < 2; k++ {
			l, r := h[k], h[1-k]
			if !isDef(r) || isDef(l) {
				continue
			}
			l = st.dropEmpties(l)
			if isDef(l) || l.op == OUnit || l.op == OEmpty || l.op == OLit || !inner[l.id] || contains(r, l) {
				continue
			}
			m[l] = r
		}
	}
	if len(m) == 0 {
		return g
	}
	return st.subst(g, m)
}

// unitProve refutes the negation of g by unit propagation, unfolding the boolean definitions that become units.
func (st *State) unitProve(g *Term) bool {
	c := st.ex.c
	any := false
	for _, p := range st.pc {
		if st.boolApp(p) {
			any = true
		} else if p.op == OOr {
			for _, a := range p.args {
				any = any || st.boolApp(a)
			}
		}
	}
	if !any {
		return false
	}
	s := st.clone()
	s.assume(c.Not(g))
	tried := map[int]bool{}
	for round := 0; round < 16; round++ {
		for changed := true; changed; {
			changed = false
			for _, p := range s.pc {
				if p.op != OOr || s.dead {
					continue
				}
				var rest []*Term
				sat := false
				for _, a := range p.args {
					if v := s.litVal(a); v == 1 {
						sat = true
						break
					} else if v == 0 {
						rest = append(rest, a)
					}
				}
				if sat || len(rest) == len(p.args) {
					continue
				}
				if len(rest) == 0 {
					return true
				}
				if len(rest) == 1 {
					n := len(s.pc)
					s.assume(rest[0])
					changed = changed || len(s.pc) > n
				}
			}
			for _, p := range s.pc {
				if s.litVal(c.Not(p)) == 1 {
					return true
				}
			}
		}
		if s.dead {
			return true
		}
		progress := false
		for _, p := range append([]*Term(nil), s.pc...) {
			a := p
			if p.op == ONot {
				a = p.args[0]
			}
			if !s.boolApp(p) || tried[p.id] {
				continue
			}
			tried[p.id] = true
			r, _ := s.unfoldApp(a)
			if r == nil || r == a {
				continue
			}
			if p.op == ONot {
				r = c.Not(r)
			}
			n := len(s.pc)
			s.assume(r)
			progress = progress || len(s.pc) > n || s.dead
		}
		if s.dead {
			return true
		}
		if !progress {
			for _, p := range s.pc {
				st.dbg("UNIT %s", trunc(c.str(p), 600))
			}
			return false
		}
	}
	return false
}

func (st *State) boolApp(p *Term) bool {
	if p.op == ONot {
		p = p.args[0]
	}
	if p.op != OApp || p.sort.kind != KBool || isQuant(p) {
		return false
	}
	f := st.ex.db.fns[p.name]
	return f != nil && f.rec && !f.opaque
}

// litVal evaluates a literal (or a conjunction of them) from what is already known, without the solver.
func (st *State) litVal(a *Term) int {
	if a.op == OAnd {
		all := true
		for _, x := range a.args {
			v := st.litVal(x)
			if v < 0 {
				return -1
			}
			all = all && v > 0
		}
		if all {
			return 1
		}
		return 0
	}
	return st.decideQuick(a)
}

func (st *State) quants() []*Term {
	var qs []*Term
	for _, p := range st.pc {
		if isQuant(p) {
			qs = append(qs, p)
		}
	}
	return qs
}

// saturate instantiates quantified hypotheses at ground index terms and unfolds recursive functions.
func (st *State) saturate(hyps []*Term, done map[int]bool, round int) []*Term {
	c := st.ex.c
	var extra []*Term
	var idx []*Term
	seenI := map[*Term]bool{}
	addI := func(t *Term) {
		if t.sort.kind == KInt && !seenI[t] && len(idx) < 40 {
			seenI[t] = true
			idx = append(idx, t)
		}
	}
	for _, s := range st.skolem {
		addI(s)
	}
	var apps []*Term
	addT := func(t *Term) {
		switch {
		case t.op == ONth, t.op == ORaw && (t.name == "select" || t.name == "store"):
			addI(t.args[1])
		case t.op == OApp && !isQuant(t) && st.ex.db.fns[t.name] != nil && st.ex.db.fns[t.name].body == nil:
			for _, a := range t.args {
				addI(a)
			}
		}
	}
	collect(hyps[len(st.pc):], addT)
	for _, p := range st.pc {
		if isQuant(p) {
			continue
		}
		collect([]*Term{p}, addT)
	}
	collect(hyps, func(t *Term) {
		if t.op == OApp && !isQuant(t) && st.ex.db.fns[t.name] != nil && st.ex.db.fns[t.name].rec && !st.ex.db.fns[t.name].opaque {
			apps = append(apps, t)
		}
	})
	// elements of a concatenation, wherever they lie
	var cats []*Term
	collect(hyps, func(t *Term) {
		if t.op == ONth && t.args[0].op == OCat && len(t.args[0].args) <= 4 {
			cats = append(cats, t)
		}
	})
	for _, t := range cats {
		key := -t.id*1000003 - 7
		if done[key] {
			continue
		}
		done[key] = true
		off := c.zero
		for _, x := range t.args[0].args {
			end := c.Add(off, c.Len(x))
			in := c.And(c.Le(off, t.args[1]), c.Lt(t.args[1], end))
			var e *Term
			if x.op == OUnit {
				e = x.args[0]
			} else {
				e = SeqOps{c, noDecide, nil}.Nth(x, c.Sub2(t.args[1], off))
			}
			extra = append(extra, c.Imp(in, c.mkEqRaw(t, e)))
			off = end
		}
	}
	var quants []*Term
	polar := map[int]bool{}
	var pos func(t *Term, p bool)
	pos = func(t *Term, p bool) {
		if isQuant(t) && p && !polar[t.id] {
			polar[t.id] = true
			quants = append(quants, t)
			return
		}
		switch t.op {
		case OAnd, OOr:
			for _, a := range t.args {
				pos(a, p)
			}
		case ONot:
			pos(t.args[0], !p)
		}
	}
	for _, h := range hyps {
		pos(h, true)
	}
	for _, q := range quants {
		for _, i := range idx {
			key := q.id*1000003 + i.id
			if done[key] {
				continue
			}
			done[key] = true
			x := c.Imp(q, st.inst(q, i))
			if x != c.T {
				extra = append(extra, x)
			}
		}
	}
	if len(apps) < 60 {
		for _, t := range apps {
			if done[-t.id-1] {
				continue
			}
			done[-t.id-1] = true
			f := st.ex.db.fns[t.name]
			ev := &Ev{st: st, dec: st.decideQuick}
			r := ev.body(f, t.args)
			if r.sort.kind == KSeq {
				extra = append(extra, c.mkEqRaw(t, r), c.Eq(c.Len(t), c.Len(r)))
			} else if r.sort.kind == KRec || r.sort.kind == KUn {
				extra = append(extra, c.mkEqRaw(t, r))
			} else {
				extra = append(extra, st.ex.eqT(t, r))
			}
		}
	}
	return extra
}

func (st *State) decideQuick(t *Term) int {
	switch t.op {
	case OTrue:
		return 1
	case OFalse:
		return -1
	}
	if v, ok := st.cache[t.id]; ok {
		if v == 1 {
			return 1
		}
		if v == -1 {
			return -1
		}
	}
	if v, ok := st.cache[st.ex.c.Not(t).id]; ok {
		if v == 1 {
			return -1
		}
		if v == -1 {
			return 1
		}
	}
	return 0
}

// ---------------------------------------------------------------- ropes

type ropeCmp struct {
	st     *State
	xs, ys []*Term
	split  *Term
}

func (st *State) proveSeq(a, b *Term, d int) bool {
	c := st.ex.c
	if a == b {
		return true
	}
	if d > maxProveDepth || st.ex.timedOut() {
		return false
	}
	if st.dead {
		return true
	}
	r := &ropeCmp{st: st, xs: segs(a), ys: segs(b)}
	if r.run(d) {
		return true
	}
	ra, rb := c.Cat(a.sort, r.xs...), c.Cat(a.sort, r.ys...)
	st.dbg("%*sstuck: %s  ~~  %s  split=%v", d, "", c.str(ra), c.str(rb), r.split != nil)
	if os.Getenv("GOVC_PROVE") == "2" {
		for _, h := range st.seqEqs() {
			st.dbg("%*s   hyp %s  ==  %s", d, "", c.str(h[0]), c.str(h[1]))
		}
		if r.split != nil {
			st.dbg("%*s   split %s", d, "", c.str(r.split))
		}
	}
	// a direct SMT argument on what is left
	direct := append(append([]*Term{}, st.pc...), c.Not(c.mkEqRaw(ra, rb)))
	if st.ex.solver.Check(direct) == Unsat {
		return true
	}
	if d <= 2 && len(st.quants()) > 0 {
		if extra := st.saturate(direct, map[int]bool{}, 0); len(extra) > 0 && st.ex.solver.Check(append(direct, extra...)) == Unsat {
			return true
		}
	}
	if (ra.op == OSub || rb.op == OSub) && st.viaSub(ra, rb, d) {
		return true
	}
	// hypotheses which define a segment of the goal once their empty parts are dropped
	for _, h := range st.seqEqs() {
		if h[0].sort.smt != a.sort.smt {
			continue
		}
		n0, n1 := st.dropEmpties(h[0]), st.dropEmpties(h[1])
		if n0 == h[0] && n1 == h[1] {
			continue
		}
		for _, e := range [][2]*Term{{n0, n1}, {n1, n0}} {
			l, rr := e[0], e[1]
			if len(segs(l)) != 1 || l.op == OUnit || contains(rr, l) {
				continue
			}
			na, okA := replaceSeg(c, ra, l, rr)
			nb, okB := replaceSeg(c, rb, l, rr)
			if okA || okB {
				s2 := st.without(h)
				s2.pc = append(s2.pc, c.Eq(c.Len(l), c.Len(rr)))
				if s2.proveSeq(na, nb, d+1) {
					return true
				}
			}
		}
	}
	// rewrite with hypotheses
	for _, h := range st.seqEqs() {
		if h[0].sort.smt != a.sort.smt {
			continue
		}
		for k := 0; k < 2; k++ {
			l, rr := h[k], h[1-k]
			for _, side := range [][2]*Term{{a, b}, {b, a}, {ra, rb}, {rb, ra}} {
				if side[0] == l || (side[0].op == l.op && st.quickSame(side[0], l)) {
					s2 := st.without(h)
					if s2.proveSeq(rr, side[1], d+1) {
						return true
					}
				}
			}
			// a single segment of the goal defined by a hypothesis
			if len(segs(l)) == 1 && l.op != OUnit && !contains(rr, l) {
				na, okA := replaceSeg(c, ra, l, rr)
				nb, okB := replaceSeg(c, rb, l, rr)
				if okA || okB {
					s2 := st.without(h)
					s2.pc = append(s2.pc, c.Eq(c.Len(l), c.Len(rr)))
					if s2.proveSeq(na, nb, d+1) {
						return true
					}
				}
			}
		}
	}
	// a part of a sequence that a hypothesis defines
	if d <= 4 {
		for _, h := range st.seqEqs() {
			for k := 0; k < 2; k++ {
				l, rr := h[k], h[1-k]
				if l.sort.smt != a.sort.smt || l.op != ORaw && l.op != OVar && l.op != OField || rr.op != OCat || contains(rr, l) {
					continue
				}
				part := func(t *Term) (*Term, bool) {
					var xs []*Term
					ok := false
					for _, x := range segs(t) {
						if x.op == OSub && x.args[0] == l {
							x, ok = st.q().Sub(rr, x.args[1], x.args[2]), true
						}
						xs = append(xs, x)
					}
					return c.Cat(t.sort, xs...), ok
				}
				na, okA := part(ra)
				nb, okB := part(rb)
				if okA || okB {
					s2 := st.without(h)
					s2.pc = append(s2.pc, c.Eq(c.Len(l), c.Len(rr)))
					if s2.proveSeq(na, nb, d+1) {
						return true
					}
				}
			}
		}
	}
	if r.split != nil && d < maxProveDepth {
		cond := r.split
		return st.splitOn(cond, d+1, func(s *State) bool { return s.proveSeq(a, b, d+1) })
	}
	return st.smtProve(c.mkEqRaw(ra, rb))
}

// dropEmpties removes the segments whose definition is empty on this path.
func (st *State) dropEmpties(t *Term) *Term {
	xs := segs(t)
	var out []*Term
	for _, x := range xs {
		if x.op == OApp {
			if u, _ := st.unfoldApp(x); u != nil && u != x && len(segs(u)) == 0 {
				continue
			}
		}
		out = append(out, x)
	}
	if len(out) == len(xs) {
		return t
	}
	return st.ex.c.Cat(t.sort, out...)
}

func contains(t, x *Term) bool {
	found := false
	collect([]*Term{t}, func(y *Term) {
		if y == x {
			found = true
		}
	})
	return found
}

func replaceSeg(c *Ctx, t, l, r *Term) (*Term, bool) {
	xs := segs(t)
	ok := false
	var out []*Term
	for _, x := range xs {
		if x == l {
			out = append(out, r)
			ok = true
		} else {
			out = append(out, x)
		}
	}
	if !ok {
		return t, false
	}
	return c.Cat(t.sort, out...), true
}

// quickSame: two ropes with pairwise provably equal segments.
func (st *State) quickSame(a, b *Term) bool {
	xs, ys := segs(a), segs(b)
	if len(xs) != len(ys) {
		return false
	}
	for i := range xs {
		if xs[i] == ys[i] {
			continue
		}
		x, y := xs[i], ys[i]
		if x.op != y.op || x.name != y.name || len(x.args) != len(y.args) {
			return false
		}
		for j := range x.args {
			if x.args[j] == y.args[j] {
				continue
			}
			if x.args[j].sort.kind == KInt {
				if !st.yes(st.ex.c.Eq(x.args[j], y.args[j])) {
					return false
				}
				continue
			}
			return false
		}
	}
	return true
}

func (r *ropeCmp) noteSplit(cond *Term) {
	if r.split == nil {
		r.split = cond
	}
}

func (r *ropeCmp) run(d int) bool {
	for steps := 0; steps < 400; steps++ {
		if len(r.xs) == 0 && len(r.ys) == 0 {
			return true
		}
		p := r.stepFront(d)
		if p == 0 {
			p = r.stepBack(d)
		}
		if p < 0 {
			return false
		}
		if p == 0 {
			return false
		}
	}
	return false
}

// dropEmpty removes a leading empty segment or resolves it.
func (r *ropeCmp) resolve(p *[]*Term, other []*Term) bool {
	st := r.st
	c := st.ex.c
	xs := *p
	if len(xs) == 0 {
		return false
	}
	x := xs[0]
	n := c.Len(x)
	if x.op == OUnit {
		return false
	}
	if n.op == OInt {
		if n.ival.Sign() == 0 {
			*p = xs[1:]
			return true
		}
	} else if st.yes(c.Eq(n, c.zero)) {
		*p = xs[1:]
		return true
	}
	if x.op == OIte {
		switch st.decide(x.args[0]) {
		case 1:
			*p = append(append([]*Term{}, segs(x.args[1])...), xs[1:]...)
			return true
		case -1:
			*p = append(append([]*Term{}, segs(x.args[2])...), xs[1:]...)
			return true
		}
		r.noteSplit(x.args[0])
	}
	if x.op == OApp && strings.HasPrefix(x.name, "sub?") { // in range after all
		if y := st.q().Sub(x.args[0], x.args[1], x.args[2]); y != x {
			*p = append(append([]*Term{}, segs(y)...), xs[1:]...)
			return true
		}
	}
	// lazily cut ropes
	if x.op == OSub {
		y := st.q().Sub(x.args[0], x.args[1], x.args[2])
		if y != x && y.op != OApp {
			*p = append(append([]*Term{}, segs(y)...), xs[1:]...)
			return true
		}
		if z := r.cutUnfold(x); z != nil {
			*p = append(append([]*Term{}, segs(z)...), xs[1:]...)
			return true
		}
	}
	return false
}

// cutUnfold: sub-rope of an unfoldable application or a conditional.
func (r *ropeCmp) cutUnfold(x *Term) *Term {
	st := r.st
	b := x.args[0]
	if b.op == OIte {
		switch st.decide(b.args[0]) {
		case 1:
			return st.q().Sub(b.args[1], x.args[1], x.args[2])
		case -1:
			return st.q().Sub(b.args[2], x.args[1], x.args[2])
		}
		r.noteSplit(b.args[0])
	}
	return nil
}

func (r *ropeCmp) stepFront(d int) int {
	st := r.st
	c := st.ex.c
	if len(r.xs) > 0 && len(r.ys) > 0 && r.xs[0] == r.ys[0] {
		r.xs, r.ys = r.xs[1:], r.ys[1:]
		return 1
	}
	if r.resolve(&r.xs, r.ys) || r.resolve(&r.ys, r.xs) {
		return 1
	}
	if len(r.xs) == 0 || len(r.ys) == 0 {
		// everything left has to be empty
		p := &r.xs
		if len(r.xs) == 0 {
			p = &r.ys
		}
		x := (*p)[0]
		if x.op == OApp {
			if u, cond := st.unfoldApp(x); u != nil && u != x {
				*p = append(append([]*Term{}, segs(u)...), (*p)[1:]...)
				return 1
			} else if cond != nil {
				r.noteSplit(cond)
			}
		}
		if st.smtProve(c.Eq(c.Len(x), c.zero)) {
			*p = (*p)[1:]
			return 1
		}
		return 0
	}
	x, y := r.xs[0], r.ys[0]
	if x.op == OUnit && y.op == OUnit {
		if st.proveEq(x.args[0], y.args[0], d+1) {
			r.xs, r.ys = r.xs[1:], r.ys[1:]
			return 1
		}
		st.dbg("%*sunits differ: %s vs %s", d, "", c.str(x.args[0]), c.str(y.args[0]))
		for _, u := range []*Term{x, y} {
			collect([]*Term{u}, func(t *Term) {
				if t.op == OIte && st.decideQuick(t.args[0]) == 0 {
					r.noteSplit(t.args[0])
				}
			})
		}
		return 0
	}
	if x.op == OApp && y.op == OApp && x.name == y.name {
		same := true
		for i := range x.args {
			if x.args[i] != y.args[i] && !(x.args[i].sort.kind != KSeq && st.yes(st.ex.eqT(x.args[i], y.args[i]))) &&
				!(x.args[i].sort.kind == KSeq && d < 4 && (&ropeCmp{st: st, xs: segs(x.args[i]), ys: segs(y.args[i])}).run(d+3)) {
				same = false
				break
			}
		}
		if same {
			r.xs, r.ys = r.xs[1:], r.ys[1:]
			return 1
		}
	}
	for k, p := range []*[]*Term{&r.xs, &r.ys} {
		_ = k
		z := (*p)[0]
		if z.op == OApp {
			if u, cond := st.unfoldApp(z); u != nil && u != z {
				*p = append(append([]*Term{}, segs(u)...), (*p)[1:]...)
				return 1
			} else if cond != nil {
				r.noteSplit(cond)
			}
		}
	}
	// split a longer segment against a unit
	for _, pr := range [][2]*[]*Term{{&r.xs, &r.ys}, {&r.ys, &r.xs}} {
		u, o := (*pr[0])[0], (*pr[1])[0]
		if u.op == OUnit && o.op != OUnit {
			n := c.Len(o)
			if st.yes(c.Ge(n, c.one)) {
				head := c.Unit(o.sort, st.q().Nth(o, c.zero))
				rest := st.q().subWF0(o, c.one, n)
				*pr[1] = append([]*Term{head, rest}, (*pr[1])[1:]...)
				return 1
			}
		}
	}
	if x.op != OUnit && y.op != OUnit {
		bx, lx, hx := subParts(c, x)
		by, ly, hy := subParts(c, y)
		if bx == by && (lx == ly || st.yes(c.Eq(lx, ly))) {
			if st.yes(c.Eq(hx, hy)) {
				r.xs, r.ys = r.xs[1:], r.ys[1:]
				return 1
			}
			if st.yes(c.Le(hx, hy)) {
				r.xs = r.xs[1:]
				r.ys = append([]*Term{c.subRaw(by, hx, hy)}, r.ys[1:]...)
				return 1
			}
			if st.yes(c.Le(hy, hx)) {
				r.ys = r.ys[1:]
				r.xs = append([]*Term{c.subRaw(bx, hy, hx)}, r.xs[1:]...)
				return 1
			}
			r.noteSplit(c.Le(hx, hy))
		}
		if x.op == ORep && y.op == ORep && (x.args[0] == y.args[0] || st.proveEq(x.args[0], y.args[0], d+1)) {
			nx, ny := x.args[1], y.args[1]
			switch {
			case st.yes(c.Eq(nx, ny)):
				r.xs, r.ys = r.xs[1:], r.ys[1:]
				return 1
			case st.yes(c.Le(nx, ny)):
				r.xs = r.xs[1:]
				r.ys = append([]*Term{c.Rep(y.sort, y.args[0], c.Sub2(ny, nx))}, r.ys[1:]...)
				return 1
			case st.yes(c.Le(ny, nx)):
				r.ys = r.ys[1:]
				r.xs = append([]*Term{c.Rep(x.sort, x.args[0], c.Sub2(nx, ny))}, r.xs[1:]...)
				return 1
			}
		}
		// different bases of the same length: equal by hypothesis?
		if st.yes(c.Eq(c.Len(x), c.Len(y))) {
			if st.yes(c.mkEqRaw(x, y)) {
				r.xs, r.ys = r.xs[1:], r.ys[1:]
				return 1
			}
		}
	}
	return 0
}

func subParts(c *Ctx, x *Term) (b, lo, hi *Term) {
	if x.op == OSub {
		return x.args[0], x.args[1], x.args[2]
	}
	return x, c.zero, c.Len(x)
}

func (r *ropeCmp) stepBack(d int) int {
	st := r.st
	c := st.ex.c
	nx, ny := len(r.xs), len(r.ys)
	if nx == 0 || ny == 0 {
		return 0
	}
	x, y := r.xs[nx-1], r.ys[ny-1]
	drop := func() int {
		r.xs, r.ys = r.xs[:nx-1:nx-1], r.ys[:ny-1:ny-1]
		return 1
	}
	if x == y {
		return drop()
	}
	for _, p := range []*[]*Term{&r.xs, &r.ys} {
		z := (*p)[len(*p)-1]
		if z.op == OUnit {
			continue
		}
		if n := c.Len(z); n.op != OInt && st.yes(c.Eq(n, c.zero)) {
			*p = (*p)[: len(*p)-1 : len(*p)-1]
			return 1
		}
	}
	if x.op == OUnit && y.op == OUnit {
		if st.proveEq(x.args[0], y.args[0], d+1) {
			return drop()
		}
		return 0
	}
	if nx+ny <= 2 {
		return 0
	}
	if x.op == OApp && y.op == OApp && x.name == y.name {
		same := true
		for i := range x.args {
			if x.args[i] != y.args[i] && !(x.args[i].sort.kind != KSeq && st.yes(st.ex.eqT(x.args[i], y.args[i]))) {
				same = false
				break
			}
		}
		if same {
			return drop()
		}
	}
	for _, pr := range [][2]*[]*Term{{&r.xs, &r.ys}, {&r.ys, &r.xs}} {
		u, o := (*pr[0])[len(*pr[0])-1], (*pr[1])[len(*pr[1])-1]
		if u.op == OUnit && o.op != OUnit && o.op != OApp {
			n := c.Len(o)
			if st.yes(c.Ge(n, c.one)) {
				n1 := c.Sub2(n, c.one)
				last := c.Unit(o.sort, st.q().Nth(o, n1))
				rest := st.q().subWF0(o, c.zero, n1)
				l := len(*pr[1])
				*pr[1] = append(append([]*Term{}, (*pr[1])[:l-1]...), rest, last)
				return 1
			}
		}
	}
	for _, p := range []*[]*Term{&r.xs, &r.ys} {
		z := (*p)[len(*p)-1]
		if z.op == OApp {
			if u, cond := st.unfoldApp(z); u != nil && u != z {
				*p = append(append([]*Term{}, (*p)[:len(*p)-1]...), segs(u)...)
				return 1
			} else if cond != nil {
				r.noteSplit(cond)
			}
		}
	}
	if x.op != OUnit && y.op != OUnit {
		bx, lx, hx := subParts(c, x)
		by, ly, hy := subParts(c, y)
		if bx == by && (hx == hy || st.yes(c.Eq(hx, hy))) {
			if st.yes(c.Le(lx, ly)) {
				r.ys = r.ys[: ny-1 : ny-1]
				r.xs = append(append([]*Term{}, r.xs[:nx-1]...), c.subRaw(bx, lx, ly))
				return 1
			}
			if st.yes(c.Le(ly, lx)) {
				r.xs = r.xs[: nx-1 : nx-1]
				r.ys = append(append([]*Term{}, r.ys[:ny-1]...), c.subRaw(by, ly, lx))
				return 1
			}
		}
		if st.yes(c.Eq(c.Len(x), c.Len(y))) && st.yes(c.mkEqRaw(x, y)) {
			return drop()
		}
	}
	return 0
}

// viaSub proves a == b where one of them is read out of a range that a hypothesis equates with something else:
// from A[lo:hi] == R it reads A[i] as R[i-lo] and A[i:j] as R[i-lo:j-lo].
func (st *State) viaSub(a, b *Term, d int) bool {
	c := st.ex.c
	if d > 4 {
		return false
	}
	for _, h := range st.seqEqs() {
		for k := 0; k < 2; k++ {
			l, r := h[k], h[1-k]
			if l.op != OSub || l.sort.smt != r.sort.smt || contains(r, l) {
				continue
			}
			for s := 0; s < 2; s++ {
				x, y := a, b
				if s == 1 {
					x, y = b, a
				}
				if x.op != ONth && x.op != OSub || x.args[0] != l.args[0] || x == l {
					continue
				}
				lo, hi := l.args[1], l.args[2]
				in := c.And(c.Le(lo, x.args[1]), c.Lt(x.args[1], hi))
				if x.op == OSub {
					in = c.And(c.Le(lo, x.args[1]), c.Le(x.args[1], x.args[2]), c.Le(x.args[2], hi))
				}
				if !st.yes(in) {
					continue
				}
				var n *Term
				if x.op == ONth {
					n = st.q().Nth(r, c.Sub2(x.args[1], lo))
				} else {
					n = st.q().Sub(r, c.Sub2(x.args[1], lo), c.Sub2(x.args[2], lo))
				}
				if n == x {
					continue
				}
				if n == y || st.without(h).proveEq(n, y, d+1) {
					return true
				}
			}
		}
	}
	return false
}
