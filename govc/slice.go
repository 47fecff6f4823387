package main

import "encoding/binary"

// atoms of a term: its free variables, a record variable's fields each on their own.
func (s *Solver) atoms(t *Term) []int {
	if a, ok := s.atomTab[t.id]; ok {
		return a
	}
	set := map[int]bool{}
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, f := range t.facts {
			walk(f)
		}
		switch t.op {
		case OVar:
			set[t.id] = true
			return
		case OField:
			b := t
			for b.op == OField {
				b = b.args[0]
			}
			if b.op == OVar {
				// the whole chain and its prefixes name parts of the same value
				for x := t; x.op == OField; x = x.args[0] {
					set[x.id] = true
				}
				return
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	out := make([]int, 0, len(set))
	for k := range set {
		out = append(out, k)
	}
	s.atomTab[t.id] = out
	return out
}

// relevant keeps the hypotheses connected to the goal by shared variables. Dropping hypotheses is sound.
func (s *Solver) relevant(pc []*Term, goal *Term) []*Term {
	use := map[int]bool{}
	for _, a := range s.atoms(goal) {
		use[a] = true
	}
	taken := make([]bool, len(pc))
	for changed := true; changed; {
		changed = false
		for i, p := range pc {
			if taken[i] {
				continue
			}
			as := s.atoms(p)
			hit := len(as) == 0
			for _, a := range as {
				if use[a] {
					hit = true
					break
				}
			}
			if hit {
				taken[i] = true
				for _, a := range as {
					if !use[a] {
						use[a] = true
						changed = true
					}
				}
			}
		}
	}
	var out []*Term
	for i, p := range pc {
		if taken[i] {
			out = append(out, p)
		}
	}
	return append(out, goal)
}

// CheckRel is Check on the hypotheses relevant to the goal.
func (s *Solver) CheckRel(pc []*Term, goal *Term) Result {
	k := idKey(pc, goal)
	if r, ok := s.exact[k]; ok {
		s.Hits++
		return r
	}
	r := s.Check(s.relevant(pc, goal))
	s.exact[k] = r
	return r
}

// idKey names a query by the identity of its terms.
func idKey(as []*Term, g *Term) string {
	b := make([]byte, 0, 4*len(as)+8)
	for _, a := range as {
		b = binary.AppendUvarint(b, uint64(a.id))
	}
	if g != nil {
		b = append(b, 0)
		b = binary.AppendUvarint(b, uint64(g.id))
	}
	return string(b)
}
