package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- specification database

type Param struct{ name, typ string }

type FnDef struct {
	name   string
	params []Param
	res    string
	body   ast.Expr // nil: uninterpreted
	rec    bool
	opaque bool     // unfolded only where a lemma says so
	dec    ast.Expr // termination measure of recursive functions
	pos    string
	lemmas []*Lemma // automatic facts triggered by applications
	ord    int
}

type Clause struct {
	kind  string
	label string
	name  string // sets/appends target
	e     ast.Expr
	text  string
	e2    ast.Expr
}

type LoopSpec struct {
	vars []Param
	invs []Clause
	uses []ast.Expr
}

type Contract struct {
	fn      string
	params  []string
	clauses []Clause
	loops   map[int]*LoopSpec
	props   []string
	pos     string
	sorter  ast.Expr // for a comparator: what sort.Slice turns the slice into
	trusted bool
	bv      bool
	headers bool
	lemmas  []ast.Expr
	as      []string // integer-mode names of the results of a bit-vector contract

	nilable      map[string]bool
	shares       bool
	exact        bool // result slices have no spare capacity
	neverReturns bool
	shared       []*sharedDecl // cells other goroutines change
}

type Lemma struct {
	name    string
	params  []Param
	req     []ast.Expr
	ens     []ast.Expr
	use     []ast.Expr // instantiations of other lemmas / itself
	trigger ast.Expr
	dec     ast.Expr
	props   []string
	pos     string
	split   []ast.Expr
	unfold  []ast.Expr
	bv      bool
	trusted bool // an axiom about an uninterpreted function
	ord     int
}

type SpecDB struct {
	fns       map[string]*FnDef
	order     []string
	contracts map[string]*Contract
	lemmas    map[string]*Lemma
	lemOrder  []string
	sorters   map[string]bool // functions which give a permutation of their first argument
	consts    map[string]ast.Expr
	inline    map[string]bool
	nonil     map[string]bool
	literal   map[string]bool // functions evaluated on literal first arguments
	ghosts    []Param
	ord       int
}

var labelRe = regexp.MustCompile(`^([a-z][a-z0-9-]*):\s`)

func loadSpecs(dir string) (*SpecDB, error) {
	db := &SpecDB{fns: map[string]*FnDef{}, contracts: map[string]*Contract{}, lemmas: map[string]*Lemma{}, consts: map[string]ast.Expr{}, inline: map[string]bool{}, nonil: map[string]bool{}, literal: map[string]bool{}, sorters: map[string]bool{"sortedStrings": true}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := db.parse(filepath.Base(f), string(b)); err != nil {
			return nil, err
		}
	}
	for _, f := range db.fns {
		if f.body != nil {
			f.rec = f.dec != nil || db.reaches(f, f.name, map[string]bool{})
			if f.rec && f.dec == nil {
				return nil, fmt.Errorf("%s: recursive function %s without decreases", f.pos, f.name)
			}
		}
	}
	if err := db.checkOrder(); err != nil {
		return nil, err
	}
	for _, n := range db.lemOrder {
		l := db.lemmas[n]
		if l.trigger != nil {
			ce, ok := l.trigger.(*ast.CallExpr)
			if !ok {
				return nil, fmt.Errorf("%s: trigger must be an application", l.pos)
			}
			f := db.fns[ce.Fun.(*ast.Ident).Name]
			if f == nil {
				return nil, fmt.Errorf("%s: unknown trigger function", l.pos)
			}
			f.lemmas = append(f.lemmas, l)
		}
	}
	return db, nil
}

// checkOrder: definitions and lemmas refer only to what precedes them (or to their own recursion group), so
// that the well-definedness proofs cannot be circular.
func (db *SpecDB) checkOrder() error {
	refs := func(es []ast.Expr) []*FnDef {
		var out []*FnDef
		for _, e := range es {
			if e == nil {
				continue
			}
			ast.Inspect(e, func(n ast.Node) bool {
				if c, ok := n.(*ast.CallExpr); ok {
					if id, ok := c.Fun.(*ast.Ident); ok && db.fns[id.Name] != nil {
						out = append(out, db.fns[id.Name])
					}
				}
				return true
			})
		}
		return out
	}
	for _, f := range db.fns {
		if f.body == nil {
			continue
		}
		for _, g := range refs([]ast.Expr{f.body, f.dec}) {
			if g.ord > f.ord && !(g.body != nil && db.reaches(g, f.name, map[string]bool{})) {
				return fmt.Errorf("%s: %s uses %s, which is defined later", f.pos, f.name, g.name)
			}
		}
	}
	for _, l := range db.lemmas {
		es := append(append(append(append(append([]ast.Expr{}, l.req...), l.ens...), l.split...), l.unfold...), l.dec)
		for _, g := range refs(es) {
			if g.ord > l.ord {
				return fmt.Errorf("%s: lemma %s uses %s, which is defined later", l.pos, l.name, g.name)
			}
		}
	}
	return nil
}

func (db *SpecDB) reaches(f *FnDef, target string, seen map[string]bool) bool {
	found := false
	ast.Inspect(f.body, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok {
				if id.Name == target {
					found = true
				} else if g := db.fns[id.Name]; g != nil && g.body != nil && !seen[id.Name] {
					seen[id.Name] = true
					if db.reaches(g, target, seen) {
						found = true
					}
				}
			}
		}
		return true
	})
	return found
}

func (db *SpecDB) parse(file, src string) error {
	// logical lines: a line starting with more indentation than its keyword line continues it when it
	// does not start with a keyword
	type ll struct {
		n    int
		text string
	}
	kw := map[string]bool{"fn": true, "ufn": true, "contract": true, "lemma": true, "const": true,
		"requires": true, "ensures": true, "returns": true, "appends": true, "sets": true, "safe": true, "loop": true, "inv": true,
		"payload": true, "use": true, "trigger": true, "props": true, "trusted": true, "sorter": true, "decreases": true, "aliases": true,
		"modifies": true, "as": true, "bv": true, "split": true, "uses": true, "havocs": true, "unfold": true, "option": true, "calls": true, "inline": true, "ghost": true, "nonil": true, "literal": true, "opaque": true, "shared": true, "memo": true, "headers": true}
	var lines []ll
	for i, l := range strings.Split(src, "\n") {
		if k := strings.Index(l, "#"); k >= 0 {
			l = l[:k]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		w := strings.FieldsFunc(t, func(r rune) bool { return r == ' ' || r == '(' })[0]
		if kw[w] && (len(t) == len(w) || t[len(w)] == ' ') {
			lines = append(lines, ll{i + 1, t})
		} else if len(lines) > 0 {
			lines[len(lines)-1].text += " " + t
		} else {
			return fmt.Errorf("%s:%d: unexpected %q", file, i+1, t)
		}
	}
	var cur *Contract
	var lem *Lemma
	var loop *LoopSpec
	var fn *FnDef
	for _, l := range lines {
		pos := fmt.Sprintf("%s:%d", file, l.n)
		w, rest, _ := strings.Cut(l.text, " ")
		rest = strings.TrimSpace(rest)
		px := func(s string) (ast.Expr, error) {
			e, err := parser.ParseExpr(s)
			if err != nil {
				return nil, fmt.Errorf("%s: %v in %q", pos, err, s)
			}
			return e, nil
		}
		var err error
		clause := func(kind string) error {
			c := Clause{kind: kind, text: rest}
			r := rest
			if m := labelRe.FindStringSubmatch(r); m != nil {
				c.label = m[1]
				r = strings.TrimSpace(r[len(m[0]):])
			}
			c.text = r
			switch kind {
			case "sets", "appends", "payload", "aliases", "modifies":
				if kind == "modifies" {
					c.name = r
					break
				}
				n, ex, ok := strings.Cut(r, " ")
				if !ok && kind == "payload" {
					c.name = n
					break
				}
				if kind == "payload" {
					c.name, c.text = n, strings.TrimSpace(ex)
					break
				}
				ex = strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(ex), "="))
				c.name = n
				if c.e, err = px(ex); err != nil {
					return err
				}
			case "havocs", "memo":
				c.name = r
			case "calls":
				c.name = r
			default:
				if c.e, err = px(r); err != nil {
					return err
				}
			}
			cur.clauses = append(cur.clauses, c)
			return nil
		}
		switch w {
		case "fn", "ufn":
			cur, lem, loop = nil, nil, nil
			head, body := rest, ""
			if w == "fn" {
				i := strings.Index(rest, " = ")
				if i < 0 {
					return fmt.Errorf("%s: fn without body", pos)
				}
				head, body = rest[:i], rest[i+3:]
			}
			fn = &FnDef{pos: pos}
			if i := strings.Index(head, " decreases "); i >= 0 {
				if fn.dec, err = px(head[i+11:]); err != nil {
					return err
				}
				head = head[:i]
			}
			i, j := strings.Index(head, "("), strings.LastIndex(head, ")")
			// find the matching parenthesis of the parameter list
			d := 0
			for k := i; k < len(head); k++ {
				if head[k] == '(' {
					d++
				}
				if head[k] == ')' {
					d--
					if d == 0 {
						j = k
						break
					}
				}
			}
			fn.name = strings.TrimSpace(head[:i])
			fn.params = parseParams(head[i+1 : j])
			fn.res = strings.TrimSpace(head[j+1:])
			if body != "" {
				if fn.body, err = px(body); err != nil {
					return err
				}
			}
			if db.fns[fn.name] != nil {
				return fmt.Errorf("%s: duplicate fn %s", pos, fn.name)
			}
			db.ord++
			fn.ord = db.ord
			db.fns[fn.name] = fn
			db.order = append(db.order, fn.name)
		case "inline":
			for _, f := range strings.Fields(rest) {
				db.inline[f] = true
			}
		case "opaque":
			for _, f := range strings.Fields(rest) {
				db.fns[f].opaque = true
			}
		case "literal":
			for _, f := range strings.Fields(rest) {
				db.literal[f] = true
			}
		case "nonil":
			for _, f := range strings.Fields(rest) {
				db.nonil[f] = true
			}
		case "ghost":
			db.ghosts = append(db.ghosts, parseParams(rest)...)
		case "const":
			n, ex, _ := strings.Cut(rest, "=")
			e, err := px(strings.TrimSpace(ex))
			if err != nil {
				return err
			}
			db.consts[strings.TrimSpace(n)] = e
		case "contract":
			lem, loop, fn = nil, nil, nil
			i := strings.LastIndex(rest, "(")
			cur = &Contract{nilable: map[string]bool{}, fn: strings.TrimSpace(rest[:i]), loops: map[int]*LoopSpec{}, pos: pos}
			for _, p := range strings.Split(strings.TrimSuffix(rest[i+1:], ")"), ",") {
				if p = strings.TrimSpace(p); p != "" {
					cur.params = append(cur.params, p)
				}
			}
			if db.contracts[cur.fn] != nil {
				return fmt.Errorf("%s: duplicate contract %s", pos, cur.fn)
			}
			db.contracts[cur.fn] = cur
		case "lemma":
			cur, loop, fn = nil, nil, nil
			i := strings.Index(rest, "(")
			lem = &Lemma{name: strings.TrimSpace(rest[:i]), params: parseParams(rest[i+1 : strings.LastIndex(rest, ")")]), pos: pos}
			if db.lemmas[lem.name] != nil {
				return fmt.Errorf("%s: duplicate lemma %s", pos, lem.name)
			}
			db.ord++
			lem.ord = db.ord
			db.lemmas[lem.name] = lem
			db.lemOrder = append(db.lemOrder, lem.name)
		case "trigger":
			lem.trigger, err = px(rest)
		case "use":
			e, err := px(rest)
			if err != nil {
				return err
			}
			if loop != nil {
				loop.uses = append(loop.uses, e)
			} else if lem != nil {
				lem.use = append(lem.use, e)
			} else {
				cur.lemmas = append(cur.lemmas, e)
			}
		case "split":
			e, err := px(rest)
			if err != nil {
				return err
			}
			lem.split = append(lem.split, e)
		case "unfold":
			e, err := px(rest)
			if err != nil {
				return err
			}
			lem.unfold = append(lem.unfold, e)
		case "decreases":
			e, err := px(rest)
			if err != nil {
				return err
			}
			if lem != nil {
				lem.dec = e
			}
		case "props":
			if cur != nil {
				cur.props = strings.Fields(rest)
			} else if lem != nil {
				lem.props = strings.Fields(rest)
			}
		case "trusted":
			if lem != nil {
				lem.trusted = true
			} else {
				cur.trusted = true
			}
		case "sorter":
			if cur.sorter, err = px(rest); err != nil {
				return err
			}
			if ce, ok := cur.sorter.(*ast.CallExpr); ok {
				db.sorters[ce.Fun.(*ast.Ident).Name] = true
			}
		case "shared":
			d, e := parseShared(rest)
			if e != nil {
				return fmt.Errorf("%s: %v", pos, e)
			}
			cur.shared = append(cur.shared, d)
		case "as":
			cur.as = strings.Fields(rest)
		case "headers":
			cur.headers = true
		case "bv":
			if lem != nil {
				lem.bv = true
			} else {
				cur.bv = true
			}
		case "option":
			for _, o := range strings.Fields(rest) {
				switch {
				case o == "shares":
					cur.shares = true
				case o == "exact":
					cur.exact = true
				case o == "never-returns":
					cur.neverReturns = true
				case strings.HasPrefix(o, "nilable:"):
					cur.nilable[o[8:]] = true
				default:
					return fmt.Errorf("%s: unknown option %s", pos, o)
				}
			}
		case "loop":
			f := strings.Fields(rest)
			k, e2 := strconv.Atoi(f[0])
			if e2 != nil {
				return fmt.Errorf("%s: loop number", pos)
			}
			loop = &LoopSpec{}
			if i := strings.Index(rest, "("); i >= 0 {
				loop.vars = parseParams(strings.TrimSuffix(rest[i+1:], ")"))
			}
			cur.loops[k] = loop
		case "inv":
			c := Clause{kind: "inv", text: rest}
			if m := labelRe.FindStringSubmatch(rest); m != nil {
				c.label = m[1]
				rest = rest[len(m[0]):]
			}
			if c.e, err = px(strings.TrimSpace(rest)); err != nil {
				return err
			}
			loop.invs = append(loop.invs, c)
		case "requires", "ensures":
			if lem != nil {
				e, err := px(rest)
				if err != nil {
					return err
				}
				if w == "requires" {
					lem.req = append(lem.req, e)
				} else {
					lem.ens = append(lem.ens, e)
				}
				break
			}
			if err := clause(w); err != nil {
				return err
			}
		default:
			if cur == nil {
				return fmt.Errorf("%s: %s outside a contract", pos, w)
			}
			if err := clause(w); err != nil {
				return err
			}
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func parseParams(s string) []Param {
	var out []Param
	d := 0
	last := 0
	add := func(x string) {
		x = strings.TrimSpace(x)
		if x == "" {
			return
		}
		n, t, ok := strings.Cut(x, " ")
		if !ok {
			out = append(out, Param{"", n})
			return
		}
		out = append(out, Param{n, strings.TrimSpace(t)})
	}
	for i, r := range s {
		switch r {
		case '(', '<':
			d++
		case ')', '>':
			d--
		case ',':
			if d == 0 {
				add(s[last:i])
				last = i + 1
			}
		}
	}
	add(s[last:])
	// "a, b T" groups
	for i := len(out) - 2; i >= 0; i-- {
		if out[i].name == "" && out[i+1].name != "" {
			out[i].name, out[i].typ = out[i].typ, out[i+1].typ
		}
	}
	return out
}

// ---------------------------------------------------------------- sorts of spec types

func (ex *Exec) specSort(s string) *Sort {
	c := ex.c
	s = strings.TrimSpace(s)
	switch s {
	case "int":
		return c.Int()
	case "bool":
		return c.Bool()
	case "bytes", "string":
		return c.Seq(ex.it(8, false))
	case "channel":
		return c.Un("Chan")
	case "any":
		return c.Un("Any")
	case "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64":
		n, _ := strconv.Atoi(s[1:])
		return ex.it(n, s[0] == 'i')
	}
	if strings.HasPrefix(s, "seq(") {
		return c.Seq(ex.specSort(s[4 : len(s)-1]))
	}
	if strings.HasPrefix(s, "[]") {
		return c.Seq(ex.specSort(s[2:]))
	}
	if strings.HasPrefix(s, "map(") {
		a, b, _ := strings.Cut(s[4:len(s)-1], ",")
		return c.Map(ex.specSort(a), ex.specSort(b))
	}
	if strings.HasPrefix(s, "gomap(") {
		a, b, _ := strings.Cut(s[6:len(s)-1], ",")
		k, v := ex.specSort(a), ex.specSort(b)
		return c.Rec("mp<"+k.name+","+v.name+">", []Field{{"nil", c.Bool()}, {"dom", c.Map(k, c.Bool())}, {"val", c.Map(k, v)}, {"n", c.Int()}})
	}
	if strings.HasPrefix(s, "sl(") {
		return ex.slSort(ex.specSort(s[3 : len(s)-1]))
	}
	if strings.HasPrefix(s, "rec(") {
		ps := parseParams(s[4 : len(s)-1])
		var fs []Field
		for _, p := range ps {
			fs = append(fs, Field{p.name, ex.specSort(p.typ)})
		}
		return c.Rec("spec_"+mangle(s), fs)
	}
	if strings.HasPrefix(s, "*") {
		return ex.deepSort(types.NewPointer(ex.goType(s[1:])))
	}
	return ex.deepSort(ex.goType(s))
}

func (ex *Exec) goType(s string) types.Type {
	if strings.HasPrefix(s, "[]") {
		return types.NewSlice(ex.goType(s[2:]))
	}
	if strings.HasPrefix(s, "*") {
		return types.NewPointer(ex.goType(s[1:]))
	}
	if o, ok := types.Universe.Lookup(s).(*types.TypeName); ok && o != nil {
		return o.Type()
	}
	pk, n, ok := strings.Cut(s, ".")
	if !ok {
		panic(specErr{"unknown spec type " + s})
	}
	for _, p := range ex.p.byName[pk] {
		if o := p.Pkg.Scope().Lookup(n); o != nil {
			return o.Type()
		}
	}
	panic(specErr{"unknown Go type " + s})
}

type specErr struct{ msg string }

// ---------------------------------------------------------------- evaluation

// Ev evaluates specification expressions over logical values.
type Ev struct {
	st     *State
	dec    Decider
	vars   map[string]*Term
	lookup func(name string) *Term // names of the program state
	old    *Ev                     // for old(..)
	new_   *Ev                     // for new(..)
	begin  *Ev                     // for begin(..): the state before the loop
	strict bool                    // unfolding: an undecided ite at the top aborts
	stuck  *Term                   // the condition that was not decided
	depth  int
}

func (ev *Ev) with(n string, t *Term) *Ev {
	m := make(map[string]*Term, len(ev.vars)+1)
	for k, v := range ev.vars {
		m[k] = v
	}
	m[n] = t
	e := *ev
	e.vars = m
	return &e
}

type stuckErr struct{ cond *Term }

func (ev *Ev) q() SeqOps { return SeqOps{ev.st.ex.c, ev.dec, nil} }

func (ev *Ev) errf(f string, a ...interface{}) {
	panic(specErr{fmt.Sprintf(f, a...)})
}

// els coerces slices to their element sequences.
func (ev *Ev) els(t *Term) *Term {
	if t.sort.kind == KRec && strings.HasPrefix(t.sort.name, "sl<") {
		return ev.st.ex.c.Get(t, "els")
	}
	if t.sort.kind == KRec && strings.HasPrefix(t.sort.name, "opt<") {
		return ev.els(ev.st.ex.c.Get(t, "v"))
	}
	return t
}

// val strips an optional pointer.
func (ev *Ev) val(t *Term) *Term {
	for t.sort.kind == KRec && strings.HasPrefix(t.sort.name, "opt<") {
		t = ev.st.ex.c.Get(t, "v")
	}
	return t
}

func (ev *Ev) eq(a, b *Term) *Term {
	c := ev.st.ex.c
	if a.sort.kind == KRec && a.sort.smt == b.sort.smt {
		if strings.HasPrefix(a.sort.name, "opt<") {
			na, nb := c.Get(a, "nil"), c.Get(b, "nil")
			return c.And(c.Eq(na, nb), c.Or(na, ev.eq(c.Get(a, "v"), c.Get(b, "v"))))
		}
		if a.op == OMk || b.op == OMk || strings.HasPrefix(a.sort.name, "sl<") {
			var cs []*Term
			for _, f := range a.sort.fields {
				cs = append(cs, ev.eq(c.Get(a, f.name), c.Get(b, f.name)))
			}
			return c.And(cs...)
		}
		return c.Eq(a, b)
	}
	if a.sort.kind == KSeq || b.sort.kind == KSeq {
		a, b = ev.els(a), ev.els(b)
	}
	if a.sort.kind == KRec && b.sort.kind != KRec {
		a = ev.val(a)
	}
	if b.sort.kind == KRec && a.sort.kind != KRec {
		b = ev.val(b)
	}
	if a.sort.kind == KRec && b.sort.kind == KRec && a.sort.smt != b.sort.smt {
		a, b = ev.val(a), ev.val(b)
		if a.sort.smt != b.sort.smt {
			ev.errf("comparing %s with %s", a.sort, b.sort)
		}
		return ev.eq(a, b)
	}
	if a.sort.kind != b.sort.kind {
		ev.errf("comparing %s (%s) with %s (%s)", c.str(a), a.sort, c.str(b), b.sort)
	}
	if a.sort.kind == KBV {
		return ev.st.ex.bvEq(a, b)
	}
	return c.Eq(a, b)
}

func (ev *Ev) boolE(e ast.Expr) *Term {
	t := ev.eval(e)
	if t.sort.kind != KBool {
		ev.errf("boolean expected, got %s", t.sort)
	}
	return t
}

func (ev *Ev) eval(e ast.Expr) *Term {
	ex := ev.st.ex
	c := ex.c
	switch x := e.(type) {
	case *ast.ParenExpr:
		return ev.eval(x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			n, ok := new(big.Int).SetString(x.Value, 0)
			if !ok {
				ev.errf("bad number %s", x.Value)
			}
			return c.Big(n)
		case token.STRING:
			s, _ := strconv.Unquote(x.Value)
			return c.Lit(s)
		case token.CHAR:
			s, _, _, _ := strconv.UnquoteChar(x.Value[1:], '\'')
			return c.I(int64(s))
		}
	case *ast.Ident:
		switch x.Name {
		case "true":
			return c.T
		case "false":
			return c.F
		}
		if t, ok := ev.vars[x.Name]; ok {
			return t
		}
		if ev.lookup != nil {
			if t := ev.lookup(x.Name); t != nil {
				return t
			}
		}
		if e, ok := ex.db.consts[x.Name]; ok {
			return ev.eval(e)
		}
		ev.errf("unknown name %s", x.Name)
	case *ast.UnaryExpr:
		v := ev.eval(x.X)
		switch x.Op {
		case token.NOT:
			return c.Not(v)
		case token.SUB:
			return c.Neg(ev.val(v))
		}
	case *ast.StarExpr:
		return ev.val(ev.eval(x.X))
	case *ast.SelectorExpr:
		v := ev.val(ev.eval(x.X))
		if v.sort.kind != KRec || v.sort.fieldIndex(x.Sel.Name) < 0 {
			ev.errf("no field %s in %s", x.Sel.Name, v.sort)
		}
		return c.Get(v, x.Sel.Name)
	case *ast.IndexExpr:
		s, i := ev.els(ev.eval(x.X)), ev.val(ev.eval(x.Index))
		if s.sort.kind == KMap {
			return ex.sel(s, i)
		}
		if s.sort.kind != KSeq {
			ev.errf("indexing %s", s.sort)
		}
		return ev.q().Nth(s, i)
	case *ast.SliceExpr:
		s := ev.els(ev.eval(x.X))
		lo, hi := c.zero, c.Len(s)
		if x.Low != nil {
			lo = ev.val(ev.eval(x.Low))
		}
		if x.High != nil {
			hi = ev.val(ev.eval(x.High))
		}
		return ev.q().Sub(s, lo, hi)
	case *ast.BinaryExpr:
		switch x.Op {
		case token.LAND:
			a := ev.boolE(x.X)
			if a == c.F {
				return c.F
			}
			return c.And(a, ev.boolE(x.Y))
		case token.LOR:
			a := ev.boolE(x.X)
			if a == c.T {
				return c.T
			}
			return c.Or(a, ev.boolE(x.Y))
		}
		a, b := ev.eval(x.X), ev.eval(x.Y)
		switch x.Op {
		case token.EQL:
			return ev.eq(a, b)
		case token.NEQ:
			return c.Not(ev.eq(a, b))
		}
		a, b = ev.val(a), ev.val(b)
		if a.sort.kind == KBV || b.sort.kind == KBV {
			return ev.bvOp(x.Op, a, b)
		}
		if a.sort.kind != KInt || b.sort.kind != KInt {
			ev.errf("%s of %s and %s", x.Op, a.sort, b.sort)
		}
		switch x.Op {
		case token.ADD:
			return c.Add(a, b)
		case token.SUB:
			return c.Sub2(a, b)
		case token.MUL:
			return c.Mul(a, b)
		case token.QUO:
			return c.Div(a, b)
		case token.REM:
			return c.Mod(a, b)
		case token.LSS:
			return c.Lt(a, b)
		case token.LEQ:
			return c.Le(a, b)
		case token.GTR:
			return c.Gt(a, b)
		case token.GEQ:
			return c.Ge(a, b)
		}
	case *ast.CallExpr:
		return ev.call(x)
	}
	ev.errf("unsupported spec expression %T", e)
	return nil
}

func (ev *Ev) bvOp(op token.Token, a, b *Term) *Term {
	ex := ev.st.ex
	if a.sort.kind == KInt {
		a = ex.bvBig(a.ival, b.sort.bits)
	}
	if b.sort.kind == KInt {
		b = ex.bvBig(b.ival, a.sort.bits)
	}
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return ev.st.compare(op, a, b, types.Typ[types.Uint64])
	}
	return ex.bvArith(op, a, b, false, false)
}

func (ev *Ev) args(x *ast.CallExpr) []*Term {
	var out []*Term
	for _, a := range x.Args {
		out = append(out, ev.eval(a))
	}
	return out
}

func (ev *Ev) seqSortOf(ts []*Term) *Sort {
	for _, t := range ts {
		if t.sort.kind == KSeq {
			return t.sort
		}
	}
	ev.errf("no sequence among the arguments")
	return nil
}

func (ev *Ev) call(x *ast.CallExpr) *Term {
	ex := ev.st.ex
	c := ex.c
	id, ok := x.Fun.(*ast.Ident)
	if !ok {
		ev.errf("call of %T", x.Fun)
	}
	name := id.Name
	switch name {
	case "old":
		if ev.old == nil {
			ev.errf("old() is not available here")
		}
		o := *ev.old
		o.vars = mergeVars(ev.old.vars, ev.vars)
		return o.eval(x.Args[0])
	case "begin":
		if ev.begin == nil {
			ev.errf("begin() is not available here")
		}
		o := *ev.begin
		o.vars = mergeVars(ev.begin.vars, ev.vars)
		o.dec = ev.dec
		o.st = ev.st
		return o.eval(x.Args[0])
	case "global": // global("io.EOF","any"): the value of an external package variable
		n, e1 := strconv.Unquote(x.Args[0].(*ast.BasicLit).Value)
		t, e2 := strconv.Unquote(x.Args[1].(*ast.BasicLit).Value)
		if e1 != nil || e2 != nil {
			ev.errf("global(name, sort)")
		}
		for g := range ex.p.constGlobals {
			if g.Pkg.Pkg.Name()+"."+g.Name() == n {
				if v, ok := ex.initGlobal(g); ok {
					if v.sort.kind == KRec && v.sort.fieldIndex("els") >= 0 {
						v = c.Get(v, "els")
					}
					if v.sort == ex.specSort(t) {
						return v
					}
				}
			}
		}
		return c0(c, "glob_"+n, ex.specSort(t))
	case "new":
		if ev.new_ == nil {
			ev.errf("new() is not available here")
		}
		return ev.new_.eval(x.Args[0])
	case "ite":
		cond := ev.boolE(x.Args[0])
		switch ev.dec(cond) {
		case 1:
			return ev.eval(x.Args[1])
		case -1:
			return ev.eval(x.Args[2])
		}
		if ev.strict {
			panic(stuckErr{cond})
		}
		a, b := ev.under(cond).eval(x.Args[1]), ev.under(c.Not(cond)).eval(x.Args[2])
		if a.sort.kind != b.sort.kind {
			a, b = ev.els(ev.val(a)), ev.els(ev.val(b))
		}
		return c.Ite(cond, a, b)
	case "imp":
		a := ev.boolE(x.Args[0])
		if a == c.F {
			return c.T
		}
		return c.Imp(a, ev.under(a).boolE(x.Args[1]))
	case "and", "or":
		var ts []*Term
		for _, a := range x.Args {
			ts = append(ts, ev.boolE(a))
		}
		if name == "and" {
			return c.And(ts...)
		}
		return c.Or(ts...)
	case "let": // let(name, value, body)
		return ev.with(x.Args[0].(*ast.Ident).Name, ev.eval(x.Args[1])).eval(x.Args[2])
	case "forall": // forall(i, lo, hi, body)
		return ev.quant(x)
	case "empty":
		return c.Empty(ex.specSort(types.ExprString(x.Args[0])))
	case "mk": // mk("type", a, b, ..)
		s := ex.specSort(strLit(x.Args[0]))
		var ts []*Term
		for i, a := range x.Args[1:] {
			ts = append(ts, ev.coerce(ev.eval(a), s.fields[i].sort))
		}
		return c.Mk(s, ts...)
	case "emptyof": // emptyof("type")
		return c.Empty(ex.specSort(strLit(x.Args[0])))
	case "mapnew": // mapnew("gomap(k,v)"): the empty map
		s := ex.specSort(strLit(x.Args[0]))
		d, vs := s.fields[s.fieldIndex("dom")].sort, s.fields[s.fieldIndex("val")].sort
		return c.Mk(s, c.F, ex.rawOp("(as const "+d.smt+")", d, c.F), c.Var("map0_"+vs.key.name+"_"+vs.elem.name, vs), c.zero)
	case "zero": // zero("pkg.Type")
		return ev.st.toDeep(ev.st.zero(ex.goType(strLit(x.Args[0]))), ex.goType(strLit(x.Args[0])), false)
	case "isa": // isa("type", x): the dynamic type of an interface value
		return c.Eq(ex.anyTag(ev.val(ev.eval(x.Args[1]))), ex.typeTag(ex.goType(strLit(x.Args[0]))))
	case "unbox": // unbox("type", x): the value in an interface
		return ex.unbox(ex.goType(strLit(x.Args[0])), ev.val(ev.eval(x.Args[1])))
	case "box": // box("type", v)
		gt := ex.goType(strLit(x.Args[0]))
		return ex.box(gt, ev.coerce(ev.eval(x.Args[1]), ex.elemSort(gt)))
	case "with": // with(rec, F, v, ...)
		r := ev.val(ev.eval(x.Args[0]))
		for i := 1; i+1 < len(x.Args); i += 2 {
			f := x.Args[i].(*ast.Ident).Name
			k := r.sort.fieldIndex(f)
			if k < 0 {
				ev.errf("with: no field %s in %s", f, r.sort)
			}
			r = c.With(r, f, ev.coerce(ev.eval(x.Args[i+1]), r.sort.fields[k].sort))
		}
		return r
	case "unfolded": // unfolded(f(..)): the body of a recursive function, for lemma proofs
		ce := x.Args[0].(*ast.CallExpr)
		f := ex.db.fns[ce.Fun.(*ast.Ident).Name]
		return ev.body(f, ev.args(ce))
	case "bv":
		v := ev.eval(x.Args[0])
		n, _ := strconv.Atoi(x.Args[1].(*ast.BasicLit).Value)
		return ex.bvBig(v.ival, n)
	case "interleave": // interleave(e, o): bit 2i is bit i of e, bit 2i+1 is bit i of o
		e, o := ev.eval(x.Args[0]), ev.eval(x.Args[1])
		r := ex.rawOp("concat", c.BV(2), ex.bit(o, 0), ex.bit(e, 0))
		for i := 1; i < e.sort.bits; i++ {
			r = ex.rawOp("concat", c.BV(2*i+2), ex.bit(o, i), ex.bit(e, i), r)
		}
		return r
	case "evenbits", "oddbits":
		v := ev.eval(x.Args[0])
		k := 0
		if name == "oddbits" {
			k = 1
		}
		r := ex.bit(v, k)
		for i := 1; i < v.sort.bits/2; i++ {
			r = ex.rawOp("concat", c.BV(i+1), ex.bit(v, 2*i+k), r)
		}
		return r
	case "sext", "zext", "extract":
		v := ev.eval(x.Args[0])
		n, _ := strconv.Atoi(x.Args[1].(*ast.BasicLit).Value)
		from := types.Typ[types.Uint64]
		if name == "extract" {
			m, _ := strconv.Atoi(x.Args[2].(*ast.BasicLit).Value)
			return ex.rawOp(fmt.Sprintf("(_ extract %d %d)", n, m), c.BV(n-m+1), v)
		}
		if name == "sext" {
			return ex.rawOp(fmt.Sprintf("(_ sign_extend %d)", n-v.sort.bits), c.BV(n), v)
		}
		_ = from
		return ex.rawOp(fmt.Sprintf("(_ zero_extend %d)", n-v.sort.bits), c.BV(n), v)
	}
	as := ev.args(x)
	switch name {
	case "len":
		t := ev.els(as[0])
		if t.sort.kind != KSeq {
			if t.sort.fieldIndex("n") >= 0 {
				return c.Get(t, "n")
			}
			ev.errf("len of %s", t.sort)
		}
		return c.Len(t)
	case "cat":
		for i := range as {
			as[i] = ev.els(as[i])
		}
		return c.Cat(ev.seqSortOf(as), as...)
	case "unit": // unit(x): sequence of one element
		v := as[0]
		s := v.sort
		return c.Unit(c.Seq(s), v)
	case "bytes":
		s := c.Seq(c.IntT(8, false))
		var us []*Term
		for _, a := range as {
			us = append(us, c.Unit(s, ev.val(a)))
		}
		return c.Cat(s, us...)
	case "push": // push(seq, x): typed by the sequence
		s := ev.els(as[0])
		return c.Cat(s.sort, s, c.Unit(s.sort, ev.coerce(as[1], s.sort.elem)))
	case "cons":
		s := ev.els(as[1])
		return c.Cat(s.sort, c.Unit(s.sort, ev.coerce(as[0], s.sort.elem)), s)
	case "upd":
		s := ev.els(as[0])
		return ev.q().Upd(s, as[1], ev.coerce(as[2], s.sort.elem))
	case "rep":
		return c.Rep(ex.specSort("bytes"), as[0], as[1])
	case "els":
		return ev.els(as[0])
	case "sl":
		return c.Mk(ex.slSort(as[0].sort.elem), c.F, as[0])
	case "slnil": // slnil(isnil, els)
		return c.Mk(ex.slSort(as[1].sort.elem), as[0], as[1])
	case "fnbytes": // what an embedder function appends
		return ex.fnPayload(as[0])
	case "isnil":
		t := as[0]
		if t.sort.kind == KUn && t.sort.name == "Any" {
			return c.Eq(t, c.Var("nilAny", t.sort))
		}
		if t.sort.kind == KUn {
			return ex.isNilFn(t)
		}
		if t.sort.kind != KRec || t.sort.fieldIndex("nil") < 0 {
			ev.errf("isnil of %s", t.sort)
		}
		return c.Get(t, "nil")
	case "some":
		return c.Mk(c.Rec("opt<"+as[0].sort.name+">", []Field{{"nil", c.Bool()}, {"v", as[0].sort}}), c.F, as[0])
	case "min":
		a, b := ev.val(as[0]), ev.val(as[1])
		return ev.iteT(c.Le(a, b), a, b)
	case "max":
		a, b := ev.val(as[0]), ev.val(as[1])
		return ev.iteT(c.Ge(a, b), a, b)
	case "maplen":
		return c.Get(ev.val(as[0]), "n")
	case "mapdom":
		return c.Get(ev.val(as[0]), "dom")
	case "maphas", "mapval":
		m := ev.val(as[0])
		f := map[string]string{"maphas": "dom", "mapval": "val"}[name]
		if ev.st != nil && !ev.st.quick && ev.dec != nil {
			return ev.st.selD(c.Get(m, f), as[1])
		}
		return ex.sel(c.Get(m, f), as[1])
	case "mapdel":
		m := ev.val(as[0])
		dom := c.Get(m, "dom")
		has := ex.sel(dom, as[1])
		return c.Mk(m.sort, c.Get(m, "nil"), ex.sto(dom, as[1], c.F), c.Get(m, "val"), c.Sub2(c.Get(m, "n"), c.Ite(has, c.one, c.zero)))
	case "mapput":
		m := ev.val(as[0])
		dom, n := c.Get(m, "dom"), c.Get(m, "n")
		var has *Term
		if ev.st != nil && !ev.st.quick && ev.dec != nil {
			has = ev.st.selD(dom, as[1])
		} else {
			has = ex.sel(dom, as[1])
		}
		d := 0
		if ev.dec != nil {
			d = ev.dec(has)
		}
		switch d {
		case 1:
		case -1:
			n = c.Add(n, c.one)
		default:
			n = c.Add(n, c.Ite(has, c.zero, c.one))
		}
		if has != c.T {
			dom = ex.sto(dom, as[1], c.T)
		}
		v := as[2]
		if want := m.sort.fields[m.sort.fieldIndex("val")].sort.elem; want != nil {
			v = ev.coerce(v, want)
		}
		return c.Mk(m.sort, c.Get(m, "nil"), dom, ex.sto(c.Get(m, "val"), as[1], v), n)
	case "sto":
		return ex.sto(as[0], as[1], as[2])
	case "sel":
		if ev.st != nil && !ev.st.quick && ev.dec != nil {
			return ev.st.selD(as[0], as[1])
		}
		return ex.sel(as[0], as[1])
	case "isdecided":
		return c.B(ev.dec(as[0]) != 0)
	case "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64":
		v := ev.val(as[0])
		s := ex.specSort(name)
		w := c.Wrap(v, s)
		if w != v && ev.dec != nil && ev.dec(c.And(c.rawLe(c.Big(s.lo), v), c.rawLe(v, c.Big(s.hi)))) > 0 {
			return v
		}
		return w
	case "pow2":
		return ev.st.pow2Of(as[0])
	case "tag":
		return ex.anyTag(as[0])
	}
	f := ex.db.fns[name]
	if f == nil {
		ev.errf("unknown spec function %s", name)
	}
	if len(as) != len(f.params) {
		ev.errf("%s expects %d arguments", name, len(f.params))
	}
	for i := range as {
		as[i] = ev.coerce(as[i], ex.specSort(f.params[i].typ))
	}
	return ev.apply(f, as)
}

func strLit(e ast.Expr) string {
	b, ok := e.(*ast.BasicLit)
	if !ok {
		panic(specErr{"string literal expected"})
	}
	s, _ := strconv.Unquote(b.Value)
	return s
}

func mergeVars(a, b map[string]*Term) map[string]*Term {
	m := map[string]*Term{}
	for k, v := range b {
		m[k] = v
	}
	for k, v := range a {
		m[k] = v
	}
	return m
}

func (ev *Ev) iteT(cnd, a, b *Term) *Term {
	switch ev.dec(cnd) {
	case 1:
		return a
	case -1:
		return b
	}
	return ev.st.ex.c.Ite(cnd, a, b)
}

// under evaluates below an assumed condition (only the syntactic decision is strengthened).
func (ev *Ev) under(cond *Term) *Ev {
	e := *ev
	outer := ev.dec
	c := ev.st.ex.c
	neg := c.Not(cond)
	parts := map[*Term]bool{cond: true}
	if cond.op == OAnd {
		for _, a := range cond.args {
			parts[a] = true
		}
	}
	st := ev.st
	e.dec = func(t *Term) int {
		if parts[t] {
			return 1
		}
		if t == neg || parts[c.Not(t)] {
			return -1
		}
		if r := outer(t); r != 0 {
			return r
		}
		if st.quick {
			return 0
		}
		if st.ex.solver.Check(append(append([]*Term{}, st.pc...), cond, c.Not(t))) == Unsat {
			return 1
		}
		return 0
	}
	return &e
}

func (ev *Ev) coerce(t *Term, s *Sort) *Term {
	c := ev.st.ex.c
	if t.sort.kind == KRec && t.sort != s && s.kind != KRec {
		t = ev.els(t)
	}
	if t.sort.kind == KRec && s.kind == KRec && t.sort.smt != s.smt {
		isnil := c.F
		if strings.HasPrefix(t.sort.name, "opt<") && strings.HasPrefix(s.name, "opt<") {
			isnil = c.Get(t, "nil")
		}
		t = ev.val(t)
		if strings.HasPrefix(s.name, "opt<") {
			return c.Mk(s, isnil, ev.coerce(t, s.fields[1].sort))
		}
	}
	if t.sort.kind != KRec && s.kind == KRec && strings.HasPrefix(s.name, "opt<") {
		return c.Mk(s, c.F, ev.coerce(t, s.fields[1].sort))
	}
	if s.kind == KSeq && t.sort.kind == KRec {
		t = ev.els(t)
	}
	if t.sort.kind == KInt && s.kind == KInt && s.lo != nil {
		w := c.Wrap(t, s)
		if w != t && ev.dec(c.And(c.rawLe(c.Big(s.lo), t), c.rawLe(t, c.Big(s.hi)))) > 0 {
			return t
		}
		return w
	}
	if t.sort.kind == KInt && s.kind == KBV && t.ival != nil {
		return ev.st.ex.bvBig(t.ival, s.bits)
	}
	if t.sort.kind != s.kind || (t.sort.kind == KRec && t.sort.smt != s.smt) || (t.sort.kind == KSeq && t.sort.smt != s.smt) {
		if t.sort.kind == KSeq && s.kind == KRec && strings.HasPrefix(s.name, "sl<") {
			return c.Mk(s, c.F, t)
		}
		ev.errf("expected %s, got %s (%s)", s, t.sort, c.str(t))
	}
	return t
}

func (ev *Ev) apply(f *FnDef, as []*Term) *Term {
	ex := ev.st.ex
	if f.body == nil || f.rec {
		t := ex.appOf(f, as)
		if r, ok := ev.st.rw[t.id]; ok {
			return r
		}
		return t
	}
	return ev.body(f, as)
}

func (ex *Exec) appOf(f *FnDef, as []*Term) *Term {
	t := ex.c.App(f.name, ex.specSort(f.res), as...)
	if (t.op == OApp && t.name == f.name) && !ex.factsDone[t.id] {
		ex.factsDone[t.id] = true
		ex.lemmaFacts(f, t)
	}
	return t
}

func (ev *Ev) body(f *FnDef, as []*Term) *Term {
	ex := ev.st.ex
	e := &Ev{st: ev.st, dec: ev.dec, vars: map[string]*Term{}, strict: ev.strict, depth: ev.depth + 1}
	if e.depth > 60 {
		ev.errf("expansion of %s is too deep", f.name)
	}
	for i, p := range f.params {
		e.vars[p.name] = as[i]
	}
	r := e.eval(f.body)
	s := ex.specSort(f.res)
	return e.coerce(r, s)
}

// unfold returns the definition of a recursive application, resolved on this path.
func (st *State) unfoldApp(t *Term) (r *Term, cond *Term) {
	f := st.ex.db.fns[t.name]
	if f == nil || f.body == nil || f.opaque {
		return nil, nil
	}
	defer func() {
		if x := recover(); x != nil {
			if s, ok := x.(stuckErr); ok {
				r, cond = nil, s.cond
				return
			}
			panic(x)
		}
	}()
	ev := &Ev{st: st, dec: st.decide, strict: true}
	return ev.body(f, t.args), nil
}

// ---------------------------------------------------------------- quantifiers

type quantDef struct {
	v     string
	body  ast.Expr
	names []string
}

func (ev *Ev) quant(x *ast.CallExpr) *Term {
	ex := ev.st.ex
	c := ex.c
	v := x.Args[0].(*ast.Ident).Name
	lo, hi := ev.val(ev.eval(x.Args[1])), ev.val(ev.eval(x.Args[2]))
	// captured names
	seen := map[string]bool{v: true}
	var names []string
	var args []*Term
	args = append(args, lo, hi)
	bound := map[string]bool{}
	ast.Inspect(x.Args[3], func(n ast.Node) bool {
		if ce, ok := n.(*ast.CallExpr); ok {
			if id, ok := ce.Fun.(*ast.Ident); ok && (id.Name == "forall" || id.Name == "let") {
				bound[ce.Args[0].(*ast.Ident).Name] = true
			}
		}
		return true
	})
	var walk func(n ast.Node) bool
	walk = func(n ast.Node) bool {
		switch y := n.(type) {
		case *ast.SelectorExpr:
			ast.Inspect(y.X, walk)
			return false
		case *ast.CallExpr:
			if fid, ok := y.Fun.(*ast.Ident); ok && (fid.Name == "old" || fid.Name == "new") {
				ev.errf("old/new inside forall: bind with let outside")
			}
			for i, a := range y.Args {
				if fid, ok := y.Fun.(*ast.Ident); ok && fid.Name == "with" && i%2 == 1 {
					continue
				}
				ast.Inspect(a, walk)
			}
			return false
		case *ast.Ident:
			if seen[y.Name] || bound[y.Name] || y.Name == "true" || y.Name == "false" {
				return true
			}
			seen[y.Name] = true
			if _, ok := ex.db.consts[y.Name]; ok && ev.vars[y.Name] == nil {
				return true
			}
			names = append(names, y.Name)
			args = append(args, ev.eval(y))
		}
		return true
	}
	ast.Inspect(x.Args[3], walk)
	key := fmt.Sprintf("forall %s %p", v, x)
	k, ok := ex.quantIdx[key]
	if !ok {
		k = len(ex.quants)
		ex.quants = append(ex.quants, &quantDef{v, x.Args[3], names})
		ex.quantIdx[key] = k
	}
	return c.App(fmt.Sprintf("forall#%d", k), c.Bool(), args...)
}

func isQuant(t *Term) bool { return t.op == OApp && strings.HasPrefix(t.name, "forall#") }

// instantiate a quantified term at index i (the range condition is included).
func (st *State) inst(t, i *Term) *Term {
	ex := st.ex
	c := ex.c
	k, _ := strconv.Atoi(t.name[len("forall#"):])
	q := ex.quants[k]
	rng := c.And(c.Le(t.args[0], i), c.Lt(i, t.args[1]))
	if rng == c.F {
		return c.T
	}
	ev := &Ev{st: st, dec: noDecide, vars: map[string]*Term{q.v: i}}
	for j, n := range q.names {
		ev.vars[n] = t.args[2+j]
	}
	return c.Imp(rng, ev.boolE(q.body))
}

// ---------------------------------------------------------------- lemma facts

// lemmaFacts attaches the proved lemmas triggered by an application as ground facts.
func (ex *Exec) lemmaFacts(f *FnDef, t *Term) {
	for _, l := range f.lemmas {
		if ex.lemmaOff != nil && ex.lemmaOff(l) {
			continue
		}
		ce := l.trigger.(*ast.CallExpr)
		st := &State{ex: ex, cache: map[int]int8{}, quick: true}
		ev := &Ev{st: st, dec: noDecide, vars: map[string]*Term{}}
		ok := true
		for i, a := range ce.Args {
			id, isId := a.(*ast.Ident)
			if !isId {
				ok = false
				break
			}
			ev.vars[id.Name] = t.args[i]
		}
		if !ok || len(ev.vars) < len(l.params) {
			continue
		}
		req := ex.c.T
		for _, r := range l.req {
			req = ex.c.And(req, ev.boolE(r))
		}
		for _, e := range l.ens {
			t.facts = append(t.facts, ex.c.Imp(req, ev.boolE(e)))
		}
		ex.usedLemmas[l.name] = true
		if l.trusted {
			ex.trust("axiom " + l.name + " (" + l.pos + ")")
		}
	}
}

// knownLen: sorting keeps the length.
func (db *SpecDB) knownLen(c *Ctx, t *Term) *Term {
	if db.sorters[t.name] {
		return c.Len(t.args[0])
	}
	return nil
}
func (db *SpecDB) knownNth(q SeqOps, t *Term, i *Term) *Term { return nil }

func (ex *Exec) bit(x *Term, i int) *Term {
	return ex.rawOp(fmt.Sprintf("(_ extract %d %d)", i, i), ex.c.BV(1), x)
}

// writes: does the contract say that the ghost variable changes?
func (ct *Contract) writes(g string) bool {
	for _, cl := range ct.clauses {
		if (cl.kind == "sets" || cl.kind == "havocs") && cl.name == g {
			return true
		}
	}
	return false
}
