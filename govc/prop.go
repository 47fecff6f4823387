package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// closure of one property: its contracts and lemmas, the contracts and lemmas their proofs use, and the
// recursive definitions any of them mentions.

type propRun struct {
	p     *Prog
	db    *SpecDB
	id    string
	limit time.Duration
	par   int
	res   map[string]*Result1
	roots map[string]bool
}

func has(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func (db *SpecDB) fnRefs(es []ast.Expr, out map[string]bool) {
	for _, e := range es {
		if e == nil {
			continue
		}
		ast.Inspect(e, func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok {
				if id, ok := c.Fun.(*ast.Ident); ok {
					if f := db.fns[id.Name]; f != nil && !out[id.Name] {
						out[id.Name] = true
						if f.body != nil {
							db.fnRefs([]ast.Expr{f.body, f.dec}, out)
						}
					}
				}
			}
			return true
		})
	}
}

func (db *SpecDB) contractExprs(ct *Contract) []ast.Expr {
	var es []ast.Expr
	for _, c := range ct.clauses {
		es = append(es, c.e, c.e2)
	}
	for _, l := range ct.loops {
		for _, c := range l.invs {
			es = append(es, c.e)
		}
		es = append(es, l.uses...)
	}
	return append(es, ct.lemmas...)
}

func (db *SpecDB) lemmaExprs(l *Lemma) []ast.Expr {
	es := append(append(append(append(append([]ast.Expr{}, l.req...), l.ens...), l.use...), l.split...), l.unfold...)
	return append(es, l.dec, l.trigger)
}

func (r *propRun) run() {
	type item struct{ kind, name string }
	seen := map[item]bool{}
	var queue []item
	add := func(k, n string) {
		it := item{k, n}
		if !seen[it] {
			seen[it] = true
			queue = append(queue, it)
		}
	}
	addDefs := func(es []ast.Expr) {
		m := map[string]bool{}
		r.db.fnRefs(es, m)
		for n := range m {
			if r.db.fns[n].rec {
				add("def", n)
			}
		}
	}
	for n, ct := range r.db.contracts {
		if has(ct.props, r.id) && !ct.trusted {
			add("fn", n)
			r.roots[n] = true
		}
	}
	for n, l := range r.db.lemmas {
		if has(l.props, r.id) && !l.trusted {
			add("lemma", n)
			r.roots["lemma "+n] = true
		}
	}
	for len(queue) > 0 {
		batch := queue
		queue = nil
		sort.Slice(batch, func(i, j int) bool {
			if batch[i].kind != batch[j].kind {
				return batch[i].kind > batch[j].kind
			}
			return batch[i].name < batch[j].name
		})
		var js []job
		for _, it := range batch {
			switch it.kind {
			case "fn":
				ct := r.db.contracts[it.name]
				addDefs(r.db.contractExprs(ct))
				js = append(js, job{it.name, func() *Result1 { return verifyFn(r.p, r.db, ct, r.limit, false) }})
			case "lemma":
				l := r.db.lemmas[it.name]
				addDefs(r.db.lemmaExprs(l))
				js = append(js, job{"lemma " + it.name, func() *Result1 { return proveLemma(r.p, r.db, l, r.limit) }})
			case "def":
				f := r.db.fns[it.name]
				js = append(js, job{"definition " + it.name, func() *Result1 { return checkFn(r.p, r.db, f, r.limit) }})
			}
		}
		for i, res := range runJobs(js, r.par) {
			r.res[js[i].name] = res
			for _, u := range res.Used {
				if ct := r.db.contracts[u]; ct != nil && !ct.trusted {
					add("fn", u)
				}
			}
			for _, l := range res.Lemmas {
				if r.db.lemmas[l].trusted {
					continue
				}
				add("lemma", l)
			}
		}
	}
}

type fnReport struct {
	Name        string         `json:"name"`
	Obligations int            `json:"obligations"`
	Instances   int            `json:"instances"`
	Discharged  int            `json:"discharged"`
	Paths       int            `json:"paths,omitempty"`
	SolverMs    int64          `json:"solver_ms"`
	Queries     int            `json:"queries"`
	By          map[string]int `json:"by_other_solver,omitempty"`
}

type failReport struct {
	Where      string   `json:"where"`
	Obligation string   `json:"obligation"`
	Message    string   `json:"message"`
	Model      []string `json:"counterexample,omitempty"`
}

type propReport struct {
	Property    string       `json:"property"`
	Roots       []string     `json:"roots"`
	Functions   []fnReport   `json:"functions"`
	Lemmas      []fnReport   `json:"lemmas"`
	Definitions int          `json:"definitions"`
	Obligations int          `json:"obligations"`
	Instances   int          `json:"instances"`
	Discharged  int          `json:"discharged"`
	Failed      []failReport `json:"failed"`
	Absent      []string     `json:"absent"`
	SolverMs    int64        `json:"solver_ms"`
	Queries     int          `json:"queries"`
	Assumptions []string     `json:"assumptions"`
	Trusted     []string     `json:"trusted"`
	Inlined     []string     `json:"inlined"`
	SelfTest    string       `json:"self_test"`
	WallMs      int64        `json:"wall_ms"`
}

func runProp(p *Prog, db *SpecDB, id string, limit time.Duration, par int, thorough bool, seed int) *propReport {
	t0 := time.Now()
	r := &propRun{p: p, db: db, id: id, limit: limit, par: par, res: map[string]*Result1{}, roots: map[string]bool{}}
	r.run()
	rep := &propReport{Property: id, Roots: keys(r.roots)}
	ass, tr, inl := map[string]bool{}, map[string]bool{}, map[string]bool{}
	var names []string
	for n := range r.res {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		x := r.res[n]
		if x.Absent && !(r.roots[n] && isExported(n)) {
			rep.Absent = append(rep.Absent, n)
			continue
		}
		fr := fnReport{Name: n, Paths: x.Paths, SolverMs: x.SolverMs, Queries: x.Queries, By: x.By}
		for _, o := range x.Obs {
			fr.Obligations++
			fr.Instances += o.N
			if o.Failed == 0 {
				fr.Discharged++
			} else {
				rep.Failed = append(rep.Failed, failReport{n, o.Name, o.Msg, o.Model})
			}
		}
		rep.Obligations += fr.Obligations
		rep.Instances += fr.Instances
		rep.Discharged += fr.Discharged
		rep.SolverMs += fr.SolverMs
		rep.Queries += fr.Queries
		switch x.Kind {
		case "function":
			rep.Functions = append(rep.Functions, fr)
		case "lemma":
			rep.Lemmas = append(rep.Lemmas, fr)
		default:
			rep.Definitions++
		}
		for _, a := range x.Assumptions {
			ass[a] = true
		}
		for _, a := range x.Trusted {
			tr[a] = true
		}
		for _, a := range x.Inlined {
			inl[a] = true
		}
	}
	rep.Assumptions, rep.Trusted, rep.Inlined = keys(ass), keys(tr), keys(inl)
	// self-test: with a damaged result every root function must be refused
	if len(rep.Failed) == 0 {
		var cand []string
		for n := range r.roots {
			if ct := db.contracts[n]; ct != nil && r.res[n] != nil && !r.res[n].Absent && canCorrupt(p, ct) {
				cand = append(cand, n)
			}
		}
		sort.Slice(cand, func(i, j int) bool {
			a, b := r.res[cand[i]].Ms, r.res[cand[j]].Ms
			if a != b {
				return a < b
			}
			return cand[i] < cand[j]
		})
		if !thorough && len(cand) > 2 {
			cand = []string{cand[0], cand[(1+seed)%len(cand)]}
		}
		var js []job
		for _, n := range cand {
			js = append(js, job{n, func() *Result1 { return verifyFn(p, db, db.contracts[n], limit, true) }})
		}
		bad := 0
		for i, x := range runJobs(js, par) {
			if len(x.Failed) == 0 {
				bad++
				rep.Failed = append(rep.Failed, failReport{cand[i], "self-test", "the verifier accepts the function with a damaged result", nil})
			}
		}
		rep.SelfTest = fmt.Sprintf("%d functions re-checked with a damaged result, %d wrongly accepted", len(cand), bad)
	}
	rep.WallMs = time.Since(t0).Milliseconds()
	return rep
}

func isExported(n string) bool {
	parts := strings.Split(n, ".")
	for _, p := range parts[1:] {
		if p == "" || p[0] < 'A' || p[0] > 'Z' {
			return false
		}
	}
	return !strings.Contains(n, "$")
}

func writeJSON(path string, v interface{}) {
	b, _ := json.MarshalIndent(v, "", " ")
	os.MkdirAll(filepath.Dir(path), 0755)
	if err := os.WriteFile(path, append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}
