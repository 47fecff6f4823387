package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Unsat
	Sat
)

func (r Result) String() string { return [...]string{"unknown", "unsat", "sat"}[r] }

// Solver is one incremental SMT process. Every term is emitted once as a global definition; a query is
// (push)(assert ..)*(check-sat)(pop).
type Solver struct {
	expired   func() bool
	oneshot   bool
	c         *Ctx
	cmd       *exec.Cmd
	in        io.WriteCloser
	out       *bufio.Reader
	emitted   map[int]string
	decl      map[string]bool
	nsort     int
	log       *strings.Builder // declarations, for fallback scripts
	Queries   int
	Hits      int
	stack     []*Term
	factTab   map[int][]*Term
	answers   map[[32]byte]Result
	exact     map[string]Result // by the terms themselves
	Time      time.Duration
	timeoutMs int
	dead      bool
	bin       string
	fallback  map[string]int
	atomTab   map[int][]int
}

func newSolver(c *Ctx, bin string, timeoutMs int) *Solver {
	s := &Solver{c: c, emitted: map[int]string{}, decl: map[string]bool{}, log: &strings.Builder{}, timeoutMs: timeoutMs, bin: bin, fallback: map[string]int{}, atomTab: map[int][]int{}, answers: map[[32]byte]Result{}, exact: map[string]Result{}, factTab: map[int][]*Term{}}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :timeout %d)\n", s.timeoutMs)
	fmt.Fprintf(s.in, "(set-option :smt.random_seed 0)\n")
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) restart() {
	s.stack = nil
	s.Close()
	s.start()
	io.WriteString(s.in, s.log.String())
}

func (s *Solver) send(x string) {
	s.log.WriteString(x)
	io.WriteString(s.in, x)
}

// declare sorts created so far
func (s *Solver) sorts() {
	for s.nsort < len(s.c.recs) {
		t := s.c.recs[s.nsort]
		s.nsort++
		key := "sort " + t.smt
		if s.decl[key] {
			continue
		}
		s.decl[key] = true
		switch t.kind {
		case KSeq, KUn:
			s.send(fmt.Sprintf("(declare-sort %s 0)\n", t.smt))
		case KMap:
			s.send(fmt.Sprintf("(define-sort %s () (Array %s %s))\n", t.smt, t.key.smt, t.elem.smt))
		case KRec:
			var b strings.Builder
			fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((mk_%s", t.smt, t.smt)
			for _, f := range t.fields {
				fmt.Fprintf(&b, " (%s_%s %s)", t.smt, mangle(f.name), f.sort.smt)
			}
			b.WriteString("))))\n")
			s.send(b.String())
		}
	}
}

func (s *Solver) declFun(name string, args []*Term, res *Sort) {
	if s.decl["fun "+name] {
		return
	}
	s.decl["fun "+name] = true
	var b strings.Builder
	fmt.Fprintf(&b, "(declare-fun %s (", name)
	for i, a := range args {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(a.sort.smt)
	}
	fmt.Fprintf(&b, ") %s)\n", res.smt)
	s.send(b.String())
}

func smtInt(t *Term) string {
	if t.ival.Sign() < 0 {
		return "(- " + t.ival.String()[1:] + ")"
	}
	return t.ival.String()
}

// name returns the SMT expression for t, defining it when it is compound.
func (s *Solver) expr(t *Term) string {
	if e, ok := s.emitted[t.id]; ok {
		return e
	}
	args := make([]string, len(t.args))
	for i, a := range t.args {
		args[i] = s.expr(a)
	}
	s.sorts()
	var e string
	simple := false
	switch t.op {
	case OInt:
		e, simple = smtInt(t), true
	case OTrue:
		e, simple = "true", true
	case OFalse:
		e, simple = "false", true
	case OVar:
		e, simple = "|"+t.name+"|", true
		s.declFun(e, nil, t.sort)
	case OApp:
		n := "|f_" + t.name + "|"
		s.declFun(n, t.args, t.sort)
		if len(args) == 0 {
			e, simple = n, true
		} else {
			e = "(" + n + " " + strings.Join(args, " ") + ")"
		}
	case ORaw:
		if len(args) == 0 {
			e, simple = t.name, true
		} else {
			e = "(" + t.name + " " + strings.Join(args, " ") + ")"
		}
	case OAdd:
		var b strings.Builder
		b.WriteString("(+")
		for i, a := range args {
			if t.coefs[i].Cmp(bigOne) == 0 {
				b.WriteString(" " + a)
			} else {
				k := t.coefs[i].String()
				if t.coefs[i].Sign() < 0 {
					k = "(- " + k[1:] + ")"
				}
				b.WriteString(" (* " + k + " " + a + ")")
			}
		}
		if t.ival.Sign() != 0 {
			b.WriteString(" " + smtInt(t))
		}
		b.WriteString(" 0)")
		e = b.String()
	case OMul:
		e = "(* " + strings.Join(args, " ") + ")"
	case ODiv:
		if n, q := narrow(t); n != "" && q {
			e = fmt.Sprintf("(ite (< %s 0) (- 1) (ite (< %s %s) 0 1))", args[0], args[0], n)
			break
		}
		e = "(div " + args[0] + " " + args[1] + ")"
	case OMod:
		if n, _ := narrow(t); n != "" {
			e = fmt.Sprintf("(ite (< %s 0) (+ %s %s) (ite (< %s %s) %s (- %s %s)))", args[0], args[0], n, args[0], n, args[0], args[0], n)
			break
		}
		e = "(mod " + args[0] + " " + args[1] + ")"
	case OLe:
		e = "(<= " + args[0] + " 0)"
	case OEq0:
		e = "(= " + args[0] + " 0)"
	case OEq:
		e = "(= " + args[0] + " " + args[1] + ")"
	case ONot:
		e = "(not " + args[0] + ")"
	case OAnd:
		e = "(and " + strings.Join(args, " ") + ")"
	case OOr:
		e = "(or " + strings.Join(args, " ") + ")"
	case OIte:
		e = "(ite " + strings.Join(args, " ") + ")"
	case OEmpty:
		e, simple = "empty_"+t.sort.smt, true
		s.declFun(e, nil, t.sort)
	case OUnit:
		n := "unit_" + t.sort.smt
		s.declFun(n, t.args, t.sort)
		e = "(" + n + " " + args[0] + ")"
	case OCat:
		n := "cat_" + t.sort.smt
		s.declFun(n, t.args[:2], t.sort)
		e = args[len(args)-1]
		for i := len(args) - 2; i >= 0; i-- {
			e = "(" + n + " " + args[i] + " " + e + ")"
		}
	case OSub:
		n := "sub_" + t.sort.smt
		s.declFun(n, t.args, t.sort)
		e = "(" + n + " " + strings.Join(args, " ") + ")"
	case ORep:
		n := "rep_" + t.sort.smt
		s.declFun(n, t.args, t.sort)
		e = "(" + n + " " + strings.Join(args, " ") + ")"
	case OLit:
		e, simple = fmt.Sprintf("lit_%d", t.id), true
		s.declFun(e, nil, t.sort)
		s.declFun("litid", []*Term{t}, s.c.Int())
		s.send(fmt.Sprintf("(assert (= (litid %s) %d))\n(assert (= (len_%s %s) %d))\n", e, t.id, t.sort.smt, s.lenDecl(t, e), len(t.name)))
	case OLen:
		s.lenDecl(t.args[0], "")
		e = "(len_" + t.args[0].sort.smt + " " + args[0] + ")"
	case ONth:
		n := "nth_" + t.args[0].sort.smt
		s.declFun(n, t.args, t.sort)
		e = "(" + n + " " + strings.Join(args, " ") + ")"
	case OMk:
		if len(args) == 0 {
			e = "mk_" + t.sort.smt
		} else {
			e = "(mk_" + t.sort.smt + " " + strings.Join(args, " ") + ")"
		}
	case OField:
		e = "(" + t.args[0].sort.smt + "_" + mangle(t.name) + " " + args[0] + ")"
	default:
		panic(fmt.Sprintf("expr: op %d", t.op))
	}
	if !simple {
		n := fmt.Sprintf("t%d", t.id)
		s.send(fmt.Sprintf("(define-fun %s () %s %s)\n", n, t.sort.smt, e))
		e = n
	}
	s.emitted[t.id] = e
	return e
}

func (s *Solver) lenDecl(t *Term, e string) string {
	s.declFun("len_"+t.sort.smt, []*Term{t}, s.c.Int())
	return e
}

// closure collects the facts of every term reachable from the assertions.
func (s *Solver) closure(as []*Term) []*Term {
	seen := map[int]bool{}
	var out []*Term
	var work []*Term
	add := func(f *Term) {
		if f.op != OTrue {
			work = append(work, f)
		}
	}
	inOut := map[int]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.args {
			visit(a)
		}
		fs, ok := s.factTab[t.id]
		if !ok {
			fs = append(append(fs, s.c.rangeFacts(t)...), s.c.autoFacts(t)...)
			s.factTab[t.id] = fs
		}
		for _, f := range fs {
			add(f)
		}
		for _, f := range t.facts {
			add(f)
		}
	}
	for _, a := range as {
		add(a)
		for len(work) > 0 {
			f := work[0]
			work = work[1:]
			if inOut[f.id] {
				continue
			}
			inOut[f.id] = true
			out = append(out, f)
			visit(f)
		}
	}
	return out
}

// autoFacts are the extensionality facts of sequences.
func (c *Ctx) autoFacts(t *Term) []*Term {
	if t.op == OLen {
		x := t.args[0]
		return []*Term{c.mk(&Term{op: OOr, args: []*Term{c.Not(c.Eq(t, c.zero)), c.mkEqRaw(x, c.Empty(x.sort))}, sort: c.Bool()})}
	}
	return nil
}

// narrow: the dividend lies in [-n, 2n), so that quotient and remainder are case distinctions.
func narrow(t *Term) (string, bool) {
	a, b := t.args[0], t.args[1]
	if b.op != OInt || b.ival.Sign() <= 0 || a.lo == nil || a.hi == nil {
		return "", false
	}
	if a.lo.Cmp(new(big.Int).Neg(b.ival)) < 0 || a.hi.Cmp(new(big.Int).Lsh(b.ival, 1)) >= 0 {
		return "", false
	}
	return b.ival.String(), true
}

func (s *Solver) script(as []*Term) string {
	var b strings.Builder
	for _, a := range as {
		fmt.Fprintf(&b, "(assert %s)\n", s.expr(a))
	}
	return b.String()
}

// Check asks whether the conjunction of as is satisfiable.
func (s *Solver) Check(as []*Term) Result {
	for _, a := range as {
		if a.op == OFalse {
			return Unsat
		}
	}
	k := idKey(as, nil)
	if r, ok := s.exact[k]; ok {
		s.Hits++
		return r
	}
	if s.expired != nil && s.expired() {
		return Unknown
	}
	all := s.closure(as)
	key := queryKeyOf(all)
	if r, ok := s.answers[key]; ok {
		s.Hits++
		s.exact[k] = r
		return r
	}
	var r Result
	if s.oneshot {
		r = s.runOnce(s.script(all))
	} else {
		r = s.runStack(all)
	}
	s.answers[key] = r
	s.exact[k] = r
	return r
}

// runOnce solves one query in a fresh process: bit-vector queries need the preprocessing the incremental mode skips.
func (s *Solver) runOnce(body string) Result {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	cmd := exec.Command("z3-new", "-in", "-T:60")
	cmd.Stdin = strings.NewReader(s.log.String() + body + "(check-sat)\n")
	out, _ := cmd.Output()
	switch strings.TrimSpace(string(out)) {
	case "unsat":
		return Unsat
	case "sat":
		return Sat
	}
	return Unknown
}

// runStack keeps the assertions shared with the previous query on the solver's stack.
func (s *Solver) runStack(all []*Term) Result {
	const chunk = stackChunk
	n := 0
	for n < len(all) && n < len(s.stack) && all[n] == s.stack[n] {
		n++
	}
	n -= n % chunk
	if n == len(all) && n > 0 {
		n -= chunk
	}
	var b strings.Builder
	if pop := (len(s.stack)+chunk-1)/chunk - n/chunk; pop > 0 {
		fmt.Fprintf(&b, "(pop %d)\n", pop)
	}
	for i := n; i < len(all); i++ {
		if i%chunk == 0 {
			b.WriteString("(push)\n")
		}
		fmt.Fprintf(&b, "(assert %s)\n", s.expr(all[i]))
	}
	s.stack = append(s.stack[:n], all[n:]...)
	r, ok := s.ask(b.String())
	if !ok { // the solver was restarted
		s.stack = nil
		return s.run(s.script(all))
	}
	return r
}

func (s *Solver) clearStack() {
	if n := (len(s.stack) + stackChunk - 1) / stackChunk; n > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", n)
	}
	s.stack = nil
}

const stackChunk = 8

// ask sends commands and a check-sat.
func (s *Solver) ask(body string) (Result, bool) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	io.WriteString(s.in, body+"(check-sat)\n(echo \"done\")\n")
	res := Unknown
	deadline := time.AfterFunc(time.Duration(s.timeoutMs)*time.Millisecond*3+2*time.Second, func() {
		s.cmd.Process.Kill()
	})
	defer deadline.Stop()
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.restart()
			return Unknown, false
		}
		line = strings.TrimSpace(line)
		switch {
		case line == "sat":
			res = Sat
		case line == "unsat":
			res = Unsat
		case line == "done" || line == "\"done\"":
			return res, true
		case strings.HasPrefix(line, "(error"):
			fmt.Fprintln(os.Stderr, "SMT error:", line)
		}
	}
}

func (s *Solver) run(body string) Result {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	if debugStat {
		defer func() {
			fmt.Fprintf(os.Stderr, "STAT %d %d\n", strings.Count(body, "\n"), time.Since(t0).Microseconds())
			if s.Queries%3000 == 0 {
				os.WriteFile(fmt.Sprintf("/tmp/q%d.smt2", s.Queries), []byte(s.log.String()+body+"(check-sat)\n"), 0644)
			}
		}()
	}
	if debugSlow {
		defer func() {
			if d := time.Since(t0); d > time.Second {
				fmt.Fprintf(os.Stderr, "SLOW %v\n%s\n", d, body)
				os.WriteFile(fmt.Sprintf("/tmp/slow%d.smt2", s.Queries), []byte(s.log.String()+body+"(check-sat)\n"), 0644)
			}
		}()
	}
	for try := 0; try < 2; try++ {
		s.clearStack()
		io.WriteString(s.in, "(push)\n"+body+"(check-sat)\n(pop)\n(echo \"done\")\n")
		res := Unknown
		ok := false
		deadline := time.AfterFunc(time.Duration(s.timeoutMs)*time.Millisecond*3+2*time.Second, func() {
			s.cmd.Process.Kill()
		})
		for {
			line, err := s.out.ReadString('\n')
			if err != nil {
				break
			}
			line = strings.TrimSpace(line)
			switch {
			case line == "sat":
				res = Sat
			case line == "unsat":
				res = Unsat
			case line == "done" || line == "\"done\"":
				ok = true
			case strings.HasPrefix(line, "(error"):
				fmt.Fprintln(os.Stderr, "SMT error:", line)
				if debugSMT {
					fmt.Fprintln(os.Stderr, body)
				}
				res = Unknown
			}
			if ok {
				break
			}
		}
		deadline.Stop()
		if ok {
			return res
		}
		s.restart()
		if try == 1 {
			return Unknown
		}
	}
	return Unknown
}

var debugStat = os.Getenv("GOVC_STAT") != ""
var debugSlow = os.Getenv("GOVC_SLOW") != ""
var debugSMT = os.Getenv("GOVC_SMT") != ""

// Model evaluates terms in a model of as.
func (s *Solver) Model(as []*Term, want []*Term) map[*Term]string {
	s.clearStack()
	all := s.closure(as)
	body := s.script(all)
	var es []string
	for _, w := range want {
		es = append(es, s.expr(w))
	}
	var out map[*Term]string
	io.WriteString(s.in, "(push)\n"+body+"(check-sat)\n")
	line, err := s.out.ReadString('\n')
	if err == nil && strings.TrimSpace(line) == "sat" {
		out = map[*Term]string{}
		for i, e := range es {
			io.WriteString(s.in, "(eval "+e+")\n")
			l, err := s.out.ReadString('\n')
			if err != nil {
				break
			}
			out[want[i]] = strings.TrimSpace(l)
		}
	}
	io.WriteString(s.in, "(pop)\n(echo \"done\")\n")
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.restart()
			break
		}
		if t := strings.TrimSpace(l); t == "done" || t == "\"done\"" {
			break
		}
	}
	return out
}

// Fallback runs other solvers once on the full script.
func (s *Solver) Fallback(as []*Term) (Result, string) {
	if s.expired != nil && s.expired() {
		return Unknown, ""
	}
	all := s.closure(as)
	body := s.script(all)
	full := s.log.String() + body + "(check-sat)\n"
	f, err := os.CreateTemp("", "govc*.smt2")
	if err != nil {
		return Unknown, ""
	}
	defer os.Remove(f.Name())
	f.WriteString("(set-logic ALL)\n" + full)
	f.Close()
	for _, alt := range [][]string{{"cvc5", "--tlimit=10000"}, {"z3", "-T:10"}} {
		t0 := time.Now()
		out, _ := exec.Command(alt[0], append(alt[1:], f.Name())...).Output()
		s.Time += time.Since(t0)
		s.Queries++
		o := strings.TrimSpace(string(out))
		if strings.HasSuffix(o, "unsat") {
			s.fallback[alt[0]]++
			return Unsat, alt[0]
		}
		if o == "sat" {
			return Sat, alt[0]
		}
	}
	return Unknown, ""
}
