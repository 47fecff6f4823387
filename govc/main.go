package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"
)

type job struct {
	name string
	run  func() *Result1
}

func runJobs(js []job, par int) []*Result1 {
	out := make([]*Result1, len(js))
	sem := make(chan bool, par)
	var wg sync.WaitGroup
	for i, j := range js {
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			out[i] = j.run()
		}()
	}
	wg.Wait()
	return out
}

var msgLen = flag.Int("len", 300, "")
var showModel = flag.Bool("m", false, "show models")

func printRes(r *Result1) {
	st := "ok"
	if len(r.Failed) > 0 {
		st = "FAILED"
	}
	n := 0
	for _, o := range r.Obs {
		n += o.N
	}
	fmt.Printf("%-8s %-45s obs=%d inst=%d paths=%d exits=%d queries=%d hits=%d solver=%dms total=%dms\n", st, r.Name, len(r.Obs), n, r.Paths, r.Exits, r.Queries, r.Hits, r.SolverMs, r.Ms)
	for _, o := range r.Failed {
		fmt.Printf("    - %s (%d of %d): %s\n", o.Name, o.Failed, o.N, trunc(o.Msg, *msgLen))
		for _, m := range o.Model {
			if !*showModel {
				break
			}
			fmt.Printf("        %s\n", m)
		}
	}
}

func main() {
	repo := flag.String("repo", "/repo", "")
	specs := flag.String("specs", "/verif/specs", "")
	limit := flag.Duration("limit", 60*time.Second, "")
	par := flag.Int("par", runtime.NumCPU(), "")
	verif := flag.String("verif", "/verif", "")
	verbose := flag.Bool("v", false, "")
	brk := flag.Bool("break", false, "")
	thorough := flag.Bool("thorough", false, "")
	seed := flag.Int("seed", 1, "")
	out := flag.String("o", "", "report file")
	cpu := flag.String("cpuprofile", "", "")
	flag.Parse()
	debug.SetGCPercent(300)
	if *cpu != "" {
		f, _ := os.Create(*cpu)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	if flag.NArg() == 2 && flag.Arg(0) == "run" {
		os.Exit(runCheck(*repo, *verif, flag.Arg(1), *limit, *par))
	}
	db, err := loadSpecs(*specs)
	if err != nil {
		fmt.Println("specification error:", err)
		os.Exit(3)
	}
	p, err := loadProg(*repo, "github.com/squizzling/osmindex")
	if err != nil {
		fmt.Println("program error:", err)
		os.Exit(3)
	}
	if *verbose {
		fmt.Println("loaded in", time.Since(t0))
	}
	args := flag.Args()
	cmd := "check"
	if len(args) > 0 {
		cmd = args[0]
		args = args[1:]
	}
	match := func(n string) bool {
		if len(args) == 0 {
			return true
		}
		for _, a := range args {
			if a == n || (strings.HasSuffix(a, "*") && strings.HasPrefix(n, a[:len(a)-1])) {
				return true
			}
		}
		return false
	}
	switch cmd {
	case "list":
		var ns []string
		for n := range p.funcs {
			if p.isRepoName(n) {
				ns = append(ns, n)
			}
		}
		sort.Strings(ns)
		for _, n := range ns {
			mark := " "
			if db.contracts[n] != nil {
				mark = "*"
			}
			if match(n) {
				fmt.Println(mark, n, p.pos(p.funcs[n].Pos()))
			}
		}
	case "ssa":
		for _, a := range args {
			if f := p.funcs[a]; f != nil {
				f.WriteTo(os.Stdout)
				for b, l := range p.loops(f) {
					fmt.Println("loop", l, "header block", b.Index, b.Comment)
				}
			}
		}
	case "prop":
		rep := runProp(p, db, args[0], *limit, *par, *thorough, *seed)
		if *out != "" {
			writeJSON(*out, rep)
		}
		fmt.Printf("%s: %d obligations (%d instances) in %d functions, %d lemmas, %d definitions; %d discharged; solver %d ms, wall %d ms; %s\n", rep.Property, rep.Obligations, rep.Instances, len(rep.Functions), len(rep.Lemmas), rep.Definitions, rep.Discharged, rep.SolverMs, rep.WallMs, rep.SelfTest)
		for _, f := range rep.Failed {
			fmt.Printf("  FAILED %s: %s: %s\n", f.Where, f.Obligation, trunc(f.Message, *msgLen))
		}
		if len(rep.Failed) > 0 || rep.Obligations == 0 {
			os.Exit(1)
		}
	case "check", "lemma", "def":
		var js []job
		if cmd == "check" {
			for n, ct := range db.contracts {
				if !ct.trusted && match(n) {
					js = append(js, job{n, func() *Result1 { return verifyFn(p, db, ct, *limit, *brk) }})
				}
			}
		}
		if cmd != "def" {
			for n, l := range db.lemmas {
				if match(n) && !l.trusted {
					js = append(js, job{"lemma " + n, func() *Result1 { return proveLemma(p, db, l, *limit) }})
				}
			}
		}
		if cmd != "lemma" {
			for n, f := range db.fns {
				if f.rec && match(n) {
					js = append(js, job{"def " + n, func() *Result1 { return checkFn(p, db, f, *limit) }})
				}
			}
		}
		sort.Slice(js, func(i, j int) bool { return js[i].name < js[j].name })
		bad := 0
		for _, r := range runJobs(js, *par) {
			printRes(r)
			if len(r.Failed) > 0 {
				bad++
			}
		}
		fmt.Printf("%d checked, %d failed, %v\n", len(js), bad, time.Since(t0))
	}
}
