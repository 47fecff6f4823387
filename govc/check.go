package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// The check of one property: the deductive proof over /repo's current source, and the generated inputs run
// against the real code (which replay a failed obligation, and stand in, bounded, for what is outside the
// verifier's reach).

type hreport struct {
	Test        string   `json:"test"`
	Evaluations int      `json:"evaluations"`
	Distinct    int      `json:"distinct_nontrivial"`
	Rule        string   `json:"rule"`
	Samples     []string `json:"samples"`
	Failed      bool     `json:"failed"`
	Input       string   `json:"input,omitempty"`
	Message     string   `json:"message,omitempty"`
	Seed        int64    `json:"seed"`
	Case        int      `json:"case"`
}

type hfile struct {
	path, pkg string
	race      bool
	props     []string
}

var dirRe = regexp.MustCompile(`(?m)^//verif:\s*(.*)$`)

func harnessFiles(dir string) []hfile {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(fs)
	var out []hfile
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		m := dirRe.FindSubmatch(b)
		if m == nil {
			continue
		}
		h := hfile{path: f}
		for _, kv := range strings.Fields(string(m[1])) {
			k, v, _ := strings.Cut(kv, "=")
			switch k {
			case "prop":
				h.props = strings.Split(v, ",")
			case "pkg":
				h.pkg = v
			case "race":
				h.race = v == "1"
			}
		}
		out = append(out, h)
	}
	return out
}

type harnessResult struct {
	Reports []*hreport
	Fail    *hreport
	Err     string
	Output  string
	WallMs  int64
}

// runHarness runs the generated-input tests of one property against the real code.
func runHarness(repo, verif, id, tier, seed string, limit time.Duration) *harnessResult {
	t0 := time.Now()
	res := &harnessResult{}
	defer func() { res.WallMs = time.Since(t0).Milliseconds() }()
	tmp, err := os.MkdirTemp("", "vh")
	if err != nil {
		res.Err = err.Error()
		return res
	}
	defer os.RemoveAll(tmp)
	replace := map[string]string{}
	pkgs := map[string]bool{}
	race := false
	libs, _ := filepath.Glob(filepath.Join(verif, "harness", "*", "*.go"))
	for _, l := range libs {
		replace[filepath.Join(repo, "internal", "zverif", filepath.Base(filepath.Dir(l)), filepath.Base(l))] = l
	}
	for _, h := range harnessFiles(filepath.Join(verif, "harness")) {
		if !has(h.props, id) {
			continue
		}
		replace[filepath.Join(repo, h.pkg, "zverif_"+strings.TrimSuffix(filepath.Base(h.path), ".go")+"_test.go")] = h.path
		pkgs["./"+h.pkg] = true
		race = race || h.race
	}
	if len(pkgs) == 0 {
		return res
	}
	ov := filepath.Join(tmp, "overlay.json")
	writeJSON(ov, map[string]interface{}{"Replace": replace})
	rd := filepath.Join(tmp, "reports")
	os.Mkdir(rd, 0755)
	scratch := filepath.Join(tmp, "scratch")
	os.Mkdir(scratch, 0755)
	args := []string{"test", "-overlay", ov, "-vet=off", "-count=1", "-run", "^TestVerif_" + id + "_", "-timeout", fmt.Sprintf("%ds", int(limit.Seconds()))}
	if race {
		args = append(args, "-race")
	}
	for _, p := range keys(pkgs) {
		args = append(args, p)
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "VERIF_SEED="+seed, "VERIF_TIER="+tier, "VERIF_REPORT="+rd, "TMPDIR="+scratch, "GOTMPDIR="+scratch, "VERIF_REPO="+repo)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	if err := cmd.Start(); err != nil {
		res.Err = err.Error()
		return res
	}
	kill := time.AfterFunc(limit+30*time.Second, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	err = cmd.Wait()
	kill.Stop()
	res.Output = trunc(buf.String(), 12000)
	reps, _ := filepath.Glob(filepath.Join(rd, "*.json"))
	sort.Strings(reps)
	for _, f := range reps {
		var r hreport
		b, _ := os.ReadFile(f)
		if json.Unmarshal(b, &r) == nil {
			res.Reports = append(res.Reports, &r)
			if r.Failed && (res.Fail == nil || res.Fail.Input == "") {
				res.Fail = &r
			}
		}
	}
	if err != nil && (res.Fail == nil || res.Fail.Input == "") {
		// the test process died: the current input is the failing one
		cur, _ := filepath.Glob(filepath.Join(rd, "*.current"))
		built := !strings.Contains(res.Output, "[build failed]") && !strings.Contains(res.Output, "[setup failed]") && !strings.Contains(res.Output, "cannot find")
		if len(cur) > 0 && built {
			newest, at := "", time.Time{}
			for _, c := range cur {
				if fi, e := os.Stat(c); e == nil && fi.ModTime().After(at) {
					newest, at = c, fi.ModTime()
				}
			}
			b, _ := os.ReadFile(newest)
			res.Fail = &hreport{Test: strings.TrimSuffix(filepath.Base(newest), ".current"), Failed: true, Input: string(b), Message: "the test process stopped: " + res.Output, Case: -1}
		} else if res.Fail == nil {
			res.Err = "the generated-input tests could not run: " + trunc(res.Output, 3000)
		}
	}
	if err == nil && len(res.Reports) == 0 {
		res.Err = "no generated-input test ran"
	}
	return res
}

func runCheck(repo, verif, id string, limit time.Duration, par int) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seedS := os.Getenv("VERIF_SEED")
	seed, err := strconv.Atoi(seedS)
	if err != nil {
		seed, seedS = 1, "1"
	}
	hlimit := 200 * time.Second
	if tier == "thorough" {
		hlimit = 600 * time.Second
	}
	hc := make(chan *harnessResult, 1)
	endProofs(600 * time.Second)
	if tier == "thorough" {
		proofsEnd.Store(0)
	}
	go func() {
		h := runHarness(repo, verif, id, tier, seedS, hlimit)
		if h.Fail != nil {
			endProofs(60 * time.Second) // the verdict is known
		}
		hc <- h
	}()

	var rep *propReport
	var loadErr string
	db, err := loadSpecs(filepath.Join(verif, "specs"))
	if err != nil {
		fmt.Println("specification error:", err)
		<-hc
		return 3
	}
	p, err := loadProg(repo, "github.com/squizzling/osmindex")
	if err != nil {
		loadErr = err.Error()
		rep = &propReport{Property: id}
	} else {
		rep = runProp(p, db, id, limit, par, tier == "thorough", seed)
	}
	h := <-hc

	fmt.Printf("%s: %d of %d obligations discharged (%d instances; %d functions, %d lemmas, %d definitions), solver %d ms in %d queries\n", id, rep.Discharged, rep.Obligations, rep.Instances, len(rep.Functions), len(rep.Lemmas), rep.Definitions, rep.SolverMs, rep.Queries)
	evals, dist := 0, 0
	var samples, rules []string
	for _, r := range h.Reports {
		evals += r.Evaluations
		dist += r.Distinct
		rules = append(rules, r.Test+": "+r.Rule)
		for i, s := range r.Samples {
			if i < 2 {
				samples = append(samples, r.Test+": "+trunc(s, 200))
			}
		}
	}
	fmt.Printf("%s: %d generated inputs run against the real code in %d ms\n", id, evals, h.WallMs)
	violation := ""
	replay := filepath.Join(verif, "evidence", "replay-"+id+".json")
	os.Remove(replay)
	switch {
	case loadErr != "":
		fmt.Println("the program cannot be loaded:", loadErr)
		return 3
	case h.Fail != nil:
		violation = fmt.Sprintf("VIOLATION property=%s replay=%s", id, replay)
		writeJSON(replay, map[string]interface{}{"property": id, "kind": "failing input", "test": h.Fail.Test, "input": h.Fail.Input, "message": trunc(h.Fail.Message, 6000), "seed": seed, "case": h.Fail.Case,
			"failed_obligations": rep.Failed, "rerun": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s VERIF_CASE=%d %s/check.sh %s", seed, tier, h.Fail.Case, verif, id)})
		fmt.Printf("failing input (%s): %s\n%s\n", h.Fail.Test, trunc(h.Fail.Input, 1500), trunc(h.Fail.Message, 2500))
	case len(rep.Failed) > 0 || rep.Obligations == 0 || h.Err != "":
		violation = fmt.Sprintf("VIOLATION property=%s replay=%s no-failing-input-found", id, replay)
		if rep.Obligations == 0 {
			rep.Failed = append(rep.Failed, failReport{id, "obligations exist", "no obligation was generated", nil})
		}
		if h.Err != "" {
			rep.Failed = append(rep.Failed, failReport{id, "the generated-input tests run", h.Err, nil})
		}
		writeJSON(replay, map[string]interface{}{"property": id, "kind": "failed obligation", "failed_obligations": rep.Failed, "generated_inputs_tried": evals})
	}
	for _, f := range rep.Failed {
		fmt.Printf("FAILED %s: %s: %s\n", f.Where, f.Obligation, trunc(f.Message, 600))
	}

	trusted := append([]string{"govc (this verifier: Go SSA construction by golang.org/x/tools, symbolic execution, rope procedure)", "z3 5.3.2 (z3-new), fallback cvc5 1.1.2 and z3 4.8.12"}, rep.Trusted...)
	fns := rep.Functions
	cov := map[string]interface{}{
		"obligations": rep.Obligations, "discharged": rep.Discharged, "obligation_instances": rep.Instances,
		"checker_cmd":                   fmt.Sprintf("%s/check.sh %s", verif, id),
		"trusted_base":                  trusted,
		"functions_under_contract":      fns,
		"lemmas":                        rep.Lemmas,
		"recursive_definitions_checked": rep.Definitions,
		"roots":                         rep.Roots,
		"absent_helpers":                rep.Absent,
		"inlined_functions":             rep.Inlined,
		"solver_ms":                     rep.SolverMs, "solver_queries": rep.Queries,
		"self_test": rep.SelfTest,
		"bounded_concrete_runs": map[string]interface{}{"note": "generated inputs run against the real code: replay of failed obligations and bounded stand-in for code outside the verifier's reach; never counted as proved",
			"evaluations": evals, "distinct_nontrivial": dist, "rules": rules, "samples": samples, "wall_ms": h.WallMs},
		"failed": rep.Failed,
	}
	nv := 0
	if violation != "" {
		nv = 1
	}
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": levelOf(verif, id), "coverage": cov, "assumptions": rep.Assumptions, "wall_s": time.Since(t0).Seconds(), "violations": nv}
	epath := filepath.Join(verif, "evidence", id+".json")
	writeJSON(epath, ev)
	if fi, e := os.Stat(epath); e == nil && fi.Size() > 60000 {
		cov["functions_under_contract"] = len(fns)
		cov["lemmas"] = len(rep.Lemmas)
		cov["function_names"] = nameList(fns)
		writeJSON(epath, ev)
	}
	if violation != "" {
		fmt.Println(violation)
		return 1
	}
	fmt.Println("OK", id)
	return 0
}

func nameList(fs []fnReport) []string {
	var out []string
	for _, f := range fs {
		out = append(out, f.Name)
	}
	return out
}

// levelOf is the level the manifest claims for a property.
func levelOf(verif, id string) string {
	var m struct {
		Checks []struct{ Property, Level string }
	}
	if b, e := os.ReadFile(filepath.Join(verif, "MANIFEST.json")); e == nil && json.Unmarshal(b, &m) == nil {
		for _, c := range m.Checks {
			if c.Property == id {
				return c.Level
			}
		}
	}
	return "proof"
}
