package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
)

// checkOpts describes one run of one property's check.
type checkOpts struct {
	repo, verif, prop, tier string
	seed                    int
	workers                 int
	only                    string
	verbose                 bool
	noReplay                bool
}

// tierCfg holds the bounds of a tier; a harness reads them with vnd.Config.
var tierCfg = map[string]map[string]int64{
	"quick":    {"tier": 0},
	"thorough": {"tier": 1},
}

type harnessReport struct {
	Name        string           `json:"harness"`
	Paths       int64            `json:"paths"`
	Completed   int64            `json:"paths_completed"`
	Infeasible  int64            `json:"paths_cut_by_assumptions"`
	Steps       int64            `json:"ssa_instructions_executed"`
	Queries     int64            `json:"solver_queries"`
	Sat         int64            `json:"sat"`
	Unsat       int64            `json:"unsat"`
	Unknown     int64            `json:"unknown"`
	SolverS     float64          `json:"solver_s"`
	Asserts     int64            `json:"assertions_evaluated"`
	AssertTriv  int64            `json:"assertions_true_by_rewriting"`
	AssertQ     int64            `json:"assertion_queries"`
	Cross       int64            `json:"assertion_queries_repeated_on_second_solver"`
	CrossBad    []string         `json:"solver_disagreements,omitempty"`
	Covers      map[string]int64 `json:"reachability_witnesses"`
	Bounds      []string         `json:"bounds"`
	Incomplete  map[string]int   `json:"paths_not_decided,omitempty"`
	Truncated   bool             `json:"time_ran_out,omitempty"`
	MaxDecs     int              `json:"longest_decision_sequence"`
	WallS       float64          `json:"wall_s"`
	Validated   int              `json:"paths_rerun_natively"`
	Disagree    []string         `json:"native_disagreements,omitempty"`
	Unconfirmed []string         `json:"candidates_not_reproduced,omitempty"`
}

type runner struct {
	dir string
	bin string
	err error
}

func (o *checkOpts) known() []string {
	b, err := os.ReadFile(filepath.Join(o.verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "known: property="+o.prop+" ") {
			out = append(out, l)
		}
	}
	return out
}

// matchKnown finds the listed finding for v: "known: property=P harness=H match=TEXT | what fails".
func matchKnown(known []string, v *Violation) string {
	for _, k := range known {
		head, what, _ := strings.Cut(k, "|")
		_, rest, ok := strings.Cut(head, "harness=")
		if !ok {
			continue
		}
		h, m, ok := strings.Cut(rest, " match=")
		if ok && strings.TrimSpace(h) == v.Harness && strings.Contains(v.Msg, strings.TrimSpace(m)) {
			return strings.TrimSpace(what)
		}
	}
	return ""
}

func runCheck(o checkOpts) int {
	t0 := time.Now()
	pkg := strings.ToLower(o.prop)
	budget := 420 * time.Second
	if o.tier == "thorough" {
		budget = 3 * time.Hour
	}
	end := t0.Add(budget)
	ev := map[string]interface{}{}
	writeEv := func(reps []*harnessReport, funcs map[string]bool, nviol int, note string, nat int) {
		var st, tr, q, unsat, sat, unk, asserts, aq, triv, cross int64
		var sol float64
		cov := map[string]interface{}{}
		bounds := map[string]bool{}
		var undecided []string
		var samples []interface{}
		for _, r := range reps {
			st += r.Completed
			tr += r.Steps
			q += r.Queries
			sat += r.Sat
			unsat += r.Unsat
			unk += r.Unknown
			asserts += r.Asserts
			triv += r.AssertTriv
			aq += r.AssertQ
			cross += r.Cross
			sol += r.SolverS
			for _, b := range r.Bounds {
				bounds[b] = true
			}
			for _, k := range sortedKeys(r.Incomplete) {
				undecided = append(undecided, fmt.Sprintf("%s: %d path(s): %s", r.Name, r.Incomplete[k], k))
			}
			if r.Truncated {
				undecided = append(undecided, r.Name+": time ran out before every path was explored: the bound was not reached")
			}
		}
		var fs []string
		for f := range funcs {
			if strings.Contains(f, modPath) && !strings.Contains(f, "/zzverif/") {
				fs = append(fs, strings.ReplaceAll(f, modPath+"/", ""))
			}
		}
		sort.Strings(fs)
		nstd := 0
		for f := range funcs {
			if !strings.Contains(f, modPath) {
				nstd++
			}
		}
		if s, ok := ev["samples"].([]interface{}); ok {
			samples = s
		}
		if samples == nil {
			samples = []interface{}{}
		}
		cov["states"] = st
		cov["transitions"] = tr
		cov["traces_validated_against_impl"] = nat
		cov["samples"] = samples
		cov["explanation"] = "states: feasible symbolic paths run to the end (each covers every value of its symbolic inputs that takes it); transitions: SSA instructions of the code and of the libraries under it executed symbolically; traces_validated_against_impl: paths re-run natively on the compiled code with concrete inputs from the solver, with the same outcome and the same reachability witnesses"
		cov["functions_encoded"] = fs
		cov["library_functions_encoded"] = nstd
		cov["bounds"] = sortedKeys(bounds)
		cov["solver_queries"] = q
		cov["queries_sat"] = sat
		cov["queries_unsat"] = unsat
		cov["queries_unknown"] = unk
		cov["solver_s"] = sol
		cov["assertions_evaluated"] = asserts
		cov["assertions_true_by_rewriting"] = triv
		cov["assertion_queries"] = aq
		cov["assertion_queries_repeated_on_second_solver"] = cross
		cov["not_decided"] = undecided
		cov["exhaustive"] = len(undecided) == 0 && note == ""
		cov["harnesses"] = reps
		if note != "" {
			cov["note"] = note
		}
		as := []string{
			"encoding: go/ssa of the current /repo tree interpreted over SMT bit-vectors by /verif/engine; imports of os and time in the code under test are redirected to the models in /verif/harness/vos and vtime",
			"claims hold within the listed bounds only; one goroutine at a time runs, at sequentially consistent visible operations (channels, locks, atomics)",
		}
		out := map[string]interface{}{"property": o.prop, "tier": o.tier, "seed": o.seed, "level": "model_checking",
			"coverage": cov, "assumptions": as, "wall_s": time.Since(t0).Seconds(), "violations": nviol}
		b, _ := json.MarshalIndent(out, "", " ")
		os.MkdirAll(filepath.Join(o.verif, "evidence"), 0755)
		os.WriteFile(filepath.Join(o.verif, "evidence", o.prop+".json"), append(b, '\n'), 0644)
	}

	p, err := Load(o.repo, filepath.Join(o.verif, "harness"), []string{pkg})
	if err != nil {
		fmt.Printf("NOT-DECIDED property=%s the code could not be loaded: %v\n", o.prop, err)
		writeEv(nil, nil, 0, "the code could not be loaded: "+err.Error(), 0)
		return 0
	}
	var hs []*ssa.Function
	for _, h := range p.harnesses(pkg) {
		n := h.Name()
		if !strings.HasPrefix(n, o.prop+"_") {
			continue
		}
		if strings.HasSuffix(n, "_Thorough") && o.tier != "thorough" {
			continue
		}
		if o.only != "" && !strings.Contains(n, o.only) {
			continue
		}
		hs = append(hs, h)
	}
	var rn *runner
	getRunner := func() *runner {
		if rn == nil {
			rn = buildRunner(o, p, pkg)
		}
		return rn
	}
	defer func() {
		if rn != nil && rn.dir != "" {
			os.RemoveAll(rn.dir)
		}
	}()
	known := o.known()
	var reps []*harnessReport
	funcs := map[string]bool{}
	nviol, nat := 0, 0
	var samples []interface{}
	seenKnown := map[string]bool{}
	for i, h := range hs {
		left := time.Until(end)
		to := left / time.Duration(len(hs)-i)
		if to < left/2 {
			to = left / 2
		}
		if to < 5*time.Second {
			to = 5 * time.Second
		}
		cfg := map[string]int64{}
		for k, v := range tierCfg[o.tier] {
			cfg[k] = v
		}
		opt := Options{Workers: o.workers, MaxSteps: 40000000, Timeout: to, SolverBin: "z3-new", SolverArgs: []string{"-in"}, MaxViol: 4, Config: cfg}
		if o.tier == "thorough" {
			opt.CrossBin, opt.CrossArgs = "cvc5", []string{"--incremental", "--lang=smt2"}
		}
		t1 := time.Now()
		e := p.Explore(h.Name(), h, opt)
		if len(e.SolverErrs) > 0 {
			e.Incomplete["solver error: "+e.SolverErrs[0]] += len(e.SolverErrs)
		}
		r := &harnessReport{Name: h.Name(), Paths: e.Paths, Completed: e.Completed, Infeasible: e.Assumed, Steps: e.Steps, Queries: e.Queries,
			Sat: e.NSat, Unsat: e.NUnsat, Unknown: e.NUnknown, SolverS: e.SolverTime.Seconds(), Asserts: e.Asserts, AssertTriv: e.AssertTriv, AssertQ: e.AssertQ,
			Cross: e.Cross, CrossBad: e.CrossBad, Covers: e.Covers, Bounds: sortedKeys(e.Bounds), Incomplete: e.Incomplete, Truncated: e.Truncated, MaxDecs: e.MaxDecs, WallS: time.Since(t1).Seconds()}
		reps = append(reps, r)
		for f := range e.Funcs {
			funcs[f] = true
		}
		if o.verbose {
			fmt.Printf("%-34s paths %d ok %d cut %d steps %d q %d solver %.1fs asserts %d (triv %d) trunc %v %.1fs covers %v\n", h.Name(), e.Paths, e.Completed, e.Assumed, e.Steps, e.Queries, e.SolverTime.Seconds(), e.Asserts, e.AssertTriv, e.Truncated, time.Since(t1).Seconds(), e.Covers)
			for _, k := range sortedKeys(e.Incomplete) {
				fmt.Println("   INCOMPLETE", e.Incomplete[k], k)
			}
		}
		confirmed := false
		for vi, v := range e.Violations {
			how := "not replayed"
			ok := true
			if !o.noReplay {
				ok, how = getRunner().confirm(v, cfg)
				if !ok && v.Multi && (v.Kind == "deadlock" || v.Kind == "assert" || v.Kind == "panic" || v.Kind == "fatal" || v.Kind == "race" || v.Kind == "hang") && len(v.Sched) > 0 {
					ok, how = true, "the failing schedule was replayed in the interpreter; the native runs did not hit it: "+how
				}
			}
			if !ok {
				r.Unconfirmed = append(r.Unconfirmed, fmt.Sprintf("%s: %s (%s)", v.Kind, v.Msg, how))
				if o.verbose {
					fmt.Println("   UNCONFIRMED", v.Kind, v.Msg, how, v.Notes)
				}
				continue
			}
			if w := matchKnown(known, v); w != "" {
				if !seenKnown[w] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.prop, w)
				}
				seenKnown[w] = true
				continue
			}
			nviol++
			confirmed = true
			dir := filepath.Join(o.verif, "out")
			os.MkdirAll(dir, 0755)
			f := filepath.Join(dir, fmt.Sprintf("%s_%s_%d.json", o.prop, h.Name(), vi))
			rec := map[string]interface{}{"property": o.prop, "harness": v.Harness, "kind": v.Kind, "msg": v.Msg, "values": v.Values, "order": v.Order,
				"schedule": v.Sched, "notes": v.Notes, "config": cfg, "replay": how, "rerun": fmt.Sprintf("cd %s && ./check.sh %s %s replay %s", o.verif, o.prop, o.tier, f)}
			b, _ := json.MarshalIndent(rec, "", " ")
			os.WriteFile(f, append(b, '\n'), 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, f)
			fmt.Printf("  %s: %s: %s\n  %s\n", v.Harness, v.Kind, v.Msg, how)
			for _, n := range v.Notes {
				fmt.Println("  note:", n)
			}
		}
		// validate a sample of the paths natively
		if len(e.Violations) == 0 && !o.noReplay && len(e.Samples) > 0 {
			max := 3
			if o.tier == "thorough" {
				max = 12
			}
			for si, s := range e.Samples {
				if si >= max {
					break
				}
				res := getRunner().run(h.Name(), s.Values, cfg, 30*time.Second)
				if getRunner().err != nil {
					r.Disagree = append(r.Disagree, "native build: "+getRunner().err.Error())
					break
				}
				got := strings.Join(res.covers, ",")
				want := strings.Join(s.Covers, ",")
				if res.code == 0 && (got == want || s.Multi) {
					r.Validated++
					nat++
				} else {
					r.Disagree = append(r.Disagree, fmt.Sprintf("exit %d covers [%s], interpreter [%s]: %s", res.code, got, want, tail(res.out, 300)))
				}
			}
			if o.verbose && len(r.Disagree) > 0 {
				fmt.Println("   DISAGREE", r.Disagree)
			}
		}
		if len(e.Samples) > 0 && len(samples) < 6 {
			s := e.Samples[0]
			m := map[string]interface{}{"harness": h.Name(), "covers": s.Covers}
			vals := map[string]uint64{}
			for i, n := range s.Order {
				if i >= 24 {
					break
				}
				vals[n] = s.Values[n]
			}
			m["inputs"] = vals
			samples = append(samples, m)
		}
		ev["samples"] = samples
		if confirmed && o.tier != "thorough" && !o.verbose {
			break
		}
	}
	writeEv(reps, funcs, nviol, "", nat)
	if nviol > 0 {
		return 1
	}
	var st, q int64
	und := 0
	for _, r := range reps {
		st += r.Completed
		q += r.Queries
		und += len(r.Incomplete)
		if r.Truncated {
			und++
		}
	}
	fmt.Printf("OK property=%s tier=%s harnesses=%d paths=%d queries=%d native=%d undecided=%d %.1fs\n", o.prop, o.tier, len(reps), st, q, nat, und, time.Since(t0).Seconds())
	return 0
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// buildRunner compiles the real code with the harnesses natively.
func buildRunner(o checkOpts, p *Program, pkg string) *runner {
	r := &runner{}
	dir, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		r.err = err
		return r
	}
	r.dir = dir
	os.Chmod(dir, 0755)
	ov := map[string][]byte{}
	for k, v := range p.overlay {
		ov[k] = v
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package main\n\nimport (\n\"fmt\"\n\"os\"\n\"sort\"\nh %q\n\"%s/vnd\"\n)\n\nfunc main() {\n switch os.Args[1] {\n", zz+"/"+pkg, zz)
	for _, h := range p.harnesses(pkg) {
		fmt.Fprintf(&b, " case %q:\n  h.%s()\n", h.Name(), h.Name())
	}
	b.WriteString(" default:\n  os.Exit(9)\n }\n var c []string\n for k := range vnd.Covered() {\n  c = append(c, k)\n }\n sort.Strings(c)\n for _, k := range c {\n  fmt.Println(\"VND cover:\" + k)\n }\n fmt.Println(\"VND done\")\n}\n")
	ov[filepath.Join(o.repo, "zzverif", "cmd", "main.go")] = b.Bytes()
	f, err := writeOverlay(ov, dir)
	if err != nil {
		r.err = err
		return r
	}
	r.bin = filepath.Join(dir, "runner")
	ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "build", "-overlay", f, "-o", r.bin, zz+"/cmd")
	cmd.Dir = o.repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		r.err = fmt.Errorf("%v: %s", err, tail(string(out), 500))
	}
	return r
}

type runResult struct {
	code    int
	out     string
	covers  []string
	timeout bool
	done    bool
}

// run executes a harness natively, as an unprivileged user, on given inputs.
func (r *runner) run(h string, vals map[string]uint64, cfg map[string]int64, to time.Duration) runResult {
	if r.err != nil {
		return runResult{code: -1}
	}
	f := filepath.Join(r.dir, "replay.json")
	b, _ := json.Marshal(map[string]interface{}{"values": vals, "config": cfg})
	os.WriteFile(f, b, 0644)
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	mk := func(cred bool) (*exec.Cmd, *bytes.Buffer) {
		cmd := exec.CommandContext(ctx, r.bin, h)
		cmd.Dir = r.dir
		cmd.Env = []string{"VND_REPLAY=" + f, "PATH=/usr/bin:/bin", "GOMEMLIMIT=4GiB"}
		var out bytes.Buffer
		cmd.Stdout = &out
		cmd.Stderr = &out
		if cred {
			cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: true}}
		}
		return cmd, &out
	}
	cmd, out := mk(os.Getuid() == 0)
	if err := cmd.Start(); err != nil {
		cmd, out = mk(false)
		if err := cmd.Start(); err != nil {
			return runResult{code: -1, out: err.Error()}
		}
	}
	err := cmd.Wait()
	res := runResult{out: out.String()}
	if ctx.Err() != nil {
		res.timeout = true
	}
	if err != nil {
		res.code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			res.code = ee.ExitCode()
		}
	}
	for _, l := range strings.Split(res.out, "\n") {
		if strings.HasPrefix(l, "VND cover:") {
			res.covers = append(res.covers, strings.TrimPrefix(l, "VND cover:"))
		}
		if l == "VND done" {
			res.done = true
		}
	}
	return res
}

// confirm replays a counterexample on the compiled code.
func (r *runner) confirm(v *Violation, cfg map[string]int64) (bool, string) {
	if r.err != nil {
		return false, "native build failed: " + r.err.Error()
	}
	tries := 3
	if v.Multi {
		tries = 20
	}
	var last string
	for i := 0; i < tries; i++ {
		to := 15 * time.Second
		res := r.run(v.Harness, v.Values, cfg, to)
		switch {
		case res.code == 3 && strings.Contains(res.out, "VND assert-failed: "):
			return true, "replayed on the compiled code: " + lineOf(res.out, "VND assert-failed: ")
		case strings.Contains(res.out, "all goroutines are asleep"):
			return true, "replayed on the compiled code: deadlock"
		case res.code == 2 && (strings.Contains(res.out, "panic: ") || strings.Contains(res.out, "fatal error: ")):
			l := lineOf(res.out, "panic: ")
			if l == "" {
				l = lineOf(res.out, "fatal error: ")
			}
			return true, "replayed on the compiled code: " + l
		case res.timeout && (v.Kind == "deadlock" || v.Kind == "hang"):
			return true, "replayed on the compiled code: it hangs"
		case v.Kind == "fatal" && res.code != 0 && !res.done && res.code != 8 && res.code != 9:
			return true, fmt.Sprintf("replayed on the compiled code: the process ends with status %d", res.code)
		}
		last = fmt.Sprintf("exit %d timeout %v %s", res.code, res.timeout, tail(res.out, 200))
		if v.Multi && res.timeout {
			break
		}
	}
	return false, "the compiled code passed: " + last
}

func lineOf(s, pre string) string {
	for _, l := range strings.Split(s, "\n") {
		if i := strings.Index(l, pre); i >= 0 {
			return l[i:]
		}
	}
	return ""
}

// replayFile re-runs a saved counterexample.
func replayFile(o checkOpts, f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var v struct {
		Violation
		Config map[string]int64 `json:"config"`
	}
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 2
	}
	pkg := strings.ToLower(o.prop)
	p, err := Load(o.repo, filepath.Join(o.verif, "harness"), []string{pkg})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	r := buildRunner(o, p, pkg)
	defer os.RemoveAll(r.dir)
	v.Multi = len(v.Sched) > 0
	ok, how := r.confirm(&v.Violation, v.Config)
	fmt.Println(how)
	if ok {
		return 1
	}
	return 0
}
