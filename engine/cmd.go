package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"
)

func realMain() {
	debug.SetGCPercent(700)
	debug.SetMemoryLimit(16 << 30)
	if len(os.Args) > 1 && os.Args[1] == "check" {
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		var o checkOpts
		fs.StringVar(&o.repo, "repo", "/repo", "")
		fs.StringVar(&o.verif, "verif", "/verif", "")
		fs.StringVar(&o.prop, "prop", "", "")
		fs.StringVar(&o.tier, "tier", "quick", "")
		fs.IntVar(&o.seed, "seed", 1, "")
		fs.IntVar(&o.workers, "j", runtime.NumCPU(), "")
		fs.StringVar(&o.only, "only", "", "")
		fs.BoolVar(&o.verbose, "v", false, "")
		fs.BoolVar(&o.noReplay, "noreplay", false, "")
		rep := fs.String("replay", "", "")
		fs.Parse(os.Args[2:])
		if *rep != "" {
			os.Exit(replayFile(o, *rep))
		}
		os.Exit(runCheck(o))
	}
	repo := flag.String("repo", "/repo", "")
	harness := flag.String("harness", "/verif/harness", "")
	pkgs := flag.String("pkgs", "t", "")
	run := flag.String("run", "", "")
	timeout := flag.Duration("timeout", 60*time.Second, "")
	workers := flag.Int("j", 8, "")
	all := flag.Bool("all", false, "keep going after a violation")
	cfgs := flag.String("cfg", "", "name=value,...")
	prof := flag.String("prof", "", "")
	mir := flag.String("mirror", "", "")
	flag.Parse()
	if *mir != "" {
		fmt.Print(genMirror(*mir, flag.Arg(0), flag.Arg(1)))
		return
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	cfg := map[string]int64{}
	for _, kv := range strings.Split(*cfgs, ",") {
		var v int64
		if k, x, ok := strings.Cut(kv, "="); ok {
			fmt.Sscan(x, &v)
			cfg[k] = v
		}
	}
	t0 := time.Now()
	p, err := Load(*repo, *harness, strings.Split(*pkgs, ","))
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Println("load", time.Since(t0))
	for _, pk := range strings.Split(*pkgs, ",") {
		for _, h := range p.harnesses(pk) {
			if *run != "" && !strings.Contains(h.Name(), *run) {
				continue
			}
			t1 := time.Now()
			e := p.Explore(h.Name(), h, Options{Workers: *workers, MaxSteps: 50000000, Timeout: *timeout, SolverBin: "z3-new", SolverArgs: []string{"-in"}, StopFirst: !*all, MaxViol: 10, Trace: true, Config: cfg})
			fmt.Printf("%s: paths %d ok %d assumed %d steps %d q %d (sat %d unsat %d unk %d) solver %v asserts %d triv %d aq %d trunc %v in %v\n", h.Name(), e.Paths, e.Completed, e.Assumed, e.Steps, e.Queries, e.NSat, e.NUnsat, e.NUnknown, e.SolverTime, e.Asserts, e.AssertTriv, e.AssertQ, e.Truncated, time.Since(t1))
			for k, n := range e.Incomplete {
				fmt.Println("  INCOMPLETE", n, k)
			}
			for _, v := range e.Violations {
				fmt.Println("  VIOL", v.Kind, v.Msg, v.Notes)
				for i, o := range v.Order {
					if i > 60 {
						break
					}
					fmt.Printf(" %s=%d", o, v.Values[o])
				}
				fmt.Println()
				for _, s := range v.Sched {
					fmt.Println("    ", s)
				}
			}
			fmt.Println("  covers", e.Covers, e.SolverErrs)
		}
	}
}
