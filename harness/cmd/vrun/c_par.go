package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"

	"vh/proto"
)

func init() {
	checks["C06"] = &Check{Fn: c06, Rule: "wide graphs installed with every source of the thread setting, R process lifetimes overlapped; loads likewise; non-trivial: more packages ready than workers; distinct by setting, plan and observed order"}
	checks["C07"] = &Check{Fn: c07, Race: true, Rule: "every command run by a race-detector build of pkgr over generated configurations with delays, failures, slow and broken servers; non-trivial: at least two R processes or two requests overlapped; distinct by plan and observed order of events"}
	checks["C26"] = &Check{Fn: c26, Rule: "load --json over generated libraries with scripted load results, outputs and delays; non-trivial: at least two packages loaded; distinct by packages and scripted results"}
	checks["C29"] = &Check{Fn: c29, Rule: "2-4 pkgr installs at once with a common cache, different libraries and configurations, slow servers; every library compared with the reference model, then one more run; non-trivial: at least two runs overlapped; distinct by configurations and order of R processes"}
}

// workers is the documented number of workers.
func workers(set, cpus int) int {
	if set > 0 {
		return set
	}
	return min(cpus, 8)
}

func c06(x *Ctx) {
	wide := GenOpt{MinP: 14, MaxP: 24, Repos: 2, Bin: true, Wide: true, Tar: 1, Pre: 0.1}
	setting := func(c *Case, sc *Scenario) (want int, args []string, env map[string]string) {
		env = map[string]string{}
		cpus := pick(c.R, []int{1, 2, 3, 4, 6, 8, 9, 12, 16})
		env["GOMAXPROCS"] = fmt.Sprint(cpus)
		sc.Threads = 0
		set := 0
		switch c.R.Intn(5) {
		case 0:
		case 1:
			sc.Threads = 1 + c.R.Intn(6)
			set = sc.Threads
		case 2:
			set = 1 + c.R.Intn(6)
			args = []string{"--threads", fmt.Sprint(set)}
		case 3: // the flag wins
			sc.Threads = 1 + c.R.Intn(12)
			set = 1 + c.R.Intn(6)
			args = []string{fmt.Sprintf("--threads=%d", set)}
		case 4:
			sc.Threads = pick(c.R, []int{1, 9, 10, 14})
			set = sc.Threads
		}
		return workers(set, cpus), args, env
	}
	install := func(c *Case, o GenOpt, cached bool) {
		sc := Gen(c.R, o)
		pl := sc.Plan()
		want, args, env := setting(c, sc)
		sc.Ctl.DelayMs = map[string]int{"*": 25 + c.R.Intn(40)}
		if c.R.Intn(3) == 0 {
			sc.Ctl.Fail = map[string]string{}
			for n := range pl.Nodes {
				if c.R.Intn(8) == 0 {
					sc.Ctl.Fail[n+"/bin"] = "clean"
				}
			}
		}
		w := c.World(sc)
		if cached && !c.warm(w, "C06/") {
			return
		}
		out := w.PkgrOpt(RunOpt{Env: env}, append(args, "install")...)
		if !c.finished(w, out, "C06/") {
			return
		}
		ps := installs(out.Events)
		m := maxOverlap(ps)
		if m > want {
			c.Fail(w, "C06/install", "%d R install processes at once, the worker count is %d (Threads %d, args %v, GOMAXPROCS %s)", m, want, sc.Threads, args, env["GOMAXPROCS"])
		}
		c.Count("install_processes", len(ps))
		c.Max("max_parallel", m)
		if m == want {
			c.Count("runs_reaching_the_limit", 1)
		}
		if len(ps) > want {
			c.Distinct(fmt.Sprint(want, args, sc.Threads) + orderSig(out))
		}
		if c.I < 3 {
			c.Sample(map[string]any{"workers": want, "args": args, "threads": sc.Threads, "gomaxprocs": env["GOMAXPROCS"], "max_overlap": m, "processes": len(ps)})
		}
	}
	x.Cases("install", x.N(60, 600), 5, func(c *Case) { install(c, wide, false) })
	// far more packages ready at once than workers
	x.Cases("crowd", x.N(6, 60), 4, func(c *Case) {
		sc := &Scenario{Ctl: proto.Control{RVersion: "4.3.1", Platform: defPlatform}, Repos: []Repo{{Name: "CRAN"}}}
		for i := 0; i < 40+c.R.Intn(80); i++ {
			n := fmt.Sprintf("crowd%d", i)
			sc.Repos[0].Src = append(sc.Repos[0].Src, Pkg{Name: n, Version: "1.2"})
			sc.Packages = append(sc.Packages, n)
		}
		pl := sc.Plan()
		want, args, env := setting(c, sc)
		sc.Ctl.DelayMs = map[string]int{"*": 10 + c.R.Intn(10)}
		w := c.World(sc)
		out := w.PkgrOpt(RunOpt{Env: env}, append(args, "install")...)
		if !c.finished(w, out, "C06/") {
			return
		}
		ps := installs(out.Events)
		m := maxOverlap(ps)
		if m > want {
			c.Fail(w, "C06/install", "%d R install processes at once, the worker count is %d (Threads %d, args %v, GOMAXPROCS %s), %d packages", m, want, sc.Threads, args, env["GOMAXPROCS"], len(pl.Nodes))
		}
		if bad := w.checkLib(sc.Expect(pl, nil, false), Snap{}); len(bad) > 0 {
			c.Fail(w, "C06/crowd", "%s", strings.Join(bad, "\n"))
		}
		c.Count("install_processes", len(ps))
		c.Max("max_parallel", m)
		c.Max("crowd", len(pl.Nodes))
		if m == want {
			c.Count("runs_reaching_the_limit", 1)
		}
		c.Distinct(fmt.Sprint("crowd", want, args, sc.Threads) + orderSig(out))
	})
	x.Cases("cached", x.N(16, 160), 5, func(c *Case) { o := wide; o.Tar = 0; install(c, o, true) })
	x.Cases("load", x.N(40, 400), 5, func(c *Case) {
		o := wide
		o.Tar, o.Pre = 0, 0
		sc := Gen(c.R, o)
		pl := sc.Plan()
		for _, n := range proto.SortedKeys(pl.Nodes) {
			sc.Pre = append(sc.Pre, Pkg{Name: n, Version: pl.Nodes[n].Pkg.Version})
		}
		sc.NoLib = false
		want, args, env := setting(c, sc)
		sc.Ctl.LoadDelay = 15 + c.R.Intn(25)
		if c.R.Intn(3) > 0 { // some packages cannot be loaded
			sc.Ctl.Load = map[string]proto.LoadC{}
			for n := range pl.Nodes {
				if c.R.Intn(3) == 0 {
					sc.Ctl.Load[n] = proto.LoadC{Exit: pick(c.R, []int{1, 2, -9}), Stderr: "Error: no\n"}
				}
			}
		}
		w := c.World(sc)
		sc.Ctl.DefLibs = []string{w.Lib()}
		w.WriteCtl()
		args = append(args, "load", "--all", "--json")
		out := w.PkgrOpt(RunOpt{Env: env}, args...)
		if !c.finished(w, out, "C06/") {
			return
		}
		var ps []*proc
		for _, p := range procs(out.Events) {
			if p.S.Kind == "expr" {
				ps = append(ps, p)
			}
		}
		m := maxOverlap(ps)
		if m > 2*want {
			c.Fail(w, "C06/load", "%d R sessions at once, twice the worker count is %d (Threads %d, args %v, GOMAXPROCS %s)", m, 2*want, sc.Threads, args, env["GOMAXPROCS"])
		}
		rep, err := loadReport(out)
		if err != nil || len(rep.LoadResults) != len(pl.Nodes) {
			c.Fail(w, "C06/load-complete", "load does not complete with Threads %d, args %v: %v, %d of %d packages, exit %d\n%s", sc.Threads, args, err, len(rep.LoadResults), len(pl.Nodes), out.Exit, tailStr(out.Stderr, 1500))
		}
		c.Count("load_sessions", len(ps))
		c.Max("max_parallel_load", m)
		if len(pl.Nodes) > 2*want {
			c.Distinct(fmt.Sprint("load", want, args, sc.Threads, env, len(pl.Nodes)))
		}
	})
	// thread settings that are no positive number
	odd := []struct {
		yml  int
		args []string
	}{{0, nil}, {-1, nil}, {0, []string{"--threads", "-3"}}, {0, []string{"--threads", "0"}}, {-8, nil}}
	x.Cases("odd", len(odd)*x.N(2, 8), 5, func(c *Case) {
		s := odd[c.I%len(odd)]
		o := wide
		o.Tar, o.Pre, o.MinP, o.MaxP = 0, 0, 10, 12
		sc := Gen(c.R, o)
		sc.Threads = s.yml
		pl := sc.Plan()
		cpus := pick(c.R, []int{1, 3, 8, 16})
		env := map[string]string{"GOMAXPROCS": fmt.Sprint(cpus)}
		want := workers(0, cpus)
		sc.Ctl.DelayMs = map[string]int{"*": 30}
		w := c.World(sc)
		out := w.PkgrOpt(RunOpt{Env: env}, append(append([]string{}, s.args...), "install")...)
		if !c.finished(w, out, "C06/") {
			return
		}
		if m := maxOverlap(installs(out.Events)); m > want {
			c.Fail(w, "C06/install", "%d R install processes at once, the worker count is %d (Threads %d, args %v, GOMAXPROCS %d)", m, want, s.yml, s.args, cpus)
		}
		sc.Ctl.DefLibs = []string{w.Lib()}
		w.WriteCtl()
		out = w.PkgrOpt(RunOpt{Env: env}, append(append([]string{}, s.args...), "load", "--all", "--json")...)
		if !c.finished(w, out, "C06/") {
			return
		}
		rep, err := loadReport(out)
		if err != nil || len(rep.LoadResults) != len(pl.Nodes) {
			c.Fail(w, "C06/load-complete", "load does not complete with Threads %d, args %v: %v, %d of %d packages, exit %d\n%s", s.yml, s.args, err, len(rep.LoadResults), len(pl.Nodes), out.Exit, tailStr(out.Stderr, 1500))
		}
		c.Distinct(fmt.Sprint("odd", c.I%len(odd), cpus))
	})
}

// LoadRep is pkgr's load report.
type LoadRep struct {
	RMetadata   map[string]any
	LoadResults map[string]struct {
		Package, Version, Path, Exiterr, Stdout, Stderr string
		Success                                         bool
	}
	Failures int
}

func loadReport(out *RunOut) (LoadRep, error) {
	var r LoadRep
	err := json.Unmarshal([]byte(out.Stdout), &r)
	return r, err
}

var idxRe = regexp.MustCompile(`^\[\d+\]`)

// rLines is R output as the report shows it: trimmed non-empty lines without element numbers.
func rLines(s string) string {
	var l []string
	for _, x := range strings.Split(s, "\n") {
		x = strings.TrimSpace(idxRe.ReplaceAllString(strings.TrimSuffix(x, "\r"), ""))
		if x != "" {
			l = append(l, x)
		}
	}
	return strings.Join(l, "\n")
}

func c26(x *Ctx) {
	run := func(c *Case, o GenOpt) {
		sc := Gen(c.R, o)
		pl := sc.Plan()
		sc.Pre = nil
		sc.NoLib = false
		sc.Ctl.Load = map[string]proto.LoadC{}
		sc.Ctl.LoadDelay = c.R.Intn(12)
		all := c.R.Intn(2) == 0
		want := map[string]bool{}
		if all {
			for n := range pl.Nodes {
				want[n] = true
			}
		} else {
			for _, n := range sc.Packages {
				want[n] = true
			}
			if c.R.Intn(6) == 0 {
				sc.Packages = append(sc.Packages, sc.Packages[0])
			}
			if c.R.Intn(5) == 0 { // no repository has it (any more)
				sc.Packages = append(sc.Packages, "gonepkg")
				want["gonepkg"] = true
				if c.R.Intn(2) == 0 {
					sc.Pre = append(sc.Pre, Pkg{Name: "gonepkg", Version: "1.2"})
				}
			}
		}
		words := []string{"Loading required package: x", "[1] \"quoted\"", "  indented", "> not a prompt", "Error in f() : <html> & \"q\"", "é ü 漢", "\ttab\\n", "{\"json\": true}", "", "[12] many", "Warning message:"}
		text := func() string {
			var l []string
			for i := 0; i < c.R.Intn(5); i++ {
				l = append(l, pick(c.R, words)+fmt.Sprint(c.R.Intn(1000)))
			}
			if c.R.Intn(12) == 0 {
				l = append(l, strings.Repeat("long", 20000+c.R.Intn(30000)))
			}
			if c.R.Intn(12) == 0 { // a chatty package
				for i := 0; i < 150+c.R.Intn(2500); i++ {
					l = append(l, fmt.Sprintf("%s line %d", pick(c.R, words), i))
				}
			}
			if len(l) == 0 {
				return ""
			}
			return strings.Join(l, "\n") + pick(c.R, []string{"", "\n", "\n\n"})
		}
		for n := range pl.Nodes {
			if c.R.Intn(6) > 0 {
				sc.Pre = append(sc.Pre, Pkg{Name: n, Version: genVersion(c.R)})
			}
			lc := proto.LoadC{Stdout: text(), Stderr: text()}
			if c.R.Intn(3) == 0 {
				lc.Exit = pick(c.R, []int{1, 1, 2, 139, -9, -15, -1})
			}
			if c.R.Intn(3) == 0 {
				lc.DelayMs = 1 + c.R.Intn(40)
			}
			if c.R.Intn(12) == 0 {
				lc.BadInfo = pick(c.R, []string{"[1] \"one line\"\n", "a\nb\nc\n", "\n"})
			}
			sc.Ctl.Load[n] = lc
		}
		w := c.World(sc)
		sc.Ctl.DefLibs = []string{w.Lib()}
		w.WriteCtl()
		args := []string{"load", "--json"}
		if all {
			args = append(args, "--all")
		}
		if c.R.Intn(3) == 0 {
			args = append(args, "--threads", fmt.Sprint(1+c.R.Intn(6)))
		}
		ro := RunOpt{}
		switch c.R.Intn(6) { // from elsewhere
		case 0:
			ro.Cwd = w.Dir
			args = append(args, "--config", pick(c.R, []string{"proj/pkgr.yml", "./proj/pkgr.yml", "proj/../proj/pkgr.yml"}))
		case 1:
			ro.Cwd = w.P("home")
			args = append(args, "--config="+pick(c.R, []string{"../proj/pkgr.yml", w.P("proj/pkgr.yml")}))
		}
		pre := snapTree(w.Lib(), true)
		out := w.PkgrOpt(ro, args...)
		if !c.finished(w, out, "C26/") {
			return
		}
		rep, err := loadReport(out)
		if err != nil {
			c.Fail(w, "C26/json", "the report is no single JSON object: %v\n%s", err, tailStr(out.Stdout, 800))
			return
		}
		var bad []string
		for n := range rep.LoadResults {
			if !want[n] {
				bad = append(bad, "entry for "+n+", which is not to be loaded")
			}
		}
		sess := map[string]*proc{}
		info := map[string]*proc{}
		twice := 0
		for _, p := range procs(out.Events) {
			if p.S.Kind != "expr" {
				continue
			}
			switch p.S.Pass {
			case "load":
				if sess[p.S.Pkg] != nil {
					twice++
				}
				sess[p.S.Pkg] = p
			case "info":
				info[p.S.Pkg] = p
			}
		}
		fails := 0
		for _, n := range sortedSet(want) {
			e, ok := rep.LoadResults[n]
			if !ok {
				bad = append(bad, "no entry for "+n)
				continue
			}
			if !e.Success {
				fails++
			}
			if e.Package != n {
				bad = append(bad, "the entry for "+n+" names "+e.Package)
			}
			p := sess[n]
			if p == nil || p.E == nil {
				bad = append(bad, "no R session loaded "+n)
				continue
			}
			if e.Success != (p.E.Exit == 0) {
				bad = append(bad, fmt.Sprintf("%s is marked %v, its R session ended with %d", n, e.Success, p.E.Exit))
			}
			lc := sc.Ctl.Load[n]
			if e.Stdout != rLines(lc.Stdout) {
				bad = append(bad, fmt.Sprintf("%s: output is %q, want %q", n, tailStr(e.Stdout, 200), tailStr(rLines(lc.Stdout), 200)))
			}
			we := lc.Stderr
			if lc.Exit == 0 && p.E.Exit != 0 {
				we += fmt.Sprintf("Error in library(%q) : there is no package called %q\nExecution halted\n", n, n)
			}
			if e.Stderr != rLines(we) {
				bad = append(bad, fmt.Sprintf("%s: error output is %q, want %q", n, tailStr(e.Stderr, 200), tailStr(rLines(we), 200)))
			}
			if lc.BadInfo == "" && info[n] != nil && info[n].E != nil && info[n].E.Exit == 0 && e.Success {
				if got := e.Path + "|" + e.Version; got != info[n].E.Out {
					bad = append(bad, fmt.Sprintf("%s: path and version are %q, R reported %q", n, got, info[n].E.Out))
				}
			}
		}
		if rep.Failures != fails {
			bad = append(bad, fmt.Sprintf("failure count %d with %d unsuccessful entries", rep.Failures, fails))
		}
		if d := diffSnap(pre, snapTree(w.Lib(), true), 5); len(d) > 0 {
			bad = append(bad, "the library changed: "+strings.Join(d, "; "))
		}
		if len(bad) > 0 {
			sort.Strings(bad)
			c.Fail(w, "C26/report", "%s", strings.Join(bad, "\n"))
		}
		c.Count("sessions", len(sess))
		c.Count("unsuccessful", fails)
		if len(sess) > 1 {
			c.Distinct(fmt.Sprint(sortedSet(want), sc.Ctl.Load, all))
		}
		if c.I < 2 {
			c.Sample(map[string]any{"args": args, "packages": sortedSet(want), "failures": rep.Failures})
		}
	}
	o := GenOpt{MinP: 4, MaxP: 16, Repos: 2, Sugg: true, Rec: true, Pin: true}
	x.Cases("mixed", x.N(110, 1200), 8, func(c *Case) { run(c, o) })
	o.Wide, o.MinP, o.MaxP = true, 20, 30
	x.Cases("many", x.N(16, 160), 4, func(c *Case) { run(c, o) })
}

var raceRe = regexp.MustCompile(`(?s)WARNING: DATA RACE.*?==================`)

func c07(x *Ctx) {
	look := func(c *Case, w *World, out *RunOut) {
		c.Count("runs", 1)
		fs, _ := filepath.Glob(w.P("tmp/race.*"))
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			os.Remove(f)
			for _, r := range raceRe.FindAllString(string(b), -1) {
				// the key names the two places
				c.Fail(w, "C07/race", "pkgr %s\n%s", strings.Join(out.Args, " "), r)
				return
			}
			if len(b) > 0 {
				c.Fail(w, "C07/race", "pkgr %s\n%s", strings.Join(out.Args, " "), tailStr(string(b), 4000))
				return
			}
		}
		if i := strings.Index(out.Stderr, "fatal error: concurrent map"); i >= 0 {
			c.Fail(w, "C07/race", "pkgr %s\n%s", strings.Join(out.Args, " "), tailStr(out.Stderr[i:], 4000))
		}
		es := procs(out.Events)
		c.Max("max_parallel_R", maxOverlap(es))
		c.Count("R_processes", len(es))
		c.Count("requests", len(out.Reqs))
		if len(es) > 2 || len(out.Reqs) > 2 {
			var rq []string
			for _, r := range out.Reqs {
				rq = append(rq, r.Path)
			}
			c.Distinct(strings.Join(out.Args, " ") + orderSig(out) + strings.Join(rq, ";"))
		}
	}
	run := func(c *Case, o GenOpt, fail bool) {
		var sc *Scenario
		var pl *Plan
		var exp map[string]*Target
		for {
			sc = Gen(c.R, o)
			pl = sc.Plan()
			exp = sc.Expect(pl, sc.Pre, sc.NoUpdate)
			if len(c.targets(sc, pl, exp))+len(sc.Tarballs) > 0 {
				break
			}
		}
		c.delays(sc, pl, 12)
		sc.Threads = pick(c.R, []int{0, 2, 4, 8, 16})
		var fs []Failure
		if fail {
			fs = c.inject(sc, pl, exp, 1+c.R.Intn(4), false)
		}
		if c.R.Intn(2) == 0 {
			sc.Ctl.Chatter = map[string]int{}
			for n := range pl.Nodes {
				if c.R.Intn(2) == 0 {
					sc.Ctl.Chatter[n+"/src"] = 1 + c.R.Intn(60)
					sc.Ctl.Chatter[n+"/bin"] = c.R.Intn(60)
				}
			}
		}
		if c.R.Intn(2) == 0 {
			sc.LogAll = "all.log"
		}
		if c.R.Intn(4) == 0 {
			for n := range pl.Nodes {
				k := sc.Cust[n]
				k.Env = map[string]string{"PKGVAR": n, "GITHUB_PAT": "x"}
				sc.Cust[n] = k
			}
		}
		w := c.World(sc)
		w.race = true
		env := map[string]string{"GORACE": "log_path=" + w.P("tmp/race") + " history_size=3", "GITHUB_PAT": "tok", "GOMAXPROCS": fmt.Sprint(2 + c.R.Intn(7))}
		cmds := [][]string{{"install", "--loglevel", "trace"}}
		if c.R.Intn(2) == 0 {
			cmds = append([][]string{{"plan", "--loglevel", "trace"}}, cmds...)
		}
		if c.R.Intn(2) == 0 {
			cmds = append(cmds, []string{"install", "--loglevel", "debug"})
		}
		cmds = append(cmds, pick(c.R, [][]string{{"load", "--all"}, {"load", "--all", "--json"}, {"load", "--loglevel", "trace"}}))
		switch c.R.Intn(6) {
		case 0:
			cmds = append(cmds, []string{"inspect", "--deps", "--json"}, []string{"clean", "cache"})
		case 1:
			cmds = append(cmds, []string{"clean", "--all"}, []string{"install"})
		case 2:
			cmds = append(cmds, []string{"remove", sc.Packages[0]}, []string{"add", sc.Packages[0], "--install"})
		}
		sc.Ctl.DefLibs = []string{w.Lib()}
		sc.Ctl.LoadDelay = c.R.Intn(10)
		w.WriteCtl()
		for _, a := range cmds {
			out := w.PkgrOpt(RunOpt{Env: env}, a...)
			if out.Timeout {
				c.Incon("watchdog: pkgr %v", a)
				return
			}
			look(c, w, out)
			if c.failed {
				return
			}
		}
		if c.I < 2 {
			c.Sample(map[string]any{"plan": planSig(pl), "failures": failStr(fs), "commands": cmds})
		}
	}
	o := fullGen
	o.Repos = 4
	x.Cases("clean", x.N(24, 300), 6, func(c *Case) { run(c, o, false) })
	f := failGen
	f.Repos = 4
	x.Cases("faults", x.N(24, 300), 6, func(c *Case) { run(c, f, true) })
	f.Wide, f.MinP, f.MaxP, f.Pre = true, 14, 26, 0
	x.Cases("wide", x.N(12, 160), 4, func(c *Case) { run(c, f, c.I%2 == 0) })
}

func c29(x *Ctx) {
	run := func(c *Case, mode string) {
		o := GenOpt{MinP: 4, MaxP: 12, Repos: 2, Bin: true, Rec: true, Pin: true, SizeK: 60, NoLib: 0.5, Pre: 0.2, Other: 1}
		if c.R.Intn(2) == 0 {
			o.Tar = 2
		}
		sc := Gen(c.R, o)
		sc.Threads = pick(c.R, []int{0, 1, 3, 8})
		pl := sc.Plan()
		c.delays(sc, pl, 30)
		for i := range sc.Tarballs {
			sc.Tarballs[i].SizeK = 200 + c.R.Intn(800)
		}
		if c.R.Intn(3) > 0 {
			sc.Faults = append(sc.Faults, &Fault{Suffix: ".tar.gz", SlowMs: 1 + c.R.Intn(8)})
		}
		if c.R.Intn(3) > 0 {
			sc.Faults = append(sc.Faults, &Fault{Suffix: "PACKAGES", SlowMs: 1 + c.R.Intn(8), DelayMs: c.R.Intn(10)})
		}
		w := c.World(sc)
		k := 2 + c.R.Intn(3)
		var subs []*Scenario
		var avail []string
		for _, n := range proto.SortedKeys(pl.Nodes) {
			avail = append(avail, n)
		}
		for i := 0; i < k; i++ {
			s := *sc
			s.LibPath = fmt.Sprintf("lib%d", i)
			s.Pre, s.PreFiles, s.NoLib = nil, nil, true
			if i > 0 && c.R.Intn(2) == 0 {
				for {
					s.Packages = shuffle(c.R, avail)[:1+c.R.Intn(len(avail))]
					if c.R.Intn(3) == 0 {
						s.Tarballs = nil
					}
					p := s.Plan()
					if len(p.Missing) == 0 && !p.Cyclic {
						break
					}
				}
			}
			subs = append(subs, &s)
		}
		yml := func(s *Scenario) string {
			old := w.Sc
			w.Sc = s
			y := s.yml(w)
			w.Sc = old
			return y
		}
		for i, s := range subs {
			writeFile(w.P("proj", fmt.Sprintf("c%d.yml", i)), []byte(yml(s)), 0644)
		}
		w.Own()
		switch mode {
		case "warm":
			if !c.warm(w, "C29/") {
				return
			}
		case "index":
			out := w.Pkgr("plan")
			if !c.finished(w, out, "C29/") {
				return
			}
		}
		outs := make([]*RunOut, k)
		var wg sync.WaitGroup
		ns := mode == "containers"
		for i := range subs {
			wg.Add(1)
			d := c.R.Intn(30)
			if c.R.Intn(3) > 0 {
				d = 0
			}
			go func() {
				defer wg.Done()
				sleepMs(d)
				outs[i] = w.PkgrOpt(RunOpt{NoEv: true, PidNS: ns}, "install", "--config", fmt.Sprintf("c%d.yml", i))
			}()
		}
		wg.Wait()
		es := w.Events()
		outs[0].Events = es
		for i, s := range subs {
			if !c.finished(w, outs[i], "C29/") {
				return
			}
			p := s.Plan()
			exp := s.Expect(p, nil, false)
			if bad := w.checkLibAt(w.P("proj", s.LibPath), exp, Snap{}); len(bad) > 0 {
				c.Fail(w, "C29/library", "run %d of %d at once (%s cache): %s\n%s", i, k, mode, strings.Join(bad, "\n"), tailStr(outs[i].Stdout+outs[i].Stderr, 2500))
			}
			if outs[i].Exit != 0 {
				c.Fail(w, "C29/exit", "run %d of %d at once ends with exit status %d %s\n%s", i, k, outs[i].Exit, outs[i].Signal, tailStr(outs[i].Stderr, 1500))
			}
		}
		for _, e := range es {
			if e.Kind == "install" && e.Ev == "start" && e.Pkg == "" {
				c.Fail(w, "C29/garbage", "R was asked to install %q in %s, which is no complete package", e.Path, e.Cwd)
			}
		}
		// a further run with the shared cache
		last := *subs[0]
		last.LibPath = "liblast"
		writeFile(w.P("proj/clast.yml"), []byte(yml(&last)), 0644)
		w.SetFaults(nil)
		out := w.Pkgr("install", "--config", "clast.yml")
		if !c.finished(w, out, "C29/") {
			return
		}
		if bad := w.checkLibAt(w.P("proj/liblast"), last.Expect(last.Plan(), nil, false), Snap{}); len(bad) > 0 {
			c.Fail(w, "C29/afterwards", "a run after %d at once (%s cache): %s\n%s", k, mode, strings.Join(bad, "\n"), tailStr(out.Stdout+out.Stderr, 2000))
		}
		c.Count("concurrent_runs", k)
		ov := 0
		for i := range outs {
			for j := range outs[:i] {
				if outs[i].T0 < outs[j].T1 && outs[j].T0 < outs[i].T1 {
					ov++
				}
			}
		}
		c.Count("overlapping_pairs", ov)
		if ov > 0 {
			c.Distinct(planSig(pl) + orderSig(outs[0]))
		}
		if c.I < 2 {
			c.Sample(map[string]any{"runs": k, "mode": mode, "plan": planSig(pl), "overlapping_pairs": ov})
		}
	}
	x.Cases("cold", x.N(50, 600), 3, func(c *Case) { run(c, "cold") })
	x.Cases("index", x.N(16, 200), 3, func(c *Case) { run(c, "index") })
	x.Cases("warm", x.N(12, 160), 3, func(c *Case) { run(c, "warm") })
	if pidNS() {
		x.Cases("containers", x.N(24, 300), 3, func(c *Case) { run(c, "containers") })
	} else {
		x.Count("containers_not_possible", 1)
	}
}

// pidNS says whether processes can get a process number space of their own.
func pidNS() bool {
	m := []syscall.SysProcIDMap{{ContainerID: nobody, HostID: nobody, Size: 1}}
	cmd := exec.Command("/bin/true")
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}, Cloneflags: syscall.CLONE_NEWUSER | syscall.CLONE_NEWPID, UidMappings: m, GidMappings: m}
	return cmd.Run() == nil
}
