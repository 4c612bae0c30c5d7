package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"vh/proto"
)

func init() {
	checks["C17"] = &Check{Fn: c17, Rule: "installs and sessions started with hostile R_LIBS, R_LIBS_USER, R_LIBS_SITE (libraries full of packages of the plan) and generated Env customisations of packages, dependencies and tarballs that partly override the caller's variables; the environment and library path of every R process is judged; non-trivial: at least one R process judged; distinct by customisations and caller variables"}
}

// callerLibs makes libraries of the caller and the variables that name them.
func callerLibs(c *Case, w *World, pl *Plan) (map[string]string, []string) {
	var dirs []string
	for _, n := range []string{"cuser", "csite", "crlibs", "home/R/x86_64-pc-linux-gnu-library/4.3"} {
		d := w.P(n)
		must(os.MkdirAll(d, 0755))
		for _, p := range proto.SortedKeys(pl.Nodes) {
			if c.R.Intn(3) > 0 {
				w.Preinstall(d, Pkg{Name: p, Version: genVersion(c.R), Payload: "caller/" + n + "/" + p})
			}
		}
		w.Preinstall(d, Pkg{Name: "callerpkg", Version: "1.0.0"})
		dirs = append(dirs, d)
	}
	w.Own()
	env := map[string]string{}
	for i, v := range []string{"R_LIBS_USER", "R_LIBS_SITE", "R_LIBS"} {
		switch c.R.Intn(5) {
		case 0: // unset
		case 1:
			env[v] = strings.Join(dirs[:3], ":")
		case 2:
			env[v] = ""
		default:
			env[v] = dirs[i]
		}
	}
	return env, dirs
}

var envNames = []string{"MAKEFLAGS", "CXXFLAGS", "PKG_LIBS", "lower_case", "MixedCase", "camelCase", "R_TESTS", "INCLUDE_DIR", "X1", "_under", "V", "SECRET_FREE", "dotted.name", "LD_LIBRARY_PATH", "R_MAX_VSIZE", "CC"}
var envValues = []string{"-j2", "a b  c", "a=b", "=x", "x:y:/z", "-O2 -Wall -march=native", "1", "true", "0", "ünïcode", "it's", "\"quoted\"", "back\\slash", "#hash", "{brace}", "[x]", "a,b", "yes", "1e3", "~/x", "", "%d", "*", "&a", "null", "0x10", "false", "TRUE", "No", "on", "1.50", "010", "1e-3", ".5", "1_000", "2024-01-02", "inf", "12345678901234567890"}

func genEnv(c *Case) map[string]string {
	m := map[string]string{}
	for i := 0; i < 1+c.R.Intn(4); i++ {
		m[pick(c.R, envNames)] = pick(c.R, envValues)
	}
	return m
}

// checkREnv judges the libraries and variables one R process sees.
func checkREnv(w *World, sc *Scenario, e proto.Event, lib, pkg string, own map[string]string, caller map[string]string, libDirs []string) []string {
	var bad []string
	abs := func(p string) string {
		if !filepath.IsAbs(p) {
			return filepath.Join(e.Cwd, p)
		}
		return p
	}
	who := fmt.Sprintf("R %s for %q (%s)", e.Kind, pkg, e.Pass)
	// where pkgr sets no R_LIBS_SITE, the customisation of a package may
	_, asked := own["R_LIBS_SITE"]
	asked = asked && e.Kind == "install" && e.Pass != "src"
	sees := false
	for _, l := range e.Libs {
		switch {
		case samePath(abs(l.Path), lib):
			sees = true
		case asked && contains(strings.Split(own["R_LIBS_SITE"], ":"), l.Path):
		case len(l.Pkgs) > 0 || len(l.Other) > 0:
			bad = append(bad, fmt.Sprintf("%s sees %s with %v %v beside the configured library", who, l.Path, proto.SortedKeys(l.Pkgs), l.Other))
		}
	}
	if !sees {
		if _, err := os.Stat(lib); err == nil {
			bad = append(bad, fmt.Sprintf("%s does not see the configured library %s: R_LIBS_SITE=%q", who, lib, e.Env["R_LIBS_SITE"]))
		}
	}
	u := e.Env["R_LIBS_USER"]
	if u == "" {
		bad = append(bad, who+": R_LIBS_USER is not set, so R uses its default user library")
	}
	for _, d := range libDirs {
		for _, v := range []string{"R_LIBS_USER", "R_LIBS_SITE", "R_LIBS"} {
			if asked && v == "R_LIBS_SITE" {
				continue
			}
			for _, p := range strings.Split(e.Env[v], ":") {
				if p == d {
					bad = append(bad, fmt.Sprintf("%s: %s names the caller's %s", who, v, d))
				}
			}
		}
	}
	if len(e.RUser) > 0 {
		bad = append(bad, fmt.Sprintf("%s: R_LIBS_USER=%s is not empty: %v", who, u, e.RUser))
	}
	for k, v := range own {
		if strings.HasPrefix(k, "R_LIBS_") { // pkgr's word is last
			continue
		}
		if got, ok := e.Env[k]; !ok || got != v {
			bad = append(bad, fmt.Sprintf("%s: %s is %q, the customisation says %q", who, k, got, v))
		}
	}
	for _, cu := range sc.Cust {
		for k := range cu.Env {
			if _, mine := own[k]; mine || strings.HasPrefix(k, "R_LIBS_") {
				continue
			}
			if got := e.Env[k]; got != caller[k] {
				bad = append(bad, fmt.Sprintf("%s: %s is %q, but no customisation of this package sets it and the caller has %q", who, k, got, caller[k]))
			}
		}
	}
	for k, v := range caller {
		if _, mine := own[k]; mine || v == "" || strings.HasPrefix(k, "R_LIBS") {
			continue
		}
		if got := e.Env[k]; got != v {
			bad = append(bad, fmt.Sprintf("%s: the caller's %s=%q is %q", who, k, v, got))
		}
	}
	sort.Strings(bad)
	return bad
}

func c17(x *Ctx) {
	custom := func(c *Case, sc *Scenario, pl *Plan, share float64) {
		if sc.Cust == nil {
			sc.Cust = map[string]Cust{}
		}
		add := func(n string) {
			cu := sc.Cust[n]
			cu.Env = genEnv(c)
			sc.Cust[n] = cu
		}
		for _, n := range proto.SortedKeys(pl.Nodes) {
			if chance(c.R, share) {
				add(n)
			}
		}
		for _, t := range sc.Tarballs {
			if chance(c.R, share) {
				add(t.Name)
			}
		}
		if len(sc.Cust) == 0 {
			add(sc.Packages[0])
		}
		if c.R.Intn(3) == 0 {
			add("notinplan")
		}
	}
	// customisations that name libraries
	customLibs := func(c *Case, w *World, sc *Scenario, dirs []string) {
		for _, n := range proto.SortedKeys(sc.Cust) {
			if cu := sc.Cust[n]; cu.Env != nil && c.R.Intn(5) == 0 {
				cu.Env[pick(c.R, []string{"R_LIBS_USER", "R_LIBS_SITE"})] = pick(c.R, dirs)
				c.Count("library_customisations", 1)
			}
		}
		w.WriteYml()
	}
	caller := func(c *Case, sc *Scenario) map[string]string {
		m := map[string]string{}
		for i := 0; i < c.R.Intn(5); i++ {
			m[pick(c.R, envNames)] = strings.TrimSpace("caller's " + pick(c.R, envValues))
		}
		for _, n := range proto.SortedKeys(sc.Cust) {
			for _, k := range proto.SortedKeys(sc.Cust[n].Env) {
				if c.R.Intn(3) == 0 {
					m[k] = "caller's own"
				}
			}
		}
		return m
	}
	judge := func(c *Case, w *World, sc *Scenario, es []proto.Event, lib, session string, env map[string]string, dirs []string) {
		n := 0
		for _, e := range es {
			if e.Ev != "start" || (e.Kind != "install" && e.Kind != "session") {
				continue
			}
			p := e.Pkg
			if e.Kind == "session" {
				p = session
			}
			n++
			if bad := checkREnv(w, sc, e, lib, p, sc.Cust[p].Env, env, dirs); len(bad) > 0 {
				c.Fail(w, "C17/env", "%s\ncaller: %v", strings.Join(bad, "\n"), env)
				return
			}
			if e.Kind == "install" && e.Pass == "src" && len(e.CwdList) > 0 {
				c.Fail(w, "C17/tmp", "R builds %s in %s, which holds %v", p, e.Cwd, e.CwdList)
				return
			}
		}
		c.Count("r_processes_judged", n)
		if n > 0 {
			c.Distinct(fmt.Sprint(sc.Cust, env, n))
		}
	}
	o := GenOpt{MinP: 2, MaxP: 10, Repos: 2, Bin: true, Pre: 0.3, Other: 2, Tar: 2, Desc: 1, Sugg: true, Rec: true, NoLib: 0.4}
	x.Cases("install", x.N(80, 900), 8, func(c *Case) {
		sc := Gen(c.R, o)
		pl := sc.Plan()
		if pl.Cyclic || len(pl.Missing) > 0 || sc.tarCycle(pl) {
			return
		}
		custom(c, sc, pl, 0.4)
		c.delays(sc, pl, 20)
		if c.R.Intn(5) == 0 {
			fs := proto.SortedKeys(pl.Nodes)
			sc.Ctl.Fail = map[string]string{pick(c.R, fs) + "/src": "clean"}
		}
		w := c.World(sc)
		env, dirs := callerLibs(c, w, pl)
		for k, v := range caller(c, sc) {
			env[k] = v
		}
		customLibs(c, w, sc, dirs)
		args := c.installArgs()
		lib := w.Lib()
		if c.R.Intn(4) == 0 {
			lib = w.P("otherlib")
			must(os.MkdirAll(lib, 0777))
			w.Own()
			args = append(args, "--library", lib)
		}
		out := w.PkgrOpt(RunOpt{Env: env}, args...)
		if !c.finished(w, out, "C17/") {
			return
		}
		judge(c, w, sc, out.Events, lib, "", env, dirs)
		if !c.failed && c.R.Intn(3) == 0 { // everything from the cache
			args := append(args, "--library", w.P("lib3"))
			out := w.PkgrOpt(RunOpt{Env: env}, args...)
			if !c.finished(w, out, "C17/") {
				return
			}
			judge(c, w, sc, out.Events, w.P("lib3"), "", env, dirs)
		}
		if c.I < 3 {
			c.Sample(map[string]any{"customisations": sc.Cust, "caller": env})
		}
	})
	x.Cases("run", x.N(60, 600), 8, func(c *Case) {
		sc := Gen(c.R, o)
		pl := sc.Plan()
		custom(c, sc, pl, 0.4)
		w := c.World(sc)
		env, dirs := callerLibs(c, w, pl)
		for k, v := range caller(c, sc) {
			env[k] = v
		}
		customLibs(c, w, sc, dirs)
		must(os.MkdirAll(w.Lib(), 0755))
		w.Own()
		args := []string{"run"}
		pkg := ""
		switch c.R.Intn(4) {
		case 0:
		case 1:
			pkg = "unknownpkg"
		default:
			pkg = pick(c.R, proto.SortedKeys(sc.Cust))
		}
		if pkg != "" {
			args = append(args, "--pkg="+pkg)
		}
		lib := w.Lib()
		if c.R.Intn(3) == 0 {
			lib = w.P("otherlib")
			must(os.MkdirAll(lib, 0777))
			w.Own()
			args = append(args, "--library", lib)
		}
		opt := RunOpt{Env: env, Stdin: "1\n"}
		if c.R.Intn(3) == 0 {
			opt.Cwd = w.P("home")
			args = append(args, "--config", w.P("proj/pkgr.yml"))
		}
		out := w.PkgrOpt(opt, args...)
		if !c.finished(w, out, "C17/") {
			return
		}
		n := 0
		for _, e := range out.Events {
			if e.Kind == "session" && e.Ev == "start" {
				n++
			}
		}
		if n != 1 {
			c.Fail(w, "C17/session", "pkgr %v opened %d sessions\n%s", args, n, tailStr(out.Stdout+out.Stderr, 800))
			return
		}
		judge(c, w, sc, out.Events, lib, pkg, env, dirs)
	})
	// the real R
	x.Cases("realR", x.N(4, 20), 4, func(c *Case) {
		sc := Gen(c.R, GenOpt{MinP: 2, MaxP: 3, Repos: 1, NoLib: 0})
		sc.UseRealR = true
		sc.NoUpdate = false
		sc.Pre = nil
		sc.Ctl.RVersion = "4.3.3"
		pl := sc.Plan()
		if pl.Cyclic || len(pl.Missing) > 0 || !sc.closed(pl) {
			return
		}
		custom(c, sc, pl, 0.5)
		w := c.World(sc)
		env, dirs := callerLibs(c, w, pl)
		for k, v := range caller(c, sc) {
			env[k] = v
		}
		for _, k := range []string{"R_TESTS", "LD_LIBRARY_PATH", "R_MAX_VSIZE", "CC", "MAKEFLAGS"} { // R reads or sets these itself
			delete(env, k)
			for n, cu := range sc.Cust {
				delete(cu.Env, k)
				sc.Cust[n] = cu
			}
		}
		w.WriteYml()
		pkg := proto.SortedKeys(sc.Cust)[0]
		script := "cat('LP', .libPaths(), '', sep='\\n'); for (v in names(Sys.getenv())) cat('EV ', v, '=', Sys.getenv(v), '\\n', sep='')\n"
		must(os.MkdirAll(w.Lib(), 0755))
		w.Own()
		out := w.PkgrOpt(RunOpt{Env: env, Stdin: script}, "run", "--pkg="+pkg)
		if !c.finished(w, out, "C17/") {
			return
		}
		for _, d := range dirs {
			if strings.Contains(out.Stdout, "\n"+d+"\n") {
				c.Fail(w, "C17/real-R", "the session's library path has the caller's %s\n%s", d, tailStr(out.Stdout, 3000))
			}
		}
		if !strings.Contains(out.Stdout, "\n"+w.Lib()+"\n") {
			c.Fail(w, "C17/real-R", "the session's library path has no %s\n%s\n%s", w.Lib(), tailStr(out.Stdout, 3000), tailStr(out.Stderr, 1000))
		}
		for k, v := range sc.Cust[pkg].Env {
			if !strings.Contains(out.Stdout, "\nEV "+k+"="+v+"\n") {
				c.Fail(w, "C17/real-R", "the session of %s has not %s=%s\n%s", pkg, k, v, tailStr(out.Stdout, 3000))
			}
		}
		c.Count("real_R_sessions", 1)
		c.Distinct(fmt.Sprint("real", sc.Cust, env))
	})
}

var secretNames = []string{"GITHUB_TOKEN", "GITHUB_PAT", "GHE_TOKEN", "GHE_PAT", "AWS_ACCESS_KEY_ID", "AWS_SECRET_KEY"}

// mixCase spells n in another case.
func mixCase(c *Case, n string) string {
	switch c.R.Intn(4) {
	case 0:
		return strings.ToLower(n)
	case 1:
		b := []byte(n)
		for i := range b {
			if c.R.Intn(2) == 0 {
				b[i] = strings.ToLower(string(b[i]))[0]
			}
		}
		return string(b)
	}
	return n
}

func init() {
	checks["C18"] = &Check{Fn: c18, Rule: "every command at every log level and output format with random values in the six variables (names in random case, sometimes two spellings of one), with R processes that print their environment, failures of downloads, builds, configuration and R itself, and with log files; every byte of output and log files is searched for the values and long parts of them; non-trivial: at least one variable set; distinct by command, level, failure and spelling"}
}

func c18(x *Ctx) {
	const alpha = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	levels := []string{"trace", "trace", "debug", "info", "warn", "error", "fatal", "panic", "bogus", ""}
	o := GenOpt{MinP: 2, MaxP: 6, Repos: 2, Bin: true, Pre: 0.4, Other: 1, Tar: 1, Desc: 1, Sugg: true, NoLib: 0.3}
	cmds := [][]string{{"plan"}, {"plan", "--show-deps"}, {"install"}, {"install"}, {"install"}, {"load"}, {"load", "--all"}, {"load", "--json"}, {"inspect", "--deps"}, {"inspect", "--tree", "--deps"},
		{"clean", "--all"}, {"clean", "cache"}, {"clean", "pkgdbs"}, {"run"}, {"run", "--pkg=CUSTOM"}, {"add", "newpkg"}, {"add", "newpkg", "--install"}, {"remove", "newpkg"}, {"--version"}, {"--help"}, {"nonsense"}, {"install", "--nonsense"}}
	fails := []string{"", "", "build", "download", "index", "missing", "version", "yml", "pin", "tarball", "renv", "norpath"}
	x.Cases("commands", x.N(len(cmds)*30, len(cmds)*250), 8, func(c *Case) {
		sc := Gen(c.R, o)
		pl := sc.Plan()
		fail := pick(c.R, fails)
		cmd := append([]string{}, cmds[c.I%len(cmds)]...)
		secrets := map[string]string{}
		env := map[string]string{}
		for _, n := range secretNames {
			if c.R.Intn(3) == 0 && len(env) > 0 {
				continue
			}
			for k := 0; k < 1+c.R.Intn(2); k++ {
				var v strings.Builder
				for i := 0; i < 30; i++ {
					v.WriteByte(alpha[c.R.Intn(len(alpha))])
				}
				s := v.String()
				switch c.R.Intn(6) {
				case 0:
					s = s[:15] + "=" + s[15:]
				case 1:
					s = s[:15] + " " + s[15:]
				case 2:
					s = s[:15] + "/+" + s[15:] + "=="
				}
				name := mixCase(c, n)
				env[name] = s
				secrets[name] = s
				sc.Ctl.EchoEnv = append(sc.Ctl.EchoEnv, name)
			}
		}
		// customisations of other variables, so that those are logged too
		if sc.Cust == nil {
			sc.Cust = map[string]Cust{}
		}
		custom := sc.Packages[0]
		cu := sc.Cust[custom]
		cu.Env = map[string]string{"MAKEFLAGS": "-j2"}
		sc.Cust[custom] = cu
		for i := range cmd {
			cmd[i] = strings.ReplaceAll(cmd[i], "CUSTOM", custom)
		}
		switch fail {
		case "build":
			sc.Ctl.Fail = map[string]string{}
			for n := range pl.Nodes {
				sc.Ctl.Fail[n+"/src"], sc.Ctl.Fail[n+"/bin"] = "clean", "clean"
			}
		case "download":
			sc.Faults = []*Fault{{Suffix: ".tar.gz", Status: 401, Times: 99}}
		case "index":
			sc.Faults = []*Fault{{Suffix: "PACKAGES", Status: 500, Times: 99}}
		case "missing":
			sc.Packages = append(sc.Packages, "nosuchpackage")
		case "version":
			sc.Ctl.VersionRC = 1
		case "pin":
			cu.Repo = "nosuchrepo"
			sc.Cust[custom] = cu
		case "tarball":
			sc.ExtraYml = "Tarballs:\n  - nosuch.tar.gz\n"
			if len(sc.Tarballs) > 0 {
				sc.ExtraYml = ""
			}
		case "renv":
			sc.NoLibrary, sc.Lockfile = true, "renv"
			if c.R.Intn(2) == 0 {
				sc.Ctl.RenvExit = 1
			}
		case "norpath":
			sc.RPath = "/nonexistent/bin/R"
		}
		if c.R.Intn(2) == 0 {
			sc.LogAll = "all.log"
		}
		if c.R.Intn(3) == 0 {
			sc.LogInstall = "install.log"
		}
		w := c.World(sc)
		sc.Ctl.RenvLib = w.P("proj/lib")
		w.WriteCtl()
		if fail == "yml" {
			y := sc.yml(w)
			writeFile(w.P("proj/pkgr.yml"), []byte(y[:len(y)/2]+"\n  : - ["+y[len(y)/2:]), 0644)
			w.Own()
		}
		level := pick(c.R, levels)
		args := cmd
		if level != "" {
			args = append(args, "--loglevel", level)
		}
		for _, f := range []string{"--logjson", "--debug", "--no-rollback", "--strict"} {
			if c.R.Intn(4) == 0 {
				args = append(args, f)
			}
		}
		if cmd[0] == "load" && c.R.Intn(2) == 0 {
			w.Pkgr("install")
		}
		total := 0
		for k := 0; k < 2; k++ {
			out := w.PkgrOpt(RunOpt{Env: env, Stdin: "1\n"}, args...)
			if !c.finished(w, out, "C18/") {
				return
			}
			texts := map[string]string{"stdout": out.Stdout, "stderr": out.Stderr}
			for _, f := range []string{"proj/all.log", "proj/install.log"} {
				b, _ := os.ReadFile(w.P(f))
				texts[f] = string(b)
			}
			for where, t := range texts {
				total += len(t)
				up := strings.ToUpper(t)
				for _, n := range secretNames {
					c.Count("names_seen", strings.Count(up, n))
				}
				for n, v := range secrets {
					for _, part := range []string{v, v[:12], v[len(v)-14:]} {
						if i := strings.Index(t, part); i >= 0 {
							c.Fail(w, "C18/leak", "pkgr %v (failure: %q): the value of %s appears in %s: …%s…", args, fail, n, where, t[max(0, i-120):min(len(t), i+60)])
							return
						}
					}
				}
			}
		}
		c.Count("bytes_searched", total)
		c.Distinct(fmt.Sprint(cmd, level, fail, proto.SortedKeys(env), total))
		if c.I < 3 {
			c.Sample(map[string]any{"args": args, "failure": fail, "variables": proto.SortedKeys(env)})
		}
	})
}
