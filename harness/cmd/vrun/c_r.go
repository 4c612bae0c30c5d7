package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

func init() {
	checks["C31"] = &Check{Fn: c31, Rule: "commands with every way of naming R (none, RPath absolute, by home, variable, link, relative, trailing slash, PKGR_RPATH over RPath), on a machine with other R installations of other versions before, after and beside it on PATH, that have a log of their own; non-trivial: at least one R process was judged; distinct by way of naming R, PATH and command"}
}

// addR puts another R installation below w, with its own version and log, and returns its bin folder.
func (w *World) addR(name, version, platform string) string {
	d := w.P(name)
	must(os.MkdirAll(filepath.Join(d, "bin"), 0755))
	for _, x := range []string{"R", "Rscript"} {
		must(os.Link(fakeRPath, filepath.Join(d, "bin", x)))
	}
	ctl := w.Sc.Ctl
	ctl.RVersion, ctl.Platform, ctl.RenvLib = version, platform, w.P("wrong/lib")
	b, err := json.Marshal(ctl)
	must(err)
	must(os.WriteFile(filepath.Join(d, "control.json"), b, 0644))
	must(os.WriteFile(filepath.Join(d, "events.jsonl"), nil, 0666))
	must(os.Chmod(filepath.Join(d, "events.jsonl"), 0666))
	return filepath.Join(d, "bin")
}

// firstR returns the R that a PATH finds.
func firstR(path string) string {
	for _, d := range strings.Split(path, ":") {
		if fi, err := os.Stat(filepath.Join(d, "R")); err == nil && fi.Mode().IsRegular() && fi.Mode()&0111 != 0 {
			return filepath.Join(d, "R")
		}
	}
	return ""
}

// sameFile compares by path, as every stand-in for R is a hard link to one file.
func sameFile(a, b string) bool {
	x, err := filepath.EvalSymlinks(a)
	y, err2 := filepath.EvalSymlinks(b)
	return err == nil && err2 == nil && x == y
}

func c31(x *Ctx) {
	versions := []string{"3.6.3", "4.0.5", "4.2.3", "4.3.3", "4.4.1", "4.10.0"}
	x.Cases("which", x.N(90, 1200), 8, func(c *Case) {
		var sc *Scenario
		var pl *Plan
		for {
			sc = Gen(c.R, GenOpt{MinP: 2, MaxP: 6, Repos: 2, Pre: 0.2, Other: 1, Tar: 1, Bin: true, NoLib: 0.5})
			pl = sc.Plan()
			if !pl.Cyclic && len(pl.Missing) == 0 && !sc.tarCycle(pl) && sc.closed(pl) {
				break
			}
		}
		cmdName := pick(c.R, []string{"install", "install", "install", "plan", "load", "run", "add"})
		lock := ""
		if sc.NoLib && c.R.Intn(2) == 0 {
			lock = pick(c.R, []string{"renv", "packrat"})
		}
		w := c.World(sc)
		minor := func(v string) string { return strings.Join(strings.Split(v, ".")[:2], ".") }
		var others []string
		otherV := []string{}
		for _, v := range versions {
			if minor(v) != minor(sc.Ctl.RVersion) {
				otherV = append(otherV, v)
			}
		}
		var homes []string
		for i := 0; i < 2; i++ {
			n := fmt.Sprintf("other%d", i)
			others = append(others, w.addR(n, pick(c.R, otherV), "x86_64-other-linux"))
			homes = append(homes, w.P(n))
		}
		if lock == "renv" {
			sc.Ctl.RenvLib = w.P("proj/renvlib")
			w.WriteCtl()
		}
		opt := RunOpt{Env: map[string]string{"VWORLD": w.Dir}, Stdin: "1\n"}
		// the name of R, and the folder PATH would have to list for it
		dir := w.P("R/bin")
		must(os.MkdirAll(w.P("linked R/bin"), 0755))
		must(os.Symlink(w.P("R/bin/R"), w.P("linked R/bin/R")))
		must(os.Symlink(w.P("R/bin/Rscript"), w.P("linked R/bin/Rscript")))
		must(os.Symlink(w.P("R"), w.P("current")))
		sc.RPath = ""
		kind := pick(c.R, []string{"none", "abs", "home", "var", "bracevar", "slash", "links", "dirlink", "relative", "env", "envhome", "envonly"})
		switch kind {
		case "abs":
			sc.RPath = w.P("R/bin/R")
		case "home":
			sc.RPath = "~/../R/bin/R"
		case "var":
			sc.RPath = "$VWORLD/R/bin/R"
		case "bracevar":
			sc.RPath = "${VWORLD}/R/bin/R"
		case "slash":
			sc.RPath = w.P("R/bin/R") + "/"
		case "links":
			sc.RPath, dir = w.P("linked R/bin/R"), w.P("linked R/bin")
		case "dirlink":
			sc.RPath, dir = w.P("current/bin/R"), w.P("current/bin")
		case "relative":
			sc.RPath = pick(c.R, []string{"../R/bin/R", "./../R/bin/R"})
		case "env":
			sc.RPath, opt.Env["PKGR_RPATH"] = others[0]+"/R", w.P("R/bin/R")
		case "envhome":
			sc.RPath, opt.Env["PKGR_RPATH"] = others[0]+"/R", "~/../R/bin/R"
		case "envonly":
			opt.Env["PKGR_RPATH"] = w.P("current/bin/R")
			dir = w.P("current/bin")
		}
		// other installations in folders whose names begin like that of R
		near := dir + pick(c.R, []string{"-old", "2", ".d"})
		if kind == "none" || filepath.Dir(dir) == w.P("R") && c.R.Intn(2) == 0 {
			near = w.P("R-devel/bin")
		}
		must(os.MkdirAll(near, 0755))
		for _, n := range []string{"R", "Rscript"} {
			must(os.Symlink(filepath.Join(others[1], n), filepath.Join(near, n)))
		}
		var path []string
		if kind == "none" {
			path = []string{dir}
			if c.R.Intn(2) == 0 {
				path = append([]string{w.P("home")}, path...)
			}
			path = append(path, others...)
		} else {
			path = append(path, others...)
			if c.R.Intn(2) == 0 {
				path = append(path, dir)
			}
			c.R.Shuffle(len(path), func(i, j int) { path[i], path[j] = path[j], path[i] })
			switch c.R.Intn(3) {
			case 0:
				path = append([]string{near}, path...)
			case 1:
				path = append([]string{dir}, path...)
			}
		}
		path = append(path, "/usr/bin", "/bin")
		opt.Env["PATH"] = strings.Join(path, ":")
		if lock != "" {
			sc.NoLibrary = true
			sc.Lockfile = lock
		}
		w.WriteYml()
		args := []string{cmdName}
		if cmdName == "add" {
			args = []string{"add", "--install", sc.Packages[0]}
		}
		switch c.R.Intn(5) {
		case 0:
			opt.Cwd = w.P("home")
			args = append(args, "--config", w.P("proj/pkgr.yml"))
		case 1:
			opt.Cwd = w.Dir
			args = append(args, "--config", "proj/pkgr.yml")
		}
		w.Own()
		pre := Snap{}
		if !sc.NoLib {
			pre = snapTree(w.Lib(), false)
		}
		out := w.PkgrOpt(opt, args...)
		if !c.finished(w, out, "C31/") {
			return
		}
		what := fmt.Sprintf("pkgr %s, R named by %s (RPath %q, PKGR_RPATH %q), lock file %q, PATH %s", strings.Join(args, " "), kind, sc.RPath, opt.Env["PKGR_RPATH"], lock, opt.Env["PATH"])
		for i, h := range homes {
			b, _ := os.ReadFile(filepath.Join(h, "events.jsonl"))
			if len(b) > 0 {
				c.Fail(w, "C31/other", "%s: the R in %s was started:\n%s", what, homes[i], tailStr(string(b), 600))
				return
			}
		}
		n := 0
		for _, e := range out.Events {
			if e.Ev != "start" {
				continue
			}
			n++
			if e.Kind != "install" && e.Kind != "session" {
				continue
			}
			if got := firstR(e.Env["PATH"]); !sameFile(got, w.P("R/bin/R")) {
				c.Fail(w, "C31/path", "%s: R %s for %q finds %q as R on its PATH %s", what, e.Kind, e.Pkg, got, e.Env["PATH"])
				return
			}
			c.Count("paths_judged", 1)
		}
		c.Count("r_processes_judged", n)
		if n == 0 {
			c.Fail(w, "C31/none", "%s: R was not started\n%s", what, tailStr(out.Stdout+out.Stderr, 1500))
			return
		}
		if cmdName == "run" {
			s := 0
			for _, e := range out.Events {
				if e.Ev == "start" && e.Kind == "session" {
					s++
				}
			}
			if s != 1 {
				c.Fail(w, "C31/run", "%s: %d sessions", what, s)
			}
		}
		// what was fetched and stored is for this version
		for _, r := range out.Reqs {
			if i := strings.Index(r.Path, "/contrib/"); i >= 0 && strings.Contains(r.Path, "/bin/linux/") {
				if !strings.Contains(r.Path, "/contrib/"+minor(sc.Ctl.RVersion)+"/") {
					c.Fail(w, "C31/version", "%s: %s was fetched, R has version %s", what, r.Path, sc.Ctl.RVersion)
					return
				}
			}
		}
		for k := range snapTree(w.Dir, false) {
			if i := strings.Index(k, "/binary/"); i >= 0 {
				if v := strings.Split(k[i+8:], "/")[0]; v != minor(sc.Ctl.RVersion) {
					c.Fail(w, "C31/version", "%s: %s is in the cache, R has version %s", what, k, sc.Ctl.RVersion)
					return
				}
			}
		}
		if cmdName == "install" || cmdName == "add" {
			lib := w.Lib()
			switch lock {
			case "renv":
				lib = w.P("proj/renvlib")
			case "packrat":
				lib = w.P("proj/packrat/lib", sc.Ctl.Platform, sc.Ctl.RVersion)
			}
			if bad := w.checkLibAt(lib, sc.Expect(pl, sc.Pre, sc.NoUpdate), pre); len(bad) > 0 {
				c.Fail(w, "C31/library", "%s\n%s\n%s", what, strings.Join(bad, "\n"), tailStr(out.Stdout+out.Stderr, 1500))
			}
		}
		c.Distinct(what)
		if c.I < 3 {
			c.Sample(map[string]any{"r": kind, "rpath": sc.RPath, "path": opt.Env["PATH"], "command": cmdName, "processes": n})
		}
	})
}
