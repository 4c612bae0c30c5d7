package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"vh/proto"
)

func init() {
	checks["C21"] = &Check{Fn: c21, Rule: "every path setting spelled in every documented way (relative, ~, $VAR, ${VAR}, absolute) and pkgr started from several directories with several spellings of --config; every setting that flags or PKGR_* variables override, in all combinations; renv and packrat lockfiles; non-trivial: every case; distinct by spelling and combination"}
}

// spell writes the absolute path p below the world as a configuration value.
func spell(c *Case, w *World, p string) (string, string) {
	rel, _ := filepath.Rel(w.P("proj"), p)
	home, errH := filepath.Rel(w.P("home"), p)
	base, _ := filepath.Rel(w.Dir, p)
	k := c.R.Intn(8)
	if strings.HasPrefix(home, "..") || errH != nil {
		if k == 3 || k == 4 {
			k = 0
		}
	} else if c.R.Intn(3) > 0 {
		k = 3
	}
	switch k {
	case 1:
		return "./" + rel, "dotrel"
	case 2:
		return "descs/../" + rel, "dotdot"
	case 3:
		return "~/" + home, "tilde"
	case 4:
		return "$HOME/" + home, "home"
	case 5:
		return "$VWORLD/" + base, "var"
	case 6:
		return "${VWORLD}/" + base, "bracevar"
	case 7:
		return p, "abs"
	}
	return rel, "rel"
}

func copyTree(from, to string) {
	must(filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if fi.IsDir() {
			return os.MkdirAll(filepath.Join(to, rel), 0755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		writeFile(filepath.Join(to, rel), b, fi.Mode().Perm())
		return nil
	}))
}

func c21(x *Ctx) {
	x.Cases("paths", x.N(120, 1500), 8, func(c *Case) {
		var sc *Scenario
		var pl *Plan
		for {
			sc = Gen(c.R, GenOpt{MinP: 2, MaxP: 6, Repos: 2, Pre: 0.3, Other: 1, Tar: 2, Desc: 2, Local: true, Bin: true, NoLib: 0.5})
			pl = sc.Plan()
			if !pl.Cyclic && len(pl.Missing) == 0 && !sc.tarCycle(pl) {
				break
			}
		}
		w := c.World(sc)
		var note []string
		sp := func(what, p string) string {
			s, k := spell(c, w, p)
			note = append(note, what+":"+k)
			return s
		}
		places := func(n string) string {
			return w.P(pick(c.R, []string{"proj", "proj/sub", "ext", "home", "home/deep/er"}), n)
		}
		for _, d := range []string{"proj/sub", "proj/descs", "proj/lib", "ext", "home/deep/er", "cwd"} {
			must(os.MkdirAll(w.P(d), 0755))
		}
		lib, cache := places("the.lib"), places("my cache")
		if !sc.NoLib {
			must(os.Rename(w.P("proj/lib"), lib))
		}
		logAll, logInst := "", ""
		if c.R.Intn(2) == 0 {
			logAll = places("all.log")
		}
		if c.R.Intn(3) == 0 {
			logInst = places("install.log")
		}
		var b strings.Builder
		f := func(s string, a ...any) { fmt.Fprintf(&b, s, a...) }
		f("Version: 1\nPackages:\n")
		for _, p := range sc.Packages {
			f("  - %s\n", p)
		}
		f("Repos:\n")
		for i := range sc.Repos {
			r := &sc.Repos[i]
			u := w.RepoURL(r)
			if r.Kind == "local" {
				at := places("repo." + r.Name)
				copyTree(w.P("repos", r.dir()), at)
				u = sp("repo", at)
			}
			f("  - %s: %s\n", r.Name, yq(u))
		}
		rmTree(w.P("repos"))
		f("Library: %s\nCache: %s\n", yq(sp("lib", lib)), yq(sp("cache", cache)))
		if len(sc.Tarballs) > 0 {
			f("Tarballs:\n")
			for _, t := range sc.Tarballs {
				n := t.Name + "_" + t.Version + ".tar.gz"
				at := places("tars/" + n)
				must(os.MkdirAll(filepath.Dir(at), 0755))
				must(os.Rename(w.P("proj/tarballs", n), at))
				f("  - %s\n", yq(sp("tarball", at)))
			}
		}
		if len(sc.Descs) > 0 {
			f("Descriptions:\n")
			for _, d := range sc.Descs {
				at := places("dd/" + d.Name + "/DESCRIPTION")
				must(os.MkdirAll(filepath.Dir(at), 0755))
				must(os.Rename(w.P("proj/descs", d.Name, "DESCRIPTION"), at))
				f("  - %s\n", yq(sp("desc", at)))
			}
		}
		if logAll != "" || logInst != "" {
			f("Logging:\n")
			if logAll != "" {
				f("  %s: %s\n", pick(c.R, []string{"all", "All"}), yq(sp("all", logAll)))
			}
			if logInst != "" {
				f("  %s: %s\n", pick(c.R, []string{"install", "Install"}), yq(sp("install", logInst)))
			}
		}
		env := map[string]string{"VWORLD": w.Dir}
		rp := w.P("R/bin/R")
		if c.R.Intn(3) == 0 { // an R that is not on the PATH
			env["PATH"] = "/usr/bin:/bin"
			must(os.MkdirAll(w.P("home/optR"), 0755))
			must(os.Symlink(w.P("R/bin/R"), w.P("home/optR/R")))
			rp = w.P("home/optR/R")
			v := pick(c.R, []string{rp, "~/optR/R", "$VWORLD/home/optR/R", "${HOME}/optR/R"})
			f("%s: %s\n", pick(c.R, []string{"RPath", "Rpath"}), yq(v))
			note = append(note, "rpath")
		}
		// the rest as the scenario has it
		rest := *sc
		rest.Packages, rest.Tarballs, rest.Descs, rest.LogAll, rest.LogInstall, rest.LogLevel, rest.RPath, rest.ExtraYml = nil, nil, nil, "", "", "", "", ""
		rest.NoLibrary, rest.XDGCache = true, true
		y := rest.yml(w)
		if i := strings.Index(y, "Packages:\n"); i >= 0 {
			y = y[i+len("Packages:\n"):]
		}
		// drop its Repos block
		var keep []string
		skip := false
		for _, l := range strings.Split(y, "\n") {
			if l == "Repos:" {
				skip = true
				continue
			}
			if skip && strings.HasPrefix(l, "  - ") {
				continue
			}
			skip = false
			keep = append(keep, l)
		}
		f("%s", strings.Join(keep, "\n"))
		name := pick(c.R, []string{"pkgr.yml", "pkgr.yml", "other.yml", "conf.yaml"})
		os.Remove(w.P("proj/pkgr.yml"))
		writeFile(w.P("proj", name), []byte(b.String()), 0644)
		must(os.Symlink(w.P("proj"), w.P("home/projlink")))
		// decoys where a wrong base directory would lead
		for _, d := range []string{"home", "cwd", "ext", "proj/sub"} {
			if c.R.Intn(2) == 0 {
				writeFile(w.P(d, "pkgr.yml"), []byte("Version: 1\nPackages:\n  - decoy\nRepos:\n  - CRAN: \"http://127.0.0.1:9/decoy\"\nLibrary: decoylib\n"), 0644)
			}
		}
		w.Own()
		cwd := pick(c.R, []string{"proj", "proj", "proj/sub", "home", "cwd", "ext"})
		opt := RunOpt{Cwd: w.P(cwd), Env: env}
		var args []string
		rel, _ := filepath.Rel(opt.Cwd, w.P("proj", name))
		cfgs := []string{rel, rel, w.P("proj", name), "~/projlink/" + name, w.P("ext/../proj", name)}
		if cwd == "proj" {
			cfgs = append(cfgs, "./"+name, "../proj/"+name, name)
		}
		cf := pick(c.R, cfgs)
		if cwd != "proj" || name != "pkgr.yml" || c.R.Intn(2) == 0 {
			args = pick(c.R, [][]string{{"--config", cf}, {"--config=" + cf}})
		} else {
			cf = "default"
		}
		note = append(note, "cwd:"+cwd, "config:"+strings.ReplaceAll(cf, w.Dir, "@"))
		pre := snapTree(lib, false)
		before := snapTree(w.Dir, false)
		out := w.PkgrOpt(opt, append(args, "install")...)
		if !c.finished(w, out, "C21/") {
			return
		}
		exp := sc.Expect(pl, sc.Pre, sc.NoUpdate)
		what := strings.Join(note, " ")
		if bad := w.checkLibAt(lib, exp, pre); len(bad) > 0 {
			c.Fail(w, "C21/paths", "%s: the library at %s is not as it must be:\n%s\n%s\n%s", what, lib, strings.Join(bad, "\n"), b.String(), tailStr(out.Stdout+out.Stderr, 1500))
			return
		}
		installed := 0
		for _, e := range out.Events {
			if e.Kind == "install" && e.Ev == "start" {
				installed++
			}
			if e.Ev == "start" && e.Kind != "rscript" && e.Arg0 != rp && e.Arg0 != "R" {
				c.Fail(w, "C21/rpath", "%s: pkgr ran %s, the configuration says %s", what, e.Arg0, rp)
			}
		}
		// nothing anywhere else
		for k := range snapTree(w.Dir, false) {
			p := w.P(k)
			in := func(d string) bool { return d != "" && (p == d || strings.HasPrefix(p, d+"/")) }
			if _, was := before[k]; was || in(lib) || in(cache) || in(logAll) || in(logInst) || in(w.P("tmp")) || in(w.P("xdg")) || in(w.P("R")) {
				continue
			}
			c.Fail(w, "C21/elsewhere", "%s: %s was created", what, p)
		}
		for what2, l := range map[string]string{"install": logInst, "all": logAll} {
			if l == "" || (what2 == "all" && logInst != "") {
				continue
			}
			if fi, err := os.Stat(l); err != nil || fi.Size() == 0 {
				c.Fail(w, "C21/log", "%s: no log file at %s", what, l)
			}
		}
		if _, err := os.Stat(cache); err != nil && installed > 0 {
			c.Fail(w, "C21/cache", "%s: no cache at %s", what, cache)
		}
		c.Count("paths_spelled", len(note))
		c.Distinct(what + planSig(pl))
		if c.I < 3 {
			c.Sample(map[string]any{"spellings": note})
		}
	})

	// which value counts when several are given
	flagArgs := func(c *Case, name string, v int) []string { // -1 not given, 0 false, 1 true
		switch v {
		case 0:
			return []string{"--" + name + "=false"}
		case 1:
			return []string{pick(c.R, []string{"--" + name, "--" + name + "=true"})}
		}
		return nil
	}
	eff := func(conf, flag int) bool {
		if flag >= 0 {
			return flag == 1
		}
		return conf == 1
	}
	var combos [][3]int
	for k := 0; k < 5; k++ {
		for conf := -1; conf <= 1; conf++ {
			for flag := -1; flag <= 1; flag++ {
				combos = append(combos, [3]int{k, conf, flag})
			}
		}
	}
	x.Cases("flags", x.N(len(combos)*2, len(combos)*12), 8, func(c *Case) {
		k, conf, flag := combos[c.I%len(combos)][0], combos[c.I%len(combos)][1], combos[c.I%len(combos)][2]
		setting := []string{"NoUpdate", "NoRollback", "Strict", "NoSecure", "NoUpdate"}[k]
		name := []string{"no-update", "no-rollback", "strict", "no-secure", "update"}[k]
		sc := &Scenario{Ctl: proto.Control{RVersion: "4.3.1", Platform: defPlatform},
			Repos:    []Repo{{Name: "CRAN", Src: []Pkg{{Name: "aa", Version: "2.0"}, {Name: "bb", Version: "1.0", Imports: []string{"aa"}}, {Name: "cc", Version: "1.0"}}}},
			Packages: []string{"bb", "cc"}, Pre: []Pkg{{Name: "aa", Version: "1.0"}, {Name: "other", Version: "1.0"}}}
		if conf >= 0 {
			sc.ExtraYml = fmt.Sprintf("%s: %v\n", setting, conf == 1)
		}
		want := eff(conf, flag)
		switch k {
		case 1:
			sc.Ctl.Fail = map[string]string{"bb/src": "clean"}
		case 2:
			sc.NoLib = true
		case 3:
			sc.Repos[0].Kind = "https"
		}
		w := c.World(sc)
		pre := snapTree(w.Lib(), false)
		args := flagArgs(c, name, flag)
		if k == 4 && flag == 0 {
			args = nil // --update=false says nothing
		}
		if c.R.Intn(2) == 0 {
			args = append(args, "install")
		} else {
			args = append([]string{"install"}, args...)
		}
		out := w.Pkgr(args...)
		if !c.finished(w, out, "C21/") {
			return
		}
		l := proto.ScanLib(w.Lib())
		what := fmt.Sprintf("%s in the configuration: %s, command line: %v", setting, []string{"absent", "false", "true"}[conf+1], args)
		has := func(p, v string) bool { return l.Pkgs[p].V == v }
		bad := ""
		switch k {
		case 0:
			if want != has("aa", "1.0") || want == has("aa", "2.0") || !has("bb", "1.0") || !has("cc", "1.0") {
				bad = fmt.Sprintf("updates must be disabled: %v", want)
			}
		case 4: // --update enables updates whatever the configuration says
			upd := conf != 1 || flag == 1
			if upd != has("aa", "2.0") || upd == has("aa", "1.0") || !has("bb", "1.0") {
				bad = fmt.Sprintf("updates must be enabled: %v", upd)
			}
		case 1:
			d := diffSnap(pre, snapTree(w.Lib(), false), 3)
			if want != (len(d) > 0) || want && !has("aa", "2.0") {
				bad = fmt.Sprintf("rollback must be disabled: %v; the library changed: %v", want, d)
			}
		case 2:
			if want != (out.Exit != 0) || want == has("bb", "1.0") {
				bad = fmt.Sprintf("strict must be %v, exit %d", want, out.Exit)
			}
		case 3:
			if want != has("bb", "1.0") || !want && len(diffSnap(pre, snapTree(w.Lib(), false), 1)) > 0 {
				bad = fmt.Sprintf("certificates must be ignored: %v", want)
			}
		}
		if bad != "" {
			c.Fail(w, "C21/flags", "%s: %s; the library has %v", what, bad, l.Pkgs)
		}
		c.Distinct(what)
	})

	x.Cases("library", x.N(64, 700), 8, func(c *Case) {
		conf, lock, env, flag := c.I&1 > 0, []string{"", "renv", "packrat", "pkgr"}[c.R.Intn(4)], c.I&2 > 0, c.I&4 > 0
		if !conf && lock == "" && !env && !flag {
			conf = true
		}
		if !conf && lock == "pkgr" && !env && !flag {
			lock = "renv"
		}
		sc := &Scenario{Ctl: proto.Control{RVersion: pick(c.R, []string{"4.3.1", "4.10.2", "3.6.0"}), Platform: pick(c.R, []string{defPlatform, "x86_64-redhat-linux-gnu"})},
			Repos: []Repo{{Name: "CRAN", Src: []Pkg{{Name: "aa", Version: "2.0"}}}}, Packages: []string{"aa"}, NoLibrary: !conf, LibPath: "conf/lib", NoLib: true, Lockfile: lock}
		w := c.World(sc)
		sc.Ctl.RenvLib = w.P("renv place", "library/R-4.3")
		sc.Ctl.RenvNoise = pick(c.R, []string{"", "- Project '~/x' loaded. [renv 1.0.0]\n", "* The library is already synchronized with the lockfile.\n_pkg\n", "warning: _pkgr_ or not\n"})
		w.WriteCtl()
		args, opt := []string{}, RunOpt{Env: map[string]string{}}
		want := ""
		switch lock {
		case "renv":
			want = sc.Ctl.RenvLib
		case "packrat":
			want = w.P("proj/packrat/lib", sc.Ctl.Platform, sc.Ctl.RVersion)
		}
		if conf {
			want = w.P("proj/conf/lib")
		}
		if env {
			opt.Env["PKGR_LIBRARY"] = pick(c.R, []string{w.P("env/lib"), "~/../env/lib", "../env/lib"})
			want = w.P("env/lib")
		}
		if flag {
			want = w.P("flag/lib")
			v := pick(c.R, []string{want, "~/../flag/lib", "../flag/lib"})
			args = append(args, pick(c.R, [][]string{{"--library", v}, {"--library=" + v}})...)
		}
		if c.R.Intn(2) == 0 {
			opt.Cwd = w.P("home")
			args = append(args, "--config", w.P("proj/pkgr.yml"))
		}
		args = append(args, "install")
		w.Own()
		before := snapTree(w.Dir, false)
		out := w.PkgrOpt(opt, args...)
		if !c.finished(w, out, "C21/") {
			return
		}
		what := fmt.Sprintf("Library set: %v, Lockfile %q, PKGR_LIBRARY set: %v, command line %v", conf, lock, env, args)
		if got := proto.ScanLib(want).Pkgs["aa"].V; got != "2.0" {
			c.Fail(w, "C21/library", "%s: the package is not in %s\n%s", what, want, tailStr(out.Stdout+out.Stderr, 1500))
			return
		}
		for k := range snapTree(w.Dir, false) {
			p := w.P(k)
			if _, was := before[k]; was || strings.HasPrefix(want, p) || strings.HasPrefix(p, want+"/") || strings.HasPrefix(p, w.P("xdg")) || strings.HasPrefix(p, w.P("tmp")) || strings.HasPrefix(p, w.P("pc")) || strings.HasPrefix(p, w.P("R")) {
				continue
			}
			c.Fail(w, "C21/library", "%s: %s was created, the library is %s", what, p, want)
		}
		if !conf && !env && !flag && lock == "renv" {
			for _, e := range out.Events {
				if e.Kind == "rscript" && e.Ev == "start" && !samePath(e.Cwd, w.P("proj")) {
					c.Fail(w, "C21/renv", "%s: renv was asked in %s, the project is %s", what, e.Cwd, w.P("proj"))
				}
			}
		}
		c.Distinct(what + sc.Ctl.RVersion + sc.Ctl.RenvNoise)
	})

	x.Cases("rpath", x.N(24, 200), 8, func(c *Case) {
		conf, env := c.I&1 > 0, c.I&2 > 0
		sc := &Scenario{Ctl: proto.Control{RVersion: "4.3.1", Platform: defPlatform},
			Repos: []Repo{{Name: "CRAN", Src: []Pkg{{Name: "aa", Version: "2.0"}}}}, Packages: []string{"aa"}}
		w := c.World(sc)
		for _, n := range []string{"R conf", "R-env"} {
			must(os.MkdirAll(w.P(n, "bin"), 0755))
			must(os.Symlink(w.P("R/bin/R"), w.P(n, "bin/R")))
		}
		want := "R"
		opt := RunOpt{Env: map[string]string{"VWORLD": w.Dir}}
		if conf {
			want = w.P("R conf/bin/R")
			sc.RPath = pick(c.R, []string{want, "~/../R conf/bin/R", "$VWORLD/R conf/bin/R", "${VWORLD}/R conf/bin/R", want + "/"})
		}
		if env {
			want = w.P("R-env/bin/R")
			opt.Env["PKGR_RPATH"] = pick(c.R, []string{want, "~/../R-env/bin/R"})
		}
		w.WriteYml()
		out := w.PkgrOpt(opt, pick(c.R, []string{"install", "plan", "run"}))
		if !c.finished(w, out, "C21/") {
			return
		}
		what := fmt.Sprintf("RPath %q, PKGR_RPATH %q, pkgr %v", sc.RPath, opt.Env["PKGR_RPATH"], out.Args)
		n := 0
		for _, e := range out.Events {
			if e.Ev != "start" {
				continue
			}
			n++
			if e.Arg0 != want {
				c.Fail(w, "C21/rpath", "%s: R is %s, must be %s", what, e.Arg0, want)
				return
			}
		}
		if n == 0 {
			c.Fail(w, "C21/rpath", "%s: no R was run\n%s", what, tailStr(out.Stdout+out.Stderr, 800))
		}
		c.Distinct(what)
	})

	x.Cases("threads", x.N(16, 120), 2, func(c *Case) {
		sc := &Scenario{Ctl: proto.Control{RVersion: "4.3.1", Platform: defPlatform, DelayMs: map[string]int{"*": 120}}, Repos: []Repo{{Name: "CRAN"}}}
		for i := 0; i < 8; i++ {
			p := Pkg{Name: fmt.Sprintf("par%d", i), Version: "1.0"}
			sc.Repos[0].Src = append(sc.Repos[0].Src, p)
			sc.Packages = append(sc.Packages, p.Name)
		}
		flag := 0
		if c.I%2 == 0 { // small in the configuration, large on the command line
			sc.Threads, flag = 1, 3+c.R.Intn(3)
		} else {
			sc.Threads, flag = 4+c.R.Intn(4), 1+c.R.Intn(2)
		}
		w := c.World(sc)
		out := w.Pkgr("install", "--threads", fmt.Sprint(flag))
		if !c.finished(w, out, "C21/") {
			return
		}
		m := maxOverlap(installs(out.Events))
		if m > flag || m < 2 && flag > 1 {
			c.Fail(w, "C21/threads", "Threads: %d with --threads %d: at most %d R processes at once", sc.Threads, flag, m)
		}
		c.Distinct(fmt.Sprint(sc.Threads, flag))
	})
}
