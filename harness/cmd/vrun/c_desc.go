package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"vh/proto"
)

func init() {
	checks["C19"] = &Check{Fn: c19, Rule: "packages with generated DESCRIPTION files (field order, continuation lines, fields whose names or values look like pkgr's, stale pkgr fields, long lines, encodings, line ends) installed by every route: built, from the binary cache, as repository binary, as tarball, updated; compared field by field with the package's own; non-trivial: every installed package; distinct by DESCRIPTION and route"}
}

// dcfField is one field with its raw lines.
type dcfField struct{ name, text string }

func dcfFields(b []byte) []dcfField {
	var fs []dcfField
	for _, l := range strings.Split(strings.ReplaceAll(string(b), "\r\n", "\n"), "\n") {
		l = strings.TrimRight(l, " \t")
		if l == "" {
			continue
		}
		if (l[0] == ' ' || l[0] == '\t') && len(fs) > 0 {
			fs[len(fs)-1].text += "\n" + l
			continue
		}
		i := strings.IndexByte(l, ':')
		if i < 0 {
			fs = append(fs, dcfField{"?", l})
			continue
		}
		fs = append(fs, dcfField{l[:i], strings.TrimSpace(l[i+1:])})
	}
	return fs
}

func fieldsNamed(fs []dcfField, n string) []string {
	var l []string
	for _, f := range fs {
		if f.name == n {
			l = append(l, f.text)
		}
	}
	return l
}

var pkgrFields = map[string]bool{"PkgrVersion": true, "PkgrInstallType": true, "PkgrRepositoryURL": true}

// genDesc writes a DESCRIPTION file for p.
func genDesc(c *Case, p Pkg, repos []string) string {
	must := []string{"Package: " + p.Name, "Version: " + p.Version}
	var fs []string
	for _, l := range strings.Split(strings.TrimRight(p.depLines(), "\n"), "\n") {
		if l != "" {
			fs = append(fs, l)
		}
	}
	fs = append(fs, "License: GPL-3", "Title: Test Package", "Maintainer: nobody <nobody@example.org>", "Author: nobody")
	opt := []string{
		"Description: A package\n    made for tests.\n\tIt has tabs.",
		"Description: One line with PkgrVersion: 1.0 in it.",
		"Description: Next line looks like a field\n    Repository: Elsewhere\n    PkgrVersion: 0.1",
		"Description: Next line is a lone dot\n    .\n    after the dot",
		"Authors@R: c(\n    person(\"A\", \"B\", email = \"a@b.org\",\n           role = c(\"aut\", \"cre\")),\n    person(\"C\"))",
		"URL: https://example.org/a, https://example.org/b?x=1&y=2#z",
		"Encoding: UTF-8\nTitle2: Ünïcöde – 日本語",
		"RepositoryNote: kept",
		"Repository/R-Forge/Project: forge",
		"Repository/R-Forge/Revision: 12",
		"PkgrVersionNote: kept",
		"XPkgrVersion: kept",
		"pkgrversion: lower",
		"Config/testthat/edition: 3",
		"Config/Needs/website: x, y",
		"RoxygenNote: 7.3.1",
		"Collate: \n    'a.R'\n    'b.R'",
		"SystemRequirements: C++11, GNU make",
		"LongField: " + strings.Repeat("long ", 200+c.R.Intn(3000)),
		"HugeField: " + strings.Repeat("x", 70000),
		"Date/Publication: 2024-01-01 10:20:30 UTC",
		"NeedsCompilation: no",
		"Empty:",
		"BugReports: https://example.org/issues  ",
		"OriginalMaintainer: someone",
		"RemoteType: standard\nRemoteRepos: https://example.org",
	}
	seen := map[string]bool{}
	for i := 0; i < c.R.Intn(12); i++ {
		f := pick(c.R, opt)
		if n := f[:strings.IndexByte(f, ':')]; !seen[n] {
			seen[n] = true
			fs = append(fs, f)
		}
	}
	if c.R.Intn(3) > 0 {
		v := pick(c.R, append([]string{"CRAN", "RSPM", "https://x.r-universe.dev", "CRAN2", "C", "MPN-2020"}, repos...))
		fs = append(fs, pick(c.R, []string{"Repository: ", "Repository: ", "Repository: ", "Repository:", "Repository:  "})+v)
	}
	if c.R.Intn(4) == 0 { // of an earlier installation
		fs = append(fs, "PkgrVersion: 0.0.1", "PkgrInstallType: binary\n    and more", "PkgrRepositoryURL: http://old.example.org")
	}
	fs = shuffle(c.R, fs)
	all := append(must, fs...)
	if c.R.Intn(3) == 0 {
		all = append(append([]string{}, fs[:1]...), append(must, fs[1:]...)...)
	}
	s := strings.Join(all, "\n")
	switch c.R.Intn(5) {
	case 0:
	case 1:
		s += "\n\n"
	case 2:
		s = strings.ReplaceAll(s, "\n", "\r\n") + "\r\n"
	default:
		s += "\n"
	}
	return s
}

// checkDesc compares an installed DESCRIPTION with the package's own (own, after R's installation of it).
func checkDesc(got, own []dcfField, wantType, wantURL []string, repo string) []string {
	var bad []string
	one := func(n string, want []string) {
		v := fieldsNamed(got, n)
		if len(v) != 1 {
			bad = append(bad, fmt.Sprintf("%d fields %s: %q", len(v), n, v))
			return
		}
		for _, w := range want {
			if v[0] == w || (strings.HasSuffix(w, "*") && strings.HasPrefix(v[0], strings.TrimSuffix(w, "*"))) {
				return
			}
		}
		bad = append(bad, fmt.Sprintf("%s is %q, want %q", n, v[0], want))
	}
	one("PkgrVersion", []string{"9.8.7"})
	one("PkgrInstallType", wantType)
	one("PkgrRepositoryURL", wantURL)
	or, gr, go_ := fieldsNamed(own, "Repository"), fieldsNamed(got, "Repository"), fieldsNamed(got, "OriginalRepository")
	switch {
	case len(or) == 0:
		if len(gr) > 0 || len(go_) > 0 {
			bad = append(bad, fmt.Sprintf("the package had no Repository, now it is %q, original %q", gr, go_))
		}
	case repo == "": // a tarball
		if len(gr) != 1 || len(go_) > 1 || len(go_) == 1 && go_[0] != or[0] || len(go_) == 0 && gr[0] != or[0] {
			bad = append(bad, fmt.Sprintf("Repository was %q, now %q, original %q", or, gr, go_))
		}
	case or[0] == repo:
		if len(gr) != 1 || gr[0] != repo || len(go_) > 1 || len(go_) == 1 && go_[0] != repo {
			bad = append(bad, fmt.Sprintf("Repository was %q, as it must be, now %q, original %q", or, gr, go_))
		}
	default:
		if len(gr) != 1 || gr[0] != repo || len(go_) != 1 || go_[0] != or[0] {
			bad = append(bad, fmt.Sprintf("Repository was %q, must be %q; now %q, original %q", or, repo, gr, go_))
		}
	}
	keep := func(fs []dcfField) []dcfField {
		var l []dcfField
		for _, f := range fs {
			if !pkgrFields[f.name] && f.name != "Repository" && f.name != "OriginalRepository" {
				l = append(l, f)
			}
		}
		return l
	}
	a, b := keep(own), keep(got)
	for i := 0; i < len(a) || i < len(b); i++ {
		var x, y dcfField
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			bad = append(bad, fmt.Sprintf("field %d is %q: %q, the package has %q: %q", i, y.name, tailStr(y.text, 200), x.name, tailStr(x.text, 200)))
			break
		}
	}
	return bad
}

func c19(x *Ctx) {
	gen := func(c *Case, o GenOpt) (*Scenario, *Plan) {
		for {
			sc := Gen(c.R, o)
			pl := sc.Plan()
			if pl.Cyclic || len(pl.Missing) > 0 || sc.tarCycle(pl) {
				continue
			}
			var rn []string
			for _, r := range sc.Repos {
				rn = append(rn, r.Name)
			}
			for i := range sc.Repos {
				for _, l := range [][]Pkg{sc.Repos[i].Src, sc.Repos[i].Bin} {
					for j := range l {
						l[j].DescText = genDesc(c, l[j], rn)
					}
				}
			}
			for i := range sc.Tarballs {
				sc.Tarballs[i].DescText = genDesc(c, sc.Tarballs[i], rn)
			}
			for i := range sc.Pre {
				if c.R.Intn(2) == 0 {
					sc.Pre[i].Extra = "Repository: CRAN\nPkgrVersion: 1.2.3\nPkgrInstallType: source\nPkgrRepositoryURL: http://earlier.example.org\n"
				}
			}
			return sc, sc.Plan()
		}
	}
	judge := func(c *Case, w *World, sc *Scenario, pl *Plan, lib string, exp map[string]*Target, pre Snap, route string, cachedBins bool) {
		post := snapTree(lib, false)
		n := 0
		for _, name := range proto.SortedKeys(exp) {
			e := exp[name]
			if e.Kept {
				k := name + "/DESCRIPTION"
				if pre[k] != post[k] {
					c.Fail(w, "C19/untouched", "%s: the DESCRIPTION of %s, which pkgr did not install, changed", route, name)
				}
				continue
			}
			got, err := os.ReadFile(filepath.Join(lib, name, "DESCRIPTION"))
			if err != nil {
				c.Fail(w, "C19/installed", "%s: %s is not installed: %v", route, name, err)
				return
			}
			own := dcfFields([]byte(strings.TrimRight(e.Pkg.description(), "\n") + "\nBuilt: x\n"))
			g := dcfFields(got)
			for i := range g {
				if g[i].name == "Built" {
					g[i].text = "x"
				}
			}
			var typ, url []string
			repo := ""
			if e.Tar {
				typ, url = []string{"source"}, []string{w.CacheDir() + "*", w.P("proj/tarballs") + "*"}
			} else {
				ch := pl.Nodes[name]
				repo = ch.Repo.Name
				u := w.RepoURL(ch.Repo)
				url = []string{u, strings.TrimSuffix(u, "/")}
				typ = []string{"source"}
				if ch.Type == "bin" || cachedBins {
					typ = []string{"binary"}
				}
			}
			if bad := checkDesc(g, own, typ, url, repo); len(bad) > 0 {
				c.Fail(w, "C19/description", "%s: %s %s:\n%s\nthe package's own:\n%s\ninstalled:\n%s", route, name, e.Pkg.Version, strings.Join(bad, "\n"), tailStr(e.Pkg.description(), 1500), tailStr(string(got), 1500))
				return
			}
			n++
			c.Distinct(route + name + fmt.Sprint(len(own)) + e.Pkg.description()[:40])
		}
		c.Count("descriptions", n)
	}
	o := GenOpt{MinP: 2, MaxP: 9, Repos: 3, Bin: true, Pre: 0.4, Other: 2, Tar: 2, Sugg: true, Local: true, NoLib: 0.3, Pin: true}
	x.Cases("routes", x.N(120, 1500), 8, func(c *Case) {
		sc, pl := gen(c, o)
		w := c.World(sc)
		pre := snapTree(w.Lib(), false)
		out := w.Pkgr(c.installArgs()...)
		if !c.finished(w, out, "C19/") {
			return
		}
		exp := sc.Expect(pl, sc.Pre, sc.NoUpdate)
		judge(c, w, sc, pl, w.Lib(), exp, pre, "install", false)
		if c.failed {
			return
		}
		switch c.R.Intn(3) {
		case 0: // again
			a := snapTree(w.Lib(), false)
			w.Pkgr("install")
			for n, e := range exp {
				if !e.Tar {
					if d := diffSnap(a.sub(n), snapTree(w.Lib(), false).sub(n), 2); len(d) > 0 {
						c.Fail(w, "C19/untouched", "a second install changed %s: %v", n, d)
					}
				}
			}
		case 1: // another library from the cache
			sc2 := *sc
			sc2.LibPath = "lib2"
			sc2.Pre = nil
			w.Sc = &sc2
			w.WriteYml()
			first := exp
			out := w.Pkgr("install")
			if !c.finished(w, out, "C19/") {
				return
			}
			exp := sc2.Expect(pl, nil, sc.NoUpdate)
			for n := range exp {
				if f := first[n]; f != nil && f.Kept {
					delete(exp, n)
				}
			}
			judge(c, w, &sc2, pl, w.Lib(), exp, nil, "from cache", true)
		}
	})
	// the real R
	x.Cases("realR", x.N(5, 30), 5, func(c *Case) {
		sc, pl := gen(c, GenOpt{MinP: 2, MaxP: 4, Repos: 1, Tar: 1, NoLib: 1})
		sc.UseRealR = true
		sc.Ctl.RVersion = "4.3.3"
		fix := func(p *Pkg) { // R is stricter
			d := strings.ReplaceAll(p.DescText, "\r\n", "\n")
			for _, s := range []string{"Collate: \n    'a.R'\n    'b.R'\n", "Collate: \n    'a.R'\n    'b.R'", "Empty:\n"} {
				d = strings.ReplaceAll(d, s, "")
			}
			i := strings.Index(d, "Authors@R")
			if i >= 0 {
				d = strings.ReplaceAll(d, "Authors@R", "Config/AuthorsR")
			}
			p.DescText = strings.TrimRight(d, "\n") + "\n"
		}
		for i := range sc.Repos[0].Src {
			fix(&sc.Repos[0].Src[i])
		}
		for i := range sc.Tarballs {
			fix(&sc.Tarballs[i])
		}
		pl = sc.Plan()
		if len(pl.Missing) > 0 || !sc.closed(pl) { // with this R
			return
		}
		w := c.World(sc)
		out := w.Pkgr("install")
		if !c.finished(w, out, "C19/") {
			return
		}
		exp := sc.Expect(pl, nil, false)
		if bad := w.realLib(exp); len(bad) > 0 {
			c.Fail(w, "C19/real-R", "with the real R: %s\n%s", strings.Join(bad, "\n"), tailStr(out.Stdout+out.Stderr, 3000))
			return
		}
		// what R alone makes of them
		ref := w.P("ref")
		must(os.MkdirAll(ref, 0755))
		for _, n := range proto.SortedKeys(exp) {
			e := exp[n]
			f := w.P("reftar", srcFile(e.Pkg))
			q := e.Pkg
			q.Depends, q.Imports, q.LinkingTo = nil, nil, nil
			writeFile(f, q.srcTar(e.Payload), 0644)
			cmd := exec.Command("/usr/bin/R", "--vanilla", "CMD", "INSTALL", "--no-docs", "--library="+ref, f)
			cmd.Env = append(w.Env(nil), "R_LIBS="+w.Lib())
			if b, err := cmd.CombinedOutput(); err != nil {
				c.Incon("R alone cannot install %s: %s", n, tailStr(string(b), 500))
				return
			}
			strip := func(fs []dcfField) []dcfField {
				for i := range fs {
					if fs[i].name == "Built" || fs[i].name == "Packaged" {
						fs[i].text = "x"
					}
				}
				return fs
			}
			own, _ := os.ReadFile(filepath.Join(ref, n, "DESCRIPTION"))
			got, _ := os.ReadFile(filepath.Join(w.Lib(), n, "DESCRIPTION"))
			typ, url, repo := []string{"source"}, []string{w.CacheDir() + "*"}, ""
			if !e.Tar {
				repo = pl.Nodes[n].Repo.Name
				url = []string{w.RepoURL(pl.Nodes[n].Repo), strings.TrimSuffix(w.RepoURL(pl.Nodes[n].Repo), "/")}
			}
			if bad := checkDesc(strip(dcfFields(got)), strip(dcfFields(own)), typ, url, repo); len(bad) > 0 {
				c.Fail(w, "C19/real-R", "with the real R: %s:\n%s\nby R alone:\n%s\nby pkgr:\n%s", n, strings.Join(bad, "\n"), tailStr(string(own), 1500), tailStr(string(got), 1500))
				return
			}
			c.Count("real_R_descriptions", 1)
			c.Distinct("real" + n + fmt.Sprint(len(own)))
		}
	})
}
