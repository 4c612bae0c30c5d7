package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"vh/proto"
)

func init() {
	checks["C08"] = &Check{Fn: c08, Rule: "2-4 overlapping repositories (http, local, with and without binaries) with pins and type settings, answering in random order; requests and installed payloads compared with the reference choice, again with everything unordered shuffled and with cached indexes; non-trivial: some package is offered by several repositories or types; distinct by plan"}
	checks["C09"] = &Check{Fn: c09, Rule: "libraries in which most planned packages are there in older, equal or newer versions; every way to enable or disable updates; non-trivial: at least one preinstalled package; distinct by plan, library and setting"}
	checks["C10"] = &Check{Fn: c10, Rule: "plan (JSON log) compared with what the install after it did to the library, and with snapshots of everything before it; non-trivial: the install changed something or kept something; distinct by plan and library"}
	checks["C24"] = &Check{Fn: c24, Rule: "pairs of versions (installed, offered) and pairs of R requirement and R version, many per world, judged by what install replaced or installed; distinct by pair"}
	checks["C28"] = &Check{Fn: c28, Rule: "generated graphs with Suggests, IgnorePackages, NoRecommended and unavailable dependencies; planned (and installed) set compared with the reference closure; distinct by plan and settings"}
}

// overlap tells whether the choice of a repository or type is a real one.
func overlap(sc *Scenario, pl *Plan) int {
	n := 0
	for p := range pl.Nodes {
		k := 0
		for i := range sc.Repos {
			if sc.offers(sc.Repos[i].Src, p) != nil {
				k++
			}
			if sc.offers(sc.Repos[i].Bin, p) != nil {
				k++
			}
		}
		if k > 1 {
			n++
		}
	}
	return n
}

// repoFaults delays the answers of the repositories at random.
func repoDelays(r *rand.Rand, sc *Scenario, ms int) {
	sc.Faults = nil
	for i := range sc.Repos {
		rp := &sc.Repos[i]
		for _, d := range []string{"/src/contrib/", "/bin/"} {
			if r.Intn(3) > 0 {
				sc.Faults = append(sc.Faults, &Fault{Contain: rp.dir() + d, Suffix: "PACKAGES", DelayMs: r.Intn(ms)})
			}
			if r.Intn(3) == 0 {
				sc.Faults = append(sc.Faults, &Fault{Contain: rp.dir() + d, Suffix: ".tar.gz", DelayMs: r.Intn(ms)})
			}
		}
	}
}

func c08(x *Ctx) {
	judge := func(c *Case, w *World, sc *Scenario, pl *Plan, out *RunOut, what string, fetched bool) {
		exp := sc.Expect(pl, sc.Pre, sc.NoUpdate)
		lib := proto.ScanLib(w.Lib())
		var bad []string
		want := map[string]bool{}
		for n, ch := range pl.Nodes {
			t := exp[n]
			if t.From != nil && lib.Pkgs[n].P != t.Payload {
				bad = append(bad, fmt.Sprintf("%s was installed from %q, the configuration dictates %q", n, lib.Pkgs[n].P, t.Payload))
			}
			if ch.Repo.Kind == "local" {
				continue
			}
			if ch.Type == "bin" {
				want[ch.Repo.dir()+"/"+w.binDir(ch.Repo)+"/"+binFile(ch.Pkg)] = true
			} else {
				want[ch.Repo.dir()+"/src/contrib/"+srcFile(ch.Pkg)] = true
			}
		}
		for _, p := range installs(out.Events) {
			if ch := pl.Nodes[p.S.Pkg]; ch != nil && p.S.Pass != "dir" && p.S.Payload != ch.Payload {
				bad = append(bad, fmt.Sprintf("R was given %s (%s) for %s, the configuration dictates %s", p.S.Payload, p.S.Pass, p.S.Pkg, ch.Payload))
			}
		}
		for _, q := range pkgReqs(out.Reqs) {
			if !want[q.Path] {
				bad = append(bad, "requested "+q.Path+", which no package of the plan is to come from")
			}
		}
		if len(bad) > 0 {
			sort.Strings(bad)
			c.Fail(w, "C08/choice", "%s: %s\n%s", what, strings.Join(bad, "\n"), tailStr(out.Stderr, 600))
		}
		c.Count("requests_judged", len(out.Reqs))
		c.Count("packages_judged", len(pl.Nodes))
	}
	run := func(c *Case, o GenOpt) {
		sc := Gen(c.R, o)
		pl := sc.Plan()
		repoDelays(c.R, sc, 40)
		w := c.World(sc)
		out := w.Pkgr(c.installArgs()...)
		if !c.finished(w, out, "C08/") {
			return
		}
		judge(c, w, sc, pl, out, "first run", true)
		// the same with another order of everything that has none, into an empty library
		sc2 := *sc
		sc2.Packages = shuffle(c.R, sc.Packages)
		sc2.Repos = nil
		for _, r := range sc.Repos {
			r.Src, r.Bin = shuffle(c.R, r.Src), shuffle(c.R, r.Bin)
			sc2.Repos = append(sc2.Repos, r)
		}
		sc2.Tarballs = shuffle(c.R, sc.Tarballs)
		sc2.Pre, sc2.PreFiles = nil, nil
		pl2 := sc2.Plan()
		repoDelays(c.R, &sc2, 40)
		w2 := c.World(&sc2)
		out = w2.Pkgr("install")
		if !c.finished(w2, out, "C08/") {
			return
		}
		judge(c, w2, &sc2, pl2, out, "shuffled", true)
		// from the cached indexes, into another library, with new requests for packages
		sc2.LibPath = "lib2"
		w2.WriteYml()
		if c.R.Intn(2) == 0 {
			rmTree(w2.CacheDir())
		}
		out = w2.Pkgr("install")
		if !c.finished(w2, out, "C08/") {
			return
		}
		judge(c, w2, &sc2, pl2, out, "cached indexes", false)
		if overlap(sc, pl) > 0 {
			c.Count("packages_with_alternatives", overlap(sc, pl))
			c.Distinct(planSig(pl))
		}
		if c.I < 3 {
			c.Sample(map[string]any{"repos": len(sc.Repos), "plan": planSig(pl), "cust": sc.Cust})
		}
	}
	o := fullGen
	o.Repos, o.Pre, o.Tar, o.MinP, o.MaxP, o.Desc = 4, 0.15, 1, 4, 14, 1
	x.Cases("full", x.N(70, 900), 8, func(c *Case) { run(c, o) })
	// every package everywhere
	x.Cases("everywhere", x.N(40, 500), 8, func(c *Case) {
		oo := o
		oo.MinP, oo.MaxP = 4, 10
		sc := Gen(c.R, oo)
		var all []Pkg
		seen := map[string]bool{}
		for _, r := range sc.Repos {
			for _, p := range append(append([]Pkg{}, r.Src...), r.Bin...) {
				if !seen[p.Name] {
					seen[p.Name] = true
					all = append(all, p)
				}
			}
		}
		for i := range sc.Repos {
			r := &sc.Repos[i]
			add := func(l []Pkg, share float64) []Pkg {
				have := map[string]bool{}
				for _, p := range l {
					have[p.Name] = true
				}
				for _, p := range all {
					if !have[p.Name] && chance(c.R, share) {
						p.Version = genVersion(c.R)
						l = append(l, p)
					}
				}
				return shuffle(c.R, l)
			}
			r.Src = add(r.Src, 0.9)
			if r.RepoType == "MPN" {
				r.Bin = add(r.Bin, 0.8)
			}
		}
		pl := sc.Plan()
		if pl.Cyclic || len(pl.Missing) > 0 || sc.tarCycle(pl) {
			return
		}
		sc.Pre = nil
		repoDelays(c.R, sc, 40)
		w := c.World(sc)
		out := w.Pkgr("install")
		if !c.finished(w, out, "C08/") {
			return
		}
		judge(c, w, sc, pl, out, "every package everywhere", true)
		if overlap(sc, pl) > 0 {
			c.Count("packages_with_alternatives", overlap(sc, pl))
			c.Distinct(planSig(pl))
		}
	})
}

func c09(x *Ctx) {
	run := func(c *Case, o GenOpt) {
		sc := Gen(c.R, o)
		pl := sc.Plan()
		sc.NoUpdate = false
		noup := false
		var args []string
		switch c.R.Intn(8) {
		case 0:
			sc.NoUpdate, noup = true, true
		case 1:
			args, noup = []string{"--no-update"}, true
		case 2:
			args, noup = []string{"--no-update=true"}, true
			sc.NoUpdate = c.R.Intn(2) == 0
		case 3:
			sc.ExtraYml = "NoUpdate: false\n"
		}
		w := c.World(sc)
		pre := snapTree(w.Lib(), true)
		exp := sc.Expect(pl, sc.Pre, noup)
		out := w.Pkgr(append(args, c.installArgs()...)...)
		if !c.finished(w, out, "C09/") {
			return
		}
		post := snapTree(w.Lib(), true)
		lib := proto.ScanLib(w.Lib())
		var bad []string
		for _, p := range sc.Pre {
			t := exp[p.Name]
			if t.Kept {
				if d := diffSnap(pre.sub(p.Name), post.sub(p.Name), 3); len(d) > 0 {
					off := "not in the plan"
					if pl.Nodes[p.Name] != nil {
						off = "offered " + pl.Nodes[p.Name].Pkg.Version
					}
					bad = append(bad, fmt.Sprintf("%s %s (%s, updating disabled: %v) was touched: %s", p.Name, p.Version, off, noup, strings.Join(d, "; ")))
				}
				c.Count("kept", 1)
			} else {
				if lib.Pkgs[p.Name].P != t.Payload {
					bad = append(bad, fmt.Sprintf("%s %s is not replaced by %s, there is %q", p.Name, p.Version, t.Payload, lib.Pkgs[p.Name].P))
				}
				c.Count("replaced", 1)
			}
		}
		for _, i := range installs(out.Events) {
			if t := exp[i.S.Pkg]; t != nil && t.Kept {
				bad = append(bad, fmt.Sprintf("R was asked to install %s %s, the library has %s", i.S.Pkg, i.S.Ver, t.Pkg.Version))
			}
		}
		if len(bad) > 0 {
			sort.Strings(bad)
			c.Fail(w, "C09/update", "%s", strings.Join(bad, "\n"))
		}
		if len(sc.Pre) > 0 {
			c.Distinct(planSig(pl) + fmt.Sprint(sc.Pre, noup, args))
		}
		if c.I < 3 {
			c.Sample(map[string]any{"plan": planSig(pl), "pre": sc.Pre, "updating_disabled": noup})
		}
	}
	o := fullGen
	o.Pre, o.Other, o.MinP, o.MaxP, o.NoLib = 0.9, 4, 3, 14, 0
	x.Cases("mixed", x.N(120, 1500), 8, func(c *Case) { run(c, o) })
	o.Bin, o.Wide, o.MinP, o.MaxP, o.Tar = false, true, 10, 24, 0
	x.Cases("wide", x.N(40, 500), 8, func(c *Case) { run(c, o) })
}

// field gives a field of a log record as text.
func field(m map[string]any, k string) string {
	if m[k] == nil {
		return ""
	}
	return fmt.Sprint(m[k])
}

func logType(s string) string {
	switch s {
	case "1", "source":
		return "src"
	case "2", "binary":
		return "bin"
	}
	return s
}

func c10(x *Ctx) {
	run := func(c *Case, o GenOpt, killed bool) {
		sc := Gen(c.R, o)
		pl := sc.Plan()
		var args []string
		if c.R.Intn(4) == 0 {
			args = []string{"--no-update"}
		}
		sc.NoUpdate = false
		if c.R.Intn(6) == 0 {
			sc.NoUpdate = true
		}
		repoDelays(c.R, sc, 10)
		w := c.World(sc)
		libPre := snapTree(w.Lib(), true)
		if killed { // what an install leaves that is killed while it replaces packages
			for _, p := range sc.Pre {
				dir, old := filepath.Join(w.Lib(), p.Name), filepath.Join(w.Lib(), "__OLD__"+p.Name)
				if pl.Nodes[p.Name] == nil && sc.tar(p.Name) == nil {
					continue
				}
				switch c.R.Intn(5) {
				case 0: // only the backup
					must(os.Rename(dir, old))
				case 1: // and the new version, or half of it
					must(os.Rename(dir, old))
					q := p
					q.Version = pick(c.R, []string{"999.1", "0.0-2"})
					if n := pl.Nodes[p.Name]; n != nil {
						q.Version = n.Pkg.Version
					}
					w.Preinstall(w.Lib(), q)
					if c.R.Intn(2) == 0 {
						must(os.Remove(filepath.Join(dir, "payload.txt")))
					}
				case 2: // an older backup that was being deleted
					q := p
					q.Version = "0.0-3"
					w.Preinstall(w.Lib(), q)
					must(os.Rename(dir, filepath.Join(w.Lib(), "__DEL__"+p.Name)))
					w.Preinstall(w.Lib(), p)
				}
			}
			for _, n := range proto.SortedKeys(pl.Nodes) {
				if sc.pre(n) == nil && !sc.NoLib && c.R.Intn(3) == 0 { // a partial package that was being deleted
					w.Preinstall(w.Lib(), Pkg{Name: n, Version: "0.0-4"})
					must(os.Rename(filepath.Join(w.Lib(), n), filepath.Join(w.Lib(), "__DEL__"+n)))
				}
			}
			w.Own()
		}
		proj := snapTree(w.P("proj"), true)
		home := snapTree(w.P("home"), true)
		out := w.Pkgr(append(append([]string{}, args...), "plan", "--logjson", "--loglevel", "debug")...)
		if !c.finished(w, out, "C10/") {
			return
		}
		quiet := func(out *RunOut, what string) {
			var bad []string
			for _, d := range diffSnap(proj, snapTree(w.P("proj"), true), 6) {
				bad = append(bad, "project: "+d)
			}
			for _, d := range diffSnap(home, snapTree(w.P("home"), true), 6) {
				bad = append(bad, "home: "+d)
			}
			for _, p := range installs(out.Events) {
				bad = append(bad, "R was asked to install "+p.S.Pkg)
			}
			for _, q := range pkgReqs(out.Reqs) {
				bad = append(bad, "downloaded "+q.Path)
			}
			if len(bad) > 0 {
				c.Fail(w, "C10/readonly", "%s: %s", what, strings.Join(bad, "\n"))
			}
		}
		quiet(out, "plan")
		if c.R.Intn(3) == 0 {
			ia := pick(c.R, [][]string{{"inspect", "--deps"}, {"inspect", "--deps", "--json"}, {"inspect", "--deps", "--reverse"}, {"inspect", "--deps", "--tree"}, {"plan", "--show-deps"}})
			o := w.Pkgr(ia...)
			if !c.finished(w, o, "C10/") {
				return
			}
			quiet(o, strings.Join(ia, " "))
		}
		recs := logRecords(out.Stdout + "\n" + out.Stderr)
		type ann struct{ ver, repo, typ string }
		set := map[string]ann{}
		upd := map[string][2]string{}
		toInst := map[string]ann{}
		var cnt, status map[string]any
		for _, r := range recs {
			switch r["msg"] {
			case "package repository set":
				set[field(r, "pkg")] = ann{field(r, "version"), field(r, "repo"), logType(field(r, "type"))}
			case "package will be updated":
				upd[field(r, "pkg")] = [2]string{field(r, "installed_version"), field(r, "update_version")}
			case "to install":
				toInst[field(r, "package")] = ann{field(r, "version"), field(r, "repo"), logType(field(r, "type"))}
			case "package installation plan":
				cnt = r
			case "package installation status":
				status = r
			}
		}
		if cnt == nil || status == nil {
			c.Incon("plan printed no summary: exit %d %s", out.Exit, tailStr(out.Stdout+out.Stderr, 600))
			return
		}
		inst := w.Pkgr(append(append([]string{}, args...), "install")...)
		if !c.finished(w, inst, "C10/") {
			return
		}
		// what the install did
		post := snapTree(w.Lib(), true)
		lib := proto.ScanLib(w.Lib())
		isNew, isUpd := map[string]bool{}, map[string]bool{}
		for n := range lib.Pkgs {
			if sc.tar(n) != nil {
				continue
			}
			if sc.pre(n) == nil {
				isNew[n] = true
			} else if len(diffSnap(libPre.sub(n), post.sub(n), 1)) > 0 {
				isUpd[n] = true
			}
		}
		var bad []string
		f := func(s string, a ...any) { bad = append(bad, fmt.Sprintf(s, a...)) }
		for n := range isNew {
			if _, ok := set[n]; !ok {
				f("%s was installed, the plan does not mention it", n)
			}
		}
		for n, a := range set {
			e, ok := lib.Pkgs[n]
			if !ok {
				f("%s is in the plan but not in the library after the install", n)
				continue
			}
			if isNew[n] || isUpd[n] {
				if want := a.repo + "/" + a.typ + "/" + n + "/" + a.ver; e.P != want {
					f("%s was installed from %s, the plan announced %s", n, e.P, want)
				}
			}
		}
		for n, v := range upd {
			if !isUpd[n] {
				f("the plan announced an update of %s (%s to %s), it was not replaced", n, v[0], v[1])
			} else if lib.Pkgs[n].V != v[1] || sc.pre(n).Version != v[0] {
				f("the plan announced an update of %s from %s to %s, it went from %s to %s", n, v[0], v[1], sc.pre(n).Version, lib.Pkgs[n].V)
			}
		}
		for n := range isUpd {
			if _, ok := upd[n]; !ok {
				f("%s was replaced, the plan announced no update", n)
			}
		}
		if field(cnt, "to_update") != fmt.Sprint(len(isUpd)) {
			f("to_update is %s, %d were updated", field(cnt, "to_update"), len(isUpd))
		}
		total := len(isNew) + len(isUpd) + len(sc.Tarballs)
		if field(cnt, "to_install") != fmt.Sprint(total) {
			f("to_install is %s, %d new, %d updated, %d tarballs were installed", field(cnt, "to_install"), len(isNew), len(isUpd), len(sc.Tarballs))
		}
		req := map[string]bool{}
		for n := range set {
			req[n] = true
		}
		for _, t := range sc.Tarballs {
			req[t.Name] = true
		}
		if field(status, "total_packages_required") != fmt.Sprint(len(req)) {
			f("total_packages_required is %s, the plan has %d packages", field(status, "total_packages_required"), len(req))
		}
		if field(status, "installed") != fmt.Sprint(len(sc.Pre)) {
			f("installed is %s, the library had %d packages", field(status, "installed"), len(sc.Pre))
		}
		if len(toInst) > 0 || (total > 0 && total != len(req)) {
			for n, a := range toInst {
				if sc.tar(n) != nil {
					continue
				}
				if !isNew[n] {
					f("the plan announced %s as to be installed, it was not", n)
				} else if want := a.repo + "/" + a.typ + "/" + n + "/" + a.ver; lib.Pkgs[n].P != want {
					f("%s was installed from %s, the plan announced %s", n, lib.Pkgs[n].P, want)
				}
			}
			for n := range isNew {
				if _, ok := toInst[n]; !ok {
					f("%s was installed, the plan did not announce it as to be installed", n)
				}
			}
			for _, t := range sc.Tarballs {
				if _, ok := toInst[t.Name]; !ok {
					f("tarball package %s was installed, the plan did not announce it as to be installed", t.Name)
				}
			}
		}
		if len(bad) > 0 {
			sort.Strings(bad)
			c.Fail(w, "C10/plan", "%s", strings.Join(bad, "\n"))
		}
		c.Count("packages_new", len(isNew))
		c.Count("packages_updated", len(isUpd))
		if len(isNew)+len(isUpd)+len(sc.Pre) > 0 {
			c.Distinct(planSig(pl) + fmt.Sprint(sc.Pre, args))
		}
		if c.I < 3 {
			c.Sample(map[string]any{"plan": planSig(pl), "new": sortedSet(isNew), "updated": sortedSet(isUpd), "to_install": field(cnt, "to_install")})
		}
	}
	x.Cases("full", x.N(100, 1200), 8, func(c *Case) { run(c, fullGen, false) })
	o := fullGen
	o.Pre, o.Other = 0.7, 4
	x.Cases("update", x.N(70, 900), 8, func(c *Case) { run(c, o, false) })
	o.NoLib = 0
	x.Cases("killed", x.N(60, 700), 8, func(c *Case) { run(c, o, true) })
}

// anyVersion makes versions of many shapes.
func anyVersion(r *rand.Rand) string {
	switch r.Intn(8) {
	case 0:
		return genVersion(r)
	case 1: // dates
		return fmt.Sprintf("%d.%s%d.%d", 2010+r.Intn(15), pick(r, []string{"", "0"}), 1+r.Intn(9), 1+r.Intn(31))
	case 2:
		return fmt.Sprintf("%d", 1+r.Intn(30))
	case 3:
		return fmt.Sprintf("%d.%d-%d", r.Intn(3), r.Intn(12), 1+r.Intn(30))
	case 4:
		return fmt.Sprintf("%d.%d", 20100101+r.Intn(140000), 1+r.Intn(3))
	case 5:
		return fmt.Sprintf("%d.%d.%d.%d", r.Intn(3), r.Intn(3), r.Intn(3), pick(r, []int{1, 9000, 9001, 9999, 10000, 99, 100}))
	case 6:
		return fmt.Sprintf("%d.%d.%d.%d-%d", r.Intn(2), r.Intn(3), r.Intn(3), r.Intn(3), 1+r.Intn(11))
	}
	return fmt.Sprintf("%d.%d.%d", r.Intn(12), r.Intn(12), 1+r.Intn(120))
}

func c24(x *Ctx) {
	x.Cases("versions", x.N(60, 900), 8, func(c *Case) {
		sc := &Scenario{Ctl: proto.Control{RVersion: "4.3.1", Platform: defPlatform}, Repos: []Repo{{Name: "CRAN"}}, Threads: 8}
		k := 30
		sign := map[string]int{}
		for i := 0; i < k; i++ {
			n := fmt.Sprintf("vp%d", i)
			a := anyVersion(c.R)
			b := anyVersion(c.R)
			switch c.R.Intn(5) {
			case 0:
				b = otherVersion(c.R, a, 1)
			case 1:
				b = otherVersion(c.R, a, -1)
			case 2: // one component more
				if len(verParts(a)) < 5 {
					b = a + pick(c.R, []string{".", "-"}) + fmt.Sprint(1+c.R.Intn(9))
					if c.R.Intn(2) == 0 {
						a, b = b, a
					}
				}
			case 3: // other separators only
				b = strings.NewReplacer(".", pick(c.R, []string{".", "-"}), "-", ".").Replace(a)
			}
			if a == b {
				continue
			}
			sc.Packages = append(sc.Packages, n)
			sc.Repos[0].Src = append(sc.Repos[0].Src, Pkg{Name: n, Version: b})
			sc.Pre = append(sc.Pre, Pkg{Name: n, Version: a})
			sign[n] = verCmp(b, a)
			c.Distinct(a + " " + b)
		}
		w := c.World(sc)
		out := w.Pkgr("install")
		if !c.finished(w, out, "C24/") {
			return
		}
		lib := proto.ScanLib(w.Lib())
		var bad []string
		for i, p := range sc.Pre {
			off := sc.Repos[0].Src[i]
			got := lib.Pkgs[p.Name].P == payloadOf("CRAN", "src", off)
			kept := lib.Pkgs[p.Name].P == payloadOf("pre", "old", p)
			if want := sign[p.Name] > 0; got != want || kept == want {
				bad = append(bad, fmt.Sprintf("installed %s, offered %s: replaced %v, kept %v", p.Version, off.Version, got, kept))
			}
		}
		if len(bad) > 0 {
			c.Fail(w, "C24/version", "%s", strings.Join(bad, "\n"))
		}
		c.Count("version_pairs", len(sc.Pre))
		if c.I < 2 {
			c.Sample(map[string]any{"installed": sc.Pre[0].Version, "offered": sc.Repos[0].Src[0].Version, "offered_is_newer": sign[sc.Pre[0].Name] > 0})
		}
	})
	rvers := []string{"4.3.1", "3.6.3", "4.0.5", "4.10.2", "4.2.11", "4.3.10", "3.5.2"}
	reqFor := func(r *rand.Rand, rv string) string {
		for {
			op := pick(r, []string{">=", ">", "<=", "<", "==", "!="})
			v := ""
			switch r.Intn(5) {
			case 0:
				v = rv
			case 1:
				v = otherVersion(r, rv, 1)
			case 2:
				v = otherVersion(r, rv, -1)
			case 3:
				v = fmt.Sprintf("%d.%d", 2+r.Intn(4), r.Intn(12))
			case 4:
				v = fmt.Sprintf("%d.%d.%d", 3+r.Intn(2), r.Intn(12), r.Intn(12))
			}
			v = strings.ReplaceAll(v, "-", ".")
			if verCmp(v, rv) == 0 && len(verParts(v)) != len(verParts(rv)) && op != ">=" && op != "<" {
				continue
			}
			return op + " " + v
		}
	}
	x.Cases("requirements", x.N(60, 900), 8, func(c *Case) {
		rv := pick(c.R, rvers)
		sc := &Scenario{Ctl: proto.Control{RVersion: rv, Platform: defPlatform}, Repos: []Repo{{Name: "CRAN"}}, Threads: 8}
		tr := true
		sc.Cust = map[string]Cust{"rootp": {Suggests: &tr}}
		root := Pkg{Name: "rootp", Version: "1.1"}
		want := map[string]string{"rootp": ""}
		all := map[string]string{}
		src := []Pkg{}
		for i := 0; i < 24; i++ {
			n := fmt.Sprintf("rp%d", i)
			root.Suggests = append(root.Suggests, n)
			p := Pkg{Name: n, Version: anyVersion(c.R), RReq: reqFor(c.R, rv)}
			switch c.R.Intn(8) {
			case 0:
				p.RReq = ""
			case 1:
				p.RReq = "*"
			}
			if c.R.Intn(3) == 0 {
				p.Depends = []string{"methods"}
			}
			all[n] = p.RReq
			src = append(src, p)
			if rOK(p.RReq, rv) {
				want[n] = p.Version
			}
			// the same package again for other versions of R
			for k := 0; k < 2 && c.R.Intn(3) == 0; k++ {
				q := p
				for tries := 0; tries < 50; tries++ {
					q.RReq, q.Version = reqFor(c.R, rv), anyVersion(c.R)
					if q.Version != p.Version && (!rOK(q.RReq, rv) || want[n] == "") {
						break
					}
					q.Version = ""
				}
				if q.Version == "" {
					continue
				}
				all[n] += " | " + q.RReq
				src = append(src, q)
				if rOK(q.RReq, rv) {
					want[n] = q.Version
				}
			}
			// a version below a path of its own is never taken
			if c.R.Intn(8) == 0 {
				src = append(src, Pkg{Name: n, Version: "99.1", IdxPath: pick(c.R, []string{"4.4.0/Recommended", "4.3.0/Other", "older"})})
			}
		}
		sc.Repos[0].Src = append(shuffle(c.R, src), root)
		sc.Packages = []string{"rootp"}
		w := c.World(sc)
		out := w.Pkgr("install")
		if !c.finished(w, out, "C24/") {
			return
		}
		lib := proto.ScanLib(w.Lib())
		var bad []string
		for n, req := range all {
			v, ok := want[n]
			e, got := lib.Pkgs[n]
			if ok != got || (ok && e.V != v) {
				bad = append(bad, fmt.Sprintf("R %s, requirement %q: %s is %q in the library, want %q", rv, req, n, e.V, v))
			}
			c.Distinct(rv + " " + req)
		}
		if len(bad) > 0 {
			c.Fail(w, "C24/requirement", "%s\n%s", strings.Join(bad, "\n"), tailStr(out.Stderr, 500))
		}
		c.Count("requirements", len(all))
		// a requirement that is not met keeps a requested package from being installed at all
		for n := range all {
			if _, ok := want[n]; !ok {
				sc.Packages = []string{n}
				sc.LibPath = "lib2"
				w.WriteYml()
				out = w.Pkgr("install")
				if len(installs(out.Events)) > 0 || out.Exit == 0 {
					c.Fail(w, "C24/requested", "R %s, requirement %q: requesting %s ends with exit status %d and %d R installs", rv, all[n], n, out.Exit, len(installs(out.Events)))
				}
				break
			}
		}
	})
}

func c28(x *Ctx) {
	run := func(c *Case, o GenOpt, install bool) {
		sc := Gen(c.R, o)
		pl := sc.Plan()
		want := map[string]bool{}
		for n := range pl.Nodes {
			want[n] = true
		}
		w := c.World(sc)
		got := map[string]bool{}
		var out *RunOut
		if install {
			out = w.Pkgr("install")
			if !c.finished(w, out, "C28/") {
				return
			}
			for n := range proto.ScanLib(w.Lib()).Pkgs {
				if sc.tar(n) == nil && sc.pre(n) == nil {
					got[n] = true
				}
			}
			for _, t := range sc.Tarballs {
				delete(want, t.Name)
			}
			for _, p := range sc.Pre {
				delete(want, p.Name)
			}
		} else {
			out = w.Pkgr("plan", "--logjson", "--loglevel", "debug")
			if !c.finished(w, out, "C28/") {
				return
			}
			for _, r := range logRecords(out.Stdout + "\n" + out.Stderr) {
				if r["msg"] == "package repository set" {
					got[field(r, "pkg")] = true
				}
			}
		}
		var bad []string
		for n := range want {
			if !got[n] {
				bad = append(bad, n+" is missing")
			}
		}
		for n := range got {
			if !want[n] {
				bad = append(bad, n+" is not asked for by the settings")
			}
		}
		if len(bad) > 0 {
			sort.Strings(bad)
			c.Fail(w, "C28/closure", "%s\nexit %d %s", strings.Join(bad, "\n"), out.Exit, tailStr(out.Stderr, 800))
		}
		c.Count("packages_in_plans", len(want))
		if sc.Suggests || sc.NoRecommended || len(sc.Ignore) > 0 || len(sc.Cust) > 0 {
			c.Count("cases_with_settings", 1)
		}
		c.Distinct(planSig(pl) + fmt.Sprint(sc.Suggests, sc.NoRecommended, sc.Ignore, sc.Packages))
		if c.I < 2 {
			c.Sample(map[string]any{"packages": sc.Packages, "suggests": sc.Suggests, "no_recommended": sc.NoRecommended, "ignore": sc.Ignore, "closure": sortedSet(want)})
		}
	}
	o := fullGen
	o.Pre, o.Other, o.Files, o.Tar, o.Desc, o.MinP, o.MaxP = 0, 0, false, 2, 2, 5, 22
	x.Cases("plan", x.N(260, 4000), 8, func(c *Case) { run(c, o, false) })
	x.Cases("install", x.N(60, 700), 8, func(c *Case) { o := o; o.MaxP = 14; run(c, o, true) })
}
