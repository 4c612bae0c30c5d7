package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"vh/proto"
)

func init() {
	checks["C03"] = &Check{Fn: c03, Level: "fault_enumeration", Rule: "generated configurations with 1-3 injected failures (build, install, packaging or tarball failures of several kinds, failed and cut downloads), library compared with its snapshot; non-trivial: at least one failure really happened; distinct by plan, initial library, failures and observed order"}
	checks["C04"] = &Check{Fn: c04, Level: "fault_enumeration", Rule: "as C03, with the R process log judged against the transitive dependants of everything that failed, the end of the run and its error messages; non-trivial: a failure happened and some package depends on it or some other package was still to do"}
	checks["C27"] = &Check{Fn: c27, Level: "fault_enumeration", Rule: "one run per way an install cannot start (and per initial library), judged by exit status, R process log and library snapshot; non-trivial: every case"}
}

var failGen = GenOpt{MinP: 3, MaxP: 14, Repos: 3, Bin: true, Pre: 0.4, Other: 3, Tar: 2, Desc: 1, Sugg: true, Rec: true, Ghost: true, Ignore: true, Pin: true, NoLib: 0.6, Files: true}

// Failure is one injected failure.
type Failure struct{ Pkg, Kind string }

func (c *Case) targets(sc *Scenario, pl *Plan, exp map[string]*Target) (repo []string) {
	for _, n := range proto.SortedKeys(exp) {
		t := exp[n]
		if t.From != nil && !t.Kept {
			repo = append(repo, n)
		} else if t.Tar && pl.Nodes[n] != nil && sc.pre(n) == nil {
			repo = append(repo, n) // installed from the repository first
		}
	}
	return
}

// srcFileOf gives the path suffix of the file a choice is downloaded from.
func srcFileOf(ch *Choice) string {
	if ch.Type == "bin" {
		return "/" + binFile(ch.Pkg)
	}
	return "/" + srcFile(ch.Pkg)
}

// howFails picks how an R process fails: what it leaves behind and how it ends.
func (c *Case) howFails(more ...string) string {
	m := pick(c.R, append([]string{"clean", "dirty", "late", "after"}, more...))
	if m == "nobinary" || c.R.Intn(2) == 0 {
		return m
	}
	return m + ":" + pick(c.R, []string{"2", "3", "10", "127", "255", "KILL", "KILL", "TERM", "HUP"})
}

// inject adds failures to the scenario; cached: the binaries are already in the cache.
func (c *Case) inject(sc *Scenario, pl *Plan, exp map[string]*Target, n int, cached bool) (fs []Failure) {
	repo := shuffle(c.R, c.targets(sc, pl, exp))
	tars := shuffle(c.R, sc.Tarballs)
	if sc.Ctl.Fail == nil {
		sc.Ctl.Fail = map[string]string{}
	}
	for i := 0; i < n; i++ {
		if len(tars) > 0 && (len(repo) == 0 || c.R.Intn(4) == 0) {
			k := c.howFails()
			sc.Ctl.Fail[tars[0].Name+"/dir"] = k
			fs = append(fs, Failure{tars[0].Name, "tarball-" + k})
			tars = tars[1:]
			continue
		}
		if len(repo) == 0 {
			break
		}
		p := repo[0]
		repo = repo[1:]
		ch := pl.Nodes[p]
		k := c.R.Intn(8)
		switch {
		case cached || k < 2 || (ch.Type == "bin" && k < 5):
			m := c.howFails()
			sc.Ctl.Fail[p+"/bin"] = m
			fs = append(fs, Failure{p, "install-" + m})
		case k < 5:
			m := c.howFails("nobinary")
			sc.Ctl.Fail[p+"/src"] = m
			fs = append(fs, Failure{p, "build-" + m})
		case ch.Repo.Kind == "local":
			sc.Ctl.Fail[p+"/bin"] = "dirty"
			fs = append(fs, Failure{p, "install-dirty"})
		default:
			f := &Fault{Suffix: srcFileOf(ch), Contain: ch.Repo.dir() + "/"}
			m := ""
			switch c.R.Intn(4) {
			case 0:
				f.Status, m = pick(c.R, []int{404, 403, 500, 503}), "status"
			case 1:
				f.CutOn, f.Cut, f.Fin, m = true, c.R.Intn(700), c.R.Intn(2) == 0, "cut"
			case 2:
				f.CutOn, f.Cut, f.Chunked, f.Fin, m = true, 1+c.R.Intn(700), true, c.R.Intn(2) == 0, "cut-chunked"
			case 3:
				f.Reset, m = true, "reset"
			}
			if c.R.Intn(3) == 0 {
				f.DelayMs = c.R.Intn(60)
			}
			sc.Faults = append(sc.Faults, f)
			fs = append(fs, Failure{p, "download-" + m})
		}
	}
	return
}

func failStr(fs []Failure) string {
	var l []string
	for _, f := range fs {
		l = append(l, f.Pkg+":"+f.Kind)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// clearFailures takes the failures away again.
func (w *World) clearFailures() {
	w.Sc.Ctl.Fail = nil
	w.Sc.Faults = nil
	w.SetFaults(nil)
	w.WriteCtl()
}

// warm fills the package cache by an install into another library.
func (c *Case) warm(w *World, key string) bool {
	sc := w.Sc
	lp, ts, ds := sc.LibPath, sc.Tarballs, sc.NoUpdate
	fl, fa := sc.Ctl.Fail, w.faults
	sc.LibPath, sc.Ctl.Fail = "warmlib", nil
	sc.Strict, sc.NoUpdate = false, false
	w.SetFaults(nil)
	w.WriteCtl()
	w.WriteYml()
	out := w.Pkgr("install")
	sc.LibPath, sc.Ctl.Fail, sc.Tarballs, sc.NoUpdate = lp, fl, ts, ds
	w.SetFaults(fa)
	w.WriteCtl()
	w.WriteYml()
	if !c.finished(w, out, key) {
		return false
	}
	rmTree(w.P("proj/warmlib"))
	return true
}

func c03(x *Ctx) {
	run := func(c *Case, o GenOpt, cached bool) {
		var sc *Scenario
		var pl *Plan
		var exp map[string]*Target
		for {
			sc = Gen(c.R, o)
			pl = sc.Plan()
			exp = sc.Expect(pl, sc.Pre, sc.NoUpdate)
			if len(c.targets(sc, pl, exp))+len(sc.Tarballs) > 0 {
				break
			}
		}
		c.delays(sc, pl, 30)
		fs := c.inject(sc, pl, exp, 1+c.R.Intn(3), cached)
		if c.R.Intn(4) == 0 {
			// a package that is a link to a directory elsewhere
			if l := sc.Pre; len(l) > 0 {
				p := pick(c.R, l)
				sc.PreFiles = map[string]string{}
				sc.PreFiles["@link"] = p.Name
			}
		}
		link := sc.PreFiles["@link"]
		delete(sc.PreFiles, "@link")
		w := c.World(sc)
		if link != "" {
			must(os.MkdirAll(w.P("elsewhere"), 0755))
			must(os.Rename(filepath.Join(w.Lib(), link), w.P("elsewhere", link)))
			must(os.Symlink(w.P("elsewhere", link), filepath.Join(w.Lib(), link)))
			w.Own()
		}
		if cached && !c.warm(w, "C03/") {
			return
		}
		pre := snapTree(w.Lib(), true)
		els := snapTree(w.P("elsewhere"), true)
		args := c.installArgs()
		noRB := false
		if c.R.Intn(5) == 0 {
			noRB = true
			args = append(args, "--no-rollback")
		}
		out := w.Pkgr(args...)
		if !c.finished(w, out, "C03/") {
			return
		}
		happened := 0
		for _, p := range installs(out.Events) {
			if p.E != nil && p.E.Exit != 0 {
				happened++
			}
		}
		for _, f := range sc.Faults {
			happened += int(f.fired)
		}
		for _, p := range installs(out.Events) {
			if sc.Ctl.Fail[p.S.Pkg+"/"+p.S.Pass] == "nobinary" {
				happened++
			}
		}
		if happened == 0 {
			c.Incon("no failure happened: %s", failStr(fs))
			return
		}
		post := snapTree(w.Lib(), true)
		if noRB {
			bad := c.noRollback(w, sc, pl, exp, out, pre, post, fs)
			if len(bad) > 0 {
				c.Fail(w, "C03/norollback", "with rollback disabled, after %s:\n%s", failStr(fs), strings.Join(bad, "\n"))
			}
			c.Count("runs_without_rollback", 1)
		} else {
			if d := diffSnap(pre, post, 12); len(d) > 0 {
				c.Fail(w, "C03/library", "after %s the library differs from before:\n%s", failStr(fs), strings.Join(d, "\n"))
			}
			if d := diffSnap(els, snapTree(w.P("elsewhere"), true), 5); len(d) > 0 {
				c.Fail(w, "C03/elsewhere", "after %s the target of a linked package changed:\n%s", failStr(fs), strings.Join(d, "\n"))
			}
			c.Count("rollbacks", 1)
		}
		c.Count("failures_seen", happened)
		for _, f := range fs {
			c.Count("kind_"+strings.SplitN(f.Kind, "-", 2)[0], 1)
		}
		if sc.NoLib {
			c.Count("library_absent_before", 1)
		}
		c.Distinct(planSig(pl) + failStr(fs) + orderSig(out))
		if c.I < 3 {
			c.Sample(map[string]any{"plan": planSig(pl), "failures": failStr(fs), "pre": sc.Pre, "order": tailStr(orderSig(out), 400)})
		}
		if noRB || link != "" {
			return
		}
		// the restored library is as good as before: the same install without the failures
		w.clearFailures()
		out = w.Pkgr("install")
		if !c.finished(w, out, "C03/") {
			return
		}
		if bad := w.checkLib(exp, snapTree(w.Lib(), false)); len(bad) > 0 {
			c.Fail(w, "C03/afterwards", "an install without failures after the rolled back one (%s):\n%s", failStr(fs), strings.Join(bad, "\n"))
		}
	}
	// leftovers of one package that cannot be removed
	x.Cases("stuck", x.N(30, 300), 8, func(c *Case) {
		o := failGen
		o.Pre, o.Tar, o.NoLib = 0.8, 2, 0
		sc := Gen(c.R, o)
		sc.NoUpdate = false
		pl := sc.Plan()
		exp := sc.Expect(pl, sc.Pre, false)
		ts := c.targets(sc, pl, exp)
		if len(ts)+len(sc.Tarballs) < 2 {
			return
		}
		var n, pass string
		if k := c.R.Intn(len(ts) + len(sc.Tarballs)); k < len(ts) {
			n, pass = ts[k], "bin"
		} else {
			n, pass = sc.Tarballs[k-len(ts)].Name, "dir"
		}
		sc.Ctl.Fail = map[string]string{n + "/" + pass: "stuck"}
		c.delays(sc, pl, 30)
		w := c.World(sc)
		must(os.MkdirAll(w.Lib(), 0755))
		w.Own()
		pre := snapTree(w.Lib(), true)
		out := w.Pkgr(c.installArgs()...)
		if !c.finished(w, out, "C03/") {
			return
		}
		hit := 0
		for _, p := range installs(out.Events) {
			if p.S.Pkg == n && p.E != nil && p.E.Exit != 0 {
				hit++
			}
		}
		if hit == 0 {
			c.Incon("%s/%s was not reached", n, pass)
			return
		}
		post := snapTree(w.Lib(), true)
		others := func(s Snap) Snap {
			m := Snap{}
			for k, v := range s {
				if t := strings.SplitN(k, "/", 2)[0]; t != n && !strings.HasSuffix(t, "__"+n) {
					m[k] = v
				}
			}
			return m
		}
		if d := diffSnap(others(pre), others(post), 12); len(d) > 0 {
			c.Fail(w, "C03/stuck", "the leftovers of %s (%s pass) cannot be removed, the other packages differ from before:\n%s", n, pass, strings.Join(d, "\n"))
		}
		if p := sc.pre(n); p != nil {
			found := false
			es, _ := os.ReadDir(w.Lib())
			for _, e := range es {
				if len(diffSnap(pre.below(n), post.below(e.Name()), 1)) == 0 {
					found = true
				}
			}
			if !found {
				c.Fail(w, "C03/stuck", "the leftovers of %s (%s pass) cannot be removed, its old content is lost: %v", n, pass, post.tops())
			}
		}
		c.Count("stuck_leftovers", 1)
		c.Distinct("stuck" + planSig(pl) + n + pass)
	})
	x.Cases("full", x.N(110, 1200), 8, func(c *Case) { run(c, failGen, false) })
	upd := failGen
	upd.Pre, upd.Tar = 0.9, 2
	x.Cases("update", x.N(60, 600), 8, func(c *Case) { run(c, upd, false) })
	x.Cases("cached", x.N(30, 300), 8, func(c *Case) { run(c, failGen, true) })
	wide := failGen
	wide.Wide, wide.MinP, wide.MaxP = true, 8, 20
	x.Cases("wide", x.N(30, 300), 8, func(c *Case) { run(c, wide, false) })
	many := wide
	many.MinP, many.MaxP, many.Pre = 50, 80, 0.1
	x.Cases("many", x.N(5, 40), 8, func(c *Case) { run(c, many, false) })
}

// noRollback judges a failed run with rollback disabled.
func (c *Case) noRollback(w *World, sc *Scenario, pl *Plan, exp map[string]*Target, out *RunOut, pre, post Snap, fs []Failure) (bad []string) {
	failed := map[string]bool{}
	for _, f := range fs {
		failed[f.Pkg] = true
	}
	final := map[string]string{}
	for _, p := range installs(out.Events) {
		if samePath(p.S.Lib, w.Lib()) && p.E != nil && p.E.Exit == 0 {
			final[p.S.Pkg] = p.S.Payload
		}
	}
	lib := proto.ScanLib(w.Lib())
	for n, pay := range final {
		if failed[n] {
			continue
		}
		if lib.Pkgs[n].P != pay {
			bad = append(bad, fmt.Sprintf("%s was installed (%s) but the library has %q", n, pay, lib.Pkgs[n].P))
		}
	}
	for _, t := range pre.tops() {
		e := exp[t]
		if e == nil || e.Kept {
			for _, d := range diffSnap(pre.sub(t), post.sub(t), 4) {
				bad = append(bad, "entry "+t+" must stay as it was: "+d)
			}
		}
	}
	for _, t := range post.tops() {
		if pre[t] == "" && exp[t] == nil && !strings.HasPrefix(t, "00LOCK") {
			bad = append(bad, "unexpected entry "+t)
		}
	}
	return
}

// downloadFired tells whether the injected download failure of p came to pass.
func downloadFired(sc *Scenario, pl *Plan, p string) bool {
	for _, f := range sc.Faults {
		if f.Suffix == srcFileOf(pl.Nodes[p]) && f.fired > 0 {
			return true
		}
	}
	return false
}

// hasToken tells whether s contains name delimited by something that cannot be part of a package name.
func hasToken(s, name string) bool {
	for i := 0; ; {
		j := strings.Index(s[i:], name)
		if j < 0 {
			return false
		}
		j += i
		isn := func(b byte) bool {
			return b == '.' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
		}
		if (j == 0 || !isn(s[j-1])) && (j+len(name) >= len(s) || !isn(s[j+len(name)])) {
			return true
		}
		i = j + 1
	}
}

// logRecords parses the JSON records among the lines.
func logRecords(s string) (l []map[string]any) {
	for _, x := range strings.Split(s, "\n") {
		m := map[string]any{}
		if strings.HasPrefix(x, "{") && json.Unmarshal([]byte(x), &m) == nil {
			l = append(l, m)
		}
	}
	return
}

// errorNames tells whether an error record names the package.
func errorNames(out *RunOut, name string) bool {
	for _, s := range []string{out.Stdout, out.Stderr} {
		for _, l := range strings.Split(s, "\n") {
			m := map[string]any{}
			if strings.HasPrefix(l, "{") && json.Unmarshal([]byte(l), &m) == nil {
				lv := fmt.Sprint(m["level"])
				if lv != "error" && lv != "fatal" && lv != "panic" && lv != "warning" {
					continue
				}
				if lv == "warning" && !strings.Contains(strings.ToLower(l), "err") && !strings.Contains(strings.ToLower(l), "fail") {
					continue
				}
				for _, v := range m {
					if hasToken(fmt.Sprint(v), name) {
						return true
					}
				}
			}
		}
	}
	return false
}

// unstorable lets no built binary be stored in the cache: its folder cannot be made (0, 2) or not be written (1).
func (c *Case) unstorable(w *World, sc *Scenario, hows ...int) {
	for i := range sc.Repos {
		r := &sc.Repos[i]
		d := filepath.Join(w.CacheDir(), repoHash(r.Name, w.RepoURL(r)))
		switch pick(c.R, hows) {
		case 0:
			writeFile(filepath.Join(d, "binary"), []byte("x"), 0644)
		case 1:
			must(os.MkdirAll(filepath.Join(d, "binary", rMinor(sc.Ctl.RVersion)), 0755))
			w.Own()
			must(os.Chmod(filepath.Join(d, "binary", rMinor(sc.Ctl.RVersion)), 0555))
			continue
		case 2:
			must(os.MkdirAll(filepath.Join(d, "binary"), 0755))
			w.Own()
			must(os.Chmod(filepath.Join(d, "binary"), 0555))
			continue
		}
		w.Own()
	}
}

func c04(x *Ctx) {
	run := func(c *Case, o GenOpt, cached, store bool) {
		var sc *Scenario
		var pl *Plan
		var exp map[string]*Target
		for {
			sc = Gen(c.R, o)
			pl = sc.Plan()
			exp = sc.Expect(pl, sc.Pre, sc.NoUpdate)
			if len(c.targets(sc, pl, exp))+len(sc.Tarballs) > 0 {
				break
			}
		}
		c.delays(sc, pl, 40)
		sc.Ctl.NoDepChk = c.R.Intn(2) == 0
		var fs []Failure
		if !store || c.R.Intn(3) == 0 {
			fs = c.inject(sc, pl, exp, 1+c.R.Intn(3), cached)
		}
		w := c.World(sc)
		if cached && !c.warm(w, "C04/") {
			return
		}
		if store {
			c.unstorable(w, sc, 0, 1, 2)
		}
		args := append(c.installArgs(), "--logjson")
		if c.R.Intn(4) == 0 {
			args = append(args, "--no-rollback")
		}
		out := w.Pkgr(args...)
		if !c.finished(w, out, "C04/") {
			return
		}
		failed := map[string]string{}
		ps := installs(out.Events)
		for _, p := range ps {
			if p.E != nil && p.E.Exit != 0 && p.S.Pass != "dir" {
				failed[p.S.Pkg] = "R failed"
			}
			if sc.Ctl.Fail[p.S.Pkg+"/"+p.S.Pass] == "nobinary" {
				failed[p.S.Pkg] = "no binary"
			}
			if p.S.Pkg == "" {
				c.Fail(w, "C04/garbage", "R was asked to install %q in %s, which is no complete package", p.S.Path, p.S.Cwd)
			}
		}
		for _, f := range fs {
			if strings.HasPrefix(f.Kind, "download") && downloadFired(sc, pl, f.Pkg) {
				failed[f.Pkg] = f.Kind
				for _, p := range ps {
					if p.S.Pkg == f.Pkg && p.S.Pass != "dir" {
						c.Fail(w, "C04/undownloaded", "R was asked to install %s, whose download failed (%s)", f.Pkg, f.Kind)
					}
				}
			}
		}
		nd := 0
		for f, why := range failed {
			for _, p := range ps {
				if p.S.Pass != "dir" && pl.Need[p.S.Pkg][f] {
					c.Fail(w, "C04/dependant", "R was asked to install %s (%s pass), which needs %s, which failed (%s)", p.S.Pkg, p.S.Pass, f, why)
				}
				if t := sc.tar(p.S.Pkg); t != nil && p.S.Pass == "dir" && sc.tarNeed(pl, p.S.Pkg)[f] && sc.tar(f) == nil {
					c.Fail(w, "C04/dependant", "R was asked to install tarball %s, which needs %s, which failed (%s)", p.S.Pkg, f, why)
				}
			}
			for q := range pl.Need {
				if pl.Need[q][f] {
					nd++
				}
			}
			if !errorNames(out, f) {
				c.Fail(w, "C04/message", "no error message names %s, which failed (%s)", f, why)
			}
		}
		tf := 0
		for _, p := range ps {
			if p.S.Pass == "dir" && p.E != nil && p.E.Exit != 0 {
				tf++
				if !errorNames(out, p.S.Pkg) {
					c.Fail(w, "C04/message", "no error message names the tarball package %s, which failed", p.S.Pkg)
				}
			}
		}
		if len(failed)+tf == 0 && len(fs) > 0 && !store {
			c.Incon("no failure happened: %s", failStr(fs))
			return
		}
		c.Count("failed_packages", len(failed)+tf)
		c.Count("dependants_watched", nd)
		if store {
			c.Count("store_failures", 1)
		}
		if nd > 0 || len(pl.Nodes) > 1 {
			c.Distinct(planSig(pl) + failStr(fs) + orderSig(out))
		}
		if c.I < 2 {
			c.Sample(map[string]any{"plan": planSig(pl), "failures": failStr(fs), "order": tailStr(orderSig(out), 400)})
		}
	}
	deep := failGen
	deep.Deep, deep.MinP, deep.MaxP, deep.Pre = true, 6, 16, 0.15
	x.Cases("full", x.N(80, 900), 8, func(c *Case) { run(c, failGen, false, false) })
	x.Cases("deep", x.N(70, 700), 8, func(c *Case) { run(c, deep, false, false) })
	x.Cases("cached", x.N(30, 300), 8, func(c *Case) { run(c, deep, true, false) })
	x.Cases("store", x.N(30, 300), 8, func(c *Case) { run(c, deep, false, true) })
	// many packages fail at the same moment while others are being requested
	burst := failGen
	burst.Wide, burst.MinP, burst.MaxP, burst.Pre, burst.Tar = true, 14, 26, 0, 0
	x.Cases("burst", x.N(30, 300), 8, func(c *Case) {
		sc := Gen(c.R, burst)
		pl := sc.Plan()
		sc.Ctl.Fail = map[string]string{}
		sc.Threads = 1 + c.R.Intn(12)
		n := 0
		for _, p := range proto.SortedKeys(pl.Nodes) {
			if c.R.Intn(2) == 0 {
				n++
				sc.Ctl.Fail[p+"/"+pick(c.R, []string{"src", "bin"})] = "clean"
			}
		}
		w := c.World(sc)
		out := w.Pkgr("install", "--logjson")
		if !c.finished(w, out, "C04/") {
			return
		}
		ps := installs(out.Events)
		for _, p := range ps {
			if p.E == nil || p.E.Exit == 0 {
				continue
			}
			for _, q := range ps {
				if pl.Need[q.S.Pkg][p.S.Pkg] {
					c.Fail(w, "C04/dependant", "R was asked to install %s, which needs %s, which failed", q.S.Pkg, p.S.Pkg)
				}
			}
		}
		c.Count("bursts", 1)
		c.Distinct(planSig(pl) + orderSig(out))
	})
}

func c27(x *Ctx) {
	type way struct {
		name string
		make func(c *Case, sc *Scenario) func(w *World)
		args []string
	}
	first := func(sc *Scenario) *Pkg {
		for i := range sc.Repos {
			if len(sc.Repos[i].Src) > 0 {
				return &sc.Repos[i].Src[0]
			}
		}
		return nil
	}
	// fresh adds a package that has to be downloaded and installed
	fresh := func(sc *Scenario) {
		sc.Repos[0].Src = append(sc.Repos[0].Src, Pkg{Name: "freshpkg", Version: "1.2.3"})
		sc.Packages = append(sc.Packages, "freshpkg")
		sc.Tarballs = nil
		sc.XDGCache = false
	}
	ways := []way{
		{"missing-package", func(c *Case, sc *Scenario) func(*World) {
			sc.Packages = append(sc.Packages, "doesnotexist")
			sc.Packages = shuffle(c.R, sc.Packages)
			return nil
		}, nil},
		{"ignored-package-requested", func(c *Case, sc *Scenario) func(*World) { sc.Ignore = append(sc.Ignore, sc.Packages[0]); return nil }, nil},
		{"wrong-r-version", func(c *Case, sc *Scenario) func(*World) {
			sc.Repos[0].Src = append(sc.Repos[0].Src, Pkg{Name: "futurepkg", Version: "1.2.3", RReq: ">= 9.9"})
			sc.Packages = append(sc.Packages, "futurepkg")
			return nil
		}, nil},
		{"pin-unknown-repo", func(c *Case, sc *Scenario) func(*World) {
			k := sc.Cust[sc.Packages[0]]
			k.Repo = "NOSUCHREPO"
			sc.Cust[sc.Packages[0]] = k
			return nil
		}, nil},
		{"pin-repo-without-it", func(c *Case, sc *Scenario) func(*World) {
			sc.Repos = append(sc.Repos, Repo{Name: "EMPTY", Src: []Pkg{{Name: "somethingelse", Version: "1.2"}}})
			k := sc.Cust[sc.Packages[0]]
			k.Repo = "EMPTY"
			sc.Cust[sc.Packages[0]] = k
			return nil
		}, nil},
		{"only-source-wanted-binary", func(c *Case, sc *Scenario) func(*World) {
			i := c.R.Intn(len(sc.Repos))
			r := &sc.Repos[i]
			r.Src = append(r.Src, Pkg{Name: "srconly", Version: "1.2.3"})
			sc.Packages = append(sc.Packages, "srconly")
			k := Cust{Type: pick(c.R, []string{"binary", "Binary"})}
			if c.R.Intn(2) == 0 {
				k.Repo = r.Name
			}
			sc.Cust["srconly"] = k
			return nil
		}, nil},
		{"only-binary-wanted-source", func(c *Case, sc *Scenario) func(*World) {
			sc.Repos = append(sc.Repos, Repo{Name: "BINS", RepoType: "MPN", Bin: []Pkg{{Name: "binonly", Version: "1.2.3"}}, Src: []Pkg{{Name: "somethingelse", Version: "1.2"}}})
			sc.Packages = append(sc.Packages, "binonly")
			k := Cust{Type: "source"}
			if c.R.Intn(2) == 0 {
				k.Repo = "BINS"
			}
			sc.Cust["binonly"] = k
			return nil
		}, nil},
		{"repo-of-other-type", func(c *Case, sc *Scenario) func(*World) {
			r := Repo{Name: "OTHER", RepoType: "MPN", Type: pick(c.R, []string{"source", "binary"}), Bin: []Pkg{{Name: "somethingelse", Version: "1.2"}}, Src: []Pkg{{Name: "somethingelse", Version: "1.2"}}}
			p := Pkg{Name: "othertype", Version: "1.2.3"}
			if r.Type == "source" {
				r.Bin = append(r.Bin, p)
			} else {
				r.Src = append(r.Src, p)
			}
			sc.Repos = append(sc.Repos, r)
			sc.Packages = append(sc.Packages, p.Name)
			if c.R.Intn(2) == 0 {
				sc.Cust[p.Name] = Cust{Repo: r.Name}
			}
			return nil
		}, nil},
		{"pinned-version-needs-newer-R", func(c *Case, sc *Scenario) func(*World) {
			sc.Repos[0].Src = append(sc.Repos[0].Src, Pkg{Name: "rold", Version: "1.2.3"})
			sc.Repos = append(sc.Repos, Repo{Name: "NEWR", Src: []Pkg{{Name: "rold", Version: "2.2.3", RReq: pick(c.R, []string{">= 4.4", "< 4.0", ">= 9.1"})}}})
			sc.Packages = append(sc.Packages, "rold")
			sc.Cust["rold"] = Cust{Repo: "NEWR"}
			return nil
		}, nil},
		{"unknown-type", func(c *Case, sc *Scenario) func(*World) {
			k := sc.Cust[sc.Packages[0]]
			k.Type = pick(c.R, []string{"sources", "wheel", "bin"})
			sc.Cust[sc.Packages[0]] = k
			return nil
		}, nil},
		{"strict-no-library", func(c *Case, sc *Scenario) func(*World) {
			sc.Strict, sc.NoLib, sc.Pre, sc.PreFiles = true, true, nil, nil
			return nil
		}, nil},
		{"strict-flag-no-library", func(c *Case, sc *Scenario) func(*World) {
			sc.NoLib, sc.Pre, sc.PreFiles = true, nil, nil
			return nil
		}, []string{"--strict"}},
		{"cycle", func(c *Case, sc *Scenario) func(*World) {
			r := &sc.Repos[0]
			n := 2 + c.R.Intn(3)
			for i := 0; i < n; i++ {
				r.Src = append(r.Src, Pkg{Name: fmt.Sprintf("cyc%d", i), Version: "1.1", Imports: []string{fmt.Sprintf("cyc%d", (i+1)%n)}})
			}
			r.Src = append(r.Src, Pkg{Name: "cycroot", Version: "1.1", Imports: []string{"cyc0"}})
			sc.Packages = append(sc.Packages, pick(c.R, []string{"cyc0", "cycroot"}))
			k := sc.Cust["cyc0"]
			k.Type = "source"
			for i := 0; i < n; i++ {
				sc.Cust[fmt.Sprintf("cyc%d", i)] = k
			}
			sc.Cust["cycroot"] = k
			return nil
		}, nil},
		{"tarball-missing", func(c *Case, sc *Scenario) func(*World) {
			sc.Tarballs = append(sc.Tarballs, Pkg{Name: "goner", Version: "1.1"})
			return func(w *World) { os.Remove(w.P("proj/tarballs/goner_1.1.tar.gz")) }
		}, nil},
		{"tarball-truncated", func(c *Case, sc *Scenario) func(*World) {
			sc.Tarballs = append(sc.Tarballs, Pkg{Name: "goner", Version: "1.1", SizeK: 20})
			return func(w *World) {
				p := w.P("proj/tarballs/goner_1.1.tar.gz")
				fi, err := os.Stat(p)
				must(err)
				must(os.Truncate(p, 1+c.R.Int63n(fi.Size()-1)))
			}
		}, nil},
		{"tarball-garbage", func(c *Case, sc *Scenario) func(*World) {
			sc.Tarballs = append(sc.Tarballs, Pkg{Name: "goner", Version: "1.1", Raw: []byte("this is no tarball\n")})
			return nil
		}, nil},
		{"tarball-without-description", func(c *Case, sc *Scenario) func(*World) {
			sc.Tarballs = append(sc.Tarballs, Pkg{Name: "goner", Version: "1.1", Raw: mkTar([]tfile{{"goner/R/x.R", 0644, []byte("1")}})})
			return nil
		}, nil},
		{"description-missing", func(c *Case, sc *Scenario) func(*World) {
			sc.Descs = append(sc.Descs, Pkg{Name: "godesc", Version: "1.1"})
			return func(w *World) { os.Remove(w.P("proj/descs/godesc/DESCRIPTION")) }
		}, nil},
		{"tarball-needs-missing", func(c *Case, sc *Scenario) func(*World) {
			sc.Tarballs = append(sc.Tarballs, Pkg{Name: "needy", Version: "1.1", Imports: []string{"doesnotexist"}})
			return nil
		}, nil},
		{"malformed-yml", func(c *Case, sc *Scenario) func(*World) {
			return func(w *World) {
				y := sc.yml(w)
				w.Sc.RawYml = pick(c.R, []string{y + "\n  bad: [unclosed\n", strings.Replace(y, "Packages:", "Packages", 1), "\tVersion: 1\n" + y, y + "\n{{{\n"})
				w.WriteYml()
			}
		}, nil},
		{"no-yml", func(c *Case, sc *Scenario) func(*World) {
			return func(w *World) { os.Remove(w.P("proj/pkgr.yml")) }
		}, nil},
		{"r-not-runnable", func(c *Case, sc *Scenario) func(*World) {
			return func(w *World) {
				os.Chmod(w.P("R/bin/R"), 0755)
				os.Remove(w.P("R/bin/R"))
				os.Remove(w.P("R/bin/Rscript"))
			}
		}, nil},
		{"r-fails", func(c *Case, sc *Scenario) func(*World) { sc.Ctl.VersionRC = 1; return nil }, nil},
		{"rpath-wrong", func(c *Case, sc *Scenario) func(*World) { sc.RPath = "/nonexistent/R"; return nil }, nil},
		{"cache-is-a-file", func(c *Case, sc *Scenario) func(*World) {
			fresh(sc)
			return func(w *World) {
				rmTree(w.CacheDir())
				writeFile(w.CacheDir(), []byte("not a folder\n"), 0644)
			}
		}, nil},
		{"cache-not-writable", func(c *Case, sc *Scenario) func(*World) {
			fresh(sc)
			return func(w *World) {
				os.MkdirAll(w.CacheDir(), 0755)
				os.Chmod(w.CacheDir(), 0555)
			}
		}, nil},
		{"unknown-flag", func(c *Case, sc *Scenario) func(*World) { return nil }, []string{"--no-such-flag"}},
	}
	n := x.N(15, 80)
	x.Cases("ways", len(ways)*n, 8, func(c *Case) {
		wy := ways[c.I%len(ways)]
		o := failGen
		o.MinP, o.MaxP = 3, 8
		o.Tar = 1
		var sc *Scenario
		for {
			sc = Gen(c.R, o)
			if !proto.IsBase(sc.Packages[0]) && sc.tar(sc.Packages[0]) == nil && first(sc) != nil {
				break
			}
		}
		after := wy.make(c, sc)
		w := newWorldIn(c, sc, wy.name)
		if after != nil {
			after(w)
			w.Own()
		}
		env := map[string]string{}
		if wy.name == "r-not-runnable" {
			env["PATH"] = w.P("R/bin") // no other R either
		}
		pre := snapTree(w.Lib(), true)
		if c.R.Intn(2) == 0 {
			po := w.PkgrOpt(RunOpt{Env: env}, append([]string{"plan"}, wy.args...)...)
			if !c.finished(w, po, "C27/") {
				return
			}
			if po.Exit == 0 && !strings.HasPrefix(wy.name, "cache-") && !strings.HasPrefix(wy.name, "strict-") {
				c.Fail(w, "C27/plan/"+wy.name, "%s: plan ends with exit status 0", wy.name)
			}
			if d := diffSnap(pre, snapTree(w.Lib(), true), 8); len(d) > 0 {
				c.Fail(w, "C27/library/"+wy.name, "%s: plan changed the library: %s", wy.name, strings.Join(d, "; "))
			}
			c.Count("plans", 1)
		}
		out := w.PkgrOpt(RunOpt{Env: env}, append(c.installArgs(), wy.args...)...)
		if !c.finished(w, out, "C27/") {
			return
		}
		if out.Exit == 0 {
			c.Fail(w, "C27/exit/"+wy.name, "%s: the run ends with exit status 0", wy.name)
		}
		if k := installs(out.Events); len(k) > 0 {
			c.Fail(w, "C27/install/"+wy.name, "%s: R was asked to install %s", wy.name, k[0].S.Pkg)
		}
		if d := diffSnap(pre, snapTree(w.Lib(), true), 8); len(d) > 0 {
			c.Fail(w, "C27/library/"+wy.name, "%s: the library changed: %s", wy.name, strings.Join(d, "; "))
		}
		c.Count("way_"+wy.name, 1)
		c.Distinct(wy.name + fmt.Sprint(sc.NoLib, sc.Threads, sc.Packages, len(sc.Pre)))
		if c.I < 3 {
			c.Sample(map[string]any{"way": wy.name, "packages": sc.Packages, "exit": out.Exit, "last_lines": tailStr(out.Stdout+out.Stderr, 400)})
		}
	})
}

func newWorldIn(c *Case, sc *Scenario, note string) *World {
	w := c.World(sc)
	w.notes = append(w.notes, note)
	return w
}
