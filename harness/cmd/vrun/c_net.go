package main

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"time"

	"vh/proto"
)

func init() {
	checks["C11"] = &Check{Fn: c11, Level: "fault_enumeration", Rule: "1-3 installs with package downloads that fail in every way the server can produce (status, cut at a byte with and without length, reset, pkgr killed at a byte), then installs without faults; non-trivial: a fault happened; distinct by plan and faults"}
	checks["C12"] = &Check{Fn: c12, Level: "fault_enumeration", Rule: "index fetches that fail in every way, changed repositories with cached indexes of controlled age, changed names, URLs, types and R versions, damaged cached indexes, pkgr killed at an index byte; non-trivial: every case; distinct by kind and parameters"}
	checks["C25"] = &Check{Fn: c25, Rule: "https repositories with an untrusted certificate, every way of setting the option, every command, warm and cold caches, redirects to https; non-trivial: every case; distinct by command, option and cache state"}
}

// brokenTars lists the files below dir with one of the names that cannot be read completely.
func brokenTars(dir string, names map[string]bool) (bad []string, n int) {
	filepath.WalkDir(dir, func(p string, e fs.DirEntry, err error) error {
		if err != nil || e.IsDir() || !names[filepath.Base(p)] {
			return nil
		}
		n++
		if es, err := proto.ReadTar(p); err != nil || len(es) == 0 {
			bad = append(bad, fmt.Sprintf("%s: %v", p, err))
		}
		return nil
	})
	return
}

func c11(x *Ctx) {
	run := func(c *Case, o GenOpt, kills bool) {
		var sc *Scenario
		var pl *Plan
		var files []string
		for {
			sc = Gen(c.R, o)
			pl = sc.Plan()
			files = nil
			exp := sc.Expect(pl, sc.Pre, sc.NoUpdate)
			for _, n := range proto.SortedKeys(pl.Nodes) {
				ch := pl.Nodes[n]
				if ch.Repo.Kind != "local" && (exp[n].From != nil || exp[n].Tar) {
					files = append(files, n)
				}
			}
			if len(files) > 0 {
				break
			}
		}
		sc.NoUpdate = false
		exp := sc.Expect(pl, sc.Pre, false)
		w := c.World(sc)
		pathOf := map[string]string{}
		for _, n := range proto.SortedKeys(pl.Nodes) {
			ch := pl.Nodes[n]
			if ch.Type == "bin" {
				pathOf[n] = ch.Repo.dir() + "/" + w.binDir(ch.Repo) + "/" + binFile(ch.Pkg)
			} else {
				pathOf[n] = ch.Repo.dir() + "/src/contrib/" + srcFile(ch.Pkg)
			}
		}
		names := map[string]bool{}
		for _, ch := range pl.Nodes {
			names[srcFile(ch.Pkg)], names[binFile(ch.Pkg)] = true, true
		}
		full := map[string]bool{}  // received completely
		maybe := map[string]bool{} // sent completely, but pkgr was killed then
		killed, fired := false, 0
		pre := snapTree(w.Lib(), false)
		var hist []string
		rounds := 1 + c.R.Intn(3)
		for round := 0; round <= rounds+1; round++ {
			var fl []*Fault
			last := round >= rounds
			faulty := map[string]bool{}
			if !last {
				for i := 0; i < 1+c.R.Intn(3); i++ {
					n := pick(c.R, files)
					if faulty[n] {
						continue
					}
					faulty[n] = true
					f := &Fault{Suffix: pathOf[n]}
					size := len(w.files[pathOf[n]])
					at := c.R.Intn(size)
					switch c.R.Intn(4) {
					case 0:
						at = 0
					case 1:
						at = size - 1 - c.R.Intn(min(size, 20))
					}
					k := c.R.Intn(7)
					if kills && i == 0 {
						k = 7
					}
					switch k {
					case 0, 1:
						f.Status = pick(c.R, []int{404, 403, 500, 502, 503, 401, 429, 204, 206, 410})
					case 2, 3:
						f.CutOn, f.Cut, f.Fin = true, at, c.R.Intn(2) == 0
					case 4, 5:
						f.CutOn, f.Cut, f.Chunked, f.Fin = true, at, true, c.R.Intn(2) == 0
					case 6:
						f.Reset = true
					case 7:
						f.KillOn, f.KillAt, f.Chunked = true, at, c.R.Intn(2) == 0
						if c.R.Intn(4) == 0 {
							f.KillAt = size
						}
					}
					if c.R.Intn(3) == 0 {
						f.DelayMs = c.R.Intn(25)
					}
					fl = append(fl, f)
					hist = append(hist, fmt.Sprintf("%d %s status=%d cut=%v/%d/%d fin=%v chunked=%v reset=%v kill=%v/%d", round, n, f.Status, f.CutOn, f.Cut, size, f.Fin, f.Chunked, f.Reset, f.KillOn, f.KillAt))
				}
			}
			w.SetFaults(fl)
			args := c.installArgs()
			if c.R.Intn(5) == 0 && !last {
				args = append(args, "--no-rollback")
			}
			out := w.Pkgr(args...)
			if !c.finished(w, out, "C11/") {
				return
			}
			for _, f := range fl {
				fired += int(f.fired)
			}
			if out.Signal != "" {
				killed = true
			}
			ps := installs(out.Events)
			for _, p := range ps {
				if p.S.Pkg == "" {
					c.Fail(w, "C11/incomplete", "round %d (%s): R was asked to install %q in %s, which is no complete package", round, strings.Join(hist, "; "), p.S.Path, p.S.Cwd)
				}
			}
			for _, q := range pkgReqs(out.Reqs) {
				if full[q.Path] && !killed && strings.HasSuffix(q.Path, ".tar.gz") {
					c.Fail(w, "C11/again", "round %d: %s is fetched again though an earlier run received it completely", round, q.Path)
				}
			}
			for _, q := range pkgReqs(out.Reqs) {
				if q.Full && q.Status == 200 {
					full[q.Path] = true
				}
				for _, f := range fl {
					if f.KillOn && f.fired > 0 && f.KillAt >= len(w.files[f.Suffix]) {
						maybe[f.Suffix] = true
					}
				}
			}
			for _, p := range ps {
				ch := pl.Nodes[p.S.Pkg]
				if ch != nil && p.S.Pass != "dir" && ch.Repo.Kind != "local" && !full[pathOf[p.S.Pkg]] && !maybe[pathOf[p.S.Pkg]] {
					c.Fail(w, "C11/incomplete", "round %d (%s): R was asked to install %s (%s), which was never received completely", round, strings.Join(hist, "; "), p.S.Pkg, p.S.Pass)
				}
			}
			bt, n := brokenTars(w.CacheDir(), names)
			if len(bt) > 0 {
				c.Fail(w, "C11/cache", "round %d (%s): the cache has incomplete package files: %s", round, strings.Join(hist, "; "), strings.Join(bt, "; "))
			}
			c.Count("cached_files_read", n)
			if last {
				if bad := w.checkLib(exp, pre); len(bad) > 0 {
					c.Fail(w, "C11/recover", "run without faults after %s:\n%s\n%s", strings.Join(hist, "; "), strings.Join(bad, "\n"), tailStr(out.Stderr, 1500))
				}
				for _, n := range files {
					if !full[pathOf[n]] && !maybe[pathOf[n]] && !killed {
						c.Fail(w, "C11/recover", "%s was never received completely though the last run met no fault", pathOf[n])
					}
				}
			}
			if c.failed {
				return
			}
		}
		c.Count("faults_happened", fired)
		if fired > 0 {
			c.Distinct(planSig(pl) + strings.Join(hist, ";"))
		}
		if c.I < 2 {
			c.Sample(map[string]any{"plan": planSig(pl), "faults": hist})
		}
	}
	o := GenOpt{MinP: 3, MaxP: 9, Repos: 2, Bin: true, Pre: 0.3, Other: 2, Tar: 1, NoLib: 0.5, SizeK: 24, Files: true}
	x.Cases("faults", x.N(90, 1200), 8, func(c *Case) { run(c, o, false) })
	x.Cases("kills", x.N(40, 600), 8, func(c *Case) { run(c, o, true) })
}

// idxReqs are the requests for indexes.
func idxReqs(rs []Req) map[string]int {
	m := map[string]int{}
	for _, r := range rs {
		if strings.HasSuffix(r.Path, "/PACKAGES") {
			m[r.Path]++
		}
	}
	return m
}

// bump publishes newer versions of every package.
func bump(c *Case, sc *Scenario) {
	for i := range sc.Repos {
		for j := range sc.Repos[i].Src {
			sc.Repos[i].Src[j].Version = otherVersion(c.R, sc.Repos[i].Src[j].Version, 1)
		}
		for j := range sc.Repos[i].Bin {
			sc.Repos[i].Bin[j].Version = otherVersion(c.R, sc.Repos[i].Bin[j].Version, 1)
		}
	}
}

func cloneRepos(rs []Repo) []Repo {
	var l []Repo
	for _, r := range rs {
		r.Src = append([]Pkg{}, r.Src...)
		if r.Bin != nil {
			r.Bin = append([]Pkg{}, r.Bin...)
		}
		l = append(l, r)
	}
	return l
}

func c12(x *Ctx) {
	o := GenOpt{MinP: 3, MaxP: 9, Repos: 3, Bin: true, Pre: 0.3, Other: 2, NoLib: 0.4, Files: true}
	clean := func(c *Case, w *World, what string) bool {
		w.SetFaults(nil)
		sc := w.Sc
		pre := snapTree(w.Lib(), false)
		out := w.Pkgr("install")
		if !c.finished(w, out, "C12/") {
			return false
		}
		if bad := w.checkLib(sc.Expect(sc.Plan(), sc.Pre, sc.NoUpdate), pre); len(bad) > 0 {
			c.Fail(w, "C12/recover", "run without faults after %s:\n%s\n%s", what, strings.Join(bad, "\n"), tailStr(out.Stdout+out.Stderr, 1500))
			return false
		}
		return true
	}
	x.Cases("faults", x.N(110, 1400), 8, func(c *Case) {
		sc := Gen(c.R, o)
		pl := sc.Plan()
		r := pick(c.R, sc.Repos)
		if r.Kind == "local" {
			return
		}
		w := c.World(sc)
		idx := r.dir() + "/src/contrib/PACKAGES"
		both := true
		if r.RepoType == "MPN" && c.R.Intn(2) == 0 {
			idx = r.dir() + "/" + w.binDir(&r) + "/PACKAGES"
		}
		if r.RepoType == "MPN" {
			both = false
		}
		f := &Fault{Suffix: idx}
		size := len(w.files[idx])
		if size == 0 {
			size = 1
		}
		kind := c.R.Intn(7)
		switch kind {
		case 0:
			st := []int{500, 502, 503, 429, 401}
			if both {
				st = append(st, 404, 403)
			}
			f.Status = pick(c.R, st)
		case 1, 2:
			f.CutOn, f.Cut, f.Fin = true, c.R.Intn(size), c.R.Intn(2) == 0
		case 3, 4:
			f.CutOn, f.Cut, f.Chunked, f.Fin = true, c.R.Intn(size), true, c.R.Intn(2) == 0
			if c.R.Intn(2) == 0 {
				// at the end of an entry
				if i := strings.Index(string(w.files[idx]), "\n\n"); i > 0 {
					f.Cut = i + c.R.Intn(3)
				}
			}
		case 5:
			f.Reset = true
		case 6:
			f.KillOn, f.KillAt, f.Chunked = true, c.R.Intn(size), c.R.Intn(2) == 0
		}
		if (kind == 1 || kind == 2 || kind == 6) && len(w.files[idx]) == 0 {
			return
		}
		if kind == 3 || kind == 4 {
			if len(w.files[idx]) == 0 {
				return
			}
		}
		if c.R.Intn(2) == 0 {
			f.DelayMs = c.R.Intn(40)
		}
		desc := fmt.Sprintf("%s status=%d cut=%v/%d/%d fin=%v chunked=%v reset=%v kill=%v/%d", idx, f.Status, f.CutOn, f.Cut, size, f.Fin, f.Chunked, f.Reset, f.KillOn, f.KillAt)
		// sometimes there is an outdated index in the cache
		if c.R.Intn(3) == 0 {
			out := w.Pkgr("plan")
			if !c.finished(w, out, "C12/") {
				return
			}
			age(w, 7200)
			desc += " with an expired index"
		}
		w.SetFaults([]*Fault{f})
		pre := snapTree(w.Lib(), true)
		cmd := pick(c.R, [][]string{{"install"}, {"install"}, {"install", "--no-rollback"}, {"plan"}})
		out := w.Pkgr(cmd...)
		if !c.finished(w, out, "C12/") {
			return
		}
		if f.fired == 0 {
			c.Incon("index fault did not happen: %s", desc)
			return
		}
		if out.Exit == 0 {
			c.Fail(w, "C12/goes-on", "%s: pkgr %s ends with exit status 0", desc, strings.Join(cmd, " "))
		}
		if k := installs(out.Events); len(k) > 0 {
			c.Fail(w, "C12/goes-on", "%s: R was asked to install %s", desc, k[0].S.Pkg)
		}
		if d := diffSnap(pre, snapTree(w.Lib(), true), 6); len(d) > 0 {
			c.Fail(w, "C12/library", "%s: the library changed: %s", desc, strings.Join(d, "; "))
		}
		if c.failed || !clean(c, w, desc) {
			return
		}
		c.Count("index_faults", 1)
		c.Distinct(desc + planSig(pl))
		if c.I < 3 {
			c.Sample(map[string]any{"fault": desc, "exit": out.Exit})
		}
	})
	// a repository without one of the two types is no fault
	x.Cases("absent", x.N(16, 150), 8, func(c *Case) {
		oo := o
		oo.Pre = 0
		for try := 0; try < 200; try++ {
			sc := Gen(c.R, oo)
			var mpn *Repo
			for i := range sc.Repos {
				if sc.Repos[i].RepoType == "MPN" {
					mpn = &sc.Repos[i]
				}
			}
			if mpn == nil {
				continue
			}
			mod := *sc
			mod.Repos = cloneRepos(sc.Repos)
			src := c.R.Intn(2) == 0
			for i := range mod.Repos {
				if mod.Repos[i].Name == mpn.Name {
					if src {
						mod.Repos[i].Src = nil
					} else {
						mod.Repos[i].Bin = []Pkg{}
					}
				}
			}
			pl := mod.Plan()
			if pl.Cyclic || len(pl.Missing) > 0 {
				continue
			}
			sc.Ctl.NoDepChk = true // without the index some dependencies may be offered nowhere
			w := c.World(sc)
			f := &Fault{Suffix: mpn.dir() + "/src/contrib/PACKAGES", Status: pick(c.R, []int{404, 403})}
			if !src {
				f.Suffix = mpn.dir() + "/" + w.binDir(mpn) + "/PACKAGES"
			}
			if mpn.Kind == "local" {
				must(os.Remove(w.P("repos/" + f.Suffix)))
			} else {
				w.SetFaults([]*Fault{f})
			}
			pre := snapTree(w.Lib(), false)
			out := w.Pkgr("install")
			if !c.finished(w, out, "C12/") {
				return
			}
			if bad := w.checkLib(mod.Expect(pl, mod.Pre, mod.NoUpdate), pre); len(bad) > 0 && len(installs(out.Events)) > 0 {
				c.Fail(w, "C12/absent", "%s answered %d: %s", f.Suffix, f.Status, strings.Join(bad, "\n"))
			}
			c.Count("absent_types", 1)
			c.Distinct("absent" + f.Suffix + planSig(pl))
			return
		}
	})
	// maximum age
	x.Cases("age", x.N(60, 700), 8, func(c *Case) {
		oo := o
		oo.Pre, oo.Other, oo.Files, oo.NoLib = 0, 0, false, 1
		sc := Gen(c.R, oo)
		sc.NoUpdate = false
		w := c.World(sc)
		old := cloneRepos(sc.Repos)
		out := w.Pkgr(pick(c.R, []string{"plan", "inspect"}))
		if !c.finished(w, out, "C12/") {
			return
		}
		bump(c, sc)
		w.Serve()
		w.Own()
		env := map[string]string{}
		max := 3600
		switch c.R.Intn(8) {
		case 0:
			max = 60
		case 1:
			max = 100000
		case 2:
			max = 1000
		case 3:
			env["R_AVAILABLE_PACKAGES_CACHE_CONTROL_MAX_AGE"] = "often"
		case 4:
			max = pick(c.R, []int{0, -1, -3600})
		}
		if max != 3600 {
			env["R_AVAILABLE_PACKAGES_CACHE_CONTROL_MAX_AGE"] = fmt.Sprint(max)
		}
		// far from the limit or close to it, yet not so close that the machine decides
		a := max / 2
		if max > 300 && c.R.Intn(2) == 0 {
			a = max - 40
		}
		fresh := true
		if max <= 0 {
			a, fresh = pick(c.R, []int{2, 50, 4000}), false
		} else if c.R.Intn(2) == 0 {
			a, fresh = pick(c.R, []int{max * 2, max + 3, max + 20}), false
		}
		age(w, a)
		// package files of both generations are there
		if fresh {
			cur := sc.Repos
			sc.Repos = old
			of := map[string][]byte{}
			w.mu.Lock()
			for k, v := range w.files {
				of[k] = v
			}
			w.mu.Unlock()
			w.Serve()
			w.mu.Lock()
			for k, v := range of {
				if strings.HasSuffix(k, "PACKAGES") || w.files[k] == nil {
					w.files[k] = v
				}
			}
			w.mu.Unlock()
			_ = cur
		}
		out = w.PkgrOpt(RunOpt{Env: env}, "install")
		if !c.finished(w, out, "C12/") {
			return
		}
		ir := idxReqs(out.Reqs)
		if fresh && len(ir) > 0 {
			c.Fail(w, "C12/age", "the index is %d s old, the maximum age %d s: it was fetched again: %v", a, max, ir)
		}
		hasHTTP := false
		for _, r := range sc.Repos {
			if r.Kind != "local" {
				hasHTTP = true
			}
		}
		if !fresh && hasHTTP && len(ir) == 0 {
			c.Fail(w, "C12/age", "the index is %d s old, the maximum age %d s: it was not fetched again", a, max)
		}
		// with fresh indexes the old offers count (sc.Repos is the old generation then), otherwise the new ones
		if bad := w.checkLib(sc.Expect(sc.Plan(), nil, false), Snap{}); len(bad) > 0 {
			c.Fail(w, "C12/age", "index %d s old, maximum age %d s: %s", a, max, strings.Join(bad, "\n"))
		}
		c.Count("ages", 1)
		c.Distinct(fmt.Sprint("age", max, fresh, env) + planSig(sc.Plan()))
	})
	// name, URL, types, R version
	x.Cases("key", x.N(60, 700), 8, func(c *Case) {
		oo := o
		oo.Pre, oo.Other, oo.Files, oo.NoLib = 0, 0, false, 1
		sc := Gen(c.R, oo)
		sc.NoUpdate = false
		sc.Cust = map[string]Cust{}
		sc.Ctl.NoDepChk = true
		if len(sc.Plan().Missing) > 0 || sc.Plan().Cyclic {
			return
		}
		w := c.World(sc)
		out := w.Pkgr("plan")
		if !c.finished(w, out, "C12/") {
			return
		}
		i := c.R.Intn(len(sc.Repos))
		r := &sc.Repos[i]
		if r.Kind == "local" {
			return
		}
		bump(c, sc)
		what := ""
		switch c.R.Intn(6) {
		case 5:
			what = "suffix"
			if r.RepoType != "MPN" {
				return
			}
			r.Suffix += "s" + fmt.Sprint(c.I)
		case 0:
			what = "name"
			r.Dir = r.dir()
			r.Name = "NEW" + r.Name
		case 1:
			what = "URL"
			r.Dir = r.dir() + "x"
		case 2:
			what = "R version"
			sc.Ctl.RVersion = pick(c.R, []string{"4.3.2", "4.3.0", "4.4.1", "4.3.11"})
		case 3:
			what = "R version"
			sc.Ctl.RVersion = pick(c.R, []string{"4.2.3", "4.5.0"})
		case 4:
			what = "types"
			if r.RepoType == "MPN" {
				r.RepoType, r.Type, r.Suffix, r.Bin = "", "", "", nil
			} else {
				r.RepoType = "MPN"
				for _, p := range r.Src {
					r.Bin = append(r.Bin, Pkg{Name: p.Name, Version: otherVersion(c.R, p.Version, 1)})
				}
			}
		}
		// only that repository changes its content, the others keep their old index
		other := w.files
		w.Serve()
		w.WriteCtl()
		w.WriteYml()
		w.Own()
		_ = other
		mod := *sc
		if what != "R version" {
			// unchanged repositories are still cached: judge only the changed one
			pl := mod.Plan()
			if len(pl.Missing) > 0 || pl.Cyclic {
				return
			}
			out = w.Pkgr("plan", "--logjson", "--loglevel", "debug")
			if !c.finished(w, out, "C12/") {
				return
			}
			fetched := false
			for p := range idxReqs(out.Reqs) {
				if strings.HasPrefix(p, r.dir()+"/") {
					fetched = true
				}
			}
			if !fetched {
				c.Fail(w, "C12/key", "the %s of repository %s changed, its cached index was used", what, r.Name)
			}
			c.Count("key_changes", 1)
			c.Distinct("key" + what + r.Name + planSig(pl))
			return
		}
		pl := mod.Plan()
		if len(pl.Missing) > 0 || pl.Cyclic {
			return
		}
		out = w.Pkgr("install")
		if !c.finished(w, out, "C12/") {
			return
		}
		if bad := w.checkLib(mod.Expect(pl, nil, false), Snap{}); len(bad) > 0 {
			c.Fail(w, "C12/key", "the R version changed to %s: %s", sc.Ctl.RVersion, strings.Join(bad, "\n"))
		}
		c.Count("key_changes", 1)
		c.Distinct("key" + what + sc.Ctl.RVersion + planSig(pl))
	})
	// damaged cached indexes
	x.Cases("damage", x.N(70, 900), 8, func(c *Case) {
		sc := Gen(c.R, o)
		w := c.World(sc)
		out := w.Pkgr("plan")
		if !c.finished(w, out, "C12/") {
			return
		}
		es, _ := os.ReadDir(w.IdxDir())
		if len(es) == 0 {
			c.Incon("no cached index found in %s", w.IdxDir())
			return
		}
		desc := ""
		for _, e := range es {
			p := filepath.Join(w.IdxDir(), e.Name())
			b, err := os.ReadFile(p)
			must(err)
			k := c.R.Intn(5)
			desc += fmt.Sprint(k, " ")
			switch k {
			case 0:
				n := c.R.Intn(len(b))
				desc += fmt.Sprint("cut at ", n, "; ")
				b = b[:n]
			case 1:
				b = nil
			case 2:
				b = []byte("not a database")
			case 3:
				b = append([]byte{}, b...)
				for j := range b {
					b[j] = byte(c.R.Intn(256))
				}
			case 4:
				continue
			}
			must(os.WriteFile(p, b, 0644))
		}
		w.Own()
		if !clean(c, w, "damaging the cached indexes: "+desc) {
			return
		}
		c.Count("damaged_indexes", len(es))
		c.Distinct("damage" + desc)
	})
	x.Cases("unreachable", x.N(12, 60), 8, func(c *Case) {
		sc := Gen(c.R, o)
		w := c.World(sc)
		i := c.R.Intn(len(sc.Repos))
		u := sc.Repos[i].URL
		sc.Repos[i].URL = pick(c.R, []string{"http://127.0.0.1:1/none", "http://nosuchhost.invalid/cran", w.P("nosuchdir"), "https://127.0.0.1:1/none"})
		w.WriteYml()
		pre := snapTree(w.Lib(), true)
		out := w.Pkgr("install")
		if !c.finished(w, out, "C12/") {
			return
		}
		if out.Exit == 0 || len(installs(out.Events)) > 0 {
			c.Fail(w, "C12/goes-on", "repository at %s: exit %d, %d R installs", sc.Repos[i].URL, out.Exit, len(installs(out.Events)))
		}
		if d := diffSnap(pre, snapTree(w.Lib(), true), 6); len(d) > 0 {
			c.Fail(w, "C12/library", "repository at %s: the library changed: %s", sc.Repos[i].URL, strings.Join(d, "; "))
		}
		c.Distinct("unreachable" + sc.Repos[i].URL + fmt.Sprint(i))
		sc.Repos[i].URL = u
		w.WriteYml()
		clean(c, w, "an unreachable repository")
	})
}

// age makes the cached indexes that old.
func age(w *World, sec int) {
	es, _ := os.ReadDir(w.IdxDir())
	t := time.Now().Add(-time.Duration(sec) * time.Second)
	for _, e := range es {
		os.Chtimes(filepath.Join(w.IdxDir(), e.Name()), t, t)
	}
}

func c25(x *Ctx) {
	type opt struct {
		name   string
		yml    string
		args   []string
		secure bool
	}
	opts := []opt{
		{"default", "", nil, true},
		{"yml-false", "NoSecure: false\n", nil, true},
		{"flag-false", "", []string{"--no-secure=false"}, true},
		{"other-flags", "", []string{"--debug", "--strict=false"}, true},
		{"other-yml", "Strict: false\nThreads: 3\n", nil, true},
		{"no-rollback", "NoRollback: true\n", []string{"--no-rollback"}, true},
		{"log-trace", "", []string{"--loglevel", "trace", "--threads", "2"}, true},
		{"yml-true", "NoSecure: true\n", nil, false},
		{"flag", "", []string{"--no-secure"}, false},
		{"flag-true", "NoSecure: false\n", []string{"--no-secure=true"}, false},
		{"flag-false-over-yml", "NoSecure: true\n", []string{"--no-secure=false"}, true},
	}
	x.Cases("options", x.N(110, 900), 8, func(c *Case) {
		op := opts[c.I%len(opts)]
		oo := GenOpt{MinP: 3, MaxP: 7, Repos: 3, Bin: true, Pre: 0.3, Other: 2, NoLib: 0.4}
		sc := Gen(c.R, oo)
		sc.NoSecure = false
		k := 0
		for i := range sc.Repos {
			if i == 0 || c.R.Intn(2) == 0 {
				sc.Repos[i].Kind = "https"
				k++
			}
		}
		redirect := c.R.Intn(5) == 0
		if redirect { // plain http that leads to https
			for i := range sc.Repos {
				sc.Repos[i].Kind = ""
			}
			sc.Faults = []*Fault{{Contain: sc.Repos[0].dir() + "/", ToTLS: true}}
		}
		pl := sc.Plan()
		w := c.World(sc)
		state := pick(c.R, []string{"cold", "cold", "index"})
		if state == "index" {
			out := w.Pkgr("plan", "--no-secure")
			if !c.finished(w, out, "C25/") {
				return
			}
		}
		sc.ExtraYml = op.yml
		w.WriteYml()
		cmd := pick(c.R, [][]string{{"install"}, {"install"}, {"plan"}, {"inspect", "--deps"}, {"load"}, {"add", "--install", sc.Packages[0]}})
		args := append(append([]string{}, op.args...), cmd...)
		pre, preC := snapTree(w.Lib(), true), snapTree(w.Lib(), false)
		out := w.Pkgr(args...)
		if !c.finished(w, out, "C25/") {
			return
		}
		tls := 0
		for _, q := range out.Reqs {
			if q.TLS {
				tls++
			}
		}
		what := fmt.Sprintf("pkgr %s (%s, %s cache, redirect %v)", strings.Join(args, " "), op.name, state, redirect)
		needs := false // some planned package comes from an untrusted server
		for _, ch := range pl.Nodes {
			if ch.Repo.Kind == "https" || (redirect && ch.Repo.Name == sc.Repos[0].Name) {
				needs = true
			}
		}
		if op.secure {
			if tls > 0 {
				c.Fail(w, "C25/fetched", "%s: %d requests reached the server with the untrusted certificate", what, tls)
			}
			if (needs || state == "cold") && op.name != "no-rollback" {
				if d := diffSnap(pre, snapTree(w.Lib(), true), 5); len(d) > 0 && cmd[0] != "load" {
					exp := sc.Expect(pl, sc.Pre, sc.NoUpdate)
					touched := false
					for _, t := range exp {
						if t.From != nil && (t.From.Repo.Kind == "https" || (redirect && t.From.Repo.Name == sc.Repos[0].Name)) {
							touched = true
						}
					}
					if touched || state == "cold" {
						c.Fail(w, "C25/library", "%s: the library changed: %s", what, strings.Join(d, "; "))
					}
				}
			}
			if state == "cold" && out.Exit == 0 {
				c.Fail(w, "C25/exit", "%s ends with exit status 0", what)
			}
			c.Count("refused", 1)
		} else if cmd[0] == "install" {
			if bad := w.checkLib(sc.Expect(pl, sc.Pre, sc.NoUpdate), preC); len(bad) > 0 {
				c.Fail(w, "C25/noSecure", "%s: %s\n%s", what, strings.Join(bad, "\n"), tailStr(out.Stderr, 600))
			}
			c.Count("allowed", 1)
			c.Count("tls_requests", tls)
		}
		c.Distinct(what)
		if c.I < 3 {
			c.Sample(map[string]any{"run": what, "tls_requests": tls, "exit": out.Exit})
		}
	})
	// certificates of a trusted authority that are not valid for the server or not now
	x.Cases("invalid", x.N(24, 200), 8, func(c *Case) {
		sc := Gen(c.R, GenOpt{MinP: 3, MaxP: 7, Repos: 2, Bin: true, Pre: 0.3, NoLib: 0.3})
		sc.NoSecure = false
		bad := pick(c.R, []string{"host", "expired", "early"})
		for i := range sc.Repos {
			sc.Repos[i].Kind, sc.Repos[i].Cert = "https", bad
		}
		op := opts[c.R.Intn(len(opts))]
		for op.name == "no-rollback" {
			op = opts[c.R.Intn(len(opts))]
		}
		w := c.World(sc)
		writeFile(w.P("ca.pem"), srv.caPEM, 0644)
		w.Own()
		ro := RunOpt{Env: map[string]string{"SSL_CERT_FILE": w.P("ca.pem")}}
		warm := c.R.Intn(2) == 0
		if warm {
			if out := w.PkgrOpt(ro, "plan", "--no-secure"); !c.finished(w, out, "C25/") {
				return
			}
		}
		sc.ExtraYml = op.yml
		w.WriteYml()
		pre, preC := snapTree(w.Lib(), true), snapTree(w.Lib(), false)
		out := w.PkgrOpt(ro, append(append([]string{}, op.args...), "install")...)
		if !c.finished(w, out, "C25/") {
			return
		}
		what := fmt.Sprintf("certificate of a trusted authority, %s, %s, cached indexes %v", bad, op.name, warm)
		exp := sc.Expect(sc.Plan(), sc.Pre, sc.NoUpdate)
		if op.secure {
			if len(out.Reqs) > 0 {
				c.Fail(w, "C25/fetched", "%s: %d requests reached the server", what, len(out.Reqs))
			}
			if d := diffSnap(pre, snapTree(w.Lib(), true), 5); len(d) > 0 {
				c.Fail(w, "C25/library", "%s: the library changed: %s", what, strings.Join(d, "; "))
			}
			c.Count("invalid_refused", 1)
		} else {
			if l := w.checkLib(exp, preC); len(l) > 0 {
				c.Fail(w, "C25/noSecure", "%s: %s\n%s", what, strings.Join(l, "\n"), tailStr(out.Stderr, 600))
			}
			c.Count("invalid_allowed", 1)
		}
		c.Distinct(what + planSig(sc.Plan()))
	})
	// trusted certificates work without the option
	x.Cases("trusted", x.N(10, 60), 8, func(c *Case) {
		sc := Gen(c.R, GenOpt{MinP: 3, MaxP: 7, Repos: 2, Bin: true, Pre: 0.2})
		sc.NoSecure = false
		for i := range sc.Repos {
			sc.Repos[i].Kind = "https"
		}
		w := c.World(sc)
		writeFile(w.P("ca.pem"), srv.caPEM, 0644)
		w.Own()
		pre := snapTree(w.Lib(), false)
		out := w.PkgrOpt(RunOpt{Env: map[string]string{"SSL_CERT_FILE": w.P("ca.pem")}}, "install")
		if !c.finished(w, out, "C25/") {
			return
		}
		if bad := w.checkLib(sc.Expect(sc.Plan(), sc.Pre, sc.NoUpdate), pre); len(bad) > 0 {
			c.Fail(w, "C25/trusted", "with a trusted certificate: %s\n%s", strings.Join(bad, "\n"), tailStr(out.Stderr, 800))
		}
		// the next run does not trust it any more
		rmTree(w.P("xdg"))
		os.MkdirAll(w.P("xdg"), 0755)
		rmTree(w.CacheDir())
		sc.LibPath = "lib2"
		w.WriteYml()
		w.Own()
		out = w.Pkgr("install")
		if !c.finished(w, out, "C25/") {
			return
		}
		if len(installs(out.Events)) > 0 || out.Exit == 0 {
			c.Fail(w, "C25/fetched", "an install from an untrusted server after one from the same server, then trusted: exit %d, %d R installs", out.Exit, len(installs(out.Events)))
		}
		c.Distinct("trusted" + planSig(sc.Plan()))
	})
}
