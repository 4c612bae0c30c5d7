package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"vh/proto"
)

func init() {
	checks["C23"] = &Check{Fn: c23, Rule: "clean, clean cache and clean pkgdbs with every flag and selection on caches filled by two configurations that share cache and index folder, with foreign files, unpacked tarballs, built binaries and default or configured cache; a snapshot of the whole world compared with the exact set named; then the request log and library of a following install; non-trivial: every command; distinct by command, cache content and what was removed"}
}

func c23(x *Ctx) {
	x.Cases("clean", x.N(300, 4000), 8, func(c *Case) {
		gen := func() (*Scenario, *Plan) {
			for {
				sc := Gen(c.R, GenOpt{MinP: 2, MaxP: 6, Repos: 3, Bin: true, Tar: 2, Pin: true, NoLib: 1, Local: true})
				pl := sc.Plan()
				if pl.Cyclic || len(pl.Missing) > 0 || sc.tarCycle(pl) {
					continue
				}
				for i := range sc.Tarballs { // extracted under a hash of the file
					sc.Tarballs[i].Extra = fmt.Sprintf("Nonce: %d\n", c.R.Int63())
				}
				return sc, sc.Plan()
			}
		}
		sc, pl := gen()
		other, _ := gen()
		sc.XDGCache = c.R.Intn(3) == 0
		w := c.World(sc)
		mine := w.files
		step := ""
		ok := func(out *RunOut, what string) bool {
			step += fmt.Sprintf("%s: exit %d\n", what, out.Exit)
			if out.Hang || out.Timeout {
				c.Incon("%s did not finish", what)
				return false
			}
			if out.Exit != 0 || out.Signal != "" {
				c.Fail(w, "C23/exit", "%sfailed:\n%s", step, tailStr(out.Stdout+out.Stderr, 1500))
				return false
			}
			return true
		}
		// the other configuration
		if c.R.Intn(4) > 0 {
			o := *other
			o.XDGCache, o.LibPath, o.Ctl, o.Tarballs = sc.XDGCache, "lib-other", sc.Ctl, nil
			for i := range o.Repos {
				r := &o.Repos[i]
				r.Dir, r.Tag = "o-"+r.Name, "o-"+r.Name
			}
			if pl := o.Plan(); len(pl.Missing) == 0 {
				w.Sc = &o
				w.Serve()
				w.Own()
				w.WriteYml()
				if !ok(w.Pkgr("install"), "install of another configuration") {
					return
				}
				for k, v := range w.files {
					mine[k] = v
				}
			}
			w.Sc = sc
			w.mu.Lock()
			w.files = mine
			w.mu.Unlock()
		}
		// which cached index belongs to which repository
		idx := map[string]map[string]bool{}
		known := true
		files := func() map[string]bool {
			m := map[string]bool{}
			es, _ := os.ReadDir(w.IdxDir())
			for _, e := range es {
				m[e.Name()] = true
			}
			return m
		}
		filled := c.R.Intn(6) > 0
		if filled {
			if c.R.Intn(2) == 0 {
				for i := range sc.Repos {
					s := *sc
					s.Repos = sc.Repos[i : i+1]
					s.Packages, s.Tarballs, s.Cust = nil, nil, nil
					w.Sc = &s
					w.WriteYml()
					a := files()
					out := w.Pkgr("plan")
					w.Sc = sc
					if !ok(out, "plan with "+sc.Repos[i].Name) {
						return
					}
					m := map[string]bool{}
					for f := range files() {
						if !a[f] {
							m[f] = true
						}
					}
					idx[sc.Repos[i].Name] = m
				}
			}
			w.WriteYml()
			a := files()
			cmd := "install"
			if c.R.Intn(6) == 0 {
				cmd = "plan"
			}
			if !ok(w.Pkgr(cmd), cmd) {
				return
			}
			b := files()
			known = len(idx) > 0 && len(a) == len(b)
		} else {
			w.WriteYml()
			known = false
		}
		// foreign content
		if filled || c.R.Intn(2) == 0 {
			for i := 0; i < c.R.Intn(6); i++ {
				h := repoHash(sc.Repos[0].Name, w.RepoURL(&sc.Repos[0]))
				f := pick(c.R, []string{"README", "notes/src.txt", "0123456789abcdef/pkg/DESCRIPTION", "0123456789abcdef/pkg/src/a.c", h + "/notes.txt", h + "/other/src/x", "srcs/a", "src", "r_packagedb_caches2/x", h + "x/keep", "x" + h + "/keep", strings.ToLower(h) + "/src/keep", strings.ToUpper(h) + "/binary/4.3/keep", h + "x/src/keep", h[:len(h)-1] + "/src/keep", "x" + h + "/binary/keep"})
				writeFile(filepath.Join(w.CacheDir(), f), []byte("foreign\n"), 0644)
			}
		}
		if c.R.Intn(3) == 0 {
			writeFile(filepath.Join(w.IdxDir(), "notanindex"), []byte("foreign\n"), 0644)
		}
		w.Own()
		tops := func() []string { // repository folders of the cache
			var l []string
			es, _ := os.ReadDir(w.CacheDir())
			for _, e := range es {
				for _, s := range []string{"src", "binary"} {
					if fi, err := os.Stat(filepath.Join(w.CacheDir(), e.Name(), s)); err == nil && fi.IsDir() {
						l = append(l, e.Name())
					}
				}
			}
			return dedup(l)
		}
		for k := 0; k < 1+c.R.Intn(2); k++ {
			back := func() {}
			if len(sc.Tarballs) > 0 && c.R.Intn(4) == 0 { // a configured tarball that is not there
				p := w.P("proj/tarballs", srcFile(pick(c.R, sc.Tarballs)))
				must(os.Rename(p, p+".away"))
				back = func() { must(os.Rename(p+".away", p)) }
			}
			before := snapTree(w.Dir, true)
			cache := strings.TrimPrefix(w.CacheDir(), w.Dir+"/")
			idxd := strings.TrimPrefix(w.IdxDir(), w.Dir+"/")
			var args []string
			gone := func(string) bool { return false } // by path below the world
			unpacked := func(p string) bool {
				for _, t := range sc.Tarballs {
					b, err := os.ReadFile(w.P("proj/tarballs", srcFile(t)))
					if os.IsNotExist(err) {
						continue // its copy cannot be known
					}
					must(err)
					if strings.HasPrefix(p, fmt.Sprintf("%s/%x/", cache, md5sum(b))[:len(cache)+1+16]+"/") {
						return true
					}
				}
				return false
			}
			parts := func(dirs []string, src, bin bool) func(string) bool {
				return func(p string) bool {
					for _, d := range dirs {
						if src && strings.HasPrefix(p, cache+"/"+d+"/src/") || bin && strings.HasPrefix(p, cache+"/"+d+"/binary/") {
							return true
						}
					}
					return unpacked(p)
				}
			}
			indexes := func(names []string) func(string) bool {
				return func(p string) bool {
					for _, n := range names {
						if idx[n][strings.TrimPrefix(p, idxd+"/")] {
							return true
						}
					}
					return false
				}
			}
			var all []string
			for _, r := range sc.Repos {
				all = append(all, r.Name)
			}
			var sel []string // whose indexes are cleaned
			kind := pick(c.R, []string{"cache", "cache", "cache", "cache", "pkgdbs", "pkgdbs", "pkgdbs", "all", "none", "both"})
			wantExit := 0
			switch kind {
			case "cache":
				args = []string{"clean", "cache"}
				dirs := tops()
				src, bin := true, true
				switch c.R.Intn(3) {
				case 0:
					args, bin = append(args, "--src-only"), false
				case 1:
					args, src = append(args, "--binaries-only"), false
				}
				if c.R.Intn(2) == 0 {
					dirs = nil
					var l []string
					for i := 0; i < 1+c.R.Intn(3); i++ {
						if t := tops(); len(t) > 0 && c.R.Intn(4) > 0 {
							d := pick(c.R, t)
							dirs, l = append(dirs, d), append(l, d)
						} else {
							l = append(l, pick(c.R, append([]string{"nosuch", "r_packagedb_caches2", "."}, all...)))
						}
					}
					args = append(args, "--repos="+strings.Join(l, ","))
				}
				gone = parts(dirs, src, bin)
			case "pkgdbs":
				args = []string{"clean", "pkgdbs"}
				sel = all
				if c.R.Intn(2) == 0 {
					sel = nil
					var l []string
					for i := 0; i < 1+c.R.Intn(2); i++ {
						if c.R.Intn(5) > 0 {
							d := pick(c.R, all)
							sel, l = append(sel, d), append(l, d)
						} else {
							l = append(l, pick(c.R, []string{"nosuch", all[0] + "x", all[0][:1]}))
						}
					}
					l = dedup(l)
					args = append(args, "--repos="+strings.Join(l, ","))
				}
				gone = indexes(sel)
			case "all":
				args = []string{"clean", "--all"}
				sel = all
				g, h := parts(tops(), true, true), indexes(all)
				gone = func(p string) bool { return g(p) || h(p) }
			case "none":
				args = []string{"clean"}
			case "both":
				args = []string{"clean", "cache", "--src-only", "--binaries-only"}
				wantExit = -1
			}
			if !known && (kind == "pkgdbs" || kind == "all") {
				// judged by the number of files
				gone = func(p string) bool { return false }
				if kind == "all" {
					gone = parts(tops(), true, true)
				}
			}
			what := strings.Join(args, " ")
			stale := false
			if c.R.Intn(4) == 0 { // nothing has to be fetched for cleaning
				w.SetFaults([]*Fault{{Contain: "PACKAGES", Status: 500}})
				what += " (repositories down)"
			}
			if c.R.Intn(4) == 0 {
				stale = true
				for f := range files() {
					os.Chtimes(filepath.Join(w.IdxDir(), f), time.Now(), time.Now().Add(-3*time.Hour))
				}
				what += " (old indexes)"
			}
			out := w.Pkgr(args...)
			w.SetFaults(nil)
			if wantExit == -1 {
				step += fmt.Sprintf("%s: exit %d\n", what, out.Exit)
				if out.Exit == 0 {
					c.Fail(w, "C23/exit", "%sboth --src-only and --binaries-only are accepted", step)
					return
				}
			} else if !ok(out, what) {
				return
			}
			after := snapTree(w.Dir, true)
			skip := func(p string) bool {
				return strings.HasPrefix(p, "R/") || strings.HasPrefix(p, "tmp/") || p == "events.jsonl"
			}
			var bad []string
			lost, idxLost := 0, 0
			for _, p := range proto.SortedKeys(before) {
				v, there := after[p]
				if before[p] == "dir" || skip(p) {
					continue
				}
				if there && v != before[p] {
					bad = append(bad, "changed: "+p)
				}
				if !there {
					lost++
				}
				if !there && !known && strings.HasPrefix(p, idxd+"/") && len(sel) > 0 && filepath.Base(p) != "notanindex" {
					idxLost++
					continue
				}
				if there == gone(p) {
					bad = append(bad, map[bool]string{true: "still there: ", false: "gone: "}[there]+p)
				}
			}
			for _, p := range proto.SortedKeys(after) {
				if _, was := before[p]; !was && after[p] != "dir" && !skip(p) {
					bad = append(bad, "new: "+p)
				}
			}
			if len(bad) > 8 {
				bad = append(bad[:8], "...")
			}
			if idxLost > len(dedup(append([]string{}, sel...))) {
				bad = append(bad, fmt.Sprintf("%d indexes are gone, but only those of %v were named", idxLost, sel))
			}
			// empty folders of other things stay
			for _, p := range proto.SortedKeys(before) {
				if _, there := after[p]; !there && before[p] == "dir" && !skip(p) && !strings.HasPrefix(p, cache+"/") && !strings.HasPrefix(p, idxd) {
					bad = append(bad, "folder gone: "+p)
				}
			}
			if len(bad) > 0 {
				c.Fail(w, "C23/removed", "%s%s\n%s", step, strings.Join(bad, "\n"), tailStr(out.Stdout+out.Stderr, 1500))
				return
			}
			back()
			c.Count("commands", 1)
			c.Count("files_removed", lost)
			c.Distinct(what + fmt.Sprint(known, filled, lost, len(before)))
			if (kind == "pkgdbs" || kind == "all") && known && k == 0 && !stale {
				// the next command fetches exactly these again
				out := w.Pkgr("plan")
				if !ok(out, "plan") {
					return
				}
				for i := range sc.Repos {
					r := &sc.Repos[i]
					if r.Kind == "local" {
						continue
					}
					n := 0
					for _, q := range out.Reqs {
						if strings.HasPrefix(strings.TrimPrefix(q.Path, "/"), r.dir()+"/") && strings.Contains(q.Path, "PACKAGES") {
							n++
						}
					}
					if (n > 0) != contains(sel, r.Name) {
						c.Fail(w, "C23/refetch", "%sthe index of %s is fetched %d times by the next plan, cleaned were %v", step, r.Name, n, sel)
						return
					}
				}
				c.Count("refetch_checks", 1)
			}
		}
		// a following install works
		s2 := *sc
		s2.LibPath = pick(c.R, []string{"lib", "lib3"})
		w.Sc = &s2
		w.WriteYml()
		pre := snapTree(w.Lib(), false)
		var preP []Pkg
		if len(pre) > 1 {
			preP = nil
			for n, e := range sc.Expect(pl, nil, false) {
				if _, err := os.Stat(filepath.Join(w.Lib(), n)); err == nil {
					preP = append(preP, e.Pkg)
				}
			}
		}
		out := w.Pkgr("install")
		if !c.finished(w, out, "C23/") {
			return
		}
		if bad := w.checkLib(s2.Expect(pl, preP, false), pre); len(bad) > 0 {
			c.Fail(w, "C23/install", "%sthe following install gives another library:\n%s\n%s", step, strings.Join(bad, "\n"), tailStr(out.Stdout+out.Stderr, 1500))
			return
		}
		c.Count("installs_after", 1)
	})
}
