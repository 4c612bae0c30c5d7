package main

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"vh/proto"
)

func init() {
	checks["C13"] = &Check{Fn: c13, Level: "fault_enumeration", Rule: "installs with updates, tarballs and new packages killed by SIGKILL one to three times in a row: at the start or end of an R process, at the k-th file system event in the library, cache or index cache, at a byte of a download, at a random time; then run again; non-trivial: at least one kill hit; distinct by plan, kill points and the state of the library at the kills"}
	checks["C14"] = &Check{Fn: c14, Rule: "sequences of installs into fresh libraries sharing a cache while repository name, URL, package version, R version or platform change, failed builds, kills and concurrent runs while every binary in the cache is read again and again; non-trivial: at least one package installed; distinct by plan and history"}
}

// fsKiller sends SIGKILL to a run at the k-th file system event below its roots.
type fsKiller struct {
	fd    int
	dirs  map[int32]string
	n, k  int
	fired atomic.Bool
	stopc chan struct{}
	wg    sync.WaitGroup
	what  string
	match func(path string) bool
}

func newFsKiller(roots []string, k int, match func(string) bool, kill func()) *fsKiller {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	must(err)
	f := &fsKiller{fd: fd, dirs: map[int32]string{}, k: k, stopc: make(chan struct{}), match: match}
	for _, r := range roots {
		f.add(r)
	}
	f.wg.Add(1)
	go func() {
		defer f.wg.Done()
		buf := make([]byte, 65536)
		for {
			select {
			case <-f.stopc:
				return
			default:
			}
			n, err := syscall.Read(fd, buf)
			if err == syscall.EAGAIN || n <= 0 {
				time.Sleep(50 * time.Microsecond)
				continue
			}
			for o := 0; o+syscall.SizeofInotifyEvent <= n; {
				e := (*syscall.InotifyEvent)(unsafe.Pointer(&buf[o]))
				name := strings.TrimRight(string(buf[o+syscall.SizeofInotifyEvent:o+syscall.SizeofInotifyEvent+int(e.Len)]), "\x00")
				o += syscall.SizeofInotifyEvent + int(e.Len)
				d, ok := f.dirs[e.Wd]
				if !ok {
					continue
				}
				p := filepath.Join(d, name)
				if e.Mask&syscall.IN_ISDIR != 0 && e.Mask&(syscall.IN_CREATE|syscall.IN_MOVED_TO) != 0 {
					f.add(p)
				}
				if f.match != nil && !f.match(p) {
					continue
				}
				f.n++
				if f.n == f.k {
					kill()
					f.what = fmt.Sprintf("%s mask %x", p, e.Mask)
					f.fired.Store(true)
				}
			}
		}
	}()
	return f
}

func (f *fsKiller) add(dir string) {
	wd, err := syscall.InotifyAddWatch(f.fd, dir, syscall.IN_CREATE|syscall.IN_MOVED_FROM|syscall.IN_MOVED_TO|syscall.IN_DELETE|syscall.IN_CLOSE_WRITE|syscall.IN_MODIFY|syscall.IN_ONLYDIR)
	if err != nil {
		return
	}
	f.dirs[int32(wd)] = dir
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if e.IsDir() {
			f.add(filepath.Join(dir, e.Name()))
		}
	}
}

func (f *fsKiller) stop() {
	close(f.stopc)
	f.wg.Wait()
	syscall.Close(f.fd)
}

// libState describes the library roughly, for the evidence.
func libState(lib string) string {
	es, err := os.ReadDir(lib)
	if err != nil {
		return "none"
	}
	old, lock, other := 0, 0, 0
	for _, e := range es {
		switch {
		case strings.HasPrefix(e.Name(), "__"):
			old++
		case strings.HasPrefix(e.Name(), "00LOCK"):
			lock++
		default:
			other++
		}
	}
	return fmt.Sprintf("%d backups, %d locks, %d others", old, lock, other)
}

// killedRun runs install and kills it somewhere. It tells what was tried.
func (c *Case) killedRun(w *World, sc *Scenario, pl *Plan, args []string, mode int, size int) (*RunOut, string) {
	sc.Ctl.Kill = nil
	w.SetFaults(nil)
	kill := func() { w.kill() }
	what := ""
	var out *RunOut
	switch mode {
	case 0: // at an R process
		names := proto.SortedKeys(pl.Nodes)
		for _, t := range sc.Tarballs {
			names = append(names, t.Name)
		}
		n, pass, at := pick(c.R, names), pick(c.R, []string{"src", "src", "bin", "dir"}), pick(c.R, []string{"start", "end"})
		if sc.tar(n) != nil && pl.Nodes[n] == nil {
			pass = "dir"
		}
		sc.Ctl.Kill = map[string]string{n + "/" + pass: at}
		w.WriteCtl()
		w.Own()
		out = w.Pkgr(args...)
		sc.Ctl.Kill = nil
		w.WriteCtl()
		w.Own()
		what = fmt.Sprintf("%s of R on %s/%s", at, n, pass)
	case 1: // library events
		must(os.MkdirAll(filepath.Dir(w.Lib()), 0755))
		roots := []string{filepath.Dir(w.Lib())}
		k := newFsKiller(roots, 1+c.R.Intn(6+size*10), func(p string) bool { return strings.HasPrefix(p, w.Lib()) }, kill)
		out = w.Pkgr(args...)
		k.stop()
		what = fmt.Sprintf("library event %d (%s)", k.k, strings.TrimPrefix(k.what, w.Dir))
	case 2: // only names directly in the library: renames, creations and removals of packages
		k := newFsKiller([]string{filepath.Dir(w.Lib())}, 1+c.R.Intn(2+size*4), func(p string) bool { return filepath.Dir(p) == w.Lib() }, kill)
		out = w.Pkgr(args...)
		k.stop()
		what = fmt.Sprintf("library entry event %d (%s)", k.k, strings.TrimPrefix(k.what, w.Dir))
	case 3: // caches
		os.MkdirAll(w.CacheDir(), 0755)
		os.Chown(w.CacheDir(), nobody, nobody)
		k := newFsKiller([]string{w.CacheDir(), w.P("xdg")}, 1+c.R.Intn(6+size*6), nil, kill)
		out = w.Pkgr(args...)
		k.stop()
		what = fmt.Sprintf("cache event %d (%s)", k.k, strings.TrimPrefix(k.what, w.Dir))
	case 4: // a byte of a download
		var ps []string
		w.mu.Lock()
		for _, p := range proto.SortedKeys(w.files) {
			ps = append(ps, p)
		}
		w.mu.Unlock()
		if len(ps) == 0 {
			return c.killedRun(w, sc, pl, args, 1, size)
		}
		p := pick(c.R, ps)
		w.SetFaults([]*Fault{{Suffix: p, KillOn: true, KillAt: c.R.Intn(len(w.files[p]) + 1), Chunked: c.R.Intn(2) == 0}})
		out = w.Pkgr(args...)
		w.SetFaults(nil)
		what = "byte of " + p
	default: // a random time
		d := time.Duration(c.R.Intn(60+size*45)) * time.Millisecond
		out = w.PkgrOpt(RunOpt{OnStart: func(pid int) {
			time.AfterFunc(d, func() {
				if w.cur.Load() == int32(pid) {
					w.kill()
				}
			})
		}}, args...)
		what = fmt.Sprintf("after %v", d)
	}
	return out, what
}

func c13(x *Ctx) {
	o := GenOpt{MinP: 3, MaxP: 8, Repos: 2, Bin: true, Pre: 0.6, Other: 2, Tar: 2, Desc: 1, NoLib: 0.4, SizeK: 40, Files: true, Local: true}
	run := func(c *Case, mode int, o GenOpt) {
		sc := Gen(c.R, o)
		pl := sc.Plan()
		c.delays(sc, pl, 15)
		w := c.World(sc)
		pre := snapTree(w.Lib(), false)
		exp := sc.Expect(pl, sc.Pre, sc.NoUpdate)
		oldOrNew := map[string]string{}
		for n, t := range exp {
			if sc.pre(n) != nil {
				oldOrNew[n] = t.Payload
			}
		}
		hits := 0
		var hist []string
		sig := ""
		for k := 1 + c.R.Intn(3); k > 0; k-- {
			args := c.installArgs()
			if c.R.Intn(5) == 0 {
				args = append(args, "--no-rollback")
			}
			m := mode
			if m < 0 || c.R.Intn(4) == 0 {
				m = c.R.Intn(6)
			}
			out, what := c.killedRun(w, sc, pl, args, m, len(exp))
			if out.Signal == "" {
				if !c.finished(w, out, "C13/") {
					return
				}
				what = "(missed) " + what
			} else {
				hits++
				st := libState(w.Lib())
				sig += st + ";"
				c.Count("kills", 1)
				c.Count(fmt.Sprintf("kills_mode_%d", m), 1)
				if strings.HasPrefix(st, "0 backups") || st == "none" {
					c.Count("kills_without_backups", 1)
				} else {
					c.Count("kills_with_backups", 1)
				}
				what += " -> " + st
			}
			hist = append(hist, what)
		}
		// sometimes the second run fails
		if c.R.Intn(4) == 0 {
			n := pick(c.R, proto.SortedKeys(exp))
			sc.Ctl.Fail = map[string]string{n + "/src": "clean", n + "/bin": "clean", n + "/dir": "clean"}
			w.WriteCtl()
			w.Own()
			out := w.Pkgr("install")
			if !c.finished(w, out, "C13/") {
				return
			}
			l := proto.ScanLib(w.Lib())
			for _, p := range sc.Pre {
				got, want := l.Pkgs[p.Name].P, payloadOf("pre", "old", p)
				if got != want && got != oldOrNew[p.Name] {
					// a package may also be at the version of the repository before its tarball
					if ch := pl.Nodes[p.Name]; ch != nil && got == ch.Payload {
						continue
					}
					c.Fail(w, "C13/lost", "killed at %s, then a failing install of %s: %s is %q in the library, neither old (%s) nor new (%s)", strings.Join(hist, "; "), n, p.Name, got, want, oldOrNew[p.Name])
				}
			}
			sc.Ctl.Fail = nil
			w.WriteCtl()
			w.Own()
			hist = append(hist, "failing run for "+n)
		}
		out := w.Pkgr("install")
		if !c.finished(w, out, "C13/") {
			return
		}
		if bad := w.checkLib(exp, pre); len(bad) > 0 {
			c.Fail(w, "C13/recover", "killed at %s; the next install gives:\n%s\n%s", strings.Join(hist, "; "), strings.Join(bad, "\n"), tailStr(out.Stderr, 1200))
		}
		if out.Exit != 0 {
			c.Fail(w, "C13/recover", "killed at %s; the next install ends with exit status %d %s", strings.Join(hist, "; "), out.Exit, tailStr(out.Stdout+out.Stderr, 1500))
		}
		if hits > 0 {
			c.Distinct(planSig(pl) + sig + strings.Join(hist, ";"))
		}
		if c.I < 2 {
			c.Sample(map[string]any{"plan": planSig(pl), "history": hist})
		}
	}
	x.Cases("R", x.N(50, 700), 8, func(c *Case) { run(c, 0, o) })
	x.Cases("library", x.N(60, 900), 8, func(c *Case) { run(c, 1, o) })
	oo := o
	oo.Pre, oo.NoLib = 0.9, 0
	x.Cases("entries", x.N(90, 1200), 8, func(c *Case) { run(c, 2, oo) })
	x.Cases("cache", x.N(40, 600), 8, func(c *Case) { run(c, 3, o) })
	x.Cases("mixed", x.N(50, 700), 8, func(c *Case) { run(c, -1, o) })
}

// pollCache reads the binaries of ps in the cache again and again until stop is closed; each must always be complete.
func pollCache(dir string, names map[string]bool, stop chan struct{}) (bad []string, reads int) {
	seen := map[string]string{}
	for {
		filepath.WalkDir(dir, func(p string, e fs.DirEntry, err error) error {
			if err != nil || e.IsDir() || !names[filepath.Base(p)] {
				return nil
			}
			f, err := os.Open(p)
			if err != nil {
				return nil
			}
			defer f.Close()
			fi, err := f.Stat()
			if err != nil {
				return nil
			}
			id := fmt.Sprint(fi.Sys().(*syscall.Stat_t).Ino, fi.Size(), fi.ModTime().UnixNano())
			if seen[p] == id {
				return nil
			}
			b := make([]byte, fi.Size())
			n, _ := f.ReadAt(b, 0)
			reads++
			if es, err := proto.ReadTarBytes(b[:n]); err != nil || len(es) == 0 {
				if len(bad) < 4 {
					bad = append(bad, fmt.Sprintf("%s (%d bytes): %v", p, n, err))
				}
				return nil
			}
			seen[p] = id
			return nil
		})
		select {
		case <-stop:
			return
		case <-time.After(100 * time.Microsecond):
		}
	}
}

// binNames are the file names binaries of the plan have in the cache.
func binNames(sc *Scenario, pl *Plan) map[string]bool {
	m := map[string]bool{}
	for _, ch := range pl.Nodes {
		m[ch.Pkg.Name+"_"+ch.Pkg.Version+"_R_"+sc.Ctl.Platform+".tar.gz"] = true
	}
	return m
}

func c14(x *Ctx) {
	// checkReuse judges one successful install into a new library.
	checkReuse := func(c *Case, w *World, out *RunOut, built map[string]bool, hist string) bool {
		sc := w.Sc
		pl := sc.Plan()
		if bad := w.checkLib(sc.Expect(pl, nil, sc.NoUpdate), Snap{}); len(bad) > 0 {
			c.Fail(w, "C14/library", "%s:\n%s\n%s", hist, strings.Join(bad, "\n"), tailStr(out.Stderr, 1200))
			return false
		}
		srcs := map[string]int{}
		for _, p := range installs(out.Events) {
			if p.S.Pass == "src" {
				srcs[p.S.Pkg]++
			}
		}
		for _, n := range proto.SortedKeys(pl.Nodes) {
			ch := pl.Nodes[n]
			b, _ := os.ReadFile(filepath.Join(w.Lib(), n, "DESCRIPTION"))
			f := strings.Split(proto.DCF(b)["Built"], ";")
			if len(f) < 2 || !strings.HasPrefix(f[0], "R "+rMinor(sc.Ctl.RVersion)+".") {
				c.Fail(w, "C14/R-version", "%s: %s in the library was built for %q, R is %s", hist, n, proto.DCF(b)["Built"], sc.Ctl.RVersion)
			}
			if ch.Type == "bin" {
				if srcs[n] > 0 {
					c.Fail(w, "C14/built", "%s: the binary %s was built", hist, n)
				}
				continue
			}
			if len(f) >= 2 && strings.TrimSpace(f[1]) != sc.Ctl.Platform {
				c.Fail(w, "C14/platform", "%s: %s in the library was built for %q, the platform is %s", hist, n, proto.DCF(b)["Built"], sc.Ctl.Platform)
			}
			key := strings.Join([]string{ch.Repo.Name, w.RepoURL(ch.Repo), n, ch.Pkg.Version, rMinor(sc.Ctl.RVersion), sc.Ctl.Platform}, " ")
			if built[key] && srcs[n] > 0 {
				c.Fail(w, "C14/rebuilt", "%s: %s was built again", hist, key)
			}
			if !built[key] && srcs[n] == 0 {
				c.Fail(w, "C14/reused", "%s: %s was not built, and never before", hist, key)
			}
			if built[key] {
				c.Count("reused", 1)
			} else {
				c.Count("built", 1)
			}
			built[key] = true
		}
		return !c.failed
	}
	always := map[string]string{"R_AVAILABLE_PACKAGES_CACHE_CONTROL_MAX_AGE": "0"}
	x.Cases("matrix", x.N(60, 800), 8, func(c *Case) {
		o := GenOpt{MinP: 2, MaxP: 6, Repos: 3, Local: true, NoLib: 1}
		o.Bin = c.R.Intn(3) == 0
		sc := Gen(c.R, o)
		sc.Env = always
		sc.Ctl.NoDepChk = true
		sc.XDGCache = c.R.Intn(4) == 0
		w := c.World(sc)
		built := map[string]bool{}
		hist := []string{}
		type state struct {
			repos  []Repo
			rv, pf string
		}
		var old []state
		steps := 4 + c.R.Intn(4)
		for s := 0; s < steps; s++ {
			what := "first"
			if s > 0 {
				old = append(old, state{cloneRepos(sc.Repos), sc.Ctl.RVersion, sc.Ctl.Platform})
				r := &sc.Repos[c.R.Intn(len(sc.Repos))]
				switch c.R.Intn(8) {
				case 0:
					what = "again"
				case 1:
					what = "name of " + r.Name
					r.Dir, r.Tag = r.dir(), r.tag()
					nn := fmt.Sprintf("N%d%s", s, r.Name)
					for p, cu := range sc.Cust {
						if cu.Repo == r.Name {
							cu.Repo = nn
							sc.Cust[p] = cu
						}
					}
					r.Name = nn
				case 2, 3:
					// another repository under the same name offers the same versions
					what = "URL of " + r.Name
					r.Dir = fmt.Sprintf("%s-u%d", r.Name, s)
					r.Tag = r.Dir
				case 4:
					sc.Ctl.RVersion = pick(c.R, []string{"4.3.1", "4.3.3", "4.4.0", "4.4.1", "4.2.3", "3.4.3", "4.30.1"})
					what = "R " + sc.Ctl.RVersion
				case 5:
					if o.Bin {
						continue
					}
					sc.Ctl.Platform = pick(c.R, []string{"x86_64-pc-linux-gnu", "aarch64-unknown-linux-gnu", "x86_64-pc-linux-musl", "x86_64-pc-linux"})
					what = "platform " + sc.Ctl.Platform
				case 6:
					what = "new versions"
					bump(c, sc)
				case 7: // back to an earlier state
					st := pick(c.R, old)
					cur := map[string]string{}
					for i := range sc.Repos {
						cur[sc.Repos[i].Name] = st.repos[i].Name
					}
					for p, cu := range sc.Cust {
						if n, ok := cur[cu.Repo]; ok {
							cu.Repo = n
							sc.Cust[p] = cu
						}
					}
					sc.Repos, sc.Ctl.RVersion, sc.Ctl.Platform = cloneRepos(st.repos), st.rv, st.pf
					what = "back"
				}
			}
			pl := sc.Plan()
			if len(pl.Missing) > 0 || pl.Cyclic {
				return
			}
			hist = append(hist, what)
			sc.LibPath = fmt.Sprintf("lib%d", s)
			w.Serve()
			w.WriteYml()
			w.WriteCtl()
			w.Own()
			out := w.Pkgr("install")
			if !c.finished(w, out, "C14/") {
				return
			}
			if !checkReuse(c, w, out, built, strings.Join(hist, ", ")) {
				return
			}
			c.Count("installs", 1)
		}
		c.Distinct(planSig(sc.Plan()) + strings.Join(hist, ","))
		if c.I < 3 {
			c.Sample(map[string]any{"plan": planSig(sc.Plan()), "history": hist})
		}
	})
	// a failed build leaves nothing to reuse
	x.Cases("failed", x.N(20, 250), 8, func(c *Case) {
		sc := Gen(c.R, GenOpt{MinP: 2, MaxP: 7, Repos: 2, NoLib: 1})
		pl := sc.Plan()
		n := pick(c.R, proto.SortedKeys(pl.Nodes))
		how := c.howFails("nobinary")
		sc.Ctl.Fail = map[string]string{n + "/src": how}
		w := c.World(sc)
		out := w.Pkgr("install")
		if !c.finished(w, out, "C14/") {
			return
		}
		built := map[string]bool{}
		for _, p := range installs(out.Events) {
			if p.S.Pass == "src" && p.E != nil && p.E.Exit == 0 && p.S.Pkg != n {
				ch := pl.Nodes[p.S.Pkg]
				built[strings.Join([]string{ch.Repo.Name, w.RepoURL(ch.Repo), p.S.Pkg, ch.Pkg.Version, rMinor(sc.Ctl.RVersion), sc.Ctl.Platform}, " ")] = true
			}
		}
		sc.Ctl.Fail = nil
		sc.LibPath = "lib2"
		w.WriteYml()
		w.WriteCtl()
		w.Own()
		out = w.Pkgr("install")
		if !c.finished(w, out, "C14/") {
			return
		}
		checkReuse(c, w, out, built, fmt.Sprintf("after a build of %s that failed (%s)", n, how))
		c.Distinct(planSig(pl) + n + how)
	})
	// every binary of a run is in the cache at its end, however long storing it takes
	x.Cases("large", x.N(4, 24), 2, func(c *Case) {
		sc := Gen(c.R, GenOpt{MinP: 1, MaxP: 3, Repos: 1, NoLib: 1})
		pl := sc.Plan()
		for i := range sc.Repos[0].Src {
			if p := &sc.Repos[0].Src[i]; pl.Nodes[p.Name] != nil {
				p.SizeK = 20000 + c.R.Intn(40000)
			}
		}
		w := c.World(sc)
		built := map[string]bool{}
		for i := 0; i < 2; i++ {
			sc.LibPath = fmt.Sprintf("lib%d", i)
			w.WriteYml()
			out := w.Pkgr("install")
			if !c.finished(w, out, "C14/") || !checkReuse(c, w, out, built, fmt.Sprintf("large packages, library %d", i)) {
				return
			}
		}
		c.Count("large_installs", 2)
		c.Distinct("large" + planSig(pl))
	})
	// binaries are complete at any moment, also with two runs at once
	big := GenOpt{MinP: 3, MaxP: 6, Repos: 1, NoLib: 1, SizeK: 1500}
	x.Cases("poll", x.N(20, 200), 4, func(c *Case) {
		sc := Gen(c.R, big)
		sc.XDGCache = c.R.Intn(3) == 0
		pl := sc.Plan()
		w := c.World(sc)
		stop := make(chan struct{})
		var bad []string
		reads := 0
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			bad, reads = pollCache(w.CacheDir(), binNames(sc, pl), stop)
		}()
		two := c.R.Intn(2) == 0
		if two {
			var wg2 sync.WaitGroup
			for i := 0; i < 2; i++ {
				wg2.Add(1)
				go func() {
					defer wg2.Done()
					out := w.PkgrOpt(RunOpt{NoEv: true}, "install", "--library", w.P("proj", fmt.Sprintf("lib%d", i)))
					c.finished(w, out, "C14/")
				}()
			}
			wg2.Wait()
		} else {
			c.finished(w, w.Pkgr("install"), "C14/")
		}
		close(stop)
		wg.Wait()
		if len(bad) > 0 {
			c.Fail(w, "C14/partial", "incomplete binaries seen in the cache: %s", strings.Join(bad, "; "))
		}
		c.Count("polled_binaries", reads)
		if reads > 0 {
			c.Distinct(fmt.Sprint("poll", two) + planSig(pl))
		}
	})
	x.Cases("killed", x.N(40, 500), 8, func(c *Case) {
		b := big
		b.SizeK = 300
		sc := Gen(c.R, b)
		pl := sc.Plan()
		w := c.World(sc)
		os.MkdirAll(w.CacheDir(), 0755)
		w.Own()
		k := newFsKiller([]string{w.CacheDir()}, 1+c.R.Intn(4+6*len(pl.Nodes)), func(p string) bool { return strings.Contains(p, "/binary") }, func() { w.kill() })
		out := w.Pkgr("install")
		k.stop()
		if out.Signal == "" && !c.finished(w, out, "C14/") {
			return
		}
		bad, n := brokenTars(w.CacheDir(), binNames(sc, pl))
		if len(bad) > 0 {
			c.Fail(w, "C14/partial", "killed at cache event %d (%s): incomplete binaries in the cache: %s", k.k, k.what, strings.Join(bad, "; "))
		}
		c.Count("binaries_read_after_kill", n)
		if out.Signal != "" {
			c.Count("kills", 1)
		}
		sc.LibPath = "lib2"
		w.WriteYml()
		out = w.Pkgr("install")
		if !c.finished(w, out, "C14/") {
			return
		}
		if bad := w.checkLib(sc.Expect(pl, nil, false), Snap{}); len(bad) > 0 {
			c.Fail(w, "C14/library", "after a run killed at %s: %s", k.what, strings.Join(bad, "\n"))
		}
		c.Distinct(fmt.Sprint("killed", k.k, k.what) + planSig(pl))
	})
}
