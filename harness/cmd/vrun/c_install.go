package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"vh/proto"
)

func init() {
	checks["C01"] = &Check{Fn: c01, Rule: "generated configurations (dependency graphs of several shapes, several repositories, binaries, preinstalled and outdated packages, tarballs, DESCRIPTION files), installed with random delays per package and pass; non-trivial: at least one start of an install was judged against at least one dependency; distinct by plan and observed start/end order"}
	checks["C02"] = &Check{Fn: c02, Rule: "generated configurations installed without faults, library compared entry by entry with the reference model; non-trivial: at least two packages had to change or stay; distinct by plan and preinstalled packages"}
	checks["C05"] = &Check{Fn: c05, Rule: "generated configurations installed twice, second run watched for R installs and downloads; non-trivial: first run installed at least one package"}
}

var fullGen = GenOpt{MinP: 3, MaxP: 18, Repos: 3, Bin: true, Pre: 0.3, Other: 3, Tar: 2, Desc: 1, Sugg: true, Rec: true, Ghost: true, Ignore: true, Pin: true, Local: true, NoLib: 0.5, Files: true}

// installArgs picks equivalent spellings of the command.
func (c *Case) installArgs() []string {
	a := []string{"install"}
	switch c.R.Intn(6) {
	case 0:
		a = append(a, "--loglevel", "debug")
	case 1:
		a = append(a, "--loglevel", "trace")
	case 2:
		a = append(a, "--logjson")
	}
	return a
}

func c01(x *Ctx) {
	run := func(c *Case, o GenOpt, ms int) {
		sc := Gen(c.R, o)
		sc.Strict = !sc.NoLib && c.R.Intn(6) == 0 // there is a library
		pl := sc.Plan()
		c.delays(sc, pl, ms)
		// let a wrong order show instead of failing
		sc.Ctl.NoDepChk = c.R.Intn(2) == 0
		w := c.World(sc)
		exp := sc.Expect(pl, sc.Pre, sc.NoUpdate)
		out := w.Pkgr(c.installArgs()...)
		if !c.finished(w, out, "C01/") {
			return
		}
		bad, dec := checkOrder(w, sc, pl, exp, out)
		if len(bad) > 0 {
			c.Fail(w, "C01/order", "%s", strings.Join(bad, "\n"))
		}
		c.Count("dependency_checks", dec)
		c.Count("install_processes", len(installs(out.Events)))
		c.Max("max_parallel", maxOverlap(installs(out.Events)))
		if dec > 0 {
			c.Distinct(planSig(pl) + orderSig(out))
		}
		if c.I < 3 {
			c.Sample(map[string]any{"plan": planSig(pl), "order": tailStr(orderSig(out), 600)})
		}
	}
	deep := fullGen
	deep.Deep, deep.MinP, deep.MaxP = true, 6, 20
	noPre := fullGen
	noPre.Pre, noPre.MinP, noPre.MaxP, noPre.Bin = 0, 8, 26, false
	x.Cases("full", x.N(60, 600), 8, func(c *Case) { run(c, fullGen, 60) })
	x.Cases("deep", x.N(40, 400), 8, func(c *Case) { run(c, deep, 30) })
	x.Cases("nopre", x.N(50, 500), 8, func(c *Case) { run(c, noPre, 80) })
	// second install into another library from the cache: only binary passes
	x.Cases("cached", x.N(20, 200), 8, func(c *Case) {
		o := noPre
		o.Tar = 0
		sc := Gen(c.R, o)
		sc.Strict = !sc.NoLib && c.R.Intn(6) == 0 // there is a library
		pl := sc.Plan()
		w := c.World(sc)
		if !c.finished(w, w.Pkgr("install"), "C01/") {
			return
		}
		sc.LibPath = "lib2"
		c.delays(sc, pl, 60)
		w.WriteCtl()
		w.WriteYml()
		exp := sc.Expect(pl, nil, sc.NoUpdate)
		out := w.Pkgr("install")
		if !c.finished(w, out, "C01/") {
			return
		}
		bad, dec := checkOrder(w, sc, pl, exp, out)
		if len(bad) > 0 {
			c.Fail(w, "C01/order", "%s", strings.Join(bad, "\n"))
		}
		c.Count("dependency_checks", dec)
		if dec > 0 {
			c.Distinct(planSig(pl) + orderSig(out))
		}
	})
	// threads fixed to 1 and many: ordering with one worker and with more workers than packages
	x.Cases("threads", x.N(20, 200), 8, func(c *Case) {
		o := noPre
		o.Desc, o.Tar = 1, 2
		sc := Gen(c.R, o)
		sc.Strict = !sc.NoLib && c.R.Intn(6) == 0 // there is a library
		pl := sc.Plan()
		c.delays(sc, pl, 40)
		sc.Threads = pick(c.R, []int{1, 40})
		w := c.World(sc)
		out := w.Pkgr("install")
		if !c.finished(w, out, "C01/") {
			return
		}
		bad, dec := checkOrder(w, sc, pl, sc.Expect(pl, sc.Pre, sc.NoUpdate), out)
		if len(bad) > 0 {
			c.Fail(w, "C01/order", "%s", strings.Join(bad, "\n"))
		}
		c.Count("dependency_checks", dec)
		if dec > 0 {
			c.Distinct(planSig(pl) + orderSig(out))
		}
	})
	// packages with many dependencies, most of them of the first layer
	x.Cases("hubs", x.N(16, 200), 6, func(c *Case) {
		sc := &Scenario{Threads: 2 + c.R.Intn(7), NoLib: c.R.Intn(2) == 0}
		repo := Repo{Name: "HUB"}
		add := func(n string, deps []string) {
			p := Pkg{Name: n, Version: "1." + fmt.Sprint(c.R.Intn(9))}
			for _, d := range deps {
				switch c.R.Intn(4) {
				case 0:
					p.Depends = append(p.Depends, d)
				case 1:
					p.LinkingTo = append(p.LinkingTo, d)
				default:
					p.Imports = append(p.Imports, d)
				}
			}
			repo.Src = append(repo.Src, p)
		}
		var below []string
		for i := 0; i < 14+c.R.Intn(30); i++ {
			n := fmt.Sprintf("leaf%02d", i)
			add(n, nil)
			below = append(below, n)
		}
		some := func(n int) []string {
			ds := append([]string(nil), below...)
			c.R.Shuffle(len(ds), func(i, j int) { ds[i], ds[j] = ds[j], ds[i] })
			return ds[:min(n, len(ds))]
		}
		for l := 0; l < 1+c.R.Intn(3); l++ {
			var layer []string
			for i := 0; i < 1+c.R.Intn(3); i++ {
				n := fmt.Sprintf("hub%d%c", l, 'a'+i)
				add(n, some(8+c.R.Intn(30)))
				layer = append(layer, n)
			}
			below = append(below, layer...)
			sc.Packages = append(sc.Packages, layer...)
		}
		c.R.Shuffle(len(repo.Src), func(i, j int) { repo.Src[i], repo.Src[j] = repo.Src[j], repo.Src[i] })
		c.R.Shuffle(len(sc.Packages), func(i, j int) { sc.Packages[i], sc.Packages[j] = sc.Packages[j], sc.Packages[i] })
		sc.Repos = []Repo{repo}
		pl := sc.Plan()
		c.delays(sc, pl, 60)
		sc.Ctl.NoDepChk = true
		w := c.World(sc)
		out := w.Pkgr(c.installArgs()...)
		if !c.finished(w, out, "C01/") {
			return
		}
		bad, dec := checkOrder(w, sc, pl, sc.Expect(pl, sc.Pre, sc.NoUpdate), out)
		if len(bad) > 0 {
			c.Fail(w, "C01/order", "%s", strings.Join(bad, "\n"))
		}
		c.Count("dependency_checks", dec)
		if dec > 0 {
			c.Distinct(planSig(pl) + orderSig(out))
		}
	})
}

func c02(x *Ctx) {
	run := func(c *Case, o GenOpt) {
		sc := Gen(c.R, o)
		sc.Strict = !sc.NoLib && c.R.Intn(6) == 0 // there is a library
		pl := sc.Plan()
		c.delays(sc, pl, 20)
		w := c.World(sc)
		pre := snapTree(w.Lib(), false)
		exp := sc.Expect(pl, sc.Pre, sc.NoUpdate)
		out := w.Pkgr(c.installArgs()...)
		if !c.finished(w, out, "C02/") {
			return
		}
		if bad := w.checkLib(exp, pre); len(bad) > 0 {
			c.Fail(w, "C02/library", "%s", strings.Join(bad, "\n"))
		}
		if out.Exit != 0 {
			c.Fail(w, "C02/exit", "successful install ends with exit status %d %s", out.Exit, out.Signal)
		}
		kept, upd, nw := 0, 0, 0
		for _, t := range exp {
			switch {
			case t.Kept:
				kept++
			case t.Update:
				upd++
			default:
				nw++
			}
		}
		c.Count("packages_kept", kept)
		c.Count("packages_replaced", upd)
		c.Count("packages_new", nw)
		c.Count("tarballs", len(sc.Tarballs))
		if len(exp) >= 2 {
			c.Distinct(planSig(pl) + fmt.Sprint(sc.Pre, sc.Tarballs))
		}
		if c.I < 3 {
			c.Sample(map[string]any{"packages": sc.Packages, "plan": planSig(pl), "pre": sc.Pre})
		}
	}
	x.Cases("full", x.N(110, 1500), 8, func(c *Case) { run(c, fullGen) })
	upd := fullGen
	upd.Pre, upd.MinP, upd.MaxP = 0.8, 3, 12
	x.Cases("update", x.N(50, 600), 8, func(c *Case) { run(c, upd) })
	fresh := fullGen
	fresh.Pre, fresh.Other, fresh.Files, fresh.NoLib = 0, 0, false, 1
	x.Cases("fresh", x.N(40, 500), 8, func(c *Case) { run(c, fresh) })
	// folders of packages in the library that are no packages: an R that was killed or a copy that was cut off left them
	x.Cases("incomplete", x.N(30, 400), 8, func(c *Case) {
		sc := Gen(c.R, upd)
		pl := sc.Plan()
		exp := sc.Expect(pl, sc.Pre, sc.NoUpdate)
		sc.NoLib = false
		w := c.World(sc)
		var broken []string
		for _, n := range shuffle(c.R, proto.SortedKeys(exp)) {
			if sc.pre(n) != nil || len(broken) > 2 {
				continue
			}
			broken = append(broken, n)
			os.MkdirAll(filepath.Join(w.Lib(), n, "R"), 0755)
			if c.R.Intn(2) == 0 {
				writeFile(filepath.Join(w.Lib(), n, "R", n+".rdb"), []byte("half"), 0644)
			}
			if c.R.Intn(3) == 0 {
				writeFile(filepath.Join(w.Lib(), n, "DESCRIPTION"), nil, 0644)
			}
		}
		if len(broken) == 0 {
			return
		}
		w.Own()
		pre := snapTree(w.Lib(), false)
		out := w.Pkgr(c.installArgs()...)
		if !c.finished(w, out, "C02/") {
			return
		}
		if bad := w.checkLib(exp, pre); len(bad) > 0 {
			c.Fail(w, "C02/incomplete", "with incomplete folders of %v: %s", broken, strings.Join(bad, "\n"))
		}
		c.Count("incomplete_folders", len(broken))
		c.Distinct(planSig(pl) + fmt.Sprint(broken))
	})
	// after an install in which something failed, perhaps without a rollback
	x.Cases("after-failure", x.N(30, 400), 8, func(c *Case) {
		sc := Gen(c.R, failGen)
		pl := sc.Plan()
		exp := sc.Expect(pl, sc.Pre, sc.NoUpdate)
		ns := c.targets(sc, pl, exp)
		if len(ns) == 0 {
			return
		}
		c.delays(sc, pl, 10)
		fail := map[string]string{}
		for i := 0; i < 1+c.R.Intn(2); i++ {
			n := pick(c.R, ns)
			for _, ps := range []string{"src", "bin", "dir"} {
				fail[n+"/"+ps] = pick(c.R, []string{"clean", "dirty"})
			}
		}
		sc.Ctl.Fail = fail
		w := c.World(sc)
		pre := snapTree(w.Lib(), false)
		args := []string{"install"}
		if c.R.Intn(2) == 0 {
			args = append(args, "--no-rollback")
		}
		if !c.finished(w, w.Pkgr(args...), "C02/") {
			return
		}
		sc.Ctl.Fail = nil
		w.WriteCtl()
		w.Own()
		out := w.Pkgr("install")
		if !c.finished(w, out, "C02/") {
			return
		}
		if bad := w.checkLib(exp, pre); len(bad) > 0 {
			c.Fail(w, "C02/after-failure", "%v failed (%v), then a successful install gives:\n%s", fail, args, strings.Join(bad, "\n"))
		}
		c.Distinct(planSig(pl) + fmt.Sprint(fail, args))
	})
	// stop, if set, is the number of R installs after which the run is killed and only judged for having got so far
	big := func(c *Case, sc *Scenario, what string, stop int) {
		n := len(sc.Repos[0].Src)
		sc.Threads = 1 + c.R.Intn(8)
		sc.Ctl.NoScan = n > 100
		pl := sc.Plan()
		w := c.World(sc)
		pre := snapTree(w.Lib(), false)
		opt := RunOpt{Timeout: 600 * time.Second}
		ended := make(chan struct{})
		if stop > 0 {
			opt.OnStart = func(int) {
				go func() {
					for {
						select {
						case <-ended:
							return
						case <-time.After(100 * time.Millisecond):
						}
						if k, _ := os.ReadDir(w.Lib()); len(k) >= stop {
							w.kill()
						}
					}
				}()
			}
		}
		out := w.PkgrOpt(opt, "install")
		close(ended)
		if !c.finished(w, out, "C02/") {
			return
		}
		if stop > 0 && out.Signal != "" {
			c.Max("packages_in_one_plan", n)
			c.Distinct(fmt.Sprint(sc.Repos[0].Src))
			return
		}
		if bad := w.checkLib(sc.Expect(pl, sc.Pre, sc.NoUpdate), pre); len(bad) > 0 {
			c.Fail(w, "C02/library-wide", "%d packages, %s, %d threads: %s", n, what, sc.Threads, strings.Join(bad[:min(5, len(bad))], "\n"))
		}
		if out.Exit != 0 {
			c.Fail(w, "C02/exit", "successful install of %d packages ends with exit status %d %s", n, out.Exit, out.Signal)
		}
		c.Max("packages_in_one_plan", n)
		c.Distinct(fmt.Sprint(sc.Repos[0].Src))
	}
	// many packages, most of them ready at once, with dependants that become ready one by one
	wide := func(c *Case, n, stop int) {
		sc := Gen(c.R, GenOpt{MinP: 1, MaxP: 1, Repos: 1, NoLib: 1})
		rp := &sc.Repos[0]
		rp.Src, sc.Packages = nil, nil
		base := n * (4 + c.R.Intn(5)) / 10
		one := stop > 0 || c.R.Intn(2) == 0
		if one {
			base = n / 2 // one dependant each
		}
		for i := 0; i < n; i++ {
			p := Pkg{Name: fmt.Sprintf("w%04d", i), Version: "1.0"}
			if i >= base && one {
				p.Imports = []string{fmt.Sprintf("w%04d", i-base)}
			} else if i >= base {
				for k := 0; k < 1+c.R.Intn(2)*c.R.Intn(3); k++ {
					d := c.R.Intn(base)
					if c.R.Intn(8) == 0 {
						d = c.R.Intn(i)
					}
					p.Imports = append(p.Imports, fmt.Sprintf("w%04d", d))
				}
			}
			rp.Src = append(rp.Src, p)
			sc.Packages = append(sc.Packages, p.Name)
		}
		big(c, sc, fmt.Sprintf("%d of them without dependencies", base), stop)
	}
	// long chains of packages, only the ends of which are listed
	deep := func(c *Case, n int) {
		sc := Gen(c.R, GenOpt{MinP: 1, MaxP: 1, Repos: 1, NoLib: 1})
		rp := &sc.Repos[0]
		rp.Src, sc.Packages = nil, nil
		links := 1 + c.R.Intn(3)
		for i := 0; i < n; i++ {
			p := Pkg{Name: fmt.Sprintf("d%04d", i), Version: "1.0"}
			var ds []string
			for k := 0; k < links && i > 0; k++ {
				d := fmt.Sprintf("d%04d", i-1)
				if k > 0 {
					d = fmt.Sprintf("d%04d", c.R.Intn(i))
				}
				if !contains(ds, d) {
					ds = append(ds, d)
				}
			}
			for _, d := range ds {
				switch c.R.Intn(3) {
				case 0:
					p.Depends = append(p.Depends, d)
				case 1:
					p.LinkingTo = append(p.LinkingTo, d)
				default:
					p.Imports = append(p.Imports, d)
				}
			}
			rp.Src = append(rp.Src, p)
		}
		c.R.Shuffle(n, func(i, j int) { rp.Src[i], rp.Src[j] = rp.Src[j], rp.Src[i] })
		sc.Packages = []string{fmt.Sprintf("d%04d", n-1)}
		big(c, sc, fmt.Sprintf("a chain with up to %d dependencies each", links), 0)
		c.Max("longest_chain", n)
	}
	x.Cases("deep", x.N(4, 30), 2, func(c *Case) { deep(c, 30+c.R.Intn(90)) })
	x.Cases("wide", x.N(5, 40), 2, func(c *Case) { wide(c, 40+c.R.Intn(200), 0) })
	// more packages ready at once than the queue of installs holds
	x.Cases("very-wide-start", 1, 1, func(c *Case) { wide(c, 7200+c.R.Intn(600), 1600) })
	if x.Thorough() {
		x.Cases("very-wide", 4, 1, func(c *Case) { wide(c, 5600+c.R.Intn(600), 0) })
	}
	// built binaries cannot be kept for later, which is no reason not to install
	x.Cases("unstorable", x.N(16, 200), 8, func(c *Case) {
		o := upd
		o.Tar, o.Bin = 2, false // downloaded binaries are kept in the same place
		sc := Gen(c.R, o)
		sc.Strict = !sc.NoLib && c.R.Intn(6) == 0 // there is a library
		pl := sc.Plan()
		w := c.World(sc)
		pre := snapTree(w.Lib(), false)
		c.unstorable(w, sc, 1)
		out := w.Pkgr(c.installArgs()...)
		if !c.finished(w, out, "C02/") {
			return
		}
		if bad := w.checkLib(sc.Expect(pl, sc.Pre, sc.NoUpdate), pre); len(bad) > 0 {
			c.Fail(w, "C02/unstorable", "built binaries cannot be stored: %s\n%s", strings.Join(bad, "\n"), tailStr(out.Stderr, 800))
		}
		c.Count("unstorable", 1)
		c.Distinct("unstorable" + planSig(pl))
	})
	x.Cases("tarballs-only", x.N(16, 120), 8, func(c *Case) {
		// no packages at all, only base packages, only tarballs
		sc := Gen(c.R, GenOpt{MinP: 2, MaxP: 5, Repos: 1, Pre: 0.3})
		sc.Packages = nil
		if c.R.Intn(2) == 0 {
			sc.Packages = []string{"stats"}
		}
		sc.Pre = nil
		for i := 0; i < 1+c.R.Intn(2); i++ {
			t := Pkg{Name: fmt.Sprintf("solo%d", i), Version: genVersion(c.R)}
			if c.R.Intn(2) == 0 {
				t.Imports = []string{"methods"}
				t.RReq = ">= 3.5"
			}
			sc.Tarballs = append(sc.Tarballs, t)
			if c.R.Intn(2) == 0 {
				sc.Pre = append(sc.Pre, Pkg{Name: t.Name, Version: genVersion(c.R)})
			}
		}
		pl := sc.Plan()
		w := c.World(sc)
		pre := snapTree(w.Lib(), false)
		out := w.Pkgr("install")
		if !c.finished(w, out, "C02/") {
			return
		}
		if bad := w.checkLib(sc.Expect(pl, sc.Pre, sc.NoUpdate), pre); len(bad) > 0 {
			c.Fail(w, "C02/library-tarballs-only", "%s\n%s", strings.Join(bad, "\n"), tailStr(out.Stderr, 800))
		}
		c.Distinct(fmt.Sprint(sc.Tarballs, sc.Packages))
	})
}

func c05(x *Ctx) {
	run := func(c *Case, o GenOpt) {
		sc := Gen(c.R, o)
		sc.Strict = !sc.NoLib && c.R.Intn(6) == 0 // there is a library
		pl := sc.Plan()
		w := c.World(sc)
		out := w.Pkgr("install")
		if !c.finished(w, out, "C05/") {
			return
		}
		// at most once
		built, inst := map[string]int{}, map[string]int{}
		n := 0
		for _, p := range installs(out.Events) {
			n++
			k := p.S.Pkg + " " + p.S.Payload
			if samePath(p.S.Lib, w.Lib()) {
				inst[k]++
			} else {
				built[k]++
			}
		}
		for k, v := range built {
			if v > 1 {
				c.Fail(w, "C05/built-twice", "%s was built %d times in one run", k, v)
			}
		}
		for k, v := range inst {
			if v > 1 {
				c.Fail(w, "C05/installed-twice", "%s was installed %d times in one run", k, v)
			}
		}
		exp := sc.Expect(pl, sc.Pre, sc.NoUpdate)
		var prev Snap
		for again := 0; again < 2; again++ {
			pre := snapTree(w.Lib(), false)
			out2 := w.Pkgr(c.installArgs()...)
			if !c.finished(w, out2, "C05/") {
				return
			}
			for _, p := range installs(out2.Events) {
				t := sc.tar(p.S.Pkg)
				if t == nil {
					c.Fail(w, "C05/reinstall", "a repeated install asks R to install %s (%s pass)", p.S.Pkg, p.S.Pass)
				} else if p.S.Payload != payloadOf("tar", "src", *t) && pl.Nodes[t.Name] == nil {
					c.Fail(w, "C05/reinstall", "a repeated install asks R to install %s from %s", p.S.Pkg, p.S.Payload)
				}
			}
			for _, q := range pkgReqs(out2.Reqs) {
				c.Fail(w, "C05/download", "a repeated install downloads %s", q.Path)
			}
			post := snapTree(w.Lib(), false)
			if d := diffSnap(pre, post, 8); len(d) > 0 {
				c.Fail(w, "C05/library", "a repeated install changes the library: %s", strings.Join(d, "; "))
			}
			c.Count("repeated_runs", 1)
			prev = post
		}
		_ = prev
		_ = exp
		c.Count("first_run_installs", n)
		if n > 0 {
			c.Distinct(planSig(pl) + fmt.Sprint(sc.Pre))
		}
		if c.I < 3 {
			c.Sample(map[string]any{"packages": sc.Packages, "plan": planSig(pl), "first_run_R_installs": n})
		}
	}
	x.Cases("full", x.N(90, 900), 8, func(c *Case) { run(c, fullGen) })
	o := fullGen
	o.Pre, o.Tar = 0.7, 0
	x.Cases("update", x.N(40, 400), 8, func(c *Case) { run(c, o) })
	o.Pre, o.Tar, o.MinP, o.MaxP, o.Bin = 0, 0, 10, 30, false
	x.Cases("big", x.N(15, 150), 8, func(c *Case) { run(c, o) })
}

var _ = proto.Mono
