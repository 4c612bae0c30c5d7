package main

import (
	"crypto/md5"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"vh/proto"
)

func md5sum(b []byte) [16]byte { return md5.Sum(b) }

// GenOpt steers the scenario generator.
type GenOpt struct {
	MinP, MaxP int
	Repos      int // maximum
	Bin        bool
	Pre        float64 // share of plan packages preinstalled
	Other      int     // unrelated preinstalled packages, at most
	Tar        int
	Desc       int
	Sugg       bool
	Rec        bool
	Ghost      bool
	Ignore     bool
	Pin        bool
	Local      bool
	SizeK      int
	Wide       bool // few edges
	Deep       bool
	NoLib      float64
	Files      bool // unrelated library content
}

var nameStems = []string{"ab", "R6", "data.table", "zoo", "here", "Rcpp", "fs", "x2", "mrg", "pillar", "tidyr", "ggplot2", "rlang", "vctrs", "cli", "glue", "withr", "utf8", "xts", "DBI", "V8", "nlmixr", "sf", "BH", "a1", "coda", "lme4", "crayon"}

func pick[T any](r *rand.Rand, l []T) T { return l[r.Intn(len(l))] }

func chance(r *rand.Rand, p float64) bool { return r.Float64() < p }

// archiveExts are endings of names that look like other kinds of archives.
var archiveExts = []string{".xz", ".zz", ".bz2", ".br", ".s2", ".sz", ".zst", ".zip", ".rar", ".lz4", ".gz", ".tar"}

// pkgNames makes n distinct package names, some of them prefixes of others.
func pkgNames(r *rand.Rand, n int) []string {
	seen := map[string]bool{}
	var l []string
	for len(l) < n {
		s := pick(r, nameStems)
		switch r.Intn(5) {
		case 0:
			if len(l) > 0 {
				s = pick(r, l) + pick(r, []string{"x", ".b", "2", "s"})
			}
		case 1:
			s += fmt.Sprint(r.Intn(90))
		case 2:
			s += "." + string(rune('a'+r.Intn(26))) + string(rune('a'+r.Intn(26)))
		case 3:
			s += string(rune('a'+r.Intn(26))) + string(rune('A'+r.Intn(26)))
		}
		if !seen[s] && !proto.IsBase(s) && !proto.IsRec(s) && len(s) > 1 {
			seen[s] = true
			l = append(l, s)
		}
	}
	return l
}

// genVersion makes a version with 2 to 5 components.
func genVersion(r *rand.Rand) string {
	n := 2 + r.Intn(3)
	if r.Intn(12) == 0 {
		n = 5
	}
	s := fmt.Sprint(r.Intn(4))
	for i := 1; i < n; i++ {
		sep := "."
		if r.Intn(4) == 0 {
			sep = "-"
		}
		x := r.Intn(12)
		if r.Intn(6) == 0 {
			x = 90 + r.Intn(20)
		}
		if r.Intn(25) == 0 {
			x = 9000 + r.Intn(2000)
		}
		if i == n-1 {
			x++ // no trailing zero
		}
		s += sep + fmt.Sprint(x)
	}
	return s
}

// otherVersion makes a version of the same length that compares as sign to v.
func otherVersion(r *rand.Rand, v string, sign int) string {
	p := verParts(v)
	for try := 0; try < 200; try++ {
		q := append([]int{}, p...)
		i := r.Intn(len(q))
		switch r.Intn(3) {
		case 0:
			q[i] += sign * (1 + r.Intn(3))
		case 1: // many more digits
			q[i] += sign * (1 + r.Intn(12))
		case 2:
			q[i] += sign * 1
			for j := i + 1; j < len(q); j++ {
				q[j] = r.Intn(15)
			}
		}
		ok := q[len(q)-1] != 0
		s := ""
		for j, x := range q {
			if x < 0 {
				ok = false
			}
			if j > 0 {
				s += pick(r, []string{".", ".", "-"})
			}
			s += fmt.Sprint(x)
		}
		if ok && verCmp(s, v) == sign {
			return s
		}
	}
	if sign > 0 {
		return v + ".1"
	}
	return "0.0-1"
}

func shuffle[T any](r *rand.Rand, l []T) []T {
	m := append([]T{}, l...)
	r.Shuffle(len(m), func(i, j int) { m[i], m[j] = m[j], m[i] })
	return m
}

// Gen makes a scenario whose requested packages are all available.
func Gen(r *rand.Rand, o GenOpt) *Scenario {
	for {
		sc := gen1(r, o)
		pl := sc.Plan()
		if len(pl.Missing) == 0 && !pl.Cyclic && !sc.tarCycle(pl) && (len(pl.Nodes) > 0) && (o.MinP < 4 || len(pl.Nodes)*2 >= o.MinP) {
			return sc
		}
	}
}

func gen1(r *rand.Rand, o GenOpt) *Scenario {
	n := o.MinP + r.Intn(o.MaxP-o.MinP+1)
	ns := pkgNames(r, n)
	nr := 1
	if o.Repos > 1 {
		nr = 1 + r.Intn(o.Repos)
	}
	sc := &Scenario{Ctl: proto.Control{RVersion: "4.3.1", Platform: defPlatform, SysPkgs: map[string]string{}}}
	for _, p := range proto.RecPkgs {
		sc.Ctl.SysPkgs[p] = "1.0"
	}
	shape := r.Intn(4)
	if o.Wide {
		shape = 0
	}
	if o.Deep {
		shape = 1
	}
	mk := func(i int) Pkg {
		p := Pkg{Name: ns[i], Version: genVersion(r)}
		add := func(d string) {
			ds := d
			if r.Intn(5) == 0 {
				ds += " (>= 0.0.1)"
			}
			switch r.Intn(6) {
			case 0:
				p.Depends = append(p.Depends, ds)
			case 1:
				p.LinkingTo = append(p.LinkingTo, ds)
			case 2:
				p.LinkingTo = append(p.LinkingTo, d)
				p.Imports = append(p.Imports, ds)
			default:
				p.Imports = append(p.Imports, ds)
			}
		}
		seen := map[int]bool{}
		k := 0
		switch shape {
		case 0:
			if r.Intn(4) == 0 {
				k = 1
			}
		case 1:
			if i > 0 && r.Intn(6) > 0 {
				seen[i-1] = true
				add(ns[i-1])
			}
			k = r.Intn(2)
		case 2:
			k = r.Intn(4)
		case 3:
			if i > n/3 {
				k = 1 + r.Intn(3)
			}
		}
		for j := 0; j < k && i > 0; j++ {
			d := r.Intn(i)
			if shape == 3 {
				d = r.Intn(max(1, n/3))
			}
			if !seen[d] {
				seen[d] = true
				add(ns[d])
			}
		}
		if r.Intn(3) == 0 {
			p.Imports = append(p.Imports, pick(r, []string{"methods", "stats", "utils", "tools", "grid"}))
		}
		if r.Intn(3) == 0 {
			p.RReq = pick(r, []string{">= 3.5.0", ">= 4.0", ">= 4.3.1", "> 2.10", "< 5.0.0", "<= 4.3.1", "!= 4.9.0", "*"})
		}
		if o.Rec && r.Intn(4) == 0 {
			rec := pick(r, []string{"MASS", "Matrix", "lattice"})
			switch r.Intn(4) {
			case 0:
				p.Depends = append(p.Depends, rec)
			case 1:
				p.LinkingTo = append(p.LinkingTo, rec)
			default:
				p.Imports = append(p.Imports, rec)
			}
		}
		if o.Ghost && r.Intn(6) == 0 {
			p.Imports = append(p.Imports, "ghost"+fmt.Sprint(r.Intn(3)))
		}
		if o.Sugg && r.Intn(2) == 0 {
			for j := 0; j < 1+r.Intn(2); j++ {
				s := r.Intn(n)
				if s != i {
					p.Suggests = append(p.Suggests, ns[s])
				}
			}
			if r.Intn(4) == 0 {
				p.Suggests = append(p.Suggests, pick(r, []string{"ghostS", "knitr", "stats"}))
			}
			if o.Rec && r.Intn(3) == 0 {
				p.Suggests = append(p.Suggests, pick(r, []string{"MASS", "nlme"}))
			}
		}
		if o.SizeK > 0 {
			p.SizeK = r.Intn(o.SizeK + 1)
		}
		p.Imports = shuffle(r, p.Imports)
		return p
	}
	if o.Ghost {
		for i := 0; i < 3; i++ {
			sc.Ctl.SysPkgs[fmt.Sprintf("ghost%d", i)] = "1.0"
		}
	}
	for k := 0; k < nr; k++ {
		rp := Repo{Name: pick(r, []string{"CRAN", "MPN", "RVAL", "loc"}) + fmt.Sprint(k)}
		if k > 0 && r.Intn(8) == 0 { // names that differ in case only
			rp.Name = strings.ToLower(sc.Repos[0].Name)
			for j := range sc.Repos {
				if sc.Repos[j].Name == rp.Name {
					rp.Name += fmt.Sprint(k)
				}
			}
		}
		if o.Bin && r.Intn(2) == 0 {
			rp.RepoType = "MPN"
			if r.Intn(3) == 0 {
				rp.Suffix = "snap1"
			}
			switch r.Intn(4) {
			case 0:
				rp.Type = "source"
			case 1:
				rp.Type = "binary"
			}
		} else if o.Bin {
			rp.RSPM = r.Intn(6) == 0
			switch r.Intn(12) {
			case 0, 1:
				rp.Type = "source"
			case 2:
				rp.Type = "binary" // which it does not have
			}
		}
		if o.Local && r.Intn(4) == 0 {
			rp.Kind = "local"
		}
		rp.Slash = r.Intn(5) == 0
		rp.Cred = r.Intn(10) == 0
		if rp.Kind != "local" && r.Intn(6) == 0 {
			rp.Mirror = pick(r, []int{301, 302, 303, 307, 308})
		}
		rp.CRLF = r.Intn(8) == 0
		rp.Style = r.Intn(5)
		share := 1.0
		if nr > 1 {
			share = 0.4 + r.Float64()*0.5
		}
		for i := 0; i < n; i++ {
			if chance(r, share) {
				rp.Src = append(rp.Src, mk(i))
			}
			if rp.RepoType == "MPN" && chance(r, 0.7) {
				rp.Bin = append(rp.Bin, mk(i))
			}
		}
		if o.Rec && r.Intn(2) == 0 {
			for _, p := range []string{"MASS", "Matrix", "nlme"} {
				if r.Intn(2) == 0 {
					rp.Src = append(rp.Src, Pkg{Name: p, Version: genVersion(r)})
				}
			}
		}
		if rp.RepoType == "MPN" && rp.Bin == nil {
			rp.Bin = []Pkg{}
		}
		rp.Src = shuffle(r, rp.Src)
		rp.Bin = shuffle(r, rp.Bin)
		sc.Repos = append(sc.Repos, rp)
	}
	sc.Cust = map[string]Cust{}
	// settings that must not matter
	sc.NoSecure = r.Intn(6) == 0
	sc.LogLevel = pick(r, []string{"", "", "", "", "debug", "trace", "info"})
	sc.CustStyle = r.Intn(32)
	sc.Spell = r.Intn(8) // 0 and above 3: as is
	if o.Pin {
		for i := 0; i < 1+n/5; i++ {
			p := pick(r, ns)
			c := sc.Cust[p]
			if r.Intn(3) > 0 {
				c.Repo = pick(r, sc.Repos).Name
			} else {
				c.Type = pick(r, []string{"source", "binary", "Source"})
			}
			sc.Cust[p] = c
		}
	}
	if o.Sugg {
		sc.Suggests = r.Intn(3) == 0
		for i := 0; i < r.Intn(4); i++ {
			p := pick(r, ns)
			c := sc.Cust[p]
			b := r.Intn(2) == 0
			c.Suggests = &b
			sc.Cust[p] = c
		}
	}
	if o.Rec {
		sc.NoRecommended = r.Intn(2) == 0
	}
	if o.Ignore && r.Intn(2) == 0 {
		for i := 0; i < 1+r.Intn(2); i++ {
			p := ns[r.Intn((n+1)/2)]
			sc.Ignore = append(sc.Ignore, p)
			sc.Ctl.SysPkgs[p] = "1.0"
		}
		sc.Ignore = dedup(sc.Ignore)
	}
	var avail []string
	for _, p := range ns {
		if sc.Choose(p) != nil {
			avail = append(avail, p)
		} else {
			sc.Ctl.SysPkgs[p] = "1.0" // somebody may depend on it
		}
	}
	if len(avail) == 0 {
		return sc
	}
	// later packages have the dependencies
	k := 1 + r.Intn(max(1, len(avail)/2))
	roots := map[string]bool{}
	for i := 0; i < k; i++ {
		j := len(avail) - 1 - min(r.Intn(len(avail)), r.Intn(len(avail)))
		roots[avail[j]] = true
	}
	sc.Packages = shuffle(r, sortedSet(roots))
	if o.Rec && r.Intn(4) == 0 && sc.Choose("MASS") != nil {
		sc.Packages = append(sc.Packages, "MASS")
	}
	if r.Intn(6) == 0 {
		sc.Packages = append(sc.Packages, pick(r, []string{"stats", "utils"}))
	}
	for i := 0; i < o.Tar; i++ {
		if r.Intn(2) == 0 {
			continue
		}
		t := Pkg{Name: "tarp" + string(rune('a'+i)), Version: genVersion(r)}
		if r.Intn(6) == 0 {
			t.Name += pick(r, archiveExts)
		}
		if r.Intn(3) == 0 {
			t.Name = pick(r, avail) // also in a repository
			if sc.tar(t.Name) != nil {
				continue
			}
		}
		for j := 0; j < r.Intn(3); j++ {
			d := pick(r, avail)
			if len(sc.Tarballs) > 0 && r.Intn(3) == 0 && sc.Choose(sc.Tarballs[0].Name) != nil {
				d = sc.Tarballs[0].Name // another tarball
			}
			if d == t.Name {
				continue
			}
			switch r.Intn(4) {
			case 0:
				t.Depends = append(t.Depends, d)
			case 1:
				t.LinkingTo = append(t.LinkingTo, d)
			default:
				t.Imports = append(t.Imports, d+pick(r, []string{"", " (>= 0.0)"}))
			}
		}
		if r.Intn(2) == 0 {
			t.RReq = ">= 3.5"
			t.Imports = append(t.Imports, "methods")
		}
		sc.Tarballs = append(sc.Tarballs, t)
	}
	for i := 0; i < o.Desc; i++ {
		if r.Intn(2) == 0 {
			continue
		}
		d := Pkg{Name: "descp" + string(rune('a'+i)), Version: "0.1"}
		d.Imports = []string{pick(r, avail)}
		if r.Intn(2) == 0 {
			d.Depends = []string{pick(r, avail)}
			d.RReq = ">= 3.5"
		}
		if r.Intn(2) == 0 {
			d.Suggests = []string{pick(r, avail)}
		}
		if r.Intn(3) == 0 {
			d.LinkingTo = []string{pick(r, avail)}
		}
		sc.Descs = append(sc.Descs, d)
	}
	for len(sc.Packages) == 0 {
		sc.Packages = []string{pick(r, avail)}
	}
	pl := sc.Plan()
	for _, p := range proto.SortedKeys(pl.Nodes) {
		if !chance(r, o.Pre) {
			continue
		}
		v := pl.Nodes[p].Pkg.Version
		switch r.Intn(4) {
		case 0:
			v = otherVersion(r, v, 1)
		case 1, 2:
			v = otherVersion(r, v, -1)
		}
		sc.Pre = append(sc.Pre, Pkg{Name: p, Version: v})
	}
	for _, t := range sc.Tarballs {
		if o.Pre > 0 && r.Intn(2) == 0 && sc.pre(t.Name) == nil {
			sc.Pre = append(sc.Pre, Pkg{Name: t.Name, Version: genVersion(r)})
		}
	}
	for i := 0; i < o.Other; i++ {
		p := fmt.Sprintf("other%d", i)
		if r.Intn(3) == 0 {
			// offered by a repository, outdated, but not in the plan
			q := pick(r, ns)
			if pl.Nodes[q] == nil && sc.tar(q) == nil && sc.pre(q) == nil {
				sc.Pre = append(sc.Pre, Pkg{Name: q, Version: "0.0-1"})
				continue
			}
		}
		if r.Intn(2) == 0 {
			sc.Pre = append(sc.Pre, Pkg{Name: p, Version: genVersion(r)})
		}
	}
	for i := range sc.Pre {
		if r.Intn(2) == 0 && sc.Pre[i].Extra == "" { // put there by pkgr, from one of the repositories or elsewhere
			from, url := "ELSEWHERE", "http://elsewhere.example.org"
			if r.Intn(3) > 0 {
				from = pick(r, sc.Repos).Name
			}
			sc.Pre[i].Extra = "Repository: " + from + "\nPkgrVersion: 3.1.0\nPkgrInstallType: " + pick(r, []string{"source", "binary"}) + "\nPkgrRepositoryURL: " + url + "\n"
		} else if r.Intn(3) == 0 && sc.Pre[i].Extra == "" {
			sc.Pre[i].Extra = "Repository: CRAN\n"
		}
	}
	if o.Files {
		sc.PreFiles = map[string]string{}
		for k, v := range map[string]string{"README.txt": "keep me\n", ".hidden/x": "1", "notapkg/file": "2", "emptydir/": ""} {
			if r.Intn(2) == 0 {
				sc.PreFiles[k] = v
			}
		}
		if r.Intn(3) == 0 { // copies of packages under other names are no packages
			for i := 1 + r.Intn(2); i > 0; i-- {
				p := pick(r, ns)
				d := pick(r, []string{p + "-old", p + ".bak", "0" + p, p + "_1.0", "." + p, "old " + p})
				v := pick(r, []string{"0.0-1", genVersion(r), "999.9"})
				sc.PreFiles[d+"/DESCRIPTION"] = "Package: " + p + "\nVersion: " + v + "\nTitle: Copy\nBuilt: R 4.3.1; ; 2024-01-01 00:00:00 UTC; unix\n"
				sc.PreFiles[d+"/payload.txt"] = "copy/" + p + "\n"
			}
		}
	}
	if len(sc.Pre) == 0 && len(sc.PreFiles) == 0 && chance(r, o.NoLib) {
		sc.NoLib = true
	}
	if o.Files {
		sc.LibPath = pick(r, []string{"", "", "", "my lib", "deep/er/lib", "libé'q", "./lib/"})
		sc.CachePath = pick(r, []string{"", "", "", "my cache", "ca/che", "câché"})
		sc.LibLink = !sc.NoLib && r.Intn(5) == 0
	}
	sc.Threads = pick(r, []int{0, 1, 2, 3, 5, 8, 12})
	return sc
}

func dedup(l []string) []string {
	m := map[string]bool{}
	for _, x := range l {
		m[x] = true
	}
	r := sortedSet(m)
	sort.Strings(r)
	return r
}
