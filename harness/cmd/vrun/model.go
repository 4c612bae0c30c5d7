package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"vh/proto"
)

// The reference model: what the documentation says a configuration means.

func verParts(v string) []int {
	var r []int
	for _, s := range strings.FieldsFunc(v, func(c rune) bool { return c == '.' || c == '-' }) {
		n, _ := strconv.Atoi(s)
		r = append(r, n)
	}
	return r
}

// verCmp compares versions as sequences of numbers.
func verCmp(a, b string) int {
	x, y := verParts(a), verParts(b)
	for i := 0; i < len(x) || i < len(y); i++ {
		p, q := 0, 0
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			if p < q {
				return -1
			}
			return 1
		}
	}
	return 0
}

// rOK tells whether an R requirement such as ">= 4.1" is met.
func rOK(req, rver string) bool {
	if req == "" || req == "*" {
		return true
	}
	f := strings.Fields(req)
	c := verCmp(rver, f[1])
	switch f[0] {
	case ">=":
		return c >= 0
	case ">":
		return c > 0
	case "<=":
		return c <= 0
	case "<":
		return c < 0
	case "==":
		return c == 0
	case "!=":
		return c != 0
	}
	return false
}

// Choice is the offer a package is taken from.
type Choice struct {
	Pkg     Pkg
	Repo    *Repo
	Type    string // src, bin
	Payload string
}

// Plan is the modelled installation plan.
type Plan struct {
	Missing []string
	Nodes   map[string]*Choice
	Direct  map[string][]string        // planned direct requirements
	Need    map[string]map[string]bool // transitive
	Cyclic  bool
	Roots   []string
}

func (sc *Scenario) ignored(p string) bool {
	for _, i := range sc.Ignore {
		if i == p {
			return true
		}
	}
	return false
}

// offers gives the usable entry of p in the list.
func (sc *Scenario) offers(ps []Pkg, p string) *Pkg {
	var f *Pkg
	for i := range ps {
		if ps[i].Name == p && !ps[i].NoIndex && ps[i].IdxPath == "" && rOK(ps[i].RReq, sc.Ctl.RVersion) {
			f = &ps[i]
		}
	}
	return f
}

// Choose picks the repository and type of p.
func (sc *Scenario) Choose(p string) *Choice {
	if proto.IsBase(p) || sc.ignored(p) {
		return nil
	}
	c := sc.Cust[p]
	for i := range sc.Repos {
		r := &sc.Repos[i]
		if c.Repo != "" && c.Repo != r.Name {
			continue
		}
		t := "src"
		if r.RepoType == "MPN" {
			t = "bin"
		}
		switch strings.ToLower(r.Type) {
		case "source":
			t = "src"
		case "binary":
			t = "bin"
		}
		switch strings.ToLower(c.Type) {
		case "source":
			t = "src"
		case "binary":
			t = "bin"
		}
		l := r.Src
		if t == "bin" {
			if r.RepoType != "MPN" {
				continue
			}
			l = r.Bin
		}
		if o := sc.offers(l, p); o != nil {
			return &Choice{Pkg: *o, Repo: r, Type: t, Payload: payloadOf(r.tag(), t, *o)}
		}
	}
	return nil
}

func (sc *Scenario) suggests(p string) bool {
	if c, ok := sc.Cust[p]; ok && c.Suggests != nil {
		return *c.Suggests
	}
	if sc.Suggests {
		for _, q := range sc.Packages {
			if q == p {
				return true
			}
		}
	}
	return false
}

func reqs(p Pkg) []string {
	m := map[string]bool{}
	for _, l := range [][]string{p.Depends, p.Imports, p.LinkingTo} {
		for _, d := range l {
			for _, n := range proto.DepNames(d) {
				m[n] = true
			}
		}
	}
	return sortedSet(m)
}

func names(l []string) []string {
	var r []string
	for _, d := range l {
		r = append(r, proto.DepNames(d)...)
	}
	return r
}

// closed says whether every package of the plan has everything it needs: R, unlike the model, insists on it.
func (sc *Scenario) closed(pl *Plan) bool {
	has := func(p Pkg) bool {
		for _, d := range reqs(p) {
			if !proto.IsBase(d) && pl.Nodes[d] == nil {
				return false
			}
		}
		return true
	}
	for _, c := range pl.Nodes {
		if !has(c.Pkg) {
			return false
		}
	}
	for _, t := range sc.Tarballs {
		if !has(t) {
			return false
		}
	}
	return true
}

// Plan computes the closure.
func (sc *Scenario) Plan() *Plan {
	pl := &Plan{Nodes: map[string]*Choice{}, Direct: map[string][]string{}, Need: map[string]map[string]bool{}}
	rs := map[string]bool{}
	for _, p := range sc.Packages {
		rs[p] = true
	}
	for _, t := range sc.Tarballs {
		for _, d := range reqs(t) {
			rs[d] = true
		}
	}
	for _, t := range sc.Descs {
		for _, d := range append(reqs(t), names(t.Suggests)...) {
			rs[d] = true
		}
	}
	for _, p := range sortedSet(rs) {
		if !proto.IsBase(p) {
			pl.Roots = append(pl.Roots, p)
		}
	}
	excl := func(p string) bool { return proto.IsBase(p) || (sc.NoRecommended && proto.IsRec(p)) }
	var visit func(p string)
	visit = func(p string) {
		if pl.Nodes[p] != nil {
			return
		}
		c := sc.Choose(p)
		if c == nil {
			return
		}
		pl.Nodes[p] = c
		for _, d := range reqs(c.Pkg) {
			if !excl(d) && sc.Choose(d) != nil {
				pl.Direct[p] = append(pl.Direct[p], d)
			}
		}
		for _, d := range pl.Direct[p] {
			visit(d)
		}
		if sc.suggests(p) {
			for _, d := range names(c.Pkg.Suggests) {
				if !excl(d) {
					visit(d)
				}
			}
		}
	}
	for _, p := range pl.Roots {
		if sc.Choose(p) == nil {
			pl.Missing = append(pl.Missing, p)
			continue
		}
		visit(p)
	}
	for p := range pl.Nodes {
		need := map[string]bool{}
		var walk func(q string)
		walk = func(q string) {
			for _, d := range pl.Direct[q] {
				if !need[d] {
					need[d] = true
					walk(d)
				}
			}
		}
		walk(p)
		if need[p] {
			pl.Cyclic = true
		}
		pl.Need[p] = need
	}
	return pl
}

func (sc *Scenario) pre(p string) *Pkg {
	for i := range sc.Pre {
		if sc.Pre[i].Name == p {
			return &sc.Pre[i]
		}
	}
	return nil
}

func (sc *Scenario) tar(p string) *Pkg {
	for i := range sc.Tarballs {
		if sc.Tarballs[i].Name == p {
			return &sc.Tarballs[i]
		}
	}
	return nil
}

// tarNeed is everything tarball n requires, by way of planned packages and other tarballs.
func (sc *Scenario) tarNeed(pl *Plan, n string) map[string]bool {
	need := map[string]bool{}
	var walk func(q string)
	walk = func(q string) {
		ds := pl.Direct[q]
		if t := sc.tar(q); t != nil {
			ds = reqs(*t)
		}
		for _, d := range ds {
			if !need[d] && (pl.Nodes[d] != nil || sc.tar(d) != nil) {
				need[d] = true
				walk(d)
			}
		}
	}
	walk(n)
	return need
}

// tarCycle tells whether tarballs require each other in a circle.
func (sc *Scenario) tarCycle(pl *Plan) bool {
	for _, t := range sc.Tarballs {
		if sc.tarNeed(pl, t.Name)[t.Name] {
			return true
		}
	}
	return false
}

// Target is what a package of the library must be after a run.
type Target struct {
	Pkg     Pkg
	Payload string
	Kept    bool // untouched
	Update  bool // replaced
	Tar     bool
	From    *Choice
}

// Expect gives the library after a successful install on pre.
func (sc *Scenario) Expect(pl *Plan, pre []Pkg, noUpdate bool) map[string]*Target {
	m := map[string]*Target{}
	for _, p := range pre {
		m[p.Name] = &Target{Pkg: p, Payload: payloadOf("pre", "old", p), Kept: true}
	}
	for n, c := range pl.Nodes {
		old := m[n]
		if old == nil {
			m[n] = &Target{Pkg: c.Pkg, Payload: c.Payload, From: c}
		} else if !noUpdate && verCmp(c.Pkg.Version, old.Pkg.Version) > 0 {
			m[n] = &Target{Pkg: c.Pkg, Payload: c.Payload, From: c, Update: true}
		}
	}
	for _, t := range sc.Tarballs {
		m[t.Name] = &Target{Pkg: t, Payload: payloadOf("tar", "src", t), Tar: true, Update: m[t.Name] != nil && m[t.Name].Kept}
	}
	return m
}

// checkLib compares the library with exp; pre is the snapshot before the run. Extra names entries that may be there besides.
func (w *World) checkLib(exp map[string]*Target, pre Snap) []string {
	return w.checkLibAt(w.Lib(), exp, pre)
}

func (w *World) checkLibAt(lib string, exp map[string]*Target, pre Snap) []string {
	var bad []string
	post := snapTree(lib, false)
	want := map[string]bool{}
	for n := range exp {
		want[n] = true
	}
	for _, t := range pre.tops() {
		want[t] = true
	}
	for _, t := range post.tops() {
		if !want[t] {
			bad = append(bad, "unexpected entry "+t)
		}
	}
	for t := range want {
		e := exp[t]
		if e == nil || e.Kept {
			for _, d := range diffSnap(pre.sub(t), post.sub(t), 4) {
				bad = append(bad, "entry "+t+" must stay as it was: "+d)
			}
			continue
		}
		bad = append(bad, checkPkgDir(filepath.Join(lib, t), e.Pkg, e.Payload)...)
	}
	sort.Strings(bad)
	return bad
}

// checkPkgDir compares an installed package with what it must be; DESCRIPTION only by name and version.
func checkPkgDir(dir string, p Pkg, payload string) []string {
	e, ok := proto.ScanPkg(filepath.Dir(dir), filepath.Base(dir))
	if !ok {
		return []string{fmt.Sprintf("%s is not installed (want %s %s)", p.Name, p.Version, payload)}
	}
	if e.V != p.Version || e.P != payload {
		return []string{fmt.Sprintf("%s is %s from %q, want %s from %q", p.Name, e.V, e.P, p.Version, payload)}
	}
	var bad []string
	got := snapTree(dir, false)
	for _, f := range p.instFiles(payload, "4.3.1") {
		if f.name == "DESCRIPTION" {
			continue
		}
		want := fmt.Sprintf("%x %d", md5sum(f.data), len(f.data))
		if got[f.name] != want {
			bad = append(bad, fmt.Sprintf("%s: file %s is %q, want %q", p.Name, f.name, got[f.name], want))
		}
		delete(got, f.name)
	}
	for k, v := range got {
		if v != "dir" && k != "DESCRIPTION" {
			bad = append(bad, fmt.Sprintf("%s: extra file %s", p.Name, k))
		}
	}
	return bad
}
