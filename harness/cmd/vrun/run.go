// Command vrun runs the runtime monitors of one property against a built pkgr.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

var (
	scratch, pkgrPath, pkgrRacePath, fakeRPath, verifDir, repoDir string
	keepWorlds                                                    bool
	osID                                                          = "ubuntu/noble"
	onlyCase                                                      = -1
)

// Check is the monitor of one property.
type Check struct {
	Fn    func(*Ctx)
	Rule  string
	Level string
	Race  bool
}

var checks = map[string]*Check{}

// Ctx collects what one check observes.
type Ctx struct {
	ID, Tier string
	Seed     int64
	mu       sync.Mutex
	counts   map[string]int64
	distinct map[string]bool
	samples  []any
	viol     []string
	violKeys map[string]bool
	knownHit map[string]string
	incon    []string
	evals    int64
	caseN    int64
	known    map[string]string
	lib      map[string]bool
}

// Case is one case of a check.
type Case struct {
	*Ctx
	I      int
	Group  string
	R      *rand.Rand
	worlds []*World
	failed bool
}

// Thorough tells the tier.
func (x *Ctx) Thorough() bool { return x.Tier == "thorough" }

// N picks the number of cases by tier.
func (x *Ctx) N(quick, thorough int) int {
	if x.Thorough() {
		return thorough
	}
	return min(3*quick, thorough)
}

// Count adds to a counter of the evidence.
func (x *Ctx) Count(k string, n int) {
	x.mu.Lock()
	x.counts[k] += int64(n)
	x.mu.Unlock()
}

// Max keeps a maximum in the evidence.
func (x *Ctx) Max(k string, n int) {
	x.mu.Lock()
	if x.counts[k] < int64(n) {
		x.counts[k] = int64(n)
	}
	x.mu.Unlock()
}

// Distinct records the signature of a non-trivial case.
func (x *Ctx) Distinct(sig string) {
	h := fnv.New64a()
	h.Write([]byte(sig))
	x.mu.Lock()
	x.distinct[strconv.FormatUint(h.Sum64(), 36)] = true
	x.mu.Unlock()
}

// Sample keeps up to six cases written out.
func (x *Ctx) Sample(s any) {
	x.mu.Lock()
	if len(x.samples) < 6 {
		x.samples = append(x.samples, s)
	}
	x.mu.Unlock()
}

func (x *Ctx) stop() bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	return len(x.viol) >= 4
}

// Cases runs fn for cases 0..n-1 in parallel.
func (x *Ctx) Cases(group string, n, workers int, fn func(c *Case)) {
	if onlyGroup != "" && onlyGroup != group {
		return
	}
	if workers <= 0 {
		workers = 8
	}
	t0 := time.Now()
	defer func() {
		if onlyGroup != "" {
			fmt.Fprintf(os.Stderr, "group %s: %.1fs\n", group, time.Since(t0).Seconds())
		}
	}()
	if workers > n {
		workers = n
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || x.stop() {
					return
				}
				if onlyCase >= 0 && i != onlyCase {
					continue
				}
				x.one(group, i, fn)
			}
		}()
	}
	wg.Wait()
}

func (x *Ctx) one(group string, i int, fn func(c *Case)) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s/%d/%d", x.ID, group, x.Seed, i)
	c := &Case{Ctx: x, I: i, Group: group, R: rand.New(rand.NewSource(int64(h.Sum64() >> 1)))}
	defer func() {
		if e := recover(); e != nil {
			c.Incon("harness panic in %s/%d: %v\n%s", group, i, e, debug.Stack())
		}
		for _, w := range c.worlds {
			w.Close()
		}
	}()
	atomic.AddInt64(&x.evals, 1)
	fn(c)
}

// World makes a world that lives as long as the case.
func (c *Case) World(sc *Scenario) *World {
	w := newWorld(sc)
	c.worlds = append(c.worlds, w)
	return w
}

// Drop closes a world early.
func (c *Case) Drop(w *World) {
	for i, x := range c.worlds {
		if x == w {
			c.worlds = append(c.worlds[:i], c.worlds[i+1:]...)
			w.Close()
			return
		}
	}
}

// Incon notes that a case decided nothing.
func (x *Ctx) Incon(f string, a ...any) {
	x.mu.Lock()
	x.incon = append(x.incon, fmt.Sprintf(f, a...))
	x.mu.Unlock()
}

// Fail reports a violation; key names what failed and is what known-findings.json lists.
func (c *Case) Fail(w *World, key, f string, a ...any) {
	desc := fmt.Sprintf(f, a...)
	c.failed = true
	x := c.Ctx
	x.mu.Lock()
	defer x.mu.Unlock()
	if d, ok := x.known[key]; ok {
		x.knownHit[key] = d
		return
	}
	if len(x.viol) >= 12 || x.violKeys[key+fmt.Sprint(c.Group, c.I)] {
		return
	}
	x.violKeys[key+fmt.Sprint(c.Group, c.I)] = true
	dir := filepath.Join(verifDir, "replays", fmt.Sprintf("%s-%s-%s-%d-%d", x.ID, x.Tier, c.Group, c.I, len(x.viol)))
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0755)
	rep := filepath.Join(dir, "report.txt")
	var b strings.Builder
	fmt.Fprintf(&b, "property %s violated\nkey: %s\ncase: group %s number %d, VERIF_SEED=%d VERIF_TIER=%s\n", x.ID, key, c.Group, c.I, x.Seed, x.Tier)
	fmt.Fprintf(&b, "again: VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s -case %d\n\n%s\n", x.Seed, x.Tier, x.ID, c.I, desc)
	if w != nil {
		w.mu.Lock()
		for _, n := range w.notes {
			fmt.Fprintln(&b, "note:", n)
		}
		for i, r := range w.Runs {
			fmt.Fprintf(&b, "\n===== run %d: pkgr %s  exit %d %s hang=%v timeout=%v\n--- stdout\n%s\n--- stderr\n%s\n--- events\n", i, strings.Join(r.Args, " "), r.Exit, r.Signal, r.Hang, r.Timeout, tailStr(r.Stdout, 20000), tailStr(r.Stderr, 20000))
			for _, e := range r.Events {
				fmt.Fprintf(&b, "%s pid=%d %s pkg=%s %s payload=%s pass=%s lib=%s build=%v exit=%d missing=%v args=%q\n", e.Ev, e.Pid, e.Kind, e.Pkg, e.Ver, e.Payload, e.Pass, e.Lib, e.Build, e.Exit, e.Missing, e.Args)
			}
			fmt.Fprintf(&b, "--- requests\n")
			for _, q := range r.Reqs {
				fmt.Fprintf(&b, "%d sent=%d full=%v %s\n", q.Status, q.Sent, q.Full, q.Path)
			}
		}
		w.mu.Unlock()
		fmt.Fprintf(&b, "\n===== library now\n%s\n", strings.Join(snapTree(w.Lib(), false).tops(), " "))
		sj, _ := json.MarshalIndent(w.Sc, "", " ")
		os.WriteFile(filepath.Join(dir, "scenario.json"), sj, 0644)
		yb, _ := os.ReadFile(w.P("proj/pkgr.yml"))
		os.WriteFile(filepath.Join(dir, "pkgr.yml"), yb, 0644)
	}
	os.WriteFile(rep, []byte(b.String()), 0644)
	x.viol = append(x.viol, rep)
	fmt.Printf("VIOLATION property=%s replay=%s\n", x.ID, rep)
	fmt.Printf("  %s: %s\n", key, firstLines(desc, 6))
}

func tailStr(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n[...]\n" + s[len(s)-n/2:]
	}
	return s
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return tailStr(strings.Join(l, "\n  "), 1500)
}

func cleanup() {
	if scratch != "" && !keepWorlds {
		rmTree(scratch)
	}
}

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"` // known or fixed
	Commit   string `json:"commit,omitempty"`
}

var onlyGroup string

func main() {
	prop := flag.String("prop", "", "property id")
	flag.StringVar(&pkgrPath, "pkgr", "", "pkgr binary")
	flag.StringVar(&pkgrRacePath, "race", "", "pkgr binary built with -race")
	flag.StringVar(&fakeRPath, "fakeR", "", "R stand-in")
	flag.StringVar(&verifDir, "verif", "/verif", "")
	flag.StringVar(&repoDir, "repo", "/repo", "")
	flag.IntVar(&onlyCase, "case", -1, "only this case")
	flag.StringVar(&onlyGroup, "group", "", "only this group of cases")
	flag.BoolVar(&keepWorlds, "keep", false, "keep worlds")
	flag.Parse()
	ck := checks[*prop]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no such property", *prop)
		os.Exit(3)
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	syscall.Umask(0022)
	d, err := os.MkdirTemp("/tmp", "vw-")
	if err != nil {
		die("%v", err)
	}
	scratch = d
	os.Chmod(d, 0755)
	// one stand-in in the scratch directory so that it can be hard-linked
	b, err := os.ReadFile(fakeRPath)
	if err != nil {
		die("%v", err)
	}
	fakeRPath = filepath.Join(scratch, "fakeR")
	if err := os.WriteFile(fakeRPath, b, 0755); err != nil {
		die("%v", err)
	}
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM, syscall.SIGINT)
	go func() { <-sig; cleanup(); os.Exit(3) }()
	if ob, err := os.ReadFile("/etc/os-release"); err == nil {
		m := map[string]string{}
		for _, l := range strings.Split(string(ob), "\n") {
			if i := strings.IndexByte(l, '='); i > 0 {
				m[l[:i]] = strings.Trim(l[i+1:], "\"")
			}
		}
		if m["ID"] == "ubuntu" {
			osID = m["ID"] + "/" + m["VERSION_CODENAME"]
		} else {
			osID = m["ID"] + "/" + m["VERSION_ID"]
		}
	}
	startServer()
	x := &Ctx{ID: *prop, Tier: tier, Seed: seed, counts: map[string]int64{}, distinct: map[string]bool{}, violKeys: map[string]bool{}, knownHit: map[string]string{}, known: map[string]string{}}
	if kb, err := os.ReadFile(filepath.Join(verifDir, "known-findings.json")); err == nil {
		var ks []knownFinding
		if err := json.Unmarshal(kb, &ks); err != nil {
			die("known-findings.json: %v", err)
		}
		for _, k := range ks {
			if k.Property == *prop && k.Status == "known" {
				x.known[k.Key] = k.What
			}
		}
	}
	start := time.Now()
	ck.Fn(x)
	wall := time.Since(start).Seconds()
	cleanup()
	cov := map[string]any{"evaluations": x.evals, "distinct_nontrivial": len(x.distinct), "rule": ck.Rule, "samples": x.samples, "inconclusive": len(x.incon)}
	for k, v := range x.counts {
		cov[k] = v
	}
	level := ck.Level
	if level == "" {
		level = "exploration"
	}
	if x.samples == nil {
		cov["samples"] = []any{}
	}
	ev := map[string]any{"property": x.ID, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": wall, "violations": len(x.viol)}
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", x.ID+".json"), append(eb, '\n'), 0644); err != nil {
		die("%v", err)
	}
	ks := []string{}
	for k := range x.knownHit {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", x.ID, k, x.knownHit[k])
	}
	for i, s := range x.incon {
		if i < 8 {
			fmt.Println("inconclusive:", tailStr(s, 3000))
		}
	}
	var cs []string
	for k, v := range x.counts {
		cs = append(cs, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(cs)
	fmt.Printf("%s %s seed=%d: %d evaluations, %d distinct, %d inconclusive, %d violations, %.1fs  %s\n", x.ID, tier, seed, x.evals, len(x.distinct), len(x.incon), len(x.viol), wall, strings.Join(cs, " "))
	switch {
	case len(x.viol) > 0:
		os.Exit(1)
	case len(x.incon) > 2 && int64(len(x.incon))*20 > x.evals:
		os.Exit(2)
	case x.evals == 0:
		os.Exit(2)
	}
}
