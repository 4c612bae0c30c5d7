package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"vh/proto"
)

// proc is one R process seen in the log.
type proc struct {
	S    proto.Event
	E    *proto.Event
	SIdx int
	EIdx int // len(events) when it never ended
}

// procs pairs starts and ends.
func procs(es []proto.Event) []*proc {
	open := map[int]*proc{}
	var l []*proc
	for i := range es {
		e := es[i]
		if e.Ev == "start" {
			p := &proc{S: e, SIdx: i, EIdx: len(es) + 1}
			open[e.Pid] = p
			l = append(l, p)
		} else if p := open[e.Pid]; p != nil {
			x := e
			p.E, p.EIdx = &x, i
			delete(open, e.Pid)
		}
	}
	return l
}

// installs keeps R CMD INSTALL processes.
func installs(es []proto.Event) []*proc {
	var l []*proc
	for _, p := range procs(es) {
		if p.S.Kind == "install" {
			l = append(l, p)
		}
	}
	return l
}

func samePath(a, b string) bool {
	x, e1 := filepath.EvalSymlinks(a)
	y, e2 := filepath.EvalSymlinks(b)
	if e1 != nil || e2 != nil {
		return filepath.Clean(a) == filepath.Clean(b)
	}
	return x == y
}

// libIn finds the library in the libraries a process saw.
func libIn(e proto.Event, lib string) *proto.Lib {
	for i := range e.Libs {
		if samePath(e.Libs[i].Path, lib) {
			return &e.Libs[i]
		}
	}
	return nil
}

// okPayloads are the states in which d counts as installed when forTar (a package from a tarball) or another package that needs it starts.
// Tarballs are installed last, so for repository packages a package that a tarball replaces counts in its old state.
func (sc *Scenario) okPayloads(exp map[string]*Target, pl *Plan, d string, forTar bool) []string {
	var l []string
	if t := exp[d]; t != nil {
		l = append(l, t.Payload)
	}
	if sc.tar(d) != nil && !forTar {
		if c := pl.Nodes[d]; c != nil {
			l = append(l, c.Payload)
		}
		if p := sc.pre(d); p != nil {
			l = append(l, payloadOf("pre", "old", *p))
		}
	}
	return l
}

// checkOrder is the C01 monitor. It returns violations and the number of decisions it made.
func checkOrder(w *World, sc *Scenario, pl *Plan, exp map[string]*Target, out *RunOut) (bad []string, decided int) {
	ps := installs(out.Events)
	for _, p := range ps {
		n := p.S.Pkg
		if n == "" {
			continue
		}
		need := map[string]bool{}
		forTar := sc.tar(n) != nil && p.S.Payload == payloadOf("tar", "src", *sc.tar(n))
		if forTar {
			need = sc.tarNeed(pl, n)
		} else {
			need = pl.Need[n]
		}
		lib := libIn(p.S, w.Lib())
		for d := range need {
			if d == n {
				continue
			}
			decided++
			got := proto.Ent{}
			if lib != nil {
				got = lib.Pkgs[d]
			}
			ok := false
			for _, x := range sc.okPayloads(exp, pl, d, forTar) {
				if got.P == x && got.P != "" {
					ok = true
				}
			}
			if !ok {
				bad = append(bad, fmt.Sprintf("R was asked to install %s (%s pass, event %d) while its dependency %s was %q in the library, want %q", n, p.S.Pass, p.SIdx, d, got.P, sc.okPayloads(exp, pl, d, forTar)))
			}
			for _, q := range ps {
				if q != p && q.S.Pkg == d && q.SIdx < p.SIdx && q.EIdx > p.SIdx {
					bad = append(bad, fmt.Sprintf("R was asked to install %s (%s pass) while its dependency %s was being installed (%s pass)", n, p.S.Pass, d, q.S.Pass))
				}
			}
		}
	}
	sort.Strings(bad)
	return
}

// maxOverlap is the largest number of processes certainly alive at once.
func maxOverlap(ps []*proc) int {
	type pt struct {
		t int64
		d int
	}
	var l []pt
	for _, p := range ps {
		if p.E == nil {
			continue
		}
		l = append(l, pt{p.S.T, 1}, pt{p.E.T, -1})
	}
	sort.Slice(l, func(i, j int) bool {
		if l[i].t != l[j].t {
			return l[i].t < l[j].t
		}
		return l[i].d < l[j].d
	})
	m, c := 0, 0
	for _, x := range l {
		c += x.d
		m = max(m, c)
	}
	return m
}

// finished reports whether the run ended by itself; hangs are violations under key.
func (c *Case) finished(w *World, out *RunOut, key string) bool {
	if out.Hang {
		c.Fail(w, key+"hang", "pkgr %s does not terminate: no child, no request under way, no CPU used, every goroutine blocked\n%s", strings.Join(out.Args, " "), tailStr(out.Stderr, 6000))
		return false
	}
	if out.Timeout {
		c.Incon("watchdog: pkgr %v after %v", out.Args, out.Wall)
		return false
	}
	return true
}

// pkgReqs are the requests for package files.
func pkgReqs(rs []Req) []Req {
	var l []Req
	for _, r := range rs {
		if strings.HasSuffix(r.Path, ".tar.gz") {
			l = append(l, r)
		}
	}
	return l
}

// envSig is an order signature of a run: which installs began and ended in which order.
func orderSig(out *RunOut) string {
	var b strings.Builder
	for _, e := range out.Events {
		if e.Kind == "install" {
			b.WriteString(e.Ev[:1] + e.Pkg + e.Pass + ";")
		}
	}
	return b.String()
}

func planSig(pl *Plan) string {
	var b strings.Builder
	for _, n := range proto.SortedKeys(pl.Nodes) {
		d := append([]string{}, pl.Direct[n]...)
		sort.Strings(d)
		fmt.Fprintf(&b, "%s<%s(%s);", n, pl.Nodes[n].Payload, strings.Join(d, ","))
	}
	return b.String()
}

// delays spreads random delays over the installs.
func (c *Case) delays(sc *Scenario, pl *Plan, maxMs int) {
	sc.Ctl.DelayMs = map[string]int{}
	for n := range pl.Nodes {
		for _, pass := range []string{"src", "bin"} {
			switch c.R.Intn(4) {
			case 0:
				sc.Ctl.DelayMs[n+"/"+pass] = c.R.Intn(maxMs)
			case 1:
				sc.Ctl.DelayMs[n+"/"+pass] = maxMs/2 + c.R.Intn(maxMs)
			}
		}
	}
}

func sleepMs(ms int) { time.Sleep(time.Duration(ms) * time.Millisecond) }
