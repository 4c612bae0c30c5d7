package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

func init() {
	checks["C30"] = &Check{Fn: c30, Rule: "sequences of every command with every log configuration, level, outcome (success, failed packages and downloads, missing packages, unusable R, killed) and many workers; records on the console compared as a multiset with the lines each log file gained; also runs that share a file; non-trivial: every run; distinct by command, configuration, level and number of records"}
}

// records reads the JSON records among the lines of s, without their time.
func records(s string) (recs []string, other int) {
	for _, l := range strings.Split(s, "\n") {
		if l == "" {
			continue
		}
		var m map[string]any
		if l[0] != '{' || json.Unmarshal([]byte(l), &m) != nil || m["level"] == nil || m["msg"] == nil {
			other++
			continue
		}
		delete(m, "time")
		b, _ := json.Marshal(m) // keys sorted
		recs = append(recs, string(b))
	}
	return
}

// checkLog compares the console's records with those of the file. pre: records at the start that only the console may have; more: the file may have records the console lacks (the run was killed).
func checkLog(console, file []string, pre int, more bool) []string {
	n := map[string]int{}
	for _, r := range file {
		n[r]++
	}
	var missing []string
	missAt := map[int]bool{}
	// the last ones on the console are matched first
	for i := len(console) - 1; i >= 0; i-- {
		if n[console[i]] == 0 {
			missing = append(missing, console[i])
			missAt[i] = true
			continue
		}
		n[console[i]]--
	}
	var bad []string
	for i := range missAt {
		if i >= pre {
			bad = append(bad, fmt.Sprintf("record %d of the console's %d is not in the file: %s", i, len(console), tailStr(console[i], 300)))
		}
	}
	if !more {
		for r, k := range n {
			if k > 0 {
				bad = append(bad, fmt.Sprintf("the file has a record %d times more than the console: %s", k, tailStr(r, 300)))
			}
		}
	}
	if len(bad) > 5 {
		bad = append(bad[:5], fmt.Sprintf("... %d more", len(bad)-5))
	}
	return bad
}

func c30(x *Ctx) {
	o := GenOpt{MinP: 3, MaxP: 14, Repos: 2, Bin: true, Pre: 0.3, Other: 3, Tar: 2, Desc: 1, Sugg: true, NoLib: 0.4, Wide: true}
	gen := func(c *Case) (*Scenario, *Plan) {
		for {
			sc := Gen(c.R, o)
			pl := sc.Plan()
			if !pl.Cyclic && len(pl.Missing) == 0 && !sc.tarCycle(pl) && len(pl.Nodes) > 0 {
				sc.Strict = false
				return sc, pl
			}
		}
	}
	x.Cases("runs", x.N(250, 3000), 8, func(c *Case) {
		sc, pl := gen(c)
		places := []string{"log.txt", "sub/all.log", "../home/pkgr log.json", "./x.log"}
		if c.R.Intn(6) > 0 {
			sc.LogAll = pick(c.R, places)
		}
		if c.R.Intn(3) == 0 {
			if sc.LogInstall = pick(c.R, append(places, "inst.log")); sc.LogInstall == sc.LogAll && c.R.Intn(2) == 0 {
				sc.LogInstall = "inst2.log"
			}
		}
		sc.LogOver = c.R.Intn(3) == 0
		if c.R.Intn(3) == 0 {
			sc.LogLevel = pick(c.R, []string{"trace", "debug", "info", "warn", "error", "fatal"})
		}
		sc.Threads = pick(c.R, []int{0, 1, 4, 16})
		if c.R.Intn(2) == 0 {
			sc.Ctl.Chatter = map[string]int{}
			for n := range pl.Nodes {
				sc.Ctl.Chatter[n+"/src"], sc.Ctl.Chatter[n+"/bin"] = c.R.Intn(30), c.R.Intn(30)
			}
		}
		w := c.World(sc)
		must(os.MkdirAll(w.P("proj/sub"), 0755))
		w.Own()
		path := func(s string) string {
			if s == "" {
				return ""
			}
			return filepath.Join(w.P("proj"), s)
		}
		all, inst := path(sc.LogAll), path(sc.LogInstall)
		read := func(p string) []byte {
			if p == "" {
				return nil
			}
			b, _ := os.ReadFile(p)
			return b
		}
		if all != "" && c.R.Intn(4) == 0 {
			writeFile(all, []byte("{\"level\":\"info\",\"msg\":\"from earlier\"}\n"), 0644)
			w.Own()
		}
		step := ""
		for k := 0; k < 1+c.R.Intn(4); k++ {
			node := pick(c.R, pl.Roots)
			cmd := pick(c.R, [][]string{{"install"}, {"install"}, {"install"}, {"install"}, {"plan"}, {"plan", "--show-deps"}, {"load"}, {"load", "--all"}, {"load", "--json"}, {"inspect", "--deps"}, {"inspect", "--deps", "--json"},
				{"add", node}, {"remove", "nosuch"}, {"clean", "cache"}, {"clean", "pkgdbs"}, {"clean", "--all"}, {"run"}, {"add", "--install", node}})
			lvl := sc.LogLevel
			if c.R.Intn(2) == 0 {
				lvl = pick(c.R, []string{"trace", "debug", "info", "warn", "error"})
				cmd = append(cmd, "--loglevel", lvl)
			}
			text := c.R.Intn(5) == 0
			if !text {
				cmd = append(cmd, "--logjson")
			}
			// outcomes
			sc.Ctl.Fail = nil
			w.SetFaults(nil)
			how := "plain"
			killed := false
			opt := RunOpt{}
			switch c.R.Intn(6) {
			case 0:
				how = "failures"
				exp := sc.Expect(pl, sc.Pre, sc.NoUpdate)
				c.inject(sc, pl, exp, 1+c.R.Intn(3), false)
				w.SetFaults(sc.Faults)
				sc.Faults = nil
			case 1:
				how = "version"
				sc.Ctl.VersionRC = 1
			case 2:
				how = "killed"
				killed = true
				ms := c.R.Intn(60)
				opt.OnStart = func(pid int) {
					go func() {
						time.Sleep(time.Duration(ms) * time.Millisecond)
						w.kill()
					}()
				}
			case 3:
				how = "index"
				w.SetFaults([]*Fault{{Contain: "PACKAGES", Status: 500}})
			}
			w.WriteCtl()
			for _, p := range dedup([]string{all, inst}) { // no run may happen to write what is there already
				if f, err := os.OpenFile(p, os.O_WRONLY|os.O_APPEND, 0); err == nil {
					fmt.Fprintf(f, "{\"level\":\"info\",\"msg\":\"before run %d\"}\n", k)
					f.Close()
				}
			}
			b0, i0 := read(all), read(inst)
			before := snapTree(w.P("proj"), false)
			out := w.PkgrOpt(opt, cmd...)
			sc.Ctl.VersionRC = 0
			step += fmt.Sprintf("%v (%s): exit %d %s\n", cmd, how, out.Exit, out.Signal)
			if out.Hang || out.Timeout {
				c.Incon("%sdid not finish", step)
				return
			}
			killed = out.Signal != ""
			if strings.Contains(out.Stderr, "fatal error:") && !killed {
				c.Fail(w, "C30/crash", "%s%s", step, tailStr(out.Stderr, 1000))
				return
			}
			b1, i1 := read(all), read(inst)
			target := all
			other, o0, o1 := inst, i0, i1
			if cmd[0] == "install" && inst != "" {
				target, other, o0, o1 = inst, all, b0, b1
			}
			both := len(cmd) > 1 && cmd[1] == "--install" && inst != "" && all != inst
			if other != "" && other != target && !both && !bytes.Equal(o0, o1) {
				c.Fail(w, "C30/other", "%sthe log file %s is not this command's, but it changed", step, other)
				return
			}
			gained := func(p string, old, now []byte) ([]string, bool) {
				add := now
				switch {
				case len(old) == 0:
				case !sc.LogOver || killed && bytes.HasPrefix(now, old):
					if !bytes.HasPrefix(now, old) {
						c.Fail(w, "C30/kept", "%searlier content of %s is not kept", step, p)
						return nil, false
					}
					add = now[len(old):]
				case bytes.HasPrefix(now, old) && len(now) > 0:
					c.Fail(w, "C30/overwrite", "%searlier content of %s is kept though overwrite is set", step, p)
					return nil, false
				}
				if len(add) > 0 && add[len(add)-1] != '\n' && !killed {
					c.Fail(w, "C30/torn", "%sthe last line of %s is incomplete", step, p)
					return nil, false
				}
				l, bad := records(string(add))
				if bad > 0 && !killed {
					c.Fail(w, "C30/torn", "%s%d lines of %s are no records:\n%s", step, bad, p, tailStr(string(add), 2000))
					return nil, false
				}
				return l, true
			}
			if target == "" && !both {
				if d := diffSnap(before, snapTree(w.P("proj"), false), 100); true {
					for _, e := range d {
						if strings.HasPrefix(e, "new: ") && !strings.HasPrefix(e, "new: lib") {
							c.Fail(w, "C30/none", "%sno log file is configured, but %s", step, e)
							return
						}
					}
				}
				continue
			}
			var file []string
			for _, p := range dedup([]string{target, map[bool]string{true: inst, false: target}[both]}) {
				if p == "" {
					continue
				}
				old, now := b0, b1
				if p == inst && p != all {
					old, now = i0, i1
				}
				l, ok := gained(p, old, now)
				if !ok {
					return
				}
				file = append(file, l...)
			}
			if text {
				n := 0
				for _, l := range strings.Split(out.Stdout, "\n") {
					if strings.HasPrefix(l, "time=\"") && strings.Contains(l, "\" level=") {
						n++
					}
				}
				if !killed && !both && (n < len(file) || n > len(file)+2) {
					c.Fail(w, "C30/records", "%s%d records on the console, %d in the file", step, n, len(file))
					return
				}
			} else {
				con, _ := records(out.Stdout)
				pre := 0
				if lvl == "trace" {
					pre = 4 // before the configuration is read
				}
				if both { // the records of the installation are in both files
					con = dedup(con)
					file = dedup(file)
					pre = len(con) // sorted: only the trace records may be missing
					if lvl == "trace" {
						pre = 0
						c0 := con[:0]
						for _, r := range con {
							if !strings.Contains(r, `"level":"trace"`) {
								c0 = append(c0, r)
							}
						}
						f0 := file[:0]
						for _, r := range file {
							if !strings.Contains(r, `"level":"trace"`) {
								f0 = append(f0, r)
							}
						}
						con, file = c0, f0
					} else {
						pre = 0
					}
				}
				if both && all == "" { // what add itself logs has no file
					pre = len(con)
				}
				if bad := checkLog(con, file, pre, killed); len(bad) > 0 {
					c.Fail(w, "C30/records", "%s%s\n%s", step, target, strings.Join(bad, "\n"))
					return
				}
			}
			c.Count("records", len(file))
			c.Count("runs", 1)
			c.Max("records_of_a_run", len(file))
			c.Distinct(strings.Join(cmd, " ") + how + fmt.Sprint(sc.LogOver, sc.LogInstall != "", len(file)))
		}
	})
	// several runs write the same file
	x.Cases("shared", x.N(15, 150), 3, func(c *Case) {
		sc, pl := gen(c)
		sc.LogAll, sc.LogInstall, sc.LogOver = "log.txt", "", false
		sc.NoLib, sc.Pre, sc.PreFiles, sc.Ctl.Chatter = true, nil, nil, map[string]int{}
		for n := range pl.Nodes {
			sc.Ctl.Chatter[n+"/src"], sc.Ctl.Chatter[n+"/bin"] = c.R.Intn(30), c.R.Intn(30)
		}
		w := c.World(sc)
		n := 2 + c.R.Intn(4)
		outs := make([]*RunOut, n)
		var wg sync.WaitGroup
		var cmds [][]string
		for i := 0; i < n; i++ {
			cmds = append(cmds, pick(c.R, [][]string{{"install"}, {"install"}, {"plan"}, {"inspect", "--deps"}, {"clean", "cache"}}))
		}
		for i := 0; i < n; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				outs[i] = w.PkgrOpt(RunOpt{NoEv: true}, append(cmds[i], "--logjson", "--loglevel", "trace", "--library", w.P(fmt.Sprintf("proj/lib%d", i)))...)
			}()
		}
		wg.Wait()
		var con []string
		for i := range outs {
			if outs[i].Hang || outs[i].Timeout || outs[i].Signal != "" {
				c.Incon("%v did not finish", cmds[i])
				return
			}
			l, _ := records(outs[i].Stdout)
			if len(l) > 4 { // the first ones may precede the configuration
				l = l[4:]
			}
			con = append(con, l...)
		}
		b, _ := os.ReadFile(w.P("proj/log.txt"))
		file, bad := records(string(b))
		if bad > 0 {
			c.Fail(w, "C30/torn", "%v at once: %d lines of the log file are no records:\n%s", cmds, bad, tailStr(string(b), 1500))
			return
		}
		if bad := checkLog(con, file, 0, true); len(bad) > 0 {
			c.Fail(w, "C30/shared", "%v at once:\n%s", cmds, strings.Join(bad, "\n"))
			return
		}
		c.Count("shared_records", len(file))
		c.Distinct(fmt.Sprint(cmds, len(file)))
	})
}
