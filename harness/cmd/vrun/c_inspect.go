package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"vh/proto"
)

func init() {
	checks["C22"] = &Check{Fn: c22, Rule: "inspect --deps as JSON, reversed, as tree and for named packages on generated dependency graphs (chains, diamonds, several repositories, suggested, ignored and recommended packages, tarballs), with and without a library; the relation compared with the reference closure; non-trivial: every report with at least one relation; distinct by graph and selection"}
}

// parseTree reads treeprint's output into edges path -> children.
func parseTree(s string) (map[string][]string, error) {
	t := map[string][]string{}
	var path []string
	for i, l := range strings.Split(strings.TrimRight(s, "\n"), "\n") {
		l = strings.ReplaceAll(l, "\u00a0", " ")
		if i == 0 {
			if l != "." {
				return nil, fmt.Errorf("the tree starts with %q", l)
			}
			t[""] = nil
			continue
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		k := strings.Index(l, "── ")
		if k < 0 {
			return nil, fmt.Errorf("no tree line: %q", l)
		}
		name := strings.TrimSpace(l[k+len("── "):])
		depth := (len([]rune(l[:k])) - 1) / 4
		if depth > len(path) {
			return nil, fmt.Errorf("tree line too deep: %q", l)
		}
		path = append(path[:depth], name)
		p := strings.Join(path[:depth], "/")
		t[p] = append(t[p], name)
		t[strings.Join(path, "/")] = nil
	}
	return t, nil
}

func jsonTail(s string) string {
	if i := strings.Index(s, "\n{"); i >= 0 && !strings.HasPrefix(s, "{") {
		return s[i+1:]
	}
	return s
}

func relOf(pl *Plan) map[string]map[string]bool {
	r := map[string]map[string]bool{}
	for p := range pl.Nodes {
		if len(pl.Need[p]) > 0 {
			r[p] = pl.Need[p]
		}
	}
	return r
}

func invert(r map[string]map[string]bool) map[string]map[string]bool {
	o := map[string]map[string]bool{}
	for p, ds := range r {
		for d := range ds {
			if o[d] == nil {
				o[d] = map[string]bool{}
			}
			o[d][p] = true
		}
	}
	return o
}

// checkRel compares a reported relation with the expected one, limited to sel (nil: everything).
func checkRel(got map[string][]string, want map[string]map[string]bool, sel []string) []string {
	var bad []string
	in := map[string]bool{}
	for _, s := range sel {
		in[s] = true
	}
	for p, l := range got {
		if sel != nil && !in[p] {
			bad = append(bad, p+" is reported though not asked for")
			continue
		}
		seen := map[string]bool{}
		for _, d := range l {
			if seen[d] {
				bad = append(bad, fmt.Sprintf("%s is listed twice for %s", d, p))
			}
			seen[d] = true
			if !want[p][d] {
				bad = append(bad, fmt.Sprintf("%s is listed for %s without reason", d, p))
			}
		}
	}
	for p, ds := range want {
		if sel != nil && !in[p] {
			continue
		}
		has := map[string]bool{}
		for _, d := range got[p] {
			has[d] = true
		}
		for d := range ds {
			if !has[d] {
				bad = append(bad, fmt.Sprintf("%s is not listed for %s", d, p))
			}
		}
	}
	sort.Strings(bad)
	return bad
}

func c22(x *Ctx) {
	x.Cases("inspect", x.N(400, 5000), 8, func(c *Case) {
		var sc *Scenario
		var pl *Plan
		small := c.R.Intn(3) == 0
		for {
			o := GenOpt{MinP: 3, MaxP: 25, Repos: 3, Bin: true, Pre: 0.3, Other: 2, Tar: 2, Desc: 2, Sugg: true, Rec: true, Ghost: true, Ignore: true, Pin: true, NoLib: 0.5, Deep: c.R.Intn(2) == 0}
			if small {
				o.MaxP = 9
			}
			sc = Gen(c.R, o)
			if pl = sc.Plan(); !pl.Cyclic && len(pl.Missing) == 0 {
				break
			}
		}
		w := c.World(sc)
		rel := relOf(pl)
		inv := invert(rel)
		run := func(args ...string) (string, bool) {
			out := w.Pkgr(args...)
			if out.Hang || out.Timeout {
				c.Incon("inspect did not finish")
				return "", false
			}
			if out.Exit != 0 || out.Signal != "" {
				c.Fail(w, "C22/exit", "%v failed: exit %d\n%s", args, out.Exit, tailStr(out.Stdout+out.Stderr, 1500))
				return "", false
			}
			return out.Stdout, true
		}
		report := func(want map[string]map[string]bool, sel []string, args ...string) bool {
			s, ok := run(args...)
			if !ok {
				return false
			}
			var got map[string][]string
			if err := json.Unmarshal([]byte(jsonTail(s)), &got); err != nil {
				c.Fail(w, "C22/json", "%v does not print a JSON object: %v\n%s", args, err, tailStr(s, 1500))
				return false
			}
			if bad := checkRel(got, want, sel); len(bad) > 0 {
				c.Fail(w, "C22/relation", "%v: %s\nreported:\n%s", args, strings.Join(bad, "\n"), tailStr(s, 3000))
				return false
			}
			n := 0
			for _, l := range got {
				n += len(l)
			}
			c.Count("relations", n)
			c.Count("reports", 1)
			c.Max("plan_size", len(pl.Nodes))
			if n > 0 {
				c.Distinct(planSig(pl) + fmt.Sprint(args[1:], sel))
			}
			return true
		}
		quiet := pick(c.R, [][]string{{"--loglevel=fatal"}, {"--json"}, {"--loglevel", "fatal", "--json"}})
		if !report(rel, nil, append([]string{"inspect", "--deps"}, quiet...)...) {
			return
		}
		if !report(inv, nil, append([]string{"inspect", "--deps", "--reverse"}, quiet...)...) {
			return
		}
		nodes := proto.SortedKeys(pl.Nodes)
		if len(nodes) == 0 {
			return
		}
		for i := 0; i < 2; i++ {
			sel := []string{}
			for j := 0; j < 1+c.R.Intn(4); j++ {
				sel = append(sel, pick(c.R, nodes))
			}
			if c.R.Intn(5) == 0 {
				sel = append(sel, pick(c.R, []string{"nosuchpkg", "stats", nodes[0] + "x"}))
			}
			want, args := rel, []string{"inspect", "--deps"}
			if c.R.Intn(2) == 0 {
				want, args = inv, append(args, "--reverse")
			}
			for _, s := range sel {
				if pl.Nodes[s] == nil { // must be reported without dependencies, or not at all
					want = map[string]map[string]bool{}
					for k, v := range map[bool]map[string]map[string]bool{true: rel, false: inv}[len(args) == 2] {
						want[k] = v
					}
					delete(want, s)
				}
			}
			if !report(want, sel, append(append(args, quiet...), sel...)...) {
				return
			}
		}
		// the tree repeats the relation at every level, so it grows quickly
		size := map[string]int{}
		var count func(p string) int
		count = func(p string) int {
			if n := size[p]; n > 0 {
				return n
			}
			n := 1
			for d := range pl.Need[p] {
				n += count(d)
			}
			size[p] = n
			return n
		}
		tot := 0
		for p := range pl.Nodes {
			tot += count(p)
		}
		if tot > 3000 {
			return
		}
		sel := []string(nil)
		if c.R.Intn(2) == 0 {
			for j := 0; j < 1+c.R.Intn(3); j++ {
				sel = append(sel, pick(c.R, nodes))
			}
			sel = dedup(sel)
		}
		s, ok := run(append([]string{"inspect", "--deps", "--tree", "--loglevel=fatal"}, sel...)...)
		if !ok {
			return
		}
		t, err := parseTree(s)
		if err != nil {
			c.Fail(w, "C22/tree", "%v\n%s", err, tailStr(s, 1500))
			return
		}
		top := map[string]bool{}
		for _, p := range t[""] {
			if top[p] {
				c.Fail(w, "C22/tree", "%s is twice at the top of the tree\n%s", p, tailStr(s, 2000))
				return
			}
			top[p] = true
		}
		for p := range rel {
			if !top[p] && (sel == nil || contains(sel, p)) {
				c.Fail(w, "C22/tree", "%s has dependencies but is not at the top of the tree\n%s", p, tailStr(s, 2000))
				return
			}
		}
		for path, ch := range t {
			if path == "" {
				for p := range top {
					if pl.Nodes[p] == nil || sel != nil && !contains(sel, p) {
						c.Fail(w, "C22/tree", "%s is at the top of the tree without reason (%v)\n%s", p, sel, tailStr(s, 2000))
						return
					}
				}
				continue
			}
			name := path[strings.LastIndex(path, "/")+1:]
			if bad := checkRel(map[string][]string{name: ch}, rel, []string{name}); len(bad) > 0 {
				// a tree of direct dependencies shows the same relation
				under := map[string]bool{}
				for q := range t {
					if strings.HasPrefix(q, path+"/") {
						under[q[strings.LastIndex(q, "/")+1:]] = true
					}
				}
				same := len(under) == len(rel[name])
				for d := range under {
					same = same && rel[name][d]
				}
				if !same {
					c.Fail(w, "C22/tree", "below %s: %s\n%s", path, strings.Join(bad, "\n"), tailStr(s, 2000))
					return
				}
			}
			c.Count("tree_nodes", 1)
		}
		c.Count("trees", 1)
	})
}

func contains(l []string, s string) bool {
	for _, e := range l {
		if e == s {
			return true
		}
	}
	return false
}
