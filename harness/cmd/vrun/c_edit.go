package main

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strings"

	"gopkg.in/yaml.v3"
)

func init() {
	checks["C20"] = &Check{Fn: c20, Rule: "sequences of add and remove commands on generated configuration layouts (block and flow lists, indentations, comments, quoting, blank lines, line ends, missing or empty lists, look-alike keys and text elsewhere); the parsed file and its lines compared before and after each; non-trivial: every command; distinct by layout, command and list"}
}

type ymlDoc struct {
	pkgs  []string
	has   bool
	other map[string]any
	keys  []string
}

func parseYml(b []byte) (*ymlDoc, error) {
	var n yaml.Node
	if err := yaml.Unmarshal(b, &n); err != nil {
		return nil, err
	}
	d := &ymlDoc{other: map[string]any{}}
	if len(n.Content) == 0 {
		return d, nil
	}
	m := n.Content[0]
	if m.Kind != yaml.MappingNode {
		return nil, fmt.Errorf("not a mapping")
	}
	for i := 0; i+1 < len(m.Content); i += 2 {
		k, v := m.Content[i], m.Content[i+1]
		if strings.EqualFold(k.Value, "packages") {
			if d.has {
				return nil, fmt.Errorf("two lists of packages")
			}
			d.has = true
			if v.Kind == yaml.ScalarNode && v.Tag == "!!null" {
				continue
			}
			if v.Kind != yaml.SequenceNode {
				return nil, fmt.Errorf("Packages is no list but %q", v.Value)
			}
			for _, e := range v.Content {
				if e.Kind != yaml.ScalarNode {
					return nil, fmt.Errorf("an entry of Packages is no name")
				}
				d.pkgs = append(d.pkgs, e.Value)
			}
			continue
		}
		var x any
		if err := v.Decode(&x); err != nil {
			return nil, err
		}
		if _, ok := d.other[k.Value]; ok {
			return nil, fmt.Errorf("two keys %s", k.Value)
		}
		d.other[k.Value] = x
		d.keys = append(d.keys, k.Value)
	}
	return d, nil
}

func ymlLines(s string) []string {
	return strings.Split(strings.TrimSuffix(s, "\n"), "\n")
}

// subseq reports the first line of a that is not found, in order, in b, and the lines of b beside them.
func subseq(a, b []string) (missing string, ok bool, extra []string) {
	j := 0
	for _, l := range a {
		for j < len(b) && b[j] != l {
			extra = append(extra, b[j])
			j++
		}
		if j == len(b) {
			return l, false, nil
		}
		j++
	}
	return "", true, append(extra, b[j:]...)
}

var reComment = regexp.MustCompile(`(^|\s)#.*$`)

// ymlLayout is a generated configuration.
type ymlLayout struct {
	text string
	kind string
	flow bool
}

// genYml writes a configuration with the given packages.
func genYml(c *Case, w *World, listed, pool []string) ymlLayout {
	q := func(s string) string {
		switch c.R.Intn(8) {
		case 0:
			return `"` + s + `"`
		case 1:
			return "'" + s + "'"
		}
		return s
	}
	key := pick(c.R, []string{"Packages:", "Packages:", "Packages:", "Packages:", "packages:", "PACKAGES:", `"Packages":`, "'Packages':", "Packages :"})
	var b strings.Builder
	l := ymlLayout{}
	tail := func() string {
		switch c.R.Intn(10) {
		case 0:
			return " # " + pick(c.R, append([]string{"why", "- not", "Packages:", "ünïcöde", "it's"}, pool...))
		case 1:
			return pick(c.R, []string{" ", "\t", "   "})
		}
		return ""
	}
	between := func(ind string) {
		for c.R.Intn(7) == 0 {
			b.WriteString(pick(c.R, []string{"\n", ind + "# " + pick(c.R, pool) + "\n", "# - " + pick(c.R, pool) + "\n", ind + "  # Packages:\n", ind + "#- " + pick(c.R, pool) + "\n"}))
		}
	}
	kinds := []string{"block", "block", "block", "block", "flow", "flow", "multiflow"}
	if len(listed) == 0 {
		kinds = []string{"missing", "missing", "empty", "null", "tilde", "brackets", "multibrackets"}
	}
	l.kind = pick(c.R, kinds)
	switch l.kind {
	case "block":
		ind := strings.Repeat(" ", c.R.Intn(6))
		dash := "-" + strings.Repeat(" ", 1+c.R.Intn(3)*c.R.Intn(2))
		b.WriteString(key + tail() + "\n")
		for _, p := range listed {
			between(ind)
			b.WriteString(ind + dash + q(p) + tail() + "\n")
		}
		between(ind)
		l.kind += ind + dash
	case "flow":
		l.flow = true
		sep := pick(c.R, []string{", ", ",", " , ", ",  "})
		pad := pick(c.R, []string{"", "", " ", "  "})
		var s []string
		for _, p := range listed {
			s = append(s, q(p))
		}
		t := ""
		if c.R.Intn(6) == 0 {
			t = ","
		}
		b.WriteString(key + " [" + pad + strings.Join(s, sep) + t + pad + "]" + tail() + "\n")
	case "multiflow":
		l.flow = true
		ind := strings.Repeat(" ", 1+c.R.Intn(6))
		b.WriteString(key + " [")
		if c.R.Intn(2) == 0 {
			b.WriteString("\n" + ind)
		}
		for i, p := range listed {
			b.WriteString(q(p))
			if i+1 < len(listed) || c.R.Intn(4) == 0 {
				b.WriteString(",")
			}
			switch {
			case c.R.Intn(5) == 0:
				b.WriteString(" # " + pick(c.R, pool) + "\n" + ind)
			case c.R.Intn(3) > 0:
				b.WriteString("\n" + ind)
			default:
				b.WriteString(" ")
			}
		}
		b.WriteString("]" + tail() + "\n")
	case "empty":
		b.WriteString(key + tail() + "\n")
		between("  ")
	case "null":
		b.WriteString(key + " null" + tail() + "\n")
	case "tilde":
		b.WriteString(key + " ~" + tail() + "\n")
	case "brackets":
		l.flow = true
		b.WriteString(key + pick(c.R, []string{" []", " [ ]"}) + tail() + "\n")
	case "multibrackets":
		l.flow = true
		b.WriteString(key + " [\n  ]" + tail() + "\n")
	}
	p := func() string { return pick(c.R, pool) }
	var cust []string
	for _, n := range dedup([]string{p(), p()}) {
		cust = append(cust, fmt.Sprintf("  - %s:\n      Suggests: %s\n      Env:\n        LST: |\n          Packages:\n          - %s\n          - %s\n", n, pick(c.R, []string{"true", "false"}), n, p()))
	}
	var repos []string
	for i := range w.Sc.Repos {
		repos = append(repos, fmt.Sprintf("  - %s: %s\n", w.Sc.Repos[i].Name, yq(w.RepoURL(&w.Sc.Repos[i]))))
	}
	blocks := []string{
		"Version: 1" + tail() + "\n",
		"Repos:\n" + strings.Join(repos, ""),
		"Library: " + yq(w.Lib()) + tail() + "\n",
		"Cache: " + yq(w.CacheDir()) + "\n",
	}
	opt := []string{
		"Threads: 2\n", "Suggests: false" + tail() + "\n",
		"Customizations:\n  Packages:\n" + strings.TrimSuffix("  "+strings.ReplaceAll(strings.Join(cust, ""), "\n", "\n  "), "  "),
		"Customizations:\n  Packages:\n" + strings.Join(cust, ""),
		"IgnorePackages:\n- zzz." + p() + "\n- " + "zz.y\n",
		"Logging:\n  level: debug\n",
		"Unknown: { Packages: [" + p() + "], a: [1, 2] }\n",
		"Note: |\n  Packages:\n    - " + p() + "\n\n  more\n",
		"Note: >\n   folded " + p() + "\n   - " + p() + "\n",
		"PackagesNote: " + p() + "\n", "MyPackages:\n  - " + p() + "\n  - " + p() + "\n",
		"Text: \"Packages: [a]\"\n",
		"Ünï: wörld # Packages:\n",
	}
	seen := map[string]bool{}
	for i := 0; i < c.R.Intn(6); i++ {
		o := pick(c.R, opt)
		if k := o[:strings.IndexByte(o, ':')]; !seen[k] {
			seen[k] = true
			blocks = append(blocks, o)
		}
	}
	if l.kind != "missing" {
		blocks = append(blocks, b.String())
	}
	blocks = shuffle(c.R, blocks)
	var out strings.Builder
	if c.R.Intn(5) == 0 {
		out.WriteString("---\n")
		l.kind += "+doc"
	}
	for _, bl := range blocks {
		for c.R.Intn(4) == 0 {
			out.WriteString(pick(c.R, []string{"\n", "\n\n", "# a comment\n", "# Packages:\n", "#Packages:\n# - " + p() + "\n"}))
		}
		out.WriteString(bl)
	}
	l.text = out.String()
	if !strings.HasSuffix(l.text, "\n  more\n") { // block scalars keep their last line end
		switch c.R.Intn(8) {
		case 0:
			l.text = strings.TrimRight(l.text, "\n")
			l.kind += "+noeol"
		case 1:
			l.text += pick(c.R, []string{"\n", "\n\n", "# end\n"})
			l.kind += "+eol"
		case 2:
			l.text = strings.ReplaceAll(l.text, "\n", "\r\n")
			l.kind += "+crlf"
		}
	}
	return l
}

// flowSpan returns the first and last line (from 0) of the list of packages and whether it is a flow list.
func flowSpan(b []byte) (int, int, bool) {
	var n yaml.Node
	if yaml.Unmarshal(b, &n) != nil || len(n.Content) == 0 {
		return 0, 0, false
	}
	m := n.Content[0]
	for i := 0; i+1 < len(m.Content); i += 2 {
		k, v := m.Content[i], m.Content[i+1]
		if !strings.EqualFold(k.Value, "packages") {
			continue
		}
		if v.Kind == yaml.SequenceNode && v.Style&yaml.FlowStyle != 0 {
			last := v.Line
			for _, e := range v.Content {
				last = max(last, e.Line)
			}
			ls := strings.Split(string(b), "\n")
			for last-1 < len(ls) && !strings.Contains(reComment.ReplaceAllString(ls[last-1], ""), "]") {
				last++
			}
			return k.Line - 1, min(last, len(ls)) - 1, true
		}
		if v.Kind == yaml.ScalarNode && v.Value != "" {
			return k.Line - 1, v.Line - 1, true
		}
	}
	return 0, 0, false
}

// checkEdit compares the files before and after one command.
func checkEdit(before, after []byte, cmd string, args []string) []string {
	if string(before) == string(after) {
		after = before
	}
	full := func(b []byte) []byte { // a file without a last line end may get one
		if !strings.HasSuffix(string(b), "\n") {
			return append(append([]byte{}, b...), '\n')
		}
		return b
	}
	d0, err := parseYml(full(before))
	if err != nil {
		return []string{"harness: " + err.Error()}
	}
	d1, err := parseYml(full(after))
	if err != nil {
		return []string{"the file is not valid any more: " + err.Error()}
	}
	var bad []string
	f := func(s string, a ...any) { bad = append(bad, fmt.Sprintf(s, a...)) }
	if !reflect.DeepEqual(d0.other, d1.other) || !reflect.DeepEqual(d0.keys, d1.keys) {
		f("other settings changed: %v %v, now %v %v", d0.keys, d0.other, d1.keys, d1.other)
	}
	had, named := map[string]bool{}, map[string]bool{}
	for _, p := range d0.pkgs {
		had[p] = true
	}
	var change []string
	for _, a := range args {
		if !named[a] && had[a] == (cmd == "remove") {
			change = append(change, a)
		}
		named[a] = true
	}
	if len(change) == 0 {
		if string(before) != string(after) {
			f("%s %v changes nothing in the list, but the file changed", cmd, args)
		}
		return bad
	}
	if cmd == "add" {
		// the former entries, in their order, and each new one once
		_, ok, extra := subseq(d0.pkgs, d1.pkgs)
		if !ok || len(extra) != len(change) || !reflect.DeepEqual(dedup(append([]string{}, extra...)), dedup(append([]string{}, change...))) {
			a, b := map[string]int{}, map[string]int{}
			for _, e := range extra {
				a[e]++
			}
			for _, e := range change {
				b[e]++
			}
			if !ok || !reflect.DeepEqual(a, b) {
				f("the list was %q, after add %v it is %q", d0.pkgs, args, d1.pkgs)
			}
		}
	} else {
		var want []string
		for _, p := range d0.pkgs {
			if !named[p] {
				want = append(want, p)
			}
		}
		if len(want) != len(d1.pkgs) || len(want) > 0 && !reflect.DeepEqual(want, d1.pkgs) {
			f("the list was %q, after remove %v it is %q", d0.pkgs, args, d1.pkgs)
		}
	}
	// lines
	b0, b1 := ymlLines(string(before)), ymlLines(string(after))
	if x, y, ok := flowSpan(before); ok {
		// outside the lines of the list nothing changes
		tail := len(b0) - 1 - y
		if tail < 0 {
			tail = 0
		}
		if len(b1) < x+tail {
			f("lines were lost")
			return bad
		}
		if !reflect.DeepEqual(b0[:x], b1[:x]) {
			f("lines before the list changed")
		}
		if tail > 0 && !reflect.DeepEqual(b0[y+1:], b1[len(b1)-tail:]) {
			f("lines after the list changed")
		}
		for _, l := range b0[x : y+1] {
			if k := strings.TrimSpace(reComment.FindString(l)); k != "" && !strings.Contains(strings.Join(b1, "\n"), k) {
				f("the comment %q is gone", k)
			}
		}
		return bad
	}
	if cmd == "add" {
		m, ok, extra := subseq(b0, b1)
		if !ok {
			f("the line %q is gone or changed", m)
			return bad
		}
		for _, l := range extra {
			t := strings.Trim(strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(l), "-")), `"'`)
			if t != "" && !(t == "Packages:" && !d0.has) && !(named[t] && strings.HasPrefix(strings.TrimSpace(l), "-")) {
				f("a line %q was added", l)
			}
		}
	} else {
		m, ok, extra := subseq(b1, b0)
		if !ok {
			f("the line %q is new", m)
			return bad
		}
		for _, l := range extra {
			t := strings.TrimSpace(reComment.ReplaceAllString(l, ""))
			t = strings.Trim(strings.TrimSpace(strings.TrimPrefix(t, "-")), `"'`)
			if !named[t] || !strings.HasPrefix(strings.TrimSpace(l), "-") {
				f("the line %q was removed", l)
			}
		}
	}
	return bad
}

func c20(x *Ctx) {
	x.Cases("edits", x.N(1500, 20000), 8, func(c *Case) {
		var sc *Scenario
		for {
			sc = Gen(c.R, GenOpt{MinP: 3, MaxP: 9, Repos: 1, NoLib: 1})
			if pl := sc.Plan(); !pl.Cyclic && len(pl.Missing) == 0 {
				break
			}
		}
		w := c.World(sc)
		var names []string
		for _, p := range sc.Repos[0].Src {
			names = append(names, p.Name)
		}
		// names that are part of each other
		pool := append([]string{}, names...)
		for _, n := range names[:2] {
			pool = append(pool, n+"2", "r"+n, n+".x")
		}
		pool = dedup(append(pool, "R6", "ab", "a.b", "dplyr", "dtplyr", "dplyr.extra", "Packages1"))
		var listed []string
		for _, p := range shuffle(c.R, append([]string{}, pool...)) {
			if c.R.Intn(3) == 0 {
				listed = append(listed, p)
			}
		}
		if c.R.Intn(8) == 0 {
			listed = nil
		}
		if len(listed) > 1 && c.R.Intn(10) == 0 {
			listed = append(listed, listed[0])
		}
		lay := genYml(c, w, listed, pool)
		if d, err := parseYml([]byte(lay.text)); err != nil || len(d.pkgs) != len(listed) {
			c.Incon("the harness wrote a bad file: %v\n%s", err, lay.text)
			return
		}
		sc.RawYml = lay.text
		w.WriteYml()
		yml := w.P("proj/pkgr.yml")
		cwd, flag, link := w.P("proj"), []string(nil), false
		switch c.R.Intn(6) {
		case 0: // another name
			to := w.P("proj/my conf.yml")
			must(os.Rename(yml, to))
			yml = to
			flag = []string{"--config", pick(c.R, []string{"my conf.yml", to})}
		case 1: // from elsewhere
			cwd, flag = w.P("tmp"), []string{"--config", pick(c.R, []string{"../proj/pkgr.yml", yml})}
		case 2: // symbolic link
			to := w.P("home/real.yml")
			must(os.Rename(yml, to))
			must(os.Symlink(to, yml))
			link = true
		}
		w.Own()
		mode := os.FileMode(0644)
		if c.R.Intn(4) == 0 {
			mode = pick(c.R, []os.FileMode{0600, 0664, 0640})
			must(os.Chmod(yml, mode))
		}
		trail := lay.kind + "\n"
		for i := 0; i < 1+c.R.Intn(4); i++ {
			before, err := os.ReadFile(yml)
			must(err)
			rest := snapTree(w.P("proj"), true)
			cmd := pick(c.R, []string{"add", "remove"})
			cur, _ := parseYml(before)
			var args []string
			for j := 0; j < 1+c.R.Intn(3); j++ {
				if len(cur.pkgs) > 0 && c.R.Intn(2) == 0 == (cmd == "remove") {
					args = append(args, pick(c.R, cur.pkgs))
				} else {
					args = append(args, pick(c.R, pool))
				}
			}
			if cmd == "remove" && c.R.Intn(8) == 0 {
				args = append([]string{}, cur.pkgs...)
				if len(args) == 0 {
					args = []string{pick(c.R, pool)}
				}
			}
			full := append([]string{cmd}, args...)
			pos := c.R.Intn(3)
			if pos == 0 {
				full = append(append([]string{}, flag...), full...)
			} else {
				full = append(full, flag...)
			}
			ro := len(flag) == 0 && !link && c.R.Intn(15) == 0
			if ro {
				must(os.Chmod(yml, 0444))
			}
			out := w.PkgrOpt(RunOpt{Cwd: cwd}, full...)
			trail += fmt.Sprintf("%v: exit %d\n", full, out.Exit)
			after, err := os.ReadFile(yml)
			if err != nil {
				c.Fail(w, "C20/file", "%sthe configuration is gone: %v", trail, err)
				return
			}
			if out.Hang || out.Timeout || out.Signal != "" {
				c.Incon("%sdid not finish", trail)
				return
			}
			if ro {
				must(os.Chmod(yml, mode))
				if string(before) != string(after) {
					c.Fail(w, "C20/readonly", "%sthe write-protected file changed", trail)
				}
				continue
			}
			if out.Exit != 0 || strings.Contains(out.Stderr, "panic:") {
				c.Fail(w, "C20/exit", "%sfailed:\n%s\n%s\nthe file:\n%s", trail, tailStr(out.Stdout, 500), tailStr(out.Stderr, 800), before)
				return
			}
			if bad := checkEdit(before, after, cmd, args); len(bad) > 0 {
				c.Fail(w, "C20/edit", "%s%s\nbefore:\n%s\nafter:\n%s", trail, strings.Join(bad, "\n"), before, after)
				return
			}
			fi, err := os.Lstat(yml)
			must(err)
			if link != (fi.Mode()&os.ModeSymlink != 0) {
				c.Fail(w, "C20/file", "%sthe configuration file was a symbolic link: %v, now it is %v", trail, link, fi.Mode())
				return
			}
			if fi, err := os.Stat(yml); err != nil || fi.Mode().Perm() != mode {
				c.Fail(w, "C20/file", "%sthe configuration file had mode %v, now %v", trail, mode, fi.Mode())
				return
			}
			now := snapTree(w.P("proj"), true)
			k := filepath.Base(yml)
			delete(rest, k)
			delete(now, k)
			if d := diffSnap(rest, now, 5); len(d) > 0 {
				c.Fail(w, "C20/else", "%schanged something else in the project: %v", trail, d)
				return
			}
			c.Count("commands", 1)
			if string(before) != string(after) {
				c.Count("edits", 1)
			}
			c.Distinct(cmd + lay.kind + fmt.Sprint(len(args), len(cur.pkgs), len(before)))
		}
	})
	// what pkgr itself makes of the edited file
	x.Cases("install", x.N(60, 600), 8, func(c *Case) {
		var sc *Scenario
		for {
			sc = Gen(c.R, GenOpt{MinP: 4, MaxP: 9, Repos: 1, NoLib: 1})
			if pl := sc.Plan(); !pl.Cyclic && len(pl.Missing) == 0 && len(sc.Packages) > 0 {
				break
			}
		}
		sc.Suggests, sc.Strict = false, false
		w := c.World(sc)
		var names, listed []string
		for _, p := range sc.Repos[0].Src {
			names = append(names, p.Name)
		}
		names = shuffle(c.R, names)
		listed = names[:c.R.Intn(3)]
		lay := genYml(c, w, listed, names)
		if strings.Contains(lay.text, "Customizations") || strings.Contains(lay.text, "nore") {
			c.Drop(w)
			return
		}
		sc.RawYml = lay.text
		w.WriteYml()
		add := pick(c.R, names)
		full := []string{"add", "--install", add}
		sc2 := *sc
		sc2.Packages = dedup(append(append([]string{}, listed...), add))
		if c.R.Intn(3) == 0 && len(listed) > 0 {
			w.Pkgr("remove", listed[0])
			if listed[0] != add {
				sc2.Packages = dedup(append(append([]string{}, listed[1:]...), add))
			}
		}
		opt := RunOpt{}
		switch c.R.Intn(4) {
		case 0:
			opt.Cwd = w.Dir
			full = append(full, "--config", pick(c.R, []string{"proj/pkgr.yml", "./proj/pkgr.yml", "proj/../proj/pkgr.yml"}))
		case 1:
			opt.Cwd = w.P("home")
			full = append([]string{"--config=" + pick(c.R, []string{"../proj/pkgr.yml", w.P("proj/pkgr.yml")})}, full...)
		}
		out := w.PkgrOpt(opt, full...)
		if !c.finished(w, out, "C20/") {
			return
		}
		pl := sc2.Plan()
		if pl.Cyclic || len(pl.Missing) > 0 {
			c.Drop(w)
			return
		}
		if bad := w.checkLib(sc2.Expect(pl, nil, false), Snap{}); len(bad) > 0 {
			c.Fail(w, "C20/install", "%v with\n%s\ngives\n%s\nand a library that is not the plan's:\n%s\n%s", full, lay.text, must1(os.ReadFile(w.P("proj/pkgr.yml"))), strings.Join(bad, "\n"), tailStr(out.Stderr+out.Stdout, 1500))
			return
		}
		c.Count("add_installs", 1)
		c.Distinct("install" + lay.kind + fmt.Sprint(len(listed)))
	})
}

func must1[T any](v T, err error) T {
	must(err)
	return v
}
