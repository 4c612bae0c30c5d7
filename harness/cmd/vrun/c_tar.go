package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"crypto/md5"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"vh/proto"
)

func init() {
	checks["C15"] = &Check{Fn: c15, Rule: "installs of generated tarballs and DESCRIPTION files with dependencies in every field, over libraries with older, equal and newer versions, repeated, with changed tarballs and with failing ones, also with the real R; non-trivial: at least one tarball or DESCRIPTION file; distinct by plan, tarballs and history"}
	checks["C16"] = &Check{Fn: c16, Level: "fault_enumeration", Rule: "tarballs with generated faithful content in every supported compression, with one hostile entry of every kind at a random place, truncated or damaged at a random byte, changed under the same name, and extractions killed at a file system event; non-trivial: every case; distinct by kind and content"}
}

type tent struct {
	h    tar.Header
	data []byte
}

// rawTar writes entries as they are.
func rawTar(es []tent) []byte {
	var buf bytes.Buffer
	t := tar.NewWriter(&buf)
	for _, e := range es {
		h := e.h
		if h.Typeflag == 0 {
			h.Typeflag = tar.TypeReg
		}
		if h.Typeflag == tar.TypeReg {
			h.Size = int64(len(e.data))
		}
		h.ModTime = time.Unix(1700000000, 0)
		must(t.WriteHeader(&h))
		if h.Typeflag == tar.TypeReg {
			t.Write(e.data)
		}
	}
	t.Close()
	return buf.Bytes()
}

func gz(b []byte) []byte {
	var buf bytes.Buffer
	g := gzip.NewWriter(&buf)
	g.Write(b)
	g.Close()
	return buf.Bytes()
}

func compress(b []byte, how string) []byte {
	if how == "gz" {
		return gz(b)
	}
	cmd := exec.Command(map[string]string{"xz": "/usr/bin/xz", "bz2": "/usr/bin/bzip2", "zst": "/usr/bin/zstd"}[how], "-c")
	cmd.Stdin = bytes.NewReader(b)
	o, err := cmd.Output()
	must(err)
	return o
}

// wantTree is what extracting the regular files and directories of es gives.
func wantTree(es []tent) map[string]string {
	m := map[string]string{}
	parents := func(n string) {
		for d := filepath.Dir(n); d != "."; d = filepath.Dir(d) {
			m[d] = "dir"
		}
	}
	for _, e := range es {
		n := filepath.Clean(strings.TrimSuffix(e.h.Name, "/"))
		if n == "." {
			continue
		}
		parents(n)
		if e.h.Typeflag == tar.TypeDir {
			m[n] = "dir"
		} else {
			x := ""
			if e.h.Mode&0100 != 0 {
				x = " x"
			}
			m[n] = fmt.Sprintf("%x %d%s", md5.Sum(e.data), len(e.data), x)
		}
	}
	return m
}

// goodEntries makes the content of a package called name.
func goodEntries(c *Case, name, payload string, k int) []tent {
	f := func(n string, mode int64, d string) tent {
		return tent{tar.Header{Name: name + "/" + n, Mode: mode}, []byte(d)}
	}
	d := func(n string) tent {
		return tent{tar.Header{Name: name + "/" + n, Mode: 0755, Typeflag: tar.TypeDir}, nil}
	}
	es := []tent{
		f("DESCRIPTION", 0644, "Package: "+name+"\nVersion: 1."+fmt.Sprint(c.R.Intn(40))+"\nTitle: T\nDescription: D.\nLicense: GPL-3\nAuthor: n\nMaintainer: n <n@example.org>\n"),
		f("NAMESPACE", 0644, "export(f)\n"),
		f("R/code.R", 0644, "f <- function() 1\n"),
		f("inst/payload.txt", 0644, payload+"\n"),
		f("configure", 0755, "#!/bin/sh\nexit 0\n"),
	}
	names := []string{"a", "b.txt", "with space", "-dash", "ünïcode", "日本", "dots..", "..a", ".hidden", "x'y\"z", "semi;colon", "back\\slash", strings.Repeat("long", 30), "$HOME", "~", "per%cent", "new\tline", "...", "A", "con"}
	dirs := []string{""}
	if c.R.Intn(3) > 0 {
		es = append([]tent{d("")}, es...)
	}
	for i := 0; i < k; i++ {
		p := pick(c.R, dirs) + pick(c.R, names) + fmt.Sprint(i)
		if c.R.Intn(4) == 0 {
			if c.R.Intn(3) > 0 {
				es = append(es, d(p+"/"))
			}
			dirs = append(dirs, p+"/")
			if c.R.Intn(3) == 0 { // deep without an entry for every directory
				dirs = append(dirs, p+"/deep/"+strings.Repeat("er", c.R.Intn(60))+"/")
			}
			continue
		}
		n := 0
		switch c.R.Intn(5) {
		case 0:
		case 1:
			n = 1 + c.R.Intn(40)
		case 2:
			n = 512 * c.R.Intn(5)
		case 3:
			n = 32768 + c.R.Intn(40000) - 20000
		default:
			n = c.R.Intn(3000)
		}
		b := make([]byte, n)
		c.R.Read(b)
		es = append(es, tent{tar.Header{Name: name + "/" + p, Mode: pick(c.R, []int64{0644, 0755, 0600, 0700, 0444, 0555, 0640, 0664, 0775, 0400, 0500})}, b})
	}
	switch c.R.Intn(6) {
	case 0: // leading ./
		for i := range es {
			es[i].h.Name = "./" + es[i].h.Name
		}
	case 1:
		es = append([]tent{{tar.Header{Name: "./", Mode: 0755, Typeflag: tar.TypeDir}, nil}}, es...)
		for i := range es[1:] {
			es[i+1].h.Name = "./" + es[i+1].h.Name
		}
	case 2:
		for i := range es {
			es[i].h.Format = tar.FormatPAX
		}
	case 3:
		for i := range es {
			es[i].h.Format = tar.FormatGNU
		}
	}
	return es
}

// tarWorld is a world with one tarball.
func tarWorld(c *Case, name string, xdg bool) *World {
	sc := &Scenario{Ctl: proto.Control{RVersion: "4.3.1", Platform: defPlatform, NoDepChk: true}, XDGCache: xdg,
		Repos: []Repo{{Name: "CRAN", Src: []Pkg{{Name: "R6", Version: "2.5.1"}}}}, Packages: []string{"R6"}, ExtraYml: "Tarballs:\n  - tarballs/" + name + "\n"}
	w := c.World(sc)
	must(os.MkdirAll(w.CacheDir(), 0755))
	for _, f := range []string{"victim/file", "victim/dir/file", "proj/victim/file", "home/victim/file", "proj/tarballs/victim/file"} {
		writeFile(w.P(f), []byte("untouched\n"), 0644)
	}
	writeFile(filepath.Join(w.CacheDir(), "victim/file"), []byte("untouched\n"), 0644)
	w.Own()
	return w
}

// outside is everything in the world except what extraction and the run may change.
func (w *World) outside(own string) Snap {
	s := Snap{}
	for k, v := range snapTree(w.Dir, true) {
		p := w.P(k)
		switch {
		case strings.HasPrefix(k, "tmp/") || strings.HasPrefix(k, "R/events") || k == "xdg" || strings.HasPrefix(k, "xdg/pkgr/r_packagedb_caches") || k == "xdg/pkgr" || k == "pc":
		case own != "" && (p == own || strings.HasPrefix(p, own+"/")):
		case strings.HasPrefix(p, w.CacheDir()+"/") && !strings.HasPrefix(p, w.CacheDir()+"/victim"):
			// judged by cacheDirs
		case strings.HasPrefix(p, w.Lib()):
		default:
			s[k] = v
		}
	}
	return s
}

// newRoot finds the folder in the cache that holds pkg.
func (w *World) newRoot(pkg string) []string {
	var l []string
	filepath.WalkDir(w.CacheDir(), func(p string, e fs.DirEntry, err error) error {
		if err == nil && e.Name() == "DESCRIPTION" && filepath.Base(filepath.Dir(p)) == pkg && strings.Count(strings.TrimPrefix(p, w.CacheDir()+"/"), "/") <= 3 {
			l = append(l, filepath.Dir(filepath.Dir(p)))
		}
		return nil
	})
	return l
}

// badTypes lists what is neither file nor directory below dir.
func badTypes(dir string) []string {
	var l []string
	filepath.WalkDir(dir, func(p string, e fs.DirEntry, err error) error {
		if err == nil && !e.IsDir() && !e.Type().IsRegular() {
			l = append(l, p+" "+e.Type().String())
		}
		if err == nil && e.Type().IsRegular() {
			if fi, err := e.Info(); err == nil && nlink(fi) > 1 {
				l = append(l, p+" hard link")
			}
		}
		return nil
	})
	return l
}

// sameTree compares an extraction with what it must be; only the entries below the package when pkg is given.
func sameTree(root string, want map[string]string, pkg string) []string {
	var bad []string
	got := snapTree(root, true)
	for k, v := range want {
		if pkg != "" && k != pkg && !strings.HasPrefix(k, pkg+"/") {
			continue
		}
		if got[k] != v {
			bad = append(bad, fmt.Sprintf("%q is %q, the archive has %q", k, got[k], v))
		}
	}
	for k := range got {
		if k == "." || (pkg != "" && k != pkg && !strings.HasPrefix(k, pkg+"/")) {
			continue
		}
		if want[k] == "" {
			bad = append(bad, fmt.Sprintf("%q is not in the archive", k))
		}
	}
	sort.Strings(bad)
	if len(bad) > 6 {
		bad = bad[:6]
	}
	return bad
}

func c16(x *Ctx) {
	const pkg = "tarpkg"
	put := func(w *World, name string, b []byte) {
		writeFile(w.P("proj/tarballs", name), b, 0644)
		os.Lchown(w.P("proj/tarballs", name), nobody, nobody)
	}
	// installGood: with this tarball in place, install hands R exactly its content
	installGood := func(c *Case, w *World, es []tent, key, what string) bool {
		out := w.Pkgr("install")
		if !c.finished(w, out, "C16/") {
			return false
		}
		n := 0
		for _, p := range installs(out.Events) {
			if p.S.Pass != "dir" {
				continue
			}
			n++
			path := p.S.Path
			if !filepath.IsAbs(path) {
				path = filepath.Join(p.S.Cwd, path)
			}
			if bad := sameTree(filepath.Dir(path), wantTree(es), pkg); len(bad) > 0 {
				c.Fail(w, key, "%s: R was given %s: %s", what, path, strings.Join(bad, "; "))
			}
		}
		if n != 1 {
			c.Fail(w, key, "%s: R was asked %d times to install the tarball\n%s", what, n, tailStr(out.Stdout+out.Stderr, 1500))
		}
		return !c.failed
	}
	x.Cases("faithful", x.N(80, 1200), 8, func(c *Case) {
		how := pick(c.R, []string{"gz", "gz", "xz", "bz2", "zst"})
		name := "t.tar." + how
		if c.R.Intn(3) == 0 {
			name = "p" + pick(c.R, archiveExts) + pick(c.R, []string{"_1.0", "_2.3-1", ""}) + ".tar." + how
		}
		es := goodEntries(c, pkg, fmt.Sprint("good", c.I), c.R.Intn(60))
		w := tarWorld(c, name, c.R.Intn(3) == 0)
		put(w, name, compress(rawTar(es), how))
		pre := w.outside("")
		out := w.Pkgr("plan")
		if !c.finished(w, out, "C16/") {
			return
		}
		if out.Exit != 0 {
			c.Fail(w, "C16/faithful", "a regular tarball (%s) is refused: %s", how, tailStr(out.Stdout+out.Stderr, 1200))
			return
		}
		roots := w.newRoot(pkg)
		if len(roots) != 1 {
			c.Fail(w, "C16/faithful", "%d extractions of one tarball in the cache: %v", len(roots), roots)
			return
		}
		if bad := sameTree(roots[0], wantTree(es), ""); len(bad) > 0 {
			c.Fail(w, "C16/faithful", "extraction (%s): %s", how, strings.Join(bad, "; "))
		}
		if d := diffSnap(pre, w.outside(""), 6); len(d) > 0 {
			c.Fail(w, "C16/contained", "extracting a regular tarball changed: %s", strings.Join(d, "; "))
		}
		installGood(c, w, es, "C16/faithful", "regular tarball, "+how)
		c.Count("files_compared", len(wantTree(es)))
		c.Distinct(fmt.Sprint("faithful", c.I, how))
	})
	type hostile struct {
		kind string
		mk   func(c *Case, w *World, up string) []tent
		must bool // must be refused
	}
	ent := func(n string, tf byte, link, data string) tent {
		return tent{tar.Header{Name: n, Typeflag: tf, Linkname: link, Mode: 0644}, []byte(data)}
	}
	hs := []hostile{
		{"dotdot", func(c *Case, w *World, up string) []tent { return []tent{ent(up+"victim/new", 0, "", "evil")} }, true},
		{"dotdot-existing", func(c *Case, w *World, up string) []tent { return []tent{ent(up+"victim/file", 0, "", "evil")} }, true},
		{"dotdot-inside-name", func(c *Case, w *World, up string) []tent {
			return []tent{ent(pkg+"/../"+up+"victim/file", 0, "", "evil")}
		}, true},
		{"dotdot-dir", func(c *Case, w *World, up string) []tent {
			return []tent{ent(up+"victim/newdir/", tar.TypeDir, "", "")}
		}, true},
		{"dotdot-cache", func(c *Case, w *World, up string) []tent { return []tent{ent("../victim/file", 0, "", "evil")} }, true},
		{"dotdot-cache-new", func(c *Case, w *World, up string) []tent { return []tent{ent("../victim/new", 0, "", "evil")} }, true},
		{"dotdot-alone", func(c *Case, w *World, up string) []tent { return []tent{ent("..", tar.TypeDir, "", "")} }, true},
		{"absolute", func(c *Case, w *World, up string) []tent { return []tent{ent(w.P("victim/file"), 0, "", "evil")} }, true},
		{"absolute-new", func(c *Case, w *World, up string) []tent { return []tent{ent(w.P("victim/new/x"), 0, "", "evil")} }, true},
		{"absolute-dir", func(c *Case, w *World, up string) []tent {
			return []tent{ent(w.P("victim/newdir")+"/", tar.TypeDir, "", "")}
		}, true},
		{"symlink", func(c *Case, w *World, up string) []tent {
			return []tent{ent(pkg+"/link", tar.TypeSymlink, "DESCRIPTION", "")}
		}, true},
		{"symlink-outside", func(c *Case, w *World, up string) []tent {
			return []tent{ent(pkg+"/link", tar.TypeSymlink, w.P("victim"), "")}
		}, true},
		{"symlink-relative", func(c *Case, w *World, up string) []tent {
			return []tent{ent(pkg+"/link", tar.TypeSymlink, "../"+up+"victim", "")}
		}, true},
		{"symlink-then-file", func(c *Case, w *World, up string) []tent {
			return []tent{ent(pkg+"/link", tar.TypeSymlink, w.P("victim"), ""), ent(pkg+"/link/file", 0, "", "evil")}
		}, true},
		{"symlink-then-dir", func(c *Case, w *World, up string) []tent {
			return []tent{ent(pkg+"/link", tar.TypeSymlink, w.P("victim"), ""), ent(pkg+"/link/newdir/", tar.TypeDir, "", "")}
		}, true},
		{"symlink-then-same", func(c *Case, w *World, up string) []tent {
			return []tent{ent(pkg+"/link", tar.TypeSymlink, w.P("victim/file"), ""), ent(pkg+"/link", 0, "", "evil")}
		}, true},
		{"symlink-top", func(c *Case, w *World, up string) []tent {
			return []tent{ent("zlink", tar.TypeSymlink, w.P("victim"), "")}
		}, true},
		{"symlink-dangling", func(c *Case, w *World, up string) []tent {
			return []tent{ent(pkg+"/link", tar.TypeSymlink, "nowhere", "")}
		}, true},
		{"hardlink", func(c *Case, w *World, up string) []tent {
			return []tent{ent(pkg+"/link", tar.TypeLink, pkg+"/DESCRIPTION", "")}
		}, true},
		{"hardlink-outside", func(c *Case, w *World, up string) []tent {
			return []tent{ent(pkg+"/link", tar.TypeLink, w.P("victim/file"), "")}
		}, true},
		{"hardlink-relative", func(c *Case, w *World, up string) []tent {
			return []tent{ent(pkg+"/link", tar.TypeLink, up+"victim/file", "")}
		}, true},
		{"fifo", func(c *Case, w *World, up string) []tent { return []tent{ent(pkg+"/fifo", tar.TypeFifo, "", "")} }, true},
		{"chardev", func(c *Case, w *World, up string) []tent { return []tent{ent(pkg+"/dev", tar.TypeChar, "", "")} }, true},
		{"blockdev", func(c *Case, w *World, up string) []tent { return []tent{ent(pkg+"/dev", tar.TypeBlock, "", "")} }, true},
		{"duplicate", func(c *Case, w *World, up string) []tent {
			return []tent{ent(pkg+"/dupe", 0, "", strings.Repeat("one", 1+c.R.Intn(9))), ent(pkg+"/dupe", 0, "", strings.Repeat("other", 1+c.R.Intn(5)))}
		}, false},
		{"below-file", func(c *Case, w *World, up string) []tent {
			return []tent{ent(pkg+"/plain", 0, "", "one"), ent(pkg+"/plain/x", 0, "", "two")}
		}, true},
		{"file-over-dir", func(c *Case, w *World, up string) []tent {
			return []tent{ent(pkg+"/dd/x", 0, "", "one"), ent(pkg+"/dd", 0, "", "two")}
		}, true},
		{"dotdot-contained", func(c *Case, w *World, up string) []tent {
			return []tent{ent(pkg+"/sub/x", 0, "", "one"), ent(pkg+"/sub/../y", 0, "", "two")}
		}, false},
	}
	x.Cases("hostile", x.N(len(hs)*6, len(hs)*60), 8, func(c *Case) {
		h := hs[c.I%len(hs)]
		xdg := c.R.Intn(3) == 0
		up := "../../"
		if xdg {
			up = "../../../"
		}
		name := "t.tar.gz"
		es := goodEntries(c, pkg, "hostile", c.R.Intn(8))
		w := tarWorld(c, name, xdg)
		bad := h.mk(c, w, up)
		at := len(es)
		switch c.R.Intn(3) {
		case 0:
			at = 0
		case 1:
			at = c.R.Intn(len(es))
		}
		if strings.HasPrefix(h.kind, "symlink") && at == 0 {
			at = 1
		}
		all := append(append(append([]tent{}, es[:at]...), bad...), es[at:]...)
		put(w, name, gz(rawTar(all)))
		pre := w.outside("")
		for again := 0; again < 2; again++ {
			cmd := pick(c.R, []string{"plan", "install", "install"})
			out := w.Pkgr(cmd)
			if !c.finished(w, out, "C16/") {
				return
			}
			what := fmt.Sprintf("archive with a %s entry at place %d of %d, run %d (pkgr %s)", h.kind, at, len(all), again, cmd)
			if d := diffSnap(pre, w.outside(""), 6); len(d) > 0 {
				c.Fail(w, "C16/contained", "%s changed things outside its folder: %s", what, strings.Join(d, "; "))
			}
			if l := badTypes(w.CacheDir()); len(l) > 0 {
				c.Fail(w, "C16/links", "%s created %s", what, strings.Join(l, "; "))
			}
			if h.must && out.Exit == 0 {
				c.Fail(w, "C16/refused", "%s was not refused", what)
			}
			k := 0
			for _, p := range installs(out.Events) {
				if p.S.Pass == "dir" {
					k++
				}
			}
			if k > 0 && h.must {
				c.Fail(w, "C16/used", "%s: R was asked to install it", what)
			}
			if !h.must && out.Exit == 0 {
				want := wantTree(all)
				for _, r := range w.newRoot(pkg) {
					for k, v := range want {
						if k == pkg+"/dupe" { // one of the two, in full
							b, _ := os.ReadFile(filepath.Join(r, k))
							if string(b) != string(bad[0].data) && string(b) != string(bad[1].data) {
								c.Fail(w, "C16/faithful", "%s: %q is %q, the archive has %q and %q", what, k, b, bad[0].data, bad[1].data)
							}
							continue
						}
						if got := snapTree(r, true)[k]; got != v {
							c.Fail(w, "C16/faithful", "%s: %q is %q, the archive has %q", what, k, got, v)
						}
					}
				}
			}
			if c.failed {
				return
			}
			c.Count("hostile_runs", 1)
		}
		// a good archive in its place works
		good := goodEntries(c, pkg, "fine", c.R.Intn(8))
		put(w, name, gz(rawTar(good)))
		installGood(c, w, good, "C16/after", "after refusing a "+h.kind+" entry")
		c.Distinct(fmt.Sprint("hostile", h.kind, at, len(all)))
		if c.I < 3 {
			c.Sample(map[string]any{"kind": h.kind, "place": at, "entries": len(all)})
		}
	})
	x.Cases("damaged", x.N(60, 900), 8, func(c *Case) {
		name := "t.tar.gz"
		es := goodEntries(c, pkg, "damaged", 5+c.R.Intn(30))
		es = append(es, tent{tar.Header{Name: pkg + "/big", Mode: 0644}, blob(fmt.Sprint(c.I), 40+c.R.Intn(200))})
		b := gz(rawTar(es))
		w := tarWorld(c, name, false)
		what := ""
		d := append([]byte{}, b...)
		switch c.R.Intn(4) {
		case 0, 1:
			k := c.R.Intn(len(b))
			what, d = fmt.Sprintf("truncated at %d of %d", k, len(b)), d[:k]
		case 2: // in the compressed data: detected by the checksum
			k := len(b)/3 + c.R.Intn(len(b)/2)
			d[k] ^= byte(1 << c.R.Intn(8))
			what = fmt.Sprintf("bit flipped at %d of %d", k, len(b))
		case 3:
			what = "checksum wrong"
			d[len(d)-6] ^= 0x10
		}
		put(w, name, d)
		pre := w.outside("")
		for again := 0; again < 2; again++ {
			out := w.Pkgr("install")
			if !c.finished(w, out, "C16/") {
				return
			}
			for _, p := range installs(out.Events) {
				if p.S.Pass == "dir" {
					path := p.S.Path
					if !filepath.IsAbs(path) {
						path = filepath.Join(p.S.Cwd, path)
					}
					if bad := sameTree(filepath.Dir(path), wantTree(es), pkg); len(bad) > 0 {
						c.Fail(w, "C16/damaged", "archive %s, run %d: R was asked to install an incomplete extraction: %s", what, again, strings.Join(bad, "; "))
					}
				}
			}
			if d := diffSnap(pre, w.outside(""), 6); len(d) > 0 {
				c.Fail(w, "C16/contained", "archive %s changed things outside its folder: %s", what, strings.Join(d, "; "))
			}
			if c.failed {
				return
			}
			c.Count("damaged_runs", 1)
		}
		put(w, name, b)
		installGood(c, w, es, "C16/after", "the whole archive after one "+what)
		c.Distinct("damaged " + what)
	})
	x.Cases("changed", x.N(40, 500), 8, func(c *Case) {
		name := "t.tar.gz"
		w := tarWorld(c, name, c.R.Intn(3) == 0)
		var vs [][]tent
		var bs [][]byte
		first := goodEntries(c, pkg, "v0", 6)
		// files that all versions share, before and after those that differ
		fill := func(n string) tent {
			return tent{tar.Header{Name: pkg + "/" + n, Mode: 0644}, blob(fmt.Sprint(c.I, n), c.R.Intn(400))}
		}
		if c.R.Intn(2) == 0 {
			first = append([]tent{fill("first")}, first...)
		}
		if c.R.Intn(2) == 0 {
			first = append(first, fill("last"))
		}
		for i := 0; i < 3; i++ {
			es := append([]tent{}, first...)
			for j := range es {
				if strings.HasSuffix(es[j].h.Name, "inst/payload.txt") { // same length
					es[j].data = []byte(fmt.Sprintf("v%d\n", i))
				}
			}
			if i == 2 && c.R.Intn(2) == 0 { // fewer files
				es = es[:len(es)-1]
			}
			vs = append(vs, es)
			bs = append(bs, gz(rawTar(es)))
		}
		t := time.Unix(1700000000, 0)
		hist := ""
		for s := 0; s < 4; s++ {
			i := c.R.Intn(len(vs))
			hist += fmt.Sprint(i)
			put(w, name, bs[i])
			os.Chtimes(w.P("proj/tarballs", name), t, t)
			if !installGood(c, w, vs[i], "C16/stale", "content "+hist) {
				return
			}
			if got := proto.ScanLib(w.Lib()).Pkgs[pkg].P; got != fmt.Sprintf("v%d", i) {
				c.Fail(w, "C16/stale", "content %s: the library has %q", hist, got)
				return
			}
		}
		c.Distinct("changed" + hist)
	})
	// very many tarballs of one configuration share a cache
	x.Cases("many", x.N(1, 2), 2, func(c *Case) {
		sc := &Scenario{Ctl: proto.Control{RVersion: "4.3.1", Platform: defPlatform}, Packages: []string{"R6"},
			Repos: []Repo{{Name: "CRAN", Src: []Pkg{{Name: "R6", Version: "2.5.1"}}}}}
		for i := 0; i < 300+c.R.Intn(150); i++ {
			sc.Tarballs = append(sc.Tarballs, Pkg{Name: fmt.Sprintf("tar%d", i), Version: "1." + fmt.Sprint(1+i%7), Payload: fmt.Sprint("many", c.I, i)})
		}
		pl := sc.Plan()
		w := c.World(sc)
		out := w.PkgrOpt(RunOpt{Timeout: 300 * time.Second}, "install")
		if !c.finished(w, out, "C16/") {
			return
		}
		if bad := w.checkLib(sc.Expect(pl, nil, false), Snap{}); len(bad) > 0 {
			c.Fail(w, "C16/many", "%d tarballs: %s", len(sc.Tarballs), tailStr(strings.Join(bad, "\n"), 2000))
		}
		c.Max("tarballs_of_one_configuration", len(sc.Tarballs))
		c.Distinct(fmt.Sprint("many", len(sc.Tarballs)))
	})
	x.Cases("killed", x.N(60, 900), 8, func(c *Case) {
		name := "t.tar.gz"
		w := tarWorld(c, name, false)
		es := goodEntries(c, pkg, "killed", 20+c.R.Intn(40))
		for i := 0; i < 3; i++ {
			es = append(es, tent{tar.Header{Name: fmt.Sprintf("%s/big%d", pkg, i), Mode: 0644}, blob(fmt.Sprint(c.I, i), 200)})
		}
		put(w, name, gz(rawTar(es)))
		k := newFsKiller([]string{w.CacheDir()}, 1+c.R.Intn(140), nil, func() { w.kill() })
		out := w.Pkgr(pick(c.R, []string{"plan", "install"}))
		k.stop()
		if out.Signal == "" && !c.finished(w, out, "C16/") {
			return
		}
		if out.Signal != "" {
			c.Count("kills", 1)
		}
		installGood(c, w, es, "C16/interrupted", fmt.Sprintf("after a run killed at cache event %d (%s)", k.k, k.what))
		c.Distinct(fmt.Sprint("killed", k.k, k.what))
	})
}

func c15(x *Ctx) {
	o := GenOpt{MinP: 3, MaxP: 12, Repos: 2, Bin: true, Pre: 0.5, Other: 2, Tar: 3, Desc: 2, Sugg: true, Rec: true, NoLib: 0.4, Files: true}
	judge := func(c *Case, w *World, sc *Scenario, pl *Plan, out *RunOut, key, what string) {
		n := map[string]int{}
		for _, p := range installs(out.Events) {
			t := sc.tar(p.S.Pkg)
			if t != nil && p.S.Payload == payloadOf("tar", "src", *t) && p.E != nil && p.E.Exit == 0 {
				n[t.Name]++
			}
		}
		for _, t := range sc.Tarballs {
			if n[t.Name] != 1 {
				c.Fail(w, key, "%s: the tarball of %s %s was installed %d times", what, t.Name, t.Version, n[t.Name])
			}
		}
		c.Count("tarball_installs", len(sc.Tarballs))
	}
	x.Cases("full", x.N(90, 1200), 8, func(c *Case) {
		var sc *Scenario
		var pl *Plan
		for {
			sc = Gen(c.R, o)
			if len(sc.Tarballs)+len(sc.Descs) > 0 {
				break
			}
		}
		// tarballs that replace what the library or a repository has, of any version
		for i := range sc.Tarballs {
			if c.R.Intn(3) == 0 {
				t := &sc.Tarballs[i]
				v := t.Version
				switch c.R.Intn(3) {
				case 0:
					v = otherVersion(c.R, v, 1)
				case 1:
					v = otherVersion(c.R, v, -1)
				}
				if p := sc.pre(t.Name); p != nil {
					p.Version = v
				} else if !sc.NoLib {
					sc.Pre = append(sc.Pre, Pkg{Name: t.Name, Version: v})
				}
			}
		}
		sc.NoUpdate = c.R.Intn(3) == 0
		pl = sc.Plan()
		if pl.Cyclic || len(pl.Missing) > 0 || sc.tarCycle(pl) {
			return
		}
		c.delays(sc, pl, 20)
		w := c.World(sc)
		hist := ""
		prev := sc.Pre
		pre := snapTree(w.Lib(), false)
		for run := 0; run < 3; run++ {
			out := w.Pkgr(c.installArgs()...)
			if !c.finished(w, out, "C15/") {
				return
			}
			exp := sc.Expect(pl, sc.Pre, sc.NoUpdate)
			what := fmt.Sprintf("run %d (%s)", run, hist)
			if bad := w.checkLib(exp, pre); len(bad) > 0 {
				c.Fail(w, "C15/library", "%s:\n%s\n%s", what, strings.Join(bad, "\n"), tailStr(out.Stderr, 1000))
			}
			judge(c, w, sc, pl, out, "C15/always", what)
			// dependencies are there before
			bad, dec := checkOrder(w, sc, pl, exp, out)
			var tb []string
			for _, b := range bad {
				for _, t := range sc.Tarballs {
					if strings.HasPrefix(b, "R was asked to install "+t.Name+" ") {
						tb = append(tb, b)
					}
				}
			}
			if run == 0 && len(tb) > 0 {
				c.Fail(w, "C15/order", "%s: %s", what, strings.Join(tb, "\n"))
			}
			c.Count("dependency_checks", dec)
			if c.failed {
				return
			}
			hist += "same "
			if run == 1 && len(sc.Tarballs) > 0 && c.R.Intn(2) == 0 {
				// the tarball changes under the same name
				i := c.R.Intn(len(sc.Tarballs))
				sc.Tarballs[i].Payload = fmt.Sprintf("tar/changed/%s", sc.Tarballs[i].Name)
				t := sc.Tarballs[i]
				p := w.P("proj/tarballs", t.Name+"_"+t.Version+".tar.gz")
				writeFile(p, t.srcTar(t.Payload), 0644)
				os.Lchown(p, nobody, nobody)
				hist += "changed " + t.Name + " "
			}
		}
		_ = prev
		c.Distinct(planSig(pl) + fmt.Sprint(sc.Tarballs, sc.Descs, sc.Pre, hist))
		if c.I < 3 {
			c.Sample(map[string]any{"tarballs": sc.Tarballs, "descriptions": sc.Descs, "plan": planSig(pl)})
		}
	})
	// failing tarballs
	x.Cases("failing", x.N(50, 700), 8, func(c *Case) {
		var sc *Scenario
		for {
			oo := o
			oo.Desc = 0
			sc = Gen(c.R, oo)
			if len(sc.Tarballs) > 0 {
				break
			}
		}
		for i := range sc.Tarballs {
			if sc.pre(sc.Tarballs[i].Name) == nil && !sc.NoLib && c.R.Intn(3) > 0 {
				sc.Pre = append(sc.Pre, Pkg{Name: sc.Tarballs[i].Name, Version: genVersion(c.R)})
			}
		}
		pl := sc.Plan()
		if pl.Cyclic || len(pl.Missing) > 0 || sc.tarCycle(pl) {
			return
		}
		t := pick(c.R, sc.Tarballs)
		how := c.howFails()
		sc.Ctl.Fail = map[string]string{t.Name + "/dir": how}
		w := c.World(sc)
		pre := snapTree(w.Lib(), false)
		out := w.Pkgr("install")
		if !c.finished(w, out, "C15/") {
			return
		}
		if d := diffSnap(pre, snapTree(w.Lib(), false), 8); len(d) > 0 {
			c.Fail(w, "C15/restore", "the tarball of %s fails (%s): the library changed: %s", t.Name, how, strings.Join(d, "; "))
			return
		}
		sc.Ctl.Fail = nil
		w.WriteCtl()
		w.Own()
		out = w.Pkgr("install")
		if !c.finished(w, out, "C15/") {
			return
		}
		if bad := w.checkLib(sc.Expect(pl, sc.Pre, sc.NoUpdate), pre); len(bad) > 0 {
			c.Fail(w, "C15/library", "after a failed tarball: %s", strings.Join(bad, "\n"))
		}
		judge(c, w, sc, pl, out, "C15/always", "after a failed tarball")
		c.Distinct(planSig(pl) + t.Name + how + fmt.Sprint(sc.Pre))
	})
	// the real R
	x.Cases("realR", x.N(4, 24), 4, func(c *Case) {
		sc := Gen(c.R, GenOpt{MinP: 2, MaxP: 4, Repos: 1, Tar: 2, Desc: 1, NoLib: 1})
		if len(sc.Tarballs) == 0 {
			sc.Tarballs = []Pkg{{Name: "solotar", Version: "1.2.3", Imports: sc.Packages[:1]}}
		}
		sc.UseRealR = true
		sc.Ctl.RVersion = "4.3.3"
		pl := sc.Plan()
		if pl.Cyclic || len(pl.Missing) > 0 || sc.tarCycle(pl) || !sc.closed(pl) {
			return
		}
		w := c.World(sc)
		for run := 0; run < 2; run++ {
			out := w.Pkgr("install")
			if !c.finished(w, out, "C15/") {
				return
			}
			if bad := w.realLib(sc.Expect(pl, nil, false)); len(bad) > 0 {
				c.Fail(w, "C15/real-R", "with the real R, run %d:\n%s\n%s", run, strings.Join(bad, "\n"), tailStr(out.Stdout+out.Stderr, 2500))
				return
			}
		}
		c.Count("real_R_runs", 2)
		c.Distinct("real" + planSig(pl) + fmt.Sprint(sc.Tarballs))
	})
}

// realLib compares a library that the real R made with exp, by name, version and payload.
func (w *World) realLib(exp map[string]*Target) []string {
	var bad []string
	l := proto.ScanLib(w.Lib())
	for n, t := range exp {
		if e := l.Pkgs[n]; e.V != t.Pkg.Version || e.P != t.Payload {
			bad = append(bad, fmt.Sprintf("%s is %q from %q, want %q from %q", n, e.V, e.P, t.Pkg.Version, t.Payload))
		}
	}
	es, _ := os.ReadDir(w.Lib())
	for _, e := range es {
		if exp[e.Name()] == nil {
			bad = append(bad, "unexpected entry "+e.Name())
		}
	}
	sort.Strings(bad)
	return bad
}

func nlink(fi os.FileInfo) uint64 { return uint64(fi.Sys().(*syscall.Stat_t).Nlink) }
