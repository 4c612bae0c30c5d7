// Command fakeR stands in for R and Rscript in generated worlds: it behaves like
// R for the calls pkgr makes, takes delays and failures from control.json beside
// its bin directory and logs every start and end to events.jsonl there.
package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"vh/proto"
)

var (
	root string
	ctl  proto.Control
	base proto.Event
)

func logEv(e proto.Event) {
	e.T = proto.Mono()
	b, _ := json.Marshal(e)
	b = append(b, '\n')
	f, err := os.OpenFile(filepath.Join(root, "events.jsonl"), os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0666)
	if err != nil {
		return
	}
	f.Write(b)
	f.Close()
}

func end(code int) {
	e := proto.Event{Ev: "end", Pid: base.Pid, PPid: base.PPid, Kind: base.Kind, Pkg: base.Pkg, Ver: base.Ver,
		Payload: base.Payload, Pass: base.Pass, Lib: base.Lib, Path: base.Path, Missing: base.Missing, Expr: base.Expr, Out: base.Out, Exit: code}
	logEv(e)
	maybeKill("end")
	os.Exit(code)
}

func key() string { return base.Pkg + "/" + base.Pass }

func maybeKill(at string) {
	if ctl.Kill[key()] == at {
		syscall.Kill(os.Getppid(), syscall.SIGKILL)
		if ctl.Die[key()] {
			os.Exit(9)
		}
		time.Sleep(3 * time.Millisecond)
	}
}

func delay() {
	ms, ok := ctl.DelayMs[key()]
	if !ok {
		ms, ok = ctl.DelayMs["*/"+base.Pass]
	}
	if !ok {
		ms = ctl.DelayMs["*"]
	}
	if ms > 0 {
		time.Sleep(time.Duration(ms) * time.Millisecond)
	}
	if g := ctl.Gate[key()]; g != "" {
		for i := 0; i < 30000; i++ {
			if _, err := os.Stat(g); err == nil {
				break
			}
			time.Sleep(time.Millisecond)
		}
	}
}

func main() {
	exe, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, "fakeR:", err)
		os.Exit(70)
	}
	root = filepath.Dir(filepath.Dir(exe))
	b, err := os.ReadFile(filepath.Join(root, "control.json"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "fakeR:", err)
		os.Exit(70)
	}
	if err := json.Unmarshal(b, &ctl); err != nil {
		fmt.Fprintln(os.Stderr, "fakeR:", err)
		os.Exit(70)
	}
	cwd, _ := os.Getwd()
	base = proto.Event{Ev: "start", Pid: os.Getpid(), PPid: os.Getppid(), Kind: "other", Args: os.Args[1:], Arg0: os.Args[0], Exe: exe, Cwd: cwd, Env: map[string]string{}}
	for _, kv := range os.Environ() {
		i := strings.IndexByte(kv, '=')
		if i <= 0 {
			continue
		}
		if _, dup := base.Env[kv[:i]]; dup {
			base.Dup = append(base.Dup, kv[:i])
		}
		base.Env[kv[:i]] = kv[i+1:]
	}
	// a real process sees the first or last of duplicates depending on libc; report the one getenv gives
	for _, d := range base.Dup {
		base.Env[d] = os.Getenv(d)
	}
	if !ctl.NoScan {
		base.RUser, base.RUserOK = listDir(os.Getenv("R_LIBS_USER"))
	}
	a := os.Args[1:]
	if filepath.Base(os.Args[0]) == "Rscript" || filepath.Base(exe) == "Rscript" {
		rscript(a)
		return
	}
	rest := a
	for len(rest) > 0 && (rest[0] == "--vanilla" || rest[0] == "--slave" || rest[0] == "--no-restore" || rest[0] == "--no-save" || rest[0] == "--quiet" || rest[0] == "--no-echo") {
		rest = rest[1:]
	}
	switch {
	case len(rest) == 1 && rest[0] == "--version":
		base.Kind = "version"
		logEv(base)
		if ctl.VersionRC != 0 {
			fmt.Fprintln(os.Stderr, "R: cannot start")
			end(ctl.VersionRC)
		}
		fmt.Printf("R version %s (2023-06-16) -- \"Beagle Scouts\"\nCopyright (C) 2023 The R Foundation for Statistical Computing\nPlatform: %s (64-bit)\n\n", ctl.RVersion, ctl.Platform)
		end(0)
	case len(rest) >= 2 && rest[0] == "CMD" && rest[1] == "INSTALL":
		install(rest[2:])
	case len(rest) >= 2 && rest[0] == "-e":
		expr(rest[1])
	case len(rest) == 0:
		base.Kind = "session"
		base.Libs = scanLibs("")
		logEv(base)
		in, _ := io.ReadAll(os.Stdin)
		fmt.Printf("session ok %d\n", len(in))
		end(0)
	}
	logEv(base)
	fmt.Fprintln(os.Stderr, "fakeR: unknown call", a)
	end(64)
}

func listDir(d string) ([]string, bool) {
	if d == "" {
		return nil, false
	}
	es, err := os.ReadDir(d)
	if err != nil {
		return nil, false
	}
	var r []string
	for _, e := range es {
		r = append(r, e.Name())
	}
	return r, true
}

// libPaths gives the library search path of a session started with this environment.
func libPaths(lib string) []string {
	var ps []string
	seen := map[string]bool{}
	add := func(p string) {
		if p == "" || seen[p] {
			return
		}
		if fi, err := os.Stat(p); err != nil || !fi.IsDir() {
			return
		}
		seen[p] = true
		ps = append(ps, p)
	}
	add(lib)
	for _, v := range []string{"R_LIBS", "R_LIBS_USER", "R_LIBS_SITE"} {
		for _, p := range strings.Split(os.Getenv(v), ":") {
			add(p)
		}
	}
	return ps
}

func scanLibs(lib string) []proto.Lib {
	if ctl.NoScan {
		return nil
	}
	var ls []proto.Lib
	for _, p := range libPaths(lib) {
		ls = append(ls, proto.ScanLib(p))
	}
	return ls
}

type file struct {
	mode int64
	data []byte
	dir  bool
}

// failHow is how an injected failure ends the process: an exit status or a signal.
var failHow string

func fail(msg string, code int) {
	fmt.Fprintln(os.Stderr, msg)
	if failHow != "" && code == 1 {
		if n, err := strconv.Atoi(failHow); err == nil {
			end(n)
		}
		sig := map[string]syscall.Signal{"KILL": syscall.SIGKILL, "TERM": syscall.SIGTERM, "HUP": syscall.SIGHUP}[failHow]
		e := base
		e.Ev, e.Exit, e.Env, e.Libs = "end", 128+int(sig), nil, nil
		logEv(e)
		syscall.Kill(os.Getpid(), sig)
		time.Sleep(time.Second)
		os.Exit(128 + int(sig))
	}
	end(code)
}

func install(args []string) {
	base.Kind = "install"
	var paths []string
	for _, s := range args {
		switch {
		case strings.HasPrefix(s, "--library="):
			base.Lib = strings.TrimPrefix(s, "--library=")
		case s == "--build":
			base.Build = true
		case strings.HasPrefix(s, "--"):
		default:
			paths = append(paths, s)
		}
	}
	base.CwdList, _ = listDir(base.Cwd)
	base.Pass = "none"
	if len(paths) == 1 {
		base.Path = paths[0]
	}
	files, perr := readPkg(base.Path)
	var d map[string]string
	if perr == nil {
		d = proto.DCF(files["DESCRIPTION"].data)
		base.Pkg, base.Ver = d["Package"], d["Version"]
		if f, ok := files["payload.txt"]; ok {
			base.Payload = strings.TrimSpace(string(f.data))
		} else if f, ok := files["inst/payload.txt"]; ok {
			base.Payload = strings.TrimSpace(string(f.data))
		}
		if base.Pass == "none" {
			base.Pass = "src"
			if d["Built"] != "" {
				base.Pass = "bin"
			}
		}
	}
	base.Libs = scanLibs(base.Lib)
	if base.Pass != "bin" && perr == nil && !ctl.NoScan {
		have := map[string]bool{}
		for _, l := range base.Libs {
			for p := range l.Pkgs {
				have[p] = true
			}
		}
		for _, f := range []string{"Depends", "Imports", "LinkingTo"} {
			for _, n := range proto.DepNames(d[f]) {
				_, sys := ctl.SysPkgs[n]
				if !have[n] && !sys && !proto.IsBase(n) {
					base.Missing = append(base.Missing, n)
				}
			}
		}
		sort.Strings(base.Missing)
	}
	logEv(base)
	maybeKill("start")
	for _, n := range ctl.EchoEnv {
		fmt.Printf("configure: %s=%s\n", n, os.Getenv(n))
	}
	if k := ctl.Chatter[key()]; k > 0 {
		line := strings.Repeat("x", 1023) + "\n"
		for i := 0; i < k; i++ {
			if i%2 == 0 {
				os.Stdout.WriteString(line)
			} else {
				os.Stderr.WriteString(line)
			}
		}
	}
	fmt.Printf("* installing %s to %s\n", base.Pkg, base.Lib)
	delay()
	if perr != nil {
		fail(fmt.Sprintf("ERROR: cannot extract package from %q: %v", base.Path, perr), 1)
	}
	if len(base.Missing) > 0 && !ctl.NoDepChk {
		fail(fmt.Sprintf("ERROR: dependencies %s are not available for package %q", strings.Join(base.Missing, ", "), base.Pkg), 1)
	}
	fmode := ctl.Fail[key()]
	if i := strings.IndexByte(fmode, ':'); i >= 0 {
		fmode, failHow = fmode[:i], fmode[i+1:]
	}
	if fmode == "clean" {
		fail(fmt.Sprintf("ERROR: compilation failed for package %q", base.Pkg), 1)
	}
	if fi, err := os.Stat(base.Lib); err != nil || !fi.IsDir() {
		fail("ERROR: no permission or no such library "+base.Lib, 1)
	}
	final := filepath.Join(base.Lib, base.Pkg)
	if fmode == "stuck" { // leaves something that cannot be removed
		os.RemoveAll(final)
		os.MkdirAll(filepath.Join(final, "ro"), 0755)
		os.WriteFile(filepath.Join(final, "ro", "x"), []byte("partial"), 0644)
		os.Chmod(filepath.Join(final, "ro"), 0555)
		fail(fmt.Sprintf("ERROR: lazy loading failed for package %q", base.Pkg), 1)
	}
	if fmode == "dirty" {
		os.RemoveAll(final)
		os.MkdirAll(filepath.Join(final, "R"), 0755)
		os.WriteFile(filepath.Join(final, "R", base.Pkg), []byte("partial"), 0644)
		fail(fmt.Sprintf("ERROR: lazy loading failed for package %q", base.Pkg), 1)
	}
	lock := filepath.Join(base.Lib, "00LOCK-"+base.Pkg)
	if err := os.Mkdir(lock, 0755); err != nil {
		fail(fmt.Sprintf("ERROR: failed to lock directory %q for modifying\nTry removing %q (%v)", base.Lib, lock, err), 3)
	}
	stage := filepath.Join(lock, "00new", base.Pkg)
	inst := installedFiles(files, base.Pass == "bin")
	for _, n := range proto.SortedKeys(inst) {
		f := inst[n]
		p := filepath.Join(stage, n)
		if f.dir {
			os.MkdirAll(p, 0755)
			continue
		}
		os.MkdirAll(filepath.Dir(p), 0755)
		m := os.FileMode(0644)
		if f.mode&0111 != 0 {
			m = 0755
		}
		if err := os.WriteFile(p, f.data, m); err != nil {
			os.RemoveAll(lock)
			fail("ERROR: "+err.Error(), 1)
		}
	}
	if fmode == "late" {
		os.RemoveAll(lock)
		fail(fmt.Sprintf("ERROR: loading failed for %q", base.Pkg), 1)
	}
	if _, err := os.Lstat(final); err == nil {
		os.Rename(final, filepath.Join(lock, base.Pkg))
	}
	if err := os.Rename(stage, final); err != nil {
		os.RemoveAll(lock)
		fail("ERROR: "+err.Error(), 1)
	}
	os.RemoveAll(lock)
	if base.Build && fmode != "nobinary" {
		out := filepath.Join(base.Cwd, fmt.Sprintf("%s_%s_R_%s.tar.gz", base.Pkg, base.Ver, ctl.Platform))
		if err := writeTar(out, base.Pkg, inst); err != nil {
			fail("ERROR: "+err.Error(), 1)
		}
		fmt.Printf("packaged installation of %q as %q\n", base.Pkg, filepath.Base(out))
	}
	if fmode == "after" {
		fail(fmt.Sprintf("ERROR: post-install check failed for %q", base.Pkg), 1)
	}
	fmt.Printf("* DONE (%s)\n", base.Pkg)
	end(0)
}

func readPkg(path string) (map[string]file, error) {
	if path == "" {
		return nil, fmt.Errorf("no package")
	}
	fi, err := os.Stat(path)
	if err != nil {
		return nil, err
	}
	fs := map[string]file{}
	if fi.IsDir() {
		base.Pass = "dir"
		err := filepath.Walk(path, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(path, p)
			if rel == "." {
				return nil
			}
			if fi.IsDir() {
				fs[rel] = file{dir: true, mode: 0755}
				return nil
			}
			b, err := os.ReadFile(p)
			fs[rel] = file{mode: int64(fi.Mode().Perm()), data: b}
			return err
		})
		if err != nil {
			return nil, err
		}
	} else {
		es, err := proto.ReadTar(path)
		if err != nil {
			return nil, err
		}
		for _, e := range es {
			i := strings.IndexByte(e.Name, '/')
			if i < 0 || i+1 >= len(e.Name) {
				continue
			}
			n := strings.TrimSuffix(e.Name[i+1:], "/")
			fs[n] = file{mode: e.Mode, data: e.Data, dir: e.Dir}
		}
	}
	if f, ok := fs["DESCRIPTION"]; !ok || proto.DCF(f.data)["Package"] == "" || proto.DCF(f.data)["Version"] == "" {
		return nil, fmt.Errorf("no valid DESCRIPTION")
	}
	return fs, nil
}

// installedFiles turns a source tree into an installed one.
func installedFiles(fs map[string]file, bin bool) map[string]file {
	if bin {
		return fs
	}
	r := map[string]file{}
	var code bytes.Buffer
	for _, n := range proto.SortedKeys(fs) {
		f := fs[n]
		switch {
		case n == "DESCRIPTION":
			d := bytes.TrimRight(f.data, "\n")
			d = append(append([]byte{}, d...), []byte(fmt.Sprintf("\nBuilt: R %s; %s; 2024-01-01 00:00:00 UTC; unix\n", ctl.RVersion, ctl.Platform))...)
			r[n] = file{mode: 0644, data: d}
		case n == "NAMESPACE":
			r[n] = f
		case n == "R" || n == "inst":
		case strings.HasPrefix(n, "R/"):
			if !f.dir {
				code.Write(f.data)
			}
		case strings.HasPrefix(n, "inst/"):
			r[strings.TrimPrefix(n, "inst/")] = f
		}
	}
	r["R/"+base.Pkg] = file{mode: 0644, data: code.Bytes()}
	return r
}

func writeTar(out, pkg string, fs map[string]file) error {
	var buf bytes.Buffer
	g := gzip.NewWriter(&buf)
	t := tar.NewWriter(g)
	for _, n := range proto.SortedKeys(fs) {
		f := fs[n]
		if f.dir {
			t.WriteHeader(&tar.Header{Name: pkg + "/" + n + "/", Mode: 0755, Typeflag: tar.TypeDir})
			continue
		}
		m := f.mode & 0777
		if m == 0 {
			m = 0644
		}
		t.WriteHeader(&tar.Header{Name: pkg + "/" + n, Mode: m, Size: int64(len(f.data)), Typeflag: tar.TypeReg})
		t.Write(f.data)
	}
	t.Close()
	g.Close()
	return os.WriteFile(out, buf.Bytes(), 0644)
}

func expr(x string) {
	base.Kind = "expr"
	base.Expr = x
	name := ""
	if i := strings.IndexByte(x, '\''); i >= 0 {
		if j := strings.IndexByte(x[i+1:], '\''); j >= 0 {
			name = x[i+1 : i+1+j]
		}
	}
	base.Pkg = name
	libs := libPaths("")
	for _, l := range ctl.DefLibs {
		if fi, err := os.Stat(l); err == nil && fi.IsDir() {
			libs = append(libs, l)
		}
	}
	find := func() (string, string) {
		for _, l := range libs {
			if e, ok := proto.ScanLib(l).Pkgs[name]; ok {
				return filepath.Join(l, name), e.V
			}
		}
		if v, ok := ctl.SysPkgs[name]; ok {
			return "/usr/lib/R/library/" + name, v
		}
		return "", ""
	}
	lc := ctl.Load[name]
	switch {
	case strings.HasPrefix(x, "library("):
		base.Pass = "load"
		logEv(base)
		d := ctl.LoadDelay
		if lc.DelayMs > 0 {
			d = lc.DelayMs
		}
		time.Sleep(time.Duration(d) * time.Millisecond)
		os.Stdout.WriteString(lc.Stdout)
		os.Stderr.WriteString(lc.Stderr)
		if lc.Exit < 0 { // dies from that signal
			e := base
			e.Ev, e.Exit, e.Env, e.Libs = "end", 128-lc.Exit, nil, nil
			logEv(e)
			syscall.Kill(os.Getpid(), syscall.Signal(-lc.Exit))
			time.Sleep(time.Second)
			os.Exit(128 - lc.Exit)
		}
		if lc.Exit != 0 {
			end(lc.Exit)
		}
		if p, _ := find(); p == "" {
			fmt.Fprintf(os.Stderr, "Error in library(%q) : there is no package called %q\nExecution halted\n", name, name)
			end(1)
		}
		end(0)
	case strings.Contains(x, "find.package("):
		base.Pass = "info"
		logEv(base)
		if lc.BadInfo != "" {
			fmt.Print(lc.BadInfo)
			end(0)
		}
		p, v := find()
		if p == "" {
			fmt.Fprintf(os.Stderr, "Error in find.package(%q) : there is no package called %q\nExecution halted\n", name, name)
			end(1)
		}
		base.Out = p + "|" + v
		fmt.Printf("[1] %q\n[1] %q\n", p, v)
		end(0)
	case strings.HasPrefix(x, ".libPaths()"):
		base.Pass = "libpaths"
		logEv(base)
		for i, l := range append(libs, "/usr/lib/R/library") {
			fmt.Printf("[%d] %q\n", i+1, l)
		}
		end(0)
	}
	logEv(base)
	end(0)
}

func rscript(a []string) {
	base.Kind = "rscript"
	base.Expr = strings.Join(a, " ")
	logEv(base)
	if strings.Contains(base.Expr, "_pkgr_") {
		if ctl.RenvExit != 0 {
			fmt.Fprintln(os.Stderr, "Error in loadNamespace(x) : there is no package called 'renv'")
			end(ctl.RenvExit)
		}
		fmt.Print(ctl.RenvNoise)
		fmt.Printf("\n_pkgr_%s_pkgr_\n", ctl.RenvLib)
	}
	end(0)
}
