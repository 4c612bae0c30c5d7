package main

import (
	"bytes"
	"crypto/md5"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"vh/proto"
)

const nobody = 65534

func itoa(i int) string { return strconv.Itoa(i) }

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "vrun: "+f+"\n", a...)
	cleanup()
	os.Exit(3)
}

// World is one scratch universe: R stand-in, home, caches, repositories, project, library.
type World struct {
	linked string
	Dir    string
	id     string
	Sc     *Scenario
	mu     sync.Mutex
	files  map[string][]byte
	faults []*Fault
	reqs   []Req
	active int32
	cur    atomic.Int32 // pid of the running pkgr
	evOff  int64
	Runs   []*RunOut
	race   bool
	notes  []string
}

var worldN atomic.Int64

// RunOut is one finished pkgr run.
type RunOut struct {
	Args     []string      `json:"args"`
	Exit     int           `json:"exit"`
	Signal   string        `json:"signal,omitempty"`
	Stdout   string        `json:"stdout"`
	Stderr   string        `json:"stderr"`
	Events   []proto.Event `json:"-"`
	Reqs     []Req         `json:"reqs"`
	Hang     bool          `json:"hang,omitempty"`
	Timeout  bool          `json:"timeout,omitempty"`
	Deadlock bool          `json:"deadlock,omitempty"`
	Dump     string        `json:"dump,omitempty"`
	Wall     time.Duration `json:"wall"`
	Pid      int           `json:"pid"`
	T0, T1   int64
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
}

func writeFile(p string, b []byte, m os.FileMode) {
	must(os.MkdirAll(filepath.Dir(p), 0755))
	must(os.WriteFile(p, b, m))
}

// newWorld lays out sc below the scratch directory.
func newWorld(sc *Scenario) *World {
	n := worldN.Add(1)
	w := &World{id: fmt.Sprintf("w%d", n), Sc: sc, files: map[string][]byte{}}
	w.Dir = filepath.Join(scratch, w.id)
	for _, d := range []string{"R/bin", "home", "tmp", "proj", "xdg"} {
		must(os.MkdirAll(filepath.Join(w.Dir, d), 0755))
	}
	for _, x := range []string{"R", "Rscript"} {
		must(os.Link(fakeRPath, filepath.Join(w.Dir, "R/bin", x)))
	}
	must(os.WriteFile(w.P("R/events.jsonl"), nil, 0666))
	w.faults = sc.Faults
	if sc.Ctl.RVersion == "" {
		sc.Ctl.RVersion = "4.3.1"
	}
	if sc.Ctl.Platform == "" {
		sc.Ctl.Platform = defPlatform
	}
	w.WriteCtl()
	w.Serve()
	w.WriteYml()
	for _, t := range sc.Tarballs {
		writeFile(w.P("proj/tarballs", t.Name+"_"+t.Version+".tar.gz"), t.srcTar(payloadOf("tar", "src", t)), 0644)
	}
	for _, d := range sc.Descs {
		writeFile(w.P("proj/descs", d.Name, "DESCRIPTION"), []byte(d.description()), 0644)
	}
	if !sc.NoLib {
		if sc.LibLink {
			l := w.Lib()
			must(os.MkdirAll(filepath.Dir(l), 0755))
			must(os.Symlink(w.P("elsewhere/lib"), l))
			w.linked = w.libSetting()
		}
		must(os.MkdirAll(w.Lib(), 0755))
		for _, p := range sc.Pre {
			w.Preinstall(w.Lib(), p)
		}
		for _, k := range proto.SortedKeys(sc.PreFiles) {
			v := sc.PreFiles[k]
			if strings.HasSuffix(k, "/") {
				must(os.MkdirAll(filepath.Join(w.Lib(), k), 0755))
				continue
			}
			if strings.HasPrefix(v, "->") {
				must(os.MkdirAll(filepath.Dir(filepath.Join(w.Lib(), k)), 0755))
				must(os.Symlink(strings.ReplaceAll(v[2:], "@W@", w.Dir), filepath.Join(w.Lib(), k)))
				continue
			}
			writeFile(filepath.Join(w.Lib(), k), []byte(v), 0644)
		}
	}
	w.Own()
	srv.mu.Lock()
	srv.worlds[w.id] = w
	srv.mu.Unlock()
	return w
}

// Preinstall puts p into lib as if installed earlier by somebody else.
func (w *World) Preinstall(lib string, p Pkg) {
	for _, f := range p.instFiles(payloadOf("pre", "old", p), w.Sc.Ctl.RVersion) {
		writeFile(filepath.Join(lib, p.Name, f.name), f.data, os.FileMode(f.mode))
	}
}

// P joins a path below the world.
func (w *World) P(s ...string) string { return filepath.Join(append([]string{w.Dir}, s...)...) }

func (w *World) libSetting() string {
	if w.Sc.LibPath != "" {
		return w.Sc.LibPath
	}
	return "lib"
}

// Lib is the library directory.
func (w *World) Lib() string {
	l := w.libSetting()
	if w.Sc.LibLink && l == w.linked {
		return w.P("elsewhere/lib")
	}
	if filepath.IsAbs(l) {
		return l
	}
	return w.P("proj", l)
}

// CacheDir is the package cache.
func (w *World) CacheDir() string {
	if w.Sc.XDGCache {
		return w.P("xdg/pkgr")
	}
	if w.Sc.CachePath != "" {
		return w.P(w.Sc.CachePath)
	}
	return w.P("pc")
}

// IdxDir holds the cached indexes.
func (w *World) IdxDir() string { return w.P("xdg/pkgr/r_packagedb_caches") }

func (r *Repo) dir() string {
	if r.Dir != "" {
		return r.Dir
	}
	return r.Name
}

// RepoURL is the URL of r as configured.
func (w *World) RepoURL(r *Repo) string {
	u := ""
	switch {
	case r.URL != "":
		u = r.URL
	case r.Kind == "local":
		u = w.P("repos", r.dir())
	case r.Kind == "https" && r.Cert != "":
		u = "https://" + srv.tlsBad[r.Cert] + "/" + w.id + "/" + r.dir()
	case r.Kind == "https":
		u = "https://" + srv.tlsA + "/" + w.id + "/" + r.dir()
	default:
		u = "http://" + srv.addr + "/" + w.id + "/" + r.dir()
	}
	if r.Cred && r.Kind != "local" && r.URL == "" {
		u = strings.Replace(u, "://", "://user:pw@", 1)
	}
	if r.Slash {
		u += "/"
	}
	return u
}

func rMinor(v string) string {
	p := strings.Split(v, ".")
	return p[0] + "." + p[1]
}

func repoHash(name, url string) string {
	return name + "-" + fmt.Sprintf("%x", md5.Sum([]byte(url)))[:12]
}

func binFile(p Pkg) string { return p.Name + "_" + p.Version + "_R_" + defPlatform + ".tar.gz" }
func srcFile(p Pkg) string { return p.Name + "_" + p.Version + ".tar.gz" }

func (w *World) binDir(r *Repo) string {
	d := "bin/linux/" + osID
	if r.Suffix != "" {
		d += "/" + r.Suffix
	}
	return d + "/contrib/" + rMinor(w.Sc.Ctl.RVersion)
}

func index(r *Repo, ps []Pkg, sums map[string]string) []byte {
	var es []string
	for _, p := range ps {
		if !p.NoIndex {
			es = append(es, p.indexEntry(r.Style, sums[p.Name+"_"+p.Version]))
		}
	}
	s := strings.Join(es, "\n")
	if r.Style > 1 && len(es) > 0 {
		s += "\n"
	}
	if r.CRLF {
		s = strings.ReplaceAll(s, "\n", "\r\n")
	}
	return []byte(s)
}

// Serve (re)publishes the scenario's repositories.
func (w *World) Serve() {
	fs := map[string][]byte{}
	for i := range w.Sc.Repos {
		r := &w.Sc.Repos[i]
		if r.URL != "" {
			continue
		}
		put := func(rel string, b []byte) {
			if r.Kind == "local" {
				writeFile(w.P("repos", r.dir(), rel), b, 0644)
			} else {
				fs[r.dir()+"/"+rel] = b
			}
		}
		sums := map[string]string{}
		for _, p := range r.Src {
			if !p.NoFile {
				d := "src/contrib/"
				if p.IdxPath != "" {
					d += p.IdxPath + "/"
				}
				b := p.srcTar(payloadOf(r.tag(), "src", p))
				sums[p.Name+"_"+p.Version] = fmt.Sprintf("%x", md5sum(b))
				put(d+srcFile(p), b)
			}
		}
		put("src/contrib/PACKAGES", index(r, r.Src, sums))
		if r.RepoType == "MPN" && r.Bin != nil {
			sums := map[string]string{}
			for _, p := range r.Bin {
				if !p.NoFile {
					b := p.binTar(payloadOf(r.tag(), "bin", p), w.Sc.Ctl.RVersion)
					sums[p.Name+"_"+p.Version] = fmt.Sprintf("%x", md5sum(b))
					put(w.binDir(r)+"/"+binFile(p), b)
				}
			}
			put(w.binDir(r)+"/PACKAGES", index(r, r.Bin, sums))
		}
	}
	w.mu.Lock()
	w.files = fs
	w.mu.Unlock()
}

// WriteCtl writes the control file of the R stand-in.
func (w *World) WriteCtl() {
	b, _ := json.Marshal(w.Sc.Ctl)
	tmp := w.P("R/control.json.tmp")
	must(os.WriteFile(tmp, b, 0644))
	must(os.Rename(tmp, w.P("R/control.json")))
}

// WriteYml writes the configuration.
func (w *World) WriteYml() {
	p := w.P("proj/pkgr.yml")
	must(os.WriteFile(p, []byte(w.Sc.yml(w)), 0644))
	os.Lchown(p, nobody, nobody)
}

// SetFaults replaces the server faults.
func (w *World) SetFaults(f []*Fault) {
	w.mu.Lock()
	w.faults = f
	w.mu.Unlock()
}

// Own hands everything below the world to the unprivileged user.
func (w *World) Own() { chownTree(w.Dir) }

func chownTree(d string) {
	filepath.WalkDir(d, func(p string, e fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if fi, err := os.Lstat(p); err == nil && fi.Mode().IsRegular() && fi.Sys().(*syscall.Stat_t).Nlink > 1 {
			return nil // the shared stand-in
		}
		os.Lchown(p, nobody, nobody)
		return nil
	})
}

// Close removes the world.
func (w *World) Close() {
	srv.mu.Lock()
	delete(srv.worlds, w.id)
	srv.mu.Unlock()
	if !keepWorlds {
		rmTree(w.Dir)
	}
}

func rmTree(d string) {
	if !strings.HasPrefix(d, "/tmp/v") {
		panic("refusing to remove " + d)
	}
	filepath.WalkDir(d, func(p string, e fs.DirEntry, err error) error {
		if err == nil && e.IsDir() {
			os.Chmod(p, 0755)
		}
		return nil
	})
	os.RemoveAll(d)
}

func (w *World) kill() {
	if pid := w.cur.Load(); pid > 0 {
		syscall.Kill(int(pid), syscall.SIGKILL)
	}
}

// Env is the environment of a pkgr run.
func (w *World) Env(extra map[string]string) []string {
	m := map[string]string{
		"PATH": w.P("R/bin") + ":/usr/bin:/bin", "HOME": w.P("home"), "XDG_CACHE_HOME": w.P("xdg"), "TMPDIR": w.P("tmp"),
		"LANG": "C.UTF-8", "GOTRACEBACK": "all",
	}
	if w.Sc.UseRealR {
		m["PATH"] = "/usr/bin:/bin"
	}
	for k, v := range w.Sc.Env {
		m[k] = v
	}
	for k, v := range extra {
		m[k] = v
	}
	var e []string
	for _, k := range proto.SortedKeys(m) {
		if m[k] != "\x00" {
			e = append(e, k+"="+m[k])
		}
	}
	return e
}

// RunOpt varies a run.
type RunOpt struct {
	Cwd     string
	Env     map[string]string
	Stdin   string
	OnStart func(pid int)
	Timeout time.Duration
	Raw     bool // args already complete
	Procs   int  // GOMAXPROCS through affinity is not available: use the variable
	NoWait  bool // do not wait for leftover R processes
	PidNS   bool // with process numbers of its own, like in a container
	NoEv    bool // leave the events for later: several runs at once
}

// Pkgr runs pkgr in the project directory.
func (w *World) Pkgr(args ...string) *RunOut { return w.PkgrOpt(RunOpt{}, args...) }

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

// PkgrOpt runs pkgr.
func (w *World) PkgrOpt(o RunOpt, args ...string) *RunOut {
	bin := pkgrPath
	if w.race {
		bin = pkgrRacePath
	}
	out := w.exec(bin, o, args...)
	w.mu.Lock()
	w.Runs = append(w.Runs, out)
	w.mu.Unlock()
	return out
}

func (w *World) exec(bin string, o RunOpt, args ...string) *RunOut {
	out := &RunOut{Args: args}
	cmd := exec.Command(bin, args...)
	cmd.Dir = o.Cwd
	if cmd.Dir == "" {
		cmd.Dir = w.P("proj")
	}
	cmd.Env = append(w.Env(o.Env), "PWD="+cmd.Dir)
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}, Setpgid: true}
	if o.PidNS {
		m := []syscall.SysProcIDMap{{ContainerID: nobody, HostID: nobody, Size: 1}}
		cmd.SysProcAttr.Cloneflags = syscall.CLONE_NEWUSER | syscall.CLONE_NEWPID
		cmd.SysProcAttr.UidMappings, cmd.SysProcAttr.GidMappings = m, m
	}
	var so, se *os.File
	so, err := os.CreateTemp(scratch, "so")
	must(err)
	se, err = os.CreateTemp(scratch, "se")
	must(err)
	defer os.Remove(so.Name())
	defer os.Remove(se.Name())
	defer so.Close()
	defer se.Close()
	cmd.Stdout, cmd.Stderr = so, se
	if o.Stdin != "" {
		cmd.Stdin = strings.NewReader(o.Stdin)
	}
	if o.Timeout == 0 {
		o.Timeout = 240 * time.Second
	}
	w.mu.Lock()
	r0 := len(w.reqs)
	w.mu.Unlock()
	out.T0 = proto.Mono()
	start := time.Now()
	must(cmd.Start())
	pid := cmd.Process.Pid
	out.Pid = pid
	if !o.NoEv {
		w.cur.Store(int32(pid))
	}
	if o.OnStart != nil {
		o.OnStart(pid)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	tick := time.NewTicker(250 * time.Millisecond)
	defer tick.Stop()
	var quiet time.Duration
	lastCPU := int64(-1)
	last := time.Now()
	quit := false
loop:
	for {
		select {
		case <-done:
			break loop
		case <-tick.C:
			now := time.Now()
			cpu, kids, ok := procState(pid)
			if !ok {
				continue
			}
			if kids == 0 && atomic.LoadInt32(&w.active) == 0 && cpu == lastCPU {
				quiet += now.Sub(last)
			} else {
				quiet = 0
			}
			lastCPU, last = cpu, now
			if quiet > 12*time.Second && !quit {
				quit = true
				out.Hang = true
				syscall.Kill(pid, syscall.SIGQUIT)
				time.AfterFunc(5*time.Second, func() { syscall.Kill(-pid, syscall.SIGKILL) })
			}
			if now.Sub(start) > o.Timeout && !quit {
				quit = true
				out.Timeout = true
				syscall.Kill(pid, syscall.SIGQUIT)
				time.AfterFunc(5*time.Second, func() { syscall.Kill(-pid, syscall.SIGKILL) })
			}
		}
	}
	if !o.NoEv {
		w.cur.Store(0)
	}
	out.T1 = proto.Mono()
	out.Wall = time.Since(start)
	ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
	out.Exit = ws.ExitStatus()
	if ws.Signaled() {
		out.Signal = ws.Signal().String()
	}
	if !o.NoWait {
		w.waitLeftover(pid)
	}
	b, _ := os.ReadFile(so.Name())
	out.Stdout = string(b)
	b, _ = os.ReadFile(se.Name())
	out.Stderr = string(b)
	if strings.Contains(out.Stderr, "all goroutines are asleep - deadlock!") {
		out.Deadlock, out.Hang = true, true
	}
	if quit {
		out.Dump = out.Stderr
		if out.Hang && !out.Deadlock && !allBlocked(out.Stderr) {
			out.Hang, out.Timeout = false, true
		}
	}
	if o.NoEv {
		return out
	}
	// the server may still be noting what it sent
	for end := time.Now().Add(5 * time.Second); !o.NoWait && atomic.LoadInt32(&w.active) > 0 && time.Now().Before(end); {
		time.Sleep(time.Millisecond)
	}
	out.Events = w.Events()
	w.mu.Lock()
	out.Reqs = append([]Req{}, w.reqs[r0:]...)
	w.mu.Unlock()
	return out
}

var goroutineRe = regexp.MustCompile(`(?m)^goroutine \d+ (?:gp=\S+ m=\S+ (?:mp=\S+ )?)?\[([^\],]+)`)

// allBlocked tells whether a goroutine dump shows no goroutine that could still make progress.
func allBlocked(dump string) bool {
	ms := goroutineRe.FindAllStringSubmatch(dump, -1)
	if len(ms) == 0 {
		return false
	}
	for _, m := range ms {
		switch m[1] {
		case "running", "runnable", "sleep":
			return false
		}
	}
	return true
}

// procState gives CPU ticks and number of children of pid.
func procState(pid int) (int64, int, bool) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, 0, false
	}
	i := bytes.LastIndexByte(b, ')')
	f := strings.Fields(string(b[i+1:]))
	if len(f) < 15 {
		return 0, 0, false
	}
	u, _ := strconv.ParseInt(f[11], 10, 64)
	s, _ := strconv.ParseInt(f[12], 10, 64)
	kids := 0
	ts, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/children", pid))
	for _, t := range ts {
		c, _ := os.ReadFile(t)
		kids += len(strings.Fields(string(c)))
	}
	return u + s, kids, true
}

// waitLeftover waits until no process of pkgr's group is left.
func (w *World) waitLeftover(pgid int) {
	for i := 0; i < 4000; i++ {
		if err := syscall.Kill(-pgid, 0); err == syscall.ESRCH {
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
	syscall.Kill(-pgid, syscall.SIGKILL)
	time.Sleep(20 * time.Millisecond)
}

// Events returns the events logged since the last call.
func (w *World) Events() []proto.Event {
	f, err := os.Open(w.P("R/events.jsonl"))
	if err != nil {
		return nil
	}
	defer f.Close()
	f.Seek(w.evOff, io.SeekStart)
	b, _ := io.ReadAll(f)
	w.evOff += int64(len(b))
	var es []proto.Event
	for i, l := range bytes.Split(b, []byte("\n")) {
		if len(l) == 0 {
			continue
		}
		var e proto.Event
		if err := json.Unmarshal(l, &e); err != nil {
			w.notes = append(w.notes, "bad event line: "+string(l))
			continue
		}
		e.Idx = i
		es = append(es, e)
	}
	return es
}

// ---- snapshots

// Snap maps relative paths to a description of the entry.
type Snap map[string]string

func snapTree(dir string, withMode bool) Snap {
	s := Snap{}
	fi, err := os.Lstat(dir)
	if err != nil {
		return s
	}
	if !fi.IsDir() {
		s["."] = "not a directory"
	}
	filepath.WalkDir(dir, func(p string, e fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if rel == "." {
			s["."] = "dir"
			return nil
		}
		fi, err := e.Info()
		if err != nil {
			return nil
		}
		switch {
		case fi.IsDir():
			s[rel] = "dir"
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			s[rel] = "-> " + l
		case !fi.Mode().IsRegular():
			s[rel] = "special " + fi.Mode().String()
		default:
			b, err := os.ReadFile(p)
			x := ""
			if withMode && fi.Mode()&0100 != 0 {
				x = " x"
			}
			if err != nil {
				s[rel] = "unreadable " + fi.Mode().String()
			} else {
				s[rel] = fmt.Sprintf("%x %d%s", md5.Sum(b), len(b), x)
			}
		}
		return nil
	})
	return s
}

// diffSnap lists differences, at most max.
func diffSnap(a, b Snap, max int) []string {
	var d []string
	for _, k := range proto.SortedKeys(a) {
		if v, ok := b[k]; !ok {
			d = append(d, "gone: "+k)
		} else if v != a[k] {
			d = append(d, "changed: "+k+" ("+a[k]+" => "+v+")")
		}
	}
	for _, k := range proto.SortedKeys(b) {
		if _, ok := a[k]; !ok {
			d = append(d, "new: "+k)
		}
	}
	if len(d) > max {
		d = append(d[:max], fmt.Sprintf("... %d more", len(d)-max))
	}
	return d
}

// sub restricts a snapshot to one top entry.
func (s Snap) sub(top string) Snap {
	r := Snap{}
	for k, v := range s {
		if k == top || strings.HasPrefix(k, top+"/") {
			r[k] = v
		}
	}
	return r
}

// below has the entries below one top-level entry, without its name.
func (s Snap) below(top string) Snap {
	r := Snap{}
	for k, v := range s {
		if strings.HasPrefix(k, top+"/") {
			r[k[len(top)+1:]] = v
		}
	}
	return r
}

// tops lists the top-level entries.
func (s Snap) tops() []string {
	m := map[string]bool{}
	for k := range s {
		if k == "." {
			continue
		}
		if i := strings.IndexByte(k, '/'); i >= 0 {
			k = k[:i]
		}
		m[k] = true
	}
	return proto.SortedKeys(m)
}

func sortedSet(m map[string]bool) []string {
	var r []string
	for k, v := range m {
		if v {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}
