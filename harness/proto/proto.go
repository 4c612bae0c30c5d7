// Package proto holds the types shared by the harness and the R stand-in.
package proto

import (
	"archive/tar"
	"bufio"
	"bytes"
	"compress/bzip2"
	"compress/gzip"
	"errors"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"unsafe"
)

// Control steers the R stand-in of one world.
type Control struct {
	RVersion  string            `json:"r_version"`
	Platform  string            `json:"platform"`
	SysPkgs   map[string]string `json:"sys_pkgs"`   // packages of R's own library and their versions
	Fail      map[string]string `json:"fail"`       // "pkg/pass" -> clean|dirty|late|after|nobinary, with :STATUS or :SIGNAL (KILL, TERM, HUP) for the end of the process
	DelayMs   map[string]int    `json:"delay"`      // "pkg/pass" or "*/pass" or "*"
	Gate      map[string]string `json:"gate"`       // "pkg/pass" -> file that must exist before the process goes on
	Kill      map[string]string `json:"kill"`       // "pkg/pass" -> start|end : SIGKILL the parent
	Die       map[string]bool   `json:"die"`        // with Kill: stop here without finishing
	Chatter   map[string]int    `json:"chatter"`    // "pkg/pass" -> KiB of output
	Load      map[string]LoadC  `json:"load"`       // library(pkg) behaviour
	LoadDelay int               `json:"load_delay"` // ms for every library() call
	DefLibs   []string          `json:"def_libs"`   // library paths of a plain R session here
	RenvLib   string            `json:"renv_lib"`
	RenvExit  int               `json:"renv_exit"`
	RenvNoise string            `json:"renv_noise"`
	VersionRC int               `json:"version_rc"`
	EchoEnv   []string          `json:"echo_env"` // variables every install prints, as a configure script may
	NoDepChk  bool              `json:"no_dep_check"`
	NoScan    bool              `json:"no_scan"` // do not list the libraries (and check no dependencies)
}

// LoadC describes how loading a package goes.
type LoadC struct {
	Exit    int    `json:"exit"`
	Stdout  string `json:"stdout"`
	Stderr  string `json:"stderr"`
	DelayMs int    `json:"delay"`
	Version string `json:"version"`
	Path    string `json:"path"`
	BadInfo string `json:"bad_info"`
}

// Ent is an installed package as seen by the stand-in.
type Ent struct {
	V string `json:"v"`
	P string `json:"p"` // payload id
}

// Lib is the state of one library path when a process started.
type Lib struct {
	Path  string         `json:"path"`
	Pkgs  map[string]Ent `json:"pkgs"`
	Other []string       `json:"other,omitempty"` // entries that are not complete packages
}

// Event is one line of the event log.
type Event struct {
	Ev      string            `json:"ev"` // start, end
	T       int64             `json:"t"`
	Pid     int               `json:"pid"`
	PPid    int               `json:"ppid"`
	Kind    string            `json:"kind"` // version, install, rscript, expr, session, other
	Args    []string          `json:"args,omitempty"`
	Exe     string            `json:"exe,omitempty"`
	Arg0    string            `json:"arg0,omitempty"`
	Cwd     string            `json:"cwd,omitempty"`
	CwdList []string          `json:"cwd_list,omitempty"`
	Env     map[string]string `json:"env,omitempty"`
	Dup     []string          `json:"dup,omitempty"` // environment names given more than once
	Pkg     string            `json:"pkg,omitempty"`
	Ver     string            `json:"ver,omitempty"`
	Payload string            `json:"payload,omitempty"`
	Pass    string            `json:"pass,omitempty"` // src, bin, dir, none
	Path    string            `json:"path,omitempty"`
	Lib     string            `json:"lib,omitempty"`
	Build   bool              `json:"build,omitempty"`
	Libs    []Lib             `json:"libs,omitempty"`
	RUser   []string          `json:"ruser,omitempty"` // entries of R_LIBS_USER
	RUserOK bool              `json:"ruser_ok,omitempty"`
	Missing []string          `json:"missing,omitempty"`
	Expr    string            `json:"expr,omitempty"`
	Exit    int               `json:"exit"`
	Out     string            `json:"out,omitempty"`
	Idx     int               `json:"-"` // position in the log
}

// Mono returns CLOCK_MONOTONIC in ns.
func Mono() int64 {
	var ts syscall.Timespec
	syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 1, uintptr(unsafe.Pointer(&ts)), 0)
	return ts.Nano()
}

// BasePkgs are the packages every R brings along.
var BasePkgs = []string{"base", "compiler", "datasets", "graphics", "grDevices", "grid", "methods", "parallel", "splines", "stats", "stats4", "tcltk", "tools", "utils"}

// RecPkgs are R's recommended packages.
var RecPkgs = []string{"Matrix", "boot", "class", "cluster", "codetools", "foreign", "KernSmooth", "lattice", "MASS", "mgcv", "nlme", "nnet", "rpart", "spatial", "survival"}

// IsBase tells whether p is a base package.
func IsBase(p string) bool {
	for _, b := range BasePkgs {
		if b == p {
			return true
		}
	}
	return false
}

// IsRec tells whether p is a recommended package.
func IsRec(p string) bool {
	for _, b := range RecPkgs {
		if b == p {
			return true
		}
	}
	return false
}

// DCF parses one DCF record.
func DCF(b []byte) map[string]string {
	m := map[string]string{}
	last := ""
	sc := bufio.NewScanner(bytes.NewReader(b))
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		l := strings.TrimSuffix(sc.Text(), "\r")
		if l == "" {
			if len(m) > 0 {
				break
			}
			continue
		}
		if l[0] == ' ' || l[0] == '\t' {
			if last != "" {
				m[last] += "\n" + strings.TrimSpace(l)
			}
			continue
		}
		i := strings.IndexByte(l, ':')
		if i < 0 {
			continue
		}
		last = l[:i]
		m[last] = strings.TrimSpace(l[i+1:])
	}
	return m
}

// DepNames returns the package names of a dependency field, R excluded.
func DepNames(f string) []string {
	var r []string
	for _, d := range strings.Split(f, ",") {
		d = strings.ReplaceAll(d, "\n", " ")
		if i := strings.IndexByte(d, '('); i >= 0 {
			d = d[:i]
		}
		d = strings.TrimSpace(d)
		if d != "" && d != "R" {
			r = append(r, d)
		}
	}
	return r
}

// ScanLib lists the packages of a library directory.
func ScanLib(dir string) Lib {
	l := Lib{Path: dir, Pkgs: map[string]Ent{}}
	es, err := os.ReadDir(dir)
	if err != nil {
		return l
	}
	for _, e := range es {
		if en, ok := ScanPkg(dir, e.Name()); ok {
			l.Pkgs[e.Name()] = en
		} else {
			l.Other = append(l.Other, e.Name())
		}
	}
	return l
}

// ScanPkg reads one package of a library directory.
func ScanPkg(dir, name string) (Ent, bool) {
	p := filepath.Join(dir, name)
	b, err := os.ReadFile(filepath.Join(p, "DESCRIPTION"))
	if err != nil {
		return Ent{}, false
	}
	d := DCF(b)
	if d["Package"] != name || d["Built"] == "" {
		return Ent{}, false
	}
	pl, _ := os.ReadFile(filepath.Join(p, "payload.txt"))
	return Ent{V: d["Version"], P: strings.TrimSpace(string(pl))}, true
}

// TarEntry is a file of a package archive.
type TarEntry struct {
	Name string
	Mode int64
	Dir  bool
	Link string
	Data []byte
}

// ReadTar reads a possibly gzip or bzip2 compressed tar file completely.
func ReadTar(path string) ([]TarEntry, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	return ReadTarBytes(b)
}

// ReadTarBytes is ReadTar on memory.
func ReadTarBytes(b []byte) ([]TarEntry, error) {
	var r io.Reader = bytes.NewReader(b)
	switch {
	case bytes.HasPrefix(b, []byte{0x1f, 0x8b}):
		g, err := gzip.NewReader(r)
		if err != nil {
			return nil, err
		}
		d, err := io.ReadAll(g)
		if err != nil {
			return nil, err
		}
		r = bytes.NewReader(d)
	case bytes.HasPrefix(b, []byte("BZh")):
		r = bzip2.NewReader(r)
	}
	if len(b) == 0 {
		return nil, errors.New("empty archive")
	}
	var es []TarEntry
	tr := tar.NewReader(r)
	for {
		h, err := tr.Next()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		d, err := io.ReadAll(tr)
		if err != nil {
			return nil, err
		}
		es = append(es, TarEntry{Name: h.Name, Mode: h.Mode, Dir: h.Typeflag == tar.TypeDir, Link: h.Linkname, Data: d})
	}
	if len(es) == 0 {
		return nil, errors.New("no entries")
	}
	return es, nil
}

// SortedKeys returns the keys of m in order.
func SortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
