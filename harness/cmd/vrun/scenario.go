package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"fmt"
	"hash/fnv"
	"math/rand"
	"regexp"
	"slices"
	"sort"
	"strings"

	"vh/proto"
)

// Pkg is a package a repository offers, a tarball, a DESCRIPTION file or a preinstalled package.
type Pkg struct {
	Name      string   `json:"name"`
	Version   string   `json:"version"`
	Depends   []string `json:"depends,omitempty"`
	Imports   []string `json:"imports,omitempty"`
	LinkingTo []string `json:"linkingto,omitempty"`
	Suggests  []string `json:"suggests,omitempty"`
	RReq      string   `json:"rreq,omitempty"`   // ">= 4.1", "*" for R without a version
	Extra     string   `json:"extra,omitempty"`  // further DESCRIPTION lines
	SizeK     int      `json:"size_k,omitempty"` // incompressible payload
	Payload   string   `json:"payload,omitempty"`
	IdxPath   string   `json:"idx_path,omitempty"`  // Path field in the index
	NoFile    bool     `json:"no_file,omitempty"`   // listed but not served
	NoIndex   bool     `json:"no_index,omitempty"`  // served but not listed
	DescText  string   `json:"desc_text,omitempty"` // the DESCRIPTION file as a whole
	Raw       []byte   `json:"raw,omitempty"`       // served instead of the package
}

// Repo is one repository.
type Repo struct {
	Name     string `json:"name"`
	Kind     string `json:"kind,omitempty"` // "" http, https, local
	Type     string `json:"type,omitempty"`
	RepoType string `json:"repo_type,omitempty"`
	Suffix   string `json:"suffix,omitempty"`
	Src      []Pkg  `json:"src,omitempty"`
	Bin      []Pkg  `json:"bin,omitempty"`
	Mirror   int    `json:"mirror,omitempty"` // status that redirects every request to another place
	Slash    bool   `json:"slash,omitempty"`  // URL with trailing slash
	Cred     bool   `json:"cred,omitempty"`   // URL with user and password
	URL      string `json:"url,omitempty"`    // override
	CRLF     bool   `json:"crlf,omitempty"`
	Style    int    `json:"style,omitempty"` // how the index is written
	Dir      string `json:"dir,omitempty"`   // server directory, default Name
	Tag      string `json:"tag,omitempty"`   // name in the payloads, default Name
	RSPM     bool   `json:"rspm,omitempty"`  // customized as RSPM, which changes nothing
	Cert     string `json:"cert,omitempty"`  // https: what is wrong with the certificate beside its issuer
}

// Cust is a package customisation.
type Cust struct {
	Suggests *bool             `json:"suggests,omitempty"`
	Repo     string            `json:"repo,omitempty"`
	Type     string            `json:"type,omitempty"`
	Env      map[string]string `json:"env,omitempty"`
}

// Scenario describes a world completely.
type Scenario struct {
	Repos         []Repo            `json:"repos"`
	Packages      []string          `json:"packages"`
	CustStyle     int               `json:"cust_style,omitempty"` // how customizations are written, bits
	Spell         int               `json:"spell,omitempty"`      // how types are written
	Tarballs      []Pkg             `json:"tarballs,omitempty"`
	Descs         []Pkg             `json:"descs,omitempty"`
	Pre           []Pkg             `json:"pre,omitempty"`
	PreFiles      map[string]string `json:"pre_files,omitempty"` // other library content, path -> content
	Suggests      bool              `json:"suggests,omitempty"`
	NoRecommended bool              `json:"norec,omitempty"`
	NoUpdate      bool              `json:"noupdate,omitempty"`
	NoRollback    bool              `json:"norollback,omitempty"`
	Strict        bool              `json:"strict,omitempty"`
	NoSecure      bool              `json:"nosecure,omitempty"`
	Ignore        []string          `json:"ignore,omitempty"`
	Cust          map[string]Cust   `json:"cust,omitempty"`
	Threads       int               `json:"threads,omitempty"`
	NoLib         bool              `json:"nolib,omitempty"` // library absent at the start
	LibPath       string            `json:"libpath,omitempty"`
	LibLink       bool              `json:"lib_link,omitempty"`  // the library is a link to a folder elsewhere
	CachePath     string            `json:"cachepath,omitempty"` // relative to the world
	XDGCache      bool              `json:"xdg_cache,omitempty"` // no Cache setting
	LogAll        string            `json:"log_all,omitempty"`
	LogInstall    string            `json:"log_install,omitempty"`
	LogOver       bool              `json:"log_over,omitempty"`
	LogLevel      string            `json:"log_level,omitempty"`
	RPath         string            `json:"rpath,omitempty"`
	Lockfile      string            `json:"lockfile,omitempty"`
	NoLibrary     bool              `json:"no_library_setting,omitempty"`
	ExtraYml      string            `json:"extra_yml,omitempty"`
	RawYml        string            `json:"raw_yml,omitempty"`
	Ctl           proto.Control     `json:"ctl"`
	Faults        []*Fault          `json:"faults,omitempty"`
	Env           map[string]string `json:"env,omitempty"`
	Note          string            `json:"note,omitempty"`
	UseRealR      bool              `json:"real_r,omitempty"`
}

const defPlatform = "x86_64-pc-linux-gnu"

// tag names the repository in payloads.
func (r *Repo) tag() string {
	if r.Tag != "" {
		return r.Tag
	}
	return r.Name
}

func payloadOf(repo, typ string, p Pkg) string {
	if p.Payload != "" {
		return p.Payload
	}
	return repo + "/" + typ + "/" + p.Name + "/" + p.Version
}

func (p Pkg) depLines() string {
	var b strings.Builder
	deps := append([]string{}, p.Depends...)
	if p.RReq == "*" { // any version
		deps = append([]string{"R"}, deps...)
	} else if p.RReq != "" {
		deps = append([]string{"R (" + p.RReq + ")"}, deps...)
	}
	// R accepts a comma after the last package, and fields without any
	style := p.style() % 6
	put := func(n string, v []string) {
		switch {
		case len(v) > 0 && style == 0:
			fmt.Fprintf(&b, "%s: %s,\n", n, strings.Join(v, ", "))
		case len(v) > 0:
			fmt.Fprintf(&b, "%s: %s\n", n, strings.Join(v, ", "))
		case style == 1:
			fmt.Fprintf(&b, "%s:\n", n)
		}
	}
	put("Depends", deps)
	put("Imports", p.Imports)
	put("LinkingTo", p.LinkingTo)
	put("Suggests", p.Suggests)
	return b.String()
}

func (p Pkg) style() uint32 {
	h := fnv.New32a()
	h.Write([]byte(p.Name + " " + p.Version))
	return h.Sum32() >> 4
}

var fieldStart = regexp.MustCompile(`(?m)^(\w+): `)

// broken puts line breaks wherever they are allowed.
func broken(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(fieldStart.ReplaceAllString(s, "$1:\n    "), ", ", ",\n    "), "(>= ", "(>=\n    ")
}

// description is the DESCRIPTION file of the source package.
func (p Pkg) description() string {
	if p.DescText != "" {
		return p.DescText
	}
	s := fmt.Sprintf("Package: %s\nVersion: %s\nTitle: Test Package\nDescription: A package\n    made for tests.\nLicense: GPL-3\nAuthor: nobody\nMaintainer: nobody <nobody@example.org>\n", p.Name, p.Version)
	if p.style()/6%3 == 0 {
		s += broken(p.depLines())
	} else {
		s += p.depLines()
	}
	if p.Extra != "" {
		s += strings.TrimRight(p.Extra, "\n") + "\n"
	}
	return s
}

// indexEntry is the entry of a repository index; sum is the MD5 sum of the package file.
func (p Pkg) indexEntry(style int, sum string) string {
	head := fmt.Sprintf("Package: %s\nVersion: %s\n", p.Name, p.Version)
	if sum != "" {
		sum = "MD5sum: " + sum + "\n"
	}
	s := ""
	switch style {
	case 1: // nothing but what is needed
		s = head + p.depLines()
	case 2: // long fields broken as write.dcf does
		s = head + strings.NewReplacer(", ", ",\n        ", "(>= ", "(>=\n        ").Replace(p.depLines()) + "License: GPL-3\n" + sum
	case 3: // as PPM writes it
		s = head + "Priority: optional\n" + p.depLines() + "Enhances: nothing, nobody (>= 1.0)\nLicense: MIT + file LICENSE\nLicense_is_FOSS: yes\nArchs: i386, x64\nOS_type: unix\n" + sum + "NeedsCompilation: yes\n"
	default:
		s = head + p.depLines() + "License: GPL-3\n" + sum + "NeedsCompilation: no\n"
	}
	if p.IdxPath != "" {
		s += "Path: " + p.IdxPath + "\n"
	}
	return s
}

func blob(seed string, k int) []byte {
	h := fnv.New64a()
	h.Write([]byte(seed))
	r := rand.New(rand.NewSource(int64(h.Sum64())))
	b := make([]byte, k<<10)
	r.Read(b)
	return b
}

type tfile struct {
	name string
	mode int64
	data []byte
}

func mkTar(fs []tfile) []byte {
	var buf bytes.Buffer
	g, _ := gzip.NewWriterLevel(&buf, gzip.BestSpeed)
	t := tar.NewWriter(g)
	dirs := map[string]bool{}
	for _, f := range fs {
		parts := strings.Split(f.name, "/")
		for i := 1; i < len(parts); i++ {
			d := strings.Join(parts[:i], "/") + "/"
			if !dirs[d] {
				dirs[d] = true
				t.WriteHeader(&tar.Header{Name: d, Mode: 0755, Typeflag: tar.TypeDir})
			}
		}
		if f.name != "" && !strings.HasSuffix(f.name, "/") {
			t.WriteHeader(&tar.Header{Name: f.name, Mode: f.mode, Size: int64(len(f.data)), Typeflag: tar.TypeReg})
			t.Write(f.data)
		}
	}
	t.Close()
	g.Close()
	return buf.Bytes()
}

// srcFiles are the files of the source package.
func (p Pkg) srcFiles(payload string) []tfile {
	n := p.Name + "/"
	fs := []tfile{
		{n + "DESCRIPTION", 0644, []byte(p.description())},
		{n + "NAMESPACE", 0644, []byte("export(f)\n")},
		{n + "R/code.R", 0644, []byte("f <- function() \"" + payload + "\"\n")},
		{n + "inst/payload.txt", 0644, []byte(payload + "\n")},
		{n + "inst/bin/tool.sh", 0755, []byte("#!/bin/sh\necho " + p.Name + "\n")},
	}
	if p.SizeK > 0 {
		fs = append(fs, tfile{n + "inst/big.bin", 0644, blob(payload, p.SizeK)})
	}
	return fs
}

// instFiles are the files of the installed package, relative to its directory.
func (p Pkg) instFiles(payload, rver string) []tfile {
	fs := []tfile{
		{"DESCRIPTION", 0644, []byte(strings.TrimRight(p.description(), "\r\n") + "\nBuilt: R " + rver + "; ; 2024-01-01 00:00:00 UTC; unix\n")},
		{"NAMESPACE", 0644, []byte("export(f)\n")},
		{"R/" + p.Name, 0644, []byte("f <- function() \"" + payload + "\"\n")},
		{"payload.txt", 0644, []byte(payload + "\n")},
		{"bin/tool.sh", 0755, []byte("#!/bin/sh\necho " + p.Name + "\n")},
	}
	if p.SizeK > 0 {
		fs = append(fs, tfile{"big.bin", 0644, blob(payload, p.SizeK)})
	}
	return fs
}

func (p Pkg) srcTar(payload string) []byte {
	if p.Raw != nil {
		return p.Raw
	}
	return mkTar(p.srcFiles(payload))
}

func (p Pkg) binTar(payload, rver string) []byte {
	if p.Raw != nil {
		return p.Raw
	}
	var fs []tfile
	for _, f := range p.instFiles(payload, rver) {
		f.name = p.Name + "/" + f.name
		fs = append(fs, f)
	}
	return mkTar(fs)
}

// bareYml matches what can be written without quotes.
var bareYml = regexp.MustCompile(`^[A-Za-z0-9][A-Za-z0-9._/+-]*$`)

func yq(s string) string {
	return "\"" + strings.ReplaceAll(strings.ReplaceAll(s, "\\", "\\\\"), "\"", "\\\"") + "\""
}

// yml renders pkgr.yml; url gives the URL of a repository.
func (sc *Scenario) yml(w *World) string {
	if sc.RawYml != "" {
		return sc.RawYml
	}
	var b strings.Builder
	f := func(s string, a ...any) { fmt.Fprintf(&b, s, a...) }
	f("Version: 1\n# packages to install\nPackages:\n")
	for _, p := range sc.Packages {
		f("  - %s\n", p)
	}
	if len(sc.Repos) > 0 {
		f("Repos:\n")
		for i := range sc.Repos {
			f("  - %s: %s\n", sc.Repos[i].Name, yq(w.RepoURL(&sc.Repos[i])))
		}
	}
	if !sc.NoLibrary {
		f("Library: %s\n", yq(w.libSetting()))
	}
	if !sc.XDGCache {
		f("Cache: %s\n", yq(w.CacheDir()))
	}
	list := func(n string, v []string) {
		if len(v) > 0 {
			f("%s:\n", n)
			for _, x := range v {
				f("  - %s\n", yq(x))
			}
		}
	}
	list("IgnorePackages", sc.Ignore)
	var ts, ds []string
	for _, t := range sc.Tarballs {
		ts = append(ts, "tarballs/"+t.Name+"_"+t.Version+".tar.gz")
	}
	for _, d := range sc.Descs {
		ds = append(ds, "descs/"+d.Name+"/DESCRIPTION")
	}
	list("Tarballs", ts)
	list("Descriptions", ds)
	flag := func(n string, v bool) {
		if v {
			f("%s: true\n", n)
		}
	}
	flag("Suggests", sc.Suggests)
	flag("NoRecommended", sc.NoRecommended)
	flag("NoUpdate", sc.NoUpdate)
	flag("NoRollback", sc.NoRollback)
	flag("Strict", sc.Strict)
	flag("NoSecure", sc.NoSecure)
	if sc.Threads != 0 {
		f("Threads: %d\n", sc.Threads)
	}
	if sc.RPath != "" {
		f("RPath: %s\n", yq(sc.RPath))
	}
	if sc.Lockfile != "" {
		f("Lockfile:\n  Type: %s\n", sc.Lockfile)
	}
	if sc.LogAll != "" || sc.LogInstall != "" || sc.LogLevel != "" {
		f("Logging:\n")
		if sc.LogAll != "" {
			f("  All: %s\n", yq(sc.LogAll))
		}
		if sc.LogInstall != "" {
			f("  Install: %s\n", yq(sc.LogInstall))
		}
		if sc.LogLevel != "" {
			f("  Level: %s\n", sc.LogLevel)
		}
		if sc.LogOver {
			f("  Overwrite: true\n")
		}
	}
	var rc []Repo
	for _, r := range sc.Repos {
		if r.Type != "" || r.RepoType != "" || r.Suffix != "" || r.RSPM {
			rc = append(rc, r)
		}
	}
	if len(sc.Cust) > 0 || len(rc) > 0 {
		f("Customizations:\n")
		if len(sc.Cust) > 0 {
			f("  Packages:\n")
			// setting names in any case, the settings of a package in one entry or several, entries without any
			name := func(s string) string {
				if sc.CustStyle&1 != 0 {
					return strings.ToLower(s)
				}
				return s
			}
			if sc.CustStyle&4 != 0 {
				for i, p := range sc.Packages {
					if _, ok := sc.Cust[p]; !ok && i < 2 {
						f("    - %s:\n", p)
					}
				}
			}
			ks := proto.SortedKeys(sc.Cust)
			for _, k := range ks {
				c := sc.Cust[k]
				f("    - %s:\n", k)
				n := 0
				next := func() {
					if n++; n > 1 && sc.CustStyle&2 != 0 {
						f("    - %s:\n", k)
					}
				}
				parts := []func(){}
				parts = append(parts, func() {
					if c.Suggests != nil {
						next()
						f("        %s: %v\n", name("Suggests"), *c.Suggests)
					}
				}, func() {
					if c.Repo != "" {
						next()
						f("        %s: %s\n", name("Repo"), c.Repo)
					}
				}, func() {
					if c.Type != "" {
						next()
						f("        %s: %s\n", name("Type"), spellType(sc.Spell, c.Type))
					}
				}, func() {
					if len(c.Env) == 0 {
						return
					}
					next()
					f("        %s:\n", name("Env"))
					es := proto.SortedKeys(c.Env)
					sort.Strings(es)
					for _, e := range es {
						v := yq(c.Env[e])
						if sc.CustStyle&8 != 0 && bareYml.MatchString(c.Env[e]) && c.Env[e] != "null" {
							v = c.Env[e]
						}
						f("          %s: %s\n", e, v)
					}
				})
				if sc.CustStyle&16 != 0 {
					slices.Reverse(parts)
				}
				for _, p := range parts {
					p()
				}
			}
		}
		if len(rc) > 0 {
			f("  Repos:\n")
			for _, r := range rc {
				f("    - %s:\n", r.Name)
				if r.Type != "" {
					f("        Type: %s\n", spellType(sc.Spell, r.Type))
				}
				if r.RepoType != "" {
					f("        RepoType: %s\n", spellType(sc.Spell, r.RepoType))
				} else if r.RSPM {
					f("        RepoType: %s\n", spellType(sc.Spell, "RSPM"))
				}
				if r.Suffix != "" {
					f("        RepoSuffix: %s\n", r.Suffix)
				}
			}
		}
	}
	b.WriteString(sc.ExtraYml)
	return b.String()
}

// spellType writes a type in upper or lower case or with a capital.
func spellType(how int, t string) string {
	switch how {
	case 1:
		return strings.ToUpper(t)
	case 2:
		return strings.ToLower(t)
	case 3:
		return strings.ToUpper(t[:1]) + strings.ToLower(t[1:])
	}
	return t
}
