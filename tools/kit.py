"""Scratch worlds for demonstrations: builds pkgr from the working directory and runs it,
unprivileged, in a temporary directory with a stand-in for R and local or HTTP repositories."""
import atexit, gzip, hashlib, http.server, io, json, os, shutil, signal, subprocess, sys, tarfile, tempfile, threading, time

UID = 65534
FAKER = r'''#!/usr/bin/python3 -SE
import gzip, io, json, os, shutil, signal, sys, tarfile, time
root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ctl = json.load(open(root + "/ctl.json"))
BASE = set("R base compiler datasets graphics grDevices grid methods parallel splines stats stats4 tcltk tools utils".split())
def log(**e):
    e["pid"] = os.getpid()
    e["t"] = time.monotonic()
    fd = os.open(root + "/events.jsonl", os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o666)
    os.write(fd, (json.dumps(e) + "\n").encode())
    os.close(fd)
def dcf(s):
    d, k = {}, None
    for l in s.splitlines():
        if l[:1] in " \t" and k: d[k] += " " + l.strip()
        elif ":" in l:
            k, v = l.split(":", 1); d[k] = v.strip()
    return d
def libs(first):
    r = []
    for p in [first] + ":".join(os.environ.get(v, "") for v in ("R_LIBS", "R_LIBS_USER", "R_LIBS_SITE")).split(":"):
        if p and os.path.isdir(p) and p not in r: r.append(p)
    return r
def inlib(l):
    return {n for n in os.listdir(l) if os.path.isfile(os.path.join(l, n, "DESCRIPTION"))}
def names(s):
    return [x.split("(")[0].strip() for x in s.split(",") if x.split("(")[0].strip()]
a = sys.argv[1:]
while a and a[0] in ("--vanilla", "--slave", "--no-restore", "--no-save", "--quiet"): a = a[1:]
env = dict(os.environ)
if os.path.basename(sys.argv[0]) == "Rscript":
    log(ev="rscript", args=sys.argv[1:], env=env)
    print("_pkgr_%s_pkgr_" % ctl.get("renvlib", ""))
    sys.exit(0)
if a == ["--version"]:
    log(ev="version", env=env)
    print('R version %s (2023-06-16) -- "Beagle Scouts"\nPlatform: %s (64-bit)' % (ctl["rversion"], ctl["platform"]))
    sys.exit(0)
if a[:1] == ["-e"]:
    n = a[1].split("'")[1] if "'" in a[1] else ""
    log(ev="expr", expr=a[1], pkg=n, env=env)
    where = next((l for l in libs("") if n in inlib(l)), "")
    if a[1].startswith("library("):
        log(ev="loadstart", pkg=n)
        time.sleep(ctl.get("loaddelay", 0))
        log(ev="loadend", pkg=n)
        if ctl.get("load", {}).get(n):
            sys.stderr.write("Error: cannot load\n"); sys.exit(1)
    elif ".libPaths" in a[1]:
        for i, l in enumerate(libs("") + ["/usr/lib/R/library"]): print('[%d] "%s"' % (i + 1, l))
        sys.exit(0)
    if not where:
        sys.stderr.write("there is no package called %s\n" % n); sys.exit(1)
    print('[1] "%s"\n[1] "%s"' % (where + "/" + n, dcf(open(where + "/" + n + "/DESCRIPTION").read())["Version"]))
    sys.exit(0)
if a[:2] != ["CMD", "INSTALL"]:
    sys.stdin.read()
    log(ev="session", args=sys.argv[1:], env=env, cwd=os.getcwd())
    sys.exit(0)
lib = next((x[10:] for x in a if x.startswith("--library=")), "")
src = [x for x in a[2:] if not x.startswith("--")][0]
files = {}
if os.path.isdir(src):
    for b, _, fs in os.walk(src):
        for f in fs: files[os.path.relpath(os.path.join(b, f), src)] = open(os.path.join(b, f), "rb").read()
else:
    try:
        with tarfile.open(src) as t:
            for m in t:
                if m.isfile(): files[m.name.split("/", 1)[1]] = t.extractfile(m).read()
    except Exception as e:
        log(ev="broken", path=src); sys.stderr.write("ERROR: %s\n" % e); sys.exit(1)
d = dcf(files["DESCRIPTION"].decode())
n, binary = d["Package"], "Built" in d
key = n + "/" + ("bin" if binary else "dir" if os.path.isdir(src) else "src")
have = set().union(*[inlib(l) for l in libs(lib)] or [set()])
need = [x for f in ("Depends", "Imports", "LinkingTo") for x in names(d.get(f, "")) if x not in BASE]
missing = [] if binary else [x for x in need if x not in have]
log(ev="start", pkg=n, ver=d["Version"], key=key, lib=lib, path=src, args=a, env=env, cwd=os.getcwd(), missing=missing, have=sorted(have))
if ctl.get("kill") == key: os.kill(os.getppid(), signal.SIGKILL); time.sleep(0.05)
k = ctl.get("chatter", {}).get(n)
if k: sys.stdout.write(k); sys.stdout.flush()
time.sleep(ctl.get("delay", {}).get(n, ctl.get("delay", {}).get("*", 0)))
def out(rc):
    log(ev="end", pkg=n, key=key, rc=rc)
    if rc: sys.stderr.write("ERROR: installation of package %s failed\n" % n)
    sys.exit(rc)
fail = ctl.get("fail", {}).get(n)
if missing or fail == "clean": out(1)
final = os.path.join(lib, n)
if fail == "dirty":
    shutil.rmtree(final, ignore_errors=True); os.makedirs(final + "/R"); open(final + "/R/partial", "w").write("x"); out(1)
tmp = os.path.join(lib, "00LOCK-" + n)
os.makedirs(tmp)
d["Built"] = "R " + ctl["rversion"]
for f, b in files.items():
    f = f[5:] if f.startswith("inst/") else f
    os.makedirs(os.path.dirname(os.path.join(tmp, f)), exist_ok=True)
    if f == "DESCRIPTION" and not binary: b = b.rstrip(b"\n") + b"\nBuilt: R " + ctl["rversion"].encode() + b"\n"
    open(os.path.join(tmp, f), "wb").write(b)
shutil.rmtree(final, ignore_errors=True)
os.rename(tmp, final)
if "--build" in a:
    with tarfile.open("%s_%s_R_%s.tar.gz" % (n, d["Version"], ctl["platform"]), "w:gz") as t: t.add(final, n)
if ctl.get("killend") == key: os.kill(os.getppid(), signal.SIGKILL); time.sleep(0.05)
out(1 if fail == "late" else 0)
'''


def check(cond, msg):
    if not cond:
        print("BROKEN:", msg)
        sys.exit(1)


def tarball(entries, top):
    """Bytes of a gzipped tar file with the given {name: content} below top."""
    b = io.BytesIO()
    with gzip.GzipFile(fileobj=b, mode="wb", mtime=0) as g, tarfile.open(fileobj=g, mode="w") as t:
        for n, c in entries.items():
            if isinstance(c, str):
                c = c.encode()
            i = tarfile.TarInfo(top + "/" + n)
            i.size, i.mode = len(c), 0o644
            t.addfile(i, io.BytesIO(c))
    return b.getvalue()


class Pkg:
    def __init__(self, name, ver="1.0", tag="", size=0, **fields):
        self.name, self.ver, self.fields = name, ver, fields
        self.tag = tag or "%s-%s" % (name, ver)
        self.size = size

    def desc(self, built=False):
        s = "Package: %s\nVersion: %s\n" % (self.name, self.ver)
        for k, v in self.fields.items():
            if k not in ("path",):
                s += "%s: %s\n" % (k, v)
        return s + ("Built: R 4.3.1; ; 2024-01-01; unix\n" if built else "")

    def bytes(self, built=False):
        f = {"DESCRIPTION": self.desc(built), "NAMESPACE": "# %s\n" % self.name,
             ("" if built else "inst/") + "payload.txt": self.tag + ("/bin" if built else "/src") + "\n"}
        if self.size:
            f[("" if built else "inst/") + "big.bin"] = os.urandom(self.size)
        return tarball(f, self.name)


class World:
    def __init__(self, ldflags=""):
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="demo-"))
        self.kids = []
        atexit.register(self.close)
        os.chmod(self.root, 0o755)
        self.src = os.getcwd()
        self.exe = self.root + "/pkgr"
        subprocess.run(["go", "build", "-o", self.exe] + (["-ldflags", ldflags] if ldflags else []) + ["./cmd/pkgr"], check=True)
        for d in ("R/bin", "home", "tmp", "xdg", "proj/lib", "repos", "cache"):
            os.makedirs(self.p(d))
        for n in ("R", "Rscript"):
            open(self.p("R/bin/" + n), "w").write(FAKER)
            os.chmod(self.p("R/bin/" + n), 0o755)
        self.conf = {"rversion": "4.3.1", "platform": "x86_64-pc-linux-gnu"}
        self.env = {}
        self.reqs = []
        self.hook = None
        self.lib = self.p("proj/lib")

    def p(self, *a):
        return os.path.join(self.root, *a)

    def close(self):
        for k in self.kids:
            k.shutdown()
        self.kids = []
        if self.root and os.path.isdir(self.root):
            subprocess.run(["chmod", "-R", "u+rwx", self.root])
            shutil.rmtree(self.root, ignore_errors=True)

    def put(self, path, data):
        path = self.p(path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode())
        return path

    def repo(self, name, pkgs, binaries=(), codename="noble", extra="", gz=False):
        """A CRAN-like repository below repos/<name>; gives its path."""
        def index(ps):
            return "\n".join(p.desc() + ("Path: %s\n" % p.fields["path"] if "path" in p.fields else "") for p in ps) + extra
        d = "repos/%s/src/contrib/" % name
        self.put(d + "PACKAGES", index(pkgs))
        for p in pkgs:
            sub = p.fields.get("path", "")
            self.put(d + (sub + "/" if sub else "") + "%s_%s.tar.gz" % (p.name, p.ver), p.bytes())
        if binaries:
            b = "repos/%s/bin/linux/ubuntu/%s/contrib/4.3/" % (name, codename)
            self.put(b + "PACKAGES", index(binaries))
            for p in binaries:
                self.put(b + "%s_%s_R_x86_64-pc-linux-gnu.tar.gz" % (p.name, p.ver), p.bytes(True))
        return self.p("repos", name)

    def serve(self):
        """Serves repos/ over HTTP; hook(path) may return (status, bytes) or a function(handler)."""
        w = self

        class H(http.server.BaseHTTPRequestHandler):
            def log_message(self, *a):
                pass

            def do_GET(self):
                w.reqs.append(self.path)
                r = w.hook(self.path) if w.hook else None
                if callable(r):
                    return r(self)
                if r is None:
                    f = w.p("repos", self.path.lstrip("/"))
                    r = (200, open(f, "rb").read()) if os.path.isfile(f) else (404, b"not found")
                self.send_response(r[0])
                self.send_header("Content-Length", str(len(r[1])))
                self.end_headers()
                self.wfile.write(r[1])
        s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        threading.Thread(target=s.serve_forever, daemon=True).start()
        self.kids.append(s)
        return "http://127.0.0.1:%d" % s.server_port

    def yml(self, text):
        self.put("proj/pkgr.yml", text)

    def preinstall(self, pkg, lib=None, pkgr=True, repo="", url=""):
        d = os.path.join(lib or self.lib, pkg.name)
        self.put(d + "/DESCRIPTION", pkg.desc() + ("PkgrVersion: 9\nPkgrInstallType: source\nPkgrRepositoryURL: %s\nRepository: %s\n" % (url, repo) if pkgr else ""))
        self.put(d + "/payload.txt", pkg.tag + "/old\n")

    def own(self):
        for b, ds, fs in os.walk(self.root):
            for n in [b] + [os.path.join(b, f) for f in fs]:
                os.lchown(n, UID, UID)

    def start(self, *args, cwd=None, env=None, stdin=None):
        json.dump(self.conf, open(self.p("ctl.json"), "w"))
        self.own()
        e = {"PATH": self.p("R/bin") + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "HOME": self.p("home"), "TMPDIR": self.p("tmp"),
             "XDG_CACHE_HOME": self.p("xdg"), "LANG": "C.UTF-8"}
        e.update(self.env)
        e.update(env or {})
        return subprocess.Popen([self.exe] + list(args), cwd=cwd or self.p("proj"), env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                text=True, errors="replace", user=UID, group=UID, extra_groups=[], umask=0o022)

    def pkgr(self, *args, timeout=60, **kw):
        p = self.start(*args, **kw)
        try:
            p.stdout_text, p.stderr_text = p.communicate(timeout=timeout)
            p.hung = False
        except subprocess.TimeoutExpired:
            p.kill()
            p.stdout_text, p.stderr_text = p.communicate()
            p.hung = True
        return p

    def logs(self, p):
        r = []
        for l in (p.stdout_text + "\n" + p.stderr_text).splitlines():
            try:
                r.append(json.loads(l))
            except ValueError:
                pass
        return [x for x in r if isinstance(x, dict)]

    def events(self, ev=None):
        try:
            es = [json.loads(l) for l in open(self.p("events.jsonl"))]
        except FileNotFoundError:
            return []
        return [e for e in es if ev is None or e["ev"] == ev]

    def forget(self):
        for f in ("events.jsonl",):
            if os.path.exists(self.p(f)):
                os.remove(self.p(f))
        del self.reqs[:]

    def installed(self, lib=None):
        """{package: (version, payload)} of a library."""
        r = {}
        lib = lib or self.lib
        for n in sorted(os.listdir(lib)):
            d = os.path.join(lib, n)
            if not os.path.isdir(d):
                continue
            v = pay = ""
            try:
                v = [l.split(":", 1)[1].strip() for l in open(d + "/DESCRIPTION") if l.startswith("Version:")][0]
                pay = open(d + "/payload.txt").read().strip()
            except (OSError, IndexError):
                pass
            r[n] = (v, pay)
        return r

    def snap(self, d=None):
        """{relative path: digest} of a directory."""
        r = {}
        d = d or self.lib
        for b, ds, fs in os.walk(d):
            for n in ds:
                r[os.path.relpath(os.path.join(b, n), d) + "/"] = ""
            for n in fs:
                f = os.path.join(b, n)
                r[os.path.relpath(f, d)] = os.readlink(f) if os.path.islink(f) else hashlib.md5(open(f, "rb").read()).hexdigest()
        return r
