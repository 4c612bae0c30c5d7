"""seed(id, property, needs, breaks, edits, demo): writes /verif/seeded/<id> from textual edits against /repo's HEAD."""
import json, os, shutil, subprocess, sys, tempfile

REPO = "/repo"
HERE = os.path.dirname(os.path.abspath(__file__))


def seed(id, prop, needs, breaks, edits, demo):
    d = os.path.join(os.path.dirname(HERE), "seeded", id)
    w = tempfile.mkdtemp(prefix="/tmp/mk-")
    try:
        subprocess.run("git -C %s archive HEAD | tar x -C %s && cd %s && git init -q && git add -A -f && git -c user.name=x -c user.email=x@x commit -qm x" % (REPO, w, w), shell=True, check=True)
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit("%s: %s: %d matches of %r" % (id, f, s.count(old), old))
            open(p, "w").write(s.replace(old, new))
        r = subprocess.run(["go", "build", "./..."], cwd=w, env=dict(os.environ, GOFLAGS="-mod=readonly -buildvcs=false", GOPROXY="off"))
        if r.returncode:
            sys.exit(id + ": does not build")
        diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(w)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nsys.dont_write_bytecode = True\nfrom kit import *\n\n" + demo.strip("\n") + "\n")
    for f in ("kit.py", "demo.sh"):
        shutil.copy(os.path.join(HERE, f), d)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", id)
