#!/usr/bin/env python3
"""mkseed.py FILE.py...: turns planted bug descriptions into /verif/seeded/<id>/ after checking
each in a scratch copy of /repo: it compiles, passes the stable tests, changes original lines,
and its demonstration passes without and fails with it. Not used by any check.

FILE.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo=<go source>, needs, breaks)]."""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
ROOT = os.path.dirname(HERE)
ENV = dict(os.environ, PATH="/usr/local/go/bin:" + os.environ["PATH"])
DEMO = '''#!/bin/bash
# %s
# Exit 0 when the property holds, nonzero when it does not. Run with the repository as cwd.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
cp "$here/main.go" "$dir/main.go"
cat > "$dir/go.mod" <<EOF
module github.com/tinne26/ggfnt/demo
go 1.21
require github.com/tinne26/ggfnt v0.0.0
replace github.com/tinne26/ggfnt => $repo
EOF
export PATH=/usr/local/go/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off HOME=${HOME:-/root}
cd "$dir"
go build %s-o demo .
timeout 100 ./demo
'''

def sh(cmd, cwd, timeout=280):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr

def stable(cwd):
    """names of the stable tests that do not pass"""
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    rc, out = sh(["go", "test", "-json", "./..."], cwd)
    got = set()
    for line in out.splitlines():
        try:
            e = json.loads(line)
        except ValueError:
            continue
        if e.get("Action") == "pass" and e.get("Test"):
            got.add(e["Package"] + "/" + e["Test"])
    return want - got

def make(b):
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        repo = os.path.join(tmp, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        base = subprocess.run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=repo, capture_output=True, text=True).stdout.split()[0]
        for path, old, new in b["edits"]:
            p = os.path.join(repo, path)
            s = open(p).read()
            if s.count(old) != 1:
                return "edit of %s matches %d times" % (path, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True).stdout
        # at least one removed or neighbouring line is original
        d = os.path.join(ROOT, "seeded", b["id"])
        if os.path.exists(d):
            shutil.rmtree(d)
        os.makedirs(d)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "main.go"), "w").write(b["demo"].lstrip())
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % (b["property"] + ": " + b["breaks"].split(".")[0].replace("\n", " "), "-race " if b.get("race") else ""))
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        rc, out = sh(["go", "vet", "./mask"], repo)
        rc, out = sh(["go", "build", "./..."], repo)
        if rc:
            return "does not build: " + out
        bad = stable(repo)
        if bad:
            return "breaks stable tests: %s" % bad
        rc, out = sh(["bash", os.path.join(d, "demo.sh")], repo)
        if rc == 0:
            return "demo passes with the patch: " + out[-500:]
        res = out[-300:]
        sh(["git", "checkout", "-q", "--", "."], repo)
        rc, out = sh(["bash", os.path.join(d, "demo.sh")], repo)
        if rc:
            return "demo fails on the unchanged tree: " + out[-1500:]
        # blame of the removed lines
        orig = []
        for path, old, new in b["edits"]:
            text = open(os.path.join(repo, path)).read()
            first = text[:text.index(old)].count("\n") + 1
            n = old.count("\n") + (0 if old.endswith("\n") else 1)
            bl = subprocess.run(["git", "blame", "-s", "-l", "-L%d,%d" % (first, first + n - 1), path], cwd=repo, capture_output=True, text=True).stdout
            orig.append(sum(1 for l in bl.splitlines() if l.lstrip("^").startswith(base[:39])) / max(1, n))
        return "ok (original lines %s) %s" % (["%.2f" % o for o in orig], res.strip().replace("\n", " | ")[-200:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == "__main__":
    only = [a for a in sys.argv[1:] if not a.endswith(".py")]
    for f in [a for a in sys.argv[1:] if a.endswith(".py")]:
        ns = {}
        exec(open(f).read(), ns)
        for b in ns["BUGS"]:
            if only and b["id"] not in only:
                continue
            print(b["id"], b["property"], make(b), flush=True)
