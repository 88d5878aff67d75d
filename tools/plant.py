#!/usr/bin/env python3
"""Workbench for planted bugs (tools/bugs.py): make -> seeded/<id>/, confirm in a scratch copy, and see which checks notice.
   plant.py make ID..   plant.py catch ID.. [--checks C01,C02]   plant.py table"""
import sys, os, json, subprocess, shutil, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools")); sys.dont_write_bytecode = True
from bugs import BUGS
W = "/tmp/seedw"
DEMO = '''#!/bin/sh
# exit 0: the behaviour is as documented; nonzero: it is not
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
binread = { path = "$repo/binread"%s }
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo run --offline -q%s
'''
# a program that the derive macros have to reject
BAD = ''' || exit 1
cp "$here/bad.rs" "$d/src/main.rs"
if CARGO_TARGET_DIR="$d/target" cargo check --offline -q 2>/dev/null; then echo "panicked: bad.rs is accepted"; exit 1; fi
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def scratch():
    if not os.path.isdir(W): sh("cp -a /repo " + W)
    h = sh("git -C /repo rev-parse HEAD").stdout.strip()
    sh("cd %s && git checkout -q -f . && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq" % W)
    assert sh("git -C %s rev-parse HEAD" % W).stdout.strip() == h
def tests():
    """the stable tests that do not pass in the scratch copy"""
    os.makedirs("/tmp/seedvp", exist_ok=True)
    for f in ("env.sh", "test.sh"):
        open("/tmp/seedvp/" + f, "w").write(open("/opt/vp/" + f).read().replace("/repo", W).replace("/opt/vp/env.sh", "/tmp/seedvp/env.sh"))
    t = sh("bash /tmp/seedvp/test.sh /tmp/seedvp/out.json", executable="/bin/bash")
    base = json.load(open("/opt/vp/BASELINE.json")); out = json.load(open("/tmp/seedvp/out.json"))
    get = lambda j: set(j if isinstance(j, list) else j.get("passed") or j.get("tests") or j.get("stable"))
    return sorted(get(base) - get(out))
def edits(b):
    for f, old, new in b["edits"]:
        p = os.path.join(W, f); s = open(p).read()
        n = s.count(old)
        if n != 1: raise SystemExit("%s: %d matches of %r" % (f, n, old[:60]))
        open(p, "w").write(s.replace(old, new))
def make(i):
    b = BUGS[i]; scratch(); d = os.path.join(ROOT, "seeded", i); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % (", " + b["feat"] if b.get("feat") else "", BAD if b.get("bad") else ""))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "main.rs"), "w").write(b["main"])
    if b.get("bad"): open(os.path.join(d, "bad.rs"), "w").write(b["bad"])
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["what"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    r = sh("sh %s/demo.sh" % d, cwd=W)
    if r.returncode: print(i, "DEMO FAILS ON CLEAN:\n", r.stdout[-2500:]); return False
    edits(b)
    open(os.path.join(d, "patch.diff"), "w").write(sh("git -C %s diff" % W).stdout)
    bad = tests()
    if bad: print(i, "TESTS:", bad[:8]); return False
    r = sh("sh %s/demo.sh" % d, cwd=W)
    if r.returncode == 0: print(i, "DEMO PASSES WITH BUG"); return False
    if "panicked" not in r.stdout and not b.get("nopanic"): print(i, "DEMO ODD:\n", r.stdout[-1500:]); return False
    print(i, "ok:", [l for l in r.stdout.splitlines() if "panicked" in l or "left" in l or "right" in l][:4]); return True
def catch(i, checks=None):
    b = BUGS[i]; scratch()
    r = sh("git -C %s apply %s/seeded/%s/patch.diff" % (W, ROOT, i))
    if r.returncode: print(i, "PATCH DOES NOT APPLY", r.stdout); return
    out = []
    for c in checks or [b["prop"]]:
        t = time.time(); r = sh("cd %s && BR_REPO=%s BR_BUILD=/tmp/seedbuild ./check %s quick" % (ROOT, W, c))
        out.append("%s:%s(%ds)" % (c, {0: "missed", 1: "CAUGHT"}.get(r.returncode, "ERROR " + r.stdout[-800:]), time.time() - t))
        if r.returncode == 1: out.append([l for l in r.stdout.splitlines() if "->" in l or "disagree" in l][:1])
    print(i, *out, flush=True)
    p = os.path.join(ROOT, "doc", "caught.json"); j = json.load(open(p)) if os.path.exists(p) else {}
    for o in out:
        if isinstance(o, str): j.setdefault(i, {})[o.split(":")[0]] = "caught" if "CAUGHT" in o else "missed" if "missed" in o else "error"
    json.dump(j, open(p, "w"), indent=1, sort_keys=True)
if __name__ == "__main__":
    a = sys.argv[1]; ids = [x for x in sys.argv[2:] if not x.startswith("--")] or list(BUGS)
    ch = [x.split("=")[1].split(",") for x in sys.argv if x.startswith("--checks=")]
    for i in ids:
        if a == "make": make(i)
        elif a == "catch": catch(i, ch[0] if ch else None)
        elif a == "both":
            if make(i): catch(i, ch[0] if ch else None)
            else: shutil.rmtree(os.path.join(ROOT, "seeded", i), ignore_errors=True)
