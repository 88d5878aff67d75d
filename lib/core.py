"""Shared machinery: build the harness, run TLC, replay, compare."""
import json, os, random, shutil, subprocess, sys, time, threading, resource, re, hashlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BR_REPO", "/repo")
BUILD = os.environ.get("BR_BUILD") or os.path.join(ROOT, ".build")
JARS = "/opt/veriftools/tla/tla2tools.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"

class ToolError(Exception): pass

def log(*a):
    print(*a, file=sys.stderr, flush=True)

# ------------------------------------------------------------------ cargo
FEATS = {"default": ("", []), "cg": ('features = ["const_generics"]', ["cg"]),
         "dbg": ('features = ["debug_template"]', ["dbg"]), "nostd": ("default-features = false", ["nostd"]),
         "nostdcg": ('default-features = false, features = ["const_generics"]', ["nostd"]),
         "all": ('features = ["debug_template", "const_generics"]', ["dbg"])}

_hash = None
def repo_hash():
    """identifies the sources, so that what is built from one tree is never used for another"""
    global _hash
    if _hash is None:
        h = hashlib.sha256()
        for top in ("binread", "binread_derive"):
            for r, ds, fs in sorted(os.walk(os.path.join(REPO, top))):
                ds[:] = sorted(x for x in ds if x != "target")
                for f in sorted(fs):
                    if f.endswith((".rs", ".toml")):
                        h.update(f.encode()); h.update(open(os.path.join(r, f), "rb").read())
        _hash = h.hexdigest()[:12]
        if os.path.isdir(BUILD):
            for x in os.listdir(BUILD):
                if x.startswith("target_") and not x.endswith(_hash): shutil.rmtree(os.path.join(BUILD, x), ignore_errors=True)
    return _hash

class BuildFail(Exception): pass

def cargo_env():
    e = dict(os.environ); e["CARGO_NET_OFFLINE"] = "true"; e["CARGO_TERM_COLOR"] = "never"
    e.pop("RUSTFLAGS", None)
    return e

def build_toml(d, name, feat):
    """the crate that depends on the tree under test, configured for a feature set"""
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    spec, fl = FEATS[feat]
    toml = '[package]\nname = "h_%s"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[features]\ndbg = []\nnostd = []\ncg = []\n' \
           '[[bin]]\nname = "h_%s"\npath = "src/main.rs"\n[dependencies]\nbinread = { path = "%s/binread"%s }\n' \
           '[profile.dev]\ndebug = false\nincremental = false\noverflow-checks = true\ndebug-assertions = true\n[profile.release]\nincremental = false\n' % (
               name.lower(), name.lower(), REPO, ", " + spec if spec else "")
    write(os.path.join(d, "Cargo.toml"), toml)
    lock = os.path.join(REPO, "Cargo.lock")
    if os.path.exists(lock): shutil.copy(lock, os.path.join(d, "Cargo.lock"))
    return fl

def build_harness(name, source, feat="default", main=None, release=False):
    """returns the path of the binary; BuildFail if the generated types do not compile"""
    d = os.path.join(BUILD, name + "_" + feat)
    fl = build_toml(d, name + "_" + feat, feat)
    if main is None:
        shutil.copy(os.path.join(ROOT, "harness", "rt.rs"), os.path.join(d, "src", "main.rs"))
        write(os.path.join(d, "src", "gen.rs"), source)
    else:
        write(os.path.join(d, "src", "main.rs"), main)
    tgt = os.path.join(BUILD, "target_" + feat + "_" + repo_hash())
    cmd = ["cargo", "build", "--offline", "-q", "--message-format=short"] + (["--release"] if release else [])
    if fl: cmd += ["--features", ",".join(fl)]
    p = subprocess.run(cmd, cwd=d, env=dict(cargo_env(), CARGO_TARGET_DIR=tgt), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        if "could not compile `h_" in p.stdout: raise BuildFail(p.stdout[-6000:])
        raise ToolError("cargo build failed:\n" + p.stdout[-4000:])
    return os.path.join(tgt, "release" if release else "debug", "h_" + name.lower() + "_" + feat)

def write(p, s):
    try:
        if open(p).read() == s: return
    except OSError: pass
    with open(p, "w") as f: f.write(s)

# ------------------------------------------------------------------ TLC
def run_tlc(name, module, cfg, env, workers=4, sim=None, depth=400, heap="6g", timeout=800, extra=()):
    """returns dict(states, distinct, out); raises ToolError when TLC itself reports a problem
    (an invariant of the design, a deadlock or an evaluation error: never the fault of the code under test)"""
    d = os.path.join(BUILD, "tlc_" + name); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for f in os.listdir(os.path.join(ROOT, "spec")):
        if f.endswith(".tla"): shutil.copy(os.path.join(ROOT, "spec", f), d)
    cfgp = os.path.join(d, "M.cfg"); write(cfgp, cfg)
    cp = ":".join([JARS] + [os.path.join("/opt/veriftools/tla", x) for x in os.listdir("/opt/veriftools/tla") if x.endswith(".jar") and x != "tla2tools.jar"])
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-cp", cp, "tlc2.TLC", "-metadir", os.path.join(d, "st"), "-noTE",
           "-workers", str(workers), "-config", cfgp]
    if sim: cmd += ["-simulate", "num=%d" % max(1, sim // workers), "-depth", str(depth), "-seed", str(SEED)]
    cmd += list(extra) + [os.path.join(d, module + ".tla")]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=d, env=dict(os.environ, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s" % name)
    out = p.stdout
    with open(os.path.join(d, "tlc.log"), "w") as f: f.write(out)
    st = dict(states=0, distinct=0, out=out, wall=time.time() - t)
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
    if m: st["states"], st["distinct"] = [int(x.replace(",", "")) for x in m[-1]]
    m = re.findall(r"The number of states generated: ([\d,]+)", out)
    if m and not st["states"]: st["states"] = st["distinct"] = int(m[-1].replace(",", ""))
    bad = [l for l in out.splitlines() if l.startswith("Error:") or "violated" in l]
    if bad or (not sim and "Model checking completed. No error has been found." not in out) or p.returncode not in (0,):
        raise ToolError("TLC: %s rc=%s\n%s\n...\n%s" % (name, p.returncode, "\n".join(bad), out[-5000:]))
    shutil.rmtree(os.path.join(d, "st"), ignore_errors=True)
    return st

# ------------------------------------------------------------------ replay
def canon_v(v):
    return [v["t"], v["n"], v["b"], [canon_v(x) for x in v["c"]]]

def canon_e(e):
    s = e["s"]; b = e["b"]
    if e["t"] == "assert" and b: s = "%s %d" % (s, b[0]); b = []
    if e["t"] == "assert": s = "".join(s.split())
    c = [canon_e(x) if e["t"] in ("enum", "named") else canon_v(x) for x in e["c"]]
    return [e["t"], e["n"], s, b, c]

def canon_got_e(e):
    if e[0] == "assert": e = [e[0], e[1], "".join(e[2].split())] + e[3:]
    if e[0] == "magic" and e[4] and isinstance(e[4][0], list): pass
    if e[0] in ("enum", "named"): e = e[:4] + [[canon_got_e(x) for x in e[4]]]
    return e

def canon_ev(e):
    if e["t"] == "t": return ["t", e["tag"]]
    return [e["t"], e["tag"], e["pos"], e["e"], e["cnt"], e["off"], e["a"]]

def run_harness(binary, lines, timeout=240, env=None):
    """feeds the lines to the harness; returns {id: parsed result}; a process that dies is data"""
    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    res = {}; todo = list(lines); crashes = 0
    while todo:
        p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, preexec_fn=lim,
                             env=dict(os.environ, **(env or {})))
        try:
            out, _ = p.communicate("\n".join(todo) + "\n", timeout=timeout)
            died = p.returncode != 0
            why = "process ended with status %s" % p.returncode
        except subprocess.TimeoutExpired:
            p.kill(); out, _ = p.communicate(); died = True; why = "no answer within %ds" % timeout
        last = None
        for l in out.split("\n"):
            if not l: continue
            i, _, rest = l.partition(" ")
            if rest:
                try: res[int(i)] = json.loads(rest)
                except ValueError: last = int(i)
            else: last = int(i)
        if not died: break
        if last is None:
            raise ToolError("harness died before reading its input: " + why)
        res[last] = {"panic": "CRASH: " + why, "r": [], "ev": []}
        k = next(j for j, l in enumerate(todo) if int(l.split(" ", 1)[0]) == last)
        todo = todo[k + 1:]
        crashes += 1
        if crashes > 20 or why.startswith("no answer"): break      # the rest counts as unanswered
    return res

def run_parallel(binary, lines, n=6, **kw):
    if len(lines) < 2000: return run_harness(binary, lines, **kw)
    parts = [lines[i::n] for i in range(n)]; outs = [None] * n; errs = []
    def go(i):
        try: outs[i] = run_harness(binary, parts[i], **kw)
        except Exception as e: errs.append(e)
    th = [threading.Thread(target=go, args=(i,)) for i in range(n)]
    [t.start() for t in th]; [t.join() for t in th]
    if errs: raise errs[0]
    r = {}
    for o in outs: r.update(o)
    return r

def make_input(b, case, rnd, variant):
    """turn the lazily chosen input of a behaviour into bytes.  Bytes nobody
    looked at are filled adversarially; input beyond the last byte needed may or may not exist."""
    mem = b["mem"]; eof = b["eof"]; bad = b["bad"]; hi = b["hi"]
    if eof >= 0: L = eof
    else:
        L = max(hi, bad + 1 if bad >= 0 else 0)
        if variant % 2 == 1: L += rnd.choice([1, 3, 17])
    fill = [0x00, None, 0xFF, 0x41][variant % 4]
    data = []
    for i in range(L):
        m = mem[i] if i < len(mem) else -1
        data.append(m if m >= 0 else (rnd.randrange(256) if fill is None else fill))
    return bytes(data)

def line(i, case, start, bad, slim, chunk, intr, data):
    j = lambda x: ".".join(map(str, x)) if x else "-"
    return "%d %d %d %d %d %s %s %s" % (i, case, start, bad, slim, j(chunk), j(intr), data.hex() if data else "-")

# ------------------------------------------------------------------ findings
def load_findings():
    p = os.path.join(ROOT, "known_findings.jsonl"); out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l: out.append(json.loads(l))
    return out

class Report:
    def __init__(self, prop):
        self.prop = prop; self.t0 = time.time(); self.viol = []; self.cov = {}; self.known = {}; self.assume = []
        self.level = "model_checking"
        self.findings = [f for f in load_findings() if f["property"] == prop and f.get("kind") == "known"]
        d = os.path.join(BUILD, "replays"); os.makedirs(d, exist_ok=True)
        for f in os.listdir(d):
            if f.startswith(prop + "-"): os.remove(os.path.join(d, f))
    def violation(self, what, detail, key=None):
        for f in self.findings:
            if key is not None and f["key"] == key:
                self.known[key] = f["what"]; return
        n = len(self.viol) + 1
        p = os.path.join(BUILD, "replays", "%s-%d.json" % (self.prop, n))
        self.seen = getattr(self, 'seen', {}); self.seen[what] = self.seen.get(what, 0) + 1
        if n <= 25 or self.seen[what] <= 2 and n < 5000:
            with open(p, "w") as f: json.dump(dict(property=self.prop, what=what, detail=detail), f, indent=1, default=str)
        self.viol.append((what, p))
    def done(self):
        ev = dict(property=self.prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=self.level,
                  coverage=self.cov, assumptions=self.assume, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
        for k, w in self.known.items(): print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        for what, p in self.viol[:5]:
            log("  -> " + what[:600])
        if self.viol:
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(self.viol[0][1], ROOT)))
            print("%d disagreement(s) in total" % len(self.viol))
            return 1
        print("%s: held on everything explored: %s" % (self.prop, {k: v for k, v in self.cov.items() if isinstance(v, (int, float))}))
        return 0
