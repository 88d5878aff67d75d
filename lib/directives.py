"""C22, first half: spec/Directives.tla against the derive macros, decided by rustc.

Every behaviour of the specification is a type with directives and what is wrong
with it.  Types that must be rejected go into one crate, types that must be
accepted into another; `cargo check` reports compile errors by line."""
from core import *
import core, model, random, re

INV = "SPECIFICATION Spec\nINVARIANTS DeclInv SetInv\n"
CTX = {"repr": "u8", "is_big": "true", "is_little": "true", "args_tuple": "()", "calc": "7u8", "parse_with": "pw", "count": "1usize",
       "offset": "0u64", "offset_after": "0u64", "pad_before": "1", "pad_after": "1", "align_before": "2", "align_after": "2",
       "seek_before": "binread::io::SeekFrom::Current(0)", "pad_size_to": "1", "import_tuple": "t: (u8,)"}

def spell(k, f, pl, withtry, mapped, rnd):
    """one directive"""
    v = CTX.get(k)
    if mapped and k == "import_tuple": v = "t: ()"       # the arguments go on to what is mapped
    if mapped and k == "import" and f == "listi": return "import()"
    if k in ("map", "try_map"):
        if pl == "field":
            t = "Option<u8>" if withtry else "u8"
            v = "|x: %s| x" % t if k == "map" else "|x: %s| -> Result<%s, EE> { Ok(x) }" % (t, t)
        else: v = rnd.choice(["mk", "|x: u8| mk(x)", "|x: u8| -> Self { mk(x) }"] if k == "map" else ["mkt", "|x: u8| if x == 3 { mkt(x) } else { Err(EE(1)) }", "|x: u8| -> Result<Self, EE> { mkt(x) }"])
    if k == "magic":
        return {"eq": "magic = 3u8", "paren": "magic(4u8)", "eq16": "magic = -3i16", "eqbytes": 'magic = b"ab"', "parenbytes": 'magic(b"cd")', "eqbyte": "magic = b'x'",
                "eqchar": "magic = 'x'", "parenchar": "magic('y')", "eqfloat": "magic = 1.5f32", "eqstr": 'magic = "ab"', "eqbool": "magic = true", "bare": "magic", "list0": "magic()",
                "eqident": "magic = MAGIC", "list2": "magic(3u8, 4u8)"}[f]
    if k == "import": return {"list0": "import()", "listi": "import(a: u8, b: u8)", "bare": "import", "eq": "import = a", "list1": "import(5)"}[f]
    if k == "args": return {"list0": "args()", "bare": "args", "eq": "args = 1"}[f]
    if f == "bare": return k
    if f == "eq": return "%s = %s" % (k, v or "true")
    if f == "paren": return "%s(%s)" % (k, v)
    if f == "list0": return k + "()"
    alt = "None" if withtry else "5u8"
    if f == "list1": return k + "(true)"
    if f == "list1c": return k + "(true,)"
    if f == "list2": return "%s(true, %s)" % (k, alt if k == "if" else "EE(1)") if k in ("if", "assert", "pre_assert") else "%s(%s, 1)" % (k, v)
    if f == "list3": return "%s(true, %s, 3)" % (k, alt if k == "if" else "EE(1)")
    if f == "strmsg": return k + '(true, "no")'
    if f == "strfmt": return k + '(true, "no {} {}", 1, 2)'
    raise ToolError("no spelling for %s %s" % (k, f))

PL = dict(struct=["struct", "field", "field"], tuple=["struct", "field", "field"], unit=["struct"], enum=["enum", "struct", "field", "struct", "field", "uvar"],
          uenum=["uenum", "uvar", "uvar", "uvar"], null=["uenum"], union=["struct", "field"])

def render(b, n, rnd):
    """(source lines, list of places per line: 0 is the type itself)"""
    pls = PL[b["shape"]]; at = {i + 1: [] for i in range(len(pls))}
    withtry = {i: any(h[0] == i and h[2] == "try" for h in b["hist"]) for i in at}
    mapped = {i: any(h[0] == i and h[2] in ("map", "try_map") for h in b["hist"]) for i in at}
    temp = any(h[2] == "temp" for h in b["hist"])
    att = {}
    for h in b["hist"]: att.setdefault(h[1], (h[0], []))[1].append(spell(h[2], h[3], pls[h[0] - 1], withtry[h[0]], mapped[h[0]], rnd))
    for i in sorted(att):
        p, ds = att[i]
        at[p].append("#[%s(%s%s)]" % (rnd.choice(["br", "br", "binread"]), ", ".join(ds), "," if rnd.random() < .2 else ""))
        if rnd.random() < .2: at[p].append(rnd.choice(["#[allow(dead_code)]", "#[doc = \"x\"]", "#[br()]"]))
    if "natt" in b and b["natt"] > len(att): at[1].append("#[br()]")
    A = lambda i: " ".join(at[i]) + " "
    ty = lambda i: "Option<u8>" if withtry[i] else "u8"
    d = "#[binread::derive_binread] " if temp or rnd.random() < .3 else "#[derive(binread::BinRead)] "
    s = b["shape"]; L = []; f0 = rnd.choice(["f0", "f0", "r#type", "reader", "error"]); f1 = rnd.choice(["f1", "r#in", "options", "pos", "value"])
    if s == "struct": L = [(0, d), (1, A(1)), (0, "pub struct T%d {" % n), (2, A(2) + "pub %s: %s," % (f0, ty(2))), (3, A(3) + "pub %s: %s }" % (f1, ty(3)))]
    elif s == "tuple": L = [(0, d), (1, A(1)), (0, "pub struct T%d(" % n), (2, A(2) + "pub %s," % ty(2)), (3, A(3) + "pub %s);" % ty(3))]
    elif s == "unit": L = [(0, d), (1, A(1)), (0, "pub struct T%d;" % n)]
    elif s == "enum": L = [(0, d), (1, A(1)), (0, "pub enum T%d {" % n), (2, A(2)), (0, "A {"), (3, A(3) + "%s: %s }," % (f0, ty(3))), (4, A(4)), (0, "B("), (5, A(5) + "%s )," % ty(5)), (6, A(6) + "C }")]
    elif s == "uenum": L = [(0, d), (1, A(1)), (0, "pub enum T%d {" % n), (2, A(2) + "A,"), (3, A(3) + "B,"), (4, A(4) + "C }")]
    elif s == "null": L = [(0, d), (1, A(1)), (0, "pub enum T%d {}" % n)]
    elif s == "union": L = [(0, d), (1, A(1)), (0, "pub union T%d {" % n), (2, A(2) + "pub f0: u8 }")]
    return [x[1] for x in L], [x[0] for x in L]

HEAD = """#![allow(warnings)]
#[derive(Clone, Copy, Debug)] pub struct EE(pub u8);
pub fn mk<T>(_: u8) -> T { loop {} }
pub fn mkt<T>(_: u8) -> Result<T, EE> { loop {} }
pub fn pw<R: binread::io::Read + binread::io::Seek>(r: &mut R, o: &binread::ReadOptions, _: ()) -> binread::BinResult<u8> { binread::BinRead::read_options(r, o, ()) }
pub const MAGIC: u8 = 1;
"""

def check_crate(name, parts, feat="default"):
    """parts: lists of (lines, places), one compilation unit each. Returns, per part, {item: [(place, message, is_macro_error)]}"""
    d = os.path.join(BUILD, name + "_" + feat); shutil.rmtree(os.path.join(d, "src"), ignore_errors=True); os.makedirs(os.path.join(d, "src"))
    spec, _ = FEATS[feat]
    write(os.path.join(d, "Cargo.toml"), '[package]\nname = "h_%s"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n' % name +
          "".join('[[bin]]\nname = "p%d"\npath = "src/p%d.rs"\n' % (i, i) for i in range(len(parts))) +
          '[dependencies]\nbinread = { path = "%s/binread"%s }\n[profile.dev]\ndebug = false\nincremental = false\n' % (REPO, ", " + spec if spec else ""))
    lock = os.path.join(REPO, "Cargo.lock")
    if os.path.exists(lock): shutil.copy(lock, os.path.join(d, "Cargo.lock"))
    where = []
    for k, items in enumerate(parts):
        src = HEAD.rstrip("\n").split("\n"); where.append({})
        for i, (ls, ps) in enumerate(items):
            for l, p in zip(ls, ps):
                src.append(l); where[k][len(src)] = (i, p)
        src.append("fn main() {}")
        write(os.path.join(d, "src", "p%d.rs" % k), "\n".join(src) + "\n")
    tgt = os.path.join(BUILD, "target_check_" + feat + "_" + repo_hash())
    p = subprocess.run(["cargo", "check", "--offline", "-q", "--keep-going", "--message-format=json"], cwd=d, env=dict(cargo_env(), CARGO_TARGET_DIR=tgt), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    out = [{} for _ in parts]; other = []; n = 0
    for l in p.stdout.splitlines():
        try: m = json.loads(l)
        except ValueError: continue
        if m.get("reason") != "compiler-message" or not m["message"].get("level", "").startswith("error"): continue
        msg = m["message"]; t = m.get("target", {}).get("name", "")
        if not re.fullmatch(r"p\d+", t): raise ToolError("%s does not compile: %s" % (t, msg.get("rendered", "")[:2000]))
        k = int(t[1:]); hit = set()
        for s in [s for s in msg["spans"] if s.get("is_primary")] or msg["spans"]:
            while s:
                if s["file_name"].endswith("src/%s.rs" % t) and s["line_start"] in where[k]: hit.add(where[k][s["line_start"]]); break
                s = (s.get("expansion") or {}).get("span")
        n += 1
        if not hit and not msg["message"].startswith("aborting due to"): other.append(msg["message"])
        for i, pl in hit: out[k].setdefault(i, []).append((pl, msg["message"], msg.get("code") is None))
    if p.returncode != 0 and not n: raise ToolError("cargo check failed: " + p.stderr[-3000:])
    if other: raise ToolError("errors that belong to no type: %s" % other[:5])
    return out

def jobs():
    T = THOROUGH
    ALL = ["struct", "field", "enum", "uenum", "uvar"]
    J = [("forms1", dict(mode="forms", shapes=["struct", "tuple", "unit", "enum", "uenum", "null", "union"], places=ALL, min=0, max=1, attrs=1), None),
         ("fields2", dict(mode="pairs", shapes=["struct"], places=["field"], min=2, max=2, attrs=2), None),
         ("tops2", dict(mode="pairs", shapes=["unit", "enum"], places=["struct", "enum", "uvar"], min=2, max=2, attrs=2), None),
         ("uenum3", dict(mode="pairs", shapes=["uenum"], places=["uenum", "uvar"], min=2, max=3, attrs=3), None),
         ("mix", dict(mode="mix", shapes=["struct", "tuple", "enum", "uenum"], places=ALL, min=2, max=9, attrs=6), 6000 if not T else 30000),
         ("legal", dict(mode="pairs", shapes=["struct", "tuple", "enum", "uenum"], places=ALL, min=3, max=12, attrs=8), 6000 if not T else 30000)]
    if T: J += [("tuple2", dict(mode="pairs", shapes=["tuple"], places=["field"], min=2, max=2, attrs=2), None),
                ("enumf2", dict(mode="pairs", shapes=["enum"], places=["field"], min=2, max=2, attrs=2), None),
                ("forms2", dict(mode="forms", shapes=["struct"], places=["struct", "field"], min=2, max=2, attrs=2), None),
                ("uforms2", dict(mode="forms", shapes=["uenum", "unit"], places=ALL, min=2, max=2, attrs=2), None)]
    return J

def explore(j):
    name, par, sim = j
    d = os.path.join(BUILD, "run"); os.makedirs(d, exist_ok=True)
    pp = os.path.join(d, "C22_%s.json" % name); op = os.path.join(d, "C22_%s.out.jsonl" % name)
    with open(pp, "w") as f: json.dump(par, f)
    for w in (4, 1):
        if os.path.exists(op): os.remove(op)
        st = run_tlc("C22_" + name, "Directives", INV, dict(DIR_PAR=pp, DIR_OUT=op), workers=w, sim=sim, depth=80)
        try: st["beh"] = model.load_behaviours(op); return st
        except ValueError: pass
    raise ToolError("unreadable behaviours")

def run(rep):
    import concurrent.futures as cf
    J = jobs(); rnd = random.Random(SEED); t0 = time.time()
    with cf.ThreadPoolExecutor(6) as ex: stats = list(ex.map(explore, J))
    seen = set(); bad = []; good = []; per = {}
    for j, st in zip(J, stats):
        if not st["beh"]: raise ToolError("no behaviours: " + j[0])
        n = 0
        for b in sorted(st["beh"], key=lambda b: json.dumps(b, sort_keys=True)):
            k = json.dumps([b["shape"], b["hist"]])
            if k in seen: continue
            seen.add(k); n += 1
            (bad if b["errs"] else good).append((j[0], b))
        per[j[0]] = n
    N = 6
    parts = [bad[i::N] for i in range(N)] + [good[i::N] for i in range(N)]
    rendered = [[render(b, n, rnd) for n, (_, b) in enumerate(p)] for p in parts]
    t1 = time.time()
    res = check_crate("c22", rendered)
    log("TLC %.0f s, rustc %.0f s" % (t1 - t0, time.time() - t1))
    for z, (part, items, got) in enumerate(zip(parts, rendered, res)):
        kind = "bad" if z < N else "good"
        for i, (job, b) in enumerate(part):
            g = got.get(i, []); w = None
            if kind == "good":
                if g: w = "%s is rejected: %s" % ("a legal set of directives", g[0][1][:200])
            elif not g: w = "accepted, though: " + "; ".join(e["m"] or "malformed" for e in b["errs"])
            else:
                for e in b["errs"]:
                    if not any(x[2] and (e["p"] == 0 or x[0] == e["p"]) and e["m"] in x[1] for x in g):
                        w = "the error `%s` is not reported (place %d); reported: %s" % (e["m"] or "malformed", e["p"], [(x[0], x[1][:80]) for x in g][:4]); break
                wrong = [x for x in g if x[0] > 0 and not any(e["p"] in (0, x[0]) for e in b["errs"])]
                if w is None and wrong: w = "an error is reported at a place where nothing is wrong: %s" % (wrong[0],)
                if w is None and [x for x in g if not x[2]]: w = "the type is not only rejected, the expansion does not compile: %s" % [x[1] for x in g if not x[2]][0][:200]
            if w: rep.violation("%s: %s: %s" % (job, w, " ".join(x.strip() for x in items[i][0])[:300]), dict(job=job, source="\n".join(items[i][0]), expected=b, got=g))
    c = rep.cov
    c["states"] = c.get("states", 0) + sum(s["distinct"] for s in stats); c["transitions"] = c.get("transitions", 0) + sum(s["states"] for s in stats)
    c["traces_validated_against_impl"] = c.get("traces_validated_against_impl", 0) + len(bad) + len(good)
    c["directive_sets_rejected"] = len(bad); c["directive_sets_accepted"] = len(good); c["directive_jobs"] = per
    k = len(bad) // 2
    c.setdefault("samples", []).append(dict(directives=bad[k][1]["hist"], errors=bad[k][1]["errs"]))
