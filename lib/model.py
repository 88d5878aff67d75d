"""The main pipeline: schema program -> TLC behaviours of BinRead.tla -> replay
in the real crate -> comparison of values, errors, positions and events."""
import concurrent.futures as cf
from core import *
import core

CFG = "SPECIFICATION Spec\nINVARIANTS %s\n"
# for types that contain themselves: only so deep
SHALLOW = CFG + "CONSTRAINT Shallow\n"
INVS = "TypeOK RewindInv ExtentInv ByteOrderInv EnumInv LengthInv PointerInv AfterInv"

def expected(b, P):
    """results of the calls and events, up to the first call after which nothing is promised
    (a failed read of a composite that is not a derived type leaves the reader anywhere)"""
    calls, meta = P.rcases[b["c"] - 1]
    r = []; nev = len(b["ev"])
    for c, x in zip(calls, b["res"]):
        r.append([1, canon_v(x["v"]), x["pos"]] if x["ok"] else [0, canon_e(x["er"]), x["pos"]])
        if not x["ok"] and x["er"]["t"] != "panic" and not pos_matters(c.ty): nev = x["nev"]; break
    return r, [canon_ev(e) for e in b["ev"][:nev]], len(r) < len(b["res"])

def pos_matters(ty):
    import dsl
    return isinstance(ty, (dsl.DefT, dsl.Prim))

def diff(exp, got, P, case):
    """None, or what differs"""
    er, ee, cut = exp
    calls = P.rcases[case - 1][0]
    if got is None: return "no answer from the harness"
    if er and not er[-1][0] and er[-1][1][0] == "panic":
        # refused loudly, not guessed: the process (thread) panics
        if "panic" not in got or got["panic"].startswith(("CRASH", "HANG")): return "expected a panic, got " + str(got.get("panic", "a result"))
        return None
    if "panic" in got: return "panic: " + got["panic"]
    gr = got["r"]
    if len(gr) < len(er) or (len(gr) > len(er) and not cut): return "number of results"
    for i, (e, g) in enumerate(zip(er, gr)):
        if e[0] != g[0]: return "call %d: expected %s, got %s" % (i, "Ok" if e[0] else "Err", "Ok" if g[0] else "Err")
        if e[0]:
            if e[1] != g[1]: return "call %d: value differs" % i
            if e[2] != g[2]: return "call %d: reader position after success %s, expected %s" % (i, g[2], e[2])
        else:
            if e[1] != canon_got_e(g[1]): return "call %d: error differs" % i
            if pos_matters(calls[i].ty) and e[2] != g[2]: return "call %d: reader position after failure %s, expected %s" % (i, g[2], e[2])
    if ee != (got["ev"][:len(ee)] if cut else got["ev"]): return "events (calls to user code) differ"
    return None

BIG = 1073741823      # numbers are clamped there in the model
def parse_template(text):
    """the lines of a debug template: [k, byte order, position, type, name, count]"""
    L = text.split("\n"); i = 0; out = []
    while i < len(L):
        l = L[i]
        if l.startswith("//") or l == "" and i + 1 == len(L): i += 1; continue
        m = re.fullmatch(r"struct (.*)_\d+ \{", l)
        if m: out.append(["{", m[1]]); i += 1; continue
        m = re.fullmatch(r"\} (\S+);", l)
        if m: out.append(["}", m[1]]); i += 1; continue
        o = {"BigEndian();": "B", "LittleEndian();": "L", "": "N"}.get(l)
        p = re.fullmatch(r"FSeek\(0x([0-9A-F]+)\);", L[i + 1]) if o and i + 3 < len(L) else None
        e = re.fullmatch(r"(.+) ([A-Za-z_]\w*)(?:\[(\d+)\])?<bgcolor=0x[0-9A-F]{6}>;", L[i + 2]) if p else None
        if not e or L[i + 3] != "": return out, "line not understood: " + repr(L[i:i + 4])
        out.append(["r", o, int(p[1], 16), e[1], e[2], int(e[3]) if e[3] else -1]); i += 4
    return out, None

def tpl_diff(tpl, text, P, native, base=0):
    import dsl
    got, w = parse_template(text)
    if w: return w
    opens = 0
    for i, x in enumerate(tpl):
        if i >= len(got): return "template: entry %d is missing: %s" % (i, x)
        g = got[i]
        if x["k"] != g[0]: return "template: entry %d is %s, expected %s" % (i, g, x)
        if x["k"] == "{" and g[1] != x["s"]: return "template: entry %d opens %s, expected %s" % (i, g[1], x["s"])
        if x["k"] == "}" and g[1] != (x["n"] or "root"): return "template: entry %d closes %s, expected %s" % (i, g[1], x["n"])
        if x["k"] != "r": continue
        if g[1] != x["e"] and not (native and g[1] == "N" and x["e"] == "L"): return "template: entry %d has byte order %s, expected %s" % (i, g[1], x["e"])
        if g[2] >= base: g[2] -= base
        if g[2] != x["p"] and not (x["p"] >= BIG <= g[2]): return "template: entry %d is at %d, expected %d" % (i, g[2], x["p"])
        want = P.tnames.get(x["t"], set()) if x["t"] else {x["s"]}
        k = dsl.type_key(g[3])
        # a vector of pointers has elements of the size of the pointer
        if x["t"] and P.types[x["t"] - 1]["k"] == "ptr": want = want | {P.types[P.types[x["t"] - 1]["a"][0] - 1]["s"]}
        if k not in want: return "template: entry %d has type %s, expected %s" % (i, k, sorted(want))
        if g[4] != x["n"] if x["n"] else not re.fullmatch(r"var\d+", g[4]): return "template: entry %d is called %s, expected %s" % (i, g[4], x["n"] or "var#")
        if g[5] != x["c"] and not (x["c"] >= BIG <= g[5]): return "template: entry %d has length %s, expected %s" % (i, g[5], x["c"])
    if len(got) > len(tpl): return "template: unexpected entry %s" % got[len(tpl)]
    return None

def type_source(P, calls):
    """the Rust definitions the calls depend on"""
    import re as _re
    need = []; seen = set()
    todo = [c.ty.rust() for c in calls]
    while todo:
        s = todo.pop()
        for n in _re.findall(r"\bD\d+\b", s):
            if n in seen: continue
            seen.add(n)
            i = next(i for i, d in enumerate(P.defobjs) if d.name == n)
            need.append((i, P.rust[i])); todo.append(P.rust[i])
    return "\n".join(r for _, r in sorted(need))

def load_behaviours(path):
    out = []; seen = set()
    if not os.path.exists(path): return out
    for l in open(path):
        l = l.strip()
        if not l: continue
        if l.startswith('"'): l = json.loads(l)          # CSVWrite may quote
        if l in seen: continue
        seen.add(l)
        out.append(json.loads(l))
    return out

# a stream position far beyond 32 bits that is a multiple of every alignment used
WIDE = (1 << 22) * 765765      # a multiple of every small alignment, above 2^41, and not a multiple of 2^32

class Job:
    """one program, explored by TLC (exhaustively, or by simulation) and replayed under some feature sets"""
    def __init__(self, name, P, sim=None, feats=("default",), variants=2, schedules=None, depth=500, workers=4, key=None,
                 envs=None, invs=INVS, maxops=None, maxbig=None, release=False, module="BinReadMC", cfg=CFG):
        self.__dict__.update(locals())

def tlc_job(prop, job):
    nm = prop + "_" + job.name
    d = os.path.join(BUILD, "run"); os.makedirs(d, exist_ok=True)
    pj = os.path.join(d, nm + ".prog.json"); oj = os.path.join(d, nm + ".out.jsonl")
    with open(pj, "w") as f: json.dump(job.P.json(), f)
    # records of more than 8 kB of two workers can get mixed up in the file: then once more with one worker
    for workers in (job.workers, 1):
        if os.path.exists(oj): os.remove(oj)
        st = run_tlc(nm, job.module, job.cfg % job.invs, dict(BR_PROG=pj, BR_OUT=oj), workers=workers, sim=job.sim, depth=job.depth)
        try: st["beh"] = load_behaviours(oj); return st
        except ValueError: pass
    raise ToolError("unreadable behaviours: " + oj)

# ---- arbitrary bytes: spec/Concrete.tla computes what they mean
def mutate(rnd, d):
    d = bytearray(d)
    for _ in range(rnd.choice([1, 1, 2, 3])):
        k = rnd.randrange(10)
        if k < 4 and d: d[rnd.randrange(len(d))] = rnd.choice([rnd.randrange(256), rnd.randrange(256), rnd.randrange(256), 0, 0xFF, 0x7F, 0x80, 1])
        elif k == 4 and d: d[rnd.randrange(len(d))] ^= 1 << rnd.randrange(8)
        elif k == 5: d = d[:rnd.randrange(len(d) + 1)]
        elif k == 6: d += bytes(rnd.randrange(256) for _ in range(rnd.choice([1, 4, 30])))
        elif k == 7 and len(d) > 1: i = rnd.randrange(len(d) - 1); d[i], d[i + 1] = d[i + 1], d[i]
        elif k == 8 and d: i = rnd.randrange(len(d)); d[i:i] = bytes([rnd.randrange(256)])
        elif d: d = bytearray(rnd.randrange(256) for _ in d) if rnd.random() < .3 else d + d
    return bytes(d[:200])

def concrete(prop, job, beh):
    """(number of inputs, (behaviours of those that were not abandoned, lines, inputs, statistics))"""
    rnd = random.Random(SEED * 104729 + hash_s(prop + job.name)); by = {}
    for b in beh: by.setdefault(b["c"], []).append(b)
    per = max(4, min(300, (2500 if not THOROUGH else 25000) // len(by))); inputs = []; seen = set()
    for c in sorted(by):
        for _ in range(per):
            b = rnd.choice(by[c])
            d = mutate(rnd, make_input(b, job.P.cases[c - 1], rnd, rnd.randrange(4)))
            bad = b["bad"] if rnd.random() < .5 else -1
            if len(d) > 200 or (c, d, bad) in seen: continue
            seen.add((c, d, bad)); inputs.append(dict(c=c, mem=list(d), bad=bad))
    d = os.path.join(BUILD, "run"); nm = prop + "_" + job.name + "_c"
    ij = os.path.join(d, nm + ".in.json"); oj = os.path.join(d, nm + ".out.jsonl"); pj = os.path.join(d, prop + "_" + job.name + ".prog.json")
    with open(ij, "w") as f: json.dump(inputs, f)
    for workers in (job.workers, 1):
        if os.path.exists(oj): os.remove(oj)
        st = run_tlc(nm, "Concrete" if job.module == "BinReadMC" else "ConcreteT", (CFG if job.module == "BinReadMC" else job.cfg).replace("TSpec", "Spec").replace(" Spec", " CSpec") % job.invs, dict(BR_PROG=pj, BR_OUT=oj, BR_IN=ij), workers=workers)
        try: out = load_behaviours(oj); break
        except ValueError: pass
    else: raise ToolError("unreadable behaviours: " + oj)
    if len({b["i"] for b in out}) != len(out): raise ToolError("%s: the outcome of a read is not a function of its input" % nm)
    out.sort(key=lambda b: b["i"]); lines = []
    for k, b in enumerate(out):
        x = inputs[b["i"] - 1]; c = job.P.cases[b["c"] - 1]
        ch, intr = rnd.choice(job.schedules(rnd, len(x["mem"]))) if job.schedules else ([], [])
        lines.append(line(k, b["c"], c["start"], x["bad"], c["slim"], ch, intr, bytes(x["mem"])))
    return len(inputs), (out, lines, inputs, st)

def replay(rep, j, bins, beh, exps, lines, meta, what=""):
    n = 0; ueof = '"ueof"' in json.dumps(j.P.json())
    for f in j.feats:
        envs = j.envs or [None]
        # the same again at stream positions that do not fit in 32 bits
        if f == j.feats[0] and not any(e and "BR_BASE" in e for e in envs):
            # a failing device may report any kind of error
            envs = envs + [dict(envs[0] or {}, BR_BASE=str(WIDE), BR_BADK=str(1 + hash_s(j.name + what) % 11 if not ueof else 1 + hash_s(j.name + what) % 7))]
            if not ueof: envs = envs + [dict(envs[0] or {}, BR_BADK="8")]
        for env in envs:
            only = range(len(lines)) if not env or env.get("BR_BADK") != "8" or "BR_BASE" in env else [i for i, l in enumerate(lines) if int(l.split(" ")[3]) >= 0]
            if not only: continue
            got = run_parallel(bins[(j.name, f)].result(), [lines[i] for i in only], env=env)
            n += len(only)
            for i in only:
                l = lines[i]
                b = beh[meta[i]]; exp = exps[meta[i]]; g = got.get(i)
                w = diff(exp, g, j.P, b["c"])
                if w is None and "tpl" in b and "tpl" in g and "panic" not in g and not exp[2]:
                    w = tpl_diff(b["tpl"], g["tpl"], j.P, any(c.native or c.api in ("read", "read_args", "ne", "ne_args") for c in j.P.rcases[b["c"] - 1][0]), int((env or {}).get("BR_BASE", 0)))
                if w is None and j.maxops and g.get("ops", 0) > j.maxops(l, g): w = "took %d reader operations" % g["ops"]
                if w is None and j.maxbig and g.get("big", 0) > j.maxbig(l, g): w = "asked for %d bytes of memory at once" % g["big"]
                if w:
                    calls = j.P.rcases[b["c"] - 1][0]
                    rep.violation("%s/%s case %d: %s%s" % (j.name, f, b["c"], what, w),
                        dict(job=j.name, features=f, env=env, what=w, types=type_source(j.P, calls), calls=[c.rs() for c in calls],
                             line=l, line_format="id case start bad-offset seek-limit chunks interrupts input-hex",
                             expected=dict(results=exp[0], events=exp[1]), got=g),
                        key=j.key(b, calls, w) if j.key else None)
    return n

def run_jobs(rep, prop, jobs):
    tot = dict(states=0, distinct=0, behaviours=0, replays=0); samples = []; fail = None
    with cf.ThreadPoolExecutor(8) as ex:
        tl = [ex.submit(tlc_job, prop, j) for j in jobs]
        bd = {}
        # one build at a time per target directory; cargo itself serialises on the lock
        for j in jobs:
            for f in j.feats: bd[(j.name, f)] = ex.submit(build_harness, prop.lower() + j.name, j.P.source(), f, None, j.release)
        for (jn, f), fu in bd.items():
            try: fu.result()
            except BuildFail as e:
                rep.violation("types that the specification accepts are rejected by the derive macro / crate (%s)" % f, str(e))
                fail = True
        stats = [t.result() for t in tl]
    if fail: 
        rep.cov = dict(states=sum(s["distinct"] for s in stats), transitions=sum(s["states"] for s in stats), traces_validated_against_impl=0, samples=[])
        return
    oks = errs = 0; kinds = {}; fuzz = dict(inputs=0, left=0, ok=0)
    fx = cf.ThreadPoolExecutor(4)
    fz = {j.name: fx.submit(concrete, prop, j, st["beh"]) if j.module in ("BinReadMC", "Template") and st["beh"] else None for j, st in zip(jobs, stats)}
    for j, st in zip(jobs, stats):
        rnd = random.Random(SEED * 7919 + hash_s(j.name))
        beh = st["beh"]
        if not beh: raise ToolError("TLC produced no behaviours for %s" % j.name)
        tot["states"] += st["states"]; tot["distinct"] += st["distinct"]; tot["behaviours"] += len(beh)
        covered = {b["c"] for b in beh}
        missing = set(range(1, len(j.P.cases) + 1)) - covered
        if missing and not j.sim: raise ToolError("cases without behaviours: %s" % sorted(missing)[:5])
        for b in beh:
            for x in b["res"]:
                if x["ok"]: oks += 1
                else: errs += 1; kinds[x["er"]["t"] + ":" + (x["er"]["s"] if x["er"]["t"] == "io" else "")] = kinds.get(x["er"]["t"] + ":" + (x["er"]["s"] if x["er"]["t"] == "io" else ""), 0) + 1
        exps = [expected(b, j.P) for b in beh]
        lines = []; meta = []
        for bi, b in enumerate(beh):
            c = j.P.cases[b["c"] - 1]
            for v in range(j.variants):
                data = make_input(b, c, rnd, v)
                scheds = [([], [])]
                if j.schedules: scheds = j.schedules(rnd, len(data))
                for ch, intr in scheds:
                    lines.append(line(len(lines), b["c"], c["start"], b["bad"], c["slim"], ch, intr, data)); meta.append(bi)
        tot["replays"] += replay(rep, j, bd, beh, exps, lines, meta)
        if fz[j.name]:
            n, l = fz[j.name].result()
            fuzz["inputs"] += n; fuzz["left"] += n - len(l[0]); tot["states"] += l[3]["states"]; tot["distinct"] += l[3]["distinct"]
            fuzz["ok"] += sum(x["ok"] for b in l[0] for x in b["res"])
            tot["replays"] += replay(rep, j, bd, l[0], [expected(b, j.P) for b in l[0]], l[1], list(range(len(l[0]))), "given bytes, ")
        k = rnd.randrange(len(beh))
        samples.append(dict(job=j.name, calls=[c.rs() for c in j.P.rcases[beh[k]["c"] - 1][0]],
                            types=type_source(j.P, j.P.rcases[beh[k]["c"] - 1][0])[:1500], input=lines[meta.index(k)], expected=exps[k][0]))
    c = rep.cov
    c["states"] = c.get("states", 0) + tot["distinct"]; c["transitions"] = c.get("transitions", 0) + tot["states"]
    c["behaviours"] = c.get("behaviours", 0) + tot["behaviours"]
    c["traces_validated_against_impl"] = c.get("traces_validated_against_impl", 0) + tot["replays"]
    c["types"] = c.get("types", 0) + sum(len(j.P.defs) for j in jobs); c["cases"] = c.get("cases", 0) + sum(len(j.P.cases) for j in jobs)
    c["ok_results"] = c.get("ok_results", 0) + oks; c["err_results"] = c.get("err_results", 0) + errs
    c["error_kinds"] = kinds
    c["given_inputs"] = fuzz["inputs"]; c["given_inputs_abandoned"] = fuzz["left"]; c["given_inputs_read"] = fuzz["ok"]
    c["exhaustive_jobs"] = [j.name for j in jobs if not j.sim]; c["simulated_jobs"] = [j.name for j in jobs if j.sim]
    c.setdefault("samples", []).extend(samples)

def hash_s(s): return int(hashlib.md5(s.encode()).hexdigest()[:6], 16)
