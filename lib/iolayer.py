"""C20: spec/ReaderIO.tla against binread::io, without and with std."""
from core import *
import core, model

INV = "SPECIFICATION Spec\nINVARIANTS TypeOK SeekInv ReadInv EmptyInv DevInv WideInv\n"

def num(d): return d[0] * (1 << 62) + d[1]

def explore(name, kind, ops, full, sim=None, depth=60):
    out = os.path.join(BUILD, "run"); os.makedirs(out, exist_ok=True)
    p = os.path.join(out, "C20_" + name + ".jsonl")
    for workers in (4, 1):
        if os.path.exists(p): os.remove(p)
        st = run_tlc("C20_" + name, "ReaderIO", INV, dict(IO_OUT=p, IO_KIND=kind, IO_OPS=str(ops), IO_FULL="1" if full else "0"), workers=workers, sim=sim, depth=depth)
        try: st["beh"] = model.load_behaviours(p); return st
        except ValueError: pass
    raise ToolError("unreadable behaviours")

def run(rep):
    import concurrent.futures as cf
    T = THOROUGH
    jobs = [("pairs", "cursor", 2, True, None), ("triples", "cursor", 3, T, None), ("long", "cursor", 12 if not T else 24, True, 4000 if not T else 40000),
            ("dev1", "device", 1, True, None), ("dev2", "device", 2, T, None), ("devlong", "device", 5, True, 4000 if not T else 60000),
            ("wide", "wide", 2, True, None), ("wide3", "wide", 3 if T else 5, True, None if T else 2000), ("kinds", "kinds", 1, True, None), ("kinds2", "kinds", 2, True, None)]
    if T: jobs += [("quads", "cursor", 4, False, None)]
    src = open(os.path.join(ROOT, "harness", "io.rs")).read()
    with cf.ThreadPoolExecutor(6) as ex:
        tl = [ex.submit(explore, *j) for j in jobs]
        bl = {f: ex.submit(build_harness, "c20io", None, f, src) for f in ("nostd", "default")}
        bins = {f: b.result() for f, b in bl.items()}
        stats = [t.result() for t in tl]
    nb = nr = 0; samples = []
    for j, st in zip(jobs, stats):
        beh = st["beh"]
        if not beh: raise ToolError("no behaviours: " + j[0])
        nb += len(beh); lines = []; meta = []
        for bi, b in enumerate(beh):
            ops = ",".join("%s:%d:%d" % (e["o"]["op"], e["o"]["n"], num(e["o"]["d"])) for e in b["log"])
            sc = ",".join("%s:%d:%s" % (a["a"], a["n"], a["k"]) for a in b["script"]) or "-"
            for v in ((bi % 4, bi // 4 % 4),) if not (len(beh) < 4000 or T) else ((bi % 4, bi // 4 % 4), ((bi + 2) % 4, (bi // 4 + 1) % 4)):
                lines.append("%d %s %d %d %d %s %s" % (len(lines), b["k"], b["d"], v[0], v[1], ops, sc)); meta.append(bi)
        for f in bins:
            got = run_parallel(bins[f], lines); nr += len(lines)
            for i, l in enumerate(lines):
                b = beh[meta[i]]; g = got.get(i); w = None
                if g is None: w = "no answer"
                elif "panic" in g: w = "panic: " + g["panic"]
                else:
                    for k, (e, r) in enumerate(zip(b["log"], g["r"])):
                        x = e["r"]; exp = [int(x["ok"]), x["k"], num(x["n"]), x["b"]]
                        if r[:4] != exp: w = "operation %d (%s): got %s, expected %s" % (k, e["o"]["op"], r[:4], exp)
                        elif e["known"] and r[4] != num(e["p"]): w = "operation %d (%s): position %d, expected %d" % (k, e["o"]["op"], r[4], num(e["p"]))
                        elif r[5] != e["calls"]: w = "operation %d (%s): the underlying reader was asked %d times, expected %d" % (k, e["o"]["op"], r[5], e["calls"])
                        if w: break
                    if not w and len(g["r"]) != len(b["log"]): w = "number of results"
                if w: rep.violation("%s/%s: %s" % (j[0], f, w), dict(job=j[0], features=f, line=l, line_format="id kind contents-length via container operations script", expected=b["log"], got=g))
        samples.append(dict(job=j[0], line=lines[len(lines) // 2]))
    rep.cov = dict(states=sum(s["distinct"] for s in stats), transitions=sum(s["states"] for s in stats), behaviours=nb, traces_validated_against_impl=nr,
                   jobs={j[0]: len(s["beh"]) for j, s in zip(jobs, stats)}, exhaustive_jobs=[j[0] for j in jobs if not j[4]], simulated_jobs=[j[0] for j in jobs if j[4]], samples=samples)
