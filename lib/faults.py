"""C25: spec/Faults.tla.  Inputs are drawn from the behaviours of a program; TLC
computes everything a single failing operation, or a device that is gone from some
operation on, may lead to; then every operation of the real run is made to fail,
one after the other, and what comes out must be among that."""
from core import *
import core, model, fam, random
import concurrent.futures as cf

INV = "SPECIFICATION FSpec\nINVARIANTS TypeOK ExtentInv LostInv DeadInv FRewindInv\nPROPERTIES Recovered\n"

def pick(job, beh, rnd, n):
    """full inputs: at least one per case, failing and succeeding ones, as varied as possible"""
    by = {}
    for b in beh:
        if any(not x["ok"] and x["er"]["t"] == "panic" for x in b["res"]): continue
        by.setdefault(b["c"], {}).setdefault(repr([(x["ok"], x["er"]["t"], x["v"]["t"]) for x in b["res"]]), []).append(b)
    out = []; k = 0
    while len(out) < n and any(by.values()):
        for c in sorted(by):
            if not by[c]: continue
            ks = sorted(by[c]); q = ks[rnd.randrange(len(ks))] if k else max(ks, key=lambda q: q.count("True"))
            b = by[c][q].pop(rnd.randrange(len(by[c][q])))
            if not by[c][q]: del by[c][q]
            data = make_input(b, job.P.cases[c - 1], rnd, 2 * (k % 2))
            if len(data) <= 200: out.append(dict(c=c, mem=list(data), bad=b["bad"]))
            if len(out) >= n: break
        k += 1
    return out

def explore(job, inputs):
    d = os.path.join(BUILD, "run"); nm = "C25_" + job.name + "_f"
    ij = os.path.join(d, nm + ".in.json"); oj = os.path.join(d, nm + ".out.jsonl"); pj = os.path.join(d, "C25_" + job.name + ".prog.json")
    with open(ij, "w") as f: json.dump(inputs, f)
    for workers in (job.workers, 1):
        if os.path.exists(oj): os.remove(oj)
        st = run_tlc(nm, "Faults", INV, dict(BR_PROG=pj, BR_OUT=oj, BR_IN=ij), workers=workers)
        try: st["beh"] = model.load_behaviours(oj); return st
        except ValueError: pass
    raise ToolError("unreadable behaviours: " + oj)

def outcomes(beh, P):
    """input -> list of (kind, results, flags, events)"""
    out = {}
    for b in beh:
        calls = P.rcases[b["c"] - 1][0]; r = []; nev = len(b["ev"]); cut = False
        for c, x, l in zip(calls, b["res"], b["log"]):
            r.append((x["ok"], canon_v(x["v"]) if x["ok"] else canon_e(x["er"]), x["pos"], l["cur"], l["lost"]))
            # a lost position, or the failure of something that promises none: nothing is said about later calls
            if not x["ok"] and (l["lost"] or not model.pos_matters(c.ty) or l["cur"] and not fam.is_def(c.ty)):
                nev = x["nev"]; cut = len(r) < len(b["res"]); break
        out.setdefault(b["i"], []).append((b["fk"], r, [canon_ev(e) for e in b["ev"][:nev]], cut))
    return out

def accepts(o, got, kind, calls):
    k, r, ev, cut = o
    gr = got["r"]; hit = False
    if k not in ("none", kind): return False
    if len(gr) < len(r) or len(gr) > len(r) and not cut: return False
    for c, (ok, what, pos, cur, lost), g, ff in zip(calls, r, gr, got["ff"]):
        if ok != bool(g[0]): return False
        if (what != g[1]) if ok else (what != canon_got_e(g[1])): return False
        if kind == "once" or not hit:
            known = ok or model.pos_matters(c.ty) and not lost and not (cur and not fam.is_def(c.ty)) and not (kind == "dead" and cur)
            if known and pos != g[2]: return False
        # no failed operation goes unnoticed, and none is made up
        if bool(ff) != cur: return False
        hit = hit or cur
    return ev == (got["ev"][:len(ev)] if cut else got["ev"])

def run_one(rep, job, st, bins, n, tot):
    rnd = random.Random(SEED * 31 + model.hash_s(job.name))
    inputs = pick(job, st["beh"], rnd, n)
    fs = explore(job, inputs)
    outs = outcomes(fs["beh"], job.P)
    tot["states"] += st["distinct"] + fs["distinct"]; tot["transitions"] += st["states"] + fs["states"]; tot["inputs"] += len(inputs); tot["outcomes"] += len(fs["beh"])
    base = [line(i, x["c"], job.P.cases[x["c"] - 1]["start"], x["bad"], job.P.cases[x["c"] - 1]["slim"], [], [], bytes(x["mem"])) for i, x in enumerate(inputs)]
    for f, env in [(f, e) for f in job.feats for e in (job.envs or [None])]:
        if env and f != "dbg": continue
        got = run_parallel(bins[f], base, env=env); lines = list(base); meta = [(i, 0, "none") for i in range(len(base))]
        for i in range(len(base)):
            ops = got.get(i, {}).get("ops", 0)
            ks = range(1, ops + 1) if ops <= 90 else sorted(rnd.sample(range(1, ops + 1), 90))
            for k in ks:
                for kind in ("once", "dead"):
                    meta.append((i, k, kind)); lines.append("%d %s %d %s" % (len(lines), base[i].split(" ", 1)[1], k, kind))
        got = run_parallel(bins[f], lines, env=env); tot["replays"] += len(lines)
        for j, (i, k, kind) in enumerate(meta):
            g = got.get(j); x = inputs[i]; w = None; calls = job.P.rcases[x["c"] - 1][0]
            if g is None: w = "no answer from the harness"
            elif "panic" in g: w = "panic: " + g["panic"]
            elif k and not any(g["ff"]): w = "nothing failed"
            elif not any(accepts(o, g, kind, calls) for o in outs.get(i + 1, [])): w = "no behaviour of the specification has this outcome"
            if w:
                tot["viol"] += 1
                rep.violation("%s/%s case %d, operation %d fails %s: %s" % (job.name, f, x["c"], k, kind, w),
                    dict(job=job.name, features=f, env=env, what=w, types=model.type_source(job.P, calls), calls=[c.rs() for c in calls], line=lines[j],
                         line_format="id case start bad-offset seek-limit chunks interrupts input-hex failing-operation once|dead",
                         got=g, allowed=[dict(kind=o[0], results=[r[:3] for r in o[1]], events=o[2]) for o in outs.get(i + 1, []) if o[0] in ("none", kind)][:40]))
    k = rnd.randrange(len(inputs))
    rep.cov.setdefault("samples", []).append(dict(job=job.name, calls=[c.rs() for c in job.P.rcases[inputs[k]["c"] - 1][0]], input=base[k], outcomes=len(outs.get(k + 1, []))))

def run(rep):
    jobs = fam.faults(); T = THOROUGH
    tot = dict(states=0, transitions=0, inputs=0, outcomes=0, replays=0, viol=0)
    with cf.ThreadPoolExecutor(8) as ex:
        tl = [ex.submit(model.tlc_job, "C25", j) for j in jobs]
        bd = {(j.name, f): ex.submit(build_harness, "c25" + j.name, j.P.source(), f) for j in jobs for f in j.feats}
        bad = False
        for (jn, f), fu in bd.items():
            try: fu.result()
            except BuildFail as e: rep.violation("types that the specification accepts are rejected by the derive macro / crate (%s)" % f, str(e)); bad = True
        stats = [t.result() for t in tl]
        if bad: rep.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[]); return
        todo = [ex.submit(run_one, rep, j, st, {f: bd[(j.name, f)].result() for f in j.feats}, j.ninputs[1 if T else 0], tot) for j, st in zip(jobs, stats)]
        [t.result() for t in todo]
    rep.cov.update(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["replays"], inputs=tot["inputs"], outcomes=tot["outcomes"],
                   types=sum(len(j.P.defs) for j in jobs), cases=sum(len(j.P.cases) for j in jobs))
