"""C11: spec/Utf.tla against the conversions of NullString and NullWideString."""
from core import *
import core, model, random

INV = "SPECIFICATION Spec\nINVARIANTS RoundTrip Scalar Short\n"
N = [0x01, 0x0A, 0x22, 0x41, 0x5C, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xFE, 0xFF]
N2 = [0x41, 0x80, 0x8F, 0x90, 0xA0, 0xBF, 0xC3, 0xE0, 0xED, 0xF0, 0xF4]
W = [0x0001, 0x0022, 0x0041, 0x00E9, 0x0300, 0x07FF, 0x0800, 0xD7FF, 0xD800, 0xDABC, 0xDBFF, 0xDC00, 0xDE01, 0xDFFF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF]
W2 = [0x41, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000]

def explore(j):
    name, par, sim = j
    d = os.path.join(BUILD, "run"); os.makedirs(d, exist_ok=True)
    pp = os.path.join(d, "C11_utf%s.json" % name); op = os.path.join(d, "C11_utf%s.out.jsonl" % name)
    with open(pp, "w") as f: json.dump(par, f)
    for w in (2, 1):
        if os.path.exists(op): os.remove(op)
        st = run_tlc("C11_utf" + name, "Utf", INV, dict(UTF_PAR=pp, UTF_OUT=op), workers=w, sim=sim, depth=100, heap="2g")
        try: st["beh"] = model.load_behaviours(op); return st
        except ValueError: pass
    raise ToolError("unreadable behaviours")

def run(rep):
    import concurrent.futures as cf
    T = THOROUGH
    J = [("n3", dict(kinds=["n"], n=N, w=[], min=0, max=4 if T else 3), None), ("n4", dict(kinds=["n"], n=N2, w=[], min=4, max=5 if T else 4), None),
         ("w", dict(kinds=["w"], n=[], w=W, min=0, max=4 if T else 3), None), ("w4", dict(kinds=["w"], n=[], w=W2, min=4, max=6 if T else 5), None),
         ("bom", dict(kinds=["n"], n=[0x41, 0xEF, 0xBB, 0xBF, 0xC2, 0xA0], w=[], min=0, max=6 if T else 5), None),
         ("wbom", dict(kinds=["w"], n=[], w=[0x41, 0xA0, 0xFEFF, 0xFFFE, 0xD800, 0xDC00], min=0, max=6 if T else 5), None),
         ("one", dict(kinds=["w"], n=[], w=list(range(1, 65536, 1 if T else 7)), min=1, max=1), None),
         ("all", dict(kinds=["n"], n=list(range(1, 256)), w=[], min=1, max=2), None),
         ("long", dict(kinds=["n", "w"], n=N, w=W, min=0, max=60), 3000 if not T else 40000)]
    src = open(os.path.join(ROOT, "harness", "utf.rs")).read()
    with cf.ThreadPoolExecutor(6) as ex:
        tl = [ex.submit(explore, j) for j in J]
        bl = {f: ex.submit(build_harness, "c11utf", None, f, src) for f in ("default",)}
        bins = {f: b.result() for f, b in bl.items()}
        stats = [t.result() for t in tl]
    nr = 0; rnd = random.Random(SEED); seen = {}
    for st in stats:
        for b in st["beh"]:
            k = (b["k"], tuple(b["in"]))
            if seen.setdefault(k, b) != b: raise ToolError("two outcomes for %s" % (k,))
    beh = [seen[k] for k in sorted(seen)]; lines = []
    for i, b in enumerate(beh): lines.append("%d %s %d %d %s" % (i, b["k"], rnd.choice([0, 1, 2, 7]), rnd.randrange(2), ".".join(map(str, b["in"])) or "-"))
    for f in bins:
        got = run_parallel(bins[f], lines); nr += len(lines)
        for i, b in enumerate(beh):
            g = got.get(i); w = None
            want = [b["out"], b["out"], True, None if b["bad"] else b["out"], b["in"], True, True]
            if g is None: w = "no answer"
            elif g.get("panic"): w = "panic: " + g["panic"]
            elif g["r"] != want:
                k = next(k for k in range(7) if g["r"][k] != want[k])
                w = "%s: got %s, expected %s" % (["into_string", "to_string", "Debug", "into_string_lossless", "units", "Deref/From/PartialEq", "From<Vec<NonZero..>>"][k], g["r"][k], want[k])
            if w: rep.violation("utf/%s %s %s: %s" % (f, b["k"], b["in"], w[:300]), dict(line=lines[i], line_format="id kind offset big-endian units", expected=want, got=g))
    c = rep.cov
    c["states"] = c.get("states", 0) + sum(s["distinct"] for s in stats); c["transitions"] = c.get("transitions", 0) + sum(s["states"] for s in stats)
    c["traces_validated_against_impl"] = c.get("traces_validated_against_impl", 0) + nr; c["texts"] = len(beh); c["invalid_texts"] = sum(b["bad"] for b in beh)
    c.setdefault("samples", []).append(dict(text=lines[len(lines) // 2], expected=beh[len(lines) // 2]))
