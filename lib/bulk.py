"""spec/Bulk.tla against the crate: large and awkward sizes."""
from core import *
import core, model, random

INV = "SPECIFICATION Spec\nINVARIANTS RunInv EofInv\n"
COUNTED = ["vec_u8", "vec_u16", "vec_st", "vec_arr", "count_u8", "count_st", "rb", "sep", "sept", "vec_spy"]
ENDED = ["until", "untilx", "until16"]
STR = ["nstr", "wstr", "vecnz"]
EOFS = ["ueof", "ueof16"]
MOVES = ["pad_before", "pad_after", "pad_size", "align_after", "seek", "ptr"]
WIDTH = dict(until16=2, wstr=2)

def run(rep, kinds, huge=False, frag=False, feats=("default",)):
    T = THOROUGH; prop = rep.prop
    sizes = [0, 1, 2, 127, 128, 255, 256, 257, 4096, 65535, 65536, 65537] + ([131071, 131072, 131073, 300000] if T else [131073])
    if T: sizes += [3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 65, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4097, 8191, 8192, 16384, 32767, 32768, 32769]
    par = dict(kinds=kinds, sizes=sizes, huge=[1000000, 16777217, 700000000] if huge else [], runs=[50000, 100000])
    d = os.path.join(BUILD, "run"); os.makedirs(d, exist_ok=True)
    pp = os.path.join(d, prop + "_bulk.json"); op = os.path.join(d, prop + "_bulk.out.jsonl")
    with open(pp, "w") as f: json.dump(par, f)
    if os.path.exists(op): os.remove(op)
    st = run_tlc(prop + "_bulk", "Bulk", INV, dict(BULK_PAR=pp, BULK_OUT=op), workers=1)
    beh = model.load_behaviours(op)
    src = open(os.path.join(ROOT, "harness", "bulk.rs")).read()
    if not beh: raise ToolError("no behaviours")
    exp = {}
    for b in beh:
        k = json.dumps(b["c"], sort_keys=True)
        if exp.setdefault(k, b) != b: raise ToolError("the specification has two outcomes for " + k)
    nr = 0; rnd = random.Random(SEED)
    beh = [exp[k] for k in sorted(exp)]
    lines = []; meta = []
    for bi, b in enumerate(beh):
        c = b["c"]; term = 5 + c["n"] * WIDTH.get(c["k"], 1) if c["k"] in ENDED + STR else -1
        idx = ".".join(str(s[0]) for s in b["s"]) or "-"
        for ch, intr in ((0, 0), (rnd.choice([1, 3, 4095, 65535] if c["len"] < 100000 else [1000, 4095, 65535]), 1)) if frag else ((0, 0),):
            lines.append("%d %s %d %d %d %d %d %d %d %s" % (len(lines), c["k"], c["n"], b["total"], term, WIDTH.get(c["k"], 1), 5 + c["bad"] if c["bad"] >= 0 else -1, ch, intr, idx)); meta.append(bi)
    for f in feats:
        binary = build_harness(prop.lower() + "bulk", None, f, src)
        parts = run_parallel(binary, lines) if len(lines) > 2000 else _par(binary, lines)
        nr += len(lines)
        for i, l in enumerate(lines):
            b = beh[meta[i]]; g = parts.get(i); w = None
            want = [int(b["ok"]), b["why"], b["n"], b["seps"] if b["ok"] else 0, b["s"], True, b["pos"]]
            if g is None: w = "no answer"
            elif "panic" in g: w = "panic: " + g["panic"]
            else:
                r = g["r"]
                if r != want: w = "got %s, expected %s" % (str(r)[:200], str(want)[:200])
                elif g["big"] > 40 * b["total"] + (1 << 20): w = "asked for %d bytes of memory at once for an input of %d bytes" % (g["big"], b["total"])
            if w: rep.violation("bulk/%s %s of %d, %d bytes: %s" % (f, b["c"]["k"], b["c"]["n"], b["total"], w), dict(case=b["c"], line=l, line_format="id kind n total terminator width bad chunk interrupts samples", expected=want, got=g))
    c = rep.cov
    c["states"] = c.get("states", 0) + st["distinct"]; c["transitions"] = c.get("transitions", 0) + st["states"]
    c["traces_validated_against_impl"] = c.get("traces_validated_against_impl", 0) + nr
    c["bulk_cases"] = len(beh); c["bulk_kinds"] = kinds; c["bulk_sizes"] = sizes
    c.setdefault("samples", []).append(dict(bulk=lines[len(lines) // 2], expected=beh[meta[len(lines) // 2]]))

def _par(binary, lines):
    import threading
    n = 6; parts = [lines[i::n] for i in range(n)]; outs = [None] * n; errs = []
    def go(i):
        try: outs[i] = run_harness(binary, parts[i]) if parts[i] else {}
        except Exception as e: errs.append(e)
    th = [threading.Thread(target=go, args=(i,)) for i in range(n)]
    [t.start() for t in th]; [t.join() for t in th]
    if errs: raise errs[0]
    r = {}
    for o in outs: r.update(o)
    return r
