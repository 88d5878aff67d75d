"""C23 on types that contain themselves: how deep, and pointers that go round in circles."""
from core import *
import subprocess, resource

DEPTHS = [0, 1, 2, 10, 100, 300]
def run(rep):
    src = open(os.path.join(ROOT, "harness", "depth.rs")).read()
    n = 0
    for rel in (False, True) if THOROUGH else (False,):
        b = build_harness("c23depth", None, "default", src, release=rel)
        cases = [(k, d, "ok %d" % d, None) for k in ("list", "expr", "adds", "chain") for d in DEPTHS]
        cases += [(k, 300000, "ok 300000 or err", "depth") for k in ("list", "expr", "adds", "chain")]
        cases += [(k, 0, "err", "cycle") for k in ("self", "selfnow", "pair")]
        for k, d, want, key in cases:
            def lim():
                resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0)); resource.setrlimit(resource.RLIMIT_STACK, (8 << 20, 8 << 20))
            try:
                p = subprocess.run([b, k, str(d)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60, preexec_fn=lim)
                got = p.stdout.strip() if p.returncode == 0 else "panic" if "panicked" in p.stderr else "stack overflow" if "overflowed its stack" in p.stderr else "status %s" % p.returncode
            except subprocess.TimeoutExpired: got = "no answer"
            n += 1
            if got != want and not (key == "depth" and got == "err" or key == "depth" and got == "ok %d" % d):
                # only the overflow of the stack is the known finding: anything else that goes wrong is another one
                rep.violation("depth: %s of depth %d: got %s, expected %s" % (k, d, got, want), dict(case=[k, d], got=got, want=want, harness="harness/depth.rs"), key=key if got == "stack overflow" else None)
    rep.cov["depth_cases"] = n
