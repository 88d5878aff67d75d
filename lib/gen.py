"""Random schemas: well-typed derive definitions drawn from a weighted set of
directives.  What they mean is decided by the specification, not here."""
from dsl import *

SMALL = {"u8": [[1], [4]], "i8": [[2], [0xFE]], "u16": [2, 0x0301], "i16": [3, 0xFFFD]}

class Info:
    """what later expressions may know about a field"""
    def __init__(self, vals=None, ln=False): self.vals = vals; self.ln = ln

class Gen:
    def __init__(self, P, rnd, **w):
        self.P = P; self.r = rnd
        self.kinds = w.pop("kinds", dict(prim=6, wide=2))
        self.dirs = w.pop("dirs", {})
        self.tops = w.pop("tops", {})
        self.depth = w.pop("depth", 2)
        self.nf = w.pop("nf", (1, 4))
        self.budget = w.pop("budget", 8)
        self.pws = w.pop("pws", ["until", "untilx", "count", "rb", "sep", "sept", "cust", "ueof"])
        self.spytag = 0
        assert not w, w
        self.left = self.budget
    def p(self, d, name): return self.r.random() < d.get(name, 0)
    def pick(self, l): return self.r.choice(l)
    # ---------------------------------------------------------- values
    def prim(self):
        """a primitive whose candidate values are small enough for arithmetic"""
        r = self.r; n = self.pick(["u8", "u8", "u16", "i8", "i16"])
        if n in ("u8",): cv = r.sample([0, 1, 2, 3, 5, 0xF3], 2)
        elif n == "i8": cv = r.sample([0, 1, 2, 0xFF, 0xFD], 2)
        else: cv = r.sample([0, 1, 2, 3, 0x0203, 0x8001, 0xFF7F], 2)
        w = PRIMS[n][0]; b = [num_bytes(x, w) for x in cv]
        vals = [int.from_bytes(bytes(x), "big", signed=n[0] == "i") for x in b]
        return Prim(n, b), Info(vals)
    def wide(self):
        n = self.pick(["u16", "u32", "u64", "u128", "i32", "i64", "i128", "f32", "f64", "char", "i16"])
        return Prim(n, self.r.sample(default_cv(n), self.pick([1, 1, 2]))), Info()
    def spy(self, nargs=None):
        self.spytag += 1
        n = self.pick([0, 0, 1, 2, 3]) if nargs is None else nargs
        return Spy(self.spytag, n, [[self.pick([1, 5, 0xF3])]]), Info([1, 5, 0xF3])
    def leaf(self, noargs=False):
        self.left -= 1
        ks = [k for k in self.kinds if k in ("prim", "wide", "spy")] or ["prim"]
        k = self.r.choices(ks, [self.kinds.get(x, 1) for x in ks])[0]
        if k == "spy": return self.spy(0 if noargs else None)
        return getattr(self, k)()
    def elem(self, depth, noargs=False):
        """an element type: leaf or something nested"""
        if depth > 0 and self.left > 2 and self.r.random() < .4:
            return self.value(depth - 1, noargs, nocount=True)
        return self.leaf(noargs)
    def value(self, depth, noargs=False, nocount=False):
        """-> (type, Info)"""
        ks = [k for k in self.kinds if not (nocount and k in ("vec",)) and (depth > 0 or k in ("prim", "wide", "spy", "unit", "nstr", "wstr"))]
        if self.left <= 1: ks = [k for k in ks if k in ("prim", "wide", "spy", "unit")] or ["prim"]
        k = self.r.choices(ks, [self.kinds[x] for x in ks])[0]
        r = self.r
        if k in ("prim", "wide"): self.left -= 1; return getattr(self, k)()
        if k == "spy": self.left -= 1; return self.spy(0 if noargs else None)
        if k == "unit": return Unit(r.random() < .5), Info()
        if k == "nstr": self.left -= 2; return NStr(nz=r.random() < .3), Info(ln=True)
        if k == "wstr": self.left -= 2; return WStr(nz=r.random() < .3), Info(ln=True)
        if k == "vec": self.left -= 1; t, i = self.elem(depth - 1, noargs); return Vec(t), Info(ln=True)
        if k == "arr": self.left -= 1; t, i = self.elem(depth - 1, noargs); return Arr(t, self.pick([0, 1, 2, 3])), Info(ln=True)
        if k == "tup":
            return Tup(*[self.elem(depth - 1, True)[0] for _ in range(self.pick([1, 2, 2, 3]))]), Info()
        if k in ("opt", "box", "pos"):
            t, i = self.value(depth - 1, noargs, nocount)
            return {"opt": Opt, "box": Box, "pos": Pos}[k](t), Info(i.vals)
        if k == "ptr":
            self.left -= 1
            n = self.pick(["u8", "u16", "u32", "i8", "u64", "i16", "i32", "i64", "u128"])
            w = PRIMS[n][0]
            t, i = self.value(depth - 1, noargs, nocount)
            return Ptr(Prim(n, [num_bytes(x, w) for x in r.sample([0, 1, 3, 6, 9], 2)]), t), Info()
        if k == "def": return self.definition(depth - 1, noargs), Info()
        raise ValueError(k)
    # ---------------------------------------------------------- expressions
    def num(self, env, nimp):
        c = []
        for i, x in enumerate(env):
            if x.vals: c.append(fld(i + 1))
            elif x.ln: c.append(ln(i + 1))
        c += [imp(i + 1) for i in range(nimp)]
        return self.pick(c) if c else lit(self.pick([0, 1, 2, 3]))
    def cond(self, env, nimp, lean=.5):
        """a condition, true with the given tendency when nothing is known"""
        c = [(fld(i + 1), x.vals) for i, x in enumerate(env) if x.vals] + [(imp(i + 1), [1, 2, 7]) for i in range(nimp)]
        if not c: return eq(lit(self.r.randrange(2)), 1)
        x, vals = self.pick(c[-2:] if self.r.random() < .6 else c)
        v = self.pick(vals)
        if v > 30000: return ne(x, 3)
        q = self.r.random()
        b = eq(x, v) if q < .3 else ne(x, v) if q < .6 else lt(x, v) if q < .8 else le(x, v)
        if self.r.random() < .15: b = not_(b)
        elif self.r.random() < .1: b = or_(b, self.cond(env, nimp))
        return b
    def assertion(self, env, nimp):
        k = self.pick(["def", "msg", "fmt", "err"])
        return A(self.cond(env, nimp), k, self.pick(["too small", "bad value", "nope"]),
                 tick(self.r.randrange(900, 999), self.num(env, nimp)) if k in ("fmt", "err") else None)
    def endian(self, env, nimp, fixed=False):
        q = self.r.random() * (.7 if fixed else 1)
        if q < .35: return BIG
        if q < .7: return LITTLE
        return (is_big if q < .85 else is_little)(self.cond(env, nimp))
    def magic(self):
        k = self.pick(["u8", "u16", "u32", "bytes", "byte", "i16", "u64", "char"])
        self.left -= 1
        if k == "bytes": return Magic("bytes", self.pick([b"AB", b"RIFF", b"x", b"abc", b"\x00\xff"]))
        if k == "byte": return Magic("byte", self.pick([0x2A, 0, 0xFF]))
        if k == "char": return Magic("char", "Z")
        return Magic(k, self.pick([0x11, 0x7A]) if k == "u8" else self.pick([0x1122, 0x7F01]))
    # ---------------------------------------------------------- fields
    def field(self, env, nimp, depth, tuple_=False, inherits_count=False):
        d = self.dirs; r = self.r; kw = {}
        src = r.random()
        info = Info(); ty = None; pw = None; m = None
        generated = False
        if src < d.get("calc", 0):
            ty, info = self.prim(); kw["calc"] = add(self.num(env, nimp), lit(self.pick([0, 1]))) ; info = Info([1, 2]); generated = True
            if r.random() < .3: kw["calc"] = tick(r.randrange(900, 999), kw["calc"])
        elif src < d.get("calc", 0) + d.get("default", 0):
            ty, info = self.prim(); kw["default"] = self.pick(["default", "ignore"]); generated = True; info = Info([0])
        elif src < d.get("calc", 0) + d.get("default", 0) + d.get("pw", 0):
            k = self.pick(self.pws)
            if k in ("rb",): pw = PW("rb", Prim("u8", [[7], [9]])); self.left -= 2
            elif k in ("until", "untilx"):
                t, i = self.leaf()
                while not i.vals: t, i = self.prim()
                pw = PW(k, t, c=or_(eq(it, self.pick([v for v in i.vals if v < 30000] or [77])), eq(it, 77)))
                t.cv = [t.cv[0]] if len(t.cv) == 1 else t.cv
                self.left -= 2
            elif k == "ueof":
                t, i = self.elem(1)
                while not self.consumes(t): t, i = self.leaf()
                pw = PW(k, t); self.left -= 2
            elif k == "count":
                t, i = self.elem(1); pw = PW(k, t, c=self.countexpr(env, nimp)); self.left -= 2
            elif k in ("sep", "sept"):
                t, i = self.leaf(); t2, _ = self.leaf(True)
                pw = PW(k, t, t2); self.left -= 3
            elif k == "cust":
                t, i = self.elem(1, True); pw = PW(k, t, n=r.randrange(100, 800))
            elif k == "roap":
                t, i = self.value(max(depth, 1), nocount=True); pw = PW("roap", t)
            elif k == "ptrparse":
                t, i = self.value(max(depth, 1), nocount=True); pw = PW("ptrparse", Ptr(Prim("u8", [[2], [5]]), t))
            ty = None; info = Info(ln=k in ("until", "untilx", "ueof", "count", "rb"))
            if k in ("sep", "sept", "rb"): kw["count"] = self.countexpr(env, nimp)
        else:
            ty, info = self.value(depth)
        if not generated and self.p(d, "try"): kw["try_"] = True; info = Info(None)
        if not generated and pw is None and info.vals and isinstance(ty, Prim) and self.p(d, "map"):
            ot = Prim(self.pick(["u8", "u16", "i32"]), [[0]] if False else None)
            istry = r.random() < .5
            m = Map(ty, ot, add(it, lit(self.pick([0, 1]))), c=ne(it, self.pick([v for v in info.vals if v < 30000] or [1])) if istry else None,
                    er=self.num(env, nimp) if istry else None, io=istry and r.random() < .25, tag=r.randrange(800, 899) if r.random() < .5 else 0)
            info = Info([1, 2, 3])
        t = ty if ty is not None else pw.ty
        # arguments
        if not generated and t is not None:
            na = pw.nargs if pw is not None else ty.nargs
            if pw is not None and pw.k == "cust": na = self.pick([0, 1, 2]); kw["araw_ok"] = 0
            kw.pop("araw_ok", None)
            if na:
                kw["args"] = [self.num(env, nimp) if r.random() < .7 else lit(self.pick([4, 9])) for _ in range(na)]
                # negative numbers do not survive the conversion to the argument type
                kw["args"] = [a if a.op in ("lit", "imp", "len") else mod(add(a, 70000), 1000) for a in kw["args"]]
                kw["args_tuple"] = r.random() < .3
        if not generated:
            if self.needs_count(t) and pw is None and not (inherits_count and r.random() < .5): kw["count"] = self.countexpr(env, nimp)
            elif "count" not in kw and self.p(d, "xcount"): kw["count"] = self.countexpr(env, nimp)
            if self.p(d, "endian"): kw["e"] = self.endian(env, nimp)
            if self.p(d, "offset"): kw["offset"] = lit(self.pick([0, 1, 2, 4])) if r.random() < .6 else mod(add(self.num(env, nimp), 70000), 5)
            if pw is None and m is None:
                if self.p(d, "dn"): kw["dn"] = self.pick(["deref_now", "postprocess_now"])
                elif self.p(d, "offset_after"): kw["offset_after"] = lit(self.pick([0, 1, 3]))
            if self.p(d, "fmagic"): kw["magic"] = self.magic()
            if self.p(d, "rp"): kw["rp"] = True
            if self.p(d, "sb"): kw["sb"] = Seek(*self.pick([("S", lit(self.pick([0, 2, 5]))), ("C", lit(self.pick([-1, 1, 2]))), ("E", lit(self.pick([-2, -1, 0]))), ("C", self.num(env, nimp))]))
            for k, a in (("pb", 0), ("ab", 1), ("pst", 0), ("pa", 0), ("aa", 1)):
                if self.p(d, k):
                    kw[k] = lit(self.pick([1, 2, 4, 8, 3])) if a else (lit(self.pick([0, 1, 2, 5])) if r.random() < .6 else self.num(env, nimp))
        f0 = F(ty, map=m, pw=pw, **kw)
        if self.p(d, "if") and (self.can_default(f0.fty) or isinstance(f0.fty, Prim)):
            f0.cond = self.cond(env, nimp)
            if isinstance(f0.fty, Prim) and (r.random() < .5):
                f0.alt = add(self.num(env, nimp), 1) if r.random() < .5 else lit(self.pick([0, 7]))
                if r.random() < .5: f0.alt = tick(r.randrange(900, 999), f0.alt)
            elif not self.can_default(f0.fty): f0.cond = None
            if info.vals: info = Info(info.vals + [0, 7])
        if self.p(d, "temp"): f0.temp = True
        e2 = env + [info]
        if self.p(d, "assert"):
            f0.asserts = [self.assertion(e2, nimp) for _ in range(self.pick([1, 1, 2]))]
        return f0, info
    def countexpr(self, env, nimp):
        q = self.r.random()
        if q < .5: return lit(self.pick([0, 1, 2, 2, 3]))
        return mod(add(self.num(env, nimp), 70000), 4)
    def needs_count(self, t):
        """a Vec somewhere where the field's count reaches it"""
        if isinstance(t, Vec): return True
        if isinstance(t, (Opt, Box, Pos, Arr)): return self.needs_count(t.t)
        if isinstance(t, Ptr): return self.needs_count(t.t)
        if isinstance(t, Tup): return any(self.needs_count(x) for x in t.ts)
        if isinstance(t, DefT): return getattr(t.d, "inherits_count", False)
        return False
    def consumes(self, t):
        """reading a value always uses up input (until_eof of anything else never ends)"""
        if isinstance(t, (Prim, Spy, NStr, WStr, Ptr)): return True
        if isinstance(t, Arr): return t.n > 0 and self.consumes(t.t)
        if isinstance(t, (Opt, Box, Pos)): return self.consumes(t.t)
        if isinstance(t, Tup): return any(self.consumes(x) for x in t.ts)
        if isinstance(t, DefT):
            if t.d.k in ("uenum", "map"): return True
            return all(any(f.ty is not None and f.pw is None and f.calc is None and not f.default and f.cond is None and not f.try_ and self.consumes(f.ty)
                           for f in b.fields) and not any(f.rp or f.sb is not None for f in b.fields) for b in t.d.bodies)
        return False
    def can_default(self, t):
        if isinstance(t, (Prim, NStr, WStr, Unit, Opt, Spy)): return not (isinstance(t, (NStr, WStr)) and False)
        if isinstance(t, Vec): return True
        if isinstance(t, (Box, Arr)): return self.can_default(t.t)
        if isinstance(t, Tup): return all(self.can_default(x) for x in t.ts)
        return False
    # ---------------------------------------------------------- definitions
    def body(self, nimp, depth, variant=False):
        r = self.r; env = []; fs = []
        tuple_ = r.random() < .3
        if variant and r.random() < .15 or r.random() < .05:
            b = Body([], unit=True)
        else:
            for _ in range(r.randint(*self.nf)):
                f, i = self.field(env, nimp, depth, tuple_)
                fs.append(f); env.append(i)
                if self.left <= 0: break
            b = Body(fs, tuple_=tuple_)
        if self.p(self.tops, "asserts"): b.asserts = [self.assertion(env, nimp) for _ in range(self.pick([1, 1, 2]))]
        return b
    def definition(self, depth, noargs=False, kind=None, nimp=None):
        r = self.r; t = self.tops
        ks = dict(struct=6, enum=t.get("enum", 0), uenum=t.get("uenum", 0), mapped=t.get("mapped", 0))
        k = kind or r.choices(list(ks), list(ks.values()))[0]
        nimp = nimp if nimp is not None else (0 if noargs or not self.p(t, "import") else self.pick([1, 2, 3]))
        kw = {}
        if k == "mapped" and nimp and not self.kinds.get("spy"): nimp = 0
        if self.p(t, "endian"): kw["e"] = self.endian([], nimp, True)
        if self.p(t, "magic"): kw["magic"] = self.magic()
        if self.p(t, "pre"): kw["pre"] = [self.assertion([], nimp) for _ in range(self.pick([1, 1, 2]))]
        if nimp: kw["nimp"] = nimp; kw["import_tuple"] = r.random() < .3
        if k == "uenum": kw.pop("pre", None); return self.uenum(kw)
        if k == "mapped":
            ty, info = self.spy(nimp) if nimp else self.prim(); self.left -= 1
            istry = r.random() < .5
            m = Map(ty, self.pick([Prim("u8"), Prim("u32"), Prim("i16")]), add(it, 1), c=ne(it, self.pick([v for v in info.vals if v < 30000] or [1])) if istry else None,
                    er=lit(3) if istry else None, io=istry and r.random() < .3, tag=r.randrange(800, 899))
            return self.P.mapped(m, asenum=r.random() < .3, **kw)
        if k == "struct":
            b = self.body(nimp, depth)
            if not b.fields and not b.unit: b.unit = True
            d = Def(self.P, "struct", [b], asserts=b.asserts, **kw) if False else None
            asserts, b.asserts = b.asserts, []
            b2 = b
            b2.asserts = asserts       # type-level asserts of a struct live with its body in the model
            return DefT(StructDef(self.P, b2, kw))
        bodies = []
        keep = self.left
        for i in range(self.pick([1, 2, 2, 3])):
            self.left = max(3, min(keep, 4))
            b = self.body(nimp, depth, True)
            if not b.fields: b.unit = True
            b.nm = "V%d" % i
            if self.p(t, "vmagic"): b.magic = self.magic()
            if self.p(t, "vpre"): b.pre = [self.assertion([], nimp)]
            if self.p(t, "vendian"): b.e = self.endian([], nimp, True)
            if b.unit: b.e = None; b.asserts = []
            bodies.append(b)
        if all(b.unit for b in bodies):     # an all-unit enum is a unit-like enum
            f, i = self.field([], nimp, 0); bodies[-1].fields = [f]; bodies[-1].unit = False; bodies[-1].asserts = []
        self.left = keep - 4
        if self.p(t, "asserts"): kw["asserts"] = [self.assertion([], nimp)]
        if self.p(t, "unexpected"): kw["errmode"] = "return_unexpected_error"
        elif r.random() < .2: kw["errmode"] = "return_all_errors"
        return DefT(Def(self.P, "enum", bodies, nimp=kw.pop("nimp", 0), import_tuple=kw.pop("import_tuple", False), **kw))
    def uenum(self, kw):
        r = self.r; kw = dict(kw); self.left -= 1
        if r.random() < .6:
            rep = self.pick(["u8", "u16", "u32", "i16", "i8", "u64"])
            vs = []; cur = -1
            for i in range(self.pick([1, 2, 3])):
                if r.random() < .6: cur = cur + self.pick([1, 2, 5]); vs.append(dict(nm="U%d" % i, disc=cur, explicit=True))
                else: cur += 1; vs.append(dict(nm="U%d" % i, disc=cur))
            return self.P.uenum(vs, repr_=rep, **kw)
        k = self.pick(["u8", "u16", "bytes", "i16"])
        pool = {"u8": [1, 2, 0x80, 9], "u16": [1, 0x1234, 0x8001], "i16": [5, 0x1234, 0x0102], "bytes": [b"AB", b"CD", b"AD", b"xx"]}[k]
        ms = r.sample(pool, self.pick([1, 2, 3]))
        vs = [dict(nm="U%d" % i, magic=Magic(k, m)) for i, m in enumerate(ms)]
        if r.random() < .3: vs[0]["pre"] = [A(eq(lit(r.randrange(2)), 1))]
        if r.random() < .2: vs.append(dict(nm="UZ"))
        return self.P.uenum(vs, **kw)
    # ---------------------------------------------------------- cases
    def case(self, kind=None, max=None, apis=("options",), eofb=1, badb=0, slim=-1, start=None, lim=6):
        self.left = self.budget
        t = self.definition(self.depth, kind=kind)
        self.top(t, max, apis, eofb, badb, slim, start, lim=lim)
        return t
    def top(self, t, max=None, apis=("options",), eofb=1, badb=0, slim=-1, start=None, n=1, lim=6):
        r = self.r
        a = [self.pick([1, 2, 7]) for _ in range(t.nargs)]
        api = self.pick(apis)
        if t.nargs and api in ("read", "type", "be", "le", "ne"): api += "_args"
        kw = {}
        if api in ("options", "roap"):
            kw = dict(e=self.pick("BL"))
            if self.needs_count(t): kw["cnt"] = self.pick([0, 1, 2])
            if self.dirs.get("offset") and r.random() < .4: kw["off"] = self.pick([1, 2])
        elif api.startswith("type"): kw = dict(e=self.pick("BL"), native=False)
        self.P.case([Call(t, a=a, api=api, **kw) for _ in range(n)], start=self.pick([0, 0, 1, 3]) if start is None else start,
                    max=max if max is not None else self.pick([6, 10, 14, 20]), eofb=eofb, badb=badb, slim=slim, lim=lim)

class StructDef(Def):
    def __init__(self, P, b, kw):
        asserts = b.asserts; b.asserts = []
        super().__init__(P, "struct", [b], asserts=asserts, **kw)
