"""Schemas: one description, two renderings - the JSON term executed by
spec/BinRead.tla and the Rust source compiled against the real crate."""
import json, random, re

PRIMS = {"u8": (1, "u"), "u16": (2, "u"), "u32": (4, "u"), "u64": (8, "u"), "u128": (16, "u"),
         "i8": (1, "i"), "i16": (2, "i"), "i32": (4, "i"), "i64": (8, "i"), "i128": (16, "i"),
         "f32": (4, "f"), "f64": (8, "f"), "char": (1, "ch")}

def asc(n, base=1):
    return [(base + i) % 256 for i in range(n)]

def default_cv(name):
    n, t = PRIMS[name]
    if n == 1:
        return [[5], [0xF3]]
    return [asc(n, 0x11), [0xFF - i for i in range(n)]]

# ---------------------------------------------------------------- types
class Ty:
    nargs = 0           # number of u32 arguments its Args tuple has
    def term(self, P): raise NotImplementedError
    def rec(self, k, n=0, s="", s2="", a=(), d=0, cv=()):
        return dict(k=k, n=n, s=s, s2=s2, a=list(a), d=d, cv=[list(c) for c in cv])

class Prim(Ty):
    def __init__(self, name, cv=None):
        self.name = name; self.cv = cv if cv is not None else default_cv(name)
        self.cv = [c if isinstance(c, (list, tuple)) else num_bytes(c, PRIMS[name][0]) for c in self.cv]
    def term(self, P):
        n, t = PRIMS[self.name]
        return P.ty(self.rec("prim", n=n, s=self.name, s2=t, cv=self.cv))
    def rust(self): return self.name

def num_bytes(x, n):
    return list((x % (1 << (8 * n))).to_bytes(n, "big"))

class Spy(Ty):
    def __init__(self, tag, nargs=0, cv=None):
        self.tag = tag; self.nargs = nargs; self.cv = cv or [[5], [0xF3]]
    def term(self, P): return P.ty(self.rec("spy", n=self.tag, cv=self.cv))
    def rust(self): return "Spy%d<%d>" % (self.nargs, self.tag)

class Unit(Ty):
    def __init__(self, phantom=False): self.ph = phantom
    def term(self, P): return P.ty(self.rec("unit"))
    def rust(self): return "::core::marker::PhantomData<u32>" if self.ph else "()"

class Seq1(Ty):
    k = ""
    def __init__(self, t): self.t = t; self.nargs = t.nargs
    def term(self, P): return P.ty(self.rec(self.k, a=[P.named(self.t)]))
class Vec(Seq1):
    k = "vec"
    def rust(self): return "Vec<%s>" % self.t.rust()
class Opt(Seq1):
    k = "opt"
    def rust(self): return "Option<%s>" % self.t.rust()
class Box(Seq1):
    k = "box"
    def rust(self): return "Box<%s>" % self.t.rust()
class Pos(Seq1):
    k = "pos"
    def rust(self): return "binread::PosValue<%s>" % self.t.rust()
class Arr(Ty):
    def __init__(self, t, n): self.t = t; self.n = n; self.nargs = t.nargs
    def term(self, P): return P.ty(self.rec("arr", n=self.n, a=[P.named(self.t)]))
    def rust(self): return "[%s; %d]" % (self.t.rust(), self.n)
class Tup(Ty):
    def __init__(self, *ts): self.ts = ts
    def term(self, P): return P.ty(self.rec("tup", a=[t.term(P) for t in self.ts]))
    def rust(self): return "(%s,)" % ", ".join(t.rust() for t in self.ts)
class Ptr(Ty):
    def __init__(self, p, t): self.p = p if isinstance(p, Prim) else Prim(p); self.t = t; self.nargs = t.nargs
    def term(self, P): return P.ty(self.rec("ptr", a=[self.p.term(P), self.t.term(P)]))
    def rust(self): return "binread::FilePtr<%s, %s>" % (self.p.rust(), self.t.rust())
class NStr(Ty):
    def __init__(self, cv=None, nz=False): self.cv = cv or [[0x41], [0], [0xE9]]; self.nz = nz
    def term(self, P): return P.ty(self.rec("nstr", s="nz" if self.nz else "", cv=self.cv))
    def rust(self): return "Vec<::core::num::NonZeroU8>" if self.nz else "binread::NullString"
class WStr(Ty):
    def __init__(self, cv=None, nz=False): self.cv = cv or [[0, 0], [0, 0x41], [0x42, 0]]; self.nz = nz
    def term(self, P): return P.ty(self.rec("wstr", s="nz" if self.nz else "", cv=self.cv))
    def rust(self): return "Vec<::core::num::NonZeroU16>" if self.nz else "binread::NullWideString"
class Punct(Ty):
    """only as a field type behind parse_with"""
    def __init__(self, t, s): self.t = t; self.s = s; self.nargs = t.nargs
    def term(self, P): return P.ty(self.rec("unit"))
    def rust(self): return "binread::punctuated::Punctuated<%s, %s>" % (self.t.rust(), self.s.rust())
class DefT(Ty):
    def __init__(self, d): self.d = d; self.nargs = d.nimp
    def term(self, P): return P.ty(self.rec("def", d=self.d.index))
    def rust(self): return self.d.name + getattr(self.d, "gargs", "")

# ---------------------------------------------------------------- expressions
def outer(t):
    """an expression as a directive's value: without its outer parentheses (or, for a change, with them)"""
    if t[:1] != "(" or sum(map(ord, t)) % 3 == 0: return t
    d = 0
    for i, c in enumerate(t):
        d += (c == "(") - (c == ")")
        if d == 0: return t if i < len(t) - 1 else t[1:-1] if not t.startswith("(-") else t
    return t

class E:
    def __init__(self, op, n=0, *a): self.op = op; self.n = n; self.a = a
    def js(self): return dict(e=self.op, n=self.n, a=[x.js() for x in self.a])
    def rs(self, names):
        r = lambda i: self.a[i].rs(names)
        op = self.op
        if op == "lit": return "%di64" % self.n if self.n >= 0 else "(%di64)" % self.n
        if op == "fld": return names["f"][self.n - 1] + "".join("." + names["fn"](p.n - 1) for p in self.a) + ".i()"
        if op == "len": return names["f"][self.n - 1] + "".join("." + names["fn"](p.n - 1) for p in self.a) + ".ln()"
        if op == "imp": return names["i"][self.n - 1] + ".i()"
        if op == "it": return "it.i()"
        if op == "itlen": return "it.ln()"
        if op == "add": return "(%s + %s)" % (r(0), r(1))
        if op == "sub": return "(%s - %s)" % (r(0), r(1))
        if op == "mul": return "(%s * %s)" % (r(0), r(1))
        if op == "mod": return "(%s %% %s)" % (r(0), r(1))
        if op == "not": return "(!%s)" % self.a[0].bool(names)
        if op == "and": return "(%s && %s)" % (self.a[0].bool(names), self.a[1].bool(names))
        if op == "or": return "(%s || %s)" % (self.a[0].bool(names), self.a[1].bool(names))
        if op in ("eq", "ne", "lt", "le"):
            return "(%s %s %s)" % (r(0), {"eq": "==", "ne": "!=", "lt": "<", "le": "<="}[op], r(1))
        if op == "tick": return "tk(%d, %s)" % (self.n, r(0))
        raise ValueError(op)
    BOOL = ("not", "and", "or", "eq", "ne", "lt", "le")
    def isbool(self): return self.op in self.BOOL or self.op == "tick" and self.a[0].isbool()
    def bool(self, names):
        if self.isbool(): return self.rs(names)
        return "(%s != 0)" % self.rs(names)
    def int(self, names):
        return "(%s as i64)" % self.rs(names) if self.isbool() else self.rs(names)
    def as_(self, names, t):
        if t == "char": return "((%s) as u8 as char)" % self.int(names)
        return "((%s) as %s)" % (self.int(names), t)

def lit(n): return E("lit", n)
def X(x): return x if isinstance(x, E) else lit(int(x))
def fld(i, *path): return E("fld", i, *[lit(p) for p in path])
def ln(i, *path): return E("len", i, *[lit(p) for p in path])
def imp(i): return E("imp", i)
it = E("it"); itlen = E("itlen")
def _bin(op): return lambda a, b: E(op, 0, X(a), X(b))
add, sub, mul, mod, and_, or_, eq, ne, lt, le = map(_bin, ["add", "sub", "mul", "mod", "and", "or", "eq", "ne", "lt", "le"])
def not_(a): return E("not", 0, X(a))
def tick(i, a): return E("tick", i, X(a))

# ---------------------------------------------------------------- directives
class Endian:
    def __init__(self, k, e, x=None): self.k = k; self.e = e; self.x = x
    def js(self): return dict(k=self.k, e=self.e, x=X(self.x or 0).js())
    def rs(self, names):
        if self.k == "fixed": return "big" if self.e == "B" else "little"
        return "%s = %s" % ("is_big" if self.e == "B" else "is_little", outer(self.x.bool(names)))
BIG = Endian("fixed", "B"); LITTLE = Endian("fixed", "L")
def is_big(x): return Endian("cond", "B", x)
def is_little(x): return Endian("cond", "L", x)

class Magic:
    """lit: Rust literal; type prim or array of u8; val: MSB-first bytes"""
    def __init__(self, kind, val, extra=()):
        self.kind = kind; self.val = val; self.extra = list(extra)
        if kind == "bytes":
            self.bytes = list(val); self.lit = 'b"%s"' % "".join("\\x%02x" % b for b in val)
        elif kind == "byte":
            self.bytes = [val]; self.lit = "b'\\x%02x'" % val; kind = "u8"
        elif kind == "char":
            self.bytes = [ord(val)]; self.lit = "'%s'" % val
        elif kind in ("f32", "f64"):
            import struct
            self.bytes = list(struct.pack(">f" if kind == "f32" else ">d", val)); self.lit = "%r%s" % (val, kind)
        else:
            self.bytes = num_bytes(val, PRIMS[kind][0]); self.lit = "%d%s" % (val, kind)
        self.tk = kind
    def cands(self):
        b = self.bytes
        out = [list(b)]
        def put(x):
            if x not in out: out.append(x)
        put(list(reversed(b)))
        y = list(b); y[-1] ^= 1; put(y)
        y = list(b); y[0] ^= 0x40; put(y)
        for x in self.extra: put(list(x))
        return out
    def ty(self):
        if self.tk == "bytes":
            return MArr(self.cands())
        return Prim(self.tk, self.cands())
    def js(self, P):
        if self.tk == "bytes":
            v = V("l", c=[V("u", b=[x]) for x in self.bytes])
        else:
            v = V(PRIMS[self.tk][1], b=self.bytes)
        return dict(ty=self.ty().term(P), v=v)

class MArr(Ty):
    """byte-string magic: to the model a tuple of bytes, each with its own candidates"""
    def __init__(self, cands): self.cands = cands
    def term(self, P):
        n = len(self.cands[0]); els = []
        for i in range(n):
            if n <= 2: cv = sorted({c[j] for c in self.cands[:1] for j in range(n)} | {self.cands[0][i] ^ 1})
            else: cv = sorted({self.cands[0][i], self.cands[0][i] ^ 1})
            for c in self.cands[4:]:
                if c[i] not in cv: cv.append(c[i])
            els.append(Prim("u8", [[x] for x in cv]))
        return P.ty(self.rec("tup", s="bytes", a=[e.term(P) for e in els]))

def V(t, n=0, b=(), c=()): return dict(t=t, n=n, b=list(b), c=list(c))

class A:
    """assert / pre_assert"""
    def __init__(self, c, k="def", s="", x=None):
        self.c = c; self.k = k; self.s = s; self.x = x
    def js(self, names):
        s = self.s
        if self.k == "def": s = "".join(outer(self.c.bool(names)).split())
        return dict(c=self.c.js(), k=self.k, s=s, x=X(self.x if self.x is not None else 0).js())
    def rs(self, names, kw):
        c = outer(self.c.bool(names))
        if self.k == "def": return "%s(%s)" % (kw, c)
        st = self.s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("{", "{{").replace("}", "}}")   # a format string
        if self.k == "msg": return '%s(%s, "%s")' % (kw, c, st)
        if self.k == "fmt": return '%s(%s, "%s {}", %s)' % (kw, c, st, X(self.x).int(names))
        return "%s(%s, E1(%s))" % (kw, c, X(self.x).int(names))

class Seek:
    def __init__(self, w, x): self.w = w; self.x = X(x)
    def js(self): return dict(w=self.w, x=self.x.js())
    def rs(self, names):
        if self.w == "S": return "binread::io::SeekFrom::Start(%s)" % self.x.as_(names, "u64")
        return "binread::io::SeekFrom::%s(%s)" % ("Current" if self.w == "C" else "End", outer(self.x.int(names)))

class Map:
    def __init__(self, ity, oty, x, c=None, er=None, io=False, tag=0, bare=False):
        self.bare = bare and not tag            # written without braces and return type
        self.ity = ity; self.oty = oty; self.x = x; self.c = c; self.er = er; self.io = io; self.tag = tag
        self.is_try = c is not None
    def js(self, P):
        return dict(ty=self.oty.term(P), x=self.x.js(), c=[self.c.js()] if self.c else [],
                    er=X(self.er if self.er is not None else 0).js(), io=self.io, tag=self.tag)
    def out(self, names): return to_rust_val(self.oty, self.x, names)
    def closure(self, names, ity=None, wrap="%s", outty=None):
        ity = ity or self.ity.rust(); outty = outty or self.oty.rust()
        t = "tk(%d, 0); " % self.tag if self.tag else ""
        if not self.is_try and self.bare: return "|it: %s| %s" % (ity, wrap % self.out(names))
        if not self.is_try:
            return "|it: %s| -> %s { %s%s }" % (ity, outty, t, wrap % self.out(names))
        if self.io: er, et = 'binread::io::Error::new(binread::io::ErrorKind::InvalidData, "custom")', "binread::io::Error"
        else: er, et = "E1(%s)" % X(self.er).int(names), "E1"
        if self.bare: return "|it: %s| if %s { Err(%s) } else { Ok(%s) }" % (ity, self.c.bool(names), er, wrap % self.out(names))
        return "|it: %s| -> ::core::result::Result<%s, %s> { %sif %s { Err(%s) } else { Ok(%s) } }" % (
            ity, outty, et, t, self.c.bool(names), er, wrap % self.out(names))

def to_rust_val(ty, x, names):
    if isinstance(ty, Prim): return X(x).as_(names, ty.name)
    if isinstance(ty, Opt): return "Some(%s)" % to_rust_val(ty.t, x, names)
    if isinstance(ty, Unit): return "()"
    raise ValueError(ty)

class PW:
    def __init__(self, k, ty=None, ty2=None, c=None, n=0):
        self.k = k; self.ty = ty; self.ty2 = ty2; self.c = c; self.n = n
    def js(self, P):
        return dict(k=self.k, ty=self.ty.term(P) if self.ty else 0, ty2=self.ty2.term(P) if self.ty2 else 0,
                    c=X(self.c if self.c is not None else 0).js(), n=self.n)
    def field_ty(self):
        if self.k in ("until", "untilx", "ueof", "count"): return Vec(self.ty)
        if self.k == "rb": return Vec(Prim("u8"))
        if self.k in ("sep", "sept"): return Punct(self.ty, self.ty2)
        if self.k == "ptrparse": return self.ty.t
        return self.ty
    def rs(self, names):
        k = self.k
        if k in ("until", "untilx"):
            return "binread::%s(|it: &%s| %s)" % ("until" if k == "until" else "until_exclusive", self.ty.rust(), self.c.bool(names))
        if k == "ueof": return "binread::until_eof"
        if k == "count": return "binread::count(%s)" % self.c.as_(names, "usize")
        if k == "rb": return "binread::helpers::read_bytes"
        if k == "sep": return "binread::punctuated::Punctuated::separated"
        if k == "sept": return "binread::punctuated::Punctuated::separated_trailing"
        if k == "ptrparse": return "binread::FilePtr::<%s, %s>::parse" % (self.ty.p.rust(), self.ty.t.rust())
        if k == "roap": return "binread::error::read_options_then_after_parse"
        if k == "cust": return "cust::<%d, _, _, _>" % self.n
        raise ValueError(k)
    @property
    def nargs(self): return self.ty.nargs if self.ty else 0

def opt(x): return [] if x is None else [x]

class F:
    """a field"""
    def __init__(self, ty=None, **kw):
        self.map = kw.pop("map", None); self.pw = kw.pop("pw", None)
        self.rty = kw.pop("rty", None)
        self.try_ = kw.pop("try_", False)
        self.calc = kw.pop("calc", None); self.default = kw.pop("default", None)   # "default" | "ignore"
        self.magic = kw.pop("magic", None); self.e = kw.pop("e", None)
        self.cnt = kw.pop("count", None); self.off = kw.pop("offset", None); self.offa = kw.pop("offset_after", None)
        self.args = kw.pop("args", None); self.args_tuple = kw.pop("args_tuple", False); self.araw = kw.pop("araw", False)
        self.dn = kw.pop("dn", None)          # "deref_now" | "postprocess_now"
        self.cond = kw.pop("cond", None); self.alt = kw.pop("alt", None)
        self.sb = kw.pop("sb", None); self.pb = kw.pop("pb", None); self.ab = kw.pop("ab", None)
        self.pst = kw.pop("pst", None); self.pa = kw.pop("pa", None); self.aa = kw.pop("aa", None)
        self.asserts = kw.pop("asserts", []); self.rp = kw.pop("rp", False); self.temp = kw.pop("temp", False)
        assert not kw, kw
        # ty: type read from the stream; fty: declared type
        if self.pw is not None and ty is None: ty = self.pw.field_ty()
        self.ty = ty
        if self.map is not None:
            self.ty = self.map.ity; base = self.map.oty
            self.fty = base                   # with try: map takes Option<ity>
        else:
            self.fty = Opt(self.ty) if self.try_ else self.ty
    def js(self, P, names, nm):
        rm = "calc" if self.calc is not None else "default" if self.default else "pw" if self.pw is not None else "read"
        o = lambda x: [X(x).js()] if x is not None else []
        return dict(nm=nm, ty=self.ty.term(P), fty=self.fty.term(P),
            magic=[self.magic.js(P)] if self.magic else [], e=[self.e.js()] if self.e else [],
            cnt=o(self.cnt), off=o(self.off), offa=o(self.offa),
            args=[X(a).js() for a in (self.args or [])], araw=self.araw, dn=bool(self.dn), rm=rm, calc=o(self.calc),
            pw=[self.pw.js(P)] if self.pw else [], map=[self.map.js(P)] if self.map else [],
            cond=o(self.cond), alt=o(self.alt), sb=[self.sb.js()] if self.sb else [],
            pb=o(self.pb), ab=o(self.ab), pst=o(self.pst), pa=o(self.pa), aa=o(self.aa),
            asserts=[a.js(names) for a in self.asserts], rp=self.rp, temp=self.temp, **{"try": self.try_})
    def directives(self, names):
        d = []
        if self.e: d.append(self.e.rs(names))
        if self.magic: d.append("magic = " + self.magic.lit)
        if self.cnt is not None: d.append("count = %s" % outer(X(self.cnt).int(names)))
        if self.off is not None: d.append("offset = ob(%s)" % X(self.off).as_(names, "u64"))
        if self.offa is not None: d.append("offset_after = ob(%s)" % X(self.offa).as_(names, "u64"))
        if self.araw: d.append("args_tuple = %s" % names["iraw"])
        elif self.args is not None:
            al = ", ".join(outer(X(a).as_(names, "u32")) for a in self.args)
            d.append("args_tuple = (%s,)" % al if self.args_tuple else "args(%s)" % al)
        if self.dn: d.append(self.dn)
        if self.calc is not None:
            t = self.fty.t if self.try_ else self.fty
            d.append("calc = %s" % outer(to_rust_val(t, self.calc, names)))
        if self.default: d.append(self.default)
        if self.pw is not None: d.append("parse_with = " + self.pw.rs(names))
        if self.try_: d.append("try")
        if self.map is not None:
            ity = "Option<%s>" % self.map.ity.rust() if self.try_ else None
            d.append(("try_map = " if self.map.is_try else "map = ") + self.map.closure(names, ity))
        if self.cond is not None:
            c = outer(X(self.cond).bool(names))
            d.append("if(%s)" % c if self.alt is None else "if(%s, %s)" % (c, outer(to_rust_val(self.fty, self.alt, names))))
        if self.sb is not None: d.append("seek_before = " + self.sb.rs(names))
        for k, v in (("pad_before", self.pb), ("align_before", self.ab), ("pad_size_to", self.pst), ("pad_after", self.pa), ("align_after", self.aa)):
            if v is not None: d.append("%s = %s" % (k, outer(X(v).int(names))))
        if self.rp: d.append("restore_position")
        if self.temp: d.append("temp")
        return d, [a.rs(names, "assert") for a in self.asserts]

class Body:
    def __init__(self, fields, tuple_=False, unit=False, e=None, magic=None, pre=(), asserts=(), nm=""):
        self.fields = list(fields); self.tuple_ = tuple_; self.unit = unit; self.e = e; self.magic = magic
        self.pre = list(pre); self.asserts = list(asserts); self.nm = nm

class Def:
    """k: struct | enum | uenum | map"""
    def __init__(self, P, k, bodies=(), nimp=0, import_tuple=False, e=None, magic=None, pre=(), asserts=(),
                 errmode="", repr_=None, uvars=(), map_=None, default=False, asenum=False, name=None, bare=False, cv=None):
        self.P = P; self.k = k; self.bodies = list(bodies); self.nimp = nimp; self.import_tuple = import_tuple
        self.e = e; self.magic = magic; self.pre = list(pre); self.asserts = list(asserts); self.errmode = errmode
        self.repr_ = repr_; self.uvars = list(uvars); self.map_ = map_; self.default = default; self.asenum = asenum
        self.bare = bare; self.cv = cv
        self.index = len(P.defs) + 1
        self.name = name or "D%d" % self.index
        self.gd = self.gw = self.gi = self.gargs = ""; self.gdef = None; self.vis = "pub"
        P.defs.append(None); P.defobjs.append(self)
        if P.decl: P.rust.append(self.declare())
        else:
            P.defs[self.index - 1] = self.js()
            P.rust.append(self.rs())
    # ---- the same declaration in other words: generic, produced by a macro, among colliding names
    def declare(self):
        P = self.P; r = P.drnd; c = P.dnames
        if P.selfref or r.random() < .35 and not c: pass
        elif c and r.random() < .7: self.name = c.pop(r.randrange(len(c)))
        form = r.choice(["generic"] * 4 + ["macro"] * 3 + ["module", "plain"])
        if P.selfref: form = r.choice(["module", "plain"])
        lits, types = self.params()
        r.shuffle(lits); r.shuffle(types)
        lits = lits[:r.choice([0, 1, 1, 2])]; types = types[:r.choice([1, 1, 2, 3])]
        if form not in ("generic", "macro"): lits = types = []
        pat = []; margs = []; gp = []; gx = []; where = []
        tn = r.sample(P.tparams, len(types))
        for i, l in enumerate(lits):
            if form == "macro":
                pat.append("$e%d:expr" % i); margs.append(r.choice(["%di64", "%di64 - 1i64 + 1i64", "1i64 + %di64 - 1i64", "%di64 + 0"]) % l.n if l.n >= 0 else "%di64" % l.n); l.rs = lambda names, i=i: "$e%d" % i
            else: l.rs = lambda names, i=i: "K%d" % i
        self.P.defs[self.index - 1] = self.js()
        for i, (t, bounds, life) in enumerate(types):
            if form == "macro": pat.append("$t%d:ty" % i); margs.append(t.rust()); t.rust = lambda i=i: "$t%d" % i
            elif life:
                gp.insert(0, "'a"); gx.insert(0, "'static"); t.rust = lambda: "::core::marker::PhantomData<&'a u32>"
            else:
                b = sorted(bounds); nm = tn[i]; gx.append(t.rust())
                r.shuffle(b)
                if r.random() < .25: where.extend("%s: %s" % (nm, x) for x in b); gp.append(nm)
                elif r.random() < .5: where.append("%s: %s" % (nm, " + ".join(b))); gp.append(nm)
                elif r.random() < .5 and len(b) > 1: where.append("%s: %s" % (nm, " + ".join(b[1:]))); gp.append("%s: %s" % (nm, b[0]))
                else: gp.append("%s: %s" % (nm, " + ".join(b)))
                t.rust = lambda nm=nm: nm
        if form == "generic":
            for i, l in enumerate(lits): gp.append("const K%d: i64" % i); gx.append("%d" % l.n if l.n >= 0 else "{%d}" % l.n)
            # bounds that have nothing to do with a parameter of their own, and defaults
            if where and r.random() < .3: where.insert(r.randrange(len(where) + 1), r.choice(["u8: Copy", "for<'z> &'z u8: Copy", "Vec<u8>: Clone"]))
            self.gdef = "%s = %s" % (gp[-1], gx[-1]) if gp and not lits and gp[-1][0] != "'" and r.random() < .3 else None
            if gp: self.gd = "<%s>" % ", ".join(gp); self.gargs = "<%s>" % ", ".join(gx)
            if where: self.gw = " where %s%s " % (", ".join(where), r.choice(["", ","]))
            self.gi = re.sub(r"const (\w+): i64", r"\1", ", ".join(x.split(":")[0] if not x.startswith("const") else x for x in gp))
        self.vis = r.choice(["pub", "pub", "pub(crate)"]) if form != "macro" else "pub"
        text, dump = self.rs2()
        for l in lits: del l.rs
        for t, _, _ in types: del t.rust
        if form == "macro":
            pat.insert(0, "$name:ident"); margs.insert(0, self.name)
            text = re.sub(r"\b(struct|enum) %s\b" % self.name, r"\1 $name", text)
            n = max([len(b.fields) for b in self.bodies] or [0])
            if not P.hostile and r.random() < .5 and n < 20 and not any(b.tuple_ for b in self.bodies):
                for i in range(n): pat.append("$f%d:ident" % i); margs.append("f%d" % i)
                text = re.sub(r"\bf(1?\d)\b", lambda m: "$f" + m.group(1) if int(m.group(1)) < n else m.group(0), text)
            text = "macro_rules! mk%d { (%s) => {\n%s} }\nmk%d! { %s }\n" % (self.index, ", ".join(pat), text, self.index, ", ".join(margs))
        text += dump
        if form == "module" or self.vis == "pub" and r.random() < .3:
            junk = "use super::*; mod core {} mod std {} mod alloc {}\n" + "".join("macro_rules! %s { ($($t:tt)*) => { compile_error!(\"captured\") } }\n" % m for m in ("vec", "format", "assert", "panic", "matches", "write"))
            used = set(re.findall(r"\w+", text)) | set(P.dnames0)
            junk += "".join("#[allow(non_camel_case_types)] struct %s;\n" % m for m in ("Error", "ReadOptions", "SeekFrom", "Endian", "Read", "Seek", "R", "BinResult", "reader") if m not in used or m == "R" and "R" not in P.dnames0 and "R" not in P.tparams)
            text = "mod m%d {\n%s%s}\npub use m%d::*;\n" % (self.index, junk, text, self.index) if self.vis == "pub" else text
        return text
    def params(self):
        """literals and types of the declaration that could as well be parameters"""
        lits = []; types = {}; bad = set()
        def expr(x):
            if isinstance(x, (list, tuple)):
                for y in x: expr(y)
            elif isinstance(x, E):
                if x.op == "lit" and -1000 < x.n < 1000: lits.append(x)
                elif x.op not in ("fld", "len"): expr(x.a)
        def mark(t):
            if t is None: return
            bad.add(id(t))
            for x in ([t.t] if hasattr(t, "t") else []) + list(getattr(t, "ts", ())) + [getattr(t, "p", None), getattr(t, "s", None)]:
                if isinstance(x, Ty): mark(x)
        def walk(t, arr, said, top):
            na = t.nargs
            b = {"Dump", "binread::BinRead<Args = (%s)>" % "".join(["u32,"] * na)}
            if isinstance(t, Unit) and t.ph: types.setdefault(id(t), [t, set(), True])
            ok = True
            if arr and not isinstance(t, (Prim, Spy)): ok = False
            if arr: b.add("Default")
            if said:
                if isinstance(t, (Prim, Spy)): b.add("ToI")
                elif isinstance(t, (NStr, WStr, Vec)): b.add("Ln")
                else: ok = False
            if isinstance(t, Unit): ok = False
            if ok: types.setdefault(id(t), [t, set(), False])[1].update(b)
            else:
                if not (isinstance(t, Unit) and t.ph): bad.add(id(t))
            if isinstance(t, (Vec, Opt, Box, Pos, Arr)): walk(t.t, arr or isinstance(t, Arr), said and not isinstance(t, (Vec, Arr)), False)
            elif isinstance(t, Tup):
                for x in t.ts: walk(x, arr, said, False)
            elif isinstance(t, Ptr):
                if not arr: types.setdefault(id(t.p), [t.p, set(), False])[1].update({"Dump", "binread::BinRead<Args = ()>", "binread::file_ptr::IntoSeekFrom"})
                walk(t.t, arr, said, False)
        nv = len(self.bodies)
        for b in self.bodies:
            for f in b.fields:
                for a in ("cnt", "off", "offa", "calc", "alt", "pb", "ab", "pst", "pa", "aa"):
                    v = getattr(f, a)
                    if v is not None and not isinstance(v, E): setattr(f, a, X(v))
                    expr(getattr(f, a))
                if f.sb: expr(f.sb.x)
                if f.map: expr(f.map.x)
                expr(f.args or [])
        if self.k not in ("struct", "enum"): return [], []
        said = {}
        js = json.dumps([Def.js(self)]) if False else None
        for b in self.bodies:
            nm = self.names(b)
            body = dict(fields=[f.js(self.P, nm, nm["f"][i]) for i, f in enumerate(b.fields)], pre=[a.js(nm) for a in b.pre], asserts=[a.js(nm) for a in b.asserts])
            ref = refs(dict(asserts=[a.js(nm) for a in self.asserts]), body)
            for i, f in enumerate(b.fields):
                if f.map is not None or f.pw is not None or f.calc is not None or f.default or f.cond is not None or f.temp:
                    mark(f.ty); mark(f.fty)
                    if f.map: mark(f.map.ity); mark(f.map.oty)
                    if f.pw: mark(f.pw.ty); mark(f.pw.ty2)
                elif f.ty is not None: walk(f.ty, self.default, ref[i], True)
        # one object, one parameter; a type inside of one that is a parameter itself is not used
        out = []; seen = set(lits and [id(x) for x in lits] or [])
        lits = list({id(x): x for x in lits}.values())
        inner = set()
        def ins(t, top=True):
            if not top: inner.add(id(t))
            for x in ([t.t] if hasattr(t, "t") else []) + list(getattr(t, "ts", ())) + [getattr(t, "p", None)]:
                if isinstance(x, Ty): ins(x, False)
        cand = [v for k, v in types.items() if k not in bad]
        self.P.drnd.shuffle(cand)
        for v in cand:
            t = v[0]
            sub = set()
            def allsub(x):
                for y in ([x.t] if hasattr(x, "t") else []) + list(getattr(x, "ts", ())) + [getattr(x, "p", None)]:
                    if isinstance(y, Ty): sub.add(id(y)); allsub(y)
            allsub(t)
            if id(t) in inner or any(id(o[0]) in sub for o in out): continue
            inner |= sub; out.append(tuple(v))
        return lits, out
    def imports(self):
        # with import_tuple the names are elements of the tuple binding
        if self.import_tuple: return [self.P.iname(0, "imps") + ".%d" % i for i in range(self.nimp)]
        return [self.P.iname(i) for i in range(self.nimp)]
    def names(self, body):
        return {"f": ["self_%d" % i if body.tuple_ else self.P.fname(i) for i in range(len(body.fields))], "i": self.imports(), "iraw": self.P.iname(0, "imps"), "fn": self.P.fname}
    def js(self):
        P = self.P; bodies = []
        for b in self.bodies:
            nm = self.names(b)
            bodies.append(dict(nm=b.nm, unit=b.unit, e=[b.e.js()] if b.e else [], magic=[b.magic.js(P)] if b.magic else [],
                pre=[a.js(nm) for a in b.pre], asserts=[a.js(nm) for a in b.asserts],
                fields=[f.js(P, nm, nm["f"][i]) for i, f in enumerate(b.fields)]))
        nm = {"f": self.names(self.bodies[0])["f"] if self.bodies else [], "i": self.imports(), "iraw": self.P.iname(0, "imps"), "fn": self.P.fname}
        uv = []
        for u in self.uvars:
            v = []
            if self.repr_:
                v = [V(PRIMS[self.repr_][1], b=num_bytes(u["disc"], PRIMS[self.repr_][0]))]
            elif u.get("magic"): v = [u["magic"].js(P)["v"]]
            uv.append(dict(nm=u["nm"], v=v, pre=[a.js(nm) for a in u.get("pre", [])]))
        rty = []
        if self.k == "uenum":
            if self.repr_:
                n = PRIMS[self.repr_][0]
                cv = []
                for u in self.uvars:
                    x = u["disc"]
                    # neighbours, the other byte order, and values that agree in all but one end
                    for b in (num_bytes(x, n), list(reversed(num_bytes(x, n))), num_bytes(x + 1, n), num_bytes(x + 256, n), num_bytes(x ^ (1 << (8 * n - 1)), n)):
                        if b not in cv: cv.append(b)
                if self.cv: cv = self.cv
                rty = [Prim(self.repr_, cv).term(P)]
            else:
                ms = [u["magic"] for u in self.uvars if u.get("magic")]
                allc = []
                for m in ms:
                    for c in m.cands():
                        if c not in allc: allc.append(c)
                rty = [MArr(allc).term(P) if ms[0].tk == "bytes" else Prim(ms[0].tk, allc).term(P)]
        elif self.k == "map":
            rty = [self.map_.ity.term(P)]
        return dict(k=self.k, nm=self.name, e=[self.e.js()] if self.e else [], magic=[self.magic.js(P)] if self.magic else [],
            pre=[a.js(nm) for a in self.pre], asserts=[a.js(nm) for a in self.asserts], bodies=bodies,
            errmode="one" if self.errmode == "return_unexpected_error" else "all", uvars=uv, rty=rty,
            map=[self.map_.js(P)] if self.map_ else [])
    def attrs(self, ds, fixed=(), ind=""):
        """render directives; order and grouping carry no meaning, so vary them
        (assertions keep their relative order)"""
        r = self.P.rnd
        ds = list(ds); r.shuffle(ds)
        out = []
        fixed = list(fixed)
        while ds or fixed:
            if fixed and (not ds or r.random() < len(fixed) / (len(ds) + len(fixed))): out.append(fixed.pop(0))
            else: out.append(ds.pop(0))
        if not out: return ""
        if self.P.spell: return spelled(r, out, ind)
        kw = "br" if r.random() < .9 else "binread"
        if len(out) > 1 and r.random() < .25:
            j = r.randrange(1, len(out))
            return "%s#[%s(%s)]\n%s#[br(%s)]\n" % (ind, kw, ", ".join(out[:j]), ind, ", ".join(out[j:]))
        return "%s#[%s(%s)]\n" % (ind, kw, ", ".join(out))
    def render_body(self, b, ind):
        nm = self.names(b); out = []
        for i, f in enumerate(b.fields):
            d, fx = f.directives(nm)
            a = self.attrs(d, fx, ind)
            vis = "" if b.nm else "pub "
            out.append(a + ind + (vis + f.fty.rust() if b.tuple_ else "%s%s: %s" % (vis, self.P.fname(i), f.fty.rust())) + ",\n")
        return "".join(out)
    def top_attrs(self):
        ds = []
        nm0 = {"f": self.names(self.bodies[0])["f"] if self.bodies else [], "i": self.imports(), "iraw": self.P.iname(0, "imps"), "fn": self.P.fname}
        if self.e: ds.append(self.e.rs(nm0))
        if self.magic: ds.append("magic = " + self.magic.lit)
        if self.nimp:
            if self.import_tuple: ds.append("import_tuple(%s: (%s,))" % (self.P.iname(0, "imps"), ", ".join("u32" for _ in range(self.nimp))))
            else: ds.append("import(%s)" % ", ".join("%s: u32" % self.P.iname(i) for i in range(self.nimp)))
        if self.errmode: ds.append(self.errmode)
        if self.repr_: ds.append("repr = " + self.repr_)
        if self.map_:
            wrap = "Self::V0 { f0: %s }" if self.asenum else "Self { f0: %s }"
            ds.append(("try_map = " if self.map_.is_try else "map = ") + self.map_.closure(nm0, wrap=wrap, outty="Self"))
        fx = [a.rs(nm0, "pre_assert") for a in self.pre] + [a.rs(nm0, "assert") for a in self.asserts]
        return self.attrs(ds, fx)
    def rs(self): return "".join(self.rs2())
    def rs2(self):
        n = self.name
        temp = any(f.temp for b in self.bodies for f in b.fields)
        o = "#[binread::derive_binread]\n" if temp else "#[derive(binread::BinRead)]\n"
        if self.default: o += "#[derive(Default)]\n"
        if not self.bare: o += self.top_attrs()
        def dump(b, pat, tag, n_):
            keep = [i for i, f in enumerate(b.fields) if not f.temp]
            return "%s => { o.open(\"%s\", %d); %s o.close(); }" % (pat, tag, n_, " ".join("x%d.dump(o);" % i for i in keep))
        def pat(head, b):
            keep = [i for i, f in enumerate(b.fields) if not f.temp]
            if b.unit: return head
            if b.tuple_: return "%s(%s)" % (head, ", ".join("x%d" % i for i in keep))
            return "%s { %s }" % (head, ", ".join("%s: x%d" % (self.P.fname(i), i) for i in keep))
        arms = []
        if self.k == "struct":
            b = self.bodies[0]
            if b.unit: o += "%s struct %s%s;\n" % (self.vis, n, self.gd)
            elif b.tuple_: o += "%s struct %s%s(\n%s)%s;\n" % (self.vis, n, self.gd, self.render_body(b, "    "), self.gw)
            else: o += "%s struct %s%s%s {\n%s}\n" % (self.vis, n, self.gd, self.gw, self.render_body(b, "    "))
            arms.append(dump(b, pat(n, b), "s", 0))
        elif self.k == "enum":
            o += "%s enum %s%s%s {\n" % (self.vis, n, self.gd, self.gw)
            for vi, b in enumerate(self.bodies):
                nm = self.names(b); ds = []
                if b.e: ds.append(b.e.rs(nm))
                if b.magic: ds.append("magic = " + b.magic.lit)
                fx = [a.rs(nm, "pre_assert") for a in b.pre] + [a.rs(nm, "assert") for a in b.asserts]
                o += self.attrs(ds, fx, "    ")
                if b.unit: o += "    %s,\n" % b.nm
                elif b.tuple_: o += "    %s(\n%s    ),\n" % (b.nm, self.render_body(b, "        "))
                else: o += "    %s {\n%s    },\n" % (b.nm, self.render_body(b, "        "))
                arms.append(dump(b, pat(n + "::" + b.nm, b), "v", vi + 1))
            o += "}\n"
        elif self.k == "uenum":
            o += "pub enum %s {\n" % n
            nm = {"f": [], "i": self.imports(), "iraw": self.P.iname(0, "imps"), "fn": self.P.fname}
            for vi, u in enumerate(self.uvars):
                ds = ["magic = " + u["magic"].lit] if u.get("magic") else []
                o += self.attrs(ds, [a.rs(nm, "pre_assert") for a in u.get("pre", [])], "    ")
                o += "    %s%s,\n" % (u["nm"], " = %d" % u["disc"] if u.get("explicit") else "")
                arms.append('%s::%s => { o.open("v", %d); o.close(); }' % (n, u["nm"], vi + 1))
            o += "}\n"
        else:
            ft = self.map_.oty.rust()
            if self.asenum:
                o += "pub enum %s { V0 { f0: %s } }\n" % (n, ft)
                arms.append('%s::V0 { f0: x0 } => { o.open("s", 0); x0.dump(o); o.close(); }' % n)
            else:
                o += "pub struct %s { pub f0: %s }\n" % (n, ft)
                arms.append('%s { f0: x0 } => { o.open("s", 0); x0.dump(o); o.close(); }' % n)
        if self.gdef: o = o.replace(self.gd, self.gd[:self.gd.rindex(self.gdef.rpartition(" = ")[0])] + self.gdef + ">", 1)
        return o, "impl%s Dump for %s%s%s { fn dump(&self, o: &mut Out) { match self { %s } } }\n" % (self.gd, n, "<%s>" % self.gi if self.gi else "", self.gw, " ".join(arms))

# names that an expansion might use itself
HOSTILE = ["reader", "r#type", "options", "args", "pos", "value", "temp", "error", "val", "opt", "e", "pad", "size", "align", "endian", "r", "r#match", "count", "offset", "magic",
           "map", "result", "position", "saved", "x", "f", "condition", "alloc", "binread", "core", "std", "name", "ok", "err", "buf", "bytes", "n", "i", "ptr", "this", "variable_name"]

ALIAS = {"deref_now": "postprocess_now", "default": "ignore"}
ALIAS.update({v: k for k, v in ALIAS.items()})
def spelled(r, ds, ind):
    """the same directives, written differently: k = v or k(v), aliases, one attribute or many,
    br or binread, trailing commas, other attributes in between"""
    out = []; cur = []
    def flush():
        if cur or r.random() < .1: out.append("%s#[%s(%s%s)]\n" % (ind, r.choice(["br", "binread"]), ", ".join(cur), "," if cur and r.random() < .3 else ""))
        cur.clear()
    for d in ds:
        k, eq_, v = d.partition(" = ")
        if eq_ and k.isidentifier() and r.random() < .5: d = "%s(%s)" % (k, v)
        elif d.startswith("import_tuple(") and r.random() < .5: d = "import_tuple = " + d[len("import_tuple("):-1]
        elif d in ALIAS and r.random() < .5: d = ALIAS[d]
        elif d[-1] == ")" and d.split("(")[0] in ("args", "import", "assert", "pre_assert", "if") and d[-2] != "(" and r.random() < .3: d = d[:-1] + ",)"
        if r.random() < .4: flush()
        if r.random() < .1: out.append(ind + r.choice(["#[allow(dead_code)]", "/// a comment", "#[doc(hidden)]"]) + "\n")
        cur.append(d)
    flush()
    return "".join(out)

def type_key(s):
    """a type's name without the paths of modules"""
    s = re.sub(r"(?:\w+::)+", "", s.replace("$crate", "").replace("::core", "core")).replace(" ", "")
    s = re.sub(r"'\w+,|[{}]", "", s)
    s = re.sub(r"NonZero<u(\d+)>", r"NonZeroU\1", s)
    return re.sub(r",([)>])", r"\1", s)

def refs(d, b):
    """which fields the expressions of a body mention"""
    out = set()
    def go(x):
        if isinstance(x, dict):
            if x.get("e") in ("fld", "len"): out.add(x["n"])
            for y in x.values(): go(y)
        elif isinstance(x, list):
            for y in x: go(y)
    go(b); go(d["asserts"])
    return [i + 1 in out for i in range(len(b["fields"]))]

class Prog:
    def __init__(self, seed=1, hostile=False, spell=False, decl=False, tnames=None):
        self.pool = hostile if isinstance(hostile, list) else HOSTILE
        self.decl = decl; self.drnd = random.Random(seed * 7 + 3); self.selfref = False
        # names of types and of type parameters that an expansion might use itself
        tn = ["R", "T", "A", "B", "Args", "Reader", "Error", "Result", "Endian", "SeekFrom", "ReadOptions", "Read", "Seek", "BinResult", "BinRead", "Temp", "E", "F", "StreamPosition", "AssertErrorFn"]
        if tnames: tn = list(tnames) + [x for x in tn if x not in tnames]
        if tnames: tn = (tn + ["T", "A", "B"])[:max(14, len(tnames))]
        self.drnd.shuffle(tn); self.dnames = tn[:9]; self.tparams = tn[9:]; self.dnames0 = list(self.dnames)
        self.hostile = hostile; self.spell = spell; self.nbase = seed
        self.rnd = random.Random(seed)
        self.tnames = {}; self.types = []; self.tidx = {}; self.defs = []; self.defobjs = []; self.rust = []; self.cases = []; self.rcases = []
    def ty(self, rec):
        k = json.dumps(rec, sort_keys=True)
        if k not in self.tidx:
            self.types.append(rec); self.tidx[k] = len(self.types)
        return self.tidx[k]
    def named(self, t):
        """the term of an element type, remembering what it is called"""
        i = t.term(self); self.tnames.setdefault(i, set()).add(type_key(t.rust())); return i
    def fname(self, i): return self.pool[(self.nbase + i) % len(self.pool)] if self.hostile else "f%d" % i
    def iname(self, i, plain=None): return self.pool[(self.nbase - 1 - i) % len(self.pool)] if self.hostile else plain or "im%d" % i
    # shorthands
    def struct(self, *fields, **kw):
        bk = {k: kw.pop(k) for k in ("tuple_", "unit") if k in kw}
        return DefT(Def(self, "struct", [Body(fields, **bk)], **kw))
    def enum(self, *bodies, **kw):
        for i, b in enumerate(bodies):
            if not b.nm: b.nm = "V%d" % i
        return DefT(Def(self, "enum", bodies, **kw))
    def rec(self, mk, enum=False, **kw):
        """a definition that refers to itself: mk(t) gives its fields (enum: its bodies)"""
        import types
        n = len(self.defs) + 1
        t = DefT(types.SimpleNamespace(index=n, name="D%d" % n, nimp=kw.get("nimp", 0))); self.selfref = True
        r = self.enum(*mk(t), **kw) if enum else self.struct(*mk(t), **kw)
        assert r.d.index == n; self.selfref = False
        return r
    def uenum(self, uvars, **kw):
        return DefT(Def(self, "uenum", uvars=uvars, **kw))
    def mapped(self, m, **kw):
        return DefT(Def(self, "map", map_=m, **kw))
    def case(self, calls, start=0, max=8, eofb=1, badb=0, slim=-1, lim=99, **meta):
        if isinstance(calls, (Ty, Call)): calls = [calls]
        calls = [c if isinstance(c, Call) else Call(c) for c in calls]
        self.cases.append(dict(calls=[c.js(self) for c in calls], start=start, max=max, eofb=eofb, badb=badb, slim=slim, lim=lim))
        self.rcases.append((calls, meta))
        return len(self.cases)
    def json(self):
        return dict(types=self.types, defs=self.defs, cases=self.cases, refs=[[refs(d, b) for b in d["bodies"]] for d in self.defs])
    def source(self):
        o = ["// generated\nuse super::*;\n"] + self.rust
        arms = []
        for i, (calls, _) in enumerate(self.rcases):
            o.append("fn case_%d(r: &mut Rdr, o: &mut Out) {\n" % (i + 1) +
                     "".join("    call(r, o, |r| { %s });\n" % c.rs() for c in calls) + "}\n")
            arms.append("%d => case_%d(r, o)," % (i + 1, i + 1))
        o.append("pub fn dispatch(i: usize, r: &mut Rdr, o: &mut Out) { match i { %s _ => panic!(\"no such case\") } }\n" % " ".join(arms))
        return "\n".join(o)

class Call:
    """api: options | read | read_args | type | be | le | ne | type_args | be_args | le_args | ne_args | roap"""
    def __init__(self, ty, e="L", a=(), api="options", cnt=None, off=0, native=False):
        self.ty = ty; self.e = e; self.a = list(a); self.api = api; self.cnt = cnt; self.off = off; self.native = native
        if api in ("read", "read_args", "ne", "ne_args"): self.e = "L"
        if api in ("be", "be_args"): self.e = "B"
        if api in ("le", "le_args"): self.e = "L"
        assert len(self.a) == ty.nargs, (ty.rust(), a)
        self.after = api not in ("options", "read", "read_args")
        if api not in ("options", "roap"): assert cnt is None and off == 0
    def js(self, P):
        return dict(ty=self.ty.term(P), e=self.e, a=self.a, after=self.after,
                    cnt=-1 if self.cnt is None else self.cnt, off=self.off)
    def rs(self):
        t = self.ty.rust()
        a = "(%s)" % "".join("%du32," % x for x in self.a)
        en = "binread::Endian::" + ("Native" if self.native else {"B": "Big", "L": "Little"}[self.e])
        if self.api == "options": return "<%s as binread::BinRead>::read_options(r, &opts(%s, %s, %d), %s)" % (t, en, "None" if self.cnt is None else "Some(%d)" % self.cnt, self.off, a)
        if self.api == "roap": return "binread::error::read_options_then_after_parse::<_, %s, _>(r, &opts(%s, %s, %d), %s)" % (t, en, "None" if self.cnt is None else "Some(%d)" % self.cnt, self.off, a)
        if self.api == "read": return "<%s as binread::BinRead>::read(r)" % t
        if self.api == "read_args": return "<%s as binread::BinRead>::read_args(r, %s)" % (t, a)
        if self.api == "type": return "binread::BinReaderExt::read_type::<%s>(r, %s)" % (t, en)
        if self.api == "type_args": return "binread::BinReaderExt::read_type_args::<%s>(r, %s, %s)" % (t, en, a)
        if self.api.endswith("_args"): return "binread::BinReaderExt::read_%s::<%s>(r, %s)" % (self.api, t, a)
        return "binread::BinReaderExt::read_%s::<%s>(r)" % (self.api, t)
