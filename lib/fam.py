"""Per-property programs: hand-written products over the features the property
talks about, plus random programs drawn around it.  Nothing here says what the
right outcome is - that is the specification's business."""
import itertools, re
import harvest
from gen import *
from core import THOROUGH, SEED
from model import Job, WIDE, SHALLOW

def u8(*cv): return Prim("u8", [[c] for c in cv] or [[5], [0xF3]])
def u16(*cv): return Prim("u16", [num_bytes(c, 2) for c in cv] or [[0x12, 0x34]])
def u32(*cv): return Prim("u32", [num_bytes(c, 4) for c in cv] or [[1, 2, 3, 4]])
def pr(n, *cv): return Prim(n, [num_bytes(c, PRIMS[n][0]) for c in cv] if cv else default_cv(n)[:1])
def S1(P, *f, **k): return P.struct(*f, **k)
B2 = lambda f1, f2, **k: (Body(f1), Body(f2))
NUM = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64"]
INTS = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"]

# ------------------------------------------------------------------ random programs
KB = dict(prim=6, wide=3)
KALL = dict(prim=6, wide=3, spy=2, unit=.5, nstr=1, wstr=1, vec=2, arr=1, tup=1, opt=1, box=1, pos=1, ptr=2, **{"def": 3})
DALL = dict(calc=.05, default=.03, pw=.15, map=.15, xcount=.05, endian=.15, offset=.1, dn=.1, offset_after=.1, fmagic=.08, rp=.08,
            sb=.06, pb=.08, ab=.08, pst=.08, pa=.08, aa=.08, temp=.08, **{"try": .12, "if": .12, "assert": .1})
TALL = dict(endian=.3, magic=.2, pre=.1, enum=3, uenum=1.5, mapped=1.5, asserts=.15, vmagic=.3, vpre=.1, vendian=.2, unexpected=.3, **{"import": .3})

def over(base, **kw):
    d = dict(base); d.update({k.rstrip("_"): v for k, v in kw.items()}); return d

def rand_prog(seed, n, kinds, dirs, tops, apis=("options",), badb=None, slim=.1, depth=2, nf=(1, 4), budget=8, pws=None, lim=6, kind=None, hostile=False, spell=False, decl=False, tnames=None):
    P = Prog(seed, hostile, spell, decl, tnames); rnd = random.Random(seed * 31 + 7)
    for i in range(n):
        kw = dict(kinds=kinds, dirs=dirs, tops=tops, depth=depth, nf=nf, budget=budget)
        if pws: kw["pws"] = pws
        Gen(P, rnd, **kw).case(badb=rnd.randrange(2) if badb is None else badb, apis=apis, kind=kind, lim=lim,
                               slim=rnd.choice([3, 6, 9]) if rnd.random() < slim else -1)
    return P

def rands(prop, kinds=KALL, dirs=DALL, tops=TALL, quick=60, thorough=80, jobs=12, name="r", **kw):
    """random jobs of a property: one in the quick tier, many in the thorough one"""
    jk = {k: kw.pop(k) for k in ("feats", "variants", "schedules", "envs") if k in kw}
    base = SEED * 1000 + int(prop[1:]) * 37 + sum(map(ord, name))
    out = []
    for j in range(jobs if THOROUGH else 1):
        P = rand_prog(base + j * 100003, thorough if THOROUGH else quick, kinds, dirs, tops, **kw)
        out.append(Job("%s%d" % (name, j), P, **jk))
    return out

# ------------------------------------------------------------------ types that contain themselves
def rec_job(*kinds, **kw):
    """lists, trees and expressions; through boxes, vectors, options and pointers"""
    P = Prog(77)
    more = lambda: u8(0, 1)
    if "list" in kinds:
        for f in (dict(), dict(e=BIG), dict(asserts=[A(ne(fld(1), 9), "err", x=fld(1))]), dict(rp=True), dict(pst=5)):
            L = P.rec(lambda t: [F(u8(5, 9)), F(more()), F(Opt(Box(t)), cond=eq(fld(2), 1), **f), F(u16())], magic=Magic("u8", 0x2A))
            P.case([Call(L, e="LB"[bool(f)]), Call(u8(1))], start=1, max=17, badb=1)
        L = P.rec(lambda t: [F(u8(5, 9), asserts=[A(eq(fld(1), 5))]), F(Box(t), try_=True), F(u8(1))])
        P.case([Call(L), Call(u8(1))], start=0, max=7)
        L = P.rec(lambda t: [F(Pos(u8(5))), F(Pos(Box(t)), try_=True), F(WStr(cv=[[0, 0], [0x41, 0]]))], e=BIG)
        P.case([Call(L), Call(u8(1))], start=2, max=9)
        M = P.mapped(Map(Arr(u8(1, 4), 2), u8(), itlen))
        L = P.rec(lambda t: [F(M), F(more()), F(Opt(Box(t)), cond=fld(2))])
        P.case([Call(L), Call(u8(1))], start=0, max=9)
    if "tree" in kinds:
        T = P.rec(lambda t: [F(u8(0, 1, 2)), F(Vec(t), count=fld(1)), F(u8(7))])
        P.case([Call(T, cnt=9), Call(u8(1))], start=1, max=9, badb=1)
        T = P.rec(lambda t: [F(u8(0, 2)), F(pw=PW("count", t, c=fld(1))), F(u16(7, 8), asserts=[A(ne(fld(3), 8), "msg", "eight")])], tuple_=True)
        P.case([Call(T, e="B", off=3), Call(u8(1))], start=0, max=10)
        T = P.rec(lambda t: [F(u8(0, 1, 2)), F(pw=PW("sep", t, u8(0x2C)), count=fld(1))])
        P.case([Call(T), Call(u8(1))], start=0, max=7)
        T = P.rec(lambda t: [F(u8(3, 4)), F(pw=PW("until", t, c=eq(lit(1), 1)), cond=eq(fld(1), 3))])
        P.case([Call(T), Call(u8(1))], start=0, max=5)
    if "expr" in kinds:
        for em in ("", "return_unexpected_error"):
            X_ = P.rec(lambda t: [Body([F(u16())], magic=Magic("u8", 1)), Body([F(Box(t)), F(Box(t))], tuple_=True, magic=Magic("u8", 2)),
                                  Body([F(Box(t)), F(u8(3, 4), asserts=[A(eq(fld(2), 3))])], magic=Magic("u8", 4), e=BIG)], enum=True, errmode=em)
            P.case([Call(X_), Call(u8(1))], start=1, max=8 if em else 9)
        X_ = P.rec(lambda t: [Body([F(u8(1, 2)), F(Opt(Box(t)), cond=eq(fld(1), 2), args=[add(imp(1), 1)]), F(u8(7))], pre=[A(ne(imp(1), 2))]), Body([F(u8(2, 5)), F(u8(6))])], enum=True, nimp=1)
        P.case([Call(X_, a=[0]), Call(u8(1))], start=0, max=7)
    if "args" in kinds:
        for at in (False, True):
            L = P.rec(lambda t: [F(Spy(1, 1, [[5]]), args=[imp(1)]), F(Opt(Box(t)), cond=lt(0, imp(1)), args=[sub(imp(1), 1), add(imp(2), fld(1))], args_tuple=at, e=[None, is_big(eq(imp(1), 1))][at]),
                                 F(Spy(2, 2, [[6]]), args=[imp(1), imp(2)]), F(u16())], nimp=2, import_tuple=at)
            P.case([Call(L, a=[2, 7]), Call(u8(1))], start=1, max=14)
            P.case([Call(Vec(L), a=[1, 3], cnt=2), Call(u8(1))], start=0, max=16)
    if "ptr" in kinds:
        for kwf in (dict(), dict(dn="deref_now"), dict(offset=3), dict(offset_after=2)):
            L = P.rec(lambda t: [F(Spy(1, 0, [[5]])), F(u8(0, 1)), F(Opt(Ptr(u8(4, 8), Box(t))), cond=fld(2), **kwf), F(Spy(2, 0, [[6]]))])
            P.case([Call(L, off=1), Call(u8(1))], start=0, max=14, badb=1, lim=2)
        T = P.rec(lambda t: [F(u8(0, 2)), F(Vec(Ptr(u8(3, 5, 7), t)), count=fld(1)), F(u8(9))])
        P.case([Call(T, e="B"), Call(u8(1))], start=0, max=9, lim=1)
        L = P.rec(lambda t: [F(u16(7, 8)), F(Ptr(u16(6, 9), Box(t)), try_=True)], magic=Magic("bytes", b"N"))
        P.case([Call(L, e="B"), Call(u8(1))], start=1, max=12, lim=1)
        X_ = P.rec(lambda t: [Body([F(u8(3))], magic=Magic("u8", 1)), Body([F(Ptr(u8(4, 6), Box(t))), F(Tup(u8(3), u8(4)))], tuple_=True, magic=Magic("u8", 2))], enum=True)
        P.case([Call(X_), Call(u8(1))], start=0, max=8, lim=1)
        P.case([Call(X_, api="be"), Call(u8(1))], start=0, max=8, lim=1)
    return Job("rec", P, cfg=SHALLOW, **kw)

# ------------------------------------------------------------------ parts that can fail
def parts(P):
    """fields that can fail, one way or another; named"""
    inner = S1(P, F(u8(1, 2)), F(u16()), magic=Magic("u8", 0x2A), default=True)
    en = P.enum(Body([F(u16())], magic=Magic("u8", 1)), Body([F(u8(7, 9), asserts=[A(eq(fld(1), 7))])]))
    en1 = P.enum(Body([F(u16())], magic=Magic("u8", 1)), Body([F(u8(7, 9), asserts=[A(eq(fld(1), 7))])]), errmode="return_unexpected_error")
    ue = P.uenum([dict(nm="U0", disc=3, explicit=True), dict(nm="U1", disc=4)], repr_="u16")
    um = P.uenum([dict(nm="U0", magic=Magic("u16", 0x1234)), dict(nm="U1", magic=Magic("u16", 0x5678))])
    mt = P.mapped(Map(u16(7, 9), u8(), add(it, 1), c=eq(it, 9), er=it))
    pt = S1(P, F(Ptr(u8(2, 12), u16())))
    return [
        ("prim", lambda: F(u32())),
        ("u128", lambda: F(pr("u128"))),
        ("magic", lambda: F(u8(5), magic=Magic("u16", 0x1122))),
        ("bmagic", lambda: F(u8(5), magic=Magic("bytes", b"AB"))),
        ("assert", lambda: F(u16(7, 9), asserts=[A(eq(SELF, 7), "msg", "no seven")])),
        ("trymap", lambda: F(map=Map(u16(7, 9), u8(), add(it, 1), c=eq(it, 9), er=it))),
        ("trymapio", lambda: F(map=Map(u16(7, 9), u8(), add(it, 1), c=eq(it, 9), er=it, io=True))),
        ("struct", lambda: F(inner)),
        ("enum", lambda: F(en)),
        ("enum1", lambda: F(en1)),
        ("uenum", lambda: F(ue)),
        ("uenumm", lambda: F(um)),
        ("mapped", lambda: F(mt)),
        ("ptr", lambda: F(Ptr(u8(2, 12), u16()))),
        ("ptrnow", lambda: F(Ptr(u8(2, 12), u16()), dn="deref_now")),
        ("ptrneg", lambda: F(Ptr(pr("i8", 0xFE, 2), u8(5)))),
        ("ptrin", lambda: F(pt)),
        ("ptrptr", lambda: F(Ptr(u8(2, 12), Ptr(u8(0, 12), inner)))),
        ("vec", lambda: F(Vec(u16()), count=2)),
        ("arr", lambda: F(Arr(inner, 2))),
        ("tup", lambda: F(Tup(u8(1), inner))),
        ("until", lambda: F(pw=PW("until", u8(0, 9), c=eq(it, 0)))),
        ("count", lambda: F(pw=PW("count", inner, c=lit(2)))),
        ("ueof", lambda: F(pw=PW("ueof", inner))),
        ("punct", lambda: F(pw=PW("sep", u8(3), inner), count=2)),
        ("rb", lambda: F(pw=PW("rb", u8(3)), count=3)),
        ("nstr", lambda: F(NStr(cv=[[0x41], [0]]))),
        ("wstr", lambda: F(WStr(cv=[[0, 0x41], [0, 0]]))),
        ("seekneg", lambda: F(u8(5), sb=Seek("C", lit(-9)))),
        ("seekend", lambda: F(u8(5), sb=Seek("E", lit(-3)))),
        ("seekstart", lambda: F(u16(), sb=Seek("S", lit(2)))),
        ("padneg", lambda: F(u8(5), pa=lit(-12))),
        ("padfar", lambda: F(u8(5), pb=lit(200))),
        ("rp", lambda: F(inner, rp=True)),
        ("opt", lambda: F(Opt(inner))),
        ("box", lambda: F(Box(inner))),
        ("posv", lambda: F(Pos(inner))),
        ("cust", lambda: F(pw=PW("cust", inner, n=77))),
        ("spy", lambda: F(Spy(50), dn="postprocess_now")),
    ]
SELF = lit(0)      # placeholder, see place()

def place(f, i):
    """make a part's assertion refer to the part itself, as field number i"""
    for a in f.asserts:
        if a.c.a and a.c.a[0] is SELF:
            a.c = eq(fld(i), a.c.a[1])
    return f

# ------------------------------------------------------------------ C01
def c01():
    P = Prog(101)
    for nm, mk in parts(P):
        a = S1(P, F(u8(1)), place(mk(), 2), F(u16()))
        b = S1(P, F(u8(1)), place(mk(), 2), F(u16()), tuple_=True, magic=Magic("byte", 0x33), e=BIG)
        inner = S1(P, F(u8(1)), place(mk(), 2))
        c = S1(P, F(u16()), F(inner), F(u8(4)))
        d = P.enum(Body([F(u8(1)), place(mk(), 2), F(u16())]), Body([F(u16()), F(u8(1), magic=Magic("u8", 0x77))]),
                   errmode=["", "return_unexpected_error", "return_all_errors"][len(nm) % 3])
        e = S1(P, F(u8(3)), F(Ptr(u8(4, 5), inner)), F(u8(1)))
        f = S1(P, F(Vec(S1(P, place(mk(), 1)), ), count=2), F(d))
        for t in (a, b, c, d, e, f):
            P.case([Call(t, e="B"), Call(Prim("u8", [[7]]))], start=2, max=18, badb=1, lim=3)
        for t in (a, d, e):
            P.case([Call(t, e="L"), Call(Prim("u8", [[7]]))], start=1, max=18, slim=6, eofb=0, lim=3)
        P.case([Call(c, api="be"), Call(c, api="le")], start=1, max=22, lim=3)
    Q = Prog(102)
    tops = [
        S1(Q, F(u16()), F(u8(1, 2)), asserts=[A(eq(fld(2), 1))], magic=Magic("u16", 0x4142)),
        S1(Q, F(Ptr(u8(4, 90), u16())), F(u8(1)), asserts=[A(eq(fld(2), 2))]),
        Q.struct(unit=True, magic=Magic("bytes", b"MZ"), asserts=[A(eq(lit(0), 1))]),
        Q.struct(unit=True, magic=Magic("u32", 0x01020304), pre=[A(eq(lit(0), 1), "err", x=5)]),
        S1(Q, F(u8(1)), pre=[A(eq(lit(1), 2))], magic=Magic("u8", 9)),
        Q.enum(Body([F(u8(1, 2))], asserts=[A(eq(fld(1), 1))]), Body([F(u16()), F(u16())], asserts=[A(eq(lit(0), 1))]), asserts=[A(eq(lit(0), 1))]),
        Q.enum(Body([], unit=True, magic=Magic("u8", 1)), Body([F(Ptr(u8(0, 60), u8(1)))], magic=Magic("u16", 0x0203))),
        Q.enum(Body([], unit=True, magic=Magic("u32", 0x01010101)), Body([F(u8(2))], pre=[A(eq(lit(0), 1))]), errmode="return_unexpected_error"),
        Q.uenum([dict(nm="U0", disc=0), dict(nm="U1", disc=300, explicit=True)], repr_="u32", magic=Magic("u8", 0x55), e=BIG),
        Q.uenum([dict(nm="U0", magic=Magic("bytes", b"ABC"))], magic=Magic("u16", 0x5566)),
        Q.mapped(Map(S1(Q, F(u16()), F(u8(1, 2))), u8(), lit(3)), magic=Magic("u8", 8)) ,
        Q.mapped(Map(u16(1, 2), u8(), add(it, 1), c=eq(it, 1), er=it)),
        Q.mapped(Map(u16(1, 2), u8(), add(it, 1), c=eq(it, 1), er=it, io=True), asenum=True, magic=Magic("u8", 8)),
        S1(Q, F(u8(1)), F(Tup(u8(1), u16(), Arr(u16(), 2)))),
    ]
    for t in tops:
        for e, st in (("B", 0), ("L", 3)):
            Q.case([Call(t, e=e), Call(Prim("u8", [[7]]))], start=st, max=18, badb=1, lim=5)
        Q.case([Call(t, api="le"), Call(t, api="be")], start=5, max=24, lim=5)
        w = S1(Q, F(u8(1)), F(t), F(t, e=BIG))
        Q.case([Call(w), Call(Prim("u8", [[7]]))], start=1, max=28, badb=1, lim=5)
        Q.case([Call(w)], start=30, max=28)          # begins beyond the end
    return [Job("parts", P), Job("tops", Q), rec_job("list", "tree", "expr", variants=1)] + rands("C01", dirs=over(DALL, sb=.12, pb=.12, assert_=.2), tops=over(TALL, asserts=.3), badb=1, slim=.3)

# ------------------------------------------------------------------ C02
def c02():
    P = Prog(201)
    one = {n: Prim(n, default_cv(n)[:1]) for n in PRIMS}
    for n in PRIMS:
        for e in "BL":
            P.case([Call(one[n], e=e), Call(one[n], e=e)], start=1, max=40)
            t = S1(P, F(one[n]), F(u8(7)), F(one[n]), e=BIG if e == "B" else LITTLE, tuple_=e == "B")
            P.case([Call(t), Call(u8(1))], start=2, max=44)
        P.case(Call(S1(P, F(Arr(one[n], 3)), F(Tup(one[n], u8(2), one[n])), F(Opt(one[n])), F(Box(one[n])), F(Pos(one[n])), F(Vec(one[n]), count=2), F(u8(3)))), start=1, max=190, eofb=0)
    for c in (0, 9, 0x20, 0x5A, 0x7F, 0x80, 0x85, 0xA0, 0xB5, 0xBF, 0xC0, 0xC4, 0xD7, 0xDE, 0xDF, 0xE9, 0xFF):        # one byte, one character
        P.case([Call(Prim("char", [[c]])), Call(u8(3))], start=1, max=4)
    # where things are does not depend on the options for pointers and counts
    for w in (Pos, lambda t: Opt(Pos(t)), lambda t: Tup(Pos(t), u8(1)), lambda t: Box(Pos(Pos(t)))):
        P.case([Call(S1(P, F(u8(1)), F(w(u16()), offset=lit(3), count=2), F(u8(3), count=lit(0)), F(Pos(u8(4)), offset=lit(400)))), Call(u8(1))], start=1, max=16)
    for n in range(0, 33):
        P.case([Call(Arr(u16(), n)), Call(u8(3))], start=1, max=2 * n + 4, eofb=int(n < 9 or n > 30))
        P.case([Call(S1(P, F(Arr(Tup(u8(1), u16()), n)), F(u8(9))))], max=3 * n + 2, eofb=int(n < 4))
    tys = [u8(1), u16(), u8(2), u8(3)]
    for n in range(1, 33):
        P.case([Call(Tup(*[tys[i % 4] if i != n - 1 else u16(0x5152) for i in range(n)])), Call(u8(3))], start=1, max=60, eofb=int(n < 6 or n == 32))
    Q = Prog(202)
    el = lambda: [u8(1), u16(), Unit(), Unit(True), NStr(cv=[[0x41], [0]]), WStr(cv=[[0, 0x41], [0, 0]]), Arr(u16(), 2), Tup(u8(1), u16()), Box(u16()), Opt(u16()), Pos(u16()),
                  S1(Q, F(u8(1)), F(u16())), Q.enum(Body([F(u8(1, 2))], magic=Magic("u8", 1)), Body([F(u16())])),
                  Q.uenum([dict(nm="A", disc=1, explicit=True), dict(nm="B", disc=2)], repr_="u16"), Q.uenum([dict(nm="A", magic=Magic("u16", 0x4243))]),
                  Q.mapped(Map(u16(1, 2), u8(), add(it, 1))), Q.struct(unit=True), Q.struct(unit=True, magic=Magic("u8", 3))]
    wraps = [("pos", Pos), ("box", Box), ("opt", Opt), ("arr", lambda t: Arr(t, 2)), ("tup", lambda t: Tup(t, u8(4), t)), ("vec", Vec)]
    for t in el():
        for nm, w in wraps:
            kw = dict(count=2) if nm == "vec" else {}
            Q.case([Call(S1(Q, F(Pos(u8(4))), F(w(t), **kw), F(Pos(u16())))), Call(u8(1))], start=3, max=26, lim=3, eofb=1)
    Q2 = Prog(203)
    for nm, w in wraps:
        kw = dict(count=2) if nm == "vec" else {}
        Q2.case([Call(S1(Q2, F(Pos(u8(4))), F(w(Ptr(u8(0, 9), u16())), **kw), F(Pos(u16())))), Call(u8(1))], start=3, max=26, lim=3, eofb=1)
    for (n1, w1), (n2, w2) in itertools.product(wraps[:5], repeat=2):
        Q.case([Call(S1(Q, F(w1(w2(u16()))), F(u8(5)))), Call(u8(1))], start=1, max=30)
        Q.case([Call(S1(Q, F(w1(w2(S1(Q, F(u8(1)), F(Pos(u16())))))), F(u8(5))))], start=1, max=40, eofb=0)
    # values that take no room in memory but do in the input (and the reverse): nothing may be skipped
    Z = Prog(204)
    for mk in (lambda: Z.struct(unit=True, magic=Magic("u8", 3), default=True), lambda: Z.struct(unit=True, magic=Magic("u16", 0x4243), default=True, e=BIG), lambda: S1(Z, F(u8(1, 2), temp=True), default=True),
               lambda: S1(Z, F(Unit(), magic=Magic("u8", 9)), default=True), lambda: S1(Z, F(Unit(), pa=lit(2)), default=True), lambda: S1(Z, F(u16(7), calc=lit(7)), F(u8(4)), default=True), lambda: Unit()):
        for n in (0, 1, 2, 3, 5):
            t = mk()
            for x, kw in ((Arr(t, n), {}), (Vec(t), dict(count=n)), (Tup(*[t] * max(n, 1)), {}), (Arr(Arr(t, n), 2), {}), (Opt(Box(Arr(t, n))), {}), (Vec(Arr(t, 2)), dict(count=n))):
                Z.case([Call(S1(Z, F(Pos(u8(4))), F(x, **kw), F(Pos(u16())))), Call(u8(1))], start=1, max=30, lim=2)
        for pwk in (PW("count", t, c=lit(3)), PW("sep", t, u8(8)), PW("sept", u8(8), t)):
            Z.case([Call(S1(Z, F(u8(4)), F(pw=pwk, count=3), F(Pos(u16())))), Call(u8(1))], start=1, max=30, lim=2)
    kk = over(KALL, ptr=0, wide=5); dd = dict(temp=.05, endian=.2, calc=.05, default=.03, fmagic=.1, offset=.1, xcount=.05)
    R = rands("C02", kinds=kk, dirs=dd, tops=over(TALL, asserts=0, pre=0), budget=12, nf=(1, 6))
    big = rands("C02", kinds=kk, dirs=dd, tops=over(TALL, asserts=0, pre=0), quick=25, jobs=4, name="base", envs=[dict(BR_BASE=str(WIDE))])
    return [Job("prims", P), Job("wraps", Q, feats=("cg",)), Job("ptrs", Q2, feats=("cg",)), Job("zst", Z), Job("zstcg", Z, feats=("cg",))] + R + big

# ------------------------------------------------------------------ C03
def far_positions(P):
    """fields that leave the reader, or begin, at positions that no i64 holds"""
    for w in ("u64", "u128"):
        far = lambda mx=True: pr(w, 1 << 63, (1 << 63) + 1, *([(1 << 64) - 1] if mx else []))
        inn = lambda mx=True: S1(P, F(far(mx)), F(Unit(), sb=Seek("S", fld(1))))
        for rp in (False, True):
            P.case([Call(S1(P, F(u8(1)), F(inn(), pst=lit(4), rp=rp), F(u8(9), sb=Seek("S", lit(1))))), Call(u8(1))], start=1, max=22)
            P.case([Call(S1(P, F(u8(1)), F(inn()), F(S1(P, F(u8(7), sb=Seek("S", lit(2)))), pst=lit(5), rp=rp), F(u8(9)))), Call(u8(1))], start=1, max=22)
            P.case([Call(S1(P, F(u8(1)), F(inn()), F(S1(P, F(u8(7), sb=Seek("S", lit(2)))), pst=lit(5), rp=rp), F(u8(9), sb=Seek("S", lit(0))))), Call(u8(1))], start=1, max=22)
            for k in ("ab", "aa"):
                for v in (1, 2, 3, 4, 16):
                    P.case([Call(S1(P, F(u8(1)), F(inn(False)), F(Unit(), rp=rp, **{k: lit(v)}), F(u8(9), sb=Seek("S", lit(1))))), Call(u8(1))], start=1, max=22)

def c03():
    P = Prog(301)
    vals = dict(sb=lambda: Seek("C", lit(2)), pb=lambda: lit(3), ab=lambda: lit(4), pst=lambda: lit(5), pa=lambda: lit(1), aa=lambda: lit(8), rp=lambda: True)
    keys = list(vals)
    for m in range(128):
        kw = {k: vals[k]() for i, k in enumerate(keys) if m >> i & 1}
        P.case([Call(S1(P, F(u8(1)), F(u16(), **kw), F(u8(9)), tuple_=m % 3 == 0)), Call(u8(2))], start=m % 4, max=24)
        if m % 4 == 1 or m < 16:
            kw = {k: vals[k]() for i, k in enumerate(keys) if m >> i & 1}
            kind = m % 5
            x = [F(NStr(cv=[[0x41], [0]]), **kw), F(S1(P, F(u8(1)), F(u16())), **kw), F(Ptr(u8(3), u16()), dn="deref_now", **kw),
                 F(pw=PW("until", u8(0, 3), c=eq(it, 0)), **kw), F(map=Map(u16(3), u8(), it), **kw)][kind]
            P.case([Call(P.enum(Body([F(u8(1)), x, F(u8(9))]))), Call(u8(2))], start=m % 3, max=24, lim=3)
        for cnd in (0, 1):
            if m % 8 == 3 or m in (1, 2, 4, 8, 16, 32, 64, 127):
                kw = {k: vals[k]() for i, k in enumerate(keys) if m >> i & 1}
                P.case([Call(S1(P, F(u8(1, 0)), F(u16(), cond=eq(fld(1), 1), alt=lit(5) if cnd else None, magic=Magic("u8", 0x44) if m % 16 == 3 else None, **kw), F(u8(9)))), Call(u8(2))], start=1, max=24, lim=4)
        if m in (1, 2, 4, 8, 16, 32, 64, 127, 85):
            for g in (dict(calc=lit(3)), dict(default="default"), dict(default="ignore")):
                kw = {k: vals[k]() for i, k in enumerate(keys) if m >> i & 1}
                P.case([Call(S1(P, F(u8(1)), F(u16(), **g, **kw), F(u8(9)))), Call(u8(2))], start=1, max=24)
            for j, src in enumerate([lambda **k: F(u16(), try_=True, **k), lambda **k: F(u16(), magic=Magic("u16", 0x3132), **k), lambda **k: F(Vec(u8(1)), count=2, **k),
                        lambda **k: F(Opt(u8(1)), **k), lambda **k: F(pw=PW("cust", u16(), n=5), **k), lambda **k: F(Ptr(u8(1), u8(6)), **k)]):
                kw = {k: vals[k]() for i, k in enumerate(keys) if m >> i & 1}
                P.case([Call(S1(P, F(u8(1)), src(**kw), F(u8(9)))), Call(u8(2))], start=1, max=24, lim=4)
    Q = Prog(302)
    for k in ("pb", "pa", "pst"):
        for v in (0, 1, 2, 3, 4, 7, 8, 255, 256, 300):
            Q.case([Call(S1(Q, F(u16(), **{k: lit(v)}), F(u8(9)))), Call(u8(2))], start=v % 3, max=v + 9, eofb=int(v < 5))
    for v in (1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 32, 256):
        for st in sorted({0, 1, 2, v - 1, v, v + 1}):
            for k in ("ab", "aa"):
                Q.case([Call(S1(Q, F(u8(1), **{k: lit(v)}), F(u8(9))))], start=st, max=st + v + 10, eofb=0)
    for w, vs in (("S", (0, 1, 4, 7, 30)), ("C", (-5, -2, -1, 0, 1, 4)), ("E", (-4, -2, -1, 0, 1))):
        for v in vs:
            for rp in (False, True):
                Q.case([Call(S1(Q, F(u8(1)), F(u8(2), sb=Seek(w, lit(v)), rp=rp), F(u8(9)))), Call(u8(2))], start=2, max=14, badb=1, lim=3)
                Q.case([Call(S1(Q, F(u8(1)), F(u8(2), sb=Seek(w, lit(v)), rp=rp), F(u8(9)))), Call(u8(2))], start=2, max=14, slim=5)
    for n in range(0, 6):
        Q.case([Call(S1(Q, F(u8(1)), F(NStr(cv=[[0x41], [0]]), pst=lit(n)), F(u8(9)))), Call(u8(2))], start=1, max=10)
        Q.case([Call(S1(Q, F(u8(n)), F(u16(), pst=fld(1), pa=fld(1), aa=add(fld(1), 1)), F(u8(9)))), Call(u8(2))], start=1, max=24)
        Q.case([Call(S1(Q, F(u8(n)), F(u16(), pb=fld(1), ab=add(fld(1), 1), rp=bool(n & 1)), F(u8(9), sb=Seek("S", add(fld(1), 3))))), Call(u8(2))], start=1, max=24)
    far_positions(Q)
    # positions are absolute, also inside nested objects and vectors
    inn = S1(Q, F(u8(1), ab=lit(4)), F(u16(), aa=lit(4)), default=True)
    Q.case([Call(S1(Q, F(u8(1)), F(Vec(inn), count=3), F(inn, pb=lit(1)), F(u8(3)))), Call(u8(2))], start=1, max=60, eofb=0)
    Q.case([Call(S1(Q, F(Arr(inn, 2), pst=lit(30)), F(u8(3)))), Call(u8(2))], start=3, max=60)
    Q.case([Call(S1(Q, F(u8(1)), F(u8(2), sb=Seek("S", lit(0)), rp=True), F(u8(3), pst=lit(3)), F(u8(4), sb=Seek("S", lit(1)), pst=lit(6))))], start=3, max=30)
    Q.case([Call(S1(Q, F(Ptr(u8(9), S1(Q, F(u8(1), pb=lit(1)), F(u8(2), aa=lit(16), rp=True)))), F(u8(2), pst=lit(4)), F(u8(3))))], start=3, max=30)
    dd = over(DALL, rp=.3, sb=.2, pb=.3, ab=.3, pst=.3, pa=.3, aa=.3, if_=.2)
    rel = over(dd, sb=0, rp=.3, offset=0)
    return [Job("subsets", P), Job("values", Q)] + rands("C03", dirs=dd, slim=.3, quick=70) + \
        rands("C03", kinds=over(KALL, ptr=0), dirs=rel, quick=30, jobs=4, name="base", envs=[dict(BR_BASE=str(WIDE))], slim=0)

# ------------------------------------------------------------------ C04
def observers(P, small=False):
    ue = P.uenum([dict(nm="A", disc=0x0102, explicit=True), dict(nm="B", disc=0x0201, explicit=True)], repr_="u16")
    um = P.uenum([dict(nm="A", magic=Magic("u16", 0x0102)), dict(nm="B", magic=Magic("u16", 0x0201))])
    mt = P.mapped(Map(u16(0x0103), Prim("u16"), it))
    st = S1(P, F(u16(0x0405)))
    o = [lambda **k: F(u16(0x0102), **k), lambda **k: F(pr("u32"), **k), lambda **k: F(pr("i64"), **k), lambda **k: F(pr("f32"), **k),
         lambda **k: F(Vec(u16(0x0102)), count=2, **k), lambda **k: F(Arr(pr("i16"), 2), **k), lambda **k: F(Tup(u8(1), u16(0x0304)), **k),
         lambda **k: F(Opt(Box(Pos(u16(0x0708)))), **k), lambda **k: F(WStr(cv=[[1, 0x41], [0, 0]]), **k), lambda **k: F(st, **k),
         lambda **k: F(ue, **k), lambda **k: F(um, **k), lambda **k: F(mt, **k), lambda **k: F(map=Map(u16(0x0102), Prim("u32"), it), **k),
         lambda **k: F(Ptr(u16(0x0001), u16()), dn="deref_now", **k), lambda **k: F(Ptr(u16(2), pr("u32", 0x01020304)), **k),
         lambda **k: F(pw=PW("until", u16(0x0100), c=eq(it, 0x0100)), **k), lambda **k: F(pw=PW("count", pr("u64"), c=lit(1)), **k),
         lambda **k: F(pw=PW("sep", u16(0x0102), u16(0x0304)), count=2, **k), lambda **k: F(pw=PW("cust", u16(0x0506), n=9), **k),
         lambda **k: F(Ptr(pr("u128", 2), u16()), **k), lambda **k: F(Ptr(pr("i64", 2), Ptr(pr("u32", 1), u16())), **k), lambda **k: F(Ptr(pr("i128", 1), Vec(Ptr(pr("i16", 1), u16()))), count=2, **k),
         lambda **k: F(u8(1), magic=Magic("u16", 0x0102), **k), lambda **k: F(pr("u128"), **k), lambda **k: F(pr("f64"), **k), lambda **k: F(Spy(60), **k)]
    return o

def c04():
    P = Prog(401)
    DIR = {"": None, "B": BIG, "L": LITTLE}
    fdirs = [None, BIG, LITTLE, "ib", "il"]
    def fd(d, i):
        if d == "ib": return is_big(eq(fld(1), 1))
        if d == "il": return is_little(eq(fld(1), 1))
        return d
    for oi, mk in enumerate(observers(P)):
        for td in DIR:
            for fdir in fdirs:
                t = S1(P, F(u8(1, 0) if isinstance(fdir, str) else u8(1)), mk(e=fd(fdir, 0)), F(u16(0x1112)), e=DIR[td], tuple_=oi % 2 == 0)
                for e in ("B", "L"):
                    P.case([Call(t, e=e)], start=0, max=40, eofb=0, lim=3)
    Q = Prog(402)
    obs = observers(Q)
    for oi, mk in enumerate(obs):
        for ed, vd in itertools.product(DIR, DIR):
            fdir = fdirs[oi % 5]
            if isinstance(fdir, str): fdir = None
            en = Q.enum(Body([mk(e=fdir), F(u16(0x1112)), F(u8(1), magic=Magic("u16", 0x6162))], e=DIR[vd], tuple_=oi % 2 == 1),
                        Body([F(u16(0x2122)), mk()]), e=DIR[ed])
            for e in "BL": Q.case([Call(en, e=e)], max=44, eofb=0, lim=4)
    # nesting: container's / caller's order against the type's own
    for e, td, fdir, nd, vd in itertools.product("BL", DIR, DIR, DIR, ["", "L"]):
        inner = S1(Q, F(u16(0x0102)), F(u16(0x0304), e=LITTLE if vd else None), F(u16(0x0506)), e=DIR[nd])
        outer = S1(Q, F(inner, e=DIR[fdir]), F(u16(0x0708)), F(Vec(inner), count=1), F(Ptr(u8(0), inner), e=DIR[fdir]), F(u16(0x090A)), e=DIR[td])
        Q.case([Call(outer, e=e)], max=40, eofb=0)
    for api in ("be", "le", "ne", "read", "type", "be_args", "le_args", "ne_args", "read_args", "type_args"):
        for nat in (False, True):
            if nat and not api.startswith("type"): continue
            for d in DIR:
                Q.case([Call(S1(Q, F(u16(0x0102)), F(Ptr(u16(2), u16(0x0304))), e=DIR[d]), api=api, native=nat)], max=20, eofb=0)
    R = Prog(403)
    for n in NUM + ["char"]:
        w = PRIMS[n][0]
        t = S1(R, F(Prim(n, default_cv(n)), e=BIG), F(Prim(n, default_cv(n)[:1])), F(Prim(n, default_cv(n)[:1]), e=LITTLE))
        for e in "BL": R.case([Call(t, e=e)], max=3 * w + 1, eofb=0)
        R.case([Call(Prim(n, default_cv(n)), native=True)], max=3 * w + 1, eofb=0)
    for k, v in (("u16", 0x0102), ("u32", 0x01020304), ("u64", 0x0102030405060708), ("i16", 0x0102), ("i32", 0x01020304), ("i64", 0x0102030405060708), ("f32", 1.5), ("f64", 2.25)):
        for td, vd in itertools.product(DIR, DIR):
            R.case([Call(R.enum(Body([F(u8(1))], magic=Magic(k, v), e=DIR[vd]), Body([F(u16())]), e=DIR[td]), e=e) for e in "B"], max=20, eofb=0)
            R.case([Call(S1(R, F(u8(1), magic=Magic(k, v), e=DIR[vd]), e=DIR[td], magic=Magic(k, v)), e="B")], max=30, eofb=0)
    # is_big / is_little with imports and earlier fields, true and false
    for a in (1, 2):
        t = R.struct(F(u16(0x0102), e=is_big(eq(imp(1), 1))), F(u8(1, 2)), F(u16(0x0304), e=is_little(eq(fld(2), imp(1)))), F(u16(0x0506)), nimp=1)
        for e in "BL": R.case([Call(t, a=[a], e=e)], max=12, eofb=0)
    return [Job("field", P), Job("enum", Q), Job("num", R)] + \
        rands("C04", kinds=over(KALL, wide=8, wstr=2), dirs=over(DALL, endian=.45, fmagic=.15, sb=0, pb=.02, ab=.02), tops=over(TALL, endian=.6, vendian=.6), quick=70, slim=0)

# ------------------------------------------------------------------ C05
MAGICS = [("u8", 0x7F), ("u16", 0x1234), ("u32", 0x01020304), ("u64", 0x0102030405060708), ("u128", 0x0102030405060708090A0B0C0D0E0F10), ("i8", 0x11), ("i16", 0x1234),
          ("i32", 0x01020304), ("i64", 0x0102030405060708), ("i128", 0x0102030405060708090A0B0C0D0E0F10), ("f32", 1.5), ("f64", 2.25), ("char", "Z"), ("byte", 0x00), ("byte", 0xFE),
          ("bytes", b"A"), ("bytes", b"AB"), ("bytes", b"ABA"), ("bytes", b"\x00\xff\x00\xff"), ("bytes", b"ABCDE"), ("bytes", b"GIF89a"), ("bytes", b"ABCDEFG"), ("bytes", b"ABCDEFGH"),
          ("u16", 0), ("u32", 0xFFFFFFFF), ("u8", 0)]
def c05():
    P = Prog(501)
    for mi, (k, v) in enumerate(MAGICS):
        M = lambda: Magic(k, v)
        T = lambda: tick(900 + mi, lit(1))
        other = Magic("u8", 0x66)
        ts = [S1(P, F(u8(1)), F(Spy(1)), magic=M()),
              S1(P, F(Spy(1)), F(Spy(2), magic=M()), F(u8(3)), tuple_=True),
              P.struct(unit=True, magic=M()),
              P.struct(F(u8(2)), magic=M(), pre=[A(eq(lit(0), 1), "err", x=tick(902, lit(3)))]),
              P.enum(Body([F(Spy(3))], magic=M()), Body([F(u8(9))], magic=other)),
              P.enum(Body([F(u8(9), magic=M())]), Body([], unit=True), magic=M()),
              P.enum(Body([F(u8(1))], magic=other), Body([F(u8(1))]), magic=M(), errmode="return_unexpected_error"),
              P.enum(Body([], unit=True, magic=M()), Body([F(Spy(5))], tuple_=True)),
              P.uenum([dict(nm="A", disc=5, explicit=True)], repr_="u8", magic=M()),
              P.uenum([dict(nm="A", magic=Magic("u16", 0x0506))], magic=M()),
              P.mapped(Map(u8(1), u8(), it, tag=800), magic=M())]
        for t in ts:
            for e in (("B", "L") if k not in ("bytes", "byte", "char", "u8", "i8") else ("B",)):
                P.case([Call(t, e=e), Call(u8(7))], start=1 + mi % 2, max=26 if k[-3:] != "128" else 42, badb=int(mi % 2), lim=4)
    Q = Prog(502)
    for mi, (k, v) in enumerate(MAGICS):
        for e in (("B", "L") if k not in ("bytes", "byte", "char", "u8", "i8") else ("B",)):
            D = BIG if e == "B" else LITTLE
            Q.case([Call(S1(Q, F(u8(1), magic=Magic(k, v), e=D), F(u8(2), magic=Magic(k, v)), e=LITTLE if e == "B" else BIG), e=e)], max=48, eofb=0, lim=2)
            Q.case([Call(S1(Q, F(Vec(S1(Q, F(u8(1)), magic=Magic(k, v))), count=2), F(u8(2)), e=D), e="B")], max=50, eofb=0, lim=2)
            Q.case([Call(S1(Q, F(u8(2), cond=eq(lit(0), 1), magic=Magic(k, v)), F(u8(3)), e=D))], max=30, lim=2)
            Q.case([Call(S1(Q, F(u8(2), rp=True, magic=Magic(k, v)), F(u8(3)), e=D))], max=30, lim=2)
            Q.case([Call(S1(Q, F(u8(2), pb=lit(2), magic=Magic(k, v)), F(S1(Q, F(u8(1)), magic=Magic(k, v)), try_=True), F(u8(3)), e=D))], max=60, lim=2, eofb=0)
    return [Job("places", P), Job("fields", Q)] + rands("C05", dirs=over(DALL, fmagic=.4), tops=over(TALL, magic=.6, vmagic=.6, enum=4, uenum=3), quick=70, slim=0)

# ------------------------------------------------------------------ C06
def c06():
    P = Prog(601)
    ids = itertools.count(1)
    def mk(lo, k, kind):
        """assertion number k: fails when either import equals k"""
        return A(tick(700 + k, and_(ne(imp(1), k), ne(imp(2), k))), kind, "msg %d" % k, tick(900 + k, add(imp(1), 100 * k)) if kind in ("fmt", "err") else None)
    KINDS = ["def", "msg", "fmt", "err"]
    class Ctr:
        def __init__(s, rot): s.k = 0; s.rot = rot
        def __call__(s, n=1):
            out = []
            for _ in range(n):
                s.k += 1; out.append(mk(0, s.k, KINDS[(s.k + s.rot) % 4]))
            return out
    def shapes(a):
        inner = lambda: P.struct(F(Spy(9)), F(Spy(10), asserts=a(1)), nimp=2, pre=a(1), asserts=a(1), magic=Magic("u8", 0x41))
        b = [imp(1), imp(2)]
        yield lambda: P.struct(F(Spy(1), asserts=a(2)), F(Spy(2)), F(Spy(3), asserts=a(1)), nimp=2, magic=Magic("u8", 0x40), pre=a(2), asserts=a(2))
        yield lambda: P.struct(F(Spy(1)), F(inner(), args=b, asserts=a(1)), F(Spy(3), asserts=a(1)), nimp=2, import_tuple=True, pre=a(1), asserts=a(1), tuple_=True)
        yield lambda: P.struct(unit=True, nimp=2, magic=Magic("u8", 0x40), pre=a(2), asserts=a(2))
        yield lambda: P.enum(Body([F(Spy(1), asserts=a(1)), F(Spy(2))], pre=a(1), asserts=a(2)), Body([F(Spy(3)), F(inner(), args=b)], pre=a(1), asserts=a(1), tuple_=True),
                             nimp=2, pre=a(1), asserts=a(2))
        yield lambda: P.enum(Body([F(Spy(1))], pre=a(2), asserts=a(1), magic=Magic("u8", 0x40)), Body([], unit=True, pre=a(1)), nimp=2, asserts=a(1), errmode="return_unexpected_error")
        yield lambda: P.enum(Body([], unit=True, pre=a(2), magic=Magic("u8", 0x42)), Body([F(Spy(3), asserts=a(2))], magic=Magic("u8", 0x43)), nimp=2, asserts=a(2), magic=Magic("u8", 0x40), import_tuple=True)
        yield lambda: P.mapped(Map(Spy(1, 2), Prim("u8"), add(it, 1), tag=800), nimp=2, pre=a(2), magic=Magic("u8", 0x40))
        yield lambda: P.struct(F(Spy(1), dn="deref_now", asserts=a(1)), F(Ptr(u8(0), Spy(2)), asserts=a(1)), F(Spy(5), cond=ne(imp(1), 1), asserts=a(1)), F(u8(1), calc=lit(4), asserts=a(1)),
                               F(Spy(6), temp=True, asserts=a(1)), F(Spy(7), try_=True, rp=True, asserts=a(1)), nimp=2, asserts=a(1))
    for rot in range(4):
        n = len(list(shapes(Ctr(0))))
        for si in range(n):
            a = Ctr(rot)
            t = list(shapes(a))[si]()
            ks = a.k
            pairs = [(0, 0)] + [(i, 0) for i in range(1, ks + 1)] + ([(i, j) for i in range(1, ks + 1) for j in range(i + 1, ks + 1)] if rot == 0 or THOROUGH else [])
            for i, j in pairs:
                P.case([Call(t, a=[i, j])], start=2, max=14, eofb=int(i == j), lim=0 if i or j else 2)
    Q = Prog(602)
    # whatever the message says
    for s in ("", " ", "{}", "a {0} {x} {{}} %s", 'say "no"', "back\\slash \\n", "two\nlines", "x" * 63, "y" * 64, "z" * 65, "long " * 60, "h\u00e9 \u4e16\u754c \U0001f600"):
        for kind in ("msg", "fmt"):
            m = lambda i: [A(ne(fld(1), i), kind, s, fld(1) if kind == "fmt" else None)]
            Q.case([Call(Q.struct(F(u8(1, 2, 3), asserts=m(1)), F(u8(1)), asserts=m(2)))], max=4)
            Q.case([Call(Q.enum(Body([F(u8(1, 2)), F(u8(2), asserts=m(1))], asserts=m(2)), Body([F(u8(1, 2), asserts=m(2))], tuple_=True)))], max=4)
            Q.case([Call(Q.struct(F(u8(1)), nimp=1, pre=[A(ne(imp(1), 4), kind, s, imp(1) if kind == "fmt" else None)]), a=[4])], max=3)
    # data dependent assertions, every field value seen by every later assertion
    for kind in KINDS:
        K = lambda c, i: A(tick(700 + i, c), kind, "oops", tick(900 + i, fld(1)) if kind in ("fmt", "err") else None)
        Q.case([Call(Q.struct(F(u8(1, 2, 3), asserts=[K(lt(fld(1), 3), 1), K(ne(fld(1), 2), 2)]), F(u16(1, 2), asserts=[K(le(fld(1), fld(2)), 3)]), F(u8(0, 1)),
                     asserts=[K(ne(add(fld(1), fld(3)), 2), 4), K(or_(eq(fld(2), 2), eq(fld(3), 0)), 5)]))], max=9)
        Q.case([Call(Q.enum(Body([F(u8(1, 2)), F(u8(1, 2), asserts=[K(ne(fld(1), fld(2)), 1)])], asserts=[K(eq(fld(1), 1), 2)]),
                            Body([F(u8(1, 2)), F(Vec(u8(7)), count=fld(1))], asserts=[K(eq(ln(2), 2), 3)]),
                            Body([F(u16())], asserts=[K(eq(lit(1), 0), 4)], tuple_=True)))], start=1, max=9)
        for top in (True, False):
            Q.case([Call(Q.struct(F(u8(1, 2)), F(NStr(cv=[[0x41], [0]]), asserts=[K(lt(ln(2), 2), 1)]), F(Opt(u8(1, 2)), asserts=[K(ne(fld(3), 1), 2)]), F(Pos(u8(5)), asserts=[K(eq(fld(4), 5), 3)]),
                                  tuple_=top, asserts=[K(le(ln(2), fld(1)), 4)]))], start=3, max=12)
        # the position reported is the object's own, at any depth
        inner = Q.struct(F(u8(1)), F(u8(1, 2), asserts=[K(eq(fld(2), 1), 1)]), asserts=[K(eq(fld(2), 9), 2)], magic=Magic("u8", 0x50))
        ien = Q.enum(Body([F(u8(1))], asserts=[K(eq(fld(1), 9), 3)]), Body([F(inner)]))
        for t in (Q.struct(F(u16()), F(inner)), Q.struct(F(Vec(ien), count=2)), Q.struct(F(u8(1)), F(Ptr(u8(2), inner))), Q.struct(F(u8(1)), F(Ptr(u8(2), inner), dn="deref_now")),
                  Q.struct(F(u8(2)), F(inner, sb=Seek("S", lit(1)), rp=True)), Q.struct(F(Box(Opt(inner)))), Q.struct(F(pw=PW("count", inner, c=lit(1))))):
            Q.case([Call(t)], start=3, max=16, lim=5)
    # ... also when the reader is before the start of the object by then, or at its end
    for kind in KINDS:
        K = lambda c, i: A(tick(700 + i, c), kind, "oops", tick(900 + i, lit(4)) if kind in ("fmt", "err") else None)
        f0 = eq(lit(0), 1)
        for mk in (lambda: F(u8(1), sb=Seek("S", lit(0)), asserts=[K(f0, 1)]), lambda: F(u8(1), pa=lit(-3), asserts=[K(f0, 1)]), lambda: F(u8(1), sb=Seek("C", lit(-2))), lambda: F(u8(1), sb=Seek("E", lit(0)), try_=True, asserts=[K(f0, 1)]),
                   lambda: F(u8(1), pb=lit(40), pa=lit(-41)), lambda: F(Unit(), sb=Seek("C", lit(-1)))):
            for t in (Q.struct(mk(), F(u8(2)), asserts=[K(f0, 2)]), Q.struct(F(u8(1)), mk(), asserts=[K(f0, 2)], tuple_=True), Q.enum(Body([F(u8(1)), mk()], asserts=[K(f0, 2)]), Body([mk(), F(u8(1))]), asserts=[K(f0, 3)])):
                Q.case([Call(t), Call(u8(1))], start=3, max=9, lim=2)
    return [Job("order", P, variants=1), Job("data", Q)] + rands("C06", dirs=over(DALL, assert_=.5), tops=over(TALL, asserts=.6, pre=.4, vpre=.4), quick=70, slim=0)

# ------------------------------------------------------------------ C07
def c07():
    P = Prog(701)
    modes = ["", "return_unexpected_error", "return_all_errors"]
    for i, (nm, mk) in enumerate(parts(P)):
        for m in modes[:2]:
            t = P.enum(Body([F(u8(1)), place(mk(), 2), F(u8(4))]), Body([F(u8(1, 2)), F(u16())], tuple_=True), errmode=m)
            P.case([Call(t), Call(u8(3))], start=2, max=16, lim=4, badb=1)
            t = P.enum(Body([place(mk(), 1), F(u8(1, 2), asserts=[A(eq(fld(2), 1))])]), Body([F(Ptr(u8(2, 60), u16())), place(mk(), 2)]), Body([F(u8(1)), F(u8(6, 7), magic=Magic("u8", 0x70))], asserts=[A(eq(fld(2), 6))]),
                       errmode=modes[i % 3] if m == "" else "return_unexpected_error")
            P.case([Call(S1(P, F(u8(9)), F(t), F(u16())), e="B"), Call(u8(3))], start=1, max=20, lim=3)
    Q = Prog(702)
    # magics: variant replaces enum, shared prefixes, overlapping payloads
    def en(mode, *b, **k): return Q.enum(*b, errmode=mode, **k)
    for m in modes:
        mu = lambda v: Magic("u16", v)
        tt = [en(m, Body([F(u8(1))], magic=mu(0x0102)), Body([F(u16())], magic=mu(0x0102)), Body([F(u8(2))], magic=mu(0x0201))),
              en(m, Body([F(u8(1))], magic=mu(0x0102)), Body([F(u16())]), Body([F(u8(2))], magic=Magic("u8", 1)), magic=mu(0x0304)),
              en(m, Body([], unit=True, magic=Magic("bytes", b"AB")), Body([], unit=True, magic=Magic("bytes", b"ABC")), Body([F(u8(65, 66))])),
              en(m, Body([], unit=True, magic=Magic("bytes", b"ABC")), Body([], unit=True, magic=Magic("bytes", b"AB")), Body([F(u8(1)), F(u8(1))], pre=[A(eq(lit(0), 1), "err", x=7)])),
              en(m, Body([F(u8(1, 2), asserts=[A(eq(fld(1), 1), "err", x=fld(1))])]), Body([F(u8(1, 2), asserts=[A(eq(fld(1), 3), "msg", "m")])])),
              en(m, Body([F(u8(1))], asserts=[A(eq(lit(0), 1))]), Body([F(u8(1)), F(u8(1)), F(u8(1))]), asserts=[A(eq(lit(0), 0))]),
              en(m, Body([F(u8(1, 2))]), Body([F(u8(1)), F(u8(1)), F(u8(1))]), asserts=[A(eq(lit(0), 1))]),
              en(m, Body([F(u16(0x0102), e=LITTLE)], e=BIG), Body([F(u16(0x0102)), F(u8(1), magic=Magic("u16", 0x0708))], e=LITTLE), Body([F(u16())]), e=BIG),
              en(m, *[Body([F(u8(1)), F(u8(k, k + 1), asserts=[A(eq(fld(2), k))])]) for k in range(1, 6)])]
        for i, t in enumerate(tt):
            for e in "BL":
                Q.case([Call(t, e=e), Call(u8(3))], start=1, max=9, badb=1)
            # enums inside enums, vectors, pointers, optional and conditional places
            w = [en(m, Body([F(u8(1)), F(t), F(u8(1))]), Body([F(t), F(u16())]), Body([F(u8(1))])), S1(Q, F(Vec(t), count=2)), S1(Q, F(u8(1)), F(Ptr(u8(0, 5), t))), S1(Q, F(t, try_=True), F(u8(1))),
                 S1(Q, F(u8(0, 1)), F(Opt(t), cond=eq(fld(1), 1)), F(pw=PW("ueof", t)))]
            for x in w: Q.case([Call(x)], start=2, max=12, lim=4)
    # however many variants there are, the first that matches and every one that does not
    for n in (8, 9, 12, 17, 33):
        for m in modes:
            bs = [Body([F(u8(k, k + 1), asserts=[A(eq(fld(1), k))])], tuple_=k % 2 == 0) if k % 3 else Body([], unit=True, magic=Magic("u8", k)) for k in range(1, n + 1)]
            Q.case([Call(en(m, *bs)), Call(u8(3))], start=1, max=3, badb=1)
            Q.case([Call(S1(Q, F(en(m, *bs), e=BIG), F(u8(n, n - 1), asserts=[A(eq(fld(2), n))])))], start=2, max=3, lim=9)
    # side effects of tried variants are the reads they made, nothing else: positions moved far away
    for j, f0 in enumerate([F(u8(1), sb=Seek("S", lit(0))), F(u8(1), pa=lit(9)), F(u8(1), sb=Seek("E", lit(-1))), F(Ptr(u8(0, 70), u16()), dn="deref_now"), F(u8(1), rp=True), F(u8(1), aa=lit(64)), F(pw=PW("ueof", u8(1)))]):
        for m in modes[:2]:
            Q.case([Call(en(m, Body([f0, F(u8(1, 2), asserts=[A(eq(fld(2), 3))])]), Body([F(Spy(1)), F(Spy(2))])), e="B"), Call(u8(3))], start=3, max=12, lim=3)
    return [Job("parts", P), Job("magics", Q), rec_job("expr")] + rands("C07", tops=over(TALL, enum=8, asserts=.4, pre=.2), dirs=over(DALL, assert_=.25), kind="enum", quick=70, badb=1, depth=2)

# ------------------------------------------------------------------ C08
def c08():
    P = Prog(801)
    def discs(n):
        b = 8 * PRIMS[n][0]
        if n[0] == "u":
            hi = (1 << min(b, 63)) - 1
            return [[0, 1, 2], [5, None, 9], [hi - 1, None] if b < 64 else [hi], [hi], [3, 1, None, 7, 0], [hi // 2 + 1, hi // 2]]
        lo, hi = -(1 << min(b, 64) - 1), (1 << min(b, 64) - 1) - 1
        return [[0, 1, 2], [-1, None, None], [lo, None], [hi - 1, None], [lo, hi, -5, 4], [-1, -2, 127 if b == 8 else 200]]
    for n in INTS:
        w = PRIMS[n][0]
        for ds in discs(n):
            vs = []; cur = -1
            for i, d in enumerate(ds):
                cur = cur + 1 if d is None else d
                vs.append(dict(nm="U%d" % i, disc=cur, **({} if d is None else dict(explicit=True))))
            if w == 16 and any(v["disc"] > (1 << 63) - 1 for v in vs): continue
            for e, td in (("B", None), ("L", None), ("B", LITTLE), ("L", BIG)):
                P.case([Call(P.uenum(vs, repr_=n, e=td), e=e), Call(u8(3))], start=1, max=2 * w + 1, badb=int(td is None))
            P.case([Call(S1(P, F(P.uenum(vs, repr_=n, magic=Magic("u8", 0x31))), F(P.uenum(vs, repr_=n), e=BIG)))], start=2, max=2 * w + 6, lim=3)
    # all 256 values
    for n, vs in (("u8", [(0, 1), (1, 0), (254, 1), (255, 1), (128, 1), (127, 1)]), ("i8", [(0, 1), (-1, 1), (127, 1), (-128, 1), (100, 1)])):
        uv = [dict(nm="U%d" % i, disc=d, explicit=True) for i, (d, _) in enumerate(vs)]
        P.case([Call(P.uenum(uv, repr_=n, cv=[[b] for b in range(256)]))], start=1, max=2)
        P.case([Call(S1(P, F(P.uenum(uv, repr_=n, cv=[[b] for b in range(256)])), F(u8(2))))], start=1, max=3)
    Q = Prog(802)
    pools = {"u8": [1, 2, 0x81, 0], "u16": [0x0102, 0x0201, 0x0103, 0], "u32": [0x01020304, 0x04030201, 0x01020305], "u64": [0x0102030405060708, 0x0102030405060709], "i16": [0x0102, 0x0201, 0],
             "i64": [5, 6], "u128": [0x0102030405060708090A0B0C0D0E0F10, 7], "f32": [1.5, 2.5], "f64": [1.5, 0.25], "char": ["a", "b"], "byte": [0, 1, 255], "bytes": [b"AB", b"BA", b"AA", b"AC"]}
    for k, vals in pools.items():
        for e, td in (("B", None), ("L", None), ("B", LITTLE)):
            vs = [dict(nm="U%d" % i, magic=Magic(k, v)) for i, v in enumerate(vals)]
            Q.case([Call(Q.uenum(vs, e=td), e=e), Call(u8(3))], start=1, max=2 * vs[0]["magic"].bytes.__len__() + 1, badb=1)
            dup = vs + [dict(nm="UD", magic=Magic(k, vals[0]))]
            Q.case([Call(Q.uenum([dict(dup[-1], nm="U9", pre=[A(eq(imp(1), 2))])] + dup, nimp=1, e=td), e=e, a=[a]) for a in (1, 2)], start=1, max=40, eofb=0)
            none = vs + [dict(nm="UZ")]
            Q.case([Call(S1(Q, F(Q.uenum(none, magic=Magic("u16", 0x4142), e=td)), F(u8(2))), e=e)], start=1, max=40, lim=4)
    for b in (b"A", b"ABC", b"ABCD", b"ABCDE", b"ABCDEFGH"):
        alt = bytes([b[0]]) + b"Z" * (len(b) - 1) if len(b) > 1 else b"Z"
        Q.case([Call(Q.uenum([dict(nm="U0", magic=Magic("bytes", b)), dict(nm="U1", magic=Magic("bytes", alt))])), Call(u8(3))], start=1, max=12, badb=1)
    for i, conds in enumerate(itertools.product((0, 1, 2), repeat=2)):
        vs = [dict(nm="U0", magic=Magic("u8", 5), pre=[A(eq(imp(1), conds[0])), A(ne(imp(2), conds[1]))]), dict(nm="U1", magic=Magic("u8", 5), pre=[A(eq(imp(2), conds[1]))]), dict(nm="U2", magic=Magic("u8", 5)), dict(nm="U3", magic=Magic("u8", 6), pre=[A(lt(imp(1), imp(2)))])]
        for a in itertools.product((0, 1, 2), repeat=2):
            Q.case([Call(Q.uenum(vs, nimp=2, import_tuple=bool(i % 2)), a=list(a))], start=1, max=3)
    # the first variant in the order of declaration, however many conditions each of them has
    for j, cnts in enumerate(itertools.product((0, 1, 2), repeat=3)):
        vs = [dict(nm="U%d" % i, magic=Magic("u8", 5), pre=[A(eq(imp(1), i % 2)), A(eq(imp(2), i // 2))][:k] if j % 2 else [A(ne(imp(2), i % 2)), A(ne(imp(1), 1 - i // 2))][:k]) for i, k in enumerate(cnts)]
        vs.insert(j % 4, dict(nm="UX", magic=Magic("u8", 6), pre=[A(eq(imp(1), imp(2)))]))
        for a in itertools.product((0, 1), repeat=2):
            Q.case([Call(Q.uenum(vs, nimp=2), a=list(a))], start=1, max=3)
    Q.case([Call(Q.uenum([dict(nm="U0", disc=1, explicit=True, pre=[A(eq(imp(1), 1))]), dict(nm="U1", disc=2, pre=[A(eq(imp(1), 2))]), dict(nm="U2", disc=3)], repr_="u16", nimp=1), a=[a]) for a in (1, 2)], start=1, max=8)
    # no other option of the field has a say in it
    for kw in (dict(count=0), dict(count=3), dict(offset=lit(1)), dict(count=2, offset=lit(7)), dict(try_=True, count=1), dict(rp=True, count=0)):
        for t in (Q.uenum([dict(nm="A", disc=0), dict(nm="B", disc=1)], repr_="u16"), Q.uenum([dict(nm="A", magic=Magic("u16", 0)), dict(nm="B", magic=Magic("u16", 1))]), Q.uenum([dict(nm="A", disc=0), dict(nm="B", disc=1)], repr_="u8", magic=Magic("u8", 0))):
            Q.case([Call(S1(Q, F(t, **kw), F(u8(2)))), Call(u8(1))], start=1, max=6, lim=5)
    # in every place
    ue = Q.uenum([dict(nm="A", disc=1, explicit=True), dict(nm="B", disc=0x102, explicit=True)], repr_="u16")
    um = Q.uenum([dict(nm="A", magic=Magic("u16", 1)), dict(nm="B", magic=Magic("u16", 0x102))])
    for t in (ue, um):
        for x in (S1(Q, F(Vec(t), count=3), F(u8(1))), S1(Q, F(t, try_=True), F(u16())), S1(Q, F(Opt(t)), F(Box(t))), S1(Q, F(pw=PW("ueof", t))), S1(Q, F(Tup(t, u8(1), t))),
                  S1(Q, F(u8(1)), F(Ptr(u8(0, 5), t))), Q.enum(Body([F(t), F(t)]), Body([F(t)]), Body([F(u8(7))])), S1(Q, F(t, e=BIG), F(t, e=LITTLE), F(t))):
            Q.case([Call(x), Call(u8(1))], start=1, max=10, lim=6)
            Q.case([Call(x, e="B")], start=1, max=10, lim=6, eofb=0)
    return [Job("repr", P), Job("magic", Q)] + rands("C08", kinds=over(KALL, **{"def": 6}), tops=over(TALL, uenum=12), quick=60, slim=0)

# ------------------------------------------------------------------ C09
def elems(P):
    inner = S1(P, F(u8(1, 2)), F(u16()), magic=Magic("u8", 0x2A), default=True)
    en = P.enum(Body([F(u16())], magic=Magic("u8", 1)), Body([F(u8(7))]))
    cnt = S1(P, F(u8(1)), F(Vec(u8(4)), count=fld(1)))
    return [("u8", lambda: Spy(20)), ("u16", lambda: u16(0x0102)), ("u32", lambda: pr("u32")), ("u128", lambda: pr("u128")), ("f64", lambda: pr("f64")), ("struct", lambda: inner), ("enum", lambda: en), ("cnt", lambda: cnt),
            ("uenum", lambda: P.uenum([dict(nm="A", disc=3, explicit=True)], repr_="u16")), ("tup", lambda: Tup(u8(1), u16())), ("arr", lambda: Arr(u16(), 2)), ("opt", lambda: Opt(u16())),
            ("box", lambda: Box(inner)), ("pos", lambda: Pos(u16())), ("nstr", lambda: NStr(cv=[[0x41], [0]])), ("wstr", lambda: WStr(cv=[[0, 0x41], [0, 0]])), ("unit", lambda: Unit()),
            ("ptr", lambda: Ptr(u8(0, 60), Spy(21))), ("mapped", lambda: P.mapped(Map(u16(1, 2), u8(), add(it, 1), c=eq(it, 2), er=it))), ("ustruct", lambda: P.struct(unit=True, magic=Magic("u8", 5)))]

def c09():
    P = Prog(901)
    for ei, (nm, mk) in enumerate(elems(P)):
        for n in (0, 1, 2, 3):
            e = BIG if ei % 2 else None
            st = ei % 3
            P.case([Call(S1(P, F(Vec(mk()), count=n, e=e), F(u8(9)))), Call(u8(1))], start=st, max=60, lim=3, badb=1)
            if nm not in ("ptr",):
                P.case([Call(S1(P, F(pw=PW("count", mk(), c=lit(n)), e=e), F(u8(9)))), Call(u8(1))], start=st, max=60, lim=3)
                for k in ("sep", "sept"):
                    for sp in ((u8(0x2C), u16(0x2C2D), S1(P, F(u8(3)), magic=Magic("u8", 0x2C)))[ei % 3], ):
                        P.case([Call(S1(P, F(pw=PW(k, mk(), sp), count=n, e=e), F(u8(9)))), Call(u8(1))], start=st, max=60, lim=2, badb=int(k == "sep"))
        P.case([Call(S1(P, F(u8(0, 1, 2, 3)), F(Vec(mk()), count=fld(1)), F(u8(9))))], start=1, max=60, lim=2)
        if nm not in ("u128",): P.case([Call(Vec(mk()), cnt=2), Call(u8(1))], start=1, max=30, lim=2)
    for n in (0, 1, 2, 5, 17):
        P.case([Call(S1(P, F(pw=PW("rb", u8(3)), count=n), F(u8(9)))), Call(u8(1))], start=1, max=n + 3, badb=1)
        P.case([Call(S1(P, F(u8(n)), F(pw=PW("rb", u8(3)), count=fld(1), e=BIG), F(u8(9)))), Call(u8(1))], start=1, max=n + 4)
    # counts whose low bits alone would be a small number
    for n, vals in (("u16", [256, 258]), ("u32", [1 << 16, (1 << 16) + 1, (1 << 31) + 1, (1 << 24) + 2]), ("u64", [1 << 32, (1 << 32) + 1, (1 << 16) + 2, (1 << 63) + 1]), ("i64", [(1 << 32) + 2, (1 << 62) + 1])):
        for v in vals:
            for mk in (lambda: u8(1), lambda: u16(), lambda: S1(P, F(u8(1)), F(u8(2))), lambda: Arr(u8(1), 2)):
                P.case([Call(S1(P, F(pr(n, v)), F(Vec(mk()), count=fld(1)), F(u8(9))))], start=1, max=22, lim=6)
                P.case([Call(S1(P, F(pr(n, v)), F(pw=PW("sep", mk(), u8(3)), count=fld(1)), F(u8(9))))], start=1, max=22, lim=6)
                P.case([Call(S1(P, F(pr(n, v)), F(pw=PW("count", mk(), c=fld(1))), F(u8(9))))], start=1, max=22, lim=6)
            P.case([Call(S1(P, F(pr(n, v)), F(pw=PW("rb", u8(3)), count=fld(1)), F(u8(9))))], start=1, max=22, lim=6)
    # all pairs of element and separator
    for a, b in itertools.product([u8(1), u16(), S1(P, F(Spy(3))), P.enum(Body([F(u8(1))], magic=Magic("u8", 2)), Body([F(u16())]))], [u8(7, 8), u16(), Unit(), Tup(u8(1), u8(2)), S1(P, F(Spy(4)))]):
        for k in ("sep", "sept"):
            for n in (0, 1, 2, 3):
                P.case([Call(S1(P, F(pw=PW(k, a, b), count=n, e=BIG if n % 2 else None), F(u8(9))))], start=n % 2, max=22, lim=3)
    Q = Prog(902)
    # counts and nesting: the inner vector never takes the outer count
    inh = S1(Q, F(u8(1)), F(Vec(u8(4)))); inh.d.inherits_count = True
    own = S1(Q, F(u8(1, 2)), F(Vec(u8(4)), count=fld(1)))
    for n in (0, 1, 2):
        Q.case([Call(S1(Q, F(Vec(Vec(u8(1))), count=n), F(u8(9))))], max=12, eofb=0)
        Q.case([Call(S1(Q, F(Vec(inh), count=n), F(u8(9))))], max=12, eofb=0)
        Q.case([Call(S1(Q, F(inh, count=n), F(u8(9))))], max=12)
        Q.case([Call(S1(Q, F(own, count=n), F(u8(9))))], max=12)
        Q.case([Call(S1(Q, F(Vec(own), count=n), F(u8(9))))], max=12)
        Q.case([Call(S1(Q, F(Arr(Vec(u8(1)), 2), count=n), F(Tup(Vec(u8(1)), u8(2), Vec(u16())), count=n), F(u8(9))))], max=24, eofb=0)
        Q.case([Call(S1(Q, F(Opt(Vec(u8(1))), count=n), F(Box(Vec(u16())), count=n), F(Pos(Vec(u8(3))), count=n), F(u8(9))))], max=24, lim=3)
        Q.case([Call(S1(Q, F(Ptr(u8(0), Vec(u16())), count=n), F(u8(9))))], max=14)
        Q.case([Call(S1(Q, F(Ptr(u8(0), Vec(Vec(u8(1)))), count=n), F(u8(9))))], max=14, eofb=0)
        Q.case([Call(S1(Q, F(Vec(Arr(u16(), 2)), count=n), F(Vec(Tup(u8(1), u16())), count=n), F(Vec(Opt(Box(u8(3)))), count=n)))], max=24, lim=3)
        Q.case([Call(S1(Q, F(Vec(Ptr(u8(0, 9), u16())), count=n), F(u8(9))))], max=14, lim=4)
        Q.case([Call(S1(Q, F(Vec(Spy(1, 2)), count=n, args=[lit(4), lit(n)], offset=lit(3), e=BIG), F(Arr(Spy(2, 1), 2), args=[lit(n)])))], max=14)
        Q.case([Call(S1(Q, F(pw=PW("count", inh, c=lit(n)), count=5), F(u8(9))))], max=20, eofb=0)
        Q.case([Call(S1(Q, F(pw=PW("until", inh if n else u8(0, 1), c=eq(lit(1), 1) if n else eq(it, 0)), count=n), F(u8(9))))], max=20, eofb=0)
        Q.case([Call(inh, cnt=n), Call(u8(2))], start=2, max=12)
        Q.case([Call(Vec(u16()), cnt=n, api="options"), Call(Vec(own), cnt=n, api="roap")], start=2, max=20, lim=4)
        Q.case([Call(S1(Q, F(pw=PW("sep", Vec(u8(1)), u8(0x2C)), count=n), F(u8(9))))], max=24, eofb=0)
        Q.case([Call(S1(Q, F(Vec(Q.enum(Body([F(Vec(u8(1)), count=lit(2)), F(u8(5, 6), asserts=[A(eq(fld(2), 5))])]), Body([F(u16())]))), count=n)))], max=14, lim=5)
    Q.case([Call(S1(Q, F(u8(3)), F(Vec(u8(1)), count=sub(fld(1), 1)), F(Vec(u16()), count=ln(2)), F(Vec(own), count=mod(fld(1), 2))))], max=24, lim=3)
    # no count at all
    Q.case([Call(S1(Q, F(u8(1)), F(Vec(u8(1)))))], max=5, eofb=0)
    Q.case([Call(S1(Q, F(u8(1)), F(pw=PW("rb", u8(3)))))], max=5, eofb=0)
    Q.case([Call(S1(Q, F(u8(1)), F(pw=PW("sep", u8(3), u8(4)))))], max=5, eofb=0)
    R = rands("C09", kinds=over(KALL, vec=8, arr=3, ptr=1), dirs=over(DALL, pw=.35, xcount=.15), pws=["count", "rb", "sep", "sept", "count"], quick=70, slim=.05)
    return [Job("elems", P), Job("nest", Q, feats=("cg",)), rec_job("tree", variants=1)] + R

# ------------------------------------------------------------------ C10
def c10():
    P = Prog(1001)
    badel = P.mapped(Map(u8(1, 2, 9), Prim("u8"), it, c=eq(it, 9), er=it, tag=801))
    ioel = P.mapped(Map(u8(1, 9), Prim("u8"), it, c=eq(it, 9), er=it, io=True))
    mel = S1(P, F(u16()), magic=Magic("u8", 0x2A)); ael = S1(P, F(u8(1, 2)), F(u8(3, 4), asserts=[A(eq(fld(2), 3), "err", x=fld(1))]))
    een = P.enum(Body([F(u16())], magic=Magic("u8", 1)), Body([F(u8(7, 8), asserts=[A(eq(fld(1), 7))])])); e1 = P.enum(Body([F(u16())], magic=Magic("u8", 1)), Body([F(u16())], magic=Magic("u8", 2)), errmode="return_unexpected_error")
    ue = P.uenum([dict(nm="A", disc=1, explicit=True)], repr_="u16")
    for k in ("until", "untilx"):
        for el, c in ((u8(1, 0), eq(it, 0)), (u16(1, 0x0100), eq(it, 1)), (pr("i8", 0xFF, 1), lt(it, 0)), (pr("u32", 5, 6), eq(it, 6)), (pr("i64", 5, 6), ne(it, 5)), (Spy(5, 0, [[0], [1]]), eq(it, 0)), (Spy(6, 0, [[3]]), eq(lit(1), 1)),
                      (u8(4), eq(lit(0), 1)), (Box(u8(0, 1)), eq(it, 0)), (Opt(u8(0, 1)), eq(it, 0)), (Pos(u8(0, 1)), eq(it, 0)), (pr("u128", 5), eq(lit(1), 1))):
            for e in (None, BIG):
                P.case([Call(S1(P, F(u8(2)), F(pw=PW(k, el, c=c), e=e), F(u8(9)))), Call(u8(1))], start=1, max=8, badb=1)
                P.case([Call(S1(P, F(pw=PW(k, el, c=c), e=e, count=1, offset=lit(3)), F(u8(9)), tuple_=True)), Call(u8(1))], start=0, max=14, lim=4, badb=0)
        # structured elements (the predicate looks at a length or always / never matches)
        for el in (mel, ael, een, e1, ue, badel, ioel, Tup(u8(1), u16()), Arr(u16(), 2), NStr(cv=[[0x41], [0]]), WStr(cv=[[0, 0x41], [0, 0]]), Unit()):
            for c in (eq(lit(1), 1), eq(lit(0), 1)):
                if isinstance(el, Unit) and c.a[0].n == 0: continue          # would never end
                P.case([Call(S1(P, F(u8(2)), F(pw=PW(k, el, c=c)), F(u8(9)))), Call(u8(1))], start=1, max=11, lim=5, badb=1)
        P.case([Call(S1(P, F(pw=PW(k, NStr(cv=[[0x41], [0]]), c=eq(itlen, 0))), F(u8(9))))], start=1, max=8, lim=6)
        P.case([Call(S1(P, F(pw=PW(k, Arr(Spy(8), 2), c=eq(itlen, 2))), F(u8(9))))], start=1, max=8, lim=6)
        P.case([Call(S1(P, F(pw=PW(k, Spy(9, 2, [[1], [0]]), c=eq(it, 0)), args=[lit(6), lit(7)], e=BIG, offset=lit(4)), F(u8(9))))], start=1, max=6, badb=1)
        P.case([Call(S1(P, F(u8(1, 2)), F(pw=PW(k, u8(1, 2, 3), c=eq(it, 3)), rp=True), F(u8(9), ab=lit(4))))], start=1, max=8, lim=4)
        P.case([Call(S1(P, F(pw=PW(k, u8(1, 0), c=eq(it, 0)), try_=True), F(u16())))], start=1, max=6)
        P.case([Call(P.enum(Body([F(pw=PW(k, u8(1, 0), c=eq(it, 0))), F(u8(4))]), Body([F(u8(1, 0))])))], start=1, max=6)
    for el in (u8(1), u16(), pr("u32"), pr("u64"), mel, ael, een, e1, ue, badel, ioel, Tup(u8(1), u16()), Arr(u16(), 2), NStr(cv=[[0x41], [0]]), WStr(cv=[[0, 0x41], [0, 0]]), Opt(u16()), Box(mel), Pos(u16()), Spy(7), Arr(Arr(u8(3), 2), 2),
               S1(P, F(u8(1, 2)), F(Vec(u8(5)), count=fld(1))), S1(P, F(pw=PW("until", u8(1, 0), c=eq(it, 0)))), S1(P, F(u8(5), pa=lit(1))), S1(P, F(u8(1)), F(u8(2), sb=Seek("C", lit(1)))), P.struct(F(Ptr(u8(0, 40), u8(6)))),
               # errors of the reader that are not the end of the input
               S1(P, F(u8(1)), F(u8(2), sb=Seek("C", lit(-9)))), S1(P, F(u8(1)), F(u8(2), pa=lit(-5))), S1(P, F(u8(1)), F(Ptr(pr("i8", 0xF0, 1), u8(3)))), S1(P, F(u8(1, 13)), F(u8(2), sb=Seek("C", sub(0, fld(1))))),
               P.enum(Body([F(u8(1), sb=Seek("C", lit(-13)))]), Body([F(u16()), F(u8(3), sb=Seek("S", lit(0)), rp=True)])), P.enum(Body([F(u8(1, 2)), F(u8(1), sb=Seek("C", lit(-12)))]), errmode="return_unexpected_error")):
        for e in (None, BIG):
            P.case([Call(S1(P, F(u8(2)), F(pw=PW("ueof", el), e=e))), Call(u8(1))], start=1, max=9, badb=1, lim=5)
        P.case([Call(S1(P, F(pw=PW("ueof", el), rp=True), F(u8(9)))), Call(u8(1))], start=1, max=9, lim=5, slim=3)
        P.case([Call(S1(P, F(pw=PW("ueof", el), pst=lit(20)), F(u8(9), sb=Seek("S", lit(2)))))], start=2, max=7, lim=5)
        P.case([Call(S1(P, F(u8(2)), F(pw=PW("ueof", S1(P, F(el), F(u8(3)))))))], start=1, max=9, badb=1, lim=5)
    P.case([Call(S1(P, F(pw=PW("ueof", Spy(9, 2)), args=[lit(6), lit(7)], e=BIG, offset=lit(4))))], start=1, max=4, badb=1)
    P.case([Call(S1(P, F(u8(2)), F(pw=PW("ueof", u8(1)))))], start=30, max=5)
    R = rands("C10", dirs=over(DALL, pw=.6), pws=["until", "untilx", "ueof"], badb=1, quick=70, slim=.05)
    return [Job("until", P)] + R

# ------------------------------------------------------------------ C11
def c11():
    P = Prog(1101)
    allb = [[b] for b in range(256)]
    small = [[0], [1], [0x80], [0xFF], [0x41]]
    wsm = [[0, 0], [0, 1], [1, 0], [0xFF, 0xFF], [0x41, 0x42], [0xD8, 0x3D]]
    for nz in (False, True):
        s = lambda cv=small: NStr(cv=cv, nz=nz); w = lambda cv=wsm: WStr(cv=cv, nz=nz)
        for st in (0, 1):
            P.case([Call(s(), e="L"), Call(u8(3))], start=st, max=st + 4, badb=1)
            for e in "BL":
                P.case([Call(w(), e=e), Call(u8(3))], start=st, max=st + 7, badb=1, lim=4)
        P.case([Call(S1(P, F(s(allb[1:] + [[0]])), F(u8(9))))], max=6, eofb=0, lim=1)
        P.case([Call(S1(P, F(s([[0]] + allb[1:])), F(u8(9))))], max=6, eofb=0, lim=1)
        allw = [[0, 0]] + [[0, b] for b in range(1, 256)] + [[b, 0] for b in range(1, 256)] + [[b, b] for b in range(1, 256)] + [[b, 255 - b] for b in range(256)]
        for e in (BIG, LITTLE):
            P.case([Call(S1(P, F(w(allw), e=e), F(u8(9))))], start=1, max=9, eofb=0, lim=1)
            P.case([Call(S1(P, F(u8(1)), F(w(), e=e), F(w()), F(s()), F(u8(9))))], max=16, lim=3)
        for l in (1, 2, 5, 30, 63):
            P.case([Call(S1(P, F(s([[0x41]])), F(u8(9))))], max=l, lim=0)                 # never terminated
            P.case([Call(S1(P, F(w([[0x41, 0]])), F(u8(9))))], start=1, max=l, lim=0)
        P.case([Call(S1(P, F(s(), try_=True), F(w(), try_=True), F(u8(9)))), Call(u8(3))], start=1, max=7, badb=1, lim=4)
        P.case([Call(P.enum(Body([F(s()), F(s())]), Body([F(w())]), Body([F(u8(0x41))])))], max=7, lim=5)
        P.case([Call(S1(P, F(Vec(s([[0x41], [0]])), count=2), F(Vec(w([[0, 0x41], [0, 0]])), count=2), F(u8(9))))], start=1, max=14, lim=5)
        P.case([Call(S1(P, F(Opt(Box(s()))), F(Arr(w([[0, 0x41], [0, 0]]), 2)), F(Tup(s([[0]]), w([[0, 0]]), s([[0]])))))], start=1, max=20, lim=3)
        P.case([Call(S1(P, F(u8(0, 3)), F(Ptr(u8(2, 4), s())), F(Ptr(u8(3, 4), w()), e=BIG)))], start=1, max=9, lim=4)
        P.case([Call(S1(P, F(s(), pst=lit(6)), F(w(), pst=lit(5), aa=lit(4)), F(u8(9)), F(s(), rp=True, pb=lit(2)), F(u8(7)), asserts=[A(ne(ln(1), 3)), A(lt(ln(2), 2))]))], start=1, max=30, lim=4)
        P.case([Call(S1(P, F(s(), count=1), F(w(), count=1), F(u8(9))))], start=1, max=12, lim=4)
    R = rands("C11", kinds=over(KALL, nstr=8, wstr=8, ptr=1), quick=60, badb=1, slim=0)
    return [Job("units", P)] + R

# ------------------------------------------------------------------ C12
def c12():
    P = Prog(1201)
    mods = [dict(), dict(dn="deref_now"), dict(offset_after=lit(1))]
    for n in INTS:
        w = PRIMS[n][0]
        cv = [0, 1, w + 2, 40] + ([-1, -w - 2] if n[0] == "i" else [])
        for e in ("B", "L"):
            P.case([Call(S1(P, F(u8(5)), F(Ptr(pr(n, *cv), u16())), F(u8(6))), e=e), Call(u8(1))], start=1, max=w + 8, badb=int(e == "B"))
        for m in mods:
            P.case([Call(S1(P, F(u8(5)), F(Ptr(pr(n, *cv), S1(P, F(u8(1)), F(u16()))), offset=lit(3) if m.get("dn") else None, **m), F(u8(6)))), Call(u8(1))], start=2, max=w + 9, lim=5)
        # far outside what can be addressed
        hi = {"u": (1 << 8 * w) - 1, "i": (1 << 8 * w - 1) - 1}[n[0]]
        big = [hi, hi // 2 + 1, hi - 7] + ([-(1 << 8 * w - 1), -(1 << 8 * w - 2)] if n[0] == "i" else []) if w >= 4 else []
        if w == 8: big += [1 << 63 if n[0] == "u" else 1 << 62, (1 << 63) - 1]
        if w == 16: big += [1 << 64, (1 << 64) + 2, (1 << 63), (1 << 63) + 3]
        if w == 4: big = [b for b in big if b >= 0]
        for b in big:
            for off in (None, 2):
                P.case([Call(S1(P, F(u8(5)), F(Ptr(pr(n, b), u8(1)), offset=off and lit(off)), F(u8(6)))), Call(u8(1))], start=1, max=w + 6, eofb=0)
    # what the offset comes from
    tgt = lambda: S1(P, F(Spy(30)), F(u8(2)))
    for off in (None, 0, 1, 4):
        for oa in (None, 0, 2):
            for dn in (None, "deref_now", "postprocess_now"):
                if oa is not None and dn: continue
                for cnt in (None, 2):
                    t = Vec(Spy(31)) if cnt else tgt()
                    P.case([Call(S1(P, F(u8(5)), F(Ptr(u8(0, 2, 7), t), offset=off if off is None else lit(off), offset_after=oa if oa is None else lit(oa), dn=dn, count=cnt, e=BIG if cnt else None), F(u8(6))), off=1), Call(u8(1))],
                           start=1, max=12, lim=5)
    Q = Prog(1202)
    # offsets computed from data read before or (offset_after) afterwards
    Q.case([Call(S1(Q, F(u8(1, 3)), F(Ptr(u8(0, 2), u16()), offset=fld(1)), F(Ptr(u8(0, 2), u16()), offset_after=fld(4)), F(u8(2, 0)))), Call(u8(1))], start=1, max=12)
    Q.case([Call(Q.struct(F(Ptr(u8(1), Spy(1)), offset=imp(1)), F(Ptr(u8(1), Spy(2)), offset_after=add(imp(1), fld(3))), F(u8(1, 2)), F(Ptr(u8(1), Spy(3))), nimp=1), a=[a], off=o) for a, o in ((0, 1), (3, 0))], start=1, max=20, lim=6)
    inner = lambda: S1(Q, F(u8(1)), F(Ptr(u8(0, 3), Spy(5))), F(u8(2)))
    # containers of pointers and pointers to containers of pointers
    p = lambda t=None, *cv: Ptr(u8(*(cv or (0, 3))), t or Spy(7))
    for x in (Vec(p()), Arr(p(), 2), Tup(p(), u8(1), p(u16())), Opt(p()), Box(p()), Pos(p()), Opt(Box(Pos(p()))), Box(Opt(Tup(p(), p()))), p(p()), p(p(p())), p(Vec(u16())), p(Vec(p())), p(Arr(p(), 2)), p(Tup(p(), u8(1))), p(Opt(p())), p(Box(p())),
              p(Pos(p())), p(inner()), Vec(inner()), p(Vec(inner())), inner(), Tup(inner(), inner()), Ptr(u16(0, 4), NStr(cv=[[0x41], [0]])), p(Q.enum(Body([F(p())], magic=Magic("u8", 1)), Body([F(u8(2)), F(p())]))),
              p(Q.mapped(Map(u8(1, 2), Prim("u8"), add(it, 1), c=eq(it, 2), er=it)))):
        cnt = 2 if "Vec" in x.rust() else None
        for kw in (dict(), dict(dn="deref_now"), dict(offset=lit(2)), dict(offset=lit(1), offset_after=lit(3)), dict(offset=lit(2), dn="postprocess_now"), dict(e=BIG)):
            Q.case([Call(S1(Q, F(u8(4)), F(x, count=cnt, **kw), F(u8(6)))), Call(u8(1))], start=1, max=14, lim=4)
        Q.case([Call(S1(Q, F(u8(4)), F(pw=PW("roap", x), count=cnt, offset=lit(1)), F(u8(6)))), Call(u8(1))], start=1, max=14, lim=4)
        Q.case([Call(x, api="roap", cnt=cnt, off=1), Call(x, api="options", cnt=cnt, off=1), Call(u8(1))], start=2, max=16, lim=3)
    for t in (u16(), p(), p(u16()), Vec(u8(1)), inner()):
        cnt = 2 if isinstance(t, Vec) else None
        for kw in (dict(), dict(offset=lit(2)), dict(e=BIG), dict(rp=True), dict(pst=lit(5)), dict(try_=True), dict(cond=eq(fld(1), 4))):
            Q.case([Call(S1(Q, F(u8(4, 5) if "cond" in kw else u8(4)), F(pw=PW("ptrparse", Ptr(u8(0, 5), t)), count=cnt, **({k: v for k, v in kw.items() if not (k == "cond" and not isinstance(t, (Prim, Vec)))})), F(u8(6)))), Call(u8(1))], start=1, max=14, lim=4, badb=1)
    # several pointers: order and independence, with position-changing directives around
    Q.case([Call(S1(Q, F(p(Spy(1)), offset=lit(1)), F(p(Spy(2))), F(p(Spy(3)), dn="deref_now"), F(u8(2), asserts=[A(eq(add(fld(3), 0), 5))])), off=2), Call(u8(1))], start=0, max=12, lim=6)
    for kw in (dict(rp=True), dict(pb=lit(2)), dict(pa=lit(1)), dict(pst=lit(4)), dict(aa=lit(4)), dict(ab=lit(4)), dict(sb=Seek("S", lit(6))), dict(sb=Seek("E", lit(-2))), dict(magic=Magic("u8", 0x33)), dict(try_=True), dict(temp=True)):
        for dn in (None, "deref_now"):
            Q.case([Call(S1(Q, F(u8(4)), F(p(u16()), dn=dn, **kw), F(u8(6)), F(p(Spy(8))))), Call(u8(1))], start=1, max=14, lim=4)
    # arguments reach the target; the assertion after it sees it
    a2 = lambda: Q.struct(F(Spy(40)), F(Spy(41, 2), args=[imp(1), add(imp(1), 1)]), nimp=1)
    for kw in (dict(), dict(dn="deref_now")):
        Q.case([Call(S1(Q, F(u8(3)), F(Ptr(u8(1), a2()), args=[fld(1)], **kw), F(Vec(Ptr(u8(1), a2())), count=2, args=[lit(9)], **kw), F(Ptr(u8(1), Spy(42, 3)), args=[lit(1), lit(2), lit(3)], **kw)))], start=0, max=16, eofb=0)
    Q.case([Call(S1(Q, F(u8(3)), F(Ptr(u8(0, 1), u8(7, 8)), dn="deref_now", asserts=[A(eq(fld(2), 3))]), F(Vec(u8(1)), count=mod(fld(2), 4))))], start=0, max=9)
    # a failing target fails the containing object with that error
    bad = [S1(Q, F(u8(1)), magic=Magic("u16", 0x4142)), S1(Q, F(u8(1, 2), asserts=[A(eq(fld(1), 1))])), Q.enum(Body([F(u8(1))], magic=Magic("u8", 9)), Body([F(u16())], magic=Magic("u8", 8))), pr("u64"), Vec(u16())]
    for t in bad:
        c = 3 if isinstance(t, Vec) else None
        for kw in (dict(), dict(dn="deref_now"), dict(try_=True)):
            Q.case([Call(S1(Q, F(u8(1)), F(Ptr(u8(0, 4), t), count=c, **kw), F(u8(2)))), Call(u8(1))], start=1, max=10, lim=5, badb=1)
            Q.case([Call(S1(Q, F(u8(1)), F(Opt(Box(Ptr(u8(0, 4), Arr(Ptr(u8(0, 4), t), 2)))), count=c, **kw), F(u8(2)))), Call(u8(1))], start=1, max=10, lim=5, slim=4)
    M = Prog(1203)
    # many of them (which of them point where is up to the given inputs)
    for n in (3, 5, 9, 20, 40):
        el = [lambda: Ptr(u8(2), u16()), lambda: Ptr(u16(3), pr("u32")), lambda: S1(M, F(u8(1)), F(Ptr(u8(4), u16()))), lambda: Opt(Box(Ptr(u8(0), Spy(50))))]
        for k, mk in enumerate(el):
            for kw in (dict(), dict(offset=lit(2)), dict(e=BIG, dn="deref_now"), dict(offset_after=lit(5))):
                M.case([Call(S1(M, F(u8(4)), F(Vec(mk()), count=n, **kw), F(u16())), e="B"), Call(u8(1))], start=1, max=6 * n + 20, eofb=0)
                if n in (5, 9, 20): M.case([Call(S1(M, F(u8(4)), F(Arr(mk(), n), **kw), F(u16())), off=2), Call(u8(1))], start=1, max=6 * n + 20, eofb=0)
            M.case([Call(S1(M, F(u8(4)), F(pw=PW("count", mk(), c=lit(n))), F(u16()))), Call(u8(1))], start=1, max=6 * n + 20, eofb=0)
    M.case([Call(S1(M, F(u8(4)), F(Vec(Spy(51, 0, [[5]])), count=260), F(u16())))], start=1, max=290, eofb=0)
    M.case([Call(S1(M, *[F(Ptr(u8(k), u16())) for k in range(20)], F(u16())), e="B")], start=1, max=60, eofb=0)
    R = rands("C12", kinds=over(KALL, ptr=9, box=2, opt=2, pos=2), dirs=over(DALL, offset=.3, dn=.3, offset_after=.25, pw=.2), pws=["ptrparse", "count", "roap", "cust"], apis=("options", "roap", "be"), quick=80, depth=3, feats=("cg",))
    return [Job("types", P), Job("shapes", Q, feats=("cg",)), Job("many", M, feats=("cg",), workers=1), rec_job("ptr")] + R

# ------------------------------------------------------------------ C13
def c13():
    P = Prog(1301); tag = itertools.count(1)
    s = lambda n=0: Spy(next(tag), n, [[5]])
    conts = [("plain", lambda: s()), ("vec", lambda: Vec(s())), ("arr", lambda: Arr(s(), 3)), ("tup", lambda: Tup(s(), s(), s())), ("opt", lambda: Opt(s())), ("box", lambda: Box(s())), ("pos", lambda: Pos(s())),
             ("vecvec", lambda: Arr(Vec(s()), 2)), ("optbox", lambda: Opt(Box(Pos(s())))), ("tupmix", lambda: Tup(Arr(s(), 2), Opt(s()), Box(s()))), ("ptr", lambda: Ptr(u8(0), s())), ("ptrvec", lambda: Ptr(u8(0), Vec(s()))), ("vecptr", lambda: Vec(Ptr(u8(0), s()))),
             ("struct", lambda: S1(P, F(s()), F(s(), dn="postprocess_now"), F(s()))), ("enum", lambda: P.enum(Body([F(s())], magic=Magic("u8", 9)), Body([F(s()), F(s())]))), ("ptrptr", lambda: Ptr(u8(0), Ptr(u8(1), s())))]
    dirs = [dict(), dict(dn="deref_now"), dict(dn="postprocess_now"), dict(offset=lit(2)), dict(offset=lit(2), dn="deref_now"), dict(offset_after=lit(1)), dict(offset=lit(2), offset_after=lit(1)), dict(e=BIG), dict(try_=True), dict(try_=True, dn="deref_now"), dict(rp=True), dict(temp=True), dict(pst=lit(9))]
    for nm, mk in conts:
        for d in dirs:
            c = 2 if "ec" in nm else None
            tt = S1(P, F(s()), F(mk(), count=c, **d), F(s(), dn="deref_now"), F(s()), F(u8(1, 2), asserts=[A(tick(777, eq(fld(5), 1)))]), tuple_=len(nm) % 2 == 0, asserts=[A(tick(778, eq(lit(1), 1)))])
            P.case([Call(tt, off=1), Call(u8(1))], start=1, max=22, lim=4, eofb=int(nm in ("plain", "tup", "vec")))
        for cnd in (0, 1):
            if nm in ("plain", "vec", "arr", "tup", "opt", "box"):
                P.case([Call(S1(P, F(u8(0, 1)), F(mk(), count=2 if "ec" in nm else None, cond=eq(fld(1), 1)), F(s()), F(mk(), default=["default", "ignore"][cnd]), F(s())))], start=1, max=16, lim=4)
        # at the start of the stream, and with options that mean nothing to the post-processing
        for off, cnt, st in ((0, None, 0), (2, 2, 0), (2, 2, 1)):
            for api in ("options", "roap"):
                P.case([Call(mk(), api=api, cnt=2 if "ec" in nm else cnt, off=off), Call(u8(1))], start=st, max=16, lim=2, eofb=0)
        P.case([Call(S1(P, F(mk(), count=2, offset=lit(1)), F(s())), off=1), Call(u8(1))], start=0, max=22, lim=2, eofb=0)
        # the entry points: read_options does not post-process, the others do
        for api in ("options", "roap"):
            P.case([Call(mk(), api=api, cnt=2 if "ec" in nm else None, off=1), Call(u8(1))], start=1, max=16, lim=4)
        if "ec" not in nm:
            for api in ("be", "le", "ne", "read", "type"):
                P.case([Call(mk(), api=api), Call(u8(1))], start=1, max=16, lim=2, eofb=0)
    # helpers: each element immediately
    for k in ("count", "until", "untilx", "ueof", "cust", "sep", "sept", "roap"):
        for nm, mk in conts:
            if nm in ("vec", "vecvec", "ptrvec", "vecptr"): continue
            if k in ("sep", "sept") and "ptr" in nm: continue
            if k in ("until", "untilx") and nm == "ptrptr": continue
            t = mk()
            pwk = PW(k, t, s() if k in ("sep", "sept") else None, c=lit(2) if k == "count" else eq(lit(1), 1), n=500)
            P.case([Call(S1(P, F(s()), F(pw=pwk, count=2, offset=lit(2), e=BIG), F(s()) if k != "ueof" else F(u8(1), calc=lit(1)))), Call(u8(1))], start=1, max=18, lim=4, eofb=int(nm == "plain"))
    # map, calc: no calls for what was not read into the field
    P.case([Call(S1(P, F(map=Map(s(), Prim("u8"), it)), F(s()), F(map=Map(s(), Prim("u8"), it, c=eq(it, 9), er=it)), F(Opt(u8(1)), calc=lit(4)), F(s(), try_=True)))], start=1, max=8)
    P.case([Call(P.mapped(Map(S1(P, F(s()), F(s(), dn="deref_now")), Prim("u8"), lit(4)))), Call(P.mapped(Map(s(), Prim("u8"), it)), api="le")], start=1, max=8)
    # post-processing that leaves the reader elsewhere, or fails
    mv = lambda: Spy(7000 + next(tag) % 100, 0, [[5]]); fl = lambda: Spy(8000 + next(tag) % 100, 0, [[4], [5]])
    for s2 in (mv, fl):
        cs = [lambda: s2(), lambda: Vec(s2()), lambda: Arr(s2(), 2), lambda: Tup(s2(), s()), lambda: Opt(s2()), lambda: Box(s2()), lambda: Pos(s2()), lambda: Ptr(u8(0), s2()), lambda: Vec(Ptr(u8(6), s2())),
              lambda: S1(P, F(s2()), F(u8(1))), lambda: S1(P, F(s2(), dn="deref_now"), F(u8(1))), lambda: P.enum(Body([F(s2())], magic=Magic("u8", 9)), Body([F(s()), F(s2())])), lambda: Ptr(u8(6), S1(P, F(s2()), F(s())))]
        for mk in cs:
            for d in (dict(), dict(dn="deref_now"), dict(try_=True), dict(rp=True), dict(pst=lit(3)), dict(aa=lit(4), dn="postprocess_now"), dict(temp=True)):
                P.case([Call(S1(P, F(s()), F(mk(), count=2, **d), F(u8(1)), asserts=[A(tick(779, eq(lit(1), 1)))])), Call(u8(1))], start=1, max=14, lim=5, eofb=0)
            for api in ("options", "roap", "le", "type"):
                P.case([Call(mk(), api=api, **(dict(cnt=2) if api in ("options", "roap") else {})), Call(u8(1))] if api in ("options", "roap") or not isinstance(mk(), Vec) else [Call(mk(), api="options", cnt=1)], start=1, max=14, lim=4, eofb=0)
            P.case([Call(P.enum(Body([F(mk(), count=1), F(u8(1, 2), asserts=[A(eq(fld(2), 1))])]), Body([F(u8(1)), F(mk(), count=1, try_=True)])), e="B"), Call(u8(1))], start=1, max=12, lim=5, eofb=0)
        for k in ("count", "until", "untilx", "ueof", "cust", "sep", "sept", "roap"):
            if k == "ueof" and s2 is mv: continue   # goes back for ever
            t = s2(); P.case([Call(S1(P, F(s()), F(pw=PW(k, t, s() if k in ("sep", "sept") else None, c=lit(2) if k == "count" else eq(it, 5), n=501), count=2), F(u8(1), calc=lit(1)))), Call(u8(1))], start=1, max=8, lim=3, eofb=0)
    # arguments and per-element options
    for d in dirs[:7]:
        P.case([Call(P.struct(F(s(2), args=[imp(1), lit(7)], **d), F(Vec(s(1)), count=2, args=[imp(2)], **d), F(Opt(s(3)), args=[lit(1), lit(2), lit(3)], **d), F(u8(4)), F(s(1), args=[fld(4)], **d), nimp=2), a=[8, 9], off=3)], max=12, eofb=0)
    # all-or-nothing order: variants that fail late have already post-processed
    P.case([Call(P.enum(Body([F(s()), F(s(), dn="deref_now"), F(u8(1, 2), asserts=[A(eq(fld(3), 1))])], asserts=[A(eq(fld(3), 5))]), Body([F(s()), F(s())], tuple_=True))), Call(u8(1))], start=1, max=8)
    return [Job("calls", P, feats=("cg",)), rec_job("ptr", "args")] + rands("C13", kinds=over(KALL, spy=12, ptr=4), dirs=over(DALL, dn=.3, offset_after=.2), apis=("options", "roap", "le", "type"), quick=80, depth=3, feats=("cg",), slim=.05)

# ------------------------------------------------------------------ C14
def c14():
    P = Prog(1401)
    for nm, mk in parts(P):
        if nm in ("assert", "magic", "bmagic"): continue            # below: those belong to the field, not to the value
        for st in (0, 2):
            f = place(mk(), 2); f.try_ = True
            if f.map is None: f.fty = Opt(f.fty)
            else: f.map.x = add(it, 1); f.map.c = eq(it, 9)
            P.case([Call(S1(P, F(u8(1)), f, F(Pos(u8(3, 4))), F(u8(2)), tuple_=st == 2)), Call(u8(3))], start=st, max=16, lim=4, badb=1)
        f = place(mk(), 1); f.try_ = True
        if f.map is None: f.fty = Opt(f.fty)
        P.case([Call(P.enum(Body([f, F(u8(7, 8), asserts=[A(eq(fld(2), 7))])]), Body([F(u8(1)), F(u8(2))])), e="B"), Call(u8(3))], start=1, max=14, lim=4, slim=6)
    inner = S1(P, F(u8(1, 2)), F(u16()), magic=Magic("u8", 0x2A))
    ks = dict(magic=lambda: Magic("u16", 0x3132), asserts=lambda: [A(eq(lit(0), 1))], pb=lambda: lit(30), pa=lambda: lit(-20), sb=lambda: Seek("C", lit(-9)), rp=lambda: True, pst=lambda: lit(4), ab=lambda: lit(4), aa=lambda: lit(4), cond=lambda: eq(fld(1), 1),
              dn=lambda: "deref_now", offset=lambda: lit(3), e=lambda: BIG, temp=lambda: True)
    for k, v in ks.items():
        for t in (inner, u16(), Ptr(u8(0, 40), u16()), P.enum(Body([F(u16())], magic=Magic("u8", 1))), Arr(u8(1), 3)):
            P.case([Call(S1(P, F(u8(1, 0)), F(t, try_=True, **{k: v()}), F(Pos(u8(3))))), Call(u8(3))], start=1, max=14, lim=4, badb=1)
    P.case([Call(S1(P, F(u8(1)), F(u16(), try_=True, pb=lit(1)), F(u8(3))))], start=1, max=9, slim=2)
    # try with map functions: the function sees the option, its error still fails the object
    for io in (False, True):
        P.case([Call(S1(P, F(u8(1)), F(try_=True, map=Map(u16(7, 9), Prim("u8"), add(it, 1), c=eq(it, 9), er=it, io=io, tag=801)), F(u8(3)))), Call(u8(3))], start=1, max=7, badb=1)
    P.case([Call(S1(P, F(u8(1)), F(try_=True, map=Map(inner, Prim("u8"), lit(3), tag=801)), F(u8(3)))), Call(u8(3))], start=1, max=9, badb=1)
    # helpers and vectors with partial success
    for pwk in ("count", "until", "ueof", "sep", "rb", "cust", "ptrparse", "roap"):
        mkp = dict(count=lambda: PW("count", inner, c=lit(2)), until=lambda: PW("until", u8(0, 9), c=eq(it, 0)), ueof=lambda: PW("ueof", inner), sep=lambda: PW("sep", u8(3), inner), rb=lambda: PW("rb", u8(3)), cust=lambda: PW("cust", inner, n=77),
                   ptrparse=lambda: PW("ptrparse", Ptr(u8(0, 9), u16())), roap=lambda: PW("roap", S1(P, F(Ptr(u8(0, 9), u16())))))[pwk]
        P.case([Call(S1(P, F(u8(1)), F(pw=mkp(), try_=True, count=3), F(Pos(u8(3))))), Call(u8(3))], start=1, max=12, lim=5, badb=1)
    # the value that fails lies before the field, or before the object
    bad8 = lambda: S1(P, F(u8(1)), F(u8(1, 2), asserts=[A(eq(fld(2), 2))]), magic=Magic("u8", 0x2A))
    for t in (bad8, lambda: Pos(bad8()), lambda: Tup(u8(1), bad8()), lambda: Vec(bad8())):
        for st in (0, 2):
            P.case([Call(S1(P, F(u8(1)), F(pw=PW("ptrparse", Ptr(u8(0, 1), t())), try_=True, count=2, offset=lit(0)), F(Pos(u8(3))))), Call(u8(3))], start=st, max=12, lim=5)
            for kw in (dict(sb=Seek("S", lit(0))), dict(sb=Seek("C", lit(-1))), dict(pb=lit(-2))):
                P.case([Call(S1(P, F(u8(1)), F(u8(2)), F(t(), try_=True, count=2, **kw), F(Pos(u8(3))))), Call(u8(3))], start=st, max=12, lim=5)
    # consecutive and nested
    P.case([Call(S1(P, F(inner, try_=True), F(u32(), try_=True), F(u16(), try_=True), F(u8(1), try_=True), F(Opt(u8(1)), try_=True)))], start=1, max=9, lim=4, badb=1)
    P.case([Call(S1(P, F(S1(P, F(u8(1)), F(u16(), try_=True), F(u8(2))), try_=True), F(Vec(S1(P, F(u16(), try_=True), F(u8(1)))), count=2, try_=True), F(u8(1))))], start=1, max=10, lim=4)
    return [Job("try", P), rec_job("list", "ptr", variants=1)] + rands("C14", dirs=over(DALL, **{"try": .6}), badb=1, slim=.2, quick=70)

# ------------------------------------------------------------------ C15
def c15():
    P = Prog(1501); tg = itertools.count(901)
    ts = [u8(1), u16(), Spy(1), Vec(u8(3)), Opt(u16()), NStr(cv=[[0x41], [0]]), Tup(u8(1), u16()), Arr(u16(), 2), Box(u8(4)), Unit(), pr("u64"), pr("char")]
    dirsets = [dict(), dict(magic=Magic("u8", 0x44)), dict(rp=True, pb=lit(3)), dict(sb=Seek("S", lit(50)), pst=lit(9)), dict(pa=lit(2), aa=lit(4)), dict(ab=lit(16)), dict(e=BIG, offset=lit(2)), dict(temp=True), dict(asserts=[A(eq(lit(1), 1))]), dict(try_=True), dict(dn="deref_now")]
    for t in ts:
        for d in dirsets:
            if d.get("e") and isinstance(t, Unit): continue
            c = dict(count=2) if isinstance(t, Vec) else {}
            d = dict(d); tr = d.get("try_")
            P.case([Call(S1(P, F(u8(0, 1)), F(t, cond=eq(fld(1), 1), **c, **d), F(u8(2)))), Call(u8(7))], start=1, max=12, lim=4, slim=9)
            if isinstance(t, Prim) and not tr:
                P.case([Call(S1(P, F(u8(0, 1)), F(t, cond=eq(fld(1), 1), alt=tick(next(tg) % 90 + 900, add(fld(1), 6)), **d), F(u8(2), cond=ne(fld(2), 6), alt=lit(8)))), Call(u8(7))], start=1, max=14, lim=4)
            if not d.get("try_") and not d.get("magic") and not d.get("e") and not d.get("dn"):
                P.case([Call(S1(P, F(u8(0, 1)), F(t, default="default", **d), F(t, default="ignore", **d), F(u8(2)))), Call(u8(7))], start=1, max=12, lim=4, slim=9)
                if isinstance(t, Prim):
                    P.case([Call(S1(P, F(u8(0, 1)), F(t, calc=tick(next(tg) % 90 + 900, add(fld(1), 6)), **d), F(u8(2)))), Call(u8(7))], start=1, max=12, lim=4, slim=9)
    Q = Prog(1502)
    # conditions over everything earlier: fields, lengths, imports, calculated and temporary values
    conds = [eq(fld(1), 1), ne(fld(2), 3), lt(ln(3), 2), eq(fld(4), 4), eq(imp(1), 2), and_(eq(fld(1), 1), eq(imp(2), 5)), or_(eq(fld(2), 3), lt(imp(1), imp(2))), not_(eq(fld(4), fld(1))), le(add(fld(1), fld(2)), imp(2))]
    for i, c in enumerate(conds):
        for tp in (False, True):
            t = Q.struct(F(u8(1, 2)), F(u8(3, 4), temp=tp), F(NStr(cv=[[0x41], [0]]), temp=tp), F(u8(1), calc=add(fld(1), 3), temp=tp), F(Spy(2), cond=c), F(u16(), cond=not_(c), alt=add(fld(2), 1)), F(Vec(u8(1)), count=fld(1), cond=c), F(u8(9)), nimp=2, tuple_=i % 2 == 0, asserts=[A(ne(fld(6), 4))])
            for a in ([2, 5], [7, 6]):
                Q.case([Call(t, a=a)], start=1, max=16, lim=5, eofb=int(a[0] == 2))
    for k in (dict(cond=eq(fld(1), 1)), dict(cond=eq(fld(1), 1), try_=True)):
        for pwk in (PW("count", u8(2), c=fld(1)), PW("until", u8(0, 1), c=eq(it, 0)), PW("rb", u8(3)), PW("cust", u8(4), n=55), PW("ueof", u16())):
            Q.case([Call(S1(Q, F(u8(0, 1)), F(pw=pwk, count=2, **k), F(u8(9)))), Call(u8(7))], start=1, max=8)
        Q.case([Call(S1(Q, F(u8(0, 1)), F(map=Map(u8(3, 4), Prim("u16"), add(it, 1), c=eq(it, 3), er=it, tag=811), cond=eq(fld(1), 1)), F(u8(9)))), Call(u8(7))], start=1, max=8)
    inner = Q.struct(F(Spy(5)), F(u8(0, 1), temp=True), F(Opt(u8(2)), cond=eq(fld(2), 1)), F(u8(1), calc=add(fld(2), imp(1))), nimp=1)
    Q.case([Call(S1(Q, F(u8(0, 1), temp=True), F(inner, args=[fld(1)]), F(Vec(inner), count=fld(1), args=[lit(7)]), F(u8(2))))], start=1, max=14)
    Q.case([Call(Q.enum(Body([F(u8(0, 1), temp=True), F(u16(), cond=eq(fld(1), 0)), F(u8(1, 2), asserts=[A(eq(fld(3), fld(1)))])]), Body([F(u8(0, 1)), F(u8(3), temp=True), F(u8(2), calc=add(fld(2), 1))], tuple_=True)))], start=1, max=8)
    Q.case([Call(S1(Q, F(Opt(u8(1)), calc=lit(4)), F(u8(1), calc=lit(4), temp=True), F(u16(), calc=add(fld(2), 1)), F(pr("i64"), calc=sub(lit(0), fld(2))), F(pr("u128"), calc=fld(3))))], start=9, max=1)
    return [Job("cond", P), Job("expr", Q)] + rands("C15", dirs=over(DALL, calc=.2, default=.12, temp=.3, if_=.5) | {"if": .5}, quick=80, slim=.1)

# ------------------------------------------------------------------ C16
def c16():
    P = Prog(1601)
    srcs = [lambda: u16(7, 9), lambda: Spy(1, 0, [[7], [9]]), lambda: pr("u32", 7, 9), lambda: pr("i64", 7, 9), lambda: Box(u16(7, 9)), lambda: Opt(u8(7, 9)), lambda: Pos(u16(7, 9))]
    fd = [dict(), dict(e=BIG), dict(e=LITTLE), dict(offset=lit(3)), dict(count=2), dict(rp=True), dict(pb=lit(2), ab=lit(4)), dict(pst=lit(9), pa=lit(1)), dict(magic=Magic("u8", 0x51)), dict(try_=True), dict(temp=True), dict(sb=Seek("S", lit(1)))]
    for mk in srcs:
        for d in fd:
            for kind in (dict(), dict(c=eq(it, 9), er=add(it, 100)), dict(c=eq(it, 9), er=it, io=True)):
                P.case([Call(S1(P, F(u8(1)), F(map=Map(mk(), Prim("u32"), add(it, 1), tag=801, **kind), **d), F(u8(3), asserts=[A(tick(777, ne(fld(2), 10)))])), off=1), Call(u8(3))], start=2, max=16, lim=4, badb=int(not d))
    for n in (1, 2, 3):
        for d in (dict(), dict(e=BIG, count=2, offset=lit(4)), dict(args_tuple=True)):
            P.case([Call(P.struct(F(u8(1)), F(map=Map(Spy(2, n), Prim("u8"), it, tag=802), args=[imp(1), fld(1), lit(3)][:n], **d), F(map=Map(Spy(3, n), Prim("u8"), it, c=eq(it, 5), er=it), args=[lit(9)] * n, **d), F(u8(3)), nimp=1), a=[4], off=2, cnt=1)], start=1, max=9)
    Q = Prog(1602)
    # whole types
    mags = [None, Magic("u16", 0x0102), Magic("bytes", b"AB")]
    for mk in srcs + [lambda: S1(Q, F(u16(7, 9)), F(Spy(4))), lambda: Q.enum(Body([F(u16(7))], magic=Magic("u8", 1)), Body([F(u8(2))])), lambda: NStr(cv=[[0x41], [0]]), lambda: Vec(u16(7))]:
        numeric = mk in srcs
        for mg, e in zip(mags, (None, BIG, LITTLE)):
            for kind in (dict(), dict(c=eq(it, 9), er=add(it, 100)), dict(c=eq(it, 9), er=it, io=True)):
                if not numeric and kind: continue
                for asen in (False, True):
                    t = Q.mapped(Map(mk(), Prim("u32"), add(it, 1) if numeric else lit(5), tag=803, **kind), magic=mg, e=e, asenum=asen)
                    for ce in "BL":
                        Q.case([Call(t, e=ce, cnt=2, off=2), Call(u8(3))], start=1, max=10, lim=4)
                    Q.case([Call(S1(Q, F(u8(1)), F(t, count=2), F(Vec(Opt(t)) if not isinstance(mk(), Vec) else u8(4), count=1), F(t, try_=True, e=BIG, count=1), F(u8(3))))], start=1, max=24, lim=3)
    for mk in srcs:
        for kind in (dict(), dict(c=eq(it, 9), er=it), dict(c=eq(it, 9), er=it, io=True)):
            t = Q.mapped(Map(mk(), Prim("u32"), add(it, 1), bare=True, **kind), asenum=bool(kind))
            Q.case([Call(t, e="B"), Call(S1(Q, F(t), F(map=Map(mk(), Prim("u32"), add(it, 1), bare=True, **kind)), F(u8(3))), e="B")], start=1, max=24, lim=2)
    for n in (1, 2, 3):
        for it_ in (False, True):
            t = Q.mapped(Map(Spy(5, n), Prim("u8"), add(it, 1), tag=804), nimp=n, import_tuple=it_, pre=[A(ne(imp(1), 9))], magic=Magic("u8", 0x51)) if n else None
            Q.case([Call(t, a=[a, 2, 3][:n], e="B", off=3) for a in (1, 9)], start=1, max=8)
            Q.case([Call(S1(Q, F(u8(1)), F(Vec(t), count=2, args=[fld(1), lit(6), lit(7)][:n])))], start=1, max=8)
    # custom parsers
    for nargs in (0, 1, 2, 3):
        for d in fd:
            d = dict(d)
            for elt in (u16(7, 9), S1(Q, F(Spy(6)), F(u8(1, 2), asserts=[A(eq(fld(2), 1), "err", x=fld(2))]))):
                Q.case([Call(Q.struct(F(u8(1)), F(pw=PW("cust", elt, n=333), args=[imp(1), fld(1), lit(3)][:nargs] if nargs else None, args_tuple=nargs == 2, **d), F(u8(3)), nimp=1), a=[4], off=2, cnt=1), Call(u8(3))], start=2, max=14, lim=3, badb=int(nargs == 0))
    for b in range(2):
        Q.case([Call(Q.enum(Body([F(pw=PW("cust", u16(7, 9), n=334), e=BIG), F(u8(1, 2), asserts=[A(eq(fld(2), 1))])]), Body([F(pw=PW("cust", u8(1), n=335))], tuple_=True)), e="BL"[b]), Call(u8(3))], start=1, max=8)
    Q.case([Call(S1(Q, F(pw=PW("cust", u16(7), n=336), cond=eq(lit(0), 1)), F(pw=PW("cust", u16(7), n=337), try_=True), F(map=Map(u16(7), Prim("u8"), it, tag=805), cond=eq(lit(0), 1)), F(u8(3))))], start=1, max=6, badb=1)
    return [Job("field", P), Job("type", Q)] + rands("C16", dirs=over(DALL, map=.5, pw=.25, offset=.2, xcount=.15), tops=over(TALL, mapped=10), pws=["cust"], quick=80, slim=0)

# ------------------------------------------------------------------ C17
def c17():
    P = Prog(1701)
    def observer(n, it_, depth=2):
        """a type with n imports whose every read is observed"""
        x = [imp(i + 1) for i in range(n)]
        f = [F(Spy(60 + n, n), args=x if n else None, araw=it_ and n > 0)]
        if n: f += [F(Vec(Spy(70 + n, 2)), count=mod(imp(1), 3), args=[imp(n), imp(1)]), F(u8(1), calc=imp(n), asserts=[A(tick(780 + n, ne(imp(1), 11)))]), F(Spy(75), cond=lt(imp(1), 5))]
        f += [F(u16(), offset=lit(4)), F(Spy(76))]
        if depth: f += [F(observer(n, not it_, depth - 1), args=x if n and not (it_ and n) else None, araw=bool(it_ and n))]
        return P.struct(*f, nimp=n, import_tuple=it_ and n > 0, pre=[A(tick(790 + n, ne(imp(n), 12)))] if n else [])
    for n in (0, 1, 2, 3):
        for it_ in (False, True):
            t = observer(n, it_)
            av = [[1, 2, 3], [4, 5, 6], [7, 8, 9], [11, 1, 1], [1, 12, 12], [12, 1, 1]]
            for a in av: P.case([Call(t, a=a[:n], e="BL"[a[0] % 2], off=2, cnt=1)], max=60, eofb=0, lim=2)
            P.case([Call(t, a=[4, 5, 6][:n]), Call(t, a=[1, 7, 7][:n])], start=1, max=60, lim=0)
            # through containers; arguments computed from earlier fields and imports
            small = observer(n, it_, 0)
            x = [add(fld(1), 1), imp(1), lit(3)][:n] or None
            for tup in (False, True):
                o = P.struct(F(u8(2, 4)), F(small, args=x, args_tuple=tup), F(Vec(small), count=2, args=x, args_tuple=tup), F(Arr(Spy(80 + n, n), 2), args=x, args_tuple=tup), F(Opt(small), args=x), F(Box(small), args=x, args_tuple=tup), F(Pos(small), args=x),
                             F(Ptr(u8(0), small), args=x, args_tuple=tup), F(Ptr(u8(0), Vec(small)), count=1, args=x, dn="deref_now"), F(Vec(Ptr(u8(0), Spy(90 + n, n))), count=2, args=x), F(u16()), F(Spy(99)), nimp=1)
                P.case([Call(o, a=[6])], start=0, max=120, eofb=0, lim=1)
            P.case([Call(P.struct(F(u8(2)), F(pw=PW("count", small, c=lit(2)), args=x), F(pw=PW("until", Spy(81, n), c=eq(lit(1), 1)), args=x), F(pw=PW("sep", small, Spy(82)), count=2, args=x), F(small, args=x, try_=True), F(map=Map(Spy(83, n), Prim("u8"), it), args=x),
                                  F(pw=PW("roap", small), args=x), F(pw=PW("ptrparse", Ptr(u8(0), small)), args=x), F(pw=PW("ueof", small), args=x), nimp=1), a=[6])], start=0, max=50, lim=1, eofb=0)
            P.case([Call(P.enum(Body([F(u8(2)), F(small, args=x), F(u8(1, 2), asserts=[A(eq(fld(3), imp(1)))])]), Body([F(u8(3)), F(Spy(84, n), args=x)], tuple_=True), nimp=1, pre=[A(ne(imp(1), 9))]), a=[a]) for a in (1, 9, 3)], start=0, max=50, lim=3, eofb=0)
    Q = Prog(1702)
    # count / offset / byte order: to that field's value and what it contains, and nobody else
    leaf = lambda i: Spy(100 + i)
    ins = S1(Q, F(leaf(1)), F(leaf(2), e=BIG), F(leaf(3), count=7), F(leaf(4), offset=lit(9)), F(leaf(5)))
    ien = Q.enum(Body([F(leaf(6))], magic=Magic("u8", 0x77)), Body([F(leaf(7)), F(ins)], e=BIG))
    cont = [lambda: leaf(10), lambda: ins, lambda: ien, lambda: Vec(leaf(11)), lambda: Arr(leaf(12), 2), lambda: Tup(leaf(13), leaf(14)), lambda: Opt(ins), lambda: Box(leaf(15)), lambda: Pos(ins), lambda: Vec(ins), lambda: Ptr(u8(0), ins), lambda: Ptr(u8(0), Vec(leaf(16))),
            lambda: Vec(Opt(Tup(leaf(17), ins))), lambda: Arr(Vec(leaf(18)), 2)]
    for mk in cont:
        for opts in itertools.product((None, 2), (None, 3), (None, BIG), (None, "deref_now")):
            c, o, e, dn = opts
            if "Vec" in mk().rust() and c is None: continue
            t = S1(Q, F(leaf(50)), F(mk(), count=c, offset=o if o is None else lit(o), e=e, dn=dn), F(leaf(51)), F(u8(4)), F(leaf(52)))
            Q.case([Call(t, cnt=5, off=1), Call(leaf(53), e="B", cnt=8, off=8)], start=0, max=70, eofb=0, lim=1)
    for k in ("count", "until", "untilx", "ueof", "sep", "sept", "cust", "roap", "ptrparse", "rb"):
        for opts in itertools.product((None, 2), (None, 3), (None, BIG)):
            c, o, e = opts
            if k in ("sep", "sept", "rb") and c is None: continue
            for x in (leaf(60), ins):
                pwk = PW(k, Ptr(u8(0), x) if k == "ptrparse" else u8(3) if k == "rb" else x, leaf(61) if k in ("sep", "sept") else None, c=lit(2) if k == "count" else eq(lit(1), 1), n=400)
                fs = [F(leaf(50)), F(pw=pwk, count=c, offset=o if o is None else lit(o), e=e), F(leaf(51))]
                Q.case([Call(S1(Q, *(fs[:2] if k == "ueof" else fs)), cnt=5, off=1)], max=60, eofb=0, lim=1)
                if k == "rb": break
    for kk in (dict(calc=lit(1)), dict(default="default")):
        Q.case([Call(S1(Q, F(leaf(50)), F(u8(1), **kk), F(leaf(51), count=2), F(u8(3), cond=eq(lit(0), 1), offset=lit(6), e=BIG), F(leaf(52)), F(leaf(53), try_=True, offset=lit(5), e=BIG, count=1), F(leaf(54))), cnt=5, off=1)], max=9)
    return [Job("args", P, feats=("cg",), workers=1), Job("opts", Q, feats=("default", "cg")), rec_job("args", "ptr")] + hygiene() + \
        rands("C17", kinds=over(KALL, spy=9), dirs=over(DALL, offset=.3, xcount=.3, endian=.35, sb=0, pb=0, ab=0, pst=0, pa=0, aa=0), tops=dict(TALL, **{"import": .8}), quick=70, slim=0, depth=2)

def hygiene(pool=None, rounds=None):
    """the names a user would give: none of them may be captured by what the macros expand to"""
    out = []; size = len(pool or HOSTILE)
    for j in range(rounds or (4 if THOROUGH else 1)):
        P = rand_prog(1750 + j + SEED * 10, 60 if pool is None else 30, over(KALL, spy=2), over(DALL, assert_=.35, calc=.12, pst=.2, aa=.2, ab=.2, map=.3, **{"if": .3}), over(TALL, **{"import": .7}), nf=(2, 5), hostile=pool or True)
        a = lambda x: [A(ne(fld(x), 99)), A(ne(fld(1), 98), "fmt", "bad", x=fld(x)), A(ne(fld(1), 97), "err", x=fld(1))]
        for k in range(0, size, 14):
            P.nbase = k + j
            fs = [F(u8(1, 2)), F(u8(3, 99), asserts=a(2))]
            fs += [F(u8(2), pb=fld(1), pa=sub(fld(2), fld(2)), asserts=a(3)), F(u8(2), pst=add(fld(1), 1), aa=add(fld(3), 1), ab=fld(1)), F(Vec(u8(1)), count=fld(1)), F(u8(1), calc=add(fld(1), fld(2))),
                   F(u16(), cond=eq(fld(1), 1), alt=fld(3), e=is_big(eq(fld(1), 1))), F(map=Map(u8(3), Prim("u8"), add(it, fld(2)))), F(map=Map(u8(3), Prim("u8"), add(it, fld(1)), c=eq(fld(1), 1), er=fld(4))),
                   F(Ptr(u8(0), u8(7)), offset=fld(1)), F(Spy(9, 2), args=[fld(1), imp(1)]), F(u8(1), sb=Seek("S", fld(1)), rp=True), F(u8(5), temp=True), F(u8(1), calc=add(fld(13), imp(2)))]
            P.case(Call(P.struct(*fs, nimp=2, pre=[A(ne(imp(1), 96))], asserts=[A(ne(fld(14), 95))]), a=[3, 4]), max=30, eofb=0, lim=2)
            P.case(Call(P.enum(Body(fs[:6], asserts=[A(ne(fld(6), 4))]), Body([F(u8(1, 2)), F(u8(1), calc=add(fld(1), imp(1)))], tuple_=True, pre=[A(ne(imp(2), 9))]), nimp=2), a=[3, 4]), max=30, eofb=0, lim=2)
        for k in range(0, size, 2):
            P.nbase = k
            inn = P.struct(F(u8(1, 2)), F(u8(1), calc=imp(1)), nimp=2)
            P.case(Call(P.mapped(Map(inn, Prim("u8"), add(imp(1), imp(2)), c=eq(imp(1), 3), er=imp(2), io=k % 4 == 0), nimp=2), a=[3 + k % 3, 4]), max=4, eofb=0)
            P.case(Call(P.mapped(Map(inn, Prim("u8"), add(imp(1), imp(2)), bare=k % 4 == 2), nimp=2, magic=Magic("u8", 9), pre=[A(ne(imp(2), 5))]), a=[3, 4]), max=4, eofb=0)
        out.append(Job(("names%d" if pool is None else "own%d") % j, P, feats=("default",) if pool is None else ("default", "dbg")))
    return out

# ------------------------------------------------------------------ C26
def c26():
    """one meaning, many ways to declare it"""
    low, up = harvest.harvest()
    low = [x for x in low if not re.match(r"self_\d", x)]
    out = hygiene() + hygiene((low + [x for x in HOSTILE if x not in low])[:max(len(low), 30)], 1)
    # expressions of the weakest binding, bare in every place where one can stand
    P = Prog(2690 + SEED, spell=True); o = lambda a, b: or_(a, b)
    for e in "BL":
        for n in (1, 2, 3):         # whether there are outer parentheses depends on the text
            i1, i2, i3 = imp(1), imp(2), imp(3)
            pres = [A(o(eq(i1, n), eq(i2, 1))), A(eq(i3, 1))]; pres2 = [A(eq(i3, 1)), A(o(eq(i1, n), eq(i2, 1)))]
            kinds = [lambda p: P.uenum([dict(nm="A", magic=Magic("u8", 1), pre=p), dict(nm="B", magic=Magic("u8", 2), pre=p[:1]), dict(nm="C", magic=Magic("u8", 1))], nimp=3),
                     lambda p: P.uenum([dict(nm="A", disc=1, explicit=True, pre=p), dict(nm="B", disc=2, explicit=True, pre=p[:1]), dict(nm="C", disc=3, explicit=True, pre=p[1:])], repr_="u8", nimp=3),
                     lambda p: P.uenum([dict(nm="A", magic=Magic("bytes", b"ab"), pre=p), dict(nm="C", magic=Magic("bytes", b"cd"), pre=p[:1])], nimp=3),
                     lambda p: P.enum(Body([F(u8(1, 2))], pre=p), Body([F(u16())], magic=Magic("u8", 1), pre=p[:1]), Body([], unit=True, pre=p[1:]), nimp=3),
                     lambda p: P.struct(F(u8(1, 2), asserts=[A(o(eq(fld(1), 1), eq(i1, n))), A(o(eq(i2, 1), eq(fld(1), 2)), "fmt", "no", x=fld(1))]), F(u16(), cond=o(eq(i1, n), eq(fld(1), 2)), alt=add(fld(1), n), e=is_big(o(eq(i2, 1), eq(fld(1), 1)))), pre=p, asserts=p, nimp=3)]
            for k in kinds:
                for p in (pres, pres2):
                    for a in itertools.product((0, n), (0, 1), (0, 1)): P.case([Call(k(p), a=list(a), e=e)], max=6, lim=2, eofb=0)
    for e in "BL":
        for n in range(3):
            x, y = add(fld(1), n), fld(2)
            for fs in ([F(Vec(u8(3)), count=add(x, y)), F(u8(4))], [F(u8(3), pb=add(x, y), pa=sub(x, y)), F(u8(4))], [F(u8(3), ab=add(x, y), aa=add(x, 1)), F(u8(4))], [F(u8(3), pst=add(x, y)), F(u8(4))], [F(u8(1), calc=add(x, y)), F(u8(4))],
                       [F(Ptr(u8(0), u8(7)), offset=add(x, y)), F(Ptr(u8(0), u8(7)), offset_after=sub(x, y))], [F(u8(3), cond=le(add(x, y), 4), alt=sub(x, y)), F(u16(), e=is_big(le(sub(x, y), 1)))], [F(map=Map(u8(3), Prim("u8"), sub(add(x, it), y)))],
                       [F(u8(3), asserts=[A(lt(sub(x, y), 2), "err", x=add(x, y))]), F(u8(4))], [F(Spy(3, 1), args=[add(x, y)]), F(Spy(4, 2), args=[sub(x, y), add(y, 1)])], [F(u8(3), sb=Seek("S", add(x, y)), rp=True), F(u8(3), sb=Seek("C", sub(x, y)))]):
                P.case([Call(P.struct(F(u8(3, 2)), F(u8(1, 2)), *fs, e=None), e=e)], max=24, lim=3, eofb=1)
    out.append(Job("bare", P, feats=("default", "dbg")))
    for j in range(8 if THOROUGH else 2):
        P = rand_prog(2600 + j + SEED * 100, 70, KALL, over(DALL, temp=.05, calc=.03, if_=.08, map=.1, pw=.1), TALL, decl=True, spell=j % 2 == 1, badb=0, tnames=up if j == 1 else None)
        out.append(Job("decl%d" % j, P, feats=("cg", "dbg") if j % 2 else ("default", "dbg"), variants=1, envs=[None]))
    return out

# ------------------------------------------------------------------ C18
def schedules(rnd, n):
    """ways in which the same bytes can be delivered"""
    ps = list(range(n + 1))
    out = [([1], []), ([2], []), ([1, 3, 2], []), ([], ps), ([1], sorted(ps + ps[::2]))]
    out.append(([rnd.randint(1, 4) for _ in range(5)], [rnd.choice(ps) for _ in range(rnd.randint(1, 4))]))
    out.append(([], [rnd.choice(ps)] * rnd.randint(1, 3)))
    return out
def c18():
    P = Prog(1801)
    for nm, mk in parts(P):
        P.case([Call(S1(P, F(u8(1)), place(mk(), 2), F(u16()))), Call(u16(7))], start=1, max=18, lim=3, badb=1, eofb=1)
    for n in PRIMS: P.case([Call(S1(P, F(Prim(n, default_cv(n)[:1])), F(u8(3))), e="B")], start=1, max=20, badb=1)
    for k, v in MAGICS: P.case([Call(S1(P, F(u8(1)), magic=Magic(k, v)))], start=1, max=20, badb=1, lim=2)
    P.case([Call(S1(P, F(pw=PW("rb", u8(3)), count=40), F(pw=PW("until", u16(1, 0), c=eq(it, 0)))))], start=1, max=50, badb=1, lim=3)
    P.case([Call(S1(P, F(Vec(u8(3)), count=30), F(Arr(u32(), 5), pa=lit(3)), F(u16(), ab=lit(8))))], start=1, max=80, badb=1, lim=3)
    P.case([Call(S1(P, F(NStr(cv=[[0x41], [0]])), F(WStr(cv=[[0, 0x41], [0, 0]])), F(pw=PW("sept", u16(3), u32()), count=2), F(pw=PW("ueof", S1(P, F(u16()), F(pr("u64")))))))], start=1, max=50, badb=1, lim=5)
    return [Job("parts", P, variants=1, schedules=schedules, feats=("default", "nostd"))] + \
        rands("C18", badb=1, slim=.1, quick=50, variants=1, schedules=schedules, feats=("default",) if not THOROUGH else ("default", "nostd", "dbg"))

# ------------------------------------------------------------------ C19
ALLF = ("default", "cg", "dbg", "nostd", "nostdcg")
def c19():
    P = Prog(1901)
    for nm, mk in parts(P):
        P.case([Call(S1(P, F(u8(1)), place(mk(), 2), F(u16()))), Call(u16(7))], start=1, max=18, lim=3, badb=1, eofb=1)
        P.case([Call(P.enum(Body([F(u8(1)), place(mk(), 2)]), Body([F(u8(1), asserts=[A(eq(fld(1), 3), "err", x=4)])], magic=Magic("u16", 0x3132)), Body([], unit=True, magic=Magic("bytes", b"AB")), errmode=["", "return_unexpected_error"][len(nm) % 2]))], start=1, max=18, lim=3, badb=1)
    for n in PRIMS: P.case([Call(S1(P, F(Prim(n, default_cv(n))), F(Arr(Prim(n, default_cv(n)[:1]), 2)), F(Vec(Prim(n, default_cv(n)[:1])), count=2)), api=["le", "be"][len(n) % 2])], start=1, max=90, badb=1)
    for n in range(33): P.case([Call(Arr(Tup(u8(1), u16()), n))], max=100, eofb=int(n < 4))
    for nz in (False, True): P.case([Call(S1(P, F(NStr(cv=[[0x41], [0]], nz=nz)), F(WStr(cv=[[0, 0x41], [0, 0]], nz=nz)), F(WStr(nz=nz), e=BIG), tuple_=nz))], start=1, max=12, badb=1, lim=5)
    for t in (P.struct(unit=True, magic=Magic("u32", 0x01020304)), P.uenum([dict(nm="A", disc=1, explicit=True)], repr_="u16", magic=Magic("u8", 3)), P.uenum([dict(nm="A", magic=Magic("bytes", b"ABC"))]), P.mapped(Map(u16(1, 2), u8(), add(it, 1), c=eq(it, 1), er=it, io=True), magic=Magic("u8", 4)),
              P.struct(F(u8(1)), pre=[A(eq(lit(0), 1))]), P.struct(F(u8(1)), F(Spy(3), cond=eq(fld(1), 1)), F(Opt(Spy(4)), try_=True), F(Spy(5), temp=True), asserts=[A(eq(fld(1), 1), "msg", "m")]),
              P.struct(F(Ptr(u8(1, 40), S1(P, F(Spy(6)), F(Ptr(u8(1), Vec(Spy(7))), count=2)))), F(Ptr(u16(1), Spy(8)), dn="deref_now"), F(Vec(Ptr(u8(0), Arr(Spy(9), 2))), count=2))):
        P.case([Call(t), Call(t, e="B"), Call(u8(1))], start=1, max=30, badb=1, lim=4)
    out = [Job("parts", P, feats=ALLF, envs=[None, dict(BR_TEMPLATE="1")]), rec_job("tree", "expr", "args", "ptr", feats=ALLF, envs=[None, dict(BR_TEMPLATE="1")], variants=1)]
    return out + rands("C19", feats=ALLF, envs=[None, dict(BR_TEMPLATE="1")], badb=1, quick=60, slim=.1, apis=("options", "roap", "be", "type"))

# ------------------------------------------------------------------ C21
def c21():
    P = Prog(2101)
    st0 = lambda: S1(P, F(u16(0x0102)), F(Ptr(u8(1), u16())), F(Spy(3)), magic=Magic("u16", 0x4142))
    tys = [Prim(n, default_cv(n)[:1]) for n in PRIMS] + [Spy(1), Unit(), Arr(u16(), 3), Tup(u8(1), u16(), Spy(2)), Opt(u16()), Box(u16()), Pos(u16()), NStr(cv=[[0x41], [0]]), WStr(cv=[[0, 0x41], [0, 0]]), st0(), Ptr(u16(0, 0x100), Spy(4)), Ptr(u8(0), Tup(Spy(5), u16())), Arr(Ptr(u8(0), Spy(5)), 2),
          Tup(Ptr(u8(0), u16()), Spy(6)), Opt(Ptr(u8(0), Spy(5))), Box(Ptr(u8(0), Spy(5))), Pos(Ptr(u8(0), Spy(5))), P.struct(unit=True, magic=Magic("u16", 0x4142)), P.struct(F(u16(0x0102)), e=BIG),
          P.enum(Body([F(u16(1))], magic=Magic("u16", 0x4142)), Body([F(Ptr(u8(0), Spy(7)))])), P.uenum([dict(nm="A", disc=0x102, explicit=True)], repr_="u16"), P.uenum([dict(nm="A", magic=Magic("u16", 0x0102))], e=BIG),
          P.mapped(Map(u16(1, 2), u8(), add(it, 1), c=eq(it, 2), er=it)), P.struct(F(Vec(u16()), count=2), F(Opt(Vec(Spy(8))), count=1)), P.struct(F(u8(1, 2), asserts=[A(eq(fld(1), 1))]), F(NStr(cv=[[0x41], [0]])))]
    apis = ["options", "roap", "read", "type", "be", "le", "ne", "read_args", "type_args", "be_args", "le_args", "ne_args"]
    for t in tys:
        for api in apis:
            if api in ("options", "roap", "type", "type_args"):
                for e in "BL": P.case([Call(t, api=api, e=e), Call(u8(5), api="read")], start=1, max=24, lim=3, badb=int(api == "type"))
                P.case([Call(t, api=api, e="L", native=True)], start=0, max=24, lim=2)
            else: P.case([Call(t, api=api), Call(u8(5))], start=1, max=24, lim=3, badb=int(api in ("be", "le_args")))
        seq = [Call(t, api=a, e="BL"[i % 2]) if a in ("options", "roap", "type", "type_args") else Call(t, api=a) for i, a in enumerate(apis)]
        P.case(seq[:6], start=1, max=70, lim=3); P.case(seq[6:], start=1, max=70, lim=3); P.case(seq[::2], start=0, max=70, lim=2, badb=1); P.case(seq[1::2], start=0, max=70, lim=2, slim=9)
    Q = Prog(2102)
    for n in (1, 2, 3):
        for it_ in (False, True):
            t = Q.struct(F(Spy(1, n), args=[imp(i + 1) for i in range(n)]), F(u16()), F(Ptr(u8(0), Spy(2, n)), args=[imp(n)] * n), nimp=n, import_tuple=it_, pre=[A(ne(imp(1), 9))])
            for x in (t, Spy(3, n), Arr(t, 2), Opt(Spy(4, n)), Box(t), Pos(Spy(5, n)), Ptr(u8(0), t), Ptr(u8(0), Spy(6, n)), Q.mapped(Map(Spy(7, n), Prim("u8"), it), nimp=n, import_tuple=it_), Q.enum(Body([F(Spy(8, n), args=[imp(i + 1) for i in range(n)]), F(u8(1), asserts=[A(eq(imp(1), 2))])]), Body([F(Spy(9))]), nimp=n)):
                for api in ("options", "roap", "read_args", "type_args", "be_args", "le_args", "ne_args"):
                    Q.case([Call(x, api=api, e="B", a=a[:n]) if api in ("options", "roap", "type_args") else Call(x, api=api, a=a[:n]) for a in ([1, 2, 3], [9, 5, 6])], start=1, max=40, lim=1, eofb=int(api == "be_args"))
    R = []
    for j in range(8 if THOROUGH else 1):
        T = Prog(2110 + j + SEED * 100); rnd = random.Random(SEED * 77 + j)
        for i in range(40):
            g = Gen(T, rnd, kinds=KALL, dirs=over(DALL, offset=0), tops=TALL); t = g.definition(2)
            a = [rnd.choice([1, 2, 7]) for _ in range(t.nargs)]
            cs = []
            for _ in range(3):
                api = rnd.choice(apis)
                if t.nargs and api in ("read", "type", "be", "le", "ne"): api += "_args"
                cs.append(Call(t, api=api, a=a, **(dict(e=rnd.choice("BL")) if api in ("options", "roap", "type", "type_args") else {})))
            T.case(cs, start=rnd.choice([0, 1, 3]), max=40, badb=rnd.randrange(2), lim=5)
        R.append(Job("r%d" % j, T))
    return [Job("apis", P, feats=("cg",)), Job("args", Q, feats=("cg",))] + R

# ------------------------------------------------------------------ C22
def c22():
    """what is accepted means the same however it is written"""
    P = Prog(2201 + SEED, spell=True)
    for _ in range(3):
        k = [dict(count=2), dict(offset=lit(3)), dict(e=is_big(eq(fld(1), 1))), dict(e=is_little(eq(fld(1), 1))), dict(e=BIG), dict(args=[fld(1), lit(3)]), dict(args=[fld(1), lit(3)], args_tuple=True), dict(cond=eq(fld(1), 1)), dict(cond=eq(fld(1), 1), alt=lit(9)),
             dict(sb=Seek("C", 1)), dict(pb=lit(1)), dict(pa=lit(1)), dict(ab=lit(4)), dict(aa=lit(4)), dict(pst=lit(4)), dict(rp=True), dict(temp=True), dict(calc=lit(4)), dict(default="default"), dict(default="ignore"), dict(asserts=[A(ne(fld(2), 0x1234))]), dict(magic=Magic("bytes", b"ab")), dict(magic=Magic("char", "x")), dict(magic=Magic("u8", 7))]
        for d in k:
            t = Spy(1, 2) if "args" in d else Vec(u8(1)) if "count" in d else u16()
            P.case(Call(S1(P, F(u8(1, 2)), F(t, **d), F(Spy(2)), F(Ptr(u8(0), Spy(3)), offset_after=lit(3)), F(Ptr(u8(0), Spy(4)), offset=lit(1), dn=P.rnd.choice(["deref_now", "postprocess_now"]))), e="L"), start=1, max=12, lim=4)
        for d in (dict(map=Map(u16(), Prim("u8"), add(it, 1))), dict(map=Map(u16(), Prim("u8"), add(it, 1), c=eq(it, 0x1234), er=it)), dict(pw=PW("until", Spy(5), c=eq(lit(1), 1))), dict(pw=PW("cust", u8(1), n=3)), dict(ty=u16(), try_=True)):
            P.case(Call(S1(P, F(u8(1, 2)), F(**d), F(Spy(2)))), start=1, max=12, lim=4)
        for it_ in (False, True):
            for x in (dict(e=BIG), dict(magic=Magic("u16", 0x1234)), dict(pre=[A(ne(imp(1), 1))]), dict(asserts=[A(ne(fld(1), 5))])):
                P.case([Call(S1(P, F(u8(5, 1)), F(Spy(6)), nimp=1, import_tuple=it_, **x), a=[a]) for a in (1, 2)], max=8, lim=4)
                P.case([Call(P.enum(Body([F(u8(5, 1)), F(Spy(6), args=None)], magic=Magic("u8", 1)), Body([F(u8(5)), F(Spy(7))], e=BIG), nimp=1, import_tuple=it_, errmode=P.rnd.choice(["", "return_all_errors", "return_unexpected_error"]), **x), a=[a]) for a in (1, 2)], max=8, lim=4)
        for rp in ("u8", "i16", "u32"):
            P.case(Call(P.uenum([dict(nm="U0", disc=3, explicit=True), dict(nm="U1", disc=4), dict(nm="U2", disc=9, explicit=True, pre=[A(eq(lit(1), 1))])], repr_=rp, e=P.rnd.choice([None, BIG, LITTLE]))), max=4)
        P.case(Call(P.uenum([dict(nm="U0", magic=Magic("u16", 0x1234)), dict(nm="U1", magic=Magic("u16", 0x5678), pre=[A(eq(lit(1), 1))])], e=BIG)), max=4)
        P.case(Call(P.mapped(Map(u16(7, 9), u8(), add(it, 1), c=eq(it, 9), er=it), e=BIG, magic=Magic("u8", 4))), max=4)
        P.case(Call(P.mapped(Map(u16(7, 9), u8(), add(it, 1)))), max=4)
    return [Job("spell", P)] + rands("C22", quick=70, spell=True, slim=0, depth=1)

# ------------------------------------------------------------------ C23
def c23():
    P = Prog(2301)
    els = [(nm, mk) for nm, mk in elems(P) if nm not in ("unit",)]
    hostile = {"u8": [200, 255, 0], "u16": [0xFFFF, 0x8000], "u32": [0xFFFFFFFF, 0x80000000, 0x10000, 0x10002], "u64": [(1 << 64) - 1, (1 << 32) + 2, 1 << 63, (1 << 63) - 1, 1 << 40, 1 << 61, 1 << 60], "i16": [0x7FFF], "i32": [0x7FFFFFFF], "i64": [(1 << 63) - 1, 1 << 62]}
    for n, vals in hostile.items():
        w = PRIMS[n][0]
        for ei, (nm, mk) in enumerate(els):
            if THOROUGH or n in ("u64", "u32") or ei % 4 == len(n) % 4:
                P.case([Call(S1(P, F(pr(n, *vals)), F(Vec(mk()), count=fld(1)), F(u8(9))))], start=1, max=w + 7, lim=6, badb=1)
                if nm != "ptr":
                    P.case([Call(S1(P, F(pr(n, *vals)), F(pw=PW("count", mk(), c=fld(1))), F(u8(9))))], start=1, max=w + 7, lim=6)
                    P.case([Call(S1(P, F(pr(n, *vals)), F(pw=PW(["sep", "sept"][ei % 2], mk(), u8(0x2C)), count=fld(1)), F(u8(9))))], start=1, max=w + 7, lim=6)
        P.case([Call(S1(P, F(pr(n, *vals)), F(pw=PW("rb", u8(3)), count=fld(1)), F(u8(9))))], start=1, max=w + 7, badb=1)
        # a count that means nothing to the parser
        P.case([Call(S1(P, F(pr(n, *vals)), F(pw=PW("ueof", u8(3)), count=fld(1))))], start=1, max=w + 4)
        P.case([Call(S1(P, F(pr(n, *vals)), F(pw=PW(["until", "untilx"][w % 2], u8(3, 4), c=eq(it, 4)), count=fld(1)), F(u8(9))))], start=1, max=w + 5)
        P.case([Call(S1(P, F(pr(n, *vals)), F(pw=PW("count", u8(3), c=lit(2)), count=fld(1)), F(NStr(cv=[[0x41], [0]]), count=fld(1)), F(WStr(cv=[[0x41, 0], [0, 0]]), count=fld(1)), F(Opt(u8(9)), count=fld(1)), F(Arr(u8(1), 2), count=fld(1))))], start=1, max=w + 12)
        P.case([Call(S1(P, F(pr(n, *vals)), F(Ptr(pr(n, *vals), Vec(u16())), count=fld(1)), F(u8(9))))], start=1, max=2 * w + 7, lim=6)
        if n[0] == "u" and w < 8:
            for k in ("pb", "pa", "pst", "ab", "aa"):
                P.case([Call(S1(P, F(pr(n, 0, *vals)), F(u8(3), **{k: fld(1)}), F(u8(9)))), Call(u8(1))], start=1, max=w + 7, lim=6)
            P.case([Call(S1(P, F(pr(n, *vals)), F(u8(3), sb=Seek("S", fld(1))), F(u8(9)))), Call(u8(1))], start=1, max=w + 7, lim=6)
            P.case([Call(S1(P, F(pr(n, *vals)), F(u8(3), sb=Seek("C", sub(lit(0), fld(1)))), F(u8(9)))), Call(u8(1))], start=1, max=w + 7, lim=6)
            P.case([Call(S1(P, F(pr(n, *vals)), F(Ptr(pr(n, 0, *vals), u8(1)), offset=fld(1)), F(u8(9)))), Call(u8(1))], start=1, max=2 * w + 7, lim=6)
    for l in (0, 1, 3, 40, 300) + ((3000,) if THOROUGH else ()):
        for t in (NStr(cv=[[0x41]]), WStr(cv=[[0x41, 0]]), NStr(cv=[[0x41]], nz=True), Arr(u8(1), 32)):
            P.case([Call(S1(P, F(u8(1)), F(t)))], max=l, lim=0, eofb=0)
        for k in ("until", "untilx"):
            P.case([Call(S1(P, F(u8(1)), F(pw=PW(k, u16(3), c=eq(lit(0), 1)))))], max=l, lim=0, eofb=0)
        P.case([Call(S1(P, F(u8(1)), F(pw=PW("ueof", u16(3)))))], max=l, lim=0, eofb=0)
    Q = Prog(2302)
    # garbage: everything at its wildest, parsing whatever comes
    for nm, mk in parts(Q):
        Q.case([Call(S1(Q, F(u8(1)), place(mk(), 2), F(u16())))], start=1, max=14, lim=4, badb=1)
    far_positions(Q)
    maxops = lambda l, g: 400 + 60 * len(l)
    jobs = [Job("counts", P, maxops=maxops, variants=1), Job("parts", Q, maxops=maxops, release=True), rec_job("list", "tree", "expr", "ptr", variants=1)] + rands("C23", badb=1, slim=.3, quick=50)
    jobs += [Job("rel", rand_prog(SEED * 31 + 2303, 60 if THOROUGH else 25, over(KALL, ptr=6, vec=6), over(DALL, pb=.2, pst=.2, sb=.15), TALL, badb=1), release=True, maxops=maxops)]
    for j in jobs: j.maxops = maxops; j.maxbig = lambda l, g: 300_000 + 64 * len(l)
    return jobs

# ------------------------------------------------------------------ C24
def c24():
    P = Prog(2401)
    for nm, mk in parts(P):
        P.case([Call(S1(P, F(u8(1)), place(mk(), 2), F(u16()))), Call(u16(7))], start=1, max=18, lim=3, badb=1, eofb=1)
        P.case([Call(P.enum(Body([F(u8(1)), place(mk(), 2)]), Body([F(u8(1), asserts=[A(eq(fld(1), 3), "err", x=4)])], magic=Magic("u16", 0x3132)), Body([], unit=True, magic=Magic("bytes", b"AB")), errmode=["", "return_unexpected_error"][len(nm) % 2]), e="B")], start=1, max=18, lim=3, badb=1)
        P.case([Call(S1(P, F(u8(1)), F(S1(P, place(mk(), 1), F(u8(4)))), F(Opt(S1(P, place(mk(), 1))), try_=True), tuple_=len(nm) % 2 == 1))], start=1, max=20, lim=4, eofb=1)
    for n in PRIMS:
        t = Prim(n, default_cv(n)[:1])
        P.case([Call(S1(P, F(t), F(Arr(t, 2)), F(Vec(t), count=2), F(Tup(t, u8(1)), e=BIG), F(Ptr(u8(3), t)), F(u8(1)))), Call(t, e="B"), Call(Arr(t, 2), api="le")], start=2, max=190, lim=2, eofb=1)
    for k, v in MAGICS: P.case([Call(S1(P, F(u8(1), magic=Magic(k, v)), F(u8(4)), magic=Magic(k, v)), e=e) for e in "BL"], start=1, max=40, badb=1, lim=2)
    # collections of everything, in everything
    P0 = P; P = Prog(2403)
    inner = lambda: P.struct(F(u8(3)), F(Vec(u16()), count=2), F(Arr(u8(1), 2)), F(NStr(cv=[[0x41], [0]])), F(Ptr(u8(1), u16())), magic=Magic("bytes", b"ab"))
    els = [lambda: u16(), inner, lambda: Ptr(u8(3), u16()), lambda: Ptr(u16(3), Arr(u8(2), 2)), lambda: Arr(u16(), 2), lambda: Tup(u8(1), u16()), lambda: Opt(u8(1)), lambda: Box(u16()), lambda: Pos(u16()), lambda: NStr(cv=[[0x41], [0]]), lambda: WStr(cv=[[0, 0x41], [0, 0]]),
           lambda: P.enum(Body([F(u16())], magic=Magic("u8", 1)), Body([F(u8(7, 9), asserts=[A(eq(fld(1), 7))]), F(Arr(u8(1), 2))])), lambda: P.uenum([dict(nm="U0", disc=3, explicit=True)], repr_="u16"), lambda: P.uenum([dict(nm="U0", magic=Magic("bytes", b"abc")), dict(nm="U1", magic=Magic("bytes", b"xyz"))]), lambda: P.mapped(Map(u16(7, 9), u8(), add(it, 1), c=eq(it, 9), er=it), magic=Magic("u8", 4)),
           lambda: P.struct(unit=True, magic=Magic("u16", 0x1234)), lambda: P.struct(F(u8(1)), tuple_=True)]
    for i, el in enumerate(els):
        e = [None, BIG][i % 2]; kw = dict(start=1, max=60, lim=3, eofb=1, badb=int(i % 3 == 0))
        for j, f in enumerate([lambda: F(Vec(el()), count=2, e=e), lambda: F(Arr(el(), 2), e=e), lambda: F(pw=PW("count", el(), c=lit(2)), e=e), lambda: F(pw=PW("until", el(), c=eq(lit(1), 1)), e=e), lambda: F(pw=PW("ueof", el())), lambda: F(pw=PW("sep", el(), u8(0x2C)), count=2), lambda: F(Tup(el(), el()), e=e), lambda: F(Opt(el()), e=e), lambda: F(Ptr(u8(5), el()), e=e, offset=lit(2)), lambda: F(Ptr(u8(5), Tup(el(), u8(1))), dn="deref_now"), lambda: F(Ptr(u8(5), Arr(Ptr(u8(3), el()), 2)))]):
            P.case([Call(S1(P, F(u8(1)), f(), F(u16(), pa=lit(1)), e=LITTLE if j % 2 else None)), Call(u8(1), api="be")], **kw)
        P.case([Call(el(), api=a) for a in ("be", "le", "ne", "read")], **kw)
        P.case([Call(Vec(el()), e="B", cnt=2), Call(el())], **kw)
    Q = Prog(2402)
    # everything that can fail while structs are open
    deep = lambda f: S1(Q, F(u8(1)), F(S1(Q, F(u8(2)), F(S1(Q, f, F(u8(3))), asserts=[A(ne(fld(1), 0xF3))]), asserts=[A(ne(fld(1), 9))])), F(u8(4)), asserts=[A(ne(fld(1), 7), "err", x=3)])
    for f in (F(u16()), F(u8(1), asserts=[A(ne(fld(1), 1))]), F(u8(1), magic=Magic("u16", 0x1234)), F(Ptr(u8(3, 200), u16())), F(Ptr(u8(3, 200), u16()), dn="deref_now"), F(map=Map(u8(1, 2), Prim("u8"), it, c=eq(it, 2), er=it)), F(u8(1), sb=Seek("C", lit(-3))), F(u8(1), pb=lit(60)), F(u8(1), aa=lit(64)), F(u8(1), pst=lit(70)), F(u8(1), rp=True, pa=lit(70)),
              F(Opt(u16(7)), try_=True), F(Opt(Q.struct(F(u8(1)), F(u8(2), asserts=[A(ne(fld(2), 2))]))), try_=True), F(Vec(Q.struct(F(u8(1)), F(u8(2), asserts=[A(ne(fld(2), 2))]))), count=2), F(Q.enum(Body([F(Q.struct(F(u8(1)), F(u16(2), asserts=[A(ne(fld(2), 2))])))]), Body([F(u8(1), asserts=[A(ne(fld(1), 1))])])))):
        for e in "BL": Q.case([Call(deep(f), e=e), Call(u8(1))], start=1, max=40, lim=5, badb=1, slim=12 if e == "B" else -1)
    for it_ in (False, True):
        Q.case([Call(Q.struct(F(u8(1)), F(u16(), args=None), nimp=1, import_tuple=it_, magic=Magic("u8", 7), pre=[A(ne(imp(1), 2), "msg", "no")], e=BIG, asserts=[A(ne(fld(1), 1))]), a=[a]) for a in (1, 2)], start=1, max=20, lim=4, badb=1)
    # counts that no input can satisfy: what is said of a vector is said before its elements are read
    for n in (256, 65535, 65536, 70000, 16777217):
        for el in els[:6]:
            for c in (Call(Vec(el()), e="B", cnt=n), Call(S1(P, F(u8(1)), F(Vec(el()), count=n))), Call(Tup(Vec(el()), u8(1)), cnt=n, api="roap")): P.case([c], start=1, max=9, lim=1, eofb=1, badb=0)
    tk = dict(module="Template", cfg="SPECIFICATION TSpec\nINVARIANTS %s Balanced\nPROPERTIES Once Placed\n")
    js = [Job("parts", P0, feats=("dbg", "all"), **tk), Job("colls", P, feats=("all",), **tk), Job("deep", Q, feats=("dbg",), **tk)] + rands("C24", feats=("dbg",), badb=1, quick=80, slim=.1, apis=("options", "roap", "be", "type"))
    for j in js:
        j.module = tk["module"]; j.cfg = tk["cfg"]; j.envs = [dict(BR_TPL="1")]
        if j.sim: j.cfg = j.cfg.replace("PROPERTIES Once Placed\n", "")
    return js

# ------------------------------------------------------------------ C25
def is_def(t):
    import dsl
    return isinstance(t, dsl.DefT)
def faults():
    P = Prog(2501)
    for i, (nm, mk) in enumerate(parts(P)):
        kw = dict(start=1, max=18, lim=2, eofb=1)
        P.case([Call(S1(P, F(u8(1)), place(mk(), 2), F(u8(4)))), Call(u8(7))], **kw)
        m = ["", "return_unexpected_error", "return_all_errors"][i % 3]
        P.case([Call(P.enum(Body([F(u8(1)), place(mk(), 2)]), Body([F(u8(1, 2)), F(u16())]), errmode=m), e="B"), Call(u8(7))], **kw)
        f = place(mk(), 2)
        if nm not in ("assert", "magic", "bmagic"):
            f.try_ = True
            if f.map is None: f.fty = Opt(f.fty)
            else: f.map.x = add(it, 1); f.map.c = eq(it, 9)
            P.case([Call(S1(P, F(u8(1)), f, F(Pos(u8(3, 4))))), Call(u8(7))], **kw)
        if nm not in ("seekneg", "seekend", "seekstart", "padneg", "padfar", "rp", "ueof"): P.case([Call(S1(P, F(u8(1)), F(pw=PW("ueof", S1(P, place(mk(), 1)))))), Call(u8(7))], **kw)
    Q = Prog(2502)
    inner = Q.struct(F(u8(1, 2)), F(u16()), magic=Magic("u8", 0x2A))
    en = Q.enum(Body([F(u16())], magic=Magic("u8", 1)), Body([F(u8(7, 9), asserts=[A(eq(fld(1), 7))])]))
    ds = [dict(pb=lit(2)), dict(pa=lit(3)), dict(ab=lit(4)), dict(aa=lit(8)), dict(pst=lit(9)), dict(rp=True), dict(sb=Seek("S", lit(4))), dict(sb=Seek("C", lit(1))), dict(sb=Seek("E", lit(-3))), dict(magic=Magic("u16", 0x3132)), dict(magic=Magic("bytes", b"ABC")),
          dict(cond=eq(fld(1), 1)), dict(temp=True), dict(e=BIG), dict(rp=True, pb=lit(3), pa=lit(2), asserts=[A(eq(lit(1), 1))]), dict(asserts=[A(eq(lit(0), 1))]), dict(rp=True, asserts=[A(eq(lit(0), 1), "err", x=4)])]
    tt = [lambda: (u16(), {}), lambda: (Vec(u8(3)), dict(count=5)), lambda: (Vec(inner), dict(count=2)), lambda: (Ptr(u8(0, 6), u16()), {}), lambda: (Ptr(u8(0, 6), u16()), dict(dn="deref_now")), lambda: (NStr(cv=[[0x41], [0]]), {}), lambda: (en, {}), lambda: (Opt(Spy(3)), {}),
          lambda: (Pos(u16()), {}), lambda: (Arr(u16(), 3), {}), lambda: (Tup(u8(1), u16(), Spy(4)), {}), lambda: (WStr(cv=[[0, 0x41], [0, 0]]), {}), lambda: (Vec(Ptr(u8(0, 3), Spy(5))), dict(count=2))]
    for i, d in enumerate(ds):
        for j, t in enumerate(tt):
            if "dn" in d or (i + j) % (1 if THOROUGH else 3): continue
            ty, kw = t()
            if "cond" in d and isinstance(ty, Ptr): continue
            c = [Call(S1(Q, F(u8(0, 1)), F(ty, **kw, **d), F(Pos(u8(2))))), Call(u8(7))]
            if (i + j) % 2: c[0] = Call(Q.enum(Body([F(u8(0, 1)), F(ty, **kw, **d), F(u8(2, 3), asserts=[A(eq(fld(3), 2))])]), Body([F(u8(0, 1)), F(Spy(9))])))
            Q.case(c, start=1, max=24, lim=3, slim=9 if (i * j) % 7 == 0 else -1)
    for k in ("count", "until", "untilx", "ueof", "sep", "sept", "rb", "cust", "ptrparse", "roap"):
        mk = dict(count=lambda: PW("count", inner, c=lit(2)), until=lambda: PW("until", u8(0, 9), c=eq(it, 0)), untilx=lambda: PW("untilx", u16(0, 9), c=eq(it, 0)), ueof=lambda: PW("ueof", en), sep=lambda: PW("sep", u8(3), inner), sept=lambda: PW("sept", Spy(8), u16()), rb=lambda: PW("rb", u8(3)), cust=lambda: PW("cust", inner, n=77),
                  ptrparse=lambda: PW("ptrparse", Ptr(u8(0, 9), u16())), roap=lambda: PW("roap", S1(Q, F(Ptr(u8(0, 9), u16())))))[k]
        for tr in (False, True):
            Q.case([Call(S1(Q, F(u8(1)), F(pw=mk(), try_=tr, count=3), F(Pos(u8(3))))), Call(u8(3))], start=1, max=16, lim=4)
    R = Prog(2503)
    apis = ["options", "roap", "read", "type", "be", "le", "ne"]
    st = lambda: S1(R, F(u16(0x0102)), F(Ptr(u8(1), u16())), F(Spy(3)), magic=Magic("u16", 0x4142))
    tys = [u16(), Spy(1), Unit(), Arr(u16(), 3), Tup(u8(1), u16(), Spy(2)), Opt(u16()), Box(u16()), Pos(u16()), NStr(cv=[[0x41], [0]]), WStr(cv=[[0, 0x41], [0, 0]]), st(), Ptr(u16(0, 0x100), Spy(4)), Ptr(u8(0), st()), Tup(Ptr(u8(0), Spy(5)), Ptr(u8(0), u16())), R.struct(unit=True), R.struct(unit=True, magic=Magic("u16", 0x4142)),
           R.struct(unit=True, asserts=[A(eq(lit(0), 1))]), R.struct(F(u8(1)), pre=[A(eq(lit(0), 1))]), R.uenum([dict(nm="A", disc=0x102, explicit=True), dict(nm="B", disc=0x103)], repr_="u16", magic=Magic("u8", 3)), R.uenum([dict(nm="A", magic=Magic("u16", 0x0102))], e=BIG),
           R.mapped(Map(u16(1, 2), u8(), add(it, 1), c=eq(it, 2), er=it)), R.mapped(Map(st(), u8(), lit(3)), magic=Magic("u8", 8)), R.enum(Body([], unit=True, magic=Magic("u8", 1)), Body([F(Ptr(u8(0, 60), u8(1)))], magic=Magic("u16", 0x0203)), Body([F(st()), F(st(), try_=True)]), errmode="return_all_errors"),
           S1(R, F(st(), try_=True), F(u32(), try_=True), F(u16(), try_=True), F(Opt(u8(1)), try_=True)), S1(R, F(S1(R, F(u8(1)), F(u16(), try_=True), F(u8(2))), try_=True), F(Vec(S1(R, F(u16(), try_=True), F(u8(1)))), count=2, try_=True), F(u8(1)))]
    for i, t in enumerate(tys):
        for api in apis:
            if api not in ("options", "roap", "type") and (apis.index(api) + i) % 3: continue
            R.case([Call(t, api=api) if api not in ("options", "roap", "type") else Call(t, api=api, e="BL"[i % 2]), Call(t, api="le"), Call(Unit())], start=1, max=40, lim=2)
    F2 = ("default", "dbg")
    E2 = [None, dict(BR_TEMPLATE="1")]
    out = [Job("parts", P, feats=F2, envs=E2), Job("dirs", Q, feats=F2, envs=E2), Job("apis", R, feats=("default", "nostd", "dbg"), envs=E2)]
    rs = rands("C25", badb=0, slim=.1, quick=40, thorough=60, jobs=6, dirs=over(DALL, **{"try": .2}), tops=over(TALL, enum=4), apis=("options", "roap", "type"), feats=F2, lim=3)
    for j in out + rs: j.ninputs = (260, 900)
    for j in rs: j.ninputs = (160, 300)
    return out + rs
