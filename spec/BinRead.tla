------------------------------- MODULE BinRead -------------------------------
(***************************************************************************)
(* An explicit specification of what reading a value with binread means.   *)
(*                                                                         *)
(* The state machine below is an abstract reader (an input that is chosen  *)
(* lazily and nondeterministically, byte by byte, together with the place  *)
(* where the input ends and the place where the device fails) plus a stack *)
(* of activations, one per value being read.  The types being read are the *)
(* program `Prog` (a JSON term: types, derive definitions with their       *)
(* directives, and cases = the top-level calls a user makes).              *)
(*                                                                         *)
(* Every behaviour ends in a `fin` state, in which the expected result of  *)
(* every call (value or error), the reader's position after it and the     *)
(* calls made to user code (events) are written to OutFile; the harness    *)
(* replays exactly these inputs into the real crate.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV

ProgFile == IOEnv.BR_PROG
OutFile  == IOEnv.BR_OUT

Prog  == JsonDeserialize(ProgFile)
Types == Prog.types        \* sequence of type terms
Defs  == Prog.defs         \* sequence of derive definitions
Cases == Prog.cases        \* sequence of cases

BIG == 1073741823          \* numbers are clamped here (TLC integers are 32 bit)

VARIABLES
  cs,     \* case being executed (index)
  ci,     \* which call of the case is being executed
  rd,     \* the reader
  stk,    \* activation stack, top is stk[1]
  mode,   \* "call" | "ret" | "err" | "fin"
  reg,    \* mode "call": the pending call; "ret": the value; "err": the error
  res,    \* results of the finished calls of this case
  ev      \* events seen by user code

vars == <<cs, ci, rd, stk, mode, reg, res, ev>>

(***************************************************************************)
(* Small helpers                                                           *)
(***************************************************************************)
Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y
SetMin(S)  == CHOOSE x \in S : \A y \in S : x <= y
B2I(x)     == IF x THEN 1 ELSE 0
Rev(s)     == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Has(o)     == Len(o) > 0          \* optional terms are sequences of length 0 or 1
Push(f)    == <<f>> \o stk
Pop(n)     == SubSeq(stk, n + 1, Len(stk))
SetTop(f)  == <<f>> \o Tail(stk)

(***************************************************************************)
(* Values and errors.  Uniform records: t tag, n number, b bytes (most     *)
(* significant first), c components; errors additionally carry s text.     *)
(***************************************************************************)
Val(t, n, b, c)    == [t |-> t, n |-> n, b |-> b, c |-> c]
VUnit              == Val("unit", 0, <<>>, <<>>)
VNone              == Val("none", 0, <<>>, <<>>)
VSome(v)           == Val("some", 0, <<>>, <<v>>)
VList(c)           == Val("l", 0, <<>>, c)
VPos(p, v)         == Val("pos", p, <<>>, <<v>>)
VPtr(p, v)         == Val("ptr", 0, <<>>, <<p, v>>)
Err(t, n, s, b, c) == [t |-> t, n |-> n, s |-> s, b |-> b, c |-> c]
EIo(kind)          == Err("io", 0, kind, <<>>, <<>>)

RECURSIVE BytesNat(_)
\* unsigned number of a byte sequence, clamped at BIG
BytesNat(b) ==
  IF b = <<>> THEN 0
  ELSE LET hi == BytesNat(SubSeq(b, 1, Len(b) - 1))
       IN  IF hi >= 4194303 THEN BIG ELSE hi * 256 + b[Len(b)]

\* number of a primitive value (two's complement when signed, clamped)
PrimNum(v) ==
  IF v.t = "i" /\ v.b[1] >= 128
  THEN LET inv == [i \in 1..Len(v.b) |-> 255 - v.b[i]] IN -1 - BytesNat(inv)
  ELSE BytesNat(v.b)

RECURSIVE Num(_)
\* the number an expression sees when it mentions a value
Num(v) ==
  CASE v.t \in {"u", "i", "ch"} -> PrimNum(v)
    [] v.t = "x"    -> v.n
    [] v.t = "some" -> Num(v.c[1])
    [] v.t = "none" -> -1
    [] v.t = "pos"  -> Num(v.c[1])
    [] v.t = "ptr"  -> Num(v.c[2])      \* Deref of a resolved pointer
    [] OTHER        -> 0

LenOf(v) == CASE v.t \in {"nstr", "wstr"} -> Len(v.b)
              [] v.t \in {"ptr"} -> IF v.c[2].t \in {"nstr", "wstr"} THEN Len(v.c[2].b) ELSE Len(v.c[2].c)
              [] v.t = "punct" -> Len(v.c[1].c)
              [] OTHER -> Len(v.c)

RECURSIVE NatBytes(_, _)
\* n-byte big-endian representation of an integer (two's complement)
NatBytes(x, n) ==
  IF n = 0 THEN <<>>
  ELSE NatBytes((IF x >= 0 THEN x \div 256 ELSE -(((-x) + 255) \div 256)), n - 1)
       \o <<(IF x >= 0 THEN x % 256 ELSE (256 - ((-x) % 256)) % 256)>>

(***************************************************************************)
(* Expressions.  [e |-> op, n |-> number, a |-> arguments]                  *)
(***************************************************************************)
RECURSIVE Path(_, _)
Path(v, p) == IF p = <<>> THEN v ELSE Path(v.c[Head(p).n], Tail(p))

RECURSIVE Ev(_, _, _, _)
Ev(x, env, imps, it) ==
  LET E(i) == Ev(x.a[i], env, imps, it)
  IN CASE x.e = "lit"  -> x.n
       [] x.e = "fld"  -> Num(Path(env[x.n], x.a))
       [] x.e = "len"  -> LenOf(Path(env[x.n], x.a))
       [] x.e = "imp"  -> imps[x.n]
       [] x.e = "it"   -> Num(it)
       [] x.e = "itlen" -> LenOf(it)
       [] x.e = "add"  -> E(1) + E(2)
       [] x.e = "sub"  -> E(1) - E(2)
       [] x.e = "mul"  -> E(1) * E(2)
       [] x.e = "mod"  -> IF E(1) >= 0 THEN E(1) % E(2) ELSE -((-E(1)) % E(2))    \* the sign of the dividend
       [] x.e = "not"  -> B2I(E(1) = 0)
       [] x.e = "and"  -> B2I(E(1) # 0 /\ E(2) # 0)
       [] x.e = "or"   -> B2I(E(1) # 0 \/ E(2) # 0)
       [] x.e = "eq"   -> B2I(E(1) = E(2))
       [] x.e = "ne"   -> B2I(E(1) # E(2))
       [] x.e = "lt"   -> B2I(E(1) < E(2))
       [] x.e = "le"   -> B2I(E(1) <= E(2))
       [] x.e = "tick" -> E(1)

Holds(x, env, imps) == Ev(x, env, imps, VUnit) # 0
EvArgs(as, env, imps) == [i \in 1..Len(as) |-> Ev(as[i], env, imps, VUnit)]

\* events caused by evaluating x (user code that observes being evaluated)
Ticks(x) == IF x.e = "tick"
            THEN <<[t |-> "t", tag |-> x.n, pos |-> 0, e |-> "", cnt |-> 0, off |-> 0, a |-> <<>>]>>
            ELSE <<>>

\* the value of a computed expression at a type
RECURSIVE ToVal(_, _)
ToVal(ty, x) ==
  LET T == Types[ty]
  IN CASE T.k = "prim" -> Val(T.s2, 0, NatBytes(x, T.n), <<>>)
       [] T.k = "opt"  -> IF x < 0 THEN VNone ELSE VSome(ToVal(T.a[1], x))
       [] T.k = "int"  -> Val("x", x, <<>>, <<>>)
       [] OTHER        -> VUnit

RECURSIVE DefaultVal(_)
DefaultVal(ty) ==
  LET T == Types[ty]
  IN CASE T.k = "prim" -> Val(T.s2, 0, [i \in 1..T.n |-> 0], <<>>)
       [] T.k = "int"  -> Val("x", 0, <<>>, <<>>)
       [] T.k = "opt"  -> VNone
       [] T.k = "spy"  -> Val("u", 0, <<0>>, <<>>)
       [] T.k = "vec"  -> VList(<<>>)
       [] T.k = "arr"  -> VList([i \in 1..T.n |-> DefaultVal(T.a[1])])
       [] T.k = "tup"  -> VList([i \in 1..Len(T.a) |-> DefaultVal(T.a[i])])
       [] T.k = "box"  -> DefaultVal(T.a[1])
       [] T.k = "nstr" -> Val("nstr", 0, <<>>, <<>>)
       [] T.k = "wstr" -> Val("wstr", 0, <<>>, <<>>)
       [] OTHER        -> VUnit

(***************************************************************************)
(* The reader.  mem[i] is the byte at offset i-1, or -1 while nobody has   *)
(* had a reason to look at it; eof / bad are the offsets at which the      *)
(* input ends / the device fails, -1 while undetermined; hi bounds the     *)
(* offsets that were delivered.  slim: seeking beyond it and beyond what     *)
(* has been delivered fails (-1: never)                                    *)
(***************************************************************************)
Cell(r, p) == IF p < Len(r.mem) THEN r.mem[p + 1] ELSE -1

\* put bytes bs at offset p
Put(r, p, bs) ==
  LET n == Max2(Len(r.mem), p + Len(bs))
  IN IF bs = <<>> THEN r      \* no byte delivered: says nothing about where the input ends
     ELSE [r EXCEPT !.mem = [i \in 1..n |->
        IF i > p /\ i <= p + Len(bs) THEN bs[i - p] ELSE Cell(r, i - 1)],
      !.hi = Max2(r.hi, p + Len(bs))]

\* All outcomes of reading exactly n bytes at the current position, where the
\* environment may still be free to choose the bytes (from `cands`, in stream
\* order), the end of the input and the failing offset.  After r.lim free
\* choices of bytes the environment always takes the preferred one (a bound on
\* the exploration; lim is large wherever the job is meant to be exhaustive).
ReadOutcomes(r, n, cands0, pref, mx) ==
  LET p     == r.pos
      free  == \E i \in 1..n : Cell(r, p + i - 1) < 0
      cands == IF r.lim > 0 \/ ~free THEN cands0 ELSE {pref}
      used  == IF free /\ Cardinality(cands) > 1 THEN 1 ELSE 0
      lo    == Max2(p, r.hi)
      pts   == {x \in {lo, lo + ((p + n - lo) \div 2), p + n - 1} : lo <= x /\ x < p + n}
      early == IF r.eofb > 0 THEN {x \in pts : x <= mx} ELSE {}
      eofs  == IF n = 0 THEN {r.eof}
               ELSE IF r.eof >= 0 THEN {r.eof}
               ELSE IF p + n > mx THEN {Max2(r.hi, mx)} \cup early
               ELSE {-1} \cup early
      bads  == IF n = 0 \/ r.bad >= 0 \/ r.badb = 0 THEN {r.bad}
               ELSE {-1} \cup {x \in pts : x <= mx}
      Cases2 == {<<e, b>> \in eofs \X bads :
                   \* choosing both at once would only duplicate behaviours
                   ~(r.eof < 0 /\ r.bad < 0 /\ e >= 0 /\ b >= 0 /\ e < mx)}
      R(e, b) == [r EXCEPT !.eof = e, !.bad = b]
      One(e, b) ==
        IF b >= p /\ b < p + n /\ (e < 0 \/ b < e)
        THEN {[ok |-> FALSE, er |-> EIo("bad"), b |-> <<>>, rd |-> [R(e, b) EXCEPT !.pos = b, !.hi = Max2(r.hi, b + 1)]]}
        ELSE IF e >= 0 /\ p + n > e /\ n > 0
        THEN {[ok |-> FALSE, er |-> EIo("eof"), b |-> <<>>, rd |-> [R(e, b) EXCEPT !.pos = Max2(p, e), !.hi = Max2(r.hi, Min2(e, p + n))]]}
        ELSE {LET bs == [i \in 1..n |-> IF Cell(r, p + i - 1) >= 0 THEN Cell(r, p + i - 1) ELSE c[i]]
              IN [ok |-> TRUE, er |-> EIo(""), b |-> bs,
                  rd |-> [Put(R(e, b), p, bs) EXCEPT !.pos = p + n, !.lim = r.lim - used]] : c \in cands}
  IN UNION {One(c[1], c[2]) : c \in Cases2}

\* a device with a limit still goes back to where it has been
SeekOk(r, p) == p >= 0 /\ (r.slim < 0 \/ p <= r.slim \/ p <= r.hi \/ p <= Cases[cs].start)
SeekErr(r, p) == IF p < 0 THEN EIo("inval") ELSE EIo("seek")

(***************************************************************************)
(* Byte order and options                                                  *)
(***************************************************************************)
Opt(e, c, o) == [e |-> e, cnt |-> c, off |-> o]

\* a byte-order directive: <<>> inherit, else [k: fixed|cond, e, x]
EndianOf(dir, inherited, env, imps) ==
  IF ~Has(dir) THEN inherited
  ELSE LET d == dir[1]
       IN IF d.k = "fixed" THEN d.e
          ELSE IF Holds(d.x, env, imps) THEN d.e
          ELSE IF d.e = "B" THEN "L" ELSE "B"

FieldOpts(f, o, env, imps) ==
  Opt(EndianOf(f.e, o.e, env, imps),
      IF Has(f.cnt) THEN Ev(f.cnt[1], env, imps, VUnit) ELSE o.cnt,
      IF Has(f.off) THEN Ev(f.off[1], env, imps, VUnit) ELSE o.off)

AfterOpts(f, o, env, imps) ==
  IF Has(f.offa) THEN [o EXCEPT !.off = Ev(f.offa[1], env, imps, VUnit)] ELSE o

StreamOrder(bs, e) == IF e = "L" THEN Rev(bs) ELSE bs

(***************************************************************************)
(* Which types contain something that is post-processed                    *)
(***************************************************************************)
RECURSIVE NeedsAp(_)
NeedsAp(ty) ==
  LET T == Types[ty]
  IN CASE T.k \in {"ptr", "spy"} -> TRUE
       [] T.k \in {"vec", "arr", "tup", "opt", "box", "pos"} ->
             \E i \in 1..Len(T.a) : NeedsAp(T.a[i])
       [] OTHER -> FALSE
NeedsApT == [ty \in 1..Len(Types) |-> NeedsAp(ty)]

IsDef(ty) == Types[ty].k = "def"

(***************************************************************************)
(* Pending calls                                                           *)
(***************************************************************************)
CRead(ty, o, a)      == [w |-> "read", ty |-> ty, o |-> o, a |-> a, v |-> VUnit]
CAfter(ty, v, o, a)  == [w |-> "ap",   ty |-> ty, o |-> o, a |-> a, v |-> v]

Go(m, g)  == mode' = m /\ reg' = g
Ret(v)    == Go("ret", v)
Fail(e)   == Go("err", e)
Call(c)   == Go("call", c)
Same(s)   == UNCHANGED s
EvAdd(es) == ev' = ev \o es

SpyEv(t, tag, pos, o, a) ==
  [t |-> t, tag |-> tag, pos |-> pos, e |-> o.e, cnt |-> o.cnt, off |-> o.off, a |-> a]

(***************************************************************************)
(* Initial states: any case of the program                                 *)
(***************************************************************************)
CallOf(c, i) == Cases[c].calls[i]
TopFrame(c, i, pos) == [k |-> "top", p0 |-> pos, ph |-> "read"]
StartCall(c, i) == CRead(CallOf(c, i).ty, Opt(CallOf(c, i).e, CallOf(c, i).cnt, CallOf(c, i).off), CallOf(c, i).a)

Init ==
  /\ cs \in {c \in 1..Len(Cases) : TRUE}
  /\ ci = 1
  /\ rd = [pos |-> Cases[cs].start, mem |-> <<>>, eof |-> -1, bad |-> -1, hi |-> 0,
           slim |-> Cases[cs].slim, eofb |-> Cases[cs].eofb, badb |-> Cases[cs].badb, lim |-> Cases[cs].lim]
  /\ stk = <<TopFrame(cs, 1, Cases[cs].start)>>
  /\ mode = "call"
  /\ reg = StartCall(cs, 1)
  /\ res = <<>>
  /\ ev = <<>>

MX == Cases[cs].max

(***************************************************************************)
(* mode = "call", w = "read": begin reading a value of type reg.ty         *)
(***************************************************************************)
Reading(k) == mode = "call" /\ reg.w = "read" /\ Types[reg.ty].k = k

\* a primitive: the exact number of bytes or an I/O error, in which case the
\* position is where it was
ReadPrim ==
  /\ Reading("prim")
  /\ LET T == Types[reg.ty]
         cands == {StreamOrder(c, reg.o.e) : c \in {T.cv[i] : i \in 1..Len(T.cv)}}
     IN \E oc \in ReadOutcomes(rd, T.n, cands, StreamOrder(T.cv[1], reg.o.e), MX) :
          IF oc.ok
          THEN rd' = oc.rd /\ Ret(Val(T.s2, 0, StreamOrder(oc.b, reg.o.e), <<>>))
          ELSE rd' = [oc.rd EXCEPT !.pos = rd.pos] /\ Fail(oc.er)
  /\ Same(<<cs, ci, stk, res, ev>>)

\* a user-defined one-byte type that observes how it is called
ReadSpy ==
  /\ Reading("spy")
  /\ EvAdd(<<SpyEv("r", Types[reg.ty].n, rd.pos, reg.o, reg.a)>>)
  /\ LET T == Types[reg.ty]
     IN \E oc \in ReadOutcomes(rd, 1, {T.cv[i] : i \in 1..Len(T.cv)}, T.cv[1], MX) :
          IF oc.ok
          THEN rd' = oc.rd /\ Ret(Val("u", 0, oc.b, <<>>))
          ELSE rd' = [oc.rd EXCEPT !.pos = rd.pos] /\ Fail(oc.er)
  /\ Same(<<cs, ci, stk, res>>)

ReadUnit ==
  /\ Reading("unit")
  /\ Ret(VUnit)
  /\ Same(<<cs, ci, rd, stk, res, ev>>)

\* Vec takes the count away from its elements; arrays and tuples are fixed
ReadSeq ==
  /\ mode = "call" /\ reg.w = "read" /\ Types[reg.ty].k \in {"vec", "arr", "tup"}
  /\ LET T == Types[reg.ty]
         n == CASE T.k = "vec" -> reg.o.cnt [] T.k = "arr" -> T.n [] OTHER -> Len(T.a)
         o == IF T.k = "vec" THEN [reg.o EXCEPT !.cnt = -1] ELSE reg.o
         el(i) == IF T.k = "tup" THEN T.a[i] ELSE T.a[1]
         a == IF T.k = "tup" THEN <<>> ELSE reg.a
     IN IF T.k = "vec" /\ n < 0      \* no count: refused loudly (a panic), never guessed
        THEN Fail(Err("panic", 0, "", <<>>, <<>>)) /\ Same(stk)
        ELSE IF n <= 0
        THEN Ret(VList(<<>>)) /\ Same(stk)
        ELSE /\ stk' = Push([k |-> "sq", ty |-> reg.ty, n |-> n, acc |-> <<>>, o |-> o, a |-> a])
             /\ Call(CRead(el(1), o, a))
  /\ Same(<<cs, ci, rd, res, ev>>)

ReadWrap ==
  /\ mode = "call" /\ reg.w = "read" /\ Types[reg.ty].k \in {"opt", "pos", "ptr", "box"}
  /\ LET T == Types[reg.ty]
     IN CASE T.k = "box" -> Same(stk) /\ Call(CRead(T.a[1], reg.o, reg.a))
          [] T.k = "opt" -> stk' = Push([k |-> "wr", t |-> "some", p |-> 0]) /\ Call(CRead(T.a[1], reg.o, reg.a))
          [] T.k = "pos" -> stk' = Push([k |-> "wr", t |-> "pos", p |-> rd.pos]) /\ Call(CRead(T.a[1], reg.o, reg.a))
          [] T.k = "ptr" -> stk' = Push([k |-> "wr", t |-> "ptr", p |-> 0]) /\ Call(CRead(T.a[1], reg.o, <<>>))
  /\ Same(<<cs, ci, rd, res, ev>>)

\* null-terminated strings, one unit per step
ReadStr ==
  /\ mode = "call" /\ reg.w = "read" /\ Types[reg.ty].k \in {"nstr", "wstr"}
  /\ stk' = Push([k |-> "st", ty |-> reg.ty, e |-> reg.o.e, acc |-> <<>>])
  /\ Ret(VUnit)
  /\ Same(<<cs, ci, rd, res, ev>>)

\* preferred unit of a string: something, then the terminator
PrefUnit(f, T) == IF Len(f.acc) > 0 /\ \E i \in 1..Len(T.cv) : BytesNat(T.cv[i]) = 0
                  THEN T.cv[CHOOSE i \in 1..Len(T.cv) : BytesNat(T.cv[i]) = 0] ELSE T.cv[1]
StrUnit ==
  /\ mode = "ret" /\ stk[1].k = "st"
  /\ LET f == stk[1]
         T == Types[f.ty]
         w == IF T.k = "nstr" THEN 1 ELSE 2
         cands == {StreamOrder(c, f.e) : c \in {T.cv[i] : i \in 1..Len(T.cv)}}
     IN \E oc \in ReadOutcomes(rd, w, cands, StreamOrder(PrefUnit(f, T), f.e), MX) :
          IF ~oc.ok
          THEN /\ rd' = (IF w = 2 THEN [oc.rd EXCEPT !.pos = rd.pos] ELSE oc.rd)
               /\ Fail(oc.er) /\ stk' = Pop(1)
          ELSE LET u == BytesNat(StreamOrder(oc.b, f.e))
               IN /\ rd' = oc.rd
                  /\ IF u = 0
                     THEN stk' = Pop(1) /\ Ret(Val(T.k, 0, f.acc, <<>>))
                     ELSE stk' = SetTop([f EXCEPT !.acc = Append(@, u)]) /\ Ret(VUnit)
  /\ Same(<<cs, ci, res, ev>>)

(***************************************************************************)
(* Derived types                                                           *)
(***************************************************************************)
BodyFrame(d, vi, o, a, p0) ==
  [k |-> "bd", d |-> d, vi |-> vi, o |-> o, imps |-> a, p0 |-> p0,
   sec |-> "magic", i |-> 1, ph |-> 0,
   env |-> <<>>, fo |-> <<>>, fa |-> <<>>, tmp |-> VUnit, saved |-> 0, mark |-> 0, rpos |-> 0]

\* options in force inside a definition / a variant
DefOpts(d, vi, o, a) ==
  LET D == Defs[d]
      dir == IF vi > 0 /\ Has(D.bodies[vi].e) THEN D.bodies[vi].e ELSE D.e
  IN [o EXCEPT !.e = EndianOf(dir, o.e, <<>>, a)]

DfFrame(d) == [k |-> "df", d |-> d, p0 |-> rd.pos]

ReadDef ==
  /\ Reading("def")
  /\ LET d == Types[reg.ty].d
         D == Defs[d]
     IN CASE D.k = "struct" ->
               /\ stk' = <<BodyFrame(d, 1, DefOpts(d, 1, reg.o, reg.a), reg.a, rd.pos), DfFrame(d)>> \o stk
               /\ Ret(VUnit)
          [] D.k = "enum" ->
               /\ stk' = <<BodyFrame(d, 1, DefOpts(d, 1, reg.o, reg.a), reg.a, rd.pos),
                           [k |-> "en", d |-> d, vi |-> 1, o |-> reg.o, a |-> reg.a, p0 |-> rd.pos, errs |-> <<>>],
                           DfFrame(d)>> \o stk
               /\ Ret(VUnit)
          [] D.k = "uenum" ->
               /\ stk' = <<[k |-> "ue", d |-> d, a |-> reg.a, o |-> DefOpts(d, 0, reg.o, reg.a), p0 |-> rd.pos, sec |-> "magic", i |-> 1], DfFrame(d)>> \o stk
               /\ Ret(VUnit)
          [] D.k = "map" ->
               /\ stk' = <<[k |-> "mp", d |-> d, a |-> reg.a, o |-> DefOpts(d, 0, reg.o, reg.a), p0 |-> rd.pos, sec |-> "magic", i |-> 1], DfFrame(d)>> \o stk
               /\ Ret(VUnit)
  /\ Same(<<cs, ci, rd, res, ev>>)

\* leaving a derived type
DefRet ==
  /\ mode = "ret" /\ stk[1].k = "df"
  /\ stk' = Pop(1)
  /\ Same(<<cs, ci, rd, mode, reg, res, ev>>)

DefErr ==
  /\ mode = "err" /\ stk[1].k = "df" /\ reg.t # "panic"
  /\ rd' = [rd EXCEPT !.pos = stk[1].p0]
  /\ stk' = Pop(1)
  /\ Same(<<cs, ci, mode, reg, res, ev>>)

(***************************************************************************)
(* Data enums: first variant whose whole body succeeds                     *)
(***************************************************************************)
Named(nm, e) == Err("named", 0, nm, <<>>, <<e>>)

EnumRet ==
  /\ mode = "ret" /\ stk[1].k = "en"
  /\ stk' = Pop(1)
  /\ Same(<<cs, ci, rd, mode, reg, res, ev>>)

EnumErr ==
  /\ mode = "err" /\ stk[1].k = "en" /\ reg.t # "panic"
  /\ LET f == stk[1]
         D == Defs[f.d]
         errs == Append(f.errs, Named(D.bodies[f.vi].nm, reg))
         g == [f EXCEPT !.vi = @ + 1, !.errs = errs]
     IN /\ rd' = [rd EXCEPT !.pos = f.p0]
        /\ IF f.vi < Len(D.bodies)
           THEN /\ stk' = <<BodyFrame(f.d, f.vi + 1, DefOpts(f.d, f.vi + 1, f.o, f.a), f.a, f.p0), g>> \o Pop(1)
                /\ Ret(VUnit)
           ELSE /\ stk' = Pop(1)
                /\ Fail(IF D.errmode = "all" THEN Err("enum", f.p0, "", <<>>, errs)
                        ELSE Err("novar", f.p0, "", <<>>, <<>>))
  /\ Same(<<cs, ci, res, ev>>)

(***************************************************************************)
(* Magic: read a value of the literal's type and compare                   *)
(***************************************************************************)
\* pushes the check; the frame below continues in mode "ret"
MagicCall(f, m, o) ==
  /\ stk' = <<[k |-> "mg", m |-> m, p |-> rd.pos], f>> \o Pop(1)
  /\ Call(CRead(m.ty, o, <<>>))

MagicRet ==
  /\ mode = "ret" /\ stk[1].k = "mg"
  /\ stk' = Pop(1)
  /\ IF reg = stk[1].m.v THEN Ret(VUnit)
     ELSE Fail(Err("magic", stk[1].p, "", <<>>, <<reg>>))
  /\ Same(<<cs, ci, rd, res, ev>>)

(***************************************************************************)
(* Assertions                                                              *)
(***************************************************************************)
AssertErr(as, p0, env, imps) ==
  CASE as.k = "def" -> Err("assert", p0, as.s, <<>>, <<>>)
    [] as.k = "msg" -> Err("assert", p0, as.s, <<>>, <<>>)
    [] as.k = "fmt" -> Err("assert", p0, as.s, <<Ev(as.x, env, imps, VUnit)>>, <<>>)
    [] as.k = "err" -> Err("custom", p0, "", <<Ev(as.x, env, imps, VUnit)>>, <<>>)

AssertTicks(as) == IF as.k \in {"err", "fmt"} THEN Ticks(as.x) ELSE <<>>

\* the conditions of the first n of a group of assertions are evaluated, in order
RECURSIVE CondTicks(_, _)
CondTicks(as, n) == IF n = 0 THEN <<>> ELSE CondTicks(as, n - 1) \o Ticks(as[n].c)

(***************************************************************************)
(* Bodies of structs and variants                                          *)
(***************************************************************************)
BodyOf(f) == Defs[f.d].bodies[f.vi]
IsEnum(f) == Defs[f.d].k = "enum"
MagicOf(f) == IF Has(BodyOf(f).magic) THEN BodyOf(f).magic ELSE Defs[f.d].magic
PresOf(f) == Defs[f.d].pre \o BodyOf(f).pre
AssertsOf(f) == BodyOf(f).asserts \o Defs[f.d].asserts

\* field phases, in the order in which a field is processed
PH == <<"opt", "magic", "save", "cond", "sb", "pb", "ab", "mark", "read", "map", "dn",
        "psz", "pa", "aa", "asg", "as", "rest">>
PhIdx(nm) == CHOOSE i \in 1..Len(PH) : PH[i] = nm
iASG == PhIdx("asg")

Generated(x) == x.rm \in {"calc", "default"}
CanAp(x) == x.rm = "read" /\ ~Has(x.map)

Applies(x, ph) ==
  CASE ph = "opt"   -> TRUE
    [] ph = "magic" -> Has(x.magic)
    [] ph = "save"  -> x.rp
    [] ph = "cond"  -> Has(x.cond)
    [] ph = "sb"    -> Has(x.sb)
    [] ph = "pb"    -> Has(x.pb)
    [] ph = "ab"    -> Has(x.ab)
    [] ph = "mark"  -> Has(x.pst)
    [] ph = "read"  -> TRUE
    [] ph = "map"   -> Has(x.map)
    [] ph = "dn"    -> x.dn /\ CanAp(x) /\ NeedsApT[x.ty]
    [] ph = "psz"   -> Has(x.pst)
    [] ph = "pa"    -> Has(x.pa)
    [] ph = "aa"    -> Has(x.aa)
    [] ph = "asg"   -> TRUE
    [] ph = "as"    -> Len(x.asserts) > 0
    [] ph = "rest"  -> x.rp

NextPh(x, p) == IF \E j \in (p + 1)..Len(PH) : Applies(x, PH[j])
                THEN SetMin({j \in (p + 1)..Len(PH) : Applies(x, PH[j])})
                ELSE 0

\* first program point of field i, or the post-processing section
AtField(f, i) == IF i <= Len(BodyOf(f).fields)
                 THEN [f EXCEPT !.sec = "fld", !.i = i, !.ph = 1]
                 ELSE [f EXCEPT !.sec = "save", !.i = 1, !.ph = 0]

\* point after phase p of field i
AfterPh(f) == LET x == BodyOf(f).fields[f.i]
                  q == NextPh(x, f.ph)
              IN IF q = 0 THEN AtField(f, f.i + 1) ELSE [f EXCEPT !.ph = q]

InBody(sec) == mode = "ret" /\ stk[1].k = "bd" /\ stk[1].sec = sec
Fld(f) == BodyOf(f).fields[f.i]
InPhase(ph) == InBody("fld") /\ PH[stk[1].ph] = ph

BodyMagic ==
  /\ InBody("magic")
  /\ LET f == stk[1]
         g == [f EXCEPT !.sec = "pre", !.i = 1]
     IN IF Has(MagicOf(f)) THEN MagicCall(g, MagicOf(f)[1], f.o)
        ELSE stk' = SetTop(g) /\ Ret(VUnit)
  /\ Same(<<cs, ci, rd, res, ev>>)

BodyPre ==
  /\ InBody("pre")
  /\ LET f == stk[1]
         ps == PresOf(f)
     IN IF \E j \in 1..Len(ps) : ~Holds(ps[j].c, <<>>, f.imps)
        THEN LET j == SetMin({j \in 1..Len(ps) : ~Holds(ps[j].c, <<>>, f.imps)})
             IN /\ EvAdd(CondTicks(ps, j) \o AssertTicks(ps[j]))
                /\ Fail(AssertErr(ps[j], f.p0, <<>>, f.imps))
                /\ stk' = Pop(1)
        ELSE /\ stk' = SetTop(AtField(f, 1))
             /\ Ret(VUnit) /\ EvAdd(CondTicks(ps, Len(ps)))
  /\ Same(<<cs, ci, rd, res>>)

FieldOpt ==
  /\ InPhase("opt")
  /\ LET f == stk[1]
         x == Fld(f)
     IN stk' = SetTop(AfterPh([f EXCEPT
                  !.fo = Append(@, FieldOpts(x, f.o, f.env, f.imps)),
                  !.fa = Append(@, IF x.araw THEN f.imps ELSE EvArgs(x.args, f.env, f.imps))]))
  /\ Same(<<cs, ci, rd, mode, reg, res, ev>>)

FieldMagic ==
  /\ InPhase("magic")
  /\ MagicCall(AfterPh(stk[1]), Fld(stk[1]).magic[1], stk[1].fo[stk[1].i])
  /\ Same(<<cs, ci, rd, res, ev>>)

FieldSave ==
  /\ InPhase("save")
  /\ stk' = SetTop(AfterPh([stk[1] EXCEPT !.saved = rd.pos]))
  /\ Same(<<cs, ci, rd, mode, reg, res, ev>>)

FieldCond ==
  /\ InPhase("cond")
  /\ LET f == stk[1]
         x == Fld(f)
     IN IF Holds(x.cond[1], f.env, f.imps)
        THEN stk' = SetTop(AfterPh(f)) /\ Same(ev)
        ELSE /\ stk' = SetTop([f EXCEPT !.ph = iASG, !.tmp =
                     IF Has(x.alt) THEN ToVal(x.fty, Ev(x.alt[1], f.env, f.imps, VUnit))
                     ELSE DefaultVal(x.fty)])
             /\ EvAdd(IF Has(x.alt) THEN Ticks(x.alt[1]) ELSE <<>>)
  /\ Same(<<cs, ci, rd, mode, reg, res>>)

\* move to position p and continue with frame g, or fail
SeekTo(g, p) ==
  IF SeekOk(rd, p)
  THEN rd' = [rd EXCEPT !.pos = p] /\ stk' = SetTop(g) /\ Same(<<mode, reg>>)
  ELSE Same(rd) /\ stk' = Pop(1) /\ Fail(SeekErr(rd, p))

FX(x) == Ev(x, stk[1].env, stk[1].imps, VUnit)

FieldSeekBefore ==
  /\ InPhase("sb")
  /\ LET s == Fld(stk[1]).sb[1]
         g == AfterPh(stk[1])
     IN CASE s.w = "S" -> SeekTo(g, FX(s.x))
          [] s.w = "C" -> SeekTo(g, rd.pos + FX(s.x))
          [] s.w = "E" -> \E e \in (IF rd.eof >= 0 THEN {rd.eof} ELSE {Max2(rd.hi, MX), Max2(rd.hi, MX - 3)}) :
               IF SeekOk(rd, e + FX(s.x))
               THEN rd' = [rd EXCEPT !.pos = e + FX(s.x), !.eof = e] /\ stk' = SetTop(g) /\ Same(<<mode, reg>>)
               ELSE rd' = [rd EXCEPT !.eof = e] /\ stk' = Pop(1) /\ Fail(SeekErr(rd, e + FX(s.x)))
  /\ Same(<<cs, ci, res, ev>>)

PadTo(x) == rd.pos + FX(x)
AlignTo(x) == LET al == FX(x) IN IF al = 0 THEN rd.pos ELSE rd.pos + ((al - (rd.pos % al)) % al)

FieldPadBefore   == InPhase("pb") /\ SeekTo(AfterPh(stk[1]), PadTo(Fld(stk[1]).pb[1])) /\ Same(<<cs, ci, res, ev>>)
FieldAlignBefore == InPhase("ab") /\ SeekTo(AfterPh(stk[1]), AlignTo(Fld(stk[1]).ab[1])) /\ Same(<<cs, ci, res, ev>>)
FieldPadAfter    == InPhase("pa") /\ SeekTo(AfterPh(stk[1]), PadTo(Fld(stk[1]).pa[1])) /\ Same(<<cs, ci, res, ev>>)
FieldAlignAfter  == InPhase("aa") /\ SeekTo(AfterPh(stk[1]), AlignTo(Fld(stk[1]).aa[1])) /\ Same(<<cs, ci, res, ev>>)
FieldRestore     == InPhase("rest") /\ SeekTo(AfterPh(stk[1]), stk[1].saved) /\ Same(<<cs, ci, res, ev>>)

FieldMark ==
  /\ InPhase("mark")
  /\ stk' = SetTop(AfterPh([stk[1] EXCEPT !.mark = rd.pos]))
  /\ Same(<<cs, ci, rd, mode, reg, res, ev>>)

FieldPadSize ==
  /\ InPhase("psz")
  /\ SeekTo(AfterPh(stk[1]), Max2(rd.pos, stk[1].mark + FX(Fld(stk[1]).pst[1])))
  /\ Same(<<cs, ci, res, ev>>)

\* obtain the value: read it, call the custom parser, or compute it.  The
\* frame "gv" stores what comes back in tmp.
FieldRead ==
  /\ InPhase("read")
  /\ LET f == stk[1]
         x == Fld(f)
         o == f.fo[f.i]
         a == f.fa[f.i]
         g == AfterPh([f EXCEPT !.rpos = rd.pos])
         gv == <<[k |-> "gv"], g>> \o Pop(1)
         tf == IF x.try THEN <<[k |-> "tf", p0 |-> rd.pos]>> \o gv ELSE gv
         some(v) == IF x.try THEN VSome(v) ELSE v
     IN CASE x.rm = "calc" ->
               stk' = SetTop([g EXCEPT !.tmp = some(ToVal(IF x.try THEN Types[x.fty].a[1] ELSE x.fty, FX(x.calc[1])))]) /\ Same(<<mode, reg>>)
          [] x.rm = "default" ->
               stk' = SetTop([g EXCEPT !.tmp = some(DefaultVal(IF x.try THEN Types[x.fty].a[1] ELSE x.fty))]) /\ Same(<<mode, reg>>)
          [] x.rm = "read" -> stk' = tf /\ Call(CRead(x.ty, o, a))
          [] x.rm = "pw" -> stk' = tf /\ Go("call", [w |-> "pw", p |-> x.pw[1], o |-> o, a |-> a, env |-> f.env, imps |-> f.imps])
  /\ EvAdd(IF Fld(stk[1]).rm = "calc" THEN Ticks(Fld(stk[1]).calc[1]) ELSE <<>>)
  /\ Same(<<cs, ci, rd, res>>)

GotValue ==
  /\ mode = "ret" /\ stk[1].k = "gv"
  /\ stk' = <<[stk[2] EXCEPT !.tmp = reg]>> \o Pop(2)
  /\ Ret(VUnit)
  /\ Same(<<cs, ci, rd, res, ev>>)

TryRet ==
  /\ mode = "ret" /\ stk[1].k = "tf"
  /\ stk' = Pop(1)
  /\ Ret(VSome(reg))
  /\ Same(<<cs, ci, rd, res, ev>>)

TryErr ==
  /\ mode = "err" /\ stk[1].k = "tf" /\ reg.t # "panic"
  /\ rd' = [rd EXCEPT !.pos = stk[1].p0]
  /\ stk' = Pop(1)
  /\ Ret(VNone)
  /\ Same(<<cs, ci, res, ev>>)

MapVal(m, v, env, imps) == ToVal(m.ty, Ev(m.x, env, imps, v))
MapFails(m, v, env, imps) == Has(m.c) /\ Ev(m.c[1], env, imps, v) # 0
\* an error from try_map: I/O errors stay I/O errors, others are wrapped
MapErr(m, v, p, env, imps) ==
  IF m.io THEN EIo("custom") ELSE Err("custom", p, "", <<Ev(m.er, env, imps, v)>>, <<>>)
MapEv(m) == IF m.tag > 0 THEN <<[t |-> "t", tag |-> m.tag, pos |-> 0, e |-> "", cnt |-> 0, off |-> 0, a |-> <<>>]>> ELSE <<>>

FieldMap ==
  /\ InPhase("map")
  /\ LET f == stk[1]
         m == Fld(f).map[1]
     IN /\ EvAdd(MapEv(m))
        /\ IF MapFails(m, f.tmp, f.env, f.imps)
           THEN Fail(MapErr(m, f.tmp, f.rpos, f.env, f.imps)) /\ stk' = Pop(1)
           ELSE /\ stk' = SetTop(AfterPh([f EXCEPT !.tmp = MapVal(m, f.tmp, f.env, f.imps)]))
                /\ Same(<<mode, reg>>)
  /\ Same(<<cs, ci, rd, res>>)

FieldDerefNow ==
  /\ InPhase("dn")
  /\ LET f == stk[1]
         x == Fld(f)
     IN IF x.try /\ f.tmp.t = "none"
        THEN stk' = SetTop(AfterPh(f)) /\ Same(<<mode, reg>>)
        ELSE IF x.try
        THEN stk' = <<[k |-> "wr", t |-> "some", p |-> 0], [k |-> "gv"], AfterPh(f)>> \o Pop(1)
             /\ Call(CAfter(x.ty, f.tmp.c[1], f.fo[f.i], f.fa[f.i]))
        ELSE stk' = <<[k |-> "gv"], AfterPh(f)>> \o Pop(1)
             /\ Call(CAfter(x.ty, f.tmp, f.fo[f.i], f.fa[f.i]))
  /\ Same(<<cs, ci, rd, res, ev>>)

FieldAssign ==
  /\ InPhase("asg")
  /\ stk' = SetTop(AfterPh([stk[1] EXCEPT !.env = Append(@, stk[1].tmp)]))
  /\ Same(<<cs, ci, rd, mode, reg, res, ev>>)

\* check a group of assertions; cont is the frame to continue with
CheckAsserts(f, as, g) ==
  IF \E j \in 1..Len(as) : ~Holds(as[j].c, f.env, f.imps)
  THEN LET j == SetMin({j \in 1..Len(as) : ~Holds(as[j].c, f.env, f.imps)})
       IN EvAdd(CondTicks(as, j) \o AssertTicks(as[j])) /\ Fail(AssertErr(as[j], f.p0, f.env, f.imps)) /\ stk' = Pop(1)
  ELSE stk' = SetTop(g) /\ EvAdd(CondTicks(as, Len(as))) /\ Same(<<mode, reg>>)

FieldAssert ==
  /\ InPhase("as")
  /\ CheckAsserts(stk[1], Fld(stk[1]).asserts, AfterPh(stk[1]))
  /\ Same(<<cs, ci, rd, res>>)

\* after all fields: post-process the deferred ones, in order, position saved
ApFields(f) == {i \in 1..Len(BodyOf(f).fields) :
                  LET x == BodyOf(f).fields[i]
                  IN CanAp(x) /\ ~x.dn /\ NeedsApT[x.ty]}

BodySave ==
  /\ InBody("save")
  /\ stk' = SetTop([stk[1] EXCEPT !.saved = rd.pos, !.sec = "ap", !.i = 1])
  /\ Same(<<cs, ci, rd, mode, reg, res, ev>>)

BodyAp ==
  /\ InBody("ap")
  /\ LET f == stk[1]
         todo == {i \in ApFields(f) : i >= f.i}
     IN IF todo = {}
        THEN /\ rd' = [rd EXCEPT !.pos = f.saved]
             /\ stk' = SetTop([f EXCEPT !.sec = "as"])
             /\ Same(<<mode, reg>>)
        ELSE LET i == SetMin(todo)
                 x == BodyOf(f).fields[i]
                 v == f.env[i]
                 g == [f EXCEPT !.i = i]
                 o == AfterOpts(x, f.fo[i], f.env, f.imps)
                 opt == x.try
             IN IF opt /\ v.t = "none"
                THEN stk' = SetTop([f EXCEPT !.i = i + 1]) /\ Same(<<rd, mode, reg>>)
                ELSE /\ stk' = (IF opt THEN <<[k |-> "wr", t |-> "some", p |-> 0], [k |-> "sa"], g>>
                                ELSE <<[k |-> "sa"], g>>) \o Pop(1)
                     /\ Call(CAfter(x.ty, IF opt THEN v.c[1] ELSE v, o, f.fa[i]))
                     /\ Same(rd)
  /\ Same(<<cs, ci, res, ev>>)

StoreAp ==
  /\ mode = "ret" /\ stk[1].k = "sa"
  /\ LET f == stk[2]
     IN stk' = <<[f EXCEPT !.env[f.i] = reg, !.i = @ + 1]>> \o Pop(2)
  /\ Ret(VUnit)
  /\ Same(<<cs, ci, rd, res, ev>>)

BodyAsserts ==
  /\ InBody("as")
  /\ CheckAsserts(stk[1], AssertsOf(stk[1]), [stk[1] EXCEPT !.sec = "ret"])
  /\ Same(<<cs, ci, rd, res>>)

Permanent(f) == SelectSeq([i \in 1..Len(BodyOf(f).fields) |-> i], LAMBDA i : ~BodyOf(f).fields[i].temp)

BodyRet ==
  /\ InBody("ret")
  /\ LET f == stk[1]
         pm == Permanent(f)
         c == [j \in 1..Len(pm) |-> f.env[pm[j]]]
     IN Ret(IF IsEnum(f) THEN Val("v", f.vi, <<>>, c) ELSE Val("s", 0, <<>>, c))
  /\ stk' = Pop(1)
  /\ Same(<<cs, ci, rd, res, ev>>)

(***************************************************************************)
(* Unit-like enums                                                         *)
(***************************************************************************)
\* type-level magic and pre-assertions of unit-like enums and mapped types
UPrelude(kind) ==
  /\ mode = "ret" /\ stk[1].k = kind
  /\ stk[1].sec \in {"magic", "pre", "read"}
  /\ LET f == stk[1]
         D == Defs[f.d]
     IN CASE f.sec = "magic" ->
               /\ Same(ev)
               /\ IF Has(D.magic) THEN MagicCall([f EXCEPT !.sec = "pre"], D.magic[1], f.o)
                  ELSE stk' = SetTop([f EXCEPT !.sec = "pre"]) /\ Same(<<mode, reg>>)
          [] f.sec = "pre" ->
               CheckAsserts([f EXCEPT !.sec = "pre"] @@ [env |-> <<>>, imps |-> f.a], D.pre, [f EXCEPT !.sec = "read"])
          [] f.sec = "read" ->
               /\ Same(ev)
               /\ stk' = SetTop([f EXCEPT !.sec = "got"])
               /\ Call(CRead(D.rty[1], f.o, IF kind = "mp" THEN f.a ELSE <<>>))
  /\ Same(<<cs, ci, rd, res>>)

UnitEnumPrelude == UPrelude("ue")
MapTypePrelude == UPrelude("mp")

UnitEnumGot ==
  /\ mode = "ret" /\ stk[1].k = "ue" /\ stk[1].sec = "got"
  /\ LET f == stk[1]
         D == Defs[f.d]
         M == {i \in 1..Len(D.uvars) :
                 Has(D.uvars[i].v) /\ D.uvars[i].v[1] = reg
                 /\ \A j \in 1..Len(D.uvars[i].pre) : Holds(D.uvars[i].pre[j].c, <<>>, f.a)}
     IN IF M = {} THEN Fail(Err("novar", f.p0, "", <<>>, <<>>))
        ELSE Ret(Val("v", SetMin(M), <<>>, <<>>))
  /\ stk' = Pop(1)
  /\ Same(<<cs, ci, rd, res, ev>>)

(***************************************************************************)
(* Types with a type-level map / try_map                                   *)
(***************************************************************************)
MapTypeGot ==
  /\ mode = "ret" /\ stk[1].k = "mp" /\ stk[1].sec = "got"
  /\ LET f == stk[1]
         m == Defs[f.d].map[1]
     IN /\ EvAdd(MapEv(m))
        /\ IF MapFails(m, reg, <<>>, f.a)
           THEN Fail(MapErr(m, reg, f.p0, <<>>, f.a))
           ELSE Ret(Val("s", 0, <<>>, <<MapVal(m, reg, <<>>, f.a)>>))
  /\ stk' = Pop(1)
  /\ Same(<<cs, ci, rd, res>>)

(***************************************************************************)
(* Sequences and wrappers: continuing                                      *)
(***************************************************************************)
SeqRet ==
  /\ mode = "ret" /\ stk[1].k = "sq"
  /\ LET f == stk[1]
         T == Types[f.ty]
         acc == Append(f.acc, reg)
     IN IF Len(acc) = f.n
        THEN stk' = Pop(1) /\ Ret(VList(acc))
        ELSE /\ stk' = SetTop([f EXCEPT !.acc = acc])
             /\ Call(CRead(IF T.k = "tup" THEN T.a[Len(acc) + 1] ELSE T.a[1], f.o, f.a))
  /\ Same(<<cs, ci, rd, res, ev>>)

WrapRet ==
  /\ mode = "ret" /\ stk[1].k = "wr"
  /\ stk' = Pop(1)
  /\ LET f == stk[1]
     IN Ret(CASE f.t = "some" -> VSome(reg)
              [] f.t = "pos"  -> VPos(f.p, reg)
              [] f.t = "ptr"  -> VPtr(reg, VNone)
              [] f.t = "into" -> reg.c[2])
  /\ Same(<<cs, ci, rd, res, ev>>)

(***************************************************************************)
(* Post-processing                                                         *)
(***************************************************************************)
Aftering(k) == mode = "call" /\ reg.w = "ap" /\ NeedsApT[reg.ty] /\ Types[reg.ty].k = k

AfterNothing ==
  /\ mode = "call" /\ reg.w = "ap" /\ ~NeedsApT[reg.ty]
  /\ Ret(reg.v)
  /\ Same(<<cs, ci, rd, stk, res, ev>>)

\* the post-processing of a user-defined type: what it does to the reader, or that it fails, is its own business
Moves(T) == T.n \div 1000 = 7      \* leaves the reader somewhere else
Fails(T) == T.n \div 1000 = 8      \* refuses odd values
AfterSpy ==
  /\ Aftering("spy")
  /\ EvAdd(<<SpyEv("a", Types[reg.ty].n, 0, reg.o, reg.a)>>)
  /\ LET T == Types[reg.ty]
         p == T.n % 10
     IN IF Moves(T) THEN IF SeekOk(rd, p) THEN Ret(reg.v) /\ rd' = [rd EXCEPT !.pos = p] ELSE Fail(SeekErr(rd, p)) /\ Same(rd)
        ELSE IF Fails(T) /\ reg.v.b[1] % 2 = 1 THEN Fail(Err("custom", p, "", <<reg.v.b[1]>>, <<>>)) /\ Same(rd)
        ELSE Ret(reg.v) /\ Same(rd)
  /\ Same(<<cs, ci, stk, res>>)

AfterWrap ==
  /\ mode = "call" /\ reg.w = "ap" /\ NeedsApT[reg.ty]
  /\ Types[reg.ty].k \in {"opt", "box", "pos", "vec", "arr", "tup"}
  /\ LET T == Types[reg.ty]
         v == reg.v
     IN CASE T.k = "box" -> Same(stk) /\ Call(CAfter(T.a[1], v, reg.o, reg.a))
          [] T.k = "opt" -> IF v.t = "none" THEN Same(stk) /\ Ret(v)
                            ELSE stk' = Push([k |-> "wr", t |-> "some", p |-> 0]) /\ Call(CAfter(T.a[1], v.c[1], reg.o, reg.a))
          [] T.k = "pos" -> stk' = Push([k |-> "wr", t |-> "pos", p |-> v.n]) /\ Call(CAfter(T.a[1], v.c[1], reg.o, reg.a))
          [] OTHER -> IF Len(v.c) = 0 THEN Same(stk) /\ Ret(v)
                      ELSE LET a == IF T.k = "tup" THEN <<>> ELSE reg.a
                           IN /\ stk' = Push([k |-> "aq", ty |-> reg.ty, v |-> v, acc |-> <<>>, o |-> reg.o, a |-> a])
                              /\ Call(CAfter(T.a[1], v.c[1], reg.o, a))
  /\ Same(<<cs, ci, rd, res, ev>>)

AfterSeqRet ==
  /\ mode = "ret" /\ stk[1].k = "aq"
  /\ LET f == stk[1]
         T == Types[f.ty]
         acc == Append(f.acc, reg)
         j == Len(acc) + 1
     IN IF Len(acc) = Len(f.v.c)
        THEN stk' = Pop(1) /\ Ret(VList(acc))
        ELSE /\ stk' = SetTop([f EXCEPT !.acc = acc])
             /\ Call(CAfter(IF T.k = "tup" THEN T.a[j] ELSE T.a[1], f.v.c[j], f.o, f.a))
  /\ Same(<<cs, ci, rd, res, ev>>)

\* a pointer: go to offset + pointer, read the target, post-process it, return
AfterPtr ==
  /\ Aftering("ptr")
  /\ LET T == Types[reg.ty]
         pv == reg.v.c[1]
         tgt == reg.o.off + PrimNum(pv)
     IN IF SeekOk(rd, reg.o.off) /\ SeekOk(rd, tgt)
        THEN /\ rd' = [rd EXCEPT !.pos = tgt]
             /\ stk' = Push([k |-> "pt", before |-> rd.pos, pv |-> pv, o |-> reg.o, a |-> reg.a, ty |-> T.a[2], ph |-> "read"])
             /\ Call(CRead(T.a[2], reg.o, reg.a))
        ELSE /\ Same(<<rd, stk>>)
             /\ Fail(SeekErr(rd, IF SeekOk(rd, reg.o.off) THEN tgt ELSE reg.o.off))
  /\ Same(<<cs, ci, res, ev>>)

PtrRet ==
  /\ mode = "ret" /\ stk[1].k = "pt"
  /\ LET f == stk[1]
     IN IF f.ph = "read"
        THEN stk' = SetTop([f EXCEPT !.ph = "ap"]) /\ Call(CAfter(f.ty, reg, f.o, f.a)) /\ Same(rd)
        ELSE stk' = Pop(1) /\ Ret(VPtr(f.pv, reg)) /\ rd' = [rd EXCEPT !.pos = f.before]
  /\ Same(<<cs, ci, res, ev>>)

(***************************************************************************)
(* parse_with: the library's helpers and user-written parsers.  The        *)
(* helpers read elements with the field's byte order and offset and no     *)
(* count, and post-process each element as soon as it has been read.       *)
(***************************************************************************)
Parsing(k) == mode = "call" /\ reg.w = "pw" /\ reg.p.k = k
ElemOpt(o) == Opt(o.e, -1, o.off)

\* read an element and post-process it
ElemFrame(ty, o, a) == [k |-> "el", ty |-> ty, o |-> o, a |-> a]
ElemRet ==
  /\ mode = "ret" /\ stk[1].k = "el"
  /\ stk' = Pop(1)
  /\ Call(CAfter(stk[1].ty, reg, stk[1].o, stk[1].a))
  /\ Same(<<cs, ci, rd, res, ev>>)

\* a parser written by the user: sees the reader, options and arguments
ParseCustom ==
  /\ Parsing("cust")
  /\ EvAdd(<<SpyEv("p", reg.p.n, rd.pos, reg.o, reg.a)>>)
  /\ Call(CRead(reg.p.ty, Opt(reg.o.e, -1, 0), <<>>))
  /\ Same(<<cs, ci, rd, stk, res>>)

ParseLoop ==
  /\ mode = "call" /\ reg.w = "pw" /\ reg.p.k \in {"until", "untilx", "ueof", "count"}
  /\ LET o == ElemOpt(reg.o)
         n == IF reg.p.k = "count" THEN Ev(reg.p.c, reg.env, reg.imps, VUnit) ELSE 0
     IN IF reg.p.k = "count" /\ n <= 0
        THEN Ret(VList(<<>>)) /\ Same(stk)
        ELSE /\ stk' = <<ElemFrame(reg.p.ty, o, reg.a),
                         [k |-> "lp", p |-> reg.p, n |-> n, o |-> o, a |-> reg.a, env |-> reg.env, imps |-> reg.imps, acc |-> <<>>]>> \o stk
             /\ Call(CRead(reg.p.ty, o, reg.a))
  /\ Same(<<cs, ci, rd, res, ev>>)

LoopRet ==
  /\ mode = "ret" /\ stk[1].k = "lp"
  /\ LET f == stk[1]
         acc == Append(f.acc, reg)
         hit == f.p.k \in {"until", "untilx"} /\ Ev(f.p.c, f.env, f.imps, reg) # 0
         done == hit \/ (f.p.k = "count" /\ Len(acc) = f.n)
     IN IF done
        THEN stk' = Pop(1) /\ Ret(VList(IF f.p.k = "untilx" THEN f.acc ELSE acc))
        ELSE stk' = <<ElemFrame(f.p.ty, f.o, f.a), [f EXCEPT !.acc = acc]>> \o Pop(1)
             /\ Call(CRead(f.p.ty, f.o, f.a))
  /\ Same(<<cs, ci, rd, res, ev>>)

\* until_eof ends successfully only because the input ended
LoopEof ==
  /\ mode = "err" /\ stk[1].k = "lp" /\ stk[1].p.k = "ueof" /\ reg = EIo("eof")
  /\ stk' = Pop(1)
  /\ Ret(VList(stk[1].acc))
  /\ Same(<<cs, ci, rd, res, ev>>)

ParseBytes ==
  /\ Parsing("rb")
  /\ LET n == reg.o.cnt
         T == Types[reg.p.ty]
         nn == Min2(n, Max2(MX, rd.eof) + 1)         \* more than the input can hold
         cand == [i \in 1..nn |-> T.cv[((i - 1) % Len(T.cv)) + 1][1]]
     IN IF n < 0
        THEN Fail(Err("panic", 0, "", <<>>, <<>>)) /\ Same(rd)
        ELSE \E oc \in ReadOutcomes(rd, nn, {cand}, cand, MX) :
          /\ rd' = oc.rd
          /\ IF oc.ok THEN Ret(VList([i \in 1..nn |-> Val("u", 0, <<oc.b[i]>>, <<>>)]))
             ELSE Fail(oc.er)
  /\ Same(<<cs, ci, stk, res, ev>>)

ParsePtr ==   \* FilePtr::parse
  /\ Parsing("ptrparse")
  /\ stk' = <<ElemFrame(reg.p.ty, reg.o, reg.a), [k |-> "wr", t |-> "into", p |-> 0]>> \o stk
  /\ Call(CRead(reg.p.ty, reg.o, reg.a))
  /\ Same(<<cs, ci, rd, res, ev>>)

ParseThenAfter ==   \* error::read_options_then_after_parse
  /\ Parsing("roap")
  /\ stk' = Push(ElemFrame(reg.p.ty, reg.o, reg.a))
  /\ Call(CRead(reg.p.ty, reg.o, reg.a))
  /\ Same(<<cs, ci, rd, res, ev>>)

VPunct(d, s) == Val("punct", 0, <<>>, <<VList(d), VList(s)>>)

ParsePunct ==
  /\ mode = "call" /\ reg.w = "pw" /\ reg.p.k \in {"sep", "sept"}
  /\ IF reg.o.cnt < 0
     THEN Fail(Err("panic", 0, "", <<>>, <<>>)) /\ Same(stk)
     ELSE IF reg.o.cnt = 0
     THEN Ret(VPunct(<<>>, <<>>)) /\ Same(stk)
     ELSE /\ stk' = Push([k |-> "pu", p |-> reg.p, n |-> reg.o.cnt, o |-> reg.o, a |-> reg.a, d |-> <<>>, s |-> <<>>, w |-> "d"])
          /\ Call(CRead(reg.p.ty, reg.o, reg.a))
  /\ Same(<<cs, ci, rd, res, ev>>)

PunctRet ==
  /\ mode = "ret" /\ stk[1].k = "pu"
  /\ LET f == stk[1]
         g == IF f.w = "d" THEN [f EXCEPT !.d = Append(@, reg), !.w = "s"] ELSE [f EXCEPT !.s = Append(@, reg), !.w = "d"]
         done == IF f.p.k = "sep" THEN Len(g.d) = f.n /\ f.w = "d" ELSE Len(g.s) = f.n
     IN IF done THEN stk' = Pop(1) /\ Ret(VPunct(g.d, g.s))
        ELSE stk' = SetTop(g) /\ Call(IF g.w = "s" THEN CRead(f.p.ty2, f.o, <<>>) ELSE CRead(f.p.ty, f.o, f.a))
  /\ Same(<<cs, ci, rd, res, ev>>)

(***************************************************************************)
(* Errors unwind to the nearest activation that handles them               *)
(***************************************************************************)
Handles(f) == \/ f.k = "top"
              \/ f.k \in {"df", "en", "tf"} /\ reg.t # "panic"
              \/ f.k = "lp" /\ f.p.k = "ueof" /\ reg = EIo("eof")

Unwind ==
  /\ mode = "err" /\ ~Handles(stk[1])
  /\ LET j == SetMin({j \in 1..Len(stk) : Handles(stk[j])})
     IN stk' = Pop(j - 1)
  /\ Same(<<cs, ci, rd, mode, reg, res, ev>>)

(***************************************************************************)
(* The top-level call                                                      *)
(***************************************************************************)
NextCall(r) ==
  /\ res' = Append(res, r @@ [nev |-> Len(ev)])
  /\ IF ci < Len(Cases[cs].calls)
     THEN /\ ci' = ci + 1
          /\ stk' = <<TopFrame(cs, ci + 1, rd.pos)>>
          /\ Call(StartCall(cs, ci + 1))
     ELSE /\ ci' = ci /\ stk' = <<>> /\ Go("fin", VUnit)

TopRet ==
  /\ mode = "ret" /\ stk[1].k = "top"
  /\ LET c == CallOf(cs, ci)
         f == stk[1]
     IN IF f.ph = "read" /\ c.after
        THEN /\ stk' = SetTop([f EXCEPT !.ph = "ap"])
             /\ Call(CAfter(c.ty, reg, Opt(c.e, c.cnt, c.off), c.a))
             /\ Same(<<ci, res>>)
        ELSE NextCall([ok |-> TRUE, v |-> reg, er |-> EIo(""), pos |-> rd.pos, p0 |-> f.p0])
  /\ Same(<<cs, rd, ev>>)

TopErr ==
  /\ mode = "err" /\ stk[1].k = "top"
  /\ NextCall([ok |-> FALSE, v |-> VUnit, er |-> reg, pos |-> rd.pos, p0 |-> stk[1].p0])
  /\ Same(<<cs, rd, ev>>)

\* write the finished behaviour out, once
Finish ==
  /\ mode = "fin"
  /\ mode' = "out"
  /\ CSVWrite("%1$s", <<ToJson([c |-> cs, mem |-> rd.mem, eof |-> rd.eof, bad |-> rd.bad, hi |-> rd.hi,
                                 res |-> res, ev |-> ev])>>, OutFile)
  /\ Same(<<cs, ci, rd, stk, reg, res, ev>>)

Terminated == mode = "out" /\ UNCHANGED vars

Read == ReadPrim \/ ReadSpy \/ ReadUnit \/ ReadSeq \/ ReadWrap \/ ReadStr \/ StrUnit \/ ReadDef
Ctl  == DefRet \/ DefErr \/ EnumRet \/ EnumErr \/ MagicRet \/ SeqRet \/ WrapRet \/ Unwind
Body == BodyMagic \/ BodyPre \/ BodySave \/ BodyAp \/ StoreAp \/ BodyAsserts \/ BodyRet
Field == FieldOpt \/ FieldMagic \/ FieldSave \/ FieldCond \/ FieldSeekBefore \/ FieldPadBefore
         \/ FieldAlignBefore \/ FieldMark \/ FieldRead \/ GotValue \/ TryRet \/ TryErr \/ FieldMap
         \/ FieldDerefNow \/ FieldPadSize \/ FieldPadAfter \/ FieldAlignAfter \/ FieldAssign
         \/ FieldAssert \/ FieldRestore
Unit == UnitEnumPrelude \/ UnitEnumGot \/ MapTypePrelude \/ MapTypeGot
After == AfterNothing \/ AfterSpy \/ AfterWrap \/ AfterSeqRet \/ AfterPtr \/ PtrRet
Parse == ElemRet \/ ParseCustom \/ ParseLoop \/ LoopRet \/ LoopEof \/ ParseBytes \/ ParsePtr
         \/ ParseThenAfter \/ ParsePunct \/ PunctRet
Top  == TopRet \/ TopErr \/ Finish

Next == Read \/ Ctl \/ Body \/ Field \/ Unit \/ After \/ Parse \/ Top \/ Terminated

Spec == Init /\ [][Next]_vars
=============================================================================
