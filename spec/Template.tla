------------------------------ MODULE Template ------------------------------
(***************************************************************************)
(* The debug template: what the machine of BinRead writes about its own    *)
(* reads when the feature is on.  An entry is written at the start of      *)
(* every read of a scalar, string, pointer or collection - whether or not  *)
(* the read goes on to succeed - unless an enclosing entry (of a vector,   *)
(* an array, a byte-string magic or a pointer) already covers its bytes;   *)
(* a struct opens and closes an entry around everything it does.           *)
(***************************************************************************)
EXTENDS BinReadMC

VARIABLE tpl
tvars == <<vars, tpl>>

\* the element type of what is read as one collection entry
Collective(T) == T.k \in {"vec", "arr"} \/ T.s = "bytes"
\* an enclosing read has described these bytes already
Described == \E i \in 1..Len(stk) :
               \/ stk[i].k = "sq" /\ Collective(Types[stk[i].ty])
               \/ stk[i].k = "wr" /\ stk[i].t = "ptr"

\* the name of what is being read: a magic, or the innermost field
RECURSIVE NameIn(_)
NameIn(s) ==
  IF s = <<>> THEN ""
  ELSE CASE s[1].k = "mg" -> "magic"
         [] s[1].k = "bd" /\ s[1].sec \in {"fld", "ap"} -> BodyOf(s[1]).fields[s[1].i].nm
         [] OTHER -> NameIn(Tail(s))

Entry(k, e, p, t, s, n, c) == <<[k |-> k, e |-> e, p |-> p, t |-> t, s |-> s, n |-> n, c |-> c]>>
Plain(s) == Entry("r", reg.o.e, rd.pos, 0, s, NameIn(stk), -1)
Many(t, s, c) == Entry("r", reg.o.e, rd.pos, t, s, NameIn(stk), c)

Opens(ty) == IsDef(ty) /\ Defs[Types[ty].d].k = "struct" /\ ~Defs[Types[ty].d].bodies[1].unit

ReadEntry ==
  LET T == Types[reg.ty]
  IN IF IsDef(reg.ty)
     THEN IF Opens(reg.ty) THEN Entry("{", "", 0, 0, Defs[T.d].nm, "", -1) ELSE <<>>
     ELSE IF Described THEN <<>>
     ELSE CASE T.k = "prim" -> Plain(IF T.s = "char" THEN "u8" ELSE T.s)
            [] T.s = "nz" -> <<>>                      \* bare vectors of units: see below
            [] T.k = "nstr" -> Plain("string")
            [] T.k = "wstr" -> Plain("wstring")
            [] T.k = "ptr"  -> Entry("r", reg.o.e, rd.pos, 0, Types[T.a[1]].s, IF NameIn(stk) = "" THEN "" ELSE "ptr_to_" \o NameIn(stk), -1)
            [] T.k = "vec"  -> IF reg.o.cnt < 0 THEN <<>> ELSE Many(T.a[1], "", reg.o.cnt)
            [] T.k = "arr"  -> Many(T.a[1], "", T.n)
            [] T.s = "bytes" -> Many(0, "u8", Len(T.a))
            [] OTHER -> <<>>

Closes == /\ Len(stk) > 0 /\ stk[1].k = "df" /\ Defs[stk[1].d].k = "struct" /\ ~Defs[stk[1].d].bodies[1].unit
          /\ mode \in {"ret", "err"} /\ (mode = "err" => reg.t # "panic")

\* a vector of 16-bit units describes each of them, one of bytes nothing
Units == mode = "ret" /\ Len(stk) > 0 /\ stk[1].k = "st" /\ Types[stk[1].ty].k = "wstr" /\ Types[stk[1].ty].s = "nz"

Now == CASE mode = "call" /\ reg.w = "read" -> ReadEntry
         [] Closes -> Entry("}", "", 0, 0, "", NameIn(Tail(stk)), -1)
         [] Units -> IF Described THEN <<>> ELSE Entry("r", stk[1].e, rd.pos, 0, "u16", NameIn(stk), -1)
         [] OTHER -> <<>>

TFinish ==
  /\ mode = "fin"
  /\ mode' = "out"
  /\ CSVWrite("%1$s", <<ToJson([c |-> cs, mem |-> rd.mem, eof |-> rd.eof, bad |-> rd.bad, hi |-> rd.hi,
                                 res |-> res, ev |-> ev, tpl |-> tpl])>>, OutFile)
  /\ Same(<<cs, ci, rd, stk, reg, res, ev>>)

TInit == Init /\ tpl = <<>>
TStep == Read \/ Ctl \/ Body \/ Field \/ Unit \/ After \/ Parse \/ TopRet \/ TopErr
TNext == \/ TStep /\ tpl' = tpl \o Now
         \/ (TFinish \/ Terminated) /\ tpl' = tpl
TSpec == TInit /\ [][TNext]_tvars

(***************************************************************************)
(* Struct entries nest: at any time as many are open as structs are being  *)
(* read, and none at the end, whatever happened (short of a panic).        *)
(***************************************************************************)
Count(k) == Cardinality({i \in 1..Len(tpl) : tpl[i].k = k})
Open == Cardinality({i \in 1..Len(stk) : stk[i].k = "df" /\ Defs[stk[i].d].k = "struct" /\ ~Defs[stk[i].d].bodies[1].unit})
Panicked == \E i \in 1..Len(res) : ~res[i].ok /\ res[i].er.t = "panic"
Balanced == (~Panicked /\ ~(mode = "err" /\ reg.t = "panic")) => Count("{") - Count("}") = Open
\* nothing is described twice while it is being read: what is covered by an
\* enclosing entry adds none
Once == [][Described => \A i \in Len(tpl) + 1 .. Len(tpl') : tpl'[i].k # "r"]_tvars
\* an entry is where the reader was, in the byte order in force
Placed == [][\A i \in Len(tpl) + 1 .. Len(tpl') : tpl'[i].k = "r" => tpl'[i].p = rd.pos /\ tpl'[i].e = IF mode = "call" THEN reg.o.e ELSE stk[1].e]_tvars
=============================================================================
