----------------------------- MODULE BinReadMC -----------------------------
(***************************************************************************)
(* Properties of the machine in BinRead, stated without reference to how   *)
(* its actions compute things.  They are checked by TLC on every state of  *)
(* every program that is replayed against the implementation.              *)
(***************************************************************************)
EXTENDS BinRead

Frames == {"top", "df", "en", "bd", "mg", "gv", "tf", "sq", "wr", "st", "ue", "mp", "sa", "aq",
           "pt", "el", "lp", "pu"}

TypeOK ==
  /\ mode \in {"call", "ret", "err", "fin", "out"}
  /\ cs \in 1..Len(Cases) /\ ci \in 1..Len(Cases[cs].calls)
  /\ rd.pos >= 0
  /\ Len(rd.mem) <= 4096
  /\ mode \in {"call", "ret", "err"} => Len(stk) > 0 /\ stk[Len(stk)].k = "top"
  /\ mode \in {"fin", "out"} => stk = <<>> /\ Len(res) = Len(Cases[cs].calls)
  /\ \A i \in 1..Len(stk) : stk[i].k \in Frames
  /\ rd.eof >= 0 => rd.hi <= rd.eof
  /\ rd.bad >= 0 => Cell(rd, rd.bad) = -1

\* recursive types have infinitely many behaviours (and reads of cyclic pointers never end): a bound
Shallow == Len(stk) <= 40

(***************************************************************************)
(* C01: a failed read of a derived type leaves the reader where it began;  *)
(* C18/C21: and the next call begins where the previous one ended.         *)
(***************************************************************************)
RewindInv ==
  /\ \A i \in 1..Len(res) :
       /\ (~res[i].ok /\ res[i].er.t # "panic" /\ IsDef(CallOf(cs, i).ty)) => res[i].pos = res[i].p0
       /\ i > 1 => res[i].p0 = res[i - 1].pos

(***************************************************************************)
(* C02: the extent of a value is a function of the value.                  *)
(* -1: not determined by the value (positioning directives and the like).  *)
(***************************************************************************)
UNK == -1000000
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
PlainField(x) == x.rm = "read" /\ ~x.try /\ ~Has(x.map) /\ ~Has(x.cond) /\ ~Has(x.sb) /\ ~Has(x.pb) /\ ~Has(x.ab)
                 /\ ~Has(x.pst) /\ ~Has(x.pa) /\ ~Has(x.aa) /\ ~x.rp /\ ~x.temp
MagicSize(m) == IF Has(m) THEN (LET T == Types[m[1].ty] IN IF T.k = "prim" THEN T.n ELSE Len(T.a)) ELSE 0
RECURSIVE Extent(_, _)
Extent(ty, v) ==
  LET T == Types[ty]
  IN CASE T.k = "prim" -> T.n
       [] T.k = "spy"  -> IF Moves(T) THEN UNK ELSE 1
       [] T.k = "unit" -> 0
       [] T.k \in {"vec", "arr"} -> Sum([i \in 1..Len(v.c) |-> Extent(T.a[1], v.c[i])])
       [] T.k = "tup"  -> Sum([i \in 1..Len(v.c) |-> Extent(T.a[i], v.c[i])])
       [] T.k = "opt"  -> IF v.t = "some" THEN Extent(T.a[1], v.c[1]) ELSE UNK
       [] T.k = "box"  -> Extent(T.a[1], v)
       [] T.k = "pos"  -> Extent(T.a[1], v.c[1])
       [] T.k = "ptr"  -> Extent(T.a[1], v.c[1])
       [] T.k = "nstr" -> Len(v.b) + 1
       [] T.k = "wstr" -> 2 * Len(v.b) + 2
       [] T.k = "def"  ->
            LET D == Defs[T.d]
            IN IF D.k \in {"struct", "enum"}
               THEN LET vi == IF D.k = "enum" THEN v.n ELSE 1
                        B == D.bodies[vi]
                    IN IF \E i \in 1..Len(B.fields) : ~PlainField(B.fields[i]) THEN UNK
                       ELSE MagicSize(IF Has(B.magic) THEN B.magic ELSE D.magic)
                            + Sum([i \in 1..Len(B.fields) |-> MagicSize(B.fields[i].magic) + Extent(B.fields[i].ty, v.c[i])])
               ELSE IF D.k = "uenum"
               THEN MagicSize(D.magic) + (LET R == Types[D.rty[1]] IN IF R.k = "prim" THEN R.n ELSE Len(R.a))
               ELSE UNK
       [] OTHER -> UNK

ExtentInv ==
  \A i \in 1..Len(res) :
    res[i].ok => LET x == Extent(CallOf(cs, i).ty, res[i].v)
                 IN x < 0 \/ res[i].pos = res[i].p0 + x

(***************************************************************************)
(* C04: innermost directive wins, looked up structurally.                  *)
(***************************************************************************)
Choose(dir, f) == EndianOf(dir, "?", f.env, f.imps)
RECURSIVE Innermost(_)
Innermost(j) ==
  LET f == stk[j]
  IN CASE f.k = "top" -> CallOf(cs, ci).e
       [] f.k = "bd" ->
            LET B == Defs[f.d].bodies[f.vi]
                inField == f.sec \in {"fld", "ap"} /\ f.i <= Len(B.fields)
            IN IF inField /\ Has(B.fields[f.i].e) THEN Choose(B.fields[f.i].e, f)
               ELSE IF Defs[f.d].k = "enum" /\ Has(B.e) THEN Choose(B.e, f)
               ELSE IF Has(Defs[f.d].e) THEN Choose(Defs[f.d].e, f)
               ELSE Innermost(j + 1)
       [] f.k \in {"ue", "mp"} ->
            IF Has(Defs[f.d].e) THEN EndianOf(Defs[f.d].e, "?", <<>>, f.a) ELSE Innermost(j + 1)
       [] OTHER -> Innermost(j + 1)

ByteOrderInv ==
  /\ (mode = "call" /\ reg.w = "read" /\ Types[reg.ty].k \in {"prim", "spy"}) => reg.o.e = Innermost(1)
  /\ (mode = "ret" /\ stk[1].k = "st") => stk[1].e = Innermost(1)

(***************************************************************************)
(* C07: the list of errors of a data enum mirrors its variants             *)
(***************************************************************************)
RECURSIVE EnumErrsOk(_)
EnumErrsOk(e) ==
  /\ e.t = "enum" =>
       \E d \in 1..Len(Defs) :
         /\ Defs[d].k = "enum" /\ Defs[d].errmode = "all" /\ Len(Defs[d].bodies) = Len(e.c)
         /\ \A i \in 1..Len(e.c) : e.c[i].t = "named" /\ e.c[i].s = Defs[d].bodies[i].nm
  /\ e.t \in {"enum", "named"} => \A i \in 1..Len(e.c) : EnumErrsOk(e.c[i])
EnumInv ==
  /\ \A j \in 1..Len(stk) :
       stk[j].k = "en" =>
         /\ Len(stk[j].errs) = stk[j].vi - 1
         /\ \A i \in 1..Len(stk[j].errs) : stk[j].errs[i].s = Defs[stk[j].d].bodies[i].nm
  /\ mode = "err" => EnumErrsOk(reg)

(***************************************************************************)
(* C09: lengths                                                            *)
(***************************************************************************)
LengthInv ==
  /\ \A j \in 1..Len(stk) :
       /\ stk[j].k = "sq" => Len(stk[j].acc) < stk[j].n
       /\ stk[j].k = "sq" /\ Types[stk[j].ty].k = "vec" => stk[j].o.cnt = -1
       /\ stk[j].k = "pu" => Len(stk[j].d) - Len(stk[j].s) \in {0, 1} /\ Len(stk[j].s) < stk[j].n
  /\ \A i \in 1..Len(res) :
       res[i].ok => LET c == CallOf(cs, i) IN Types[c.ty].k = "vec" => Len(res[i].v.c) = c.cnt

(***************************************************************************)
(* C12: whatever a pointer does, the reader comes back                     *)
(***************************************************************************)
PointerInv ==
  \A j \in 1..Len(stk) :
    /\ (j = 1 /\ stk[j].k = "bd" /\ stk[j].sec \in {"as", "ret"} /\ mode = "ret") => rd.pos = stk[j].saved
    /\ stk[j].k = "pt" => PrimNum(stk[j].pv) + stk[j].o.off >= 0

(***************************************************************************)
(* C13: nothing is post-processed twice; in objects without map/try/parse_ *)
(* with everything that was read is.                                       *)
(***************************************************************************)
RECURSIVE Str(_, _)
Str(ty, seen) ==
  LET T == Types[ty]
  IN CASE ty \in seen -> TRUE                 \* a type that contains itself
       [] T.k = "def" ->
            LET D == Defs[T.d]
            IN D.k = "struct" /\ \A i \in 1..Len(D.bodies[1].fields) :
                 LET x == D.bodies[1].fields[i]
                 IN x.rm = "read" /\ ~x.try /\ ~Has(x.map) /\ ~Has(x.cond) /\ Str(x.ty, seen \cup {ty})
       [] T.k = "spy" -> TRUE
       [] OTHER -> \A i \in 1..Len(T.a) : Str(T.a[i], seen \cup {ty})
Straight(ty) == Str(ty, {})
NEv(t, tag) == Cardinality({i \in 1..Len(ev) : ev[i].t = t /\ ev[i].tag = tag})
Tags == {Types[i].n : i \in {i \in 1..Len(Types) : Types[i].k = "spy"}}
\* a field whose `if` is false gets its alternate (or default) value post-processed
\* without having been read
Unconditional == \A d \in 1..Len(Defs) : \A b \in 1..Len(Defs[d].bodies) :
                   \A i \in 1..Len(Defs[d].bodies[b].fields) : ~Has(Defs[d].bodies[b].fields[i].cond)
AfterInv ==
  /\ Unconditional => \A g \in Tags : NEv("a", g) <= NEv("r", g)
  /\ (mode = "fin" /\ \A i \in 1..Len(res) : res[i].ok /\ Straight(CallOf(cs, i).ty) /\ (CallOf(cs, i).after \/ IsDef(CallOf(cs, i).ty))) =>
        \A g \in Tags : NEv("a", g) = NEv("r", g)

=============================================================================
