------------------------------ MODULE Faithful ------------------------------
(***************************************************************************)
(* Where the machine of BinRead stops being a faithful account of the      *)
(* implementation because of the size of numbers: TLC's integers are 32    *)
(* bits wide, arithmetic in directives is done in 64 bits, and counts,     *)
(* offsets and arguments are converted to unsigned numbers.                *)
(***************************************************************************)
EXTENDS BinReadMC

Refs == Prog.refs                           \* per definition, body and field: mentioned by expressions of the body

SMALL == 4096
WIDE == 500000000
RECURSIVE Bigs(_)
Bigs(v) == \/ v.t \in {"u", "i", "ch", "x"} /\ ~(Num(v) < SMALL /\ Num(v) > -SMALL)
           \/ v.t = "f"
           \/ \E i \in 1..Len(v.c) : Bigs(v.c[i])
Neg(o) == Has(o) /\ FX(o[1]) < 0
LONG == 300
\* replays also happen far from the start of the stream, at a multiple of 4194304 * 765765: positions differ modulo other numbers
OddAlign(o) == Has(o) /\ LET a == FX(o[1]) IN a >= SMALL \/ (a > 0 /\ ((4194304 % a) * (765765 % a)) % a # 0)

InField(f) ==
  LET x == Fld(f)
      ph == PH[f.ph]
  IN CASE ph = "asg" -> Refs[f.d][f.vi][f.i] /\ Bigs(f.tmp)
       [] ph = "opt" -> \/ Neg(x.cnt) \/ Neg(x.off)
                        \/ ~x.araw /\ \E i \in 1..Len(x.args) : FX(x.args[i]) < 0
       [] ph = "sb"  -> x.sb[1].w = "S" /\ FX(x.sb[1].x) < 0
       [] ph = "ab"  -> Neg(x.ab) \/ OddAlign(x.ab)
       [] ph = "aa"  -> Neg(x.aa) \/ OddAlign(x.aa)
       [] ph = "psz" -> Neg(x.pst)
       [] ph = "map" -> Bigs(f.tmp)
       [] OTHER -> FALSE

Unfaithful ==
  \/ rd.pos > WIDE
  \/ mode = "ret" /\ LET f == stk[1] IN
       CASE f.k = "bd" /\ f.sec = "fld" -> InField(f)
         [] f.k = "bd" /\ f.sec = "ap" -> \E i \in 1..Len(BodyOf(f).fields) : Neg(BodyOf(f).fields[i].offa)
         [] f.k = "sa" -> Refs[stk[2].d][stk[2].vi][stk[2].i] /\ Bigs(reg)
         [] f.k = "lp" -> f.p.k \in {"until", "untilx"} /\ Bigs(reg)
         [] f.k = "mp" -> f.sec = "got" /\ Bigs(reg)
         [] OTHER -> FALSE
  \/ mode = "call" /\
       CASE reg.w = "ap" -> Types[reg.ty].k = "ptr" /\ (reg.o.off > WIDE \/ ~(PrimNum(reg.v.c[1]) < WIDE /\ PrimNum(reg.v.c[1]) > -WIDE))
         [] reg.w = "read" -> Types[reg.ty].k = "vec" /\ reg.o.cnt > LONG
         [] reg.w = "pw" -> \/ reg.p.k \in {"sep", "sept"} /\ reg.o.cnt > LONG
                            \/ reg.p.k = "count" /\ LET n == Ev(reg.p.c, reg.env, reg.imps, VUnit) IN n < 0 \/ n > LONG
         [] OTHER -> FALSE
=============================================================================
