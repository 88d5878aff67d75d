------------------------------- MODULE Faults -------------------------------
(***************************************************************************)
(* A device that fails.  The machine of BinRead runs on inputs that are    *)
(* given in full; at any step that may use the device one operation fails  *)
(* ("once": the device works again afterwards), or every operation from    *)
(* then on does ("dead").  What a fault does to a read follows from what   *)
(* the step was for: a fault in a forward step is an error like any other, *)
(* which alternatives and `try` recover from; a fault in the step that     *)
(* goes back to where such a recovery has to start is final.               *)
(***************************************************************************)
EXTENDS BinReadMC

Inputs == JsonDeserialize(IOEnv.BR_IN)      \* [c: case, mem: bytes, bad: offset or -1]

VARIABLES
  inp,    \* which input
  fk,     \* "once" | "dead"
  used,   \* a fault has happened
  cur,    \* one has happened in this call
  lost,   \* going back failed: the reader is nobody knows where
  flog    \* of the finished calls: cur and lost

faux == <<inp, fk, used, cur, lost, flog>>
fvars == <<vars, faux>>

Died == EIo("died")

FInit ==
  /\ inp \in 1..Len(Inputs)
  /\ cs = Inputs[inp].c
  /\ ci = 1
  /\ rd = [pos |-> Cases[cs].start, mem |-> Inputs[inp].mem, eof |-> Len(Inputs[inp].mem), bad |-> Inputs[inp].bad, hi |-> 0,
           slim |-> Cases[cs].slim, eofb |-> 0, badb |-> 0, lim |-> 0]
  /\ stk = <<TopFrame(cs, 1, Cases[cs].start)>>
  /\ mode = "call"
  /\ reg = StartCall(cs, 1)
  /\ res = <<>>
  /\ ev = <<>>
  /\ fk \in {"once", "dead"}
  /\ used = FALSE /\ cur = FALSE /\ lost = FALSE /\ flog = <<>>

Restoring == mode = "err" /\ stk[1].k \in {"df", "en", "tf"} /\ reg.t # "panic"

\* steps that obtain data or go back: they cannot do without the device
Must ==
  \/ mode = "call" /\ reg.w = "read" /\ Types[reg.ty].k \in {"prim", "spy"}
  \/ mode = "call" /\ reg.w = "pw" /\ reg.p.k = "rb" /\ reg.o.cnt > 0
  \/ mode = "ret" /\ stk[1].k = "st"
  \/ Restoring

\* steps that may use it: an implementation may ask for its position at any
\* of them; of the others, no user-visible effect separates them from these
May ==
  \/ Must
  \/ mode = "call" /\ (reg.w = "ap" => NeedsApT[reg.ty])
  \/ mode = "ret" /\ stk[1].k \in {"pt", "sq", "lp", "pu", "el", "aq", "ue", "mp", "sa"}
  \/ mode = "ret" /\ stk[1].k = "bd" /\ ~(stk[1].sec = "fld" /\ PH[stk[1].ph] \in {"opt", "cond", "asg", "as"})

\* user code that is told about a read before it takes place
Told == IF mode = "call" /\ reg.w = "read" /\ Types[reg.ty].k = "spy"
        THEN {ev, Append(ev, SpyEv("r", Types[reg.ty].n, rd.pos, reg.o, reg.a))}
        ELSE {ev}

Fault ==
  /\ mode \in {"call", "ret", "err"} /\ May
  /\ fk = "once" => ~used
  /\ used' = TRUE /\ cur' = TRUE
  /\ lost' = (lost \/ Restoring)
  /\ stk' = IF Restoring THEN Pop(1) ELSE stk
  /\ ev' \in Told
  /\ Fail(Died)
  /\ Same(<<cs, ci, rd, res, inp, fk, flog>>)

Dead == fk = "dead" /\ used

FStep == Read \/ Ctl \/ Body \/ Field \/ Unit \/ After \/ Parse \/ TopRet \/ TopErr

Step ==
  /\ mode \in {"call", "ret", "err"}
  /\ ~(Dead /\ Must)
  /\ FStep
  /\ LET ended == Len(res') > Len(res)
     IN /\ flog' = IF ended THEN Append(flog, [cur |-> cur, lost |-> lost]) ELSE flog
        /\ cur' = (cur /\ ~ended)
        /\ lost' = (lost /\ ~ended /\ ~Restoring)
  /\ Same(<<inp, fk, used>>)

FFinish ==
  /\ mode = "fin"
  /\ mode' = "out"
  /\ CSVWrite("%1$s", <<ToJson([i |-> inp, c |-> cs, fk |-> IF used THEN fk ELSE "none", res |-> res, log |-> flog, ev |-> ev])>>, OutFile)
  /\ Same(<<cs, ci, rd, stk, reg, res, ev, faux>>)

FNext == Fault \/ Step \/ FFinish \/ (Terminated /\ UNCHANGED faux)
FSpec == FInit /\ [][FNext]_fvars

(***************************************************************************)
(* When going back has failed, nothing is read, tried or built any more    *)
(* by anybody who relied on it: the call is failing with that error.       *)
(***************************************************************************)
LostInv == lost => mode = "err" /\ reg = Died

\* a device that is gone for good: the call it happens in fails, with that error
DeadInv ==
  /\ fk = "dead" /\ cur => mode = "err" /\ reg = Died
  /\ \A i \in 1..Len(flog) : fk = "dead" /\ flog[i].cur => ~res[i].ok /\ res[i].er = Died

\* C01 under faults: a failed read of a derived type leaves the reader where it
\* began, unless going back was what failed
FRewindInv ==
  \A i \in 1..Len(flog) :
    /\ ~res[i].ok /\ res[i].er.t # "panic" /\ IsDef(CallOf(cs, i).ty) /\ ~flog[i].lost => res[i].pos = res[i].p0
    /\ flog[i].lost => ~res[i].ok /\ res[i].er = Died

\* a value that was built in spite of a fault was built by a recovery
Recovers(s) == \E i \in 1..Len(s) : s[i].k \in {"en", "tf"}
Recovered ==
  [][mode = "err" /\ mode' \in {"ret", "call"} /\ res' = res => stk[1].k \in {"en", "tf", "lp"}]_fvars
=============================================================================
