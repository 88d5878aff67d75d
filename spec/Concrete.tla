------------------------------ MODULE Concrete ------------------------------
(***************************************************************************)
(* The machine of BinRead on inputs that are given in full: nothing is     *)
(* left to choose, so it computes what a read has to come to.  Inputs are  *)
(* arbitrary bytes, so a behaviour is abandoned (without a verdict) where  *)
(* it gets to numbers whose arithmetic the specification does not carry    *)
(* out faithfully, or takes too long.                                      *)
(***************************************************************************)
EXTENDS Faithful

Inputs == JsonDeserialize(IOEnv.BR_IN)      \* [c: case, mem: bytes, bad: offset or -1]

VARIABLES inp, steps, left
cvars == <<vars, inp, steps, left>>

CInit ==
  /\ inp \in 1..Len(Inputs)
  /\ cs = Inputs[inp].c
  /\ ci = 1
  /\ rd = [pos |-> Cases[cs].start, mem |-> [i \in 1..Len(Inputs[inp].mem) |-> IF i = Inputs[inp].bad + 1 THEN -1 ELSE Inputs[inp].mem[i]], eof |-> Len(Inputs[inp].mem), bad |-> Inputs[inp].bad, hi |-> 0,
           slim |-> Cases[cs].slim, eofb |-> 0, badb |-> 0, lim |-> 0]
  /\ stk = <<TopFrame(cs, 1, Cases[cs].start)>>
  /\ mode = "call"
  /\ reg = StartCall(cs, 1)
  /\ res = <<>> /\ ev = <<>>
  /\ steps = 0 /\ left = FALSE

Stops == steps > 1500 \/ Unfaithful

Leave ==
  /\ ~left /\ mode \in {"call", "ret", "err"} /\ Stops
  /\ left' = TRUE
  /\ UNCHANGED <<vars, inp, steps>>

Step ==
  /\ ~left /\ mode \in {"call", "ret", "err"} /\ ~Stops
  /\ (Read \/ Ctl \/ Body \/ Field \/ Unit \/ After \/ Parse \/ TopRet \/ TopErr)
  /\ steps' = steps + 1
  /\ UNCHANGED <<inp, left>>

CFinish ==
  /\ mode = "fin"
  /\ mode' = "out"
  /\ CSVWrite("%1$s", <<ToJson([i |-> inp, c |-> cs, res |-> res, ev |-> ev])>>, OutFile)
  /\ UNCHANGED <<cs, ci, rd, stk, reg, res, ev, inp, steps, left>>

Done == (mode = "out" \/ left) /\ UNCHANGED cvars

CNext == Leave \/ Step \/ CFinish \/ Done
CSpec == CInit /\ [][CNext]_cvars
=============================================================================
