------------------------------ MODULE ConcreteT -----------------------------
(***************************************************************************)
(* Concrete, with the debug template of Template.                          *)
(***************************************************************************)
EXTENDS Template, Faithful

Inputs == JsonDeserialize(IOEnv.BR_IN)      \* [c: case, mem: bytes, bad: offset or -1]

VARIABLES inp, steps, left
cvars == <<tvars, inp, steps, left>>

CInit ==
  /\ inp \in 1..Len(Inputs)
  /\ cs = Inputs[inp].c
  /\ ci = 1
  /\ rd = [pos |-> Cases[cs].start, mem |-> [i \in 1..Len(Inputs[inp].mem) |-> IF i = Inputs[inp].bad + 1 THEN -1 ELSE Inputs[inp].mem[i]], eof |-> Len(Inputs[inp].mem), bad |-> Inputs[inp].bad, hi |-> 0,
           slim |-> Cases[cs].slim, eofb |-> 0, badb |-> 0, lim |-> 0]
  /\ stk = <<TopFrame(cs, 1, Cases[cs].start)>>
  /\ mode = "call"
  /\ reg = StartCall(cs, 1)
  /\ res = <<>> /\ ev = <<>> /\ tpl = <<>>
  /\ steps = 0 /\ left = FALSE

Stops == steps > 1500 \/ Unfaithful

Leave ==
  /\ ~left /\ mode \in {"call", "ret", "err"} /\ Stops
  /\ left' = TRUE
  /\ UNCHANGED <<tvars, inp, steps>>

Step ==
  /\ ~left /\ mode \in {"call", "ret", "err"} /\ ~Stops
  /\ TStep /\ tpl' = tpl \o Now
  /\ steps' = steps + 1
  /\ UNCHANGED <<inp, left>>

CFinish ==
  /\ mode = "fin"
  /\ mode' = "out"
  /\ CSVWrite("%1$s", <<ToJson([i |-> inp, c |-> cs, res |-> res, ev |-> ev, tpl |-> tpl])>>, OutFile)
  /\ UNCHANGED <<cs, ci, rd, stk, reg, res, ev, tpl, inp, steps, left>>

Done == (mode = "out" \/ left) /\ UNCHANGED cvars

CNext == Leave \/ Step \/ CFinish \/ Done
CSpec == CInit /\ [][CNext]_cvars
=============================================================================
