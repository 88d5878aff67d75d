-------------------------------- MODULE Bulk --------------------------------
(***************************************************************************)
(* Collections, strings and distances of realistic and awkward sizes.      *)
(*                                                                         *)
(* BinRead.tla settles what each step does on small values; this module    *)
(* settles that nothing changes when there are many of them.  The input is *)
(* symbolic (byte i is Pat(i), except for a terminator at a chosen place,  *)
(* cut off after `len` bytes, failing at `bad`), so sizes around every     *)
(* power-of-two boundary fit.  Elements are taken in runs; a run of k is   *)
(* k single steps (RunInv checks that the outcome does not depend on how   *)
(* the runs were cut).                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV

Par == JsonDeserialize(IOEnv.BULK_PAR)      \* [kinds, sizes, runs]
OutFile == IOEnv.BULK_OUT
RangeOf(s) == {s[i] : i \in 1..Len(s)}

VARIABLES c, i, pos, st, out
vars == <<c, i, pos, st, out>>

Pat(x) == ((x * 7) % 251) + 1
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y

Counted == {"vec_u8", "vec_u16", "vec_st", "vec_arr", "count_u8", "count_st", "rb", "sep", "sept", "vec_spy"}
Ended   == {"until", "untilx", "until16", "nstr", "wstr", "vecnz"}
ToEof   == {"ueof", "ueof16"}
Moves   == {"pad_before", "pad_after", "pad_size", "align_after", "ptr", "seek"}

\* bytes per element
W(k) == CASE k \in {"vec_u16", "until16", "wstr", "ueof16"} -> 2
          [] k \in {"vec_st", "vec_arr", "count_st"} -> 3
          [] OTHER -> 1
\* bytes of a separator
Sep(k) == IF k \in {"sep", "sept"} THEN 1 ELSE 0
\* bytes from the beginning of element number x (from 0) to the beginning
Off(k, x) == x * (W(k) + Sep(k))
\* bytes needed for n elements
Need(k, n) == CASE k = "sep" -> IF n = 0 THEN 0 ELSE 2 * n - 1
                [] k \in Ended -> (n + 1) * W(k)
                [] OTHER -> Off(k, n)
\* does the terminator belong to the result?
Kept(k) == k \in {"until", "until16"}

Start == 5      \* where the value begins; the object has one byte before it

\* a case: kind, size, how many bytes there are (from Start on), where the device fails (-1: never)
Lens(k, n) == {Need(k, n), Need(k, n) + 3} \cup (IF Need(k, n) > 0 THEN {Need(k, n) - 1} ELSE {})
              \cup (IF Need(k, n) > 70000 THEN {Need(k, n) - 70000, 65536, 65535} ELSE {})
Cases ==
  {[k |-> k, n |-> n, len |-> l, bad |-> -1] : k \in RangeOf(Par.kinds) \ (Moves \cup ToEof), n \in RangeOf(Par.sizes), l \in {0}}
Full == UNION {
  {[x EXCEPT !.len = l] : l \in Lens(x.k, x.n)}
  \cup (IF Need(x.k, x.n) > 1 THEN {[x EXCEPT !.len = Need(x.k, x.n), !.bad = b] : b \in {Need(x.k, x.n) - 1, Need(x.k, x.n) \div 2}} ELSE {})
  : x \in Cases}
Eofs == {[k |-> k, n |-> 0, len |-> l, bad |-> -1] : k \in RangeOf(Par.kinds) \cap ToEof, l \in RangeOf(Par.sizes)}
Movs == {[k |-> k, n |-> n, len |-> l, bad |-> -1] : k \in RangeOf(Par.kinds) \cap Moves, n \in RangeOf(Par.sizes) \ {0}, l \in {0, 1}}
\* far more elements than there is input
Huge == {[k |-> k, n |-> n, len |-> l, bad |-> -1] :
           k \in RangeOf(Par.kinds) \cap Counted, n \in RangeOf(Par.huge), l \in {0, 10, 70000}}

\* samples of the result: elements at these indices, most significant byte first irrelevant
\* (the harness reads big-endian)
Idx(m) == {x \in {0, 1, 254, 255, 256, 4095, 4096, 65534, 65535, 65536, m \div 2, m - 2, m - 1} : 0 <= x /\ x < m}
ElemAt(k, x) ==
  IF Kept(k) /\ x = c.n THEN [j \in 1..W(k) |-> 0]
  ELSE [j \in 1..W(k) |-> Pat(Start + Off(k, x) + j - 1)]

Init ==
  /\ c \in Full \cup Eofs \cup Movs \cup Huge
  /\ i = 0 /\ pos = Start /\ st = "run" /\ out = <<>>

\* first offset that cannot be delivered, and why
Avail == IF c.bad >= 0 /\ c.bad < c.len THEN c.bad ELSE c.len
Why   == IF c.bad >= 0 /\ c.bad < c.len THEN "bad" ELSE "eof"
\* elements wanted in total
Goal == IF c.k \in ToEof THEN (c.len \div W(c.k)) + 1 ELSE IF c.k \in Ended THEN c.n + 1 ELSE c.n
\* the elements (with what separates them) that are completely there
There == CASE c.k = "sep" -> (Avail + 1) \div 2
           [] OTHER -> Avail \div (W(c.k) + Sep(c.k))
BeginOf(x) == Start + Off(c.k, x)
EndOf(x) == IF x = 0 THEN Start
            ELSE IF c.k = "sep" THEN Start + Off(c.k, x) - 1     \* the separator is not asked for yet
            ELSE Start + Off(c.k, x)

Run ==
  /\ st = "run" /\ c.k \notin Moves
  /\ \E k \in RangeOf(Par.runs) :
       LET room == Min2(Goal, There) - i
           n == Min2(k, room)
       IN /\ n > 0
          /\ i' = i + n /\ pos' = EndOf(i + n)
  /\ UNCHANGED <<c, st, out>>

\* nothing more to take: finished, or something is missing
Done ==
  /\ st = "run" /\ c.k \notin Moves
  /\ i = Min2(Goal, There)
  /\ LET m == CASE c.k \in ToEof -> i
                [] Kept(c.k) -> c.n + 1
                [] OTHER -> c.n
     IN IF c.k \in ToEof
        THEN /\ st' = "ok" /\ out' = [n |-> m, why |-> ""] /\ UNCHANGED pos
        ELSE IF i = Goal
        THEN /\ st' = "ok" /\ out' = [n |-> m, why |-> ""]
             /\ UNCHANGED pos
        ELSE /\ st' = "err" /\ out' = [n |-> 0, why |-> Why] /\ pos' = Start - 1
  /\ UNCHANGED <<c, i>>

\* positioning over large distances: a byte `len` bytes (0: none) beyond the target.
\* The object is: one byte, the directive on a one-byte field, one byte.
Target == CASE c.k = "pad_before"  -> <<Start + c.n, Start + c.n + 1>>
            [] c.k = "pad_after"   -> <<Start, Start + 1 + c.n>>
            [] c.k = "pad_size"    -> <<Start, Start + Max2(1, c.n)>>
            [] c.k = "align_after" -> <<Start, Start + 1 + ((c.n - ((Start + 1) % c.n)) % c.n)>>
            [] c.k = "seek"        -> <<c.n, c.n + 1>>
            [] c.k = "ptr"         -> <<c.n, Start + 4>>
\* the byte behind: there when the input is long enough
Move ==
  /\ st = "run" /\ c.k \in Moves
  /\ LET last == Max2(Target[1], Target[2])
         total == Max2(last + c.len, Start)    \* length of the input; the first byte is always there
         ok == Target[1] < total /\ Target[2] < total
     IN IF ok
        THEN st' = "ok" /\ pos' = Target[2] + 1 /\ out' = [n |-> 1, why |-> ""]
        ELSE st' = "err" /\ pos' = Start - 1 /\ out' = [n |-> 0, why |-> "eof"]
  /\ UNCHANGED <<c, i>>

\* value samples
Samples == IF c.k \in Moves THEN <<<<0, <<Pat(Target[1])>>>>, <<1, <<Pat(Target[2])>>>>>>
           ELSE LET S == Idx(out.n)
                    RECURSIVE L(_)
                    L(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<<<m, ElemAt(c.k, m)>>>> \o L(T \ {m})
                IN L(S)
Seps == CASE c.k = "sep" -> Max2(c.n, 1) - 1 [] c.k = "sept" -> c.n [] OTHER -> 0

Write ==
  /\ st \in {"ok", "err"}
  /\ st' = "out"
  /\ CSVWrite("%1$s", <<ToJson([c |-> c, ok |-> st = "ok", why |-> out.why, n |-> out.n, pos |-> pos, seps |-> Seps,
        total |-> IF c.k \in Moves THEN Max2(Max2(Target[1], Target[2]) + c.len, Start) ELSE Start + c.len,
        s |-> IF st = "ok" THEN Samples ELSE <<>>])>>, OutFile)
  /\ UNCHANGED <<c, i, pos, out>>

Stop == st = "out" /\ UNCHANGED vars
Next == Run \/ Done \/ Move \/ Write \/ Stop
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* An object is complete exactly when everything it needs is there, no     *)
(* matter how the runs were cut; nothing beyond what it needs is consumed. *)
(***************************************************************************)
RunInv ==
  c.k \in Counted \cup Ended =>
    /\ st = "ok" => Need(c.k, c.n) <= Avail /\ pos = Start + Need(c.k, c.n)
    /\ st = "err" => Need(c.k, c.n) > Avail
    /\ st = "run" => pos <= Start + Need(c.k, c.n) /\ pos - Start <= Avail
EofInv == c.k \in ToEof /\ st = "ok" => out.n = c.len \div W(c.k) /\ pos = Start + out.n * W(c.k)
=============================================================================
