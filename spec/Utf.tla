-------------------------------- MODULE Utf ---------------------------------
(***************************************************************************)
(* What the units of a null-terminated string are as text: bytes as UTF-8, *)
(* 16-bit units as UTF-16, decoded one unit at a time.  Ill-formed input   *)
(* is replaced (one U+FFFD for each maximal part of a sequence, as Unicode *)
(* recommends) by the lossy conversions and refused by the lossless ones.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV

Par == JsonDeserialize(IOEnv.UTF_PAR)    \* [kinds, n, w, max, min]
OutFile == IOEnv.UTF_OUT
RangeOf(s) == {s[i] : i \in 1..Len(s)}
FFFD == 65533

VARIABLES kind, in, need, lo, hi, cp, out, bad, st
vars == <<kind, in, need, lo, hi, cp, out, bad, st>>

Init == kind \in RangeOf(Par.kinds) /\ in = <<>> /\ need = 0 /\ lo = 128 /\ hi = 191 /\ cp = 0 /\ out = <<>> /\ bad = FALSE /\ st = "run"

Emit(o, c) == Append(o, c)
\* the decoder, on one unit: [o, need, lo, hi, cp, bad]
First8(o, b, x) ==
  CASE b < 128 -> [o |-> Emit(o, b), need |-> 0, lo |-> 128, hi |-> 191, cp |-> 0, bad |-> x]
    [] b \in 194..223 -> [o |-> o, need |-> 1, lo |-> 128, hi |-> 191, cp |-> b - 192, bad |-> x]
    [] b \in 224..239 -> [o |-> o, need |-> 2, lo |-> IF b = 224 THEN 160 ELSE 128, hi |-> IF b = 237 THEN 159 ELSE 191, cp |-> b - 224, bad |-> x]
    [] b \in 240..244 -> [o |-> o, need |-> 3, lo |-> IF b = 240 THEN 144 ELSE 128, hi |-> IF b = 244 THEN 143 ELSE 191, cp |-> b - 240, bad |-> x]
    [] OTHER -> [o |-> Emit(o, FFFD), need |-> 0, lo |-> 128, hi |-> 191, cp |-> 0, bad |-> TRUE]
Step8(b) ==
  IF need = 0 THEN First8(out, b, bad)
  ELSE IF b \in lo..hi
       THEN LET c == (cp * 64) + (b - 128) IN
            IF need = 1 THEN [o |-> Emit(out, c), need |-> 0, lo |-> 128, hi |-> 191, cp |-> 0, bad |-> bad]
            ELSE [o |-> out, need |-> need - 1, lo |-> 128, hi |-> 191, cp |-> c, bad |-> bad]
       ELSE First8(Emit(out, FFFD), b, TRUE)
High(u) == u \in 55296..56319
Low(u) == u \in 56320..57343
First16(o, u, x) ==
  CASE High(u) -> [o |-> o, need |-> 1, lo |-> 128, hi |-> 191, cp |-> u, bad |-> x]
    [] Low(u) -> [o |-> Emit(o, FFFD), need |-> 0, lo |-> 128, hi |-> 191, cp |-> 0, bad |-> TRUE]
    [] OTHER -> [o |-> Emit(o, u), need |-> 0, lo |-> 128, hi |-> 191, cp |-> 0, bad |-> x]
Step16(u) ==
  IF need = 0 THEN First16(out, u, bad)
  ELSE IF Low(u) THEN [o |-> Emit(out, 65536 + ((cp - 55296) * 1024) + (u - 56320)), need |-> 0, lo |-> 128, hi |-> 191, cp |-> 0, bad |-> bad]
  ELSE First16(Emit(out, FFFD), u, TRUE)

Unit ==
  /\ st = "run" /\ Len(in) < Par.max
  /\ \E u \in RangeOf(IF kind = "n" THEN Par.n ELSE Par.w) :
       LET r == IF kind = "n" THEN Step8(u) ELSE Step16(u) IN
       /\ in' = Append(in, u)
       /\ out' = r.o /\ need' = r.need /\ lo' = r.lo /\ hi' = r.hi /\ cp' = r.cp /\ bad' = r.bad
  /\ UNCHANGED <<kind, st>>

End ==
  /\ st = "run" /\ Len(in) >= Par.min
  /\ st' = "end"
  /\ out' = IF need > 0 THEN Emit(out, FFFD) ELSE out
  /\ bad' = (bad \/ need > 0)
  /\ CSVWrite("%1$s", <<ToJson([k |-> kind, in |-> in, out |-> out', bad |-> bad'])>>, OutFile)
  /\ UNCHANGED <<kind, in, need, lo, hi, cp>>

Stop == st = "end" /\ UNCHANGED vars
Next == Unit \/ End \/ Stop
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Nothing is lost when the text is valid: encoding what came out gives    *)
(* back what went in - and only then.                                      *)
(***************************************************************************)
Enc8(c) == CASE c < 128 -> <<c>>
             [] c < 2048 -> <<192 + (c \div 64), 128 + (c % 64)>>
             [] c < 65536 -> <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
             [] OTHER -> <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Enc16(c) == IF c < 65536 THEN <<c>> ELSE <<55296 + ((c - 65536) \div 1024), 56320 + ((c - 65536) % 1024)>>
RECURSIVE Enc(_)
Enc(o) == IF o = <<>> THEN <<>> ELSE (IF kind = "n" THEN Enc8(o[1]) ELSE Enc16(o[1])) \o Enc(Tail(o))
RoundTrip == st = "end" => (~bad <=> Enc(out) = in)
\* only Unicode scalar values come out
Scalar == \A i \in 1..Len(out) : out[i] \in 0..1114111 /\ ~(High(out[i]) \/ Low(out[i]))
\* a replacement stands for at least one unit
Short == Len(out) <= Len(in)
=============================================================================
