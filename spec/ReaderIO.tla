------------------------------ MODULE ReaderIO ------------------------------
(***************************************************************************)
(* What the I/O layer of binread (binread::io, with and without std) does: *)
(* a cursor over a byte string that can be read, positioned and modified,  *)
(* and the provided methods (read_exact, bytes, stream_position, forwarding*)
(* through &mut R) on top of a device whose answers are chosen by the      *)
(* environment.                                                            *)
(*                                                                         *)
(* Every sequence of MaxOps operations is a behaviour; the finished log    *)
(* (operation, result, position) is written to OutFile and replayed into   *)
(* the real Cursor / Read / Seek of both configurations.                   *)
(*                                                                         *)
(* Positions do not fit TLC's integers.  A number is a pair <<h, l>>       *)
(* meaning h * 2^62 + l with small l, so that the interesting extremes     *)
(* (i64::MIN = <<-2, 0>>, i64::MAX = <<2, -1>>) are expressible exactly.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV

OutFile == IOEnv.IO_OUT
Kind    == IOEnv.IO_KIND                 \* "cursor" | "wide" | "device" | "kinds"
MaxOps  == atoi(IOEnv.IO_OPS)
Full    == IOEnv.IO_FULL = "1"           \* the full alphabet, or the core of it

VARIABLES
  data,    \* cursor: the contents
  pos,     \* cursor: the position
  known,   \* cursor: FALSE when the position is not specified
  script,  \* device: the answers the environment has chosen so far
  calls,   \* device: number of reads (seeks) it has received
  log,     \* finished operations
  done,    \* written out
  len0     \* cursor: length of the contents it was made with

vars == <<data, pos, known, script, calls, log, done, len0>>

Zero == <<0, 0>>
MAX  == <<2, -1>>                        \* i64::MAX
MIN  == <<-2, 0>>                        \* i64::MIN
UMAX == <<4, -1>>                        \* u64::MAX, the last position there is
N(x) == <<0, x>>
Add(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Lt(x, y)  == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
Neg(x)    == Lt(x, Zero)
Min2(x, y) == IF x < y THEN x ELSE y

\* contents: distinct nonzero bytes, so that every misplaced read shows
Byte(i)   == 16 * i + i
Content(n) == [i \in 1..n |-> Byte(i)]

OpRec(o, n, d) == [op |-> o, n |-> n, d |-> d]
\* result: ok?, error kind, number, bytes (-1: end of iteration, -2: an error)
Res(ok, k, n, b) == [ok |-> ok, k |-> k, n |-> n, b |-> b]

(***************************************************************************)
(* The cursor                                                              *)
(***************************************************************************)
Core == {OpRec("read", 2, Zero), OpRec("exact", 2, Zero), OpRec("bytes", 2, Zero),
         OpRec("start", 0, N(0)), OpRec("start", 0, N(2)), OpRec("start", 0, N(5)), OpRec("start", 0, MAX),
         OpRec("cur", 0, N(1)), OpRec("cur", 0, N(-2)), OpRec("cur", 0, MIN), OpRec("cur", 0, MAX),
         OpRec("end", 0, N(0)), OpRec("end", 0, N(-1)), OpRec("end", 0, N(-4)), OpRec("end", 0, N(2)),
         OpRec("setpos", 0, N(1)), OpRec("spos", 0, Zero)}
Offsets == {N(x) : x \in {-5, -2, -1, 0, 1, 3}} \cup {MAX, MIN, <<1, 0>>, <<-1, 0>>, <<2, -3>>, <<-2, 1>>}
Alphabet ==
  {OpRec("read", n, Zero) : n \in {0, 1, 2, 4}} \cup {OpRec("exact", n, Zero) : n \in {0, 1, 2, 4}}
  \cup {OpRec("bytes", n, Zero) : n \in {1, 4}}
  \cup {OpRec("start", 0, d) : d \in {N(0), N(1), N(3), N(5), <<1, 0>>, MAX, <<3, 1>>, UMAX}}
  \cup {OpRec("cur", 0, d) : d \in Offsets} \cup {OpRec("end", 0, d) : d \in Offsets}
  \cup {OpRec("setpos", 0, d) : d \in {N(0), N(2), N(7), MAX, UMAX}}
  \cup {OpRec("pos", 0, Zero), OpRec("spos", 0, Zero), OpRec("stpos", 0, Zero), OpRec("clone", 0, Zero)}
  \cup {OpRec("len", n, Zero) : n \in {0, 2, 4}}
CursorOps == IF Full THEN Alphabet ELSE Core

\* what is left to read: nothing at or beyond the end
Left == IF pos[1] = 0 /\ pos[2] < Len(data) THEN Len(data) - pos[2] ELSE 0
Slice(n) == IF n = 0 THEN <<>> ELSE SubSeq(data, pos[2] + 1, pos[2] + n)

\* [r: result, pos, known, data]
Out(r, p, k) == [r |-> r, pos |-> p, known |-> k, data |-> data]
SeekTo(p) == IF Neg(p) \/ Lt(UMAX, p) THEN Out(Res(FALSE, "InvalidInput", Zero, <<>>), pos, TRUE)
             ELSE Out(Res(TRUE, "", p, <<>>), p, TRUE)

CursorDo(o) ==
  CASE o.op = "read" ->
         LET n == Min2(o.n, Left) IN Out(Res(TRUE, "", N(n), Slice(n)), Add(pos, N(n)), TRUE)
    [] o.op = "exact" ->
         IF o.n <= Left THEN Out(Res(TRUE, "", Zero, Slice(o.n)), Add(pos, N(o.n)), TRUE)
         ELSE \* everything that was there is consumed; from beyond the end std and a
              \* plain loop differ, so nothing is promised
              LET beyond == Lt(N(Len(data)), pos)
              IN Out(Res(FALSE, "UnexpectedEof", Zero, <<>>), Add(pos, N(Left)), ~beyond)
    [] o.op = "bytes" ->
         LET n == Min2(o.n, Left)
         IN Out(Res(TRUE, "", Zero, Slice(n) \o [i \in 1..(o.n - n) |-> -1]), Add(pos, N(n)), TRUE)
    [] o.op = "start" -> SeekTo(o.d)
    [] o.op = "cur"   -> SeekTo(Add(pos, o.d))
    [] o.op = "end"   -> SeekTo(Add(N(Len(data)), o.d))
    [] o.op = "setpos" -> Out(Res(TRUE, "", Zero, <<>>), o.d, TRUE)
    [] o.op \in {"pos", "spos", "stpos"} -> Out(Res(TRUE, "", pos, <<>>), pos, TRUE)
    [] o.op = "clone" -> Out(Res(TRUE, "", Zero, data), pos, TRUE)
    [] o.op = "len"   -> [Out(Res(TRUE, "", Zero, <<>>), pos, TRUE) EXCEPT !.data = Content(o.n)]

\* an unspecified position has to be re-established first
Allowed(o) ==
  /\ ~known => o.op \in {"start", "setpos", "end"}
  /\ (~known /\ o.op = "end") => ~Neg(Add(N(Len(data)), o.d))

CursorStep ==
  /\ Kind = "cursor" /\ Len(log) < MaxOps
  /\ \E o \in {o \in CursorOps : Allowed(o)} :
       LET x == CursorDo(o)
       IN /\ data' = x.data /\ pos' = x.pos /\ known' = x.known
          /\ log' = Append(log, [o |-> o, r |-> x.r, p |-> x.pos, known |-> x.known, calls |-> 0])
  /\ UNCHANGED <<script, calls, done, len0>>

(***************************************************************************)
(* A cursor over contents too long to write down: what is read is named by *)
(* where it starts and how long it is (b = <<start, length>>)              *)
(***************************************************************************)
WideLens == {255, 65535, 65536, 70000, 140000}
WideN    == {1, 255, 256, 257, 4096, 65535, 65536, 65537, 131072, 200000}
WideOps  == {OpRec(s, n, Zero) : s \in {"read", "exact"}, n \in WideN}
            \cup {OpRec("start", 0, N(x)) : x \in {0, 1, 256, 65535, 65536, 139999}} \cup {OpRec("setpos", 0, N(x)) : x \in {255, 65537}}
            \cup {OpRec("cur", 0, N(x)) : x \in {256, 65536, -256, -65536}} \cup {OpRec("end", 0, N(x)) : x \in {-1, -256, -65536}}
WideLeft == IF pos[1] = 0 /\ pos[2] < len0 THEN len0 - pos[2] ELSE 0
WideDo(o) ==
  CASE o.op = "read" -> LET n == Min2(o.n, WideLeft) IN Out(Res(TRUE, "", N(n), <<pos[2], n>>), Add(pos, N(n)), TRUE)
    [] o.op = "exact" -> IF o.n <= WideLeft THEN Out(Res(TRUE, "", Zero, <<pos[2], o.n>>), Add(pos, N(o.n)), TRUE)
                         ELSE Out(Res(FALSE, "UnexpectedEof", Zero, <<>>), Add(pos, N(WideLeft)), ~Lt(N(len0), pos))
    [] o.op = "start" -> SeekTo(o.d)
    [] o.op = "cur"   -> SeekTo(Add(pos, o.d))
    [] o.op = "end"   -> SeekTo(Add(N(len0), o.d))
    [] o.op = "setpos" -> Out(Res(TRUE, "", Zero, <<>>), o.d, TRUE)
WideStep ==
  /\ Kind = "wide" /\ Len(log) < MaxOps
  /\ \E o \in {o \in WideOps : ~known => (o.op \in {"start", "setpos"})} :
       LET x == WideDo(o)
       IN /\ pos' = x.pos /\ known' = x.known
          /\ log' = Append(log, [o |-> o, r |-> x.r, p |-> x.pos, known |-> x.known, calls |-> 0])
  /\ UNCHANGED <<data, script, calls, done, len0>>

(***************************************************************************)
(* Provided methods on a device.  Each answer of the device is one of      *)
(*   d n   n bytes (or as many as the buffer takes), z  0 bytes,           *)
(*   i     Interrupted,  e k  an error of kind k                           *)
(***************************************************************************)
ErrKinds == <<"NotFound", "PermissionDenied", "ConnectionRefused", "ConnectionReset", "ConnectionAborted",
              "NotConnected", "AddrInUse", "AddrNotAvailable", "BrokenPipe", "AlreadyExists", "WouldBlock",
              "InvalidInput", "InvalidData", "TimedOut", "WriteZero", "Other", "UnexpectedEof", "Interrupted">>
Kinds == {ErrKinds[i] : i \in 1..Len(ErrKinds)}
Ans(a, n, k) == [a |-> a, n |-> n, k |-> k]
Answers == {Ans("d", 1, ""), Ans("d", 2, ""), Ans("d", 9, ""), Ans("z", 0, ""), Ans("i", 0, "Interrupted")}
           \cup {Ans("e", 0, k) : k \in (IF MaxOps = 1 /\ Len(script) < 2 THEN Kinds \ {"Interrupted"} ELSE {"WouldBlock", "UnexpectedEof"})}
MaxScript == IF Full THEN 2 * MaxOps + 2 ELSE MaxOps + 2

DevOps == {OpRec("read", n, Zero) : n \in {0, 1, 3}} \cup {OpRec("exact", n, Zero) : n \in {0, 1, 3}}
          \cup {OpRec("bytes", n, Zero) : n \in {1, 2}}

\* the bytes a device hands out are numbered from 1
Given(s) == LET RECURSIVE g(_)
                g(t) == IF t = <<>> THEN 0 ELSE Head(t).n + g(Tail(t))
            IN g(s)
\* op in progress: what it has got, and whether it is finished
VARIABLE cur       \* <<>> or <<[o, got, b]>>
dvars == <<vars, cur>>
NextByte == pos[2] + 1

DevBegin ==
  /\ Kind = "device" /\ cur = <<>> /\ Len(log) < MaxOps
  /\ \E o \in DevOps : cur' = <<[o |-> o, b |-> <<>>]>>
  /\ UNCHANGED vars

\* bytes wanted from the device right now by the operation in progress; 0: none
Want(c) == CASE c.o.op = "read" -> c.o.n
             [] c.o.op = "exact" -> c.o.n - Len(c.b)
             [] c.o.op = "bytes" -> 1
DevFinish(r, cl) ==
  /\ log' = Append(log, [o |-> cur[1].o, r |-> r, p |-> pos', known |-> TRUE, calls |-> cl])
  /\ cur' = <<>>

\* an operation that does not ask the device at all, or has all it wants
DevDone ==
  /\ Kind = "device" /\ cur # <<>>
  /\ LET c == cur[1]
     IN /\ \/ c.o.op = "exact" /\ Len(c.b) = c.o.n
           \/ c.o.op = "bytes" /\ Len(c.b) = c.o.n
        /\ UNCHANGED <<pos>>
        /\ DevFinish(Res(TRUE, "", Zero, c.b), calls)
  /\ UNCHANGED <<data, known, script, calls, done, len0>>

DevAnswer ==
  /\ Kind = "device" /\ cur # <<>>
  /\ LET c == cur[1]
         w == Want(c)
     IN /\ ~(c.o.op \in {"exact", "bytes"} /\ Len(c.b) = c.o.n)
        /\ calls' = calls + 1
        /\ IF c.o.op = "read" /\ w = 0
           THEN \* reading into nothing is passed on, and yields nothing
                UNCHANGED <<pos, script>> /\ DevFinish(Res(TRUE, "", Zero, <<>>), calls')
           ELSE /\ Len(script) < MaxScript
                /\ \E a \in Answers :
                     /\ script' = Append(script, a)
                     /\ LET n == Min2(a.n, w)
                            bs == [i \in 1..n |-> (pos[2] + i) % 251]
                        IN CASE a.a = "d" ->
                                  /\ pos' = Add(pos, N(n))
                                  /\ IF c.o.op = "read" THEN DevFinish(Res(TRUE, "", N(n), bs), calls')
                                     ELSE cur' = <<[c EXCEPT !.b = @ \o bs]>> /\ UNCHANGED log
                             [] a.a = "z" ->
                                  /\ UNCHANGED pos
                                  /\ (CASE c.o.op = "read" -> DevFinish(Res(TRUE, "", Zero, <<>>), calls')
                                       [] c.o.op = "exact" -> DevFinish(Res(FALSE, "UnexpectedEof", Zero, <<>>), calls')
                                       [] c.o.op = "bytes" -> cur' = <<[c EXCEPT !.b = Append(@, -1)]>> /\ UNCHANGED log)
                             [] a.a = "i" ->
                                  /\ UNCHANGED pos
                                  /\ IF c.o.op = "read" THEN DevFinish(Res(FALSE, "Interrupted", Zero, <<>>), calls')
                                     ELSE UNCHANGED <<cur, log>>          \* tried again
                             [] a.a = "e" ->
                                  /\ UNCHANGED pos
                                  /\ IF c.o.op = "bytes" THEN cur' = <<[c EXCEPT !.b = Append(@, -2)]>> /\ UNCHANGED log
                                     ELSE DevFinish(Res(FALSE, a.k, Zero, <<>>), calls')
  /\ UNCHANGED <<data, known, done, len0>>

(***************************************************************************)
(* Errors keep their kind; seeks reach the device as they were given, and  *)
(* stream_position is a seek by nothing                                    *)
(***************************************************************************)
KindOps == {OpRec("kind", i, Zero) : i \in 1..Len(ErrKinds)}
           \cup {OpRec(s, 0, d) : s \in {"dcur", "dend"}, d \in {N(0), N(1), N(-1), MAX, MIN, <<1, 7>>}}
           \cup {OpRec("dstart", 0, d) : d \in {N(0), N(1), MAX, <<3, 11>>, <<4, -1>>}}
           \cup {OpRec("dspos", 0, Zero), OpRec("dstpos", 0, Zero)}
SeekName(o) == CASE o = "dcur" -> "C" [] o = "dend" -> "E" [] o = "dstart" -> "S" [] OTHER -> "C"
KindStep ==
  /\ Kind = "kinds" /\ Len(log) < MaxOps
  /\ \E o \in KindOps :
       IF o.op = "kind"
       THEN log' = Append(log, [o |-> o, r |-> Res(TRUE, ErrKinds[o.n], Zero, <<>>), p |-> Zero, known |-> TRUE, calls |-> 0]) /\ UNCHANGED script
       ELSE \E a \in {Ans("p", 0, ""), Ans("p", 7, ""), Ans("e", 0, "InvalidInput"), Ans("e", 0, "Other"), Ans("e", 0, "Interrupted")} :
              /\ script' = Append(script, a)
              /\ log' = Append(log, [o |-> o, r |-> IF a.a = "p" THEN Res(TRUE, SeekName(o.op), N(a.n), <<>>) ELSE Res(FALSE, a.k, Zero, <<>>),
                                     p |-> o.d, known |-> TRUE, calls |-> 1])
  /\ UNCHANGED <<data, pos, known, calls, done, len0>>

Init ==
  /\ data \in (IF Kind = "cursor" THEN {Content(n) : n \in {0, 1, 3}} ELSE {<<>>})
  /\ pos = Zero /\ known = TRUE /\ script = <<>> /\ calls = 0 /\ log = <<>> /\ done = FALSE /\ cur = <<>>
  /\ len0 \in (IF Kind = "wide" THEN WideLens ELSE {Len(data)})

Finished == cur = <<>> /\ Len(log) = MaxOps
Stuck == Kind = "device" /\ cur # <<>> /\ Len(script) = MaxScript
Finish ==
  /\ Finished /\ ~done /\ done' = TRUE
  /\ CSVWrite("%1$s", <<ToJson([k |-> Kind, log |-> log, script |-> script, d |-> len0])>>, OutFile)
  /\ UNCHANGED <<data, pos, known, script, calls, log, cur, len0>>
Terminated == (done \/ Stuck) /\ UNCHANGED dvars

Next == (CursorStep /\ UNCHANGED cur) \/ (WideStep /\ UNCHANGED cur) \/ DevBegin \/ DevDone \/ DevAnswer \/ (KindStep /\ UNCHANGED cur) \/ Finish \/ Terminated
Spec == Init /\ [][Next]_dvars

(***************************************************************************)
(* Properties, stated on the log alone                                     *)
(***************************************************************************)
TypeOK ==
  /\ ~Neg(pos) /\ (Kind = "cursor" => ~Lt(UMAX, pos))
  /\ Len(log) <= MaxOps
\* a rejected seek does not move; a seek that is accepted reports where it is
SeekInv ==
  Kind = "cursor" =>
  \A i \in 1..Len(log) :
    LET e == log[i] IN
    e.o.op \in {"start", "cur", "end"} =>
      /\ e.r.ok => e.r.n = e.p
      /\ (~e.r.ok /\ i > 1 /\ log[i - 1].known) => e.p = log[i - 1].p
      /\ (~e.r.ok /\ i = 1) => e.p = Zero
\* reading moves by exactly what was delivered, and never delivers more than was asked for
ReadInv ==
  Kind = "cursor" =>
  \A i \in 1..Len(log) :
    LET e == log[i]
        before == IF i = 1 THEN Zero ELSE log[i - 1].p
        got == Cardinality({j \in 1..Len(e.r.b) : e.r.b[j] > 0})
    IN (e.o.op \in {"read", "exact", "bytes"} /\ e.r.ok) =>
         /\ e.p = Add(before, N(got))
         /\ got <= e.o.n
         /\ \A j \in 1..got : e.r.b[j] = Byte(before[2] + j)
         /\ e.o.op = "exact" => got = e.o.n
WideInv ==
  Kind = "wide" =>
  \A i \in 1..Len(log) :
    LET e == log[i]
        before == IF i = 1 THEN Zero ELSE log[i - 1].p
    IN /\ (e.o.op \in {"read", "exact"} /\ e.r.ok) => /\ e.r.b[1] = before[2] /\ e.p = Add(before, N(e.r.b[2])) /\ e.r.b[2] <= e.o.n
                                                        /\ (e.r.b[2] > 0 => e.r.b[1] + e.r.b[2] <= len0)
       /\ (e.o.op = "exact" /\ e.r.ok) => e.r.b[2] = e.o.n
       /\ (e.o.op = "read" /\ e.r.b[2] < e.o.n) => ~Lt(e.p, N(len0))       \* short only at the end
\* reading nothing never fails
EmptyInv == \A i \in 1..Len(log) : (log[i].o.op \in {"read", "exact", "bytes"} /\ log[i].o.n = 0) => log[i].r.ok
\* on a device: a failed operation reports the last answer, a successful exact read got all it asked for
DevInv ==
  Kind = "device" =>
    /\ Given(script) >= pos[2]
    /\ \A i \in 1..Len(log) :
         (log[i].o.op = "exact" /\ log[i].r.ok) => Len(log[i].r.b) = log[i].o.n
=============================================================================
