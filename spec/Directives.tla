----------------------------- MODULE Directives -----------------------------
(***************************************************************************)
(* Which sets of directives the derive macros accept.                      *)
(*                                                                         *)
(* A type is a list of places (the type itself, its fields, its variants   *)
(* and their fields), each carrying attributes #[br(..)] / #[binread(..)]  *)
(* with a comma-separated list of directives.  The machine below reads the *)
(* attributes the way a macro must: one at a time, keeping for each place  *)
(* what has been set so far and what has been found wrong.  DeclInv says   *)
(* what that amounts to: a type is accepted exactly when, as *sets*, no    *)
(* two directives of a place conflict and each is well-formed and allowed  *)
(* there - whatever the order and the grouping into attributes.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV

Par == JsonDeserialize(IOEnv.DIR_PAR)     \* [mode, shapes, max]
OutFile == IOEnv.DIR_OUT
RangeOf(s) == {s[i] : i \in 1..Len(s)}

(***************************************************************************)
(* Directives: the group a directive belongs to.  Of a group with a        *)
(* message only one directive may be given at a place.                     *)
(***************************************************************************)
Flags   == {"big", "little", "default", "ignore", "deref_now", "postprocess_now", "restore_position",
            "try", "temp", "return_all_errors", "return_unexpected_error"}
Values  == {"is_big", "is_little", "map", "try_map", "args_tuple", "calc", "parse_with", "count", "offset",
            "offset_after", "pad_before", "pad_after", "align_before", "align_after", "seek_before",
            "pad_size_to", "magic", "repr", "import_tuple"}
Lists   == {"args", "if", "assert", "pre_assert", "import"}
Unknown == {"bogus", "BIG"}
Keywords == Flags \cup Values \cup Lists

Group(k) == CASE k \in {"big", "little", "is_big", "is_little"} -> "endian"
              [] k \in {"map", "try_map"} -> "map"
              [] k \in {"args", "args_tuple"} -> "args"
              [] k \in {"calc", "default", "ignore", "parse_with"} -> "mode"
              [] k \in {"import", "import_tuple"} -> "import"
              [] k \in {"deref_now", "postprocess_now"} -> "now"
              [] k \in {"return_all_errors", "return_unexpected_error"} -> "errors"
              [] OTHER -> k
Repeatable(k) == k \in {"assert", "pre_assert"}

\* where each directive may stand
Field   == {"big", "little", "is_big", "is_little", "map", "try_map", "magic", "args", "args_tuple", "calc", "default",
            "ignore", "parse_with", "count", "offset", "offset_after", "if", "deref_now", "postprocess_now",
            "restore_position", "try", "temp", "assert", "pad_before", "pad_after", "align_before", "align_after",
            "seek_before", "pad_size_to"}
Struct  == {"big", "little", "map", "try_map", "magic", "import", "import_tuple", "assert", "pre_assert"}
Enum    == Struct \cup {"return_all_errors", "return_unexpected_error"}
UnitEnum == {"big", "little", "map", "try_map", "magic", "import", "import_tuple", "repr"}
UnitVar == {"magic", "pre_assert"}
Allowed(pl) == CASE pl = "field" -> Field [] pl = "struct" -> Struct [] pl = "enum" -> Enum
                 [] pl = "uenum" -> UnitEnum [] pl = "uvar" -> UnitVar

(***************************************************************************)
(* Spellings.  flag: k; value: k = v and k(v) alike; list: k(..) only.     *)
(***************************************************************************)
Good(k) == CASE k \in Flags -> {"bare"}
             [] k = "magic" -> {"eq", "paren", "eq16", "eqbytes", "eqbyte", "eqchar", "eqfloat", "parenbytes", "parenchar"}
             [] k \in Values -> {"eq", "paren"}
             [] k \in {"assert", "pre_assert"} -> {"list1", "list2", "list1c", "strmsg", "strfmt"}
             [] k = "if" -> {"list1", "list2", "list1c"}
             [] k = "args" -> {"list0"}
             [] k = "import" -> {"list0", "listi"}
             [] OTHER -> {}
\* well-formed, but what it says is refused
Refused(k) == CASE k \in {"assert", "pre_assert"} -> {"list0", "list3"}
                [] k = "if" -> {"list0", "list3"}
                [] k = "magic" -> {"eqstr", "eqbool"}
                [] OTHER -> {}
\* not of the form the directive has
Bad(k) == CASE k \in Flags -> {"eq", "list1"}
            [] k = "magic" -> {"bare", "list0", "eqident", "list2"}
            [] k \in Values -> {"bare", "list0", "list2"}
            [] k \in Lists -> {"bare", "eq"}
            [] OTHER -> {"bare", "eq", "list1"}
Kind(f) == CASE f = "eq" \/ f = "paren" -> "u8" [] f = "eq16" -> "i16" [] f \in {"eqbytes", "parenbytes"} -> "[u8; 2]" [] f = "eqbyte" -> "u8"
             [] f \in {"eqchar", "parenchar"} -> "char" [] f = "eqfloat" -> "f32" [] OTHER -> ""

Msg(k) == CASE Group(k) = "endian" -> "conflicting endianness keyword"
            [] Group(k) = "map" -> "conflicting map keyword"
            [] Group(k) = "args" -> "conflicting args keyword"
            [] Group(k) = "mode" -> "conflicting read mode keyword"
            [] Group(k) = "import" -> "conflicting import keyword"
            [] Group(k) = "errors" -> "conflicting error handling keyword"
            [] OTHER -> "conflicting `" \o k \o "` keyword"
RefMsg(k, f) == CASE f = "list0" -> "requires a boolean expression"
                  [] f = "list3" -> "too many arguments"
                  [] OTHER -> "expected byte string, byte, char, float, or int"

(***************************************************************************)
(* Shapes: the places of a type, in order.  Each place: what may stand     *)
(* there, and the place (a variant, a field) it belongs to.                *)
(***************************************************************************)
Shapes == [struct   |-> <<"struct", "field", "field">>,
           tuple    |-> <<"struct", "field", "field">>,
           unit     |-> <<"struct">>,
           enum     |-> <<"enum", "struct", "field", "struct", "field", "uvar">>,
           uenum    |-> <<"uenum", "uvar", "uvar", "uvar">>,
           null     |-> <<"uenum">>,
           union    |-> <<"struct", "field">>]

VARIABLES shape,    \* which
          pl,       \* place being read
          open,     \* directives of the attribute being read, or <<>>
          inattr,   \* inside an attribute?
          set,      \* place -> group -> the directive that was set
          errs,     \* set of <<place, message>>; place 0: the type as a whole
          hist,     \* what was written: <<place, attribute number, keyword, form>>
          natt,     \* attributes so far
          st
vars == <<shape, pl, open, inattr, set, errs, hist, natt, st>>

Places == Shapes[shape]
NoSet == [g \in {Group(k) : k \in Keywords} |-> <<>>]

Init ==
  /\ shape \in RangeOf(Par.shapes)
  /\ pl = 1 /\ open = <<>> /\ inattr = FALSE
  /\ set = [p \in 1..Len(Shapes[shape]) |-> NoSet]
  /\ errs = {} /\ hist = <<>> /\ natt = 0 /\ st = "read"

\* what the exploration writes where
Mode == Par.mode
Forms(k) == IF Mode = "forms" THEN Good(k) \cup Refused(k) \cup Bad(k)
            ELSE IF Mode = "mix" THEN Good(k) \cup Refused(k) \cup Bad(k)
            ELSE IF k = "magic" /\ shape = "uenum" THEN {"eq", "eq16"} ELSE {CHOOSE f \in Good(k) : f \in {"bare", "eq", "list1", "list0"} /\ (k \in {"assert", "pre_assert", "if"} => f = "list1")}
Words == IF Mode = "pairs" THEN Allowed(Places[pl]) ELSE Keywords \cup Unknown
\* only the given places get directives
Written == Places[pl] \in RangeOf(Par.places)
Quota == Len(hist) < Par.max

OpenAttr ==
  /\ st = "read" /\ ~inattr /\ Written /\ natt < Par.attrs /\ Quota
  /\ inattr' = TRUE /\ natt' = natt + 1 /\ open' = <<>>
  /\ UNCHANGED <<shape, pl, set, errs, hist, st>>

Put ==
  /\ st = "read" /\ inattr /\ Quota
  /\ \E k \in Words : \E f \in Forms(k) :
       /\ open' = Append(open, <<k, f>>)
       /\ hist' = Append(hist, <<pl, natt, k, f>>)
  /\ UNCHANGED <<shape, pl, inattr, set, errs, natt, st>>

Malformed(p, i) == i[1] \notin Allowed(Places[p]) \/ i[2] \in Bad(i[1])

\* the directives of one well-formed attribute, one after the other: the first of a group stays
RECURSIVE Apply(_, _, _, _)
Apply(p, its, s, e) ==
  IF its = <<>> THEN [s |-> s, e |-> e]
  ELSE LET k == its[1][1]  f == its[1][2]  g == Group(k) IN
       IF ~Repeatable(k) /\ s[g] # <<>> THEN Apply(p, Tail(its), s, e \cup {<<p, Msg(k)>>})
       ELSE IF f \in Refused(k) THEN Apply(p, Tail(its), s, e \cup {<<p, RefMsg(k, f)>>})
       ELSE Apply(p, Tail(its), [s EXCEPT ![g] = <<k, f>>], e)

CloseAttr ==
  /\ st = "read" /\ inattr /\ (open # <<>> \/ Mode = "mix")
  /\ inattr' = FALSE /\ open' = <<>>
  /\ IF \E i \in 1..Len(open) : Malformed(pl, open[i])
     THEN LET j == CHOOSE i \in 1..Len(open) : Malformed(pl, open[i]) /\ \A x \in 1..(i - 1) : ~Malformed(pl, open[x]) IN
          /\ errs' = errs \cup {<<pl, IF open[j][1] \notin Allowed(Places[pl]) THEN "expected one of" ELSE "">>}
          /\ UNCHANGED set
     ELSE LET r == Apply(pl, open, set[pl], errs) IN set' = [set EXCEPT ![pl] = r.s] /\ errs' = r.e
  /\ UNCHANGED <<shape, pl, hist, natt, st>>

NextPlace ==
  /\ st = "read" /\ ~inattr /\ pl < Len(Places)
  /\ pl' = pl + 1
  /\ errs' = errs \cup (IF Places[pl] = "field" /\ set[pl]["now"] # <<>> /\ set[pl]["offset_after"] # <<>>
                        THEN {<<pl, "`deref_now` and `offset_after` are mutually exclusive">>} ELSE {})
  /\ UNCHANGED <<shape, open, inattr, set, hist, natt, st>>

(***************************************************************************)
(* The type as a whole.  A variant that is itself in error says nothing    *)
(* about the others.                                                       *)
(***************************************************************************)
Clean(p, e) == ~\E x \in e : x[1] = p
RECURSIVE UVars(_, _, _, _)
UVars(p, exp, e, out) ==
  IF p > Len(Places) THEN [e |-> out, magic |-> exp # ""]
  ELSE LET m == set[p]["magic"] IN
       IF ~Clean(p, e) \/ m = <<>> THEN UVars(p + 1, exp, e, out)
       ELSE IF set[1]["repr"] # <<>> THEN UVars(p + 1, exp, e, out \cup {<<0, "`repr` and `magic` are mutually exclusive">>})
       ELSE IF exp = "" THEN UVars(p + 1, Kind(m[2]), e, out)
       ELSE IF exp # Kind(m[2]) THEN UVars(p + 1, exp, e, out \cup {<<0, "conflicting magic types; expected " \o exp>>})
       ELSE UVars(p + 1, exp, e, out)
\* nothing is known about whether variants in error would have had a magic
Undecided(e) == \E p \in 2..Len(Places) : ~Clean(p, e)
Needs == "BinRead on unit-like enums requires either `#[br(repr = ...)]` on the enum or `#[br(magic = ...)]` on at least one variant"

LastField == Places[pl] = "field" /\ set[pl]["now"] # <<>> /\ set[pl]["offset_after"] # <<>>

Finish ==
  /\ st = "read" /\ ~inattr /\ pl = Len(Places)
  /\ st' = "done"
  /\ LET e1 == errs \cup (IF LastField THEN {<<pl, "`deref_now` and `offset_after` are mutually exclusive">>} ELSE {}) IN
     errs' = CASE shape = "null" -> {<<0, "null enums are not supported">>}
               [] shape = "union" -> {<<0, "unions are not supported">>}
               [] shape = "uenum" ->
                    LET u == UVars(2, "", e1, e1) IN
                    u.e \cup (IF set[1]["repr"] = <<>> /\ ~u.magic /\ Clean(1, e1) /\ ~Undecided(e1) THEN {<<0, Needs>>} ELSE {})
               [] OTHER -> e1
  /\ UNCHANGED <<shape, pl, open, inattr, set, hist, natt>>

\* which shapes of the exploration are worth writing down
Keep == Len(hist) >= Par.min
Write ==
  /\ st = "done"
  /\ st' = "out"
  /\ IF Keep THEN CSVWrite("%1$s", <<ToJson([shape |-> shape, hist |-> hist, natt |-> natt,
          errs |-> {[p |-> x[1], m |-> x[2]] : x \in errs}])>>, OutFile) ELSE TRUE
  /\ UNCHANGED <<shape, pl, open, inattr, set, errs, hist, natt>>
Stop == st = "out" /\ UNCHANGED vars

Next == OpenAttr \/ Put \/ CloseAttr \/ NextPlace \/ Finish \/ Write \/ Stop
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The rule, over sets.                                                    *)
(***************************************************************************)
Its == {i \in 1..Len(hist) : TRUE}
Conflict(i, j) ==
  /\ i # j /\ hist[i][1] = hist[j][1]
  /\ \/ Group(hist[i][3]) = Group(hist[j][3]) /\ ~Repeatable(hist[i][3])
     \/ Group(hist[i][3]) = "now" /\ Group(hist[j][3]) = "offset_after"
WellFormed(i) == hist[i][3] \in Allowed(Places[hist[i][1]]) /\ hist[i][4] \in Good(hist[i][3])
Magics == {i \in Its : hist[i][3] = "magic" /\ hist[i][1] > 1}
Legal ==
  /\ shape \notin {"null", "union"}
  /\ \A i \in Its : WellFormed(i)
  /\ \A i, j \in Its : ~Conflict(i, j)
  /\ shape = "uenum" =>
       LET r == \E i \in Its : hist[i][3] = "repr" IN
       /\ r # (Magics # {})
       /\ \A i, j \in Magics : Kind(hist[i][4]) = Kind(hist[j][4])
DeclInv == st \in {"done", "out"} => (errs = {} <=> Legal)
\* what was set at a place is the first of its group that was well-formed; nothing is ever unset or replaced
SetInv == \A p \in 1..Len(Places) : \A g \in DOMAIN NoSet :
            set[p][g] # <<>> => \E i \in Its : hist[i][1] = p /\ Group(hist[i][3]) = g
=============================================================================
