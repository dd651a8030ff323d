-------------------------------- MODULE Api ---------------------------------
(***************************************************************************)
(* How requests are understood and answered.                               *)
(*                                                                         *)
(* A request is [method, query, body, form]: query and body are sequences  *)
(* of <<key, value>> as sent, form tells that the body is a form.          *)
(***************************************************************************)
EXTENDS Search, TLC

Range(s) == {s[k] : k \in 1..Len(s)}

First(ps, key) == IF \E k \in 1..Len(ps) : ps[k][1] = key
                  THEN ps[CHOOSE k \in 1..Len(ps) : ps[k][1] = key /\ \A j \in 1..(k-1) : ps[j][1] # key][2]
                  ELSE ""
\* the value of a parameter: a form in the body goes before the query
Params(r) == IF r.form /\ r.method \in {"POST", "PUT", "PATCH"} THEN r.body \o r.query ELSE r.query
Param(r, key) == First(Params(r), key)

-----------------------------------------------------------------------------
(* Strings *)

Char(s, k) == SubSeq(s, k, k)
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower == "abcdefghijklmnopqrstuvwxyz"
LowerOf == [c \in {Char(Upper, k) : k \in 1..26} |-> Char(Lower, CHOOSE k \in 1..26 : Char(Upper, k) = c)]
RECURSIVE ToLower(_)
ToLower(s) == IF s = "" THEN "" ELSE
  LET c == Char(s, 1) IN (IF c \in DOMAIN LowerOf THEN LowerOf[c] ELSE c) \o ToLower(SubSeq(s, 2, Len(s)))

Blank == {" ", "\t", "\n", "\r"}
RECURSIVE Trim(_)
Trim(s) == IF s = "" THEN s
           ELSE IF Char(s, 1) \in Blank THEN Trim(SubSeq(s, 2, Len(s)))
           ELSE IF Char(s, Len(s)) \in Blank THEN Trim(SubSeq(s, 1, Len(s) - 1))
           ELSE s

Find(s, c) == IF \E k \in 1..Len(s) : Char(s, k) = c
              THEN CHOOSE k \in 1..Len(s) : Char(s, k) = c /\ \A j \in 1..(k-1) : Char(s, j) # c
              ELSE 0
RECURSIVE Split(_)
Split(s) == LET k == Find(s, ",") IN
            IF k = 0 THEN <<s>> ELSE <<SubSeq(s, 1, k - 1)>> \o Split(SubSeq(s, k + 1, Len(s)))

Digits == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
             CHOOSE n \in 0..9 : ToString(n) = c]
IsNat(s) == s # "" /\ \A k \in 1..Len(s) : Char(s, k) \in DOMAIN Digits
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ Char(s, 1) = "0" THEN Strip(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE NatOf(_)
NatOf(s) == IF s = "" THEN 0 ELSE 10 * NatOf(SubSeq(s, 1, Len(s) - 1)) + Digits[Char(s, Len(s))]
Huge == 536870912
Nat0(s) == LET t == Strip(s) IN IF Len(t) > 8 THEN Huge ELSE NatOf(t)   \* more than there is of anything
TooLong(s, n) == Len(Strip(s)) > n      \* may not fit a machine word: then also "malformed"

-----------------------------------------------------------------------------
(* The parameters of a search.  Each of these is the set of acceptable     *)
(* readings (more than one only for absurdly large numbers).               *)

Bool(v) == ToLower(v) \in {"true", "1", "fosho"}

Ctx(v) == IF ~IsNat(v) THEN {2}
          ELSE {IF Nat0(v) > 20 THEN 20 ELSE Nat0(v)} \cup (IF TooLong(v, 15) THEN {2} ELSE {})

\* the most matches wanted from a repository; 0: any number
Limit(v, def) ==
  LET signed == v # "" /\ Char(v, 1) \in {"+", "-"}
      n      == IF signed THEN SubSeq(v, 2, Len(v)) ELSE v
      neg    == signed /\ Char(v, 1) = "-"
      Def    == IF def < 0 THEN 0 ELSE def
  IN  IF ~IsNat(n) THEN {Def}
      ELSE {IF neg THEN 0 ELSE IF Nat0(n) > 100000 THEN 100000 ELSE Nat0(n)}
           \cup (IF TooLong(n, 18) THEN {Def} ELSE {})

Part(v) == IF ~IsNat(v) THEN {0} ELSE {Nat0(v)} \cup (IF TooLong(v, 18) THEN {0} ELSE {})
Rng(v) == LET k == Find(v, ":") IN
          IF k = 0 THEN {<<0, 0>>} ELSE Part(SubSeq(v, 1, k - 1)) \X Part(SubSeq(v, k + 1, Len(v)))

\* the repositories asked for, in order ("*": all of them, in any order)
IsAll(v) == Trim(v) = "*"
Listed(v, repos) == SelectSeq(Split(Trim(v)), LAMBDA n : n \in repos)
Selected(v, repos) == IF IsAll(v) THEN repos ELSE Range(Listed(v, repos))

-----------------------------------------------------------------------------
(* Searching.  A record knows, for the texts of the parameters that are    *)
(* patterns, what they are: rq (as a regular expression), lq (verbatim),   *)
(* rf, rx; op "invalid" if it is none.                                     *)

Absent == [op |-> "absent"]
Queries(r) ==
  LET lit == Bool(Param(r.req, "literal"))
      f   == IF Param(r.req, "files") = "" THEN Absent ELSE r.rf
      x   == IF Param(r.req, "excludeFiles") = "" THEN Absent ELSE r.rx
  IN  {[re |-> IF lit THEN r.lq ELSE r.rq, fold |-> Bool(Param(r.req, "i")), inc |-> f, exc |-> x, resume |-> FALSE,
        offset |-> g[1], limit |-> g[2], max |-> m, ctx |-> n] :
           g \in Rng(Param(r.req, "rng")), m \in Limit(Param(r.req, "limit"), r.deflimit), n \in Ctx(Param(r.req, "ctx"))}
Invalid(q) == q.re.op = "invalid" \/ q.inc.op = "invalid" \/ q.exc.op = "invalid"
=============================================================================
