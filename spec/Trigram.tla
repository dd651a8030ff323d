------------------------------ MODULE Trigram -------------------------------
(***************************************************************************)
(* The trigram prefilter.  A text is looked at as the bytes of its UTF-8   *)
(* encoding; a query is a formula over "the text contains this trigram":   *)
(*   [op |-> "all" / "none" / "and" / "or", tri |-> trigrams, sub |-> ...] *)
(* Soundness: whenever a line matches a pattern, the pattern's query holds *)
(* of (the trigrams of) any file containing that line.  Queries have no    *)
(* negation, so holding of the line alone is enough - and necessary, as    *)
(* the line may be the whole file.                                         *)
(***************************************************************************)
EXTENDS Search

Utf8Of(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

RECURSIVE Utf8From(_, _)
Utf8From(L, k) == IF k > Len(L) THEN <<>> ELSE Utf8Of(L[k]) \o Utf8From(L, k + 1)
Utf8(L) == Utf8From(L, 1)

Trigrams(bytes) == {<<bytes[k], bytes[k + 1], bytes[k + 2]>> : k \in 1..(Len(bytes) - 2)}

RECURSIVE QHolds(_, _)
QHolds(q, T) ==
  CASE q.op = "all"  -> TRUE
    [] q.op = "none" -> FALSE
    [] q.op = "and"  -> /\ \A k \in 1..Len(q.tri) : q.tri[k] \in T
                        /\ \A k \in 1..Len(q.sub) : QHolds(q.sub[k], T)
    [] q.op = "or"   -> \/ \E k \in 1..Len(q.tri) : q.tri[k] \in T
                        \/ \E k \in 1..Len(q.sub) : QHolds(q.sub[k], T)

Sound(re, E, q) == Matches(re, E) => QHolds(q, Trigrams(Utf8(E.L)))
=============================================================================
