---------------------------- MODULE PostingCheck ----------------------------
(* One record per index: its files and everything that was asked of it.    *)
EXTENDS Posting, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.VREC)

VARIABLES i, verdict
vars == <<i, verdict>>

BadQueries(r) ==
  LET F  == r.files
      m  == Len(F.classes)
      T  == [k \in 1..m |-> TriSet(F.classes[k])]
      TX == [k \in 1..Len(F.exc) |-> TriSet(F.exc[k][2])]
  IN  {j \in 1..Len(r.answers) :
         LET a == r.answers[j] IN
         ~ Exactly(F, a.runs, {k - 1 : k \in {k \in 1..m : QHoldsN(a.q, T[k])}},
                   {F.exc[k][1] : k \in {k \in 1..Len(F.exc) : QHoldsN(a.q, TX[k])}})}

\* names are read back as they were given
Ok(r) == BadQueries(r) = {} /\ r.names = r.readback /\ r.paths = r.readpaths

Expected(r) == LET b == BadQueries(r) IN
               IF b = {} THEN "names or paths differ" ELSE [wrong |-> b, first |-> r.answers[CHOOSE j \in b : \A k \in b : j <= k].q]

Init == i \in 1..Len(Recs) /\ verdict = "pending"
Next == /\ verdict = "pending"
        /\ i' = i
        /\ IF Ok(Recs[i]) THEN verdict' = "ok"
           ELSE verdict' = "rejected" /\ PrintT(<<"REJECT", Recs[i].id, Expected(Recs[i])>>)
Spec == Init /\ [][Next]_vars
=============================================================================
