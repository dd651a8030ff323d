----------------------------- MODULE MergeCheck -----------------------------
EXTENDS Merge, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.VREC)

VARIABLES i, verdict
vars == <<i, verdict>>

\* (an input that is itself the result of a merge may be ill-formed)
Ok(r) == WellFormed(r.a) /\ WellFormed(r.b) /\ MergeOk(r.a, r.b, r.res)

Expected(r) == [names |-> [k \in 1..Len(MergedFiles(r.a, r.b)) |-> MergedFiles(r.a, r.b)[k][1]], paths |-> MergedPaths(r.a, r.b)]

Init == i \in 1..Len(Recs) /\ verdict = "pending"
Next == /\ verdict = "pending"
        /\ i' = i
        /\ IF Ok(Recs[i]) THEN verdict' = "ok"
           ELSE verdict' = "rejected" /\ PrintT(<<"REJECT", Recs[i].id, Expected(Recs[i])>>)
Spec == Init /\ [][Next]_vars
=============================================================================
