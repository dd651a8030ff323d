--------------------------- MODULE IndexingCheck ----------------------------
EXTENDS Indexing, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.VREC)

VARIABLES i, verdict
vars == <<i, verdict>>

Expected(r) == IF ~r.readable THEN "an error"
               ELSE {<<r.tree[k].path, Reasons(r.opt, r.tree[k])>> : k \in {k \in Subject(r.opt, r.tree) : TRUE}}

Init == i \in 1..Len(Recs) /\ verdict = "pending"
Next == /\ verdict = "pending"
        /\ i' = i
        /\ IF BuildOk(Recs[i]) THEN verdict' = "ok"
           ELSE verdict' = "rejected" /\ PrintT(<<"REJECT", Recs[i].id, Expected(Recs[i])>>)
Spec == Init /\ [][Next]_vars
=============================================================================
