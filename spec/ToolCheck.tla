----------------------------- MODULE ToolCheck ------------------------------
EXTENDS Tool, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.VREC)

VARIABLES i, verdict
vars == <<i, verdict>>

\* the steps of a history follow on each other
Linked(r) == \A k \in 2..Len(r.steps) : r.steps[k].before = r.steps[k - 1].after
BadSteps(r) == {k \in 1..Len(r.steps) : ~StepOk(r.kind, r.conf, r.url, r.dir, r.steps[k])}
Ok(r) == r.kind \in Kinds /\ Linked(r) /\ BadSteps(r) = {}

Init == i \in 1..Len(Recs) /\ verdict = "pending"
Next == /\ verdict = "pending"
        /\ i' = i
        /\ IF Ok(Recs[i]) THEN verdict' = "ok"
           ELSE verdict' = "rejected" /\ PrintT(<<"REJECT", Recs[i].id, <<"other steps than", BadSteps(Recs[i])>>>>)
Spec == Init /\ [][Next]_vars
=============================================================================
