---------------------------- MODULE ConfigCheck -----------------------------
EXTENDS Config, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.VREC)

VARIABLES i, verdict
vars == <<i, verdict>>

GotRepo(g) == [g EXCEPT !.conf = [vals |-> Range(g.conf.vals), text |-> g.conf.text]]

Ok(r) == IF IsError(r.in) THEN r.err
         ELSE /\ ~r.err
              /\ r.out.top = Top(r.in)
              /\ r.out.dbpath = DbPath(r.in)
              /\ Len(r.out.repos) = Len(r.in.repos)
              /\ {GotRepo(g) : g \in Range(r.out.repos)} = Repos(r.in)

Expected(r) == IF IsError(r.in) THEN "an error" ELSE <<Top(r.in), DbPath(r.in), Repos(r.in)>>

Init == i \in 1..Len(Recs) /\ verdict = "pending"
Next == /\ verdict = "pending"
        /\ i' = i
        /\ IF Ok(Recs[i]) THEN verdict' = "ok"
           ELSE verdict' = "rejected" /\ PrintT(<<"REJECT", Recs[i].id, Expected(Recs[i])>>)
Spec == Init /\ [][Next]_vars
=============================================================================
