----------------------------- MODULE Disclosure -----------------------------
(***************************************************************************)
(* Non-interference: two servers whose configurations differ in nothing    *)
(* but their vcs-configs answer every request alike, and what they tell of *)
(* their repositories is Public.                                           *)
(***************************************************************************)
EXTENDS Config, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.VREC)

VARIABLES i, verdict
vars == <<i, verdict>>

\* what a client may be told: the public part of the repositories that were set up
Told(c, live) == {[name |-> r.name, view |-> Public(r)] : r \in {q \in Range(c.repos) : q.name \in Range(live)}}

\* presence of a vcs-config may show, nothing of its content
Redacted(g) == g.conf \in {"none", "null", "{}"}

ViewOk(v, c, live) == /\ Len(v) = Len(live)
                      /\ {[name |-> g.name, view |-> g.view] : g \in Range(v)} = Told(c, live)
                      /\ \A g \in Range(v) : Redacted(g)

Alike(a) == /\ a.status[1] = a.status[2]
            /\ a.head[1] = a.head[2]
            /\ a.body[1] = a.body[2]
Silent(a) == a.leak[1] = "" /\ a.leak[2] = ""

Bad(r) == {r.answers[k].what : k \in {j \in 1..Len(r.answers) : ~(Alike(r.answers[j]) /\ Silent(r.answers[j]))}}

Ok(r) == /\ Bad(r) = {}
         /\ \A x \in 1..2 : \A k \in 1..Len(r.views[x]) : ViewOk(r.views[x][k], r.ins[x], r.live)

Expected(r) == IF Bad(r) # {} THEN <<"the same without secrets", Bad(r)>> ELSE Told(r.ins[1], r.live)

Init == i \in 1..Len(Recs) /\ verdict = "pending"
Next == /\ verdict = "pending"
        /\ i' = i
        /\ IF Ok(Recs[i]) THEN verdict' = "ok"
           ELSE verdict' = "rejected" /\ PrintT(<<"REJECT", Recs[i].id, Expected(Recs[i])>>)
Spec == Init /\ [][Next]_vars
=============================================================================
