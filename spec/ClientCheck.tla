----------------------------- MODULE ClientCheck ----------------------------
(* Evaluates recorded runs of the client against Client.                   *)
EXTENDS Client, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.VREC)

VARIABLES i, verdict
vars == <<i, verdict>>

RepoRes(r) == [k \in 1..Len(r.res) |->
                 [title |-> Title(r.res[k].key, r.res[k].known, r.res[k].display, r.res[k].url), files |-> r.res[k].files]]

Sane(r) == \A k \in 1..Len(r.res) : \A f \in 1..Len(r.res[k].files) : WellFormed(r.res[k].files[f].ms)

\* kind "show": what is printed for a result
ShowOk(r) == Assert(Sane(r), <<"ill-formed input", r.id>>) /\ r.ok /\ r.out \in Outputs(RepoRes(r), r.ctx)

\* kind "ask": a run of the program.  sent: the parameters the server got;
\* headers: what was configured and what arrived; status, broken and error:
\* what the server said; unusable: the configuration cannot be understood;
\* usage: there is no query, or more than one; exit, out and shown (the error is
\* visible in what the program wrote): what came of it.
Fails(r) == r.status # 200 \/ r.broken \/ r.error
AskOk(r) ==
  IF r.usage THEN r.asked = 0
  ELSE IF r.unusable THEN r.asked = 0 /\ r.exit # 0
  ELSE
  /\ r.asked = 1                                  \* one search request
  /\ r.sent.q = <<r.arg.pattern>>
  /\ r.sent.repos = <<r.arg.repos>>
  /\ r.sent.files = <<r.arg.files>>
  /\ r.sent.ctx = <<r.arg.ctx>>
  /\ r.sent.i = <<IF r.arg.icase THEN "true" ELSE "false">>
  /\ r.sent.literal \in {<<>>, <<"false">>, <<"0">>, <<"">>}
  /\ r.sent.rng \in {<<>>, <<"">>}
  /\ r.sent.excludeFiles \in {<<>>, <<"">>}
  /\ \A k \in 1..Len(r.headers) : r.headers[k].got = <<r.headers[k].want>>
  /\ IF Fails(r)
     THEN r.exit # 0 /\ (r.error => r.shown)
     ELSE IF r.full                                \* (what it writes to takes nothing)
     THEN r.exit = 0 <=> Outputs(RepoRes(r), r.ctx) = {<<>>}
     ELSE r.exit = 0 /\ ShowOk(r)

Ok(r) == IF r.kind = "show" THEN ShowOk(r) ELSE AskOk(r)
Expected(r) == IF r.kind = "ask" /\ (Fails(r) \/ r.usage \/ r.unusable) THEN <<"an error">>
               ELSE LET rr == RepoRes(r) IN [k \in 1..Len(rr) |-> RepoOut(rr[k], r.ctx)]

Init == i \in 1..Len(Recs) /\ verdict = "pending"
Next == /\ verdict = "pending"
        /\ i' = i
        /\ IF Ok(Recs[i]) THEN verdict' = "ok"
           ELSE verdict' = "rejected" /\ PrintT(<<"REJECT", Recs[i].id, Expected(Recs[i])>>)
Spec == Init /\ [][Next]_vars
=============================================================================
