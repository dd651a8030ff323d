----------------------------- MODULE ApiCheck ------------------------------
(* Evaluates recorded requests and answers against Api.                    *)
EXTENDS Api

Corpora == VEnv.corpora
Recs    == ndJsonDeserialize(IOEnv.VREC)

VARIABLES i, verdict
vars == <<i, verdict>>

Repo(r, n) == r.repos[CHOOSE k \in 1..Len(r.repos) : r.repos[k].name = n]
Names(r) == {r.repos[k].name : k \in 1..Len(r.repos)}

-----------------------------------------------------------------------------
(* kind "search" *)

RECURSIVE Flat(_)
Flat(runs) == IF runs = <<>> THEN <<>>
              ELSE [j \in 1..runs[1][2] |-> runs[1][1] + j - 1] \o Flat(Tail(runs))

FullMatch(q, f, ms, k) ==
  LET m == ms[k]
      prev == IF k = 1 THEN 0 ELSE ms[k - 1].n
  IN  /\ m.l = LineAt(f, m.n)
      /\ m.b = BeforeLines(f, m.n, prev, q.ctx)
      /\ m.a = AfterLines(f, m.n, q.ctx)

RepoOk(q, files, rev, exp, g) ==
  /\ g.rev = rev
  /\ IF q.max > 0 /\ exp.nm >= q.max
     THEN g.fwm \in Len(exp.out)..SearchResult([q EXCEPT !.max = 0], files).found
     ELSE g.fwm = exp.found
  /\ Len(g.out) = Len(exp.out)
  /\ \A j \in 1..Len(g.out) :
       LET x == g.out[j] IN
       /\ x.f = exp.out[j].f
       /\ [y \in 1..Len(x.ms) |-> x.ms[y].n] = Flat(exp.out[j].runs)
       /\ \A k \in 1..Len(x.ms) : FullMatch(q, files[x.f], x.ms, k)

RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})

SearchUnder(r, q) ==
  LET v    == Param(r.req, "repos")
      sel  == Selected(v, Names(r))
      exp  == [n \in sel |-> SearchResult(q, Corpora[Repo(r, n).corpus])]
      must == (Invalid(q) /\ sel # {}) \/ (~Invalid(q) /\ \E n \in sel : Repo(r, n).broken /\ exp[n].found > 0)
      may  == must \/ \E n \in sel : Repo(r, n).broken
      hits == {n \in sel : exp[n].out # <<>>}
      got  == [n \in Range(r.got.names) |-> r.got.results[CHOOSE k \in 1..Len(r.got.names) : r.got.names[k] = n]]
      times == IF IsAll(v) THEN 1 ELSE Len(Listed(v, Names(r)))
  IN  /\ r.got.answered /\ r.got.status = 200 /\ r.got.json
      /\ r.got.error => may
      /\ must => r.got.error
      /\ IF r.got.error THEN r.got.names = <<>> /\ r.got.errtext # ""
         ELSE /\ Len(r.got.names) = Cardinality(Range(r.got.names))
              /\ Range(r.got.names) = hits
              /\ \A n \in hits : RepoOk(q, Corpora[Repo(r, n).corpus], Repo(r, n).rev, exp[n], got[n])
              /\ r.got.stats <=> Bool(Param(r.req, "stats"))
              /\ r.got.stats => /\ r.got.opened >= Sum([n \in hits |-> Len(exp[n].out)], hits)
                                /\ r.got.opened <= times * Sum([n \in hits |-> Len(Corpora[Repo(r, n).corpus])], hits)
                                /\ r.got.duration >= 0

SearchOk(r) == \E q \in Queries(r) : SearchUnder(r, q)

-----------------------------------------------------------------------------
(* kinds "update", "webhook", "excludes", "repos".  got.pulled: the        *)
(* repositories that were fetched since the request.  late: those that an  *)
(* earlier request can have caused to be fetched only now.                 *)

Pulled(r, S) == S \subseteq Range(r.got.pulled) /\ Range(r.got.pulled) \subseteq S \cup Range(r.late)

Answered(r) == r.got.answered /\ (r.req.method # "HEAD" => r.got.json)
Err(r, status) == r.got.status = status /\ (r.req.method # "HEAD" => r.got.errtext # "")
Fine(r) == r.got.status = 200 /\ r.got.errtext = ""
Push(r, n) == Repo(r, n).push

UpdateOk(r) ==
  /\ Answered(r)
  /\ IF r.req.method # "POST" THEN Err(r, 405) /\ Pulled(r, {})
     ELSE LET v    == Param(r.req, "repos")
              sel  == Selected(v, Names(r))
              refused == {n \in sel : ~Push(r, n)}
              L    == Listed(v, Names(r))
              \* those before the first refused one
              pre  == {L[k] : k \in {k \in 1..Len(L) : \A j \in 1..k : Push(r, L[j])}}
          IN  IF refused = {} THEN Fine(r) /\ Pulled(r, sel)
              ELSE /\ Err(r, 403)
                   /\ IF IsAll(v) THEN Range(r.got.pulled) \subseteq (sel \ refused) \cup Range(r.late)
                      ELSE Pulled(r, pre)

WebhookOk(r) ==
  /\ Answered(r)
  /\ IF r.req.method # "POST" THEN Err(r, 405) /\ Pulled(r, {})
     ELSE IF r.hook.malformed THEN Err(r, 400) /\ Pulled(r, {})
     ELSE IF r.hook.name \notin Names(r) THEN Err(r, 404) /\ Pulled(r, {})
     ELSE IF ~Push(r, r.hook.name) THEN Err(r, 403) /\ Pulled(r, {})
     ELSE Fine(r) /\ Pulled(r, {r.hook.name})

ExcludesOk(r) ==
  LET n == Param(r.req, "repo") IN
  /\ Answered(r) /\ Pulled(r, {})
  /\ IF n \in Names(r)
     THEN Fine(r) /\ (r.req.method # "HEAD" => Len(r.got.list) = Len(Repo(r, n).excl) /\ Range(r.got.list) = Range(Repo(r, n).excl))
     ELSE Err(r, 404)

ReposOk(r) ==
  /\ Answered(r) /\ Pulled(r, {}) /\ Fine(r)
  /\ r.req.method # "HEAD" => Len(r.got.list) = Cardinality(Names(r)) /\ Range(r.got.list) = Names(r)

Ok(r) == CASE r.kind = "search"   -> SearchOk(r)
           [] r.kind = "update"   -> UpdateOk(r)
           [] r.kind = "webhook"  -> WebhookOk(r)
           [] r.kind = "excludes" -> ExcludesOk(r)
           [] r.kind = "repos"    -> ReposOk(r)

Expected(r) ==
  IF r.kind # "search" THEN <<"repositories", r.repos>>
  ELSE LET q == CHOOSE q \in Queries(r) : TRUE
           sel == Selected(Param(r.req, "repos"), Names(r)) IN
       [fold |-> q.fold, offset |-> q.offset, limit |-> q.limit, max |-> q.max, ctx |-> q.ctx, selected |-> sel, invalid |-> Invalid(q),
        res |-> IF Invalid(q) THEN {} ELSE {<<n, Len(SearchResult(q, Corpora[Repo(r, n).corpus]).out)>> : n \in sel}]

Init == i \in 1..Len(Recs) /\ verdict = "pending"
Next == /\ verdict = "pending"
        /\ i' = i
        /\ IF Ok(Recs[i]) THEN verdict' = "ok"
           ELSE verdict' = "rejected" /\ PrintT(<<"REJECT", Recs[i].id, Expected(Recs[i])>>)
Spec == Init /\ [][Next]_vars
=============================================================================
