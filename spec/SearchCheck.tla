---------------------------- MODULE SearchCheck -----------------------------
(* Evaluates recorded searches of the real code against Search.            *)
EXTENDS Search, TLC

Corpora == VEnv.corpora                      \* sequence of sequences of files
Recs    == ndJsonDeserialize(IOEnv.VREC)

ASSUME LET C == Corpora IN \A c \in 1..Len(C) : \A k \in 1..Len(C[c]) : SegOk(C[c][k])

VARIABLES i, verdict
vars == <<i, verdict>>

\* ---- records of kind "runs": matching lines as runs
\* How many files match, and how many were looked into, is exact unless the
\* cap on matches ended the search early; then it only has to be plausible.
Capped(q, st) == q.max > 0 /\ st.nm >= q.max

CountsOk(r, files, exp) ==
  IF Capped(r.q, exp)
  THEN /\ Len(exp.out) <= r.got.fwm
       /\ r.got.fwm <= SearchResult([r.q EXCEPT !.max = 0], files).found
       /\ r.got.fwm <= r.got.opened /\ r.got.opened <= Len(files)
  ELSE /\ r.got.fwm = exp.found
       /\ exp.found <= r.got.opened /\ r.got.opened <= exp.visited

RunsOk(r) ==
  LET files == Corpora[r.corpus]
      exp == SearchResult(r.q, files)
  IN  /\ ~r.err
      /\ r.got.out = exp.out
      /\ CountsOk(r, files, exp)

\* ---- records of kind "full": every match with its context
FullMatch(q, f, ms, k) ==
  LET m == ms[k]
      prev == IF k = 1 THEN 0 ELSE ms[k - 1].n
  IN  /\ m.l = LineAt(f, m.n)
      /\ m.b = BeforeLines(f, m.n, prev, q.ctx)
      /\ m.a = AfterLines(f, m.n, q.ctx)

RECURSIVE Flat(_)
Flat(runs) == IF runs = <<>> THEN <<>>
              ELSE [j \in 1..runs[1][2] |-> runs[1][1] + j - 1] \o Flat(Tail(runs))

FullOk(r) ==
  LET files == Corpora[r.corpus]
      exp == SearchResult(r.q, files)
      got == r.got
  IN  /\ ~r.err
      /\ CountsOk(r, files, exp)
      /\ Len(got.out) = Len(exp.out)
      /\ \A j \in 1..Len(got.out) :
           LET g == got.out[j] IN
           /\ g.f = exp.out[j].f
           /\ [x \in 1..Len(g.ms) |-> g.ms[x].n] = Flat(exp.out[j].runs)
           /\ \A k \in 1..Len(g.ms) : FullMatch(r.q, files[g.f], g.ms, k)

\* ---- records of kind "err": some pattern is not a regular expression
ErrOk(r) == r.err /\ r.got.out = <<>>

\* how the code is known to deviate: q.resume
Under(r, resume) == [r EXCEPT !.q = [x \in DOMAIN r.q \cup {"resume"} |-> IF x = "resume" THEN resume ELSE r.q[x]]]

RECURSIVE HasBot(_)
HasBot(re) == \/ re.op = "bot"
              \/ "sub" \in DOMAIN re /\ HasBot(re.sub)
              \/ "subs" \in DOMAIN re /\ \E k \in 1..Len(re.subs) : HasBot(re.subs[k])

Ok1(r) == CASE r.kind = "runs" -> RunsOk(r)
           [] r.kind = "full" -> FullOk(r)
           [] r.kind = "err"  -> ErrOk(r)

Ok(r, resume) == Ok1(Under(r, resume))

Expected(r0) == LET r == Under(r0, FALSE) IN IF r.kind = "err" THEN "an error" ELSE
               LET e == SearchResult(r.q, Corpora[r.corpus]) IN
               [found |-> e.found, visited |-> e.visited,
                out |-> [j \in 1..Len(e.out) |-> [f |-> e.out[j].f,
                           runs |-> [k \in 1..Len(e.out[j].runs) |-> <<e.out[j].runs[k][1], e.out[j].runs[k][2]>>]]]]

Init == i \in 1..Len(Recs) /\ verdict = "pending"
Next == /\ verdict = "pending"
        /\ i' = i
        /\ IF Ok(Recs[i], FALSE) THEN verdict' = "ok"
           ELSE IF HasBot(Recs[i].q.re) /\ Ok(Recs[i], TRUE)
                THEN verdict' = "known" /\ PrintT(<<"KNOWN", Recs[i].id, "begin-of-text-after-a-match">>)
           ELSE verdict' = "rejected" /\ PrintT(<<"REJECT", Recs[i].id, Expected(Recs[i])>>)
Spec == Init /\ [][Next]_vars
=============================================================================
