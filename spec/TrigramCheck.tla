---------------------------- MODULE TrigramCheck ----------------------------
(* Evaluates queries made by the real analysis, and what the real index    *)
(* proposes for them.                                                      *)
EXTENDS Trigram, TLC

Corpora == VEnv.corpora
Recs    == ndJsonDeserialize(IOEnv.VREC)

VARIABLES i, verdict
vars == <<i, verdict>>

\* a line alone: the text of a one-line file
LineOk(r) == LET E == [L |-> r.line, fold |-> r.fold, bot |-> TRUE, eot |-> TRUE]
                 h == QHolds(r.query, Trigrams(Utf8(r.line)))
             IN  /\ h = r.holds            \* the driver's own evaluation is right
                 /\ Matches(r.re, E) => h

\* the files proposed by the index: every file with a matching line
FilesOk(r) == LET files == Corpora[r.corpus]
                  q == [re |-> r.re, fold |-> r.fold, resume |-> FALSE]
                  prop == {r.files[k] : k \in 1..Len(r.files)}
              IN  \A k \in 1..Len(files) : MatchRuns(q, files[k]) # <<>> => k \in prop

Ok(r) == CASE r.kind = "line" -> LineOk(r) [] r.kind = "files" -> FilesOk(r)

Expected(r) == CASE r.kind = "line" -> Matches(r.re, [L |-> r.line, fold |-> r.fold, bot |-> TRUE, eot |-> TRUE])
                 [] r.kind = "files" -> LET files == Corpora[r.corpus] IN
                      {k \in 1..Len(files) : MatchRuns([re |-> r.re, fold |-> r.fold, resume |-> FALSE], files[k]) # <<>>}

Init == i \in 1..Len(Recs) /\ verdict = "pending"
Next == /\ verdict = "pending"
        /\ i' = i
        /\ IF Ok(Recs[i]) THEN verdict' = "ok"
           ELSE verdict' = "rejected" /\ PrintT(<<"REJECT", Recs[i].id, Expected(Recs[i])>>)
Spec == Init /\ [][Next]_vars
=============================================================================
