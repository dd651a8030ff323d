------------------------------- MODULE Search -------------------------------
(***************************************************************************)
(* What a search means.                                                    *)
(*                                                                         *)
(* Text is a sequence of code points.  A file is                           *)
(*    [name |-> sequence of lines of its path (one, unless the path holds  *)
(*              a newline), segs |-> runs of equal lines, term |-> whether *)
(*              the last line is newline terminated]                       *)
(* where a run is [l |-> line, n |-> how often].  Regular expressions are  *)
(* abstract syntax trees (records with field op).                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Folding

SameRune(a, b, fold) == a = b \/ (fold /\ b \in Orbit(a))

IsWord(c) == (48 <= c /\ c <= 57) \/ (65 <= c /\ c <= 90) \/ (97 <= c /\ c <= 122) \/ c = 95

-----------------------------------------------------------------------------
(* Regular expressions.  E is the environment                              *)
(*   [L |-> line, fold |-> ignore case, bot |-> the line starts the text,  *)
(*    eot |-> the line ends the text without newline].                     *)
(* Ends(re, E, S): where a match of re that starts in S can end.           *)

InClass(re, c, fold) ==
  LET In(x) == \E k \in 1..Len(re.ranges) : re.ranges[k][1] <= x /\ x <= re.ranges[k][2]
      hit   == IF fold THEN \E x \in Orbit(c) : In(x) ELSE In(c)
  IN  IF re.neg THEN ~hit ELSE hit

WordBefore(L, i) == i > 0 /\ IsWord(L[i])
WordAfter(L, i)  == i < Len(L) /\ IsWord(L[i + 1])

RECURSIVE Ends(_, _, _), EndsSeq(_, _, _, _), Closure(_, _, _), Times(_, _, _, _), UpTo(_, _, _, _)

EndsSeq(subs, k, E, S) ==
  IF k > Len(subs) \/ S = {} THEN S ELSE EndsSeq(subs, k + 1, E, Ends(subs[k], E, S))

Closure(re, E, S) == LET T == S \cup Ends(re, E, S) IN IF T = S THEN S ELSE Closure(re, E, T)

Times(re, n, E, S) == IF n = 0 \/ S = {} THEN S ELSE Times(re, n - 1, E, Ends(re, E, S))

UpTo(re, n, E, S) == IF n = 0 THEN S
                     ELSE LET T == S \cup Ends(re, E, S) IN IF T = S THEN S ELSE UpTo(re, n - 1, E, T)

Ends(re, E, S) ==
  CASE re.op = "lit" ->
         LET n == Len(re.r) IN
         {i + n : i \in {i \in S : /\ i + n <= Len(E.L)
                                   /\ \A k \in 1..n : SameRune(re.r[k], E.L[i + k], E.fold \/ re.fold)}}
    [] re.op = "any"   -> {i + 1 : i \in {i \in S : i < Len(E.L)}}
    [] re.op = "class" -> {i + 1 : i \in {i \in S : i < Len(E.L) /\ InClass(re, E.L[i + 1], E.fold \/ re.fold)}}
    [] re.op = "cat"   -> EndsSeq(re.subs, 1, E, S)
    [] re.op = "alt"   -> UNION {Ends(re.subs[k], E, S) : k \in 1..Len(re.subs)}
    [] re.op = "star"  -> Closure(re.sub, E, S)
    [] re.op = "plus"  -> Closure(re.sub, E, Ends(re.sub, E, S))
    [] re.op = "quest" -> S \cup Ends(re.sub, E, S)
    [] re.op = "rep"   -> LET T == Times(re.sub, re.min, E, S) IN
                          IF re.max < 0 THEN Closure(re.sub, E, T) ELSE UpTo(re.sub, re.max - re.min, E, T)
    [] re.op = "empty" -> S
    [] re.op = "none"  -> {}
    [] re.op = "bol"   -> {i \in S : i = 0}
    [] re.op = "eol"   -> {i \in S : i = Len(E.L)}
    [] re.op = "bot"   -> {i \in S : i = 0 /\ E.bot}
    [] re.op = "eot"   -> {i \in S : i = Len(E.L) /\ E.eot}
    [] re.op = "wb"    -> {i \in S : WordBefore(E.L, i) # WordAfter(E.L, i)}
    [] re.op = "nwb"   -> {i \in S : WordBefore(E.L, i) = WordAfter(E.L, i)}

Matches(re, E) == Ends(re, E, 0..Len(E.L)) # {}

-----------------------------------------------------------------------------
(* Files and lines *)

RECURSIVE SegEnd(_, _)
SegEnd(f, k) == IF k = 0 THEN 0 ELSE SegEnd(f, k - 1) + f.segs[k].n   \* last line number of segment k
NumLines(f) == SegEnd(f, Len(f.segs))

LineAt(f, n) == LET k == CHOOSE k \in 1..Len(f.segs) : SegEnd(f, k - 1) < n /\ n <= SegEnd(f, k)
                IN  f.segs[k].l

(* Whether a run of equal lines matches.  Only the first line of the file  *)
(* and an unterminated last line can differ from other occurrences of the  *)
(* same text; the runs given to us separate those.                         *)
(*                                                                         *)
(* q.resume selects a known deviation of the code (see known_findings):    *)
(* the line after a matching line also counts as the beginning of the      *)
(* text.  prev: the line before the run matches.                           *)
SegMatches(q, f, k, prev) == Matches(q.re, [L |-> f.segs[k].l, fold |-> q.fold,
                                            bot |-> k = 1 \/ (q.resume /\ prev),
                                            eot |-> k = Len(f.segs) /\ ~f.term])

SegOk(f) == Len(f.segs) > 0 => /\ f.segs[1].n = 1
                               /\ ~f.term => f.segs[Len(f.segs)].n = 1

JoinRun(run, rest) ==      \* maximal runs
  IF rest # <<>> /\ rest[1][1] = run[1] + run[2] /\ rest[1][3] = run[3]
  THEN << <<run[1], run[2] + rest[1][2], run[3]>> >> \o Tail(rest)
  ELSE <<run>> \o rest

RECURSIVE MatchRunsFrom(_, _, _, _, _)
MatchRunsFrom(q, f, k, start, prev) ==
  IF k > Len(f.segs) THEN <<>>
  ELSE LET hit  == SegMatches(q, f, k, prev)
           rest == MatchRunsFrom(q, f, k + 1, start + f.segs[k].n, hit) IN
       IF hit THEN JoinRun(<<start, f.segs[k].n, f.segs[k].l>>, rest) ELSE rest
\* the matching lines of f as runs <<first line number, how many, text>>
MatchRuns(q, f) == MatchRunsFrom(q, f, 1, 1, FALSE)

RECURSIVE RunTotal(_)
RunTotal(runs) == IF runs = <<>> THEN 0 ELSE runs[1][2] + RunTotal(Tail(runs))

RECURSIVE CutRuns(_, _)    \* the first m lines of the runs
CutRuns(runs, m) ==
  IF m <= 0 \/ runs = <<>> THEN <<>>
  ELSE IF runs[1][2] >= m THEN << <<runs[1][1], m, runs[1][3]>> >>
  ELSE <<runs[1]>> \o CutRuns(Tail(runs), m - runs[1][2])

(* A path is matched like a one-line text (newlines in a path split it). *)
NameMatches(re, name) ==
  \E k \in 1..Len(name) : Matches(re, [L |-> name[k], fold |-> FALSE, bot |-> k = 1, eot |-> k = Len(name)])

Passes(q, f) == /\ q.inc.op # "absent" => NameMatches(q.inc, f.name)
                /\ q.exc.op # "absent" => ~NameMatches(q.exc, f.name)

-----------------------------------------------------------------------------
(* The search over all files of an index, in index order.  One step per    *)
(* file; st is what the loop has accumulated.                              *)

St0 == [found |-> 0, collected |-> 0, nm |-> 0, visited |-> 0, out |-> <<>>]

VisitFile(q, f, k, st) ==
  IF ~Passes(q, f) \/ (q.max > 0 /\ st.nm >= q.max) THEN st
  ELSE LET runs == MatchRuns(q, f)
           s1   == [st EXCEPT !.visited = @ + 1]
       IN  IF runs = <<>> THEN s1
           ELSE IF st.found < q.offset \/ (q.limit > 0 /\ st.collected >= q.limit)
                THEN [s1 EXCEPT !.found = @ + 1]
           ELSE LET take == IF q.max > 0 THEN CutRuns(runs, q.max - st.nm) ELSE runs
                IN  [s1 EXCEPT !.found = @ + 1, !.collected = @ + 1,
                               !.nm = @ + RunTotal(take), !.out = Append(@, [f |-> k, runs |-> take])]

RECURSIVE SearchFrom(_, _, _, _)
SearchFrom(q, files, k, st) ==
  IF k > Len(files) THEN st ELSE SearchFrom(q, files, k + 1, VisitFile(q, files[k], k, st))

SearchResult(q, files) == SearchFrom(q, files, 1, St0)

-----------------------------------------------------------------------------
(* Context of the match at line n when the previous returned match of the  *)
(* file was at line prev (0: none) and ctx lines were asked for.           *)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
BeforeLines(f, n, prev, ctx) ==
  LET lo == Max2(prev + 1, n - ctx) IN [j \in 1..Max2(0, n - lo) |-> LineAt(f, lo + j - 1)]
AfterLines(f, n, ctx) ==
  LET hi == Min2(NumLines(f), n + ctx) IN [j \in 1..Max2(0, hi - n) |-> LineAt(f, n + j)]
=============================================================================
