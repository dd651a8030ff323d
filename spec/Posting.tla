------------------------------ MODULE Posting -------------------------------
(***************************************************************************)
(* What an index stores: for every trigram, the increasing list of the     *)
(* numbers of the files that contain it, and every file's name.            *)
(*                                                                         *)
(* A set of files is described by [n |-> how many, classes |-> contents,   *)
(* exc |-> exceptions <<number, content>>]: file i has its exception's     *)
(* content or else classes[i % Len(classes)].  Trigrams are numbers.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

TriSet(B) == {B[i] * 65536 + B[i + 1] * 256 + B[i + 2] : i \in 1..(Len(B) - 2)}

RECURSIVE QHoldsN(_, _)
QHoldsN(q, T) ==
  CASE q.op = "all"  -> TRUE
    [] q.op = "none" -> FALSE
    [] q.op = "and"  -> /\ \A k \in 1..Len(q.tri) : q.tri[k] \in T
                        /\ \A k \in 1..Len(q.sub) : QHoldsN(q.sub[k], T)
    [] q.op = "or"   -> \/ \E k \in 1..Len(q.tri) : q.tri[k] \in T
                        \/ \E k \in 1..Len(q.sub) : QHoldsN(q.sub[k], T)

\* A list of numbers is given as runs <<first, step, how many>>.
Last(run) == run[1] + run[2] * (run[3] - 1)
Increasing(runs) ==
  /\ \A k \in 1..Len(runs) : runs[k][3] >= 1 /\ (runs[k][3] > 1 => runs[k][2] >= 1)
  /\ \A k \in 1..(Len(runs) - 1) : Last(runs[k]) < runs[k + 1][1]

RECURSIVE TotalIn(_, _, _)
TotalIn(runs, i, j) == IF i > j THEN 0 ELSE IF i = j THEN runs[i][3]
                       ELSE LET h == (i + j) \div 2 IN TotalIn(runs, i, h) + TotalIn(runs, h + 1, j)
Total(runs) == TotalIn(runs, 1, Len(runs))

\* how many i in 0..n-1 have i % m = r
CountMod(n, m, r) == IF r >= n THEN 0 ELSE (n - 1 - r) \div m + 1

SumOver(S, f(_)) == LET RECURSIVE Go(_)
                        Go(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN f(x) + Go(X \ {x})
                    IN  Go(S)

(* The runs list exactly the files of F whose content satisfies the query. *)
(* sat: the residues, and satx: the exceptions, that satisfy it.           *)
Exactly(F, runs, sat, satx) ==
  LET m == Len(F.classes)
      X == {F.exc[k][1] : k \in 1..Len(F.exc)}
      ok(i) == IF i \in X THEN i \in satx ELSE (i % m) \in sat
      total == SumOver(sat, LAMBDA r : CountMod(F.n, m, r) - Cardinality({x \in X : x % m = r}))
               + Cardinality(satx)
  IN  /\ Increasing(runs)
      /\ Total(runs) = total
      /\ \A k \in 1..Len(runs) :
           LET run == runs[k] IN
           /\ 0 <= run[1] /\ Last(run) < F.n
           /\ IF run[3] <= 1000
              THEN \A j \in 0..(run[3] - 1) : ok(run[1] + run[2] * j)
              ELSE \* a long run has files of every residue it meets that are no exceptions
                   /\ \A j \in 0..(m - 1) : (run[1] + run[2] * j) % m \in sat
                   /\ \A x \in X : (run[1] <= x /\ x <= Last(run) /\ (x - run[1]) % run[2] = 0) => x \in satx
=============================================================================
