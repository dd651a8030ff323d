----------------------------- MODULE Attributes -----------------------------
(***************************************************************************)
(* Git attributes, as far as they mark files as generated, and the daemon  *)
(* that serves revisions of a repository under several names.              *)
(*                                                                         *)
(* A commit is [files, attrs]: a set of paths, and a set of attribute      *)
(* files [dir, rules], where dir is "" or ends in "/" and a rule is        *)
(* [pat, state].                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES kind,      \* "git" or "local" (which has no attributes)
          commits,
          lists      \* what the configuration lists, one set of paths for every name; <<>>: it is not running
attrvars == <<kind, commits, lists>>

At(s, k) == SubSeq(s, k, k)
HasSlash(s) == \E k \in 1..Len(s) : At(s, k) = "/"
RECURSIVE LastSlash(_, _)
LastSlash(s, k) == IF k = 0 THEN 0 ELSE IF At(s, k) = "/" THEN k ELSE LastSlash(s, k - 1)
BaseOf(s) == SubSeq(s, LastSlash(s, Len(s)) + 1, Len(s))
Starts(s, x) == Len(s) >= Len(x) /\ SubSeq(s, 1, Len(x)) = x

-----------------------------------------------------------------------------
(* Whether the pattern p, from its i-th character on, matches what there is *)
(* of s from its j-th on.                                                   *)
RECURSIVE M(_, _, _, _)
Stars(p, i) == i < Len(p) /\ At(p, i) = "*" /\ At(p, i + 1) = "*" /\ (i = 1 \/ At(p, i - 1) = "/")
M(p, i, s, j) ==
  IF i > Len(p) THEN j > Len(s)
  ELSE IF Stars(p, i) /\ i + 1 = Len(p) THEN TRUE
  ELSE IF Stars(p, i) /\ At(p, i + 2) = "/" THEN      \* any number of directories
    \/ M(p, i + 3, s, j)
    \/ \E k \in j..Len(s) : At(s, k) = "/" /\ M(p, i + 3, s, k + 1)
  ELSE IF At(p, i) = "*" THEN
    \/ M(p, i + 1, s, j)
    \/ j <= Len(s) /\ At(s, j) # "/" /\ M(p, i, s, j + 1)
  ELSE /\ j <= Len(s)
       /\ \/ At(p, i) = At(s, j)
          \/ At(p, i) = "?" /\ At(s, j) # "/"
       /\ M(p, i + 1, s, j + 1)

\* rel: the path from where the attribute file is
Matches(pat, rel) ==
  IF At(pat, Len(pat)) = "/" THEN FALSE                     \* directories have no attributes
  ELSE IF ~HasSlash(pat) THEN M(pat, 1, BaseOf(rel), 1)
  ELSE IF At(pat, 1) = "/" THEN M(SubSeq(pat, 2, Len(pat)), 1, rel, 1)
  ELSE M(pat, 1, rel, 1)

-----------------------------------------------------------------------------
States == {"set", "true", "macro", "unset", "false", "none"}

\* what an attribute file says: the last rule that matches counts
RECURSIVE Said(_, _, _)
Said(rules, rel, k) == IF k = 0 THEN "nothing"
                       ELSE IF Matches(rules[k].pat, rel) THEN rules[k].state
                       ELSE Said(rules, rel, k - 1)
Rel(f, p) == SubSeq(p, Len(f.dir) + 1, Len(p))
\* the closest attribute file that says something counts
Saying(A, p) == {f \in A : Starts(p, f.dir) /\ Said(f.rules, Rel(f, p), Len(f.rules)) # "nothing"}
State(A, p) == IF Saying(A, p) = {} THEN "none"
               ELSE LET f == CHOOSE f \in Saying(A, p) : \A g \in Saying(A, p) : Len(g.dir) <= Len(f.dir)
                    IN Said(f.rules, Rel(f, p), Len(f.rules))
Generated(c, p) == kind = "git" /\ State(c.attrs, p) \in {"set", "true", "macro"}

Mark(list, c, p) == IF list # {} THEN p \in list ELSE Generated(c, p)
Marks(list, c) == {[p |-> p, gen |-> Mark(list, c, p)] : p \in c.files}

-----------------------------------------------------------------------------
Init0(k) == kind = k /\ commits = <<[files |-> {}, attrs |-> {}]>> /\ lists = <<>>

Commit(T, A) == commits' = Append(commits, [files |-> T, attrs |-> A]) /\ UNCHANGED <<kind, lists>>
Boot(ls)     == lists = <<>> /\ lists' = ls /\ UNCHANGED <<kind, commits>>
Stop         == lists # <<>> /\ lists' = <<>> /\ UNCHANGED <<kind, commits>>

\* a search under the n-th name finds all the files of some revision, and tells which are generated
Serve(n, rev, shown) ==
  /\ n \in 1..Len(lists) /\ rev \in 1..Len(commits)
  /\ shown = Marks(lists[n], commits[rev])
  /\ UNCHANGED attrvars
=============================================================================
