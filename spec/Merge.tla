------------------------------- MODULE Merge --------------------------------
(***************************************************************************)
(* Merging an older index A and a newer one B.  An index is                *)
(* [paths |-> claimed path prefixes, files |-> <<name, content>> pairs],   *)
(* both in increasing (bytewise) order.                                    *)
(***************************************************************************)
EXTENDS Posting

Min2(a, b) == IF a < b THEN a ELSE b

RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, k) == IF k > Len(b) THEN FALSE
                     ELSE IF k > Len(a) THEN TRUE
                     ELSE a[k] < b[k] \/ (a[k] = b[k] /\ LessFrom(a, b, k + 1))
Less(a, b) == LessFrom(a, b, 1)

IsPrefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

Claimed(ix, name) == \E k \in 1..Len(ix.paths) : IsPrefix(ix.paths[k], name)

RECURSIVE Sorted(_)
Sorted(S) ==
  IF S = {} THEN <<>>
  ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ Less(x, y)
       IN  <<m>> \o Sorted(S \ {m})

Elems(s) == {s[k] : k \in 1..Len(s)}

MergedFiles(A, B) ==
  LET F == Elems(B.files) \cup {f \in Elems(A.files) : ~Claimed(B, f[1])}
      names == Sorted({f[1] : f \in F})
  IN  [k \in 1..Len(names) |-> CHOOSE f \in F : f[1] = names[k]]

\* claimed paths, without those that lie under another one
MergedPaths(A, B) ==
  LET P == Elems(A.paths) \cup Elems(B.paths)
  IN  Sorted({p \in P : ~ \E q \in P : q # p /\ IsPrefix(q, p)})

\* what a well-formed pair of inputs is
WellFormed(ix) ==
  /\ \A k \in 1..(Len(ix.files) - 1) : Less(ix.files[k][1], ix.files[k + 1][1])
  /\ \A k \in 1..(Len(ix.paths) - 1) : Less(ix.paths[k], ix.paths[k + 1])
  /\ \A k \in 1..Len(ix.files) : Claimed(ix, ix.files[k][1])

(* res = [names, paths, lists |-> <<trigram, file numbers>> pairs]         *)
MergeOk(A, B, res) ==
  LET files == MergedFiles(A, B)
      T     == [k \in 1..Len(files) |-> TriSet(files[k][2])]
      all   == UNION {TriSet(f[2]) : f \in Elems(A.files) \cup Elems(B.files)}
  IN  /\ res.names = [k \in 1..Len(files) |-> files[k][1]]
      /\ res.paths = MergedPaths(A, B)
      /\ all \subseteq {res.lists[j][1] : j \in 1..Len(res.lists)}
      /\ \A j \in 1..Len(res.lists) :
           LET t == res.lists[j][1] l == res.lists[j][2] IN
           /\ \A k \in 1..(Len(l) - 1) : l[k] < l[k + 1]
           /\ {l[k] : k \in 1..Len(l)} = {k - 1 : k \in {k \in 1..Len(files) : t \in T[k]}}
=============================================================================
