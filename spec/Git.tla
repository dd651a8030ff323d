-------------------------------- MODULE Git --------------------------------
(***************************************************************************)
(* A remote git repository, whose owners do what they like with it, and    *)
(* the working copy that the daemon keeps of it.                           *)
(*                                                                         *)
(* A commit is its number; commits[c] is its tree, a set of entries        *)
(* [p, k, c]: path, kind ("file", "exec", "link") and content.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES cfg,        \* [ref, detect]: the configuration
          commits,
          branches,   \* set of [n, c]: the remote's branches
          tags,       \* set of [n, c]
          head,       \* the name of the remote's default branch (it may not exist)
          up,         \* the remote can be reached
          at,         \* the working copy: 0 none, -1 one without a commit, or its commit
          extra       \* paths of files in it that git does not know
gitvars == <<cfg, commits, branches, tags, head, up, at, extra>>

Init0(c, b) == /\ cfg = c /\ commits = <<{}>> /\ branches = {[n |-> b, c |-> 1]} /\ tags = {} /\ head = b
               /\ up = TRUE /\ at = 0 /\ extra = {}

Names(S) == {x.n : x \in S}
Of(S, n) == (CHOOSE x \in S : x.n = n).c
Set(S, n, c) == {x \in S : x.n # n} \cup {[n |-> n, c |-> c]}

-----------------------------------------------------------------------------
(* Paths.  An entry hides what is below it. *)
Under(p) == CASE p = "d"   -> {"d/x", "d/y", "d/x/z"}
              [] p = "d/x" -> {"d/x/z"}
              [] OTHER     -> {}
Put(T, p, k, c) == {e \in T : e.p # p /\ e.p \notin Under(p) /\ p \notin Under(e.p)} \cup {[p |-> p, k |-> k, c |-> c]}
Drop(T, p) == {e \in T : e.p # p}

\* the same for names of branches
NoConflict(N) == ~({"a", "a/b"} \subseteq N)

-----------------------------------------------------------------------------
(* What the owners do *)
Commit(b, T) == /\ NoConflict(Names(branches) \cup {b})
                /\ commits' = Append(commits, T)
                /\ branches' = Set(branches, b, Len(commits) + 1)
                /\ UNCHANGED <<cfg, tags, head, up, at, extra>>
Point(b, c)  == /\ NoConflict(Names(branches) \cup {b}) /\ c \in 1..Len(commits)     \* create, rewind, force-push
                /\ branches' = Set(branches, b, c)
                /\ UNCHANGED <<cfg, commits, tags, head, up, at, extra>>
Delete(b)    == /\ b \in Names(branches)
                /\ branches' = {x \in branches : x.n # b}
                /\ UNCHANGED <<cfg, commits, tags, head, up, at, extra>>
Rename(a, b) == /\ a \in Names(branches) /\ b \notin Names(branches) /\ NoConflict((Names(branches) \ {a}) \cup {b})
                /\ branches' = Set({x \in branches : x.n # a}, b, Of(branches, a))
                /\ head' = IF head = a THEN b ELSE head
                /\ UNCHANGED <<cfg, commits, tags, up, at, extra>>
SetHead(b)   == head' = b /\ UNCHANGED <<cfg, commits, branches, tags, up, at, extra>>
Tag(t, c)    == /\ NoConflict(Names(tags) \cup {t}) /\ c \in 1..Len(commits) /\ tags' = Set(tags, t, c)
                /\ UNCHANGED <<cfg, commits, branches, head, up, at, extra>>
SetUp(x)     == up' = x /\ UNCHANGED <<cfg, commits, branches, tags, head, at, extra>>

(* What happens to the working copy *)
Dirty(ps)    == at # 0 /\ extra' = extra \cup ps /\ UNCHANGED <<cfg, commits, branches, tags, head, up, at>>   \* ps: new unknown files
Stage        == at # 0 /\ extra' = {} /\ UNCHANGED <<cfg, commits, branches, tags, head, up, at>>              \* git add

-----------------------------------------------------------------------------
\* the configured branch, else the detected default branch if detection is on, else master
Target == IF cfg.ref # "" THEN cfg.ref
          ELSE IF cfg.detect /\ head \in Names(branches) THEN head
          ELSE "master"
There == up /\ Target \in Names(branches)

TreeOk(tree, c) == /\ commits[c] \subseteq tree
                   /\ \A e \in tree \ commits[c] : e.p \in extra

(* A clone, or a fetch into the working copy.  What a failure does to it is *)
(* not specified, but it never makes up a revision: it reports an error or  *)
(* something that was there.                                                *)
Fetched(rev, tree) == /\ rev = Of(branches, Target)
                      /\ TreeOk(tree, rev)
Otherwise(rev) == \/ at > 0 /\ rev = at
                  \/ up /\ Target \in Names(tags) /\ rev = Of(tags, Target)
                  \/ up /\ at <= 0 /\ head \in Names(branches) /\ rev = Of(branches, head)

Fetch(err, rev, tree, dir) ==
  /\ IF There THEN ~err /\ Fetched(rev, tree)
     ELSE err \/ Otherwise(rev)
  /\ at' = IF ~err THEN rev ELSE IF ~dir THEN 0 ELSE IF at = 0 THEN -1 ELSE at
  /\ UNCHANGED <<cfg, commits, branches, tags, head, up, extra>>
=============================================================================
