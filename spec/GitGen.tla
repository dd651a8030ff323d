------------------------------- MODULE GitGen -------------------------------
(* Behaviours of Git to be replayed into real repositories (TLC -simulate).*)
EXTENDS Git, TLC, Json

CONSTANTS Depth
VARIABLE h
gvars == <<gitvars, h>>

Bs == {"master", "main", "a", "a/b", "rel+1#x,y"}
Ps == {"f", "d", "d/x", "d/y", "d/x/z", "e b"}
Ks == {"file", "file", "exec", "link"}
R(S) == IF Len(h) = 0 THEN CHOOSE x \in S : TRUE ELSE RandomElement(S)     \* (anew in every state)

Cfgs == [ref : {""}, detect : BOOLEAN] \cup [ref : {"main", "a", "a/b", "rel+1#x,y"}, detect : {FALSE}] \cup {[ref |-> "main", detect |-> TRUE]}
Init == \E c \in Cfgs, b \in Bs :
          Init0(c, b) /\ h = <<[op |-> "cfg", ref |-> c.ref, detect |-> c.detect, b |-> b]>>

Say(r) == h' = Append(h, r)
Last(o) == h[Len(h)].op = o

Base(b) == IF b \in Names(branches) THEN commits[Of(branches, b)] ELSE commits[Len(commits)]
Step(T, x) == IF x[4] = 0 THEN Drop(T, x[1]) ELSE Put(T, x[1], x[2], x[3])
Rnd(n) == <<R(Ps), R(Ks), R(1..3), R(0..2)>>
Change(T, n) == LET A == Step(T, Rnd(1)) IN IF n = 1 THEN A ELSE LET B == Step(A, Rnd(2)) IN IF n = 2 THEN B ELSE Step(B, Rnd(3))

\* the branch that matters, mostly
Some == IF R(1..3) > 1 THEN {Target} \cap Bs ELSE {R(Bs)}

Gen ==
  \/ \E b \in Some : LET T == Change(Base(b), R(1..3)) IN
       \E force \in {R({TRUE, FALSE, FALSE})} : Commit(b, T) /\ Say([op |-> "commit", b |-> b, tree |-> T, force |-> force])
  \/ \E b \in Some : LET T == Change(Base(b), 2) IN Commit(b, T) /\ Say([op |-> "commit", b |-> b, tree |-> T, force |-> FALSE])
  \/ \E b \in Some, c \in {R(1..Len(commits))} : Point(b, c) /\ Say([op |-> "point", b |-> b, c |-> c])
  \/ R(1..3) = 1 /\ \E b \in {R(Names(branches) \cup {"main"})} : Delete(b) /\ Say([op |-> "delete", b |-> b])
  \/ \E a \in {R(Names(branches) \cup {"main"})}, b \in {R(Bs)} : Rename(a, b) /\ Say([op |-> "rename", b |-> a, to |-> b])
  \/ \E b \in {R(Bs)} : SetHead(b) /\ Say([op |-> "head", b |-> b])
  \/ R(1..2) = 1 /\ \E t \in {R({Target, "origin/main", "v1"})}, c \in {R(1..Len(commits))} : Tag(t, c) /\ Say([op |-> "tag", b |-> t, c |-> c])
  \/ R(1..6) = 1 /\ SetUp(~up) /\ Say([op |-> "up", x |-> ~up])
  \/ ~up /\ SetUp(TRUE) /\ Say([op |-> "up", x |-> TRUE])
  \/ \E p \in {R(Ps)}, w \in {R({"modify", "remove", "exec", "dir", "link", "new"})} : Dirty({}) /\ Say([op |-> "dirty", p |-> p, w |-> w])
  \/ R(1..3) = 1 /\ Stage /\ Say([op |-> "stage"])
  \/ \E k \in 1..3 :
     /\ ~Last("fetch")
     /\ at' = IF There THEN Of(branches, Target) ELSE IF at = 0 THEN -1 ELSE at
     /\ UNCHANGED <<cfg, commits, branches, tags, head, up, extra>>
     /\ Say([op |-> "fetch", k |-> 0])

Spec == Init /\ [][Gen]_gvars
Emit == TLCGet("level") # Depth \/ PrintT(<<"SCENARIO", ToJson(h)>>)
=============================================================================
