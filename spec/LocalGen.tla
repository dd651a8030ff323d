------------------------------ MODULE LocalGen ------------------------------
(* Behaviours of Local to be replayed into real directories (TLC -simulate).*)
EXTENDS Local, TLC, Json

CONSTANTS Depth
VARIABLE h
gvars == <<locvars, h>>

Ps == {"a", "A", ".h", "d", "d/x", "d/.y", "d/x/z", ".git/x", "e b", "dx"}
R(S) == IF Len(h) = 0 THEN CHOOSE x \in S : TRUE ELSE RandomElement(S)     \* (anew in every state)

Cfgs == [watch : BOOLEAN, form : Forms, ignored : {{}, {".git"}, {"x", "a"}}, name : {"7f"}]
Init == \E c \in Cfgs : (c.form \notin Accepted => c.ignored = {}) /\ Init0(c)
          /\ h = <<[op |-> "cfg", watch |-> c.watch, form |-> c.form, ignored |-> c.ignored, name |-> c.name]>>

Say(r) == h' = Append(h, r)
Last(o) == h[Len(h)].op = o
Tame == {e \in tree : e.p # "n\nl"}
Some == IF Tame = {} \/ R(1..3) = 1 THEN R(Ps) ELSE R(Tame).p

Gen ==
  \/ \E n \in 1..2, p \in {R(Ps)}, c \in {R(0..7)} : Put(p, "file", c) /\ Say([op |-> "put", p |-> p, k |-> "file", c |-> c])
  \/ \E p \in {Some}, c \in {R(0..7)} : Put(p, "file", c) /\ Say([op |-> "put", p |-> p, k |-> "file", c |-> c])
  \/ R(1..2) = 1 /\ \E p \in {R(Ps)}, c \in {R(0..4)} : Put(p, "link", c) /\ Say([op |-> "put", p |-> p, k |-> "link", c |-> c])
  \/ R(1..3) = 1 /\ \E p \in {R(Ps)} : Put(p, "fifo", 0) /\ Say([op |-> "put", p |-> p, k |-> "fifo", c |-> 0])
  \/ R(1..9) = 1 /\ Put("n\nl", "file", 1) /\ Say([op |-> "put", p |-> "n\nl", k |-> "file", c |-> 1])
  \/ Has(tree, "n\nl") /\ Remove("n\nl") /\ Say([op |-> "remove", p |-> "n\nl"])
  \/ \E p \in {Some} : Has(tree, p) /\ Remove(p) /\ Say([op |-> "remove", p |-> p])
  \/ \E p \in {Some}, q \in {R(Ps)} : Move(p, q) /\ Say([op |-> "move", p |-> p, q |-> q])
  \/ \E p \in {Some}, q \in {Some} : Swap(p, q) /\ Say([op |-> "swap", p |-> p, q |-> q])
  \/ R(1..2) = 1 /\ Touch /\ Say([op |-> "touch"])
  \/ R(1..6) = 1 /\ SetThere(~there) /\ Say([op |-> "there", x |-> ~there])
  \/ ~there /\ SetThere(TRUE) /\ Say([op |-> "there", x |-> TRUE])
  \/ \E k \in 1..3 : ~Last("fetch") /\ UNCHANGED locvars /\ Say([op |-> "fetch", k |-> 0])

Spec == Init /\ [][Gen]_gvars
Emit == TLCGet("level") # Depth \/ PrintT(<<"SCENARIO", ToJson(h)>>)
=============================================================================
