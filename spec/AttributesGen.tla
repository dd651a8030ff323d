--------------------------- MODULE AttributesGen ---------------------------
(* Behaviours of Attributes to be replayed into real repositories.         *)
EXTENDS Attributes, TLC, Json

CONSTANTS Depth
VARIABLE h
gvars == <<attrvars, h>>

R(S) == IF Len(h) = 0 THEN CHOOSE x \in S : TRUE ELSE RandomElement(S)     \* (anew in every state)

Ps == {"a.go", "Make", "d/e/gen", "b.pb.go", ".hid", "e b.go", "d/a.go", "d/x.txt", "d/c.pb.go", "d/e/a.go", "d/e/z.pb.go", "d/e/e b.go", "de/a.go", "q\"t.go", "a[1].go", "p.lock", "d/p-lock.json", "x.min.js", "d/go.sum"}
Pats == {"*", "*.go", "*.pb.go", "a.go", "/a.go", "d/a.go", "d/*.go", "d/**", "**/a.go", "d/**/a.go", "e/*", "d/", "?.go", "d/e", "/d/*/*.go",
         "e/**", "e b.go", "**", "*/a.go", "d*", "*b*", "e/a.go", "/e/**", "d/e/a.go", "/*", "**/e/*.go", "z*.go", "gen", "d/e/*", "M*", "/d/*.pb.go", "q\"t.go", "*.lock", "*.min.js", "p*", "go.sum"}
Dirs == {"", "d/", "d/e/"}

Rule(n) == [pat |-> R(Pats), state |-> R(States)]
Rules(n) == IF R(1..3) = 1 THEN <<Rule(1)>> ELSE IF R(1..2) = 1 THEN <<Rule(1), Rule(2)>> ELSE <<Rule(1), Rule(2), Rule(3)>>
Some == {p \in Ps : R(1..3) # 1} \cup {R(Ps)}
Attrs == {[dir |-> d, rules |-> Rules(0)] : d \in {x \in Dirs : R(1..2) = 1 \/ x = ""}}
List == IF R(1..2) = 1 THEN {} ELSE {p \in Ps \cup {"nothing.go", "a", "d", "*.go", "?.go", "d/*", "**", "*", "a.*", "*/*/a.go", "A.go", "/a.go", "./a.go", "d/", "d/./a.go"} : R(1..4) = 1}

Init == \E k \in {"git", "local"} : Init0(k) /\ h = <<[op |-> "cfg", kind |-> k]>>
Say(r) == h' = Append(h, r)

\* a change of the attributes, of the files, or of both
Gen ==
  \/ LET T == IF R(1..3) = 1 THEN Some ELSE commits[Len(commits)].files \cup {R(Ps)}
         A == IF R(1..4) = 1 THEN commits[Len(commits)].attrs ELSE Attrs IN
     Commit(T, A) /\ Say([op |-> "commit", files |-> T, attrs |-> A])
  \/ LET A == Attrs IN
     Commit(commits[Len(commits)].files \cup {R(Ps)}, A) /\ Say([op |-> "commit", files |-> commits'[Len(commits')].files, attrs |-> A])
  \/ /\ Len(commits) > 1
     /\ LET ls == IF R(1..2) = 1 THEN <<List>> ELSE <<List, List>> IN
        Boot(ls) /\ Say([op |-> "boot", lists |-> ls])
  \/ Len(h) > 4 /\ Stop /\ Say([op |-> "stop"])

Spec == Init /\ [][Gen]_gvars
Emit == TLCGet("level") # Depth \/ PrintT(<<"SCENARIO", ToJson(h)>>)
=============================================================================
