------------------------------ MODULE HoundGen ------------------------------
(* Behaviours of Hound to be replayed into the real code (TLC -simulate).  *)
EXTENDS Hound, TLC, Json

CONSTANTS NRepos, MaxRev, Depth,
          Focus     \* what the behaviours should be rich in: "any", "swap", "push", "slots", "stop", "fault", "boot", "fail"
VARIABLE h      \* what the driver has to do or to wait for, in order
gvars == <<vars, h>>

RS == 1..NRepos
F == [RS -> BOOLEAN]
Distinct == [r \in RS |-> r]
Shared == [r \in RS |-> IF r = NRepos /\ r > 1 THEN 1 ELSE r]
All(b) == [r \in RS |-> b]
Polls == CASE Focus = "swap"  -> {All(TRUE)}
           [] Focus = "push"  -> {All(FALSE), [r \in RS |-> r = 2]}
           [] Focus = "slots" -> {All(TRUE), [r \in RS |-> r # 1]}
           [] Focus = "fault" -> {All(TRUE), [r \in RS |-> r = 1]}
           [] OTHER -> F
Pushes == CASE Focus = "push" -> {All(TRUE), [r \in RS |-> r = 1]}
            [] OTHER -> F
Urls == CASE Focus \in {"fault", "stop"} -> {Distinct}
          [] Focus = "boot" -> {Distinct, Shared, All(1)}
          [] OTHER -> {Distinct, Shared}
Bads == CASE Focus = "fail" -> {{}, {NRepos}, {1}, {1, NRepos}}
          [] Focus \in {"any", "boot", "slots"} -> {{}, {}, {NRepos}}
          [] OTHER -> {{}}
Slots == IF Focus = "slots" THEN 1..(NRepos - 1) ELSE 1..2
Cfgs == [repos : {RS}, slots : Slots, poll : Polls, push : Pushes, url : Urls, bad : Bads]

Most(o) ==   \* at most so many of these steps in one behaviour
  CASE o = "commit"   -> IF Focus = "swap" THEN 15 ELSE 6
    [] o = "pullfail" -> IF Focus \in {"fail", "fault"} THEN 5 ELSE 2
    [] o = "fault"    -> IF Focus \in {"fault", "fail"} THEN 6 ELSE IF Focus \in {"swap", "push"} THEN 0 ELSE 3
    [] o = "stick"    -> IF Focus = "fault" THEN 4 ELSE IF Focus = "any" THEN 1 ELSE 0
    [] o = "request"  -> IF Focus = "push" THEN 20 ELSE IF Focus = "stop" THEN 8 ELSE 5
    [] o = "search"   -> IF Focus = "swap" THEN 25 ELSE 10
    [] o = "exit"     -> IF Focus = "boot" THEN 3 ELSE 1
    [] o = "stop"     -> IF Focus \in {"stop", "boot"} THEN 3 * NRepos ELSE IF Focus \in {"swap", "push"} THEN 0 ELSE NRepos
    [] o = "snap"     -> IF Focus \in {"boot", "fault"} THEN 6 ELSE 2
    [] o = "plant"    -> IF Focus = "boot" THEN 4 ELSE 0
    [] OTHER -> 1000
StopAfter == CASE Focus = "stop" -> 4 [] Focus = "boot" -> 8 [] OTHER -> 20
NotYet(o) == Cardinality({k \in 2..Len(h) : h[k].op = o}) < Most(o)
Last(S) == h[Len(h)].op \in S

AsSeq(f) == [r \in RS |-> f[r]]
Init == \E c \in Cfgs : Init0(c) /\ h = << [op |-> "cfg", slots |-> c.slots, poll |-> AsSeq(c.poll), push |-> AsSeq(c.push),
                                           url |-> AsSeq(c.url), bad |-> c.bad] >>
SayV(o, r, v) == NotYet(o) /\ h' = Append(h, [op |-> o, r |-> r, v |-> v])
Say(o, r) == SayV(o, r, 0)

Next ==
  \/ Boot /\ Say("boot", 0)
  \/ Started /\ Say("started", 0)
  \/ Exit /\ Say("exit", 0)
  \/ \E r \in RS : (Acquire(r) \/ Misconfigured(r) \/ Pick(r) \/ BuildFail(r) \/ BuildBegin(r) \/ Awake(r) \/ TakeRequest(r) \/ Drop(r)) /\ UNCHANGED h
  \/ \E r \in RS : Tick(r) /\ UNCHANGED h
  \/ \E r \in RS : BuildEnd(r) /\ (IF pc[r] = "making" THEN UNCHANGED h ELSE Say("built", r))
  \/ \E r \in RS : Swap(r) /\ SayV("swap", r, got[r])
  \/ \E r \in RS : PullStart(r) /\ Say("pullstart", r)
  \/ \E r \in RS : PullOk(r) /\ Say("pullok", r)
  \/ \E r \in RS : PullFail(r) /\ (proc = "run" \/ r = 1 \/ Focus = "fail") /\ Say("pullfail", r)
  \/ \E r \in RS : Request(r) /\ Say("request", r)
  \/ \E r \in RS : Stop(r) /\ Len(h) > StopAfter /\ Say("stop", r)
  \/ \E r \in RS : Halt(r) /\ Say("halt", r)
  \/ \E r \in RS : Running(r) /\ ~Last({"search"}) /\ UNCHANGED vars /\ Say("search", r)
  \/ proc = "run" /\ ~Last({"snap"}) /\ UNCHANGED vars /\ Say("snap", 0)
  \/ \E u \in DOMAIN up : \E v \in {up[u] + 1, up[u] - 1} : v >= 0 /\ v <= MaxRev /\ ~Last({"commit"}) /\ Commit(u, v) /\ SayV("commit", u, v)
  \/ \E r \in RS : /\ (proc = "run" \/ Focus = "fail") /\ ~Last({"fault"})
                   /\ SetFault(r, ~flt[r]) /\ SayV("fault", r, IF flt[r] THEN 0 ELSE 1)
  \/ \E r \in RS : /\ proc = "run" /\ pc[r] \in {"idle", "pulling"} /\ ~Last({"stick"}) /\ Stick(r) /\ Say("stick", r)
  \/ (\E d \in db : d.stuck) /\ Unstick /\ Say("unstick", 0)
  \* what is planted: nothing complete (0), or a copy of a complete one
  \/ Plant(0, -1, "part") /\ SayV("plant", 0, -1)
  \/ \E d \in db : d.st = "full" /\ Plant(d.url, d.rev, "full") /\ SayV("plant", d.url, d.rev)

Spec == Init /\ [][Next]_gvars

Emit == TLCGet("level") < Depth \/ PrintT(<<"SCENARIO", ToJson(h)>>)
=============================================================================
