------------------------------ MODULE HoundMC -------------------------------
(* Model checking of Hound: all configurations of up to two repositories. *)
EXTENDS Hound, TLC

CONSTANTS NRepos, MaxRev, MaxReq, MaxStop, MaxCrash, MaxFault, Kinds, Configs

VARIABLES reqs, crashes, faults, seen   \* budgets; seen: repository -> revisions in the order they were served
mcvars == <<vars, reqs, crashes, faults, seen>>

RepoSet == 1..NRepos

Cfgs ==
  LET F(S) == [RepoSet -> S] IN
  [repos : {RepoSet}, slots : 1..NRepos, poll : F(BOOLEAN), push : F(BOOLEAN), url : {[r \in RepoSet |-> r], [r \in RepoSet |-> 1]},
   bad : {{}, {NRepos}}]

CfgsSmall == {c \in Cfgs : /\ c.bad = {} /\ c.slots = 1
                           /\ \A r \in RepoSet : c.poll[r] = (r # 1) /\ c.push[r] = (r = 1)}
CfgsLive == {c \in Cfgs : c.bad = {} /\ c.slots = 1 /\ \A r \in RepoSet : c.url[r] = r /\ c.push[r] /\ c.poll[r] = (r = 1)}
Chosen == IF Configs = "all" THEN Cfgs ELSE IF Configs = "live" THEN CfgsLive ELSE CfgsSmall

Init == /\ \E c \in Chosen : Init0(c)
        /\ reqs = 0 /\ crashes = 0 /\ faults = 0
        /\ seen = [r \in RepoSet |-> <<>>]

Note == seen' = [r \in RepoSet |->
           IF proc' = "down" THEN <<>>
           ELSE LET v == IF live'[r] = 0 THEN -1 ELSE (CHOOSE d \in db' : d.id = live'[r]).rev IN
                IF v # -1 /\ (seen[r] = <<>> \/ seen[r][Len(seen[r])] # v) THEN Append(seen[r], v) ELSE seen[r]]

B(A) == A /\ Note /\ UNCHANGED <<reqs, crashes, faults>>

Next ==
  \/ B(Boot) \/ B(Started) \/ B(Exit)
  \/ \E r \in RepoSet : B(Hidden(r)) \/ B(StartFetch(r)) \/ B(Refuse(r)) \/ B(BuildSwap(r)) \/ B(PullStart(r)) \/ B(PullOk(r))
  \/ "disk" \in Kinds /\ faults < MaxFault /\ ~disk /\ SetDisk(TRUE) /\ faults' = faults + 1 /\ Note /\ UNCHANGED <<reqs, crashes>>
  \/ disk /\ B(SetDisk(FALSE))
  \/ \E r \in RepoSet : "pull" \in Kinds /\ faults < MaxFault /\ PullFail(r) /\ faults' = faults + 1 /\ Note /\ UNCHANGED <<reqs, crashes>>
  \/ \E r \in RepoSet : reqs < MaxReq /\ Request(r) /\ reqs' = reqs + 1 /\ Note /\ UNCHANGED <<crashes, faults>>
  \/ \E r \in RepoSet : MaxStop > 0 /\ B(Stop(r))
  \/ crashes < MaxCrash /\ Crash /\ crashes' = crashes + 1 /\ Note /\ UNCHANGED <<reqs, faults>>
  \/ \E u \in DOMAIN up : up[u] < MaxRev /\ B(Commit(u, up[u] + 1))
  \/ \E r \in RepoSet :
       \/ "content" \in Kinds /\ faults < MaxFault /\ ~flt[r] /\ SetFault(r, TRUE) /\ faults' = faults + 1 /\ Note /\ UNCHANGED <<reqs, crashes>>
       \/ flt[r] /\ B(SetFault(r, FALSE))
       \/ "stick" \in Kinds /\ faults < MaxFault /\ proc = "run" /\ pc[r] \in {"idle", "pulling"} /\ Stick(r) /\ faults' = faults + 1 /\ Note /\ UNCHANGED <<reqs, crashes>>
  \/ (\E d \in db : d.stuck) /\ B(Unstick)

Spec == Init /\ [][Next]_mcvars
LiveSpec == Spec /\ WF_mcvars(B(Boot)) /\ WF_mcvars(B(Started))
            /\ \A r \in RepoSet : /\ WF_mcvars(B(Misconfigured(r) \/ Pick(r) \/ BuildFail(r) \/ BuildBegin(r) \/ BuildEnd(r) \/ BuildBreak(r) \/ Awake(r) \/ Halt(r) \/ Swap(r) \/ Drop(r)))
                                  /\ SF_mcvars(B(Acquire(r)))
                                  /\ SF_mcvars(B(PullStart(r)))
                                  /\ WF_mcvars(B(PullOk(r)))
                                  /\ WF_mcvars(B(Tick(r))) /\ WF_mcvars(B(TakeRequest(r)))
                                  /\ WF_mcvars(flt[r] /\ B(SetFault(r, FALSE)))
            /\ WF_mcvars((\E d \in db : d.stuck) /\ B(Unstick))
            /\ WF_mcvars(disk /\ B(SetDisk(FALSE)))

\* directories are numbered in the order they are made: bound it
Bound == next <= 7

-----------------------------------------------------------------------------
Served(r) == live[r] # 0

\* C09, C16: what is served is always a complete index of its own repository, and nobody else's
LiveIsComplete == \A r \in Repos : Served(r) => /\ live[r] \in Ids
                                                /\ Dir(live[r]).st = "full"
                                                /\ Dir(live[r]).url = Url(r)
LiveIsOwn == \A r, s \in Repos : r # s /\ Served(r) => live[r] # live[s]
\* C09: a repository that was set up is served from then on
RunIsServed == proc = "run" => \A r \in Repos : pc[r] # "failed" => Served(r)
\* C12
SlotBound == /\ Cardinality(hold) <= cfg.slots
             /\ \A r \in Repos : pc[r] \in {"cloning", "pick", "make", "making", "pulling", "build", "building", "swap", "drop"} => r \in hold
             /\ \A r \in Repos : pc[r] \in {"queued", "want", "held", "idle", "failed", "stopped"} => r \notin hold
\* C15: nothing but live, being built and being deleted
Deletable == faults = 0 \/ "stick" \notin Kinds
NoLeak == proc = "run" /\ Deletable =>
            db = {d \in db : \E r \in Repos : d.id = live[r] \/ d.id = fresh[r]}
LiveOnDisk == \A r \in Repos : Served(r) => live[r] \in Ids
QuietDb == proc = "run" /\ Deletable /\ (\A r \in Repos : pc[r] \in {"held", "idle", "stopped", "failed"}) =>
             Cardinality(db) = Cardinality({r \in Repos : pc[r] # "failed"})
\* C10: believed and served revision agree, and follow the pulls
KnownIsServed == \A r \in Repos : Served(r) => known[r] = Rev(r)
Forward == \A r \in Repos : \A k \in 1..(Len(seen[r]) - 1) : seen[r][k] < seen[r][k + 1]   \* up only grows here
\* C11: an accepted request is pending, or its fetch is ahead
NotForgotten == \A r \in Repos : owed[r] /\ proc = "run" /\ pc[r] # "stopped" => upd[r] \/ pc[r] \in {"want", "pull"}
PushOnly == \A r \in Repos : upd[r] => cfg.push[r]
\* C13: after a stop at most the update under way
\* C17: a failed repository holds nothing
FailedIsOut == \A r \in Repos : pc[r] = "failed" => r \notin hold /\ live[r] = 0
\* the working copy is used by one repository at a time
OneUser == \A r, s \in Repos : r # s /\ Url(r) = Url(s) =>
             ~(pc[r] \in {"cloning", "making", "pulling", "building"} /\ pc[s] \in {"cloning", "making", "pulling", "building"})
BuiltFromPulled == \A r \in Repos : pc[r] \in {"making", "building"} => wd[Url(r)] = got[r]

\* C13: a stop keeps a searcher that is not updating from starting to
NoFetchAfterStop == [][\A r \in RepoSet : pc[r] = "idle" /\ stopq[r] => pc'[r] \in {"idle", "stopped", "off"}]_mcvars
\* C10: nothing is rebuilt for the revision that is served already
NoPointlessBuild == [][\A r \in RepoSet : pc[r] = "build" /\ pc'[r] = "building" => got[r] # known[r]]_mcvars
\* C14: a complete index of the same url and revision that is free is taken over
ReuseExact == [][\A r \in RepoSet : pc[r] = "pick" /\ pc'[r] \in {"make", "held"} =>
                   LET cand == {d \in db : d.id \in found \ claimed /\ d.st = "full" /\ d.url = Url(r) /\ d.rev = got[r]} IN
                   IF cand = {} \/ disk THEN TRUE ELSE live'[r] \in {d.id : d \in cand}]_mcvars
\* C16: after a restart what is served was complete
CrashSafe == [][proc = "start" /\ proc' = "run" => \A d \in db' : d.st = "full" /\ \E r \in RepoSet : live'[r] = d.id]_mcvars

\* liveness
Settles(r) == proc = "run" /\ cfg.poll[r] /\ ~stopq[r] /\ pc[r] # "failed"
EventuallyVisible == \A r \in RepoSet :
  <>[](Settles(r)) => <>[](known[r] = up[Url(r)] \/ pc[r] # "idle") \* weak form, see Visible
Visible == \A r \in RepoSet : (<>[](Settles(r))) => <>(known[r] = up[Url(r)])
Fetched == \A r \in RepoSet : [](owed[r] => <>(~owed[r] \/ stopq[r] \/ proc = "down"))
StopsAll == \A r \in RepoSet : [](stopq[r] /\ proc = "run" => <>(pc[r] = "stopped" \/ proc = "down"))
AllProcessed == [](proc = "start" => <>(proc = "run" \/ proc = "down"))
=============================================================================
