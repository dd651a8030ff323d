----------------------------- MODULE HoundTrace -----------------------------
(***************************************************************************)
(* Decides whether traces recorded from the real code are behaviours of    *)
(* Hound.  The recorded events are the visible actions; everything else    *)
(* (taking a slot, building, swapping, a timer) may happen silently in     *)
(* between.  A trace is accepted if some behaviour explains all of it.     *)
(***************************************************************************)
EXTENDS Hound, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VREC)
Verbose == "VPROG" \in DOMAIN IOEnv

VARIABLES t,   \* which trace
          i,   \* next event
          cl   \* requests under way: [c, op, r, done, seen]
tvars == <<vars, t, i, cl>>

CfgOf(c) == [repos |-> 1..Len(c.url), slots |-> c.slots,
             poll |-> [r \in 1..Len(c.url) |-> c.poll[r]],
             push |-> [r \in 1..Len(c.url) |-> c.push[r]],
             url  |-> [r \in 1..Len(c.url) |-> c.url[r]],
             bad  |-> {c.bad[k] : k \in 1..Len(c.bad)}]

Init == /\ t \in 1..Len(Traces) /\ i = 1 /\ cl = {}
        /\ Init0(CfgOf(Traces[t].cfg))

Ev == Traces[t].ev[i]

-----------------------------------------------------------------------------
(* The content of revision v of remote u, as the driver writes it: files   *)
(* f0..fN with two lines each, and one file that is not text.              *)
NFiles(v) == 3 + (v % 3)

\* what the searches return: <<file, line, url, revision>> in order
All(u, v) == [k \in 1..(2 * NFiles(v)) |-> <<(k - 1) \div 2, ((k - 1) % 2) + 1, u, v>>]
Expect(q, u, v) ==
  CASE q = "all"   -> All(u, v)
    [] q = "fold"  -> All(u, v)
    [] q = "one"   -> SubSeq(All(u, v), 3, 4)                       \* files=f1
    [] q = "not"   -> SubSeq(All(u, v), 1, 2) \o SubSeq(All(u, v), 5, 2 * NFiles(v))  \* excludeFiles=f1
    [] q = "page"  -> SubSeq(All(u, v), 3, 4)                       \* offset 1, limit 1
    [] q = "line"  -> [k \in 1..NFiles(v) |-> <<k - 1, 2, u, v>>]   \* the second line of each
    [] q = "none"  -> <<>>

\* the revision's list of generated files names one file
ExpectAuto(q, u, v) == IF \E k \in 1..Len(Expect(q, u, v)) : Expect(q, u, v)[k][1] = v % 3 THEN <<v % 3>> ELSE <<>>

-----------------------------------------------------------------------------
Same == UNCHANGED vars
Open(op) == cl' = cl \cup {[c |-> Ev.c, op |-> op, r |-> Ev.r, done |-> FALSE,
                            seen |-> IF op \in {"s", "x"} THEN {Rev(Ev.r)} ELSE {}, ill |-> disk]}
Mine == CHOOSE x \in cl : x.c = Ev.c
Close == cl' = cl \ {Mine}

Names == {d.nm : d \in db} \ {0}
\* The directories seen are those of the state: [nm, full, url, rev].
Fits(d, l) == /\ (d.st # "part") = l.full
              /\ l.full => d.url = l.url /\ d.rev = l.rev
Listing ==
  LET L == {Ev.dirs[k] : k \in 1..Len(Ev.dirs)}
      old == {d \in db : d.nm # 0}
      new == {d \in db : d.nm = 0}
      Lo == {l \in L : l.nm \in Names}
      Ln == L \ Lo
  IN /\ Cardinality(L) = Cardinality(db)
     /\ Cardinality(Lo) = Cardinality(old)
     /\ \A d \in old : \E l \in Lo : l.nm = d.nm /\ Fits(d, l)
     /\ \E f \in [new -> Ln] :
          /\ \A d, e \in new : d # e => f[d] # f[e]
          /\ \A d \in new : Fits(d, f[d])
          /\ db' = old \cup {[d EXCEPT !.nm = f[d].nm] : d \in new}
  /\ UNCHANGED <<cfg, up, next, proc, found, claimed, pc, hold, wd, got, live, fresh, known, upd, stopq, flt, doom, owed, disk>>

Quiet == \A r \in Repos : pc[r] \in {"idle", "want", "pull", "pulling", "stopped", "failed", "off"}

PulledNow(r) == pc[r] \in {"cloning", "pulling"}
BusyNow == Cardinality({r \in Repos : pc[r] \in {"making", "building", "drop"} \/ (pc[r] \in {"make", "build"} /\ doom[r])})

Visible ==
  \/ Ev.e = "boot"      /\ Boot /\ UNCHANGED cl
  \/ Ev.e = "exit"      /\ Exit /\ UNCHANGED cl
  \/ Ev.e = "crash"     /\ Crash /\ cl' = {}
  \/ Ev.e = "commit"    /\ Commit(Ev.u, Ev.v) /\ UNCHANGED cl
  \/ Ev.e = "fault"     /\ SetFault(Ev.r, Ev.on) /\ UNCHANGED cl
  \/ Ev.e = "disk"      /\ SetDisk(Ev.on) /\ UNCHANGED cl
  \/ Ev.e = "stick"     /\ Stick(Ev.r) /\ UNCHANGED cl
  \/ Ev.e = "unstick"   /\ Unstick /\ UNCHANGED cl
  \/ Ev.e = "plant"     /\ Plant(Ev.u, Ev.v, Ev.st) /\ UNCHANGED cl
  \/ Ev.e = "pullstart" /\ StartFetch(Ev.r) /\ UNCHANGED cl
  \/ Ev.e = "pullok"    /\ up[Url(Ev.r)] = Ev.v /\ PullOk(Ev.r) /\ UNCHANGED cl
  \/ Ev.e = "pullfail"  /\ PullFail(Ev.r) /\ UNCHANGED cl
  \/ Ev.e = "started"   /\ proc = "run" /\ {r \in Repos : pc[r] = "failed"} = {Ev.failed[k] : k \in 1..Len(Ev.failed)}
                        /\ Same /\ UNCHANGED cl
  \/ Ev.e = "ustart"    /\ Same /\ Open("u")
  \/ Ev.e = "uend"      /\ Same /\ Close /\ Ev.ok = cfg.push[Ev.r] /\ (Ev.ok => Mine.done)
  \/ Ev.e = "stopstart" /\ Same /\ Open("t")
  \/ Ev.e = "stopend"   /\ Same /\ Close /\ Mine.done
  \/ Ev.e = "waitend"   /\ UNCHANGED cl /\ ((pc[Ev.r] = "stopped" /\ Same) \/ Halt(Ev.r))
  \* a search whose files cannot be read gets an error instead of an answer
  \/ Ev.e = "serror"    /\ Same /\ Close /\ Mine.ill
  \/ Ev.e = "xerror"    /\ Same /\ Close /\ Mine.ill
  \/ Ev.e = "sstart"    /\ Same /\ Open("s")
  \/ Ev.e = "send"      /\ Same /\ Close /\ Ev.v \in Mine.seen /\ Ev.res = Expect(Ev.q, Url(Ev.r), Ev.v)
                        /\ Ev.auto = ExpectAuto(Ev.q, Url(Ev.r), Ev.v)
  \/ Ev.e = "xstart"    /\ Same /\ Open("x")
  \/ Ev.e = "xend"      /\ Same /\ Close /\ \E v \in Mine.seen : Ev.bin = <<v>>
  \/ Ev.e = "snap"      /\ Quiet /\ Listing /\ Ev.lost = <<>> /\ UNCHANGED cl
  \/ Ev.e = "busy"      /\ Same /\ UNCHANGED cl
                        /\ \A k \in 1..Len(Ev.pulls) : PulledNow(Ev.pulls[k])
                        /\ Ev.dirs <= BusyNow

\* These steps are taken at once: nothing is gained by waiting.
UrgentOnes == {r \in Repos : \/ pc[r] = "pick"
                             \/ pc[r] \in {"make", "build"} /\ ~doom[r]
                             \/ pc[r] = "held" /\ proc = "run"
                             \/ pc[r] = "queued" /\ r \in cfg.bad /\ Free}
Urgent == LET r == CHOOSE x \in UrgentOnes : \A y \in UrgentOnes : x <= y IN
          (Pick(r) \/ BuildBegin(r) \/ Awake(r) \/ Refuse(r)) /\ UNCHANGED cl

\* A repository wakes up when its fetch is seen to start (StartFetch), except
\* that what is being asked for right now may come after it woke up.
Asked(r, ops) == \E x \in cl : x.r = r /\ ~x.done /\ x.op \in ops

Silent ==
  \/ /\ Started /\ UNCHANGED cl
  \/ \E r \in Repos : /\ \/ BuildFail(r)
                         \/ BuildBreak(r)
                         \/ Drop(r)
                         \/ pc[r] = "making" /\ BuildEnd(r)
                         \/ Asked(r, {"t"}) /\ Tick(r)
                         \/ Asked(r, {"t", "u"}) /\ TakeRequest(r)
                      /\ UNCHANGED cl
  \/ \E r \in Repos : /\ BuildSwap(r)
                      /\ cl' = {IF x.r = r /\ x.op \in {"s", "x"} THEN [x EXCEPT !.seen = @ \cup {got[r]}] ELSE x : x \in cl}
  \/ \E x \in cl : /\ ~x.done
                   /\ \/ x.op = "u" /\ Request(x.r)
                      \/ x.op = "t" /\ Stop(x.r)
                   /\ cl' = (cl \ {x}) \cup {[x EXCEPT !.done = TRUE]}

Next ==
  IF i <= Len(Traces[t].ev) /\ UrgentOnes # {} THEN Urgent /\ UNCHANGED <<t, i>> ELSE
  \/ /\ i <= Len(Traces[t].ev) /\ Visible /\ i' = i + 1 /\ t' = t
     /\ (Verbose => PrintT(<<"AT", i>>))
  \/ /\ i <= Len(Traces[t].ev) /\ Silent /\ UNCHANGED <<t, i>>
  \/ /\ i = Len(Traces[t].ev) + 1 /\ i' = i + 1 /\ UNCHANGED <<vars, t, cl>>
     /\ PrintT(<<"ACCEPT", Traces[t].id>>)

Spec == Init /\ [][Next]_tvars
=============================================================================
