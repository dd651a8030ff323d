------------------------------- MODULE Hound --------------------------------
(***************************************************************************)
(* The life of the daemon: repositories are set up, polled, updated on     *)
(* request, reindexed, swapped, shut down, crash and come back.            *)
(*                                                                         *)
(* cfg never changes after the initial state (a variable, so that one TLC  *)
(* run can look at many configurations):                                   *)
(*   repos   the configured repositories                                   *)
(*   slots   max-concurrent-indexers                                       *)
(*   poll, push, url   per repository                                      *)
(*   bad     repositories whose version control system is misconfigured    *)
(* Revisions are numbers; up[u] is the tip of the remote u.                *)
(*                                                                         *)
(* An index directory is [id, url, rev, st, nm]; st is "part" while it is  *)
(* being written or deleted and "full" when complete, "torn" when it looks *)
(* complete but is not; nm is the name it was seen under (0: not seen      *)
(* yet); stuck: it cannot be deleted.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  cfg,
  up,       \* url -> tip of the remote
  db,       \* the index directories on disk
  next,     \* next directory id
  proc,     \* "down", "start" (setting up), "run"
  found,    \* ids of the directories present when the process started
  claimed,  \* ids of those taken over for reuse
  pc,       \* repository -> control state of its searcher
  hold,     \* repositories that hold an indexing slot
  wd,       \* url -> revision in the working copy (-1: none)
  got,      \* repository -> revision of the pull in progress
  live,     \* repository -> id of the index that answers searches (0: none)
  fresh,    \* repository -> id of the index being built (0: none)
  known,    \* repository -> revision the searcher believes in (-1: none)
  upd,      \* repository -> an update request is pending
  stopq,    \* repository -> a stop was requested
  flt,      \* repository -> the remote's content cannot be indexed at present
  doom,     \* repository -> what the last pull brought cannot be indexed
  owed,     \* repository -> a request was accepted since its last fetch began
  disk      \* TRUE: reading the sources and writing an index may fail at present

vars == <<cfg, up, db, next, proc, found, claimed, pc, hold, wd, got, live, fresh, known, upd, stopq, flt, doom, owed, disk>>

Repos == cfg.repos
Url(r) == cfg.url[r]
Dir(i) == CHOOSE d \in db : d.id = i
Rev(r) == IF live[r] = 0 THEN -1 ELSE Dir(live[r]).rev
Mk(id, u, v, st) == [id |-> id, url |-> u, rev |-> v, st |-> st, nm |-> 0, stuck |-> FALSE]
SetSt(i, st) == {IF d.id = i THEN [d EXCEPT !.st = st] ELSE d : d \in db}
Ids == {d.id : d \in db}

Free == Cardinality(hold) < cfg.slots

Init0(c) ==
  /\ cfg = c
  /\ up = [u \in {c.url[r] : r \in c.repos} |-> 0]
  /\ db = {} /\ next = 1
  /\ proc = "down" /\ found = {} /\ claimed = {}
  /\ pc = [r \in c.repos |-> "off"]
  /\ hold = {}
  /\ wd = [u \in {c.url[r] : r \in c.repos} |-> -1]
  /\ got = [r \in c.repos |-> -1]
  /\ live = [r \in c.repos |-> 0]
  /\ fresh = [r \in c.repos |-> 0]
  /\ known = [r \in c.repos |-> -1]
  /\ upd = [r \in c.repos |-> FALSE]
  /\ stopq = [r \in c.repos |-> FALSE]
  /\ flt = [r \in c.repos |-> FALSE]
  /\ doom = [r \in c.repos |-> FALSE]
  /\ owed = [r \in c.repos |-> FALSE]
  /\ disk = FALSE

-----------------------------------------------------------------------------
(* The environment *)

Commit(u, v) == /\ up[u] # v
                /\ up' = [up EXCEPT ![u] = v]
                /\ UNCHANGED <<cfg, db, next, proc, found, claimed, pc, hold, wd, got, live, fresh, known, upd, stopq, flt, doom, owed, disk>>

SetFault(r, on) ==
  /\ flt' = [flt EXCEPT ![r] = on]
  /\ UNCHANGED <<cfg, up, db, next, proc, found, claimed, pc, hold, wd, got, live, fresh, known, upd, stopq, doom, owed, disk>>

\* the disk fills up, or is fine again
SetDisk(on) ==
  /\ disk' = on
  /\ UNCHANGED <<cfg, up, db, next, proc, found, claimed, pc, hold, wd, got, live, fresh, known, upd, stopq, flt, doom, owed>>

\* the index r serves cannot be deleted (until Unstick)
Stick(r) ==
  /\ live[r] # 0
  /\ db' = {IF d.id = live[r] THEN [d EXCEPT !.stuck = TRUE] ELSE d : d \in db}
  /\ UNCHANGED <<cfg, up, next, proc, found, claimed, pc, hold, wd, got, live, fresh, known, upd, stopq, flt, doom, owed, disk>>
Unstick ==
  /\ db' = {[d EXCEPT !.stuck = FALSE] : d \in db}
  /\ UNCHANGED <<cfg, up, next, proc, found, claimed, pc, hold, wd, got, live, fresh, known, upd, stopq, flt, doom, owed, disk>>

\* something is left in the database directory while the daemon is not running
Plant(u, v, st) ==
  /\ proc = "down"
  /\ db' = db \cup {Mk(next, u, v, st)}
  /\ next' = next + 1
  /\ UNCHANGED <<cfg, up, proc, found, claimed, pc, hold, wd, got, live, fresh, known, upd, stopq, flt, doom, owed, disk>>

-----------------------------------------------------------------------------
(* Startup *)

Boot ==
  /\ proc = "down"
  /\ proc' = "start"
  /\ found' = Ids /\ claimed' = {}
  /\ pc' = [r \in Repos |-> "queued"]
  /\ hold' = {}
  /\ got' = [r \in Repos |-> -1] /\ live' = [r \in Repos |-> 0] /\ fresh' = [r \in Repos |-> 0]
  /\ known' = [r \in Repos |-> -1]
  /\ upd' = [r \in Repos |-> FALSE] /\ stopq' = [r \in Repos |-> FALSE] /\ owed' = [r \in Repos |-> FALSE]
  /\ doom' = [r \in Repos |-> FALSE]
  /\ UNCHANGED <<cfg, up, db, next, wd, flt, disk>>

\* A repository sharing its working copy with another one must not touch it
\* while the other pulls or builds from it.
WorkingCopyFree(r) ==
  \A s \in Repos \ {r} : Url(s) = Url(r) => pc[s] \notin {"cloning", "pick", "make", "making", "pulling", "build", "building"}

Acquire(r) ==
  /\ pc[r] \in {"queued", "want"}
  /\ Free
  /\ hold' = hold \cup {r}
  /\ pc' = [pc EXCEPT ![r] = IF @ = "queued" THEN "clone" ELSE "pull"]
  /\ UNCHANGED <<cfg, up, db, next, proc, found, claimed, wd, got, live, fresh, known, upd, stopq, flt, doom, owed, disk>>

Misconfigured(r) ==
  /\ pc[r] = "clone" /\ r \in cfg.bad
  /\ pc' = [pc EXCEPT ![r] = "failed"]
  /\ hold' = hold \ {r}
  /\ UNCHANGED <<cfg, up, db, next, proc, found, claimed, wd, got, live, fresh, known, upd, stopq, flt, doom, owed, disk>>

PullStart(r) ==
  /\ pc[r] \in {"clone", "pull"} /\ r \notin cfg.bad
  /\ WorkingCopyFree(r)
  /\ pc' = [pc EXCEPT ![r] = IF @ = "clone" THEN "cloning" ELSE "pulling"]
  /\ owed' = [owed EXCEPT ![r] = FALSE]
  /\ UNCHANGED <<cfg, up, db, next, proc, found, claimed, hold, wd, got, live, fresh, known, upd, stopq, flt, doom, disk>>

PullFail(r) ==
  /\ pc[r] \in {"cloning", "pulling"}
  /\ pc' = [pc EXCEPT ![r] = IF @ = "cloning" THEN "failed" ELSE "idle"]
  /\ hold' = hold \ {r}
  /\ UNCHANGED <<cfg, up, db, next, proc, found, claimed, wd, got, live, fresh, known, upd, stopq, flt, doom, owed, disk>>

PullOk(r) ==
  /\ pc[r] \in {"cloning", "pulling"}
  /\ LET v == up[Url(r)] IN
     /\ doom' = [doom EXCEPT ![r] = flt[r]]
     /\ wd' = [wd EXCEPT ![Url(r)] = v]
     /\ IF pc[r] = "pulling" /\ v = known[r]
        THEN /\ pc' = [pc EXCEPT ![r] = "idle"]
             /\ hold' = hold \ {r}
             /\ got' = got
        ELSE /\ pc' = [pc EXCEPT ![r] = IF @ = "cloning" THEN "pick" ELSE "build"]
             /\ hold' = hold
             /\ got' = [got EXCEPT ![r] = v]
  /\ UNCHANGED <<cfg, up, db, next, proc, found, claimed, live, fresh, known, upd, stopq, flt, owed, disk>>

\* At startup a complete index of the same url and revision is taken over.
\* One that turns out not to be usable is removed.
Pick(r) ==
  /\ pc[r] = "pick"
  /\ LET cand == {d \in db : d.id \in found \ claimed /\ d.st # "part" /\ d.url = Url(r) /\ d.rev = got[r]} IN
     \/ \E d \in cand :
            /\ d.st = "full"
            /\ claimed' = claimed \cup {d.id}
            /\ live' = [live EXCEPT ![r] = d.id]
            /\ known' = [known EXCEPT ![r] = d.rev]
            /\ pc' = [pc EXCEPT ![r] = "held"]
            /\ hold' = hold \ {r}
            /\ db' = db
     \/ \E d \in cand :
            /\ d.st = "torn" \/ disk
            /\ db' = db \ {d}
            /\ pc' = [pc EXCEPT ![r] = "make"]
            /\ UNCHANGED <<claimed, live, known, hold>>
     \/ /\ cand = {} \/ disk   \* or it could not be recognised
        /\ pc' = [pc EXCEPT ![r] = "make"]
        /\ UNCHANGED <<claimed, live, known, hold, db>>
  /\ UNCHANGED <<cfg, up, next, proc, found, wd, got, fresh, upd, stopq, flt, doom, owed, disk>>

BuildFail(r) ==
  /\ pc[r] \in {"make", "build"} /\ doom[r]
  /\ pc' = [pc EXCEPT ![r] = IF @ = "make" THEN "failed" ELSE "idle"]
  /\ hold' = hold \ {r}
  /\ UNCHANGED <<cfg, up, db, next, proc, found, claimed, wd, got, live, fresh, known, upd, stopq, flt, doom, owed, disk>>

BuildBegin(r) ==
  /\ pc[r] \in {"make", "build"} /\ ~doom[r]
  /\ db' = db \cup {Mk(next, Url(r), got[r], "part")}
  /\ fresh' = [fresh EXCEPT ![r] = next]
  /\ next' = next + 1
  /\ pc' = [pc EXCEPT ![r] = IF @ = "make" THEN "making" ELSE "building"]
  /\ UNCHANGED <<cfg, up, proc, found, claimed, hold, wd, got, live, known, upd, stopq, flt, doom, owed, disk>>

\* A build that cannot read or write everything fails, and leaves nothing behind.
BuildBreak(r) ==
  /\ pc[r] \in {"making", "building"} /\ disk
  /\ db' = {d \in db : d.id # fresh[r]}
  /\ fresh' = [fresh EXCEPT ![r] = 0]
  /\ pc' = [pc EXCEPT ![r] = IF @ = "making" THEN "failed" ELSE "idle"]
  /\ hold' = hold \ {r}
  /\ UNCHANGED <<cfg, up, next, proc, found, claimed, wd, got, live, known, upd, stopq, flt, doom, owed, disk>>

BuildEnd(r) ==
  /\ pc[r] \in {"making", "building"}
  /\ db' = SetSt(fresh[r], "full")
  /\ IF pc[r] = "making"
     THEN /\ live' = [live EXCEPT ![r] = fresh[r]]
          /\ fresh' = [fresh EXCEPT ![r] = 0]
          /\ known' = [known EXCEPT ![r] = got[r]]
          /\ hold' = hold \ {r}
          /\ pc' = [pc EXCEPT ![r] = "held"]
     ELSE /\ pc' = [pc EXCEPT ![r] = "swap"]
          /\ UNCHANGED <<live, fresh, known, hold>>
  /\ UNCHANGED <<cfg, up, next, proc, found, claimed, wd, got, upd, stopq, flt, doom, owed, disk>>

\* When every repository has been processed, what nobody claimed is removed.
Started ==
  /\ proc = "start"
  /\ \A r \in Repos : pc[r] \in {"held", "failed"}
  /\ proc' = "run"
  /\ \A d \in db : d.id \in found \ claimed => ~d.stuck
  /\ db' = {d \in db : d.id \notin found \ claimed}
  /\ UNCHANGED <<cfg, up, next, found, claimed, pc, hold, wd, got, live, fresh, known, upd, stopq, flt, doom, owed, disk>>

-----------------------------------------------------------------------------
(* Running *)

Awake(r) ==
  /\ proc = "run" /\ pc[r] = "held"
  /\ pc' = [pc EXCEPT ![r] = IF cfg.poll[r] \/ cfg.push[r] THEN "idle" ELSE "stopped"]
  /\ UNCHANGED <<cfg, up, db, next, proc, found, claimed, hold, wd, got, live, fresh, known, upd, stopq, flt, doom, owed, disk>>

Tick(r) ==
  /\ pc[r] = "idle" /\ cfg.poll[r] /\ ~stopq[r]
  /\ pc' = [pc EXCEPT ![r] = "want"]
  /\ UNCHANGED <<cfg, up, db, next, proc, found, claimed, hold, wd, got, live, fresh, known, upd, stopq, flt, doom, owed, disk>>

TakeRequest(r) ==
  /\ pc[r] = "idle" /\ upd[r] /\ ~stopq[r]
  /\ upd' = [upd EXCEPT ![r] = FALSE]
  /\ pc' = [pc EXCEPT ![r] = "want"]
  /\ UNCHANGED <<cfg, up, db, next, proc, found, claimed, hold, wd, got, live, fresh, known, stopq, flt, doom, owed, disk>>

Halt(r) ==
  /\ pc[r] = "idle" /\ stopq[r]
  /\ pc' = [pc EXCEPT ![r] = "stopped"]
  /\ UNCHANGED <<cfg, up, db, next, proc, found, claimed, hold, wd, got, live, fresh, known, upd, stopq, flt, doom, owed, disk>>

\* From here on searches see the new index; the old one is no longer complete.
Swap(r) ==
  /\ pc[r] = "swap"
  /\ db' = SetSt(live[r], "part")
  /\ live' = [live EXCEPT ![r] = fresh[r]]
  /\ fresh' = [fresh EXCEPT ![r] = live[r]]      \* now the one to delete
  /\ known' = [known EXCEPT ![r] = got[r]]
  /\ pc' = [pc EXCEPT ![r] = "drop"]
  /\ UNCHANGED <<cfg, up, next, proc, found, claimed, hold, wd, got, upd, stopq, flt, doom, owed, disk>>

Drop(r) ==
  /\ pc[r] = "drop"
  /\ db' = IF Dir(fresh[r]).stuck THEN db ELSE {d \in db : d.id # fresh[r]}
  /\ fresh' = [fresh EXCEPT ![r] = 0]
  /\ pc' = [pc EXCEPT ![r] = "idle"]
  /\ hold' = hold \ {r}
  /\ UNCHANGED <<cfg, up, next, proc, found, claimed, wd, got, live, known, upd, stopq, flt, doom, owed, disk>>

-----------------------------------------------------------------------------
(* Requests; they only exist once startup has finished. *)

Running(r) == proc = "run" /\ pc[r] \notin {"failed", "off"}

\* accepted only when push updates are enabled
Request(r) ==
  /\ Running(r) /\ cfg.push[r]
  /\ upd' = [upd EXCEPT ![r] = TRUE]
  /\ owed' = [owed EXCEPT ![r] = TRUE]
  /\ UNCHANGED <<cfg, up, db, next, proc, found, claimed, pc, hold, wd, got, live, fresh, known, stopq, flt, doom, disk>>

Stop(r) ==
  /\ Running(r)
  /\ stopq' = [stopq EXCEPT ![r] = TRUE]
  /\ UNCHANGED <<cfg, up, db, next, proc, found, claimed, pc, hold, wd, got, live, fresh, known, upd, flt, doom, owed, disk>>

\* Graceful end: every searcher has reported itself stopped.
Exit ==
  /\ proc = "run"
  /\ \A r \in Repos : pc[r] \in {"stopped", "failed"}
  /\ \A r \in Repos : Running(r) => stopq[r]
  /\ proc' = "down"
  /\ pc' = [r \in Repos |-> "off"]
  /\ UNCHANGED <<cfg, up, db, next, found, claimed, hold, wd, got, live, fresh, known, upd, stopq, flt, doom, owed, disk>>

\* Killed at any moment.  A directory being deleted may be untouched, half
\* gone or gone, one being built not there yet.
Crash ==
  /\ proc \in {"start", "run"}
  /\ proc' = "down"
  /\ pc' = [r \in Repos |-> "off"] /\ hold' = {}
  /\ live' = [r \in Repos |-> 0] /\ fresh' = [r \in Repos |-> 0]
  /\ LET old == {d \in db : \E r \in Repos : pc[r] = "drop" /\ d.id = fresh[r]}
         new == {d \in db : \E r \in Repos : pc[r] \in {"making", "building"} /\ d.id = fresh[r]}  \* or not even made
         stale == {d \in db : proc = "start" /\ d.id \in found \ claimed /\ \A r \in Repos : pc[r] \in {"held", "failed"}}
     IN \E gone \in SUBSET (old \cup stale \cup new) : \E whole \in SUBSET ((old \cup stale) \ gone) :
          db' = (db \ (old \cup stale \cup gone))
                \cup {IF d \in old THEN [d EXCEPT !.st = "full"] ELSE d : d \in whole}
                \cup {[d EXCEPT !.st = "part"] : d \in ((old \cup stale) \ gone) \ whole}
  /\ UNCHANGED <<cfg, up, next, found, claimed, wd, got, known, upd, stopq, flt, doom, owed, disk>>

-----------------------------------------------------------------------------
(* Several steps of one repository in one, for validating traces: taking a *)
(* slot later, or completing and swapping at once, explains no less.       *)

\* Tick or TakeRequest (or neither), Acquire, PullStart
StartFetch(r) ==
  /\ pc[r] \in {"queued", "want", "idle"} /\ r \notin cfg.bad
  /\ Free /\ WorkingCopyFree(r)
  /\ \/ pc[r] # "idle" /\ upd' = upd
     \/ pc[r] = "idle" /\ ~stopq[r] /\ cfg.poll[r] /\ upd' = upd
     \/ pc[r] = "idle" /\ ~stopq[r] /\ upd[r] /\ upd' = [upd EXCEPT ![r] = FALSE]
  /\ hold' = hold \cup {r}
  /\ owed' = [owed EXCEPT ![r] = FALSE]
  /\ pc' = [pc EXCEPT ![r] = IF @ = "queued" THEN "cloning" ELSE "pulling"]
  /\ UNCHANGED <<cfg, up, db, next, proc, found, claimed, wd, got, live, fresh, known, stopq, flt, doom, disk>>

\* Acquire, Misconfigured
Refuse(r) ==
  /\ pc[r] = "queued" /\ r \in cfg.bad /\ Free
  /\ pc' = [pc EXCEPT ![r] = "failed"]
  /\ UNCHANGED <<cfg, up, db, next, proc, found, claimed, hold, wd, got, live, fresh, known, upd, stopq, flt, doom, owed, disk>>

\* BuildEnd, Swap
BuildSwap(r) ==
  /\ pc[r] = "building"
  /\ db' = {IF d.id = fresh[r] THEN [d EXCEPT !.st = "full"] ELSE IF d.id = live[r] THEN [d EXCEPT !.st = "part"] ELSE d : d \in db}
  /\ live' = [live EXCEPT ![r] = fresh[r]]
  /\ fresh' = [fresh EXCEPT ![r] = live[r]]
  /\ known' = [known EXCEPT ![r] = got[r]]
  /\ pc' = [pc EXCEPT ![r] = "drop"]
  /\ UNCHANGED <<cfg, up, next, proc, found, claimed, hold, wd, got, upd, stopq, flt, doom, owed, disk>>

-----------------------------------------------------------------------------
Hidden(r) == \/ Acquire(r) \/ Misconfigured(r) \/ Pick(r) \/ BuildFail(r) \/ BuildBegin(r) \/ BuildEnd(r) \/ BuildBreak(r)
             \/ Awake(r) \/ Tick(r) \/ TakeRequest(r) \/ Halt(r) \/ Swap(r) \/ Drop(r)
=============================================================================
