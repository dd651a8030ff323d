------------------------------ MODULE GitTrace ------------------------------
(* Decides whether what happened to real git repositories is a behaviour   *)
(* of Git.                                                                 *)
EXTENDS Git, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VREC)
Verbose == "VPROG" \in DOMAIN IOEnv

VARIABLES t, i

Range(s) == {s[k] : k \in 1..Len(s)}
Ev == Traces[t].ev[i]

TraceInit == /\ t \in 1..Len(Traces) /\ i = 2
             /\ LET e == Traces[t].ev[1] IN Init0([ref |-> e.ref, detect |-> e.detect], e.b)

Visible ==
  CASE Ev.op = "commit" -> Commit(Ev.b, Range(Ev.tree))
    [] Ev.op = "point"  -> Point(Ev.b, Ev.c)
    [] Ev.op = "delete" -> Delete(Ev.b)
    [] Ev.op = "rename" -> Rename(Ev.b, Ev.to)
    [] Ev.op = "head"   -> SetHead(Ev.b)
    [] Ev.op = "tag"    -> Tag(Ev.b, Ev.c)
    [] Ev.op = "up"     -> SetUp(Ev.x)
    [] Ev.op = "dirty"  -> Dirty(Range(Ev.extra))
    [] Ev.op = "stage"  -> Stage
    [] Ev.op = "fetch"  -> Fetch(Ev.err, Ev.rev, Range(Ev.got), Ev.dir)

TraceNext ==
  \/ /\ i <= Len(Traces[t].ev) /\ Visible /\ i' = i + 1 /\ t' = t
     /\ (Verbose => PrintT(<<"AT", i>>))
  \/ /\ i = Len(Traces[t].ev) + 1 /\ i' = i + 1 /\ UNCHANGED <<gitvars, t>>
     /\ PrintT(<<"ACCEPT", Traces[t].id>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<gitvars, t, i>>
=============================================================================
