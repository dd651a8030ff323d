----------------------------- MODULE LocalTrace -----------------------------
(* Decides whether what happened to real directories is a behaviour of     *)
(* Local.                                                                  *)
EXTENDS Local, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VREC)
Verbose == "VPROG" \in DOMAIN IOEnv

VARIABLES t, i

Range(s) == {s[k] : k \in 1..Len(s)}
Ev == Traces[t].ev[i]

TraceInit == /\ t \in 1..Len(Traces) /\ i = 2
             /\ LET e == Traces[t].ev[1] IN Init0([watch |-> e.watch, form |-> e.form, ignored |-> Range(e.ignored), name |-> e.name])

Visible ==
  CASE Ev.op = "put"    -> Put(Ev.p, Ev.k, Ev.c)
    [] Ev.op = "remove" -> Remove(Ev.p)
    [] Ev.op = "move"   -> Move(Ev.p, Ev.q)
    [] Ev.op = "swap"   -> Swap(Ev.p, Ev.q)
    [] Ev.op = "touch"  -> Touch
    [] Ev.op = "there"  -> SetThere(Ev.x)
    [] Ev.op = "fetch"  -> Fetch(Ev.err, Ev.rev, Ev.link, Range(Ev.lines))
    [] Ev.op = "serve"  -> Serve(Ev.rev, Range(Ev.lines), Ev.again)
    [] Ev.op = "settle" -> Settle(Ev.rev, Range(Ev.lines))

TraceNext ==
  \/ /\ i <= Len(Traces[t].ev) /\ Visible /\ i' = i + 1 /\ t' = t
     /\ (Verbose => PrintT(<<"AT", i>>))
  \/ /\ i = Len(Traces[t].ev) + 1 /\ i' = i + 1 /\ UNCHANGED <<locvars, t>>
     /\ PrintT(<<"ACCEPT", Traces[t].id>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<locvars, t, i>>
=============================================================================
