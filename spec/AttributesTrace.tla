-------------------------- MODULE AttributesTrace --------------------------
(* Decides whether the marks a real daemon shows are those of Attributes.  *)
EXTENDS Attributes, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VREC)
Verbose == "VPROG" \in DOMAIN IOEnv

VARIABLES t, i

Range(s) == {s[k] : k \in 1..Len(s)}
Ev == Traces[t].ev[i]

TraceInit == t \in 1..Len(Traces) /\ i = 2 /\ Init0(Traces[t].ev[1].kind)

Visible ==
  CASE Ev.op = "commit" -> Commit(Range(Ev.files), Range(Ev.attrs))
    [] Ev.op = "boot"   -> Boot([n \in 1..Len(Ev.lists) |-> Range(Ev.lists[n])])
    [] Ev.op = "stop"   -> Stop
    [] Ev.op = "serve"  -> Serve(Ev.n, Ev.rev, Range(Ev.shown))

TraceNext ==
  \/ /\ i <= Len(Traces[t].ev) /\ Visible /\ i' = i + 1 /\ t' = t
     /\ (Verbose => PrintT(<<"AT", i>>))
  \/ /\ i = Len(Traces[t].ev) + 1 /\ i' = i + 1 /\ UNCHANGED <<attrvars, t>>
     /\ PrintT(<<"ACCEPT", Traces[t].id>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<attrvars, t, i>>
=============================================================================
