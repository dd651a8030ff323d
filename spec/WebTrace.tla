------------------------------ MODULE WebTrace ------------------------------
(***************************************************************************)
(* Decides whether what was seen of a real daemon is a behaviour of Web.   *)
(* Events: call (id, path), ret (id, who, path), processed (one repository *)
(* is done with), ready (the daemon was given long enough: it must be      *)
(* ready by now), begin and end (of an update), term, notice (it was given *)
(* long enough to notice the termination signal), exit (status).           *)
(***************************************************************************)
EXTENDS Web, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VREC)
Verbose == "VPROG" \in DOMAIN IOEnv

VARIABLES t, i
Ev == Traces[t].ev[i]

TraceInit == t \in 1..Len(Traces) /\ i = 1 /\ Init0(Traces[t].work, Traces[t].health)

\* which part of the interface answers for a path
Part(p) == CASE p \in {"/", "/open_search.xml", "/excluded_files.html"} -> "page"
             [] p \in {"/api/v1/repos", "/api/v1/search", "/api/v1/excludes", "/api/v1/update", "/api/v1/github-webhook"} -> "api"
             [] p \in {"/css/hound.css", "/js/hound.js", "/favicon.ico"} -> "asset"
             [] OTHER -> "nothing"

Who(got, p) == IF got \in {"health", "notready"} THEN got ELSE IF got = Part(p) THEN "interface" ELSE "wrong"

Visible ==
  CASE Ev.e = "call"      -> Call(Ev.id, Ev.path)
    [] Ev.e = "ret"       -> \E c \in calls : c.id = Ev.id /\ Answer(c, Who(Ev.got, c.path))
    [] Ev.e = "processed" -> Process
    [] Ev.e = "ready"     -> ready /\ UNCHANGED webvars
    [] Ev.e = "begin"     -> Begin
    [] Ev.e = "end"       -> End
    [] Ev.e = "term"      -> Signal
    [] Ev.e = "notice"    -> Notice
    [] Ev.e = "exit"      -> Exit /\ exit' = Ev.status

Hidden == Ready

TraceNext ==
        \/ /\ i <= Len(Traces[t].ev) /\ Visible /\ i' = i + 1 /\ t' = t
           /\ (Verbose => PrintT(<<"AT", i>>))
        \/ /\ i <= Len(Traces[t].ev) /\ Hidden /\ UNCHANGED <<t, i>>
        \/ /\ i = Len(Traces[t].ev) + 1 /\ i' = i + 1 /\ UNCHANGED <<webvars, t>>
           /\ PrintT(<<"ACCEPT", Traces[t].id>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<webvars, t, i>>
=============================================================================
