-------------------------------- MODULE Web --------------------------------
(***************************************************************************)
(* The daemon as its HTTP clients and the process that started it see it:  *)
(* it listens at once, processes its repositories, and from then on        *)
(* answers everything; a termination signal ends it when that is safe.     *)
(*                                                                         *)
(* A call is [id, path, early]: early as long as it was made before the    *)
(* daemon became ready.                                                    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS Paths, Ids      \* the paths that clients ask for, the requests they make (for model checking)

VARIABLES health,         \* the health check path (it never changes)
          work,           \* repositories still to be processed (a number)
          busy,           \* updates under way
          ready,          \* requests are answered by the interface
          calls,          \* requests under way
          term,           \* a termination signal: "no", or "sent", or "noticed"
          exit,           \* "no", or the exit status
          answered        \* history: <<path, what, early>> of every answer
webvars == <<health, work, busy, ready, calls, term, exit, answered>>

Init0(n, h) == health = h /\ work = n /\ busy = 0 /\ ready = FALSE /\ calls = {} /\ term = "no" /\ exit = "no" /\ answered = {}

Running == exit = "no"

\* a repository is processed: indexed or given up
Process == Running /\ work > 0 /\ work' = work - 1 /\ UNCHANGED <<health, busy, ready, calls, term, exit, answered>>

Ready == Running /\ work = 0 /\ ~ready /\ ready' = TRUE /\ UNCHANGED <<health, work, busy, calls, term, exit, answered>>

Call(id, p) == /\ Running /\ \A c \in calls : c.id # id
               /\ calls' = calls \cup {[id |-> id, path |-> p, early |-> ~ready]}
               /\ UNCHANGED <<health, work, busy, ready, term, exit, answered>>

\* who may answer a call: the health check, the "not ready" answer, or the interface
Answerers(c) == IF c.path = health THEN {"health"}
                ELSE (IF c.early THEN {"notready"} ELSE {}) \cup (IF ready THEN {"interface"} ELSE {})
Answer(c, who) == /\ Running /\ c \in calls /\ who \in Answerers(c)
                  /\ calls' = calls \ {c}
                  /\ answered' = answered \cup {<<c.path, who, c.early>>}
                  /\ UNCHANGED <<health, work, busy, ready, term, exit>>

Signal == Running /\ term' = (IF term = "no" THEN "sent" ELSE term) /\ UNCHANGED <<health, work, busy, ready, calls, exit, answered>>

\* all repositories have noticed the signal, also those that are not being updated while another one is
Notice == Running /\ ready /\ term = "sent" /\ term' = "noticed" /\ UNCHANGED <<health, work, busy, ready, calls, exit, answered>>

\* an update begins and ends; none begins after the signal was noticed
Begin == Running /\ ready /\ term # "noticed" /\ busy' = busy + 1 /\ UNCHANGED <<health, work, ready, calls, term, exit, answered>>
End   == Running /\ busy > 0 /\ busy' = busy - 1 /\ UNCHANGED <<health, work, ready, calls, term, exit, answered>>

\* a termination is clean, and never happens while repositories are being processed or updated
Exit == Running /\ term # "no" /\ work = 0 /\ busy = 0 /\ exit' = "0" /\ calls' = {} /\ UNCHANGED <<health, work, busy, ready, term, answered>>

-----------------------------------------------------------------------------
Init == \E n \in 0..2, h \in Paths : Init0(n, h)
Next == \/ Process \/ Ready \/ Signal \/ Exit \/ Notice \/ (busy < 2 /\ Begin) \/ End
        \/ \E id \in Ids, p \in Paths : Call(id, p)
        \/ \E c \in calls : \E who \in {"health", "notready", "interface"} : Answer(c, who)
Spec == Init /\ [][Next]_webvars /\ WF_webvars(Process) /\ WF_webvars(Ready) /\ WF_webvars(Notice) /\ WF_webvars(Exit) /\ WF_webvars(End)
        /\ WF_webvars(\E c \in calls : \E who \in {"health", "notready", "interface"} : Answer(c, who))

-----------------------------------------------------------------------------
\* the health check is answered by itself, and nothing else is
HealthOnly == \A a \in answered : (a[1] = health) <=> (a[2] = "health")
\* nothing is answered by the interface while there is work to do
NotBefore  == work > 0 => \A a \in answered : a[2] # "interface"
\* a request made after the daemon became ready is never answered with "not ready"
NoRegress  == \A a \in answered : a[2] = "notready" => a[3]
\* an exit leaves nothing half done
Clean == exit # "no" => work = 0 /\ busy = 0
\* readiness is for good
Forever    == [][ready => ready']_ready
Eventually == <>(ready \/ exit # "no")
Answers    == \A id \in Ids : (\E c \in calls : c.id = id) ~> (\A c \in calls : c.id # id)
Ends       == term # "no" ~> (exit = "0")
=============================================================================
