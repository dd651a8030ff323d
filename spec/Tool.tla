-------------------------------- MODULE Tool --------------------------------
(***************************************************************************)
(* Repositories fetched by a command line tool (Subversion, Mercurial,     *)
(* Bazaar): what running the driver means in terms of the tool's calls.    *)
(*                                                                         *)
(* A call is [cwd, argv, exit, shown, what]: where it ran, its arguments,  *)
(* its exit status (-1: it could not be run at all), the text it printed   *)
(* (without surrounding space), and what the tool took it to be: "clone",  *)
(* "pull" (new revisions are fetched), "update" (the working copy is       *)
(* brought to the newest fetched one of its branch), "both", "rev" (of the *)
(* revision `of') or "unknown".  With Mercurial there may be a newer       *)
(* revision on another branch.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Kinds == {"svn", "hg", "bzr"}

Has(argv, x) == \E k \in 1..Len(argv) : argv[k] = x
Pair(argv, x, y) == \E k \in 1..(Len(argv) - 1) : argv[k] = x /\ argv[k + 1] = y

\* credentials are given as they are, each as an argument of its own
Credentials(kind, conf, argv) ==
  kind = "svn" => /\ Pair(argv, "--username", conf.user) \/ (conf.user = "" /\ ~Has(argv, "--username"))
                  /\ Pair(argv, "--password", conf.pass) \/ (conf.pass = "" /\ ~Has(argv, "--password"))
\* what else Subversion is told: externals are someone else's
Options(kind, argv) == kind = "svn" => Has(argv, "--ignore-externals")

FetchCall(c) == c.what \in {"clone", "pull", "update", "both"}

CallOk(kind, conf, url, dir, c) ==
  CASE c.what = "clone"  -> /\ c.target = dir          \* relative to where it ran
                            /\ Has(c.argv, url)
                            /\ Credentials(kind, conf, c.argv) /\ Options(kind, c.argv)
    [] c.what \in {"pull", "update", "both"} -> c.cwd = dir /\ Credentials(kind, conf, c.argv) /\ Options(kind, c.argv)
    [] c.what = "rev"    -> c.cwd = dir
    [] OTHER             -> FALSE

-----------------------------------------------------------------------------
(* The working copy: "none" or the revision it is at.                      *)
Failed(calls) == \E k \in 1..Len(calls) : calls[k].exit # 0

\* op: "fetch" (clone if there is no working copy, else pull) or "rev"
StepOk(kind, conf, url, dir, s) ==
  /\ \A k \in 1..Len(s.calls) : s.calls[k].exit # -1 => CallOk(kind, conf, url, dir, s.calls[k])
  \* nothing goes on after a failure, and a failure is reported
  /\ \A k \in 1..(Len(s.calls) - 1) : s.calls[k].exit = 0
  /\ Failed(s.calls) <=> s.err
  /\ ~s.err => LET n == Len(s.calls) IN
               /\ n > 0
               /\ s.calls[n].what = "rev" /\ s.rev = s.calls[n].shown /\ s.calls[n].of = s.after
               /\ IF s.op = "rev" THEN n = 1
                  ELSE /\ \A k \in 1..(n - 1) : FetchCall(s.calls[k])
                       /\ IF s.before = "none" THEN s.calls[1].what = "clone" ELSE \A k \in 1..n : s.calls[k].what # "clone"
                       /\ s.after = s.remote
=============================================================================
