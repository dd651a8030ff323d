------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* What loading a configuration file means.                                *)
(*                                                                         *)
(* Values are JSON texts; "absent" stands for an option that is not given. *)
(* A version control configuration is [kind |-> "absent", "null", "object" *)
(* or "other", vals |-> << <<name, text>>, ... >>, text |-> as given].     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Given(v) == v \notin {"absent", "null"}
OrElse(v, zero, def) == IF ~Given(v) \/ v = zero THEN def ELSE v

Range(s) == {s[k] : k \in 1..Len(s)}
Names(vals) == {vals[k][1] : k \in 1..Len(vals)}

-----------------------------------------------------------------------------
(* Paths: sequences of components of an absolute path *)

RECURSIVE Clean(_, _)
Clean(done, rest) ==
  IF rest = <<>> THEN done
  ELSE LET x == Head(rest) IN
       IF x \in {"", "."} THEN Clean(done, Tail(rest))
       ELSE IF x = ".." THEN Clean(IF done = <<>> THEN <<>> ELSE SubSeq(done, 1, Len(done) - 1), Tail(rest))
       ELSE Clean(Append(done, x), Tail(rest))

DbPath(c) == IF c.dbpath.abs THEN c.dbpath.parts ELSE Clean(c.dir, c.dbpath.parts)   \* an absolute one is left alone

-----------------------------------------------------------------------------
Top(c) == [title  |-> OrElse(c.top.title, "\"\"", "\"Hound\""),
           max    |-> OrElse(c.top.max, "0", "2"),
           health |-> OrElse(c.top.health, "\"\"", "\"/healthz\""),
           limit  |-> OrElse(c.top.limit, "0", "5000")]

Vcs(r) == OrElse(r.vcs, "\"\"", "\"git\"")

\* the global configuration that applies to r: a set of at most one
Globals(c, r) == {g \in Range(c.global) : g.vcs = Vcs(r) /\ g.kind = "object"}

Own(r) == IF r.conf.kind = "object" THEN Range(r.conf.vals) ELSE {}
Union(r, g) == Own(r) \cup {p \in Range(g.vals) : p[1] \notin Names(r.conf.vals) \/ r.conf.kind # "object"}

\* a set of <<name, text>>, or the text if it is not an object
Conf(c, r) ==
  IF Globals(c, r) # {} THEN [vals |-> Union(r, CHOOSE g \in Globals(c, r) : TRUE), text |-> ""]
  ELSE IF r.conf.kind = "other" THEN [vals |-> {}, text |-> r.conf.text]
  ELSE [vals |-> Own(r), text |-> ""]

Pattern(r, field, def) == IF ~r.pattern.given THEN def ELSE OrElse(r.pattern[field], "\"\"", def)
BaseUrl == "\"{url}/blob/{rev}/{path}{anchor}\""
Anchor  == "\"#L{line}\""
Str(v)  == IF Given(v) THEN v ELSE "\"\""
Bool(v, def) == IF Given(v) THEN v ELSE def

Repo(c, r) == [name    |-> r.name,
               url     |-> Str(r.url),
               display |-> Str(r.display),
               ms      |-> OrElse(r.ms, "0", "30000"),
               vcs     |-> Vcs(r),
               base    |-> Pattern(r, "base", BaseUrl),
               anchor  |-> Pattern(r, "anchor", Anchor),
               dot     |-> Bool(r.dot, "false"),
               poll    |-> Bool(r.poll, "true"),
               push    |-> Bool(r.push, "false"),
               auto    |-> IF Given(r.auto) THEN r.auto ELSE "[]",
               conf    |-> Conf(c, r)]
Repos(c) == {Repo(c, r) : r \in Range(c.repos)}

IsError(c) ==
  \/ c.file # "ok"                       \* missing, not JSON, or a value of the wrong type
  \/ \E r \in Range(c.repos) : r.null
  \/ \E g \in Range(c.global) : g.kind = "other"
  \/ \E r \in Range(c.repos) : r.conf.kind = "other" /\ Globals(c, r) # {}

-----------------------------------------------------------------------------
(* What clients may see of a repository's configuration: nothing of its    *)
(* version control configuration.                                          *)
Public(r) == [url     |-> Str(r.url),
              display |-> Str(r.display),
              ms      |-> OrElse(r.ms, "0", "30000"),
              vcs     |-> Vcs(r),
              base    |-> Pattern(r, "base", BaseUrl),
              anchor  |-> Pattern(r, "anchor", Anchor),
              dot     |-> Bool(r.dot, "false"),
              poll    |-> IF Given(r.poll) THEN r.poll ELSE "null",
              push    |-> IF Given(r.push) THEN r.push ELSE "null",
              auto    |-> IF Given(r.auto) THEN r.auto ELSE "[]"]
=============================================================================
