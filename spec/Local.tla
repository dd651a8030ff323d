------------------------------- MODULE Local -------------------------------
(***************************************************************************)
(* A directory of files that someone works in, and the daemon's link to    *)
(* it.  The tree is a set of entries [p, k, c]: path, kind ("file",        *)
(* "link", "fifo") and content (of a link: where it leads).                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES cfg,      \* [watch, form, ignored]: form is how the url is written
          tree,
          there,    \* the directory exists
          linked,   \* 0, or which link it is
          told      \* set of [tree, rev]: what was reported so far
locvars == <<cfg, tree, there, linked, told>>

Init0(c) == cfg = c /\ tree = {} /\ there = TRUE /\ linked = 0 /\ told = {}

Accepted == {"abs", "rel", "via", "slash", "dots"}    \* file://..., however it leads to the directory
Forms == Accepted \cup {"http", "plain", "upper", "one", "empty"}

-----------------------------------------------------------------------------
Under(p) == CASE p = "d"   -> {"d/x", "d/.y", "d/x/z"}
              [] p = "d/x" -> {"d/x/z"}
              [] p = ".git" -> {".git/x"}
              [] OTHER     -> {}
Has(T, p) == \E e \in T : e.p = p
Free(T, p) == \A e \in T : e.p \notin Under(p) /\ p \notin Under(e.p)
Entry(T, p) == CHOOSE e \in T : e.p = p
Without(T, p) == {e \in T : e.p # p}
Same == UNCHANGED <<cfg, there, linked, told>>

Put(p, k, c)  == there /\ Free(tree, p) /\ tree' = Without(tree, p) \cup {[p |-> p, k |-> k, c |-> c]} /\ Same
Remove(p)     == there /\ tree' = Without(tree, p) /\ Same
Move(p, q)    == /\ there /\ Has(tree, p) /\ p # q /\ LET T == Without(tree, p) IN
                    Free(T, q) /\ tree' = Without(T, q) \cup {[Entry(tree, p) EXCEPT !.p = q]}
                 /\ Same
Swap(p, q)    == /\ there /\ Has(tree, p) /\ Has(tree, q) /\ p # q
                 /\ tree' = Without(Without(tree, p), q) \cup {[Entry(tree, p) EXCEPT !.p = q], [Entry(tree, q) EXCEPT !.p = p]}
                 /\ Same
Touch         == there /\ UNCHANGED locvars
SetThere(x)   == there' = x /\ UNCHANGED <<cfg, tree, linked, told>>

-----------------------------------------------------------------------------
\* what a search may depend on: where links lead is not shown
Files(T) == {[e EXCEPT !.c = IF e.k = "file" THEN e.c ELSE 0] : e \in T}

RevOk(rev, T) == IF ~cfg.watch THEN rev = cfg.name
                 ELSE \A x \in told : /\ x.rev = rev => Files(x.tree) = Files(T)
                                      /\ x.tree = T => x.rev = rev

\* names that the change watching does not support, which it says
Odd(T) == \E e \in T : e.p = "n\nl"

Ignored(p) == CASE p = "d/x"   -> {"d", "x"} \cap cfg.ignored # {}
                [] p = "d/.y"  -> {"d", ".y"} \cap cfg.ignored # {}
                [] p = "d/x/z" -> {"d", "x", "z"} \cap cfg.ignored # {}
                [] p = ".git/x" -> {".git", "x"} \cap cfg.ignored # {}
                [] OTHER       -> p \in cfg.ignored
\* what can be found: an empty file has no lines
Lines(T) == {[p |-> e.p, c |-> e.c] : e \in {x \in T : x.k = "file" /\ x.c # 0 /\ ~Ignored(x.p)}}

\* PullOrClone, and then an index is built from what is linked
Fetch(err, rev, link, lines) ==
  /\ IF cfg.form \notin Accepted THEN err /\ link = 0
     ELSE IF ~there \/ (cfg.watch /\ Odd(tree)) THEN err \/ (~cfg.watch /\ rev = cfg.name)
     ELSE ~err /\ RevOk(rev, tree) /\ link # 0 /\ lines = Lines(tree)
  /\ linked # 0 => link = linked
  /\ linked' = link
  /\ told' = IF err \/ ~cfg.watch THEN told ELSE told \cup {[tree |-> tree, rev |-> rev]}
  /\ UNCHANGED <<cfg, tree, there>>

\* what the daemon serves some time later; it has not indexed anew unless something changed
Serve(rev, lines, again) ==
  /\ RevOk(rev, tree) /\ lines = Lines(tree)
  /\ again <=> \A x \in told : x.rev # rev
  /\ told' = {[tree |-> tree, rev |-> rev]}
  /\ UNCHANGED <<cfg, tree, there, linked>>
\* the same after a change that took more than one step, all of which may have been seen
Settle(rev, lines) ==
  /\ RevOk(rev, tree) /\ lines = Lines(tree)
  /\ told' = {[tree |-> tree, rev |-> rev]}
  /\ UNCHANGED <<cfg, tree, there, linked>>
=============================================================================
