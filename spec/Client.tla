------------------------------- MODULE Client -------------------------------
(***************************************************************************)
(* The command line client: what it asks the server for and what it shows. *)
(*                                                                         *)
(* A match is [n |-> line number, l |-> its text, b |-> lines before it,   *)
(* a |-> lines after it]; texts are strings.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

First(m) == m.n - Len(m.b)
Last(m)  == m.n + Len(m.a)
TextAt(m, i) == IF i < m.n THEN m.b[i - First(m) + 1] ELSE IF i = m.n THEN m.l ELSE m.a[i - m.n]

-----------------------------------------------------------------------------
(* Blocks, as they ought to be: the matches of a file fall into groups, a  *)
(* match joining the group before it iff it shares a line with it; a block *)
(* shows every line of its group once.                                     *)

Reach(ms, k) == MaxOf({Last(ms[j]) : j \in 1..k})            \* the last line shown by matches 1..k
Begins(ms, k) == k = 1 \/ First(ms[k]) > Reach(ms, k - 1)    \* match k begins a block
Group(ms, k) == k..(IF \E j \in (k+1)..Len(ms) : Begins(ms, j)
                    THEN MinOf({j \in (k+1)..Len(ms) : Begins(ms, j)}) - 1 ELSE Len(ms))
BlockAt(ms, k) ==
  LET g  == Group(ms, k)
      lo == First(ms[k])
      hi == MaxOf({Last(ms[j]) : j \in g})
  IN  [start |-> lo,
       lines |-> [i \in 1..(hi - lo + 1) |->
                    LET n == lo + i - 1
                        j == CHOOSE j \in g : First(ms[j]) <= n /\ n <= Last(ms[j])
                    IN  [t |-> TextAt(ms[j], n), hit |-> \E x \in g : ms[x].n = n]]]

RECURSIVE BlocksFrom(_, _)
BlocksFrom(ms, k) ==
  IF k > Len(ms) THEN <<>>
  ELSE IF Begins(ms, k) THEN <<BlockAt(ms, k)>> \o BlocksFrom(ms, k + 1)
  ELSE BlocksFrom(ms, k + 1)
Blocks(ms) == BlocksFrom(ms, 1)

(* What the server delivers: increasing line numbers, no line in front of  *)
(* the previous match's lines, and all about the same file.                *)
WellFormed(ms) ==
  \A k \in 1..Len(ms) :
    /\ First(ms[k]) >= 1
    /\ k > 1 => ms[k - 1].n < ms[k].n /\ First(ms[k - 1]) <= First(ms[k])
    /\ \A j \in 1..(k-1) : \A n \in First(ms[k])..Last(ms[k]) :
         First(ms[j]) <= n /\ n <= Last(ms[j]) => TextAt(ms[j], n) = TextAt(ms[k], n)

-----------------------------------------------------------------------------
(* Blocks, as they are computed: one match after another is added to the   *)
(* current block.  ClientMC checks that this comes to the same.            *)

Drop(s, n) == IF n >= Len(s) THEN <<>> ELSE SubSeq(s, n + 1, Len(s))
Plain(ts) == [i \in 1..Len(ts) |-> [t |-> ts[i], hit |-> FALSE]]
Alone(m) == [start |-> First(m), lines |-> Plain(m.b) \o <<[t |-> m.l, hit |-> TRUE]>> \o Plain(m.a)]
EndOf(b) == b.start + Len(b.lines) - 1

Add(b, m) ==
  LET whole == Alone(m)
      over  == EndOf(b) - First(m) + 1             \* lines of m that are there already
      l1    == b.lines \o Drop(whole.lines, over)
      at    == m.n - b.start + 1
  IN  [b EXCEPT !.lines = [l1 EXCEPT ![at].hit = TRUE]]

-----------------------------------------------------------------------------
(* The output *)

RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN "" ELSE " " \o Spaces(n - 1)

LineOut(n, x) == LET s == ToString(n) IN
  s \o (IF x.hit THEN ":" ELSE "-") \o Spaces(6 - Len(s)) \o x.t

BlockOut(b, ctx) == [i \in 1..Len(b.lines) |-> LineOut(b.start + i - 1, b.lines[i])]
                    \o (IF ctx > 0 THEN <<"--">> ELSE <<>>)

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))

FileOut(f, ctx) == LET bs == Blocks(f.ms) IN
  <<f.name>> \o Flatten([k \in 1..Len(bs) |-> BlockOut(bs[k], ctx)]) \o <<"">>

RepoOut(r, ctx) == <<r.title>> \o Flatten([k \in 1..Len(r.files) |-> FileOut(r.files[k], ctx)])

\* the repositories come in any order
Perms(n) == {p \in [1..n -> 1..n] : \A x, y \in 1..n : p[x] = p[y] => x = y}
Outputs(res, ctx) ==
  LET n == Len(res)
      outs == [k \in 1..n |-> RepoOut(res[k], ctx)]
  IN  {Flatten([k \in 1..n |-> outs[p[k]]]) : p \in Perms(n)}

-----------------------------------------------------------------------------
(* Headings: the name to display, else the last two parts of the url       *)
(* (without .git), else the repository's key.                              *)

Slashes(u) == {i \in 1..Len(u) : SubSeq(u, i, i) = "/"}
NoGit(s) == IF Len(s) >= 4 /\ SubSeq(s, Len(s) - 3, Len(s)) = ".git" THEN SubSeq(s, 1, Len(s) - 4) ELSE s
UrlName(u) ==
  LET S == Slashes(u) IN
  IF S = {} THEN ""
  ELSE LET ax   == MaxOf(S)
           name == NoGit(SubSeq(u, ax + 1, Len(u)))
           B    == {i \in S : i < ax - 1}
       IN  IF B = {} THEN name ELSE SubSeq(u, MaxOf(B) + 1, ax) \o name
Title(key, known, display, url) ==
  IF ~known THEN key ELSE IF display # "" THEN display
  ELSE LET n == UrlName(url) IN IF n = "" THEN key ELSE n
=============================================================================
