------------------------------ MODULE Indexing ------------------------------
(***************************************************************************)
(* Which files of a tree are searchable, and which are listed as excluded. *)
(*                                                                         *)
(* A tree is a set of entries [path |-> sequence of names, kind |-> "file" *)
(* / "dir" / "other", segs |-> content].  Content is a sequence of runs    *)
(* [b |-> bytes, n |-> how often b is repeated].                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

MaxFileLen       == 33554432     \* 32 MB
MaxLineLen       == 2000
MaxTextTrigrams  == 20000
PeekSize         == 2048

-----------------------------------------------------------------------------
(* Content *)

RECURSIVE SizeFrom(_, _)
SizeFrom(segs, k) == IF k > Len(segs) THEN 0 ELSE segs[k].n * Len(segs[k].b) + SizeFrom(segs, k + 1)
Size(segs) == SizeFrom(segs, 1)

Rep(b, n) == [i \in 1..(n * Len(b)) |-> b[((i - 1) % Len(b)) + 1]]

Min2(a, b) == IF a < b THEN a ELSE b

\* a shorter text with the same neighbouring bytes and trigrams
RECURSIVE ShortFrom(_, _)
ShortFrom(segs, k) == IF k > Len(segs) THEN <<>> ELSE Rep(segs[k].b, Min2(segs[k].n, 3)) \o ShortFrom(segs, k + 1)
Short(segs) == ShortFrom(segs, 1)

\* the first max bytes
RECURSIVE PrefixFrom(_, _, _)
PrefixFrom(segs, k, max) ==
  IF k > Len(segs) \/ max <= 0 THEN <<>>
  ELSE LET l == Len(segs[k].b)
           want == IF l = 0 THEN 0 ELSE Min2(segs[k].n, (max + l - 1) \div l)
           t == Rep(segs[k].b, want)
       IN  IF Len(t) >= max THEN SubSeq(t, 1, max) ELSE t \o PrefixFrom(segs, k + 1, max - Len(t))
Prefix(segs, max) == PrefixFrom(segs, 1, max)

IsCont(b)  == 128 <= b /\ b < 192
At(B, i)   == IF i <= Len(B) THEN B[i] ELSE -1

\* length of the well-formed UTF-8 sequence at i, or 0
RuneLen(B, i) ==
  LET b == B[i] c == At(B, i + 1) d == At(B, i + 2) e == At(B, i + 3) IN
  IF b < 128 THEN 1
  ELSE IF 194 <= b /\ b <= 223 THEN IF IsCont(c) THEN 2 ELSE 0
  ELSE IF 224 <= b /\ b <= 239
       THEN IF /\ IsCont(c) /\ IsCont(d)
               /\ b = 224 => c >= 160
               /\ b = 237 => c < 160 THEN 3 ELSE 0
  ELSE IF 240 <= b /\ b <= 244
       THEN IF /\ IsCont(c) /\ IsCont(d) /\ IsCont(e)
               /\ b = 240 => c >= 144
               /\ b = 244 => c < 144 THEN 4 ELSE 0
  ELSE 0

\* the positions where UTF-8 decoding fails: leads without a well-formed
\* sequence and continuation bytes that belong to none
BadAt(B) == {i \in 1..Len(B) : IF IsCont(B[i])
                                THEN ~ \E k \in 1..3 : i > k /\ ~IsCont(B[i - k]) /\ RuneLen(B, i - k) > k
                                ELSE RuneLen(B, i) = 0}
FirstBad(B) == LET X == BadAt(B) IN IF X = {} THEN 0 ELSE CHOOSE i \in X : \A j \in X : i <= j

\* a file shorter than the peek size must be valid; a longer one's start may
\* end within a character
LooksLikeText(segs) ==
  LET p == Prefix(segs, PeekSize)
      bad == FirstBad(p)
  IN  IF Len(p) < PeekSize THEN bad = 0
      ELSE bad = 0 \/ (Len(p) - bad + 1 < 4 /\ ~IsCont(p[bad]))

\* bytes that can never be next to each other in UTF-8
PairOk(a, b) == IF a < 128 THEN b < 128 \/ (192 <= b /\ b < 248)
                ELSE IF a < 192 THEN b < 248
                ELSE IF a < 248 THEN 128 <= b /\ b < 192
                ELSE FALSE
PairsOk(S) == /\ Len(S) > 0 => PairOk(0, S[1])
              /\ \A i \in 1..(Len(S) - 1) : PairOk(S[i], S[i + 1])

DistinctTrigrams(S) == Cardinality({S[i] * 65536 + S[i + 1] * 256 + S[i + 2] : i \in 1..(Len(S) - 2)})

\* <<length of the current line, terminated lines, those that are too long>>
Max2(a, b) == IF a > b THEN a ELSE b
LinesOne(b, s) ==
  LET NL    == {i \in 1..Len(b) : b[i] = 10}
      first == CHOOSE i \in NL : \A j \in NL : i <= j
      last  == CHOOSE i \in NL : \A j \in NL : j <= i
      long  == {i \in NL : IF i = first THEN s[1] + i > MaxLineLen
                           ELSE i > MaxLineLen /\ ~ \E j \in (i - MaxLineLen)..(i - 1) : b[j] = 10}
  IN  IF NL = {} THEN <<s[1] + Len(b), s[2], s[3]>>
      ELSE <<Len(b) - last, s[2] + Cardinality(NL), s[3] + Cardinality(long)>>

HasNewline(b) == \E i \in 1..Len(b) : b[i] = 10

RECURSIVE LinesFrom(_, _, _)
LinesFrom(segs, k, s) ==
  IF k > Len(segs) THEN s
  ELSE LET b == segs[k].b n == segs[k].n IN
       IF n = 0 THEN LinesFrom(segs, k + 1, s)
       ELSE IF ~HasNewline(b) THEN LinesFrom(segs, k + 1, <<s[1] + n * Len(b), s[2], s[3]>>)
       ELSE LET one == LinesOne(b, s)
                two == LinesOne(b, <<one[1], 0, 0>>)      \* every further repetition is like this one
            IN  LinesFrom(segs, k + 1, <<one[1], one[2] + (n - 1) * two[2], one[3] + (n - 1) * two[3]>>)
Lines(segs) == LinesFrom(segs, 1, <<0, 0, 0>>)

-----------------------------------------------------------------------------
(* Decisions.  opt = [dot |-> exclude dot files, special |-> names that    *)
(* belong to the version control system].                                  *)

IsDot(name) == Len(name) > 0 /\ name[1] = 46

Special(opt, name) == \E k \in 1..Len(opt.special) : opt.special[k] = name

\* not part of the repository, or below a directory left out as a whole
LeftOut(opt, e) == \/ \E k \in 1..Len(e.path) : Special(opt, e.path[k])
                   \/ opt.dot /\ \E k \in 1..(Len(e.path) - 1) : IsDot(e.path[k])

Reasons(opt, e) ==
  LET name == e.path[Len(e.path)]
      dot  == IF opt.dot /\ IsDot(name) THEN {"dot"} ELSE {}
  IN  IF e.kind # "file" THEN dot \cup {"mode"}
      ELSE LET S     == Short(e.segs)
               n     == Size(e.segs)
               tri   == DistinctTrigrams(S)
               lines == Lines(e.segs)
           IN  dot
               \cup (IF LooksLikeText(e.segs) /\ PairsOk(S) THEN {} ELSE {"text"})
               \cup (IF n > MaxFileLen THEN {"long"} ELSE {})
               \cup (IF tri > MaxTextTrigrams /\ 10 * tri > n THEN {"trigrams"} ELSE {})
               \cup (IF 10 * lines[3] > lines[2] THEN {"lines"} ELSE {})

\* Members of the tree that have to be accounted for.
Subject(opt, tree) == {k \in 1..Len(tree) : tree[k].kind # "dir" /\ ~LeftOut(opt, tree[k])}

(* res = [indexed |-> paths, excluded |-> <<path, reason>> pairs, found |-> *)
(* paths whose whole content a search returns], all sequences.             *)
Count(s, P(_)) == Cardinality({k \in 1..Len(s) : P(s[k])})

Accounted(opt, tree, res) ==
  /\ \A k \in Subject(opt, tree) :
       LET e  == tree[k]
           rs == Reasons(opt, e)
           ni == Count(res.indexed, LAMBDA p : p = e.path)
           ne == Count(res.excluded, LAMBDA x : x[1] = e.path)
           nf == Count(res.found, LAMBDA p : p = e.path)
       IN  IF rs = {}
           THEN /\ ni = 1 /\ ne = 0
                /\ nf = (IF Size(e.segs) = 0 THEN 0 ELSE 1)
           ELSE /\ ni = 0 /\ nf = 0
                /\ ne = 1
                /\ \A j \in 1..Len(res.excluded) : res.excluded[j][1] = e.path => res.excluded[j][2] \in rs
  \* and nothing else appears
  /\ \A j \in 1..Len(res.indexed)  : \E k \in Subject(opt, tree) : tree[k].path = res.indexed[j]
  /\ \A j \in 1..Len(res.excluded) : \E k \in Subject(opt, tree) : tree[k].path = res.excluded[j][1]
  /\ \A j \in 1..Len(res.found)    : \E k \in Subject(opt, tree) : tree[k].path = res.found[j]

\* outcome of a build: ok exactly if the tree could be read completely
BuildOk(r) == IF r.readable THEN r.outcome = "ok" /\ Accounted(r.opt, r.tree, r.res)
              ELSE r.outcome = "error"
=============================================================================
