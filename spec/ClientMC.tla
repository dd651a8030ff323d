------------------------------ MODULE ClientMC ------------------------------
(* Adding one match after another to the last block computes Blocks.       *)
EXTENDS Client
CONSTANTS Lines, Ctx

VARIABLES ms, done, cur, old    \* old: the output for the matches before the last
vars == <<ms, done, cur, old>>

Txt(i) == "line" \o ToString(i)
Mk(n, b, a) == [n |-> n, l |-> Txt(n), b |-> [i \in 1..b |-> Txt(n - b + i - 1)], a |-> [i \in 1..a |-> Txt(n + i)]]

Computed == IF cur = <<>> THEN done ELSE Append(done, cur)

Init == ms = <<>> /\ done = <<>> /\ cur = <<>> /\ old = <<>>
Next == \E n \in 1..Lines, b \in 0..Ctx, a \in 0..Ctx :
  LET m == Mk(n, b, a) IN
  /\ n - b >= 1 /\ n + a <= Lines
  /\ ms # <<>> => ms[Len(ms)].n < n /\ First(ms[Len(ms)]) <= n - b
  /\ ms' = Append(ms, m)
  /\ old' = Computed
  /\ IF cur # <<>> /\ First(m) <= EndOf(cur)
     THEN cur' = Add(cur, m) /\ done' = done
     ELSE cur' = Alone(m) /\ done' = Computed
Spec == Init /\ [][Next]_vars

Correct == WellFormed(ms) /\ Computed = Blocks(ms)
\* every delivered line is shown once and in order
Shown == LET bs == Computed
             nums == Flatten([k \in 1..Len(bs) |-> [i \in 1..Len(bs[k].lines) |-> bs[k].start + i - 1]])
         IN  /\ \A x \in 1..(Len(nums) - 1) : nums[x] < nums[x + 1]
             /\ {nums[x] : x \in 1..Len(nums)} = UNION {First(ms[k])..Last(ms[k]) : k \in 1..Len(ms)}
             /\ \A k \in 1..(Len(bs) - 1) : EndOf(bs[k]) < bs[k + 1].start
=============================================================================
