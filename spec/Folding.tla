------------------------------ MODULE Folding -------------------------------
(* Unicode simple case folding, as a table supplied with the recordings    *)
(* (file named by environment variable VENV, field orbits:                 *)
(* << <<c, <<members of the orbit of c>> >>, ... >>); without one, ASCII.  *)
EXTENDS Integers, Sequences, Json, IOUtils

VEnv == IF "VENV" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.VENV) ELSE [orbits |-> <<>>]

OrbitOf ==
  LET T == VEnv.orbits
      Dom == {T[k][1] : k \in 1..Len(T)}
      Idx == [c \in Dom |-> CHOOSE k \in 1..Len(T) : T[k][1] = c]
  IN  IF T = <<>> THEN [c \in (65..90) \cup (97..122) |-> IF c < 97 THEN {c, c + 32} ELSE {c, c - 32}]
      ELSE [c \in Dom |-> {T[Idx[c]][2][j] : j \in 1..Len(T[Idx[c]][2])}]

Orbit(c) == IF c \in DOMAIN OrbitOf THEN OrbitOf[c] ELSE {c}
=============================================================================
