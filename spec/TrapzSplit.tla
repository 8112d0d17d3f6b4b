----------------------------- MODULE TrapzSplit -----------------------------
(***************************************************************************)
(* C21, the design: integrating interval by interval between increasing    *)
(* split positions. For every small grid, every set of splits and every    *)
(* unit function the sum of the pieces is the trapezoidal rule over the    *)
(* whole grid (twice the integral for step one, to stay in the integers);  *)
(* by linearity this decides all functions on these grids.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT MaxN
VARIABLES N, splits, unit, at, area, done
vars == <<N, splits, unit, at, area, done>>
F(i) == IF i = unit THEN 1 ELSE 0            \* grid positions 0..N-1
RECURSIVE Twice(_, _)
Twice(a, b) == IF a >= b THEN 0 ELSE F(a) + F(a + 1) + Twice(a + 1, b)
Init == /\ N \in 2..MaxN /\ splits \in SUBSET (0..(MaxN - 1)) /\ splits \subseteq 0..(N - 1)
        /\ unit \in 0..(N - 1) /\ at = 0 /\ area = 0 /\ done = {}
Piece == /\ done # splits
         /\ LET l == CHOOSE l \in splits \ done : \A m \in splits \ done : l <= m IN
            /\ area' = area + Twice(at, l) /\ at' = l /\ done' = done \cup {l}
         /\ UNCHANGED <<N, splits, unit>>
Last == /\ done = splits /\ at # N - 1
        /\ area' = area + Twice(at, N - 1) /\ at' = N - 1
        /\ UNCHANGED <<N, splits, unit, done>>
Spec == Init /\ [][Piece \/ Last]_vars
Whole == (done = splits /\ at = N - 1) => area = (IF unit = 0 \/ unit = N - 1 THEN 1 ELSE 2)
Emit  == (done = {} /\ at = 0 /\ area = 0 /\ unit = 0) => PrintT("BEHAVIOUR " \o ToJson([n |-> N, splits |-> splits]))
=============================================================================
