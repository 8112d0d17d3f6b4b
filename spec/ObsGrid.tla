------------------------------ MODULE ObsGrid ------------------------------
(***************************************************************************)
(* C15, the design: M observations on a grid of N points are put at the    *)
(* positions floor(i*N/(M+1)), i = 1..M (counted from zero). Checked for   *)
(* every small grid: strictly increasing, inside the grid, evenly spread.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxN, Rate                    \* Rate: grid points per unit of time
VARIABLES N, dens, pos
Pos(n, m, i) == (i * n) \div (m + 1)
M == ((N - 1) * dens) \div Rate         \* window length times density
Init == N \in 2..MaxN /\ dens \in 1..(Rate + 2) /\ pos = <<>>
Place == Len(pos) < M /\ dens <= Rate /\ pos' = Append(pos, Pos(N, M, Len(pos) + 1)) /\ UNCHANGED <<N, dens>>
Spec == Init /\ [][Place]_<<N, dens, pos>>
Increasing == \A i \in 1..(Len(pos) - 1) : pos[i] < pos[i + 1]
Inside     == \A i \in DOMAIN pos : pos[i] >= 1 /\ pos[i] <= N - 1
Even       == \A i, j \in 1..(Len(pos) - 1) : (pos[i+1] - pos[i]) - (pos[j+1] - pos[j]) \in -1..1
Emit       == (dens > Rate \/ Len(pos) = M) =>
                PrintT("BEHAVIOUR " \o ToJson([n |-> N, dens |-> dens, rate |-> Rate, pos |-> pos, reject |-> dens > Rate]))
=============================================================================
