------------------------------ MODULE BwdSweep ------------------------------
(***************************************************************************)
(* C02. The backward sweep: the state is the pair (lam, Psi) at grid point *)
(* k; a transition is one backward step of the scheme followed by the jump *)
(* of the grid point it arrives at. It starts from the jump at the final   *)
(* time. Recorded sweeps have to be behaviours of it.                      *)
(***************************************************************************)
EXTENDS MomentODE, Trace

VARIABLES tr, k, l, P, bad
vars == <<tr, k, l, P, bad>>

T == Traces[tr]
TOL == "1E-9"
IsSweep == T.kind = "sweep"

Shapes ==
  /\ T.outcome = "ok"
  /\ RAllNum(T.lam) /\ RAllNum(T.psi)
  /\ T.lam_shape = T.want_m_shape /\ T.psi_shape = T.want_s_shape
  /\ IsMat(T.lam, T.n, T.dim)
  /\ DOMAIN T.psi = 1..T.n /\ \A i \in 1..T.n : IsMat(T.psi[i], T.dim, T.dim)

Init ==
  /\ tr \in 1..NTraces
  /\ k = 0 /\ l = <<>> /\ P = <<>> /\ bad = {}

Reject ==
  /\ k = 0 /\ ~IsSweep
  /\ bad' = Failed([rejected |-> T.outcome = "error"])
  /\ k' = -1 /\ UNCHANGED <<tr, l, P>>
  /\ Verdict(tr, 1, bad')

Malformed ==
  /\ k = 0 /\ IsSweep /\ ~Shapes
  /\ bad' = {"malformed: " \o T.outcome}
  /\ k' = -1 /\ UNCHANGED <<tr, l, P>>
  /\ Verdict(tr, 1, bad')

Start ==
  /\ k = 0 /\ IsSweep /\ Shapes
  /\ k' = T.n
  /\ l' = T.lam[T.n] /\ P' = T.psi[T.n]
  /\ bad' = Failed([terminal_mean |-> VClose(T.lam[T.n], T.jm[T.n], "0", "1E-12"),
                    terminal_cov  |-> MClose(T.psi[T.n], T.js[T.n], "0", "1E-12"),
                    inputs_kept   |-> T.inputs_kept])
  /\ UNCHANGED tr

Step ==
  /\ IsSweep /\ k > 1
  /\ LET l1 == VAdd(BwdMeanStep(T.scheme, l, T.dt, T.A[k], T.A[k-1], T.em[k], T.em[k-1]), T.jm[k-1])
         P1 == MAdd(BwdCovStep(T.scheme, P, T.dt, T.A[k], T.A[k-1], T.es[k], T.es[k-1]), T.js[k-1])
         ol == T.lam[k-1]
         oP == T.psi[k-1]
         sl == RSum(<<VMaxAbs(l), RMul(T.dt, VMaxAbs(T.em[k])), VMaxAbs(T.jm[k-1])>>)
         sP == RSum(<<MMaxAbs(P), RMul(T.dt, MMaxAbs(T.es[k])), MMaxAbs(T.js[k-1])>>)
     IN /\ bad' = bad \cup Failed([lam |-> VClose(ol, l1, sl, TOL), psi |-> MClose(oP, P1, sP, TOL)])
        /\ l' = ol /\ P' = oP
  /\ k' = k - 1 /\ UNCHANGED tr

Finish ==
  /\ IsSweep /\ k = 1
  /\ k' = -1
  /\ Verdict(tr, T.n, bad)
  /\ UNCHANGED <<tr, l, P, bad>>

Next == Reject \/ Malformed \/ Start \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
