------------------------------ MODULE FwdSweep ------------------------------
(***************************************************************************)
(* C01. The forward sweep as a transition system: the state is the pair    *)
(* (m, S) at grid point k, the only transition is one step of the scheme.  *)
(* Recorded sweeps have to be behaviours of it.                            *)
(***************************************************************************)
EXTENDS MomentODE, Trace

VARIABLES tr, k, m, S, bad
vars == <<tr, k, m, S, bad>>

T == Traces[tr]
TOL == "1E-9"

Shapes ==
  /\ T.outcome = "ok"
  /\ RAllNum(T.mt) /\ RAllNum(T.st)
  /\ T.mt_shape = T.want_m_shape /\ T.st_shape = T.want_s_shape
  /\ IsMat(T.mt, T.n, T.dim)
  /\ DOMAIN T.st = 1..T.n /\ \A i \in 1..T.n : IsMat(T.st[i], T.dim, T.dim)

IsSweep == T.kind = "sweep"

Init ==
  /\ tr \in 1..NTraces
  /\ k = 0 /\ m = <<>> /\ S = <<>> /\ bad = {}

(* A call that has to be rejected, or accepted, as a whole.                *)
Reject ==
  /\ k = 0 /\ ~IsSweep
  /\ bad' = Failed([rejected |-> T.outcome = "error"])
  /\ k' = -1 /\ UNCHANGED <<tr, m, S>>
  /\ Verdict(tr, 1, bad')

Malformed ==
  /\ k = 0 /\ IsSweep /\ ~Shapes
  /\ bad' = {"malformed: " \o T.outcome}
  /\ k' = -1 /\ UNCHANGED <<tr, m, S>>
  /\ Verdict(tr, 1, bad')

Start ==
  /\ k = 0 /\ IsSweep /\ Shapes
  /\ k' = 1
  /\ m' = T.mt[1] /\ S' = T.st[1]
  /\ bad' = Failed([initial_mean |-> VClose(T.mt[1], T.m0, "0", "1E-12"),
                    initial_cov  |-> MClose(T.st[1], T.S0, "0", "1E-12"),
                    inputs_kept  |-> T.inputs_kept])
  /\ UNCHANGED tr

Step ==
  /\ IsSweep /\ k > 0 /\ k < T.n
  /\ LET m1 == FwdMeanStep(T.scheme, m, T.dt, T.A[k], T.A[k+1], T.b[k], T.b[k+1])
         S1 == FwdCovStep(T.scheme, S, T.dt, T.A[k], T.A[k+1], T.Sigma)
         om == T.mt[k+1]
         oS == T.st[k+1]
         sm == RAdd(VMaxAbs(m), RMul(T.dt, VMaxAbs(T.b[k])))
         sS == RAdd(MMaxAbs(S), RMul(T.dt, MMaxAbs(T.Sigma)))
     IN /\ bad' = bad \cup Failed(
                [mean |-> VClose(om, m1, sm, TOL),
                 cov  |-> MClose(oS, S1, sS, TOL),
                 symmetric |-> MClose(oS, MT(oS), sS, TOL)])
        /\ m' = om /\ S' = oS      \* continue from what was observed
  /\ k' = k + 1 /\ UNCHANGED tr

Finish ==
  /\ IsSweep /\ k = T.n
  /\ k' = -1
  /\ Verdict(tr, k, bad)
  /\ UNCHANGED <<tr, m, S, bad>>

Next == Reject \/ Malformed \/ Start \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
