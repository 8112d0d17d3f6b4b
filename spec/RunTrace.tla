------------------------------ MODULE RunTrace ------------------------------
(***************************************************************************)
(* C18. What a completed simulation stores, as a behaviour of one          *)
(* evaluation of the free energy (VarGP) at the stored parameters: forward *)
(* sweep, drift energy, observations, total and backward sweep, started    *)
(* from the configuration (noise, drift, prior) and the simulated data.    *)
(* The gradient is not stored; the last transition compares the stored     *)
(* free energy with that of the initial guess.                             *)
(***************************************************************************)
EXTENDS VarGP

Rejected ==                            \* configurations that cannot be run
  /\ phase = "start" /\ T.kind = "run" /\ T.outcome # "ok"
  /\ bad' = {"failed: " \o T.outcome} /\ phase' = "end"
  /\ UNCHANGED <<tr, k, W, q, iR, ldR, F, Fd, mag, pts, l, P>>
  /\ Verdict(tr, 1, bad')

Stored ==
  /\ phase = "backward" /\ k = 1
  /\ phase' = "end"
  /\ bad' = bad \cup Failed(
       [no_worse_than_guess |-> RLe(T.F, RAdd(T.Fstart, RMul("1E-9", mag))),
        grid |-> RLe(RAbs(RSub(n - 1, RDiv(RSub(T.tf, T.t0), T.dt))), "1.000001"),
        names |-> T.names_complete])
  /\ UNCHANGED <<tr, k, W, q, iR, ldR, F, Fd, mag, pts, l, P>>
  /\ Verdict(tr, 3 * n + Len(T.times), bad')

RunNext == (Malformed /\ T.outcome = "ok") \/ Rejected \/ Start \/ Forward \/ Energy \/ Observe \/ Total \/ Backward \/ Stored
RunSpec == Init /\ [][RunNext]_vars
=============================================================================
