----------------------------- MODULE TrapzTrace -----------------------------
(* C21. Recorded integrals: T.f[i] are the (flattened) values at grid      *)
(* point i, T.area the result.                                             *)
EXTENDS HPReal, Trace
VARIABLES tr, k, acc, mag, bad
vars == <<tr, k, acc, mag, bad>>
T == Traces[tr]
n == T.n
c == Len(T.f[1])
Init == tr \in 1..NTraces /\ k = 0 /\ bad = {} /\ acc = <<>> /\ mag = "0"
Malformed ==
  /\ k = 0 /\ ~(T.outcome = "ok" /\ RAllNum(T.area) /\ T.shape = T.want_shape)
  /\ bad' = {"malformed: " \o T.outcome} /\ k' = -1 /\ UNCHANGED <<tr, acc, mag>>
  /\ Verdict(tr, 1, bad')
Start ==
  /\ k = 0 /\ T.outcome = "ok" /\ RAllNum(T.area) /\ T.shape = T.want_shape
  /\ k' = 1 /\ acc' = VZero(c) /\ mag' = "0"
  /\ bad' = Failed([inputs_kept |-> T.inputs_kept]) /\ UNCHANGED tr
Interval ==
  /\ k >= 1 /\ k < n
  /\ acc' = VAdd(acc, VScale(RHalf(T.dx), VAdd(T.f[k], T.f[k + 1])))
  /\ mag' = RAdd(mag, RMul(RAbs(T.dx), RAdd(VMaxAbs(T.f[k]), VMaxAbs(T.f[k + 1]))))
  /\ k' = k + 1 /\ UNCHANGED <<tr, bad>>
Finish ==
  /\ k = n
  /\ bad' = bad \cup Failed([area |-> VClose(T.area, acc, mag, "1E-12")])
  /\ k' = -1 /\ UNCHANGED <<tr, acc, mag>>
  /\ Verdict(tr, n, bad')
Spec == Init /\ [][Malformed \/ Start \/ Interval \/ Finish]_vars
=============================================================================
