------------------------------ MODULE ScgTrace ------------------------------
(***************************************************************************)
(* C12. Runs of the real optimiser. T.visits is the sequence of distinct   *)
(* consecutive points it evaluated: start, then per iteration possibly a   *)
(* probe (gradient with function) and the trial. The state is the accepted *)
(* point and the number of iterations.                                     *)
(***************************************************************************)
EXTENDS Trace
VARIABLES tr, k, cur, val, grad, iter, phase, bad
vars == <<tr, k, cur, val, grad, iter, phase, bad>>
T == Traces[tr]
Big == "1E300"           \* infinite and undefined values are written as this
V(i) == T.visits[i]
Init ==
  /\ tr \in 1..NTraces
  /\ k = 0 /\ cur = <<>> /\ val = "0" /\ grad = <<>> /\ iter = 0 /\ phase = "start" /\ bad = {}

Malformed ==
  /\ phase = "start" /\ (T.outcome # "ok" \/ Len(T.visits) = 0)
  /\ bad' = {"malformed: " \o T.outcome} /\ phase' = "end"
  /\ UNCHANGED <<tr, k, cur, val, grad, iter>>
  /\ Verdict(tr, 1, bad')

Norm2(g) == RDot(g, g)
Vanishes(g) == RLe(Norm2(g), "1E-8")
Begin ==
  /\ phase = "start" /\ T.outcome = "ok" /\ Len(T.visits) > 0
  /\ k' = 1 /\ cur' = V(1).x /\ val' = V(1).f /\ grad' = V(1).g
  /\ bad' = Failed([starts_at_x0 |-> VClose(V(1).x, T.x0, "0", "0"),
                    start_evaluated |-> V(1).hasf /\ V(1).hasg])
  /\ phase' = IF Vanishes(V(1).g) THEN "vanished" ELSE "probe"
  /\ UNCHANGED <<tr, iter>>

Probe ==
  /\ phase \in {"probe", "vanished"} /\ k < Len(T.visits) /\ iter < T.max_it
  /\ bad' = bad \cup Failed([probe_has_gradient |-> V(k + 1).hasg])
  /\ k' = k + 1 /\ phase' = "trial"
  /\ UNCHANGED <<tr, cur, val, grad, iter>>

Step(i) == VMaxAbs(VSub(V(i).x, cur))
(* Certainly / possibly within the tolerances, given rounding of the step. *)
Within(i, slack) == /\ RLe(Step(i), RMul(T.x_tol, slack))
                    /\ RLe(RAbs(RSub(V(i).f, val)), T.f_tol)
Trial ==
  /\ phase = "trial" /\ k < Len(T.visits) /\ iter < T.max_it
  /\ k' = k + 1 /\ iter' = iter + 1
  /\ LET v == V(k + 1)
         accept == RLe(v.f, val)
     IN /\ bad' = bad \cup Failed(
             [trial_evaluated |-> v.hasf,
              recorded |-> Len(T.fx) > iter =>
                             Close(T.fx[iter + 1], IF accept THEN v.f ELSE val, "0", "1E-14")])
        /\ IF accept
           THEN /\ cur' = v.x /\ val' = v.f /\ grad' = v.g
                /\ \/ Within(k + 1, "1.000001") /\ phase' = "converged"
                   \/ ~Within(k + 1, "0.999999") /\ v.hasg /\ Vanishes(v.g) /\ phase' = "vanished"
                   \/ ~Within(k + 1, "0.999999") /\ v.hasg /\ ~Vanishes(v.g) /\ phase' = "probe"
                   \/ ~Within(k + 1, "0.999999") /\ ~v.hasg /\ phase' = "unfinished"
           ELSE UNCHANGED <<cur, val, grad>> /\ phase' = "trial"
  /\ UNCHANGED tr

(* The run ended here. *)
Finish ==
  /\ phase \notin {"start", "end"}
  /\ \/ k = Len(T.visits)
     \/ phase = "converged"
     \/ iter = T.max_it
  /\ bad' = bad \cup Failed(
       [stops_on_time |-> k = Len(T.visits),
        reason        |-> phase \in {"converged", "vanished"} \/ iter = T.max_it,
        within_limit  |-> iter <= T.max_it,
        point         |-> VClose(T.x, cur, "0", "0"),
        value         |-> Close(T.val, val, "0", "0"),
        not_above_start |-> RLe(T.val, V(1).f),
        non_increasing |-> \A i \in 1..(Len(T.fx) - 1) : RLe(T.fx[i + 1], T.fx[i]),
        all_recorded  |-> T.reused \/ Len(T.fx) = iter,
        start_kept    |-> T.start_kept,
        f_counter     |-> T.reused \/ T.f_count = T.f_calls,
        df_counter    |-> T.reused \/ T.df_count = T.df_calls,
        iterations    |-> T.reused \/ (T.iterations >= iter /\ T.iterations <= T.max_it)])
  /\ phase' = "end"
  /\ UNCHANGED <<tr, k, cur, val, grad, iter>>
  /\ Verdict(tr, k, bad')
Next == Malformed \/ Begin \/ Probe \/ Trial \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
