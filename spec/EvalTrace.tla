----------------------------- MODULE EvalTrace -----------------------------
(***************************************************************************)
(* C11. Histories of evaluations on real objects against EvalHistory. The  *)
(* results are interned: equal numbers mean equal results. T.ref is what   *)
(* fresh objects report for every (object, point).                         *)
(***************************************************************************)
EXTENDS Trace
VARIABLES tr, k, last, bad
vars == <<tr, k, last, bad>>
T == Traces[tr]
None == 0
Init == tr \in 1..NTraces /\ k = 0 /\ bad = {} /\ last = [o \in DOMAIN Traces[tr].ref |-> None]
Ref(o, x) == T.ref[o][x]
Step ==
  /\ k >= 0 /\ k < Len(T.events)
  /\ LET e == T.events[k + 1]
         eval == e.op \in {"energy", "gradeval"}
         now == [last EXCEPT ![e.o] = IF eval THEN e.x ELSE @]
     IN /\ bad' = bad \cup Failed(
             [admissible |-> e.op = "grad" => last[e.o] = e.x,
              no_error   |-> e.outcome = "ok",
              result     |-> e.outcome = "ok" => e.result = IF e.op = "energy" THEN Ref(e.o, e.x).F
                                         ELSE IF e.op = "guess" THEN T.guess[e.o]
                                         ELSE Ref(e.o, e.x).G,
              published  |-> \A o \in DOMAIN now : now[o] # None => e.published[o] = Ref(o, now[o]).P,
              arguments_kept |-> e.kept])
        /\ last' = now
  /\ k' = k + 1 /\ UNCHANGED tr
Finish ==
  /\ k = Len(T.events)
  /\ k' = -1 /\ UNCHANGED <<tr, last, bad>>
  /\ Verdict(tr, k, bad)
Spec == Init /\ [][Step \/ Finish]_vars
=============================================================================
