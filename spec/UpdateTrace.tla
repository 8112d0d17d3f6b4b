---------------------------- MODULE UpdateTrace ----------------------------
(***************************************************************************)
(* C24. Real histories of updates and evaluations against UpdateHistory.   *)
(* Results are interned. T.ref[o] is what objects of problem o report that *)
(* were built with the parameters of a configuration: an index made of the *)
(* values (1 or 2) of system noise, drift parameter, observation noise.    *)
(***************************************************************************)
EXTENDS Trace
VARIABLES tr, k, cfg, bad
vars == <<tr, k, cfg, bad>>
T == Traces[tr]
Params == {"sigma", "theta", "noise"}
Init == tr \in 1..NTraces /\ k = 0 /\ bad = {}
        /\ cfg = [o \in DOMAIN Traces[tr].ref |-> [p \in Params |-> 1]]
Index(c) == 1 + (c.sigma - 1) + 2 * (c.theta - 1) + 4 * (c.noise - 1)
Step ==
  /\ k >= 0 /\ k < Len(T.events)
  /\ LET e == T.events[k + 1]
         set == e.op \in Params
         now == IF ~set THEN cfg
                ELSE [u \in DOMAIN cfg |-> IF u = e.o \/ T.share THEN [cfg[u] EXCEPT ![e.op] = e.x] ELSE cfg[u]]
     IN \E r \in {T.ref[e.o][Index(now[e.o])]} :
        /\ bad' = bad \cup Failed(
             [outcome |-> e.outcome = IF e.op = "bad" THEN "error" ELSE "ok",
              energy |-> e.op = "energy" /\ e.outcome = "ok" => e.result = r.point[e.x].F,
              gradient |-> e.op = "gradeval" /\ e.outcome = "ok" => e.result = r.point[e.x].G,
              guess |-> e.op = "guess" /\ e.outcome = "ok" => e.result = r.guess,
              published |-> e.op \in {"energy", "gradeval"} /\ e.outcome = "ok" => e.published = r.point[e.x].P,
              arguments_kept |-> e.kept])
        /\ cfg' = now
  /\ k' = k + 1 /\ UNCHANGED tr
Finish ==
  /\ k = Len(T.events)
  /\ k' = -1 /\ UNCHANGED <<tr, cfg, bad>>
  /\ Verdict(tr, k, bad)
Spec == Init /\ [][Step \/ Finish]_vars
=============================================================================
