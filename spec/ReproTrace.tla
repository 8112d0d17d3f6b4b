----------------------------- MODULE ReproTrace -----------------------------
(***************************************************************************)
(* C25. Histories of real simulations against ReproHistory. Contents are   *)
(* interned: equal numbers mean equal contents. T.data[c] and T.res[c] are *)
(* the data and the results of configuration c in a process of its own;    *)
(* T.file[c] is what the program writes for it (in another process).       *)
(***************************************************************************)
EXTENDS Trace
VARIABLES tr, k, data, res, bad
vars == <<tr, k, data, res, bad>>
T == Traces[tr]
None == 0
Sims == 1..T.objects
Init == /\ tr \in 1..NTraces /\ k = 0 /\ bad = {}
        /\ data = [s \in 1..Traces[tr].objects |-> None] /\ res = [s \in 1..Traces[tr].objects |-> None]
DataOf(c) == IF c = None THEN None ELSE T.data[c]
ResOf(c)  == IF c = None THEN None ELSE T.res[c]
Step ==
  /\ k >= 0 /\ k < Len(T.events)
  /\ LET e == T.events[k + 1]
         d == IF e.op = "setup" THEN [data EXCEPT ![e.s] = e.c] ELSE data
         r == IF e.op = "run" THEN [res EXCEPT ![e.s] = data[e.s]] ELSE res
     IN /\ bad' = bad \cup Failed(
             [admissible |-> e.op = "run" => data[e.s] # None,
              no_error   |-> e.outcome = "ok",
              data       |-> e.outcome = "ok" => \A s \in Sims : e.data[s] = DataOf(d[s]),
              results    |-> e.outcome = "ok" => \A s \in Sims : e.res[s] = ResOf(r[s]),
              configuration_kept |-> e.kept,
              global_kept |-> e.global_kept])
        /\ data' = d /\ res' = r
        /\ k' = IF e.outcome = "ok" THEN k + 1 ELSE Len(T.events)
  /\ UNCHANGED tr
Finish ==
  /\ k = Len(T.events)
  /\ k' = -1 /\ UNCHANGED <<tr, data, res>>
  /\ bad' = bad \cup Failed([program |-> \A c \in DOMAIN T.file : T.file[c] = T.res[c],
                             told_apart |-> \A c1, c2 \in DOMAIN T.data : c1 # c2 => T.data[c1] # T.data[c2]])
  /\ Verdict(tr, k, bad')
Spec == Init /\ [][Step \/ Finish]_vars
=============================================================================
