----------------------------- MODULE SeedTrace -----------------------------
(***************************************************************************)
(* C16. Real histories against SeedHistory: `known' collects which result  *)
(* (interned, bit by bit) was seen for which (model, seed, own history);   *)
(* this has to be a function, and one-to-one.                              *)
(***************************************************************************)
EXTENDS Trace
VARIABLES tr, k, own, known, bad
vars == <<tr, k, own, known, bad>>
T == Traces[tr]
Absent == <<"absent">>
Init ==
  /\ tr \in 1..NTraces /\ k = 0 /\ bad = {} /\ known = {}
  /\ own = IF Traces[tr].kind = "pool" THEN <<>> ELSE [o \in DOMAIN Traces[tr].seeds |-> Absent]
Draw == {"path", "obs"}
(* Many objects of one kind, each with a seed of its own, that all do the  *)
(* same once; and the same once more with new objects.                     *)
Pool ==
  /\ T.kind = "pool" /\ k = 0
  /\ bad' = Failed([no_error |-> T.outcome = "ok",
                    distinct |-> T.different = T.count,
                    reproducible |-> T.again = T.count])
  /\ k' = -1 /\ UNCHANGED <<tr, own, known>>
  /\ Verdict(tr, T.count, bad')
Step ==
  /\ T.kind = "history" /\ k >= 0 /\ k < Len(T.events)
  /\ LET e == T.events[k + 1]
         mine == IF e.op = "global" THEN <<>> ELSE own[e.o]
         (* A path replaces what was there: observations depend on the      *)
         (* whole history through the stream and the path.                  *)
         key == IF e.op = "global" THEN <<>> ELSE
                [seed |-> T.seeds[e.o], model |-> T.models[e.o], past |-> mine, op |-> e.op]
     IN /\ bad' = bad \cup
             (IF e.op \in Draw
              THEN Failed(
                [no_error |-> e.outcome = "ok",
                 reproducible |-> \A p \in known : p.key = key => p.id = e.id,
                 distinct     |-> \A p \in known : p.id = e.id => p.key = key,
                 distinct_noise |-> \A p \in known : (p.noise = e.noise) => p.key = key])
              ELSE {}) \cup Failed([global_state_kept |-> e.op # "global" => e.global_kept])
        /\ known' = IF e.op \in Draw THEN known \cup {[key |-> key, id |-> e.id, noise |-> e.noise]} ELSE known
        /\ own' = IF e.op = "global" THEN own
                  ELSE [own EXCEPT ![e.o] = IF e.op = "new"
                                   THEN IF T.unseeded[e.o] THEN <<ToString(k)>> ELSE <<>>
                                   ELSE Append(@, e.op)]
  /\ k' = k + 1 /\ UNCHANGED tr
Finish ==
  /\ T.kind = "history" /\ k = Len(T.events)
  /\ k' = -1 /\ UNCHANGED <<tr, own, known, bad>>
  /\ Verdict(tr, k, bad)
Spec == Init /\ [][Pool \/ Step \/ Finish]_vars
=============================================================================
