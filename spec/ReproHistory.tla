---------------------------- MODULE ReproHistory ----------------------------
(***************************************************************************)
(* C25, the design. Simulation objects are set up from configurations and  *)
(* run. A configuration contains the seed, so the data of an object are    *)
(* those of the configuration it was set up from last (written D(c)), and  *)
(* its results those of the configuration it held when it was run last     *)
(* (written R(c)). Nothing else is remembered, by objects or between them: *)
(* saving, and use of the global random state, are not visible.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Sims, Configs, Depth
VARIABLES data, res, hist
vars == <<data, res, hist>>
None == 0
Init == data = [s \in Sims |-> None] /\ res = [s \in Sims |-> None] /\ hist = <<>>
Do(op, s, c) == Len(hist) < Depth /\ hist' = Append(hist, [op |-> op, s |-> s, c |-> c])
Setup(s, c) == Do("setup", s, c) /\ data' = [data EXCEPT ![s] = c] /\ UNCHANGED res
Run(s)   == /\ data[s] # None /\ Do("run", s, 0)
            /\ res' = [res EXCEPT ![s] = data[s]] /\ UNCHANGED data
Save(s)  == res[s] # None /\ Do("save", s, 0) /\ UNCHANGED <<data, res>>
Global   == Do("global", 0, 0) /\ UNCHANGED <<data, res>>
Next == \/ \E s \in Sims : Run(s) \/ Save(s) \/ \E c \in Configs : Setup(s, c)
        \/ Global
Spec == Init /\ [][Next]_vars

Last(I) == IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
SetupBefore(s, i) == LET k == Last({j \in 1..(i - 1) : hist[j].op = "setup" /\ hist[j].s = s})
                     IN IF k = 0 THEN None ELSE hist[k].c
DataOfLastSetup == \A s \in Sims : data[s] = SetupBefore(s, Len(hist) + 1)
ResultOfLastRun == \A s \in Sims :
  LET k == Last({j \in DOMAIN hist : hist[j].op = "run" /\ hist[j].s = s})
  IN res[s] = IF k = 0 THEN None ELSE SetupBefore(s, k)
(* An object that only sees its own operations ends up the same.           *)
RECURSIVE Alone(_, _, _, _)
Alone(h, s, d, r) == IF h = <<>> THEN <<d, r>>
  ELSE LET e == Head(h) IN
       IF e.s # s THEN Alone(Tail(h), s, d, r)
       ELSE Alone(Tail(h), s, IF e.op = "setup" THEN e.c ELSE d, IF e.op = "run" THEN d ELSE r)
Independent == \A s \in Sims : Alone(hist, s, None, None) = <<data[s], res[s]>>

Runs == {i \in DOMAIN hist : hist[i].op = "run"}
Emit == (Len(hist) = Depth /\ hist[1].op = "setup" /\ hist[1].s = 1 /\ hist[1].c = 1
         /\ Runs # {} /\ hist[Depth].op = "run") => PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
