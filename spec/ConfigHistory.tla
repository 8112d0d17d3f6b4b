--------------------------- MODULE ConfigHistory ---------------------------
(***************************************************************************)
(* C20, the design. Calls of the program in one directory. A call reads    *)
(* its parameter file, sets up the simulation, runs it and saves; a fault  *)
(* of a stage ends it there. Calls carry fresh tags; `disk' says which     *)
(* call wrote each result file.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Names, Depth, MaxFaults
Stages == <<"read", "setup", "run", "save">>
FaultStages == {"read", "setup", "run"}
VARIABLES hist,      \* calls started so far: name and faults
          stage,     \* 0 idle, 1..4 position in Stages of the running call
          exits,     \* exit statuses of the completed calls
          disk
vars == <<hist, stage, exits, disk>>
Init == hist = <<>> /\ stage = 0 /\ exits = <<>> /\ disk = [n \in Names |-> 0]
Now == hist[Len(hist)]
Call(n, F) == /\ stage = 0 /\ Len(hist) < Depth
              /\ hist' = Append(hist, [name |-> n, faults |-> F]) /\ stage' = 1
              /\ UNCHANGED <<exits, disk>>
Advance == /\ stage \in 1..3 /\ Stages[stage] \notin Now.faults
           /\ stage' = stage + 1 /\ UNCHANGED <<hist, exits, disk>>
Fail == /\ stage \in 1..3 /\ Stages[stage] \in Now.faults
        /\ exits' = Append(exits, 1) /\ stage' = 0 /\ UNCHANGED <<hist, disk>>
Save == /\ stage = 4
        /\ disk' = [disk EXCEPT ![Now.name] = Len(hist)]
        /\ exits' = Append(exits, 0) /\ stage' = 0 /\ UNCHANGED hist
Next == \/ \E n \in Names, F \in SUBSET FaultStages : Cardinality(F) <= MaxFaults /\ Call(n, F)
        \/ Advance \/ Fail \/ Save
Spec == Init /\ [][Next]_vars

Done == DOMAIN exits
ZeroIffFaultless == \A i \in Done : (exits[i] = 0) <=> (hist[i].faults = {})
LastGood(n) == LET I == {i \in Done : exits[i] = 0 /\ hist[i].name = n} IN
               IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
FilesAreGoodCalls == \A n \in Names : disk[n] = LastGood(n)
OneFilePerCall == \A n, m \in Names : (disk[n] = disk[m] /\ disk[n] # 0) => n = m
Emit == (Len(exits) = Depth) => PrintT("BEHAVIOUR " \o ToJson([i \in DOMAIN hist |->
          [name |-> hist[i].name, read |-> "read" \in hist[i].faults, setup |-> "setup" \in hist[i].faults,
           run |-> "run" \in hist[i].faults]]))
=============================================================================
