----------------------------- MODULE SimHistory -----------------------------
(***************************************************************************)
(* C19, the design. Simulation objects and the directory they save to.     *)
(* Every run has a fresh tag; an object remembers the tag of its last run, *)
(* a file that of the run it was saved from. Several objects may share a   *)
(* file.                                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Sims, Files, FileOf, Depth
VARIABLES mem, disk, got, hist
vars == <<mem, disk, got, hist>>
MCFileOf == <<1, 1, 2>>    \* objects 1 and 2 share a file
None == 0                       \* no results, no file
Error == -1                     \* of a load
Init == /\ mem = [s \in Sims |-> None] /\ disk = [f \in Files |-> None]
        /\ got = None /\ hist = <<>>
Do(op, x) == Len(hist) < Depth /\ hist' = Append(hist, [op |-> op, x |-> x])
Tag == Len(hist) + 1
Setup(s) == Do("setup", s) /\ UNCHANGED <<mem, disk, got>>
Run(s)  == Do("run", s) /\ mem' = [mem EXCEPT ![s] = Tag] /\ UNCHANGED <<disk, got>>
Save(s) == /\ Do("save", s)
           /\ disk' = IF mem[s] = None THEN disk ELSE [disk EXCEPT ![FileOf[s]] = mem[s]]
           /\ UNCHANGED <<mem, got>>
Load(f) == Do("load", f) /\ got' = (IF disk[f] = None THEN Error ELSE disk[f]) /\ UNCHANGED <<mem, disk>>
LoadNothing == Do("load", 0) /\ got' = Error /\ UNCHANGED <<mem, disk>>
Next == \/ \E s \in Sims : Setup(s) \/ Run(s) \/ Save(s)
        \/ \E f \in Files : Load(f)
        \/ LoadNothing
Spec == Init /\ [][Next]_vars

(* What a history leaves behind, said without the state.                   *)
Last(I) == IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
RunBefore(s, i) == Last({j \in 1..(i - 1) : hist[j] = [op |-> "run", x |-> s]})
SavesOf(f) == {i \in DOMAIN hist : hist[i].op = "save" /\ FileOf[hist[i].x] = f /\ RunBefore(hist[i].x, i) # 0}
LastSaveWins == \A f \in Files : LET i == Last(SavesOf(f)) IN
                  disk[f] = IF i = 0 THEN None ELSE RunBefore(hist[i].x, i)
OnlyOwnFile == \A f \in Files : disk[f] # None => \E s \in Sims : FileOf[s] = f
LoadsAgree == LET i == Len(hist) IN
  (i > 0 /\ hist[i].op = "load") =>
    got = IF hist[i].x = 0 \/ disk[hist[i].x] = None THEN Error ELSE disk[hist[i].x]
NothingFromNothing == (\A i \in DOMAIN hist : hist[i].op # "run") => \A f \in Files : disk[f] = None
Emit == (Len(hist) = Depth /\ hist[Depth].op = "load" /\ \E i \in DOMAIN hist : hist[i].op = "save")
          => PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
