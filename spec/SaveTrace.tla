----------------------------- MODULE SaveTrace -----------------------------
(***************************************************************************)
(* C19. Real histories of runs, saves and loads in one directory. Contents *)
(* (results in memory, files, loaded results) are tables of names, shapes  *)
(* and number strings in T.contents and are referred to by their index;    *)
(* 0 means nothing. File names are sequences of characters.                *)
(***************************************************************************)
EXTENDS HPReal, Trace
VARIABLES tr, k, mem, disk, bad
vars == <<tr, k, mem, disk, bad>>
T == Traces[tr]
Init == /\ tr \in 1..NTraces /\ k = 0 /\ bad = {}
        /\ mem = [s \in DOMAIN Traces[tr].names |-> 0]
        /\ disk = {<<f.file, f.content>> : f \in {Traces[tr].dir0[i] : i \in DOMAIN Traces[tr].dir0}}

(* The file name belonging to a simulation name.                           *)
RECURSIVE LStrip(_), RStrip(_)
LStrip(s) == IF s # <<>> /\ Head(s) = " " THEN LStrip(Tail(s)) ELSE s
RStrip(s) == IF s # <<>> /\ s[Len(s)] = " " THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
FileName(s) == [i \in DOMAIN RStrip(LStrip(s)) |-> IF RStrip(LStrip(s))[i] = " " THEN "_" ELSE RStrip(LStrip(s))[i]]
               \o <<".", "h", "5">>
Same(a, b) == a = b \/ (a # 0 /\ b # 0 /\ T.contents[a] = T.contents[b])
Dir(e) == {<<f.file, f.content>> : f \in {e.dir[i] : i \in DOMAIN e.dir}}
SameDir(A, B) == /\ \A a \in A : \E b \in B : a[1] = b[1] /\ Same(a[2], b[2])
                 /\ \A b \in B : \E a \in A : a[1] = b[1]

Step ==
  /\ k >= 0 /\ k < Len(T.events)
  /\ LET e == T.events[k + 1]
         empty == e.op = "save" /\ mem[e.s] = 0
         name == IF e.op = "save" THEN FileName(T.names[e.s]) ELSE <<>>
         want == IF e.op = "save" /\ ~empty
                 THEN {x \in disk : x[1] # name} \cup {<<name, mem[e.s]>>} ELSE disk
         there == {x \in disk : x[1] = e.file}
     IN
     /\ bad' = bad \cup Failed(
          [completed |-> (e.op = "run" \/ (e.op = "save" /\ ~empty)) => e.outcome = "ok",
           results |-> e.op = "run" => e.mem[e.s] # 0,
           memory_kept |-> \A s \in DOMAIN mem : (e.op = "run" /\ s = e.s) \/ Same(e.mem[s], mem[s]),
           directory |-> SameDir(want, Dir(e)),
           load_rejected |-> (e.op = "load" /\ there = {}) => e.outcome = "error",
           load_equal |-> (e.op = "load" /\ there # {}) =>
                            /\ e.outcome = "ok"
                            /\ \A x \in there : Same(e.got, x[2])])
     /\ mem' = e.mem
     /\ disk' = want
     /\ k' = k + 1
  /\ UNCHANGED tr
Finish == k = Len(T.events) /\ k' = -1 /\ UNCHANGED <<tr, mem, disk, bad>> /\ Verdict(tr, k, bad)
Spec == Init /\ [][Step \/ Finish]_vars
=============================================================================
