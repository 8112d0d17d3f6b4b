----------------------------- MODULE ScgDesign -----------------------------
(***************************************************************************)
(* C12, the design. The optimiser against an arbitrary environment: at     *)
(* each trial the environment answers how the objective compares with the  *)
(* current value, whether the step is within tolerance, whether the        *)
(* gradient vanishes at an accepted point, and the sign of the curvature   *)
(* that the next probe shows. The optimiser's control flow is all that is  *)
(* modelled; values are integers.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxIt, Replies
VARIABLES phase, iter, cur, best0, nf, ndf, calls, rec, script, tight
vars == <<phase, iter, cur, best0, nf, ndf, calls, rec, script, tight>>
(* cur: value of the accepted point; rec: recorded values per iteration;   *)
(* nf, ndf: counters of the optimiser; calls: evaluations really made;     *)
(* tight: all steps are within the step tolerance.                         *)
Start == 100
Init ==
  /\ phase = "probe" /\ iter = 0 /\ cur = Start /\ best0 = Start
  /\ nf = 1 /\ ndf = 1 /\ calls = [f |-> 1, df |-> 1]
  /\ rec = <<>> /\ script = <<>> /\ tight \in BOOLEAN

Probe ==                    \* gradient (with function) near the point
  /\ phase = "probe" /\ iter < MaxIt
  /\ \E c \in {"up", "down"} : script' = Append(script, [at |-> "probe", say |-> c])
  /\ nf' = nf + 1 /\ ndf' = ndf + 1
  /\ calls' = [f |-> calls.f + 1, df |-> calls.df + 1]
  /\ phase' = "trial" /\ UNCHANGED <<iter, cur, best0, rec, tight>>

Value(r) == CASE r = "worse" -> cur + 10 [] r = "infinite" -> cur + 1000 [] r = "nan" -> cur + 1000
              [] r = "better" -> cur - 10 [] r = "vanish" -> cur - 10
              [] r = "equal" -> cur [] r = "slight" -> cur    \* slight: within tolerance
(* An undefined value changes nothing, so the same point is tried again.   *)
Stuck == script # <<>> /\ script[Len(script)].say = "nan"
Trial ==
  /\ phase = "trial" /\ iter < MaxIt
  /\ \E r \in IF Stuck THEN {"nan"} ELSE Replies :
     LET v == Value(r)
         accept == v <= cur
         small == tight /\ r \in {"equal", "slight"}
         again == accept /\ ~small    \* function and gradient at the new point
     IN /\ script' = Append(script, [at |-> "trial", say |-> r])
        /\ cur' = IF accept THEN v ELSE cur
        /\ rec' = Append(rec, cur')
        /\ nf'  = nf + (IF again THEN 2 ELSE 1)
        /\ ndf' = ndf + (IF again THEN 1 ELSE 0)
        /\ calls' = [f |-> calls.f + (IF again THEN 2 ELSE 1), df |-> calls.df + (IF again THEN 1 ELSE 0)]
        /\ iter' = iter + 1
        /\ phase' = IF accept /\ (small \/ r = "vanish") THEN "done"
                    ELSE IF iter' = MaxIt THEN "limit"
                    ELSE IF accept THEN "probe" ELSE "trial"
  /\ UNCHANGED <<best0, tight>>
Next == Probe \/ Trial
Spec == Init /\ [][Next]_vars

NeverWorse == cur <= best0
Monotone   == \A i \in 1..(Len(rec) - 1) : rec[i + 1] <= rec[i]
Recorded   == rec # <<>> => rec[Len(rec)] = cur
Counters   == nf = calls.f /\ ndf = calls.df
WithinLimit == iter <= MaxIt
Emit == phase \in {"done", "limit"} => PrintT("BEHAVIOUR " \o ToJson([tight |-> tight, script |-> script, iters |-> iter]))
=============================================================================
