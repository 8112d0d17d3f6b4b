---------------------------- MODULE EvalHistory ----------------------------
(***************************************************************************)
(* C11, the design. Variational objects are asked for free energies and    *)
(* gradients of points. The only memory of an object that matters is the   *)
(* point it evaluated last: it is what its published moments and           *)
(* multipliers belong to, and what a gradient without re-evaluation is     *)
(* based on. The results themselves are functions of the point (and the    *)
(* object's problem) alone, written F(o,x), G(o,x), P(o,x).                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Objects, Points, Depth
VARIABLES last, hist, result
vars == <<last, hist, result>>
None == 0

Init == last = [o \in Objects |-> None] /\ hist = <<>> /\ result = <<>>

Ev(op, o, x) == [op |-> op, o |-> o, x |-> x]
Do(op, o, x) ==
  /\ Len(hist) < Depth
  /\ hist' = Append(hist, Ev(op, o, x))
Energy(o, x) ==            \* free_energy(x)
  /\ Do("energy", o, x)
  /\ last' = [last EXCEPT ![o] = x]
  /\ result' = <<"F", o, x>>
GradEval(o, x) ==          \* gradient(x, eval_fun=True)
  /\ Do("gradeval", o, x)
  /\ last' = [last EXCEPT ![o] = x]
  /\ result' = <<"G", o, x>>
Grad(o, x) ==              \* gradient(x): only of the point evaluated last
  /\ last[o] = x
  /\ Do("grad", o, x)
  /\ result' = <<"G", o, last[o]>>
  /\ UNCHANGED last
Guess(o) ==                \* initialization()
  /\ Do("guess", o, None)
  /\ result' = <<"X0", o, None>>
  /\ UNCHANGED last
Next ==
  \/ \E o \in Objects, x \in Points : Energy(o, x) \/ GradEval(o, x) \/ Grad(o, x)
  \/ \E o \in Objects : Guess(o)
Spec == Init /\ [][Next]_vars

(* The result depends on the object's problem and the argument only.       *)
HistoryFree ==
  hist # <<>> => LET e == hist[Len(hist)] IN
    result = <<IF e.op = "energy" THEN "F" ELSE IF e.op = "guess" THEN "X0" ELSE "G", e.o, e.x>>
(* An object's memory is the last point evaluated on this object.          *)
LastOf(h, o) == LET I == {i \in DOMAIN h : h[i].o = o /\ h[i].op \in {"energy", "gradeval"}} IN
                IF I = {} THEN None ELSE h[CHOOSE i \in I : \A j \in I : j <= i].x
MemoryIsLast == \A o \in Objects : last[o] = LastOf(hist, o)

(* Behaviours for the implementation: without loss of generality the first *)
(* action is on object 1.                                                  *)
Emit == (Len(hist) = Depth /\ hist[1].o = 1) => PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
