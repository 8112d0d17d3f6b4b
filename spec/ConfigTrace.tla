---------------------------- MODULE ConfigTrace ----------------------------
(***************************************************************************)
(* C20. Real calls of the program in one directory. Whether a parameter    *)
(* file has to be accepted or rejected is decided here from its values; a  *)
(* value is a record with its type t ("int", "num", "str", "null", "list", *)
(* "object", "absent") and v. Values that the documentation leaves open    *)
(* (for example too few observations) may be treated either way.           *)
(***************************************************************************)
EXTENDS HPReal, Trace
VARIABLES tr, k, disk, bad
vars == <<tr, k, disk, bad>>
T == Traces[tr]
Pairs(s) == {<<s[i].file, s[i].content>> : i \in DOMAIN s}
Init == tr \in 1..NTraces /\ k = 0 /\ bad = {} /\ disk = Pairs(Traces[tr].dir0)

Lower == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
Upper == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Up(c) == IF \E i \in 1..26 : Lower[i] = c THEN Upper[CHOOSE i \in 1..26 : Lower[i] = c] ELSE c
UpAll(s) == [i \in DOMAIN s |-> Up(s[i])]
MDW == <<"D","W">>
MOU == <<"O","U">>
ML63 == <<"L","6","3">>
ML96 == <<"L","9","6">>
Schemes == {<<"E","U","L","E","R">>, <<"H","E","U","N">>, <<"R","K","2">>, <<"R","K","4">>}

Sections == {"Output_Name", "Model", "Ode-method", "Time-window", "Noise", "Observations", "Drift", "Prior", "Random-Seed"}
Num(x) == x.t \in {"int", "num"}
Pos(x) == Num(x) /\ RPos(x.v)
NumList(x, len) == x.t = "list" /\ Len(x.v) = len /\ \A i \in DOMAIN x.v : Num(x.v[i])
PosList(x, len) == NumList(x, len) /\ \A i \in DOMAIN x.v : Pos(x.v[i])

Model(c)  == IF c.Model.t = "str" THEN UpAll(c.Model.v) ELSE <<>>
Known(c)  == Model(c) \in {MDW, MOU, ML63, ML96}
Scheme(c) == c.Method.t = "str" /\ UpAll(c.Method.v) \in Schemes
Dim(c)    == IF Model(c) = ML63 THEN 3 ELSE IF Model(c) = ML96 THEN 40 ELSE 1
Lorenz(c) == Dim(c) > 1
Complete(c) == c.file = "object" /\ \A s \in Sections : \E i \in DOMAIN c.sections : c.sections[i] = s

(* good(x): has to be accepted; wrong(x): has to be rejected.              *)
GoodSys(c)  == Pos(c.sys) \/ (Lorenz(c) /\ PosList(c.sys, Dim(c)))
WrongSys(c) == ~GoodSys(c) /\ (c.sys.t # "list" \/ Lorenz(c))
GoodObs(c)  == Pos(c.obs) \/ (Lorenz(c) /\ PosList(c.obs, Dim(c)))
WrongObs(c) == ~GoodObs(c) /\ (c.obs.t # "list" \/ Lorenz(c))
GoodTheta(c) == CASE Model(c) = ML63 -> NumList(c.theta, 3)
                  [] Model(c) = MOU -> Pos(c.theta)
                  [] OTHER -> Num(c.theta)
WrongTheta(c) == ~GoodTheta(c) /\ (c.theta.t # "list" \/ Model(c) = ML63)
GoodMu(c)  == Num(c.mu0) \/ (Lorenz(c) /\ NumList(c.mu0, Dim(c)))
WrongMu(c) == ~Num(c.mu0) /\ c.mu0.t # "list"
GoodTau(c) == Pos(c.tau0)
WrongTau(c) == ~Pos(c.tau0) /\ c.tau0.t # "list"
GoodSeed(c) == c.seed.t = "int" /\ RLe(0, c.seed.v)
WrongSeed(c) == c.seed.t \in {"str", "num"} \/ (c.seed.t = "int" /\ RLt(c.seed.v, 0))
Window(c)  == Num(c.t0) /\ Num(c.tf) /\ Pos(c.dt)
Length(c)  == RSub(c.tf.v, c.t0.v)
GoodWindow(c)  == Window(c) /\ RLe(RMul("2.999999", c.dt.v), Length(c))
WrongWindow(c) == ~Window(c) \/ ~RPos(Length(c))
GoodDensity(c) == /\ Pos(c.density) /\ RLt(RMul(c.density.v, c.dt.v), "0.999999")
                  /\ RLe(1, RSub(RMul(c.density.v, Length(c)), "1E-9"))
WrongDensity(c) == \/ ~Pos(c.density)
                   \/ (Window(c) /\ RLt("1.000001", RMul(c.density.v, c.dt.v)))
GoodMask(c) == \/ c.oper.t = "null"
               \/ Lorenz(c) /\ c.oper.t = "mask" /\ Len(c.oper.v) = Dim(c) /\ \E i \in DOMAIN c.oper.v : c.oper.v[i] = 1
GoodName(c) == c.out.t = "null" \/ (c.out.t = "str" /\ \E i \in DOMAIN c.out.v : c.out.v[i] # " ")
RECURSIVE LStrip(_), RStrip(_)
LStrip(s) == IF s # <<>> /\ Head(s) = " " THEN LStrip(Tail(s)) ELSE s
RStrip(s) == IF s # <<>> /\ s[Len(s)] = " " THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
FileName(s) == [i \in DOMAIN RStrip(LStrip(s)) |-> IF RStrip(LStrip(s))[i] = " " THEN "_" ELSE RStrip(LStrip(s))[i]]
               \o <<".", "h", "5">>
ResultName(c) == FileName(IF c.out.t = "null" THEN <<"S","i","m","_","0","0">> ELSE c.out.v)

(* A name that the file system may refuse: the call may fail, but if it    *)
(* does not, the file has to be there.                                     *)
PlainName(c) == /\ GoodName(c)
                /\ \/ c.out.t = "null"
                   \/ /\ Len(c.out.v) <= 200 /\ \A i \in DOMAIN c.out.v : c.out.v[i] # "/"
                      /\ \A i \in DOMAIN T.folders : T.folders[i] # ResultName(c)

MustAccept(c) == /\ Complete(c) /\ Known(c) /\ Scheme(c) /\ PlainName(c) /\ GoodSys(c) /\ GoodObs(c) /\ GoodTheta(c)
                 /\ GoodMu(c) /\ GoodTau(c) /\ GoodSeed(c) /\ GoodWindow(c) /\ GoodDensity(c) /\ GoodMask(c)
MustReject(c) == \/ ~Complete(c)
                 \/ Complete(c) /\ \/ ~Known(c) \/ ~Scheme(c) \/ WrongSys(c) \/ WrongObs(c) \/ WrongTheta(c)
                                   \/ WrongMu(c) \/ WrongTau(c) \/ WrongSeed(c) \/ WrongWindow(c) \/ WrongDensity(c)

(* What the result file of an accepted call has to contain: every result,  *)
(* finite, on the configured grid, started from the configured seed.       *)
Result(c, r) ==
  LET n == r.n IN
  /\ r.readable /\ r.finite
  /\ \A s \in {"at", "bt", "mt", "st", "Efx", "Edf", "lamt", "psit", "fx", "m0", "s0"} : \E i \in DOMAIN r.names : r.names[i] = s
  /\ RLe(RAbs(RSub(n - 1, RDiv(Length(c), c.dt.v))), "1.000001")
  /\ r.shapes = (IF Lorenz(c) THEN <<<<n, Dim(c), Dim(c)>>, <<n, Dim(c)>>, <<n, Dim(c)>>, <<n, Dim(c), Dim(c)>>>>
                              ELSE <<<<n>>, <<n>>, <<n>>, <<n>>>>)
  /\ RAllNum(<<r.m0, r.fx, r.want_m0, r.want_fx>>)
  /\ Len(r.m0) = Dim(c) /\ VClose(r.m0, r.want_m0, "1", "1E-9")
  /\ RLe(r.fx, RAdd(r.want_fx, RMul("1E-9", RAdd(1, RAbs(r.want_fx)))))

SameButName(a, b) == [a EXCEPT !.out = b.out] = b

Step ==
  /\ k >= 0 /\ k < Len(T.calls)
  /\ LET e == T.calls[k + 1]
         c == e.config
         zero == e.status = 0
         now == Pairs(e.dir)
         new == {x \in now : x \notin disk}
         named == {x \in now : x[1] = ResultName(c)}
     IN
     /\ bad' = bad \cup Failed(
          [accepted |-> MustAccept(c) => zero,
           rejected |-> MustReject(c) => ~zero,
           nothing_written |-> ~zero => now = disk,
           one_file |-> (zero /\ Complete(c) /\ GoodName(c)) =>
              /\ named # {} /\ new \subseteq named
              /\ {x \in disk : x[1] # ResultName(c)} = {x \in now : x[1] # ResultName(c)},
           \* observations from a file are not the simulated ones: the same
           \* configuration without the file ended at another value
           uses_data |-> (zero /\ e.data /\ e.result.readable) =>
              \A i \in 1..k : (T.calls[i].status = 0 /\ ~T.calls[i].data /\ SameButName(T.calls[i].config, c))
                 => ~Close(e.result.fx, T.calls[i].result.fx, "1", "1E-9"),
           result |-> (zero /\ MustAccept(c) /\ ~e.data) => Result(c, e.result)])
     /\ disk' = now
     /\ k' = k + 1
  /\ UNCHANGED tr
Finish == k = Len(T.calls) /\ k' = -1 /\ UNCHANGED <<tr, disk, bad>> /\ Verdict(tr, k, bad)
Spec == Init /\ [][Step \/ Finish]_vars
=============================================================================
