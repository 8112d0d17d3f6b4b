------------------------------- MODULE HPReal -------------------------------
(***************************************************************************)
(* Real numbers for TLC. A number is a decimal string ("0.1", "-3E-7") or  *)
(* a TLC integer. The primitive operators below have the meaning of their  *)
(* names on the real numbers and are evaluated by java/vgpa/HPReal.java    *)
(* with results rounded to 60 significant digits (TLC's own integers have  *)
(* 32 bits). Everything else (vectors, matrices, factorisations) is        *)
(* defined here in TLA+ from the primitives. For speed the operators marked *)
(* [J] are also implemented in Java; HPRealTest.tla checks them against    *)
(* copies of these definitions, and the primitives against TLC's integers. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RAdd(a, b) == CHOOSE r \in STRING : TRUE   \* a + b
RSub(a, b) == CHOOSE r \in STRING : TRUE   \* a - b
RMul(a, b) == CHOOSE r \in STRING : TRUE   \* a * b
RDiv(a, b) == CHOOSE r \in STRING : TRUE   \* a / b
RNeg(a)    == CHOOSE r \in STRING : TRUE   \* -a
RAbs(a)    == CHOOSE r \in STRING : TRUE   \* |a|
RLt(a, b)  == CHOOSE r \in BOOLEAN : TRUE  \* a < b
RLe(a, b)  == CHOOSE r \in BOOLEAN : TRUE  \* a <= b
RSqrt(a)   == CHOOSE r \in STRING : TRUE   \* the square root of a >= 0
RLog(a)    == CHOOSE r \in STRING : TRUE   \* the natural logarithm of a > 0
RFloor(a)  == CHOOSE r \in Int : TRUE      \* the largest integer <= a
RSum(u)    == CHOOSE r \in STRING : TRUE   \* the sum of a sequence
RDot(u, v) == CHOOSE r \in STRING : TRUE   \* the inner product of two sequences
RAllNum(v) == CHOOSE r \in BOOLEAN : TRUE  \* every leaf of v is a finite number

RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RSq(a)     == RMul(a, a)
RHalf(a)   == RMul("0.5", a)
RPos(a)    == RLt(0, a)
REq(a, b)  == RLe(a, b) /\ RLe(b, a)
LOG2PI     == "1.83787706640934548356065947281123527972279494727556682563430"

RECURSIVE RPow(_, _)
RPow(a, n) == IF n = 0 THEN "1" ELSE RMul(a, RPow(a, n - 1))

(* Vectors are sequences of numbers, matrices sequences of rows.           *)
(* [J]: VAdd VSub VScale MAdd MSub MScale MT MatVec MatMul Outer TrMul     *)
(*      VMaxAbs MMaxAbs Cholesky LowerInv                                  *)
VAdd(u, v)   == [i \in 1..Len(u) |-> RAdd(u[i], v[i])]
VSub(u, v)   == [i \in 1..Len(u) |-> RSub(u[i], v[i])]
VScale(c, u) == [i \in 1..Len(u) |-> RMul(c, u[i])]
VZero(d)     == [i \in 1..d |-> "0"]
MAdd(A, B)   == [i \in 1..Len(A) |-> VAdd(A[i], B[i])]
MSub(A, B)   == [i \in 1..Len(A) |-> VSub(A[i], B[i])]
MScale(c, A) == [i \in 1..Len(A) |-> VScale(c, A[i])]
MZero(d)     == [i \in 1..d |-> VZero(d)]
MEye(d)      == [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN "1" ELSE "0"]]
MDiag(v)     == [i \in 1..Len(v) |-> [j \in 1..Len(v) |-> IF i = j THEN v[i] ELSE "0"]]
DiagOf(A)    == [i \in 1..Len(A) |-> A[i][i]]
MT(A)        == IF Len(A) = 0 THEN <<>>
                ELSE [j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]]
MatVec(A, v) == [i \in 1..Len(A) |-> RDot(A[i], v)]
MatMul(A, B) == LET C == MT(B) IN
                [i \in 1..Len(A) |-> [j \in 1..Len(C) |-> RDot(A[i], C[j])]]
Outer(u, v)  == [i \in 1..Len(u) |-> VScale(u[i], v)]
Trace(A)     == RSum(DiagOf(A))
(* tr(A * B)                                                               *)
TrMul(A, B)  == LET C == MT(B) IN RSum([i \in 1..Len(A) |-> RDot(A[i], C[i])])
Symmetric(A) == \A i, j \in 1..Len(A) : REq(A[i][j], A[j][i])

(* The lower Cholesky factor, column by column; <<>> if A is not positive  *)
(* definite.                                                               *)
RECURSIVE CholCols(_, _, _)
CholCols(A, L, j) ==
  IF j > Len(A) THEN L
  ELSE LET d   == Len(A)
           pre(i) == [k \in 1..(j-1) |-> L[i][k]]
           djj == RSub(A[j][j], RDot(pre(j), pre(j)))
       IN IF ~RPos(djj) THEN <<>>
          ELSE LET ljj == RSqrt(djj)
                   L2  == TLCEval([i \in 1..d |-> [k \in 1..d |->
                             IF k # j THEN L[i][k]
                             ELSE IF i < j THEN "0"
                             ELSE IF i = j THEN ljj
                             ELSE RDiv(RSub(A[i][j], RDot(pre(i), pre(j))), ljj)]])
               IN CholCols(A, L2, j + 1)
Cholesky(A) == CholCols(A, MZero(Len(A)), 1)

LogDet(A) == LET L == Cholesky(A) IN
             RMul(2, RSum([i \in 1..Len(A) |-> RLog(L[i][i])]))

(* Solution of L * x = b for a lower triangular L, as a sequence.          *)
RECURSIVE FwdSub(_, _, _)
FwdSub(L, b, x) ==
  IF Len(x) = Len(b) THEN x
  ELSE LET i == Len(x) + 1 IN
       FwdSub(L, b, Append(x, RDiv(RSub(b[i], RDot(SubSeq(L[i], 1, i - 1), x)), L[i][i])))

(* The inverse of a lower triangular matrix (columns by substitution).     *)
LowerInv(L) == MT(TLCEval([j \in 1..Len(L) |-> FwdSub(L, TLCEval(MEye(Len(L)))[j], <<>>)]))

(* The inverse of a symmetric positive definite matrix.                    *)
SpdInv(A) == LET C == LowerInv(Cholesky(A)) IN MatMul(MT(C), C)

(***************************************************************************)
(* Comparison of an observed number with the specified one. `scale' is the *)
(* magnitude of the terms that were added up to produce the number; the    *)
(* implementation computes in binary64, the specification exactly.         *)
(***************************************************************************)
Close(obs, spec, scale, tol) ==
  RLe(RAbs(RSub(obs, spec)), RMul(tol, RMax(scale, RAbs(spec))))
VMaxAbs(u) == LET S == {RAbs(u[i]) : i \in 1..Len(u)} IN
              IF S = {} THEN "0" ELSE CHOOSE x \in S : \A y \in S : RLe(y, x)
MMaxAbs(A) == VMaxAbs([i \in 1..Len(A) |-> VMaxAbs(A[i])])
VClose(obs, spec, scale, tol) ==
  /\ DOMAIN obs = DOMAIN spec
  /\ \A i \in DOMAIN spec : Close(obs[i], spec[i], scale, tol)
MClose(obs, spec, scale, tol) ==
  /\ DOMAIN obs = DOMAIN spec
  /\ \A i \in DOMAIN spec : VClose(obs[i], spec[i], scale, tol)

IsVec(v, d)    == /\ DOMAIN v = 1..d
IsMat(A, r, c) == /\ DOMAIN A = 1..r
                  /\ \A i \in 1..r : DOMAIN A[i] = 1..c
=============================================================================
