----------------------------- MODULE SplineTest -----------------------------
(* Design check: the spline interpolates, reproduces cubic polynomials     *)
(* (four and more knots), parabolas (three) and lines (two), and its first *)
(* derivative is continuous at the inner knots.                            *)
EXTENDS Spline
VARIABLE k
N == 2..7
Knot(i, v) == RAdd(RMul("0.7", i), RMul("0.05", (i * i * v) % 5))
Poly(n, v, x) == LET c3 == IF n >= 4 THEN "0.3" ELSE "0"
                     c2 == IF n >= 3 THEN RSub("1.1", v) ELSE "0"
                 IN RSum(<<"0.4", RMul("-1.7", x), RMul(c2, RSq(x)), RMul(c3, RMul(x, RSq(x)))>>)
T(n, v) == TLCEval([i \in 1..n |-> Knot(i, v)])
Tiny(a, b) == RLe(RAbs(RSub(a, b)), "1E-40")
Init == k = 0
Next == k < 5 /\ k' = k + 1
Reproduces == \A n \in N :
  LET t == T(n, k)  y == TLCEval([i \in 1..n |-> Poly(n, k, t[i])])  M == TLCEval(Moments2(t, y)) IN
  \A j \in 0..20 : LET x == RAdd(t[1], RMul(RDiv(j, 20), RSub(t[n], t[1]))) IN Tiny(SplineAt(t, y, M, x), Poly(n, k, x))
Rough(n, v) == TLCEval([i \in 1..n |-> RSub(RMul("0.37", (7 * i * i * i + v * i) % 11), 2)])
Interpolates == \A n \in N : LET t == T(n, k)  y == Rough(n, k)  M == TLCEval(Moments2(t, y)) IN
  \A i \in 1..n : Tiny(SplineAt(t, y, M, t[i]), y[i])
(* One-sided slopes by the exact formula.                                  *)
SlopeLeft(t, y, M, i) == LET h == RSub(t[i], t[i-1]) IN
  RAdd(RDiv(RSub(y[i], y[i-1]), h), RMul(RDiv(h, 6), RAdd(RMul(2, M[i]), M[i-1])))
SlopeRight(t, y, M, i) == LET h == RSub(t[i+1], t[i]) IN
  RSub(RDiv(RSub(y[i+1], y[i]), h), RMul(RDiv(h, 6), RAdd(RMul(2, M[i]), M[i+1])))
Smooth == \A n \in N : LET t == T(n, k)  y == Rough(n, k)  M == TLCEval(Moments2(t, y)) IN
  \A i \in 2..(n - 1) : Tiny(SlopeLeft(t, y, M, i), SlopeRight(t, y, M, i))
NotAKnot == \A n \in N \ {2} : LET t == T(n, k)  y == Rough(n, k)  M == TLCEval(Moments2(t, y))
                             d3(i) == RDiv(RSub(M[i+1], M[i]), RSub(t[i+1], t[i])) IN
  Tiny(d3(1), d3(2)) /\ Tiny(d3(n - 1), d3(n - 2))
Spec == Init /\ [][Next]_k
=============================================================================
