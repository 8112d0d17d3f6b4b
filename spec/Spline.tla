------------------------------- MODULE Spline -------------------------------
(***************************************************************************)
(* The cubic spline through knots (t_i, y_i) with not-a-knot ends: the     *)
(* unique piecewise cubic function with continuous first and second        *)
(* derivatives that interpolates, and whose third derivative is also       *)
(* continuous at the second and the last but one knot. Its second          *)
(* derivatives M_i at the knots solve a linear system. With three knots it *)
(* is the parabola, with two the straight line.                            *)
(***************************************************************************)
EXTENDS HPReal
(* Gaussian elimination with partial pivoting on the augmented rows.       *)
RECURSIVE Elim(_, _), Back(_, _, _)
PivotRow(R, c) == CHOOSE i \in c..Len(R) : \A j \in c..Len(R) : RLe(RAbs(R[j][c]), RAbs(R[i][c]))
Elim(R, c) ==
  IF c > Len(R) THEN R
  ELSE LET p == PivotRow(R, c)
           S == TLCEval([i \in 1..Len(R) |-> IF i = c THEN R[p] ELSE IF i = p THEN R[c] ELSE R[i]])
           E == TLCEval([i \in 1..Len(R) |-> IF i <= c \/ REq(S[i][c], 0) THEN S[i]
                   ELSE VSub(S[i], VScale(RDiv(S[i][c], S[c][c]), S[c]))])
       IN Elim(E, c + 1)
Back(R, i, x) ==       \* x holds the solutions i+1..n
  IF i = 0 THEN x
  ELSE LET n == Len(R)
           s == RSum([j \in 1..Len(x) |-> RMul(R[i][i + j], x[j])])
       IN Back(R, i - 1, <<RDiv(RSub(R[i][n + 1], s), R[i][i])>> \o x)
Solve(R) == LET E == TLCEval(Elim(R, 1)) IN Back(E, Len(R), <<>>)

Moments2(t, y) ==      \* the second derivatives at the knots
  LET n == Len(t)
      h == TLCEval([i \in 1..(n - 1) |-> RSub(t[i + 1], t[i])])
      s == TLCEval([i \in 1..(n - 1) |-> RDiv(RSub(y[i + 1], y[i]), h[i])])
      row(i) == [j \in 1..(n + 1) |->
        IF i = 1 THEN       \* third derivative continuous at knot 2
          IF j = 1 THEN h[2] ELSE IF j = 2 THEN RNeg(RAdd(h[1], h[2])) ELSE IF j = 3 THEN h[1] ELSE "0"
        ELSE IF i = n THEN
          IF j = n THEN h[n - 2] ELSE IF j = n - 1 THEN RNeg(RAdd(h[n - 1], h[n - 2]))
          ELSE IF j = n - 2 THEN h[n - 1] ELSE "0"
        ELSE IF j = i - 1 THEN h[i - 1] ELSE IF j = i THEN RMul(2, RAdd(h[i - 1], h[i]))
        ELSE IF j = i + 1 THEN h[i]
        ELSE IF j = n + 1 THEN RMul(6, RSub(s[i], s[i - 1])) ELSE "0"]
  IN IF n = 2 THEN <<"0", "0">>
     ELSE IF n = 3 THEN LET c == RDiv(RMul(2, RSub(s[2], s[1])), RAdd(h[1], h[2])) IN <<c, c, c>>
     ELSE Solve(TLCEval([i \in 1..n |-> TLCEval(row(i))]))

(* The value at x, given the second derivatives M.                         *)
SplineAt(t, y, M, x) ==
  LET n == Len(t)
      I == {j \in 1..(n - 1) : RLe(t[j], x)}
      i == IF I = {} THEN 1 ELSE CHOOSE j \in I : \A l \in I : l <= j
      h == RSub(t[i + 1], t[i])
      a == RDiv(RSub(t[i + 1], x), h)
      b == RDiv(RSub(x, t[i]), h)
      cube(u) == RMul(RSub(RMul(u, RSq(u)), u), RDiv(RSq(h), 6))
  IN RSum(<<RMul(a, y[i]), RMul(b, y[i + 1]), RMul(cube(a), M[i]), RMul(cube(b), M[i + 1])>>)
=============================================================================
