-------------------------- MODULE GaussMomentsTest --------------------------
(* The recursion against the closed form                                   *)
(*   E[x^n] = sum_j n! / (2^j j! (n-2j)!) m^(n-2j) s^j   (in integers).     *)
EXTENDS GaussMoments, TLC
RECURSIVE Fact(_), Pow(_, _), Pow2(_), SumOver(_, _)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
Pow2(n) == Pow(2, n)
SumOver(f(_), n) == IF n < 0 THEN 0 ELSE f(n) + SumOver(f, n - 1)
Coef(n, j) == Fact(n) \div (Pow2(j) * Fact(j) * Fact(n - 2 * j))
Closed(m, s, n) == LET term(j) == Coef(n, j) * Pow(m, n - 2 * j) * Pow(s, j)
                   IN SumOver(term, n \div 2)
ASSUME \A m \in -3..3, s \in 0..4, n \in 0..8 :
         REq(Mom(Moments(m, s, 8), n), Closed(m, s, n))
(* Derivatives: the coefficient identities of the closed form.             *)
ASSUME \A n \in 1..8 : \A j \in 0..((n - 1) \div 2) : (n - 2 * j) * Coef(n, j) = n * Coef(n - 1, j)
ASSUME \A n \in 2..8 : \A j \in 1..(n \div 2) : j * Coef(n, j) = ((n * (n - 1)) \div 2) * Coef(n - 2, j - 1)
(* (1 + 2x)(3 - x) = 3 + 5x - 2x^2                                         *)
ASSUME LET p == PolyMul(<<1, 2>>, <<3, -1>>) IN REq(p[1], 3) /\ REq(p[2], 5) /\ REq(p[3], -2)
=============================================================================
