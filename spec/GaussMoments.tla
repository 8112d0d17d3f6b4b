---------------------------- MODULE GaussMoments ----------------------------
(***************************************************************************)
(* Raw moments of a scalar Gaussian with mean m and variance s, by Stein's *)
(* recursion  E[x^n] = m E[x^(n-1)] + (n-1) s E[x^(n-2)],  and their       *)
(* derivatives (Bonnet: d/dm E[h] = E[h'];  Price: d/ds E[h] = E[h'']/2).  *)
(***************************************************************************)
EXTENDS HPReal

RECURSIVE MomTab(_, _, _, _)
MomTab(m, s, n, tab) ==           \* tab[i] = E[x^(i-1)], up to order n
  IF Len(tab) > n THEN tab
  ELSE LET i == Len(tab) IN      \* next order
       MomTab(m, s, n, Append(tab,
         IF i = 1 THEN RAdd(m, 0)
         ELSE RAdd(RMul(m, tab[i]), RMul(i - 1, RMul(s, tab[i - 1])))))
Moments(m, s, n) == MomTab(m, s, n, <<"1">>)
Mom(tab, n)   == tab[n + 1]
MomDm(tab, n) == RMul(n, Mom(tab, n - 1))
MomDs(tab, n) == IF n < 2 THEN "0" ELSE RMul((n * (n - 1)) \div 2, Mom(tab, n - 2))

(* Expectation of the polynomial p[1] + p[2] x + p[3] x^2 + ...            *)
PolyE(p, tab) == RDot(p, SubSeq(tab, 1, Len(p)))
PolyMul(p, q) == TLCEval([k \in 1..(Len(p) + Len(q) - 1) |->
  RSum([i \in 1..k |-> IF i <= Len(p) /\ k + 1 - i <= Len(q)
                       THEN RMul(p[i], q[k + 1 - i]) ELSE "0"])])
PolyD(p) == IF Len(p) = 1 THEN <<"0">> ELSE [i \in 1..(Len(p) - 1) |-> RMul(i, p[i + 1])]
PolyAbs(p) == [i \in 1..Len(p) |-> RAbs(p[i])]
=============================================================================
