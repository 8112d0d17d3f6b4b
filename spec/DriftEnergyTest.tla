-------------------------- MODULE DriftEnergyTest --------------------------
(* The quadratic-form identities against polynomial expectations in one    *)
(* dimension and along a line in two dimensions, in exact integers.        *)
EXTENDS DriftEnergy, TLC
I == -2..2
(* g = a + B y + q y^2 in one dimension, y ~ N(0, s).                      *)
ASSUME \A a, B, q, a2, B2, q2 \in {-2, 0, 1}, s \in {1, 3} :
  LET g == [a |-> <<a, a2>>, B |-> << <<B>>, <<B2>> >>, Q |-> << << <<q>> >>, << <<q2>> >> >>]
      S == << <<s>> >>
      e == EGap(g, S)
      tab == Moments(0, s, 4)
      pp == PolyMul(<<a, B, q>>, <<a2, B2, q2>>)
  IN /\ REq(EGapPair(g, e, S, 1, 2), PolyE(pp, tab))
     /\ REq(EGapPairDm(g, e, S, 1, 2)[1], PolyE(PolyD(pp), tab))
     /\ REq(EGapPairDs(g, e, S, 1, 2)[1][1], RHalf(PolyE(PolyD(PolyD(pp)), tab)))
(* Along u = (1, 2) in two dimensions: y'u ~ N(0, u'Su).                   *)
U == <<1, 2>>
S2 == << <<3, -1>>, <<-1, 2>> >>
ASSUME \A a, B, q \in I :
  LET g == [a |-> <<a>>, B |-> <<VScale(B, U)>>, Q |-> <<MScale(q, Outer(U, U))>>]
      e == EGap(g, S2)
      tab == Moments(0, RDot(U, MatVec(S2, U)), 4)
      pp == PolyMul(<<a, B, q>>, <<a, B, q>>)
  IN /\ REq(EGapPair(g, e, S2, 1, 1), PolyE(pp, tab))
     /\ VClose(EGapPairDm(g, e, S2, 1, 1), VScale(PolyE(PolyD(pp), tab), U), 1, "1E-50")
     /\ MClose(EGapPairDs(g, e, S2, 1, 1),
               MScale(RHalf(PolyE(PolyD(PolyD(pp)), tab)), Outer(U, U)), 1, "1E-50")
(* The Lorenz drifts at integer states.                                    *)
ASSUME LET f == QuadAt(DriftQuad("L63", <<10, 28, 3>>, 3), <<1, 2, 3>>)
       IN REq(f[1], 10) /\ REq(f[2], 1 * (28 - 3) - 2) /\ REq(f[3], 2 - 9)
ASSUME \A d \in {10, 11} :
  LET x == [i \in 1..d |-> ((i * i) % 7) - 3]
      f == QuadAt(DriftQuad("L96", <<8>>, d), x)
  IN \A i \in 1..d :
       REq(f[i], (x[IF i = d THEN 1 ELSE i + 1] - x[IF i <= 2 THEN i + d - 2 ELSE i - 2])
                  * x[IF i = 1 THEN d ELSE i - 1] - x[i] + 8)
(* The averages written out against those of the general quadratic form.   *)
ASSUME \A d \in {10, 13} :
  LET m == [i \in 1..d |-> ((i * i) % 7) - 3]
      S == [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN 9 ELSE ((i * j) % 5) - 2]]
      Th == [i \in 1..d |-> i]
      q == DriftQuad("L96", Th, d)
      e == EGap(GapQuad(q, MZero(d), VZero(d), m), S)
  IN /\ VClose(L96Mean(Th, m, S), e, 1, "1E-50")
     /\ MClose(L96Jac(m), EJac(q, m), 1, "1E-50")
=============================================================================
