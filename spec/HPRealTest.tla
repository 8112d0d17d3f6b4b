----------------------------- MODULE HPRealTest -----------------------------
(* The primitives of HPReal against TLC's integer arithmetic.              *)
EXTENDS HPReal, TLC
I == -12..12
ASSUME \A a, b \in I : REq(RAdd(a, b), a + b) /\ REq(RSub(a, b), a - b)
ASSUME \A a, b \in I : REq(RMul(a, b), a * b)
ASSUME \A a, b \in I : b # 0 => REq(RMul(RDiv(a * b, b), 1), a)
ASSUME \A a, b \in I : (RLt(a, b) <=> a < b) /\ (RLe(a, b) <=> a <= b)
ASSUME \A a \in I : REq(RNeg(a), -a) /\ REq(RAbs(a), IF a < 0 THEN -a ELSE a)
ASSUME \A a \in 0..40 : REq(RSqrt(a * a), a)
ASSUME \A a, b \in 1..12 : Close(RLog(a * b), RAdd(RLog(a), RLog(b)), 1, "1E-57")
ASSUME Close(RLog("2.71828182845904523536028747135266249775724709369995"), 1, 1, "1E-49")
ASSUME Close(RLog("6.28318530717958647692528676655900576839433879875021"), LOG2PI, 1, "1E-48")
ASSUME \A a \in -30..30 : RFloor(RDiv(a, 4)) = a \div 4
ASSUME REq(RSum(<<1, "2", "3.5">>), "6.5") /\ REq(RDot(<<1, 2>>, <<3, "0.5">>), 4)
ASSUME RAllNum(<<"1", <<"1e-5", "-2E+300">>>>) /\ ~RAllNum(<<"1", "nan">>) /\ ~RAllNum("inf")
A3 == << <<4, 2, 1>>, <<2, 5, 3>>, <<1, 3, 6>> >>
ASSUME MClose(MatMul(Cholesky(A3), MT(Cholesky(A3))), A3, 1, "1E-55")
ASSUME MClose(MatMul(SpdInv(A3), A3), MEye(3), 1, "1E-55")
ASSUME Close(LogDet(A3), RLog(67), 1, "1E-55")   \* det = 67
ASSUME Cholesky(<< <<1, 2>>, <<2, 1>> >>) = <<>>
(* The operators implemented in Java against their definitions.            *)
dVAdd(u, v)   == [i \in 1..Len(u) |-> RAdd(u[i], v[i])]
dVSub(u, v)   == [i \in 1..Len(u) |-> RSub(u[i], v[i])]
dVScale(c, u) == [i \in 1..Len(u) |-> RMul(c, u[i])]
dMT(A)        == [j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]]
dMatVec(A, v) == [i \in 1..Len(A) |-> RDot(A[i], v)]
dMatMul(A, B) == LET C == dMT(B) IN [i \in 1..Len(A) |-> [j \in 1..Len(C) |-> RDot(A[i], C[j])]]
B3 == << <<1, -2, 3>>, <<"0.5", 5, -6>>, <<7, 8, "-9.25">> >>
B2 == << <<1, -2>>, <<3, 4>>, <<5, "6.5">> >>
ASSUME VAdd(A3[1], B3[2]) = dVAdd(A3[1], B3[2]) /\ VSub(A3[1], B3[2]) = dVSub(A3[1], B3[2])
ASSUME VScale("-1.5", B3[3]) = dVScale("-1.5", B3[3]) /\ MT(B2) = dMT(B2) /\ MT(<<>>) = <<>>
ASSUME MAdd(A3, B3) = [i \in 1..3 |-> dVAdd(A3[i], B3[i])] /\ MSub(A3, B3) = [i \in 1..3 |-> dVSub(A3[i], B3[i])]
ASSUME MScale(3, B3) = [i \in 1..3 |-> dVScale(3, B3[i])] /\ MatVec(B3, A3[2]) = dMatVec(B3, A3[2])
ASSUME MatMul(A3, B2) = dMatMul(A3, B2) /\ MatMul(B3, A3) = dMatMul(B3, A3)
ASSUME Outer(A3[1], B3[2]) = [i \in 1..3 |-> dVScale(A3[1][i], B3[2])]
ASSUME REq(VMaxAbs(B3[2]), 6) /\ REq(MMaxAbs(B3), "9.25") /\ REq(VMaxAbs(<<>>), 0)
A4 == << <<"4.5", 2, 1, "-0.25">>, <<2, 5, 3, 0>>, <<1, 3, 6, 1>>, <<"-0.25", 0, 1, 2>> >>
ASSUME MClose(Cholesky(A4), CholCols(A4, MZero(4), 1), 1, "1E-57") /\ CholCols(<< <<1, 2>>, <<2, 1>> >>, MZero(2), 1) = <<>>
ASSUME MClose(LowerInv(Cholesky(A4)), MT([j \in 1..4 |-> FwdSub(Cholesky(A4), MEye(4)[j], <<>>)]), 1, "1E-57")
ASSUME REq(TrMul(A3, B3), Trace(dMatMul(A3, B3)))
=============================================================================
