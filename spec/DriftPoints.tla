---------------------------- MODULE DriftPoints ----------------------------
(***************************************************************************)
(* The contribution of one grid point to the drift energy of a model: W is *)
(* the inverse system noise, q the quadratic drift (several dimensions).   *)
(***************************************************************************)
EXTENDS DriftEnergy, SigmaPoints

(* What one grid point contributes: density e (and ed with the diagonal of *)
(* the weights), averages, sensitivities; `mag' are magnitudes.            *)
PolyPoint(model, theta, W, A, b, m, S) ==
  LET p    == DriftPoly(model, theta[1])
      gp   == GapPoly(p, A, b)
      gg   == PolyMul(gp, gp)
      mp   == GapMag(p, A, b)
      mm   == PolyMul(mp, mp)
      tab  == Moments(m, S, 6)
      tabA == Moments(RAbs(m), RAbs(S), 6)
      h    == DriftPolyTheta(model)
      w    == W[1][1]
      dg   == PolyD(gg)
      dmm  == PolyD(mm)
      half(x) == RMul(RHalf(w), x)
  IN [e   |-> half(PolyE(gg, tab)),                emag  |-> half(PolyE(mm, tabA)),
      ed  |-> half(PolyE(gg, tab)),
      f   |-> <<PolyE(p, tab)>>,                   fmag  |-> PolyE(PolyAbs(p), tabA),
      df  |-> << <<PolyE(PolyD(p), tab)>> >>,      dfmag |-> PolyE(PolyAbs(PolyD(p)), tabA),
      dm  |-> <<half(PolyE(dg, tab))>>,            dmmag |-> half(PolyE(dmm, tabA)),
      ds  |-> << <<half(RHalf(PolyE(PolyD(dg), tab)))>> >>,
      dsmag |-> half(PolyE(PolyD(dmm), tabA)),
      th  |-> <<RMul(w, PolyE(PolyMul(gp, h), tab))>>,
      thmag |-> RMul(w, PolyE(PolyMul(mp, PolyAbs(h)), tabA)),
      g2  |-> <<PolyE(gg, tab)>>, g2mag |-> PolyE(mm, tabA)]

QuadPoint(model, W, q, A, b, m, S) ==
  LET d   == Len(m)
      WD  == TLCEval(MDiag(DiagOf(W)))
      g   == GapQuad(q, A, b, m)
      eg  == EGap(g, S)
      mag == MagQuad(q, A, b, m, S)
      r   == Radius(m, S)
      wm  == VMaxAbs(DiagOf(W))
      M   == VMaxAbs(mag.v)
      G   == MMaxAbs(mag.g)
  IN [e   |-> QuadDensity(g, W, S),       emag  |-> RMul(wm, RSum([i \in 1..d |-> RSq(mag.v[i])])),
      ed  |-> QuadDensity(g, WD, S),
      f   |-> VAdd(VSub(eg, MatVec(A, m)), b),
      fmag |-> M,
      df  |-> EJac(q, m),                 dfmag |-> G,
      dm  |-> QuadDensityDm(g, WD, S),    dmmag |-> RMul(wm, RMul(2 * d, RMul(M, G))),
      ds  |-> QuadDensityDs(g, WD, S),    dsmag |-> RMul(wm, RAdd(RMul(d, RSq(G)), RMul(2 * d, M))),
      th  |-> IF model = "L63"
              THEN [i \in 1..3 |-> RMul(W[i][i], EGapLin(g, eg, S, m, i, L63Theta[i]))]
              ELSE [i \in 1..d |-> RMul(W[i][i], eg[i])],
      thmag |-> RMul(wm, RMul(M, RAdd(1, RMul(2, VMaxAbs(r))))),
      g2  |-> [i \in 1..d |-> EGapPair(g, eg, S, i, i)], g2mag |-> RSum([i \in 1..d |-> RSq(mag.v[i])])]

(* Lorenz 96: averages are exact, the energy and its sensitivities use the *)
(* sigma points x_p with weights w_p: with q_p = sum_i W_ii g_i(x_p)^2,    *)
(*   e = 1/2 sum w_p q_p,   de/dm = 1/2 sum w_p q_p S^-1 (x_p - m),        *)
(*   de/dS = 1/4 sum w_p q_p (S^-1 (x_p-m)(x_p-m)' S^-1 - S^-1).           *)
SigmaPoint(W, q, A, b, m, S) ==
  LET d    == Len(m)
      eg   == EGap(GapQuad(q, A, b, m), S)
      mag  == MagQuad(q, A, b, m, S)
      xs   == SigmaPts(m, S)
      ws   == TLCEval(SigmaW(d))
      gs   == TLCEval([p \in 1..Len(xs) |-> VSub(VAdd(QuadAt(q, xs[p]), MatVec(A, xs[p])), b)])
      sq   == TLCEval([p \in 1..Len(xs) |-> [i \in 1..d |-> RSq(gs[p][i])]])
      qs   == TLCEval([p \in 1..Len(xs) |-> RDot(DiagOf(W), sq[p])])
      wq   == TLCEval([p \in 1..Len(xs) |-> RMul(ws[p], qs[p])])
      iS   == TLCEval(SpdInv(S))
      us   == TLCEval([p \in 1..Len(xs) |-> MatVec(iS, VSub(xs[p], m))])
      e    == RHalf(RSum(wq))
      big  == RSum([i \in 1..Len(wq) |-> RMul(wq[i], RAdd(1, VMaxAbs(us[i])))])
  IN [e   |-> e, ed |-> e,                emag  |-> RAdd(e, 0),
      f   |-> VAdd(VSub(eg, MatVec(A, m)), b),  fmag |-> VMaxAbs(mag.v),
      df  |-> EJac(q, m),                 dfmag |-> MMaxAbs(mag.g),
      dm  |-> VScale("0.5", VSum([p \in 1..Len(xs) |-> VScale(wq[p], us[p])], d)),
      dmmag |-> RMul(big, RAdd(1, RMul(VMaxAbs(m), MMaxAbs(iS)))),
      ds  |-> MScale("0.25", MSum([p \in 1..Len(xs) |->
                 MScale(wq[p], MSub(Outer(us[p], us[p]), iS))], d)),
      dsmag |-> RSum([i \in 1..Len(wq) |-> RMul(wq[i], RSum(<<1, MMaxAbs(iS), RSq(VMaxAbs(us[i]))>>))]),
      th  |-> [i \in 1..d |-> RMul(W[i][i], eg[i])],
      thmag |-> RMul(VMaxAbs(DiagOf(W)), VMaxAbs(mag.v)),
      g2  |-> WMean(ws, sq),  g2mag |-> VMaxAbs(WMean(ws, sq))]

(* Only the averages (large Lorenz-96 systems).                            *)
AveragesPoint(theta, m, S) ==
  LET d == Len(m)
      top == RMul(4, RAdd(RSq(VMaxAbs(m)), MMaxAbs(S)))
  IN [f |-> L96Mean(theta, m, S), fmag |-> RAdd(top, VMaxAbs(theta)),
      df |-> L96Jac(m),           dfmag |-> RAdd(1, RMul(2, VMaxAbs(m)))]

ModelQuad(model, theta, d) ==
  IF model \in {"DW", "OU"} THEN <<>> ELSE DriftQuad(model, theta, d)
EnergyPoint(model, theta, W, q, A, b, m, S) ==
  IF model = "L96" THEN SigmaPoint(W, q, A, b, m, S)
  ELSE IF model = "L63" THEN QuadPoint(model, W, q, A, b, m, S)
  ELSE PolyPoint(model, theta, W, A[1][1], b[1], m[1], S[1][1])
=============================================================================
