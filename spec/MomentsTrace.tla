---------------------------- MODULE MomentsTrace ----------------------------
(* C03. One transition per order: the recorded moments of that order and   *)
(* their derivatives, for arrays (of any shape) of means and variances.                   *)
EXTENDS GaussMoments, Trace
VARIABLES tr, n, bad
vars == <<tr, n, bad>>
T == Traces[tr]
TOL == "1E-11"

Tab(i)  == Moments(T.m[i], T.s[i], 8)
TabA(i) == Moments(RAbs(T.m[i]), T.s[i], 8)   \* magnitude of the terms
AllClose(obs, spec(_), mag(_)) ==
  /\ obs.outcome = "ok" /\ DOMAIN obs.v = DOMAIN T.m /\ obs.shape = T.shape
  /\ RAllNum(obs.v)
  /\ \A i \in DOMAIN T.m : Close(obs.v[i], spec(i), mag(i), TOL)

Init == tr \in 1..NTraces /\ n = 0 /\ bad = {}
Order ==
  /\ T.kind = "moments" /\ n <= 8
  /\ LET e(i) == Mom(Tab(i), n)          ea(i) == Mom(TabA(i), n)
         dm(i) == MomDm(Tab(i), n)       dma(i) == MomDm(TabA(i), n)
         ds(i) == MomDs(Tab(i), n)       dsa(i) == MomDs(TabA(i), n)
     IN bad' = bad \cup Failed([
          moment |-> AllClose(T.mom[n + 1], e, ea),
          dm |-> n > 0 => AllClose(T.dm[n], dm, dma),
          ds |-> n > 0 => AllClose(T.ds[n], ds, dsa)])
  /\ n' = n + 1 /\ UNCHANGED tr
Finish ==
  /\ n = 9 \/ (T.kind # "moments" /\ n = 0)
  /\ n' = 10 /\ UNCHANGED tr
  /\ bad' = bad \cup Failed([inputs_kept |-> T.kind = "moments" => T.inputs_kept,
                             rejected |-> T.kind = "reject" => T.outcome = "error"])
  /\ Verdict(tr, n, bad')
Spec == Init /\ [][Order \/ Finish]_vars
=============================================================================
