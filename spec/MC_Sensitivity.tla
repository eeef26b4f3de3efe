---------------------------- MODULE MC_Sensitivity -------------------------
EXTENDS SensitivityModel, Json, IOUtils

Suites == JsonDeserialize(IOEnv.LRVB_SUITES)
VARIABLES sid, st, last, step
vars == <<sid, st, last, step>>
Ob(s) == Suites[s].ob

Init ==
  /\ sid \in 1..Len(Suites)
  /\ st = AtBase(Ob(sid), Suites[sid].b, Suites[sid].hess)
  /\ last = 0
  /\ step = 0
  /\ PrintT("@@" \o ToJson([s |-> sid, i |-> 0, h |-> st,
        bases |-> Tab(Len(Ob(sid).bases), LAMBDA i :
           [vi |-> FreeToVec(Ob(sid).ci, Ob(sid).bases[i].xi),
            vh |-> FreeToVec(Ob(sid).ch, Ob(sid).bases[i].xh),
            hess |-> HessAt(Ob(sid), Ob(sid).bases[i])])]))

Do(k) ==
  LET op == Suites[sid].ops[k]
      nst == SAfter(Ob(sid), st, op)
  IN /\ st' = nst
     /\ last' = k
     /\ step' = IF Suites[sid].mode = "script" THEN step + 1 ELSE 0
     /\ UNCHANGED sid
     /\ PrintT("@@" \o ToJson([s |-> sid, l |-> last, p |-> st, k |-> k,
                               r |-> SResult(Ob(sid), nst, op), h |-> nst,
                               vh |-> IF op.op \in {"predict", "predict_out", "predict_out_lin", "move"}
                                      THEN FreeToVec(Ob(sid).ch, op.xh) ELSE <<>>,
                               vi |-> IF op.op = "move" THEN FreeToVec(Ob(sid).ci, op.xi) ELSE <<>>,
                               pv |-> FreeToVec(Ob(sid).ci, nst.pi),
                               hv |-> FreeToVec(Ob(sid).ch, nst.ph)]))

Next ==
  \/ /\ Suites[sid].mode = "script"
     /\ step < Len(Suites[sid].ops)
     /\ Do(step + 1)
  \/ /\ Suites[sid].mode = "graph"
     /\ \E k \in 1..Len(Suites[sid].ops) : Do(k)
Spec == Init /\ [][Next]_vars

\* base points are optima: stationary with a positive definite Hessian
OptimalInv == \A i \in 1..Len(Ob(sid).bases) :
   LET ob == Ob(sid)  b == ob.bases[i]  g == FJet(ob, b).g IN
   /\ \A k \in 1..NC(ob.ci, ob.fi) : g[k] = R0
   /\ IsPosDef(HessAt(ob, b))
\* in vector coordinates with the true Hessian the sensitivity is m'(w)
ImplicitFunction == [][
   LET ob == Ob(sid)  op == Suites[sid].ops[last'] IN
   (op.op = "sens" /\ st'.hess = <<>> /\ ~ob.fi /\ ~ob.fh) =>
     LET w == FreeToVec(ob.ch, Base(ob, st').xh) IN
     SResult(ob, st', op) = Tab2(Len(ob.m), Len(w), LAMBDA i, j : RMul(R(ob.amp), PolyEval(PolyD(ob.m[i], j), w)))]_vars
\* a prediction is exact when the optimum is linear in the hyperparameter
ExactWhenLinear == [][
   LET ob == Ob(sid)  op == Suites[sid].ops[last'] IN
   (op.op = "predict" /\ ob.linear /\ ob.amp = 1 /\ st'.hess = <<>> /\ ~ob.fi /\ ~ob.fh) =>
     PredictRat(ob, st', op.xh) =
       Tab(Len(ob.m), LAMBDA i : PolyEval(ob.m[i], FreeToVec(ob.ch, op.xh)))]_vars
\* sensitivities change only by rebasing
OnlyRebase == [][LET op == Suites[sid].ops[last'] IN
   /\ op.op # "rebase" => st'.b = st.b /\ st'.hess = st.hess
   \* and the hyperparameter only moves when told to
   /\ op.op \notin {"rebase", "move", "home"} => st'.ph = st.ph
   /\ op.op \in {"sens", "dout", "predict", "predict_out_lin"} => st' = st]_vars
=============================================================================
