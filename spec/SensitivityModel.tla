--------------------------- MODULE SensitivityModel ------------------------
(***************************************************************************)
(* Linear hyperparameter sensitivity of an optimum.                        *)
(*                                                                         *)
(* The objective, in the vector values v of the input parameter and w of   *)
(* the hyperparameter, is                                                  *)
(*     F = sum_t c_t prod_k r[i_k],   r[i] = v[i] - m[i](w),               *)
(* with quadratic and higher terms, m polynomial, so that v = m(w) is a    *)
(* stationary point.  The part that depends on the hyperparameter may be   *)
(* given separately as G = a F - K(v) + L(w), where a = 1 unless a         *)
(* perturbation other than that of F is declared.                          *)
(*                                                                         *)
(* State: the base point last set, the Hessian supplied with it (<<>> when *)
(* it is to be computed), and the points the two parameters are at.        *)
(* Everything reported is a function of the first two and of nothing that  *)
(* happened before or since.                                               *)
(***************************************************************************)
EXTENDS ConverterModel

NC(c, f) == IF f THEN ExtSize(c) ELSE VecSize(c)
PtJets(c, x, f, o, n) ==
  IF f THEN VecJets(c, x, o, n)
  ELSE LET v == FreeToVec(c, x) IN Tab(Len(v), LAMBDA k : JLin(n, o + k, v[k]))
\* the point, in the declared coordinates
Coords(c, x, f) ==
  IF f THEN x ELSE LET v == FreeToVec(c, x) IN Tab(Len(v), LAMBDA k : [t |-> "lin", v |-> v[k]])

\* jet of F over the declared coordinates of both parameters at a base point
FJet(ob, b) ==
  LET ni == NC(ob.ci, ob.fi)  n == ni + NC(ob.ch, ob.fh)
      V == PtJets(ob.ci, b.xi, ob.fi, 0, n)
      W == PtJets(ob.ch, b.xh, ob.fh, ni, n)
      r == Tab(Len(V), LAMBDA i : JSub(V[i], PolyJet(ob.m[i], W, n)))
  IN PolyJet(ob.F, r, n)

HessAt(ob, b) == LET ni == NC(ob.ci, ob.fi)  h == FJet(ob, b).h IN
                 Tab2(ni, ni, LAMBDA i, j : h[i][j])
CrossAt(ob, b) == LET ni == NC(ob.ci, ob.fi)  h == FJet(ob, b).h IN
                  Tab2(ni, NC(ob.ch, ob.fh), LAMBDA i, j : h[i][ni + j])

\* st = [b |-> index of the base point, hess |-> supplied Hessian or <<>>, pi, ph]
Base(ob, st) == ob.bases[st.b]
Sens(ob, st) ==
  LET b == Base(ob, st)
      H == IF st.hess = <<>> THEN HessAt(ob, b) ELSE st.hess
  IN MScale(R(-ob.amp), SolveMat(H, CrossAt(ob, b)))

(* A predicted coordinate is a sum of rational multiples of coordinates,   *)
(* some of which may be logarithms: a sequence of <<coefficient, coord>>.  *)
Predict(ob, st, xnew) ==
  LET b == Base(ob, st)
      S == Sens(ob, st)
      x0 == Coords(ob.ci, b.xi, ob.fi)
      h0 == Coords(ob.ch, b.xh, ob.fh)
      h1 == Coords(ob.ch, xnew, ob.fh)
  IN Tab(Len(x0), LAMBDA i :
       << <<R1, x0[i]>> >> \o
       Concat(Tab(Len(h0), LAMBDA j : << <<S[i][j], h1[j]>>, <<RNeg(S[i][j]), h0[j]>> >>)))

\* the same where every coordinate is rational
RatSum(p) == RSum(Tab(Len(p), LAMBDA k : RMul(p[k][1], p[k][2].v)))
PredictRat(ob, st, xnew) == LET p == Predict(ob, st, xnew) IN Tab(Len(p), LAMBDA i : RatSum(p[i]))

(* The output parameter is a converter applied to the input parameter.     *)
OutAt(ob, x) == [op |-> "jac", fi |-> TRUE, fo |-> FALSE, x |-> x, boom |-> FALSE]
DOut(ob, st) == MatMul(CResult(ob, OutAt(ob, Base(ob, st).xi)), Sens(ob, st))
OutVal(ob, x) == CResult(ob, [OutAt(ob, x) EXCEPT !.op = "conv"])
PredictOutLinear(ob, st, xnew) ==
  LET b == Base(ob, st)
      d == VSub(FreeToVec(ob.ch, xnew), FreeToVec(ob.ch, b.xh))
  IN VAdd(OutVal(ob, b.xi), MatVec(DOut(ob, st), d))
PredictOut(ob, st, xnew) ==
  LET p == PredictRat(ob, st, xnew) IN
  OutVal(ob, Tab(Len(p), LAMBDA i : [t |-> "lin", v |-> p[i]]))

SResult(ob, st, op) ==
  CASE op.op = "sens" -> Sens(ob, st)
    [] op.op = "predict" -> Predict(ob, st, op.xh)
    [] op.op = "dout" -> DOut(ob, st)
    [] op.op = "predict_out_lin" -> PredictOutLinear(ob, st, op.xh)
    [] op.op = "predict_out" -> PredictOut(ob, st, op.xh)
    [] OTHER -> <<>>

(* pi and ph are the points the two parameters are left at: predictions    *)
(* and sensitivities do not move them, except that predicting the output   *)
(* leaves the input parameter at the predicted point.                      *)
AtBase(ob, i, hess) == [b |-> i, hess |-> hess, pi |-> ob.bases[i].xi, ph |-> ob.bases[i].xh]
SAfter(ob, st, op) ==
  CASE op.op = "rebase" -> AtBase(ob, op.b, op.hess)
    [] op.op = "home" -> AtBase(ob, st.b, st.hess)
    [] op.op = "move" -> [st EXCEPT !.pi = op.xi, !.ph = op.xh]
    [] op.op = "predict_out" -> LET p == PredictRat(ob, st, op.xh) IN
         [st EXCEPT !.pi = Tab(Len(p), LAMBDA i : [t |-> "lin", v |-> p[i]])]
    [] OTHER -> st
=============================================================================
