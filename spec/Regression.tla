------------------------------ MODULE Regression ---------------------------
(***************************************************************************)
(* Conjugate Bayesian linear regression, exactly.                          *)
(*                                                                         *)
(* An array of independent regressions, flattened: problem i has design    *)
(* x[i] (n by r), noise information w (one number for all, or w[i], n by   *)
(* n) and responses y[i][j], j over the replicates that share the design.  *)
(* State: for every problem the natural parameters <<a, B>> of its         *)
(* coefficients, log density = a'b + b'B b + constant.  Responses (hence   *)
(* coefficients) and informations are in units 2^u[1] and 2^u[2] stated by *)
(* the suite; nothing here depends on them.                                *)
(***************************************************************************)
EXTENDS LinAlg

Info(d, i) == IF d.w.full = <<>> THEN MScale(d.w.one, Eye(Len(d.x[i]))) ELSE d.w.full[i]
VSum(vs) == LET RECURSIVE Go(_)
                Go(k) == IF k = 1 THEN vs[1] ELSE VAdd(Go(k - 1), vs[k]) IN Go(Len(vs))
\* expanding - 1/2 sum_j (y_j - x b)' w (y_j - x b)
Lik(d) == Tab(Len(d.x), LAMBDA i :
  LET wx == MatMul(Info(d, i), d.x[i])  xt == Transpose(d.x[i]) IN
  [a |-> MatVec(Transpose(wx), VSum(d.y[i])),
   b |-> MScale(Frac(-Len(d.y[i]), 2), MatMul(xt, wx))])
Plus(s, t) == Tab(Len(s), LAMBDA i : [a |-> VAdd(s[i].a, t[i].a), b |-> MAdd(s[i].b, t[i].b)])
InfoOf(s) == Tab(Len(s), LAMBDA i : MScale(R(-2), s[i].b))
MeanOf(s) == Tab(Len(s), LAMBDA i : SolveVec(MScale(R(-2), s[i].b), s[i].a))
NatOf(mean, info) ==
  Tab(Len(mean), LAMBDA i : [a |-> MatVec(info[i], mean[i]), b |-> MScale(<<-1, 2>>, info[i])])
Both(s) == [mean |-> MeanOf(s), info |-> InfoOf(s)]

After(st, op) ==
  CASE op.op = "reset" -> NatOf(op.mean, op.info)
    [] op.op = "update" -> Plus(st, Lik(op.d))
    [] OTHER -> st
Result(st, op) ==
  CASE op.op = "lik" -> Lik(op.d)
    [] op.op = "coef" -> MeanOf(Lik(op.d))
    [] op.op = "mm" -> Tab(Len(op.p), LAMBDA i : MatMul(Transpose(op.p[i]), op.q[i]))
    [] op.op = "mv" -> Tab(Len(op.p), LAMBDA i : MatVec(Transpose(op.p[i]), VSum(op.q[i])))
    [] OTHER -> <<>>

(* ---- laws --------------------------------------------------------------- *)
\* the slope of the log joint density vanishes at the posterior mean
Stationary(st, d, post) ==
  LET m0 == MeanOf(st)  i0 == InfoOf(st)  m == MeanOf(post) IN
  \A i \in 1..Len(st) :
    LET prior == MatVec(i0[i], VSub(m[i], m0[i]))
        fit == MatVec(d.x[i], m[i])
        res == VSum(Tab(Len(d.y[i]), LAMBDA j : VSub(fit, d.y[i][j])))
        lik == MatVec(Transpose(d.x[i]), MatVec(Info(d, i), res)) IN
    VAdd(prior, lik) = ZeroVec(Len(m[i]))
\* least squares: residuals orthogonal to the design in the metric w
NormalEquations(d, c) ==
  \A i \in 1..Len(d.x) :
    LET fit == MatVec(d.x[i], c[i])
        res == VSum(Tab(Len(d.y[i]), LAMBDA j : VSub(fit, d.y[i][j]))) IN
    MatVec(Transpose(d.x[i]), MatVec(Info(d, i), res)) = ZeroVec(Len(c[i]))
\* replicates are the same as one long response
RowsZero(n) == Tab(n, LAMBDA k : R0)
Stacked(d) ==
  [x |-> Tab(Len(d.x), LAMBDA i : Concat(Tab(Len(d.y[i]), LAMBDA j : d.x[i]))),
   y |-> Tab(Len(d.x), LAMBDA i : <<Concat(d.y[i])>>),
   w |-> [one |-> d.w.one,
          full |-> IF d.w.full = <<>> THEN <<>> ELSE Tab(Len(d.x), LAMBDA i :
             LET n == Len(d.x[i])  k == Len(d.y[i]) IN
             Tab2(n * k, n * k, LAMBDA p, q :
               IF (p - 1) \div n = (q - 1) \div n
               THEN d.w.full[i][((p - 1) % n) + 1][((q - 1) % n) + 1] ELSE R0))]]
\* the two data sets together
Joined(d, e) ==
  [x |-> Tab(Len(d.x), LAMBDA i : d.x[i] \o e.x[i]),
   y |-> Tab(Len(d.x), LAMBDA i : <<d.y[i][1] \o e.y[i][1]>>),
   w |-> [one |-> R1, full |-> Tab(Len(d.x), LAMBDA i :
     LET a == Info(d, i)  b == Info(e, i)  n == Len(a)  m == Len(b) IN
     Tab2(n + m, n + m, LAMBDA p, q :
       IF p <= n /\ q <= n THEN a[p][q] ELSE IF p > n /\ q > n THEN b[p - n][q - n] ELSE R0))]]
=============================================================================
