----------------------------- MODULE TaylorModel ---------------------------
(***************************************************************************)
(* The Taylor series of an optimum along a direction of the                *)
(* hyperparameters.  For the objectives of SensitivityModel the optimum at *)
(* w is m(w); along the ray h(t) = h0 + t d of the declared hyperparameter *)
(* coordinates it is the power series of m(w(t)), mapped to the declared   *)
(* coordinates of the input parameter.                                     *)
(*                                                                         *)
(* State: the base point and the declared order.                           *)
(***************************************************************************)
EXTENDS SensitivityModel, Series

\* vector value as series, from series E of the (exponentiated) coordinates
PdSer(m, dlb, q, K) ==
  LET Lq(i, j) == IF j > i THEN SCon(K, R0) ELSE q[LD(i, j)] IN
  Tab(Tri(m), LAMBDA p :
    LET i == LDRow(p)  j == LDCol(p)
        s == SSum(Tab(j, LAMBDA k : SMul(Lq(i, k), Lq(j, k))), K)
    IN IF i = j THEN SAddC(s, dlb) ELSE s)
BoxSer(c, E) ==
  IF HasLb(c) /\ HasUb(c) THEN
     SAddC(SScale(RSub(c.ub[1], c.lb[1]), SDiv(E, SAddC(E, R1))), c.lb[1])
  ELSE IF HasLb(c) THEN SAddC(E, c.lb[1])
  ELSE IF HasUb(c) THEN SAddC(SNeg(SInv(E)), c.ub[1])
  ELSE E
RECURSIVE VecSer(_, _, _)
RECURSIVE DictSer(_, _, _, _)
VecSer(c, E, K) ==
  IF IsDict(c) THEN DictSer(c.items, 1, E, K)
  ELSE IF IsBox(c) THEN Tab(NElem(c), LAMBDA i : BoxSer(c, E[i]))
  ELSE IF c.kind = "simplex" THEN
    LET w == c.shape[2] - 1 IN
    Concat(Tab(c.shape[1], LAMBDA r :
      LET q == Tab(w, LAMBDA k : E[(r - 1) * w + k])
          Si == SInv(SAddC(SSum(q, K), R1))
      IN <<Si>> \o Tab(w, LAMBDA k : SMul(q[k], Si))))
  ELSE \* matrices
    LET w == Tri(c.m) IN
    Concat(Tab(NElem(c), LAMBDA e :
       PdSer(c.m, c.dlb, Tab(w, LAMBDA k : E[(e - 1) * w + k]), K)))
DictSer(items, i, E, K) ==
  IF i > Len(items) THEN <<>>
  ELSE LET c == items[i].c  w == ExtSize(c)
       IN VecSer(c, SubSeq(E, 1, w), K) \o DictSer(items, i + 1, SubSeq(E, w + 1, Len(E)), K)

\* coordinates x of parameter c moving in direction d
RaySer(c, x, f, d, K) ==
  IF f THEN VecSer(c, Tab(Len(x), LAMBDA i :
              IF x[i].t = "log" THEN SExp(K, x[i].v, d[i]) ELSE SLin(K, x[i].v, d[i])), K)
  ELSE LET v == FreeToVec(c, x) IN Tab(Len(v), LAMBDA i : SLin(K, v[i], d[i]))

(* Vector series to series of the free coordinates; x are the coordinates   *)
(* at t = 0 (they name the rational square roots).                          *)
RECURSIVE CholSer(_, _, _, _, _)
CholSer(q, x, p, P, acc) ==
  IF p > P THEN acc
  ELSE LET i == LDRow(p)  j == LDCol(p)  K == Len(q[1]) - 1
           s == SSum(Tab(j - 1, LAMBDA k : SMul(acc[LD(i, k)], acc[LD(j, k)])), K)
           r == SSub(q[p], s)
       IN CholSer(q, x, p + 1, P, Append(acc,
            IF i = j THEN SSqrtTo(r, x[p].v, Len(r)) ELSE SDiv(r, acc[LD(j, j)])))
BoxUnSer(c, v) ==
  IF HasLb(c) /\ HasUb(c) THEN SLog(SDiv(SAddC(v, RNeg(c.lb[1])), SAddC(SNeg(v), c.ub[1])))
  ELSE IF HasLb(c) THEN SLog(SAddC(v, RNeg(c.lb[1])))
  ELSE IF HasUb(c) THEN SNeg(SLog(SAddC(SNeg(v), c.ub[1])))
  ELSE v
RECURSIVE FreeSer(_, _, _)
RECURSIVE DictFreeSer(_, _, _, _)
FreeSer(c, x, V) ==
  IF IsDict(c) THEN DictFreeSer(c.items, 1, x, V)
  ELSE IF IsBox(c) THEN Tab(NElem(c), LAMBDA i : BoxUnSer(c, V[i]))
  ELSE IF c.kind = "simplex" THEN
    LET k == c.shape[2] IN
    Concat(Tab(c.shape[1], LAMBDA r : Tab(k - 1, LAMBDA j :
       SLog(SDiv(V[(r - 1) * k + j + 1], V[(r - 1) * k + 1])))))
  ELSE LET w == Tri(c.m) IN
    Concat(Tab(NElem(c), LAMBDA e :
      LET q == Tab(w, LAMBDA p : LET s == V[(e - 1) * w + p] IN
                 IF LDRow(p) = LDCol(p) THEN SAddC(s, RNeg(c.dlb)) ELSE s)
          L == CholSer(q, SubSeq(x, (e - 1) * w + 1, e * w), 1, w, <<>>)
      IN Tab(w, LAMBDA p : IF LDRow(p) = LDCol(p) THEN SLog(L[p]) ELSE L[p])))
DictFreeSer(items, i, x, V) ==
  IF i > Len(items) THEN <<>>
  ELSE LET c == items[i].c  w == ExtSize(c)  vw == VecSize(c)
       IN FreeSer(c, SubSeq(x, 1, w), SubSeq(V, 1, vw))
          \o DictFreeSer(items, i + 1, SubSeq(x, w + 1, Len(x)), SubSeq(V, vw + 1, Len(V)))

\* the optimum along the ray, in the declared coordinates
OptSer(ob, b, d, K) ==
  LET W == RaySer(ob.ch, b.xh, ob.fh, d, K)
      V == Tab(Len(ob.m), LAMBDA i : PolySeries(ob.m[i], W, K))
  IN IF ob.fi THEN FreeSer(ob.ci, b.xi, V) ELSE V

\* k-th directional derivative
DK(ob, b, d, k) == LET s == OptSer(ob, b, d, k) IN
                   Tab(Len(s), LAMBDA i : RMul(R(Fact(k)), s[i][k + 1]))
\* change of the optimum predicted by the series of order n
TaylorSum(ob, b, d, n) == LET s == OptSer(ob, b, d, n) IN
                   Tab(Len(s), LAMBDA i : RSum(Tab(n, LAMBDA k : s[i][k + 1])))

TAllowed(st, op) ==
  CASE op.op = "dk" -> 1 <= op.k /\ op.k <= st.order
    [] op.op = "series" -> op.n = -1 \/ (1 <= op.n /\ op.n <= st.order)   \* -1: the default
    [] OTHER -> TRUE
TResult(ob, st, op) ==
  LET b == ob.bases[st.b] IN
  IF ~TAllowed(st, op) THEN [ok |-> FALSE, fail |-> FALSE, val |-> <<>>, off |-> <<>>]
  \* the objective fails: the parameters are left at the base point all the same
  ELSE IF op.op \in {"dk", "series"} /\ op.boom # "" THEN [ok |-> FALSE, fail |-> TRUE, val |-> <<>>, off |-> <<>>]
  ELSE CASE op.op = "dk" -> [ok |-> TRUE, fail |-> FALSE, val |-> DK(ob, b, op.d, op.k), off |-> <<>>]
         [] op.op = "series" -> [ok |-> TRUE, fail |-> FALSE,
               val |-> TaylorSum(ob, b, op.d, IF op.n = -1 THEN st.order ELSE op.n),
               off |-> IF op.offset THEN Coords(ob.ci, b.xi, ob.fi) ELSE <<>>]
         [] OTHER -> [ok |-> TRUE, fail |-> FALSE, val |-> <<>>, off |-> <<>>]
TAfter(ob, st, op) ==
  CASE op.op = "rebase" -> [st EXCEPT !.b = op.b]
    [] op.op = "order" -> [st EXCEPT !.order = op.n]
    [] OTHER -> st
=============================================================================
