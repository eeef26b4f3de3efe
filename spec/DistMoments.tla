----------------------------- MODULE DistMoments ---------------------------
(***************************************************************************)
(* Distribution parameters: a container of a distribution class carries    *)
(* its class in c.cls, and its members in a fixed order.  Moments and      *)
(* entropies of the value, with their derivatives, as closed form jets     *)
(* [v |-> value, g |-> gradient] over the free coordinates.                *)
(***************************************************************************)
EXTENDS ParamStore, Sym

(* ---- closed form jets --------------------------------------------------- *)
JN(j) == Len(j.g)
\* rational jet -> closed form jet
SR(j) == [v |-> SRat(j.v), g |-> Tab(JN(j), LAMBDA k : SRat(j.g[k]))]
\* f(j), with f and f' at the value of j
SF(j, f0, f1) == [v |-> f0, g |-> Tab(JN(j), LAMBDA k : SScale(j.g[k], f1))]
SJLog(j) == SF(j, SLog(j.v), SRat(RInv(j.v)))
SJExp(j) == SF(j, SExp(j.v), SExp(j.v))
SJPsi(j) == SF(j, Psi(j.v), Trigam(j.v))
SJLGam(j) == SF(j, LGam(j.v), Psi(j.v))
SJAdd(a, b) == [v |-> SAdd(a.v, b.v), g |-> Tab(JN(a), LAMBDA k : SAdd(a.g[k], b.g[k]))]
SJSum(xs) == LET RECURSIVE Go(_)
                 Go(i) == IF i = 1 THEN xs[1] ELSE SJAdd(Go(i - 1), xs[i]) IN Go(Len(xs))
SJScale(q, a) == [v |-> SScale(q, a.v), g |-> Tab(JN(a), LAMBDA k : SScale(q, a.g[k]))]
SJSub(a, b) == SJAdd(a, SJScale(R(-1), b))
SJPlus(a, s) == [a EXCEPT !.v = SAdd(@, s)]
\* rational jet times closed form jet
SJMul(j, a) == [v |-> SScale(j.v, a.v),
                g |-> Tab(JN(a), LAMBDA k : SAdd(SScale(j.v, a.g[k]), SScale(j.g[k], a.v)))]

(* ---- matrices of rational jets ------------------------------------------ *)
MVal(M) == Tab2(Len(M), Len(M), LAMBDA i, j : M[i][j].v)
MDer(M, k) == Tab2(Len(M), Len(M), LAMBDA i, j : M[i][j].g[k])
MInvJ(M) ==
  LET n == JN(M[1][1])  V == Inverse(MVal(M))
      D == Tab(n, LAMBDA k : MScale(R(-1), MatMul(V, MatMul(MDer(M, k), V)))) IN
  Tab2(Len(M), Len(M), LAMBDA i, j : [v |-> V[i][j], g |-> Tab(n, LAMBDA k : D[k][i][j]), h |-> <<>>])
SJLogDet(M) ==
  LET n == JN(M[1][1])  V == Inverse(MVal(M)) IN
  [v |-> SLog(DetR(MVal(M))), g |-> Tab(n, LAMBDA k : SRat(Trace(MatMul(V, MDer(M, k)))))]
Square(f, m) == Tab2(m, m, LAMBDA i, j : f[(i - 1) * m + j])
Flat(M) == Concat(M)

(* ---- moments ------------------------------------------------------------ *)
LTwoPi == SAdd(SLog2, SLogPi)
UvnMoments(m, var) ==
  LET n == Len(m)
      half == Tab(n, LAMBDA i : JAdd(m[i], JScale(RHalf, var[i])))
      dbl == Tab(n, LAMBDA i : JAdd(JScale(R(2), m[i]), JScale(R(2), var[i])))
      mid == Tab(n, LAMBDA i : JAdd(JScale(R(2), m[i]), var[i])) IN
  << [n |-> "e_exp", v |-> Tab(n, LAMBDA i : SJExp(half[i]))],
     [n |-> "e2_exp", v |-> Tab(n, LAMBDA i : SJExp(dbl[i]))],
     [n |-> "var_exp", v |-> Tab(n, LAMBDA i : SJSub(SJExp(dbl[i]), SJExp(mid[i])))],
     \* the relative variance
     [n |-> "var_exp/e_exp^2", v |-> Tab(n, LAMBDA i :
         SF(var[i], SOf("expm1:0", var[i].v, R1), SExp(var[i].v)))] >>
UvnEntropy(var) == << [n |-> "entropy", v |-> <<SJSum(Tab(Len(var), LAMBDA i :
   SJScale(RHalf, SJPlus(SJLog(var[i]), SAdd(SRat(R1), LTwoPi)))))>>] >>
SRs(js) == Tab(Len(js), LAMBDA i : SR(js[i]))
MPsiJ(h, k) == SJSum(Tab(k, LAMBDA i : SJPsi(JAddC(h, <<-(i - 1), 2>>))))

Class(c) == c.cls[1]
LkjArg == <<5, 2>>
\* J: the jets of the full value of the container
Moments(c, J) ==
  LET w1 == Len(Full(c.items[1].c, Tab(VecSize(c.items[1].c), LAMBDA i : R0)))
      A == SubSeq(J, 1, w1)
      B == SubSeq(J, w1 + 1, Len(J))
      na == Len(A)
  IN
  CASE Class(c) \in {"UVNParam", "UVNParamVector", "UVNParamArray"} ->
         LET var == Tab(na, LAMBDA i : JInv(B[i])) IN
         << [n |-> "e", v |-> SRs(A)],
            [n |-> "e_outer", v |-> Tab(na, LAMBDA i : SR(JAdd(JMul(A[i], A[i]), var[i])))],
            [n |-> "var", v |-> SRs(var)] >> \o UvnMoments(A, var) \o UvnEntropy(var)
    [] Class(c) = "UVNMomentParamArray" ->
         LET var == Tab(na, LAMBDA i : JSub(B[i], JMul(A[i], A[i]))) IN
         << [n |-> "e", v |-> SRs(A)], [n |-> "e_outer", v |-> SRs(B)], [n |-> "var", v |-> SRs(var)] >>
         \* the rest needs a distribution: a point mass has moments, and no entropy
         \o (IF \A i \in 1..na : RLe(R0, var[i].v) THEN UvnMoments(A, var) ELSE <<>>)
         \o (IF \A i \in 1..na : RLt(R0, var[i].v) THEN UvnEntropy(var) ELSE <<>>)
    [] Class(c) = "MVNArray" ->
         LET cols == na \div Len(B) IN
         << [n |-> "e", v |-> SRs(A)],
            [n |-> "e2", v |-> Tab(na, LAMBDA i : SR(JAdd(JMul(A[i], A[i]), JInv(B[((i - 1) \div cols) + 1]))))] >>
    [] Class(c) = "MVNParam" ->
         LET M == Square(B, na)  V == MInvJ(M) IN
         << [n |-> "e", v |-> SRs(A)],
            [n |-> "cov", v |-> SRs(Flat(V))],
            [n |-> "e_outer", v |-> Flat(Tab2(na, na, LAMBDA i, j : SR(JAdd(V[i][j], JMul(A[i], A[j])))))],
            [n |-> "entropy", v |-> <<SJScale(RHalf, SJPlus(SJScale(R(-1), SJLogDet(M)),
                                        SScale(R(na), SAdd(SRat(R1), LTwoPi))))>>] >>
    [] Class(c) = "GammaParam" ->
         LET a == A[1]  b == B[1] IN
         << [n |-> "e", v |-> <<SR(JDiv(a, b))>>],
            [n |-> "e_log", v |-> <<SJSub(SJPsi(a), SJLog(b))>>],
            [n |-> "entropy", v |-> <<SJSum(<<SR(a), SJScale(R(-1), SJLog(b)), SJLGam(a),
                                             SJMul(JAddC(JScale(R(-1), a), R1), SJPsi(a))>>)>>] >>
    [] Class(c) = "WishartParam" ->
         LET df == A[1]  k == c.items[2].c.m  M == Square(B, k)  V == MInvJ(M)
             hd == JScale(RHalf, df)  ld == SJLogDet(M)  mp == MPsiJ(hd, k)
             eld == SJPlus(SJAdd(mp, ld), SScale(R(k), SLog2))
             last == SJPsi(JAddC(hd, <<-(k - 1), 2>>))
             eid == Tab(k, LAMBDA i : SJPlus(SJSub(SJLog(V[i][i]), last), SScale(R(-1), SLog2)))
             den == JAddC(df, R(-k - 1)) IN
         << [n |-> "e", v |-> Flat(Tab2(k, k, LAMBDA i, j : SR(JMul(df, M[i][j]))))],
            [n |-> "e_log_det", v |-> <<eld>>],
            [n |-> "entropy", v |-> <<SJSum(<<SJScale(Frac(k + 1, 2), ld),
                SJPlus(SJSum(Tab(k, LAMBDA i : SJLGam(JAddC(hd, <<-(i - 1), 2>>)))),
                       SAdd(SScale(Frac(k * (k - 1), 4), SLogPi), SScale(Frac(k * (k + 1), 2), SLog2))),
                SJMul(JAddC(JScale(R(-1), hd), Frac(k + 1, 2)), mp),
                SR(JScale(R(k), hd))>>)>>],
            [n |-> "e_log_lkj_inv_prior", v |-> <<SJScale(RSub(LkjArg, R1), SJScale(R(-1), SJAdd(eld, SJSum(eid))))>>] >>
         \o (IF RLt(R0, den.v) THEN << [n |-> "e_inv", v |-> Flat(Tab2(k, k, LAMBDA i, j : SR(JDiv(V[i][j], den))))] >> ELSE <<>>)
    [] Class(c) = "DirichletParamArray" ->
         LET k == c.items[1].c.shape[1]  w == na \div k
             Al(i, j) == J[(i - 1) * w + j]
             s == Tab(w, LAMBDA j : JSum(Tab(k, LAMBDA i : Al(i, j))))
             ps == Tab(w, LAMBDA j : SJPsi(s[j])) IN
         << [n |-> "e", v |-> Flat(Tab2(k, w, LAMBDA i, j : SR(JDiv(Al(i, j), s[j]))))],
            [n |-> "e_log", v |-> Flat(Tab2(k, w, LAMBDA i, j : SJSub(SJPsi(Al(i, j)), ps[j])))],
            [n |-> "entropy", v |-> Tab(w, LAMBDA j :
               SJSum(<<SJSub(SJSum(Tab(k, LAMBDA i : SJLGam(Al(i, j)))), SJLGam(s[j])),
                       SJMul(JAddC(s[j], R(-k)), ps[j]),
                       SJSum(Tab(k, LAMBDA i : SJMul(JAddC(JScale(R(-1), Al(i, j)), R1), SJPsi(Al(i, j)))))>>))] >>

\* paths of the distributions in a container
RECURSIVE DistPaths(_)
DistPaths(c) ==
  IF ~IsDict(c) THEN <<>>
  ELSE IF "cls" \in DOMAIN c THEN << <<>> >>
  ELSE Concat(Tab(Len(c.items), LAMBDA i :
         LET ps == DistPaths(c.items[i].c) IN
         Tab(Len(ps), LAMBDA k : <<c.items[i].name>> \o ps[k])))
PartVec(ob, path) == Slice(ob.q, VecOff(ob.c, path), VecSize(CfgAt(ob.c, path)))
\* values only: jets over no coordinates
ValJets(q) == Tab(Len(q), LAMBDA i : [v |-> q[i], g |-> <<>>, h |-> <<>>])
ValuesAt(ob, path) ==
  LET c == CfgAt(ob.c, path)
      ms == Moments(c, Full(c, ValJets(PartVec(ob, path)))) IN
  Tab(Len(ms), LAMBDA i : [n |-> ms[i].n, v |-> Tab(Len(ms[i].v), LAMBDA k : ms[i].v[k].v)])
Report(ob) == LET ps == DistPaths(ob.c) IN Tab(Len(ps), LAMBDA i : [path |-> ps[i], m |-> ValuesAt(ob, ps[i])])
\* with derivatives in the distribution's own free coordinates
JetsAt(ob, path) ==
  LET c == CfgAt(ob.c, path) IN
  Moments(c, Full(c, JFirsts(OwnJets(c, VecToExt(c, PartVec(ob, path))))))

(* ---- calls --------------------------------------------------------------- *)
SrcShape(h, op) == LET c == CfgAt(h[op.src].c, op.spath) IN
  IF IsDict(c) THEN c.items[1].c.shape ELSE c.shape
LegalFrom(h, op) == SrcShape(h, op) = CfgAt(h[op.o].c, op.path).items[1].c.shape
LegalCtor(op) == IF op.cls = "WishartParam" THEN RLe(R(op.size - 1), op.arg) ELSE RLe(R0, op.arg)
DEffect(h, op) ==
  CASE op.op \in {"from_uvn", "from_const"} /\ ~LegalFrom(h, op) -> [h |-> h, r |-> Rejected]
    [] op.op = "ctor" -> [h |-> h, r |-> IF LegalCtor(op) THEN OK(<<>>) ELSE Rejected]
    [] op.op = "from_uvn" ->
         LET u == h[op.src]
             ms == ValuesAt(u, op.spath)
             f == Full(CfgAt(u.c, op.spath), PartVec(u, op.spath))
             k == Len(f) \div 2
             e == SubSeq(f, 1, k)
             e2 == Tab(k, LAMBDA i : RAdd(RMul(f[i], f[i]), RInv(f[k + i]))) IN
         [h |-> WriteAt(h, op, e \o e2), r |-> OK(<<>>)]
    [] op.op = "from_const" ->
         LET e == PartVec(h[op.src], op.spath) IN
         [h |-> WriteAt(h, op, e \o Tab(Len(e), LAMBDA i : RMul(e[i], e[i]))), r |-> OK(<<>>)]
    [] op.op = "deriv" -> [h |-> h, r |-> [ok |-> TRUE, val |-> JetsAt(h[op.o], op.path)]]
    [] OTHER -> Effect(h, op)
=============================================================================
