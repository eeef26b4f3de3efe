------------------------------- MODULE ExpFam ------------------------------
(***************************************************************************)
(* Entropies and expectations of exponential families, exactly.            *)
(*                                                                         *)
(* State: a collection of distributions of one family, as a record d:      *)
(*   gamma     a: shapes, b: rates (numbers), shape: array shape           *)
(*   uvn       b: informations (numbers), shape                            *)
(*   mvn       m: diagonal blocks of the information, e: times 2^e         *)
(*   dirichlet a: rows of components, shape: <<k, ...>>                    *)
(*   beta      a: pairs                                                    *)
(*   multi     a: rows of probabilities, eps: <<>> or the guard            *)
(*   wishart   df, m: diagonal blocks of the scale matrix, e               *)
(*   lognormal a, s: means and variances (numbers) of the logarithm, shape *)
(* Transitions transform the random variables; each has a law for the      *)
(* entropy, checked on the closed forms.                                   *)
(***************************************************************************)
EXTENDS Sym, TLC

SumN(s) == LET RECURSIVE Go(_)
               Go(i) == IF i = 0 THEN 0 ELSE Go(i - 1) + s[i] IN Go(Len(s))

(* ---- block diagonal matrices ------------------------------------------ *)
BDim(d) == SumN(Tab(Len(d.m), LAMBDA i : Len(d.m[i])))
BLogDet(d) == SAdd(SSum(Tab(Len(d.m), LAMBDA i : SLog(DetR(d.m[i])))), SScale(R(d.e * BDim(d)), SLog2))
\* logarithms of the diagonal of the inverse
BLogInvDiag(d) ==
  Concat(Tab(Len(d.m), LAMBDA i :
    LET v == Inverse(d.m[i]) IN
    Tab(Len(v), LAMBDA j : SSub(SLog(v[j][j]), SScale(R(d.e), SLog2)))))

(* ---- entropies, by their textbook formulae ----------------------------- *)
GammaH(a, b) ==
  SSum(<<SRat(a), SScale(R(-1), NLog(b)), LGam(a), SScale(RSub(R1, a), Psi(a))>>)
LogTwoPi == SAdd(SLog2, SLogPi)
UvnH(b) == SScale(RHalf, SSum(<<SScale(R(-1), NLog(b)), SRat(R1), LogTwoPi>>))
MvnH(d) == LET k == R(BDim(d)) IN
  SScale(RHalf, SSum(<<SScale(R(-1), BLogDet(d)), SRat(k), SScale(k, LogTwoPi)>>))
\* of one Dirichlet vector al
DirH(al) ==
  LET s == RSum(al)  k == Len(al) IN
  SSum(Tab(k, LAMBDA i : LGam(al[i]))
       \o <<SScale(R(-1), LGam(s)), SScale(RSub(s, R(k)), Psi(s))>>
       \o Tab(k, LAMBDA i : SScale(RSub(R1, al[i]), Psi(al[i]))))
MultiH(p, eps) ==
  LET g == IF eps = <<>> THEN R0 ELSE eps[1] IN
  SSum(Tab(Len(p), LAMBDA i :
    IF p[i] = R0 THEN S0 ELSE SScale(RNeg(p[i]), SLog(RAdd(p[i], g)))))
WishH(d) ==
  LET k == BDim(d)  h == RMul(RHalf, d.df) IN
  SSum(<<SScale(Frac(k + 1, 2), BLogDet(d)), SScale(Frac(k * (k + 1), 2), SLog2), MLGam(h, k),
         SScale(RNeg(RMul(RHalf, RSub(d.df, R(k + 1)))), MPsi(h, k)), SRat(RMul(h, R(k)))>>)

(* ---- expectations ------------------------------------------------------ *)
ELogGamma(a, b) == SSub(Psi(a), NLog(b))
ELogDetWish(d) == LET k == BDim(d) IN
  SSum(<<MPsi(RMul(RHalf, d.df), k), SScale(R(k), SLog2), BLogDet(d)>>)
ELogInvDiagWish(d) ==
  LET k == BDim(d)  l == BLogInvDiag(d)  p == Psi(RMul(RHalf, RSub(d.df, R(k - 1)))) IN
  Tab(k, LAMBDA i : SSub(SSub(l[i], p), SLog2))
EDir(al) == LET s == RSum(al) IN Tab(Len(al), LAMBDA i : RDiv(al[i], s))
ELogDir(al) == LET s == Psi(RSum(al)) IN Tab(Len(al), LAMBDA i : SSub(Psi(al[i]), s))
ELogNormal(m, s) == SExp(RAdd(m, RMul(RHalf, s)))
\* second moment minus square of the first
VarLogNormal(m, s) == SSub(SExp(RAdd(RMul(R(2), m), RMul(R(2), s))), SExp(RAdd(RMul(R(2), m), s)))

\* the squared coefficient of variation, exp(s) - 1, for s = q * 2^e of any
\* size: next to nothing is not nothing
RelVarLogNormal(s) == SOf("expm1:" \o ToString(s.e), s.q, R1)

(* ---- the collections --------------------------------------------------- *)
N(d) == CASE d.fam \in {"mvn", "wishart"} -> BDim(d)
          [] d.fam = "dirichlet" -> Len(d.a[1])
          [] d.fam = "uvn" -> Len(d.b)
          [] OTHER -> Len(d.a)
Column(d, j) == Tab(Len(d.a), LAMBDA i : d.a[i][j])
\* one entropy for each value reported: a sum over the collection, or a list
Ent(d) ==
  CASE d.fam = "gamma" -> <<SSum(Tab(N(d), LAMBDA i : GammaH(d.a[i], d.b[i])))>>
    [] d.fam = "uvn" -> <<SSum(Tab(N(d), LAMBDA i : UvnH(d.b[i])))>>
    [] d.fam = "mvn" -> <<MvnH(d)>>
    [] d.fam = "dirichlet" -> Tab(N(d), LAMBDA j : DirH(Column(d, j)))
    [] d.fam = "beta" -> <<SSum(Tab(N(d), LAMBDA i : DirH(d.a[i])))>>
    [] d.fam = "multi" -> Tab(N(d), LAMBDA i : MultiH(d.a[i], d.eps))
    [] d.fam = "wishart" -> <<WishH(d)>>
    [] OTHER -> <<>>
Plain(d) == \A i \in 1..N(d) : d.s[i].e = 0
Exps(d) ==
  CASE d.fam = "gamma" -> [elog |-> Tab(N(d), LAMBDA i : ELogGamma(d.a[i], d.b[i]))]
    [] d.fam = "dirichlet" ->
         LET es == Tab(N(d), LAMBDA j : EDir(Column(d, j)))
             ls == Tab(N(d), LAMBDA j : ELogDir(Column(d, j))) IN
         [e |-> Tab2(Len(d.a), N(d), LAMBDA i, j : SRat(es[j][i])),
          elog |-> Tab2(Len(d.a), N(d), LAMBDA i, j : ls[j][i])]
    [] d.fam = "wishart" ->
         [elogdet |-> ELogDetWish(d), eloginv |-> ELogInvDiagWish(d),
          mpsi |-> MPsi(RMul(RHalf, d.df), BDim(d)), mlgam |-> MLGam(RMul(RHalf, d.df), BDim(d))]
    [] d.fam = "lognormal" ->
         [rel |-> Tab(N(d), LAMBDA i : RelVarLogNormal(d.s[i])),
          e |-> IF Plain(d) THEN Tab(N(d), LAMBDA i : ELogNormal(d.a[i], d.s[i].q)) ELSE <<>>,
          var |-> IF Plain(d) THEN Tab(N(d), LAMBDA i : VarLogNormal(d.a[i], d.s[i].q)) ELSE <<>>]
    [] OTHER -> [none |-> 0]
Report(d) == [ent |-> Ent(d), ex |-> Exps(d)]
TotalH(d) == SSum(Ent(d))

(* ---- transitions ------------------------------------------------------- *)
NMul(x, q) == [x EXCEPT !.q = RMul(@, q)]
\* block diagonal transformation of a matrix with a single block
Conj(A, M) == MatMul(A, MatMul(M, Transpose(A)))
Apply(d, op) ==
  CASE op.op = "set" -> op.d
    \* all variables times c (normal: also shifted, which does not matter)
    [] op.op = "scale" ->
         (CASE d.fam = "gamma" -> [d EXCEPT !.b = Tab(N(d), LAMBDA i : NMul(d.b[i], RInv(op.c)))]
            [] d.fam = "uvn" -> [d EXCEPT !.b = Tab(N(d), LAMBDA i : NMul(d.b[i], RInv(RMul(op.c, op.c))))]
            [] d.fam = "mvn" -> [d EXCEPT !.m = Tab(Len(d.m), LAMBDA i : MScale(RInv(RMul(op.c, op.c)), d.m[i]))]
            [] d.fam = "wishart" -> [d EXCEPT !.m = Tab(Len(d.m), LAMBDA i : MScale(op.c, d.m[i]))]
            [] d.fam = "lognormal" -> [d EXCEPT !.a = Tab(N(d), LAMBDA i : RAdd(d.a[i], op.c))])
    \* all variances of the logarithm times 2^k
    [] op.op = "narrow" -> [d EXCEPT !.s = Tab(N(d), LAMBDA i : [q |-> d.s[i].q, e |-> d.s[i].e + op.k])]
    \* x -> A x (mvn, first block), X -> A X A' (wishart, first block)
    [] op.op = "linear" ->
         (CASE d.fam = "mvn" -> LET B == Inverse(op.A) IN [d EXCEPT !.m[1] = Conj(Transpose(B), @)]
            [] d.fam = "wishart" -> [d EXCEPT !.m[1] = Conj(op.A, @)])
    [] op.op = "bump" ->
         (CASE d.fam = "gamma" -> [d EXCEPT !.a[op.i] = RAdd(@, R1)]
            [] d.fam = "dirichlet" -> [d EXCEPT !.a[op.i] = Tab(N(d), LAMBDA j : RAdd(d.a[op.i][j], R1))]
            [] d.fam = "wishart" -> [d EXCEPT !.df = RAdd(@, R(2))])
    \* independent further components
    [] op.op = "cat" ->
         (CASE d.fam = "gamma" -> [d EXCEPT !.a = @ \o op.d.a, !.b = @ \o op.d.b, !.shape = op.shape]
            [] d.fam = "uvn" -> [d EXCEPT !.b = @ \o op.d.b, !.shape = op.shape]
            [] d.fam = "mvn" -> [d EXCEPT !.m = @ \o op.d.m]
            [] d.fam \in {"beta", "multi"} -> [d EXCEPT !.a = @ \o op.d.a]
            [] d.fam = "dirichlet" -> [d EXCEPT !.a = Tab(Len(@), LAMBDA i : d.a[i] \o op.d.a[i]), !.shape = op.shape])
    [] op.op = "perm" ->
         (CASE d.fam = "gamma" -> [d EXCEPT !.a = Tab(N(d), LAMBDA i : d.a[op.p[i]]), !.b = Tab(N(d), LAMBDA i : d.b[op.p[i]])]
            [] d.fam = "uvn" -> [d EXCEPT !.b = Tab(N(d), LAMBDA i : d.b[op.p[i]])]
            [] d.fam \in {"beta", "multi", "dirichlet"} -> [d EXCEPT !.a = Tab(Len(d.a), LAMBDA i : d.a[op.p[i]])]
            [] d.fam = "mvn" -> [d EXCEPT !.m = Tab(Len(d.m), LAMBDA i : d.m[op.p[i]])])
    \* the first two categories become one
    [] op.op = "merge" ->
         (CASE d.fam = "dirichlet" ->
                 [d EXCEPT !.a = <<Tab(N(d), LAMBDA j : RAdd(d.a[1][j], d.a[2][j]))>> \o SubSeq(d.a, 3, Len(d.a)),
                           !.shape = <<@[1] - 1>> \o Tail(@)]
            [] d.fam = "multi" ->
                 [d EXCEPT !.a = Tab(N(d), LAMBDA i : <<RAdd(d.a[i][1], d.a[i][2])>> \o SubSeq(d.a[i], 3, Len(d.a[i])))])
    \* the same distribution in another family
    [] op.op = "as" ->
         (CASE d.fam = "gamma" -> [fam |-> "wishart", df |-> RMul(R(2), d.a[1]),
                                    m |-> << << <<RInv(RMul(R(2), d.b[1].q))>> >> >>, e |-> -d.b[1].e]
            [] d.fam = "beta" -> [fam |-> "dirichlet", a |-> Tab2(2, N(d), LAMBDA i, j : d.a[j][i]),
                                   shape |-> <<2, N(d)>>]
            [] d.fam = "uvn" -> [fam |-> "mvn", m |-> Tab(N(d), LAMBDA i : << <<d.b[i].q>> >>), e |-> d.b[1].e])

(* ---- laws --------------------------------------------------------------- *)
SmallDist(d) ==
  CASE d.fam = "gamma" -> \A i \in 1..N(d) : Small(d.a[i])
    [] d.fam = "dirichlet" -> \A j \in 1..N(d) : LET c == Column(d, j) IN
         Small(RSum(c)) /\ \A i \in 1..Len(c) : Small(c[i])
    [] d.fam = "beta" -> \A i \in 1..N(d) : Small(d.a[i][1]) /\ Small(d.a[i][2]) /\ Small(RSum(d.a[i]))
    [] d.fam = "wishart" -> Small(RMul(RHalf, d.df))
    [] OTHER -> TRUE
\* entropy is minus the expected log density: log normaliser minus the
\* expectation of the rest of the log density
GammaNegELogP(a, b) ==
  LET logz == SSub(LGam(a), SScale(a, NLog(b))) IN
  \* log p = -logz + (a - 1) log x - b x
  SSum(<<logz, SScale(RSub(R1, a), ELogGamma(a, b)), SRat(a)>>)
DirNegELogP(al) ==
  LET logz == SSub(SSum(Tab(Len(al), LAMBDA i : LGam(al[i]))), LGam(RSum(al)))
      el == ELogDir(al) IN
  SSum(<<logz>> \o Tab(Len(al), LAMBDA i : SScale(RSub(R1, al[i]), el[i])))
WishNegELogP(d) ==
  LET k == BDim(d)  h == RMul(RHalf, d.df)
      logz == SSum(<<SScale(RMul(h, R(k)), SLog2), SScale(h, BLogDet(d)), MLGam(h, k)>>) IN
  SSum(<<logz, SScale(RNeg(RMul(RHalf, RSub(d.df, R(k + 1)))), ELogDetWish(d)), SRat(RMul(h, R(k)))>>)
NegELogP(d) ==
  CASE d.fam = "gamma" -> <<SSum(Tab(N(d), LAMBDA i : GammaNegELogP(d.a[i], d.b[i])))>>
    [] d.fam = "dirichlet" -> Tab(N(d), LAMBDA j : DirNegELogP(Column(d, j)))
    [] d.fam = "beta" -> <<SSum(Tab(N(d), LAMBDA i : DirNegELogP(d.a[i])))>>
    [] d.fam = "wishart" -> <<WishNegELogP(d)>>
    [] OTHER -> Ent(d)

\* chain rule of a Dirichlet vector: first share, then the rest renormalised
DirChain(al) ==
  LET rest == Tail(al)  s == RSum(al)  b == <<al[1], RSum(rest)>> IN
  SSum(<<DirH(b), DirH(rest), SScale(R(Len(al) - 2), SSub(Psi(RSum(rest)), Psi(s)))>>)
\* independent gammas of equal rate: their sum, and their shares
GammaDir(al) ==
  LET s == RSum(al)  one == [q |-> R1, e |-> 0] IN
  /\ SSum(Tab(Len(al), LAMBDA i : GammaH(al[i], one))) =
       SSum(<<DirH(al), GammaH(s, one), SScale(R(Len(al) - 1), Psi(s))>>)

ChangeLaw(d, op, dn) ==
  LET diff == SSub(TotalH(dn), TotalH(d)) IN
  CASE op.op = "scale" ->
         (CASE d.fam \in {"gamma", "uvn"} -> diff = SScale(R(N(d)), SLog(op.c))
            [] d.fam = "mvn" -> diff = SScale(R(BDim(d)), SLog(op.c))
            [] d.fam = "wishart" -> diff = SScale(Frac(BDim(d) * (BDim(d) + 1), 2), SLog(op.c))
            [] OTHER -> TRUE)
    [] op.op = "linear" ->
         (CASE d.fam = "mvn" -> diff = SLog(RAbs(DetR(op.A)))
            [] d.fam = "wishart" -> diff = SScale(R(BDim(d) + 1), SLog(RAbs(DetR(op.A)))))
    [] op.op = "bump" ->
         (CASE d.fam = "gamma" -> SmallDist(d) /\ SmallDist(dn) =>
                 diff = SSub(SLog(d.a[op.i]), Psi(d.a[op.i]))
            [] OTHER -> TRUE)
    [] op.op = "cat" -> IF d.fam = "mvn" THEN diff = MvnH([op.d EXCEPT !.e = d.e])
                        ELSE diff = TotalH(op.d)
    [] op.op = "perm" -> diff = S0
    [] op.op = "merge" ->
         (CASE d.fam = "multi" /\ d.eps = <<>> ->
                 \* grouping: what the two categories told apart
                 diff = SSum(Tab(N(d), LAMBDA i :
                    LET a == d.a[i][1]  b == d.a[i][2]  s == RAdd(a, b) IN
                    IF s = R0 THEN S0 ELSE SScale(RNeg(s), MultiH(<<RDiv(a, s), RDiv(b, s)>>, <<>>))))
            [] OTHER -> TRUE)
    [] op.op = "as" -> diff = S0
    [] OTHER -> TRUE
=============================================================================
