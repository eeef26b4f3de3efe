-------------------------------- MODULE Priors -----------------------------
(***************************************************************************)
(* Prior terms, the normal log density, and numerical expectations under   *)
(* arrays of normals, exactly.                                             *)
(*                                                                         *)
(* State: the integration rule in use and an array of normals.             *)
(*   rule  gh: 0, or the degree of a Gauss-Hermite rule;                   *)
(*         otherwise nodes t (standard deviations) and weights w           *)
(*   z     kind "rat": means m, standard deviations s (rational)           *)
(*         kind "log": mean log a, standard deviation log b: at node t     *)
(*                     the exponential of the variable is a b^t            *)
(*         kind "far": as "rat", every node far (60 or more) from zero     *)
(*         with the shape of the array                                     *)
(***************************************************************************)
EXTENDS ExpFam

(* ---- expectations of polynomials --------------------------------------- *)
Horner(p, x) == LET RECURSIVE Go(_)
                    Go(i) == IF i > Len(p) THEN R0 ELSE RAdd(p[i], RMul(x, Go(i + 1))) IN Go(1)
\* central moments of the standard normal
Moment(j) == IF j % 2 = 1 THEN R0 ELSE
             LET RECURSIVE Go(_)
                 Go(i) == IF i <= 1 THEN 1 ELSE (i - 1) * Go(i - 2) IN R(Go(j))
PAddC(p, q) == Tab(IF Len(p) > Len(q) THEN Len(p) ELSE Len(q), LAMBDA i :
   RAdd(IF i <= Len(p) THEN p[i] ELSE R0, IF i <= Len(q) THEN q[i] ELSE R0))
PMulC(p, q) == Tab(Len(p) + Len(q) - 1, LAMBDA i :
   RSum(Tab(i, LAMBDA j : IF j <= Len(p) /\ i - j + 1 <= Len(q) THEN RMul(p[j], q[i - j + 1]) ELSE R0)))
\* coefficients of p(m + s x)
Compose(p, m, s) ==
  LET RECURSIVE Go(_)
      Go(i) == IF i > Len(p) THEN <<R0>> ELSE PAddC(<<p[i]>>, PMulC(<<m, s>>, Go(i + 1)))
  IN Go(1)
ExactE(p, m, s) == LET q == Compose(p, m, s) IN RSum(Tab(Len(q), LAMBDA i : RMul(q[i], Moment(i - 1))))
RuleE(rule, p, m, s) ==
  RSum(Tab(Len(rule.t), LAMBDA i : RMul(rule.w[i], Horner(p, RAdd(m, RMul(s, rule.t[i]))))))
EPoly(rule, p, m, s) == IF rule.gh > 0 THEN ExactE(p, m, s) ELSE RuleE(rule, p, m, s)
NZ(z) == Len(z.m)
PolyOf(rule, z, p) == Tab(NZ(z), LAMBDA i : EPoly(rule, p, z.m[i], z.s[i]))
PDeriv(p) == IF Len(p) <= 1 THEN <<R0>> ELSE Tab(Len(p) - 1, LAMBDA i : RMul(R(i), p[i + 1]))

(* ---- the logistic function ---------------------------------------------- *)
\* exp of the variable at node t (an integer), for kind "log"
RZPow(b, t) == IF t[1] >= 0 THEN RPow(b, t[1]) ELSE RInv(RPow(b, -t[1]))
OddsAt(z, i, t) == RMul(z.m[i], RZPow(z.s[i], t))
FarAt(z, i, t) == RAdd(z.m[i], RMul(z.s[i], t))
\* log(1 + exp)
Soft(z, i, t) == IF z.kind = "log" THEN SLog(RAdd(R1, OddsAt(z, i, t)))
                 ELSE SRat(RMax(R0, FarAt(z, i, t)))
Mean(z, i) == IF z.kind = "log" THEN SLog(z.m[i]) ELSE SRat(z.m[i])
Expit(z, i, t) == IF z.kind = "log" THEN RDiv(OddsAt(z, i, t), RAdd(R1, OddsAt(z, i, t)))
                  ELSE IF RLt(R0, FarAt(z, i, t)) THEN R1 ELSE R0
LogExpit(z, i, t) == SSub(IF z.kind = "log" THEN SLog(OddsAt(z, i, t)) ELSE SRat(FarAt(z, i, t)), Soft(z, i, t))
Under(rule, F(_)) == SSum(Tab(Len(rule.t), LAMBDA j : SScale(rule.w[j], F(rule.t[j]))))
\* sum of y E z, minus the average over the draws of log(1 + exp)
LogisticTerm(z, y, draws) ==
  SSub(SSum(Tab(NZ(z), LAMBDA i : SScale(y[i], Mean(z, i)))),
       SScale(<<1, Len(draws)>>, SSum(Tab(NZ(z), LAMBDA i : SSum(Tab(Len(draws), LAMBDA j : Soft(z, i, draws[j])))))))
SoftE(rule, z) == Tab(NZ(z), LAMBDA i : Under(rule, LAMBDA t : Soft(z, i, t)))
ExpitE(rule, z) == Tab(NZ(z), LAMBDA i : SSum(Tab(Len(rule.t), LAMBDA j : SRat(RMul(rule.w[j], Expit(z, i, rule.t[j]))))))
LogV(rule, z) == Tab(NZ(z), LAMBDA i : Under(rule, LAMBDA t : LogExpit(z, i, t)))
Log1mV(rule, z) == Tab(NZ(z), LAMBDA i : SScale(R(-1), Under(rule, LAMBDA t : Soft(z, i, t))))
\* the variable negated
Neg(z) == [z EXCEPT !.m = Tab(NZ(z), LAMBDA i : IF z.kind = "log" THEN RInv(z.m[i]) ELSE RNeg(z.m[i]))]
SymmetricRule(rule) ==
  /\ rule.gh = 0 /\ RSum(rule.w) = R1
  /\ \A i \in 1..Len(rule.t) : LET j == Len(rule.t) + 1 - i IN rule.t[j] = RNeg(rule.t[i]) /\ rule.w[j] = rule.w[i]

(* ---- priors ------------------------------------------------------------- *)
\* expectation of - 1/2 (x - m)' L (x - m), from E x and E x x'
MvnPrior(m, L, e, c) ==
  LET ee == MAdd(c, Outer(e, e)) IN
  RMul(<<-1, 2>>, RAdd(RSub(Trace(MatMul(L, ee)), RMul(R(2), Dot(m, MatVec(L, e)))), Dot(m, MatVec(L, m))))
UvnPrior(m, l, e, v) == MvnPrior(<<m>>, << <<l>> >>, <<e>>, << <<v>> >>)
\* the variable is gamma with shape a and rate b
GammaPrior(a0, b0, a, b) ==
  SAdd(SScale(RSub(a0, R1), ELogGamma(a, b)), SRat(RNeg(RMul(b0, RDiv(a, b.q)))))
ExpPrior(l, e) == RNeg(RMul(l, e))
DirPrior(a0, al) == LET el == ELogDir(al) IN SSum(Tab(Len(al), LAMBDA i : SScale(RSub(a0[i], R1), el[i])))
LkjPrior(l, d) ==
  LET li == ELogInvDiagWish(d) IN
  \* log det of the correlation matrix of the inverse
  SScale(RSub(l, R1), SSub(SScale(R(-1), ELogDetWish(d)), SSum(li)))
\* un: the variable is measured in units of 2^un
LogProb(u, m, l) ==
  LET dd == RSub(u, m) IN
  SSum(<<SRat(RMul(<<-1, 2>>, RMul(l, RMul(dd, dd)))), SScale(RHalf, SLog(l)), SScale(<<-1, 2>>, LogTwoPi)>>)
\* Calls are made in units of 2^un: x stands for x 2^un, a precision for
\* l 2^(-2 un), a rate for b 2^(-un).  Expectations of quadratic forms do not
\* depend on the unit; log densities shift by un log 2.
Unit(op) == IF "un" \in DOMAIN op THEN op.un ELSE 0
UnitShift(op, s) == SSub(s, SScale(R(Unit(op)), SLog2))

(* ---- calls -------------------------------------------------------------- *)
At(s, i) == IF Len(s) = 1 THEN s[1] ELSE s[i]
Each(op, F(_)) == Tab(op.n, LAMBDA i : F(i))
PApply(st, op) ==
  CASE op.op = "rule" -> [st EXCEPT !.rule = op.rule]
    [] op.op = "normals" -> [st EXCEPT !.z = op.z]
    [] op.op = "negate" -> [st EXCEPT !.z = Neg(@)]
    [] OTHER -> st
PResult(st, op) ==
  CASE op.op = "efun" -> Tab(NZ(st.z), LAMBDA i : SRat(EPoly(st.rule, op.p, st.z.m[i], st.z.s[i])))
    [] op.op = "logistic" -> <<LogisticTerm(st.z, op.y, op.t)>>
    [] op.op = "softgh" -> SoftE(st.rule, st.z)
    [] op.op = "expit" -> ExpitE(st.rule, st.z)
    [] op.op = "logexpit" -> LogV(st.rule, st.z) \o Log1mV(st.rule, st.z)
    [] op.op = "dp" -> LET l == Log1mV(st.rule, st.z) IN Tab(NZ(st.z), LAMBDA i : SScale(RSub(At(op.a, i), R1), l[i]))
    [] op.op = "mvn" -> <<SRat(MvnPrior(op.m, op.L, op.e, op.c))>>
    [] op.op = "uvn" -> Each(op, LAMBDA i : SRat(UvnPrior(At(op.m, i), At(op.l, i), At(op.e, i), At(op.v, i))))
    [] op.op = "gamma" -> Each(op, LAMBDA i : GammaPrior(At(op.a0, i), At(op.b0, i), At(op.a, i), At(op.b, i)))
    [] op.op = "expo" -> Each(op, LAMBDA i : SRat(ExpPrior(At(op.l, i), At(op.e, i))))
    [] op.op = "dir" -> <<DirPrior(op.a0, op.a)>>
    [] op.op = "lkj" -> <<LkjPrior(op.l, op.d)>>
    [] op.op = "logprob" -> Each(op, LAMBDA i : UnitShift(op, LogProb(At(op.u, i), At(op.m, i), At(op.l, i))))
    [] op.op = "nat" -> Each(op, LAMBDA i : SRat(RDiv(At(op.e, i), RMul(R(-2), At(op.q, i)))))
                        \o Each(op, LAMBDA i : SRat(RMul(R(-2), At(op.q, i))))
    [] OTHER -> <<>>
\* inputs the calls take that are themselves closed forms
PInput(op) ==
  CASE op.op = "gamma" -> Each(op, LAMBDA i : ELogGamma(At(op.a, i), At(op.b, i)))
    [] op.op = "dir" -> ELogDir(op.a)
    [] OTHER -> <<>>

(* ---- laws ---------------------------------------------------------------- *)
One1 == [q |-> R1, e |-> 0]
Law(st, op) ==
  CASE op.op = "efun" /\ st.rule.gh > 0 ->
         \* Stein: E (x - m) f = s^2 E f'
         \A i \in 1..NZ(st.z) : LET m == st.z.m[i]  s == st.z.s[i] IN
           ExactE(PMulC(<<RNeg(m), R1>>, op.p), m, s) = RMul(RMul(s, s), ExactE(PDeriv(op.p), m, s))
    [] op.op = "expit" /\ SymmetricRule(st.rule) ->
         \* success and failure
         LET a == ExpitE(st.rule, st.z)  b == ExpitE(st.rule, Neg(st.z)) IN
         \A i \in 1..NZ(st.z) : SAdd(a[i], b[i]) = SRat(R1)
    [] op.op \in {"logexpit", "dp"} /\ SymmetricRule(st.rule) ->
         LET v == LogV(st.rule, st.z)  u == Log1mV(st.rule, st.z) IN
         /\ u = LogV(st.rule, Neg(st.z))
         /\ \A i \in 1..NZ(st.z) : SSub(v[i], u[i]) = Mean(st.z, i)
    [] op.op = "softgh" /\ st.rule.gh = 0 ->
         SoftE(st.rule, st.z) = Tab(NZ(st.z), LAMBDA i : SScale(R(-1), Log1mV(st.rule, st.z)[i]))
    [] op.op = "mvn" ->
         LET d == VSub(op.e, op.m) IN
         MvnPrior(op.m, op.L, op.e, op.c) =
           RMul(<<-1, 2>>, RAdd(Quad(op.L, d, d), Trace(MatMul(op.L, op.c))))
    [] op.op = "gamma" -> \A i \in 1..op.n :
         LET a == At(op.a, i)  b == At(op.b, i) IN
         \* the prior equal to the distribution gives minus its entropy, up to the constant
         /\ SSum(<<GammaPrior(a, b.q, a, b), SScale(a, NLog(b)), SScale(R(-1), LGam(a))>>) = SScale(R(-1), GammaH(a, b))
         /\ GammaPrior(R1, At(op.b0, i), a, b) = SRat(ExpPrior(At(op.b0, i), RDiv(a, b.q)))
    [] op.op = "dir" ->
         SSub(DirPrior(op.a, op.a), SSub(SSum(Tab(Len(op.a), LAMBDA i : LGam(op.a[i]))), LGam(RSum(op.a))))
           = SScale(R(-1), DirH(op.a))
    [] op.op = "lkj" ->
         /\ LkjPrior(R1, op.d) = S0
         \* only the correlation matters
         /\ LkjPrior(op.l, [op.d EXCEPT !.e = @ + 1]) = LkjPrior(op.l, op.d)
         /\ Len(op.d.m) = 1 /\ BDim(op.d) = 1 => LkjPrior(op.l, op.d) = S0
    [] op.op = "logprob" -> \A i \in 1..op.n :
         LET u == At(op.u, i)  m == At(op.m, i)  l == At(op.l, i) IN
         \* the expectation under the distribution itself is minus the entropy
         /\ SSum(<<SRat(UvnPrior(m, l, m, RInv(l))), LogProb(m, m, l)>>) = SScale(R(-1), UvnH([q |-> l, e |-> 0]))
         /\ LogProb(u, m, l) = LogProb(RSub(RMul(R(2), m), u), m, l)
    [] op.op = "nat" -> \A i \in 1..op.n :
         LET e == At(op.e, i)  q == At(op.q, i)  l == RMul(R(-2), q)  m == RDiv(e, l)
             F(x) == RSub(RAdd(RMul(e, x), RMul(q, RMul(x, x))), RMul(<<-1, 2>>, RMul(l, RMul(RSub(x, m), RSub(x, m))))) IN
         F(R0) = F(R1) /\ F(R0) = F(<<-2, 3>>)
    [] OTHER -> TRUE
=============================================================================
