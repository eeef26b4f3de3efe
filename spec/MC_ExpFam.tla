----------------------------- MODULE MC_ExpFam -----------------------------
EXTENDS ExpFam, Json, IOUtils
Suites == JsonDeserialize(IOEnv.LRVB_SUITES)
VARIABLES sid, st, last, step
vars == <<sid, st, last, step>>
Init ==
  /\ sid \in 1..Len(Suites)
  /\ st = Suites[sid].d /\ last = 0 /\ step = 0
  /\ PrintT("@@" \o ToJson([s |-> sid, i |-> 0, r |-> Report(st), h |-> st]))
Do(k) ==
  LET op == Suites[sid].ops[k] IN
  /\ st' = Apply(st, op)
  /\ last' = k
  /\ step' = IF op.op = "set" /\ Suites[sid].mode = "graph" THEN 0 ELSE step + 1
  /\ UNCHANGED sid
  /\ PrintT("@@" \o ToJson([s |-> sid, l |-> last, p |-> st, k |-> k, r |-> Report(st'), h |-> st']))
Next ==
  \/ Suites[sid].mode = "script" /\ step < Len(Suites[sid].ops) /\ Do(step + 1)
  \* in a graph, at most depth transformations since the last set
  \/ Suites[sid].mode = "graph" /\ \E k \in 1..Len(Suites[sid].ops) :
       (Suites[sid].ops[k].op = "set" \/ step < Suites[sid].depth) /\ Do(k)
Spec == Init /\ [][Next]_vars

\* the entropies are minus the expected log densities
EntropyRight == SmallDist(st) => Ent(st) = NegELogP(st)
\* a Dirichlet vector by its chain rule, and as the shares of gammas
DirichletRight == st.fam = "dirichlet" /\ SmallDist(st) =>
   \A j \in 1..N(st) : LET al == Column(st, j) IN
     /\ GammaDir(al)
     /\ Len(al) >= 2 /\ (\A i \in 1..Len(al) : Small(RSum(SubSeq(al, i, Len(al))))) => DirChain(al) = DirH(al)
\* first and second moments of the lognormal
LogNormalRight == st.fam = "lognormal" /\ Plain(st) => \A i \in 1..N(st) :
   SAdd(VarLogNormal(st.a[i], st.s[i].q), SExp(RAdd(RMul(R(2), st.a[i]), st.s[i].q))) =
     ELogNormal(RMul(R(2), st.a[i]), RMul(R(4), st.s[i].q))
\* a one dimensional Wishart is a gamma
WishartRight == st.fam = "wishart" /\ BDim(st) = 1 /\ SmallDist(st) =>
   LET a == RMul(RHalf, st.df)  b == [q |-> RInv(RMul(R(2), st.m[1][1][1])), e |-> -st.e] IN
   /\ WishH(st) = GammaH(a, b)
   /\ ELogDetWish(st) = ELogGamma(a, b)
   /\ ELogInvDiagWish(st)[1] = SScale(R(-1), ELogGamma(a, b))
Laws == [][ChangeLaw(st, Suites[sid].ops[last'], st')]_vars
=============================================================================
