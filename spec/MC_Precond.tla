----------------------------- MODULE MC_Precond ----------------------------
EXTENDS Precond, Json, IOUtils
Suites == JsonDeserialize(IOEnv.LRVB_SUITES)
VARIABLES sid, st, last, step
vars == <<sid, st, last, step>>
Ob(s) == Suites[s].ob
Init ==
  /\ sid \in 1..Len(Suites)
  /\ st = <<>> /\ last = 0 /\ step = 0
  /\ PrintT("@@" \o ToJson([s |-> sid, i |-> 0, h |-> st]))
Do(k) ==
  LET op == Suites[sid].ops[k] IN
  /\ op.op = "cond" => st # <<>>
  /\ st' = PAfter(Ob(sid), st, op)
  /\ last' = k
  /\ step' = IF Suites[sid].mode = "script" THEN step + 1 ELSE 0
  /\ UNCHANGED sid
  /\ PrintT("@@" \o ToJson([s |-> sid, l |-> last, p |-> st, k |-> k, ok |-> POk(op),
                            r |-> PResult(Ob(sid), st, op), h |-> st']))
Next ==
  \/ Suites[sid].mode = "script" /\ step < Len(Suites[sid].ops) /\ Do(step + 1)
  \/ Suites[sid].mode = "graph" /\ \E k \in 1..Len(Suites[sid].ops) : Do(k)
Spec == Init /\ [][Next]_vars

\* F, given as a polynomial, has the Hessian claimed
HessianRight == [][
  LET op == Suites[sid].ops[last']  ob == Ob(sid)  n == Len(ob.a) IN
  op.op = "install" /\ op.at =>
    Tab2(n, n, LAMBDA i, j : PolyEval(PolyD(PolyD(ob.F, i), j), op.x)) = Given(HessOf(ob, op.x))]_vars
Right == [][
  LET op == Suites[sid].ops[last'] IN
  /\ op.op = "compute" => PairRight(op.m, op.lo, op.hi)
  /\ op.op = "install" /\ POk(op) => PairRight(Source(Ob(sid), op), op.lo, op.hi)]_vars
\* conditioning at the point of installation gives the identity
UnitThere == [][
  LET op == Suites[sid].ops[last'] IN
  op.op = "install" /\ op.at /\ ~op.given =>
    LET m == HessOf(Ob(sid), op.x)  n == Len(m.lam)
        r == MatMul(st', MatMul(Given(m), st')) IN
    /\ (\A i \in 1..n : Clamp(m.lam[i], op.lo, op.hi) = m.lam[i]) => r = Eye(n)
    \* in general, the ratio of the eigenvalues to the clamped ones
    /\ r = FromEigen(m.Q, Tab(n, LAMBDA i : RDiv(m.lam[i], Clamp(m.lam[i], op.lo, op.hi))))]_vars
=============================================================================
