--------------------------- MODULE MC_Regression ---------------------------
EXTENDS Regression, Json, IOUtils
Suites == JsonDeserialize(IOEnv.LRVB_SUITES)
\* step: calls since the last reset (in a script: calls)
VARIABLES sid, st, last, step
vars == <<sid, st, last, step>>
Init ==
  /\ sid \in 1..Len(Suites)
  /\ st = NatOf(Suites[sid].mean, Suites[sid].info) /\ last = 0 /\ step = 0
  /\ PrintT("@@" \o ToJson([s |-> sid, i |-> 0, h |-> st, r |-> Both(st)]))
Do(k) ==
  LET op == Suites[sid].ops[k] IN
  /\ st' = After(st, op)
  /\ last' = k
  /\ step' = IF Suites[sid].mode = "graph" /\ op.op = "reset" THEN 0 ELSE step + 1
  /\ UNCHANGED sid
  /\ PrintT("@@" \o ToJson([s |-> sid, l |-> last, p |-> st, k |-> k, r |-> Result(st, op),
                            b |-> Both(st'), h |-> st']))
Next ==
  \/ Suites[sid].mode = "script" /\ step < Len(Suites[sid].ops) /\ Do(step + 1)
  \/ Suites[sid].mode = "graph" /\ \E k \in 1..Len(Suites[sid].ops) :
       (Suites[sid].ops[k].op = "reset" \/ step < 2) /\ Do(k)
Spec == Init /\ [][Next]_vars

\* natural parameters and mean and information are inverse to one another
Inverse2 == NatOf(MeanOf(st), InfoOf(st)) = st
Proper == \A i \in 1..Len(st) : IsPosDef(InfoOf(st)[i])
Laws == [][
  LET op == Suites[sid].ops[last'] IN
  /\ op.op = "update" => Stationary(st, op.d, st')
  /\ op.op = "coef" => NormalEquations(op.d, MeanOf(Lik(op.d)))
  /\ op.op \in {"lik", "update"} => Lik(Stacked(op.d)) = Lik(op.d)]_vars
\* one update with all the data is two updates, in either order
Batches == [][
  LET op == Suites[sid].ops[last'] IN
  last # 0 /\ op.op = "update" /\ Suites[sid].ops[last].op = "update" =>
    LET d == Stacked(Suites[sid].ops[last].d)  e == Stacked(op.d) IN
    /\ Lik(Joined(d, e)) = Plus(Lik(d), Lik(e))
    /\ Lik(Joined(e, d)) = Lik(Joined(d, e))]_vars
=============================================================================
