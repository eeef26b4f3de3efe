----------------------------- MODULE MC_Priors -----------------------------
EXTENDS Priors, Json, IOUtils
Suites == JsonDeserialize(IOEnv.LRVB_SUITES)
VARIABLES sid, st, last, step
vars == <<sid, st, last, step>>
Init ==
  /\ sid \in 1..Len(Suites)
  /\ st = [rule |-> Suites[sid].rule, z |-> Suites[sid].z] /\ last = 0 /\ step = 0
  /\ PrintT("@@" \o ToJson([s |-> sid, i |-> 0, h |-> st]))
\* rules are given for the far or near normals they suit
Enabled(op) == op.op \in {"softgh", "expit", "logexpit", "dp", "logistic"} => st.z.kind # "rat"
EnabledEfun(op) == op.op = "efun" => st.z.kind = "rat" /\ (st.rule.gh > 0 => Len(op.p) <= 2 * st.rule.gh)
Do(k) ==
  LET op == Suites[sid].ops[k] IN
  /\ Enabled(op) /\ EnabledEfun(op)
  /\ op.op \in {"softgh", "expit"} => st.rule.gh = 0
  /\ op.op \in {"logexpit", "dp"} => SymmetricRule(st.rule)
  /\ op.op = "logistic" => Len(op.y) = NZ(st.z)
  /\ st' = PApply(st, op)
  /\ last' = k
  /\ step' = IF Suites[sid].mode = "script" THEN step + 1 ELSE 0
  /\ UNCHANGED sid
  /\ PrintT("@@" \o ToJson([s |-> sid, l |-> last, p |-> st, k |-> k, r |-> PResult(st, op), q |-> PInput(op), h |-> st']))
Next ==
  \/ Suites[sid].mode = "script" /\ step < Len(Suites[sid].ops) /\ Do(step + 1)
  \/ Suites[sid].mode = "graph" /\ \E k \in 1..Len(Suites[sid].ops) : Do(k)
Spec == Init /\ [][Next]_vars
Laws == [][Law(st, Suites[sid].ops[last'])]_vars
=============================================================================
