------------------------------- MODULE MC_CG -------------------------------
EXTENDS CGModel, Json, IOUtils
Suites == JsonDeserialize(IOEnv.LRVB_SUITES)
VARIABLES sid, st, last, step
vars == <<sid, st, last, step>>
Ob(s) == Suites[s].ob
Init ==
  /\ sid \in 1..Len(Suites)
  /\ st = <<>> /\ last = 0 /\ step = 0
  /\ PrintT("@@" \o ToJson([s |-> sid, i |-> 0, h |-> st]))
Do(k) ==
  LET op == Suites[sid].ops[k] IN
  /\ Suites[sid].mode = "graph" => Len(st) <= 4
  /\ st' = CGAfter(Ob(sid), st, op)
  /\ last' = k
  /\ step' = IF Suites[sid].mode = "script" THEN step + 1 ELSE 0
  /\ UNCHANGED sid
  /\ PrintT("@@" \o ToJson([s |-> sid, l |-> last, p |-> st, k |-> k, r |-> CGResult(Ob(sid), op), h |-> st']))
Next ==
  \/ Suites[sid].mode = "script" /\ step < Len(Suites[sid].ops) /\ Do(step + 1)
  \/ Suites[sid].mode = "graph" /\ \E k \in 1..Len(Suites[sid].ops) : Do(k)
Spec == Init /\ [][Next]_vars
\* (large systems come in diagonal blocks of two)
HessianPD == step = 0 =>
  LET H == HessAtPoint(Ob(sid))  n == Len(H) IN
  IF n <= 5 THEN IsPosDef(H)
  ELSE /\ IsSym(H)
       /\ \A i, j \in 1..n : (H[i][j] # R0 /\ i < j) => (j = i + 1 /\ i % 2 = 1)
       /\ \A i \in 1..n : RLt(R0, H[i][i])
       /\ \A i \in 1..n-1 : i % 2 = 1 =>
            RLt(RMul(H[i][i + 1], H[i][i + 1]), RMul(H[i][i], H[i + 1][i + 1]))
\* the masked solutions of a partition add up
AddUp == [][
  LET op == Suites[sid].ops[last']  n == Len(Ob(sid).x0)
      new == SubSeq(st', Len(st) + 1, Len(st')) IN
  (op.op = "subsets" /\ op.partition) =>
     /\ Len(new) = Len(op.masks)
     /\ VSumTo(Tab(Len(new), LAMBDA i : new[i].vec), Len(new), n) = op.vec
     /\ VSumTo(Tab(Len(new), LAMBDA i : new[i].sol), Len(new), n) = Solve(Ob(sid), op.vec)]_vars
=============================================================================
