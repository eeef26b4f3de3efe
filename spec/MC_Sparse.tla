------------------------------ MODULE MC_Sparse ----------------------------
EXTENDS SparseMat, Json, IOUtils
Suites == JsonDeserialize(IOEnv.LRVB_SUITES)
VARIABLES sid, st, last, step
vars == <<sid, st, last, step>>
Init ==
  /\ sid \in 1..Len(Suites)
  /\ st = <<>> /\ last = 0 /\ step = 0
  /\ PrintT("@@" \o ToJson([s |-> sid, i |-> 0, h |-> st]))
Next ==
  /\ step < Len(Suites[sid].ops)
  /\ LET op == Suites[sid].ops[step + 1] IN
     /\ st' = SAfter(st, op)
     /\ PrintT("@@" \o ToJson([s |-> sid, l |-> last, p |-> st, k |-> step + 1, r |-> SResult(st, op), h |-> st']))
  /\ last' = step + 1 /\ step' = step + 1 /\ UNCHANGED sid
Spec == Init /\ [][Next]_vars
\* nothing is lost: totals agree; a block at distinct indices can be read back;
\* symmetric placement of a symmetric block is symmetric
PTotal(op) == Total(st') = Total(op.sub)
Distinct(x) == \A a, b \in 1..Len(x) : a # b => x[a] # x[b]
PBack(op) == (Distinct(op.rows) /\ Distinct(op.cols)) =>
  Tab2(Len(op.rows), Len(op.cols), LAMBDA a, b : st'[op.rows[a]][op.cols[b]]) = op.sub
PZero(op) == \A i \in 1..op.n : (\A a \in 1..Len(op.rows) : op.rows[a] # i) => st'[i] = ZeroVec(op.m)
PSym(op) == (op.n = op.m /\ op.rows = op.cols /\ IsSym(op.sub)) => IsSym(st')
Placed == [][LET op == Suites[sid].ops[step'] IN
   op.op = "place" => PTotal(op) /\ PBack(op) /\ PZero(op) /\ PSym(op)]_vars
Kept == [][Suites[sid].ops[step'].op \in {"pack", "json", "text", "look", "times"} => st' = st]_vars
\* products respect transposition
Transposes == [][LET op == Suites[sid].ops[step'] IN
   op.op = "times" => Transpose(SResult(st, op)) =
     SResult(Transpose(st), [op EXCEPT !.left = ~op.left, !.B = Transpose(op.B)])]_vars
=============================================================================
