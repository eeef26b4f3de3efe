----------------------------- MODULE MC_EvalLog ----------------------------
EXTENDS EvalLog, Json, IOUtils
Suites == JsonDeserialize(IOEnv.LRVB_SUITES)
VARIABLES sid, st, last, step,
          all,     \* per log, everything ever logged since its last reset, kept independently
          told     \* per log, how many of those were reported
vars == <<sid, st, last, step, all, told>>
Init ==
  /\ sid \in 1..Len(Suites)
  /\ st = [i \in 1..Suites[sid].logs |-> LStart(Suites[sid].every[i])]
  /\ last = 0 /\ step = 0
  /\ all = [i \in 1..Suites[sid].logs |-> 0]
  /\ told = [i \in 1..Suites[sid].logs |-> <<>>]
  /\ PrintT("@@" \o ToJson([s |-> sid, i |-> 0, h |-> st]))
Do(k) ==
  LET op == Suites[sid].ops[k]  l == st[op.log] IN
  /\ Logs(op) => Len(l.pairs) < Suites[sid].bound
  /\ st' = [st EXCEPT ![op.log] = LAfter(l, op)]
  /\ all' = [all EXCEPT ![op.log] = IF op.op = "reset" THEN 0 ELSE IF Logs(op) THEN @ + 1 ELSE @]
  /\ told' = [told EXCEPT ![op.log] =
        IF op.op = "reset" THEN <<>> ELSE IF LTold(l, op).to >= 0 THEN Append(@, LTold(l, op).n) ELSE @]
  /\ last' = k
  /\ step' = IF Suites[sid].mode = "script" THEN step + 1 ELSE 0
  /\ UNCHANGED sid
  /\ PrintT("@@" \o ToJson([s |-> sid, l |-> last, p |-> st, k |-> k, r |-> LTold(l, op), h |-> st']))
Next ==
  \/ Suites[sid].mode = "script" /\ step < Len(Suites[sid].ops) /\ Do(step + 1)
  \/ Suites[sid].mode = "graph" /\ \E k \in 1..Len(Suites[sid].ops) : Do(k)
Spec == Init /\ [][Next]_vars
\* the states of a log, without the history variables
View == <<sid, st, last, step>>

CountInv == \A i \in 1..Len(st) : Len(st[i].pairs) = all[i]
\* the first evaluation after a reset is always reported
FirstReported == \A i \in 1..Len(st) : all[i] > 0 => Len(told[i]) > 0 /\ told[i][1] = 0
\* with a fixed interval, exactly the multiples are
Multiples == \A i \in 1..Len(st) :
  (\A k \in 1..Len(Suites[sid].ops) : Suites[sid].ops[k].op # "every") =>
     told[i] = [j \in 1..Len(told[i]) |-> (j - 1) * st[i].every]
\* operations on one log leave the others alone; the log only grows or empties
Separate == [][\A i \in 1..Len(st) :
   /\ i # Suites[sid].ops[last'].log => st'[i] = st[i]
   /\ \/ st'[i].pairs = <<>>
      \/ SubSeq(st'[i].pairs, 1, Len(st[i].pairs)) = st[i].pairs
   /\ Suites[sid].ops[last'].op = "reset" => st'[i].every = st[i].every /\ st'[i].cb = st[i].cb]_vars
=============================================================================
