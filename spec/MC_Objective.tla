----------------------------- MODULE MC_Objective --------------------------
EXTENDS ObjectiveModel, Json, IOUtils

Suites == JsonDeserialize(IOEnv.LRVB_SUITES)
VARIABLES sid, st, last, step
vars == <<sid, st, last, step>>

Ob(s) == Suites[s].ob
Init ==
  /\ sid \in 1..Len(Suites)
  /\ st = [q |-> FreeToVec(Ob(sid).c, Suites[sid].x0), num |-> TRUE, pre |-> Ob(sid).pre]
  /\ last = 0
  /\ step = 0
  /\ PrintT("@@" \o ToJson([s |-> sid, i |-> 0, h |-> st]))

Do(k) ==
  LET op == Suites[sid].ops[k]
      nst == After(Ob(sid), st, op)
      \* a failing evaluation returns nothing
      r == IF op.boom THEN <<>> ELSE Result(Ob(sid), st.pre, op)
  IN /\ st' = nst
     /\ last' = k
     /\ step' = IF Suites[sid].mode = "script" THEN step + 1 ELSE 0
     /\ UNCHANGED sid
     /\ PrintT("@@" \o ToJson([s |-> sid, l |-> last, p |-> st, k |-> k, r |-> r, h |-> nst]))

Next ==
  \/ /\ Suites[sid].mode = "script"
     /\ step < Len(Suites[sid].ops)
     /\ Do(step + 1)
  \/ /\ Suites[sid].mode = "graph"
     /\ \E k \in 1..Len(Suites[sid].ops) : Do(k)
Spec == Init /\ [][Next]_vars

\* the parameter only ever holds feasible values
FeasibleInv == Feasible(Ob(sid).c, st.q)
\* only direct differentiation leaves anything but numbers behind
NumericInv == st.num \/ Suites[sid].ops[last].op \in {"raw", "uncondition", "setpre"}
\* an evaluation leaves the parameter at its point whatever was there before
Forgetful == [][LET op == Suites[sid].ops[last'] IN
   op.op \in Evaluations => /\ st'.q = Point(Ob(sid).c, op)
                            /\ st'.num]_vars
\* derivatives are coherent: Hessians are symmetric, products agree with them
Coherent == [][LET op == Suites[sid].ops[last'] IN
   /\ op.op = "hessian" => IsSym(Result(Ob(sid), st.pre, op))
   /\ op.op = "grad" =>
        LET s == Parts(Ob(sid), op) IN
        Result(Ob(sid), st.pre, op) = PVec(st.pre, op, VAdd(s[1].g, s[2].g))]_vars
=============================================================================
