----------------------------- MODULE MC_TwoParam ---------------------------
EXTENDS TwoParamModel, Json, IOUtils

Suites == JsonDeserialize(IOEnv.LRVB_SUITES)
VARIABLES sid, st, last, step
vars == <<sid, st, last, step>>
Ob(s) == Suites[s].ob

Init ==
  /\ sid \in 1..Len(Suites)
  /\ st = [q1 |-> FreeToVec(Ob(sid).c1, Suites[sid].x1),
           q2 |-> FreeToVec(Ob(sid).c2, Suites[sid].x2), num |-> TRUE]
  /\ last = 0
  /\ step = 0
  /\ PrintT("@@" \o ToJson([s |-> sid, i |-> 0, h |-> st]))

Do(k) ==
  LET op == Suites[sid].ops[k]
      nst == TAfter(Ob(sid), st, op)
      r == IF op.boom THEN <<>> ELSE TResult(Ob(sid), op)
  IN /\ st' = nst
     /\ last' = k
     /\ step' = IF Suites[sid].mode = "script" THEN step + 1 ELSE 0
     /\ UNCHANGED sid
     /\ PrintT("@@" \o ToJson([s |-> sid, l |-> last, p |-> st, k |-> k, r |-> r, h |-> nst]))

Next ==
  \/ /\ Suites[sid].mode = "script"
     /\ step < Len(Suites[sid].ops)
     /\ Do(step + 1)
  \/ /\ Suites[sid].mode = "graph"
     /\ \E k \in 1..Len(Suites[sid].ops) :
          \* a parameter holding differentiation values is not written half
          /\ (~st.num) => Suites[sid].ops[k].op \in TEvals \cup {"raw"}
          /\ Do(k)
Spec == Init /\ [][Next]_vars

FeasibleInv == Feasible(Ob(sid).c1, st.q1) /\ Feasible(Ob(sid).c2, st.q2)
Forgetful == [][LET op == Suites[sid].ops[last'] IN
   op.op \in TEvals => st' = [q1 |-> Point(Ob(sid).c1, op.x1, op.f1, op.q1),
                              q2 |-> Point(Ob(sid).c2, op.x2, op.f2, op.q2), num |-> TRUE]]_vars
\* the two blocks are each other's transpose; swapping the roles of the
\* parameters swaps the gradients
Mirror == [][LET op == Suites[sid].ops[last'] IN
   op.op \in {"hess12", "hess21"} =>
     TResult(Ob(sid), [op EXCEPT !.op = "hess12"])
       = Transpose(TResult(Ob(sid), [op EXCEPT !.op = "hess21"]))]_vars
=============================================================================
