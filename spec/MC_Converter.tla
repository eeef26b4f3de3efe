----------------------------- MODULE MC_Converter --------------------------
EXTENDS ConverterModel, Json, IOUtils

Suites == JsonDeserialize(IOEnv.LRVB_SUITES)
VARIABLES sid, st, last, step
vars == <<sid, st, last, step>>
Ob(s) == Suites[s].ob

Init ==
  /\ sid \in 1..Len(Suites)
  /\ st = [qi |-> FreeToVec(Ob(sid).ci, Suites[sid].xi), qo |-> FreeToVec(Ob(sid).co, Suites[sid].xo), raw |-> FALSE]
  /\ last = 0
  /\ step = 0
  /\ PrintT("@@" \o ToJson([s |-> sid, i |-> 0, h |-> st]))

Do(k) ==
  LET op == Suites[sid].ops[k]
      nst == CAfter(Ob(sid), st, op)
      r == IF op.boom THEN <<>> ELSE CResult(Ob(sid), op)
  IN /\ st' = nst
     /\ last' = k
     /\ step' = IF Suites[sid].mode = "script" THEN step + 1 ELSE 0
     /\ UNCHANGED sid
     /\ PrintT("@@" \o ToJson([s |-> sid, l |-> last, p |-> st, k |-> k, r |-> r, h |-> nst]))

Next ==
  \/ /\ Suites[sid].mode = "script"
     /\ step < Len(Suites[sid].ops)
     /\ Do(step + 1)
  \/ /\ Suites[sid].mode = "graph"
     /\ \E k \in 1..Len(Suites[sid].ops) : Do(k)
Spec == Init /\ [][Next]_vars

FeasibleInv == Feasible(Ob(sid).ci, st.qi) /\ (st.raw \/ Feasible(Ob(sid).co, st.qo))
Restores == [][LET op == Suites[sid].ops[last'] IN
   op.op = "jac" => st'.qo = st.qo /\ st'.raw = st.raw /\ st'.qi = Point(Ob(sid), op)]_vars
\* chain rule: the free-to-vector Jacobian of the output composes them
Chain == [][LET op == Suites[sid].ops[last'] IN
   (op.op = "jac" /\ ~op.fo) =>
     LET co == Ob(sid).co
         Jo == JacOf(VecJetsE(co, JFirsts(CoordJets(OutExt(Ob(sid), op))), ExtSize(co))) IN
     CResult(Ob(sid), op) = MatMul(Jo, CResult(Ob(sid), [op EXCEPT !.fo = TRUE]))]_vars
\* and so does that of the input
ChainIn == [][LET op == Suites[sid].ops[last'] IN
   (op.op = "jac" /\ op.fi) =>
     CResult(Ob(sid), op) = MatMul(CResult(Ob(sid), [op EXCEPT !.fi = FALSE, !.q = <<>>]),
                                   JacOf(VecJetsE(Ob(sid).ci, JFirsts(CoordJets(op.x)), Len(op.x))))]_vars
=============================================================================
