---------------------------- MODULE MC_Exponent ----------------------------
(***************************************************************************)
(* One parameter p, written and read by the same calls as in ParamStore.   *)
(***************************************************************************)
EXTENDS Exponent, Json, IOUtils
Suites == JsonDeserialize(IOEnv.LRVB_SUITES)
VARIABLES sid, st, last, step
vars == <<sid, st, last, step>>
C == Suites[sid].c
Init ==
  /\ sid \in 1..Len(Suites)
  /\ st = Suites[sid].z
  /\ last = 0 /\ step = 0
  /\ PrintT("@@" \o ToJson([s |-> sid, i |-> 0, h |-> [z |-> st, t |-> ToTerms(Suites[sid].c, st)]]))
Writes == {"set_free", "set_vector", "set", "free_to_vector"}
After(op) ==
  IF op.op \in Writes THEN op.z
  ELSE IF op.op = "rt_vector" THEN ToExps(C, ToTerms(C, st))
  ELSE IF op.op = "convert" THEN op.z
  ELSE st
Result(op) ==
  IF op.op \in Writes THEN ToTerms(C, op.z)
  ELSE IF op.op = "jac" THEN JacEnts(C, op.z)
  ELSE IF op.op = "hess" THEN HessEnts(C, op.z)
  ELSE IF op.op = "convert" THEN ConvertEnts(C, op.z, op.vg, op.vh)
  ELSE ToTerms(C, st)
Do(k) ==
  LET op == Suites[sid].ops[k] IN
  /\ st' = After(op)
  /\ last' = k
  /\ step' = step + 1
  /\ UNCHANGED sid
  /\ PrintT("@@" \o ToJson([s |-> sid, l |-> last, p |-> st, k |-> k, r |-> Result(op),
                            h |-> [z |-> st', t |-> ToTerms(C, st')]]))
Next == step < Len(Suites[sid].ops) /\ Do(step + 1)
Spec == Init /\ [][Next]_vars
TypeOK == WellFormed(C, st)
\* the vector determines the free value
RoundTrip == ToExps(C, ToTerms(C, st)) = st
\* the derivatives are those of ParamLeaf's exact map
Derivs == [][LET op == Suites[sid].ops[last'] IN
   op.op \in {"jac", "hess", "convert"} /\ Moderate(op.z) => DerivsAgree(C, op.z)]_vars
=============================================================================
