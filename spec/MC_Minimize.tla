----------------------------- MODULE MC_Minimize ---------------------------
EXTENDS MinimizeModel, Json, IOUtils
Suites == JsonDeserialize(IOEnv.LRVB_SUITES)
VARIABLES sid, st, last, step
vars == <<sid, st, last, step>>
Ob(s) == Suites[s].ob
Init ==
  /\ sid \in 1..Len(Suites)
  /\ st = MStart(0) /\ last = 0 /\ step = 0
  /\ PrintT("@@" \o ToJson([s |-> sid, i |-> 0, h |-> st, vopt |-> FreeToVec(Ob(sid).c, Ob(sid).xopt)]))
Next ==
  /\ step < Len(Suites[sid].ops)
  /\ LET op == Suites[sid].ops[step + 1] IN
     /\ st' = MAfter(st, op)
     /\ PrintT("@@" \o ToJson([s |-> sid, l |-> last, p |-> st, k |-> step + 1,
                               r |-> [ok |-> MOk(st, op)], h |-> st']))
  /\ last' = step + 1 /\ step' = step + 1 /\ UNCHANGED sid
Spec == Init /\ [][Next]_vars
\* xopt is a strict local minimum in the free coordinates
OptimalInv == step = 0 =>
  /\ \A k \in 1..ExtSize(Ob(sid).c) : FreeJet(Ob(sid)).g[k] = R0
  /\ IsPosDef(FreeJet(Ob(sid)).h)
=============================================================================
