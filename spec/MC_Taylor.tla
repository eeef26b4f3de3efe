------------------------------ MODULE MC_Taylor ----------------------------
EXTENDS TaylorModel, Json, IOUtils

Suites == JsonDeserialize(IOEnv.LRVB_SUITES)
VARIABLES sid, st, last, step
vars == <<sid, st, last, step>>
Ob(s) == Suites[s].ob

Init ==
  /\ sid \in 1..Len(Suites)
  /\ st = [b |-> Suites[sid].b, order |-> Suites[sid].order]
  /\ last = 0
  /\ step = 0
  /\ PrintT("@@" \o ToJson([s |-> sid, i |-> 0, h |-> st,
        bases |-> Tab(Len(Ob(sid).bases), LAMBDA i :
           LET b == Ob(sid).bases[i] IN
           [vi |-> FreeToVec(Ob(sid).ci, b.xi), vh |-> FreeToVec(Ob(sid).ch, b.xh),
            hess |-> HessAt(Ob(sid), b)])]))

Do(k) ==
  LET op == Suites[sid].ops[k]
      nst == TAfter(Ob(sid), st, op)
  IN /\ st' = nst
     /\ last' = k
     /\ step' = IF Suites[sid].mode = "script" THEN step + 1 ELSE 0
     /\ UNCHANGED sid
     /\ PrintT("@@" \o ToJson([s |-> sid, l |-> last, p |-> st, k |-> k,
                               r |-> TResult(Ob(sid), nst, op), h |-> nst,
                               vh |-> IF op.op = "move" THEN FreeToVec(Ob(sid).ch, op.xh) ELSE <<>>,
                               vi |-> IF op.op = "move" THEN FreeToVec(Ob(sid).ci, op.xi) ELSE <<>>]))
Next ==
  \/ /\ Suites[sid].mode = "script"
     /\ step < Len(Suites[sid].ops)
     /\ Do(step + 1)
  \/ /\ Suites[sid].mode = "graph"
     /\ \E k \in 1..Len(Suites[sid].ops) : Do(k)
Spec == Init /\ [][Next]_vars

\* base points are optima
OptimalInv == \A i \in 1..Len(Ob(sid).bases) :
   LET ob == Ob(sid)  b == ob.bases[i]  g == FJet(ob, b).g IN
   /\ \A k \in 1..NC(ob.ci, ob.fi) : g[k] = R0
   /\ IsPosDef(HessAt(ob, b))
\* the first derivative is that of the implicit function theorem
FirstOrder == [][
   LET ob == Ob(sid)  op == Suites[sid].ops[last'] IN
   (op.op = "dk" /\ op.k = 1) =>
      DK(ob, ob.bases[st'.b], op.d, 1) = MatVec(Sens(ob, [b |-> st'.b, hess |-> <<>>]), op.d)]_vars
\* second derivatives of the vector and of the free value are related by the
\* Jacobian and Hessian of the constraint map
SecondOrder == [][
   LET ob == Ob(sid)  op == Suites[sid].ops[last'] IN
   (op.op = "dk" /\ op.k = 2 /\ ob.fi) =>
      LET b == ob.bases[st'.b]  J == OwnJets(ob.ci, b.xi)
          x1 == DK(ob, b, op.d, 1)  x2 == DK(ob, b, op.d, 2) IN
      DK([ob EXCEPT !.fi = FALSE], b, op.d, 2) =
        Tab(Len(J), LAMBDA i : RAdd(Dot(J[i].g, x2), Quad(J[i].h, x1, x1)))]_vars
=============================================================================
