---------------------------- MODULE MinimizeModel --------------------------
(***************************************************************************)
(* The minimisers.  The objective is a polynomial in the residuals         *)
(* v - m of the vector value, with a positive definite quadratic part, so  *)
(* its optimum is where v = m, in free coordinates the base point xopt.    *)
(*                                                                         *)
(* State: the preconditioner installed (0: none), the reporting interval   *)
(* of the log, and the starting points of the runs whose evaluations it    *)
(* holds.                                                                  *)
(***************************************************************************)
EXTENDS ParamLeaf, Poly

FreeJet(ob) ==
  LET J == OwnJets(ob.c, ob.xopt)  v == FreeToVec(ob.c, ob.xopt)
      r == Tab(Len(v), LAMBDA i : JAddC(J[i], RNeg(v[i])))
  IN PolyJet(ob.F, r, ExtSize(ob.c))

MStart(s) == [pre |-> 0, every |-> 1, log |-> <<>>]
\* may the call be made at all
MOk(st, op) == op.op = "min" /\ op.cond => st.pre # 0
MAfter(st, op) ==
  CASE op.op = "pre" -> [st EXCEPT !.pre = op.k]
    [] op.op = "min" /\ MOk(st, op) ->
         [st EXCEPT !.every = IF op.every = 0 THEN @ ELSE op.every,
                    !.log = (IF op.clear THEN <<>> ELSE @) \o (IF op.disp THEN <<op.x>> ELSE <<>>)]
    [] OTHER -> st
=============================================================================
