---------------------------- MODULE ObjectiveModel -------------------------
(***************************************************************************)
(* An objective bound to a parameter.  The function has value              *)
(* a * P(v) + b * Q(v) in the vector value v of the parameter (a, b extra  *)
(* arguments of the call), or the pair of both.  One action per public     *)
(* call.  The state is what the parameter holds: its vector value and      *)
(* whether that is plain numbers; and the preconditioner in force, which   *)
(* "setpre" replaces.  The result of a call is a function of its arguments *)
(* and of that preconditioner only.                                        *)
(*                                                                         *)
(*  op.op : what is evaluated       op.at : "free", "vector" or "cond"     *)
(*  op.x  : the point (extended free coordinates; for "cond" the point P y *)
(*          where y is what the caller passes)                             *)
(***************************************************************************)
EXTENDS ParamLeaf, Poly

\* the vector value of the point; in vector coordinates it may be named
\* directly, as op.q, and then lie on the boundary
Point(c, op) == IF op.at = "vector" /\ op.q # <<>> THEN op.q ELSE FreeToVec(c, op.x)
\* coordinates in which derivatives are taken
NCoord(c, op) == IF op.at = "vector" THEN VecSize(c) ELSE ExtSize(c)
PointJets(c, op) ==
  IF op.at = "vector"
  THEN LET v == Point(c, op)  n == Len(v) IN Tab(n, LAMBDA k : JLin(n, k, v[k]))
  ELSE OwnJets(c, op.x)

\* the parts of the function, as jets
Parts(ob, op) ==
  LET n == NCoord(ob.c, op)  J == PointJets(ob.c, op) IN
  << JScale(op.a, PolyJet(ob.P, J, n)), JScale(op.b, PolyJet(ob.Q, J, n)) >>
Whole(ob, op) == LET s == Parts(ob, op) IN JAdd(s[1], s[2])

\* covariant transformation of gradients and Hessians by the preconditioner
PVec(pre, op, g) == IF op.at = "cond" THEN MatVec(Transpose(pre), g) ELSE g
PMat(pre, op, H) == IF op.at = "cond"
                    THEN MatMul(Transpose(pre), MatMul(H, pre)) ELSE H

Result(ob, pre, op) ==
  CASE op.op = "fun" -> Whole(ob, op).v
    [] op.op = "pair" -> LET s == Parts(ob, op) IN <<s[1].v, s[2].v>>
    [] op.op = "grad" -> PVec(pre, op, Whole(ob, op).g)
    [] op.op = "hessian" -> PMat(pre, op, Whole(ob, op).h)
    [] op.op = "jacobian" -> LET s == Parts(ob, op) IN <<s[1].g, s[2].g>>
    [] op.op = "hvp" -> MatVec(PMat(pre, op, Whole(ob, op).h), op.vec)
    [] OTHER -> <<>>

Evaluations == {"fun", "pair", "grad", "hessian", "jacobian", "hvp"}

\* [q, num] is the state of the parameter, pre that of the objective
After(ob, st, op) ==
  IF op.op \in Evaluations \cup {"set", "uncondition"}
  THEN IF op.op = "uncondition" THEN st
       ELSE [q |-> Point(ob.c, op), num |-> TRUE, pre |-> st.pre]
  ELSE IF op.op = "setpre" THEN [st EXCEPT !.pre = op.pre]
  ELSE IF op.op = "raw"
  \* differentiating the evaluation method directly leaves whatever the
  \* differentiation machinery put there
  THEN [q |-> Point(ob.c, op), num |-> FALSE, pre |-> st.pre]
  ELSE st
=============================================================================
