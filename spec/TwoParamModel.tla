---------------------------- MODULE TwoParamModel --------------------------
(***************************************************************************)
(* An objective of two parameters: a * P(v1, v2) + b * Q(v1, v2) in the    *)
(* concatenation of their vector values.  A call names, for each of the    *)
(* two, whether its point is given in free or in vector coordinates; its   *)
(* result is a function of the arguments only, and afterwards both         *)
(* parameters hold the points of the call.                                 *)
(*                                                                         *)
(*  op.op in fun, grad1, grad2, hess12, hess21, set1, set2, raw            *)
(*  op.x1, op.x2: the points; op.f1, op.f2: given in free coordinates?     *)
(***************************************************************************)
EXTENDS ParamLeaf, Poly

\* the vector value of a point: q where that is given and names a vector (maybe
\* on the boundary), the value at extended free coordinates x otherwise
Point(c, x, f, q) == IF ~f /\ q # <<>> THEN q ELSE FreeToVec(c, x)
NC(c, f) == IF f THEN ExtSize(c) ELSE VecSize(c)
Jets(c, x, f, q, o, n) ==
  IF f THEN VecJets(c, x, o, n)
  ELSE LET v == Point(c, x, f, q) IN Tab(Len(v), LAMBDA k : JLin(n, o + k, v[k]))

Joint(ob, op) ==
  LET n1 == NC(ob.c1, op.f1)  n == n1 + NC(ob.c2, op.f2)
      J == Jets(ob.c1, op.x1, op.f1, op.q1, 0, n) \o Jets(ob.c2, op.x2, op.f2, op.q2, n1, n)
  IN JAdd(JScale(op.a, PolyJet(ob.P, J, n)), JScale(op.b, PolyJet(ob.Q, J, n)))

Block(ob, op) ==
  LET n1 == NC(ob.c1, op.f1)  n2 == NC(ob.c2, op.f2)  h == Joint(ob, op).h IN
  Tab2(n1, n2, LAMBDA i, j : h[i][n1 + j])

TResult(ob, op) ==
  LET n1 == NC(ob.c1, op.f1)  n2 == NC(ob.c2, op.f2) IN
  CASE op.op = "fun" -> Joint(ob, op).v
    [] op.op = "grad1" -> SubSeq(Joint(ob, op).g, 1, n1)
    [] op.op = "grad2" -> SubSeq(Joint(ob, op).g, n1 + 1, n1 + n2)
    [] op.op = "hess12" -> Block(ob, op)
    [] op.op = "hess21" -> Transpose(Block(ob, op))
    [] OTHER -> <<>>

TEvals == {"fun", "grad1", "grad2", "hess12", "hess21"}

TAfter(ob, st, op) ==
  LET q1 == Point(ob.c1, op.x1, op.f1, op.q1)  q2 == Point(ob.c2, op.x2, op.f2, op.q2) IN
  IF op.op \in TEvals THEN [q1 |-> q1, q2 |-> q2, num |-> TRUE]
  ELSE IF op.op = "set1" THEN [st EXCEPT !.q1 = q1]
  ELSE IF op.op = "set2" THEN [st EXCEPT !.q2 = q2]
  \* differentiating the evaluation method directly
  ELSE [q1 |-> q1, q2 |-> q2, num |-> FALSE]
=============================================================================
