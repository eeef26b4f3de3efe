---------------------------- MODULE ConverterModel -------------------------
(***************************************************************************)
(* A converter writes an output parameter as a function of an input        *)
(* parameter: extended free coordinate i of the output is the polynomial   *)
(* p[i] of the input's vector value (tags lin and sub), or the logarithm   *)
(* of 1 + p[i]^2 (tag log).                                                *)
(*                                                                         *)
(*  op.op: conv, jac, setin, setout, rawout (the output is given a vector  *)
(*  outside its constraint set, op.v);  op.x: the point of the input       *)
(*  op.fi: point in free coordinates?  op.fo: result in free coordinates?  *)
(*  op.boom: the converter fails, op.when early (nothing written) or late  *)
(***************************************************************************)
EXTENDS ParamLeaf, Poly

\* the vector value of the input's point, on the boundary maybe when given as q
Point(ob, op) == IF ~op.fi /\ op.q # <<>> THEN op.q ELSE FreeToVec(ob.ci, op.x)
InJets(ob, op) ==
  IF op.fi THEN VecJetsE(ob.ci, JFirsts(CoordJets(op.x)), Len(op.x))
  ELSE LET v == Point(ob, op)  n == Len(v) IN Tab(n, LAMBDA k : JFirst(JLin(n, k, v[k])))
InDim(ob, op) == IF op.fi THEN ExtSize(ob.ci) ELSE VecSize(ob.ci)

\* jets of the exponentiated (log) or plain extended coordinates of the output
OutE(ob, op) ==
  LET n == InDim(ob, op)  J == InJets(ob, op)  t == Tags(ob.co) IN
  Tab(Len(t), LAMBDA i :
    LET p == PolyJet(ob.conv[i], J, n) IN
    IF t[i] = "log" THEN JAddC(JMul(p, p), R1) ELSE p)

OutExt(ob, op) ==
  LET E == OutE(ob, op)  t == Tags(ob.co) IN
  Tab(Len(t), LAMBDA i : [t |-> t[i], v |-> E[i].v])

CResult(ob, op) ==
  LET E == OutE(ob, op)  t == Tags(ob.co)
      V == VecJetsE(ob.co, E, InDim(ob, op))
  IN CASE op.op = "conv" /\ op.fo -> OutExt(ob, op)
       [] op.op = "conv" /\ ~op.fo -> Tab(Len(V), LAMBDA i : V[i].v)
       [] op.op = "jac" /\ op.fo ->
            Tab(Len(t), LAMBDA i : IF t[i] = "log" THEN VScale(RInv(E[i].v), E[i].g) ELSE E[i].g)
       [] op.op = "jac" /\ ~op.fo -> JacOf(V)
       [] OTHER -> <<>>

\* st = [qi, qo, raw]: the vector values of the two parameters; raw: the output's
\* need not satisfy its constraints (setting does not check, and derivatives do not care)
CAfter(ob, st, op) ==
  CASE op.op = "jac" -> [st EXCEPT !.qi = Point(ob, op)]
    [] op.op = "conv" -> [qi |-> Point(ob, op),
                          raw |-> op.boom /\ op.when = "early" /\ st.raw,
                          qo |-> IF op.boom /\ op.when = "early" THEN st.qo
                                 ELSE FreeToVec(ob.co, OutExt(ob, op))]
    [] op.op = "setin" -> [st EXCEPT !.qi = Point(ob, op)]
    [] op.op = "setout" -> [st EXCEPT !.qo = FreeToVec(ob.co, op.xo), !.raw = FALSE]
    [] op.op = "rawout" -> [st EXCEPT !.qo = op.v, !.raw = TRUE]
=============================================================================
