-------------------------------- MODULE Jet --------------------------------
(* Second order jets (value, gradient, Hessian) over n coordinates with      *)
(* rational entries: exact automatic differentiation inside the model.       *)
(* A jet whose Hessian is <<>> is a first order jet; combining anything with *)
(* a first order jet gives a first order jet.                                *)
EXTENDS LinAlg

JConst(n, c) == [v |-> c, g |-> ZeroVec(n), h |-> ZeroMat(n, n)]
\* a coordinate that is the value itself
JLin(n, k, c) == [v |-> c, g |-> UnitVec(n, k), h |-> ZeroMat(n, n)]
\* exp of coordinate k, where the exponential has the (rational) value e
JExp(n, k, e) == [v |-> e, g |-> VScale(e, UnitVec(n, k)),
                  h |-> MScale(e, Outer(UnitVec(n, k), UnitVec(n, k)))]
JDim(a) == Len(a.g)
JFirst(a) == [a EXCEPT !.h = <<>>]
JFirsts(J) == Tab(Len(J), LAMBDA i : JFirst(J[i]))
JAdd(a, b) == [v |-> RAdd(a.v, b.v), g |-> VAdd(a.g, b.g),
               h |-> IF a.h = <<>> \/ b.h = <<>> THEN <<>> ELSE MAdd(a.h, b.h)]
JNeg(a) == [v |-> RNeg(a.v), g |-> VScale(R(-1), a.g), h |-> MScale(R(-1), a.h)]
JSub(a, b) == JAdd(a, JNeg(b))
JScale(c, a) == [v |-> RMul(c, a.v), g |-> VScale(c, a.g), h |-> MScale(c, a.h)]
JAddC(a, c) == [a EXCEPT !.v = RAdd(@, c)]
JMul(a, b) ==
  LET n == JDim(a) IN
  [v |-> RMul(a.v, b.v),
   g |-> Tab(n, LAMBDA i : RAdd(RMul(a.v, b.g[i]), RMul(b.v, a.g[i]))),
   h |-> IF a.h = <<>> \/ b.h = <<>> THEN <<>> ELSE
         Tab2(n, n, LAMBDA i, j :
          RAdd(RAdd(RMul(a.v, b.h[i][j]), RMul(b.v, a.h[i][j])),
               RAdd(RMul(a.g[i], b.g[j]), RMul(a.g[j], b.g[i]))))]
\* apply a scalar function with known value, first and second derivative
JApply(a, f0, f1, f2) ==
  LET n == JDim(a) IN
  [v |-> f0,
   g |-> VScale(f1, a.g),
   h |-> IF a.h = <<>> THEN <<>> ELSE
         Tab2(n, n, LAMBDA i, j :
          RAdd(RMul(f1, a.h[i][j]), RMul(f2, RMul(a.g[i], a.g[j]))))]
JInv(a) == LET i1 == RInv(a.v)  i2 == RMul(i1, i1) IN
           JApply(a, i1, RNeg(i2),
                  IF a.h = <<>> THEN R0 ELSE RMul(R(2), RMul(i2, i1)))
JDiv(a, b) == JMul(a, JInv(b))
RECURSIVE JPow(_, _)
JPow(a, k) == IF k = 1 THEN a ELSE JMul(a, JPow(a, k - 1))
RECURSIVE JSumTo(_, _)
JSumTo(f, k) == IF k = 1 THEN f[1] ELSE JAdd(JSumTo(f, k - 1), f[k])
JSum(f) == JSumTo(f, Len(f))
=============================================================================
