------------------------------- MODULE Precond -----------------------------
(***************************************************************************)
(* Inverse square roots of clamped symmetric matrices, and their use as    *)
(* preconditioners of an objective                                         *)
(*        F(x) = sum_i g_i(q_i . x),   g_i'' (u) = a_i + b_i u,            *)
(* q_i the columns of an orthogonal matrix Q, so that the eigenvalues of   *)
(* the Hessian at x are a_i + b_i (q_i . x).                               *)
(*                                                                         *)
(* A matrix is given by orthogonal Q, eigenvalues lam and an antisymmetric *)
(* part K.  State: the preconditioner installed (<<>>: none).              *)
(***************************************************************************)
EXTENDS Poly

RSqrt(a) == << CHOOSE n \in 0..400 : n * n = a[1], CHOOSE d \in 1..400 : d * d = a[2] >>
Clamp(x, lo, hi) ==
  LET y == IF lo # <<>> /\ RLt(x, lo[1]) THEN lo[1] ELSE x IN
  IF hi # <<>> /\ RLt(hi[1], y) THEN hi[1] ELSE y
Clamped(lam, lo, hi) == Tab(Len(lam), LAMBDA i : Clamp(lam[i], lo, hi))
FromEigen(Q, lam) == MatMul(Q, MatMul(DiagMat(lam), Transpose(Q)))
InvRoots(lam) == Tab(Len(lam), LAMBDA i : RInv(RSqrt(lam[i])))

\* the matrix passed in
Given(m) == MAdd(FromEigen(m.Q, m.lam), m.K)
\* the pair computed from it
Pair(m, lo, hi) ==
  LET c == Clamped(m.lam, lo, hi) IN
  [half |-> FromEigen(m.Q, InvRoots(c)), corrected |-> FromEigen(m.Q, c)]

EigenAt(ob, x) == LET u == MatVec(Transpose(ob.Q), x) IN
                  Tab(Len(x), LAMBDA i : RAdd(ob.a[i], RMul(ob.b[i], u[i])))
\* as a given matrix
HessOf(ob, x) == [Q |-> ob.Q, lam |-> EigenAt(ob, x), K |-> ZeroMat(Len(x), Len(x))]

\* the matrix an installation works with
Source(ob, op) == IF op.given THEN op.m ELSE HessOf(ob, op.x)

POk(op) == op.op = "install" => op.given \/ op.at
PResult(ob, st, op) ==
  CASE op.op = "compute" -> [a |-> Given(op.m), p |-> Pair(op.m, op.lo, op.hi)]
    [] op.op = "install" /\ POk(op) ->
         [a |-> Given(Source(ob, op)), p |-> Pair(Source(ob, op), op.lo, op.hi)]
    [] op.op = "cond" -> [a |-> MatMul(st, MatMul(Given(HessOf(ob, op.x)), st)), p |-> <<>>]
    [] OTHER -> [a |-> <<>>, p |-> <<>>]
PAfter(ob, st, op) ==
  IF op.op = "install" /\ POk(op) THEN Pair(Source(ob, op), op.lo, op.hi).half ELSE st

(* ---- properties ------------------------------------------------------- *)
PairRight(m, lo, hi) ==
  LET p == Pair(m, lo, hi)  n == Len(m.lam) IN
  /\ IsPosDef(p.half)
  /\ MatMul(p.half, MatMul(p.corrected, p.half)) = Eye(n)
  /\ IsSym(p.corrected)
  \* nothing clamped: the symmetric part itself
  /\ (\A i \in 1..n : Clamp(m.lam[i], lo, hi) = m.lam[i]) =>
        p.corrected = MScale(RHalf, MAdd(Given(m), Transpose(Given(m))))
  \* within the range
  /\ lo # <<>> => \A i \in 1..n : RLe(lo[1], Clamp(m.lam[i], lo, hi)) \/ (hi # <<>> /\ RLt(hi[1], lo[1]))
  /\ hi # <<>> => \A i \in 1..n : RLe(Clamp(m.lam[i], lo, hi), hi[1])
=============================================================================
