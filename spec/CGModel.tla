------------------------------- MODULE CGModel -----------------------------
(***************************************************************************)
(* Solves with the Hessian of an objective at a fixed point.  State: the   *)
(* history of masked solves since the last reset, each a pair of mask and  *)
(* right hand side; tolerance and preconditioner do not influence results  *)
(* beyond rounding.  The Hessian is that of 2^e times the objective, the   *)
(* right hand sides are 2^op.e times op.vec, so solutions are multiples of *)
(* 2^(op.e - e), which is recorded next to them.                           *)
(***************************************************************************)
EXTENDS Poly

HessAtPoint(ob) ==
  LET n == Len(ob.x0) IN PolyJet(ob.F, Tab(n, LAMBDA k : JLin(n, k, ob.x0[k])), n).h
Masked(v, mask) == Tab(Len(v), LAMBDA i : IF \E k \in 1..Len(mask) : mask[k] = i THEN v[i] ELSE R0)
Solve(ob, v) == SolveVec(HessAtPoint(ob), v)
Entry(ob, v, mask, e) == [mask |-> mask, vec |-> Masked(v, mask), sol |-> Solve(ob, Masked(v, mask)),
                         ve |-> e, se |-> e - ob.e]

CGAfter(ob, st, op) ==
  CASE op.op = "subsets" -> st \o Tab(Len(op.masks), LAMBDA i : Entry(ob, op.vec, op.masks[i], op.e))
    [] op.op = "reset" -> <<>>
    [] OTHER -> st
CGResult(ob, op) ==
  CASE op.op \in {"solve", "subsets"} -> Solve(ob, op.vec)
    [] OTHER -> <<>>

RECURSIVE VSumTo(_, _, _)
VSumTo(vs, k, n) == IF k = 0 THEN ZeroVec(n) ELSE VAdd(vs[k], VSumTo(vs, k - 1, n))
=============================================================================
