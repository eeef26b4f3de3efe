----------------------------- MODULE TermAlgebra ---------------------------
(***************************************************************************)
(* The algebra behind the Taylor expansion of an implicitly defined        *)
(* optimum eta(eps), g(eta(eps), eps) = 0.                                 *)
(*                                                                         *)
(* A term is [e, m, c]: c times the mixed derivative of g with e           *)
(* directions deps and, for every i, m[i] directions eta^(i) (the i-th     *)
(* derivative of eta).  A set of terms is a sequence; its meaning is the   *)
(* sum.  Differentiating with respect to eps applies the product and chain *)
(* rules; consolidating adds up terms of the same pattern.                 *)
(***************************************************************************)
EXTENDS LinAlg, FiniteSets

Order(t) == t.e + RSum(Tab(Len(t.m), LAMBDA i : R(i * t.m[i])))[1]
Pattern(t) == <<t.e, t.m>>
BaseTerms == << [e |-> 1, m |-> <<0>>, c |-> R1], [e |-> 0, m |-> <<1>>, c |-> R1] >>

\* the terms of the derivative of one term
DiffTerm(t) ==
  LET m == Append(t.m, 0) IN
  << [e |-> t.e + 1, m |-> m, c |-> t.c],
     [e |-> t.e, m |-> [m EXCEPT ![1] = @ + 1], c |-> t.c] >>
  \o Concat(Tab(Len(t.m), LAMBDA i :
       IF t.m[i] = 0 THEN <<>>
       ELSE << [e |-> t.e, m |-> [m EXCEPT ![i] = @ - 1, ![i + 1] = @ + 1],
                c |-> RMul(R(t.m[i]), t.c)] >>))
DiffTerms(ts) == Concat(Tab(Len(ts), LAMBDA i : DiffTerm(ts[i])))

Patterns(ts) == {Pattern(ts[i]) : i \in 1..Len(ts)}
Coef(ts, p) == RSum(Tab(Len(ts), LAMBDA i : IF Pattern(ts[i]) = p THEN ts[i].c ELSE R0))
\* in order of first appearance
RECURSIVE Consolidate(_)
Consolidate(ts) ==
  IF ts = <<>> THEN <<>>
  ELSE LET t == Head(ts) IN
       << [t EXCEPT !.c = Coef(ts, Pattern(t))] >>
       \o Consolidate(SelectSeq(Tail(ts), LAMBDA s : Pattern(s) # Pattern(t)))

(* The multivariate chain rule: the coefficient of a pattern of order k is *)
(* k! / (e! prod_i m_i! (i!)^m_i).                                         *)
ChainCoef(k, p) ==
  RDiv(R(Fact(k)),
       RMul(R(Fact(p[1])),
            LET RECURSIVE Go(_)
                Go(i) == IF i > Len(p[2]) THEN R1
                         ELSE RMul(RMul(R(Fact(p[2][i])), RPow(R(Fact(i)), p[2][i])), Go(i + 1))
            IN Go(1)))
\* all ways to write k = e + sum_i i m_i
RECURSIVE Parts(_, _)
Parts(k, i) ==   \* multiplicities m_i .. m_1 as sequences m_1 .. m_i with total k
  IF i = 0 THEN IF k = 0 THEN {<<>>} ELSE {}
  ELSE UNION { {Append(s, j) : s \in Parts(k - i * j, i - 1)} : j \in 0..(k \div i) }
AllPatterns(k) == UNION { {<<e, m>> : m \in Parts(k - e, k)} : e \in 0..k }

(***************************************************************************)
(* Evaluation.  The mixed derivatives of g are symmetric multilinear maps  *)
(*   g[i][j](v_1..v_i, w_1..w_j) = u[i+1][j+1] prod (a.v) prod (b.w)       *)
(* with vectors a, b, u; ob.H is the Hessian of the objective.             *)
(***************************************************************************)
TermValue(ob, t, D) ==
  LET i == RSum(Tab(Len(t.m), LAMBDA j : R(t.m[j])))[1]
      s == RMul(RPow(Dot(ob.b, ob.deps), t.e),
                LET RECURSIVE Go(_)
                    Go(j) == IF j > Len(t.m) THEN R1
                             ELSE RMul(IF t.m[j] = 0 THEN R1 ELSE RPow(Dot(ob.a, D[j]), t.m[j]), Go(j + 1))
                IN Go(1))
  IN VScale(RMul(t.c, s), ob.u[i + 1][t.e + 1])
SumTerms(ob, ts, D) ==
  LET RECURSIVE Go(_)
      Go(i) == IF i > Len(ts) THEN ZeroVec(Len(ob.a)) ELSE VAdd(TermValue(ob, ts[i], D), Go(i + 1))
  IN Go(1)
\* those without the highest derivative of eta
Lower(ts) == SelectSeq(ts, LAMBDA t : t.m[Len(t.m)] = 0)
NextEta(ob, ts, D) == VScale(R(-1), SolveVec(ob.H, SumTerms(ob, Lower(ts), D)))
=============================================================================
