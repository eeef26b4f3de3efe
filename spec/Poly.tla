-------------------------------- MODULE Poly -------------------------------
(* Polynomials with rational coefficients in numbered variables: a sequence *)
(* of monomials [c |-> coefficient, m |-> sequence of <<variable, power>>].  *)
EXTENDS Jet

MonoJet(t, J, n) ==
  LET RECURSIVE Go(_)
      Go(i) == IF i > Len(t.m) THEN JConst(n, t.c)
               ELSE JMul(JPow(J[t.m[i][1]], t.m[i][2]), Go(i + 1))
  IN Go(1)
\* value and derivatives of p at the jets J
PolyJet(p, J, n) ==
  IF Len(p) = 0 THEN JConst(n, R0)
  ELSE JSum(Tab(Len(p), LAMBDA i : MonoJet(p[i], J, n)))

PolyEval(p, v) ==
  RSum(Tab(Len(p), LAMBDA i :
    LET RECURSIVE Go(_)
        Go(k) == IF k > Len(p[i].m) THEN p[i].c
                 ELSE RMul(RPow(v[p[i].m[k][1]], p[i].m[k][2]), Go(k + 1))
    IN Go(1)))
PolyScale(a, p) == Tab(Len(p), LAMBDA i : [p[i] EXCEPT !.c = RMul(a, @)])
PolyAdd(p, q) == p \o q

\* derivative with respect to variable k
RECURSIVE PolyD(_, _)
PolyD(p, k) ==
  IF p = <<>> THEN <<>>
  ELSE LET t == Head(p)
           ix == {i \in 1..Len(t.m) : t.m[i][1] = k}
       IN (IF ix = {} THEN <<>>
           ELSE LET i == CHOOSE j \in ix : TRUE
                    e == t.m[i][2]
                IN << [c |-> RMul(R(e), t.c),
                       m |-> IF e = 1 THEN SubSeq(t.m, 1, i - 1) \o SubSeq(t.m, i + 1, Len(t.m))
                             ELSE [t.m EXCEPT ![i] = <<k, e - 1>>]] >>)
          \o PolyD(Tail(p), k)
\* derivative in direction d of the variables off+1 .. off+Len(d)
PolyDir(p, off, d) ==
  Concat(Tab(Len(d), LAMBDA i : PolyScale(d[i], PolyD(p, off + i))))
=============================================================================
