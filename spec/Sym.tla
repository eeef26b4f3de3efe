--------------------------------- MODULE Sym -------------------------------
(***************************************************************************)
(* Exact closed forms: rational combinations of the atoms                  *)
(*   1, gamma (Euler), log p (p prime), log pi, digamma(a), log Gamma(a)   *)
(*   and exp(a),   a rational,                                             *)
(* as sets of [a |-> atom, c |-> coefficient # 0], each atom once.         *)
(* digamma and log Gamma are reduced by their recurrences to an anchor; at *)
(* the anchors 1 and 1/2 their values are known.                           *)
(***************************************************************************)
EXTENDS LinAlg

Atom(t, n, d) == <<t, n, d>>
S0 == {}
SOf(t, q, c) == IF c = R0 THEN S0 ELSE {[a |-> Atom(t, q[1], q[2]), c |-> c]}
Coef(x, a) == LET m == {r \in x : r.a = a} IN IF m = {} THEN R0 ELSE (CHOOSE r \in m : TRUE).c
One == Atom("one", 0, 1)
Add0(x, y) ==
  LET as == {r.a : r \in x} \cup {r.a : r \in y} IN
  TLCEval({[a |-> a, c |-> RAdd(Coef(x, a), Coef(y, a))] : a \in as})
\* Rational numbers are kept as partial fractions, an integer and for every
\* prime p a fraction in [0, 1) whose denominator is a power of p, so that
\* long sums of them stay small.
SAdd(x, y) ==
  IF x = S0 THEN y ELSE IF y = S0 THEN x ELSE
  LET s == Add0(x, y)
      big == {r \in s : r.a[1] = "frac" /\ RLe(R1, r.c)}
      k == LET RECURSIVE Card(_)
               Card(t) == IF t = {} THEN 0 ELSE 1 + Card(t \ {CHOOSE r \in t : TRUE}) IN Card(big)
      t == {[r EXCEPT !.c = IF r \in big THEN RSub(@, R1) ELSE @] : r \in s}
      u == IF k = 0 THEN t ELSE Add0(t, {[a |-> One, c |-> R(k)]})
  IN TLCEval({r \in u : r.c # R0})
RECURSIVE SmallestFactor(_, _)
SmallestFactor(n, p) == IF p * p > n THEN n ELSE IF n % p = 0 THEN p ELSE SmallestFactor(n, p + 1)
RECURSIVE PPower(_, _)
PPower(n, p) == IF n % p = 0 THEN p * PPower(n \div p, p) ELSE 1
RECURSIVE PFrac(_, _)
PFrac(n, d) ==
  IF d = 1 THEN SOf("one", R0, R(n))
  ELSE LET p == SmallestFactor(d, 2)  pe == PPower(d, p)  m == d \div pe
           inv == CHOOSE x \in 1..pe : (m * x) % pe = 1 % pe
           a == ((n % pe) * inv) % pe
           b == (n - (a * m)) \div pe
       IN SAdd(SOf("frac", R(p), Frac(a, pe)), PFrac(b, m))
SRat(q) == PFrac(q[1], q[2])
RECURSIVE SetSum(_)
SetSum(t) == IF t = {} THEN S0 ELSE LET r == CHOOSE r \in t : TRUE IN SAdd(SRat(r.c), SetSum(t \ {r}))
SScale(k, x) ==
  IF k = R0 THEN S0
  ELSE IF k = R1 THEN x
  ELSE LET rat == {r \in x : r.a[1] \in {"one", "frac"}} IN
       SAdd({[a |-> r.a, c |-> RMul(k, r.c)] : r \in x \ rat},
            SetSum({[a |-> r.a, c |-> RMul(k, r.c)] : r \in rat}))
SSub(x, y) == SAdd(x, SScale(<<-1, 1>>, y))
RECURSIVE SSum(_)
SSum(xs) == IF xs = <<>> THEN S0 ELSE SAdd(Head(xs), SSum(Tail(xs)))

\* log of a positive integer, by trial division
RECURSIVE LogIntFrom(_, _)
LogIntFrom(n, p) ==
  IF n = 1 THEN S0
  ELSE IF p * p > n THEN SOf("log", R(n), R1)
  ELSE IF n % p = 0 THEN SAdd(SOf("log", R(p), R1), LogIntFrom(n \div p, p))
  ELSE LogIntFrom(n, p + 1)
LogInt(n) == LogIntFrom(n, 2)
SLog(q) == SSub(LogInt(q[1]), LogInt(q[2]))
SLog2 == SOf("log", R(2), R1)
SLogPi == SOf("logpi", R0, R1)
\* positive numbers q * 2^e, of any size
NLog(x) == SAdd(SLog(x.q), SScale(R(x.e), SLog2))

Steps(x) ==
  LET m == ((x[1] + x[2] - 1) \div x[2]) - 1
      b == CASE x[2] = 1 -> 12 [] x[2] = 2 -> 7 [] x[2] \in {3, 4} -> 4 [] OTHER -> 2
  IN m % b
Psi(x) ==
  LET k == Steps(x)  a == RSub(x, R(k))
      base == IF a = R1 THEN SOf("gamma", R0, R(-1))
              ELSE IF a = RHalf THEN SAdd(SOf("gamma", R0, R(-1)), SScale(R(-2), SLog2))
              ELSE SOf("psi", a, R1)
  IN SAdd(base, SSum(Tab(k, LAMBDA j : SRat(RInv(RAdd(a, R(j - 1)))))))
LGam(x) ==
  LET k == Steps(x)  a == RSub(x, R(k))
      base == IF a = R1 THEN S0 ELSE IF a = RHalf THEN SScale(RHalf, SLogPi) ELSE SOf("lgam", a, R1)
  IN SAdd(base, SSum(Tab(k, LAMBDA j : SLog(RAdd(a, R(j - 1))))))
\* derivative of digamma, left to the reader of the trace
Trigam(x) == SOf("tri", x, R1)
SExp(q) == SOf("exp", q, R1)
\* multivariate versions, dimension k
MPsi(x, k) == SSum(Tab(k, LAMBDA i : Psi(RSub(x, <<i - 1, 2>>))))
MLGam(x, k) == SAdd(SScale(Frac(k * (k - 1), 4), SLogPi),
                    SSum(Tab(k, LAMBDA i : LGam(RSub(x, <<i - 1, 2>>)))))
\* the recurrences are closed on these arguments: formal equality decides
Small(x) == LET m == ((x[1] + x[2] - 1) \div x[2]) - 1 IN m < (CASE x[2] = 1 -> 12 [] x[2] = 2 -> 7 [] OTHER -> IF x[2] \in {3, 4} THEN 4 ELSE 2)
=============================================================================
