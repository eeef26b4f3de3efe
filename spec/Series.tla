------------------------------- MODULE Series ------------------------------
(* Truncated power series in one variable t with rational coefficients:     *)
(* sequences of length K + 1, the constant term first.                      *)
EXTENDS Poly

SLen(a) == Len(a)
SCon(K, c) == Tab(K + 1, LAMBDA i : IF i = 1 THEN c ELSE R0)
SLin(K, c, d) == Tab(K + 1, LAMBDA i : IF i = 1 THEN c ELSE IF i = 2 THEN d ELSE R0)
SAdd(a, b) == Tab(Len(a), LAMBDA i : RAdd(a[i], b[i]))
SScale(c, a) == Tab(Len(a), LAMBDA i : RMul(c, a[i]))
SNeg(a) == SScale(R(-1), a)
SSub(a, b) == SAdd(a, SNeg(b))
SAddC(a, c) == [a EXCEPT ![1] = RAdd(@, c)]
SMul(a, b) == Tab(Len(a), LAMBDA n : RSum(Tab(n, LAMBDA k : RMul(a[k], b[n + 1 - k]))))
RECURSIVE SInvTo(_, _)
SInvTo(a, n) ==
  IF n = 1 THEN << RInv(a[1]) >>
  ELSE LET b == SInvTo(a, n - 1) IN
       Append(b, RNeg(RMul(b[1], RSum(Tab(n - 1, LAMBDA k : RMul(a[k + 1], b[n - k]))))))
SInv(a) == SInvTo(a, Len(a))
SDiv(a, b) == SMul(a, SInv(b))
\* logarithm; the constant term is left out (0)
RECURSIVE SLogTo(_, _)
SLogTo(a, n) ==
  IF n = 1 THEN << R0 >>
  ELSE LET l == SLogTo(a, n - 1) IN
       Append(l, RDiv(RSub(a[n], RSum(Tab(n - 2, LAMBDA k :
                    RMul(<<k, 1>>, RMul(Frac(1, n - 1), RMul(l[k + 1], a[n - k])))))), a[1]))
SLog(a) == SLogTo(a, Len(a))
\* square root of a series whose constant term is the square of r
RECURSIVE SSqrtTo(_, _, _)
SSqrtTo(a, r, n) ==
  IF n = 1 THEN << r >>
  ELSE LET b == SSqrtTo(a, r, n - 1) IN
       Append(b, RDiv(RSub(a[n], RSum(Tab(n - 2, LAMBDA k : RMul(b[k + 1], b[n - k])))), RMul(R(2), r)))
\* e * exp(d t)
SExp(K, e, d) == Tab(K + 1, LAMBDA i : RMul(e, RMul(RPow(d, i - 1), Frac(1, Fact(i - 1)))))
RECURSIVE SPow(_, _)
SPow(a, k) == IF k = 1 THEN a ELSE SMul(a, SPow(a, k - 1))
SSum(s, K) == LET RECURSIVE Go(_)
                  Go(i) == IF i > Len(s) THEN SCon(K, R0) ELSE SAdd(s[i], Go(i + 1))
              IN Go(1)

PolySeries(p, W, K) ==
  SSum(Tab(Len(p), LAMBDA i :
    LET RECURSIVE Go(_)
        Go(j) == IF j > Len(p[i].m) THEN SCon(K, p[i].c)
                 ELSE SMul(SPow(W[p[i].m[j][1]], p[i].m[j][2]), Go(j + 1))
    IN Go(1)), K)
=============================================================================
