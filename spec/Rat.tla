-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational numbers <<num, den>>, den > 0, in lowest terms.          *)
(* TLC integers are 32 bit and overflow is a loud error, so a result that  *)
(* is printed is exact.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

RAbsI(x) == IF x < 0 THEN -x ELSE x

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)

\* num/den in lowest terms, den # 0
Frac(n, d) ==
  IF n = 0 THEN <<0, 1>>
  ELSE LET g == GCD(RAbsI(n), RAbsI(d))
       IN  IF d > 0 THEN <<n \div g, d \div g>> ELSE <<(-n) \div g, (-d) \div g>>

R(n) == <<n, 1>>
R0 == <<0, 1>>
R1 == <<1, 1>>
RHalf == <<1, 2>>

RNeg(a) == <<-a[1], a[2]>>
RAdd(a, b) ==
  IF a[2] = 1 /\ b[2] = 1 THEN <<a[1] + b[1], 1>>
  ELSE IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE LET g == GCD(a[2], b[2]) IN
       Frac(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) ==
  IF a[1] = 0 \/ b[1] = 0 THEN R0
  ELSE IF a[2] = 1 /\ b[2] = 1 THEN <<a[1] * b[1], 1>>
  ELSE LET g == GCD(RAbsI(a[1]), b[2])
           h == GCD(RAbsI(b[1]), a[2])
       IN <<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>
RInv(a) == IF a[1] > 0 THEN <<a[2], a[1]>>
           ELSE IF a[1] < 0 THEN <<-a[2], -a[1]>>
           ELSE Assert(FALSE, "RInv of zero")
RDiv(a, b) == RMul(a, RInv(b))
RLt(a, b) == a[1] * b[2] < b[1] * a[2]
RLe(a, b) == a[1] * b[2] <= b[1] * a[2]
RAbs(a) == <<RAbsI(a[1]), a[2]>>
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RMin(a, b) == IF RLe(a, b) THEN a ELSE b

RECURSIVE RPow(_, _)
RPow(a, k) == IF k = 0 THEN R1 ELSE RMul(a, RPow(a, k - 1))

RECURSIVE RSumTo(_, _)
RSumTo(f, n) == IF n = 0 THEN R0 ELSE RAdd(RSumTo(f, n - 1), f[n])
RSum(f) == RSumTo(f, Len(f))

RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)

RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1
               ELSE IF k < 0 \/ k > n THEN 0
               ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)

\* A sequence built eagerly: TLC's function constructors are lazy and would
\* evaluate nested bodies again and again.
Tab(n, F(_)) == TLCEval([i \in 1..n |-> F(i)])
Tab2(n, m, F(_, _)) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..m |-> F(i, j)])])

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
=============================================================================
