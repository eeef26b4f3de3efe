------------------------------- MODULE LinAlg ------------------------------
(* Exact linear algebra over the rationals: vectors are sequences, matrices *)
(* sequences of rows.                                                       *)
EXTENDS Rat

NRows(A) == Len(A)
NCols(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
Dot(u, v) == RSum(Tab(Len(u), LAMBDA i : RMul(u[i], v[i])))
Transpose(A) == Tab2(NCols(A), NRows(A), LAMBDA i, j : A[j][i])
\* (arguments are evaluated once, not once per entry)
MatVec(A, v) == LET a == TLCEval(A)  b == TLCEval(v) IN
                Tab(NRows(a), LAMBDA i : Dot(a[i], b))
MatMul(A, B) == LET a == TLCEval(A)  Bt == TLCEval(Transpose(B)) IN
                Tab2(NRows(a), Len(Bt), LAMBDA i, j : Dot(a[i], Bt[j]))
VAdd(u, v) == Tab(Len(u), LAMBDA i : RAdd(u[i], v[i]))
VSub(u, v) == Tab(Len(u), LAMBDA i : RSub(u[i], v[i]))
VScale(c, v) == Tab(Len(v), LAMBDA i : RMul(c, v[i]))
MAdd(A, B) == Tab2(NRows(A), NCols(A), LAMBDA i, j : RAdd(A[i][j], B[i][j]))
MSub(A, B) == Tab2(NRows(A), NCols(A), LAMBDA i, j : RSub(A[i][j], B[i][j]))
MScale(c, A) == Tab2(NRows(A), NCols(A), LAMBDA i, j : RMul(c, A[i][j]))
Eye(n) == Tab2(n, n, LAMBDA i, j : IF i = j THEN R1 ELSE R0)
ZeroMat(n, m) == Tab2(n, m, LAMBDA i, j : R0)
ZeroVec(n) == Tab(n, LAMBDA i : R0)
UnitVec(n, k) == Tab(n, LAMBDA i : IF i = k THEN R1 ELSE R0)
Outer(u, v) == Tab2(Len(u), Len(v), LAMBDA i, j : RMul(u[i], v[j]))
DiagMat(d) == Tab2(Len(d), Len(d), LAMBDA i, j : IF i = j THEN d[i] ELSE R0)
IsSym(A) == A = Transpose(A)
Trace(A) == RSum(Tab(NRows(A), LAMBDA i : A[i][i]))
Quad(A, u, v) == Dot(u, MatVec(A, v))

\* Gauss-Jordan on the augmented matrix M with n pivot columns.
SwapRows(M, i, j) == Tab(Len(M), LAMBDA r : IF r = i THEN M[j] ELSE IF r = j THEN M[i] ELSE M[r])
RECURSIVE GJ(_, _, _)
GJ(M, k, n) ==
  IF k > n THEN M
  ELSE LET piv == CHOOSE r \in k..n : M[r][k] # R0
           M1 == SwapRows(M, k, piv)
           prow == VScale(RInv(M1[k][k]), M1[k])
           M2 == Tab(Len(M1), LAMBDA r :
                   IF r = k THEN prow
                   ELSE IF M1[r][k] = R0 THEN M1[r]
                   ELSE VSub(M1[r], VScale(M1[r][k], prow)))
       IN GJ(M2, k + 1, n)

\* Solve A X = B exactly (A square and regular).
SolveMat(A, B) ==
  LET n == NRows(A)
      M == Tab(n, LAMBDA i : A[i] \o B[i])
      S == GJ(M, 1, n)
  IN Tab(n, LAMBDA i : SubSeq(S[i], n + 1, n + NCols(B)))
SolveVec(A, b) == LET X == SolveMat(A, Tab(Len(b), LAMBDA i : <<b[i]>>)) IN Tab(Len(b), LAMBDA i : X[i][1])
Inverse(A) == SolveMat(A, Eye(NRows(A)))

RECURSIVE DetR(_)
Minor(A, j) == Tab(Len(A) - 1, LAMBDA r : Tab(Len(A) - 1, LAMBDA c : A[r + 1][IF c < j THEN c ELSE c + 1]))
DetR(A) == IF Len(A) = 0 THEN R1
           ELSE IF Len(A) = 1 THEN A[1][1]
           ELSE RSum(Tab(Len(A), LAMBDA j :
                 IF A[1][j] = R0 THEN R0 ELSE
                 RMul(IF j % 2 = 1 THEN A[1][j] ELSE RNeg(A[1][j]), DetR(Minor(A, j)))))
\* Sylvester
IsPosDef(A) == IsSym(A) /\ \A k \in 1..Len(A) :
   RLt(R0, DetR(Tab(k, LAMBDA i : SubSeq(A[i], 1, k))))

\* The exact orthogonal projection onto the complement of the rows of A.
ProjPerp(A) ==
  LET n == NCols(A)  At == Transpose(A) IN
  MSub(Eye(n), MatMul(At, SolveMat(MatMul(A, At), A)))
=============================================================================
