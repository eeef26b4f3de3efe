----------------------------- MODULE ParamLeaf -----------------------------
(***************************************************************************)
(* The parameter catalogue: for each kind of parameter, the exact map from *)
(* its unconstrained ("free") coordinates to its vector and full value,    *)
(* and back.                                                               *)
(*                                                                         *)
(* A free coordinate is a record [t, v]:                                   *)
(*    t = "lin": the coordinate is the rational v;                         *)
(*    t = "log": the coordinate is ln(v), v a positive rational;           *)
(*    t = "sub": one of the ambient coordinates y of a subspace parameter, *)
(*               whose free value is Q'y for an orthonormal basis Q of the *)
(*               subspace (Q is the implementation's choice; QQ' is not).  *)
(* The sequence of such records is the EXTENDED free value.  Everything    *)
(* is rational in these coordinates, and so are all derivatives.           *)
(*                                                                         *)
(* A configuration is a record with field kind and                         *)
(*    scalar:    lb, ub            (a bound is <<>> or <<rational>>)       *)
(*    vector:    shape=<<n>>, lb, ub                                       *)
(*    array:     shape, lb, ub                                             *)
(*    simplex:   shape=<<rows, k>>                                         *)
(*    posdef:    m, dlb            (m x m matrix, diagonal lower bound)    *)
(*    posdefvec: shape=<<len>>, m, dlb                                     *)
(*    posdefarr: shape, m, dlb                                             *)
(*    subspace:  A                 (perpendicular to the rows of A)        *)
(*    dict:      items = sequence of [name, c]                             *)
(***************************************************************************)
EXTENDS Jet

RECURSIVE ProdI(_)
ProdI(s) == IF s = <<>> THEN 1 ELSE Head(s) * ProdI(Tail(s))
RECURSIVE SumI(_)
SumI(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumI(Tail(s))

Tri(m) == (m * (m + 1)) \div 2
IsDict(c) == c.kind = "dict"
IsBox(c) == c.kind \in {"scalar", "vector", "array"}
IsPd(c) == c.kind \in {"posdef", "posdefvec", "posdefarr"}
NElem(c) == IF c.kind \in {"scalar", "posdef"} THEN 1 ELSE ProdI(c.shape)

RECURSIVE VecSize(_)
VecSize(c) ==
  IF IsDict(c) THEN SumI(Tab(Len(c.items), LAMBDA i : VecSize(c.items[i].c)))
  ELSE IF IsPd(c) THEN NElem(c) * Tri(c.m)
  ELSE IF c.kind = "subspace" THEN NCols(c.A)
  ELSE NElem(c)

\* number of extended free coordinates
RECURSIVE ExtSize(_)
ExtSize(c) ==
  IF IsDict(c) THEN SumI(Tab(Len(c.items), LAMBDA i : ExtSize(c.items[i].c)))
  ELSE IF c.kind = "simplex" THEN c.shape[1] * (c.shape[2] - 1)
  ELSE VecSize(c)

\* number of actual free coordinates
RECURSIVE FreeSize(_)
FreeSize(c) ==
  IF IsDict(c) THEN SumI(Tab(Len(c.items), LAMBDA i : FreeSize(c.items[i].c)))
  ELSE IF c.kind = "simplex" THEN c.shape[1] * (c.shape[2] - 1)
  ELSE IF c.kind = "subspace" THEN NCols(c.A) - NRows(c.A)
  ELSE VecSize(c)

\* position of entry (i, j), j <= i, in the packed lower triangle
LD(i, j) == (i * (i - 1)) \div 2 + j
\* 1-based row and column of packed index p
LDRow(p) == CHOOSE i \in 1..p : LD(i, 1) <= p /\ p <= LD(i, i)
LDCol(p) == p - LD(LDRow(p), 1) + 1

HasLb(c) == Len(c.lb) > 0
HasUb(c) == Len(c.ub) > 0

(***************************************************************************)
(* The tag each extended coordinate of a configuration carries.            *)
(***************************************************************************)
RECURSIVE Tags(_)
Tags(c) ==
  IF IsDict(c) THEN Concat(Tab(Len(c.items), LAMBDA i : Tags(c.items[i].c)))
  ELSE IF IsBox(c) THEN
    Tab(NElem(c), LAMBDA i : IF HasLb(c) \/ HasUb(c) THEN "log" ELSE "lin")
  ELSE IF c.kind = "simplex" THEN Tab(ExtSize(c), LAMBDA i : "log")
  ELSE IF IsPd(c) THEN
    Concat(Tab(NElem(c), LAMBDA e : Tab(Tri(c.m), LAMBDA p :
              IF LDRow(p) = LDCol(p) THEN "log" ELSE "lin")))
  ELSE Tab(ExtSize(c), LAMBDA i : "sub")

WellTagged(c, x) ==
  /\ Len(x) = ExtSize(c)
  /\ LET t == Tags(c) IN \A i \in 1..Len(x) :
       /\ x[i].t = t[i]
       /\ (t[i] = "log" => RLt(R0, x[i].v))

(***************************************************************************)
(* Free to vector, as jets over n coordinates; the parameter's own         *)
(* coordinates are numbers o+1 .. o+ExtSize.  With n = 0 these are values. *)
(***************************************************************************)
CJet(x, i, o, n) == IF x[i].t = "log" THEN JExp(n, o + i, x[i].v)
                    ELSE JLin(n, o + i, x[i].v)

BoxJet(c, E) ==
  IF HasLb(c) /\ HasUb(c) THEN
     JAddC(JScale(RSub(c.ub[1], c.lb[1]), JDiv(E, JAddC(E, R1))), c.lb[1])
  ELSE IF HasLb(c) THEN JAddC(E, c.lb[1])
  ELSE IF HasUb(c) THEN JAddC(JNeg(JInv(E)), c.ub[1])
  ELSE E

\* one m x m matrix from packed jets q (diagonal ones are exponentials)
PdJets(m, dlb, q, n) ==
  LET Lq(i, j) == IF j > i THEN JConst(n, R0) ELSE q[LD(i, j)]
  IN Tab(Tri(m), LAMBDA p :
       LET i == LDRow(p)  j == LDCol(p)
           s == JSum(Tab(j, LAMBDA k : JMul(Lq(i, k), Lq(j, k))))
       IN IF i = j THEN JAddC(s, dlb) ELSE s)

SimplexRow(q, n) ==
  LET S == JAddC(JSum(q), R1)  Si == JInv(S)
  IN <<Si>> \o Tab(Len(q), LAMBDA k : JMul(q[k], Si))

(* The same from jets of the extended coordinates themselves: E[i] is the   *)
(* jet of exp(coordinate i) for tag "log" and of coordinate i otherwise.     *)
RECURSIVE VecJetsE(_, _, _)
RECURSIVE DictJetsE(_, _, _, _)
VecJetsE(c, E, n) ==
  IF IsDict(c) THEN DictJetsE(c.items, 1, E, n)
  ELSE IF IsBox(c) THEN Tab(NElem(c), LAMBDA i : BoxJet(c, E[i]))
  ELSE IF c.kind = "simplex" THEN
    LET w == c.shape[2] - 1 IN
    IF w = 0 THEN Tab(c.shape[1], LAMBDA i : JConst(n, R1))
    ELSE Concat(Tab(c.shape[1], LAMBDA r :
           SimplexRow(Tab(w, LAMBDA k : E[(r - 1) * w + k]), n)))
  ELSE IF IsPd(c) THEN
    LET w == Tri(c.m) IN
    Concat(Tab(NElem(c), LAMBDA e :
       PdJets(c.m, c.dlb, Tab(w, LAMBDA k : E[(e - 1) * w + k]), n)))
  ELSE \* subspace
    LET P == ProjPerp(c.A) IN
    Tab(Len(E), LAMBDA i : JSum(Tab(Len(E), LAMBDA k : JScale(P[i][k], E[k]))))
DictJetsE(items, i, E, n) ==
  IF i > Len(items) THEN <<>>
  ELSE LET c == items[i].c  w == ExtSize(c)
       IN VecJetsE(c, SubSeq(E, 1, w), n)
            \o DictJetsE(items, i + 1, SubSeq(E, w + 1, Len(E)), n)

\* the jets of the own extended coordinates
CoordJets(x) == Tab(Len(x), LAMBDA i : CJet(x, i, 0, Len(x)))
VecJets(c, x, o, n) == VecJetsE(c, Tab(Len(x), LAMBDA i : CJet(x, i, o, n)), n)

FreeToVec(c, x) == LET J == VecJets(c, x, 0, 0) IN Tab(Len(J), LAMBDA i : J[i].v)
\* jets of the whole vector with respect to the parameter's own coordinates
OwnJets(c, x) == VecJets(c, x, 0, Len(x))
JacOf(J) == Tab(Len(J), LAMBDA i : J[i].g)
HessOf(J) == Tab(Len(J), LAMBDA i : J[i].h)

(***************************************************************************)
(* Vector to extended free value.  The square roots are of rational        *)
(* squares by construction of the inputs (asserted).                       *)
(***************************************************************************)
RECURSIVE ISqrtFrom(_, _)
ISqrtFrom(n, k) == IF k * k >= n THEN k ELSE ISqrtFrom(n, k + 1)
ISqrt(n) == LET r == ISqrtFrom(n, 0) IN
            IF r * r = n THEN r ELSE Assert(FALSE, <<"not a square", n>>)
RSqrt(a) == <<ISqrt(a[1]), ISqrt(a[2])>>

\* Cholesky factor of the packed lower triangle q (values), rows first
RECURSIVE CholFill(_, _, _, _)
CholFill(q, p, P, acc) ==
  IF p > P THEN acc
  ELSE LET i == LDRow(p)  j == LDCol(p)
           s == RSum(Tab(j - 1, LAMBDA k : RMul(acc[LD(i, k)], acc[LD(j, k)])))
           r == RSub(q[p], s)
       IN CholFill(q, p + 1, P,
            Append(acc, IF i = j THEN RSqrt(r) ELSE RDiv(r, acc[LD(j, j)])))

PdExt(m, dlb, q) ==
  LET q1 == Tab(Len(q), LAMBDA p : IF LDRow(p) = LDCol(p) THEN RSub(q[p], dlb) ELSE q[p])
      L == CholFill(q1, 1, Len(q1), <<>>)
  IN Tab(Len(q), LAMBDA p : [t |-> IF LDRow(p) = LDCol(p) THEN "log" ELSE "lin", v |-> L[p]])

BoxExt(c, v) ==
  IF HasLb(c) /\ HasUb(c) THEN [t |-> "log", v |-> RDiv(RSub(v, c.lb[1]), RSub(c.ub[1], v))]
  ELSE IF HasLb(c) THEN [t |-> "log", v |-> RSub(v, c.lb[1])]
  ELSE IF HasUb(c) THEN [t |-> "log", v |-> RInv(RSub(c.ub[1], v))]
  ELSE [t |-> "lin", v |-> v]

RECURSIVE VecToExt(_, _)
RECURSIVE DictExt(_, _, _)
VecToExt(c, q) ==
  IF IsDict(c) THEN DictExt(c.items, 1, q)
  ELSE IF IsBox(c) THEN Tab(NElem(c), LAMBDA i : BoxExt(c, q[i]))
  ELSE IF c.kind = "simplex" THEN
    LET k == c.shape[2] IN
    Concat(Tab(c.shape[1], LAMBDA r : Tab(k - 1, LAMBDA j :
       [t |-> "log", v |-> RDiv(q[(r - 1) * k + j + 1], q[(r - 1) * k + 1])])))
  ELSE IF IsPd(c) THEN
    LET w == Tri(c.m) IN
    Concat(Tab(NElem(c), LAMBDA e : PdExt(c.m, c.dlb, SubSeq(q, (e - 1) * w + 1, e * w))))
  ELSE LET py == MatVec(ProjPerp(c.A), q) IN Tab(Len(q), LAMBDA i : [t |-> "sub", v |-> py[i]])
DictExt(items, i, q) ==
  IF i > Len(items) THEN <<>>
  ELSE LET c == items[i].c  w == VecSize(c)
       IN VecToExt(c, SubSeq(q, 1, w)) \o DictExt(items, i + 1, SubSeq(q, w + 1, Len(q)))

(***************************************************************************)
(* Vector to full value (what get() returns, flattened row by row), and    *)
(* back; they differ only for matrices.                                    *)
(***************************************************************************)
PdFull(m, q) == Concat(Tab(m, LAMBDA i : Tab(m, LAMBDA j : IF j <= i THEN q[LD(i, j)] ELSE q[LD(j, i)])))
PdPack(m, f) == Tab(Tri(m), LAMBDA p : f[(LDRow(p) - 1) * m + LDCol(p)])

RECURSIVE Full(_, _)
RECURSIVE DictFull(_, _, _)
Full(c, q) ==
  IF IsDict(c) THEN DictFull(c.items, 1, q)
  ELSE IF IsPd(c) THEN LET w == Tri(c.m) IN
    Concat(Tab(NElem(c), LAMBDA e : PdFull(c.m, SubSeq(q, (e - 1) * w + 1, e * w))))
  ELSE q
DictFull(items, i, q) ==
  IF i > Len(items) THEN <<>>
  ELSE LET c == items[i].c  w == VecSize(c)
       IN Full(c, SubSeq(q, 1, w)) \o DictFull(items, i + 1, SubSeq(q, w + 1, Len(q)))

Unfull(c, f) ==
  IF IsPd(c) THEN LET w == c.m * c.m IN
    Concat(Tab(NElem(c), LAMBDA e : PdPack(c.m, SubSeq(f, (e - 1) * w + 1, e * w))))
  ELSE f

(***************************************************************************)
(* Membership in the constraint set.                                       *)
(***************************************************************************)
PdMat(m, q) == Tab2(m, m, LAMBDA i, j : IF j <= i THEN q[LD(i, j)] ELSE q[LD(j, i)])

RECURSIVE Feasible(_, _)
RECURSIVE DictFeasible(_, _, _)
Feasible(c, q) ==
  IF IsDict(c) THEN DictFeasible(c.items, 1, q)
  ELSE IF IsBox(c) THEN \A i \in 1..Len(q) :
         /\ (HasLb(c) => RLe(c.lb[1], q[i]))
         /\ (HasUb(c) => RLe(q[i], c.ub[1]))
  ELSE IF c.kind = "simplex" THEN
    LET k == c.shape[2] IN
    /\ \A i \in 1..Len(q) : RLe(R0, q[i])
    /\ \A r \in 1..c.shape[1] : RSum(SubSeq(q, (r - 1) * k + 1, r * k)) = R1
  ELSE IF IsPd(c) THEN
    LET w == Tri(c.m) IN \A e \in 1..NElem(c) :
      LET M == PdMat(c.m, SubSeq(q, (e - 1) * w + 1, e * w)) IN
      IsPosDef(MSub(M, MScale(c.dlb, Eye(c.m))))
  ELSE \A r \in 1..NRows(c.A) : Dot(c.A[r], q) = R0
DictFeasible(items, i, q) ==
  IF i > Len(items) THEN TRUE
  ELSE LET c == items[i].c  w == VecSize(c)
       IN Feasible(c, SubSeq(q, 1, w)) /\ DictFeasible(items, i + 1, SubSeq(q, w + 1, Len(q)))

\* strictly inside the bounds: the free value is finite there
RECURSIVE Interior(_, _)
RECURSIVE DictInterior(_, _, _)
Interior(c, q) ==
  IF IsDict(c) THEN DictInterior(c.items, 1, q)
  ELSE /\ Feasible(c, q)
       /\ IsBox(c) => \A i \in 1..Len(q) : /\ (HasLb(c) => c.lb[1] # q[i])
                                           /\ (HasUb(c) => c.ub[1] # q[i])
       /\ c.kind = "simplex" => \A i \in 1..Len(q) : q[i] # R0
DictInterior(items, i, q) ==
  IF i > Len(items) THEN TRUE
  ELSE LET c == items[i].c  w == VecSize(c)
       IN Interior(c, SubSeq(q, 1, w)) /\ DictInterior(items, i + 1, SubSeq(q, w + 1, Len(q)))

(***************************************************************************)
(* Paths into containers: the configuration at a path, and where its       *)
(* vector and extended coordinates start.                                  *)
(***************************************************************************)
ItemIx(c, nm) == CHOOSE i \in 1..Len(c.items) : c.items[i].name = nm
RECURSIVE CfgAt(_, _)
CfgAt(c, path) == IF path = <<>> THEN c ELSE CfgAt(c.items[ItemIx(c, Head(path))].c, Tail(path))
RECURSIVE VecOff(_, _)
VecOff(c, path) ==
  IF path = <<>> THEN 0
  ELSE LET k == ItemIx(c, Head(path)) IN
       SumI(Tab(k - 1, LAMBDA i : VecSize(c.items[i].c))) + VecOff(c.items[k].c, Tail(path))
RECURSIVE FreeOff(_, _)
FreeOff(c, path) ==
  IF path = <<>> THEN 0
  ELSE LET k == ItemIx(c, Head(path)) IN
       SumI(Tab(k - 1, LAMBDA i : FreeSize(c.items[i].c))) + FreeOff(c.items[k].c, Tail(path))

Splice(s, o, t) == SubSeq(s, 1, o) \o t \o SubSeq(s, o + Len(t) + 1, Len(s))
Slice(s, o, w) == SubSeq(s, o + 1, o + w)

\* all leaf paths, in order
RECURSIVE LeafPaths(_)
LeafPaths(c) ==
  IF ~IsDict(c) THEN << <<>> >>
  ELSE Concat(Tab(Len(c.items), LAMBDA i :
         LET ps == LeafPaths(c.items[i].c) IN
         Tab(Len(ps), LAMBDA j : <<c.items[i].name>> \o ps[j])))
\* all paths, containers included
RECURSIVE AllPaths(_)
AllPaths(c) ==
  IF ~IsDict(c) THEN << <<>> >>
  ELSE << <<>> >> \o Concat(Tab(Len(c.items), LAMBDA i :
         LET ps == AllPaths(c.items[i].c) IN
         Tab(Len(ps), LAMBDA j : <<c.items[i].name>> \o ps[j])))
=============================================================================
