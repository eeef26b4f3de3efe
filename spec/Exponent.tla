------------------------------ MODULE Exponent -----------------------------
(***************************************************************************)
(* Parameters at values far from one.  ParamLeaf does this at values whose *)
(* rationals are small; here a free coordinate is k*ln(2) for an integer k *)
(* of any size, and everything is held by its exponents:                   *)
(*   a coordinate  [s, e]       e*ln(2) where the kind is bounded,          *)
(*                              s*2^e where it is not                      *)
(*   a vector entry [k|->"pow", off, s, e]   off + s*2^e                   *)
(*                  [k|->"odds", lb, ub, e]  (v-lb)/(ub-v) = 2^e           *)
(*                  [k|->"share", ks, i]     2^ks[i] / (sum of 2^ks)       *)
(* A positive definite matrix is diagonal here.                            *)
(***************************************************************************)
EXTENDS ParamLeaf

BoxTerm(c, z) ==
  IF HasLb(c) /\ HasUb(c) THEN [k |-> "odds", lb |-> c.lb[1], ub |-> c.ub[1], e |-> z.e]
  ELSE IF HasLb(c) THEN [k |-> "pow", off |-> c.lb[1], s |-> 1, e |-> z.e]
  ELSE IF HasUb(c) THEN [k |-> "pow", off |-> c.ub[1], s |-> -1, e |-> -z.e]
  ELSE [k |-> "pow", off |-> R0, s |-> z.s, e |-> z.e]

SimplexTerms(zs) ==
  LET ks == <<0>> \o Tab(Len(zs), LAMBDA i : zs[i].e)
  IN Tab(Len(ks), LAMBDA i : [k |-> "share", ks |-> ks, i |-> i])

PdTerms(c, zs) ==
  Tab(Tri(c.m), LAMBDA p :
    IF LDRow(p) = LDCol(p) THEN [k |-> "pow", off |-> c.dlb, s |-> 1, e |-> 2 * zs[p].e]
    ELSE [k |-> "pow", off |-> R0, s |-> 0, e |-> 0])

RECURSIVE ToTerms(_, _)
RECURSIVE DictToTerms(_, _, _)
ToTerms(c, zs) ==
  IF IsDict(c) THEN DictToTerms(c.items, 1, zs)
  ELSE IF IsBox(c) THEN Tab(Len(zs), LAMBDA i : BoxTerm(c, zs[i]))
  ELSE IF c.kind = "simplex" THEN
    LET w == c.shape[2] - 1 IN
    Concat(Tab(c.shape[1], LAMBDA r : SimplexTerms(SubSeq(zs, (r - 1) * w + 1, r * w))))
  ELSE LET w == Tri(c.m) IN
    Concat(Tab(NElem(c), LAMBDA e : PdTerms(c, SubSeq(zs, (e - 1) * w + 1, e * w))))
DictToTerms(items, i, zs) ==
  IF i > Len(items) THEN <<>>
  ELSE LET w == ExtSize(items[i].c) IN
       ToTerms(items[i].c, SubSeq(zs, 1, w)) \o DictToTerms(items, i + 1, SubSeq(zs, w + 1, Len(zs)))

(* The way back, from the vector alone. *)
BoxBack(c, t) ==
  IF HasLb(c) /\ HasUb(c) THEN [s |-> 1, e |-> t.e]
  ELSE IF HasLb(c) THEN [s |-> 1, e |-> t.e]
  ELSE IF HasUb(c) THEN [s |-> 1, e |-> -t.e]
  ELSE [s |-> t.s, e |-> t.e]

RECURSIVE ToExps(_, _)
RECURSIVE DictToExps(_, _, _)
ToExps(c, ts) ==
  IF IsDict(c) THEN DictToExps(c.items, 1, ts)
  ELSE IF IsBox(c) THEN Tab(Len(ts), LAMBDA i : BoxBack(c, ts[i]))
  ELSE IF c.kind = "simplex" THEN
    LET n == c.shape[2] IN
    Concat(Tab(c.shape[1], LAMBDA r : Tab(n - 1, LAMBDA j :
      LET t == ts[(r - 1) * n + j + 1]  t0 == ts[(r - 1) * n + 1]
      IN [s |-> 1, e |-> t.ks[t.i] - t0.ks[t0.i]])))
  ELSE Tab(Len(ts), LAMBDA q :
    LET p == ((q - 1) % Tri(c.m)) + 1 IN
    IF LDRow(p) = LDCol(p) THEN [s |-> 1, e |-> ts[q].e \div 2] ELSE [s |-> 0, e |-> 0])
DictToExps(items, i, ts) ==
  IF i > Len(items) THEN <<>>
  ELSE LET w == VecSize(items[i].c) IN
       ToExps(items[i].c, SubSeq(ts, 1, w)) \o DictToExps(items, i + 1, SubSeq(ts, w + 1, Len(ts)))

(***************************************************************************)
(* Derivatives.  A monomial [c, e, f] is c * 2^e * (product of the shares f),*)
(* a share being <<ks, i>>: 2^ks[i] / (sum of 2^ks); an entry is the sum of *)
(* its monomials, and places that do not occur are zero.  off is a magnitude *)
(* whose rounding the entry inherits.                                      *)
(*   Jacobian entry  [v, j, m, off]       d vec[v] / d free[j]             *)
(*   Hessian entry   [v, i, j, m, off]    d2 vec[v] / d free[i] d free[j]  *)
(***************************************************************************)
Mono(c, e, f) == [c |-> c, e |-> e, f |-> f]
JEnt(v, j, m, off) == [v |-> v, j |-> j, m |-> m, off |-> off]
HEnt(v, i, j, m, off) == [v |-> v, i |-> i, j |-> j, m |-> m, off |-> off]

BoxJac(c, z, i) ==
  IF HasLb(c) /\ HasUb(c) THEN
     LET ks == <<0, z.e>>  w == RSub(c.ub[1], c.lb[1]) IN
     <<JEnt(i, i, <<Mono(w, 0, << <<ks, 1>>, <<ks, 2>> >>)>>, w)>>
  ELSE IF HasLb(c) THEN <<JEnt(i, i, <<Mono(R1, z.e, <<>>)>>, R0)>>
  ELSE IF HasUb(c) THEN <<JEnt(i, i, <<Mono(R1, -z.e, <<>>)>>, R0)>>
  ELSE <<JEnt(i, i, <<Mono(R1, 0, <<>>)>>, R0)>>
BoxHess(c, z, i) ==
  IF HasLb(c) /\ HasUb(c) THEN
     LET ks == <<0, z.e>>  w == RSub(c.ub[1], c.lb[1]) IN
     <<HEnt(i, i, i, <<Mono(w, 0, << <<ks, 1>>, <<ks, 1>>, <<ks, 2>> >>),
                       Mono(RNeg(w), 0, << <<ks, 1>>, <<ks, 2>>, <<ks, 2>> >>)>>, w)>>
  ELSE IF HasLb(c) THEN <<HEnt(i, i, i, <<Mono(R1, z.e, <<>>)>>, R0)>>
  ELSE IF HasUb(c) THEN <<HEnt(i, i, i, <<Mono(R(-1), -z.e, <<>>)>>, R0)>>
  ELSE <<>>

\* one simplex row: entry i of the row is share i; free coordinate j moves share j+1
Delta(a, b) == IF a = b THEN 1 ELSE 0
RowJac(zs) ==
  LET ks == <<0>> \o Tab(Len(zs), LAMBDA i : zs[i].e)  n == Len(ks) IN
  Concat(Tab(n, LAMBDA i : Tab(n - 1, LAMBDA j :
    JEnt(i, j, (IF i = j + 1 THEN <<Mono(R1, 0, << <<ks, i>> >>)>> ELSE <<>>)
               \o <<Mono(R(-1), 0, << <<ks, i>>, <<ks, j + 1>> >>)>>, R0))))
\* p_i [(d_ij - p_j)(d_ik - p_k) - p_j (d_jk - p_k)]
RowHess(zs) ==
  LET ks == <<0>> \o Tab(Len(zs), LAMBDA i : zs[i].e)  n == Len(ks)
      P(i) == <<ks, i>>
      M(k, s) == IF k = 0 THEN <<>> ELSE <<Mono(R(k), 0, s)>>
  IN Concat(Tab(n, LAMBDA i : Concat(Tab(n - 1, LAMBDA j0 : Tab(n - 1, LAMBDA k0 :
       LET j == j0 + 1  k == k0 + 1 IN
       HEnt(i, j0, k0,
            M(Delta(i, j) * Delta(i, k), <<P(i)>>) \o M(-Delta(i, j), <<P(i), P(k)>>)
            \o M(-Delta(i, k), <<P(i), P(j)>>) \o M(-Delta(j, k), <<P(i), P(j)>>)
            \o M(2, <<P(i), P(j), P(k)>>), R0))))))

\* one diagonal matrix: entry (i, j), j <= i, is the sum over k <= j of L_ik L_jk
PdJac(c, zs) ==
  Concat(Tab(Tri(c.m), LAMBDA p :
    LET i == LDRow(p)  j == LDCol(p) IN
    <<IF i = j THEN JEnt(p, p, <<Mono(R(2), 2 * zs[p].e, <<>>)>>, R0)
      ELSE JEnt(p, p, <<Mono(R1, zs[LD(j, j)].e, <<>>)>>, R0)>>))
PdHess(c, zs) ==
  Concat(Tab(Tri(c.m), LAMBDA p :
    LET i == LDRow(p)  j == LDCol(p)  d == zs[LD(j, j)].e IN
    IF i = j THEN
      <<HEnt(p, p, p, <<Mono(R(4), 2 * d, <<>>)>>, R0)>>
      \o Tab(i - 1, LAMBDA k : HEnt(p, LD(i, k), LD(i, k), <<Mono(R(2), 0, <<>>)>>, R0))
    ELSE
      <<HEnt(p, p, LD(j, j), <<Mono(R1, d, <<>>)>>, R0), HEnt(p, LD(j, j), p, <<Mono(R1, d, <<>>)>>, R0)>>
      \o Concat(Tab(j - 1, LAMBDA k :
           <<HEnt(p, LD(i, k), LD(j, k), <<Mono(R1, 0, <<>>)>>, R0),
             HEnt(p, LD(j, k), LD(i, k), <<Mono(R1, 0, <<>>)>>, R0)>>))))

ShiftJ(es, v, f) == Tab(Len(es), LAMBDA a : [es[a] EXCEPT !.v = @ + v, !.j = @ + f])
ShiftH(es, v, f) == Tab(Len(es), LAMBDA a : [es[a] EXCEPT !.v = @ + v, !.i = @ + f, !.j = @ + f])

RECURSIVE JacEnts(_, _)
RECURSIVE DictJacEnts(_, _, _)
JacEnts(c, zs) ==
  IF IsDict(c) THEN DictJacEnts(c.items, 1, zs)
  ELSE IF IsBox(c) THEN Concat(Tab(Len(zs), LAMBDA i : BoxJac(c, zs[i], i)))
  ELSE IF c.kind = "simplex" THEN
    LET k == c.shape[2]  w == k - 1 IN
    Concat(Tab(c.shape[1], LAMBDA r : ShiftJ(RowJac(SubSeq(zs, (r - 1) * w + 1, r * w)), (r - 1) * k, (r - 1) * w)))
  ELSE LET w == Tri(c.m) IN
    Concat(Tab(NElem(c), LAMBDA e : ShiftJ(PdJac(c, SubSeq(zs, (e - 1) * w + 1, e * w)), (e - 1) * w, (e - 1) * w)))
DictJacEnts(items, i, zs) ==
  IF i > Len(items) THEN <<>>
  ELSE LET c == items[i].c  w == ExtSize(c) IN
       JacEnts(c, SubSeq(zs, 1, w)) \o ShiftJ(DictJacEnts(items, i + 1, SubSeq(zs, w + 1, Len(zs))), VecSize(c), w)

RECURSIVE HessEnts(_, _)
RECURSIVE DictHessEnts(_, _, _)
HessEnts(c, zs) ==
  IF IsDict(c) THEN DictHessEnts(c.items, 1, zs)
  ELSE IF IsBox(c) THEN Concat(Tab(Len(zs), LAMBDA i : BoxHess(c, zs[i], i)))
  ELSE IF c.kind = "simplex" THEN
    LET k == c.shape[2]  w == k - 1 IN
    Concat(Tab(c.shape[1], LAMBDA r : ShiftH(RowHess(SubSeq(zs, (r - 1) * w + 1, r * w)), (r - 1) * k, (r - 1) * w)))
  ELSE LET w == Tri(c.m) IN
    Concat(Tab(NElem(c), LAMBDA e : ShiftH(PdHess(c, SubSeq(zs, (e - 1) * w + 1, e * w)), (e - 1) * w, (e - 1) * w)))
DictHessEnts(items, i, zs) ==
  IF i > Len(items) THEN <<>>
  ELSE LET c == items[i].c  w == ExtSize(c) IN
       HessEnts(c, SubSeq(zs, 1, w)) \o ShiftH(DictHessEnts(items, i + 1, SubSeq(zs, w + 1, Len(zs))), VecSize(c), w)

(* The conversion of a vector Hessian with the entries vh = <<a, b, c, e>>   *)
(* (value c*2^e) and the vector gradient vg = <<a, c, e>> to the free        *)
(* coordinates: Jacobian sandwich plus gradient-weighted Hessians.          *)
MMul(a, b) == Concat(Tab(Len(a), LAMBDA p : Tab(Len(b), LAMBDA q :
                Mono(RMul(a[p].c, b[q].c), a[p].e + b[q].e, a[p].f \o b[q].f))))
ConvertEnts(c, zs, vg, vh) ==
  LET J == JacEnts(c, zs)  H == HessEnts(c, zs)
      At(v) == SelectSeq(J, LAMBDA x : x.v = v)
      Sandwich == Concat(Tab(Len(vh), LAMBDA t :
        LET A == At(vh[t][1])  B == At(vh[t][2])  m == <<Mono(vh[t][3], vh[t][4], <<>>)>> IN
        Concat(Tab(Len(A), LAMBDA a : Tab(Len(B), LAMBDA b :
          [i |-> A[a].j, j |-> B[b].j, m |-> MMul(m, MMul(A[a].m, B[b].m))])))))
      Weighted == Concat(Tab(Len(vg), LAMBDA t :
        LET G == SelectSeq(H, LAMBDA x : x.v = vg[t][1])  m == <<Mono(vg[t][2], vg[t][3], <<>>)>> IN
        Tab(Len(G), LAMBDA g : [i |-> G[g].i, j |-> G[g].j, m |-> MMul(m, G[g].m)])))
  IN Sandwich \o Weighted

(* At moderate exponents all this is what ParamLeaf says.                   *)
RECURSIVE Pow2(_)
Pow2(e) == IF e < 0 THEN RInv(Pow2(-e)) ELSE IF e = 0 THEN R1 ELSE RMul(R(2), Pow2(e - 1))
Share(s) == RDiv(Pow2(s[1][s[2]]), RSum(Tab(Len(s[1]), LAMBDA i : Pow2(s[1][i]))))
RECURSIVE Shares(_)
Shares(f) == IF f = <<>> THEN R1 ELSE RMul(Share(Head(f)), Shares(Tail(f)))
MonoVal(m) == RMul(RMul(m.c, Pow2(m.e)), Shares(m.f))
EntVal(m) == RSum(Tab(Len(m), LAMBDA i : MonoVal(m[i])))
Moderate(zs) == \A i \in 1..Len(zs) : zs[i].e \in -2..2
ExtOf(c, zs) == LET t == Tags(c) IN Tab(Len(zs), LAMBDA i :
  [t |-> t[i], v |-> IF t[i] = "lin" THEN RMul(R(zs[i].s), Pow2(zs[i].e)) ELSE Pow2(zs[i].e)])
DerivsAgree(c, zs) ==
  LET O == OwnJets(c, ExtOf(c, zs))  J == JacEnts(c, zs)  H == HessEnts(c, zs)  n == Len(zs) IN
  \A v \in 1..Len(O) :
    /\ \A i \in 1..n :
         LET S == SelectSeq(J, LAMBDA x : x.v = v /\ x.j = i) IN
         O[v].g[i] = RSum(Tab(Len(S), LAMBDA a : EntVal(S[a].m)))
    /\ \A i, j \in 1..n :
         LET S == SelectSeq(H, LAMBDA x : x.v = v /\ x.i = i /\ x.j = j) IN
         O[v].h[i][j] = RSum(Tab(Len(S), LAMBDA a : EntVal(S[a].m)))

WellFormed(c, zs) ==
  /\ Len(zs) = ExtSize(c)
  /\ LET t == Tags(c) IN \A i \in 1..Len(zs) : t[i] = "log" => zs[i].s = 1
=============================================================================
