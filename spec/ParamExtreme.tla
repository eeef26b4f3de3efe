---------------------------- MODULE ParamExtreme ---------------------------
(***************************************************************************)
(* Free coordinates of huge magnitude.  A coordinate is an integer z that  *)
(* stands for z times a huge magnitude; the value of the parameter is then *)
(* its limit, and it is still inside the (closed) constraint set.          *)
(* Also: observed values (a default, say) judged exactly by Feasible.      *)
(***************************************************************************)
EXTENDS ParamLeaf, Json, IOUtils, FiniteSets

Cases == JsonDeserialize(IOEnv.LRVB_SUITES)

\* a limit is [k |-> "fin", v] or [k |-> "big", v |-> sign]
Fin(v) == [k |-> "fin", v |-> v]
Big(s) == [k |-> "big", v |-> R(s)]

BoxLimit(c, z) ==
  IF HasLb(c) /\ HasUb(c) THEN
     IF z > 0 THEN Fin(c.ub[1]) ELSE IF z < 0 THEN Fin(c.lb[1])
     ELSE Fin(RMul(RHalf, RAdd(c.lb[1], c.ub[1])))
  ELSE IF HasLb(c) THEN
     IF z > 0 THEN Big(1) ELSE IF z < 0 THEN Fin(c.lb[1]) ELSE Fin(RAdd(c.lb[1], R1))
  ELSE IF HasUb(c) THEN
     IF z > 0 THEN Fin(c.ub[1]) ELSE IF z < 0 THEN Big(-1) ELSE Fin(RSub(c.ub[1], R1))
  ELSE IF z = 0 THEN Fin(R0) ELSE Big(IF z > 0 THEN 1 ELSE -1)

MaxOf(S) == CHOOSE m \in S : \A k \in S : k <= m
\* the largest entries (the reference entry is 0) share the mass
SimplexLimit(zs) ==
  LET a == <<0>> \o zs
      m == MaxOf({a[i] : i \in 1..Len(a)})
      n == Cardinality({i \in 1..Len(a) : a[i] = m})
  IN Tab(Len(a), LAMBDA i : Fin(IF a[i] = m THEN <<1, n>> ELSE R0))

Limit(c, z) ==
  IF IsBox(c) THEN Tab(Len(z), LAMBDA i : BoxLimit(c, z[i]))
  ELSE LET w == c.shape[2] - 1 IN
       Concat(Tab(c.shape[1], LAMBDA r : SimplexLimit(SubSeq(z, (r - 1) * w + 1, r * w))))

VARIABLE n
Init == n \in 1..Len(Cases)
Next == UNCHANGED n
Spec == Init /\ [][Next]_n

C == Cases[n]
Verdict ==
  IF C.what = "limit" THEN
     PrintT("@@" \o ToJson([n |-> n, lim |-> Limit(C.c, C.z)]))
  ELSE PrintT("@@" \o ToJson([n |-> n, feasible |-> Len(C.q) = VecSize(C.c) /\ Interior(C.c, C.q)]))
\* the limit itself is feasible
LimitFeasible == C.what = "limit" =>
  LET L == Limit(C.c, C.z) IN
  IF IsBox(C.c) THEN \A i \in 1..Len(L) : L[i].k = "fin" =>
       /\ (HasLb(C.c) => RLe(C.c.lb[1], L[i].v))
       /\ (HasUb(C.c) => RLe(L[i].v, C.c.ub[1]))
  ELSE Feasible(C.c, Tab(Len(L), LAMBDA i : L[i].v))
=============================================================================
