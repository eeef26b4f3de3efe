----------------------------- MODULE ParamStore ----------------------------
(***************************************************************************)
(* A store of parameter objects and the public operations on them, as a    *)
(* state machine.  The state of an object is its configuration and its     *)
(* vector value; every read is a function of that state, whichever writer  *)
(* produced it.  One action per public call.                               *)
(*                                                                         *)
(* heap: object name -> [c |-> configuration, q |-> vector value,          *)
(*                       ix |-> index parameter?]                          *)
(***************************************************************************)
EXTENDS ParamLeaf, TLC

\* Which constructions make sense.
LegalCfg(a) ==
  LET c == a.c IN
  /\ IsBox(c) /\ HasLb(c) /\ HasUb(c) => RLt(c.lb[1], c.ub[1])
  /\ c.kind = "subspace" => /\ NRows(c.A) < a.dim
                             /\ NCols(c.A) = a.dim
  /\ IsPd(c) => RLe(R0, c.dlb)
  /\ "shape" \in DOMAIN a => (a.shape = IF c.kind = "posdef" THEN <<c.m, c.m>>
                                          ELSE IF IsPd(c) THEN c.shape \o <<c.m, c.m>>
                                          ELSE c.shape)

Obj(c, q) == [c |-> c, q |-> q, ix |-> FALSE]

\* Distinct exponents make the order of free coordinates observable.
Snapshot(ob) ==
  [q |-> ob.q,
   f |-> Full(ob.c, ob.q),
   x |-> IF ob.ix THEN <<>> ELSE VecToExt(ob.c, ob.q)]

OK(r) == [ok |-> TRUE, val |-> r]
Rejected == [ok |-> FALSE, val |-> <<>>]

Put(h, o, ob) == [k \in (DOMAIN h) \cup {o} |-> IF k = o THEN ob ELSE h[k]]

WriteAt(h, op, part) ==
  LET ob == h[op.o] IN
  Put(h, op.o, [ob EXCEPT !.q = Splice(ob.q, VecOff(ob.c, op.path), part)])

FullShape(c) == IF c.kind = "scalar" THEN <<>>
                ELSE IF c.kind = "posdef" THEN <<c.m, c.m>>
                ELSE IF IsPd(c) THEN c.shape \o <<c.m, c.m>>
                ELSE IF c.kind = "subspace" THEN <<NCols(c.A)>>
                ELSE c.shape

(***************************************************************************)
(* Which arguments a parameter may accept.                                 *)
(***************************************************************************)
Acceptable(h, op) ==
  CASE op.call = "set_free" -> Len(op.arg.data) = FreeSize(CfgAt(h[op.o].c, op.path))
    [] op.call = "set_vector" -> Len(op.arg.data) = VecSize(CfgAt(h[op.o].c, op.path))
    [] op.call = "set" ->
         LET c == CfgAt(h[op.o].c, op.path) IN
         IF c.kind \in {"vector", "subspace"} THEN Len(op.arg.data) = VecSize(c)
         ELSE /\ op.arg.shape = FullShape(c)
              /\ IsPd(c) => \A e \in 1..NElem(c), i, j \in 1..c.m :
                   LET M == SubSeq(op.arg.data, (e - 1) * c.m * c.m + 1, e * c.m * c.m) IN
                   M[(i - 1) * c.m + j] = M[(j - 1) * c.m + i]
    [] op.call = "get_free_of" ->
         LET c == CfgAt(h[op.o].c, op.path) IN Feasible(c, Unfull(c, op.arg.data))
    [] op.call = "construct" -> LegalCfg(op.arg)

\* the Hessian an n x n list of stored entries <<row, col, value>> denotes
HessGiven(op, n) ==
  IF op.sparse = "" THEN op.vh
  ELSE Tab2(n, n, LAMBDA i, j : RSum(Tab(Len(op.vh), LAMBDA k :
         IF op.vh[k][1] = i /\ op.vh[k][2] = j THEN op.vh[k][3] ELSE R0)))

(***************************************************************************)
(* The effect of one call: [h |-> new heap, r |-> result].                 *)
(* The value a writer sets is named by extended free coordinates op.x; the *)
(* result of set_vector and set is the argument those coordinates denote.  *)
(***************************************************************************)
Effect(h, op) ==
  CASE op.op = "new" ->
         \* constructed with a value
         [h |-> Put(h, op.o, Obj(op.c, FreeToVec(op.c, op.x))), r |-> OK(<<>>)]
    [] op.op = "set_free" ->
         LET c == CfgAt(h[op.o].c, op.path) IN
         [h |-> WriteAt(h, op, FreeToVec(c, op.x)), r |-> OK(<<>>)]
    [] op.op = "free_to_vector" ->
         LET c == CfgAt(h[op.o].c, op.path)  v == FreeToVec(c, op.x) IN
         [h |-> WriteAt(h, op, v), r |-> OK(v)]
    [] op.op = "set_vector" ->
         LET v == FreeToVec(CfgAt(h[op.o].c, op.path), op.x) IN
         [h |-> WriteAt(h, op, v), r |-> OK(v)]
    [] op.op = "set" ->
         \* the argument is the full value, row by row
         LET c == CfgAt(h[op.o].c, op.path)
             f == Full(c, FreeToVec(c, op.x))
         IN [h |-> WriteAt(h, op, Unfull(c, f)), r |-> OK(f)]
    [] op.op = "rt" ->
         \* write back what was just read, through one of the three views
         [h |-> h, r |-> OK(<<>>)]
    [] op.op = "copy" ->
         [h |-> Put(h, op.to, h[op.o]), r |-> OK(<<>>)]
    [] op.op = "index" ->
         [h |-> Put(h, op.to, [c |-> h[op.o].c, ix |-> TRUE,
                               q |-> Tab(Len(h[op.o].q), LAMBDA i : R(i - 1))]),
          r |-> OK(<<>>)]
    [] op.op = "get_free" ->
         LET ob == h[op.o]  c == CfgAt(ob.c, op.path) IN
         [h |-> h, r |-> OK(VecToExt(c, Slice(ob.q, VecOff(ob.c, op.path), VecSize(c))))]
    [] op.op = "get_vector" ->
         LET ob == h[op.o]  c == CfgAt(ob.c, op.path) IN
         [h |-> h, r |-> OK(Slice(ob.q, VecOff(ob.c, op.path), VecSize(c)))]
    [] op.op = "jac" ->
         LET c == CfgAt(h[op.o].c, op.path) IN
         [h |-> h, r |-> OK(JacOf(OwnJets(c, op.x)))]
    [] op.op = "hess" ->
         LET c == CfgAt(h[op.o].c, op.path) IN
         [h |-> h, r |-> OK(HessOf(OwnJets(c, op.x)))]
    [] op.op = "convert" ->
         \* the free Hessian of an objective whose vector gradient and Hessian
         \* at free value x are vg and vh; it also moves the parameter to x.
         \* A sparse vh is a list of stored entries: those of one place add up
         LET c == CfgAt(h[op.o].c, op.path)
             J == OwnJets(c, op.x)
             Jm == JacOf(J)
             A == MatMul(Transpose(Jm), MatMul(HessGiven(op, Len(J)), Jm))
             n == Len(op.x)
             B == Tab2(n, n, LAMBDA i, j :
                    RAdd(A[i][j], RSum(Tab(Len(J), LAMBDA k : RMul(op.vg[k], J[k].h[i][j])))))
         IN [h |-> WriteAt(h, op, FreeToVec(c, op.x)), r |-> OK(B)]
    [] op.op = "bad" ->
         \* a call whose argument has the wrong size, shape or symmetry, or a
         \* read of a value outside its constraint set: it must be rejected
         [h |-> h, r |-> IF Acceptable(h, op) THEN OK(<<>>) ELSE Rejected]
    [] op.op = "push" ->
         \* a further parameter is appended to a (top level) container
         LET ob == h[op.o] IN
         [h |-> Put(h, op.o, [ob EXCEPT
                  !.c = [ob.c EXCEPT !.items = Append(@, [name |-> op.name, c |-> op.c])],
                  !.q = @ \o FreeToVec(op.c, op.x)]),
          r |-> OK(FreeToVec(op.c, op.x))]
    [] op.op = "scribble" ->
         \* the caller overwrites a buffer it passed to set_free or received
         \* from get_free earlier: nobody else notices
         [h |-> h, r |-> OK(<<>>)]
=============================================================================
