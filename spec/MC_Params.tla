------------------------------ MODULE MC_Params ----------------------------
(***************************************************************************)
(* Checking and driving of ParamStore.  The suites come from a JSON file:  *)
(*   mode "script": one call sequence, executed in order;                  *)
(*   mode "graph":  an alphabet of calls, explored exhaustively up to a    *)
(*                  depth; the last call is part of the state so that      *)
(*                  every ordered pair of calls occurs in every state.     *)
(* Every transition is printed, with the complete projected state after it,*)
(* for replay on the implementation.                                       *)
(***************************************************************************)
EXTENDS ParamStore, Json, IOUtils

Suites == JsonDeserialize(IOEnv.LRVB_SUITES)

\* step counts the calls of a script; it stays 0 while a graph is explored
VARIABLES sid, heap, last, step
vars == <<sid, heap, last, step>>

EmptyHeap == [k \in {} |-> 0]

\* JSON index parameters etc. never appear in the initial heap
InitHeap(s) ==
  LET ini == Suites[s].init IN
  [k \in {ini[i].o : i \in 1..Len(ini)} |->
     LET e == CHOOSE i \in 1..Len(ini) : ini[i].o = k IN Obj(ini[e].c, FreeToVec(ini[e].c, ini[e].x))]

Snap(h) == [k \in DOMAIN h |-> Snapshot(h[k])]

Init ==
  /\ sid \in 1..Len(Suites)
  /\ heap = InitHeap(sid)
  /\ last = 0
  /\ step = 0
  /\ PrintT("@@" \o ToJson([s |-> sid, i |-> 0, h |-> Snap(heap)]))

Enabled(op) ==
  CASE op.op = "new" -> op.o \notin DOMAIN heap
    [] op.op \in {"copy", "index"} -> op.o \in DOMAIN heap /\ ~heap[op.o].ix
    [] op.op = "push" -> op.o \in DOMAIN heap /\ IsDict(heap[op.o].c) /\ ~heap[op.o].ix
                          /\ \A i \in 1..Len(heap[op.o].c.items) : heap[op.o].c.items[i].name # op.name
    [] OTHER -> op.o \in DOMAIN heap /\ ~heap[op.o].ix

Do(k) ==
  LET op == Suites[sid].ops[k]
      e == Effect(heap, op)
  IN /\ Enabled(op)
     /\ heap' = e.h
     /\ last' = k
     /\ UNCHANGED <<sid, step>>
     /\ PrintT("@@" \o ToJson([s |-> sid, l |-> last, p |-> Snap(heap), k |-> k, r |-> e.r,
                               h |-> Snap(e.h)]))

DoScript(k) ==
  LET op == Suites[sid].ops[k]
      e == Effect(heap, op)
  IN /\ Assert(Enabled(op), <<"script call not enabled", sid, k>>)
     /\ heap' = e.h
     /\ last' = k
     /\ step' = step + 1
     /\ UNCHANGED sid
     /\ PrintT("@@" \o ToJson([s |-> sid, k |-> k, r |-> e.r, h |-> Snap(e.h)]))

Next ==
  \/ /\ Suites[sid].mode = "script"
     /\ step < Len(Suites[sid].ops)
     /\ DoScript(step + 1)
  \/ /\ Suites[sid].mode = "graph"
     /\ \E k \in 1..Len(Suites[sid].ops) : Do(k)

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What the model itself guarantees, checked in every state.               *)
(***************************************************************************)
TypeOK == \A o \in DOMAIN heap : Len(heap[o].q) = VecSize(heap[o].c)
\* no operation leaves the constraint set (index parameters are exempt)
FeasibleInv == \A o \in DOMAIN heap : heap[o].ix \/ Feasible(heap[o].c, heap[o].q)
\* free and vector parameterizations are inverse to one another
RoundTripInv == \A o \in DOMAIN heap : heap[o].ix \/
   LET x == VecToExt(heap[o].c, heap[o].q) IN
   /\ WellTagged(heap[o].c, x)
   /\ FreeToVec(heap[o].c, x) = heap[o].q
\* full value and vector are inverse to one another, leaf by leaf
FullInv == \A o \in DOMAIN heap :
   LET ob == heap[o]  ps == LeafPaths(ob.c) IN
   \A i \in 1..Len(ps) :
     LET c == CfgAt(ob.c, ps[i])
         q == Slice(ob.q, VecOff(ob.c, ps[i]), VecSize(c))
     IN Unfull(c, Full(c, q)) = q
\* the leaves tile the vector: offsets are consecutive and cover it
LayoutInv == \A o \in DOMAIN heap :
   LET ob == heap[o]  ps == LeafPaths(ob.c)
       off == Tab(Len(ps), LAMBDA i : VecOff(ob.c, ps[i]))
       siz == Tab(Len(ps), LAMBDA i : VecSize(CfgAt(ob.c, ps[i])))
   IN /\ \A i \in 1..Len(ps) : off[i] = SumI(SubSeq(siz, 1, i - 1))
      /\ SumI(siz) = Len(ob.q)
\* an operation on one object changes no other object
Isolation == [][\A o \in DOMAIN heap :
   (\A k \in {last'} : Suites[sid].ops[k].o # o) => (o \in DOMAIN heap' =>
        (heap'[o] = heap[o] \/ ("to" \in DOMAIN Suites[sid].ops[last'] /\ Suites[sid].ops[last'].to = o)))]_vars
\* a write at a path changes no coordinate outside that path
Locality == [][LET op == Suites[sid].ops[last'] IN
   ("path" \in DOMAIN op /\ op.op # "new") =>
     LET c == heap[op.o].c
         lo == VecOff(c, op.path)  hi == lo + VecSize(CfgAt(c, op.path))
     IN \A i \in 1..Len(heap[op.o].q) :
          (i <= lo \/ i > hi) => heap'[op.o].q[i] = heap[op.o].q[i]]_vars
\* a rejected call and every read leave the store as it was
ReadOnly == [][LET op == Suites[sid].ops[last'] IN
   op.op \in {"bad", "rt", "get_free", "get_vector", "jac", "hess", "scribble"} => heap' = heap]_vars
=============================================================================
