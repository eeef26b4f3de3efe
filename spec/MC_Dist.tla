------------------------------- MODULE MC_Dist -----------------------------
EXTENDS DistMoments, Json, IOUtils
EF == INSTANCE ExpFam
Suites == JsonDeserialize(IOEnv.LRVB_SUITES)
VARIABLES sid, heap, last, step
vars == <<sid, heap, last, step>>

InitHeap(s) ==
  LET ini == Suites[s].init IN
  [k \in {ini[i].o : i \in 1..Len(ini)} |->
     LET e == CHOOSE i \in 1..Len(ini) : ini[i].o = k IN Obj(ini[e].c, FreeToVec(ini[e].c, ini[e].x))]
Snap(h) == [k \in DOMAIN h |-> Snapshot(h[k])]
Reports(h) == [k \in DOMAIN h |-> IF h[k].ix THEN <<>> ELSE Report(h[k])]
Init ==
  /\ sid \in 1..Len(Suites)
  /\ heap = InitHeap(sid)
  /\ last = 0 /\ step = 0
  /\ PrintT("@@" \o ToJson([s |-> sid, i |-> 0, h |-> Snap(heap), m |-> Reports(heap)]))
Do(k) ==
  LET op == Suites[sid].ops[k]  e == DEffect(heap, op) IN
  /\ heap' = e.h
  /\ last' = k
  /\ step' = IF Suites[sid].mode = "script" THEN step + 1 ELSE 0
  /\ UNCHANGED sid
  /\ PrintT("@@" \o ToJson([s |-> sid, l |-> last, p |-> Snap(heap), k |-> k, r |-> e.r,
                            h |-> Snap(e.h), m |-> Reports(e.h)]))
Next ==
  \/ Suites[sid].mode = "script" /\ step < Len(Suites[sid].ops) /\ Do(step + 1)
  \/ Suites[sid].mode = "graph" /\ \E k \in 1..Len(Suites[sid].ops) : Do(k)
Spec == Init /\ [][Next]_vars

FeasibleInv == \A o \in DOMAIN heap : heap[o].ix \/ Feasible(heap[o].c, heap[o].q)

(* ---- agreement with the closed forms of ExpFam ---------------------------- *)
Named(ms, nm) == LET i == CHOOSE k \in 1..Len(ms) : ms[k].n = nm IN ms[i].v
HasM(ms, nm) == \E k \in 1..Len(ms) : ms[k].n = nm
Nums(qs) == Tab(Len(qs), LAMBDA i : [q |-> qs[i], e |-> 0])
Agrees(ob, path) ==
  LET c == CfgAt(ob.c, path)  ms == ValuesAt(ob, path)  f == Full(c, PartVec(ob, path)) IN
  CASE Class(c) \in {"UVNParam", "UVNParamVector", "UVNParamArray"} ->
         LET k == Len(f) \div 2
             d == [fam |-> "uvn", b |-> Nums(SubSeq(f, k + 1, Len(f)))] IN
         /\ Named(ms, "entropy") = EF!Ent(d)
         /\ \A i \in 1..k :
              /\ Named(ms, "e_exp")[i] = EF!ELogNormal(f[i], RInv(f[k + i]))
              /\ Named(ms, "var_exp")[i] = EF!VarLogNormal(f[i], RInv(f[k + i]))
              /\ SSub(Named(ms, "e_outer")[i], SRat(RMul(f[i], f[i]))) = Named(ms, "var")[i]
    [] Class(c) = "MVNParam" ->
         LET k == c.items[2].c.m  M == Square(SubSeq(f, k + 1, Len(f)), k) IN
         /\ Named(ms, "entropy") = <<EF!MvnH([fam |-> "mvn", m |-> <<M>>, e |-> 0])>>
    [] Class(c) = "GammaParam" ->
         /\ Named(ms, "entropy") = <<EF!GammaH(f[1], [q |-> f[2], e |-> 0])>>
         /\ Named(ms, "e_log") = <<EF!ELogGamma(f[1], [q |-> f[2], e |-> 0])>>
    [] Class(c) = "WishartParam" ->
         LET k == c.items[2].c.m  d == [fam |-> "wishart", df |-> f[1], m |-> <<Square(Tail(f), k)>>, e |-> 0] IN
         /\ Named(ms, "entropy") = <<EF!WishH(d)>>
         /\ Named(ms, "e_log_det") = <<EF!ELogDetWish(d)>>
    [] Class(c) = "DirichletParamArray" ->
         LET k == c.items[1].c.shape[1]  w == Len(f) \div k IN
         \A j \in 1..w :
           LET al == Tab(k, LAMBDA i : f[(i - 1) * w + j])  el == EF!ELogDir(al) IN
           /\ Named(ms, "entropy")[j] = EF!DirH(al)
           /\ \A i \in 1..k : Named(ms, "e_log")[(i - 1) * w + j] = el[i]
    [] OTHER -> TRUE
Agreement == \A o \in DOMAIN heap : heap[o].ix \/
   LET ps == DistPaths(heap[o].c) IN \A i \in 1..Len(ps) : Agrees(heap[o], ps[i])
\* a moment parameterization set from a parameter has that parameter's moments
FromLaw == [][
  LET op == Suites[sid].ops[last'] IN
  op.op = "from_uvn" /\ LegalFrom(heap, op) =>
    LET a == ValuesAt(heap[op.src], op.spath)  b == ValuesAt(heap'[op.o], op.path) IN
    \A i \in 1..Len(a) : HasM(b, a[i].n) /\ Named(b, a[i].n) = a[i].v]_vars
\* the derivative's value is the moment
JetLaw == [][
  LET op == Suites[sid].ops[last'] IN
  op.op = "deriv" =>
    LET a == ValuesAt(heap[op.o], op.path)  b == JetsAt(heap[op.o], op.path) IN
    \A i \in 1..Len(a) : a[i].n = b[i].n /\ a[i].v = Tab(Len(b[i].v), LAMBDA k : b[i].v[k].v)]_vars
=============================================================================
