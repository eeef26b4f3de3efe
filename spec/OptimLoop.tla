------------------------------ MODULE OptimLoop ----------------------------
(***************************************************************************)
(* Repeated optimisation.  The optimiser is an adversary: each round it    *)
(* returns any of finitely many points.  A run is a path through           *)
(*      init  --InitialOptimisation-->  loop  --Round*-->  done            *)
(* The objective is a polynomial, so values and gradients at the points    *)
(* are exact.                                                              *)
(*                                                                         *)
(* conf: [points, P, tol |-> [x, f, g], max, init, keep, start]            *)
(***************************************************************************)
EXTENDS Poly, Json, IOUtils

Confs == JsonDeserialize(IOEnv.LRVB_SUITES)   \* the configurations explored
VARIABLES cid, pc, x, i, hist, flags, kept,
          tab      \* values and gradient norms at the points (constant)
vars == <<cid, pc, x, i, hist, flags, kept, tab>>
Conf == Confs[cid]

ValueAt(c, p) == PolyEval(c.P, c.points[p])
GradAt(c, p) == LET n == Len(c.points[p]) IN
                Tab(n, LAMBDA k : PolyEval(PolyD(c.P, k), c.points[p]))
L1(v) == RSum(Tab(Len(v), LAMBDA k : RAbs(v[k])))
StepSize(c, p, q) == L1(VSub(Confs[c].points[q], Confs[c].points[p]))


\* the verdicts on a round that went from p to q
Verdicts(c, p, q) ==
  [x |-> RLt(StepSize(c, p, q), Confs[c].tol.x),
   f |-> RLt(RAbs(RSub(tab.f[q], tab.f[p])), Confs[c].tol.f),
   g |-> RLt(tab.g[q], Confs[c].tol.g)]
Met(v) == v.x \/ v.f \/ v.g
None == [x |-> FALSE, f |-> FALSE, g |-> FALSE]

Init ==
  /\ cid \in 1..Len(Confs)
  /\ pc = IF Confs[cid].init THEN "init" ELSE "loop"
  /\ x = Confs[cid].start
  /\ i = 0
  /\ hist = <<>>          \* points returned so far, the initial optimisation's included
  /\ flags = None
  /\ tab = [f |-> Tab(Len(Conf.points), LAMBDA p : ValueAt(Conf, p)),
            g |-> Tab(Len(Conf.points), LAMBDA p : L1(GradAt(Conf, p)))]
  /\ kept = <<>>          \* indices into hist of the results reported

InitialOptimisation ==
  /\ pc = "init"
  /\ \E p \in 1..Len(Conf.points) :
       /\ x' = p
       /\ hist' = <<p>>
  /\ kept' = IF Conf.keep THEN <<1>> ELSE <<>>
  /\ pc' = "loop"
  /\ UNCHANGED <<cid, i, flags, tab>>

Round ==
  /\ pc = "loop"
  /\ \E p \in 1..Len(Conf.points) :
       /\ x' = p
       /\ hist' = Append(hist, p)
       /\ flags' = Verdicts(cid, x, p)
  /\ i' = i + 1
  /\ kept' = IF Conf.keep THEN Append(kept, Len(hist')) ELSE kept
  /\ pc' = IF Met(flags') \/ i' = Conf.max THEN "done" ELSE "loop"
  /\ UNCHANGED <<cid, tab>>

Next == InitialOptimisation \/ Round
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* what the caller sees at the end
Report == [x |-> Conf.points[x], conv |-> Met(flags), flags |-> flags, kept |-> kept]

(* ---- properties ------------------------------------------------------- *)
\* the point each round starts from
Rounds == IF Conf.init THEN SubSeq(hist, 2, Len(hist)) ELSE hist
First == IF Conf.init THEN hist[1] ELSE Conf.start
From(k) == IF k = 1 THEN First ELSE Rounds[k - 1]
\* stops at the first round that meets a tolerance, or at the limit
StopsRight == pc = "done" =>
  /\ Len(Rounds) = i
  /\ \A k \in 1..(i - 1) : ~Met(Verdicts(cid, From(k), Rounds[k]))
  /\ Met(flags) \/ i = Conf.max
  /\ flags = Verdicts(cid, From(i), Rounds[i])
  /\ x = Rounds[i]
Bounded == i <= Conf.max
KeptInOrder == kept = IF Conf.keep THEN [k \in 1..Len(hist) |-> k] ELSE <<>>
Terminates == <>(pc = "done")
=============================================================================
