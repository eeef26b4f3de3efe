----------------------------- MODULE OptimTrace ----------------------------
(***************************************************************************)
(* Checks recorded runs of repeated optimisation with real optimisers      *)
(* against OptimLoop.  The recorder reports, for each round, whether it    *)
(* started where the previous one ended and whether step, change of value  *)
(* and gradient were below their tolerances (computed by the recorder from *)
(* the exact binary values of the points); magnitudes are not needed.      *)
(*                                                                         *)
(* trace: [max, inner, rounds |-> sequence of                              *)
(*           [chained, iters, success, small, x, f, g],                    *)
(*         end |-> [last, conv, x, f, g, result, kept]]                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.LRVB_SUITES)
VARIABLES t, k, pc
vars == <<t, k, pc>>
Tr == Traces[t]
Met(v) == v.x \/ v.f \/ v.g

Init == /\ t \in 1..Len(Traces) /\ k = 0 /\ pc = "loop"
Round ==
  /\ pc = "loop" /\ k < Len(Tr.rounds)
  /\ Tr.rounds[k + 1].chained
  /\ Tr.rounds[k + 1].iters <= Tr.inner   \* the optimiser was limited as asked
  /\ Tr.rounds[k + 1].success => Tr.rounds[k + 1].small  \* and stops where asked
  /\ k' = k + 1
  /\ pc' = IF Met(Tr.rounds[k + 1]) \/ k + 1 = Tr.max THEN "stop" ELSE "loop"
  /\ UNCHANGED t
Finish ==
  /\ pc = "stop" /\ k = Len(Tr.rounds)
  /\ Tr.end.last                      \* the reported point is the last one
  /\ Tr.end.result                    \* and so is the reported result
  /\ Tr.end.kept                      \* all results, in order, when asked for
  /\ [x |-> Tr.end.x, f |-> Tr.end.f, g |-> Tr.end.g] =
       [x |-> Tr.rounds[k].x, f |-> Tr.rounds[k].f, g |-> Tr.rounds[k].g]
  /\ Tr.end.conv = Met(Tr.rounds[k])
  /\ pc' = "done"
  /\ UNCHANGED <<t, k>>
Next == Round \/ Finish
Spec == Init /\ [][Next]_vars

Wrong == [][pc' = "done" => PrintT("@@" \o ToJson([t |-> t, k |-> k, done |-> TRUE]))]_vars
\* where a trace that is not a behaviour gets stuck
Stuck == (~ENABLED Next /\ pc # "done") =>
            PrintT("@@" \o ToJson([t |-> t, k |-> k, done |-> FALSE, pc |-> pc]))
=============================================================================
