------------------------------- MODULE EvalLog -----------------------------
(***************************************************************************)
(* The evaluation logs of several objectives.  State of one log:           *)
(*   pairs : the pairs <<value, point>> logged since the last reset        *)
(*   every : the reporting interval                                        *)
(*   cb    : the callback installed, 0 if none                             *)
(* Values and points are opaque here: what an operation logs is given with *)
(* the operation, and the implementation decides what they are.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

LStart(every) == [pairs |-> <<>>, every |-> every, cb |-> 0]

\* does the operation add to the log
Logs(op) == \/ op.op = "log"
            \/ op.op \in {"eval", "cond"} /\ op.verbose /\ ~op.boom
\* is the evaluation about to be logged reported
Reports(l) == Len(l.pairs) % l.every = 0

LAfter(l, op) ==
  IF Logs(op) THEN [l EXCEPT !.pairs = Append(@, <<op.v, op.p>>)]
  ELSE CASE op.op = "reset" -> [l EXCEPT !.pairs = <<>>]
         [] op.op = "every" -> [l EXCEPT !.every = op.k]
         [] op.op = "callback" -> [l EXCEPT !.cb = op.k]
         [] OTHER -> l
\* who is told: -1 nobody, 0 the standard output, otherwise the callback;
\* with the number of evaluations logged before
LTold(l, op) == IF Logs(op) /\ Reports(l) THEN [to |-> l.cb, n |-> Len(l.pairs)]
                ELSE [to |-> -1, n |-> 0]
=============================================================================
