------------------------------ MODULE MC_Terms -----------------------------
EXTENDS TermAlgebra, Poly, Json, IOUtils

(* Suites of three kinds:                                                  *)
(*   "taylor": start from the base terms and differentiate                 *)
(*   "terms":  start from given terms; consolidate, differentiate          *)
(*   "jvp":    directional derivatives of a polynomial function            *)
Suites == JsonDeserialize(IOEnv.LRVB_SUITES)
VARIABLES sid, ts, D, step
vars == <<sid, ts, D, step>>
S(i) == Suites[i]

Emit(k, t, d, r) == PrintT("@@" \o ToJson([s |-> sid, k |-> k, l |-> k - 1, p |-> <<>>, h |-> t, d |-> d, r |-> r]))

\* values of the terms, when there is something to evaluate with
Values(t, d) ==
  IF S(sid).eval
  THEN LET ob == S(sid).ob IN
       [terms |-> Tab(Len(t), LAMBDA i : TermValue(ob, t[i], d)),
        all |-> SumTerms(ob, t, d), lower |-> SumTerms(ob, Lower(t), d)]
  ELSE [terms |-> <<>>, all |-> <<>>, lower |-> <<>>]

StartTerms == IF S(sid).kind = "taylor" THEN BaseTerms ELSE IF S(sid).kind = "terms" THEN S(sid).terms ELSE <<>>
StartD ==
  IF S(sid).kind = "taylor" THEN IF S(sid).eval THEN << NextEta(S(sid).ob, BaseTerms, <<>>) >> ELSE <<>>
  ELSE IF S(sid).kind = "terms" THEN S(sid).D ELSE <<>>

Init ==
  /\ sid \in 1..Len(Suites)
  /\ ts = StartTerms
  /\ D = StartD
  /\ step = 0
  /\ PrintT("@@" \o ToJson([s |-> sid, i |-> 0, h |-> ts, d |-> D,
                            r |-> IF S(sid).kind = "jvp" THEN <<>> ELSE Values(ts, D)]))

Jvp(op) ==
  LET RECURSIVE Go(_, _)
      Go(p, i) == IF i > Len(op.dirs) THEN PolyEval(p, op.at)
                  ELSE Go(PolyDir(p, S(sid).offs[op.dirs[i].arg + 1], op.dirs[i].v), i + 1)
  IN Tab(Len(S(sid).fun), LAMBDA i : Go(S(sid).fun[i], 1))

Next ==
  /\ step < Len(S(sid).ops)
  /\ step' = step + 1
  /\ UNCHANGED sid
  /\ LET op == S(sid).ops[step + 1] IN
     CASE op.op = "diff" ->
            /\ ts' = Consolidate(DiffTerms(ts))
            \* the derivative of the new order, defined by the lower ones
            /\ D' = IF S(sid).kind = "taylor" /\ S(sid).eval
                    THEN Append(D, NextEta(S(sid).ob, Consolidate(DiffTerms(ts)), D)) ELSE D
            /\ Emit(step + 1, ts', D', Values(ts', D'))
       [] op.op = "rawdiff" ->
            /\ ts' = DiffTerms(ts) /\ D' = D
            /\ Emit(step + 1, ts', D', Values(ts', D'))
       [] op.op = "consolidate" ->
            /\ ts' = Consolidate(ts) /\ D' = D
            /\ Emit(step + 1, ts', D', Values(ts', D'))
       [] op.op = "jvp" ->
            /\ UNCHANGED <<ts, D>>
            /\ Emit(step + 1, ts, D, Jvp(op))
Spec == Init /\ [][Next]_vars

\* Every pattern of the order exactly once, with its chain rule coefficient.
ChainRule ==
  (S(sid).kind = "taylor" /\ ts # <<>> /\ (step = 0 \/ S(sid).ops[step].op # "rawdiff")) =>
    LET k == Order(ts[1]) IN
    /\ Len(ts) = Cardinality(AllPatterns(k))
    /\ Patterns(ts) = AllPatterns(k)
    /\ \A i \in 1..Len(ts) : ts[i].c = ChainCoef(k, Pattern(ts[i]))
\* also before consolidation, in total
ChainRuleRaw ==
  (S(sid).kind = "taylor" /\ ts # <<>>) =>
    LET k == Order(ts[1]) IN \A p \in AllPatterns(k) : Coef(ts, p) = ChainCoef(k, p)
\* consolidation keeps the sum, and nothing is left to combine
Keeps == [][(S(sid).ops[step'].op = "consolidate") =>
    /\ \A p \in Patterns(ts) \cup Patterns(ts') : Coef(ts, p) = Coef(ts', p)
    /\ Cardinality(Patterns(ts')) = Len(ts')
    /\ S(sid).eval => SumTerms(S(sid).ob, ts, D) = SumTerms(S(sid).ob, ts', D)]_vars
=============================================================================
