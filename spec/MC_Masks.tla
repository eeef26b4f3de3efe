------------------------------ MODULE MC_Masks -----------------------------
(* The halving machine itself, for every number of coordinates and limit.   *)
EXTENDS Masks
CONSTANTS N
VARIABLES n, limit, stack, out
vars == <<n, limit, stack, out>>
Init == /\ n \in 0..N /\ limit \in 1..N
        /\ stack = <<Ascending(n)>> /\ out = <<>>
Emit == /\ stack # <<>> /\ Len(Head(stack)) <= limit
        /\ out' = Append(out, Head(stack))
        /\ stack' = Tail(stack)
        /\ UNCHANGED <<n, limit>>
Cut == /\ stack # <<>> /\ Len(Head(stack)) > limit
       /\ \E c \in Cuts(Head(stack)) :
            LET m == Head(stack) IN
            stack' = <<SubSeq(m, 1, c), SubSeq(m, c + 1, Len(m))>> \o Tail(stack)
       /\ UNCHANGED <<n, limit, out>>
Next == Emit \/ Cut
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* nothing is lost or reordered on the way
Conserved == Flat(out) \o Flat(stack) = Ascending(n)
LimitKept == Within(out, limit)
Result == stack = <<>> => Splitting(Ascending(n), out, limit)
Terminates == <>(stack = <<>>)
=============================================================================
