-------------------------------- MODULE Masks ------------------------------
(***************************************************************************)
(* Splitting coordinates into masks.  A mask is the ascending sequence of  *)
(* the coordinates it selects.                                             *)
(*                                                                         *)
(* Recursive halving is a machine with a stack of masks still to be split  *)
(* and the sequence of masks emitted.  Where exactly a mask is halved is   *)
(* left open: any cut whose parts differ by at most one in length.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Ascending(n) == [i \in 1..n |-> i]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

\* what the masks for the coordinates asked for must look like
Partition(asked, masks) == Flat(masks) = asked
Within(masks, limit) == \A i \in 1..Len(masks) : Len(masks[i]) <= limit
Halves(asked, masks) ==
  /\ Len(masks) = 2
  /\ Partition(asked, masks)
  /\ Len(masks[1]) - Len(masks[2]) \in {-1, 0, 1}
Blocks(asked, masks, limit) ==
  /\ Partition(asked, masks)
  /\ \A i \in 1..Len(masks) : IF i < Len(masks) THEN Len(masks[i]) = limit
                              ELSE Len(masks[i]) \in 1..limit
\* by repeated halving: nothing is cut that need not be
RECURSIVE Splitting(_, _, _)
Splitting(asked, masks, limit) ==
  IF Len(asked) <= limit THEN masks = <<asked>>
  ELSE \E k \in 1..(Len(masks) - 1) :
         LET a == Flat(SubSeq(masks, 1, k))  b == Flat(SubSeq(masks, k + 1, Len(masks))) IN
         /\ Len(a) - Len(b) \in {-1, 0, 1}
         /\ a \o b = asked
         /\ Splitting(a, SubSeq(masks, 1, k), limit)
         /\ Splitting(b, SubSeq(masks, k + 1, Len(masks)), limit)

Cuts(m) == IF Len(m) % 2 = 0 THEN {Len(m) \div 2} ELSE {Len(m) \div 2, (Len(m) \div 2) + 1}
=============================================================================
