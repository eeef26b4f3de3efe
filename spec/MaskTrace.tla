------------------------------ MODULE MaskTrace ----------------------------
(* Judges masks recorded from the implementation.                           *)
EXTENDS Masks, Json, IOUtils
Records == JsonDeserialize(IOEnv.LRVB_SUITES)
VARIABLE k
Init == k = 0
Good(r) ==
  CASE r.kind = "split" -> Halves(r.asked, r.masks)
    [] r.kind = "recursive" -> Partition(r.asked, r.masks) /\ Within(r.masks, r.limit)
                               /\ Splitting(r.asked, r.masks, r.limit)
    [] r.kind = "blocks" -> Blocks(r.asked, r.masks, r.limit)
Next == /\ k < Len(Records)
        /\ k' = k + 1
        /\ ~Good(Records[k + 1]) => PrintT("@@" \o ToJson([bad |-> k + 1]))
Spec == Init /\ [][Next]_k
=============================================================================
