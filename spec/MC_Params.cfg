SPECIFICATION Spec
INVARIANTS TypeOK FeasibleInv RoundTripInv FullInv LayoutInv
PROPERTIES Isolation Locality ReadOnly
CHECK_DEADLOCK FALSE
