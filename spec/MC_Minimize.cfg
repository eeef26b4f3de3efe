SPECIFICATION Spec
INVARIANT OptimalInv
CHECK_DEADLOCK FALSE
